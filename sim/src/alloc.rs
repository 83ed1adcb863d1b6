//! The simulated allocator. Outside library sections it only forwards. Inside, every block is
//! tracked (owner run, size, alignment), framed by canaries, moved on every realloc, filled with
//! garbage when handed out and with poison when freed; freed blocks stay in quarantine until the
//! end of the run and are then checked for writes. Any one allocation can be made to fail.
//! Under Miri it only counts and injects failures, so that Miri sees the real blocks.

use crate::{clock, sim};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub struct SimAlloc;

pub static EPOCH: AtomicUsize = AtomicUsize::new(1);
pub static N_ALLOC: AtomicU64 = AtomicU64::new(0);
pub static BYTES: AtomicU64 = AtomicU64::new(0);
pub static LIVE: AtomicU64 = AtomicU64::new(0);
pub static LIVE_BYTES: AtomicU64 = AtomicU64::new(0);
pub static PEAK_BYTES: AtomicU64 = AtomicU64::new(0);
/// Index (1-based) of the tracked allocation to fail; 0 = none.
pub static FAIL_AT: AtomicU64 = AtomicU64::new(0);
/// How many allocations in a row to refuse from there, or until one of them unwinds.
pub static FAIL_LEN: AtomicU64 = AtomicU64::new(1);
pub static FAIL_FIRED: AtomicBool = AtomicBool::new(false);
/// Allocation and live byte budgets that stop a runaway call.
pub static MAX_ALLOCS: AtomicU64 = AtomicU64::new(u64::MAX);
pub static MAX_LIVE: AtomicU64 = AtomicU64::new(u64::MAX);

const TRACKED: u64 = 0x5157_7ac4_ed00_0001;
const PLAIN: u64 = 0x5157_91a1_0000_0002;
const FREED: u64 = 0x5157_f4ee_d000_0003;
const CANARY: u64 = 0xC0DE_CAFE_F00D_D00D;
const POISON: u8 = 0xDE;
const GARBAGE: u8 = 0xA5;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    align: u32,
    epoch: u32,
    next: *mut Head,
}
const HEAD: usize = 32;

struct Quarantine {
    head: *mut Head,
    tail: *mut Head,
    bytes: usize,
}
static QLOCK: AtomicBool = AtomicBool::new(false);
static mut QUAR: Quarantine = Quarantine { head: std::ptr::null_mut(), tail: std::ptr::null_mut(), bytes: 0 };
const QMAX: usize = 64 << 20;

fn pre(align: usize) -> usize {
    HEAD.max(align)
}

unsafe fn release(h: *mut Head) {
    let align = (*h).align as usize;
    let size = (*h).size;
    let p = pre(align);
    let user = (h as *mut u8).add(HEAD);
    (*h).magic = 0;
    System.dealloc(user.sub(p), Layout::from_size_align_unchecked(p + size + 8, align.max(16)));
}

unsafe fn evict() {
    #[allow(static_mut_refs)]
    let q = &mut QUAR;
    let h = q.head;
    q.head = (*h).next;
    if q.head.is_null() {
        q.tail = std::ptr::null_mut();
    }
    q.bytes -= (*h).size;
    let user = (h as *mut u8).add(HEAD);
    let mut dirty = false;
    for i in 0..(*h).size {
        if *user.add(i) != POISON {
            dirty = true;
            break;
        }
    }
    if dirty {
        sim::raw_violation(sim::Raw::WriteAfterFree);
    }
    release(h);
}

pub fn flush_quarantine() {
    if cfg!(miri) {
        return;
    }
    while QLOCK.swap(true, std::sync::atomic::Ordering::Acquire) {}
    unsafe {
        #[allow(static_mut_refs)]
        while !QUAR.head.is_null() {
            evict();
        }
    }
    QLOCK.store(false, std::sync::atomic::Ordering::Release);
}

pub fn begin_run() {
    flush_quarantine();
    EPOCH.fetch_add(1, Relaxed);
    LIVE.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
    begin_call();
    FAIL_FIRED.store(false, Relaxed);
    FAIL_AT.store(0, Relaxed);
    FAIL_LEN.store(1, Relaxed);
    MAX_ALLOCS.store(20_000_000, Relaxed);
    MAX_LIVE.store(4 << 30, Relaxed);
}

pub fn begin_call() {
    N_ALLOC.store(0, Relaxed);
    BYTES.store(0, Relaxed);
    PEAK_BYTES.store(LIVE_BYTES.load(Relaxed), Relaxed);
}

/// Forget what is still live: later executions of the same run start from zero.
pub fn write_off() {
    flush_quarantine();
    EPOCH.fetch_add(1, Relaxed);
    LIVE.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
}

/// Arms the refusal of the `k`-th allocation (from 0) and maybe of those right after it: a caller that does without
/// one block, or asks for a smaller one, is refused again.
pub fn refuse(k: usize, shift: usize) {
    FAIL_LEN.store([1, 1, 2, 3, u64::MAX][(k + shift) % 5], Relaxed);
    FAIL_FIRED.store(false, Relaxed);
    FAIL_AT.store(k as u64 + 1, Relaxed);
}

/// Live tracked blocks of this run.
pub fn live() -> u64 {
    LIVE.load(Relaxed)
}

impl SimAlloc {
    /// Counting and failing, shared by the native and the Miri variant. True = refuse.
    fn admit(&self, size: usize) -> bool {
        let n = N_ALLOC.fetch_add(1, Relaxed) + 1;
        BYTES.fetch_add(size as u64, Relaxed);
        let at = FAIL_AT.load(Relaxed);
        if at != 0 && n >= at && n - at < FAIL_LEN.load(Relaxed) && !std::thread::panicking() {
            FAIL_FIRED.store(true, Relaxed);
            return true;
        }
        if n > MAX_ALLOCS.load(Relaxed) && !std::thread::panicking() {
            sim::raw_violation(sim::Raw::AllocBudget);
            return true;
        }
        if LIVE_BYTES.load(Relaxed) + size as u64 > MAX_LIVE.load(Relaxed) && !std::thread::panicking() {
            sim::raw_violation(sim::Raw::MemBudget);
            return true;
        }
        false
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let clock = clock::now();
        let on = clock::is_active();
        clock::active(false);
        let p = self.hand_out(l);
        clock::active(on);
        clock::set(clock + 10);
        p
    }

    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = self.alloc(l);
        if !p.is_null() {
            p.write_bytes(0, l.size());
        }
        p
    }

    unsafe fn realloc(&self, ptr: *mut u8, l: Layout, new: usize) -> *mut u8 {
        // Always moves, so that a pointer kept across a growth is stale.
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(ptr, q, l.size().min(new));
            self.dealloc(ptr, l);
        }
        q
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let clock = clock::now();
        let on = clock::is_active();
        clock::active(false);
        self.take_back(user, l);
        clock::active(on);
        clock::set(clock + 10);
    }
}

impl SimAlloc {
    unsafe fn hand_out(&self, l: Layout) -> *mut u8 {
        if cfg!(miri) {
            if sim::in_sut() {
                if self.admit(l.size()) {
                    return std::ptr::null_mut();
                }
                LIVE_BYTES.fetch_add(l.size() as u64, Relaxed);
            }
            return System.alloc(l);
        }
        let tracked = sim::in_sut();
        if tracked {
            sim::sp_probe();
            sim::yield_at_alloc();
            clock::active(false);
            if self.admit(l.size()) {
                return std::ptr::null_mut();
            }
        }
        let p = pre(l.align());
        let base = System.alloc(Layout::from_size_align_unchecked(p + l.size() + 8, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let user = base.add(p);
        let h = user.sub(HEAD) as *mut Head;
        (*h).magic = if tracked { TRACKED } else { PLAIN };
        (*h).size = l.size();
        (*h).align = l.align() as u32;
        (*h).epoch = EPOCH.load(Relaxed) as u32;
        (*h).next = std::ptr::null_mut();
        (user.add(l.size()) as *mut u64).write_unaligned(CANARY);
        if tracked {
            user.write_bytes(GARBAGE, l.size());
            LIVE.fetch_add(1, Relaxed);
            let b = LIVE_BYTES.fetch_add(l.size() as u64, Relaxed) + l.size() as u64;
            PEAK_BYTES.fetch_max(b, Relaxed);
        }
        user
    }

    unsafe fn take_back(&self, user: *mut u8, l: Layout) {
        if cfg!(miri) {
            if sim::in_sut() {
                let _ = LIVE_BYTES.fetch_update(Relaxed, Relaxed, |b| Some(b.saturating_sub(l.size() as u64)));
            }
            return System.dealloc(user, l);
        }
        let h = user.sub(HEAD) as *mut Head;
        if sim::in_sut() {
            sim::sp_probe();
        }
        match (*h).magic {
            PLAIN => {
                if (*h).size != l.size() || (*h).align as usize != l.align() {
                    sim::raw_violation(sim::Raw::LayoutMismatch);
                }
                release(h);
            }
            TRACKED => {
                if (*h).size != l.size() || (*h).align as usize != l.align() {
                    sim::raw_violation(sim::Raw::LayoutMismatch);
                }
                if (user.add((*h).size) as *const u64).read_unaligned() != CANARY {
                    sim::raw_violation(sim::Raw::Overrun);
                }
                if (*h).epoch == EPOCH.load(Relaxed) as u32 {
                    LIVE.fetch_sub(1, Relaxed);
                    LIVE_BYTES.fetch_sub((*h).size as u64, Relaxed);
                }
                (*h).magic = FREED;
                user.write_bytes(POISON, (*h).size);
                while QLOCK.swap(true, std::sync::atomic::Ordering::Acquire) {}
                #[allow(static_mut_refs)]
                let q = &mut QUAR;
                (*h).next = std::ptr::null_mut();
                if q.tail.is_null() {
                    q.head = h;
                } else {
                    (*q.tail).next = h;
                }
                q.tail = h;
                q.bytes += (*h).size;
                while q.bytes > QMAX {
                    evict();
                }
                QLOCK.store(false, std::sync::atomic::Ordering::Release);
            }
            FREED => sim::raw_violation(sim::Raw::DoubleFree),
            _ => sim::raw_violation(sim::Raw::BadFree),
        }
    }
}
