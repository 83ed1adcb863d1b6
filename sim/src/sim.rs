//! Run context: entering and leaving library code, injected panics, violations, counters, notes,
//! the owned-token ledger and the stack probe.

use crate::{alloc, clock};
use crate::tape::Tape;
use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::mem::ManuallyDrop;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;

// ---------------------------------------------------------------- library sections

thread_local! {
    static SUT: Cell<bool> = const { Cell::new(false) };
    static YIELD: Cell<bool> = const { Cell::new(false) };
    static SP_MIN: Cell<usize> = const { Cell::new(usize::MAX) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

#[inline]
pub fn in_sut() -> bool {
    SUT.try_with(Cell::get).unwrap_or(false)
}

/// While alive, the current thread runs simulator code: allocations are not the library's.
pub struct Pause(bool);
#[inline]
pub fn pause() -> Pause {
    clock::active(false);
    Pause(SUT.with(|s| s.replace(false)))
}
impl Drop for Pause {
    #[inline]
    fn drop(&mut self) {
        SUT.with(|s| s.set(self.0));
        resume(self.0);
    }
}
/// Whether the library can be preempted here.
#[inline(always)]
fn resume(in_sut: bool) {
    if clock::PREEMPT {
        clock::active(in_sut && YIELD.with(Cell::get));
    }
}

/// While alive, the current thread runs library (or participant data) code.
pub struct Enter(bool);
pub fn enter() -> Enter {
    let e = Enter(SUT.with(|s| s.replace(true)));
    resume(true);
    e
}
impl Drop for Enter {
    fn drop(&mut self) {
        clock::active(false);
        SUT.with(|s| s.set(self.0));
        resume(self.0);
    }
}

pub fn set_yield(on: bool) {
    YIELD.with(|y| y.set(on));
}
#[inline]
pub fn yield_at_alloc() {
    if YIELD.try_with(Cell::get).unwrap_or(false) && !std::thread::panicking() {
        let _p = pause();
        crate::sched::yield_point();
    }
}
#[inline]
pub fn yield_at_callback() {
    if YIELD.with(Cell::get) && !std::thread::panicking() {
        crate::sched::yield_point();
    }
}

#[inline]
pub fn sp_probe() {
    let x = 0u8;
    let a = std::ptr::addr_of!(x) as usize;
    let _ = SP_MIN.try_with(|s| {
        if a < s.get() {
            s.set(a);
        }
    });
}

pub struct SimPanic;
pub struct SimOom;

#[derive(Debug, Clone, PartialEq)]
pub enum Stop {
    Injected,
    Oom,
    Unexpected(String),
}

pub type Out<T> = Result<T, Stop>;

/// Run library code on this thread, catching unwinds.
pub fn sut<T>(f: impl FnOnce() -> T) -> Out<T> {
    let r = {
        let _e = enter();
        catch_unwind(AssertUnwindSafe(f))
    };
    match r {
        Ok(v) => Ok(v),
        Err(p) => {
            let k = classify(&p);
            let _e = enter();
            drop(p);
            Err(k)
        }
    }
}

fn classify(p: &Box<dyn Any + Send>) -> Stop {
    if p.is::<SimPanic>() {
        Stop::Injected
    } else if p.is::<SimOom>() {
        Stop::Oom
    } else {
        Stop::Unexpected(LAST_PANIC.with(|l| l.borrow().clone()))
    }
}

pub fn inject_panic() -> ! {
    resume_unwind(Box::new(SimPanic))
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let _p = pause();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_owned())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if std::env::var_os("SIM_BACKTRACE").is_some() {
            eprintln!("panic at {loc}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        if !in_harness_ok() {
            eprintln!("panic outside library section at {loc}: {msg}");
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = format!("{msg} @ {loc}"));
    }));
    std::alloc::set_alloc_error_hook(|_| {
        crate::alloc::FAIL_AT.store(0, std::sync::atomic::Ordering::Relaxed);
        resume_unwind(Box::new(SimOom));
    });
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().clone())
}

thread_local! { static HARNESS_OK: Cell<bool> = const { Cell::new(true) }; }
fn in_harness_ok() -> bool {
    HARNESS_OK.with(Cell::get)
}

// ---------------------------------------------------------------- violations

#[derive(Clone, Copy, Debug)]
pub enum Raw {
    DoubleFree = 1,
    BadFree = 2,
    LayoutMismatch = 4,
    Overrun = 8,
    WriteAfterFree = 16,
    AllocBudget = 32,
    MemBudget = 64,
}
static RAW: AtomicU32 = AtomicU32::new(0);
/// Callable from inside the allocator.
pub fn raw_violation(r: Raw) {
    RAW.fetch_or(r as u32, Relaxed);
}

static VIOL: Mutex<Vec<(String, String)>> = Mutex::new(Vec::new());

pub fn violation(class: &str, msg: impl AsRef<str>) {
    let _p = pause();
    let mut v = VIOL.lock().unwrap_or_else(|e| e.into_inner());
    if v.len() < 16 {
        v.push((class.to_owned(), msg.as_ref().to_owned()));
    }
}
#[macro_export]
macro_rules! violate {
    ($class:expr, $($t:tt)*) => {{
        let _p = $crate::sim::pause();
        $crate::sim::violation($class, format!($($t)*));
    }};
}

pub fn take_violations() -> Vec<(String, String)> {
    let raw = RAW.swap(0, Relaxed);
    let mut v = std::mem::take(&mut *VIOL.lock().unwrap_or_else(|e| e.into_inner()));
    for (bit, class, msg) in [
        (1, "double-free", "a heap block was freed twice"),
        (2, "bad-free", "a pointer was freed that is no live heap block"),
        (4, "layout-mismatch", "a heap block was freed with another size or alignment"),
        (8, "heap-overrun", "a heap block was written past its end"),
        (16, "write-after-free", "a heap block was written after it was freed"),
        (32, "alloc-budget", "the call made more allocations than the budget allows"),
        (64, "memory-budget", "the call held more memory than the budget allows"),
    ] {
        if raw & bit != 0 {
            v.insert(0, (class.to_owned(), msg.to_owned()));
        }
    }
    v
}
pub fn violated() -> bool {
    RAW.load(Relaxed) != 0 || !VIOL.lock().unwrap_or_else(|e| e.into_inner()).is_empty()
}

// ---------------------------------------------------------------- counters, notes, history hash

static STATS: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
pub fn stat(k: &str, n: u64) {
    let _p = pause();
    let mut s = STATS.lock().unwrap_or_else(|e| e.into_inner());
    match s.get_mut(k) {
        Some(v) => *v += n,
        None => {
            s.insert(k.to_owned(), n);
        }
    }
}
pub fn stat_max(k: &str, n: u64) {
    let _p = pause();
    let mut s = STATS.lock().unwrap_or_else(|e| e.into_inner());
    let v = s.entry(format!("max.{k}")).or_insert(0);
    *v = (*v).max(n);
}
pub fn take_stats() -> BTreeMap<String, u64> {
    std::mem::take(&mut *STATS.lock().unwrap_or_else(|e| e.into_inner()))
}

static VERBOSE: AtomicBool = AtomicBool::new(false);
static NOTES: Mutex<Vec<String>> = Mutex::new(Vec::new());
pub fn set_verbose(b: bool) {
    VERBOSE.store(b, Relaxed);
}
pub fn verbose() -> bool {
    VERBOSE.load(Relaxed)
}
pub fn push_note(s: String) {
    let mut n = NOTES.lock().unwrap_or_else(|e| e.into_inner());
    if n.len() < 400 {
        n.push(s);
    }
}
pub fn take_notes() -> Vec<String> {
    std::mem::take(&mut *NOTES.lock().unwrap_or_else(|e| e.into_inner()))
}
#[macro_export]
macro_rules! note {
    ($($t:tt)*) => {{
        if $crate::sim::verbose() {
            let _p = $crate::sim::pause();
            $crate::sim::push_note(format!($($t)*));
        }
    }};
}

/// Hash of everything observable that happened in this run, and the number of simulated steps.
static HISTORY: AtomicU64 = AtomicU64::new(0);
static STEPS: AtomicU64 = AtomicU64::new(0);
pub fn observe(v: u64) {
    HISTORY.store(crate::tape::mix(HISTORY.load(Relaxed), v), Relaxed);
}
pub fn observe_str(s: &str) {
    observe(crate::tape::hash_str(s));
}
pub fn step() {
    STEPS.fetch_add(1, Relaxed);
}
pub fn history() -> u64 {
    HISTORY.load(Relaxed)
}
pub fn steps() -> u64 {
    STEPS.load(Relaxed)
}

// ---------------------------------------------------------------- ledger of owned tokens

const MAGIC: u64 = 0x70CE_70CE_70CE_70CE;
const DEADM: u64 = 0xDEAD_70CE_DEAD_70CE;
static LEDGER: Mutex<Vec<u8>> = Mutex::new(Vec::new()); // 1 = alive, 2 = destroyed

/// A resource that must be destroyed exactly once.
pub struct Tok {
    magic: u64,
    id: u32,
    heap: ManuallyDrop<Box<u64>>,
}

impl Tok {
    pub fn new() -> Self {
        let heap = Box::new(0u64); // library-section memory: tracked, may fail
        let _p = pause();
        let mut l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
        let id = l.len() as u32;
        l.push(1);
        let mut heap = heap;
        *heap = MAGIC ^ u64::from(id);
        Tok { magic: MAGIC, id, heap: ManuallyDrop::new(heap) }
    }
    /// The participant owning this token is being used.
    pub fn check(&self, what: &str) {
        if self.magic != MAGIC {
            if self.magic == DEADM {
                violate!("use-after-drop", "{what}: a destroyed participant was used");
            } else {
                violate!("use-of-garbage", "{what}: a participant in freed or uninitialised memory was used");
            }
            return;
        }
        let alive = {
            let _p = pause();
            let l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
            l.get(self.id as usize).copied()
        };
        if alive != Some(1) {
            violate!("use-after-drop", "{what}: participant #{} was used after its destruction", self.id);
        } else if **self.heap != MAGIC ^ u64::from(self.id) {
            violate!("corrupted", "{what}: the data of participant #{} was overwritten", self.id);
        }
    }
}

impl Drop for Tok {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            if self.magic == DEADM {
                violate!("double-drop", "a participant was destroyed twice");
            } else {
                violate!("drop-of-garbage", "a destructor ran on freed or uninitialised memory");
            }
            return;
        }
        let was = {
            let _p = pause();
            let mut l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
            match l.get_mut(self.id as usize) {
                Some(s) => std::mem::replace(s, 2),
                None => 0,
            }
        };
        if was != 1 {
            violate!("double-drop", "participant #{} was destroyed twice", self.id);
            return;
        }
        unsafe {
            std::ptr::write_volatile(&mut self.magic, DEADM);
            ManuallyDrop::drop(&mut self.heap);
        }
    }
}

pub fn ledger_reset() {
    let mut l = LEDGER.lock().unwrap_or_else(|e| e.into_inner());
    l.clear();
}
pub fn ledger_total() -> usize {
    LEDGER.lock().unwrap_or_else(|e| e.into_inner()).len()
}
pub fn ledger_alive() -> usize {
    LEDGER.lock().unwrap_or_else(|e| e.into_inner()).iter().filter(|&&s| s == 1).count()
}

/// All participants destroyed, all memory back, nothing written after free.
pub fn conservation_check(what: &str) {
    let a = ledger_alive();
    if a != 0 {
        violate!("leak", "{what}: {a} of {} participants were never destroyed", ledger_total());
    } else if alloc::live() != 0 {
        violate!("leak-memory", "{what}: {} heap blocks were never returned", alloc::live());
    }
    alloc::flush_quarantine();
}
/// Without regard to memory that no participant owns.
pub fn participants_check(what: &str) {
    let a = ledger_alive();
    if a != 0 {
        violate!("leak", "{what}: {a} of {} participants were never destroyed", ledger_total());
    }
    alloc::flush_quarantine();
}
/// Only the part that must hold even when leaking is legitimate.
pub fn safety_check() {
    alloc::flush_quarantine();
}

pub fn begin_run(tape: &Tape) {
    let _ = tape;
    ledger_reset();
    HISTORY.store(0, Relaxed);
    STEPS.store(0, Relaxed);
    RAW.store(0, Relaxed);
    let _ = take_violations();
    let _ = take_notes();
    alloc::begin_run();
}

// ---------------------------------------------------------------- stack high-water mark

/// Runs `f` and returns how many bytes of stack below the caller it touched (up to `limit`).
#[inline(never)]
pub fn stack_use<T>(limit: usize, f: impl FnOnce() -> T) -> (T, usize) {
    const W: u64 = 0xA7A7_5157_A7A7_5157;
    if cfg!(miri) {
        return (f(), 0);
    }
    let here = 0u8;
    let top = (std::ptr::addr_of!(here) as usize - 2048) & !63;
    let bottom = top - limit;
    unsafe {
        let mut p = bottom;
        while p < top {
            std::ptr::write_volatile(p as *mut u64, W);
            p += 8;
        }
    }
    let r = f();
    let used = unsafe {
        let mut p = bottom;
        while p < top && std::ptr::read_volatile(p as *const u64) == W {
            p += 8;
        }
        top - p
    };
    (r, used)
}
