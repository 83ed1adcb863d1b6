//! Simulated CPU time. In the build with feature `clock` every basic block of the library, of the
//! derived code and of std ticks once (the compiler inserts the calls, see check.sh), and bytes
//! moved, filled or compared by memcpy and its kin tick once per 16. A tick is one simulated
//! nanosecond: the same execution always takes the same time, on any machine under any load.

#[cfg(feature = "clock")]
std::arch::global_asm!(
    // Every thread has a clock of its own.
    ".section .tbss,\"awT\",@nobits",
    ".globl SIM_TICKS",
    ".type SIM_TICKS, @object",
    ".size SIM_TICKS, 8",
    ".p2align 3",
    "SIM_TICKS: .zero 8",
    ".section .tdata,\"awT\",@progbits",
    ".globl SIM_DEADLINE",
    ".type SIM_DEADLINE, @object",
    ".size SIM_DEADLINE, 8",
    ".p2align 3",
    "SIM_DEADLINE: .quad -1",
    ".text",
    ".globl __sanitizer_cov_trace_pc_guard",
    "__sanitizer_cov_trace_pc_guard:",
    "mov rax, qword ptr fs:[SIM_TICKS@tpoff]",
    "inc rax",
    "mov qword ptr fs:[SIM_TICKS@tpoff], rax",
    "cmp rax, qword ptr fs:[SIM_DEADLINE@tpoff]",
    "ja 2f",
    "ret",
    "2:",
    "mov qword ptr fs:[SIM_DEADLINE@tpoff], -1",
    "and rsp, -16",
    "call sim_time_is_up",
    ".globl __sanitizer_cov_trace_pc_guard_init",
    "__sanitizer_cov_trace_pc_guard_init:",
    "ret",
    ".macro counted name",
    ".globl __wrap_\\name",
    "__wrap_\\name:",
    "mov rax, rdx",
    "shr rax, 4",
    "inc rax",
    "add qword ptr fs:[SIM_TICKS@tpoff], rax",
    "jmp __real_\\name",
    ".endm",
    "counted memcpy",
    "counted memmove",
    "counted memset",
    "counted memcmp",
    "counted bcmp",
);

#[cfg(feature = "clock")]
extern "C" {
    #[thread_local]
    static mut SIM_TICKS: u64;
    #[thread_local]
    static mut SIM_DEADLINE: u64;
    fn _exit(code: i32) -> !;
}

/// The call under way has used many times the simulated time it may take: it hangs.
#[cfg(feature = "clock")]
#[no_mangle]
extern "C" fn sim_time_is_up() -> ! {
    println!("violation hang: {}", HANG);
    unsafe { _exit(OVERTIME) }
}
pub const HANG: &str = "a call had not finished after many times the simulated time its input allows";
/// Exit code of a process in which a call overran.
pub const OVERTIME: i32 = 78;

pub const ON: bool = cfg!(feature = "clock");

#[inline(always)]
pub fn now() -> u64 {
    #[cfg(feature = "clock")]
    return unsafe { std::ptr::read_volatile(&raw const SIM_TICKS) };
    #[cfg(not(feature = "clock"))]
    0
}

/// Take back what the simulator itself spent.
#[inline(always)]
pub fn set(_t: u64) {
    #[cfg(feature = "clock")]
    unsafe {
        std::ptr::write_volatile(&raw mut SIM_TICKS, _t)
    }
}

/// End the process when the clock passes this.
pub fn deadline(_t: u64) {
    #[cfg(feature = "clock")]
    unsafe {
        std::ptr::write_volatile(&raw mut SIM_DEADLINE, _t)
    }
}

// ---------------------------------------------------------------- preemption anywhere

// In the build with feature `preempt` the compiler calls these before every basic block and every
// memory access of the library (and of the simulator's crate, which holds the instances of the
// library's generic code). While a simulated thread is inside the library, they count down to the
// next preemption.
#[cfg(feature = "preempt")]
std::arch::global_asm!(
    ".section .tbss,\"awT\",@nobits",
    ".globl SIM_ACTIVE",
    ".type SIM_ACTIVE, @object",
    ".size SIM_ACTIVE, 1",
    "SIM_ACTIVE: .zero 1",
    ".data",
    ".globl SIM_GAP",
    ".p2align 3",
    "SIM_GAP: .quad 0x7fffffffffffffff",
    ".text",
    ".macro counting name",
    ".globl __sanitizer_cov_\\name",
    "__sanitizer_cov_\\name:",
    ".endm",
    "counting trace_pc_guard",
    "counting load1",
    "counting load2",
    "counting load4",
    "counting load8",
    "counting load16",
    "counting store1",
    "counting store2",
    "counting store4",
    "counting store8",
    "counting store16",
    "cmp byte ptr fs:[SIM_ACTIVE@tpoff], 0",
    "je 2f",
    "dec qword ptr [rip + SIM_GAP]",
    "jz sim_preempt",
    "2:",
    "ret",
    "counting trace_pc_guard_init",
    "ret",
);

#[cfg(feature = "preempt")]
extern "C" {
    #[thread_local]
    static mut SIM_ACTIVE: u8;
    static mut SIM_GAP: u64;
}

#[cfg(feature = "preempt")]
#[no_mangle]
extern "C" fn sim_preempt() {
    active(false);
    if std::thread::panicking() {
        gap(64);
        active(true);
        return;
    }
    let _p = crate::sim::pause();
    crate::sched::preempt();
}

pub const PREEMPT: bool = cfg!(feature = "preempt");

/// Steps to the next preemption.
pub fn gap(_n: u64) {
    #[cfg(feature = "preempt")]
    unsafe {
        std::ptr::write_volatile(&raw mut SIM_GAP, _n)
    }
}
/// The thread with the baton enters or leaves the library.
#[inline(always)]
pub fn active(_on: bool) {
    #[cfg(feature = "preempt")]
    unsafe {
        std::ptr::write_volatile(&raw mut SIM_ACTIVE, _on as u8)
    }
}
#[inline(always)]
pub fn is_active() -> bool {
    #[cfg(feature = "preempt")]
    return unsafe { std::ptr::read_volatile(&raw const SIM_ACTIVE) != 0 };
    #[cfg(not(feature = "preempt"))]
    false
}
