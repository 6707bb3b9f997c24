//! Simulated processor time: how many edges of the control flow were taken, in the build that is instrumented for it.
//!
//! The compiler puts a call to a counter at every edge of all code in the simulator's process; the counter is written
//! in assembly, so that it is not instrumented itself. What the simulated stream does is not counted.

#[cfg(sim_work)]
mod counter {
    core::arch::global_asm!(
        ".globl __sanitizer_cov_trace_pc_guard",
        "__sanitizer_cov_trace_pc_guard:",
        "inc qword ptr [rip + SIM_WORK]",
        "ret",
        ".globl __sanitizer_cov_trace_pc_guard_init",
        "__sanitizer_cov_trace_pc_guard_init:",
        "ret",
    );

    #[no_mangle]
    static mut SIM_WORK: u64 = 0;

    pub fn get() -> u64 {
        unsafe { (&raw const SIM_WORK).read_volatile() }
    }
    pub fn set(n: u64) {
        unsafe { (&raw mut SIM_WORK).write_volatile(n) }
    }
}

#[cfg(not(sim_work))]
mod counter {
    pub fn get() -> u64 {
        0
    }
    pub fn set(_: u64) {}
}

pub use counter::{get, set};

/// What happens while this lives is not counted.
pub struct Aside(u64);

pub fn aside() -> Aside {
    Aside(get())
}

impl Drop for Aside {
    fn drop(&mut self) {
        set(self.0);
    }
}
