//! Basic-block seam: sancov callbacks in the instrumented library. Counts
//! steps, records coverage, harvests comparison constants, and gives the
//! scheduler a preemption/crash point at every basic block.
use crate::tape;
use std::cell::Cell;

thread_local! {
    /// True while a simulated task executes library code.
    pub static ACTIVE: Cell<bool> = const { Cell::new(false) };
}

pub static mut STEPS: u64 = 0;
pub static mut NEXT: u64 = u64::MAX;
pub static mut LIMIT: u64 = u64::MAX;
/// Preempt at the k-th next visit of one basic block.
pub static mut BP_GUARD: u32 = u32::MAX;
pub static mut BP_LEFT: u32 = 0;
pub static mut HARVEST: bool = false;
pub static mut N_GUARDS: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let mut p = start;
    while p < stop {
        N_GUARDS += 1;
        *p = N_GUARDS;
        p = p.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if !ACTIVE.get() {
        return;
    }
    let id = *g;
    let s = tape::shm();
    if (id as usize) < tape::COV_MAX {
        s.run_cov[id as usize] = 1;
    }
    STEPS += 1;
    if id == BP_GUARD {
        BP_LEFT = BP_LEFT.wrapping_sub(1);
        if BP_LEFT == 0 {
            BP_GUARD = u32::MAX;
            crate::sched::at_point();
            return;
        }
    }
    if STEPS >= NEXT {
        if STEPS >= LIMIT {
            crate::node::die("unbounded work: step limit exceeded");
        }
        crate::sched::at_point();
    }
}

unsafe fn harvest(c: u64) {
    if !HARVEST || !ACTIVE.get() {
        return;
    }
    if !(3..=1 << 33).contains(&c) {
        return;
    }
    let s = tape::shm();
    if s.dict_n < tape::DICT_MAX && !s.dict[..s.dict_n].contains(&c) {
        s.dict[s.dict_n] = c;
        s.dict_n += 1;
    }
}

macro_rules! cmp { ($($n:ident $t:ty),*) => {$(
    #[no_mangle] pub unsafe extern "C" fn $n(_a: $t, _b: $t) {}
)*}}
cmp!(
    __sanitizer_cov_trace_cmp1 u8, __sanitizer_cov_trace_cmp2 u16,
    __sanitizer_cov_trace_cmp4 u32, __sanitizer_cov_trace_cmp8 u64,
    __sanitizer_cov_trace_const_cmp1 u8, __sanitizer_cov_trace_const_cmp2 u16
);
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_const_cmp4(a: u32, _b: u32) {
    harvest(a as u64)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_const_cmp8(a: u64, _b: u64) {
    harvest(a)
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_switch(_v: u64, cases: *const u64) {
    if HARVEST && ACTIVE.get() {
        for i in 0..(*cases).min(64) {
            harvest(*cases.add(2 + i as usize));
        }
    }
}
