//! Copy seam: bytes the library (and std on its behalf) moves in memory.
use crate::cov::ACTIVE;
use libc::{c_void, dlsym, RTLD_NEXT};

type Copy = unsafe extern "C" fn(*mut c_void, *const c_void, usize) -> *mut c_void;
static mut CPY: Option<Copy> = None;
static mut MOVE: Option<Copy> = None;
pub static mut MOVED: u64 = 0;

pub fn init() {
    unsafe {
        let c = dlsym(RTLD_NEXT, c"memcpy".as_ptr());
        let m = dlsym(RTLD_NEXT, c"memmove".as_ptr());
        if !c.is_null() && !m.is_null() {
            CPY = Some(std::mem::transmute::<*mut c_void, Copy>(c));
            MOVE = Some(std::mem::transmute::<*mut c_void, Copy>(m));
        }
    }
}
unsafe fn forward(d: *mut c_void, s: *const c_void, n: usize) {
    std::arch::asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack));
}
unsafe fn backward(d: *mut c_void, s: *const c_void, n: usize) {
    std::arch::asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.add(n).sub(1) => _, inout("rsi") s.add(n).sub(1) => _, options(nostack));
}
#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    match CPY {
        Some(f) => {
            if ACTIVE.get() {
                MOVED += n as u64;
            }
            f(d, s, n)
        }
        None => {
            forward(d, s, n);
            d
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut c_void, s: *const c_void, n: usize) -> *mut c_void {
    match MOVE {
        Some(f) => {
            if ACTIVE.get() {
                MOVED += n as u64;
            }
            f(d, s, n)
        }
        None => {
            if n > 0 && (d as usize).wrapping_sub(s as usize) < n {
                backward(d, s, n);
            } else {
                forward(d, s, n);
            }
            d
        }
    }
}
