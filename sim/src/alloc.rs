//! Allocator seam: counts what library code allocates during one operation.
use crate::cov::ACTIVE;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct A;
pub static mut LIVE: i64 = 0;
pub static mut PEAK: i64 = 0;
/// everything ever asked for
pub static mut TOTAL: u64 = 0;
pub static mut MEM_LIMIT: i64 = i64::MAX;

/// Blocks the library has allocated and nobody has released yet, while this
/// is being watched (one task only).
const SLOTS: usize = 1 << 14;
pub static mut WATCH: bool = false;
static mut TAB: [(usize, usize); SLOTS] = [(0, 0); SLOTS];
static mut HELD: i64 = 0;
static mut BLOCKS: usize = 0;
const GONE: usize = 1;

#[allow(static_mut_refs)]
pub fn watch() {
    unsafe {
        TAB.iter_mut().for_each(|x| *x = (0, 0));
        HELD = 0;
        BLOCKS = 0;
        WATCH = true;
    }
}
pub fn held() -> i64 {
    unsafe { HELD }
}
#[cold]
unsafe fn enter(p: *mut u8, n: usize) {
    if p.is_null() || BLOCKS > SLOTS * 3 / 4 {
        return;
    }
    let mut i = (p as usize >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20;
    loop {
        i &= SLOTS - 1;
        let x = TAB[i].0;
        if x == 0 || x == GONE {
            TAB[i] = (p as usize, n);
            HELD += n as i64;
            BLOCKS += (x == 0) as usize;
            return;
        }
        i += 1;
    }
}
#[cold]
unsafe fn leave(p: *mut u8) {
    let mut i = (p as usize >> 4).wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 20;
    for _ in 0..SLOTS {
        i &= SLOTS - 1;
        if TAB[i].0 == 0 {
            return;
        }
        if TAB[i].0 == p as usize {
            HELD -= TAB[i].1 as i64;
            // the chain may end here if nothing follows
            let free = TAB[(i + 1) & (SLOTS - 1)].0 == 0;
            TAB[i] = (if free { 0 } else { GONE }, 0);
            BLOCKS -= free as usize;
            return;
        }
        i += 1;
    }
}

#[inline]
fn add(n: usize) {
    if ACTIVE.get() {
        unsafe {
            TOTAL += n as u64;
            LIVE += n as i64;
            if LIVE > PEAK {
                PEAK = LIVE;
                if LIVE > MEM_LIMIT {
                    MEM_LIMIT = i64::MAX;
                    crate::node::die("unbounded memory demand");
                }
            }
        }
    }
}
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc(l);
        if WATCH && ACTIVE.get() {
            enter(p, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc_zeroed(l);
        if WATCH && ACTIVE.get() {
            enter(p, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ACTIVE.get() {
            LIVE -= l.size() as i64;
        }
        if WATCH {
            leave(p);
        }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if ACTIVE.get() {
            LIVE -= l.size() as i64;
        }
        add(n);
        let q = System.realloc(p, l, n);
        if WATCH && !q.is_null() {
            leave(p);
            if ACTIVE.get() {
                enter(q, n);
            }
        }
        q
    }
}
