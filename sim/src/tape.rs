//! The decision tape: every choice of a run (operations, sizes, schedules,
//! faults) is one draw. Recording mode takes draws from the run's seed,
//! replaying mode takes them from a stored tape; past its end every draw is 0,
//! and 0 always means "simplest choice, no fault". It lives in shared memory,
//! so that a run can span several node processes.
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

pub const TAPE_MAX: usize = 1 << 16;
pub const COV_MAX: usize = 1 << 14;
pub const DICT_MAX: usize = 512;

#[repr(C)]
pub struct Shm {
    // tape
    pub replay: u32,
    pub overflow: u32,
    pub rng: u64,
    pub len: usize,
    pub pos: usize,
    pub data: [u64; TAPE_MAX],
    // coverage
    pub n_guards: u32,
    pub cov: [u8; COV_MAX],
    pub run_cov: [u8; COV_MAX],
    // dictionary of constants the code compares its inputs with
    pub dict_n: usize,
    pub dict: [u64; DICT_MAX],
    // basic blocks the calibration run executed (breakpoint candidates)
    pub known_n: usize,
    pub known: [u32; COV_MAX],
}

/// Shared by all workers: lowest seed index with a violation so far.
#[repr(C)]
pub struct Global {
    pub best: AtomicU64,
    pub stop: AtomicU64,
    pub done: [AtomicU64; 64],
}

static mut SHM: *mut Shm = std::ptr::null_mut();

pub fn map<T>() -> *mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut T
    }
}

pub fn set_shm(p: *mut Shm) {
    unsafe { SHM = p }
}

#[allow(clippy::mut_from_ref)]
pub fn shm() -> &'static mut Shm {
    unsafe { &mut *SHM }
}

pub fn has_shm() -> bool {
    unsafe { !SHM.is_null() }
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    mix(*x)
}

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn start_record(seed: u64) {
    let s = shm();
    s.replay = 0;
    s.overflow = 0;
    s.rng = mix(seed ^ 0x5bd1_e995_7b93_1d2f);
    s.len = 0;
    s.pos = 0;
}

pub fn start_replay(t: &[u64]) {
    let s = shm();
    s.replay = 1;
    s.overflow = 0;
    let n = t.len().min(TAPE_MAX);
    s.len = n;
    s.pos = 0;
    s.data[..n].copy_from_slice(&t[..n]);
}

/// The draws made by the last run, as they were used.
pub fn used() -> Vec<u64> {
    let s = shm();
    s.data[..s.pos.min(s.len)].to_vec()
}

/// A value in 0..n.
pub fn draw(n: u64) -> u64 {
    let s = shm();
    if n <= 1 {
        return 0;
    }
    if s.replay != 0 {
        if s.pos >= s.len {
            return 0;
        }
        let v = s.data[s.pos] % n;
        s.pos += 1;
        v
    } else {
        let v = ((splitmix(&mut s.rng) as u128 * n as u128) >> 64) as u64;
        if s.pos < TAPE_MAX {
            s.data[s.pos] = v;
            s.pos += 1;
            s.len = s.pos;
        } else {
            s.overflow = 1;
            return 0;
        }
        v
    }
}

/// True with probability num/den; draw value 0 is "false".
pub fn chance(num: u64, den: u64) -> bool {
    draw(den) >= den - num
}

pub fn pick<T: Copy>(a: &[T]) -> T {
    a[draw(a.len() as u64) as usize]
}

impl Global {
    pub fn lower_best(&self, i: u64) {
        self.best.fetch_min(i, Relaxed);
    }
}
