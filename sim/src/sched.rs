//! Deterministic scheduler. Tasks are real threads, but only the one holding
//! the baton runs; who holds it next is a draw from the tape. Preemption can
//! happen at every seam and at every basic block of the library.
use crate::cov::{self, ACTIVE};
use crate::seams::{raw, Off};
use crate::tape::{draw, shm};
use crate::world::{w, F};
use libc::*;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering::SeqCst};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Ready,
    Blocked,
    Done,
}
struct Task {
    st: St,
    addr: usize,
    deadline: u64,
    timed_out: bool,
    sem: Box<AtomicU32>,
    thread: pthread_t,
}
static mut TASKS: Vec<Task> = Vec::new();
static mut CUR: usize = 0;
pub static mut PREEMPT_BUDGET: u64 = 0;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(0) };
}

#[allow(static_mut_refs)]
fn tasks() -> &'static mut Vec<Task> {
    unsafe { &mut TASKS }
}
fn multi() -> bool {
    tasks().len() > 1
}

fn sem_wait(s: &AtomicU32) {
    loop {
        if s.compare_exchange(1, 0, SeqCst, SeqCst).is_ok() {
            return;
        }
        unsafe {
            raw(SYS_futex, s as *const _ as usize, (FUTEX_WAIT | FUTEX_PRIVATE_FLAG) as usize, 0, 0, 0, 0);
        }
    }
}
fn sem_post(s: &AtomicU32) {
    s.store(1, SeqCst);
    unsafe {
        raw(SYS_futex, s as *const _ as usize, (FUTEX_WAKE | FUTEX_PRIVATE_FLAG) as usize, 1, 0, 0, 0);
    }
}

fn task() -> Task {
    Task { st: St::Ready, addr: 0, deadline: u64::MAX, timed_out: false, sem: Box::new(AtomicU32::new(0)), thread: 0 }
}

/// Reset at the start of a node process.
pub fn init() {
    tasks().clear();
    tasks().push(task());
    unsafe {
        CUR = 0;
        PREEMPT_BUDGET = 0;
    }
    ME.set(0);
}
pub fn new_task() -> usize {
    tasks().push(task());
    let id = tasks().len() - 1;
    w().ev(|| format!("task {id} created"), 0x900 + id as u64);
    rearm();
    id
}
pub fn set_thread(id: usize, t: pthread_t) {
    tasks()[id].thread = t;
}
pub fn task_begin(id: usize) {
    ME.set(id);
    let p = &*tasks()[id].sem as *const AtomicU32;
    sem_wait(unsafe { &*p });
    rearm();
}
pub fn task_end() {
    let me = ME.get();
    tasks()[me].st = St::Done;
    w().ev(|| format!("task {me} ends"), 0xa00 + me as u64);
    wake(usize::MAX - me, usize::MAX);
    let n = choose(None).unwrap_or_else(|| crate::node::die("deadlock: every task is blocked"));
    unsafe { CUR = n };
    sem_post(&tasks()[n].sem);
}
pub fn join_thread(t: pthread_t) {
    // thread handles are used again: the latest one counts
    if let Some(id) = (1..tasks().len()).rev().find(|i| tasks()[*i].thread == t) {
        while tasks()[id].st != St::Done {
            block_on(usize::MAX - id, None);
        }
    }
}

/// Threads that have not ended, apart from the first.
pub fn unfinished() -> usize {
    tasks().iter().skip(1).filter(|t| t.st != St::Done).count()
}
/// Block until a task has ended.
pub fn wait_task(id: usize) {
    while tasks()[id].st != St::Done {
        block_on(usize::MAX - id, None);
    }
}

/// Pick a runnable task. The first candidate (draw 0) is the current one.
fn choose(keep: Option<usize>) -> Option<usize> {
    loop {
        let mut c: Vec<usize> = vec![];
        if let Some(k) = keep {
            if tasks()[k].st == St::Ready {
                c.push(k);
            }
        }
        for (i, t) in tasks().iter().enumerate() {
            if t.st == St::Ready && Some(i) != keep {
                c.push(i);
            }
        }
        if !c.is_empty() {
            return Some(c[draw(c.len() as u64) as usize]);
        }
        // nothing runnable: jump to the next deadline
        let d = tasks().iter().filter(|t| t.st == St::Blocked).map(|t| t.deadline).min().unwrap_or(u64::MAX);
        if d == u64::MAX {
            return None;
        }
        let now = w().mono;
        if d > now {
            w().tick(d - now);
        }
        let now = w().mono;
        for t in tasks().iter_mut() {
            if t.st == St::Blocked && t.deadline <= now {
                t.st = St::Ready;
                t.timed_out = true;
            }
        }
    }
}

fn switch_to(n: usize) {
    let me = ME.get();
    if n == me {
        return;
    }
    w().ev(|| format!("-- switch {me} -> {n}"), 0xb000 + (me * 64 + n) as u64);
    let p = &*tasks()[me].sem as *const AtomicU32;
    unsafe { CUR = n };
    sem_post(&tasks()[n].sem);
    sem_wait(unsafe { &*p });
    rearm();
}

/// Decide where the running task is preempted next.
pub fn rearm() {
    unsafe {
        cov::BP_GUARD = u32::MAX;
        cov::NEXT = cov::LIMIT;
        if !multi() || PREEMPT_BUDGET == 0 {
            return;
        }
        match draw(8) {
            0 => {}
            1 | 2 => {
                let m = [4u64, 64, 1024, 16384][draw(4) as usize];
                cov::NEXT = (cov::STEPS + 1 + draw(m)).min(cov::LIMIT);
            }
            _ => {
                // a breakpoint on one of the basic blocks executed so far in this process
                let s = shm();
                if s.known_n > 0 {
                    cov::BP_GUARD = s.known[draw(s.known_n as u64) as usize];
                    cov::BP_LEFT = 1 + draw(3) as u32;
                }
            }
        }
    }
}

fn preempt() {
    unsafe {
        if PREEMPT_BUDGET == 0 {
            return;
        }
        PREEMPT_BUDGET -= 1;
    }
    let me = ME.get();
    let others: Vec<usize> = (0..tasks().len()).filter(|i| *i != me && tasks()[*i].st == St::Ready).collect();
    if others.is_empty() {
        rearm();
        return;
    }
    w().note(F::Preempt);
    w().preempts += 1;
    let n = others[draw(others.len() as u64) as usize];
    switch_to(n);
}

/// Called from a basic block when a step target or breakpoint is reached.
pub fn at_point() {
    let _o = Off::new();
    unsafe { cov::NEXT = cov::LIMIT };
    if multi() {
        preempt();
        if unsafe { cov::NEXT == cov::LIMIT && cov::BP_GUARD == u32::MAX } {
            rearm();
        }
    }
}
pub fn seam_point() {
    if multi() && unsafe { PREEMPT_BUDGET > 0 } && draw(8) == 7 {
        preempt();
    }
}
pub fn yield_now() {
    if multi() {
        let me = ME.get();
        let others: Vec<usize> = (0..tasks().len()).filter(|i| *i != me && tasks()[*i].st == St::Ready).collect();
        if !others.is_empty() {
            let n = others[draw(others.len() as u64) as usize];
            switch_to(n);
        }
    }
}
pub fn block_on(addr: usize, timeout: Option<u64>) -> bool {
    let me = ME.get();
    w().note(F::FutexBlock);
    {
        let now = w().mono;
        let t = &mut tasks()[me];
        t.st = St::Blocked;
        t.addr = addr;
        t.timed_out = false;
        t.deadline = timeout.map(|d| now.saturating_add(d)).unwrap_or(u64::MAX);
    }
    let n = choose(None).unwrap_or_else(|| crate::node::die("deadlock: every task is blocked"));
    switch_to(n);
    tasks()[me].timed_out
}
pub fn wake(addr: usize, max: usize) -> usize {
    let mut k = 0;
    for t in tasks().iter_mut() {
        if k < max && t.st == St::Blocked && t.addr == addr {
            t.st = St::Ready;
            k += 1;
        }
    }
    k
}
pub unsafe fn futex(addr: *const u32, op: c_int, val: u32, to: *const timespec) -> Result<i64, c_int> {
    match op & 0x7f {
        FUTEX_WAIT | FUTEX_WAIT_BITSET => {
            if std::ptr::read_volatile(addr) != val {
                return Err(EAGAIN);
            }
            let timeout = if to.is_null() {
                None
            } else {
                let ns = ((*to).tv_sec as u64).saturating_mul(1_000_000_000).saturating_add((*to).tv_nsec as u64);
                // WAIT_BITSET deadlines are absolute
                Some(if op & 0x7f == FUTEX_WAIT_BITSET { ns.saturating_sub(w().mono) } else { ns })
            };
            if block_on(addr as usize, timeout) {
                Err(ETIMEDOUT)
            } else {
                Ok(0)
            }
        }
        FUTEX_WAKE | FUTEX_WAKE_BITSET => Ok(wake(addr as usize, val as usize) as i64),
        _ => Err(ENOSYS),
    }
}

/// Run `bodies` concurrently to completion; `preempts` bounds the preemptions.
pub fn run(bodies: Vec<Box<dyn FnOnce() + Send>>, preempts: u64) {
    assert!(!ACTIVE.get());
    let mut hs = vec![];
    unsafe { PREEMPT_BUDGET = preempts };
    for b in bodies {
        let id = new_task();
        hs.push((
            id,
            std::thread::spawn(move || {
                task_begin(id);
                b();
                task_end();
            }),
        ));
    }
    for (id, h) in hs {
        while tasks()[id].st != St::Done {
            block_main(id);
        }
        h.join().unwrap();
    }
    unsafe { PREEMPT_BUDGET = 0 };
    tasks().truncate(1);
}
fn block_main(id: usize) {
    let me = ME.get();
    tasks()[me].st = St::Blocked;
    tasks()[me].addr = usize::MAX - id;
    tasks()[me].deadline = u64::MAX;
    let n = choose(None).unwrap_or_else(|| crate::node::die("deadlock: every task is blocked"));
    switch_to(n);
}
