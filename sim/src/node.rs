//! Node processes. One lifetime of the simulated process is a real fork, so
//! that process-wide state (statics, thread-locals, std's buffers) of the
//! library starts afresh after a crash or restart, and dies with the process.
use crate::bin_ser::Bin;
use crate::cov::{self, ACTIVE};
use crate::seams::{self, raw, Off};
use crate::tape::{draw, shm};
use crate::world::{w, Wd, World, F};
use crate::{alloc, sched};
use libc::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

static mut RESULT_FD: c_int = -1;
static mut CRASH_AT: u64 = u64::MAX;
static mut CRASH_SEEN: u64 = 0;
pub static mut PANIC_MSG: String = String::new();
pub static mut CPU_LIMIT: u64 = 40;

pub fn in_node() -> bool {
    unsafe { RESULT_FD >= 0 }
}

#[derive(Debug, Clone)]
pub enum Life<T> {
    Done(T),
    /// the simulated machine crashed at a point chosen by the tape
    Crashed,
    /// the process died by itself: hang, abort, exit, signal
    Died(String),
}

fn emit(status: u8, body: &[u8]) -> ! {
    unsafe {
        let mut all = vec![status];
        all.extend_from_slice(body);
        let mut off = 0;
        while off < all.len() {
            let r = raw(SYS_write, RESULT_FD as usize, all.as_ptr().add(off) as usize, all.len() - off, 0, 0, 0);
            if r <= 0 {
                break;
            }
            off += r as usize;
        }
        loop {
            raw(SYS_exit_group, 0, 0, 0, 0, 0, 0);
        }
    }
}

fn finish_world(w: &mut World) {
    w.steps += unsafe { cov::STEPS };
}

/// The library did something no process may do: end this lifetime here.
pub fn die(why: &str) -> ! {
    let _o = Off::new();
    ACTIVE.set(false);
    let w = w();
    w.death = Some(why.to_string());
    w.ev(|| format!("DIED: {why}"), 0xdead);
    finish_world(w);
    emit(2, &w.to_vec())
}

/// Possible machine crash (only when one is scheduled for this lifetime).
pub fn crash_point() {
    unsafe {
        if CRASH_AT == u64::MAX {
            return;
        }
        CRASH_SEEN += 1;
        if CRASH_SEEN < CRASH_AT {
            return;
        }
    }
    ACTIVE.set(false);
    let w = w();
    w.note(F::Crash);
    w.power_loss();
    finish_world(w);
    emit(1, &w.to_vec())
}
/// Crash at the n-th call into the environment from now.
pub fn schedule_crash(n: u64) {
    unsafe {
        CRASH_AT = n;
        CRASH_SEEN = 0;
    }
}

/// Run `f` in a process of its own.
pub fn life<T: Bin>(world: &mut Wd, f: impl FnOnce(&mut Wd) -> T) -> Life<T> {
    life_(world, true, f)
}
/// As `life`, but the process keeps all state of its parent (fork without
/// exec, or a restored snapshot): its effects on the world are kept.
pub fn fork_life<T: Bin>(world: &mut Wd, f: impl FnOnce(&mut Wd) -> T) -> Life<T> {
    life_(world, false, f)
}
fn life_<T: Bin>(world: &mut Wd, fresh: bool, f: impl FnOnce(&mut Wd) -> T) -> Life<T> {
    world.lives += 1;
    if world.lives > 1 && fresh {
        world.note(F::Restart);
    }
    unsafe {
        let fd = memfd_create(c"node".as_ptr(), 0);
        assert!(fd >= 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            RESULT_FD = fd;
            let lim = rlimit { rlim_cur: CPU_LIMIT, rlim_max: CPU_LIMIT + 1 };
            setrlimit(RLIMIT_CPU, &lim);
            // no more stack than a thread gets
            setrlimit(RLIMIT_STACK, &rlimit { rlim_cur: 2 << 20, rlim_max: RLIM_INFINITY });
            // a node that waits for something outside of the simulation
            alarm(240);
            sched::init();
            schedule_crash(u64::MAX);
            cov::STEPS = 0;
            cov::LIMIT = u64::MAX;
            cov::NEXT = u64::MAX;
            let mut n = u64::from_le_bytes(*b"lifetime");
            n ^= world.lives;
            world.ev(|| "process starts".into(), n);
            let r = f(world);
            finish_world(world);
            let mut b = vec![];
            r.put(&mut b);
            world.put(&mut b);
            emit(0, &b);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 && *__errno_location() == EINTR {}
        let mut v = vec![];
        let len = lseek(fd, 0, SEEK_END);
        if len > 0 {
            v.resize(len as usize, 0u8);
            let mut off = 0usize;
            while off < v.len() {
                let r = raw(SYS_pread64, fd as usize, v.as_mut_ptr().add(off) as usize, v.len() - off, off, 0, 0);
                if r <= 0 {
                    break;
                }
                off += r as usize;
            }
        }
        close(fd);
        if v.is_empty() {
            let why = if WIFSIGNALED(st) {
                match WTERMSIG(st) {
                    SIGXCPU => "unbounded work: CPU limit exceeded".to_string(),
                    SIGALRM => "the process waits for ever".to_string(),
                    SIGKILL => "unbounded work or memory: killed".to_string(),
                    s => format!("process killed by signal {s}"),
                }
            } else {
                format!("process ended with status {st:#x}")
            };
            world.ev(|| format!("DIED: {why}"), 0xdeae);
            world.death = Some(why.clone());
            return Life::Died(why);
        }
        let mut i = &v[1..];
        match v[0] {
            0 => {
                let t = T::get(&mut i);
                **world = World::get(&mut i);
                Life::Done(t)
            }
            1 => {
                **world = World::get(&mut i);
                Life::Crashed
            }
            _ => {
                **world = World::get(&mut i);
                Life::Died(world.death.clone().unwrap_or_default())
            }
        }
    }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let was = ACTIVE.get();
        ACTIVE.set(false);
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file().rsplit('/').next().unwrap_or(""), l.line()))
            .unwrap_or_default();
        if !in_node() {
            eprintln!("simulator panic: {msg} at {}", info.location().unwrap());
        } else if !was {
            // a bug in the simulator itself
            eprintln!("simulator panic in node: {msg} at {}", info.location().unwrap());
        }
        #[allow(static_mut_refs)]
        unsafe {
            PANIC_MSG = format!("{msg} ({loc})");
        }
        ACTIVE.set(was);
    }));
}

#[derive(Debug, Clone, PartialEq)]
pub enum Fail {
    /// the library returned an error (its text)
    Err(String),
    /// the library panicked
    Panic(String),
}
impl Fail {
    pub fn text(&self) -> &str {
        match self {
            Fail::Err(s) | Fail::Panic(s) => s,
        }
    }
    pub fn panicked(&self) -> bool {
        matches!(self, Fail::Panic(_))
    }
}
pub type Out<T> = Result<T, Fail>;

pub const STEP_BASE: u64 = 40_000_000;
pub const MEM_BASE: i64 = 64 << 20;

/// Limits for one operation on `bytes` of input.
pub fn limits(bytes: u64) {
    unsafe {
        let fac = 64;
        cov::LIMIT = cov::STEPS + STEP_BASE + fac * bytes;
        cov::NEXT = cov::LIMIT;
        alloc::LIVE = 0;
        alloc::PEAK = 0;
        alloc::MEM_LIMIT = MEM_BASE + 8 * bytes as i64;
        seams::SEAM_CALLS = 0;
    }
}

/// Execute library code as a simulated task.
pub fn call<T>(name: &str, bytes: u64, f: impl FnOnce() -> minisign::Result<T>) -> Out<T> {
    let w = w();
    w.ops += 1;
    w.ev(|| format!("> {name}"), name.len() as u64 ^ 0xc0de);
    limits(bytes);
    let r = raw_call(f);
    let t = match &r {
        Ok(_) => "ok".to_string(),
        Err(Fail::Err(e)) => format!("error: {e}"),
        Err(Fail::Panic(e)) => format!("PANIC: {e}"),
    };
    w.evb(&format!("< {name}:"), t.as_bytes());
    r
}
/// What errors show to a caller who looks further than at their text: their
/// `Debug` form and what they name as their cause. Collected when wanted.
pub static mut ERR_LOOKS: Option<Vec<String>> = None;
fn look_at(e: &minisign::PError) {
    use std::error::Error;
    #[allow(static_mut_refs)]
    let Some(log) = (unsafe { ERR_LOOKS.as_mut() }) else { return };
    let _ = catch_unwind(AssertUnwindSafe(|| {
        let mut v = vec![format!("{e:?}")];
        let mut c = e.source();
        for _ in 0..8 {
            let Some(x) = c else { break };
            v.push(x.to_string());
            v.push(format!("{x:?}"));
            c = x.source();
        }
        log.extend(v.into_iter().map(|t| t.chars().take(1 << 16).collect::<String>()));
    }));
}
/// As `call`, without resetting the per-operation limits (concurrent tasks).
pub fn raw_call<T>(f: impl FnOnce() -> minisign::Result<T>) -> Out<T> {
    ACTIVE.set(true);
    let r = catch_unwind(AssertUnwindSafe(f));
    ACTIVE.set(false);
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => {
            ACTIVE.set(true);
            let s = catch_unwind(AssertUnwindSafe(|| e.to_string()));
            ACTIVE.set(false);
            look_at(&e);
            let _ = catch_unwind(AssertUnwindSafe(|| drop(e)));
            match s {
                Ok(s) => Err(Fail::Err(s)),
                Err(_) => Err(Fail::Panic("while formatting an error".into())),
            }
        }
        Err(_) => {
            #[allow(static_mut_refs)]
            let m = unsafe { PANIC_MSG.clone() };
            Err(Fail::Panic(m))
        }
    }
}
/// Library call that cannot report an error.
pub fn call_plain<T>(name: &str, f: impl FnOnce() -> T) -> Out<T> {
    call(name, 0, || Ok(f()))
}

/// Flush what the library left in std's line buffer of standard output; with
/// faults off. Returns nothing; the bytes end up in the stdout model.
pub fn drain_stdout() {
    let w = w();
    let b = w.faults_off();
    let broken = w.out_broken[1];
    w.out_broken[1] = 0;
    ACTIVE.set(true);
    let _ = std::io::Write::flush(&mut std::io::stdout());
    ACTIVE.set(false);
    w.out_broken[1] = broken;
    w.budget = b;
}

pub fn random_crash() {
    // 0: no crash
    if draw(3) != 0 {
        schedule_crash(1 + draw(30));
    }
}
pub fn run_cov() -> &'static mut [u8] {
    &mut shm().run_cov
}
