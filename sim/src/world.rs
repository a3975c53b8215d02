//! The simulated world: fault plan, disk, standard streams, terminal,
//! entropy, clock, event log. Everything in it is a function of the tape.
use crate::tape::{self, chance, draw, mix};
use std::collections::BTreeMap;

macro_rules! faults { ($($n:ident),* $(,)?) => {
    #[allow(clippy::upper_case_acronyms)]
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    #[repr(usize)]
    pub enum F { $($n),* }
    pub const F_NAMES: &[&str] = &[$(stringify!($n)),*];
    pub const F_ALL: &[F] = &[$(F::$n),*];
}}
faults!(
    // data sources handed to the library
    SrcInterrupted, SrcShortRead, SrcError, SrcSeekError, SrcMutate, SrcStartOffset,
    // destinations handed to the library
    DstInterrupted, DstShortWrite, DstError, DstWriteZero, DstFlushError, DstBuffered,
    // file system below std
    FsOpenError, FsReadInterrupted, FsShortRead, FsReadError, FsWriteInterrupted, FsShortWrite,
    FsWriteError, FsStatLies, FsSeekError,
    // standard streams
    OutInterrupted, OutShortWrite, OutError, OutZero, ErrError, ErrShortWrite,
    // terminal
    TtyOpenError, TtyReadError, TtyEof, TtyAttrError, TtyWriteError, TtyInterrupted, TtyNotATty,
    // entropy
    RngInterrupted, RngShort, RngError, RngDown, RngNoSyscall, RngStuck, RngReplayed,
    // clock
    ClockJump, ClockExtreme, ClockBeforeEpoch,
    // stored text and process lifetime
    Crash, TornWrite, LostWrite, Restart, ForkSnapshot, StoredBitFlip, StoredTruncate,
    StoredSplice, StoredLines, StoredField, StoredSwap, StoredSAddL, DataTamper,
    // scheduling
    Preempt, FutexBlock,
    // environment variables
    EnvVariable,
);
/// Faults after which the operation must simply be tried again.
const RETRYABLE: &[F] = &[
    F::SrcInterrupted, F::DstInterrupted, F::FsReadInterrupted, F::FsWriteInterrupted, F::OutInterrupted, F::RngInterrupted,
];
pub const NF: usize = F_NAMES.len();

binstruct! {
#[derive(Clone, Default)]
pub struct FileNode {
    pub data: Vec<u8>,
    pub durable: Option<Vec<u8>>,
}
}

binstruct! {
#[derive(Clone)]
pub struct World {
    // fault plan
    pub on: u64,
    pub rate: u64,
    pub budget: u64,
    pub fired: Vec<u64>,
    pub storm_f: u64,
    pub storm_left: u64,
    // log
    pub log_hash: u64,
    pub events: u64,
    pub trace_on: bool,
    pub trace: Vec<String>,
    // clock
    pub real_s: i64,
    pub real_ns: i64,
    pub mono: u64,
    pub sim_ns: u64,
    pub clock_reads: Vec<i64>,
    // entropy
    pub ent_mode: u8,
    pub ent_seed: u64,
    pub ent_cut: u64,
    pub ent_seed2: u64,
    pub ent_pos: u64,
    pub ent_calls: u64,
    pub ent_down: bool,
    pub ent_down_errno: i32,
    pub ent_nosys: i32,
    pub ent_failed: u64,
    pub ent_fail_at: u64,
    // streams: 0 journal of all file writes, 1 stdout, 2 stderr, 3 tty output
    pub out: Vec<Vec<u8>>,
    pub out_broken: Vec<i32>,
    pub out_err_seen: Vec<u64>,
    // terminal
    pub tty_in: Vec<u8>,
    pub tty_pos: usize,
    pub tty_present: bool,
    pub tty_echo: bool,
    pub tty_faults: u64,
    pub tty_eof_seen: u64,
    pub tty_echoed: u64,
    // disk
    pub files: BTreeMap<String, FileNode>,
    pub fs_hard: u64,
    pub fs_soft: u64,
    // other counters
    pub probes: BTreeMap<String, u64>,
    pub lives: u64,
    pub ops: u64,
    pub steps: u64,
    pub preempts: u64,
    pub kdf_calls: u64,
    // cost parameters of the last key derivation: log2 N, r, p
    pub kdf_last: Vec<u64>,
    pub kdf_real: bool,
    pub death: Option<String>,
    pub sector: usize,
    // what getenv answers: 0 unset, else a value for every name
    pub env_mode: u64,
    // files opened and other effects asked of the kernel, while recorded
    pub effects_on: bool,
    pub effects: Vec<String>,
}
}

static mut W: *mut World = std::ptr::null_mut();
pub fn set_w(p: *mut World) {
    unsafe { W = p }
}
#[allow(clippy::mut_from_ref)]
pub fn w() -> &'static mut World {
    unsafe { &mut *W }
}

/// Handle to the world of this process. The world is changed behind the
/// scenarios' back by every library call, so no long-lived `&mut World` may
/// exist: each access through the handle goes to the world anew.
pub struct Wd;
impl std::ops::Deref for Wd {
    type Target = World;
    fn deref(&self) -> &World {
        w()
    }
}
impl std::ops::DerefMut for Wd {
    fn deref_mut(&mut self) -> &mut World {
        w()
    }
}

pub const T0: i64 = 1_700_000_000;

impl World {
    pub fn new(trace: bool) -> World {
        World {
            on: 0,
            rate: 8,
            budget: 0,
            fired: vec![0; NF],
            storm_f: 0,
            storm_left: 0,
            log_hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            trace_on: trace,
            trace: vec![],
            real_s: T0,
            real_ns: 0,
            mono: 1_000_000_000,
            sim_ns: 0,
            clock_reads: vec![],
            ent_mode: 0,
            ent_seed: 0,
            ent_cut: u64::MAX,
            ent_seed2: 0,
            ent_pos: 0,
            ent_calls: 0,
            ent_down: false,
            ent_down_errno: 0,
            ent_nosys: 0,
            ent_failed: 0,
            ent_fail_at: u64::MAX,
            out: vec![vec![]; 4],
            out_broken: vec![0; 4],
            out_err_seen: vec![0; 4],
            tty_in: vec![],
            tty_pos: 0,
            tty_present: false,
            tty_echo: true,
            tty_faults: 0,
            tty_eof_seen: 0,
            tty_echoed: 0,
            files: BTreeMap::new(),
            fs_hard: 0,
            fs_soft: 0,
            probes: BTreeMap::new(),
            lives: 0,
            ops: 0,
            steps: 0,
            preempts: 0,
            kdf_calls: 0,
            kdf_last: vec![],
            kdf_real: false,
            death: None,
            sector: 64,
            env_mode: 0,
            effects_on: false,
            effects: vec![],
        }
    }

    // ---- fault plan
    /// Swarm configuration: a random subset of `kinds` with a random rate and
    /// a bounded number of faults, so that faults stop.
    pub fn swarm(&mut self, kinds: &[F]) {
        let budget = [0u64, 1, 1, 2, 3, 5, 8, 16][draw(8) as usize];
        self.budget = budget;
        if budget == 0 {
            return;
        }
        self.rate = [2u64, 4, 8, 3, 16, 32, 64][draw(7) as usize];
        // either one kind alone, or a coin per kind
        if draw(2) == 0 {
            let k = kinds[draw(kinds.len() as u64) as usize];
            self.enable(k);
        } else {
            for k in kinds {
                if draw(2) == 1 {
                    self.enable(*k);
                }
            }
        }
    }
    pub fn enable(&mut self, f: F) {
        self.on |= 1 << f as usize;
    }
    pub fn disable(&mut self, f: F) {
        self.on &= !(1 << f as usize);
    }
    pub fn enabled(&self, f: F) -> bool {
        self.on & (1 << f as usize) != 0
    }
    pub fn faults_off(&mut self) -> u64 {
        self.storm_left = 0;
        std::mem::take(&mut self.budget)
    }
    /// Does fault `f` strike at this point?
    pub fn fault(&mut self, f: F) -> bool {
        if self.storm_left > 0 && self.storm_f == f as u64 {
            self.storm_left -= 1;
            self.fired[f as usize] += 1;
            return true;
        }
        if self.budget == 0 || self.on & (1 << f as usize) == 0 {
            return false;
        }
        if !chance(1, self.rate) {
            return false;
        }
        self.budget -= 1;
        self.note(f);
        if RETRYABLE.contains(&f) && chance(1, 8) {
            // the same interruption many times in a row
            self.storm_f = f as u64;
            self.storm_left = tape::pick(&[1u64, 2, 3, 4, 7, 9, 15, 31, 63, 99, 127, 255, 1000]);
        }
        true
    }
    /// Record a fault that was injected unconditionally.
    pub fn note(&mut self, f: F) {
        self.fired[f as usize] += 1;
        self.ev(|| format!("FAULT {}", F_NAMES[f as usize]), 0x1000 + f as u64);
    }
    pub fn n_faults(&self) -> u64 {
        self.fired.iter().sum()
    }

    // ---- log
    pub fn ev(&mut self, text: impl FnOnce() -> String, h: u64) {
        self.events += 1;
        self.log_hash = mix(self.log_hash ^ h).wrapping_add(self.events);
        if self.trace_on && self.trace.len() < 4000 {
            let t = text();
            self.trace.push(t);
        }
    }
    pub fn evb(&mut self, what: &str, data: &[u8]) {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in what.as_bytes().iter().chain(data) {
            h = (h ^ *b as u64).wrapping_mul(0x1000_0000_01b3);
        }
        self.ev(|| format!("{what} [{}] {}", data.len(), preview(data)), h);
    }
    pub fn probe(&mut self, name: &str) {
        if let Some(v) = self.probes.get_mut(name) {
            *v += 1;
        } else {
            self.probes.insert(name.to_string(), 1);
        }
    }

    /// Something other than reading and writing what was handed over.
    pub fn effect(&mut self, what: impl FnOnce() -> String) {
        if self.effects_on && self.effects.len() < 64 {
            let t = what();
            self.effects.push(t);
        }
    }

    // ---- entropy
    pub fn ent_byte(&self, pos: u64) -> u8 {
        match self.ent_mode {
            1 => 0,
            2 => 0xff,
            3 => (self.ent_seed >> 8) as u8,
            _ => {
                let b = (mix(self.ent_seed ^ mix(pos >> 3)) >> (8 * (pos & 7))) as u8;
                if pos >= self.ent_cut && self.ent_seed2 != 0 {
                    // another stream from here on, different in every byte
                    b ^ (1 + mix(self.ent_seed2 ^ mix(pos)) % 255) as u8
                } else {
                    b
                }
            }
        }
    }
    /// The kernel answers a request for n random bytes: bytes granted or -errno.
    pub fn entropy(&mut self, buf: &mut [u8]) -> i64 {
        self.ent_calls += 1;
        if self.ent_down {
            self.ent_failed += 1;
            self.ev(|| "entropy: down".into(), 77);
            return -(self.ent_down_errno as i64);
        }
        if self.ent_calls > self.ent_fail_at || self.fault(F::RngDown) {
            if self.ent_calls > self.ent_fail_at {
                self.note(F::RngDown);
            }
            self.ent_down = true;
            self.ent_down_errno = tape::pick(&[libc::EIO, libc::EFAULT, libc::EINVAL, libc::EAGAIN]);
            self.ent_failed += 1;
            return -(self.ent_down_errno as i64);
        }
        if self.fault(F::RngInterrupted) {
            return -(libc::EINTR as i64);
        }
        if self.fault(F::RngError) {
            self.ent_failed += 1;
            return -(tape::pick(&[libc::EIO, libc::EFAULT, libc::EAGAIN]) as i64);
        }
        let mut n = buf.len();
        if n > 1 && self.fault(F::RngShort) {
            n = 1 + draw(n as u64 - 1) as usize;
        }
        if self.ent_mode == 4 {
            self.ent_pos = 0;
        }
        for (i, b) in buf[..n].iter_mut().enumerate() {
            *b = self.ent_byte(self.ent_pos + i as u64);
        }
        self.ent_pos += n as u64;
        self.ev(|| format!("entropy: {n} bytes"), n as u64 ^ 0x7700);
        n as i64
    }

    // ---- clock
    pub fn tick(&mut self, ns: u64) {
        self.mono += ns;
        self.sim_ns += ns;
        self.real_ns += (ns % 1_000_000_000) as i64;
        self.real_s = self.real_s.saturating_add((ns / 1_000_000_000) as i64 + self.real_ns / 1_000_000_000);
        self.real_ns %= 1_000_000_000;
    }
    pub fn clock_real(&mut self) -> (i64, i64) {
        self.tick(50);
        if self.fault(F::ClockJump) {
            let d = [1i64, -1, 60, -60, 3600, -3600, 86400, 1 << 20, -(1 << 20)][draw(9) as usize];
            self.real_s = self.real_s.saturating_add(d);
            self.real_ns = draw(1_000_000_000) as i64;
        }
        self.clock_reads.push(self.real_s);
        let (s, n) = (self.real_s, self.real_ns);
        self.ev(|| format!("clock_gettime(REALTIME) = {s}.{n:09}"), s as u64 ^ n as u64);
        (s, n)
    }

    // ---- disk
    pub fn put_file(&mut self, name: &str, data: &[u8]) {
        self.files.insert(name.into(), FileNode { data: data.to_vec(), durable: Some(data.to_vec()) });
    }
    /// Power loss: of every file only what had been made durable survives for
    /// certain; of later writes, each sector may or may not have reached the disk.
    pub fn power_loss(&mut self) {
        let names: Vec<String> = self.files.keys().cloned().collect();
        for n in names {
            let f = self.files.get(&n).unwrap().clone();
            if f.durable.as_ref() == Some(&f.data) {
                continue;
            }
            let old = f.durable.clone();
            // 0: everything reached the disk
            let what = draw(4);
            let new = match what {
                0 => Some(f.data.clone()),
                1 => {
                    self.note(F::LostWrite);
                    old
                }
                2 => {
                    self.note(F::TornWrite);
                    let k = draw(f.data.len() as u64 + 1) as usize;
                    Some(f.data[..k].to_vec())
                }
                _ => {
                    self.note(F::TornWrite);
                    let old = old.unwrap_or_default();
                    let mut v = f.data.clone();
                    let mut i = 0;
                    while i < v.len() {
                        let e = (i + self.sector).min(v.len());
                        if draw(2) == 1 {
                            for j in i..e {
                                v[j] = old.get(j).copied().unwrap_or(0);
                            }
                        }
                        i = e;
                    }
                    Some(v)
                }
            };
            match new {
                None => {
                    self.files.remove(&n);
                }
                Some(d) => {
                    self.files.insert(n, FileNode { data: d.clone(), durable: Some(d) });
                }
            }
        }
    }
}

pub fn preview(d: &[u8]) -> String {
    let t = String::from_utf8_lossy(&d[..d.len().min(48)]).into_owned();
    let t: String = t.chars().map(|c| if c.is_control() || c == '\u{fffd}' { '.' } else { c }).collect();
    if d.len() > 48 {
        format!("{t}…")
    } else {
        t
    }
}
