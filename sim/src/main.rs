#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions, non_upper_case_globals, non_snake_case, clippy::all)]
//! Deterministic simulation of rust-minisign: see /verif/DESIGN.md.
#[macro_use]
mod bin_ser;
mod alloc;
mod cov;
mod gen;
mod io;
mod mem;
mod node;
mod oracle;
mod scen;
mod sched;
mod seams;
mod tape;
mod world;

use bin_ser::Bin;
use scen::{Scen, V};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::Ordering::SeqCst;
use std::time::{Duration, Instant};
use tape::Shm;
use world::World;

#[global_allocator]
static ALLOC: alloc::A = alloc::A;

const WORKERS: usize = 8;

pub struct Run {
    pub v: Option<V>,
    pub w: World,
    pub hash: u64,
}

/// Execute one run; the tape must have been started.
fn run_one(s: &Scen, trace: bool) -> Run {
    let sh = tape::shm();
    sh.run_cov.iter_mut().for_each(|x| *x = 0);
    let mut w = Box::new(World::new(trace));
    world::set_w(&mut *w);
    if tape::draw(3) == 2 {
        w.env_mode = 1 + tape::draw(6);
    }
    w.ent_seed = tape::draw(1 << 40);
    match tape::draw(6) {
        4 => w.real_s += tape::draw(1 << 33) as i64,
        5 => w.real_s = 1 + tape::draw(1_700_000_000) as i64,
        _ => (),
    }
    let r = (s.run)(&mut world::Wd);
    for i in 0..tape::COV_MAX {
        sh.cov[i] |= sh.run_cov[i];
    }
    let v = r.err();
    let mut hash = w.log_hash;
    if let Some(v) = &v {
        for b in v.class.bytes() {
            hash = tape::mix(hash ^ b as u64);
        }
    }
    Run { v, hash, w: *w }
}
fn cov_sig() -> u64 {
    let mut h = 0u64;
    for (i, b) in tape::shm().run_cov.iter().enumerate() {
        if *b != 0 {
            h = tape::mix(h ^ i as u64);
        }
    }
    h
}

binstruct! {
pub struct WorkerOut {
    pub runs: u64,
    pub ops: u64,
    pub steps: u64,
    pub lives: u64,
    pub preempts: u64,
    pub events: u64,
    pub sim_ns: u128,
    pub fired: Vec<u64>,
    pub fired_runs: u64,
    pub probes: BTreeMap<String, u64>,
    pub distinct: BTreeSet<u64>,
    pub distinct_all: BTreeSet<u64>,
    pub cov_sigs: BTreeSet<u64>,
    pub inconclusive: BTreeMap<String, u64>,
    pub rechecked: u64,
    pub nondet: u64,
    pub overflow: u64,
    pub violation: Option<(u64, Vec<u64>, V)>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<(u64, Vec<String>)>,
    pub corpus: u64,
    pub mutated: u64,
}
}
impl WorkerOut {
    fn new() -> Self {
        let mut z: &[u8] = &[0u8; 4096];
        WorkerOut::get(&mut z)
    }
}

struct Known {
    property: String,
    class: String,
    text: String,
}
/// known-findings file: lines `finding: property=<id> class=<class> match=<substring> | <text>`;
/// `fixed:` lines suppress nothing.
fn load_known() -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string("/verif/known-findings.txt") {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("finding: ") {
                let (head, text) = r.split_once(" | ").unwrap_or((r, ""));
                let mut k = Known { property: String::new(), class: String::new(), text: text.into() };
                for f in head.split_whitespace() {
                    if let Some(x) = f.strip_prefix("property=") {
                        k.property = x.into()
                    }
                    if let Some(x) = f.strip_prefix("class=") {
                        k.class = x.into()
                    }
                }
                v.push(k);
            }
        }
    }
    v
}

/// Deterministic calibration: harvests comparison constants and the basic
/// blocks of ordinary operation from the code as built.
fn calibrate() {
    let s = tape::shm();
    s.dict_n = 0;
    s.known_n = 0;
    unsafe { cov::HARVEST = true };
    let mut seen = vec![0u8; tape::COV_MAX];
    for i in 0..6 {
        tape::start_record(0xca11b ^ i);
        let mut w = Box::new(World::new(false));
        world::set_w(&mut *w);
        s.run_cov.iter_mut().for_each(|x| *x = 0);
        scen::calib(&mut world::Wd);
        for (a, b) in seen.iter_mut().zip(s.run_cov.iter()) {
            *a |= *b;
        }
    }
    unsafe { cov::HARVEST = false };
    let n = s.dict_n;
    s.dict[..n].sort();
    for (i, b) in seen.iter().enumerate() {
        if *b != 0 {
            s.known[s.known_n] = i as u32;
            s.known_n += 1;
        }
    }
}

fn worker(s: &Scen, id: usize, seed: u64, runs: u64, deadline: Instant, g: &tape::Global, thorough: bool) -> WorkerOut {
    let mut o = WorkerOut::new();
    o.fired = vec![0; world::NF];
    let known = load_known();
    let mut corpus: Vec<Vec<u64>> = vec![];
    let mut mrng = seed ^ (id as u64) << 40 ^ 0x777;
    let mut i = id as u64;
    while i < runs {
        if g.best.load(SeqCst) < i || Instant::now() > deadline {
            break;
        }
        let before: u64 = if thorough { tape::shm().cov.iter().map(|x| *x as u64).sum() } else { 0 };
        // thorough tier: a third of the runs mutate a tape that reached new code
        if thorough && !corpus.is_empty() && tape::splitmix(&mut mrng) % 3 == 0 {
            let mut t = corpus[(tape::splitmix(&mut mrng) % corpus.len() as u64) as usize].clone();
            let k = 1 + tape::splitmix(&mut mrng) % 4;
            for _ in 0..k {
                if t.is_empty() {
                    break;
                }
                let p = (tape::splitmix(&mut mrng) % t.len() as u64) as usize;
                match tape::splitmix(&mut mrng) % 4 {
                    0 => t[p] = tape::splitmix(&mut mrng) >> 16,
                    1 => t[p] = t[p].wrapping_add(1),
                    2 => {
                        t.remove(p);
                    }
                    _ => t.insert(p, tape::splitmix(&mut mrng) % 16),
                }
            }
            // extend so that later decisions are not all zero
            for _ in 0..200 {
                t.push(tape::splitmix(&mut mrng) >> 8);
            }
            tape::start_replay(&t);
            o.mutated += 1;
        } else {
            tape::start_record(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ i);
        }
        let trace = o.samples.len() < 1 && (i / WORKERS as u64) % 7 == 3;
        let r = run_one(s, trace);
        let used = tape::used();
        o.overflow += tape::shm().overflow as u64;
        o.runs += 1;
        o.ops += r.w.ops;
        o.steps += r.w.steps;
        o.lives += r.w.lives;
        o.preempts += r.w.preempts;
        o.events += r.w.events;
        o.sim_ns += r.w.sim_ns as u128;
        for (a, b) in o.fired.iter_mut().zip(&r.w.fired) {
            *a += *b;
        }
        for (k, v) in &r.w.probes {
            *o.probes.entry(k.clone()).or_default() += v;
        }
        o.distinct_all.insert(r.hash);
        if r.w.n_faults() > 0 {
            o.fired_runs += 1;
            o.distinct.insert(r.hash);
            if trace {
                o.samples.push((i, r.w.trace.clone()));
            }
        }
        o.cov_sigs.insert(cov_sig());
        if thorough {
            let after: u64 = tape::shm().cov.iter().map(|x| *x as u64).sum();
            if after > before && corpus.len() < 4000 {
                corpus.push(used.clone());
                o.corpus += 1;
            }
        }
        if let Some(v) = r.v {
            if v.class == "inconclusive" {
                *o.inconclusive.entry(v.detail.clone()).or_default() += 1;
            } else if let Some(k) = known.iter().find(|k| k.property == s.id && k.class == v.class) {
                *o.known.entry(k.text.clone()).or_default() += 1;
            } else {
                g.lower_best(i);
                o.violation = Some((i, used, v));
                break;
            }
        } else if i % 61 == 0 {
            // same tape, second execution: must be identical
            tape::start_replay(&used);
            let r2 = run_one(s, false);
            o.rechecked += 1;
            if r2.hash != r.hash {
                o.nondet += 1;
            }
        }
        i += WORKERS as u64;
    }
    o
}

fn same(v: &Option<V>, class: &str) -> bool {
    v.as_ref().map(|v| v.class == class).unwrap_or(false)
}

/// Generic tape shrinking: while the same violation class persists, drop,
/// zero and reduce draws.
fn shrink(s: &Scen, tape0: Vec<u64>, class: &str, until: Instant) -> (Vec<u64>, u64) {
    let mut n = 0;
    let mut best = tape0;
    let test = |t: &[u64], n: &mut u64| -> Option<Vec<u64>> {
        *n += 1;
        tape::start_replay(t);
        let r = run_one(s, false);
        if same(&r.v, class) {
            let mut u = tape::used();
            while u.last() == Some(&0) {
                u.pop();
            }
            Some(u)
        } else {
            None
        }
    };
    if let Some(t) = test(&best.clone(), &mut n) {
        best = t;
    }
    loop {
        let start = (best.len(), best.iter().sum::<u64>());
        // delete blocks
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > until {
                    return (best, n);
                }
                let mut c = best.clone();
                c.drain(i..(i + k).min(best.len()));
                match test(&c, &mut n) {
                    Some(t) if t.len() < best.len() => best = t,
                    _ => i += k,
                }
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero blocks, then reduce single draws
        let mut k = (best.len() / 4).max(1);
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                if Instant::now() > until {
                    return (best, n);
                }
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(t) = test(&c, &mut n) {
                        if t.len() < best.len() || (t.len() == best.len() && t.iter().sum::<u64>() < best.iter().sum()) {
                            best = t;
                        }
                    }
                }
                i += k;
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        for i in 0..best.len() {
            for d in [best.get(i).map(|x| x / 2), best.get(i).map(|x| x.saturating_sub(1))].into_iter().flatten() {
                if Instant::now() > until || i >= best.len() {
                    break;
                }
                if best[i] > d {
                    let mut c = best.clone();
                    c[i] = d;
                    if let Some(t) = test(&c, &mut n) {
                        if t.len() <= best.len() {
                            best = t;
                        }
                    }
                }
            }
        }
        if (best.len(), best.iter().sum::<u64>()) == start || Instant::now() > until {
            return (best, n);
        }
    }
}

fn fork_wait(f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    unsafe {
        let fd = libc::memfd_create(c"r".as_ptr(), 0);
        let pid = libc::fork();
        if pid == 0 {
            let v = f();
            write_fd(fd, &v);
            libc::_exit(0);
        }
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        read_fd(fd)
    }
}
fn write_fd(fd: i32, v: &[u8]) {
    let mut o = 0;
    while o < v.len() {
        let r = unsafe { libc::write(fd, v.as_ptr().add(o) as *const _, v.len() - o) };
        if r <= 0 {
            break;
        }
        o += r as usize;
    }
}
fn read_fd(fd: i32) -> Vec<u8> {
    let n = unsafe { libc::lseek(fd, 0, libc::SEEK_END) };
    let mut v = vec![0u8; n.max(0) as usize];
    let mut o = 0;
    while o < v.len() {
        let r = unsafe { libc::pread64(fd, v.as_mut_ptr().add(o) as *mut _, v.len() - o, o as i64) };
        if r <= 0 {
            break;
        }
        o += r as usize;
    }
    unsafe { libc::close(fd) };
    v
}

fn edges() -> (u64, u64) {
    (tape::shm().cov.iter().map(|x| *x as u64).sum(), unsafe { cov::N_GUARDS } as u64)
}

fn check(s: &Scen, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let env = |k: &str| std::env::var(k).ok().and_then(|x| x.parse::<u64>().ok());
    let runs = env("DST_RUNS").unwrap_or(if thorough { u64::MAX } else { s.quick });
    let wall = env("DST_WALL").unwrap_or(if thorough { 600 } else { 150 });
    println!("VERIF_SEED={seed} property={} tier={tier} runs={runs} workers={WORKERS}", s.id);
    calibrate();
    let base = tape::shm() as *mut Shm;
    let g: &tape::Global = unsafe { &*tape::map::<tape::Global>() };
    g.best.store(u64::MAX, SeqCst);
    let deadline = t0 + Duration::from_secs(wall);
    let mut kids = vec![];
    for id in 0..WORKERS {
        let p: *mut Shm = tape::map();
        unsafe {
            std::ptr::copy_nonoverlapping(base, p, 1);
            let fd = libc::memfd_create(c"w".as_ptr(), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                tape::set_shm(p);
                let o = worker(s, id, seed, runs, deadline, g, thorough);
                write_fd(fd, &o.to_vec());
                libc::_exit(0);
            }
            kids.push((pid, fd, p));
        }
    }
    let mut all = WorkerOut::new();
    all.fired = vec![0; world::NF];
    let mut broken = 0;
    for (pid, fd, p) in kids {
        let mut st = 0;
        unsafe { libc::waitpid(pid, &mut st, 0) };
        let v = read_fd(fd);
        if v.is_empty() {
            broken += 1;
            eprintln!("worker failed, status {st:#x}");
            continue;
        }
        let o = WorkerOut::get(&mut &v[..]);
        all.runs += o.runs;
        all.ops += o.ops;
        all.steps += o.steps;
        all.lives += o.lives;
        all.preempts += o.preempts;
        all.events += o.events;
        all.sim_ns += o.sim_ns;
        all.fired_runs += o.fired_runs;
        all.rechecked += o.rechecked;
        all.nondet += o.nondet;
        all.overflow += o.overflow;
        all.corpus += o.corpus;
        all.mutated += o.mutated;
        for (a, b) in all.fired.iter_mut().zip(&o.fired) {
            *a += *b;
        }
        for (k, v) in o.probes {
            *all.probes.entry(k).or_default() += v;
        }
        for (k, v) in o.inconclusive {
            *all.inconclusive.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *all.known.entry(k).or_default() += v;
        }
        all.distinct.extend(o.distinct);
        all.distinct_all.extend(o.distinct_all);
        all.cov_sigs.extend(o.cov_sigs);
        if all.samples.len() < 3 {
            all.samples.extend(o.samples);
        }
        if let Some(v) = o.violation {
            if all.violation.as_ref().map(|b| v.0 < b.0).unwrap_or(true) {
                all.violation = Some(v);
            }
        }
        let c = unsafe { &(*p).cov };
        for i in 0..tape::COV_MAX {
            tape::shm().cov[i] |= c[i];
        }
        unsafe { libc::munmap(p as *mut _, std::mem::size_of::<Shm>()) };
    }
    let search = t0.elapsed().as_secs_f64();
    let mut code = 0;
    let mut nviol = 0;
    for (text, n) in &all.known {
        println!("KNOWN-FINDING: property={} {text} ({n} runs)", s.id);
    }
    if let Some((idx, t, v)) = &all.violation {
        // reproduce, minimise, and confirm the minimised tape in fresh processes
        let mut ok = false;
        for _ in 0..3 {
            tape::start_replay(t);
            if same(&run_one(s, false).v, &v.class) {
                ok = true;
                break;
            }
        }
        if ok {
            let until = Instant::now() + Duration::from_secs(if thorough { 120 } else { 40 });
            let (small, tried) = shrink(s, t.clone(), &v.class, until);
            let path = write_replay(s, seed, *idx, &small, t.len(), tried, v);
            let conf = fork_wait(|| {
                tape::start_replay(&small);
                vec![same(&run_one(s, false).v, &v.class) as u8]
            });
            tape::start_replay(&small);
            let r = run_one(s, false);
            let d = r.v.map(|x| x.detail).unwrap_or_else(|| v.detail.clone());
            println!("violation class: {}", v.class);
            println!("violation: {d}");
            println!("found at run {idx} of seed {seed}; tape {} -> {} draws in {tried} executions; confirmed: {}", t.len(), small.len(), conf == [1]);
            println!("VIOLATION property={} replay={path}", s.id);
            code = 1;
            nviol = 1;
        } else {
            eprintln!("unreproducible observation at run {idx}: {} {}", v.class, v.detail);
            all.nondet += 1;
        }
    }
    evidence(s, tier, seed, &all, search, t0.elapsed().as_secs_f64(), nviol, broken);
    if code == 0 && (broken > 0 || all.runs == 0) {
        eprintln!("the simulator itself failed");
        return 3;
    }
    let (c, n) = edges();
    println!(
        "{}: {} runs in {:.1}s, {} distinct faulty runs, {} library calls, {} faults, {} lifetimes, {} preemptions, blocks {c}/{n}, nondeterminism {}/{}",
        s.id,
        all.runs,
        search,
        all.distinct.len(),
        all.ops,
        all.fired.iter().sum::<u64>(),
        all.lives,
        all.preempts,
        all.nondet,
        all.rechecked
    );
    code
}

fn write_replay(s: &Scen, seed: u64, idx: u64, t: &[u64], orig: usize, tried: u64, v: &V) -> String {
    tape::start_replay(t);
    let r = run_one(s, true);
    let dir = "/verif/work/replays";
    let _ = std::fs::create_dir_all(dir);
    let path = format!("{dir}/{}-{seed}-{idx}.json", s.id);
    let j = json!({
        "property": s.id, "class": v.class, "detail": r.v.as_ref().map(|x| x.detail.clone()), "seed": seed, "run": idx,
        "tape": t, "original_draws": orig, "shrink_executions": tried, "hash": format!("{:016x}", r.hash),
        "trace": r.w.trace, "replay_with": format!("/verif/check.sh replay {path}"),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
    path
}

fn replay(path: &str) -> i32 {
    let j: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let id = j["property"].as_str().unwrap();
    let s = scen::find(id).expect("property");
    let t: Vec<u64> = j["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap()).collect();
    calibrate();
    tape::start_replay(&t);
    let r = run_one(&s, true);
    for l in &r.w.trace {
        println!("  {l}");
    }
    println!("hash {:016x} (recorded {})", r.hash, j["hash"].as_str().unwrap_or("?"));
    match r.v {
        Some(v) if v.class != "inconclusive" => {
            println!("violation class: {} (recorded {})", v.class, j["class"].as_str().unwrap_or("?"));
            println!("violation: {}", v.detail);
            println!("VIOLATION property={id} replay={path}");
            1
        }
        _ => {
            println!("no violation");
            0
        }
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(s: &Scen, tier: &str, seed: u64, o: &WorkerOut, search: f64, wall: f64, nviol: i64, broken: u64) {
    let faults: BTreeMap<&str, u64> =
        world::F_NAMES.iter().zip(&o.fired).filter(|x| *x.1 > 0).map(|(a, b)| (*a, *b)).collect();
    let (c, n) = edges();
    let samples: Vec<Value> = o
        .samples
        .iter()
        .take(3)
        .map(|(i, t)| {
            let mut t: Vec<String> = t.iter().take(60).map(|x| x.chars().take(160).collect()).collect();
            if t.len() == 60 {
                t.push("…".into());
            }
            json!({"run": i, "events": t})
        })
        .collect();
    let samples = if samples.is_empty() { vec![json!({"run": 0, "note": "stopped before a faulty run was sampled"})] } else { samples };
    let j = json!({
        "property": s.id,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": o.runs,
            "distinct_nontrivial": o.distinct.len(),
            "rule": format!("One evaluation is one simulated run: {} Every decision is a draw from one seed. A run is non-trivial if at least one fault, restart or preemption was actually injected; two runs are distinct if the hashes of their complete event logs (every call into the environment with its outcome, every scheduling decision, every operation result) differ.", s.rule),
            "samples": samples,
            "distinct_event_logs_including_fault_free": o.distinct_all.len(),
            "distinct_sets_of_basic_blocks_reached": o.cov_sigs.len(),
            "library_basic_blocks_reached": c,
            "library_basic_blocks_total": n,
            "runs_with_faults": o.fired_runs,
            "runs_per_hour": (o.runs as f64 / search * 3600.0) as u64,
            "library_calls": o.ops,
            "library_basic_blocks_executed": o.steps,
            "environment_events": o.events,
            "simulated_seconds": (o.sim_ns / 1_000_000) as f64 / 1000.0,
            "process_lifetimes": o.lives,
            "preemptions": o.preempts,
            "faults_injected": faults,
            "rare_conditions_reached": o.probes,
            "inconclusive_runs": o.inconclusive,
            "executions_repeated_to_test_determinism": o.rechecked,
            "of_these_not_identical": o.nondet,
            "tapes_kept_for_new_coverage": o.corpus,
            "runs_mutating_a_kept_tape": o.mutated,
            "tape_overflows": o.overflow,
            "constants_harvested_from_the_code": tape::shm().dict_n,
            "known_findings_seen": o.known,
            "workers_failed": broken,
            "real_components": s.real,
            "stubbed_components": s.stub,
        },
        "assumptions": s.assume,
        "wall_s": wall,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all("/verif/evidence");
    std::fs::write(format!("/verif/evidence/{}.json", s.id), serde_json::to_string_pretty(&j).unwrap()).expect("evidence");
}

fn no_aslr() {
    // identical addresses in every execution (best effort)
    unsafe {
        const ADDR_NO_RANDOMIZE: u64 = 0x0040000;
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p as u64 & ADDR_NO_RANDOMIZE == 0 && std::env::var_os("DST_NOASLR").is_none() {
            if libc::personality(p as u64 | ADDR_NO_RANDOMIZE) >= 0 {
                use std::os::unix::process::CommandExt;
                let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("DST_NOASLR", "1").exec();
                eprintln!("exec: {e}");
            }
        }
    }
}

fn main() {
    mem::init();
    no_aslr();
    tape::set_shm(tape::map());
    node::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let s = scen::find(&a[2]).expect("unknown property");
            let tier = a.get(3).cloned().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            check(&s, &tier, seed)
        }
        Some("replay") => replay(&a[2]),
        Some("trace") => {
            // one run of a property, with its event log
            let s = scen::find(&a[2]).expect("unknown property");
            let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let i: u64 = a[3].parse().unwrap();
            calibrate();
            tape::start_record(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ i);
            let r = run_one(&s, true);
            for l in &r.w.trace {
                println!("  {l}");
            }
            println!("{:?} draws {} hash {:016x}", r.v, tape::used().len(), r.hash);
            0
        }
        Some("dict") => {
            calibrate();
            println!("{:?}\nknown blocks {}", &tape::shm().dict[..tape::shm().dict_n], tape::shm().known_n);
            0
        }
        Some("list") => {
            for s in scen::all() {
                println!("{}", s.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check <id> [tier] | replay <file> | trace <id> <n> | dict | list");
            2
        }
    };
    std::process::exit(code);
}
