//! C26: what an operation does depends on what it is given, not on what the
//! process did before. The same operation is executed in a fresh process and
//! at the end of a history; both must be indistinguishable.
use super::*;
use crate::node::drain_stdout;
use crate::sched;
use std::sync::{Arc, Mutex};

/// What the two executions have in common.
struct Uni {
    keys: Vec<RefKey>,
    data: Vec<Vec<u8>>,
    sigs: Vec<String>,
    pks: Vec<String>,
    boxes: Vec<String>,
    pws: Vec<String>,
    comments: Vec<String>,
}
#[derive(Clone, Copy, Debug)]
struct Op {
    kind: u64,
    p: [u64; 6],
    flags: u64,
    /// where the source or destination fails, if it does
    fail: Option<u64>,
    /// the world it is executed in
    clock: u64,
    entropy: u64,
    /// what environment variables say, if they are set
    env: u64,
    thread: bool,
    faulty: bool,
}
binstruct! {
#[derive(Clone, PartialEq)]
pub struct Obs {
    pub end: u8,
    pub value: Vec<u8>,
    pub out: Vec<u8>,
    pub err: Vec<u8>,
    pub tty: Vec<u8>,
    pub typed: u64,
    pub text: String,
}
}
/// Objects that live as long as the process.
#[derive(Default)]
struct Held {
    pks: Vec<Option<PublicKey>>,
    sks: Vec<Option<SecretKey>>,
    sigs: Vec<Option<SignatureBox>>,
}

fn universe() -> Uni {
    let base = draw_ref();
    // another key, another key with the same identifier, the same key under another identifier
    let mut keys = vec![base.clone(), draw_ref()];
    keys.push(RefKey::new(gen::bytes32(draw(1 << 40)), base.keynum));
    keys.push(RefKey::new(base.seed, gen::bytes8(draw(1 << 40))));
    let d = gen::data(2000);
    let mut data = vec![d.clone(), gen::tamper(&d)];
    let mut same_len = d.clone();
    if let Some(x) = same_len.last_mut() {
        *x ^= 1;
    }
    data.push(same_len);
    data.push(gen::data(300));
    let comments: Vec<String> = vec![gen::comment(), "a".into(), "b".into()];
    let k = &keys[0];
    let mut sigs = vec![
        k.sign(&d, false, "a", "u"),
        k.sign(&d, true, "a", "u"),
        k.sign(&d, false, "b", "u"),
        k.sign(&data[1], false, "a", "u"),
        keys[2].sign(&d, false, "a", "u"),
        keys[1].sign(&d, false, &comments[0], "v"),
        keys[3].sign(&d, true, "a", "v"),
        k.sign(&data[2], true, "a", "u"),
    ];
    let f = |s: &String| oracle::sig_fields(s).unwrap();
    // parts of different signatures put together, and parts altered
    let (a, b, c) = (f(&sigs[0]), f(&sigs[2]), f(&sigs[3]));
    let mut x = a.clone();
    x.tc = b.tc.clone();
    sigs.push(x.text());
    let mut x = a.clone();
    x.sig = c.sig.clone();
    sigs.push(x.text());
    let mut x = a.clone();
    x.sig[draw(64) as usize] ^= 1 << draw(8);
    sigs.push(x.text());
    let mut x = a.clone();
    x.gsig[draw(64) as usize] ^= 1 << draw(8);
    sigs.push(x.text());
    let mut x = a.clone();
    x.alg = *b"Ed";
    sigs.push(x.text());
    let mut x = a.clone();
    x.keynum = keys[3].keynum;
    sigs.push(x.text());
    let mut x = a.clone();
    x.uc = "other".into();
    sigs.push(x.text());
    sigs.push(sigs[0].replace("trusted comment: a\n", "trusted comment: a"));
    sigs.push(sigs[0].trim_end().to_string());
    let mut pks: Vec<String> = keys.iter().map(|k| k.pk_box()).collect();
    pks.push(pks[0].replacen("RW", "RX", 1));
    pks.push(pks[0].trim_end_matches('\n').to_string() + "=");
    pks.push("untrusted comment: x\n".to_string() + pks[0].split('\n').nth(1).unwrap());
    let p0 = loop {
        let p = gen::password();
        if p.len() < 1000 && !p.contains(['\n', '\r', '\0']) {
            break p;
        }
    };
    let p1 = loop {
        let p = gen::other_password(&p0);
        if p.len() < 1000 && !p.is_empty() && !p.contains(['\n', '\r', '\0']) {
            break p;
        }
    };
    let pws = vec![p0, p1, "third".into()];
    let salt = gen::bytes32(draw(1 << 40));
    let salt2 = gen::bytes32(1 + (1 << 41));
    let seal = |k: &RefKey, p: &str, s: &[u8; 32], ops: u64, c: &str| RefKey::sk_box(&k.sk_sealed(p.as_bytes(), s, ops, 1 << 25, false), c);
    let mut boxes = vec![
        seal(&keys[0], &pws[0], &salt, 1 << 20, "c"),
        seal(&keys[0], &pws[1], &salt, 1 << 20, "c"),
        seal(&keys[1], &pws[0], &salt, 1 << 20, "c"),
        seal(&keys[2], &pws[0], &salt2, 1 << 20, "c"),
        seal(&keys[0], &pws[0], &salt, 1 << 21, "c"),
        RefKey::sk_box(&keys[0].sk_plain(), "c"),
        RefKey::sk_box(&keys[2].sk_plain(), "c"),
    ];
    let mut dmg = box_bytes(&boxes[0]).unwrap();
    dmg[pick(&[10usize, 60, 70, 130])] ^= 0x10;
    boxes.push(RefKey::sk_box(&dmg, "c"));
    let mut dmg = box_bytes(&boxes[5]).unwrap();
    dmg[pick(&[60usize, 70, 100, 130])] ^= 0x10;
    boxes.push(RefKey::sk_box(&dmg, "c"));
    Uni { keys, data, sigs, pks, boxes, pws, comments }
}
/// How many values parameter `i` of an operation of this kind has.
fn range(u: &Uni, kind: u64, i: usize) -> u64 {
    let n = |v: &Vec<String>| v.len() as u64;
    match (kind, i) {
        // verify: signature, key, data, how the signature is had, how the key is had
        (0, 0) | (1, 0) => n(&u.sigs),
        (0, 1) | (2, 0) => n(&u.pks),
        (0, 2) | (4, 1) => u.data.len() as u64,
        (0, 3) | (0, 4) => 3,
        // parse a signature, a public key
        (1, 1) => 2,
        (2, 1) => 3,
        // open: box, password, how given, from where
        (3, 0) => n(&u.boxes),
        (3, 1) | (5, 1) => n(&u.pws),
        (3, 2) => 3,
        (3, 3) => 2,
        // sign: key, data, comment, key had how, public key given
        (4, 0) | (6, 0) => u.keys.len() as u64,
        (4, 2) => 1 + n(&u.comments),
        (4, 3) => 2,
        (4, 4) => 1 + u.keys.len() as u64,
        // generate: how, password, comment
        (5, 0) => 6,
        (5, 2) => 1 + n(&u.comments),
        // serialise: key, what, comment
        (6, 1) => 4,
        (6, 2) => 1 + n(&u.comments),
        _ => 1,
    }
}
fn draw_op(u: &Uni) -> Op {
    let kind = pick(&[0u64, 0, 0, 0, 0, 1, 1, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6]);
    let mut p = [0; 6];
    for (i, x) in p.iter_mut().enumerate() {
        *x = draw(range(u, kind, i));
    }
    if kind == 0 && coin() {
        // mostly something that verifies
        p[0] = draw(3);
        p[1] = 0;
        p[2] = 0;
    }
    Op {
        kind,
        p,
        flags: draw(8),
        fail: if draw(8) == 7 { Some(draw(3000)) } else { None },
        clock: draw(1 << 30),
        entropy: draw(1 << 40),
        env: 0,
        thread: false,
        faulty: false,
    }
}
/// The same operation, with one thing about it changed.
fn vary(u: &Uni, o: &Op) -> Op {
    let mut o = *o;
    match draw(9) {
        0 => o.flags = draw(8),
        1 => o.fail = if o.fail.is_some() { None } else { Some(draw(3000)) },
        2 => {
            o.clock = draw(1 << 30);
            o.entropy = draw(1 << 40);
        }
        _ => {
            let i = draw(6) as usize;
            o.p[i] = draw(range(u, o.kind, i));
        }
    }
    o
}

fn with_pk<T>(u: &Uni, h: &mut [Option<PublicKey>], i: usize, how: u64, f: impl FnOnce(&PublicKey) -> Out<T>) -> Out<T> {
    let t = &u.pks[i];
    match how {
        0 => {
            if h[i].is_none() {
                h[i] = Some(parse_pk(t)?);
            }
            f(h[i].as_ref().unwrap())
        }
        1 => f(&parse_pk(t)?),
        _ => {
            w().put_file("the.pub", t.as_bytes());
            f(&call("PublicKey::from_file", 0, || shim::pk_from_file(Path::new("the.pub")))?)
        }
    }
}
fn with_sig<T>(u: &Uni, h: &mut [Option<SignatureBox>], i: usize, how: u64, f: impl FnOnce(&SignatureBox) -> Out<T>) -> Out<T> {
    let t = &u.sigs[i];
    match how {
        0 => {
            if h[i].is_none() {
                h[i] = Some(parse_sig(t)?);
            }
            f(h[i].as_ref().unwrap())
        }
        1 => f(&parse_sig(t)?),
        _ => {
            w().put_file("the.minisig", t.as_bytes());
            f(&call("SignatureBox::from_file", 0, || shim::sig_from_file(Path::new("the.minisig")))?)
        }
    }
}
/// The part of a new key pair that chance does not decide.
fn pair(kp: KeyPair) -> Out<Vec<u8>> {
    let b = kp.sk.to_bytes();
    let f = oracle::sk_fields(&b);
    let consistent = f.is_some_and(|f| {
        let r = RefKey::new(f.sk[..32].try_into().unwrap(), f.keynum);
        kp.pk.to_bytes() == r.pk_bytes()
    });
    Ok(vec![consistent as u8])
}
fn new_box(text: &str, pw: Option<&str>, pk: &str) -> Vec<u8> {
    let mut v = text.split('\n').next().unwrap_or("").as_bytes().to_vec();
    let r = box_bytes(text).and_then(|b| oracle::sk_fields(&b)).and_then(|f| match pw {
        Some(p) => oracle::unseal(&f, p.as_bytes(), false),
        None => None,
    });
    v.push(r.is_some_and(|r| box_bytes(pk) == Some(r.pk_bytes())) as u8);
    v
}
fn operate(u: &Uni, h: &mut Held, o: &Op) -> Out<Vec<u8>> {
    let p: Vec<usize> = o.p.iter().map(|x| *x as usize).collect();
    let source = |d: &[u8]| {
        let mut s = Src::new(d.to_vec());
        if o.faulty {
            s = s.chunked();
        }
        if let Some(n) = o.fail {
            s.err_at = Some(((n & 1) as u32, n / 2 % (d.len() as u64 + 1), true));
        }
        s
    };
    let comment = |i: usize| if i == 0 { None } else { Some(u.comments[i - 1].as_str()) };
    match o.kind {
        0 => with_pk(u, &mut h.pks, p[1], o.p[4], |pk| {
            with_sig(u, &mut h.sigs, p[0], o.p[3], |sb| {
                let mut s = source(&u.data[p[2]]);
                verify(pk, sb, &mut s, o.flags & 1 != 0, o.flags & 2 != 0, o.flags & 4 != 0).map(|_| vec![])
            })
        }),
        1 => with_sig(u, &mut h.sigs, p[0], if p[1] == 0 { 1 } else { 2 }, |sb| {
            let mut v = sig_text(sb)?.into_bytes();
            v.push(sb.is_prehashed() as u8);
            v.extend_from_slice(call("trusted_comment", 0, || sb.trusted_comment())?.as_bytes());
            Ok(v)
        }),
        2 => match p[1] {
            2 => {
                let t = u.pks[p[0]].split('\n').nth(1).unwrap_or("").to_string();
                call("PublicKey::from_base64", t.len() as u64, || PublicKey::from_base64(&t)).map(|k| k.to_bytes())
            }
            m => with_pk(u, &mut h.pks, p[0], 1 + m as u64, |k| Ok(k.to_bytes())),
        },
        3 => {
            let t = &u.boxes[p[0]];
            let pw = (p[2] == 0).then(|| u.pws[p[1]].clone());
            w().tty_in = format!("{}\n{}\n", u.pws[p[1]], u.pws[p[1]]).into_bytes();
            let sk = match (p[2], p[3]) {
                (2, _) => open_plain(t)?,
                (_, 0) => open_sk(t, pw.as_deref())?,
                _ => {
                    w().put_file("the.key", t.as_bytes());
                    call("SecretKey::from_file", 0, || shim::sk_from_file(Path::new("the.key"), pw))?
                }
            };
            Ok(sk.to_bytes())
        }
        4 => {
            let k = &u.keys[p[0]];
            let load = || call("SecretKey::from_bytes", 158, || SecretKey::from_bytes(&k.sk_plain()));
            let fresh;
            let sk = if p[3] == 0 {
                if h.sks[p[0]].is_none() {
                    h.sks[p[0]] = Some(load()?);
                }
                h.sks[p[0]].as_ref().unwrap()
            } else {
                fresh = load()?;
                &fresh
            };
            let pk = if p[4] == 0 { None } else { Some(parse_pk(&u.pks[p[4] - 1])?) };
            let d = &u.data[p[1]];
            let mut s = source(d);
            let sb = sign(sk, pk.as_ref(), &mut s, comment(p[2]), comment((p[2] + 1) % (u.comments.len() + 1)))?;
            let t = sig_text(&sb)?;
            let Some(f) = oracle::sig_fields(&t) else { return Ok(b"malformed".to_vec()) };
            let mut v = vec![f.check(k, d).is_ok() as u8];
            v.extend_from_slice(format!("{:?} {:?} {:?} {:?}", f.alg, f.keynum, f.tc, f.uc).as_bytes());
            Ok(v)
        }
        5 => {
            let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
            if let Some(n) = o.fail {
                *if n & 1 == 0 { &mut a.capacity } else { &mut b.capacity } = n / 2 % 300;
            }
            let pw = u.pws[p[1]].clone();
            w().tty_in = format!("{pw}\n{}\n", if p[0] == 3 { &u.pws[(p[1] + 1) % 3] } else { &pw }).into_bytes();
            match p[0] {
                0 => call("generate_unencrypted_keypair", 0, KeyPair::generate_unencrypted_keypair).and_then(pair),
                1 => {
                    call("generate_and_write_unencrypted_keypair", 0, || shim::gen_write_unencrypted(&mut a, &mut b))?;
                    let f = oracle::sk_fields(&b.got);
                    let r = f.map(|f| RefKey::new(f.sk[..32].try_into().unwrap(), f.keynum));
                    Ok(vec![r.is_some_and(|r| r.sk_plain() == b.got && r.pk_bytes() == a.got) as u8])
                }
                2 | 3 => call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(None)).and_then(|kp| {
                    let s = call("to_box", 0, || kp.sk.to_box(None))?.into_string();
                    let q = call("to_box", 0, || kp.pk.to_box())?.into_string();
                    Ok(new_box(&s, Some(&pw), &q))
                }),
                4 => call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(Some(pw.clone()))).and_then(|kp| {
                    let s = call("to_box", 0, || kp.sk.to_box(comment(p[2])))?.into_string();
                    let q = call("to_box", 0, || kp.pk.to_box())?.into_string();
                    Ok(new_box(&s, Some(&pw), &q))
                }),
                _ => {
                    call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut a, &mut b, comment(p[2]), Some(pw.clone())))?;
                    let (s, q) = (String::from_utf8_lossy(&b.got).into_owned(), String::from_utf8_lossy(&a.got).into_owned());
                    Ok(new_box(&s, Some(&pw), &q))
                }
            }
        }
        _ => {
            let k = &u.keys[p[0]];
            let sk = call("SecretKey::from_bytes", 158, || SecretKey::from_bytes(&k.sk_plain()))?;
            match p[1] {
                0 => Ok(call("SecretKey::to_box", 0, || sk.to_box(comment(p[2])))?.into_string().into_bytes()),
                1 => Ok(call("PublicKey::from_secret_key", 0, || PublicKey::from_secret_key(&sk))?.to_bytes()),
                2 => with_pk(u, &mut h.pks, p[0], 0, |pk| Ok(call("PublicKey::to_box", 0, || pk.to_box())?.into_string().into_bytes())),
                _ => with_pk(u, &mut h.pks, p[0], 0, |pk| Ok(call_plain("to_base64", || pk.to_base64())?.into_bytes())),
            }
        }
    }
}
const FAULTS: &[F] = &[
    F::SrcInterrupted, F::SrcShortRead, F::SrcError, F::SrcSeekError, F::DstInterrupted, F::DstShortWrite, F::DstError, F::DstBuffered, F::FsReadInterrupted,
    F::FsShortRead, F::FsReadError, F::FsOpenError, F::OutShortWrite, F::OutInterrupted, F::OutError, F::ErrShortWrite, F::RngInterrupted, F::RngShort, F::RngError,
    F::RngNoSyscall, F::ClockJump, F::TtyReadError, F::TtyOpenError, F::TtyEof, F::TtyInterrupted,
];
/// One operation, in a world that is the same each time.
fn observe(u: &Uni, h: &mut Held, o: &Op) -> Obs {
    drain_stdout();
    let w = w();
    w.files.clear();
    w.tty_in.clear();
    w.tty_pos = 0;
    w.tty_present = true;
    w.ent_down = false;
    w.ent_nosys = 0;
    w.ent_mode = 0;
    w.ent_seed = o.entropy;
    w.ent_pos = 0;
    w.real_s = crate::world::T0 + o.clock as i64;
    w.real_ns = 0;
    w.env_mode = o.env;
    w.out_broken = vec![0; 4];
    let from: Vec<usize> = w.out.iter().map(|x| x.len()).collect();
    if o.faulty {
        w.swarm(FAULTS);
    }
    let r = operate(u, h, o);
    w.faults_off();
    w.on = 0;
    w.out_broken = vec![0; 4];
    drain_stdout();
    let (end, value, text) = match r {
        Ok(v) => (0, v, "success".to_string()),
        Err(Fail::Err(e)) => (1, vec![], format!("error ({e})")),
        Err(Fail::Panic(e)) => (2, vec![], format!("panic ({e})")),
    };
    let part = |i: usize| w.out[i][from[i]..].to_vec();
    Obs { end, value, out: part(1), err: part(2), tty: part(3), typed: w.tty_pos as u64, text }
}
struct Shared(Held);
// handed from one task to the next, never used by two at a time
unsafe impl Send for Shared {}

/// A process that executes these operations and reports the last `n`.
fn process(w: &mut Wd, u: &Arc<Uni>, ops: &[Op], n: usize) -> Res<Vec<Obs>> {
    let held = Held { pks: u.pks.iter().map(|_| None).collect(), sks: u.keys.iter().map(|_| None).collect(), sigs: u.sigs.iter().map(|_| None).collect() };
    let held = Arc::new(Mutex::new(Shared(held)));
    let got = Arc::new(Mutex::new(vec![]));
    let all = ops.to_vec();
    let r = run_life(w, true, move |_| {
        let first = all.len() - n;
        for (i, o) in all.into_iter().enumerate() {
            let (u, h, g) = (u.clone(), held.clone(), got.clone());
            let body = move || {
                let x = observe(&u, &mut h.lock().unwrap().0, &o);
                if i >= first {
                    g.lock().unwrap().push(x);
                }
            };
            if o.thread {
                sched::run(vec![Box::new(body)], 0);
            } else {
                body();
            }
        }
        let v = std::mem::take(&mut *got.lock().unwrap());
        Ok(v)
    })?;
    Ok(r.unwrap_or_default())
}
fn differ(a: &Obs, b: &Obs, texts: bool) -> Option<String> {
    let t = |x: &Vec<u8>| short(String::from_utf8_lossy(x));
    if a.end != b.end || texts && a.end == 1 && a.text != b.text {
        return Some(format!("{} / {}", a.text, b.text));
    }
    for (what, x, y) in [("value", &a.value, &b.value), ("standard output", &a.out, &b.out), ("standard error", &a.err, &b.err), ("terminal", &a.tty, &b.tty)] {
        if x != y {
            return Some(format!("{what} {} / {}", t(x), t(y)));
        }
    }
    if a.typed != b.typed {
        return Some(format!("{} / {} bytes taken from the terminal", a.typed, b.typed));
    }
    None
}
fn name(o: &Op) -> String {
    let n = ["verify", "load a signature", "load a public key", "open a secret key", "sign", "generate a key pair", "serialise a key"][o.kind as usize];
    format!("{n} {:?} flags {} {}", o.p, o.flags, o.fail.map(|x| format!("failing at {x}")).unwrap_or_default())
}
fn env() -> u64 {
    if draw(3) == 2 {
        1 + draw(6)
    } else {
        0
    }
}
pub fn c26(world: &mut Wd) -> Res {
    let u = Arc::new(universe());
    let x = draw_op(&u);
    let mut ops = vec![];
    for _ in 0..1 + draw(6) {
        let mut o = match draw(8) {
            0..=3 => vary(&u, &x),
            4 => {
                let v = vary(&u, &x);
                vary(&u, &v)
            }
            5 => x,
            _ => draw_op(&u),
        };
        o.thread = draw(6) == 5;
        o.env = env();
        o.faulty = draw(4) == 3;
        let times = if draw(150) == 149 { 260 } else { pick(&[1u64, 1, 1, 1, 2, 3, 7, 20]) };
        for _ in 0..times {
            ops.push(o);
        }
    }
    let fresh = process(world, &u, &[x], 1)?;
    let mut last = x;
    last.thread = draw(8) == 7;
    // environment variables are none of the arguments either
    last.env = env();
    ops.push(x);
    ops.push(last);
    let after = process(world, &u, &ops, 2)?;
    let f = &fresh[0];
    if f.end == 0 {
        world.probe("the operation succeeds in a fresh process");
    }
    for (i, g) in after.iter().enumerate() {
        if let Some(d) = differ(f, g, x.fail.is_none()) {
            let h: Vec<String> = ops[..ops.len() - 2 + i].iter().rev().take(4).map(name).collect();
            return bad("history-dependent", format!("{}: in a fresh process / after {} other operations: {d}; before it: {}", name(&x), ops.len() - 2 + i, h.join("; ")));
        }
    }
    Ok(())
}
