//! The properties, as scenarios: each builds a world, drives the library
//! through it under faults, and judges what was observed.
use crate::gen;
use crate::io::{Dst, Src};
use crate::node::{call, call_plain, fork_life, life, Fail, Life, Out};
use crate::oracle::{self, RefKey, SigFields};
use crate::tape::{chance, draw, pick};
use crate::world::{w, Wd, World};
use minisign::*;
use std::fmt::Debug;
use std::path::Path;


binstruct! {
#[derive(Clone, Debug)]
pub struct V {
    pub class: String,
    pub detail: String,
}
}
pub type Res<T = ()> = std::result::Result<T, V>;
pub fn bad<T>(class: &str, detail: impl Into<String>) -> Res<T> {
    let mut d: String = detail.into();
    if d.len() > 1200 {
        let mut k = 1200;
        while !d.is_char_boundary(k) {
            k -= 1;
        }
        d.truncate(k);
        d.push('…');
    }
    Err(V { class: class.into(), detail: d })
}
/// The run says nothing about the property.
pub fn unclear<T>(detail: impl Into<String>) -> Res<T> {
    bad("inconclusive", detail)
}
macro_rules! ensure {
    ($c:expr, $class:expr, $($a:tt)*) => {{ if !$c { return $crate::scen::bad($class, format!($($a)*)); } }};
}

mod conc;
mod cost;
mod data;
mod fresh;
mod history;
mod keys;
mod leak;
mod peers;
mod progress;
mod quietly;
mod robust;
mod sigs;

pub struct Scen {
    pub id: &'static str,
    pub run: fn(&mut Wd) -> Res,
    pub quick: u64,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
    pub assume: &'static [&'static str],
}

/// One process lifetime. `strict`: the property promises an answer, so a
/// process that dies instead violates it.
pub fn run_life<T: crate::bin_ser::Bin>(
    world: &mut Wd,
    strict: bool,
    f: impl FnOnce(&mut Wd) -> Res<T>,
) -> Res<Option<T>> {
    settle(life(world, f), strict)
}
pub fn run_fork<T: crate::bin_ser::Bin>(
    world: &mut Wd,
    strict: bool,
    f: impl FnOnce(&mut Wd) -> Res<T>,
) -> Res<Option<T>> {
    settle(fork_life(world, f), strict)
}
fn settle<T>(l: Life<Res<T>>, strict: bool) -> Res<Option<T>> {
    match l {
        Life::Done(Ok(t)) => Ok(Some(t)),
        Life::Done(Err(v)) => Err(v),
        Life::Crashed => Ok(None),
        Life::Died(why) if strict => bad("process-death", why),
        Life::Died(why) => unclear(format!("process died: {why}")),
    }
}

/// Setup that is not what the property is about.
pub fn setup<T>(what: &str, o: Out<T>) -> Res<T> {
    match o {
        Ok(t) => Ok(t),
        Err(e) => unclear(format!("setup: {what}: {}", kind(&e))),
    }
}
fn kind(e: &Fail) -> &'static str {
    match e {
        Fail::Err(_) => "error",
        Fail::Panic(_) => "panic",
    }
}

// ------------------------------------------------------------------ keys
pub struct Key {
    pub r: RefKey,
    pub pk: PublicKey,
    pub sk: SecretKey,
}
pub fn draw_ref() -> RefKey {
    let s = draw(1 << 40);
    let mut n = gen::bytes8(s);
    match draw(10) {
        8 => n = [0; 8],
        9 => n = [0xff; 8],
        7 => n = [0, 0, 0, 0, 0, 0, 0, 1],
        _ => {}
    }
    RefKey::new(gen::bytes32(s), n)
}
impl Key {
    pub fn draw() -> Res<Key> {
        Key::of(draw_ref())
    }
    pub fn of(r: RefKey) -> Res<Key> {
        let pk = setup("load public key", call("PublicKey::from_bytes", 42, || PublicKey::from_bytes(&r.pk_bytes())))?;
        let sk = setup("load secret key", call("SecretKey::from_bytes", 158, || SecretKey::from_bytes(&r.sk_plain())))?;
        Ok(Key { r, pk, sk })
    }
}
/// What the reference makes of an unprotected library key.
pub fn ref_of_plain(sk: &SecretKey) -> Option<RefKey> {
    let f = oracle::sk_fields(&sk.to_bytes())?;
    let k = RefKey::new(f.sk[..32].try_into().ok()?, f.keynum);
    (k.sk64()[..] == f.sk[..] && k.chk() == f.chk).then_some(k)
}
/// Line 2 of a two-line box, decoded.
pub fn box_bytes(s: &str) -> Option<Vec<u8>> {
    oracle::unb64(s.split('\n').nth(1)?)
}

// ------------------------------------------------------------------ operations
pub fn sign(sk: &SecretKey, pk: Option<&PublicKey>, src: &mut Src, tc: Option<&str>, uc: Option<&str>) -> Out<SignatureBox> {
    let n = src.len() + tc.map(|x| x.len()).unwrap_or(0) as u64;
    call("sign", n, || shim::sign_dyn(pk, sk, src, tc, uc))
}
#[allow(clippy::too_many_arguments)]
pub fn verify(pk: &PublicKey, sb: &SignatureBox, src: &mut Src, quiet: bool, output: bool, legacy: bool) -> Out<()> {
    let n = src.len() * 2;
    let what = format!("verify(quiet={quiet}, output={output}, allow_legacy={legacy})");
    call(&what, n, || shim::verify_dyn(pk, sb, src, quiet, output, legacy))
}
pub fn sig_text(sb: &SignatureBox) -> Out<String> {
    call_plain("SignatureBox::to_string", || sb.to_string())
}
pub fn parse_sig(s: &str) -> Out<SignatureBox> {
    call("SignatureBox::from_string", s.len() as u64, || SignatureBox::from_string(s))
}
pub fn parse_bones(b: &[u8]) -> Out<SignatureBox> {
    call("SignatureBones::from_bytes", b.len() as u64, || SignatureBones::from_bytes(b).map(|x| x.into()))
}
pub fn parse_pk(s: &str) -> Out<PublicKey> {
    call("PublicKey::from_box", s.len() as u64, || PublicKey::from_box(PublicKeyBox::from_string(s)?))
}
pub fn open_sk(s: &str, pw: Option<&str>) -> Out<SecretKey> {
    let p = pw.map(|x| x.to_string());
    call("SecretKey::from_box", s.len() as u64, || SecretKeyBox::from_string(s)?.into_secret_key(p))
}
pub fn open_plain(s: &str) -> Out<SecretKey> {
    call("SecretKey::from_unencrypted_box", s.len() as u64, || SecretKeyBox::from_string(s)?.into_unencrypted_secret_key())
}
pub fn fields_of(sb: &SignatureBox, class: &str) -> Res<SigFields> {
    match sig_text(sb) {
        Err(e) => bad(class, format!("signature cannot be serialised: {}", e.text())),
        Ok(t) => match oracle::sig_fields(&t) {
            None => bad(class, format!("malformed signature text {t:?}")),
            Some(f) => Ok(f),
        },
    }
}
pub fn show<T>(o: &Out<T>) -> String {
    match o {
        Ok(_) => "success".into(),
        Err(Fail::Err(e)) => format!("error ({e})"),
        Err(Fail::Panic(e)) => format!("panic ({e})"),
    }
}
pub fn is<T>(o: &Out<T>) -> bool {
    o.is_ok()
}
/// A trusted comment argument: default, or one of many shapes.
pub fn opt_comment() -> Option<String> {
    if draw(3) == 0 {
        None
    } else {
        Some(gen::comment())
    }
}
pub fn short(x: impl Debug) -> String {
    let s = format!("{x:?}");
    s.chars().take(120).collect()
}

// ------------------------------------------------------------------ stored-artefact corruption
use crate::world::F;

/// Damage bytes the way storage and transport do. Returns false if nothing changed.
pub fn damage_bytes(v: &mut Vec<u8>, other: &[u8]) -> bool {
    let w = w();
    let before = v.clone();
    match draw(9) {
        0 | 1 => {
            w.note(F::StoredBitFlip);
            for _ in 0..1 + draw(3) {
                if !v.is_empty() {
                    let i = draw(v.len() as u64) as usize;
                    v[i] ^= 1 << draw(8);
                }
            }
        }
        2 => {
            w.note(F::StoredTruncate);
            let k = draw(v.len() as u64 + 1) as usize;
            v.truncate(k);
        }
        3 => {
            // some sectors from another version of the file
            w.note(F::StoredSplice);
            let sec = pick(&[1usize, 2, 4, 8, 16, 32, 64, 128]);
            let mut i = 0;
            while i < v.len() {
                if draw(2) == 1 {
                    for j in i..(i + sec).min(v.len()) {
                        v[j] = other.get(j).copied().unwrap_or(0);
                    }
                }
                i += sec;
            }
        }
        4 => {
            // prefix of one, rest of the other
            w.note(F::StoredSplice);
            let k = draw(v.len() as u64 + 1) as usize;
            v.truncate(k);
            if k < other.len() {
                v.extend_from_slice(&other[k..]);
            }
        }
        5 => {
            w.note(F::LostWrite);
            let sec = pick(&[8usize, 16, 64, 512]);
            if !v.is_empty() {
                let i = draw(v.len() as u64) as usize / sec * sec;
                let e = (i + sec).min(v.len());
                let b = pick(&[0u8, 0xff, b' ', b'A']);
                v[i..e].iter_mut().for_each(|x| *x = b);
            }
        }
        6 => {
            w.note(F::StoredBitFlip);
            if !v.is_empty() {
                let i = draw(v.len() as u64) as usize;
                v[i] = draw(256) as u8;
            }
        }
        7 => {
            w.note(F::StoredTruncate);
            if !v.is_empty() {
                let i = draw(v.len() as u64) as usize;
                let n = 1 + draw(8) as usize;
                let e = (i + n).min(v.len());
                v.drain(i..e);
            }
        }
        _ => {
            w.note(F::StoredSplice);
            let i = draw(v.len() as u64 + 1) as usize;
            let n = 1 + draw(8) as usize;
            for k in 0..n {
                v.insert(i, pick(&[0u8, b'\n', b'\r', b' ', b'A', b'=', b'/', 0x80]).wrapping_add((k == 99) as u8));
            }
        }
    }
    *v != before
}
/// Damage the line structure of a text file.
pub fn damage_lines(s: &str, other: &str) -> String {
    w().note(F::StoredLines);
    let mut l: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
    let o: Vec<&str> = other.split('\n').collect();
    let n = l.len() as u64;
    let i = draw(n) as usize;
    match draw(10) {
        0 => {
            l.remove(i);
        }
        1 => {
            let x = l[i].clone();
            l.insert(i, x);
        }
        2 => {
            let j = draw(n) as usize;
            l.swap(i, j);
        }
        3 => l.insert(i, String::new()),
        4 => l.iter_mut().for_each(|x| x.push('\r')),
        5 => {
            let x = pick(&[" ", "\t", "  ", "\u{a0}", "\u{feff}"]);
            if draw(2) == 0 {
                l[i].push_str(x)
            } else {
                l[i].insert_str(0, x)
            }
        }
        6 => {
            if let Some(x) = o.get(i) {
                l[i] = x.to_string()
            }
        }
        7 => l[i] = String::new(),
        8 => {
            let k = draw(l[i].chars().count() as u64 + 1) as usize;
            l[i] = l[i].chars().take(k).collect();
        }
        _ => {
            // case and spelling of the line
            l[i] = if draw(2) == 0 { l[i].to_uppercase() } else { l[i].to_lowercase() };
        }
    }
    l.join("\n")
}
/// Re-encode one base64 line with its bytes changed.
pub fn damage_field(s: &str, other: &str, line: usize) -> String {
    w().note(F::StoredField);
    let mut l: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
    let Some(t) = l.get(line) else { return s.into() };
    let Some(mut b) = oracle::unb64(t) else { return s.into() };
    let ob = other.split('\n').nth(line).and_then(oracle::unb64).unwrap_or_default();
    match draw(6) {
        0 if !b.is_empty() => {
            let i = draw(b.len() as u64) as usize;
            b[i] ^= 1 << draw(8);
        }
        1 => {
            let k = draw(b.len() as u64 + 1) as usize;
            b.truncate(k)
        }
        2 => b.extend(gen::prf(draw(256), 1 + draw(40) as usize)),
        3 if !b.is_empty() => {
            // a whole region from the other artefact
            let i = draw(b.len() as u64) as usize;
            let n = pick(&[1usize, 2, 8, 10, 32, 64]);
            for j in i..(i + n).min(b.len()) {
                b[j] = ob.get(j).copied().unwrap_or(0)
            }
        }
        4 if !b.is_empty() => {
            let i = draw(b.len() as u64) as usize;
            let n = pick(&[1usize, 2, 8, 32, 64]);
            let v = pick(&[0u8, 0xff, 1]);
            for j in i..(i + n).min(b.len()) {
                b[j] = v
            }
        }
        _ => b = ob,
    }
    l[line] = oracle::b64(&b);
    l.join("\n")
}

// ------------------------------------------------------------------ registry
pub const REAL: &[&str] = &[
    "minisign (all of /repo/src, built from the working tree)",
    "getrandom crate",
    "rpassword crate",
    "ct-codecs crate",
    "std's file, stream and terminal code above libc",
];
pub const STUB: &[&str] = &[
    "kernel: file, stream, terminal, entropy, clock, futex and sleep calls below libc",
    "data sources and destinations handed to the library",
    "thread scheduling (cooperative baton, preemption at basic blocks)",
    "scrypt's memory-hard core is replaced by a keyed hash of password, salt and cost parameters except in runs that use real scrypt",
];
pub const ASSUME: &[&str] = &[
    "the system calls std, getrandom and rpassword make behave as the simulated kernel models them (Linux, glibc build)",
    "ed25519-dalek and sha2 (reference side) are correct",
];

pub fn all() -> Vec<Scen> {
    let s = |id, run, quick, rule| Scen { id, run, quick, rule, real: REAL, stub: STUB, assume: ASSUME };
    vec![
        s("C01", data::c01 as fn(&mut Wd) -> Res, 16000, "one key, one stream, signed and verified through simulated sources that split and interrupt reads; the signature is judged by an independent implementation."),
        s("C02", data::c02, 80000, "one signing or verification of a stream whose source fails at a drawn position, pass or seek."),
        s("C03", sigs::c03, 60000, "a history of signatures, stored on the simulated disk, corrupted, swapped and verified; every acceptance is checked against the ledger of what was signed."),
        s("C04", keys::c04, 11000, "a history of generating, signing, storing, restarting, reloading, comparing and using keys and signatures."),
        s("C05", data::c05, 100000, "verifications in output mode with stdout faults, moved start positions and sources that change between passes."),
        s("C06", keys::c06, 150000, "generation and writing of key pairs to faulty destinations of several kinds."),
        s("C07", keys::c07, 45000, "a protected key is stored (possibly torn by a crash or corrupted) and opened with sequences of right and wrong passwords."),
        s("C08", keys::c08, 60000, "a protected key's life under faults, with every output sink searched for its secrets."),
        s("C09", fresh::c09, 80000, "key generation and signing while the entropy source fails, is cut short or interrupted."),
        s("C10", fresh::c10, 4500, "a history of signatures under stuck, replayed or good entropy across keys, processes and forks; nonces recovered and compared."),
        s("C11", fresh::c11, 6000, "a history of generated keys across threads, processes and forks, compared pairwise and bit by bit."),
        s("C12", sigs::c12, 60000, "a history of signings and verifications under a jumping clock."),
        s("C13", keys::c13, 200000, "loads from simulated files under file-system faults, compared with parsing the complete contents."),
        s("C14", keys::c14, 150000, "key generation and key opening against a scripted terminal with faults."),
        s("C15", conc::c15, 36000, "two to four tasks running library operations on shared objects under a drawn interleaving."),
        s("C16", robust::c16, 90000, "arbitrary operations on arbitrary damaged artefacts under many simultaneous faults; only panics, aborts, hangs and unbounded demands count."),
        s("C17", sigs::c17, 70000, "verifications of legacy and prehashed signatures under both settings, with tampered algorithm identifiers."),
        s("C20", peers::c20, 14000, "a deployment shared with another implementation: keys, re-sealed keys and signatures exchanged through the simulated disk over several process lifetimes."),
        s("C21", peers::c21, 50000, "protected keys sealed by another implementation under drawn limits, opened here; keys sealed here judged at the key-derivation seam."),
        s("C23", progress::c23, 35000, "operations that fail through every kind of fault (also panicking callers and concurrent failures), then the same objects used with the faults gone."),
        s("C24", progress::c24, 2000, "streams of several megabytes signed, verified and output, with peak memory measured at the allocator seam."),
        s("C25", quietly::c25, 40000, "a history of operations in a world full of things to touch (files lying around, queued terminal input, environment variables, no entropy, no clock); everything written, opened, read from the terminal or changed is compared with what was asked for."),
        s("C26", history::c26, 25000, "one operation executed in a fresh process and at the end of a drawn history in another, with the same clock, entropy, terminal and files; everything observable is compared."),
        s("C27", cost::c27, 30000, "one operation on a long stream, comment, file, encoding or password, delivered in small or large pieces; steps, memory asked for, bytes moved and calls made are bounded in proportion to it."),
        s("C28", leak::c28, 3000, "one or two kinds of operation executed 184 times on ever new inputs, successful, failing and faulty; descriptors, threads and live heap bytes are compared between the 24th and the last."),
        s("C18", sigs::c18, 80000, "signings with genuine, foreign and damaged public keys."),
    ]
}
pub fn find(id: &str) -> Option<Scen> {
    all().into_iter().find(|s| s.id == id)
}

/// Fault-free use of every entry point (calibration).
pub fn calib(world: &mut Wd) {
    let _ = run_life(world, false, |w| -> Res {
        let k = Key::draw()?;
        let d = gen::data(1 << 17);
        let tc = opt_comment();
        if let Ok(sb) = sign(&k.sk, Some(&k.pk), &mut Src::new(d.clone()), tc.as_deref(), None) {
            let _ = verify(&k.pk, &sb, &mut Src::new(d.clone()), false, true, false);
            let _ = verify(&k.pk, &sb, &mut Src::new(gen::tamper(&d)), true, false, true);
            if let Ok(t) = sig_text(&sb) {
                let _ = parse_sig(&t);
                w.put_file("s", t.as_bytes());
                let _ = call("from_file", 0, || shim::sig_from_file(Path::new("s")));
            }
        }
        let l = k.r.sign(&d, true, "c", "u");
        if let Ok(sb) = parse_sig(&l) {
            let _ = verify(&k.pk, &sb, &mut Src::new(d.clone()), true, true, true);
        }
        w.put_file("p", k.r.pk_box().as_bytes());
        let _ = call("from_file", 0, || shim::pk_from_file(Path::new("p")));
        let pw = gen::password();
        let (mut a, mut b) = (Dst::new("pk"), Dst::new("sk"));
        if let Ok(kp) = call("gen", 0, || shim::gen_write_encrypted(&mut a, &mut b, None, Some(pw.clone()))) {
            if let Ok(s) = call("box", 0, || kp.sk.to_box(None)) {
                let s = s.into_string();
                w.put_file("k", s.as_bytes());
                let _ = call("from_file", 0, || shim::sk_from_file(Path::new("k"), Some(pw.clone())));
                let _ = open_sk(&s, Some("wrong"));
            }
        }
        let _ = call("gen", 0, || shim::gen_write_unencrypted(&mut a, &mut b));
        w.tty_present = true;
        w.tty_in = format!("{pw}\n{pw}\n").into_bytes();
        let _ = call("gen", 0, || KeyPair::generate_encrypted_keypair(None));
        Ok(())
    });
}

pub fn coin() -> bool {
    chance(1, 2)
}
