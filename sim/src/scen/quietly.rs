//! C25: no operation does more than it was asked to.
use super::*;
use crate::node::drain_stdout;
use std::io::{Read, Seek, SeekFrom};

struct Kit {
    k: Key,
    pw: String,
    sealed: String,
    sealed_key: SecretKey,
    sealed_chk: Vec<u8>,
    data: Vec<u8>,
    /// signature text, trusted comment (none on some legacy ones), legacy
    sigs: Vec<(String, Option<String>, bool)>,
}
/// What the outside world looks like between two calls.
struct Before {
    out: [usize; 4],
    tty_pos: usize,
    files: std::collections::BTreeMap<String, Vec<u8>>,
}
/// What one call did to it.
struct Did {
    out: Vec<u8>,
    err: Vec<u8>,
    tty: Vec<u8>,
    typed: Vec<u8>,
    effects: Vec<String>,
    changed: Vec<String>,
}
fn files() -> std::collections::BTreeMap<String, Vec<u8>> {
    w().files.iter().map(|(n, f)| (n.clone(), f.data.clone())).collect()
}
fn before() -> Before {
    drain_stdout();
    let w = w();
    w.effects.clear();
    w.effects_on = true;
    Before { out: [w.out[0].len(), w.out[1].len(), w.out[2].len(), w.out[3].len()], tty_pos: w.tty_pos, files: files() }
}
fn after(b: Before) -> Did {
    drain_stdout();
    let w = w();
    w.effects_on = false;
    let now = files();
    let mut changed: Vec<String> = now.iter().filter(|(n, d)| b.files.get(*n) != Some(d)).map(|x| x.0.clone()).collect();
    changed.extend(b.files.keys().filter(|n| !now.contains_key(*n)).cloned());
    Did {
        out: w.out[1][b.out[1]..].to_vec(),
        err: w.out[2][b.out[2]..].to_vec(),
        tty: w.out[3][b.out[3]..].to_vec(),
        typed: w.tty_in[b.tty_pos.min(w.tty_pos)..w.tty_pos].to_vec(),
        effects: std::mem::take(&mut w.effects),
        changed,
    }
}
/// Nothing was opened but `file` (to be read), nothing in the file system was
/// changed; unless interactive nothing was printed and nobody was asked.
fn judge(what: &str, d: &Did, file: Option<&str>, asks: usize) -> Res {
    for e in &d.effects {
        let fine = match e.strip_prefix("open ") {
            Some("/dev/urandom") | Some("/dev/random") => true,
            Some("/dev/tty") => asks > 0,
            Some(f) => Some(f) == file,
            None => false,
        };
        ensure!(fine, "unasked-effect", "{what}: {e}");
    }
    ensure!(d.changed.is_empty(), "unasked-effect", "{what} changed the files {:?}", d.changed);
    ensure!(d.err.is_empty(), "unasked-message", "{what} wrote {:?} to standard error", short(String::from_utf8_lossy(&d.err)));
    if asks == 0 {
        ensure!(d.out.is_empty(), "unasked-message", "{what} wrote {:?} to standard output", short(String::from_utf8_lossy(&d.out)));
        ensure!(d.tty.is_empty() && d.typed.is_empty(), "unasked-question", "{what} used the terminal: wrote {:?}, read {} bytes", short(String::from_utf8_lossy(&d.tty)), d.typed.len());
    }
    let lines = d.typed.iter().filter(|c| **c == b'\n').count();
    ensure!(lines <= asks, "unasked-question", "{what} took {lines} lines from the terminal, {asks} expected");
    Ok(())
}
/// A source that delivers its bytes once, and cannot be repositioned.
struct Pipe(Src);
impl Read for Pipe {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}
impl Seek for Pipe {
    fn seek(&mut self, _: SeekFrom) -> std::io::Result<u64> {
        w().note(F::SrcSeekError);
        Err(std::io::Error::from_raw_os_error(libc::ESPIPE))
    }
}
fn lines(n: u64) {
    let w = w();
    let mut t = String::new();
    for _ in 0..n {
        t.push_str(&pick(&["rm -rf x", "yes", "", "secret of another program"]).to_string());
        t.push('\n');
    }
    w.tty_in = t.into_bytes();
    w.tty_pos = 0;
}
const FAULTS: &[F] = &[
    F::SrcInterrupted, F::SrcShortRead, F::SrcError, F::FsReadInterrupted, F::FsShortRead, F::FsReadError, F::FsOpenError, F::OutShortWrite,
    F::OutInterrupted, F::OutError, F::RngInterrupted, F::RngShort, F::RngError, F::RngNoSyscall, F::ClockJump, F::TtyReadError, F::TtyOpenError,
];

fn verification(w: &mut Wd, s: &Kit) -> Res {
    let (mut text, tc, legacy) = s.sigs[draw(s.sigs.len() as u64) as usize].clone();
    let mut expect = true;
    if draw(6) == 5 {
        // a trusted comment nobody signed
        let mut l: Vec<String> = text.split('\n').map(|x| x.to_string()).collect();
        l[2].push_str(pick(&["!", " ", "0", "\u{1b}[1m"]));
        text = l.join("\n");
        w.note(F::StoredLines);
        expect = false;
    }
    // the bare signature, without any comment
    let bare_sig = draw(8) == 7;
    let sb = if bare_sig {
        expect = true;
        let b = box_bytes(&text).unwrap();
        setup("parse signature", parse_bones(&b))?
    } else {
        setup("parse signature", parse_sig(&text))?
    };
    let tc = if bare_sig { None } else { tc };
    let mut d = s.data.clone();
    let mut pk = s.k.pk.clone();
    match draw(6) {
        3 => {
            d = gen::tamper(&d);
            w.note(F::DataTamper);
            expect = false;
        }
        4 => {
            pk = Key::draw()?.pk;
            expect = pk == s.k.pk;
        }
        _ => {}
    }
    // a key that differs in the key itself, under the same identifier
    if expect && draw(8) == 7 {
        let mut r = RefKey::new(gen::bytes32(draw(1 << 40)), s.k.r.keynum);
        if r.seed == s.k.r.seed {
            r.seed[0] ^= 1;
        }
        pk = Key::of(RefKey::new(r.seed, r.keynum))?.pk;
        expect = false;
    }
    let (quiet, output, allow) = (coin(), coin(), legacy && draw(4) != 3 || coin());
    if legacy && !allow {
        expect = false;
    }
    let what = format!("verify(quiet={quiet}, output={output}, allow_legacy={allow}) of a {} signature", if legacy { "legacy" } else { "prehashed" });
    let piped = !output && coin();
    let bare = draw(3) == 2;
    if bare {
        // verification needs neither randomness nor a sensible clock
        w.ent_down = true;
        w.ent_down_errno = libc::EIO;
        w.note(F::RngDown);
        w.real_s = -1 - draw(1 << 33) as i64;
        w.note(F::ClockBeforeEpoch);
    } else {
        w.swarm(FAULTS);
        if draw(8) == 7 {
            w.enable(F::ErrError);
        }
    }
    let broken = w.out_err_seen[2];
    let b = before();
    let mut src = Src::new(d.clone()).chunked();
    let r = if piped {
        let n = src.len() * 2;
        let mut p = Pipe(src);
        let r = call(&what, n, || shim::verify_dyn(&pk, &sb, &mut p, quiet, output, allow));
        src = p.0;
        r
    } else {
        verify(&pk, &sb, &mut src, quiet, output, allow)
    };
    w.faults_off();
    let mut did = after(b);
    let err_broken = w.out_err_seen[2] != broken;
    w.ent_down = false;
    w.real_s = crate::world::T0;
    w.out_broken = vec![0; 4];
    if bare {
        ensure!(is(&r) == expect, "needs-more-than-it-was-given", "{what} without entropy, before 1970{}: {}", if piped { ", source cannot seek" } else { "" }, show(&r));
    } else if piped && expect && src.hard == 0 && !err_broken {
        ensure!(is(&r), "needs-more-than-it-was-given", "{what} from a source that cannot seek: {}", show(&r));
    }
    if piped {
        ensure!(src.pos <= d.len() as u64, "unasked-effect", "{what} read beyond the end");
    }
    let err = std::mem::take(&mut did.err);
    let out = if output && expect { std::mem::take(&mut did.out) } else { vec![] };
    judge(&what, &did, None, 0)?;
    ensure!(d.starts_with(&out), "unasked-message", "{what}: standard output holds {:?}", short(String::from_utf8_lossy(&out)));
    if quiet || !expect {
        ensure!(err.is_empty(), "unasked-message", "{what}, expected {}: wrote {:?} to standard error", if expect { "success" } else { "failure" }, short(String::from_utf8_lossy(&err)));
    } else if is(&r) && !err_broken {
        let e = String::from_utf8_lossy(&err).into_owned();
        match &tc {
            Some(tc) => ensure!(e.ends_with(&format!("{tc}\n")), "wrong-message", "{what}: standard error ends with {:?}, trusted comment is {:?}", short(&e), short(tc)),
            None => ensure!(!err.is_empty(), "wrong-message", "{what}: nothing on standard error"),
        }
        let u = "unsigned-marker";
        ensure!(!e.contains(u), "wrong-message", "{what}: the untrusted comment is shown: {:?}", short(&e));
    }
    Ok(())
}
pub fn c25(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let k = Key::draw()?;
        let data = gen::data(3000);
        let pw = loop {
            let p = gen::password();
            if p.len() < 1000 && !p.contains(['\n', '\r', '\0']) {
                break p;
            }
        };
        let sealed = RefKey::sk_box(&k.r.sk_sealed(pw.as_bytes(), &gen::bytes32(draw(1 << 40)), 1 << 20, 1 << 25, false), "c");
        let sealed_key = setup("open key", open_sk(&sealed, Some(&pw)))?;
        let sealed_chk = sealed_key.to_bytes();
        let mut sigs = vec![];
        for legacy in [false, true] {
            let tc = gen::comment();
            sigs.push((k.r.sign(&data, legacy, &tc, "unsigned-marker"), Some(tc), legacy));
        }
        let s = Kit { k, pw, sealed, sealed_key, sealed_chk, data, sigs };
        // what lies around
        w.put_file("s.minisig", s.sigs[0].0.as_bytes());
        w.put_file("p.pub", s.k.r.pk_box().as_bytes());
        w.put_file("k.key", s.sealed.as_bytes());
        w.put_file("u.key", RefKey::sk_box(&s.k.r.sk_plain(), "u").as_bytes());
        for f in ["minisign.pub", "minisign.key", "/root/.minisign/minisign.key", "minisign.conf", "p.pub.minisig", "k.key.bak"] {
            w.put_file(f, pick(&["", "x\n", &s.sealed[..]]).as_bytes());
        }
        w.tty_present = draw(4) != 3;
        for _ in 0..3 + draw(5) {
            lines(2);
            match draw(12) {
                0..=3 => verification(w, &s)?,
                4 => {
                    w.swarm(FAULTS);
                    let b = before();
                    let tc = opt_comment();
                    let mut src = Src::new(s.data.clone()).chunked();
                    let sk = if coin() { &s.sealed_key } else { &s.k.sk };
                    let _ = sign(sk, coin().then_some(&s.k.pk), &mut src, tc.as_deref(), opt_comment().as_deref());
                    judge("sign", &after(b), None, 0)?;
                    ensure!(s.sealed_key.to_bytes() == s.sealed_chk, "unasked-effect", "signing changed the secret key");
                }
                5 => {
                    let f = pick(&["s.minisig", "missing.minisig", "p.pub"]);
                    w.swarm(FAULTS);
                    let b = before();
                    let _ = call("SignatureBox::from_file", 0, || shim::sig_from_file(Path::new(f)));
                    judge("SignatureBox::from_file", &after(b), Some(f), 0)?;
                }
                6 => {
                    let f = pick(&["p.pub", "missing.pub", "s.minisig"]);
                    w.swarm(FAULTS);
                    let b = before();
                    let _ = call("PublicKey::from_file", 0, || shim::pk_from_file(Path::new(f)));
                    judge("PublicKey::from_file", &after(b), Some(f), 0)?;
                }
                7 => {
                    // wrong and right passwords, missing, damaged and foreign files
                    let f = pick(&["k.key", "u.key", "missing.key", "minisign.key"]);
                    let p = if coin() { s.pw.clone() } else { gen::other_password(&s.pw) };
                    w.swarm(FAULTS);
                    let b = before();
                    let _ = call("SecretKey::from_file", 0, || shim::sk_from_file(Path::new(f), Some(p)));
                    judge("SecretKey::from_file with a password", &after(b), Some(f), 0)?;
                }
                8 => {
                    let f = pick(&["k.key", "u.key", "k.key"]);
                    let right = coin();
                    if right {
                        w.tty_in = format!("{}\nrm -rf x\n", s.pw).into_bytes();
                    }
                    w.swarm(FAULTS);
                    let b = before();
                    let r = call("SecretKey::from_file", 0, || shim::sk_from_file(Path::new(f), None));
                    let d = after(b);
                    judge("SecretKey::from_file(terminal)", &d, Some(f), if f == "k.key" { 1 } else { 0 })?;
                    if !right {
                        ensure!(!is(&r) || f != "k.key", "needs-more-than-it-was-given", "a protected key opened with the wrong password");
                    }
                }
                9 => {
                    w.swarm(FAULTS);
                    let b = before();
                    let given = coin();
                    let p = given.then(|| s.pw.clone());
                    let written = coin();
                    let (mut x, mut y) = (Dst::new("pk destination"), Dst::new("sk destination"));
                    let _ = if written {
                        call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut x, &mut y, Some("c"), p))
                    } else {
                        call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(p))
                    };
                    judge("generating a protected key pair", &after(b), None, if given { 0 } else { 2 })?;
                }
                10 => {
                    w.swarm(FAULTS);
                    let b = before();
                    let (mut x, mut y) = (Dst::new("pk destination"), Dst::new("sk destination"));
                    let _ = if coin() {
                        call("generate_and_write_unencrypted_keypair", 0, || shim::gen_write_unencrypted(&mut x, &mut y))
                    } else {
                        call("generate_unencrypted_keypair", 0, KeyPair::generate_unencrypted_keypair)
                    };
                    judge("generating an unprotected key pair", &after(b), None, 0)?;
                }
                _ => {
                    let bare = coin();
                    if bare {
                        w.ent_down = true;
                        w.ent_down_errno = libc::EIO;
                        w.note(F::RngDown);
                        w.real_s = -1 - draw(1 << 33) as i64;
                        w.note(F::ClockBeforeEpoch);
                    }
                    let b = before();
                    let r = match draw(5) {
                        0 => parse_pk(&s.k.r.pk_box()).map(|_| ()),
                        1 => open_sk(&s.sealed, Some(&s.pw)).map(|_| ()),
                        2 => open_plain(&RefKey::sk_box(&s.k.r.sk_plain(), "u")).map(|_| ()),
                        3 => parse_sig(&s.sigs[0].0).and_then(|b| sig_text(&b)).map(|_| ()),
                        _ => call("to_box", 0, || s.k.pk.to_box().map(|_| ())).and_then(|_| call("to_box", 0, || s.k.sk.to_box(None).map(|_| ()))),
                    };
                    let d = after(b);
                    w.ent_down = false;
                    w.real_s = crate::world::T0;
                    judge("parsing, opening or serialising", &d, None, 0)?;
                    ensure!(is(&r), "needs-more-than-it-was-given", "parsing, opening or serialising{}: {}", if bare { " without entropy, before 1970" } else { "" }, show(&r));
                }
            }
            w.faults_off();
            w.ent_down = false;
            w.ent_nosys = 0;
            w.out_broken = vec![0; 4];
        }
        Ok(())
    })
    .map(|_| ())
}
