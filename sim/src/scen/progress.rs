//! C23, C24: progress after faults, and memory on long streams.
use super::*;
use crate::node::drain_stdout;
use crate::sched;
use crate::seams::{seam, Off};
use std::io::{Read, Seek, SeekFrom};
use std::sync::Arc;

struct Kit {
    k: Key,
    other: Key,
    sealed: String,
    pw: String,
    data: Vec<u8>,
    text: String,
    legacy: bool,
    sb: SignatureBox,
    tc: String,
}
/// The caller's source or destination panics in the middle of a call.
fn exploding() -> Option<(u64, Box<dyn FnMut()>)> {
    if draw(3) == 2 {
        w().probe("a source or destination panicked");
        Some((draw(3), Box::new(|| std::panic::resume_unwind(Box::new("from the caller")))))
    } else {
        None
    }
}
const HARD: &[F] = &[
    F::SrcError, F::SrcSeekError, F::SrcInterrupted, F::SrcShortRead, F::DstError, F::DstWriteZero, F::DstFlushError, F::DstShortWrite,
    F::FsOpenError, F::FsReadError, F::FsWriteError, F::FsShortRead, F::OutError, F::OutZero, F::ErrError, F::OutShortWrite,
    F::TtyOpenError, F::TtyReadError, F::TtyEof, F::TtyAttrError, F::TtyWriteError, F::RngError, F::RngDown, F::RngShort, F::RngInterrupted,
];
/// One operation that may go wrong in any way; its outcome is not judged here.
fn trouble(s: &Kit) {
    let w = w();
    match draw(11) {
        0 => {
            let mut src = Src::new(gen::data(2000));
            src.hook = exploding();
            if coin() {
                src.err_at = Some((0, draw(src.len() + 1), true));
            }
            let _ = sign(&s.k.sk, coin().then_some(&s.k.pk), &mut src, opt_comment().as_deref(), None);
        }
        1 | 2 => {
            let mut src = Src::new(s.data.clone());
            src.hook = exploding();
            if coin() {
                src.err_at = Some((draw(2) as u32, draw(src.len() + 1), true));
            }
            let _ = verify(&s.k.pk, &s.sb, &mut src, coin(), coin(), coin());
        }
        3 => {
            let p = coin().then(|| s.pw.clone());
            let _ = match p {
                Some(p) => call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(Some(p))),
                None => call("generate_unencrypted_keypair", 0, KeyPair::generate_unencrypted_keypair),
            };
        }
        4 => {
            let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
            a.hook = exploding();
            b.hook = exploding();
            let p = s.pw.clone();
            let _ = if coin() {
                call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut a, &mut b, None, Some(p)))
            } else {
                call("generate_and_write_unencrypted_keypair", 0, || shim::gen_write_unencrypted(&mut a, &mut b))
            };
        }
        5 => {
            w.tty_present = draw(4) != 3;
            w.tty_in = pick(&["one\ntwo\n", "same\nsame\n", "x", "", "\n\n"]).as_bytes().to_vec();
            w.tty_pos = 0;
            let _ = call("generate_encrypted_keypair(terminal)", 0, || KeyPair::generate_encrypted_keypair(None));
        }
        6 => {
            w.tty_present = draw(4) != 3;
            w.tty_in = pick(&["wrong\n", "", "\n"]).as_bytes().to_vec();
            w.tty_pos = 0;
            let p = gen::other_password(&s.pw);
            let _ = open_sk(&s.sealed, coin().then_some(&p[..]));
        }
        7 => {
            let d = damage_lines(&s.text, &s.sealed);
            if let Ok(sb) = parse_sig(&d) {
                let _ = verify(&s.k.pk, &sb, &mut Src::new(s.data.clone()), coin(), coin(), true);
            }
            let d = damage_field(&s.sealed, &s.text, 1);
            let _ = open_sk(&d, Some(&s.pw));
            let _ = open_plain(&d);
            let _ = parse_pk(&d);
        }
        8 => {
            w.put_file("t", pick(&[&s.text[..], &s.sealed[..], "", "x\n"]).as_bytes());
            let f = Path::new(pick(&["t", "missing"]));
            let _ = call("SignatureBox::from_file", 0, || shim::sig_from_file(f));
            let _ = call("PublicKey::from_file", 0, || shim::pk_from_file(f));
            let _ = call("SecretKey::from_file", 0, || shim::sk_from_file(f, Some("p".into())));
        }
        9 => {
            let was = w.real_s;
            w.real_s = -1 - draw(1 << 33) as i64;
            w.note(F::ClockBeforeEpoch);
            let _ = sign(&s.k.sk, None, &mut Src::new(vec![1]), None, None);
            crate::world::w().real_s = was;
        }
        _ => {
            let _ = sign(&s.k.sk, Some(&s.other.pk), &mut Src::new(vec![1]), None, Some(pick(&["a\nb", "x", "y\r"])));
        }
    }
}
fn works<T>(what: &str, o: Out<T>) -> Res<T> {
    match o {
        Ok(t) => Ok(t),
        Err(e) => bad("no-recovery", format!("{what} after the faults had stopped: {}", e.text())),
    }
}
/// The same operation with everything in order.
fn after(w: &mut Wd, s: &Kit) -> Res {
    match draw(8) {
        0 => {
            let d = gen::data(2000);
            let t0 = w.real_s;
            let tc = opt_comment();
            let sb = works("signing", sign(&s.k.sk, coin().then_some(&s.k.pk), &mut Src::new(d.clone()), tc.as_deref(), None))?;
            let f = fields_of(&sb, "wrong-after-faults")?;
            if let Err(e) = f.check(&s.k.r, &d) {
                return bad("wrong-after-faults", format!("signature: {e}"));
            }
            match tc {
                Some(c) => ensure!(f.tc == c, "wrong-after-faults", "trusted comment {:?} instead of {:?}", short(&f.tc), short(&c)),
                None => {
                    let x = f.tc.strip_prefix("timestamp:").and_then(|x| x.parse::<i64>().ok());
                    ensure!(x.is_some_and(|x| x >= t0 && x <= w.real_s), "wrong-after-faults", "default comment {:?} at {t0}", short(&f.tc));
                }
            }
        }
        1 => {
            let output = coin();
            drain_stdout();
            w.out[1].clear();
            works("verifying", verify(&s.k.pk, &s.sb, &mut Src::new(s.data.clone()), coin(), output, s.legacy || coin()))?;
            drain_stdout();
            if output {
                ensure!(w.out[1] == s.data, "wrong-after-faults", "{} bytes on standard output instead of {}", w.out[1].len(), s.data.len());
            }
            let c = works("trusted_comment", call("trusted_comment", 0, || s.sb.trusted_comment()))?;
            ensure!(c == s.tc, "wrong-after-faults", "trusted comment {:?}", short(&c));
        }
        2 => {
            let d = gen::tamper(&s.data);
            let o = verify(&s.k.pk, &s.sb, &mut Src::new(d), true, false, true);
            ensure!(!is(&o), "wrong-after-faults", "altered data accepted");
        }
        3 => {
            let kp = works("generating", call("generate_unencrypted_keypair", 0, KeyPair::generate_unencrypted_keypair))?;
            let r = ref_of_plain(&kp.sk);
            ensure!(r.is_some_and(|r| r.pk_bytes() == kp.pk.to_bytes()), "wrong-after-faults", "generated keys do not belong together");
        }
        4 => {
            let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
            let p = s.pw.clone();
            let kp = works("generating and writing", call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut a, &mut b, None, Some(p))))?;
            let t = String::from_utf8_lossy(&b.got).into_owned();
            let r = box_bytes(&t).and_then(|b| oracle::sk_fields(&b)).and_then(|f| oracle::unseal(&f, s.pw.as_bytes(), w.kdf_real));
            let pk = box_bytes(&String::from_utf8_lossy(&a.got));
            ensure!(r.is_some_and(|r| r.pk_bytes() == kp.pk.to_bytes() && Some(r.pk_bytes()) == pk), "wrong-after-faults", "written keys do not belong together");
        }
        5 => {
            let tty = coin();
            w.tty_in = format!("{}\n", s.pw).into_bytes();
            let k = works("opening a protected key", open_sk(&s.sealed, if tty { None } else { Some(&s.pw) }))?;
            let f = oracle::sk_fields(&k.to_bytes());
            ensure!(f.is_some_and(|f| f.sk == s.k.r.sk64()), "wrong-after-faults", "opened to another key");
        }
        6 => {
            w.tty_in = format!("{0}\n{0}\n", s.pw).into_bytes();
            let kp = works("generating with the terminal", call("generate_encrypted_keypair(terminal)", 0, || KeyPair::generate_encrypted_keypair(None)))?;
            let r = oracle::sk_fields(&kp.sk.to_bytes()).and_then(|f| oracle::unseal(&f, s.pw.as_bytes(), w.kdf_real));
            ensure!(r.is_some_and(|r| r.pk_bytes() == kp.pk.to_bytes()), "wrong-after-faults", "the generated key is not protected by the typed password");
        }
        _ => {
            w.put_file("s", s.text.as_bytes());
            w.put_file("p", s.k.r.pk_box().as_bytes());
            w.put_file("k", s.sealed.as_bytes());
            let sb = works("loading a signature", call("SignatureBox::from_file", 0, || shim::sig_from_file(Path::new("s"))))?;
            let pk = works("loading a public key", call("PublicKey::from_file", 0, || shim::pk_from_file(Path::new("p"))))?;
            let p = s.pw.clone();
            let sk = works("loading a secret key", call("SecretKey::from_file", 0, || shim::sk_from_file(Path::new("k"), Some(p))))?;
            let t = works("storing a signature", sig_text(&sb))?;
            let f = oracle::sk_fields(&sk.to_bytes());
            ensure!(t == s.text && pk.to_bytes() == s.k.r.pk_bytes() && f.is_some_and(|f| f.sk == s.k.r.sk64()), "wrong-after-faults", "loaded something else than was stored");
        }
    }
    Ok(())
}
fn calm(w: &mut Wd) {
    w.faults_off();
    w.on = 0;
    w.ent_down = false;
    w.ent_nosys = 0;
    w.ent_fail_at = u64::MAX;
    w.out_broken = vec![0; 4];
    w.tty_present = true;
    w.tty_pos = 0;
    w.tty_echo = true;
    w.real_s = w.real_s.max(crate::world::T0);
}

// ------------------------------------------------------------------ C23
pub fn c23(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        w.ent_seed = draw(1 << 40);
        let (k, other) = (Key::draw()?, Key::draw()?);
        let pw = loop {
            let p = gen::password();
            if !p.is_empty() {
                break p;
            }
        };
        let sealed = RefKey::sk_box(&k.r.sk_sealed(pw.as_bytes(), &gen::bytes32(draw(1 << 32)), 1_048_576, 33_554_432, false), "c");
        let data = gen::data(2000);
        let legacy = draw(4) == 3;
        let tc = gen::comment().trim().to_string();
        let text = k.r.sign(&data, legacy, &tc, "u");
        let sb = setup("parse", parse_sig(&text))?;
        let s = Arc::new(Kit { k, other, sealed, pw, data, text, legacy, sb, tc });
        for _ in 0..1 + draw(2) {
            let n = 1 + draw(5);
            if draw(4) == 3 {
                // troubles in several threads at once
                w.swarm(HARD);
                let bodies: Vec<Box<dyn FnOnce() + Send>> = (0..2)
                    .map(|_| {
                        let s = s.clone();
                        Box::new(move || {
                            for _ in 0..1 + draw(2) {
                                trouble(&s);
                            }
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                sched::run(bodies, [0u64, 1, 2, 8, 40][draw(5) as usize]);
            } else {
                // now and then trouble without end
                let n = if draw(12) == 11 { 20 + draw(80) } else { n };
                for _ in 0..n {
                    w.swarm(HARD);
                    trouble(&s);
                }
            }
            calm(w);
            drain_stdout();
            calm(w);
            for _ in 0..2 + draw(4) {
                w.tty_pos = 0;
                after(w, &s)?;
            }
        }
        Ok(())
    })
    .map(|_| ())
}

// ------------------------------------------------------------------ C24
/// A long stream, made on the fly: a block repeated, each time marked with its number.
struct Long {
    block: Vec<u8>,
    len: u64,
    pos: u64,
    most: u64,
    err_at: u64,
    pass: u32,
    err_pass: u32,
    high: u64,
    calls: u64,
}
impl Long {
    fn new(block: &[u8], len: u64) -> Long {
        Long { block: block.to_vec(), len, pos: 0, most: u64::MAX, err_at: u64::MAX, pass: 0, err_pass: 0, high: 0, calls: 0 }
    }
    fn fill(&self, at: u64, out: &mut [u8]) {
        let b = self.block.len();
        let mut i = 0;
        while i < out.len() {
            let p = (at as usize + i) % b;
            let n = (b - p).min(out.len() - i);
            out[i..i + n].copy_from_slice(&self.block[p..p + n]);
            let blk = (at + i as u64) / b as u64;
            if p == 0 {
                out[i] = blk as u8;
            }
            i += n;
        }
    }
}
impl Read for Long {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let _o = Off::new();
        self.calls += 1;
        if self.calls % 64 == 1 {
            seam();
        }
        unsafe { crate::seams::SEAM_CALLS = 0 };
        if self.pos < self.high {
            self.pass += 1;
            self.high = self.pos;
        }
        if self.pos >= self.err_at && self.pass == self.err_pass {
            w().note(F::SrcError);
            return Err(crate::io::hard_error());
        }
        if self.calls % 16 == 0 && w().fault(F::SrcInterrupted) {
            return Err(crate::io::interrupted());
        }
        let mut n = (self.len - self.pos).min(buf.len() as u64).min(self.most);
        if self.err_at > self.pos && self.pass == self.err_pass {
            n = n.min(self.err_at - self.pos);
        }
        self.fill(self.pos, &mut buf[..n as usize]);
        self.pos += n;
        self.high = self.pos;
        Ok(n as usize)
    }
}
impl Seek for Long {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let _o = Off::new();
        seam();
        let t = match to {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => self.pos as i64 + x,
            SeekFrom::End(x) => self.len as i64 + x,
        };
        if t < 0 {
            return Err(std::io::ErrorKind::InvalidInput.into());
        }
        self.pos = t as u64;
        Ok(self.pos)
    }
}
/// Far below the stream lengths used, far above any fixed-size buffer.
const BOUND: i64 = 3 << 20;
fn peak(what: &str, len: u64) -> Res {
    let p = unsafe { crate::alloc::PEAK };
    ensure!(p <= BOUND, "memory-grows", "{what} a stream of {len} bytes needed {p} bytes of memory");
    Ok(())
}
pub fn c24(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let k = Key::draw()?;
        let block = gen::prf(draw(1 << 32), pick(&[1 << 20, (1 << 20) - 1, 65536, 65537, 100_003]));
        let len = pick(&[8u64 << 20, 6 << 20, 10 << 20, (8 << 20) + 1, (7 << 20) - 1]) + draw(70_000);
        let most = pick(&[u64::MAX, 65_536, 65_535, 40_000, 8192, 4096, 1 << 20, u64::MAX, 65_536, 100, 14, 7]);
        w.swarm(&[F::SrcInterrupted, F::OutShortWrite, F::OutInterrupted]);
        let long = |most: u64| {
            let mut l = Long::new(&block, len);
            l.most = most;
            l
        };
        let fail = draw(4) == 3;
        let mut src = long(most);
        if fail && coin() {
            src.err_at = len - draw(len / 4);
        }
        let o = call("sign", len, || shim::sign_dyn(coin_once(&k), &k.sk, &mut src, Some("c"), None));
        peak("signing", len)?;
        let sb = match o {
            Ok(s) => {
                ensure!(src.err_at == u64::MAX, "wrong-result", "a stream that failed was signed");
                s
            }
            Err(e) => {
                ensure!(src.err_at != u64::MAX, "wrong-result", "signing {len} bytes: {}", e.text());
                w.probe("long stream failed near its end");
                let mut src = long(u64::MAX);
                setup("sign", call("sign", len, || shim::sign_dyn(None, &k.sk, &mut src, Some("c"), None)))?
            }
        };
        let output = coin();
        let mut src = long(most);
        if fail && draw(2) == 1 {
            src.err_at = len - draw(len / 4);
            src.err_pass = if output { draw(2) as u32 } else { 0 };
        }
        let o = call("verify", 2 * len, || shim::verify_dyn(&k.pk, &sb, &mut src, true, output, false));
        peak("verifying", len)?;
        w.faults_off();
        if src.err_at != u64::MAX {
            ensure!(!is(&o), "wrong-result", "a stream that failed was accepted");
        } else {
            ensure!(is(&o), "wrong-result", "a signature over {len} bytes: {}", show(&o));
            if output {
                let mut want = vec![0u8; len as usize];
                src.fill(0, &mut want);
                ensure!(w.out[1] == want, "wrong-result", "{} bytes on standard output, {len} were verified", w.out[1].len());
                w.probe("long stream verified and output");
            }
        }
        w.out[1] = vec![];
        Ok(())
    })
    .map(|_| ())
}
fn coin_once(k: &Key) -> Option<&PublicKey> {
    let _o = Off::new();
    coin().then_some(&k.pk)
}
