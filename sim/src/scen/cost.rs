//! C27: the work an operation does is in proportion to what it is given.
use super::*;
use crate::node::drain_stdout;
use crate::seams::{seam, Off};
use crate::{alloc, cov, mem, seams};
use std::io::{Read, Seek, SeekFrom};

/// A source that delivers at most `most` bytes at a time, and counts.
struct Trickle {
    data: Vec<u8>,
    pos: usize,
    most: usize,
    reads: u64,
}
impl Read for Trickle {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let _o = Off::new();
        self.reads += 1;
        if self.reads % 64 == 1 {
            seam();
        }
        if self.reads % 16 == 0 && w().fault(F::SrcInterrupted) {
            return Err(crate::io::interrupted());
        }
        let n = (self.data.len() - self.pos).min(buf.len()).min(self.most);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl Seek for Trickle {
    fn seek(&mut self, to: SeekFrom) -> std::io::Result<u64> {
        let _o = Off::new();
        self.reads += 1;
        seam();
        let t = match to {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::Current(x) => self.pos as i64 + x,
            SeekFrom::End(x) => self.data.len() as i64 + x,
        };
        self.pos = t.clamp(0, self.data.len() as i64) as usize;
        Ok(self.pos as u64)
    }
}
#[derive(Clone, Copy, Debug)]
struct Cost {
    steps: u64,
    asked: u64,
    moved: u64,
    calls: u64,
}
fn now() -> Cost {
    unsafe { Cost { steps: cov::STEPS, asked: alloc::TOTAL, moved: mem::MOVED, calls: 0 } }
}
/// What an operation may cost: so much, and so much for every byte it is given.
const FIXED: Cost = Cost { steps: 500_000, asked: 1 << 20, moved: 1 << 20, calls: 8000 };
const EACH: Cost = Cost { steps: 250, asked: 250, moved: 250, calls: 6 };

fn measured<T>(what: &str, n: u64, f: impl FnOnce() -> (Out<T>, u64)) -> Res<Out<T>> {
    drain_stdout();
    unsafe { seams::SEAM_CALLS = 0 };
    let a = now();
    let (r, reads) = f();
    let b = now();
    let c = Cost { steps: b.steps - a.steps, asked: b.asked - a.asked, moved: b.moved - a.moved, calls: reads + unsafe { seams::SEAM_CALLS } };
    for (name, v, f, e) in [
        ("basic blocks executed", c.steps, FIXED.steps, EACH.steps),
        ("bytes of memory asked for", c.asked, FIXED.asked, EACH.asked),
        ("bytes moved in memory", c.moved, FIXED.moved, EACH.moved),
        ("calls into the environment", c.calls, FIXED.calls, EACH.calls),
    ] {
        ensure!(v <= f + e * n, "work-out-of-proportion", "{what}, given {n} bytes: {v} {name}");
    }
    Ok(r)
}
/// Much text of one kind.
fn filler(n: usize) -> String {
    let p = pick(&["\n", "a", " ", "\t", "\r\n", "=", "A\n", "é", "\r", "untrusted comment: ", "trusted comment: x\n", "\u{2028}", "abc def ", "/+"]);
    let mut s = p.repeat(n / p.len() + 1);
    while s.len() > n.max(1) {
        s.pop();
    }
    s
}
fn one_line(n: usize) -> String {
    let p = pick(&["a", " ", "\t", "=", "é", "a\r", "x y ", "\u{2028}", "trusted comment: ", "\0"]);
    let mut s = p.repeat(n / p.len() + 1);
    while s.ends_with('\r') {
        s.pop();
    }
    s
}
fn lots() -> usize {
    let n = pick(&[1usize << 15, 1 << 16, 1 << 17, 1 << 18, 100_000, 300_000, 20_000, 1 << 20]);
    n + draw(1000) as usize
}
/// A long text in place of, or in addition to, some line of `t`.
fn stretch(t: &str, n: usize) -> String {
    let mut l: Vec<String> = t.split('\n').map(|x| x.to_string()).collect();
    let i = draw(l.len() as u64) as usize;
    match draw(5) {
        0 => l.push(filler(n)),
        1 => l[i].push_str(&filler(n)),
        2 => l[i] = filler(n),
        3 => l.insert(i, filler(n)),
        _ => {
            l[i].push_str(&one_line(n));
        }
    }
    l.join("\n")
}
pub fn c27(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        // measured below
        unsafe { seams::SEAM_LIMIT = 20_000_000 };
        let k = Key::draw()?;
        let n = lots();
        let most = pick(&[1usize, 7, 128, 1000, 4096, 65_536, usize::MAX]);
        let source = |d: &[u8]| Trickle { data: d.to_vec(), pos: 0, most, reads: 0 };
        let noisy = [F::SrcInterrupted, F::FsShortRead, F::FsReadInterrupted, F::OutShortWrite, F::OutInterrupted, F::DstShortWrite, F::DstInterrupted, F::RngShort, F::RngInterrupted];
        w.swarm(&noisy);
        match draw(9) {
            0 | 1 => {
                // a long stream
                let d = gen::prf(draw(1 << 32), n);
                let (legacy, output) = (coin(), coin());
                let sb = if legacy {
                    setup("parse", parse_sig(&k.r.sign(&d, true, "t", "u")))?
                } else {
                    let mut s = source(&d);
                    let o = measured("sign", n as u64, || (call("sign", n as u64, || shim::sign_dyn(None, &k.sk, &mut s, Some("t"), None)), s.reads))?;
                    match o {
                        Ok(s) => s,
                        Err(e) => return unclear(format!("sign: {}", e.text())),
                    }
                };
                let mut s = source(&d);
                let what = format!("verify a {} signature{}", if legacy { "legacy" } else { "prehashed" }, if output { " with output" } else { "" });
                let o = measured(&what, 2 * n as u64, || (call(&what, 2 * n as u64, || shim::verify_dyn(&k.pk, &sb, &mut s, true, output, true)), s.reads))?;
                w.faults_off();
                ensure!(is(&o), "wrong-result", "{what}: {}", show(&o));
            }
            2 => {
                // long comments, all the way
                let (tc, uc) = if coin() { (one_line(n), "u".to_string()) } else { ("t".to_string(), one_line(n)) };
                let o = measured("sign with long comments", n as u64, || (sign(&k.sk, Some(&k.pk), &mut Src::new(b"x".to_vec()), Some(&tc), Some(&uc)), 0))?;
                let Ok(sb) = o else { return unclear("long comment refused") };
                let o = measured("serialise a signature", n as u64, || (sig_text(&sb), 0))?;
                let Ok(t) = o else { return unclear("no text") };
                let o = measured("parse a signature", t.len() as u64, || (parse_sig(&t), 0))?;
                let Ok(sb) = o else { return bad("wrong-result", "a signature with long comments does not load") };
                let o = measured("read the trusted comment", t.len() as u64, || (call("trusted_comment", 0, || sb.trusted_comment()), 0))?;
                ensure!(o == Ok(tc), "wrong-result", "another trusted comment");
                let o = measured("verify with long comments", n as u64, || (verify(&k.pk, &sb, &mut Src::new(b"x".to_vec()), coin(), false, false), 0))?;
                ensure!(is(&o), "wrong-result", "verify with long comments: {}", show(&o));
            }
            3 => {
                let t = stretch(&k.r.sign(b"x", coin(), "t", "u"), n);
                let file = coin();
                w.put_file("s", t.as_bytes());
                let _ = measured("load a long signature file", t.len() as u64, || {
                    (if file { call("from_file", 0, || shim::sig_from_file(Path::new("s"))) } else { parse_sig(&t) }, 0)
                })?;
            }
            4 => {
                let t = stretch(&k.r.pk_box(), n);
                let file = coin();
                w.put_file("p", t.as_bytes());
                let _ = measured("load a long public key file", t.len() as u64, || {
                    (if file { call("from_file", 0, || shim::pk_from_file(Path::new("p"))) } else { parse_pk(&t) }, 0)
                })?;
            }
            5 => {
                let sealed = coin();
                let t = if sealed {
                    RefKey::sk_box(&k.r.sk_sealed(b"pw", &gen::bytes32(1), 1 << 20, 1 << 25, false), "c")
                } else {
                    RefKey::sk_box(&k.r.sk_plain(), "c")
                };
                let t = stretch(&t, n);
                let file = coin();
                w.put_file("k", t.as_bytes());
                let _ = measured("load a long secret key file", t.len() as u64, || {
                    let r = match (sealed, file) {
                        (true, true) => call("from_file", 0, || shim::sk_from_file(Path::new("k"), Some("pw".into()))),
                        (true, false) => open_sk(&t, Some("pw")),
                        _ => open_plain(&t),
                    };
                    (r, 0)
                })?;
            }
            6 => {
                // encodings that never end
                let mut t = [k.pk.to_base64(), oracle::b64(&k.r.sk_plain()), String::new()][draw(3) as usize].clone();
                if coin() {
                    t.push_str(&filler(n))
                } else {
                    t.insert_str(0, &filler(n))
                }
                let m = t.len() as u64;
                let _ = match draw(2) {
                    0 => measured("PublicKey::from_base64", m, || (call("PublicKey::from_base64", m, || PublicKey::from_base64(&t).map(|_| ())), 0))?,
                    _ => measured("SignatureBones::from_bytes", m, || (parse_bones(t.as_bytes()).map(|_| ()), 0))?,
                };
                let mut b = if coin() { k.r.pk_bytes() } else { k.r.sk_plain() };
                b.extend_from_slice(t.as_bytes());
                let m = b.len() as u64;
                let _ = measured("PublicKey::from_bytes", m, || (call("PublicKey::from_bytes", m, || PublicKey::from_bytes(&b)), 0))?;
                let _ = measured("SecretKey::from_bytes", m, || (call("SecretKey::from_bytes", m, || SecretKey::from_bytes(&b)), 0))?;
            }
            7 => {
                // long passwords, given or typed, and long comments on keys
                let pw = one_line(n).replace('\0', "0");
                let typed = coin();
                w.tty_present = true;
                w.tty_in = format!("{pw}\n{pw}\n").into_bytes();
                let c = coin().then(|| one_line(n));
                let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
                let _ = measured("generate a protected key pair", 3 * n as u64, || {
                    let p = (!typed).then(|| pw.clone());
                    (call("generate_and_write_encrypted_keypair", n as u64, || shim::gen_write_encrypted(&mut a, &mut b, c.as_deref(), p)), 0)
                })?;
            }
            _ => {
                let pw = one_line(n).replace('\0', "0");
                let t = RefKey::sk_box(&k.r.sk_sealed(pw.as_bytes(), &gen::bytes32(1), 1 << 20, 1 << 25, false), "c");
                let typed = coin();
                w.tty_present = true;
                w.tty_in = format!("{pw}\n").into_bytes();
                let _ = measured("open a protected key with a long password", n as u64, || (open_sk(&t, (!typed).then_some(&pw)), 0))?;
            }
        }
        Ok(())
    })
    .map(|_| ())
}
