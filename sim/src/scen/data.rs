//! C01, C02, C05: streams.
use super::*;
use crate::node::drain_stdout;
use crate::seams::{seam, Off};
use std::io::Read;

/// Verdict source forms: the signature object as a user would hold it.
fn as_user(sb_text: &str) -> Out<SignatureBox> {
    parse_sig(sb_text)
}

// ------------------------------------------------------------------ C01
pub fn c01(world: &mut Wd) -> Res {
    if draw(2000) == 1999 {
        return giant(world);
    }
    run_life(world, true, |w| {
        let k = Key::draw()?;
        let n = 1 + draw(2);
        for _ in 0..n {
            let big = draw(12) == 11;
            let d = gen::data(if big { pick(&[1 << 20, 1 << 20, 1 << 20, 1 << 23]) } else { 1 << 18 });
            w.swarm(&[F::SrcInterrupted, F::SrcShortRead]);
            let start = if draw(8) == 7 { draw(d.len() as u64 + 1) } else { 0 };
            let tail = &d[start as usize..];
            match draw(4) {
                0 | 1 => {
                    let tc = opt_comment();
                    let uc = opt_comment();
                    let mut src = Src::new(d.clone()).at(start).chunked();
                    let r = sign(&k.sk, coin().then_some(&k.pk), &mut src, tc.as_deref(), uc.as_deref());
                    let sb = match r {
                        Ok(s) => s,
                        Err(e) => {
                            return bad("signing-fails", format!("signing {} bytes failed without a source error: {}", tail.len(), e.text()))
                        }
                    };
                    w.faults_off();
                    let f = fields_of(&sb, "bad-signature")?;
                    if let Err(e) = f.check(&k.r, tail) {
                        return bad("bad-signature", format!("signature over a stream of {} bytes: {e}", tail.len()));
                    }
                    // the library's own verdict on the same bytes, delivered differently
                    w.swarm(&[F::SrcInterrupted, F::SrcShortRead]);
                    verdicts(&k, &f.text(), tail, false)?;
                }
                x => {
                    let legacy = x == 3;
                    let t = k.r.sign(tail, legacy, &gen::comment(), "u");
                    if start > 0 {
                        let sb = setup("parse signature", as_user(&t))?;
                        let mut src = Src::new(d.clone()).at(start).chunked();
                        let r = verify(&k.pk, &sb, &mut src, true, false, legacy);
                        ensure!(r.is_ok(), "genuine-refused", "source handed over at offset {start} of {}: {}", d.len(), show(&r));
                    } else {
                        verdicts(&k, &t, tail, legacy)?;
                    }
                }
            }
            w.faults_off();
        }
        Ok(())
    })
    .map(|_| ())
}
fn verdicts(k: &Key, text: &str, d: &[u8], legacy: bool) -> Res {
    let sb = setup("parse signature", as_user(text))?;
    let quiet = coin();
    let output = draw(4) == 3;
    let allow = legacy || coin();
    let mut src = Src::new(d.to_vec()).chunked();
    let r = verify(&k.pk, &sb, &mut src, quiet, output, allow);
    ensure!(r.is_ok(), "genuine-refused", "{} signature over {} bytes: {}", if legacy { "legacy" } else { "prehashed" }, d.len(), show(&r));
    let t = gen::tamper(d);
    w().note(F::DataTamper);
    let mut src = Src::new(t.clone()).chunked();
    let r = verify(&k.pk, &sb, &mut src, quiet, false, allow);
    ensure!(!is(&r), "other-data-accepted", "signature over {} bytes accepted for {} other bytes", d.len(), t.len());
    Ok(())
}

/// A stream of zero bytes longer than 32-bit counters.
struct Zeros {
    left: u64,
    chunk: u64,
}
impl Read for Zeros {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let _o = Off::new();
        if self.left % (1 << 24) < 65536 {
            seam();
        }
        unsafe { crate::seams::SEAM_CALLS = 0 };
        let n = self.left.min(buf.len() as u64).min(self.chunk) as usize;
        buf[..n].iter_mut().for_each(|b| *b = 0);
        self.left -= n as u64;
        Ok(n)
    }
}
/// BLAKE2b-512 of 2^32 + x zero bytes, computed beforehand with the reference.
const ZEROS: &[(u64, &str)] = &include!("zeros.in");

fn giant(world: &mut Wd) -> Res {
    let i = draw(ZEROS.len() as u64) as usize;
    let chunk = pick(&[u64::MAX, 65535, 65536, 40000]);
    world.note(F::SrcShortRead);
    run_life(world, true, |w| {
        let k = Key::draw()?;
        let (len, h) = ZEROS[i];
        w.probe("stream longer than 2^32 bytes");
        let mut z = Zeros { left: len, chunk };
        let r = call("sign", len, || shim::sign_dyn(None, &k.sk, &mut z, Some("c"), None));
        match r {
            Err(e) => bad("signing-fails", format!("signing {len} bytes: {}", e.text())),
            Ok(sb) => {
                let f = fields_of(&sb, "bad-signature")?;
                let m: Vec<u8> = (0..64).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                ensure!(oracle::ed_verify(&k.r.pk, &m, &f.sig), "bad-signature", "signature over a stream of {len} zero bytes is not valid for it");
                Ok(())
            }
        }
    })
    .map(|_| ())
}

// ------------------------------------------------------------------ C02
pub fn c02(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let k = Key::draw()?;
        let rounds = 1 + draw(2);
        for _ in 0..rounds {
            let d = gen::data(if draw(40) == 39 { 1 << 21 } else { 1 << 18 });
            let op = draw(4);
            let output = op >= 1 && draw(3) != 0;
            let legacy = op == 3;
            let text = k.r.sign(&d, legacy, &gen::comment(), "u");
            let mut kinds = vec![F::SrcShortRead, F::SrcInterrupted, F::SrcError];
            if op > 0 {
                kinds.push(F::SrcSeekError);
            }
            let planned = draw(4) != 0;
            if planned {
                // one scheduled failure, with benign variation around it
                w.budget = [0, 4][draw(2) as usize];
                w.rate = 4;
                w.on = 0;
                w.enable(F::SrcShortRead);
                if coin() {
                    w.enable(F::SrcInterrupted);
                }
            } else {
                w.swarm(&kinds);
            }
            let start = if op > 0 && draw(10) == 9 { draw(d.len() as u64 + 1) } else { 0 };
            let mut src = Src::new(d.clone()).at(start).chunked();
            if planned {
                let n = d.len() as u64;
                if op > 0 && draw(4) == 3 {
                    src.seek_err_at = Some(1 + draw(3) as u32);
                } else {
                    let pass = if output { draw(3) / 2 } else { 0 } as u32;
                    let off = match draw(5) {
                        0 => 0,
                        1 => n,
                        2 => draw(n + 1),
                        3 => n.saturating_sub(draw(3)),
                        _ => (65536 * draw(5)).min(n),
                    };
                    src.err_at = Some((pass, off, coin()));
                }
            }
            let ok;
            let what;
            if op == 0 {
                let r = sign(&k.sk, coin().then_some(&k.pk), &mut src, Some("c"), None);
                ok = r.is_ok();
                what = "signing";
            } else {
                let sb = setup("parse signature", as_user(&text))?;
                let r = verify(&k.pk, &sb, &mut src, coin(), output, legacy || coin());
                ok = r.is_ok();
                what = if legacy { "legacy verification" } else { "verification" };
            }
            if src.hard > 0 {
                w.probe("source failed");
                if src.pass > 0 {
                    w.probe("source failed after the first pass");
                }
                ensure!(!ok, "success-despite-source-error",
                    "{what} of {} bytes (output={output}) succeeded although the source failed ({}) in pass {} near offset {}", d.len(), src.hard_text, src.pass, src.pos);
            }
            w.faults_off();
            drain_stdout();
        }
        // the failures are over: the same key still signs and verifies
        let d = gen::data(200);
        let r = sign(&k.sk, None, &mut Src::new(d.clone()), Some("c"), None);
        match r {
            Err(e) => return bad("no-recovery", format!("signing fails after faults stopped: {}", e.text())),
            Ok(sb) => {
                let f = fields_of(&sb, "no-recovery")?;
                if let Err(e) = f.check(&k.r, &d) {
                    return bad("no-recovery", format!("after faults stopped: {e}"));
                }
            }
        }
        Ok(())
    })
    .map(|_| ())
}

// ------------------------------------------------------------------ C05
pub fn c05(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let k = Key::draw()?;
        let rounds = 1 + draw(3);
        for round in 0..rounds {
            let d = gen::data([1u64 << 21, 1 << 18, 1 << 18, 1 << 18].get(draw(24) as usize).copied().unwrap_or(1 << 16));
            let legacy = draw(3) == 2;
            let start = if draw(3) == 2 { pick(&[1u64, d.len() as u64, d.len() as u64 / 2]).min(d.len() as u64) } else { 0 };
            // what was signed: the bytes from the start position, or the whole file
            let whole = start > 0 && draw(4) == 3;
            let signed = if whole { d.clone() } else { d[start as usize..].to_vec() };
            let mut text = k.r.sign(&signed, legacy, &gen::comment(), "u");
            let mut allow = legacy || coin();
            let quiet = coin();
            // a signature that is not valid
            let broken = draw(5) == 4;
            if broken {
                match draw(5) {
                    0 => {
                        let mut t = gen::tamper(&signed);
                        while t == d[start as usize..] {
                            t.push(b'!');
                        }
                        text = k.r.sign(&t, legacy, "c", "u");
                    }
                    1 => {
                        let mut f = oracle::sig_fields(&text).unwrap();
                        f.tc.push('x');
                        text = f.text();
                    }
                    2 => {
                        let mut f = oracle::sig_fields(&text).unwrap();
                        f.sig[draw(64) as usize] ^= 1;
                        text = f.text();
                    }
                    3 if legacy => allow = false,
                    _ => {
                        let mut f = oracle::sig_fields(&text).unwrap();
                        f.keynum[3] ^= 1;
                        text = f.text();
                    }
                }
                w.note(F::StoredField);
            }
            let output = draw(6) != 5;
            w.swarm(&[F::SrcShortRead, F::SrcInterrupted, F::OutInterrupted, F::OutShortWrite, F::OutError, F::OutZero, F::SrcError]);
            let mut src = Src::new(d.clone()).at(start).chunked();
            if start > 0 {
                w.note(F::SrcStartOffset);
            }
            if output && draw(3) == 2 {
                src.later = Some(gen::tamper(&d));
                w.note(F::SrcMutate);
            }
            let mutated = src.later.is_some();
            let sb = setup("parse signature", as_user(&text))?;
            w.out[1].clear();
            w.out_err_seen[1] = 0;
            w.out_broken[1] = 0;
            let r = verify(&k.pk, &sb, &mut src, quiet, output, allow);
            let accepted = w.out[1].clone();
            w.faults_off();
            drain_stdout();
            let total = w.out[1].clone();
            let desc = format!(
                "round {round}, {} bytes, start {start}, legacy={legacy}, source {}",
                d.len(),
                if mutated { "changed between passes" } else { "unchanged" }
            );
            if broken {
                ensure!(total.is_empty(), "output-before-verification", "{desc}: {} bytes written to standard output for a signature that is not valid", total.len());
                ensure!(!is(&r), "invalid-accepted", "{desc}: a signature that is not valid was accepted");
                continue;
            }
            if !output {
                ensure!(total.is_empty(), "output-without-request", "{desc}: standard output was written to without being asked");
            } else if r.is_ok() {
                if accepted != signed {
                    let at = accepted.iter().zip(&signed).position(|(a, b)| a != b).unwrap_or(accepted.len().min(signed.len()));
                    return bad(
                        "output-differs",
                        format!("{desc}: success, but standard output accepted {} bytes where {} were verified; first difference at {at}", accepted.len(), signed.len()),
                    );
                }
                w.probe("verified output delivered");
            }
            let clean = !whole && !mutated && src.hard == 0 && w.out_err_seen[1] == 0;
            if clean {
                ensure!(r.is_ok(), "genuine-refused", "{desc}: {}", show(&r));
            }
        }
        Ok(())
    })
    .map(|_| ())
}

