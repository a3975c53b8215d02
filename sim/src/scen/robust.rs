//! C16: faults and damaged artefacts end in errors, never in panics, aborts,
//! hangs or unbounded demands.
use super::*;
use crate::node::{drain_stdout, CPU_LIMIT};
use crate::world::F_ALL;

fn no_panic<T>(what: &str, o: Out<T>) -> Res<Option<T>> {
    match o {
        Ok(t) => Ok(Some(t)),
        Err(Fail::Err(_)) => Ok(None),
        Err(Fail::Panic(p)) => bad("panic", format!("{what}: {p}")),
    }
}
/// Kinds that are about more than one call, or need support from a scenario.
const NOT_HERE: &[F] = &[
    F::SrcMutate, F::SrcStartOffset, F::RngNoSyscall, F::RngStuck, F::RngReplayed, F::ClockExtreme, F::ClockBeforeEpoch,
    F::Crash, F::TornWrite, F::LostWrite, F::Restart, F::ForkSnapshot, F::StoredBitFlip, F::StoredTruncate,
    F::StoredSplice, F::StoredLines, F::StoredField, F::StoredSwap, F::StoredSAddL, F::DataTamper, F::Preempt, F::FutexBlock,
];

struct Pool {
    keys: Vec<Key>,
    sig: Vec<String>,
    pk: Vec<String>,
    sk: Vec<String>,
    pw: String,
}
/// Damage an artefact, or make one up.
fn hurt(good: &str, other: &str, lines: &[usize]) -> Vec<u8> {
    let mut t = good.as_bytes().to_vec();
    if draw(100) == 99 {
        // endless repetition of something, somewhere
        w().note(F::StoredSplice);
        let p = pick(&["\n", "\r\n", "A", "=", " ", "\t", "untrusted comment: ", "untrusted comment: x\n", "trusted comment: ", "é", "\u{feff}", "\r", "#", "\0", "A\n", " \n"]);
        let many = p.repeat(pick(&[100usize, 5000, 70_000, 300_000]));
        let mut s = good.to_string();
        let ends: Vec<usize> = s.match_indices('\n').flat_map(|(i, _)| [i, i + 1]).collect();
        let at = match draw(3) {
            0 => 0,
            1 if !ends.is_empty() => ends[draw(ends.len() as u64) as usize],
            _ => draw(s.len() as u64 + 1) as usize,
        };
        if s.is_char_boundary(at) {
            s.insert_str(at, &many);
        }
        return s.into_bytes();
    }
    let rounds = draw(4);
    for _ in 0..rounds {
        let s = String::from_utf8_lossy(&t).into_owned();
        t = match draw(7) {
            0 => {
                damage_bytes(&mut t, other.as_bytes());
                t
            }
            1 => damage_lines(&s, other).into_bytes(),
            2 | 3 => {
                let l = lines[draw(lines.len() as u64) as usize];
                damage_field(&s, other, l).into_bytes()
            }
            4 => length_field(&s, lines[draw(lines.len() as u64) as usize]).into_bytes(),
            5 => numbers(&s).into_bytes(),
            _ => match draw(7) {
                0 => vec![],
                1 => b"\n".to_vec(),
                2 => b"untrusted comment: ".to_vec(),
                3 => gen::prf(draw(1 << 20), draw(600) as usize),
                4 => format!("untrusted comment: x\n{}\ntrusted comment: \n{}\n", oracle::b64(&[]), oracle::b64(&[])).into_bytes(),
                5 => {
                    w().note(F::StoredSplice);
                    // a multi-byte character at an inconvenient place
                    let mut v: Vec<char> = s.chars().collect();
                    let i = draw(v.len() as u64 + 1) as usize;
                    v.insert(i, pick(&['é', '\u{2028}', '\u{1F511}', '\u{85}', '\0', '\u{feff}']));
                    v.into_iter().collect::<String>().into_bytes()
                }
                _ => {
                    let mut v = t;
                    v.extend_from_slice(&vec![b'A'; draw(5000) as usize]);
                    v
                }
            },
        };
    }
    t
}
/// A base64 line whose decoded length is anything.
fn length_field(s: &str, line: usize) -> String {
    w().note(F::StoredTruncate);
    let mut l: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
    let Some(b) = l.get(line).and_then(|t| oracle::unb64(t)) else { return s.into() };
    let n = match draw(4) {
        0 => draw(b.len() as u64 + 1),
        1 => pick(&[0u64, 1, 2, 9, 10, 11, 31, 32, 33, 41, 42, 43, 63, 64, 65, 73, 74, 75, 103, 104, 157, 158, 159]),
        2 => b.len() as u64 + 1 + draw(100),
        _ => gen::near_dict() % 4096,
    } as usize;
    let mut v = b;
    v.resize(n, draw(256) as u8);
    l[line] = oracle::b64(&v);
    l.join("\n")
}
/// The cost parameters of a secret key, corrupted.
fn numbers(s: &str) -> String {
    w().note(F::StoredField);
    let mut l: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
    let Some(mut b) = l.get(1).and_then(|t| oracle::unb64(t)) else { return s.into() };
    if b.len() < 54 {
        return s.into();
    }
    for at in [38usize, 46] {
        if coin() {
            let x: u64 = match draw(6) {
                0 => 1 << draw(64),
                1 => u64::MAX >> draw(64),
                2 => 0,
                3 => gen::near_dict(),
                4 => 1_048_576 << draw(44),
                _ => gen::prf(draw(1 << 20), 8).iter().fold(0, |a, b| a << 8 | *b as u64),
            };
            b[at..at + 8].copy_from_slice(&x.to_le_bytes());
        }
    }
    l[1] = oracle::b64(&b);
    l.join("\n")
}
fn load(w: &mut Wd, t: &[u8]) -> Option<String> {
    w.put_file("f", t);
    if draw(4) == 3 {
        return None;
    }
    String::from_utf8(t.to_vec()).ok()
}

fn one(p: &mut Pool, w: &mut Wd) -> Res {
    let a = |v: &Vec<String>| -> (String, String) {
        let n = v.len() as u64;
        (v[draw(n) as usize].clone(), v[draw(n) as usize].clone())
    };
    let ki = draw(p.keys.len() as u64) as usize;
    match draw(12) {
        // a damaged signature, parsed, asked and verified in every mode
        0..=2 => {
            let (g, o) = a(&p.sig);
            let t = hurt(&g, &o, &[1, 3]);
            let sb = match load(w, &t) {
                Some(s) => no_panic("SignatureBox::from_string", parse_sig(&s))?,
                None => no_panic("SignatureBox::from_file", call("SignatureBox::from_file", t.len() as u64, || shim::sig_from_file(Path::new("f"))))?,
            };
            let Some(sb) = sb else { return Ok(()) };
            no_panic("trusted_comment", call("trusted_comment", 0, || sb.trusted_comment()))?;
            no_panic("untrusted_comment", call("untrusted_comment", 0, || sb.untrusted_comment()))?;
            no_panic("to_string", sig_text(&sb))?;
            let d = gen::data(5000);
            let mut src = Src::new(d).chunked();
            no_panic("verify", verify(&p.keys[ki].pk, &sb, &mut src, draw(3) != 0, draw(3) == 2, coin()))?;
        }
        // a damaged comment-less signature
        3 => {
            let (g, o) = a(&p.sig);
            let mut b = box_bytes(&g).unwrap_or_default();
            let ob = box_bytes(&o).unwrap_or_default();
            for _ in 0..draw(3) {
                damage_bytes(&mut b, &ob);
            }
            if draw(3) == 2 {
                b.resize(draw(200) as usize, 0);
            }
            if let Some(sb) = no_panic("SignatureBones::from_bytes", parse_bones(&b))? {
                no_panic("trusted_comment", call("trusted_comment", 0, || sb.trusted_comment()))?;
                let mut src = Src::new(gen::data(3000)).chunked();
                no_panic("verify", verify(&p.keys[ki].pk, &sb, &mut src, draw(3) != 0, draw(3) == 2, coin()))?;
            }
        }
        // a damaged public key, then used
        4 => {
            let (g, o) = a(&p.pk);
            let t = hurt(&g, &o, &[1]);
            let pk = match (draw(3), load(w, &t)) {
                (0, Some(s)) => no_panic("PublicKey::from_box", parse_pk(&s))?,
                (1, Some(s)) => {
                    let l = s.split('\n').nth(1).unwrap_or("").to_string();
                    no_panic("PublicKey::from_base64", call("PublicKey::from_base64", l.len() as u64, || PublicKey::from_base64(&l)))?
                }
                (2, Some(s)) => {
                    let b = box_bytes(&s).unwrap_or_default();
                    no_panic("PublicKey::from_bytes", call("PublicKey::from_bytes", b.len() as u64, || PublicKey::from_bytes(&b)))?
                }
                _ => no_panic("PublicKey::from_file", call("PublicKey::from_file", t.len() as u64, || shim::pk_from_file(Path::new("f"))))?,
            };
            let Some(pk) = pk else { return Ok(()) };
            no_panic("to_box", call("PublicKey::to_box", 0, || Ok(pk.to_box()?.into_string())))?;
            no_panic("to_base64", call_plain("to_base64", || pk.to_base64()))?;
            let (g, _) = a(&p.sig);
            if let Ok(sb) = parse_sig(&g) {
                let mut src = Src::new(gen::data(3000)).chunked();
                no_panic("verify", verify(&pk, &sb, &mut src, draw(3) != 0, draw(3) == 2, coin()))?;
            }
            let mut src = Src::new(gen::data(3000)).chunked();
            no_panic("sign", sign(&p.keys[ki].sk, Some(&pk), &mut src, opt_comment().as_deref(), opt_comment().as_deref()))?;
        }
        // a damaged secret key, then used
        5..=7 => {
            let (g, o) = a(&p.sk);
            let t = hurt(&g, &o, &[1]);
            let pw = match draw(4) {
                0 | 1 => Some(p.pw.clone()),
                2 => Some(gen::other_password(&p.pw)),
                _ => {
                    w.tty_present = draw(5) != 4;
                    w.tty_pos = 0;
                    w.tty_in = match draw(4) {
                        0 | 1 => format!("{}\n", p.pw).into_bytes(),
                        2 => b"\n".to_vec(),
                        _ => gen::prf(draw(1 << 20), draw(3000) as usize),
                    };
                    None
                }
            };
            let sk = match (draw(3), load(w, &t)) {
                (0, Some(s)) => no_panic("SecretKey::from_box", open_sk(&s, pw.as_deref()))?,
                (1, Some(s)) => no_panic("SecretKey::from_unencrypted_box", open_plain(&s))?,
                (2, Some(s)) => {
                    let b = box_bytes(&s).unwrap_or_default();
                    no_panic("SecretKey::from_bytes", call("SecretKey::from_bytes", b.len() as u64, || SecretKey::from_bytes(&b)))?
                }
                _ => no_panic("SecretKey::from_file", call("SecretKey::from_file", t.len() as u64, || shim::sk_from_file(Path::new("f"), pw.clone())))?,
            };
            let Some(sk) = sk else { return Ok(()) };
            no_panic("to_box", call("SecretKey::to_box", 0, || Ok(sk.to_box(opt_comment().as_deref())?.into_string())))?;
            no_panic("PublicKey::from_secret_key", call("PublicKey::from_secret_key", 0, || PublicKey::from_secret_key(&sk)))?;
            let mut src = Src::new(gen::data(3000)).chunked();
            no_panic("sign", sign(&sk, None, &mut src, opt_comment().as_deref(), opt_comment().as_deref()))?;
            no_panic("formatting a secret key", call_plain("Debug", || format!("{sk:?}")))?;
        }
        // generation to bad destinations, with a bad terminal
        8 => {
            let (mut x, mut y) = (Dst::new("pk"), Dst::new("sk"));
            if draw(4) == 3 {
                x.capacity = draw(200);
                y.capacity = draw(300);
            }
            if coin() {
                let pw = match draw(3) {
                    0 => Some(gen::password()),
                    1 => Some("p".repeat(draw(3000) as usize)),
                    _ => {
                        w.tty_present = draw(5) != 4;
                        w.tty_pos = 0;
                        w.tty_in = match draw(4) {
                            0 => b"\n\n".to_vec(),
                            1 | 2 => format!("{}\n{}\n", p.pw, p.pw).into_bytes(),
                            _ => gen::prf(draw(1 << 20), draw(3000) as usize),
                        };
                        None
                    }
                };
                let c = opt_comment();
                let r = call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut x, &mut y, c.as_deref(), pw));
                if let Some(kp) = no_panic("generate_and_write_encrypted_keypair", r)? {
                    no_panic("to_box", call("SecretKey::to_box", 0, || Ok(kp.sk.to_box(c.as_deref())?.into_string())))?;
                }
            } else {
                no_panic("generate_and_write_unencrypted_keypair", call("generate_and_write_unencrypted_keypair", 0, || shim::gen_write_unencrypted(&mut x, &mut y)))?;
            }
        }
        // signing
        9 => {
            let d = gen::data(1 << 17);
            let mut src = Src::new(d.clone()).chunked();
            let pk = coin().then_some(&p.keys[ki].pk);
            let r = sign(&p.keys[ki].sk, pk, &mut src, opt_comment().as_deref(), opt_comment().as_deref());
            if let Some(sb) = no_panic("sign", r)? {
                no_panic("to_string", sig_text(&sb))?;
                let mut src = Src::new(d).chunked();
                no_panic("verify", verify(&p.keys[ki].pk, &sb, &mut src, draw(3) != 0, draw(3) == 2, coin()))?;
            }
        }
        // a source that changes or starts elsewhere, verified with output
        10 => {
            let d = gen::data(1 << 17);
            let legacy = coin();
            let t = p.keys[ki].r.sign(&d, legacy, &gen::comment(), "u");
            if let Ok(sb) = parse_sig(&t) {
                let mut src = Src::new(d.clone()).chunked();
                if draw(3) == 2 {
                    w.note(F::SrcStartOffset);
                    src = src.at(draw(d.len() as u64 * 2 + 2));
                }
                if draw(3) == 2 {
                    w.note(F::SrcMutate);
                    src.later = Some(gen::data(1 << 17));
                }
                no_panic("verify", verify(&p.keys[ki].pk, &sb, &mut src, draw(3) != 0, draw(4) != 3, coin()))?;
            }
        }
        // the clock
        _ => {
            w.real_s = match draw(6) {
                0 => {
                    w.note(F::ClockBeforeEpoch);
                    -1 - draw(1 << 34) as i64
                }
                1 => 0,
                2 => {
                    w.note(F::ClockExtreme);
                    1 << (20 + draw(40))
                }
                3 => {
                    w.note(F::ClockExtreme);
                    253_402_300_799 + draw(3) as i64
                }
                4 => i32::MAX as i64 + draw(3) as i64,
                _ => crate::world::T0,
            };
            let mut src = Src::new(gen::data(300)).chunked();
            let r = sign(&p.keys[ki].sk, None, &mut src, None, None);
            w.real_s = crate::world::T0;
            if let Some(sb) = no_panic("sign", r)? {
                no_panic("to_string", sig_text(&sb))?;
                no_panic("verify", verify(&p.keys[ki].pk, &sb, &mut Src::new(vec![]), false, false, false))?;
            }
        }
    }
    Ok(())
}

pub fn c16(world: &mut Wd) -> Res {
    unsafe { CPU_LIMIT = 20 };
    world.ent_seed = draw(1 << 40);
    run_life(world, true, |w| {
        let keys = vec![Key::draw()?, Key::draw()?];
        let pw = gen::password();
        let mut p = Pool { keys, sig: vec![], pk: vec![], sk: vec![], pw };
        for i in 0..2 {
            let r = p.keys[i].r.clone();
            for legacy in [false, true] {
                p.sig.push(r.sign(&gen::data(200), legacy, &gen::comment(), &gen::comment()));
            }
            p.pk.push(r.pk_box());
            p.sk.push(RefKey::sk_box(&r.sk_plain(), "c"));
            let salt = gen::bytes32(draw(1 << 32));
            p.sk.push(RefKey::sk_box(&r.sk_sealed(p.pw.as_bytes(), &salt, 1_048_576, 33_554_432, w.kdf_real), "c"));
        }
        for _ in 0..1 + draw(5) {
            w.on = 0;
            w.ent_down = false;
            w.out_broken = vec![0; 4];
            let kinds: Vec<F> = F_ALL.iter().copied().filter(|f| !NOT_HERE.contains(f)).collect();
            w.swarm(&kinds);
            one(&mut p, w)?;
        }
        w.faults_off();
        drain_stdout();
        Ok(())
    })
    .map(|_| ())
}
