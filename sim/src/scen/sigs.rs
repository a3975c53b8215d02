//! C03, C12, C17, C18: signatures.
use super::*;

// ------------------------------------------------------------------ C03
/// One signature that was really made.
#[derive(Clone)]
struct Made {
    key: usize,
    data: Vec<u8>,
    f: SigFields,
    text: String,
}
struct Ledger {
    keys: Vec<RefKey>,
    made: Vec<Made>,
}
fn add_l_variant(text: &str) -> Option<String> {
    let mut f = oracle::sig_fields(text)?;
    let which = draw(3);
    if which != 1 {
        let s = oracle::add_l(&f.sig[32..64])?;
        f.sig[32..64].copy_from_slice(&s);
    }
    if which != 0 {
        let s = oracle::add_l(f.gsig.get(32..64)?)?;
        f.gsig[32..64].copy_from_slice(&s);
    }
    w().note(F::StoredSAddL);
    Some(f.text())
}
/// The stored signature text, after storage and transport had their way.
fn corrupt_sig(m: &Made, o: &Made) -> Vec<u8> {
    let mut t = m.text.clone().into_bytes();
    for _ in 0..1 + draw(2) {
        let s = String::from_utf8(t.clone());
        let s = match s {
            Ok(s) => s,
            Err(_) => return t,
        };
        t = match draw(9) {
            0 => {
                damage_bytes(&mut t, o.text.as_bytes());
                t
            }
            1 => damage_lines(&s, &o.text).into_bytes(),
            2 => damage_field(&s, &o.text, 1).into_bytes(),
            3 => damage_field(&s, &o.text, 3).into_bytes(),
            4 => add_l_variant(&s).unwrap_or(s).into_bytes(),
            5 => {
                // field-level mixtures of two genuine signatures
                w().note(F::StoredSwap);
                match oracle::sig_fields(&s) {
                    None => t,
                    Some(mut f) => {
                        let b = draw(31);
                        if b & 1 != 0 {
                            f.alg = o.f.alg
                        }
                        if b & 2 != 0 {
                            f.keynum = o.f.keynum
                        }
                        if b & 4 != 0 {
                            f.sig = o.f.sig.clone()
                        }
                        if b & 8 != 0 {
                            f.tc = o.f.tc.clone()
                        }
                        if b & 16 != 0 || b == 0 {
                            f.gsig = o.f.gsig.clone()
                        }
                        f.text().into_bytes()
                    }
                }
            }
            6 => {
                // the trusted comment, edited
                w().note(F::StoredField);
                match oracle::sig_fields(&s) {
                    None => t,
                    Some(mut f) => {
                        f.tc = match draw(9) {
                            0 => format!("{} ", f.tc),
                            1 => format!(" {}", f.tc),
                            2 => f.tc.trim().to_string(),
                            3 => f.tc.to_uppercase(),
                            4 => f.tc.chars().take(draw(f.tc.chars().count() as u64 + 1) as usize).collect(),
                            5 => format!("{}\t{}", f.tc, gen::comment()),
                            6 => gen::comment(),
                            7 => String::new(),
                            _ => format!("{}0", f.tc),
                        };
                        f.text().into_bytes()
                    }
                }
            }
            7 => {
                // scalars and points with a special form
                w().note(F::StoredField);
                match oracle::sig_fields(&s) {
                    None => t,
                    Some(mut f) => {
                        let v: [u8; 32] = match draw(4) {
                            0 => [0; 32],
                            1 => {
                                let mut x = [0; 32];
                                x[0] = 1;
                                x
                            }
                            2 => [0xff; 32],
                            _ => {
                                let mut x = f.sig[..32].to_vec();
                                x[31] ^= 0x80;
                                x.try_into().unwrap()
                            }
                        };
                        let b = 1 + draw(15);
                        if b & 1 != 0 {
                            f.sig[..32].copy_from_slice(&v)
                        }
                        if b & 2 != 0 {
                            f.sig[32..].copy_from_slice(&v)
                        }
                        if b & 4 != 0 && f.gsig.len() == 64 {
                            f.gsig[..32].copy_from_slice(&v)
                        }
                        if b & 8 != 0 && f.gsig.len() == 64 {
                            f.gsig[32..].copy_from_slice(&v)
                        }
                        f.text().into_bytes()
                    }
                }
            }
            _ => {
                // appended or prepended lines
                w().note(F::StoredLines);
                match draw(3) {
                    0 => format!("{s}{}", o.text).into_bytes(),
                    1 => format!("\n{s}").into_bytes(),
                    _ => format!("{s}\n\0garbage").into_bytes(),
                }
            }
        };
    }
    t
}

impl Ledger {
    fn make(&mut self, ks: &[Key], w: &mut Wd) -> Res {
        let key = draw(ks.len() as u64) as usize;
        // sometimes the same data or comment as before
        let data = if !self.made.is_empty() && draw(4) == 3 {
            self.made[draw(self.made.len() as u64) as usize].data.clone()
        } else {
            gen::data(4096)
        };
        let tc = if !self.made.is_empty() && draw(4) == 3 {
            self.made[draw(self.made.len() as u64) as usize].f.tc.clone()
        } else {
            gen::comment()
        };
        let text = match draw(4) {
            0 | 1 => {
                let sb = setup("sign", sign(&ks[key].sk, None, &mut Src::new(data.clone()), Some(&tc), None))?;
                setup("serialise", sig_text(&sb))?
            }
            2 => ks[key].r.sign(&data, false, &tc, "u"),
            _ => ks[key].r.sign(&data, true, &tc, "u"),
        };
        let Some(f) = oracle::sig_fields(&text) else { return unclear("setup: signature text not understood") };
        if f.check(&ks[key].r, &data).is_err() {
            return unclear("setup: the library's signature is not a valid one");
        }
        w.put_file(&format!("sig{}", self.made.len()), text.as_bytes());
        self.made.push(Made { key, data, f, text });
        Ok(())
    }

    /// Judge an acceptance.
    fn accept(&self, pk: &PublicKey, sb: &SignatureBox, data: &[u8], bones: Option<&[u8]>, text: &[u8]) -> Res {
        let p = match call_plain("PublicKey::to_bytes", || pk.to_bytes()) {
            Ok(p) if p.len() == 42 => p,
            _ => return unclear("public key not observable"),
        };
        let (kn, pkb) = (p[2..10].to_vec(), p[10..].to_vec());
        let ctx = || format!("stored signature {:?}", crate::world::preview(text));
        ensure!(sb.keynum() == &kn[..], "key-id-mismatch-accepted", "accepted although key identifiers differ; {}", ctx());
        let f = match bones {
            Some(b) => SigFields {
                uc: String::new(),
                alg: [b[0], b[1]],
                keynum: b[2..10].try_into().unwrap(),
                sig: b[10..74].to_vec(),
                tc: String::new(),
                gsig: vec![],
            },
            None => fields_of(sb, "accepted-unserialisable")?,
        };
        let mut why = "no signature with this public key over these data was ever made".to_string();
        let mut class = "forgery-accepted";
        for m in &self.made {
            if self.keys[m.key].pk[..] != pkb[..] || m.data != data {
                continue;
            }
            if m.f.sig != f.sig {
                why = "these data were signed by this key, but this is none of the signatures made".into();
                continue;
            }
            if bones.is_some() {
                return Ok(());
            }
            let shown = call("trusted_comment", 0, || sb.trusted_comment());
            match shown {
                Ok(t) if t == m.f.tc && m.f.gsig == f.gsig => return Ok(()),
                Ok(t) if t == m.f.tc => {
                    class = "altered-comment-signature-accepted";
                    why = "the comment signature is none that was made".into();
                }
                Ok(t) => {
                    class = "comment-forgery-accepted";
                    why = format!("trusted comment {:?} was never signed together with this signature ({:?} was)", short(t), short(&m.f.tc));
                }
                Err(_) => {
                    class = "comment-forgery-accepted";
                    why = "a signature with comment was accepted without one".into();
                }
            }
        }
        bad(class, format!("{why}; {}", ctx()))
    }
}

pub fn c03(world: &mut Wd) -> Res {
    run_life(world, false, |w| {
        w.sector = pick(&[16usize, 32, 64, 512]);
        let nk = 1 + draw(3) as usize;
        let mut ks: Vec<Key> = vec![];
        for i in 0..nk {
            let mut r = draw_ref();
            if i > 0 && draw(2) == 0 {
                // two holders with one key identifier
                r.keynum = ks[0].r.keynum;
            }
            ks.push(Key::of(r)?);
        }
        let mut led = Ledger { keys: ks.iter().map(|k| k.r.clone()).collect(), made: vec![] };
        let n = 1 + draw(3);
        for _ in 0..n {
            led.make(&ks, w)?;
        }
        let steps = 2 + draw(8);
        for _ in 0..steps {
            if draw(8) == 7 {
                led.make(&ks, w)?;
            }
            let mi = draw(led.made.len() as u64) as usize;
            let oi = draw(led.made.len() as u64) as usize;
            let m = led.made[mi].clone();
            let o = led.made[oi].clone();
            let legacy = coin();
            let quiet = draw(4) != 3;
            let output = draw(4) == 3;
            match draw(8) {
                // intact
                0 => {
                    let sb = setup("parse", parse_sig(&m.text))?;
                    let r = verify(&ks[m.key].pk, &sb, &mut Src::new(m.data.clone()), quiet, output, legacy);
                    let want = legacy || m.f.alg == *b"ED";
                    ensure!(is(&r) == want, "verdict-changed", "an intact signature (allow_legacy={legacy}, algorithm {:?}): {}", m.f.alg, show(&r));
                }
                // corrupted signature
                1 | 2 => {
                    let t = corrupt_sig(&m, &o);
                    w.evb("stored signature", &t);
                    w.put_file("x.minisig", &t);
                    let sb = if coin() || std::str::from_utf8(&t).is_err() {
                        call("SignatureBox::from_file", t.len() as u64, || shim::sig_from_file(Path::new("x.minisig")))
                    } else {
                        parse_sig(std::str::from_utf8(&t).unwrap())
                    };
                    let Ok(sb) = sb else { continue };
                    let (data, key) = pick_ctx(&led, &m, &o, w);
                    let r = verify(&ks[key].pk, &sb, &mut Src::new(data.clone()), quiet, output, legacy);
                    if is(&r) {
                        w.probe("altered file accepted (judged)");
                        led.accept(&ks[key].pk, &sb, &data, None, &t)?;
                    }
                }
                // comment-less form
                3 => {
                    let mut b = m.f.bones();
                    match draw(5) {
                        0 => {}
                        1 => {
                            if let Some(s) = oracle::add_l(&b[42..74]) {
                                w.note(F::StoredSAddL);
                                b[42..74].copy_from_slice(&s);
                            }
                        }
                        2 => {
                            damage_bytes(&mut b, &o.f.bones());
                        }
                        3 => {
                            w.note(F::StoredSwap);
                            let i = draw(74) as usize;
                            b[i..].copy_from_slice(&o.f.bones()[i..]);
                        }
                        _ => {
                            w.note(F::StoredBitFlip);
                            let i = draw(74) as usize;
                            b[i] ^= 1 << draw(8);
                        }
                    }
                    let Ok(sb) = parse_bones(&b) else { continue };
                    if b.len() < 74 {
                        // a shorter input must not have been completed by anything
                        return bad("truncated-accepted", format!("{} bytes parsed as a signature", b.len()));
                    }
                    let (data, key) = pick_ctx(&led, &m, &o, w);
                    let r = verify(&ks[key].pk, &sb, &mut Src::new(data.clone()), quiet, output, legacy);
                    if is(&r) {
                        led.accept(&ks[key].pk, &sb, &data, Some(&b), &b)?;
                    }
                }
                // other data
                4 => {
                    let sb = setup("parse", parse_sig(&m.text))?;
                    let d = if coin() { gen::tamper(&m.data) } else { o.data.clone() };
                    w.note(F::DataTamper);
                    let r = verify(&ks[m.key].pk, &sb, &mut Src::new(d.clone()), quiet, output, legacy);
                    if is(&r) {
                        led.accept(&ks[m.key].pk, &sb, &d, None, m.text.as_bytes())?;
                    }
                }
                // other or damaged key
                5 => {
                    let sb = setup("parse", parse_sig(&m.text))?;
                    let other = draw(ks.len() as u64) as usize;
                    let r = verify(&ks[other].pk, &sb, &mut Src::new(m.data.clone()), quiet, output, legacy);
                    w.note(F::StoredSwap);
                    if is(&r) {
                        led.accept(&ks[other].pk, &sb, &m.data, None, m.text.as_bytes())?;
                    }
                }
                // a public key nobody holds a secret key for, and a signature anyone can make for it
                6 => {
                    let enc = oracle::small_order_encodings();
                    let pkb = enc[draw(enc.len() as u64) as usize];
                    let mut kb = b"Ed".to_vec();
                    kb.extend_from_slice(&m.f.keynum);
                    kb.extend_from_slice(&pkb);
                    let seed = gen::bytes32(draw(1 << 32));
                    let old = coin();
                    let msg = if old { m.data.clone() } else { oracle::prehash(&m.data) };
                    let Some(sig) = oracle::forge_small_order(&pkb, &msg, &seed) else { continue };
                    let mut g = sig.to_vec();
                    g.extend_from_slice(m.f.tc.as_bytes());
                    let Some(gsig) = oracle::forge_small_order(&pkb, &g, &seed) else { continue };
                    w.note(F::StoredField);
                    let mut f = m.f.clone();
                    f.alg = if old { *b"Ed" } else { *b"ED" };
                    f.sig = sig.to_vec();
                    f.gsig = gsig.to_vec();
                    let Ok(pk) = parse_pk(&format!("untrusted comment: k\n{}\n", oracle::b64(&kb))) else { continue };
                    let bare = coin();
                    let sb = if bare { parse_bones(&f.bones()) } else { parse_sig(&f.text()) };
                    let Ok(sb) = sb else { continue };
                    let r = verify(&pk, &sb, &mut Src::new(m.data.clone()), quiet, output, old || coin());
                    w.probe("signature made for a small-order public key");
                    if is(&r) {
                        led.accept(&pk, &sb, &m.data, bare.then(|| f.bones()).as_deref(), f.text().as_bytes())?;
                    }
                }
                _ => {
                    let oth = draw(ks.len() as u64) as usize;
                    let mut t = ks[m.key].r.pk_box();
                    let ot = ks[oth].r.pk_box();
                    if coin() {
                        t = damage_field(&t, &ot, 1);
                    } else if coin() {
                        t = damage_lines(&t, &ot);
                    } else {
                        let mut b = t.clone().into_bytes();
                        damage_bytes(&mut b, ot.as_bytes());
                        match String::from_utf8(b) {
                            Ok(s) => t = s,
                            Err(_) => continue,
                        }
                    }
                    let Ok(pk) = parse_pk(&t) else { continue };
                    let sb = setup("parse", parse_sig(&m.text))?;
                    let r = verify(&pk, &sb, &mut Src::new(m.data.clone()), quiet, output, legacy);
                    if is(&r) {
                        led.accept(&pk, &sb, &m.data, None, m.text.as_bytes())?;
                    }
                }
            }
        }
        Ok(())
    })
    .map(|_| ())
}
fn pick_ctx(led: &Ledger, m: &Made, o: &Made, w: &mut Wd) -> (Vec<u8>, usize) {
    let data = match draw(4) {
        0 | 1 => m.data.clone(),
        2 => o.data.clone(),
        _ => {
            w.note(F::DataTamper);
            gen::tamper(&m.data)
        }
    };
    let key = match draw(4) {
        0 | 1 => m.key,
        2 => o.key,
        _ => draw(led.keys.len() as u64) as usize,
    };
    (data, key)
}

// ------------------------------------------------------------------ C12
const EXTREMES: &[i64] = &[
    0, 1, -1, i64::MAX, i64::MIN, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, u32::MAX as i64,
    u32::MAX as i64 + 1, 999_999_999, 1_000_000_000, 9_999_999_999, 10_000_000_000, 253_402_300_800, -62_135_596_800,
    i64::MAX - 1, 951_782_400, 4_102_444_800,
];
fn set_clock(w: &mut Wd) {
    match draw(6) {
        0 => {}
        1 => {
            w.note(F::ClockExtreme);
            w.real_s = pick(EXTREMES);
            w.real_ns = pick(&[0i64, 999_999_999, 500_000_000, 1]);
        }
        2 => {
            w.note(F::ClockJump);
            w.real_s = w.real_s.saturating_add(pick(&[1i64, -1, 10, -10, 86400, -86400, 31_536_000, -31_536_000]));
        }
        3 => {
            w.note(F::ClockBeforeEpoch);
            w.real_s = -1 - draw(100_000) as i64;
        }
        4 => {
            w.note(F::ClockJump);
            w.real_s = draw(1 << 40) as i64;
            w.real_ns = draw(1_000_000_000) as i64;
        }
        _ => {
            // the process is descheduled for a while
            w.tick(draw(100_000_000_000));
        }
    }
    if w.real_s < 0 {
        w.probe("clock before 1970");
    }
}
pub fn c12(world: &mut Wd) -> Res {
    let k0 = draw_ref();
    let lives = 1 + draw(2);
    for _ in 0..lives {
        let k0 = k0.clone();
        run_life(world, true, move |w| {
            let k = Key::of(k0)?;
            w.swarm(&[F::ClockJump]);
            let steps = 1 + draw(5);
            let genuine = k.r.sign(b"fixed", false, "timestamp:1", "u");
            let broken = k.r.sign(b"other", false, "timestamp:1", "u");
            for _ in 0..steps {
                set_clock(w);
                let d = gen::data(300);
                w.clock_reads.clear();
                let lo = w.real_s;
                match draw(5) {
                    0 | 1 => {
                        let r = sign(&k.sk, coin().then_some(&k.pk), &mut Src::new(d.clone()), None, opt_comment().as_deref());
                        let reads = w.clock_reads.clone();
                        let hi = w.real_s;
                        if lo < 0 && hi < 0 && reads.iter().all(|x| *x < 0) {
                            match r {
                                Err(Fail::Err(_)) => continue,
                                Err(Fail::Panic(p)) => return bad("panic-before-1970", format!("clock at {lo}: panic ({p})")),
                                Ok(sb) => {
                                    let t = setup("comment", call("trusted_comment", 0, || sb.trusted_comment()))?;
                                    return bad("fabricated-timestamp", format!("clock at {lo} (before 1970), yet a signature says {t:?}"));
                                }
                            }
                        }
                        let sb = match r {
                            Ok(s) => s,
                            Err(_) if reads.iter().any(|x| *x < 0) || lo < 0 || hi < 0 => continue,
                            Err(e) => return bad("signing-fails", format!("clock at {lo}: {}", e.text())),
                        };
                        let t = match call("trusted_comment", 0, || sb.trusted_comment()) {
                            Ok(t) => t,
                            Err(e) => return bad("wrong-timestamp", format!("no trusted comment: {}", e.text())),
                        };
                        let Some(v) = t.strip_prefix("timestamp:") else {
                            return bad("wrong-timestamp", format!("default trusted comment is {t:?}"));
                        };
                        let ok = v.parse::<i64>().map(|x| x.to_string() == v && (reads.contains(&x) || (reads.is_empty() && x == lo && lo == hi)));
                        ensure!(ok == Ok(true), "wrong-timestamp", "trusted comment {t:?}, but the clock showed {reads:?} during the call (it was {lo} before, {hi} after)");
                        let f = fields_of(&sb, "wrong-timestamp")?;
                        if let Err(e) = f.check(&k.r, &d) {
                            return unclear(format!("signature: {e}"));
                        }
                        ensure!(f.tc == t, "wrong-timestamp", "serialised trusted comment {:?} differs from {t:?}", f.tc);
                    }
                    2 => {
                        let tc = gen::comment();
                        let r = sign(&k.sk, None, &mut Src::new(d.clone()), Some(&tc), None);
                        match r {
                            Err(e) => return bad("clock-dependence", format!("signing with an explicit comment fails at clock {lo}: {}", e.text())),
                            Ok(sb) => {
                                let t = call("trusted_comment", 0, || sb.trusted_comment());
                                ensure!(t.as_deref() == Ok(&tc), "explicit-comment-changed", "given {:?}, stored {:?}", short(&tc), short(&t));
                            }
                        }
                    }
                    _ => {
                        let good = coin();
                        let sb = setup("parse", parse_sig(if good { &genuine } else { &broken }))?;
                        let r = verify(&k.pk, &sb, &mut Src::new(b"fixed".to_vec()), coin(), draw(4) == 3, coin());
                        if let Err(Fail::Panic(p)) = &r {
                            return bad("clock-dependence", format!("verification at clock {lo} panics: {p}"));
                        }
                        ensure!(is(&r) == good, "clock-dependence", "verification of a {} signature at clock {lo}: {}", if good { "genuine" } else { "wrong" }, show(&r));
                    }
                }
            }
            Ok(())
        })?;
    }
    Ok(())
}

// ------------------------------------------------------------------ C17
pub fn c17(world: &mut Wd) -> Res {
    run_life(world, false, |w| {
        let k = Key::draw()?;
        let n = 1 + draw(4);
        for _ in 0..n {
            let d = gen::data(3000);
            let legacy = coin();
            let tc = gen::comment();
            let mut text = k.r.sign(&d, legacy, &tc, "u");
            if !legacy && coin() {
                let sb = setup("sign", sign(&k.sk, None, &mut Src::new(d.clone()), Some(&tc), None))?;
                text = setup("serialise", sig_text(&sb))?;
            }
            let Some(mut f) = oracle::sig_fields(&text) else { return unclear("signature text") };
            let probes = 1 + draw(5);
            for _ in 0..probes {
                let orig = f.alg;
                let tampered = draw(3) == 2;
                if tampered {
                    w.note(F::StoredField);
                    f.alg = match draw(7) {
                        0 | 1 | 2 => {
                            if legacy {
                                *b"ED"
                            } else {
                                *b"Ed"
                            }
                        }
                        3 => [f.alg[0], f.alg[1] ^ (1 << draw(8))],
                        4 => [f.alg[0] ^ (1 << draw(8)), f.alg[1]],
                        5 => pick(&[*b"eD", *b"ed", *b"\0\0", *b"ES", *b"Sc", *b"DE", *b"dE"]),
                        _ => [draw(256) as u8, draw(256) as u8],
                    };
                }
                let changed = f.alg != orig;
                let bones = draw(3) == 2;
                let sb = if bones {
                    parse_bones(&f.bones())
                } else if draw(4) == 3 {
                    w.put_file("l.minisig", f.text().as_bytes());
                    call("SignatureBox::from_file", 400, || shim::sig_from_file(Path::new("l.minisig")))
                } else {
                    parse_sig(&f.text())
                };
                let alg = f.alg;
                f.alg = orig;
                let sb = match sb {
                    Ok(s) => s,
                    Err(_) if changed => continue,
                    Err(e) => return bad("genuine-refused", format!("a {} signature cannot be loaded: {}", name(legacy), e.text())),
                };
                let allow = coin();
                let out = draw(5) == 4;
                let r = verify(&k.pk, &sb, &mut Src::new(d.clone()), coin(), out, allow);
                let how = format!("{} signature, {} form, allow_legacy={allow}", name(legacy), if bones { "comment-less" } else { "full" });
                if let Err(Fail::Panic(_)) = &r {
                    return unclear("verification panics");
                }
                if changed {
                    ensure!(!is(&r), "kind-confusion", "{how}: accepted with its algorithm identifier changed to {alg:?}");
                } else if legacy && !allow {
                    ensure!(!is(&r), "legacy-accepted", "{how}: accepted");
                } else {
                    ensure!(is(&r), "genuine-refused", "{how}: {}", show(&r));
                }
                let reported = sb.is_prehashed();
                if !changed {
                    ensure!(reported == !legacy, "kind-misreported", "{how}: is_prehashed() = {reported}");
                }
            }
        }
        Ok(())
    })
    .map(|_| ())
}
fn name(legacy: bool) -> &'static str {
    if legacy {
        "legacy"
    } else {
        "prehashed"
    }
}

// ------------------------------------------------------------------ C18
pub fn c18(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let k = Key::draw()?;
        let mut other = draw_ref();
        let n = 1 + draw(4);
        for _ in 0..n {
            let d = gen::data(3000);
            let tc = opt_comment();
            w.swarm(&[F::SrcShortRead, F::SrcInterrupted, F::RngShort, F::RngInterrupted]);
            let what = draw(7);
            let mut pkb = k.r.pk_bytes();
            let mut via_box = coin();
            match what {
                0 => {}
                1 => pkb = other.pk_bytes(),
                2 => {
                    // another pair under the same key identifier
                    other.keynum = k.r.keynum;
                    pkb = other.pk_bytes();
                }
                3 => {
                    // the right key under another identifier
                    w.note(F::StoredField);
                    pkb[2 + draw(8) as usize] ^= 1 << draw(8);
                }
                4 => {
                    w.note(F::StoredBitFlip);
                    pkb[10 + draw(32) as usize] ^= 1 << draw(8);
                }
                5 => {
                    via_box = false;
                    damage_bytes(&mut pkb, &other.pk_bytes());
                }
                _ => {
                    w.note(F::StoredSplice);
                    let i = 2 + draw(40) as usize;
                    pkb[i..].copy_from_slice(&other.pk_bytes()[i..]);
                }
            }
            let mut genuine = pkb == k.r.pk_bytes();
            // a secret key whose halves do not belong together
            let mut sk = k.sk.clone();
            if draw(8) == 7 {
                let mut b = k.r.sk_plain();
                w.note(F::StoredSplice);
                match draw(3) {
                    0 => b[62..94].copy_from_slice(&other.seed),
                    1 => b[94..126].copy_from_slice(&other.pk),
                    _ => b[62 + draw(64) as usize] ^= 1 << draw(8),
                }
                sk = setup("load secret key", call("SecretKey::from_bytes", 158, || SecretKey::from_bytes(&b)))?;
                genuine = false;
                if coin() {
                    // the public key it would give
                    via_box = false;
                    pkb = b"Ed".to_vec();
                    pkb.extend_from_slice(&b[54..62]);
                    pkb.extend_from_slice(&b[94..126]);
                }
            }
            let pk = if via_box {
                let t = format!("untrusted comment: x\n{}\n", oracle::b64(&pkb));
                parse_pk(&t)
            } else if draw(3) == 2 && pkb.len() == 42 {
                let t = oracle::b64(&pkb);
                call("PublicKey::from_base64", 60, || PublicKey::from_base64(&t))
            } else {
                call("PublicKey::from_bytes", 42, || PublicKey::from_bytes(&pkb))
            };
            let Ok(pk) = pk else {
                if genuine && pkb[..2] == *b"Ed" && pkb.len() == 42 {
                    return unclear("setup: genuine public key not loaded");
                }
                continue;
            };
            let mut src = Src::new(d.clone()).chunked();
            let r = sign(&sk, Some(&pk), &mut src, tc.as_deref(), None);
            w.faults_off();
            match r {
                Err(e) => {
                    ensure!(!genuine, "genuine-key-refused", "signing {} bytes with the genuine public key: {}", d.len(), e.text());
                }
                Ok(sb) => {
                    let f = fields_of(&sb, "unaccepted-signature-returned")?;
                    let mut rk = k.r.clone();
                    rk.keynum = pkb[2..10].try_into().unwrap();
                    rk.pk = pkb[10..42].try_into().unwrap();
                    if let Err(e) = f.check(&rk, &d) {
                        return bad("unaccepted-signature-returned", format!("sign() with public key {} returned a signature that key does not accept: {e}", oracle::hex(&pkb)));
                    }
                    let v = verify(&pk, &sb, &mut Src::new(d.clone()), true, false, false);
                    ensure!(is(&v), "unaccepted-signature-returned", "verify() with the supplied public key: {}", show(&v));
                }
            }
        }
        Ok(())
    })
    .map(|_| ())
}
