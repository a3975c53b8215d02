//! C09, C10, C11: randomness.
use super::*;
use crate::sched;
use std::collections::BTreeMap;

// ------------------------------------------------------------------ C09
binstruct! {
#[derive(Clone)]
pub struct Step {
    pub op: u64,
    pub with_pk: bool,
    pub pw: String,
    pub data: Vec<u8>,
    pub tc: String,
}
}
binstruct! {
#[derive(Clone)]
pub struct Made {
    pub ok: bool,
    pub failed: bool,
    pub text: String,
    pub out: Vec<u8>,
}
}
fn draw_steps() -> Vec<Step> {
    let n = 1 + draw(3);
    (0..n)
        .map(|_| Step { op: draw(5), with_pk: coin(), pw: gen::password(), data: gen::data(600), tc: gen::comment() })
        .collect()
}
/// One operation; what it returned or wrote, as bytes.
fn do_step(k: &Key, s: &Step, w: &mut Wd) -> Res<Made> {
    let before = w.ent_failed;
    let pair = |kp: KeyPair| {
        let mut v = kp.pk.to_bytes();
        v.extend(kp.sk.to_bytes());
        v
    };
    let mut written = vec![];
    let r: Out<Vec<u8>> = match s.op {
        0 => call("generate_unencrypted_keypair", 0, KeyPair::generate_unencrypted_keypair).map(pair),
        1 => call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(Some(s.pw.clone()))).map(pair),
        2 | 3 => {
            let (mut a, mut b) = (Dst::new("pk"), Dst::new("sk"));
            let r = if s.op == 2 {
                call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut a, &mut b, None, Some(s.pw.clone())))
            } else {
                call("generate_and_write_unencrypted_keypair", 0, || shim::gen_write_unencrypted(&mut a, &mut b))
            };
            written.extend(a.seen);
            written.extend(b.seen);
            r.map(|kp| {
                let mut v = pair(kp);
                v.extend_from_slice(&written);
                v
            })
        }
        _ => {
            let r = sign(&k.sk, s.with_pk.then_some(&k.pk), &mut Src::new(s.data.clone()), Some(&s.tc), None);
            match r {
                Ok(sb) => sig_text(&sb).map(|t| t.into_bytes()),
                Err(e) => Err(e),
            }
        }
    };
    let failed = w.ent_failed > before;
    if failed {
        if is(&r) {
            return bad("produced-without-entropy", format!("{} succeeded although the entropy source failed", op_name(s.op)));
        }
        ensure!(written.is_empty(), "written-without-entropy", "{} wrote {} bytes although the entropy source failed", op_name(s.op), written.len());
    }
    if let Err(Fail::Panic(p)) = &r {
        return bad("panic", format!("{}: {p}", op_name(s.op)));
    }
    if !failed && !is(&r) {
        return bad("interruption-not-completed", format!("{} failed although no entropy request did: {}", op_name(s.op), show(&r)));
    }
    let out = r.as_ref().map(|x| x.clone()).unwrap_or_default();
    Ok(Made { ok: r.is_ok(), failed, text: show(&r), out })
}
fn op_name(op: u64) -> &'static str {
    match op {
        0 => "generating an unprotected key pair",
        1 => "generating a protected key pair",
        2 => "generating and writing a protected key pair",
        3 => "generating and writing an unprotected key pair",
        _ => "signing",
    }
}
/// A stretch of bytes that no entropy went into.
fn zero_run(v: &[u8]) -> usize {
    let (mut best, mut n) = (0, 0);
    for b in v {
        n = if *b == 0 { n + 1 } else { 0 };
        best = best.max(n);
    }
    best
}
pub fn c09(world: &mut Wd) -> Res {
    let steps = draw_steps();
    let key = draw_ref();
    world.ent_seed = draw(1 << 40);
    // kernels without the system call: the device is used instead
    world.ent_nosys = if draw(4) == 3 { pick(&[libc::ENOSYS, libc::EPERM]) } else { 0 };
    let mode = draw(6);
    let mut twin = World::clone(world);
    match mode {
        // fails for good at a given request
        0 | 1 => world.ent_fail_at = draw(12),
        // transient or permanent failures anywhere
        2 => world.swarm(&[F::RngError, F::RngDown, F::RngShort, F::RngInterrupted]),
        // fails for good while some requests are short
        3 => {
            world.ent_fail_at = draw(40);
            world.swarm(&[F::RngShort, F::RngInterrupted]);
        }
        // only short and interrupted reads
        _ => world.swarm(&[F::RngShort, F::RngInterrupted]),
    }
    if world.ent_nosys != 0 {
        world.note(F::RngNoSyscall);
    }
    let st = steps.clone();
    let k2 = key.clone();
    let got = run_life(world, true, move |w| -> Res<Vec<Made>> {
        let k = Key::of(key)?;
        steps.iter().map(|s| do_step(&k, s, w)).collect()
    })?;
    let Some(got) = got else { return unclear("no result") };
    // the same program with an entropy source that always answers in full
    twin.lives = world.lives;
    let first = std::mem::replace(&mut **world, twin);
    let want = run_life(world, true, move |w| -> Res<Vec<Made>> {
        let k = Key::of(k2)?;
        st.iter().map(|s| do_step(&k, s, w)).collect()
    });
    let lives = world.lives;
    **world = first;
    world.lives = lives;
    let want = want?;
    let Some(want) = want else { return unclear("no result") };
    let mut clean = true;
    for (g, x) in got.iter().zip(&want) {
        clean &= !g.failed;
        if clean {
            ensure!(
                g.out == x.out,
                "partial-entropy-used",
                "with only short or interrupted entropy reads the result is not the one made from the complete bytes ({})",
                g.text
            );
        }
        if g.ok && g.out.len() >= 200 {
            let sk = &g.out[42..200];
            if sk[2..4] == *b"Sc" {
                ensure!(zero_run(&sk[6..38]) < 8, "partial-entropy-used", "the salt of a generated key has a stretch of zeros");
            } else {
                ensure!(zero_run(&sk[54..94]) < 8, "partial-entropy-used", "the secret of a generated key has a stretch of zeros");
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C10
binstruct! {
/// One signing operation of the library, with its nonce point.
#[derive(Clone)]
pub struct Point {
    pub r: [u8; 32],

    pub seed: [u8; 32],
    pub msg: Vec<u8>,
    pub nonce: Option<[u8; 32]>,
}
}
const HELD: usize = 96;

/// Sign and record both nonces.
fn sign_rec(k: &RefKey, sk: &SecretKey, embedded_pk: &[u8; 32], data: &[u8], tc: &str, log: &mut Vec<Point>, strict: bool) -> Res {
    let o = sign(sk, None, &mut Src::new(data.to_vec()), Some(tc), None);
    let sb = match o {
        Ok(s) => s,
        // a key whose halves do not match may be refused
        Err(Fail::Err(_)) if !strict => return Ok(()),
        o => setup("sign", o)?,
    };
    let t = setup("serialise", sig_text(&sb))?;
    let Some(f) = oracle::sig_fields(&t) else { return unclear("setup: malformed signature") };
    if f.gsig.len() != 64 {
        return unclear("setup: malformed signature");
    }
    let m1 = match &f.alg {
        b"ED" => oracle::prehash(data),
        _ => data.to_vec(),
    };
    let mut m2 = f.sig.clone();
    m2.extend_from_slice(tc.as_bytes());
    for (m, s) in [(m1, &f.sig), (m2, &f.gsig)] {
        let nonce = if *embedded_pk == k.pk { oracle::nonce(&k.seed, &m, s) } else { None };
        if strict && nonce.is_none() {
            return unclear("setup: not a valid signature");
        }
        log.push(Point { r: s[..32].try_into().unwrap(), seed: k.seed, msg: m, nonce });
    }
    Ok(())
}
fn judge_points(log: &[Point]) -> Res {
    let mut by_r: BTreeMap<[u8; 32], &Point> = BTreeMap::new();
    for p in log {
        if let Some(q) = by_r.get(&p.r) {
            if q.seed != p.seed {
                return bad("nonce-shared-by-keys", "two different secret keys produced signatures with the same nonce: either holder can compute the other's secret key");
            }
            if q.msg != p.msg {
                return bad("nonce-reused", "one key signed two different messages with the same nonce: anyone can compute the secret key");
            }
        } else {
            by_r.insert(p.r, p);
        }
    }
    let n: Vec<[u8; 32]> = by_r.values().filter_map(|p| p.nonce).collect();
    for i in 0..n.len() {
        for j in 0..i {
            if oracle::close_scalars(&n[i], &n[j]) {
                return bad("nonces-related", "two nonces differ by less than 2^128");
            }
        }
    }
    if let Some(x) = n.iter().find(|x| x[16..].iter().all(|b| *b == 0)) {
        return bad("nonce-biased", format!("a nonce is shorter than 128 bits ({})", oracle::hex(x)));
    }
    if n.len() >= HELD {
        // bits 0..251 are uniform for a nonce drawn below the group order
        let cols: Vec<u128> = (0..252).map(|b| (0..HELD).fold(0u128, |c, i| c << 1 | ((n[i][b / 8] >> (b % 8)) & 1) as u128)).collect();
        judge_cols(&cols, "nonce-biased", |b| format!("bit {b} of the nonce"))?;
    }
    Ok(())
}
/// No column constant, no two columns equal or complementary.
fn judge_cols(cols: &[u128], class: &str, name: impl Fn(usize) -> String) -> Res {
    let mask = (1u128 << HELD) - 1;
    let mut seen: BTreeMap<u128, usize> = BTreeMap::new();
    for (b, c) in cols.iter().enumerate() {
        ensure!(*c != 0 && *c != mask, class, "{} had the same value in all of {HELD} samples", name(b));
        let key = (*c).min(!*c & mask);
        if let Some(o) = seen.insert(key, b) {
            return bad(class, format!("{} and {} were always equal or always opposite in {HELD} samples", name(o), name(b)));
        }
    }
    Ok(())
}
/// Many samples of what should be uniform, independent bits: no bit is biased,
/// no two are correlated, no set of them adds up to a constant, no byte value
/// is rare or frequent. The threshold is 8.5 standard deviations throughout.
fn judge_uniform(v: &[Vec<u8>], bits: usize, class: &str, name: impl Fn(usize) -> String) -> Res {
    let n = v.len();
    let words = n.div_ceil(64);
    let mut cols = vec![vec![0u64; words]; bits];
    for (i, x) in v.iter().enumerate() {
        for (b, c) in cols.iter_mut().enumerate() {
            c[i / 64] |= ((x[b / 8] >> (b % 8) & 1) as u64) << (i % 64);
        }
    }
    let slack = 8.5 * (n as f64).sqrt() / 2.0;
    let off = |k: u32| (k as f64 - n as f64 / 2.0).abs() > slack;
    for (b, c) in cols.iter().enumerate() {
        let k: u32 = c.iter().map(|x| x.count_ones()).sum();
        ensure!(!off(k), class, "{} was set in {k} of {n} samples", name(b));
    }
    for i in 0..bits {
        for j in 0..i {
            let k: u32 = cols[i].iter().zip(&cols[j]).map(|(x, y)| (x ^ y).count_ones()).sum();
            ensure!(!off(k), class, "{} and {} differed in {k} of {n} samples", name(j), name(i));
        }
    }
    // linear relations: the columns and the constant are independent
    if n >= bits + 64 {
        let mut one = vec![!0u64; words];
        if n % 64 != 0 {
            one[words - 1] = (1u64 << (n % 64)) - 1;
        }
        let mut basis: Vec<(usize, Vec<u64>)> = vec![];
        for (b, c) in std::iter::once(one).chain(cols.iter().cloned()).enumerate() {
            let mut c = c;
            for (top, r) in &basis {
                if c[top / 64] >> (top % 64) & 1 == 1 {
                    c.iter_mut().zip(r).for_each(|(x, y)| *x ^= y);
                }
            }
            let Some(w) = c.iter().position(|x| *x != 0) else {
                return bad(class, format!("{} was in all of {n} samples the sum of other bits", name(b - 1)));
            };
            let top = w * 64 + c[w].trailing_zeros() as usize;
            basis.push((top, c));
        }
    }
    // the values of each nibble, and of each byte if there are enough samples
    for b in 0..bits / 8 {
        let mut h = [0u64; 256];
        v.iter().for_each(|x| h[x[b] as usize] += 1);
        let mut judge = |what: &str, k: u64, parts: f64| -> Res {
            let m = n as f64 / parts;
            if m < 80.0 || (k as f64 - m).abs() <= 8.5 * m.sqrt() + 8.5 {
                return Ok(());
            }
            bad(class, format!("{what} had one value {k} times in {n} samples ({} and following)", name(8 * b)))
        };
        for x in 0..16 {
            judge("the high half of a byte", h[16 * x..16 * x + 16].iter().sum(), 16.0)?;
            judge("the low half of a byte", h.iter().skip(x).step_by(16).sum(), 16.0)?;
        }
        for k in h {
            judge("a byte", k, 256.0)?;
        }
    }
    let mut hist = [0u64; 256];
    v.iter().flat_map(|x| &x[..bits / 8]).for_each(|b| hist[*b as usize] += 1);
    let total = (n * (bits / 8)) as f64;
    let slack = 8.5 * (total / 256.0).sqrt() + 8.5;
    for (b, k) in hist.iter().enumerate() {
        ensure!((*k as f64 - total / 256.0).abs() <= slack, class, "byte value {b} occurred {k} times in {total} bytes");
    }
    Ok(())
}
fn entropy_mode(w: &mut Wd) {
    w.ent_mode = draw(5) as u8;
    match w.ent_mode {
        1..=3 => w.note(F::RngStuck),
        4 => w.note(F::RngReplayed),
        _ => {}
    }
}
/// A large number of nonces, looked at statistically.
fn mass_nonces(world: &mut Wd) -> Res {
    let r = draw_ref();
    entropy_mode(world);
    let log = run_life(world, false, move |w| -> Res<Vec<Point>> {
        crate::node::limits(1 << 20);
        let k = Key::of(r.clone())?;
        let mut log = vec![];
        for i in 0..400u64 {
            sign_rec(&r, &k.sk, &r.pk, &i.to_le_bytes(), "c", &mut log, true)?;
        }
        w.probe("800 nonces looked at statistically");
        Ok(log)
    })?;
    let log = log.unwrap_or_default();
    judge_points(&log)?;
    let v: Vec<Vec<u8>> = log.iter().filter_map(|p| p.nonce).map(|n| n.to_vec()).collect();
    if v.len() < 800 {
        return unclear("no result");
    }
    judge_uniform(&v, 252, "nonce-biased", |b| format!("bit {b} of the nonce"))
}
pub fn c10(world: &mut Wd) -> Res {
    world.ent_seed = draw(1 << 40);
    if draw(64) == 1 {
        return mass_nonces(world);
    }
    entropy_mode(world);
    let mut refs = vec![draw_ref()];
    for _ in 0..1 + draw(3) {
        let mut r = draw_ref();
        if draw(4) == 3 {
            r.keynum = refs[0].keynum;
        }
        refs.push(r);
    }
    // contents and comments that come back with other keys and in other processes
    let contents: Vec<Vec<u8>> = (0..2 + draw(3)).map(|_| gen::data(300)).collect();
    let comments: Vec<String> = (0..2 + draw(2)).map(|_| gen::comment()).collect();
    let bulk = draw(3) == 2;
    let lives = 1 + draw(3);
    let mut log: Vec<Point> = vec![];
    for _ in 0..lives {
        let pos0 = world.ent_pos;
        let (refs, contents, comments) = (refs.clone(), contents.clone(), comments.clone());
        let got = run_life(world, false, move |w| -> Res<Vec<Point>> {
            let mut log = vec![];
            let keys: Vec<Key> = refs.iter().map(|r| Key::of(r.clone())).collect::<Res<_>>()?;
            let one = |w: &mut Wd, log: &mut Vec<Point>| -> Res {
                let i = draw(keys.len() as u64) as usize;
                let d = &contents[draw(contents.len() as u64) as usize];
                let c = &comments[draw(comments.len() as u64) as usize];
                match draw(8) {
                    7 => {
                        // the guest's entropy is set back by a snapshot
                        w.note(F::RngReplayed);
                        w.ent_pos = pos0;
                    }
                    6 => entropy_mode(w),
                    _ => {}
                }
                if draw(10) == 9 {
                    // two secret keys that claim the same public half: the nonce must depend on the secret
                    let o = &refs[(i + 1) % refs.len()];
                    let mut b = refs[i].sk_plain();
                    b[94..126].copy_from_slice(&o.pk);
                    if let Ok(sk) = call("SecretKey::from_bytes", 158, || SecretKey::from_bytes(&b)) {
                        let m = w.ent_mode;
                        w.ent_mode = 1;
                        let r = (|| {
                            sign_rec(&refs[i], &sk, &o.pk, d, c, log, false)?;
                            sign_rec(o, &keys[(i + 1) % refs.len()].sk, &o.pk, d, c, log, true)
                        })();
                        w.ent_mode = m;
                        r?;
                    }
                    return Ok(());
                }
                sign_rec(&refs[i], &keys[i].sk, &refs[i].pk, d, c, log, true)
            };
            for _ in 0..2 + draw(6) {
                one(w, &mut log)?;
            }
            if bulk {
                // enough signatures to see a biased bit
                let k = draw(keys.len() as u64) as usize;
                let base = gen::prf(draw(1 << 30), 24);
                for i in 0..(HELD / 2 + 2) as u64 {
                    let mut d = base.clone();
                    d.extend_from_slice(&i.to_le_bytes());
                    sign_rec(&refs[k], &keys[k].sk, &refs[k].pk, &d, &comments[0], &mut log, true)?;
                }
            }
            if draw(3) == 2 {
                // the process is forked or restored: both copies go on with equal state
                w.note(F::ForkSnapshot);
                let pos = w.ent_pos;
                let more = run_fork(w, false, |w| {
                    let mut l = vec![];
                    for _ in 0..1 + draw(4) {
                        one(w, &mut l)?;
                    }
                    Ok(l)
                })?;
                log.extend(more.unwrap_or_default());
                if coin() {
                    w.note(F::RngReplayed);
                    w.ent_pos = pos;
                }
                for _ in 0..1 + draw(4) {
                    one(w, &mut log)?;
                }
            }
            Ok(log)
        })?;
        log.extend(got.unwrap_or_default());
        if coin() {
            // the next process gets the same entropy
            world.note(F::RngReplayed);
            world.ent_pos = pos0;
        }
    }
    judge_points(&log)
}

// ------------------------------------------------------------------ C11
binstruct! {
#[derive(Clone, Debug)]
pub struct Fresh {
    pub seed: [u8; 32],
    pub keynum: [u8; 8],
    pub pk: [u8; 32],
    pub salt: Option<[u8; 32]>,
}
}
/// What a generated key pair is made of, or why it is none.
fn parts(kp: &KeyPair, pw: Option<&str>, real: bool) -> Res<Fresh> {
    let b = kp.sk.to_bytes();
    let Some(f) = oracle::sk_fields(&b) else { return bad("unusable-key", format!("a generated secret key serialises to {} bytes", b.len())) };
    let (r, salt) = match pw {
        None => (ref_of_plain(&kp.sk), None),
        Some(p) => (oracle::unseal(&f, p.as_bytes(), real), Some(<[u8; 32]>::try_from(&f.salt[..]).unwrap())),
    };
    let Some(r) = r else {
        // no statement about freshness can be made of it, except that it is no key pair
        let seed: [u8; 32] = f.sk[..32].try_into().unwrap();
        if pw.is_none() {
            ensure!(oracle::ed_pk(&seed)[..] == f.sk[32..], "pair-does-not-belong", "the public half inside a generated secret key is not that of its secret half");
        }
        return unclear("setup: generated key not understood");
    };
    ensure!(kp.pk.to_bytes() == r.pk_bytes(), "pair-does-not-belong", "the generated public key is not that of the generated secret key (key, or key identifier)");
    Ok(Fresh { seed: r.seed, keynum: r.keynum, pk: r.pk, salt })
}
fn make_one(protect: bool, w: &Wd) -> Res<Fresh> {
    let pw = "correct horse";
    let kp = if protect {
        raw(|| KeyPair::generate_encrypted_keypair(Some(pw.into())))
    } else {
        raw(KeyPair::generate_unencrypted_keypair)
    };
    let kp = setup("generate", kp)?;
    parts(&kp, protect.then_some(pw), w.kdf_real)
}
fn raw<T>(f: impl FnOnce() -> minisign::Result<T>) -> Out<T> {
    w().ops += 1;
    crate::node::raw_call(f)
}
fn judge_fresh(all: &[Fresh]) -> Res {
    let dup = |what: &str, v: Vec<Vec<u8>>| -> Res {
        let mut seen = std::collections::BTreeSet::new();
        for x in v {
            if !seen.insert(x.clone()) {
                return bad("repeated", format!("two of {} generated key pairs have the same {what} ({})", all.len(), oracle::hex(&x)));
            }
        }
        Ok(())
    };
    dup("secret seed", all.iter().map(|x| x.seed.to_vec()).collect())?;
    dup("key identifier", all.iter().map(|x| x.keynum.to_vec()).collect())?;
    dup("salt", all.iter().filter_map(|x| x.salt.map(|s| s.to_vec())).collect())?;
    // the same 8 bytes in two different roles or places
    let mut win: BTreeMap<[u8; 8], (usize, &str, usize)> = BTreeMap::new();
    for (i, x) in all.iter().enumerate() {
        let mut p: Vec<(&str, &[u8])> = vec![("secret seed", &x.seed), ("public key", &x.pk), ("key identifier", &x.keynum)];
        if let Some(s) = &x.salt {
            p.push(("salt", s));
        }
        for (n, b) in p {
            for o in 0..=b.len() - 8 {
                let k: [u8; 8] = b[o..o + 8].try_into().unwrap();
                if let Some((j, m, q)) = win.insert(k, (i, n, o)) {
                    return bad("not-independent", format!("bytes {o}.. of the {n} of key pair {i} are bytes {q}.. of the {m} of key pair {j}"));
                }
            }
        }
    }
    let cols = |v: Vec<Vec<u8>>| -> Vec<u128> {
        (0..v[0].len() * 8).map(|b| (0..HELD).fold(0u128, |c, i| c << 1 | ((v[i][b / 8] >> (b % 8)) & 1) as u128)).collect()
    };
    let name = |b: usize| {
        let (n, o) = match b / 8 {
            x if x < 32 => ("secret seed", 0),
            x if x < 40 => ("key identifier", 32),
            x if x < 72 => ("public key", 40),
            _ => ("salt", 72),
        };
        format!("bit {} of byte {} of the {n}", b % 8, b / 8 - o)
    };
    let base = |x: &Fresh| [&x.seed[..], &x.keynum[..], &x.pk[..]].concat();
    if all.len() >= HELD {
        judge_cols(&cols(all.iter().map(base).collect()), "not-random", name)?;
    }
    let with: Vec<&Fresh> = all.iter().filter(|x| x.salt.is_some()).collect();
    if with.len() >= HELD {
        judge_cols(&cols(with.iter().map(|x| [base(x), x.salt.unwrap().to_vec()].concat()).collect()), "not-random", name)?;
    }
    Ok(())
}
pub fn c11(world: &mut Wd) -> Res {
    world.ent_seed = draw(1 << 40);
    world.real_s += draw(1 << 20) as i64;
    match draw(96) {
        i if i % 3 == 2 && i > 3 => return cut(world),
        1 => return mass(world),
        _ => {}
    }
    world.swarm(&[F::RngShort, F::RngInterrupted]);
    let mut all: Vec<Fresh> = vec![];
    let lives = 1 + draw(3);
    // mostly protected, mostly not, or a mixture
    let mix = draw(3);
    for l in 0..lives {
        let last = l + 1 == lives;
        let have = all.len();
        let got = run_life(world, false, move |w| -> Res<Vec<Fresh>> {
            let mut all = vec![];
            crate::node::limits(1 << 20);
            let prot = |i: u64| match mix {
                0 => true,
                1 => false,
                _ => i % 2 == 0,
            };
            let some = |n: u64, w: &Wd| -> Res<Vec<Fresh>> { (0..n).map(|i| make_one(prot(i), w)).collect() };
            all.extend(some(1 + draw(8), w)?);
            if draw(2) == 1 {
                // several threads at once
                let nt = 2 + draw(3) as usize;
                let out: std::sync::Arc<std::sync::Mutex<Vec<Res<Vec<Fresh>>>>> = Default::default();
                let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
                for _ in 0..nt {
                    let out = out.clone();
                    bodies.push(Box::new(move || {
                        let n = 1 + draw(3);
                        let r: Res<Vec<Fresh>> = (0..n).map(|i| make_one(i % 2 == (mix & 1), &Wd)).collect();
                        out.lock().unwrap().push(r);
                    }));
                }
                let p = draw(20);
                sched::run(bodies, p);
                let v: Vec<Res<Vec<Fresh>>> = std::mem::take(&mut *out.lock().unwrap());
                for r in v {
                    all.extend(r?);
                }
            }
            if draw(2) == 1 {
                // a forked (or restored) process continues with this one's state
                w.note(F::ForkSnapshot);
                let m = run_fork(w, false, |w| some(1 + draw(4), w))?;
                all.extend(m.unwrap_or_default());
                all.extend(some(1 + draw(4), w)?);
            }
            if last {
                // enough samples for the statistics
                let mut need = (HELD + 2).saturating_sub(have + all.len()) as u64;
                if mix == 2 {
                    need *= 1;
                }
                all.extend(some(need, w)?);
            }
            Ok(all)
        })?;
        all.extend(got.unwrap_or_default());
    }
    judge_fresh(&all)
}
/// A large number of keys, looked at statistically.
fn mass(world: &mut Wd) -> Res {
    let many = draw(6) == 5;
    let protect = coin() && !many;
    let n = if many { 24_000 } else { 1500 };
    let got = run_life(world, false, move |w| -> Res<Vec<Fresh>> {
        (0..n)
            .map(|_| {
                crate::node::limits(1 << 20);
                make_one(protect, w)
            })
            .collect()
    })?;
    let got = got.unwrap_or_default();
    if got.len() < n {
        return unclear("no result");
    }
    crate::world::w().probe(if many { "24000 keys looked at statistically" } else { "1500 keys looked at statistically" });
    let v: Vec<Vec<u8>> = got.iter().map(|x| [&x.seed[..], &x.keynum[..], x.salt.as_ref().map_or(&[][..], |s| &s[..])].concat()).collect();
    judge_uniform(&v, v[0].len() * 8, "not-random", |b| {
        let (n, o) = match b / 8 {
            x if x < 32 => ("secret seed", 0),
            x if x < 40 => ("key identifier", 32),
            _ => ("salt", 40),
        };
        format!("bit {} of byte {} of the {n}", b % 8, b / 8 - o)
    })
}
/// Information-theoretic test: two processes that receive the same first n
/// bytes of entropy and different ones after that cannot, if every part is
/// made of randomness of its own, agree on parts larger than n together.
fn cut(world: &mut Wd) -> Res {
    let n = pick(&[0u64, 1, 4, 7, 8, 16, 31, 32, 33, 40, 48, 63, 64, 65, 71]);
    let protect = draw(4) != 3;
    let warm = draw(3);
    world.ent_cut = n;
    let mut got: Vec<Vec<Fresh>> = vec![];
    let snapshot = World::clone(world);
    for side in 0..2u64 {
        let lives = world.lives;
        let log = world.log_hash;
        **world = snapshot.clone();
        world.lives = lives;
        world.log_hash = log;
        world.ent_seed2 = side * (0x5151_0000 | world.ent_seed);
        if side == 1 {
            world.note(F::RngReplayed);
        }
        let r = run_life(world, false, move |w| -> Res<Vec<Fresh>> {
            crate::node::limits(1 << 20);
            (0..1 + warm).map(|_| make_one(protect, w)).collect()
        })?;
        match r {
            Some(r) => got.push(r),
            None => return unclear("no result"),
        }
    }
    let mut equal = 0u64;
    let mut what = vec![];
    for (i, (a, b)) in got[0].iter().zip(&got[1]).enumerate() {
        for (name, len, eq) in [
            ("secret seed", 32, a.seed == b.seed),
            ("key identifier", 8, a.keynum == b.keynum),
            ("salt", 32, a.salt.is_some() && a.salt == b.salt),
        ] {
            if eq {
                equal += len;
                what.push(format!("{name} of key pair {i}"));
            }
        }
    }
    ensure!(
        equal <= n,
        "not-enough-entropy",
        "two processes whose entropy agreed in the first {n} bytes only produced equal values totalling {equal} bytes: {}",
        what.join(", ")
    );
    Ok(())
}
