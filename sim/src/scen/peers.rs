//! C20, C21: deployments in which this library is only one of the parties.
use super::*;

/// Comments every implementation can carry.
fn plain_comment(max: usize) -> String {
    let mut c: String = gen::comment().chars().filter(|c| !matches!(c, '\r' | '\n' | '\0')).collect();
    while c.len() > max {
        c.pop();
    }
    c
}
/// The peer's way to read a box: exactly these lines, each ended by a newline.
fn lines(text: &str, n: usize) -> std::result::Result<Vec<&str>, String> {
    let Some(body) = text.strip_suffix('\n') else { return Err("the last line is not ended".into()) };
    let l: Vec<&str> = body.split('\n').collect();
    if l.len() != n {
        return Err(format!("{} lines instead of {n}", l.len()));
    }
    Ok(l)
}
fn field(line: &str, n: usize) -> std::result::Result<Vec<u8>, String> {
    let Some(b) = oracle::unb64(line) else { return Err(format!("not base64: {line:?}")) };
    if b.len() != n {
        return Err(format!("{} bytes instead of {n}", b.len()));
    }
    if oracle::b64(&b) != line {
        return Err(format!("not the standard padded base64 form: {line:?}"));
    }
    Ok(b)
}
fn after<'a>(line: &'a str, prefix: &str) -> std::result::Result<&'a str, String> {
    line.strip_prefix(prefix).ok_or_else(|| format!("line does not start with {prefix:?}: {:?}", short(line)))
}
/// Public key text as a peer reads it: (comment, key identifier, key).
fn peer_pk(text: &str) -> std::result::Result<(String, [u8; 8], [u8; 32]), String> {
    let l = lines(text, 2)?;
    let c = after(l[0], "untrusted comment: ")?;
    let b = field(l[1], 42)?;
    if b[..2] != *b"Ed" {
        return Err(format!("algorithm {:?}", &b[..2]));
    }
    Ok((c.into(), b[2..10].try_into().unwrap(), b[10..].try_into().unwrap()))
}
fn peer_sk_bytes(b: &[u8], pw: Option<&str>, real: bool) -> std::result::Result<RefKey, String> {
    let Some(f) = oracle::sk_fields(b) else { return Err(format!("{} bytes instead of 158", b.len())) };
    if b[..2] != *b"Ed" || b[4..6] != *b"B2" {
        return Err(format!("algorithms {:?} {:?}", &b[..2], &b[4..6]));
    }
    match pw {
        Some(p) => oracle::unseal(&f, p.as_bytes(), real).ok_or_else(|| "it does not open with its password".to_string()),
        None => {
            if f.kdf != [0, 0] {
                return Err("it is marked as protected".into());
            }
            let r = RefKey::new(f.sk[..32].try_into().unwrap(), f.keynum);
            if r.sk64()[..] != f.sk[..] || r.chk() != f.chk {
                return Err("its checksum is wrong".into());
            }
            Ok(r)
        }
    }
}
fn peer_sk(text: &str, pw: Option<&str>, real: bool) -> std::result::Result<(String, RefKey), String> {
    let l = lines(text, 2)?;
    let c = after(l[0], "untrusted comment: ")?;
    let b = field(l[1], 158)?;
    Ok((c.into(), peer_sk_bytes(&b, pw, real)?))
}
fn peer_verify(text: &str, r: &RefKey, data: &[u8], allow_legacy: bool) -> std::result::Result<SigFields, String> {
    let l = lines(text, 4)?;
    let uc = after(l[0], "untrusted comment: ")?;
    let b = field(l[1], 74)?;
    let tc = after(l[2], "trusted comment: ")?;
    let g = field(l[3], 64)?;
    let f = SigFields { uc: uc.into(), alg: [b[0], b[1]], keynum: b[2..10].try_into().unwrap(), sig: b[10..].to_vec(), tc: tc.into(), gsig: g };
    if f.alg == *b"Ed" && !allow_legacy {
        return Err("a legacy signature".into());
    }
    f.check(r, data)?;
    Ok(f)
}
fn limits_of_a_peer() -> (u64, u64) {
    match draw(8) {
        0 => (33_554_432, 1_073_741_824), // minisign
        1 => (1_048_576, 33_554_432),     // rsign
        2 => (524_288, 16_777_216),       // interactive
        3 => {
            // minisign on a small machine: halved until it fits
            let k = draw(8);
            (33_554_432 >> k, 1_073_741_824 >> k)
        }
        _ => supported(),
    }
}
/// Any limits within the supported range.
fn supported() -> (u64, u64) {
    let near = |b: u64, max: u64| {
        let v = match draw(6) {
            0 => b,
            1 => b.saturating_sub(1),
            2 => b + 1,
            3 => b + b / 2,
            4 => b.saturating_sub(1 + draw(1000)),
            _ => b + draw(b.max(1)),
        };
        v.min(max)
    };
    let b = 1u64 << draw(31);
    let mem = near(b, 1_073_741_824);
    let ops = match draw(5) {
        // around the point where the deciding limit changes
        0 | 1 => near(mem / 32, 33_554_432),
        2 => near(32_768, 33_554_432),
        _ => {
            let b = 1u64 << draw(26);
            near(b, 33_554_432)
        }
    };
    (ops, mem)
}

binstruct! {
/// A key of the deployment, and who may be holding which file of it.
#[derive(Clone)]
pub struct Member {
    pub seed: [u8; 32],
    pub keynum: [u8; 8],
    pub pw: Option<String>,
    pub n: u64,
    pub lib: bool,
}
}
binstruct! {
/// A signature in the shared directory.
#[derive(Clone)]
pub struct Posted {
    pub who: u64,
    pub data: Vec<u8>,
    pub tc: String,
    pub uc: String,
    pub legacy: bool,
    pub n: u64,
    pub lib: bool,
}
}
binstruct! {
#[derive(Clone)]
pub struct Site {
    pub members: Vec<Member>,
    pub posted: Vec<Posted>,
    pub next: u64,
}
}
const IO: &[F] = &[F::FsShortRead, F::FsReadInterrupted, F::FsShortWrite, F::FsWriteInterrupted, F::FsStatLies, F::SrcShortRead, F::SrcInterrupted, F::RngShort, F::RngInterrupted, F::DstShortWrite, F::DstInterrupted];

fn refuse<T>(who: &str, e: String) -> Res<T> {
    bad("peer-refuses", format!("another implementation refuses {who}: {e}"))
}
/// A text as the peer's system stores it: other line ends, or none after the last line.
fn stored_by_peer(w: &mut Wd, text: &str) -> Vec<u8> {
    match draw(8) {
        6 => {
            w.probe("peer's files have other line ends");
            text.replace('\n', "\r\n").into_bytes()
        }
        7 => {
            w.probe("peer's files lack the last line end");
            text.strip_suffix('\n').unwrap_or(text).as_bytes().to_vec()
        }
        _ => text.as_bytes().to_vec(),
    }
}
/// The reverse.
fn norm(t: &str) -> String {
    let mut t = t.replace("\r\n", "\n");
    if !t.ends_with('\n') {
        t.push('\n');
    }
    t
}
fn text_of(w: &Wd, name: &str) -> Res<String> {
    match w.files.get(name).map(|f| String::from_utf8(f.data.clone())) {
        Some(Ok(t)) => Ok(t),
        Some(Err(_)) => refuse(name, "it is not text".into()),
        None => unclear(format!("file {name} is gone")),
    }
}
fn save(name: &str, text: &[u8]) -> bool {
    use std::io::Write;
    crate::cov::ACTIVE.set(true);
    let r = std::fs::File::create(name).and_then(|mut f| f.write_all(text).and_then(|_| f.sync_all()));
    crate::cov::ACTIVE.set(false);
    r.is_ok()
}
fn used<T>(what: &str, o: Out<T>) -> Res<T> {
    match o {
        Ok(t) => Ok(t),
        Err(e) => bad("refuses-peer", format!("{what}: {}", e.text())),
    }
}

fn lib_pk(w: &mut Wd, m: &Member) -> Res<PublicKey> {
    let name = format!("{}.pub", m.n);
    let t = text_of(w, &name)?;
    let how = draw(4);
    let pk = used(
        "loading a public key of the deployment",
        match how {
            0 | 1 => call("PublicKey::from_file", 0, || shim::pk_from_file(Path::new(&name))),
            2 => parse_pk(&t),
            _ => {
                let l = t.lines().nth(1).unwrap_or("").to_string();
                call("PublicKey::from_base64", 60, || PublicKey::from_base64(&l))
            }
        },
    )?;
    let r = RefKey::new(m.seed, m.keynum);
    ensure!(pk.to_bytes() == r.pk_bytes(), "read-differently", "public key {} is read as {}", oracle::hex(&r.pk_bytes()), oracle::hex(&pk.to_bytes()));
    ensure!(pk.keynum() == &m.keynum[..], "read-differently", "key identifier of a public key");
    Ok(pk)
}
fn lib_sk(w: &mut Wd, m: &Member) -> Res<SecretKey> {
    let name = format!("{}.key", m.n);
    let t = text_of(w, &name)?;
    let sk = used(
        "opening a secret key of the deployment",
        match &m.pw {
            Some(p) if coin() => {
                let p = p.clone();
                call("SecretKey::from_file", 0, || shim::sk_from_file(Path::new(&name), Some(p)))
            }
            Some(p) => open_sk(&t, Some(p)),
            None => open_plain(&t),
        },
    )?;
    let r = RefKey::new(m.seed, m.keynum);
    let f = oracle::sk_fields(&sk.to_bytes());
    ensure!(f.is_some_and(|f| f.keynum == r.keynum && f.sk == r.sk64() && f.chk == r.chk()), "read-differently", "a secret key is read with other contents");
    ensure!(sk.keynum() == &m.keynum[..], "read-differently", "key identifier of a secret key");
    Ok(sk)
}

fn step(w: &mut Wd, s: &mut Site) -> Res {
    let kind = if s.members.is_empty() { draw(2) } else { draw(10) };
    let n = s.next;
    s.next += 1;
    match kind {
        // a peer joins
        0 => {
            let r = draw_ref();
            let pw = coin().then(gen::password);
            let (ops, mem) = if w.kdf_real { (1_048_576, 33_554_432) } else { limits_of_a_peer() };
            let b = match &pw {
                Some(p) => r.sk_sealed(p.as_bytes(), &gen::bytes32(draw(1 << 32)), ops, mem, w.kdf_real),
                None => r.sk_plain(),
            };
            let c = pick(&["minisign encrypted secret key", "", "k", "ключ"]);
            let t = stored_by_peer(w, &RefKey::sk_box(&b, c));
            w.put_file(&format!("{n}.key"), &t);
            let pb = r.pk_box();
            let c = plain_comment(900);
            let t = if coin() { pb } else { format!("untrusted comment: {c}\n{}\n", oracle::b64(&r.pk_bytes())) };
            let t = stored_by_peer(w, &t);
            w.put_file(&format!("{n}.pub"), &t);
            s.members.push(Member { seed: r.seed, keynum: r.keynum, pw, n, lib: false });
        }
        // this library joins
        1 => {
            let pw = coin().then(gen::password);
            let c = coin().then(|| plain_comment(900));
            let direct = coin();
            w.swarm(IO);
            let mut kp = None;
            if direct && pw.is_some() {
                let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
                let r = call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut a, &mut b, c.as_deref(), pw.clone()));
                w.faults_off();
                kp = Some(setup("generate", r)?);
                w.put_file(&format!("{n}.pub"), &a.got);
                w.put_file(&format!("{n}.key"), &b.got);
            }
            if kp.is_none() {
                let r = match &pw {
                    Some(p) => call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(Some(p.clone()))),
                    None => call("generate_unencrypted_keypair", 0, KeyPair::generate_unencrypted_keypair),
                };
                let k = setup("generate", r)?;
                let t = setup("box", call("PublicKey::to_box", 0, || Ok(k.pk.to_box()?.into_string())))?;
                if !save(&format!("{n}.pub"), t.as_bytes()) {
                    return unclear("file not written");
                }
                let t = setup("box", call("SecretKey::to_box", 0, || Ok(k.sk.to_box(c.as_deref())?.into_string())))?;
                if !save(&format!("{n}.key"), t.as_bytes()) {
                    return unclear("file not written");
                }
                w.faults_off();
                kp = Some(k);
            }
            let kp = kp.unwrap();
            let (pt, st) = (text_of(w, &format!("{n}.pub"))?, text_of(w, &format!("{n}.key"))?);
            let (sc, r) = match peer_sk(&st, pw.as_deref(), w.kdf_real) {
                Ok(x) => x,
                Err(e) => return refuse(if pw.is_some() { "a protected secret key made here" } else { "an unprotected secret key made here" }, e),
            };
            if let Some(c) = &c {
                ensure!(sc == *c, "peer-reads-differently", "comment {:?} of a secret key is read as {:?}", short(c), short(&sc));
            }
            let (pc, keynum, pk) = match peer_pk(&pt) {
                Ok(x) => x,
                Err(e) => return refuse("a public key made here", e),
            };
            ensure!(keynum == r.keynum && pk == r.pk, "peer-reads-differently", "the stored public key is not the one of the stored secret key");
            let id = u64::from_le_bytes(keynum);
            ensure!(pc.contains(&format!("{id:X}")), "peer-reads-differently", "the public key is labelled {:?}, peers call it {id:016X}", short(&pc));
            ensure!(kp.pk.keynum() == &keynum[..], "peer-reads-differently", "key identifier of a generated key");
            if pw.is_none() {
                ensure!(kp.sk.to_bytes() == r.sk_plain(), "peer-reads-differently", "bytes of an unprotected secret key differ from a peer's for the same key");
            }
            w.probe("peer read a key made here");
            s.members.push(Member { seed: r.seed, keynum: r.keynum, pw, n, lib: true });
        }
        // a peer changes the password and limits of a key
        2 => {
            let i = draw(s.members.len() as u64) as usize;
            let m = &mut s.members[i];
            let r = RefKey::new(m.seed, m.keynum);
            let t = norm(&text_of(w, &format!("{}.key", m.n))?);
            if let Err(e) = peer_sk(&t, m.pw.as_deref(), w.kdf_real) {
                return refuse("a stored secret key", e);
            }
            m.pw = (draw(4) != 3).then(gen::password);
            let (ops, mem) = if w.kdf_real { (1_048_576, 33_554_432) } else { limits_of_a_peer() };
            let b = match &m.pw {
                Some(p) => r.sk_sealed(p.as_bytes(), &gen::bytes32(draw(1 << 32)), ops, mem, w.kdf_real),
                None => r.sk_plain(),
            };
            let t = stored_by_peer(w, &RefKey::sk_box(&b, "minisign encrypted secret key"));
            w.put_file(&format!("{}.key", m.n), &t);
            w.probe("key sealed again by a peer");
        }
        // a peer signs
        3 => {
            let m = s.members[draw(s.members.len() as u64) as usize].clone();
            let t = norm(&text_of(w, &format!("{}.key", m.n))?);
            let r = match peer_sk(&t, m.pw.as_deref(), w.kdf_real) {
                Ok((_, r)) => r,
                Err(e) => return refuse("a stored secret key", e),
            };
            let data = gen::data(3000);
            let legacy = draw(3) == 2;
            let (tc, uc) = (plain_comment(8000), plain_comment(900));
            let tc = if draw(3) == 2 { format!("timestamp:{}\tfile:x\thashed", w.real_s) } else { tc };
            let t = stored_by_peer(w, &r.sign(&data, legacy, &tc, &uc));
            w.put_file(&format!("{n}.minisig"), &t);
            s.posted.push(Posted { who: m.n, data, tc, uc, legacy, n, lib: false });
        }
        // this library signs with any key of the deployment
        4 | 5 => {
            let m = s.members[draw(s.members.len() as u64) as usize].clone();
            w.swarm(IO);
            let sk = lib_sk(w, &m)?;
            let pk = if coin() { Some(lib_pk(w, &m)?) } else { None };
            let data = gen::data(3000);
            let tc = (draw(4) != 3).then(|| plain_comment(8000));
            let uc = coin().then(|| plain_comment(900));
            let sb = used("signing", sign(&sk, pk.as_ref(), &mut Src::new(data.clone()).chunked(), tc.as_deref(), uc.as_deref()))?;
            let t = used("storing a signature", sig_text(&sb))?;
            if !save(&format!("{n}.minisig"), t.as_bytes()) {
                return unclear("file not written");
            }
            w.faults_off();
            let t = text_of(w, &format!("{n}.minisig"))?;
            let r = RefKey::new(m.seed, m.keynum);
            let f = match peer_verify(&t, &r, &data, false) {
                Ok(f) => f,
                Err(e) => return refuse(&format!("a signature made here with a key of {}", if m.lib { "its own" } else { "the peer" }), e),
            };
            if let Some(c) = &tc {
                ensure!(f.tc == *c, "peer-reads-differently", "trusted comment {:?} is read as {:?}", short(c), short(&f.tc));
            }
            if let Some(c) = &uc {
                ensure!(f.uc == *c, "peer-reads-differently", "untrusted comment {:?} is read as {:?}", short(c), short(&f.uc));
            }
            let b: SignatureBones = sb.clone().into();
            ensure!(b.to_bytes() == f.bones(), "peer-reads-differently", "comment-less form differs from the stored signature");
            w.probe("peer verified a signature made here");
            s.posted.push(Posted { who: m.n, data, tc: f.tc, uc: f.uc, legacy: false, n, lib: true });
        }
        // this library verifies what anyone posted
        6 | 7 => {
            if s.posted.is_empty() {
                return Ok(());
            }
            let p = s.posted[draw(s.posted.len() as u64) as usize].clone();
            let Some(m) = s.members.iter().find(|m| m.n == p.who).cloned() else { return unclear("member gone") };
            let name = format!("{}.minisig", p.n);
            w.swarm(IO);
            let pk = lib_pk(w, &m)?;
            let t = text_of(w, &name)?;
            let o = if coin() { call("SignatureBox::from_file", 0, || shim::sig_from_file(Path::new(&name))) } else { parse_sig(&t) };
            let sb = used("loading a signature of the deployment", o)?;
            let tc = used("trusted_comment", call("trusted_comment", 0, || sb.trusted_comment()))?;
            let uc = used("untrusted_comment", call("untrusted_comment", 0, || sb.untrusted_comment()))?;
            ensure!(tc == p.tc && uc == p.uc, "read-differently", "comments {:?} / {:?} are read as {:?} / {:?}", short(&p.tc), short(&p.uc), short(&tc), short(&uc));
            ensure!(sb.is_prehashed() == !p.legacy, "read-differently", "kind of signature");
            ensure!(sb.keynum() == &m.keynum[..], "read-differently", "key identifier of a signature");
            let v = verify(&pk, &sb, &mut Src::new(p.data.clone()).chunked(), coin(), false, p.legacy || coin());
            used(&format!("verifying a {} signature made {}", if p.legacy { "legacy" } else { "prehashed" }, if p.lib { "here" } else { "by the peer" }), v)?;
            let again = used("storing a signature", sig_text(&sb))?;
            let t = norm(&t);
            ensure!(again == t, "read-differently", "a signature stored again gives another text");
            // without comments, as some peers transmit it
            let Some(f) = oracle::sig_fields(&t) else { return unclear("reference cannot read its own signature") };
            let sb = used("loading a comment-less signature", parse_bones(&f.bones()))?;
            let v = verify(&pk, &sb, &mut Src::new(p.data.clone()), true, false, p.legacy);
            used("verifying a comment-less signature", v)?;
            w.faults_off();
            w.probe("verified a signature of the deployment");
        }
        // this library stores a key of the deployment again
        8 => {
            let m = s.members[draw(s.members.len() as u64) as usize].clone();
            let t = norm(&text_of(w, &format!("{}.key", m.n))?);
            let Some(b) = box_bytes(&t) else { return unclear("no key in a stored file") };
            let c = coin().then(|| plain_comment(900));
            w.swarm(IO);
            let sk = if m.pw.is_none() && coin() {
                lib_sk(w, &m)?
            } else {
                used("loading the bytes of a secret key", call("SecretKey::from_bytes", 158, || SecretKey::from_bytes(&b)))?
            };
            let t = used("storing a secret key again", call("SecretKey::to_box", 0, || Ok(sk.to_box(c.as_deref())?.into_string())))?;
            if !save(&format!("{}.key", m.n), t.as_bytes()) {
                return unclear("file not written");
            }
            w.faults_off();
            let t = text_of(w, &format!("{}.key", m.n))?;
            ensure!(box_bytes(&t).as_ref() == Some(&b), "read-differently", "a secret key stored again is not the same");
            let r = match peer_sk(&t, m.pw.as_deref(), w.kdf_real) {
                Ok((_, r)) => r,
                Err(e) => return refuse("a secret key stored again here", e),
            };
            ensure!(r.seed == m.seed && r.keynum == m.keynum, "peer-reads-differently", "a secret key stored again here");
            w.probe("key stored again");
        }
        // public keys are made again from secret ones
        _ => {
            let m = s.members[draw(s.members.len() as u64) as usize].clone();
            w.swarm(IO);
            let sk = lib_sk(w, &m)?;
            let pk = used("PublicKey::from_secret_key", call("PublicKey::from_secret_key", 0, || PublicKey::from_secret_key(&sk)))?;
            let t = used("PublicKey::to_box", call("PublicKey::to_box", 0, || Ok(pk.to_box()?.into_string())))?;
            if !save(&format!("{}.pub", m.n), t.as_bytes()) {
                return unclear("file not written");
            }
            w.faults_off();
            let t = text_of(w, &format!("{}.pub", m.n))?;
            match peer_pk(&t) {
                Ok((_, k, p)) => {
                    let r = RefKey::new(m.seed, m.keynum);
                    ensure!(k == m.keynum && p == r.pk, "peer-reads-differently", "a regenerated public key is not the original one")
                }
                Err(e) => return refuse("a regenerated public key", e),
            }
            let b = setup("base64", call_plain("PublicKey::to_base64", || pk.to_base64()))?;
            if let Err(e) = field(b.trim_end_matches('\n'), 42) {
                return refuse("a base64 public key", e);
            }
        }
    }
    w.faults_off();
    Ok(())
}

// ------------------------------------------------------------------ C20
pub fn c20(world: &mut Wd) -> Res {
    if draw(400) == 399 {
        world.kdf_real = true;
    }
    world.ent_seed = draw(1 << 40);
    let mut site = Site { members: vec![], posted: vec![], next: 0 };
    let lives = 1 + draw(3);
    for _ in 0..lives {
        let old = site.clone();
        let r = run_life(world, true, |w| {
            let mut s = old;
            let n = 2 + draw(5);
            for _ in 0..n {
                step(w, &mut s)?;
            }
            Ok(s)
        })?;
        match r {
            Some(s) => site = s,
            None => return unclear("crashed"),
        }
        if draw(2) == 1 {
            world.note(F::Restart);
            world.power_loss();
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C21
pub fn c21(world: &mut Wd) -> Res {
    if draw(200) == 199 {
        world.kdf_real = true;
    }
    world.ent_seed = draw(1 << 40);
    // sealed by someone else, with any limits, in an earlier life
    let r = draw_ref();
    let pw = gen::password();
    let mut sealed: Vec<(u64, u64)> = vec![];
    let n = 1 + draw(3);
    for i in 0..n {
        let (ops, mem) = match draw(8) {
            0 => limits_of_a_peer(),
            _ => supported(),
        };
        let b = r.sk_sealed(pw.as_bytes(), &gen::bytes32(draw(1 << 32)), ops, mem, world.kdf_real && oracle_affordable(ops, mem));
        world.put_file(&format!("{i}.key"), RefKey::sk_box(&b, "c").as_bytes());
        sealed.push((ops, mem));
    }
    run_life(world, true, |w| {
        let real = w.kdf_real;
        for (i, (ops, mem)) in sealed.iter().enumerate() {
            w.kdf_real = real && oracle_affordable(*ops, *mem);
            w.swarm(&[F::FsShortRead, F::FsReadInterrupted, F::FsStatLies, F::OutShortWrite]);
            let name = format!("{i}.key");
            let t = w.files.get(&name).map(|f| String::from_utf8_lossy(&f.data).into_owned()).unwrap_or_default();
            let calls = w.kdf_calls;
            w.kdf_last.clear();
            let o = match draw(4) {
                0 | 1 => open_sk(&t, Some(&pw)),
                2 => call("SecretKey::from_file", 0, || shim::sk_from_file(Path::new(&name), Some(pw.clone()))),
                _ => {
                    w.tty_present = true;
                    w.tty_in = format!("{pw}\n").into_bytes();
                    w.tty_pos = 0;
                    open_sk(&t, None)
                }
            };
            w.faults_off();
            let (n, rr, p) = oracle::kdf_params(*ops, *mem);
            // a password that is refused costs no more
            if draw(3) == 2 {
                let (calls, last) = (w.kdf_calls, w.kdf_last.clone());
                let wrong = gen::other_password(&pw);
                let x = open_sk(&t, Some(&wrong));
                ensure!(!is(&x), "other-key", "a key opened with another password");
                ensure!(w.kdf_calls <= calls + 1, "other-cost", "{} key derivations to refuse a password", w.kdf_calls - calls);
                ensure!(w.kdf_calls == calls || w.kdf_last == [n as u64, rr as u64, p as u64], "other-cost", "limits ops {ops}, mem {mem}: a wrong password was derived with {:?}, expected {:?}", w.kdf_last, (n, rr, p));
                w.kdf_calls = calls;
                w.kdf_last = last;
            }
            let what = format!("limits ops {ops}, mem {mem}");
            match &o {
                Err(e) => return bad("supported-limits-refused", format!("a key sealed with {what} was refused its password: {} (derivation with {:?}, expected {:?})", e.text(), w.kdf_last, (n, rr, p))),
                Ok(k) => {
                    let f = oracle::sk_fields(&k.to_bytes());
                    ensure!(f.is_some_and(|f| f.sk == r.sk64() && f.keynum == r.keynum), "other-key", "a key sealed with {what} opened to another key");
                }
            }
            ensure!(w.kdf_calls == calls + 1, "other-cost", "{} key derivations to open a key", w.kdf_calls - calls);
            ensure!(w.kdf_last == [n as u64, rr as u64, p as u64], "other-cost", "{what}: derivation with {:?}, expected {:?}", w.kdf_last, (n, rr, p));
        }
        w.kdf_real = real;
        // sealed here
        if coin() {
            let interactive = draw(3) == 2;
            w.kdf_last.clear();
            w.tty_present = true;
            w.tty_in = format!("{pw}\n{pw}\n").into_bytes();
            w.tty_pos = 0;
            let given = (!interactive).then(|| pw.clone());
            let kp = match draw(2) {
                0 => call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(given)),
                _ => {
                    let (mut a, mut b) = (Dst::new("pk"), Dst::new("sk"));
                    call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut a, &mut b, None, given))
                }
            };
            let kp = setup("generate", kp)?;
            let Some(f) = oracle::sk_fields(&kp.sk.to_bytes()) else { return bad("limits-not-recorded", "malformed secret key") };
            let (n, rr, p) = oracle::kdf_params(f.ops, f.mem);
            ensure!(w.kdf_last == [n as u64, rr as u64, p as u64], "limits-not-recorded", "a key sealed with cost {:?} records limits ops {}, mem {} (cost {:?})", w.kdf_last, f.ops, f.mem, (n, rr, p));
            ensure!(oracle::unseal(&f, pw.as_bytes(), w.kdf_real).is_some(), "limits-not-recorded", "a key sealed here does not open under its recorded limits");
            // at least libsodium's interactive preset: N = 2^14, r = 8, p = 1
            let cost = (1u64 << w.kdf_last[0]) * w.kdf_last[1] * w.kdf_last[2];
            let mem = (1u64 << w.kdf_last[0]) * w.kdf_last[1] * 128;
            ensure!(cost >= 1 << 17 && mem >= 16 << 20, "weak-protection", "a key was sealed at cost {:?}, below libsodium's interactive preset", w.kdf_last);
        }
        Ok(())
    })
    .map(|_| ())
}
fn oracle_affordable(ops: u64, mem: u64) -> bool {
    let (n, r, p) = oracle::kdf_params(ops, mem);
    (r as u64 * p as u64) << n <= 1 << 20 && p <= 1024 && n <= 15
}
