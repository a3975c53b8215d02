//! C04, C06, C07, C08, C13, C14: stored keys.
use super::*;
use std::os::unix::ffi::OsStrExt;
use crate::node::{drain_stdout, schedule_crash};
use std::io::Write;

/// Where a library-made key pair came from and what it is.
struct Pair {
    pk: PublicKey,
    sk: SecretKey,
    r: RefKey,
    /// None: unprotected
    pw: Option<String>,
}
/// Generate a pair through the library and understand it independently.
fn generate(w: &mut Wd, protect: Option<&str>, class: &str) -> Res<Pair> {
    let kp = match protect {
        Some(p) => call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(Some(p.to_string()))),
        None => call("generate_unencrypted_keypair", 0, KeyPair::generate_unencrypted_keypair),
    };
    let kp = setup("generate", kp)?;
    understand(w, kp, protect, class)
}
fn understand(w: &mut Wd, kp: KeyPair, protect: Option<&str>, class: &str) -> Res<Pair> {
    let r = match protect {
        None => ref_of_plain(&kp.sk),
        Some(p) => {
            let b = setup("to_bytes", call_plain("SecretKey::to_bytes", || kp.sk.to_bytes()))?;
            oracle::sk_fields(&b).and_then(|f| oracle::unseal(&f, p.as_bytes(), w.kdf_real))
        }
    };
    let Some(r) = r else {
        return bad(class, format!("the generated {} secret key is not one the reference can {}", if protect.is_some() { "protected" } else { "unprotected" }, if protect.is_some() { "open with the password" } else { "read" }));
    };
    if kp.pk.to_bytes() != r.pk_bytes() {
        return bad(class, "generated public and secret key do not belong together");
    }
    Ok(Pair { pk: kp.pk, sk: kp.sk, r, pw: protect.map(|x| x.to_string()) })
}
fn maybe_real_kdf(w: &mut Wd) {
    if draw(400) == 399 {
        w.kdf_real = true;
    }
}
/// A protected box written by an earlier release or another implementation.
fn foreign_box(r: &RefKey, pw: &str, w: &Wd, comment: &str) -> String {
    let salt = gen::bytes32(draw(1 << 32));
    let (ops, mem) = match draw(6) {
        0 => (1_048_576, 33_554_432),
        1 => (32_768, 16_777_216),
        2 => (33_554_432, 1_073_741_824),
        3 => (524_288, 16_777_216),
        4 => (65_536, 1 << 20),
        _ => (4_194_304, 33_554_432),
    };
    let (ops, mem) = if w.kdf_real { (1_048_576, 33_554_432) } else { (ops, mem) };
    RefKey::sk_box(&r.sk_sealed(pw.as_bytes(), &salt, ops, mem, w.kdf_real), comment)
}
fn any_comment() -> String {
    match draw(6) {
        5 => {
            let c = gen::comment();
            let c2 = gen::comment();
            format!("{c}{}{c2}", pick(&["\n", "\r\n", "\r", "\n\n", "\ntrusted comment: "]))
        }
        4 => pick(&[" ", "", "  two  ", "\t", "x ", " x", "x\t", "\u{a0}", "a\r", "\u{2003}y\u{2003}"]).to_string(),
        _ => gen::comment(),
    }
}

// ------------------------------------------------------------------ C04
binstruct! {
/// A stored item, with what it must be when it comes back.
#[derive(Clone)]
pub struct Stored {
    pub kind: u8,
    pub form: u8,
    pub text: Vec<u8>,
    pub seed: [u8; 32],
    pub keynum: [u8; 8],
    pub pw: Option<String>,
    pub data: Vec<u8>,
    pub tc: String,
    pub uc: String,
    pub legacy: bool,
    pub raw: Vec<u8>,
}
}
fn item(kind: u8, form: u8, text: Vec<u8>, r: &RefKey) -> Stored {
    Stored {
        kind,
        form,
        text,
        seed: r.seed,
        keynum: r.keynum,
        pw: None,
        data: vec![],
        tc: String::new(),
        uc: String::new(),
        legacy: false,
        raw: vec![],
    }
}
const PK: u8 = 0;
const SK_PLAIN: u8 = 1;
const SK_SEALED: u8 = 2;
const SIG: u8 = 3;
const SK_REBOX: u8 = 4;

fn store_some(w: &mut Wd, st: &mut Vec<Stored>) -> Res {
    let pw = draw(2) == 1;
    let password = if pw { Some(if draw(8) == 7 { String::new() } else { gen::password() }) } else { None };
    let p = generate(w, password.as_deref(), "generated-key-unusable")?;
    let s = |what: &str, o: Out<String>| -> Res<Vec<u8>> {
        match o {
            Ok(x) => Ok(x.into_bytes()),
            Err(e) => bad("cannot-be-stored", format!("{what}: {}", e.text())),
        }
    };
    // public key forms
    let form = draw(4) as u8;
    let t = match form {
        0 | 3 => s("public key box", call("PublicKey::to_box", 0, || Ok(p.pk.to_box()?.into_string())))?,
        1 => s("public key base64", call_plain("PublicKey::to_base64", || p.pk.to_base64()))?,
        _ => setup("bytes", call_plain("PublicKey::to_bytes", || p.pk.to_bytes()))?,
    };
    st.push(item(PK, form, t, &p.r));
    // secret key forms
    let comment = if coin() { Some(any_comment()) } else { None };
    let form = draw(3) as u8;
    let kind = if pw { SK_SEALED } else { SK_PLAIN };
    let mut open = None;
    if form == 1 {
        let b = setup("bytes", call_plain("SecretKey::to_bytes", || p.sk.to_bytes()))?;
        let mut i = item(kind, 1, b.clone(), &p.r);
        i.pw = p.pw.clone();
        i.raw = b;
        st.push(i);
    } else {
        match call("SecretKey::to_box", 0, || Ok(p.sk.to_box(comment.as_deref())?.into_string())) {
            Ok(t) => {
                let mut i = item(kind, form, t.into_bytes(), &p.r);
                i.pw = p.pw.clone();
                i.uc = comment.clone().unwrap_or_default();
                i.raw = p.sk.to_bytes();
                st.push(i);
            }
            Err(e) if comment.as_deref().is_some_and(|c| c.contains('\n') || c.contains('\r')) => {
                w.probe("comment with line break refused");
                let _ = e;
            }
            Err(e) => return bad("cannot-be-stored", format!("secret key box with comment {:?}: {}", comment.map(short), e.text())),
        }
    }
    // the usable secret key
    let sk = match &p.pw {
        None => p.sk.clone(),
        Some(pw) => {
            let b = match call("SecretKey::to_box", 0, || Ok(p.sk.to_box(None)?.into_string())) {
                Ok(b) => b,
                Err(e) => return bad("cannot-be-stored", format!("protected secret key box: {}", e.text())),
            };
            match open_sk(&b, Some(pw)) {
                Ok(k) => {
                    open = Some(k.clone());
                    k
                }
                Err(e) => return bad("reload-fails", format!("a protected key just generated does not open with its password ({} bytes): {}", pw.len(), e.text())),
            }
        }
    };
    // an opened protected key, put into a box again
    if let Some(k) = &open {
        if draw(3) == 2 {
            if let Ok(t) = call("SecretKey::to_box (opened key)", 0, || Ok(k.to_box(None)?.into_string())) {
                let mut i = item(SK_REBOX, 0, t.into_bytes(), &p.r);
                i.pw = p.pw.clone();
                st.push(i);
            }
        }
        if draw(3) == 2 {
            let b = k.to_bytes();
            let mut i = item(SK_PLAIN, 1, b.clone(), &p.r);
            i.raw = b;
            st.push(i);
        }
    }
    // signatures
    for _ in 0..draw(3) {
        let d = gen::data(2000);
        let tc = if coin() { any_comment() } else { gen::comment() };
        let uc = if coin() { Some(any_comment()) } else { None };
        let dfl = draw(4) == 3;
        let r = sign(&sk, coin().then_some(&p.pk), &mut Src::new(d.clone()), if dfl { None } else { Some(&tc) }, uc.as_deref());
        let sb = match r {
            Ok(s) => s,
            Err(_) if tc.contains(['\n', '\r']) || uc.as_deref().is_some_and(|c| c.contains(['\n', '\r'])) => {
                w.probe("comment with line break refused");
                continue;
            }
            Err(e) => return bad("cannot-be-stored", format!("signing with comments {:?} / {:?}: {}", short(&tc), uc.map(short), e.text())),
        };
        let form = draw(4) as u8;
        let t = match form {
            0 | 3 => s("signature", sig_text(&sb))?,
            1 => setup("bytes", call_plain("SignatureBox::to_bytes", || sb.to_bytes()))?,
            _ => {
                let b: SignatureBones = sb.clone().into();
                b.to_bytes()
            }
        };
        let mut i = item(SIG, form, t, &p.r);
        i.tc = match call("trusted_comment", 0, || sb.trusted_comment()) {
            Ok(t) => t,
            Err(e) => return bad("cannot-be-stored", format!("trusted comment of a fresh signature: {}", e.text())),
        };
        i.uc = setup("untrusted comment", call("untrusted_comment", 0, || sb.untrusted_comment()))?;
        if !dfl && i.tc != tc {
            return bad("comment-changed", format!("given {:?}, kept {:?}", short(&tc), short(&i.tc)));
        }
        i.data = d;
        st.push(i);
    }
    // artefacts of earlier releases
    if draw(3) == 2 {
        let r = draw_ref();
        let pw = gen::password();
        let c = gen::comment();
        let t = foreign_box(&r, &pw, w, &c);
        if coin() {
            // the bytes in the box
            let b = box_bytes(&t).unwrap();
            let mut i = item(SK_SEALED, 1, b.clone(), &r);
            i.raw = b;
            i.pw = Some(pw.clone());
            st.push(i);
        }
        let mut i = item(SK_SEALED, 0, t.into_bytes(), &r);
        i.pw = Some(pw);
        st.push(i);
        let d = gen::data(500);
        let legacy = coin();
        let (tc, uc) = (gen::comment(), gen::comment());
        let mut i = item(SIG, 0, r.sign(&d, legacy, &tc, &uc).into_bytes(), &r);
        i.tc = tc;
        i.uc = uc;
        i.data = d;
        i.legacy = legacy;
        st.push(i);
        st.push(item(PK, 0, r.pk_box().into_bytes(), &r));
    }
    Ok(())
}

fn reload(w: &mut Wd, it: &Stored, text: &[u8]) -> Res {
    let r = RefKey::new(it.seed, it.keynum);
    let file = draw(3) == 2;
    let as_str = || String::from_utf8(text.to_vec());
    match it.kind {
        PK => {
            let pk = match it.form {
                2 => call("PublicKey::from_bytes", 42, || PublicKey::from_bytes(text)),
                1 => {
                    let s = as_str().unwrap();
                    call("PublicKey::from_base64", 60, || PublicKey::from_base64(&s))
                }
                _ if file => {
                    w.put_file("k.pub", text);
                    call("PublicKey::from_file", 0, || shim::pk_from_file(Path::new("k.pub")))
                }
                _ => parse_pk(&as_str().unwrap()),
            };
            match pk {
                Err(e) => bad("reload-fails", format!("stored public key (form {}): {}", it.form, e.text())),
                Ok(pk) => {
                    ensure!(pk.to_bytes() == r.pk_bytes(), "reload-differs", "public key form {}: {} became {}", it.form, oracle::hex(&r.pk_bytes()), oracle::hex(&pk.to_bytes()));
                    ensure!(pk.keynum() == &r.keynum[..], "reload-differs", "public key identifier differs");
                    ensure!(pk == PublicKey::from_bytes(&r.pk_bytes()).unwrap(), "reload-differs", "reloaded public key is not == the stored one");
                    // it accepts the pair's signatures
                    let t = r.sign(b"check", false, "c", "u");
                    let sb = setup("parse", parse_sig(&t))?;
                    let v = verify(&pk, &sb, &mut Src::new(b"check".to_vec()), true, false, false);
                    ensure!(is(&v), "reload-unusable", "reloaded public key refuses its pair's signature: {}", show(&v));
                    Ok(())
                }
            }
        }
        SK_PLAIN | SK_SEALED | SK_REBOX => {
            let sk = if it.form == 1 && it.kind != SK_REBOX {
                match call("SecretKey::from_bytes", 158, || SecretKey::from_bytes(text)) {
                    Err(e) => return bad("reload-fails", format!("secret key bytes: {}", e.text())),
                    Ok(k) => {
                        ensure!(k.to_bytes() == it.raw, "reload-differs", "secret key bytes changed in a reload");
                        if it.kind == SK_PLAIN {
                            Ok(k)
                        } else {
                            let b = match call("SecretKey::to_box", 0, || Ok(k.to_box(None)?.into_string())) {
                                Ok(b) => b,
                                Err(e) => return bad("reload-fails", format!("boxing a reloaded protected key: {}", e.text())),
                            };
                            open_sk(&b, it.pw.as_deref())
                        }
                    }
                }
            } else {
                let s = as_str().unwrap();
                match &it.pw {
                    None => open_plain(&s),
                    Some(p) if file => {
                        w.put_file("k.key", text);
                        call("SecretKey::from_file", 0, || shim::sk_from_file(Path::new("k.key"), Some(p.clone())))
                    }
                    Some(p) => open_sk(&s, Some(p)),
                }
            };
            let what = match it.kind {
                SK_PLAIN => "unprotected secret key",
                SK_SEALED => "protected secret key",
                _ => "opened protected key put into a box again",
            };
            match sk {
                Err(e) => bad("reload-fails", format!("{what} (form {}, comment {:?}, password of {:?} bytes): {}", it.form, short(&it.uc), it.pw.as_ref().map(|p| p.len()), e.text())),
                Ok(k) => {
                    let f = oracle::sk_fields(&k.to_bytes());
                    let same = f.as_ref().is_some_and(|f| f.keynum == r.keynum && f.sk == r.sk64());
                    ensure!(same, "reload-differs", "{what} came back with other key material or identifier");
                    ensure!(k.keynum() == &r.keynum[..], "reload-differs", "{what}: key identifier differs");
                    let d = b"after reload".to_vec();
                    let pk = call("PublicKey::from_secret_key", 0, || PublicKey::from_secret_key(&k));
                    let pk = match pk {
                        Ok(p) => p,
                        Err(e) => return bad("reload-unusable", format!("public key of a reloaded secret key: {}", e.text())),
                    };
                    ensure!(pk.to_bytes() == r.pk_bytes(), "reload-differs", "public key regenerated from the reloaded secret key differs");
                    match sign(&k, Some(&pk), &mut Src::new(d.clone()), Some("c"), None) {
                        Err(e) => bad("reload-unusable", format!("{what} cannot sign: {}", e.text())),
                        Ok(sb) => {
                            let f = fields_of(&sb, "reload-unusable")?;
                            if let Err(e) = f.check(&r, &d) {
                                return bad("reload-unusable", format!("{what}: {e}"));
                            }
                            Ok(())
                        }
                    }
                }
            }
        }
        _ => {
            let sb = match it.form {
                2 => parse_bones(text),
                _ if file => {
                    w.put_file("d.minisig", text);
                    call("SignatureBox::from_file", 0, || shim::sig_from_file(Path::new("d.minisig")))
                }
                _ => parse_sig(&as_str().unwrap()),
            };
            let sb = match sb {
                Ok(s) => s,
                Err(e) => return bad("reload-fails", format!("signature with comments {:?} / {:?}: {}", short(&it.tc), short(&it.uc), e.text())),
            };
            let pk = setup("public key", call("PublicKey::from_bytes", 42, || PublicKey::from_bytes(&r.pk_bytes())))?;
            ensure!(sb.keynum() == &r.keynum[..], "reload-differs", "signature key identifier differs");
            ensure!(sb.is_prehashed() == !it.legacy, "reload-differs", "is_prehashed changed");
            if it.form != 2 {
                let tc = call("trusted_comment", 0, || sb.trusted_comment());
                let uc = call("untrusted_comment", 0, || sb.untrusted_comment());
                ensure!(tc.as_deref() == Ok(&it.tc), "reload-differs", "trusted comment {:?} became {:?}", short(&it.tc), short(&tc));
                ensure!(uc.as_deref() == Ok(&it.uc), "reload-differs", "untrusted comment {:?} became {:?}", short(&it.uc), short(&uc));
                let again = sig_text(&sb);
                ensure!(again.as_ref().map(|s| s.as_bytes()) == Ok(text), "reload-differs", "storing a reloaded signature gives another text: {:?}", short(&again));
            } else {
                let b: SignatureBones = sb.clone().into();
                ensure!(b.to_bytes() == text, "reload-differs", "comment-less signature changed");
            }
            let v = verify(&pk, &sb, &mut Src::new(it.data.clone()), true, false, it.legacy);
            ensure!(is(&v), "reload-unusable", "a stored signature (comments {:?} / {:?}, form {}) no longer verifies: {}", short(&it.tc), short(&it.uc), it.form, show(&v));
            Ok(())
        }
    }
}
pub fn c04(world: &mut Wd) -> Res {
    maybe_real_kdf(world);
    let mut st: Vec<Stored> = vec![];
    let lives = 1 + draw(2);
    for life in 0..lives {
        let old = std::mem::take(&mut st);
        let r = run_life(world, true, |w| {
            let mut st = old;
            let n = 1 + draw(2);
            for _ in 0..n {
                let was = st.len();
                store_some(w, &mut st)?;
                for (i, it) in st[was..].iter().enumerate() {
                    w.put_file(&format!("item{}", was + i), &it.text);
                }
                // reload in the same process
                let pick1 = draw(st.len() as u64) as usize;
                let text = st[pick1].text.clone();
                reload(w, &st[pick1].clone(), &text)?;
            }
            Ok(st)
        })?;
        match r {
            Some(s) => st = s,
            None => return unclear("crashed"),
        }
        // power loss between lifetimes: completely stored items are durable
        if draw(2) == 1 {
            world.power_loss();
        }
        if life + 1 == lives {
            let all = st.clone();
            run_life(world, true, |w| {
                for (i, it) in all.iter().enumerate() {
                    let text = w.files.get(&format!("item{i}")).map(|f| f.data.clone());
                    let Some(text) = text else { return unclear("simulated disk lost a durable file") };
                    reload(w, it, &text)?;
                }
                Ok(())
            })?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ C06
enum Target {
    Plain,
    Buffered(usize),
    Line,
}
fn target() -> Target {
    match draw(4) {
        0 | 1 => Target::Plain,
        2 => Target::Buffered(pick(&[1usize, 8, 64, 100, 212, 8192])),
        _ => Target::Line,
    }
}
pub fn c06(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let rounds = 1 + draw(2);
        for round in 0..rounds {
            let protect = draw(3) != 0;
            let pw = gen::password();
            let comment = if coin() { Some(gen::comment()) } else { None };
            let mut kinds = vec![
                F::DstInterrupted, F::DstShortWrite, F::DstError, F::DstWriteZero, F::DstFlushError, F::DstBuffered,
                F::FsWriteInterrupted, F::FsShortWrite, F::FsWriteError,
            ];
            if draw(4) == 3 {
                kinds.push(F::RngShort);
                kinds.push(F::RngInterrupted);
            }
            w.swarm(&kinds);
            let files = draw(4) == 3;
            w.fs_hard = 0;
            let (got_pk, got_sk, hard, flushed, r);
            if files {
                let n = format!("{round}");
                let open = |p: String| {
                    crate::cov::ACTIVE.set(true);
                    let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open(p);
                    crate::cov::ACTIVE.set(false);
                    f
                };
                let b = w.faults_off();
                let (fp, fs) = match (open(format!("pk{n}")), open(format!("sk{n}"))) {
                    (Ok(a), Ok(b)) => (a, b),
                    _ => return unclear("simulated files"),
                };
                w.budget = b;
                r = if protect {
                    call("generate_and_write_encrypted_keypair(files)", 0, || shim::gen_write_encrypted_files(fp, fs, comment.as_deref(), Some(pw.clone())))
                } else {
                    call("generate_and_write_unencrypted_keypair(files)", 0, || shim::gen_write_unencrypted_files(fp, fs))
                };
                let get = |k: String| w.files.get(&k).map(|f| f.data.clone()).unwrap_or_default();
                got_pk = get(format!("pk{n}"));
                got_sk = get(format!("sk{n}"));
                hard = w.fs_hard;
                flushed = true;
            } else {
                let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
                if draw(6) == 5 {
                    w.note(F::DstError);
                    let c = draw(420);
                    if coin() {
                        a.capacity = c % 130
                    } else {
                        b.capacity = c
                    }
                }
                let (ta, tb) = (target(), target());
                {
                    let wrap = |d: &mut Dst, t: Target| -> Box<dyn Write> {
                        // the wrapper must not flush on drop: it is leaked below
                        let d: &'static mut Dst = unsafe { &mut *(d as *mut Dst) };
                        match t {
                            Target::Plain => Box::new(d),
                            Target::Buffered(n) => Box::new(std::io::BufWriter::with_capacity(n, d)),
                            Target::Line => Box::new(std::io::LineWriter::new(d)),
                        }
                    };
                    let mut wa = std::mem::ManuallyDrop::new(wrap(&mut a, ta));
                    let mut wb = std::mem::ManuallyDrop::new(wrap(&mut b, tb));
                    r = if protect {
                        call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut **wa, &mut **wb, comment.as_deref(), Some(pw.clone())))
                    } else {
                        call("generate_and_write_unencrypted_keypair", 0, || shim::gen_write_unencrypted(&mut **wa, &mut **wb))
                    };
                }
                hard = a.hard + b.hard;
                flushed = a.synced == a.got.len() && b.synced == b.got.len();
                got_pk = a.got;
                got_sk = b.got;
            }
            w.faults_off();
            let how = format!("{} pair to {}", if protect { "protected" } else { "unprotected" }, if files { "files" } else { "destinations" });
            match r {
                Err(e) => {
                    ensure!(hard > 0, "fails-without-fault", "writing a {how} failed though nothing went wrong for good: {}", e.text());
                    w.probe("failure reported");
                }
                Ok(kp) => {
                    if hard > 0 {
                        w.probe("success in spite of a failure (judged)");
                    }
                    let kpk = kp.pk.to_bytes();
                    let p = understand(w, kp, protect.then_some(&pw), "pair-inconsistent")?;
                    // both destinations hold the complete serialised keys of this pair
                    let (want_pk, want_sk) = if protect {
                        (
                            setup("box", call("PublicKey::to_box", 0, || Ok(p.pk.to_box()?.to_bytes())))?,
                            setup("box", call("SecretKey::to_box", 0, || Ok(p.sk.to_box(comment.as_deref())?.to_bytes())))?,
                        )
                    } else {
                        (kpk, p.sk.to_bytes())
                    };
                    ensure!(got_pk == want_pk, "public-key-incomplete", "success for a {how}, but the public key destination accepted {} bytes ({:?}) of {}", got_pk.len(), crate::world::preview(&got_pk), want_pk.len());
                    ensure!(got_sk == want_sk, "secret-key-incomplete", "success for a {how}, but the secret key destination accepted {} bytes of {}", got_sk.len(), want_sk.len());
                    ensure!(flushed, "not-flushed", "success for a {how}, but bytes were not flushed");
                    // and the reference agrees that these are that pair's keys
                    if protect {
                        let t = String::from_utf8_lossy(&got_sk).into_owned();
                        let k = box_bytes(&t).and_then(|b| oracle::sk_fields(&b)).and_then(|f| oracle::unseal(&f, pw.as_bytes(), w.kdf_real));
                        ensure!(k.as_ref() == Some(&p.r), "secret-key-incomplete", "the written secret key is not the returned pair's");
                        ensure!(got_pk == p.r.pk_box().as_bytes() || box_bytes(&String::from_utf8_lossy(&got_pk)) == Some(p.r.pk_bytes()), "public-key-incomplete", "the written public key is not the returned pair's");
                        if let Some(c) = &comment {
                            ensure!(t.starts_with(&format!("untrusted comment: {c}\n")), "comment-lost", "comment {:?} is not in the secret key file", short(c));
                        }
                    }
                    w.probe("complete pair written");
                }
            }
        }
        Ok(())
    })
    .map(|_| ())
}

// ------------------------------------------------------------------ C07
pub fn c07(world: &mut Wd) -> Res {
    maybe_real_kdf(world);
    let pw = gen::api_password();
    let pw2 = if coin() { gen::other_password(&pw) } else { gen::password() };
    let from_lib = draw(3) != 0;
    // first life: the box is made and stored, perhaps not completely
    let p0 = pw.clone();
    let crash = draw(3) == 2;
    let made = run_life(world, false, |w| {
        let (r, text) = if from_lib {
            let p = generate(w, Some(&p0), "protected-key-unreadable")?;
            let t = setup("box", call("SecretKey::to_box", 0, || Ok(p.sk.to_box(None)?.into_string())))?;
            (p.r, t)
        } else {
            let r = draw_ref();
            let t = foreign_box(&r, &p0, w, "rsign encrypted secret key");
            (r, t)
        };
        // an older version of the same file, or another key's
        let r2 = draw_ref();
        let t2 = foreign_box(&r2, &p0, w, "other");
        Ok((r.seed, r.keynum, text, (r2.seed, r2.keynum, t2)))
    })?;
    let Some((seed, keynum, text, (seed2, keynum2, text2))) = made else { return unclear("crashed") };
    let r = RefKey::new(seed, keynum);
    let r2 = RefKey::new(seed2, keynum2);
    world.sector = pick(&[16usize, 32, 64, 512]);
    if crash {
        // the file is overwritten when the power fails
        if coin() {
            world.put_file("k", text2.as_bytes());
        }
        let bytes = text.clone().into_bytes();
        let at = 1 + draw(8);
        let chunk = 1 + draw(220) as usize;
        let _ = run_life(world, false, |w| {
            schedule_crash(at);
            crate::cov::ACTIVE.set(true);
            let f = std::fs::OpenOptions::new().write(true).create(true).truncate(true).open("k");
            if let Ok(mut f) = f {
                for c in bytes.chunks(chunk) {
                    let _ = f.write_all(c);
                }
                let _ = f.sync_all();
            }
            crate::cov::ACTIVE.set(false);
            let _ = w;
            Ok(())
        })?;
    } else {
        world.put_file("k", text.as_bytes());
    }
    // later life: attempts
    run_life(world, false, |w| {
        let stored = w.files.get("k").map(|f| f.data.clone()).unwrap_or_default();
        let n = 1 + draw(6);
        for _ in 0..n {
            let mut t = stored.clone();
            if draw(2) == 1 {
                for _ in 0..1 + draw(2) {
                    let s = String::from_utf8_lossy(&t).into_owned();
                    t = match draw(4) {
                        0 => {
                            damage_bytes(&mut t, text2.as_bytes());
                            t
                        }
                        1 => damage_lines(&s, &text2).into_bytes(),
                        2 => damage_field(&s, &text2, 1).into_bytes(),
                        _ => targeted(&s, &text2).into_bytes(),
                    };
                }
            }
            let intact = t == text.as_bytes();
            let kind = draw(6);
            let cand: Option<String> = match kind {
                0 | 1 => Some(pw.clone()),
                2 | 3 => Some(gen::other_password(&pw)),
                4 => Some(pw2.clone()),
                _ => None, // as an unprotected key
            };
            let file = draw(4) == 3;
            let s = match String::from_utf8(t.clone()) {
                Ok(s) => s,
                Err(_) if file => String::new(),
                Err(_) => continue,
            };
            let o = match &cand {
                None => open_plain(&s),
                Some(c) if file => {
                    w.put_file("attempt", &t);
                    call("SecretKey::from_file", 0, || shim::sk_from_file(Path::new("attempt"), Some(c.clone())))
                }
                Some(c) => open_sk(&s, Some(c)),
            };
            match o {
                Ok(k) => {
                    let Some(c) = &cand else {
                        // opened as unprotected: tampering that turned the box into one is possible
                        // only by replacing everything, which corruption does not do
                        return bad("opened-as-unprotected", format!("a protected secret key box was opened as an unprotected one: {:?}", short(&s)));
                    };
                    ensure!(*c == pw, "wrong-password-accepted", "a key protected with a password of {} bytes opened with {} ({} bytes)", pw.len(), describe(c, &pw), c.len());
                    let f = oracle::sk_fields(&k.to_bytes());
                    let good = |r: &RefKey| f.as_ref().is_some_and(|f| f.keynum == r.keynum && f.sk == r.sk64());
                    ensure!(good(&r) || good(&r2), "other-key-material", "a damaged box opened, but with other key material than was stored");
                    ensure!(!intact || good(&r), "other-key-material", "the box opened with another key");
                    w.probe(if intact { "opened" } else { "damaged box opened unharmed" });
                }
                Err(e) => {
                    if intact && cand.as_deref() == Some(&pw) {
                        return bad("right-password-refused", format!("an intact box was refused its password ({} bytes): {}", pw.len(), e.text()));
                    }
                }
            }
        }
        // an unprotected key is never opened as a protected one, and not when damaged
        if draw(3) == 2 {
            let k = draw_ref();
            let mut t = RefKey::sk_box(&k.sk_plain(), "c");
            let o = open_sk(&t, Some(pick(&["", &pw])));
            ensure!(!is(&o), "opened-as-protected", "an unprotected secret key was opened as a protected one");
            if coin() {
                t = damage_field(&t, &RefKey::sk_box(&draw_ref().sk_plain(), "c"), 1);
            }
            if let Ok(s) = open_plain(&t) {
                let f = oracle::sk_fields(&s.to_bytes());
                let b = box_bytes(&t).unwrap_or_default();
                // either the stored key, or a box that is itself the complete other key
                let own = f.as_ref().is_some_and(|f| f.keynum == k.keynum && f.sk == k.sk64());
                let whole = b.len() >= 158 && f.as_ref().is_some_and(|f| RefKey::new(f.sk[..32].try_into().unwrap(), f.keynum).chk() == f.chk);
                ensure!(own || whole, "other-key-material", "a damaged unprotected key was accepted with other key material");
            }
        }
        Ok(())
    })
    .map(|_| ())
}
fn describe(c: &str, pw: &str) -> String {
    if c.starts_with(pw) {
        "an extension of it".into()
    } else if pw.starts_with(c) {
        "a prefix of it".into()
    } else if c.eq_ignore_ascii_case(pw) {
        "a case variant of it".into()
    } else if c.trim() == pw.trim() {
        "a whitespace variant of it".into()
    } else {
        "another password".into()
    }
}
/// Byte fields of a secret key box, changed one at a time.
fn targeted(s: &str, other: &str) -> String {
    w().note(F::StoredField);
    let mut l: Vec<String> = s.split('\n').map(|x| x.to_string()).collect();
    if l.len() < 2 {
        return s.into();
    }
    let Some(mut b) = oracle::unb64(&l[1]) else { return s.into() };
    let ob = other.split('\n').nth(1).and_then(oracle::unb64).unwrap_or_default();
    let ranges = [(0, 2), (2, 4), (4, 6), (6, 38), (38, 46), (46, 54), (54, 62), (62, 94), (94, 126), (126, 158)];
    let (a, e) = ranges[draw(10) as usize];
    if b.len() < e || ob.len() < e {
        return s.into();
    }
    match draw(4) {
        0 => {
            let i = a + draw((e - a) as u64) as usize;
            b[i] ^= 1 << draw(8);
        }
        1 => b[a..e].copy_from_slice(&ob[a..e]),
        2 => b[a..e].iter_mut().for_each(|x| *x = 0),
        _ => b[a..e].iter_mut().for_each(|x| *x = !*x),
    }
    l[1] = oracle::b64(&b);
    l.join("\n")
}

// ------------------------------------------------------------------ C08
/// All forms in which a secret could show up.
fn needles(seed: &[u8; 32], pw: &str) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..=24 {
        let s = &seed[i..i + 8];
        v.push((format!("secret key bytes {i}.."), s.to_vec()));
        let h = oracle::hex(s);
        v.push((format!("secret key bytes {i}.. in hex"), h.clone().into_bytes()));
        v.push((format!("secret key bytes {i}.. in hex"), h.to_uppercase().into_bytes()));
        // read as a number
        let n = u64::from_le_bytes(s.try_into().unwrap());
        if n > 1 << 40 {
            v.push((format!("secret key bytes {i}.. as a number"), format!("{n:x}").into_bytes()));
            v.push((format!("secret key bytes {i}.. as a number"), format!("{n:X}").into_bytes()));
            v.push((format!("secret key bytes {i}.. as a number"), n.to_string().into_bytes()));
            v.push((format!("secret key bytes {i}.. as a number"), n.swap_bytes().to_string().into_bytes()));
        }
        let d: Vec<String> = s.iter().map(|b| b.to_string()).collect();
        v.push((format!("secret key bytes {i}.. as numbers"), d.join(", ").into_bytes()));
        // Debug output of this crate drops leading zeros
        let x: String = s.iter().map(|b| format!("{b:x}")).collect();
        if x.len() > 10 {
            v.push((format!("secret key bytes {i}.. in hex"), x.into_bytes()));
        }
    }
    for i in 0..20 {
        // 12 bytes from any position are 16 base64 characters at their alignment
        let s = &seed[i..i + 12];
        v.push((format!("secret key bytes {i}.. in base64"), oracle::b64(s).into_bytes()));
    }
    if pw.len() >= 5 {
        v.push(("the password".into(), pw.as_bytes().to_vec()));
        if pw.len() >= 8 {
            let d: Vec<String> = pw.as_bytes().iter().take(10).map(|b| b.to_string()).collect();
            v.push(("the password as numbers".into(), d.join(", ").into_bytes()));
            v.push(("the password in hex".into(), oracle::hex(pw.as_bytes()).into_bytes()));
            let b = oracle::b64(pw.as_bytes());
            v.push(("the password in base64".into(), b.trim_end_matches('=').as_bytes()[..(pw.len() * 4 / 3).saturating_sub(2)].to_vec()));
            // a part of it
            let k = pw.len().min(12);
            for i in (0..pw.len() - k + 1).step_by(if pw.len() < 200 { 1 } else { 7 }) {
                v.push(("part of the password".into(), pw.as_bytes()[i..i + k].to_vec()));
            }
            v.push(("part of the password".into(), pw.as_bytes()[pw.len() - k..].to_vec()));
        }
    }
    v
}
fn find(hay: &[u8], n: &[u8]) -> bool {
    !n.is_empty() && hay.len() >= n.len() && unsafe { !libc::memmem(hay.as_ptr().cast(), hay.len(), n.as_ptr().cast(), n.len()).is_null() }
}
struct Sinks(Vec<(String, Vec<u8>)>);
impl Sinks {
    fn add(&mut self, name: &str, d: &[u8]) {
        if !d.is_empty() {
            self.0.push((name.into(), d.to_vec()))
        }
    }
    fn err<T>(&mut self, name: &str, o: &Out<T>) {
        if let Err(e) = o {
            self.add(&format!("message of {name}"), e.text().as_bytes())
        }
    }
    fn judge(&self, seed: &[u8; 32], pw: &str) -> Res {
        let ns = needles(seed, pw);
        for (where_, d) in &self.0 {
            for (what, n) in &ns {
                if find(d, n) {
                    let class = if what.starts_with("secret") { "secret-key-leaked" } else { "password-leaked" };
                    return bad(class, format!("{what} in {where_}"));
                }
            }
        }
        Ok(())
    }
}
pub fn c08(world: &mut Wd) -> Res {
    let pw = match draw(8) {
        7 => String::new(),
        k => {
            let mut p = gen::password();
            if k == 6 {
                // more than can be typed
                let n = 1025 + draw(200) as usize;
                let x = gen::prf(draw(1 << 32), n);
                p = x.iter().map(|b| (b'!' + b % 94) as char).collect();
            }
            while p.len() < 8 {
                p.push('q');
            }
            p
        }
    };
    let interactive = draw(4) == 3 && !pw.contains(['\r', '\n']);
    let write = draw(3);
    let comment = if coin() { Some(gen::comment()) } else { None };
    world.ent_seed = draw(1 << 32);
    // a twin of this process, with no faults, tells which key is at stake
    let twin = {
        let mut tw = World::new(false);
        tw.ent_seed = world.ent_seed;
        let p = pw.clone();
        let first = std::mem::replace(&mut **world, tw);
        let r = run_fork(world, false, |w| {
            let p = generate(w, Some(&p), "inconclusive")?;
            Ok((p.r.seed, p.r.keynum))
        });
        **world = first;
        r
    };
    let twin = match twin {
        Ok(Some((s, n))) => Some((s, n)),
        _ => None,
    };
    run_life(world, false, |w| {
        let mut kinds = vec![
            F::DstShortWrite, F::DstError, F::DstFlushError, F::DstWriteZero, F::DstBuffered, F::OutError, F::OutShortWrite,
            F::ErrError, F::RngShort, F::RngDown, F::FsWriteError, F::FsShortWrite,
        ];
        if interactive {
            kinds.extend([F::TtyAttrError, F::TtyEof, F::TtyReadError, F::TtyWriteError, F::TtyInterrupted, F::TtyOpenError]);
        }
        w.swarm(&kinds);
        unsafe { crate::node::ERR_LOOKS = Some(vec![]) };
        let mut sinks = Sinks(vec![]);
        w.tty_present = interactive;
        let typed2 = if draw(4) == 3 { gen::other_password(&pw) } else { pw.clone() };
        w.tty_in = format!("{pw}\n{typed2}\n").into_bytes();
        let given = if interactive { None } else { Some(pw.clone()) };
        let mut kp = None;
        match write {
            0 => {
                let r = call("generate_encrypted_keypair", 0, || KeyPair::generate_encrypted_keypair(given));
                sinks.err("key generation", &r);
                kp = r.ok();
            }
            1 => {
                let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
                let r = call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut a, &mut b, comment.as_deref(), given));
                sinks.err("key writing", &r);
                sinks.add("the public key destination", &a.seen);
                sinks.add("the secret key destination", &b.seen);
                kp = r.ok();
            }
            _ => {
                let open = |p: &str| {
                    crate::cov::ACTIVE.set(true);
                    let f = std::fs::File::create(p);
                    crate::cov::ACTIVE.set(false);
                    f
                };
                if let (Ok(a), Ok(b)) = (open("pk"), open("sk")) {
                    let r = call("generate_and_write_encrypted_keypair(files)", 0, || shim::gen_write_encrypted_files(a, b, comment.as_deref(), given));
                    sinks.err("key writing", &r);
                    kp = r.ok();
                }
            }
        }
        let mut seed = twin.map(|t| t.0);
        let mut all_faults = w.faults_off();
        if let Some(kp) = &kp {
            let b = kp.sk.to_bytes();
            let f = oracle::sk_fields(&b);
            if let Some(k) = f.as_ref().and_then(|f| oracle::unseal(f, pw.as_bytes(), w.kdf_real)) {
                seed = Some(k.seed);
            } else if let Some(k) = ref_of_plain(&kp.sk) {
                // not protected at all
                sinks.add("the returned secret key", &b);
                seed = Some(k.seed);
            }
            if !interactive && pw.is_empty() {
                all_faults = 0;
            }
            // its further life
            w.budget = all_faults.min(4);
            let bx = call("SecretKey::to_box", 0, || Ok(kp.sk.to_box(comment.as_deref())?.into_string()));
            sinks.err("to_box", &bx);
            let pb = call("PublicKey::to_box", 0, || Ok(kp.pk.to_box()?.into_string()));
            if let Ok(p) = &pb {
                sinks.add("the public key box", p.as_bytes());
            }
            if let Ok(t) = bx {
                sinks.add("the secret key box", t.as_bytes());
                // a file that cannot be opened: wrong password, damage
                let wrong = gen::other_password(&pw);
                let o = open_sk(&t, Some(&wrong));
                sinks.err("a refused password", &o);
                let mut d = t.clone();
                if coin() {
                    d = damage_field(&t, &t.to_lowercase(), 1);
                } else {
                    d = damage_lines(&d, "");
                }
                let o = open_sk(&d, Some(&pw));
                sinks.err("a refused box", &o);
                let o = open_plain(&d);
                sinks.err("a refused box", &o);
                let o = if interactive || draw(4) == 3 {
                    w.tty_present = true;
                    w.tty_in = format!("{pw}\n").into_bytes();
                    w.tty_pos = 0;
                    open_sk(&t, None)
                } else {
                    open_sk(&t, Some(&pw))
                };
                sinks.err("loading", &o);
                if let Ok(sk) = o {
                    let s = sign(&sk, Some(&kp.pk), &mut Src::new(gen::data(500)), opt_comment().as_deref(), None);
                    sinks.err("signing", &s);
                    let other = Key::draw()?;
                    let e = sign(&sk, Some(&other.pk), &mut Src::new(vec![1]), None, None);
                    sinks.err("signing with a foreign public key", &e);
                    if let Ok(sb) = s {
                        if let Ok(t) = sig_text(&sb) {
                            sinks.add("a signature", t.as_bytes());
                        }
                        let v = verify(&other.pk, &sb, &mut Src::new(vec![]), false, true, true);
                        sinks.err("a verification", &v);
                    }
                    // storing the opened key again
                    if draw(2) == 1 {
                        let t = call("SecretKey::to_box (opened key)", 0, || Ok(sk.to_box(comment.as_deref())?.into_string()));
                        if let Ok(t) = t {
                            sinks.add("the box made from the opened protected key", t.as_bytes());
                            if let Some(b) = box_bytes(&t) {
                                sinks.add("the box made from the opened protected key (decoded)", &b);
                            }
                        }
                    }
                    if let Ok(p) = call("PublicKey::from_secret_key", 0, || Ok(PublicKey::from_secret_key(&sk)?.to_box()?.into_string())) {
                        sinks.add("the regenerated public key box", p.as_bytes());
                    }
                }
            }
        }
        w.faults_off();
        drain_stdout();
        sinks.add("standard output", &w.out[1].clone());
        sinks.add("standard error", &w.out[2].clone());
        sinks.add("the terminal", &w.out[3].clone());
        sinks.add("a file", &w.out[0].clone());
        #[allow(static_mut_refs)]
        for t in unsafe { crate::node::ERR_LOOKS.take() }.unwrap_or_default() {
            sinks.add("the debug form or the cause of an error", t.as_bytes());
        }
        // also search what text sinks encode
        let decoded: Vec<(String, Vec<u8>)> = sinks
            .0
            .iter()
            .flat_map(|(n, d)| {
                String::from_utf8_lossy(d)
                    .split('\n')
                    .filter_map(oracle::unb64)
                    .filter(|b| b.len() >= 16)
                    .map(|b| (format!("{n} (decoded)"), b))
                    .collect::<Vec<_>>()
            })
            .collect();
        sinks.0.extend(decoded);
        let Some(seed) = seed else { return unclear("setup: the key at stake is not known") };
        if kp.is_none() {
            w.probe("operation failed midway, sinks searched");
        }
        sinks.judge(&seed, &pw)?;
        if let Some((s, _)) = twin {
            sinks.judge(&s, &pw)?;
        }
        Ok(())
    })
    .map(|_| ())
}

// ------------------------------------------------------------------ C13
const FILE_NAMES: &[&[u8]] = &[
    b"minisign.pub", b"minisign.key", b"x.minisig", b"-", b"~/.minisign/minisign.key", b"my keys/key 1.pub", b" file", b"file ",
    b"FILE", b"./file", b"../file", b"/file", b"/dev/stdin.key", b"file\n", b"file\t", b"%s%n", b"$HOME/file", b"a\\b", b"C:\\key",
    b"cl\xc3\xa9.pub", b"cl\xe9.pub", b"\xff\xfe", b"file\xc3", b"--help", b"file?x=1", b"file.pub.pub", b".file", b"*", b"file;ls", b"'f'",
];
pub fn c13(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let rounds = 1 + draw(2);
        for _ in 0..rounds {
            let r = draw_ref();
            let pw = gen::password();
            let kind = draw(3);
            let other = draw_ref();
            let c = gen::comment();
            let (text, othertext) = match kind {
                0 => (r.pk_box(), other.pk_box()),
                1 => (foreign_box(&r, &pw, w, &c), foreign_box(&other, &pw, w, "x")),
                _ => (r.sign(b"d", coin(), &c, &gen::comment()), other.sign(b"e", false, "x", "y")),
            };
            let mut bytes = text.clone().into_bytes();
            let mut damaged = false;
            match draw(8) {
                0..=2 => {}
                3 => {
                    damaged = true;
                    damage_bytes(&mut bytes, othertext.as_bytes());
                }
                4 => {
                    damaged = true;
                    bytes = damage_lines(&text, &othertext).into_bytes();
                }
                5 => {
                    // long files: more lines after the ones that matter
                    damaged = true;
                    let n = gen::size(100_000) as usize;
                    let fill = gen::prf(draw(1 << 20), n);
                    bytes.extend(fill.iter().map(|b| b"abcdefghijklmno\n"[(*b % 16) as usize]));
                    if draw(4) == 3 {
                        // not text, far from the lines that matter
                        bytes.push(0xc3);
                    }
                }
                6 => {
                    damaged = true;
                    let n = gen::size(70_000) as usize;
                    let mut v = b"untrusted comment: ".to_vec();
                    v.extend(std::iter::repeat_n(b'c', n));
                    v.push(b'\n');
                    let i = bytes.iter().position(|b| *b == b'\n').unwrap();
                    v.extend_from_slice(&bytes[i + 1..]);
                    bytes = v;
                }
                _ => {
                    damaged = true;
                    bytes = String::from_utf8_lossy(&bytes).replace('\n', "\r\n").into_bytes();
                }
            }
            let missing = draw(12) == 11;
            // the name, and files with similar names that hold something else
            let long = format!("{}/{}", "d".repeat(250), "f".repeat(1 + draw(254) as usize));
            let raw: Vec<u8> = match draw(4) {
                0 | 1 => b"file".to_vec(),
                2 => pick(FILE_NAMES).to_vec(),
                _ => long.into_bytes(),
            };
            if raw != b"file" {
                w.probe("unusual file name");
            }
            let name = crate::seams::path_name(&raw);
            w.files.clear();
            if coin() {
                w.probe("similarly named files");
                let txt = String::from_utf8_lossy(&raw).into_owned();
                let mut near = vec![
                    txt.trim().to_string(),
                    txt.trim_start_matches("./").into(),
                    txt.to_lowercase(),
                    txt.rsplit('/').next().unwrap().into(),
                    txt.split(' ').next().unwrap().into(),
                    txt.rsplit_once('.').map(|x| x.0).unwrap_or(&txt).into(),
                    txt.replacen('~', "/home/user", 1),
                    txt.trim_end_matches('\n').into(),
                    txt.replace('\\', "/"),
                    txt.chars().take(255).collect(),
                ];
                for e in [".pub", ".key", ".minisig", ".bak", "~", ".tmp", ".txt", ".sig"] {
                    near.push(format!("{txt}{e}"));
                    if let Some((a, _)) = txt.rsplit_once('.') {
                        near.push(format!("{a}{e}"));
                    }
                }
                near.push(txt);
                for d in near {
                    w.put_file(&d, othertext.as_bytes());
                }
            }
            if !missing {
                w.put_file(&name, &bytes);
            } else {
                w.files.remove(&name);
            }
            w.swarm(&[F::FsOpenError, F::FsReadInterrupted, F::FsShortRead, F::FsReadError, F::FsStatLies, F::FsSeekError]);
            w.fs_hard = 0;
            w.fs_soft = 0;
            let path = Path::new(std::ffi::OsStr::from_bytes(&raw));
            let n = bytes.len() as u64;
            // the file as the reference result: parse the complete text
            let whole = String::from_utf8(bytes.clone()).ok();
            let (got, want): (Out<Vec<u8>>, Out<Vec<u8>>) = match kind {
                0 => {
                    let g = call("PublicKey::from_file", n, || Ok(shim::pk_from_file(path)?.to_bytes()));
                    w.faults_off();
                    let t = match &whole {
                        Some(s) => parse_pk(s).map(|k| k.to_bytes()),
                        None => Err(Fail::Err("not text".into())),
                    };
                    (g, t)
                }
                1 => {
                    let (p, p2) = if draw(5) == 4 { let x = gen::other_password(&pw); (x.clone(), x) } else { (pw.clone(), pw.clone()) };
                    let g = call("SecretKey::from_file", n, || Ok(shim::sk_from_file(path, Some(p))?.to_bytes()));
                    w.faults_off();
                    let t = match &whole {
                        Some(s) => open_sk(s, Some(&p2)).map(|k| k.to_bytes()),
                        None => Err(Fail::Err("not text".into())),
                    };
                    (g, t)
                }
                _ => {
                    let g = call("SignatureBox::from_file", n, || Ok(shim::sig_from_file(path)?.to_bytes()));
                    w.faults_off();
                    let t = match &whole {
                        Some(s) => match parse_sig(s) {
                            Ok(sb) => call_plain("to_bytes", || sb.to_bytes()),
                            Err(e) => Err(e),
                        },
                        None => Err(Fail::Err("not text".into())),
                    };
                    (g, t)
                }
            };
            let what = ["public key", "secret key", "signature"][kind as usize];
            if missing || w.fs_hard > 0 {
                ensure!(!is(&got), "success-despite-file-error", "loading a {what} from a file that could not be {} succeeded", if missing { "opened" } else { "read completely" });
                w.probe("file error reported");
                continue;
            }
            match (&got, &want) {
                (Ok(a), Ok(b)) => ensure!(a == b, "partial-load", "the {what} loaded from a file of {n} bytes differs from its parsed contents"),
                // a position that cannot be asked for need not matter, but may
                (Err(_), Ok(_)) if w.fs_soft > 0 => continue,
                (Err(e), Ok(_)) => return bad("load-fails", format!("loading a {what} from an intact file of {n} bytes: {}", e.text())),
                (Ok(_), Err(_)) => return bad("partial-load", format!("a {what} was loaded from a file of {n} bytes whose complete contents do not parse")),
                _ => {}
            }
            if !damaged && kind != 1 {
                // independent of the library's own parser
                match kind {
                    0 => ensure!(got == Ok(r.pk_bytes()), "load-fails", "public key file: {:?}", short(&got)),
                    _ => ensure!(got == Ok(bytes.clone()), "load-fails", "signature file came back as {:?}", short(&got)),
                }
            }
        }
        Ok(())
    })
    .map(|_| ())
}

// ------------------------------------------------------------------ C14
/// What the user types for one entry.
fn entry(pw: &str) -> (String, Vec<u8>) {
    // a terminal delivers one of these for the Enter key; other control
    // characters are keys that edit the line or do nothing
    let end: &[u8] = match draw(8) {
        7 => b"\r",
        _ => b"\n",
    };
    // keys that edit the line, end it or send signals belong to the terminal
    let pw: String = pw.chars().filter(|c| !matches!(c, '\u{0}'..='\u{8}' | '\u{a}'..='\u{1f}' | '\u{7f}')).collect();
    let mut v = pw.as_bytes().to_vec();
    v.extend_from_slice(end);
    (pw.chars().filter(|c| !c.is_control()).collect(), v)
}
/// A password of exactly `n` bytes, of characters of one to four bytes.
fn sized(n: usize) -> String {
    let c = pick(&["L", "é", "日", "\u{1F511}"]);
    let mut s = c.repeat(n / c.len());
    while s.len() < n {
        s.push('m');
    }
    s
}
pub fn c14(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let rounds = 1 + draw(2);
        for _ in 0..rounds {
            let pw = match draw(8) {
                7 => sized(pick(&[1025usize, 1026, 1027, 1028, 1100, 1536, 2048, 2050, 3000, 4000])),
                6 => sized(pick(&[1021usize, 1022, 1023, 1024, 1000])),
                5 => String::new(),
                4 => pick(&["  two words  ", " lead", "trail ", "\ttab", "ünï", "\u{1F511}x", "a#b\"c'd\\", "%s"]).to_string(),
                _ => gen::password(),
            };
            let too_long = pw.len() > 1024;
            w.on = 0;
            w.swarm(&[F::TtyOpenError, F::TtyReadError, F::TtyEof, F::TtyAttrError, F::TtyWriteError, F::TtyInterrupted, F::OutError, F::OutShortWrite, F::TtyNotATty, F::RngShort]);
            w.tty_faults = 0;
            w.tty_eof_seen = 0;
            w.tty_pos = 0;
            w.tty_echo = true;
            w.out_broken[1] = 0;
            w.out_broken[3] = 0;
            w.out_err_seen = vec![0; 4];
            w.tty_present = draw(12) != 11;
            w.tty_echoed = 0;
            let no_attr = |w: &crate::world::World| w.fired[F::TtyAttrError as usize] + w.fired[F::TtyNotATty as usize];
            let attr_faults = no_attr(w);
            let gen_op = draw(3);
            if gen_op < 2 {
                let second = if draw(3) == 2 { gen::other_password(&pw) } else { pw.clone() };
                let second = second.replace(['\n', '\r'], "");
                let (e1, l1) = entry(&pw);
                let (e2, l2) = entry(&second);
                w.tty_in = [l1, l2].concat();
                if draw(10) == 9 {
                    let k = draw(w.tty_in.len() as u64) as usize;
                    w.tty_in.truncate(k);
                }
                let r = if gen_op == 0 {
                    call("generate_encrypted_keypair(terminal)", 0, || KeyPair::generate_encrypted_keypair(None)).map(|kp| (kp, None))
                } else {
                    let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
                    call("generate_and_write_encrypted_keypair(terminal)", 0, || shim::gen_write_encrypted(&mut a, &mut b, None, None)).map(|kp| (kp, Some(b.got)))
                };
                let trouble = w.tty_faults > 0 || w.tty_eof_seen > 0 || !w.tty_present || w.out_err_seen[1] > 0;
                let mute = !w.tty_present;
                w.faults_off();
                drain_stdout();
                match r {
                    Ok((kp, file)) => {
                        ensure!(!mute, "key-without-terminal", "a protected key pair was generated although there is no terminal to ask for its password");
                        if !trouble {
                            ensure!(e1.len() <= 1024 && e2.len() <= 1024, "overlong-accepted", "a password of {} bytes was accepted", pw.len());
                            ensure!(e1 == e2, "mismatch-accepted", "a key pair was generated although the entries {:?} and {:?} differ", short(&e1), short(&e2));
                        }
                        // whatever happened, it must be protected by what was typed (or typed before the end of input)
                        let f = oracle::sk_fields(&kp.sk.to_bytes());
                        let k = f.as_ref().and_then(|f| oracle::unseal(f, e1.as_bytes(), w.kdf_real));
                        let cut_ok = w.tty_eof_seen > 0 && k.is_none() && {
                            // input ended inside an entry: a prefix twice
                            (0..=e1.len()).filter(|i| e1.is_char_boundary(*i)).any(|i| f.as_ref().and_then(|f| oracle::unseal(f, &e1.as_bytes()[..i], w.kdf_real)).is_some())
                        };
                        ensure!(k.is_some() || cut_ok, "not-the-typed-password", "the generated key is not protected by the typed password ({} bytes)", e1.len());
                        if let (Some(k), Some(file)) = (&k, &file) {
                            let t = String::from_utf8_lossy(file).into_owned();
                            let q = box_bytes(&t).and_then(|b| oracle::sk_fields(&b)).and_then(|f| oracle::unseal(&f, e1.as_bytes(), w.kdf_real));
                            ensure!(q.as_ref() == Some(k), "not-the-typed-password", "the written key does not open with the typed password");
                        }
                        w.probe("key generated with typed password");
                    }
                    Err(e) => {
                        if !trouble && !too_long && e1 == e2 {
                            return bad("typed-password-refused", format!("two equal entries of {} bytes: {}", e1.len(), e.text()));
                        }
                    }
                }
            } else {
                let r = draw_ref();
                let own = if too_long { gen::password() } else { pw.clone() };
                let b = foreign_box(&r, &own, w, "c");
                let typed = if draw(3) == 2 { gen::other_password(&own).replace(['\n', '\r'], "") } else if too_long { pw.clone() } else { own.clone() };
                let (e1, l1) = entry(&typed);
                w.tty_in = l1;
                if draw(10) == 9 {
                    w.tty_in.pop();
                }
                let file = coin();
                let o = if file {
                    w.put_file("k", b.as_bytes());
                    call("SecretKey::from_file(terminal)", 0, || shim::sk_from_file(Path::new("k"), None))
                } else {
                    open_sk(&b, None)
                };
                let trouble = w.tty_faults > 0 || w.tty_eof_seen > 0 || !w.tty_present || w.out_err_seen[1] > 0;
                w.faults_off();
                drain_stdout();
                match o {
                    Ok(k) => {
                        let cut = w.tty_eof_seen > 0 && e1.starts_with(&own);
                        ensure!(e1 == own || cut, "wrong-password-accepted", "a key protected with {} bytes opened when {} bytes were typed ({})", own.len(), e1.len(), describe(&e1, &own));
                        let f = oracle::sk_fields(&k.to_bytes());
                        ensure!(f.is_some_and(|f| f.keynum == r.keynum && f.sk == r.sk64()), "other-key-material", "opened with other key material");
                        w.probe("key opened with typed password");
                    }
                    Err(e) => {
                        ensure!(trouble || e1 != own, "typed-password-refused", "the right password of {} bytes was typed: {}", own.len(), e.text());
                    }
                }
            }
            if no_attr(w) == attr_faults {
                ensure!(w.tty_echoed == 0, "echoed", "the terminal echoed {} bytes of a password", w.tty_echoed);
                ensure!(w.tty_echo, "terminal-left-changed", "the terminal was left without echo");
            }
        }
        Ok(())
    })
    .map(|_| ())
}
