//! C15: concurrency.
use super::*;
use crate::node::raw_call;
use crate::sched;
use std::sync::{Arc, Mutex};

struct Shared {
    keys: Vec<Key>,
    sigs: Vec<Genuine>,
    sealed: Vec<(String, String, RefKey)>,
    t0: i64,
    nested: Mutex<Vec<V>>,
}
struct Genuine {
    key: usize,
    data: Vec<u8>,
    sb: SignatureBox,
    text: String,
    tc: String,
    legacy: bool,
}
fn lib<T>(what: &str, f: impl FnOnce() -> minisign::Result<T>) -> Out<T> {
    w().ops += 1;
    w().ev(|| format!("> {what}"), what.len() as u64);
    let r = raw_call(f);
    w().evb(&format!("< {what}:"), show(&r).as_bytes());
    r
}
fn expect<T>(what: &str, o: Out<T>) -> Res<T> {
    match o {
        Ok(t) => Ok(t),
        Err(e) => bad("different-result", format!("{what} failed while other threads were active: {}", e.text())),
    }
}

/// What a data source or destination does of its own accord: wait for an
/// earlier thread to finish, or use the library itself.
fn hook(s: &Arc<Shared>, me: usize, depth: u32, wait: bool) -> Option<(u64, Box<dyn FnMut()>)> {
    let n = draw(3);
    match draw(6) {
        5 if me > 0 && wait => {
            let t = 1 + draw(me as u64) as usize;
            w().probe("a source or destination waited for another thread");
            Some((n, Box::new(move || sched::wait_task(t))))
        }
        4 if depth == 0 => {
            let s = s.clone();
            w().probe("a source or destination used the library itself");
            Some((n, Box::new(move || {
                if let Err(v) = op(&s, me, 1) {
                    s.nested.lock().unwrap().push(v);
                }
            })))
        }
        _ => None,
    }
}
fn op(s: &Arc<Shared>, me: usize, depth: u32) -> Res {
    let k = &s.keys[draw(s.keys.len() as u64) as usize];
    match draw(11) {
        0 | 1 => {
            let d = gen::data(3000);
            let tc = opt_comment();
            let uc = opt_comment();
            let mut src = Src::new(d.clone()).chunked();
            src.hook = hook(s, me, depth, true);
            let with = coin();
            let sb = expect("signing", lib("sign", || shim::sign_dyn(with.then_some(&k.pk), &k.sk, &mut src, tc.as_deref(), uc.as_deref())))?;
            let t = expect("writing a signature", lib("SignatureBox::to_string", || Ok(sb.to_string())))?;
            let Some(f) = oracle::sig_fields(&t) else { return bad("different-result", format!("malformed signature {t:?}")) };
            if let Err(e) = f.check(&k.r, &d) {
                return bad("different-result", format!("a signature made while other threads were active: {e}"));
            }
            match &tc {
                Some(c) => ensure!(f.tc == *c, "different-result", "trusted comment {:?} instead of {:?}", short(&f.tc), short(c)),
                None => {
                    let x = f.tc.strip_prefix("timestamp:").and_then(|x| x.split('\t').next()).and_then(|x| x.parse::<i64>().ok());
                    ensure!(x.is_some_and(|x| x >= s.t0 && x <= w().real_s), "different-result", "default comment {:?}", short(&f.tc));
                }
            }
            if let Some(c) = &uc {
                ensure!(f.uc == *c, "different-result", "untrusted comment {:?} instead of {:?}", short(&f.uc), short(c));
            }
        }
        2 | 3 => {
            let g = &s.sigs[draw(s.sigs.len() as u64) as usize];
            let (quiet, legacy) = (draw(4) != 3, g.legacy || coin());
            let mut src = Src::new(g.data.clone()).chunked();
            let output = draw(4) == 3;
            // standard output may well be locked while data are copied to it, so a source that is
            // copied does not wait for another thread, which might have to write something
            src.hook = hook(s, me, depth, !output);
            expect("verifying a genuine signature", lib("verify genuine", || shim::verify_dyn(&s.keys[g.key].pk, &g.sb, &mut src, quiet, output, legacy)))?;
            let t = expect("reading the comment", lib("trusted_comment", || g.sb.trusted_comment()))?;
            ensure!(t == g.tc, "different-result", "trusted comment {:?} instead of {:?}", short(&t), short(&g.tc));
        }
        4 => {
            let g = &s.sigs[draw(s.sigs.len() as u64) as usize];
            let d = gen::tamper(&g.data);
            let mut src = Src::new(d).chunked();
            let o = lib("verify tampered", || shim::verify_dyn(&s.keys[g.key].pk, &g.sb, &mut src, true, false, true));
            ensure!(!is(&o), "different-result", "altered data accepted while other threads were active");
            let other = s.keys.iter().find(|x| x.r.pk != s.keys[g.key].r.pk);
            if let Some(o) = other {
                let mut src = Src::new(g.data.clone());
                let r = lib("verify other key", || shim::verify_dyn(&o.pk, &g.sb, &mut src, true, false, true));
                ensure!(!is(&r), "different-result", "a signature was accepted for another key while other threads were active");
            }
        }
        5 => {
            let kp = expect("generating", lib("generate_unencrypted_keypair", KeyPair::generate_unencrypted_keypair))?;
            let Some(r) = ref_of_plain(&kp.sk) else { return bad("different-result", "a key generated while other threads were active is inconsistent") };
            ensure!(kp.pk.to_bytes() == r.pk_bytes(), "different-result", "a key pair generated while other threads were active does not belong together");
        }
        6 => {
            let pw = gen::password();
            let c = gen::comment();
            let kp = expect("generating", lib("generate_encrypted_keypair", || KeyPair::generate_encrypted_keypair(Some(pw.clone()))))?;
            let b = expect("boxing", lib("SecretKey::to_box", || Ok(kp.sk.to_box(Some(&c))?.into_string())))?;
            let k = expect("opening", lib("SecretKey::from_box", || SecretKeyBox::from_string(&b)?.into_secret_key(Some(pw.clone()))))?;
            let f = oracle::sk_fields(&k.to_bytes());
            let Some(f) = f else { return bad("different-result", "malformed secret key") };
            let r = RefKey::new(f.sk[..32].try_into().unwrap(), f.keynum);
            ensure!(r.chk() == f.chk && kp.pk.to_bytes() == r.pk_bytes(), "different-result", "a protected key pair generated while other threads were active does not belong together");
        }
        7 if !s.sealed.is_empty() => {
            let (b, pw, r) = &s.sealed[draw(s.sealed.len() as u64) as usize];
            let right = coin();
            let p = if right { pw.clone() } else { gen::other_password(pw) };
            let o = lib("SecretKey::from_box", || SecretKeyBox::from_string(b)?.into_secret_key(Some(p)));
            match o {
                Ok(k) if right => {
                    let f = oracle::sk_fields(&k.to_bytes());
                    ensure!(f.is_some_and(|f| f.sk == r.sk64() && f.keynum == r.keynum), "different-result", "a protected key opened to another key while other threads were active");
                }
                Ok(_) => return bad("different-result", "a wrong password was accepted while other threads were active"),
                Err(e) if right => return bad("different-result", format!("the right password was refused while other threads were active: {}", e.text())),
                Err(_) => {}
            }
        }
        9 | 10 => {
            let sealed = coin();
            let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
            a.hook = hook(s, me, depth, true);
            b.hook = hook(s, me, depth, true);
            let c = gen::comment();
            let pw = gen::password();
            let kp = expect("generating", lib("generate_and_write_keypair", || if sealed { shim::gen_write_encrypted(&mut a, &mut b, Some(&c), Some(pw.clone())) } else { shim::gen_write_unencrypted(&mut a, &mut b) }))?;
            let (pt, st) = (String::from_utf8_lossy(&a.got).into_owned(), String::from_utf8_lossy(&b.got).into_owned());
            // unprotected pairs are written as bare bytes
            let (pb, sb) = if sealed { (box_bytes(&pt), box_bytes(&st)) } else { (Some(a.got.clone()), Some(b.got.clone())) };
            let f = sb.and_then(|b| oracle::sk_fields(&b));
            let r = f.and_then(|f| if sealed { oracle::unseal(&f, pw.as_bytes(), w().kdf_real) } else { let r = RefKey::new(f.sk[..32].try_into().unwrap(), f.keynum); (r.chk() == f.chk).then_some(r) });
            let Some(r) = r else { return bad("different-result", format!("a secret key written while other threads were active cannot be read: {:?}", short(&st))) };
            ensure!(pb == Some(r.pk_bytes()) && kp.pk.to_bytes() == r.pk_bytes(), "different-result", "a key pair written while other threads were active does not belong together");
        }
        _ => {
            let g = &s.sigs[draw(s.sigs.len() as u64) as usize];
            let file = coin();
            let name = format!("t{me}.{depth}.minisig");
            if file {
                w().put_file(&name, g.text.as_bytes());
            }
            let sb = expect("loading a signature", lib("load signature", || if file { shim::sig_from_file(Path::new(&name)) } else { SignatureBox::from_string(&g.text) }))?;
            let t = expect("writing a signature", lib("SignatureBox::to_string", || Ok(sb.to_string())))?;
            ensure!(t.trim_end() == g.text.trim_end(), "different-result", "a loaded signature differs from the stored one");
            let pb = s.keys[g.key].r.pk_box();
            let pk = expect("loading a public key", lib("load public key", || PublicKey::from_box(PublicKeyBox::from_string(&pb)?)))?;
            ensure!(pk.to_bytes() == s.keys[g.key].r.pk_bytes(), "different-result", "a loaded public key differs from the stored one");
            let mut src = Src::new(g.data.clone()).chunked();
            expect("verifying a genuine signature", lib("verify loaded", || shim::verify_dyn(&pk, &sb, &mut src, true, false, true)))?;
        }
    }
    Ok(())
}

pub fn c15(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        w.ent_seed = draw(1 << 40);
        w.swarm(&[F::SrcShortRead, F::SrcInterrupted, F::RngShort, F::RngInterrupted, F::FsReadInterrupted, F::FsShortRead]);
        let keys: Vec<Key> = (0..1 + draw(2)).map(|_| Key::draw()).collect::<Res<_>>()?;
        let mut sigs = vec![];
        for _ in 0..1 + draw(3) {
            let key = draw(keys.len() as u64) as usize;
            let data = gen::data(3000);
            let legacy = coin();
            let tc = gen::comment().trim().to_string();
            let text = keys[key].r.sign(&data, legacy, &tc, "u");
            let sb = setup("parse", parse_sig(&text))?;
            sigs.push(Genuine { key, data, sb, text, tc, legacy });
        }
        let mut sealed = vec![];
        for _ in 0..draw(3) {
            let r = draw_ref();
            let pw = gen::password();
            let salt = gen::bytes32(draw(1 << 32));
            let b = RefKey::sk_box(&r.sk_sealed(pw.as_bytes(), &salt, 1_048_576, 33_554_432, w.kdf_real), "c");
            sealed.push((b, pw, r));
        }
        let s = Arc::new(Shared { keys, sigs, sealed, t0: w.real_s, nested: Mutex::new(vec![]) });
        let nt = 2 + draw(3) as usize;
        crate::node::limits(1 << 22);
        let out: Arc<Mutex<Vec<Res>>> = Default::default();
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        for t in 0..nt {
            let (s, out) = (s.clone(), out.clone());
            bodies.push(Box::new(move || {
                let n = 1 + draw(3);
                let mut r = Ok(());
                for _ in 0..n {
                    r = op(&s, t, 0);
                    if r.is_err() {
                        break;
                    }
                }
                out.lock().unwrap().push(r);
            }));
        }
        let p = [0u64, 1, 2, 4, 8, 16, 40, 100][draw(8) as usize];
        sched::run(bodies, p);
        if let Some(v) = s.nested.lock().unwrap().pop() {
            return Err(v);
        }
        let v: Vec<Res> = std::mem::take(&mut *out.lock().unwrap());
        for r in v {
            r?;
        }
        Ok(())
    })
    .map(|_| ())
}
