//! C28: nothing is left behind. One kind of operation (or a few) is executed
//! again and again on ever new inputs; what the process holds must not grow.
use super::*;
use crate::node::drain_stdout;
use crate::{alloc, sched, seams};

const FAULTS: &[F] = &[
    F::SrcInterrupted, F::SrcShortRead, F::SrcError, F::SrcSeekError, F::DstInterrupted, F::DstShortWrite, F::DstError, F::DstWriteZero, F::DstFlushError,
    F::FsOpenError, F::FsReadInterrupted, F::FsShortRead, F::FsReadError, F::FsStatLies, F::FsSeekError, F::OutInterrupted, F::OutShortWrite, F::OutError, F::OutZero,
    F::ErrError, F::ErrShortWrite, F::TtyOpenError, F::TtyReadError, F::TtyEof, F::TtyAttrError, F::TtyWriteError, F::TtyInterrupted, F::TtyNotATty,
    F::RngInterrupted, F::RngShort, F::RngError, F::RngNoSyscall, F::ClockJump,
];
const KINDS: u64 = 9;
/// What makes the operations of a kind differ from each other.
#[derive(Clone, Copy)]
struct Shape {
    kind: u64,
    flags: u64,
    bad: u64,
    size: usize,
}
/// One operation on inputs nobody has seen before.
fn once(s: &Shape, seed: u64, i: u64) -> Out<()> {
    let w = w();
    let r = RefKey::new(gen::bytes32(seed ^ i), gen::bytes8(seed.wrapping_add(i)));
    let load = || SecretKey::from_bytes(&r.sk_plain());
    let d = gen::prf(seed ^ i << 20, s.size + (i % 3) as usize);
    let tc = format!("comment {seed:x} {i}");
    let pw = format!("password {seed:x} {i}");
    let hole = |src: &mut Src| {
        match s.bad {
            1 => src.err_at = Some((0, d.len() as u64 / 2, true)),
            2 => src.err_at = Some((1, d.len() as u64 / 2, true)),
            3 => src.hook = Some((i % 3, Box::new(|| std::panic::resume_unwind(Box::new("from the caller"))))),
            _ => {}
        }
    };
    match s.kind {
        0 | 1 => {
            let legacy = s.kind == 1;
            let mut t = r.sign(&d, legacy, &tc, "u");
            if s.bad == 4 {
                t = t.replacen("trusted comment: comment", "trusted comment: another", 1);
            }
            let other = RefKey::new(gen::bytes32(seed ^ i ^ 1 << 50), r.keynum);
            let pk = if s.bad == 5 { &other } else { &r };
            let mut src = Src::new(d.clone()).chunked();
            hole(&mut src);
            if s.bad == 6 {
                src.data.push(1);
            }
            call("verify", d.len() as u64, || {
                let sb = SignatureBox::from_string(&t)?;
                let pk = PublicKey::from_bytes(&pk.pk_bytes())?;
                shim::verify_dyn(&pk, &sb, &mut src, s.flags & 1 != 0, s.flags & 2 != 0, s.flags & 4 != 0)
            })
        }
        2 => {
            let mut src = Src::new(d.clone()).chunked();
            hole(&mut src);
            let long = if s.bad == 4 { format!("{tc}\n") } else { tc };
            call("sign", d.len() as u64, || {
                let sk = load()?;
                let mut pk = PublicKey::from_secret_key(&sk)?;
                if s.bad == 5 {
                    let mut b = r.pk_bytes();
                    b[20] ^= 1;
                    pk = PublicKey::from_bytes(&b)?;
                }
                let sb = shim::sign_dyn((s.flags & 1 != 0).then_some(&pk), &sk, &mut src, (s.flags & 2 != 0).then_some(&long), (s.flags & 4 != 0).then_some("u"))?;
                sb.to_string();
                sb.trusted_comment()?;
                sb.untrusted_comment()?;
                Ok(())
            })
        }
        3 => {
            let what = s.flags % 3;
            let mut t = match what {
                0 => r.sign(&d, s.flags & 4 != 0, &tc, "u"),
                1 => r.pk_box(),
                _ => RefKey::sk_box(&r.sk_sealed(pw.as_bytes(), &gen::bytes32(i), 1 << 20, 1 << 25, false), "c"),
            };
            match s.bad {
                1 => t.truncate(t.len() / 2),
                2 => t = t.replacen('\n', "\n!", 1),
                3 => t.clear(),
                4 => t.push_str(&"more\n".repeat(30)),
                _ => {}
            }
            let name = if s.bad == 5 { "missing".to_string() } else { format!("file{}", if s.flags & 4 != 0 { i } else { 0 }) };
            w.files.clear();
            if s.bad != 5 {
                w.put_file(&name, t.as_bytes());
            }
            let p = Path::new(&name);
            match what {
                0 => call("SignatureBox::from_file", 0, || shim::sig_from_file(p).map(|_| ())),
                1 => call("PublicKey::from_file", 0, || shim::pk_from_file(p).map(|_| ())),
                _ => call("SecretKey::from_file", 0, || shim::sk_from_file(p, Some(if s.bad == 6 { "wrong".into() } else { pw })).map(|_| ())),
            }
        }
        4 | 5 => {
            let t = RefKey::sk_box(&r.sk_sealed(pw.as_bytes(), &gen::bytes32(seed ^ i), 1 << 20, 1 << 25, false), "c");
            let given = if s.bad == 1 { "wrong".to_string() } else { pw };
            w.tty_in = match s.bad {
                2 => vec![],
                3 => b"unfinished".to_vec(),
                4 => vec![0xff, b'\n'],
                5 => b"\n".to_vec(),
                _ => format!("{given}\n").into_bytes(),
            };
            w.tty_pos = 0;
            w.tty_present = s.bad != 6;
            call("open a protected key", 0, || SecretKeyBox::from_string(&t)?.into_secret_key((s.kind == 4).then_some(given)).map(|_| ()))
        }
        6 => {
            let (mut a, mut b) = (Dst::new("pk destination"), Dst::new("sk destination"));
            let x = if s.flags & 1 != 0 { &mut a } else { &mut b };
            match s.bad {
                1 => x.capacity = 20,
                2 => x.broken = true,
                3 => x.hook = Some((0, Box::new(|| panic!("the caller's destination panics")))),
                _ => {}
            }
            w.tty_present = true;
            w.tty_in = format!("{pw}\n{}\n", if s.bad == 4 { "other" } else { &pw }).into_bytes();
            w.tty_pos = 0;
            match s.flags / 2 {
                0 => call("generate_and_write_unencrypted_keypair", 0, || shim::gen_write_unencrypted(&mut a, &mut b).map(|_| ())),
                1 => call("generate_and_write_encrypted_keypair", 0, || shim::gen_write_encrypted(&mut a, &mut b, Some(&tc), Some(pw)).map(|_| ())),
                2 => call("generate_and_write_encrypted_keypair(terminal)", 0, || shim::gen_write_encrypted(&mut a, &mut b, None, None).map(|_| ())),
                _ => call("generate_unencrypted_keypair", 0, || KeyPair::generate_unencrypted_keypair().map(|_| ())),
            }
        }
        7 => call("serialise and parse", 0, || {
            let sk = load()?;
            let t = sk.to_box(Some(&tc))?.into_string();
            let sk = SecretKeyBox::from_string(&t)?.into_unencrypted_secret_key()?;
            let pk = PublicKey::from_secret_key(&sk)?;
            let t = pk.to_box()?.into_string();
            PublicKeyBox::from_string(&t)?.into_public_key()?;
            PublicKey::from_base64(&pk.to_base64())?;
            let mut b = sk.to_bytes();
            b.truncate(if s.bad == 1 { 100 } else { 158 });
            SecretKey::from_bytes(&b).map(|_| ())
        }),
        _ => {
            let mut t = r.sign(&d, s.flags & 1 != 0, &tc, "u");
            match s.bad {
                1 => t.truncate(t.len() / 2),
                2 => t = t.replacen('\n', "\n!", 1),
                3 => t.clear(),
                4 => t = t.replacen("trusted comment:", "trusted:", 1),
                5 => t = t.trim_end().to_string() + "AAAA\n",
                _ => {}
            }
            call("SignatureBox::from_string", 0, || {
                let sb = SignatureBox::from_string(&t)?;
                sb.to_string();
                Ok(())
            })
        }
    }
}
pub fn c28(world: &mut Wd) -> Res {
    run_life(world, true, |w| {
        let seed = draw(1 << 40);
        w.ent_seed = seed;
        let mut shapes = vec![];
        for _ in 0..1 + draw(2) {
            shapes.push(Shape { kind: draw(KINDS), flags: draw(8), bad: draw(8), size: pick(&[0usize, 10, 300, 5000, 70_000]) });
        }
        let faulty = draw(3) == 2;
        let (warm, more) = (24u64, 160u64);
        alloc::watch();
        let (mut held, mut most, mut rises, mut ok) = (0, 0, 0, 0);
        for i in 0..warm + more {
            let s = &shapes[(i % shapes.len() as u64) as usize];
            if faulty && i % 4 == 3 {
                w.swarm(FAULTS);
            }
            let r = once(s, seed, i);
            ok += is(&r) as u64;
            drop(r);
            w.faults_off();
            w.on = 0;
            w.ent_down = false;
            w.ent_nosys = 0;
            w.out_broken = vec![0; 4];
            drain_stdout();
            for o in w.out.iter_mut() {
                o.clear();
            }
            let (f, t) = (seams::open_fds(), sched::unfinished());
            ensure!(f == 0, "left-behind", "{f} descriptors open after operation {i} of a history ({})", name(s));
            ensure!(t == 0, "left-behind", "{t} threads running after operation {i} of a history ({})", name(s));
            if i + 1 == warm {
                held = alloc::held();
                most = held;
            } else if i > warm && (i + 1 - warm) % 16 == 0 {
                // something kept once, or of bounded size, is not left behind
                rises += (alloc::held() > most) as u32;
                most = most.max(alloc::held());
            }
        }
        let grown = alloc::held() - held;
        unsafe { alloc::WATCH = false };
        if ok > 0 {
            w.probe("histories with successful operations");
        }
        ensure!(
            grown < more as i64 * 4 || rises < 3,
            "left-behind",
            "{more} operations ({}) left {grown} bytes of memory behind",
            shapes.iter().map(name).collect::<Vec<_>>().join(", ")
        );
        Ok(())
    })
    .map(|_| ())
}
fn name(s: &Shape) -> String {
    let n = ["verify", "verify a legacy signature", "sign", "load a file", "open with a given password", "open with a typed password", "generate a key pair", "serialise", "parse a signature"];
    format!("{}, variant {}/{}", n[s.kind as usize], s.flags, s.bad)
}
