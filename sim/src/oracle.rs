//! Independent reference implementations the library is compared with.
use curve25519_dalek::edwards::{CompressedEdwardsY, EdwardsPoint};
use curve25519_dalek::scalar::Scalar;
use ed25519_dalek::{Signature as DSig, Signer, SigningKey, VerifyingKey};
use sha2::{Digest, Sha512};

// ------------------------------------------------------------------ BLAKE2b (RFC 7693)
const IV: [u64; 8] = [
    0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1,
    0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179,
];
const SIG: [[u8; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];
pub struct Blake2b {
    h: [u64; 8],
    t: u128,
    buf: [u8; 128],
    n: usize,
    out: usize,
}
impl Blake2b {
    pub fn new(out: usize) -> Self {
        let mut h = IV;
        h[0] ^= 0x0101_0000 ^ out as u64;
        Blake2b { h, t: 0, buf: [0; 128], n: 0, out }
    }
    fn compress(&mut self, last: bool) {
        let mut m = [0u64; 16];
        for (i, c) in self.buf.chunks(8).enumerate() {
            m[i] = u64::from_le_bytes(c.try_into().unwrap());
        }
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&self.h);
        v[8..].copy_from_slice(&IV);
        v[12] ^= self.t as u64;
        v[13] ^= (self.t >> 64) as u64;
        if last {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = &SIG[r % 10];
            let mut g = |a: usize, b: usize, c: usize, d: usize, x: u64, y: u64| {
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(x);
                v[d] = (v[d] ^ v[a]).rotate_right(32);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(24);
                v[a] = v[a].wrapping_add(v[b]).wrapping_add(y);
                v[d] = (v[d] ^ v[a]).rotate_right(16);
                v[c] = v[c].wrapping_add(v[d]);
                v[b] = (v[b] ^ v[c]).rotate_right(63);
            };
            let k = |i: usize| m[s[i] as usize];
            g(0, 4, 8, 12, k(0), k(1));
            g(1, 5, 9, 13, k(2), k(3));
            g(2, 6, 10, 14, k(4), k(5));
            g(3, 7, 11, 15, k(6), k(7));
            g(0, 5, 10, 15, k(8), k(9));
            g(1, 6, 11, 12, k(10), k(11));
            g(2, 7, 8, 13, k(12), k(13));
            g(3, 4, 9, 14, k(14), k(15));
        }
        for i in 0..8 {
            self.h[i] ^= v[i] ^ v[i + 8];
        }
    }
    pub fn update(&mut self, mut d: &[u8]) {
        while !d.is_empty() {
            if self.n == 128 {
                self.t += 128;
                self.compress(false);
                self.n = 0;
            }
            let k = (128 - self.n).min(d.len());
            self.buf[self.n..self.n + k].copy_from_slice(&d[..k]);
            self.n += k;
            d = &d[k..];
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        self.t += self.n as u128;
        for b in &mut self.buf[self.n..] {
            *b = 0
        }
        self.compress(true);
        let mut o = vec![];
        for x in self.h {
            o.extend_from_slice(&x.to_le_bytes());
        }
        o.truncate(self.out);
        o
    }
}
pub fn blake2b(out: usize, d: &[u8]) -> Vec<u8> {
    let mut b = Blake2b::new(out);
    b.update(d);
    b.finish()
}
pub fn prehash(d: &[u8]) -> Vec<u8> {
    blake2b(64, d)
}

// ------------------------------------------------------------------ Ed25519
pub fn ed_pk(seed: &[u8]) -> [u8; 32] {
    let mut s = [0u8; 32];
    s.copy_from_slice(&seed[..32]);
    SigningKey::from_bytes(&s).verifying_key().to_bytes()
}
pub fn ed_sign(seed: &[u8], msg: &[u8]) -> [u8; 64] {
    let mut s = [0u8; 32];
    s.copy_from_slice(&seed[..32]);
    SigningKey::from_bytes(&s).sign(msg).to_bytes()
}
pub fn ed_verify(pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    let (Ok(p), Ok(s)) = (<[u8; 32]>::try_from(pk), <[u8; 64]>::try_from(sig)) else { return false };
    let Ok(vk) = VerifyingKey::from_bytes(&p) else { return false };
    vk.verify_strict(msg, &DSig::from_bytes(&s)).is_ok()
}
/// The nonce r = S - k*a of a signature, given the signer's seed.
pub fn nonce(seed: &[u8], msg: &[u8], sig: &[u8]) -> Option<[u8; 32]> {
    let h = Sha512::digest(&seed[..32]);
    let mut a = [0u8; 32];
    a.copy_from_slice(&h[..32]);
    a[0] &= 248;
    a[31] &= 127;
    a[31] |= 64;
    let a = Scalar::from_bytes_mod_order(a);
    let pk = ed_pk(seed);
    let mut k = Sha512::new();
    k.update(&sig[..32]);
    k.update(pk);
    k.update(msg);
    let k = Scalar::from_bytes_mod_order_wide(&k.finalize().into());
    let s: Option<Scalar> = Scalar::from_canonical_bytes(sig[32..64].try_into().ok()?).into();
    let r = s? - k * a;
    let rp = EdwardsPoint::mul_base(&r).compress();
    if rp != CompressedEdwardsY(sig[..32].try_into().ok()?) {
        return None;
    }
    Some(r.to_bytes())
}
/// S + L, little endian, if it fits into 256 bits.
pub fn add_l(s: &[u8]) -> Option<[u8; 32]> {
    const L: [u8; 32] = [
        0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14, 0, 0, 0, 0,
        0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0x10,
    ];
    let mut o = [0u8; 32];
    let mut c = 0u16;
    for i in 0..32 {
        let x = s[i] as u16 + L[i] as u16 + c;
        o[i] = x as u8;
        c = x >> 8;
    }
    (c == 0).then_some(o)
}
/// Every encoding of a point of order 1, 2, 4 or 8, the odd ones (sign bit of zero, unreduced
/// coordinate) included. No one holds a secret key for these.
pub fn small_order_encodings() -> Vec<[u8; 32]> {
    let mut o: Vec<[u8; 32]> = vec![];
    for p in curve25519_dalek::constants::EIGHT_TORSION {
        o.push(p.compress().to_bytes());
    }
    let mut p = [0xffu8; 32];
    p[0] = 0xed;
    p[31] = 0x7f;
    let mut p1 = p;
    p1[0] = 0xee;
    o.push(p);
    o.push(p1);
    for e in o.clone() {
        let mut f = e;
        f[31] ^= 0x80;
        o.push(f);
    }
    o.sort();
    o.dedup();
    o
}
/// What anyone can compute for such a "public key": R = [S]B fits whenever the hash is a multiple
/// of the point's order.
pub fn forge_small_order(pk: &[u8; 32], msg: &[u8], seed: &[u8; 32]) -> Option<[u8; 64]> {
    let a = CompressedEdwardsY(*pk).decompress()?;
    for i in 0..96u8 {
        let mut h = Sha512::new();
        h.update(seed);
        h.update([i]);
        let s = Scalar::from_bytes_mod_order_wide(&h.finalize().into());
        let r = EdwardsPoint::mul_base(&s).compress();
        let mut k = Sha512::new();
        k.update(r.as_bytes());
        k.update(pk);
        k.update(msg);
        let k = Scalar::from_bytes_mod_order_wide(&k.finalize().into());
        if (k * a) == EdwardsPoint::default() {
            let mut o = [0; 64];
            o[..32].copy_from_slice(r.as_bytes());
            o[32..].copy_from_slice(s.as_bytes());
            return Some(o);
        }
    }
    None
}
/// a - b mod 2^256, as little-endian magnitude test: is |a-b| < 2^128 (mod L)?
pub fn close_scalars(a: &[u8; 32], b: &[u8; 32]) -> bool {
    let x = Scalar::from_bytes_mod_order(*a) - Scalar::from_bytes_mod_order(*b);
    let small = |s: Scalar| s.to_bytes()[16..].iter().all(|v| *v == 0);
    small(x) || small(-x)
}

// ------------------------------------------------------------------ key derivation stand-in
pub fn kdf_stub(pass: &[u8], salt: &[u8], log_n: u8, r: u32, p: u32, out: &mut [u8]) {
    let mut ctr = 0u32;
    for c in out.chunks_mut(64) {
        let mut h = Sha512::new();
        h.update(b"dst-kdf");
        h.update((pass.len() as u64).to_le_bytes());
        h.update(pass);
        h.update((salt.len() as u64).to_le_bytes());
        h.update(salt);
        h.update([log_n]);
        h.update(r.to_le_bytes());
        h.update(p.to_le_bytes());
        h.update(ctr.to_le_bytes());
        ctr += 1;
        let d = h.finalize();
        c.copy_from_slice(&d[..c.len()]);
    }
}
/// libsodium's pickparams.
pub fn kdf_params(ops: u64, mem: u64) -> (u8, u32, u32) {
    let ops = ops.max(32768);
    let r = 8u64;
    let mut n = 1u8;
    if ops < mem / 32 {
        let maxn = ops / (r * 4);
        while n < 63 && (1u64 << n) <= maxn / 2 {
            n += 1;
        }
        (n, r as u32, 1)
    } else {
        let maxn = mem / (r * 128);
        while n < 63 && (1u64 << n) <= maxn / 2 {
            n += 1;
        }
        let maxrp = ((ops / 4) / (1 << n)).min(0x3fff_ffff);
        (n, r as u32, (maxrp / r) as u32)
    }
}
pub fn kdf(pass: &[u8], salt: &[u8], ops: u64, mem: u64, real: bool, out: &mut [u8]) {
    let (n, r, p) = kdf_params(ops, mem);
    if real {
        let params = scrypt::Params::new(n, r, p, 32).unwrap();
        scrypt::scrypt(pass, salt, &params, out).unwrap();
    } else {
        kdf_stub(pass, salt, n, r, p, out);
    }
}

// ------------------------------------------------------------------ base64, formats
const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(d: &[u8]) -> String {
    let mut o = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        o.push(B64[(v >> 18) as usize & 63] as char);
        o.push(B64[(v >> 12) as usize & 63] as char);
        o.push(if c.len() > 1 { B64[(v >> 6) as usize & 63] as char } else { '=' });
        o.push(if c.len() > 2 { B64[v as usize & 63] as char } else { '=' });
    }
    o
}
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let s = s.trim_end_matches('=');
    let mut o = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        let v = B64.iter().position(|x| *x == c)? as u32;
        acc = acc << 6 | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            o.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(o)
}
pub fn hex(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

/// A key pair as the reference sees it.
#[derive(Clone, Debug, PartialEq)]
pub struct RefKey {
    pub keynum: [u8; 8],
    pub seed: [u8; 32],
    pub pk: [u8; 32],
}
impl RefKey {
    pub fn new(seed: [u8; 32], keynum: [u8; 8]) -> RefKey {
        RefKey { keynum, pk: ed_pk(&seed), seed }
    }
    pub fn sk64(&self) -> [u8; 64] {
        let mut o = [0; 64];
        o[..32].copy_from_slice(&self.seed);
        o[32..].copy_from_slice(&self.pk);
        o
    }
    pub fn chk(&self) -> Vec<u8> {
        let mut d = b"Ed".to_vec();
        d.extend_from_slice(&self.keynum);
        d.extend_from_slice(&self.sk64());
        blake2b(32, &d)
    }
    pub fn pk_bytes(&self) -> Vec<u8> {
        let mut d = b"Ed".to_vec();
        d.extend_from_slice(&self.keynum);
        d.extend_from_slice(&self.pk);
        d
    }
    pub fn pk_box(&self) -> String {
        format!("untrusted comment: minisign public key: {:016X}\n{}\n", u64::from_le_bytes(self.keynum), b64(&self.pk_bytes()))
    }
    pub fn sk_plain(&self) -> Vec<u8> {
        let mut d = b"Ed\0\0B2".to_vec();
        d.extend_from_slice(&[0; 48]);
        d.extend_from_slice(&self.keynum);
        d.extend_from_slice(&self.sk64());
        d.extend_from_slice(&self.chk());
        d
    }
    pub fn sk_sealed(&self, pass: &[u8], salt: &[u8; 32], ops: u64, mem: u64, real: bool) -> Vec<u8> {
        let mut d = b"EdScB2".to_vec();
        d.extend_from_slice(salt);
        d.extend_from_slice(&ops.to_le_bytes());
        d.extend_from_slice(&mem.to_le_bytes());
        let mut body = self.keynum.to_vec();
        body.extend_from_slice(&self.sk64());
        body.extend_from_slice(&self.chk());
        let mut st = vec![0; body.len()];
        kdf(pass, salt, ops, mem, real, &mut st);
        for (a, b) in body.iter_mut().zip(&st) {
            *a ^= *b;
        }
        d.extend_from_slice(&body);
        d
    }
    pub fn sk_box(bytes: &[u8], comment: &str) -> String {
        format!("untrusted comment: {comment}\n{}\n", b64(bytes))
    }
    /// A signature file as another implementation would make it.
    pub fn sign(&self, data: &[u8], legacy: bool, tc: &str, uc: &str) -> String {
        let m = if legacy { data.to_vec() } else { prehash(data) };
        let sig = ed_sign(&self.seed, &m);
        let mut g = sig.to_vec();
        g.extend_from_slice(tc.as_bytes());
        let gs = ed_sign(&self.seed, &g);
        let mut s = if legacy { b"Ed".to_vec() } else { b"ED".to_vec() };
        s.extend_from_slice(&self.keynum);
        s.extend_from_slice(&sig);
        format!("untrusted comment: {uc}\n{}\ntrusted comment: {tc}\n{}\n", b64(&s), b64(&gs))
    }
}

/// Secret key file contents, decoded.
#[derive(Clone, Debug)]
pub struct SkFields {
    pub kdf: [u8; 2],
    pub salt: Vec<u8>,
    pub ops: u64,
    pub mem: u64,
    pub keynum: [u8; 8],
    pub sk: Vec<u8>,
    pub chk: Vec<u8>,
    pub raw: Vec<u8>,
}
pub fn sk_fields(b: &[u8]) -> Option<SkFields> {
    if b.len() != 158 {
        return None;
    }
    Some(SkFields {
        kdf: [b[2], b[3]],
        salt: b[6..38].to_vec(),
        ops: u64::from_le_bytes(b[38..46].try_into().unwrap()),
        mem: u64::from_le_bytes(b[46..54].try_into().unwrap()),
        keynum: b[54..62].try_into().unwrap(),
        sk: b[62..126].to_vec(),
        chk: b[126..158].to_vec(),
        raw: b.to_vec(),
    })
}
/// Decrypt a protected key with the reference implementation.
pub fn unseal(f: &SkFields, pass: &[u8], real: bool) -> Option<RefKey> {
    if f.kdf != *b"Sc" {
        return None;
    }
    let mut st = vec![0; 104];
    kdf(pass, &f.salt, f.ops, f.mem, real, &mut st);
    let mut body = f.keynum.to_vec();
    body.extend_from_slice(&f.sk);
    body.extend_from_slice(&f.chk);
    for (a, b) in body.iter_mut().zip(&st) {
        *a ^= *b;
    }
    let k = RefKey::new(body[8..40].try_into().unwrap(), body[..8].try_into().unwrap());
    (k.pk[..] == body[40..72] && k.chk() == body[72..]).then_some(k)
}

/// Signature file contents, decoded leniently by the reference.
#[derive(Clone, Debug, PartialEq)]
pub struct SigFields {
    pub uc: String,
    pub alg: [u8; 2],
    pub keynum: [u8; 8],
    pub sig: Vec<u8>,
    pub tc: String,
    pub gsig: Vec<u8>,
}
pub fn sig_fields(s: &str) -> Option<SigFields> {
    let l: Vec<&str> = s.split('\n').collect();
    if l.len() < 4 {
        return None;
    }
    let b = unb64(l[1])?;
    if b.len() != 74 {
        return None;
    }
    Some(SigFields {
        uc: l[0].strip_prefix("untrusted comment: ")?.to_string(),
        alg: [b[0], b[1]],
        keynum: b[2..10].try_into().unwrap(),
        sig: b[10..].to_vec(),
        tc: l[2].strip_prefix("trusted comment: ")?.to_string(),
        gsig: unb64(l[3])?,
    })
}
impl SigFields {
    pub fn text(&self) -> String {
        let mut s = self.alg.to_vec();
        s.extend_from_slice(&self.keynum);
        s.extend_from_slice(&self.sig);
        format!("untrusted comment: {}\n{}\ntrusted comment: {}\n{}\n", self.uc, b64(&s), self.tc, b64(&self.gsig))
    }
    pub fn bones(&self) -> Vec<u8> {
        let mut s = self.alg.to_vec();
        s.extend_from_slice(&self.keynum);
        s.extend_from_slice(&self.sig);
        s
    }
    /// Is this a correct signature of `data` by `k`, in every part?
    pub fn check(&self, k: &RefKey, data: &[u8]) -> Result<(), String> {
        let m = match &self.alg {
            b"ED" => prehash(data),
            b"Ed" => data.to_vec(),
            a => return Err(format!("unknown algorithm {a:?}")),
        };
        if self.keynum != k.keynum {
            return Err("key identifier differs from the signing key's".into());
        }
        if !ed_verify(&k.pk, &m, &self.sig) {
            return Err("signature does not verify over the data".into());
        }
        let mut g = self.sig.clone();
        g.extend_from_slice(self.tc.as_bytes());
        if !ed_verify(&k.pk, &g, &self.gsig) {
            return Err("global signature does not verify over the trusted comment".into());
        }
        Ok(())
    }
}
