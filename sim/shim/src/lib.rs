//! Instantiates the library's generic entry points in a crate that is
//! compiled with the same instrumentation as the library itself, so that the
//! scheduler also sees the basic blocks of `sign`, `verify` and the key
//! writers.
use minisign::*;
use std::fs::File;
use std::io::{Read, Seek, Write};
use std::path::Path;

pub trait ReadSeek: Read + Seek {}
impl<T: Read + Seek> ReadSeek for T {}

#[inline(never)]
pub fn sign_dyn(
    pk: Option<&PublicKey>,
    sk: &SecretKey,
    r: &mut dyn Read,
    tc: Option<&str>,
    uc: Option<&str>,
) -> Result<SignatureBox> {
    sign(pk, sk, r, tc, uc)
}

#[inline(never)]
pub fn sign_file(
    pk: Option<&PublicKey>,
    sk: &SecretKey,
    r: File,
    tc: Option<&str>,
    uc: Option<&str>,
) -> Result<SignatureBox> {
    sign(pk, sk, r, tc, uc)
}

#[inline(never)]
pub fn verify_dyn(
    pk: &PublicKey,
    sb: &SignatureBox,
    r: &mut dyn ReadSeek,
    quiet: bool,
    output: bool,
    allow_legacy: bool,
) -> Result<()> {
    verify(pk, sb, r, quiet, output, allow_legacy)
}

#[inline(never)]
pub fn verify_file(
    pk: &PublicKey,
    sb: &SignatureBox,
    r: File,
    quiet: bool,
    output: bool,
    allow_legacy: bool,
) -> Result<()> {
    verify(pk, sb, r, quiet, output, allow_legacy)
}

#[inline(never)]
pub fn gen_write_encrypted(
    pkw: &mut dyn Write,
    skw: &mut dyn Write,
    comment: Option<&str>,
    password: Option<String>,
) -> Result<KeyPair> {
    KeyPair::generate_and_write_encrypted_keypair(pkw, skw, comment, password)
}

#[inline(never)]
pub fn gen_write_unencrypted(pkw: &mut dyn Write, skw: &mut dyn Write) -> Result<KeyPair> {
    KeyPair::generate_and_write_unencrypted_keypair(pkw, skw)
}

#[inline(never)]
pub fn gen_write_encrypted_files(
    pkw: File,
    skw: File,
    comment: Option<&str>,
    password: Option<String>,
) -> Result<KeyPair> {
    KeyPair::generate_and_write_encrypted_keypair(pkw, skw, comment, password)
}

#[inline(never)]
pub fn gen_write_unencrypted_files(pkw: File, skw: File) -> Result<KeyPair> {
    KeyPair::generate_and_write_unencrypted_keypair(pkw, skw)
}

#[inline(never)]
pub fn pk_from_file(p: &Path) -> Result<PublicKey> {
    PublicKey::from_file(p)
}

#[inline(never)]
pub fn sk_from_file(p: &Path, password: Option<String>) -> Result<SecretKey> {
    SecretKey::from_file(p, password)
}

#[inline(never)]
pub fn sig_from_file(p: &Path) -> Result<SignatureBox> {
    SignatureBox::from_file(p)
}
