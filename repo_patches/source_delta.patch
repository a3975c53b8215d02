From 2d9053315b77abbce90f285348b18deff790a904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 01/12] fix: refuse a stored global signature that is not 64
 bytes long

---
 src/signature_box.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 970c11a..e2bcea9 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -119,6 +119,12 @@ impl SignatureBox {
         sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if global_sig.len() != SIGNATURE_BYTES {
+            return Err(PError::new(
+                ErrorKind::Io,
+                "Invalid global signature length",
+            ));
+        }
         Ok(SignatureBox {
             untrusted_comment,
             signature,
-- 
2.43.0


From a0f0ca3ff50c95105ff0fc63f2736e5ae58f790e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 02/12] fix: reject signatures whose scalar is not reduced

The group order was stored big-endian but compared as little-endian.
---
 src/crypto/ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index be32377..df11a96 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -2,8 +2,8 @@ use super::curve25519::{ge_scalarmult_base, is_identity, sc_muladd, sc_reduce, G
 use super::sha512;
 
 static L: [u8; 32] = [
-    0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-    0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed,
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
 ];
 
 fn check_s_lt_l(s: &[u8]) -> bool {
-- 
2.43.0


From b3362a1fc11b40057e753c4b1edec465d6a59a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:08 +0000
Subject: [PATCH 03/12] fix: protect the secret key with an empty password too

The key was stored in clear, marked as encrypted, and could not be loaded.
---
 src/keypair.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keypair.rs b/src/keypair.rs
index b1fa922..e4897b4 100644
--- a/src/keypair.rs
+++ b/src/keypair.rs
@@ -100,9 +100,8 @@ impl KeyPair {
                 password
             }
         };
-        if !password.is_empty() {
-            sk = sk.encrypt(password)?;
-        } else if interactive {
+        sk = sk.encrypt(password)?;
+        if interactive {
             writeln!(io::stdout(), "done").map_err(|e| PError::new(ErrorKind::Io, e))?;
         }
         Ok(KeyPair { pk, sk })
-- 
2.43.0


From 5b29b1197893b59c8f367dd3c526c7ece08cb700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 04/12] fix: make stored comments survive a reload

The trusted comment was signed as given but trimmed when loaded, so a
signature with a comment starting or ending with a space was refused.
A line break in a comment moved the following fields to other lines.
---
 src/lib.rs           | 8 ++++++++
 src/secret_key.rs    | 6 ++++++
 src/signature_box.rs | 2 +-
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1645d72..a83a46c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,6 +85,14 @@ where
         Some(untrusted_comment) => untrusted_comment.to_string(),
         None => DEFAULT_COMMENT.to_string(),
     };
+    for comment in [&trusted_comment, &untrusted_comment] {
+        if comment.contains('\n') || comment.ends_with('\r') {
+            return Err(PError::new(
+                ErrorKind::Sign,
+                "Comments must fit on a single line",
+            ));
+        }
+    }
     let mut signature = Signature::default();
     signature.sig_alg = SIGALG_PREHASHED;
 
diff --git a/src/secret_key.rs b/src/secret_key.rs
index 721f6be..cc81301 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -287,6 +287,12 @@ impl SecretKey {
 
     /// Convert a `SecretKey` to a `SecretKeyBox`.
     pub fn to_box(&self, comment: Option<&str>) -> Result<SecretKeyBox> {
+        if comment.is_some_and(|comment| comment.contains('\n') || comment.ends_with('\r')) {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Comments must fit on a single line",
+            ));
+        }
         let mut s = String::new();
         write!(s, "{COMMENT_PREFIX}")?;
         if let Some(comment) = comment {
diff --git a/src/signature_box.rs b/src/signature_box.rs
index e2bcea9..62c842b 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -116,7 +116,7 @@ impl SignatureBox {
             .drain(..TRUSTED_COMMENT_PREFIX_LEN)
             .count();
         let mut sig_and_trusted_comment = signature.sig.to_vec();
-        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
+        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
         if global_sig.len() != SIGNATURE_BYTES {
-- 
2.43.0


From fb34d2e40e4478ea5e53a42d2c0fa4bc8d77656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 05/12] fix: retry interrupted reads while hashing the data

---
 src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index a83a46c..869467c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -46,7 +46,10 @@ where
     let mut buf = vec![0u8; 65536];
     let mut state = Blake2b::new(PREHASH_BYTES);
     loop {
-        let len = data_reader.read(&mut buf)?;
+        let len = match data_reader.read(&mut buf) {
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            len => len?,
+        };
         if len == 0 {
             break;
         }
-- 
2.43.0


From 515f5386b3084e745ce5cf283e48735f2acef614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 06/12] fix: output exactly the data that was verified

The output started at the beginning of the source even when the verified
data did not, and was not compared with what had been verified.
---
 src/lib.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 869467c..fbd2b95 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,7 @@ mod signature_box;
 #[cfg(test)]
 mod tests;
 
-use std::io::{self, Read, Seek, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use getrandom::getrandom;
 
@@ -41,6 +41,14 @@ pub use crate::signature_box::*;
 fn prehash<R>(data_reader: &mut R) -> Result<Vec<u8>>
 where
     R: Read,
+{
+    prehash_and_copy(data_reader, &mut io::sink())
+}
+
+fn prehash_and_copy<R, W>(data_reader: &mut R, data_writer: &mut W) -> Result<Vec<u8>>
+where
+    R: Read,
+    W: Write,
 {
     let mut h = vec![0u8; PREHASH_BYTES];
     let mut buf = vec![0u8; 65536];
@@ -54,6 +62,7 @@ where
             break;
         }
         state.update(&buf[..len]);
+        data_writer.write_all(&buf[..len])?;
     }
     state.finalize(&mut h);
     Ok(h)
@@ -153,6 +162,11 @@ pub fn verify<R>(
 where
     R: Read + Seek,
 {
+    let data_start = if output {
+        data_reader.stream_position()?
+    } else {
+        0
+    };
     let data = if signature_box.is_prehashed() {
         prehash(&mut data_reader)?
     } else {
@@ -210,14 +224,16 @@ where
         }
     }
     if output {
-        data_reader.rewind()?;
-        let mut buf = vec![0; 65536];
-        loop {
-            let len = data_reader.read(&mut buf)?;
-            if len == 0 {
-                break;
+        if signature_box.is_prehashed() {
+            data_reader.seek(SeekFrom::Start(data_start))?;
+            if prehash_and_copy(&mut data_reader, &mut io::stdout())? != data {
+                return Err(PError::new(
+                    ErrorKind::Verify,
+                    "Data changed after signature verification",
+                ));
             }
-            io::stdout().write_all(&buf[..len])?;
+        } else {
+            io::stdout().write_all(&data)?;
         }
         io::stdout().flush()?;
     }
-- 
2.43.0


From 72e06b613d5ed83c35730b86a58ecaeda6ae762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 07/12] fix: refuse to sign for a public key with another key
 identifier

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fbd2b95..be976b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -121,7 +121,9 @@ where
     getrandom(&mut z)?;
     let global_sig = ed25519::signature(&sig_and_trusted_comment, &sk.keynum_sk.sk, Some(&z));
     if let Some(pk) = pk {
-        if !ed25519::verify(&sig_and_trusted_comment, &pk.keynum_pk.pk[..], &global_sig) {
+        if pk.keynum_pk.keynum != sk.keynum_sk.keynum
+            || !ed25519::verify(&sig_and_trusted_comment, &pk.keynum_pk.pk[..], &global_sig)
+        {
             return Err(PError::new(
                 ErrorKind::Verify,
                 format!(
-- 
2.43.0


From de02966cff200fe70054153025ca21fa088581aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 08/12] fix: report failures to write to standard streams
 instead of panicking

---
 src/helpers.rs | 5 +++--
 src/lib.rs     | 8 ++++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 68cc253..60c2a18 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -1,4 +1,5 @@
 use std::cmp;
+use std::io::{self, Write};
 use std::time::{SystemTime, UNIX_EPOCH};
 
 #[cfg(any(windows, unix))]
@@ -9,7 +10,7 @@ use crate::errors::*;
 
 #[cfg(not(any(windows, unix)))]
 fn prompt_password(prompt: &str) -> Result<String> {
-    use std::io::{stdin, stdout, Write};
+    use std::io::{stdin, stdout};
 
     stdout().write_all(prompt.as_bytes())?;
     stdout().flush()?;
@@ -76,7 +77,7 @@ pub fn raw_scrypt_params(memlimit: usize, opslimit: u64, n_log2_max: u8) -> Resu
 pub fn get_password(prompt: &str) -> Result<String> {
     let pwd = prompt_password(prompt)?;
     if pwd.is_empty() {
-        println!("<empty>");
+        writeln!(io::stdout(), "<empty>")?;
         Ok(pwd)
     } else if pwd.len() > PASSWORD_MAXBYTES {
         Err(PError::new(
diff --git a/src/lib.rs b/src/lib.rs
index be976b6..27dfda1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -220,9 +220,13 @@ where
         }
     };
     if !quiet {
-        eprintln!("Signature and comment signature verified");
+        writeln!(io::stderr(), "Signature and comment signature verified")?;
         if signature_box.global_sig.is_some() {
-            eprintln!("Trusted comment: {}", signature_box.trusted_comment()?);
+            writeln!(
+                io::stderr(),
+                "Trusted comment: {}",
+                signature_box.trusted_comment()?
+            )?;
         }
     }
     if output {
-- 
2.43.0


From dff3e2fa942fc216f4e0ec189aedf61c60a8e5e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 09/12] fix: report a clock set before 1970 instead of
 panicking

---
 src/helpers.rs | 6 +++---
 src/lib.rs     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index 60c2a18..b548b72 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -89,10 +89,10 @@ pub fn get_password(prompt: &str) -> Result<String> {
     }
 }
 
-pub fn unix_timestamp() -> u64 {
+pub fn unix_timestamp() -> Result<u64> {
     let start = SystemTime::now();
     let since_the_epoch = start
         .duration_since(UNIX_EPOCH)
-        .expect("system clock is incorrect");
-    since_the_epoch.as_secs()
+        .map_err(|_| PError::new(ErrorKind::Misc, "system clock is incorrect"))?;
+    Ok(since_the_epoch.as_secs())
 }
diff --git a/src/lib.rs b/src/lib.rs
index 27dfda1..46305a5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -91,7 +91,7 @@ where
     let data = prehash(&mut data_reader)?;
     let trusted_comment = match trusted_comment {
         Some(trusted_comment) => trusted_comment.to_string(),
-        None => format!("timestamp:{}", unix_timestamp()),
+        None => format!("timestamp:{}", unix_timestamp()?),
     };
     let untrusted_comment = match untrusted_comment {
         Some(untrusted_comment) => untrusted_comment.to_string(),
-- 
2.43.0


From 737e92e6fded3938358232b35295f03cc032b772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 10/12] fix: bound the work a stored key can demand

A corrupted operation limit made opening the key take hours. The bound is
libsodium's sensitive limit, which goes with the existing memory limit.
---
 src/constants.rs  | 1 +
 src/secret_key.rs | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/constants.rs b/src/constants.rs
index 1d7cede..f0e5757 100644
--- a/src/constants.rs
+++ b/src/constants.rs
@@ -26,6 +26,7 @@ pub(crate) const KEYNUM_BYTES: usize = 8;
 pub(crate) const MEMLIMIT: usize = 33_554_432;
 pub(crate) const OPSLIMIT: u64 = 1_048_576;
 pub(crate) const MEMLIMIT_MAX: usize = 1_073_741_824;
+pub(crate) const OPSLIMIT_MAX: u64 = 33_554_432;
 pub(crate) const N_LOG2_MAX: u8 = 20;
 pub(crate) const PASSWORD_MAXBYTES: usize = 1024;
 pub(crate) const PK_B64_ENCODED_LEN: usize = 56;
diff --git a/src/secret_key.rs b/src/secret_key.rs
index cc81301..aad9bba 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -131,7 +131,7 @@ impl SecretKey {
         let mut stream = [0u8; CHK_BYTES + SECRETKEY_BYTES + KEYNUM_BYTES];
         let opslimit = load_u64_le(&self.kdf_opslimit_le);
         let memlimit = load_u64_le(&self.kdf_memlimit_le) as usize;
-        if memlimit > MEMLIMIT_MAX {
+        if memlimit > MEMLIMIT_MAX || opslimit > OPSLIMIT_MAX {
             return Err(PError::new(ErrorKind::KDF, "scrypt parameters too high"));
         }
         let params = raw_scrypt_params(memlimit, opslimit, N_LOG2_MAX)?;
-- 
2.43.0


From 1ac785852171e0bca2b2bb2e4028fec32a7680a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 11/12] fix: don't store an opened protected key in clear

The secret key was written in clear, marked as encrypted, and could not be
loaded again.
---
 src/secret_key.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/secret_key.rs b/src/secret_key.rs
index aad9bba..a562c0a 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -293,6 +293,12 @@ impl SecretKey {
                 "Comments must fit on a single line",
             ));
         }
+        if self.kdf_alg != KDF_NONE && self.read_checksum()?[..] == self.keynum_sk.chk[..] {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "The key has been decrypted, and would be stored unprotected",
+            ));
+        }
         let mut s = String::new();
         write!(s, "{COMMENT_PREFIX}")?;
         if let Some(comment) = comment {
-- 
2.43.0


From 063c3d6d8f9750710dc1ba9d64027c25e9e37f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 12/12] fix: refuse public keys of small order

Only the identity and one of the other points of small order were
refused. Under the remaining ones, in all their encodings, anyone can
make signatures that verify.
---
 src/crypto/curve25519.rs | 6 ++++++
 src/crypto/ed25519.rs    | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 5d3e4d7..a6d72e7 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -860,6 +860,12 @@ impl GeP3 {
         self.to_p2().dbl()
     }
 
+    /// Returns true if the order of this point is 1, 2, 4 or 8.
+    pub fn has_small_order(&self) -> bool {
+        let p = self.dbl().to_p2().dbl().to_p2().dbl().to_p2();
+        is_identity(&p.to_bytes())
+    }
+
     pub fn to_bytes(&self) -> [u8; 32] {
         let recip = self.z.invert();
         let x = self.x * recip;
diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index df11a96..3a5117a 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -33,6 +33,10 @@ pub fn verify(message: &[u8], public_key: &[u8], signature: &[u8]) -> bool {
             return false;
         }
     };
+    // Anyone can make signatures for a public key of small order.
+    if a.has_small_order() {
+        return false;
+    }
     if public_key.iter().fold(0, |acc, x| acc | x) == 0 {
         return false;
     }
-- 
2.43.0

