From f885a9bc0d9539701b4cc64b3110f90055e451f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:54 +0000
Subject: [PATCH 01/11] fix: compare the signature scalar with the group order
 in little-endian order

---
 src/crypto/ed25519.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/ed25519.rs b/src/crypto/ed25519.rs
index be32377..df11a96 100644
--- a/src/crypto/ed25519.rs
+++ b/src/crypto/ed25519.rs
@@ -2,8 +2,8 @@ use super::curve25519::{ge_scalarmult_base, is_identity, sc_muladd, sc_reduce, G
 use super::sha512;
 
 static L: [u8; 32] = [
-    0x10, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00,
-    0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed,
+    0xed, 0xd3, 0xf5, 0x5c, 0x1a, 0x63, 0x12, 0x58, 0xd6, 0x9c, 0xf7, 0xa2, 0xde, 0xf9, 0xde, 0x14,
+    0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x00, 0x10,
 ];
 
 fn check_s_lt_l(s: &[u8]) -> bool {
-- 
2.43.0


From 15449f60b832dd1b40bcf1209f93715629e95ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:39 +0000
Subject: [PATCH 02/11] fix: refuse global signatures of the wrong length
 instead of panicking in verify

---
 src/signature_box.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 970c11a..6022f83 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -119,6 +119,12 @@ impl SignatureBox {
         sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
+        if global_sig.len() != SIGNATURE_BYTES {
+            return Err(PError::new(
+                ErrorKind::Encoding,
+                "Invalid global signature length",
+            ));
+        }
         Ok(SignatureBox {
             untrusted_comment,
             signature,
-- 
2.43.0


From b2d459d1c012003cb6c4620ddf3fa0828d45ea90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:50 +0000
Subject: [PATCH 03/11] fix: encrypt the secret key also with an empty password

---
 src/keypair.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/keypair.rs b/src/keypair.rs
index b1fa922..e4897b4 100644
--- a/src/keypair.rs
+++ b/src/keypair.rs
@@ -100,9 +100,8 @@ impl KeyPair {
                 password
             }
         };
-        if !password.is_empty() {
-            sk = sk.encrypt(password)?;
-        } else if interactive {
+        sk = sk.encrypt(password)?;
+        if interactive {
             writeln!(io::stdout(), "done").map_err(|e| PError::new(ErrorKind::Io, e))?;
         }
         Ok(KeyPair { pk, sk })
-- 
2.43.0


From 874c7778bf2ab0e8615e2ba96ed88d93be0779a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:00 +0000
Subject: [PATCH 04/11] fix: do not trim the trusted comment that was signed

---
 src/signature_box.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signature_box.rs b/src/signature_box.rs
index 6022f83..1740ea9 100644
--- a/src/signature_box.rs
+++ b/src/signature_box.rs
@@ -116,7 +116,7 @@ impl SignatureBox {
             .drain(..TRUSTED_COMMENT_PREFIX_LEN)
             .count();
         let mut sig_and_trusted_comment = signature.sig.to_vec();
-        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.trim().as_bytes());
+        sig_and_trusted_comment.extend_from_slice(trusted_comment_str.as_bytes());
         let global_sig = Base64::decode_to_vec(global_sig.trim().as_bytes(), None)
             .map_err(|e| PError::new(ErrorKind::Io, e))?;
         if global_sig.len() != SIGNATURE_BYTES {
-- 
2.43.0


From 0f86fc4ca7abe9fcc11fb63f68402245c72dcfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:11 +0000
Subject: [PATCH 05/11] fix: refuse comments that contain line breaks

---
 src/helpers.rs    | 10 ++++++++++
 src/lib.rs        |  2 ++
 src/secret_key.rs |  1 +
 3 files changed, 13 insertions(+)

diff --git a/src/helpers.rs b/src/helpers.rs
index 68cc253..acaf0b3 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -42,6 +42,16 @@ pub fn load_u64_le(x: &[u8]) -> u64 {
         | (x[7] as u64) << 56
 }
 
+pub fn check_comment(comment: &str) -> Result<()> {
+    if comment.contains(&['\n', '\r'][..]) {
+        return Err(PError::new(
+            ErrorKind::Misc,
+            "comments can't contain line breaks",
+        ));
+    }
+    Ok(())
+}
+
 pub fn raw_scrypt_params(memlimit: usize, opslimit: u64, n_log2_max: u8) -> Result<scrypt::Params> {
     let opslimit = cmp::max(32768, opslimit);
     let mut n_log2 = 1u8;
diff --git a/src/lib.rs b/src/lib.rs
index 1645d72..3d6e6b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -85,6 +85,8 @@ where
         Some(untrusted_comment) => untrusted_comment.to_string(),
         None => DEFAULT_COMMENT.to_string(),
     };
+    check_comment(&trusted_comment)?;
+    check_comment(&untrusted_comment)?;
     let mut signature = Signature::default();
     signature.sig_alg = SIGALG_PREHASHED;
 
diff --git a/src/secret_key.rs b/src/secret_key.rs
index 721f6be..68fb3ec 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -290,6 +290,7 @@ impl SecretKey {
         let mut s = String::new();
         write!(s, "{COMMENT_PREFIX}")?;
         if let Some(comment) = comment {
+            check_comment(comment)?;
             writeln!(s, "{comment}")?;
         } else {
             writeln!(s, "{SECRETKEY_DEFAULT_COMMENT}")?;
-- 
2.43.0


From ea6d96af3a372fe12f9980b4f7482a72be2e847e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:21 +0000
Subject: [PATCH 06/11] fix: output exactly the data that was verified

---
 src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3d6e6b6..c3ba48e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,7 @@ mod signature_box;
 #[cfg(test)]
 mod tests;
 
-use std::io::{self, Read, Seek, Write};
+use std::io::{self, Read, Seek, SeekFrom, Write};
 
 use getrandom::getrandom;
 
@@ -144,6 +144,11 @@ pub fn verify<R>(
 where
     R: Read + Seek,
 {
+    let start = if output {
+        data_reader.stream_position()?
+    } else {
+        0
+    };
     let data = if signature_box.is_prehashed() {
         prehash(&mut data_reader)?
     } else {
@@ -201,7 +206,7 @@ where
         }
     }
     if output {
-        data_reader.rewind()?;
+        data_reader.seek(SeekFrom::Start(start))?;
         let mut buf = vec![0; 65536];
         loop {
             let len = data_reader.read(&mut buf)?;
-- 
2.43.0


From 990df66d53bf02bd5db971e7244e942c4b8f7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:30 +0000
Subject: [PATCH 07/11] fix: bound the scrypt parallelism, and not only its
 block count

---
 src/helpers.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers.rs b/src/helpers.rs
index acaf0b3..b6479c7 100644
--- a/src/helpers.rs
+++ b/src/helpers.rs
@@ -77,7 +77,7 @@ pub fn raw_scrypt_params(memlimit: usize, opslimit: u64, n_log2_max: u8) -> Resu
         let maxrp = cmp::min(0x3fff_ffff_u32, ((opslimit / 4) / (1u64 << n_log2)) as u32);
         p = maxrp / r;
     }
-    if n_log2 > n_log2_max {
+    if n_log2 > n_log2_max || p as usize > MEMLIMIT_MAX / (128 * r as usize) {
         return Err(PError::new(ErrorKind::KDF, "scrypt parameters too high"));
     }
     scrypt::Params::new(n_log2, r, p, scrypt::Params::RECOMMENDED_LEN).map_err(Into::into)
-- 
2.43.0


From 14a6a7337a28538e8aba49c1e27fd6a60390cf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:40 +0000
Subject: [PATCH 08/11] fix: refuse keys with unknown signature or checksum
 algorithms

---
 src/public_key.rs | 6 ++++++
 src/secret_key.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/public_key.rs b/src/public_key.rs
index 665c88c..9dab10e 100644
--- a/src/public_key.rs
+++ b/src/public_key.rs
@@ -94,6 +94,12 @@ impl PublicKey {
         buf.read_exact(&mut sig_alg)?;
         buf.read_exact(&mut keynum)?;
         buf.read_exact(&mut pk)?;
+        if sig_alg != SIGALG {
+            return Err(PError::new(
+                ErrorKind::Io,
+                "Unsupported signature algorithm".to_string(),
+            ));
+        }
         Ok(PublicKey {
             sig_alg,
             keynum_pk: KeynumPK { keynum, pk },
diff --git a/src/secret_key.rs b/src/secret_key.rs
index 68fb3ec..77c0201 100644
--- a/src/secret_key.rs
+++ b/src/secret_key.rs
@@ -215,6 +215,12 @@ impl SecretKey {
             )
         })?;
         let mut sk = SecretKey::from_base64(encoded_sk)?;
+        if sk.sig_alg != SIGALG || sk.chk_alg != CHK_ALG {
+            return Err(PError::new(
+                ErrorKind::Io,
+                "Unsupported signature or checksum algorithm".to_string(),
+            ));
+        }
         if unencrypted_key {
             if sk.kdf_alg != KDF_NONE {
                 return Err(PError::new(
-- 
2.43.0


From c494cebf4509851df416d1c5e354a0ef806d0b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:50 +0000
Subject: [PATCH 09/11] fix: refuse to sign for a public key with a different
 key id

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index c3ba48e..c632d51 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -103,7 +103,9 @@ where
     getrandom(&mut z)?;
     let global_sig = ed25519::signature(&sig_and_trusted_comment, &sk.keynum_sk.sk, Some(&z));
     if let Some(pk) = pk {
-        if !ed25519::verify(&sig_and_trusted_comment, &pk.keynum_pk.pk[..], &global_sig) {
+        if pk.keynum_pk.keynum != sk.keynum_sk.keynum
+            || !ed25519::verify(&sig_and_trusted_comment, &pk.keynum_pk.pk[..], &global_sig)
+        {
             return Err(PError::new(
                 ErrorKind::Verify,
                 format!(
-- 
2.43.0


From 5f39243f265e73d65d5882c5050fce5d7d0c13df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:24 +0000
Subject: [PATCH 10/11] fix: refuse the neutral element also in its
 non-canonical encoding

---
 src/crypto/curve25519.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 5d3e4d7..37e674a 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -1837,6 +1837,8 @@ pub fn sc_muladd(s: &mut [u8], a: &[u8], b: &[u8], c: &[u8]) {
 }
 
 pub fn is_identity(s: &[u8]) -> bool {
+    // the neutral element also has a non-canonical encoding
+    let s = Fe::from_bytes(s).to_bytes();
     let mut c = s[0] ^ 0x01;
     for i in 1..31 {
         c |= s[i];
-- 
2.43.0


From 09d853e6ab12f9a38315b91643e84503526b0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 11/11] fix: carry the sum of squares before subtracting it in
 point doubling

The limbs of yy + xx can reach 2*(2^51-1), more than the 2*p that
fiat_25519_sub adds to its first operand, so the subtraction could wrap
(and panic with overflow checks) and x3 be wrong.
---
 src/crypto/curve25519.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crypto/curve25519.rs b/src/crypto/curve25519.rs
index 37e674a..07f52fb 100644
--- a/src/crypto/curve25519.rs
+++ b/src/crypto/curve25519.rs
@@ -695,7 +695,7 @@ impl GeP2 {
         let b = self.z.square_and_double();
         let a = self.x + self.y;
         let aa = a.square();
-        let y3 = yy + xx;
+        let y3 = (yy + xx).carry();
         let z3 = yy - xx;
         let x3 = aa - y3;
         let t3 = b - z3;
-- 
2.43.0

