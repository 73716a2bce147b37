From 797c28626639eb01bf6c0c659734e9cd8acfc72b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 01/44] fix: hash HMAC keys that are longer than a block

---
 crylib/src/hmac.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crylib/src/hmac.rs b/crylib/src/hmac.rs
index 1042448..2510fe2 100644
--- a/crylib/src/hmac.rs
+++ b/crylib/src/hmac.rs
@@ -16,6 +16,15 @@ where
     H: BlockHasher<H_LEN, B_LEN>,
 {
     pub fn new(key: &[u8]) -> Self {
+        // keys that are longer than a block are replaced by their hash
+        let key_hash;
+        let key = if key.len() > B_LEN {
+            key_hash = H::hash(key);
+            &key_hash[..]
+        } else {
+            key
+        };
+
         let mut ipad = [0x36; B_LEN];
         let mut opad = [0x5c; B_LEN];
         for ((ipad_byte, opad_byte), key_byte) in ipad.iter_mut().zip(opad.iter_mut()).zip(key) {
-- 
2.43.0


From 6a65c7d70a01f7f4875c69c6411f7229148c5165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 02/44] fix: do not hash an extra zero block into the GCM tag

---
 crylib/src/aead/gcm.rs | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/crylib/src/aead/gcm.rs b/crylib/src/aead/gcm.rs
index 02f1734..5463492 100644
--- a/crylib/src/aead/gcm.rs
+++ b/crylib/src/aead/gcm.rs
@@ -159,13 +159,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         // TODO: use `array_chunks` once stabilized
         let blocks = cipher_text.chunks_exact(aes::BLOCK_SIZE);
@@ -175,13 +173,11 @@ impl<C: aes::AesCipher> Gcm<C> {
             add_block(&mut tag, block.try_into().unwrap(), self.h);
         }
 
-        let last_block = {
+        if !remainder.is_empty() {
             let mut last_block = [0; aes::BLOCK_SIZE];
             last_block[..remainder.len()].copy_from_slice(remainder);
-            last_block
-        };
-
-        add_block(&mut tag, last_block, self.h);
+            add_block(&mut tag, last_block, self.h);
+        }
 
         tag ^= ((add_data.len() as u128 * 8) << 64) | cipher_text.len() as u128 * 8;
         tag = gf_2to128_mul(tag, self.h);
-- 
2.43.0


From 224a4c0c29dd76e175ebcae6f7f3a9b82e030b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:11 +0000
Subject: [PATCH 03/44] fix: only encrypt the message part of the buffer

---
 crylib/src/aead/chacha/chacha20.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/aead/chacha/chacha20.rs b/crylib/src/aead/chacha/chacha20.rs
index 591a09f..fdf3e58 100644
--- a/crylib/src/aead/chacha/chacha20.rs
+++ b/crylib/src/aead/chacha/chacha20.rs
@@ -124,7 +124,7 @@ pub fn encrypt_inline(msg: &mut [u8], key: &[u8; 32], nonce: &[u8; 12], start_c:
 /// more than once with the same key
 pub fn encrypt(msg: &[u8], key: &[u8; 32], nonce: &[u8; 12], counter: u32, buf: &mut [u8]) {
     buf[..msg.len()].copy_from_slice(msg);
-    encrypt_inline(buf, key, nonce, counter);
+    encrypt_inline(&mut buf[..msg.len()], key, nonce, counter);
 }
 
 #[cfg(test)]
-- 
2.43.0


From eb353f1f2f575985148a7f9eb08cdcb04f0687e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 04/44] fix: do not reverse the ordering of BigInt

---
 crylib/src/big_int/signed.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index 417568f..c6fa0f3 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -299,9 +299,9 @@ impl<const N: usize> Ord for BigInt<N> {
     fn cmp(&self, other: &Self) -> core::cmp::Ordering {
         let cmped = self.sub(other);
         match cmped.is_negative {
-            true => core::cmp::Ordering::Greater,
+            true => core::cmp::Ordering::Less,
             false if self.digits == other.digits => core::cmp::Ordering::Equal,
-            false => core::cmp::Ordering::Less,
+            false => core::cmp::Ordering::Greater,
         }
     }
 }
-- 
2.43.0


From b43745b73060a248a06ac3e265210a07772c3039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:12 +0000
Subject: [PATCH 05/44] fix: compute the absolute value of BigInt

---
 crylib/src/big_int/signed.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index c6fa0f3..e86d04c 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -200,9 +200,18 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs_assign(&mut self) {
-        let temp = *self;
-        self.neg_assign();
-        self.xor_assign(&temp);
+        // `!x + 1` is `-x`
+        let mask = Self {
+            digits: UBigInt::MAX.and_bool(self.is_negative),
+            is_negative: self.is_negative,
+        };
+        let is_negative = Self {
+            digits: UBigInt::ONE.and_bool(self.is_negative),
+            is_negative: false,
+        };
+        self.xor_assign(&mask);
+        self.add_assign(&is_negative);
+        self.is_negative = false;
     }
 
     /// Returns the absolute value of `self`.
@@ -212,7 +221,9 @@ impl<const N: usize> BigInt<N> {
     /// # Constant-timedness
     /// This is a constant-time operation.
     pub fn abs(&self) -> Self {
-        self.xor(&self.neg())
+        let mut buf = *self;
+        buf.abs_assign();
+        buf
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
-- 
2.43.0


From 15c188d027331438b9f9524e8afc10d8116c087d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 06/44] fix: extend the sign when BigInt is resized

---
 crylib/src/big_int/signed.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index e86d04c..d67266b 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -227,8 +227,14 @@ impl<const N: usize> BigInt<N> {
     }
 
     pub fn resize<const O: usize>(self) -> BigInt<O> {
+        let mut digits: UBigInt<O> = self.digits.resize();
+        // extend the sign into the new digits
+        let fill = (self.is_negative as u64).wrapping_neg();
+        for digit in digits.0.iter_mut().skip(N) {
+            *digit = fill;
+        }
         BigInt {
-            digits: self.digits.resize(),
+            digits,
             is_negative: self.is_negative,
         }
     }
-- 
2.43.0


From b67f3af2996f6eda5203cfc1b937a82f77a545ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:13 +0000
Subject: [PATCH 07/44] fix: multiply and divide negative BigInts

---
 crylib/src/big_int/signed.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index d67266b..b333925 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -251,17 +251,15 @@ macro_rules! impl_big_int {
             /// # Constant-timedness
             /// TODO: document constant-timedness
             pub fn div(&self, rhs: &Self) -> (Self, Self) {
-                let (quotient, remainder) = self.digits.div(&rhs.digits);
-                let quotient = Self {
-                    digits: quotient,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
-                };
-                let remainder = Self {
-                    digits: remainder,
-                    is_negative: self.is_negative,
-                };
+                let (quotient, remainder) = self.abs().digits.div(&rhs.abs().digits);
+                let mut quotient: Self = quotient.into();
+                if self.is_negative() ^ rhs.is_negative() {
+                    quotient.neg_assign();
+                }
+                let mut remainder: Self = remainder.into();
+                if self.is_negative() {
+                    remainder.neg_assign();
+                }
                 (quotient, remainder)
             }
 
@@ -274,13 +272,12 @@ macro_rules! impl_big_int {
             ///
             /// The product is twice the width of the input, so overflow cannot occur.
             pub fn widening_mul(&self, rhs: &Self) -> BigInt<{ $n * 2 }> {
-                let product = self.digits.widening_mul(&rhs.digits);
-                BigInt::<{ $n * 2 }> {
-                    digits: product,
-                    is_negative: (self.is_negative() ^ rhs.is_negative())
-                        & (self != &Self::ZERO)
-                        & (rhs != &Self::ZERO),
+                let product = self.abs().digits.widening_mul(&rhs.abs().digits);
+                let mut product: BigInt<{ $n * 2 }> = product.into();
+                if self.is_negative() ^ rhs.is_negative() {
+                    product.neg_assign();
                 }
+                product
             }
         }
     };
-- 
2.43.0


From fc4030967d2598c142c75eeb6253193ad65cf45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 08/44] fix: implement the conversion from &[u64; N] to
 &UBigInt

---
 crylib/src/big_int/unsigned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/big_int/unsigned.rs b/crylib/src/big_int/unsigned.rs
index 15af54a..2b29e78 100644
--- a/crylib/src/big_int/unsigned.rs
+++ b/crylib/src/big_int/unsigned.rs
@@ -944,7 +944,7 @@ impl<const N: usize> AsMut<[u64; N]> for UBigInt<N> {
 
 impl<const N: usize> AsRef<UBigInt<N>> for [u64; N] {
     fn as_ref(&self) -> &UBigInt<N> {
-        todo!()
+        UBigInt::from_ref(self)
     }
 }
 
-- 
2.43.0


From 1fd6b059ddf36572ebec6f3c7322b25eb75fce18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:14 +0000
Subject: [PATCH 09/44] fix: put the carry of mul_digit next to the other
 digits

---
 crylib/src/finite_field/field_element.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crylib/src/finite_field/field_element.rs b/crylib/src/finite_field/field_element.rs
index cac90f4..a7e0024 100644
--- a/crylib/src/finite_field/field_element.rs
+++ b/crylib/src/finite_field/field_element.rs
@@ -208,7 +208,7 @@ macro_rules! impl_field_element {
                 for i in 0..$n {
                     (buf.0[i], carry) = crate::big_int::carry_mul(self.0 .0[i], digit, carry);
                 }
-                buf.0[buf.len() - 1] = carry;
+                buf.0[$n] = carry;
                 unsafe { Self::new_unchecked(buf.div(&F::MODULUS.resize()).1.resize()) }
             }
 
-- 
2.43.0


From 72a817107c8e00430dc646b3af05f1dea5ce7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 10/44] fix: do not treat every point as equal to the point at
 infinity

---
 crylib/src/ec/point/projective.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index 1ab66e3..cb8baa9 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -11,7 +11,8 @@ pub struct ProjectivePoint<C: EllipticCurve> {
 
 impl<C: EllipticCurve> PartialEq for ProjectivePoint<C> {
     fn eq(&self, other: &Self) -> bool {
-        (self.x.mul(&other.z) == other.x.mul(&self.z))
+        (self.is_infinity() == other.is_infinity())
+            & (self.x.mul(&other.z) == other.x.mul(&self.z))
             & (self.y.mul(&other.z) == other.y.mul(&self.z))
     }
 }
-- 
2.43.0


From 07886dd117e13be3e77097dd34b71ff6b3ea3660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:15 +0000
Subject: [PATCH 11/44] fix: add equal points

---
 crylib/src/ec/point/projective.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crylib/src/ec/point/projective.rs b/crylib/src/ec/point/projective.rs
index cb8baa9..ca67e39 100644
--- a/crylib/src/ec/point/projective.rs
+++ b/crylib/src/ec/point/projective.rs
@@ -95,6 +95,10 @@ impl<C: EllipticCurve> ProjectivePoint<C> {
             v_1.sub_assign(&v_2);
             v_1
         };
+        // the formula below doesn't apply to equal points
+        if u == FieldElement::ZERO && v == FieldElement::ZERO {
+            return self.double();
+        }
         let v_sqr = v.sqr();
         let v_cube = v_sqr.mul(&v);
         // TODO: name this something better
-- 
2.43.0


From b78c231bda23396baccb45c8f9c269d501a226b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:16 +0000
Subject: [PATCH 12/44] fix: add equal affine points

---
 crylib/src/ec/point/affine.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crylib/src/ec/point/affine.rs b/crylib/src/ec/point/affine.rs
index 0f33cdf..8ad192a 100644
--- a/crylib/src/ec/point/affine.rs
+++ b/crylib/src/ec/point/affine.rs
@@ -83,6 +83,9 @@ impl<C: EllipticCurve> AffinePoint<C> {
     }
 
     pub fn add(&self, rhs: &Self) -> Self {
+        if self == rhs {
+            return self.double();
+        }
         let slope = rhs.y.sub(&self.y).div(&rhs.x.sub(&self.x));
         self.third_point_on_line(rhs, &slope)
     }
-- 
2.43.0


From 6d00f5f8f3e5f4ab53187213e0050ce9cf3b5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 13/44] fix: compare BigInts whose difference overflows

---
 crylib/src/big_int/signed.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crylib/src/big_int/signed.rs b/crylib/src/big_int/signed.rs
index b333925..e113aea 100644
--- a/crylib/src/big_int/signed.rs
+++ b/crylib/src/big_int/signed.rs
@@ -289,7 +289,9 @@ impl_big_int!(8);
 
 impl<const N: usize> PartialOrd for BigInt<N> {
     fn lt(&self, other: &Self) -> bool {
-        self.sub(other).is_negative
+        // the difference may overflow if the signs differ
+        (self.is_negative & !other.is_negative)
+            | ((self.is_negative == other.is_negative) & self.digits.lt(&other.digits))
     }
 
     fn le(&self, other: &Self) -> bool {
@@ -297,7 +299,7 @@ impl<const N: usize> PartialOrd for BigInt<N> {
     }
 
     fn gt(&self, other: &Self) -> bool {
-        other.sub(self).is_negative
+        other.lt(self)
     }
 
     fn ge(&self, other: &Self) -> bool {
@@ -311,10 +313,9 @@ impl<const N: usize> PartialOrd for BigInt<N> {
 
 impl<const N: usize> Ord for BigInt<N> {
     fn cmp(&self, other: &Self) -> core::cmp::Ordering {
-        let cmped = self.sub(other);
-        match cmped.is_negative {
+        match self.lt(other) {
             true => core::cmp::Ordering::Less,
-            false if self.digits == other.digits => core::cmp::Ordering::Equal,
+            false if self == other => core::cmp::Ordering::Equal,
             false => core::cmp::Ordering::Greater,
         }
     }
-- 
2.43.0


From 09817de2dc92f46a8f23aafb7e83a16b5414846c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 14/44] fix: retry signing with the original hash and a
 non-zero secret number

---
 crylib/src/ec/ecdsa.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 4e15925..0f35282 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -51,11 +51,14 @@ pub fn sign<C: EllipticCurve>(
     hash_func: impl FnOnce(&[u8]) -> [u8; 32],
     random_num_gen: impl Fn() -> FieldElement<4, C::Order>,
 ) -> Signature<C::Order> {
-    let mut hash: FieldElement<4, C::Order> =
+    let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
 
     loop {
         let secret_num = random_num_gen();
+        if secret_num == FieldElement::ZERO {
+            continue;
+        }
         let mut inverse = secret_num.inverse();
 
         let Some(new_point) = C::BASE_POINT.mul_scalar(&secret_num).as_affine() else {
@@ -64,8 +67,7 @@ pub fn sign<C: EllipticCurve>(
 
         let r = new_point.x_ref().convert();
 
-        hash.add_assign(&r.mul(priv_key));
-        inverse.mul_assign(&hash);
+        inverse.mul_assign(&hash.add(&r.mul(priv_key)));
 
         if r != FieldElement::ZERO && inverse != FieldElement::ZERO {
             return Signature::new(r, inverse);
-- 
2.43.0


From 6c6e6e15273df99c33c03ed4f42482ade74aeedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:43 +0000
Subject: [PATCH 15/44] fix: reject ECDSA signatures with a zero component

---
 crylib/src/ec/ecdsa.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crylib/src/ec/ecdsa.rs b/crylib/src/ec/ecdsa.rs
index 0f35282..cb030b2 100644
--- a/crylib/src/ec/ecdsa.rs
+++ b/crylib/src/ec/ecdsa.rs
@@ -84,6 +84,9 @@ pub fn verify_signature<C: EllipticCurve>(
 ) -> Result<ValidSig, InvalidSig> {
     let hash: FieldElement<4, C::Order> =
         FieldElement::<4, _>::new(UBigInt::<4>::from_be_bytes(hash_func(msg)));
+    if sig.r == FieldElement::ZERO || sig.s == FieldElement::ZERO {
+        return Err(InvalidSig);
+    }
     let inverse = sig.s.inverse();
 
     let u = hash.mul(&inverse);
-- 
2.43.0


From e791507f52867f4cd92e874fdbfeba972027a10b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:51 +0000
Subject: [PATCH 16/44] fix: accept protected records up to the TLS 1.3 size
 limit

---
 src/record/read.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 190c016..63b2d39 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -69,7 +69,12 @@ impl RecordLayer {
                             .try_into()
                             .unwrap(),
                     ) as usize;
-                    if self.rbuf.len > Self::MAX_LEN {
+                    let max_len = if self.rbuf.buf[0] == ContentType::ApplicationData.to_byte() {
+                        Self::MAX_LEN + Self::SUFFIX_SIZE
+                    } else {
+                        Self::MAX_LEN
+                    };
+                    if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
                     self.rbuf.status = ReadStatus::NeedsData(0);
-- 
2.43.0


From 52b0440891a75a04098a1360e85fce177a31f5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:32 +0000
Subject: [PATCH 17/44] fix: decrypt each record once and reject plaintext
 after the key change

---
 src/record/read.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/record/read.rs b/src/record/read.rs
index 63b2d39..130ead9 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -30,6 +30,8 @@ pub(super) struct ReadBuf {
     ///
     /// This does not include the header.
     len: usize,
+    /// Whether the current record has already been decrypted.
+    deprotected: bool,
     status: ReadStatus,
 }
 
@@ -38,6 +40,7 @@ impl ReadBuf {
         Self {
             buf: [0; RecordLayer::BUF_SIZE],
             len: 0,
+            deprotected: false,
             status: ReadStatus::new(),
         }
     }
@@ -77,6 +80,7 @@ impl RecordLayer {
                     if self.rbuf.len > max_len {
                         return Err(FullError::sending_alert(TurtlsAlert::RecordOverflow));
                     }
+                    self.rbuf.deprotected = false;
                     self.rbuf.status = ReadStatus::NeedsData(0);
                 },
                 ReadStatus::NeedsData(ref mut bytes_read) => {
@@ -114,11 +118,19 @@ impl RecordLayer {
 
     /// Decrypts the current record and remove any padding.
     fn deprotect(&mut self, aead: &mut TlsAead) -> Result<(), TurtlsAlert> {
-        // Only deprotect the record if it's already protected.
-        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+        // Only deprotect the record if it's still protected.
+        if self.rbuf.deprotected {
             return Ok(());
         }
 
+        // ChangeCipherSpec is the only record that may still be sent unprotected.
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            return Ok(());
+        }
+        if self.msg_type() != ContentType::ApplicationData.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
+
         if self.rbuf.len < Self::MIN_PROT_LEN {
             return Err(TurtlsAlert::DecodeError);
         }
@@ -145,6 +157,12 @@ impl RecordLayer {
         self.rbuf.len -= padding;
         self.rbuf.buf[0] = self.rbuf.buf[Self::HEADER_SIZE + self.rbuf.len - 1];
         self.rbuf.len -= 1;
+        self.rbuf.deprotected = true;
+
+        // ChangeCipherSpec must not be sent protected.
+        if self.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
+            return Err(TurtlsAlert::UnexpectedMessage);
+        }
         Ok(())
     }
 
-- 
2.43.0


From d972c04f3c4692218466ee1b984dba766cf57107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:34 +0000
Subject: [PATCH 18/44] fix: check the type of every record of a handshake
 message

---
 src/handshake.rs   | 34 ++++++++++++++++++++--------------
 src/record/read.rs | 12 +++++++++++-
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index f6f3f8b..bf01d59 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -207,6 +207,24 @@ impl ShakeBuf {
         &self.buf[Self::HEADER_SIZE..][..self.len]
     }
 
+    /// Gets a record that contains (part of) a handshake message.
+    fn get_fragment(
+        rl: &mut RecordLayer,
+        get_fn: &mut impl FnMut(&mut RecordLayer) -> Result<(), FullError>,
+    ) -> Result<(), FullError> {
+        get_fn(rl)?;
+        while rl.is_change_cipher_spec() {
+            rl.discard();
+            get_fn(rl)?;
+        }
+        rl.check_alert()
+            .map_err(|alert| FullError::recving_alert(alert))?;
+        if rl.msg_type() != ContentType::Handshake.to_byte() {
+            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
+        }
+        Ok(())
+    }
+
     fn read_inner(
         &mut self,
         rl: &mut RecordLayer,
@@ -216,20 +234,8 @@ impl ShakeBuf {
         loop {
             match self.status {
                 ReadStatus::NeedsHeader(ref mut amt) => {
-                    if *amt == 0 {
-                        get_fn(rl)?;
-                        if rl.msg_type() == ContentType::ChangeCipherSpec.to_byte() {
-                            rl.discard();
-                            get_fn(rl)?;
-                        }
-                        rl.check_alert()
-                            .map_err(|alert| FullError::recving_alert(alert))?;
-                        if rl.msg_type() != ContentType::Handshake.to_byte() {
-                            return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
-                        }
-                    }
                     while *amt < Self::HEADER_SIZE {
-                        get_fn(rl)?;
+                        Self::get_fragment(rl, &mut get_fn)?;
                         let new_bytes = rl.read_remaining(&mut self.buf[*amt..Self::HEADER_SIZE]);
                         if new_bytes == 0 {
                             return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
@@ -245,7 +251,7 @@ impl ShakeBuf {
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
                     while *amt < self.len {
-                        get_fn(rl)?;
+                        Self::get_fragment(rl, &mut get_fn)?;
                         let new_bytes = rl.read_remaining(
                             &mut self.buf[Self::HEADER_SIZE + *amt..Self::HEADER_SIZE + self.len],
                         );
diff --git a/src/record/read.rs b/src/record/read.rs
index 130ead9..3f49174 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -96,7 +96,8 @@ impl RecordLayer {
                     self.rbuf.status = ReadStatus::Moving(0);
                 },
                 ReadStatus::Moving(bytes_moved) => {
-                    if bytes_moved == self.rbuf.len {
+                    // An empty record isn't skipped: its type has yet to be looked at.
+                    if bytes_moved == self.rbuf.len && bytes_moved > 0 {
                         self.rbuf.status = ReadStatus::NeedsHeader(0);
                     } else {
                         return Ok(());
@@ -194,6 +195,15 @@ impl RecordLayer {
         Ok(self.read_remaining(buf))
     }
 
+    /// Returns whether the current record is an unprotected, well-formed ChangeCipherSpec.
+    ///
+    /// Such records carry no meaning in TLS 1.3.
+    pub(crate) fn is_change_cipher_spec(&self) -> bool {
+        self.msg_type() == ContentType::ChangeCipherSpec.to_byte()
+            && !self.rbuf.deprotected
+            && self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len] == [1]
+    }
+
     /// Discards the current record.
     pub(crate) fn discard(&mut self) {
         self.rbuf.status = ReadStatus::new();
-- 
2.43.0


From f54928892a9caf2e334596692dec837c9e3db5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:36 +0000
Subject: [PATCH 19/44] fix: reject alert records that are not two bytes long

---
 src/handshake.rs   |  3 +--
 src/record/read.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index bf01d59..8761613 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -217,8 +217,7 @@ impl ShakeBuf {
             rl.discard();
             get_fn(rl)?;
         }
-        rl.check_alert()
-            .map_err(|alert| FullError::recving_alert(alert))?;
+        rl.check_alert()?;
         if rl.msg_type() != ContentType::Handshake.to_byte() {
             return Err(FullError::sending_alert(TurtlsAlert::UnexpectedMessage));
         }
diff --git a/src/record/read.rs b/src/record/read.rs
index 3f49174..4788f30 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -1,6 +1,6 @@
 use super::{ContentType, RecordLayer};
 use crate::aead::TlsAead;
-use crate::alert::TurtlsAlert;
+use crate::alert::{AlertMsg, TurtlsAlert};
 use crate::error::FullError;
 use crate::TurtlsError;
 
@@ -209,11 +209,15 @@ impl RecordLayer {
         self.rbuf.status = ReadStatus::new();
     }
 
-    pub(crate) fn check_alert(&self) -> Result<(), TurtlsAlert> {
-        if self.msg_type() == ContentType::Alert.to_byte() {
-            Err(TurtlsAlert::from_byte(self.rbuf.buf[Self::HEADER_SIZE + 1]))
-        } else {
-            Ok(())
+    pub(crate) fn check_alert(&self) -> Result<(), FullError> {
+        if self.msg_type() != ContentType::Alert.to_byte() {
+            return Ok(());
+        }
+        if self.rbuf.len != AlertMsg::SIZE {
+            return Err(FullError::sending_alert(TurtlsAlert::DecodeError));
         }
+        Err(FullError::recving_alert(TurtlsAlert::from_byte(
+            self.rbuf.buf[Self::HEADER_SIZE + 1],
+        )))
     }
 }
-- 
2.43.0


From 247af60427f83619fe8d95d9f82d91c455b6ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:39 +0000
Subject: [PATCH 20/44] fix: grow the handshake buffer up to its maximum size

---
 src/handshake.rs | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 8761613..7cd0052 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -184,18 +184,29 @@ impl ShakeBuf {
         self.buf[1..][..Self::LEN_SIZE].copy_from_slice(&[0; Self::LEN_SIZE]);
     }
 
-    pub(crate) fn push(&mut self, value: u8) {
-        if self.len + Self::HEADER_SIZE + 1 > self.buf.len() {
-            todo!("grow handshake buffer");
+    /// Grows the buffer such that it can store a message of `len` bytes, excluding the header.
+    ///
+    /// # Panics
+    /// The message must not be longer than the maximum size.
+    fn reserve(&mut self, len: usize) {
+        let size = Self::HEADER_SIZE + len;
+        assert!(size <= self.max_size);
+        if size > self.buf.len() {
+            let new_size = std::cmp::min(size.next_power_of_two(), self.max_size);
+            let mut buf = std::mem::take(&mut self.buf).into_vec();
+            buf.resize(new_size, 0);
+            self.buf = buf.into_boxed_slice();
         }
+    }
+
+    pub(crate) fn push(&mut self, value: u8) {
+        self.reserve(self.len + 1);
         self.buf[self.len + Self::HEADER_SIZE] = value;
         self.len += 1;
     }
 
     pub(crate) fn extend_from_slice(&mut self, slice: &[u8]) {
-        if self.len + Self::HEADER_SIZE + slice.len() > self.buf.len() {
-            todo!("grow handshake buffer");
-        }
+        self.reserve(self.len + slice.len());
         self.buf[Self::HEADER_SIZE + self.len..][..slice.len()].copy_from_slice(slice);
         self.len += slice.len();
     }
@@ -243,9 +254,10 @@ impl ShakeBuf {
                     }
                     self.len =
                         u32::from_be_bytes([0, self.buf[1], self.buf[2], self.buf[3]]) as usize;
-                    if self.len > self.buf.len() {
-                        todo!("grow handshake buffer");
+                    if self.len > self.max_size - Self::HEADER_SIZE {
+                        return Err(FullError::sending_alert(TurtlsAlert::IllegalParam));
                     }
+                    self.reserve(self.len);
                     self.status = ReadStatus::NeedsData(0);
                 },
                 ReadStatus::NeedsData(ref mut amt) => {
-- 
2.43.0


From 4efad980b7cfcea29c3853db95d443651b98f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:41 +0000
Subject: [PATCH 21/44] fix: check the type of handshake messages

---
 src/handshake.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 7cd0052..71c13d6 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -49,6 +49,12 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    if shake_state.buf.msg_type() != ShakeType::ServerHello.to_byte() {
+                        let alert = TurtlsAlert::UnexpectedMessage;
+                        global_state.rl.close_raw(alert);
+                        global_state.error = FullError::sending_alert(alert);
+                        return Err(());
+                    }
                     let aead =
                         server_hello_client(shake_state.buf.data(), unprot_state, global_state)
                             .map_err(|alert| {
@@ -75,6 +81,12 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    if shake_state.buf.msg_type() != ShakeType::EncryptedExtensions.to_byte() {
+                        let alert = TurtlsAlert::UnexpectedMessage;
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                        return Err(());
+                    }
                     parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
                         |alert| {
                             global_state.rl.close(alert, aead);
@@ -93,6 +105,12 @@ pub(crate) fn handshake_client(
                             }
                             global_state.error = err
                         })?;
+                    if shake_state.buf.msg_type() != ShakeType::Certificate.to_byte() {
+                        let alert = TurtlsAlert::UnexpectedMessage;
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                        return Err(());
+                    }
                     let cert_msg = shake_state.buf.data();
 
                     let context_len = cert_msg[0] as usize;
-- 
2.43.0


From f232990356284707b4fb0f8114afd60e6bc7de6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:23 +0000
Subject: [PATCH 22/44] fix: check the fixed fields of ServerHello

---
 src/server_hello.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/server_hello.rs b/src/server_hello.rs
index a285584..57eae74 100644
--- a/src/server_hello.rs
+++ b/src/server_hello.rs
@@ -1,6 +1,6 @@
 use crate::aead::TlsAead;
 use crate::cipher_suites::{CipherSuite, TurtlsCipherList};
-use crate::client_hello::RANDOM_BYTES_LEN;
+use crate::client_hello::{LEGACY_SESSION_ID, RANDOM_BYTES_LEN};
 use crate::extensions::versions::ProtocolVersion;
 use crate::extensions::{self, TurtlsExts};
 use crate::state::{GlobalState, UnprotShakeState};
@@ -13,6 +13,14 @@ pub(crate) const MIN_LEN: usize = size_of::<ProtocolVersion>()
     + 1
     + TurtlsExts::LEN_SIZE;
 
+const LEGACY_COMPRESSION_METHOD: u8 = 0;
+
+/// The value of `random` that makes a ServerHello a HelloRetryRequest.
+const HELLO_RETRY_REQUEST: [u8; RANDOM_BYTES_LEN] = [
+    0xcf, 0x21, 0xad, 0x74, 0xe5, 0x9a, 0x61, 0x11, 0xbe, 0x1d, 0x8c, 0x02, 0x1e, 0x65, 0xb8, 0x91,
+    0xc2, 0xa2, 0x11, 0x16, 0x7a, 0xbb, 0x8c, 0x5e, 0x07, 0x9e, 0x09, 0xe2, 0xc8, 0xa8, 0x33, 0x9c,
+];
+
 pub(crate) fn server_hello_client(
     ser_hel: &[u8],
     unprot_state: &mut UnprotShakeState,
@@ -24,12 +32,18 @@ pub(crate) fn server_hello_client(
 
     let mut pos = size_of::<ProtocolVersion>() + RANDOM_BYTES_LEN;
 
+    if ser_hel[size_of::<ProtocolVersion>()..pos] == HELLO_RETRY_REQUEST {
+        // There is only one group to choose from, so retrying is pointless.
+        return Err(TurtlsAlert::HandshakeFailure);
+    }
+
     let leg_session_id_len = ser_hel[pos];
 
-    if leg_session_id_len > 32 {
-        return Err(TurtlsAlert::DecodeError);
+    // The session id must be an echo of the one in ClientHello.
+    if leg_session_id_len != LEGACY_SESSION_ID {
+        return Err(TurtlsAlert::IllegalParam);
     }
-    pos += size_of_val(&leg_session_id_len) + leg_session_id_len as usize;
+    pos += size_of_val(&leg_session_id_len);
 
     unprot_state.ciphers.suites &= TurtlsCipherList::parse_singular(
         ser_hel[pos..][..size_of::<CipherSuite>()]
@@ -39,7 +53,10 @@ pub(crate) fn server_hello_client(
     .suites;
     pos += size_of::<CipherSuite>();
 
-    pos += 1;
+    if ser_hel[pos] != LEGACY_COMPRESSION_METHOD {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+    pos += size_of_val(&LEGACY_COMPRESSION_METHOD);
 
     extensions::parse_ser_hel_exts(&ser_hel[pos..], unprot_state, global_state)
 }
-- 
2.43.0


From 3755ca8a774a80d53f58c08623d16d9adc0752a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:25 +0000
Subject: [PATCH 23/44] fix: refuse malformed extension lists

---
 src/extensions.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index b019eea..7f82a75 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -166,25 +166,28 @@ impl<'a> ExtIter<'a> {
 }
 
 impl<'a> Iterator for ExtIter<'a> {
-    type Item = ExtRef<'a>;
+    type Item = Result<ExtRef<'a>, TurtlsAlert>;
     fn next(&mut self) -> Option<Self::Item> {
-        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+        if self.exts.is_empty() {
             return None;
         }
+        if self.exts.len() < TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let len = u16::from_be_bytes([
             self.exts[TurtlsExts::HEADER_SIZE - 2],
             self.exts[TurtlsExts::HEADER_SIZE - 1],
         ]) as usize;
-        if len > self.exts.len() {
-            return None;
+        if len > self.exts.len() - TurtlsExts::HEADER_SIZE {
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let ext;
         (ext, self.exts) = self.exts.split_at(len + TurtlsExts::HEADER_SIZE);
         let ext_type = [ext[0], ext[1]];
-        Some(ExtRef {
+        Some(Ok(ExtRef {
             ext_type,
             data: &ext[TurtlsExts::HEADER_SIZE..],
-        })
+        }))
     }
 }
 
@@ -203,6 +206,7 @@ pub(crate) fn parse_ser_hel_exts(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
                 versions::parse_ser(ext.data)?;
@@ -228,6 +232,7 @@ pub(crate) fn parse_encrypted_extensions(
     }
 
     for ext in ExtIter::new(exts) {
+        let ext = ext?;
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => (),
-- 
2.43.0


From ad8cef4f7d3442932b4c950263d3edf910641c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:27 +0000
Subject: [PATCH 24/44] fix: require one supported_versions and one key_share
 in ServerHello

---
 src/extensions.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 7f82a75..19b3873 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -196,7 +196,8 @@ pub(crate) fn parse_ser_hel_exts(
     shake_crypto: &mut UnprotShakeState,
     global_state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    let mut maybe_aead = Err(TurtlsAlert::MissingExtension);
+    let mut found_version = false;
+    let mut key_share = None;
 
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
@@ -209,15 +210,26 @@ pub(crate) fn parse_ser_hel_exts(
         let ext = ext?;
         match ext.ext_type {
             x if x == ExtensionType::SupportedVersions.to_be_bytes() => {
+                if found_version {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
                 versions::parse_ser(ext.data)?;
+                found_version = true;
             },
             x if x == ExtensionType::KeyShare.to_be_bytes() => {
-                maybe_aead = key_share::parse_ser(ext.data, shake_crypto, global_state);
+                if key_share.is_some() {
+                    return Err(TurtlsAlert::IllegalParam);
+                }
+                key_share = Some(ext.data);
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
     }
-    maybe_aead
+    if !found_version {
+        return Err(TurtlsAlert::ProtocolVersion);
+    }
+    let key_share = key_share.ok_or(TurtlsAlert::MissingExtension)?;
+    key_share::parse_ser(key_share, shake_crypto, global_state)
 }
 
 pub(crate) fn parse_encrypted_extensions(
-- 
2.43.0


From 8709c3191faae70e2a89a284d1dd7f3bf6ca9d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 25/44] fix: check the length and form of the server's key
 share

---
 src/extensions/key_share.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 8275f9a..d676aba 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -14,6 +14,8 @@ use crate::state::{GlobalState, UnprotShakeState};
 use crate::TurtlsError;
 
 const KEY_SHARE_LEGACY_FORM: u8 = 4;
+/// The length of an uncompressed secp256r1 point.
+const SECP256R1_KEY_SHARE_LEN: usize = size_of_val(&KEY_SHARE_LEGACY_FORM) + 2 * 32;
 /// Key exchange via ECDH on the secp256r1 (NIST-P 256) curve.
 pub const TURTLS_SECP256R1: u16 = 0b0000000000000001;
 
@@ -144,6 +146,9 @@ pub(crate) fn secp256r1_shared_secret(
     key_share: &[u8],
     group_keys: &GroupKeys,
 ) -> Option<[u8; 32]> {
+    if key_share.len() != SECP256R1_KEY_SHARE_LEN || key_share[0] != KEY_SHARE_LEGACY_FORM {
+        return None;
+    }
     let raw_x = UBigInt::<4>::from_be_bytes(key_share[1..][..32].try_into().unwrap());
     let x: FieldElement<4, Secp256r1> = FieldElement::try_from(raw_x).ok()?;
 
@@ -161,13 +166,20 @@ pub(super) fn parse_ser(
     shake_crypto: &mut UnprotShakeState,
     state: &mut GlobalState,
 ) -> Result<TlsAead, TurtlsAlert> {
-    match &key_share[..size_of::<NamedGroup>()] {
-        x if x == NamedGroup::Secp256r1.to_be_bytes() && shake_crypto.sup_groups != 0 => {
-            let dh_secret = secp256r1_shared_secret(
-                &key_share[size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE..],
-                &shake_crypto.priv_keys,
-            )
-            .ok_or(TurtlsAlert::IllegalParam)?;
+    if key_share.len() < size_of::<NamedGroup>() + TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    let (group, key_share) = key_share.split_at(size_of::<NamedGroup>());
+    let (len, key_share) = key_share.split_at(TurtlsExts::LEN_SIZE);
+    if u16::from_be_bytes(len.try_into().unwrap()) as usize != key_share.len() {
+        return Err(TurtlsAlert::DecodeError);
+    }
+    match group {
+        x if x == NamedGroup::Secp256r1.to_be_bytes()
+            && shake_crypto.sup_groups & TURTLS_SECP256R1 != 0 =>
+        {
+            let dh_secret = secp256r1_shared_secret(key_share, &shake_crypto.priv_keys)
+                .ok_or(TurtlsAlert::IllegalParam)?;
 
             TlsAead::shake_aead(state, &dh_secret, shake_crypto.ciphers)
                 .ok_or(TurtlsAlert::HandshakeFailure)
-- 
2.43.0


From f800ccc4daba1e159709e50cf483ac774dfb5015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:31 +0000
Subject: [PATCH 26/44] fix: refuse EncryptedExtensions without a length

---
 src/extensions.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/extensions.rs b/src/extensions.rs
index 19b3873..0dd8f27 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -236,6 +236,9 @@ pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
     global_state: &mut GlobalState,
 ) -> Result<(), TurtlsAlert> {
+    if exts.len() < TurtlsExts::LEN_SIZE {
+        return Err(TurtlsAlert::DecodeError);
+    }
     let (len, exts) = exts.split_at(TurtlsExts::LEN_SIZE);
     let len = u16::from_be_bytes(len.try_into().unwrap()) as usize;
 
-- 
2.43.0


From da49e1743d5172bb24423842878d073a6cf24d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:01 +0000
Subject: [PATCH 27/44] fix: accept only an application protocol that was
 offered

---
 src/extensions.rs           |  3 ++-
 src/extensions/app_proto.rs | 28 ++++++++++++++++++++++++++++
 src/handshake.rs            | 15 +++++++++------
 3 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 0dd8f27..d74c935 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -235,6 +235,7 @@ pub(crate) fn parse_ser_hel_exts(
 pub(crate) fn parse_encrypted_extensions(
     exts: &[u8],
     global_state: &mut GlobalState,
+    offered: &TurtlsExts,
 ) -> Result<(), TurtlsAlert> {
     if exts.len() < TurtlsExts::LEN_SIZE {
         return Err(TurtlsAlert::DecodeError);
@@ -254,7 +255,7 @@ pub(crate) fn parse_encrypted_extensions(
             // SupportedGroups from server is ignored
             x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
             x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
-                parse_app_proto_client(ext.data, &mut global_state.app_proto)?
+                parse_app_proto_client(ext.data, &mut global_state.app_proto, offered)?
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
         }
diff --git a/src/extensions/app_proto.rs b/src/extensions/app_proto.rs
index 498af62..b6aea2c 100644
--- a/src/extensions/app_proto.rs
+++ b/src/extensions/app_proto.rs
@@ -13,6 +13,28 @@ impl TurtlsExts {
         }
         size_of::<u16>() + self.app_protos_len
     }
+
+    /// Returns whether `proto` is one of the application protocols in ClientHello.
+    fn offers_app_proto(&self, proto: &[u8]) -> bool {
+        if self.app_protos_len() == 0 {
+            return false;
+        }
+        // SAFETY: We just checked for null and the caller guarantees the length is valid.
+        let mut protos = unsafe {
+            std::slice::from_raw_parts(self.app_protos as *const u8, self.app_protos_len)
+        };
+        while let [len, rest @ ..] = protos {
+            let Some((name, rest)) = rest.split_at_checked(*len as usize) else {
+                return false;
+            };
+            if name == proto {
+                return true;
+            }
+            protos = rest;
+        }
+        false
+    }
+
     pub(super) fn write_app_protos_client(&self, shake_buf: &mut ShakeBuf) {
         // TODO: properly handle the error
         let len: u16 = self.app_protos_len().try_into().unwrap();
@@ -37,6 +59,7 @@ impl TurtlsExts {
 pub(crate) fn parse_app_proto_client(
     alpn: &[u8],
     alpn_state: &mut [u8; 256],
+    offered: &TurtlsExts,
 ) -> Result<(), TurtlsAlert> {
     if alpn.len() < 4 {
         return Err(TurtlsAlert::DecodeError);
@@ -53,8 +76,13 @@ pub(crate) fn parse_app_proto_client(
         return Err(TurtlsAlert::DecodeError);
     }
 
+    if !offered.offers_app_proto(alpn) {
+        return Err(TurtlsAlert::IllegalParam);
+    }
+
     // `alpn.len` is guaranteed to be less than or equal to `256` because the length is encoded as
     // a single byte
+    *alpn_state = [0; 256];
     alpn_state[..alpn.len()].copy_from_slice(alpn);
     Ok(())
 }
diff --git a/src/handshake.rs b/src/handshake.rs
index 71c13d6..53f05cc 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -87,12 +87,15 @@ pub(crate) fn handshake_client(
                         global_state.error = FullError::sending_alert(alert);
                         return Err(());
                     }
-                    parse_encrypted_extensions(shake_state.buf.data(), global_state).map_err(
-                        |alert| {
-                            global_state.rl.close(alert, aead);
-                            global_state.error = FullError::sending_alert(alert);
-                        },
-                    )?;
+                    parse_encrypted_extensions(
+                        shake_state.buf.data(),
+                        global_state,
+                        &config.extensions,
+                    )
+                    .map_err(|alert| {
+                        global_state.rl.close(alert, aead);
+                        global_state.error = FullError::sending_alert(alert);
+                    })?;
                     *next = ProtShakeMsg::Certificate;
                 },
                 ProtShakeMsg::Certificate => {
-- 
2.43.0


From 7add930de0079883de120ed36f17c1c628eb6f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:03 +0000
Subject: [PATCH 28/44] fix: refuse duplicate and unsolicited encrypted
 extensions

---
 src/extensions.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index d74c935..1141b25 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -247,14 +247,34 @@ pub(crate) fn parse_encrypted_extensions(
         return Err(TurtlsAlert::DecodeError);
     }
 
+    let mut found_server_name = false;
+    let mut found_groups = false;
+    let mut found_app_proto = false;
+
     for ext in ExtIter::new(exts) {
         let ext = ext?;
+        let found = match ext.ext_type {
+            x if x == ExtensionType::ServerName.to_be_bytes() => &mut found_server_name,
+            x if x == ExtensionType::SupportedGroups.to_be_bytes() => &mut found_groups,
+            x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => &mut found_app_proto,
+            _ => return Err(TurtlsAlert::UnsupportedExtension),
+        };
+        if std::mem::replace(found, true) {
+            return Err(TurtlsAlert::IllegalParam);
+        }
         match ext.ext_type {
             // ServerName from server is ignored
-            x if x == ExtensionType::ServerName.to_be_bytes() => (),
+            x if x == ExtensionType::ServerName.to_be_bytes() => {
+                if offered.server_name.is_null() {
+                    return Err(TurtlsAlert::UnsupportedExtension);
+                }
+            },
             // SupportedGroups from server is ignored
             x if x == ExtensionType::SupportedGroups.to_be_bytes() => (),
             x if x == ExtensionType::AppLayerProtoNeg.to_be_bytes() => {
+                if offered.app_protos_len() == 0 {
+                    return Err(TurtlsAlert::UnsupportedExtension);
+                }
                 parse_app_proto_client(ext.data, &mut global_state.app_proto, offered)?
             },
             _ => return Err(TurtlsAlert::UnsupportedExtension),
-- 
2.43.0


From b094816d1e6c7eb0eac8930f365cd66072fe8a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 29/44] fix: close the connection when the peer sends an alert

---
 src/handshake.rs    | 18 ++++++++++++------
 src/record/write.rs |  5 +++++
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 53f05cc..9a4bd6c 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -44,8 +44,10 @@ pub(crate) fn handshake_client(
                         .buf
                         .read_raw(&mut global_state.rl, &mut global_state.transcript)
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close_raw(err.alert);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close_raw(err.alert),
+                                TurtlsError::TlsPeer => global_state.rl.disconnect(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
@@ -76,8 +78,10 @@ pub(crate) fn handshake_client(
                         .buf
                         .read(&mut global_state.rl, aead, &mut global_state.transcript)
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close(err.alert, aead);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close(err.alert, aead),
+                                TurtlsError::TlsPeer => global_state.rl.disconnect(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
@@ -103,8 +107,10 @@ pub(crate) fn handshake_client(
                         .buf
                         .read(&mut global_state.rl, aead, &mut global_state.transcript)
                         .map_err(|err| {
-                            if let TurtlsError::Tls = err.turtls_error {
-                                global_state.rl.close(err.alert, aead);
+                            match err.turtls_error {
+                                TurtlsError::Tls => global_state.rl.close(err.alert, aead),
+                                TurtlsError::TlsPeer => global_state.rl.disconnect(),
+                                _ => (),
                             }
                             global_state.error = err
                         })?;
diff --git a/src/record/write.rs b/src/record/write.rs
index 9fd3e89..d312d22 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -108,6 +108,11 @@ impl RecordLayer {
         *tag = aead.encrypt_inline(msg, header);
     }
 
+    /// Closes the connection without alerting the peer.
+    pub(crate) fn disconnect(&self) {
+        self.io.close();
+    }
+
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
         let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
         self.io.close();
-- 
2.43.0


From 48c3200cd416d22e9939153b7724798ac784b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:40 +0000
Subject: [PATCH 30/44] fix: leave the handshake once it has failed

---
 src/handshake.rs |  4 ++--
 src/lib.rs       | 11 ++++++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 9a4bd6c..1969ec7 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -30,12 +30,12 @@ pub(crate) fn handshake_client(
                 UnprotShakeMsg::ClientHello => {
                     // Don't send alert because handshake hasn't started.
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
-                        .map_err(|err| global_state.error.turtls_error = err)?;
+                        .map_err(|err| global_state.error = FullError::error(err))?;
 
                     shake_state
                         .buf
                         .write_raw(&mut global_state.rl, &mut global_state.transcript)
-                        .map_err(|err| global_state.error.turtls_error = err)?;
+                        .map_err(|err| global_state.error = FullError::error(err))?;
 
                     *next = UnprotShakeMsg::ServerHello;
                 },
diff --git a/src/lib.rs b/src/lib.rs
index 3545854..708fee3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,6 +22,7 @@ use std::ffi::c_int;
 use crylib::hash::Sha256;
 use crylib::hkdf;
 
+use error::FullError;
 use handshake::handshake_client;
 use state::ShakeState;
 use state::TlsStatus;
@@ -81,7 +82,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
-                        tls_conn.gloabl_state.error.turtls_error = err;
+                        tls_conn.gloabl_state.error = FullError::error(err);
                         return -1;
                     },
                 }
@@ -95,6 +96,14 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 if let Err(()) =
                     handshake_client(shake_state, &mut tls_conn.gloabl_state, &tls_conn.config)
                 {
+                    // Only an interrupted handshake can be resumed. Otherwise, the connection has
+                    // already been closed.
+                    if !matches!(
+                        tls_conn.gloabl_state.error.turtls_error,
+                        TurtlsError::WantRead | TurtlsError::WantWrite
+                    ) {
+                        tls_conn.state = TlsStatus::None;
+                    }
                     return -1;
                 }
                 todo!()
-- 
2.43.0


From 2b5846a358cfe37fde863bc2be1e5d210a2276d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:43 +0000
Subject: [PATCH 31/44] fix: forget the previous connection when reusing a
 connection object

---
 src/lib.rs          |  1 +
 src/record.rs       |  6 ++++++
 src/record/read.rs  |  6 ++++++
 src/record/write.rs |  6 ++++++
 src/state.rs        | 11 +++++++++++
 5 files changed, 30 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 708fee3..5b79a9e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -79,6 +79,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
     loop {
         match tls_conn.state {
             TlsStatus::None => {
+                tls_conn.gloabl_state.reset();
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
diff --git a/src/record.rs b/src/record.rs
index 41ed28a..5e17d67 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -108,4 +108,10 @@ impl RecordLayer {
             io,
         }
     }
+
+    /// Discards all partially-read and partially-written data.
+    pub(crate) fn reset(&mut self) {
+        self.rbuf.reset();
+        self.wbuf.reset();
+    }
 }
diff --git a/src/record/read.rs b/src/record/read.rs
index 4788f30..3f065e6 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -44,6 +44,12 @@ impl ReadBuf {
             status: ReadStatus::new(),
         }
     }
+
+    pub(super) fn reset(&mut self) {
+        self.len = 0;
+        self.deprotected = false;
+        self.status = ReadStatus::new();
+    }
 }
 
 impl RecordLayer {
diff --git a/src/record/write.rs b/src/record/write.rs
index d312d22..1680cf5 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -29,6 +29,12 @@ impl WriteBuf {
         [buf.buf[1], buf.buf[2]] = LEGACY_PROTO_VERS.to_be_bytes();
         buf
     }
+
+    pub(super) fn reset(&mut self) {
+        self.len = 0;
+        self.record_bytes = 0;
+        self.total_bytes = 0;
+    }
 }
 
 impl RecordLayer {
diff --git a/src/state.rs b/src/state.rs
index 2c8ed6a..f4fd3fd 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -41,6 +41,17 @@ pub(crate) struct GlobalState {
     pub(crate) app_proto: [u8; 256],
 }
 
+impl GlobalState {
+    /// Forgets everything about the previous connection.
+    pub(crate) fn reset(&mut self) {
+        self.error = FullError::default();
+        self.rl.reset();
+        self.secret = [0; Sha256::HASH_SIZE];
+        self.transcript = TranscriptHasher::new();
+        self.app_proto = [0; 256];
+    }
+}
+
 pub(crate) enum TlsStatus {
     None,
     Shake(ShakeState),
-- 
2.43.0


From 22aa6fecf7f4e5d8cd5561dd6c4c206be5cc7c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 32/44] fix: protect the closing alert once there are keys

---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5b79a9e..3c8a6b6 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -24,6 +24,7 @@ use crylib::hkdf;
 
 use error::FullError;
 use handshake::handshake_client;
+use state::MaybeProt;
 use state::ShakeState;
 use state::TlsStatus;
 
@@ -128,10 +129,15 @@ pub unsafe extern "C" fn turtls_close(tls_conn: *mut TurtlsConn) {
     // SAFETY: the caller guarantees that the pointer is valid.
     let tls_conn = unsafe { &mut *tls_conn };
 
-    if let TlsStatus::None = tls_conn.state {
-        return;
+    let rl = &mut tls_conn.gloabl_state.rl;
+    match tls_conn.state {
+        TlsStatus::None => return,
+        TlsStatus::Shake(ShakeState {
+            state: MaybeProt::Prot { ref mut aead, .. },
+            ..
+        })
+        | TlsStatus::App { ref mut aead } => rl.close(TurtlsAlert::CloseNotify, aead),
+        TlsStatus::Shake(_) => rl.close_raw(TurtlsAlert::CloseNotify),
     }
-
-    tls_conn.gloabl_state.rl.close_raw(TurtlsAlert::CloseNotify);
     tls_conn.state = TlsStatus::None;
 }
-- 
2.43.0


From 849dba04c6dbda31ec746487fc35f6bd91298f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:14 +0000
Subject: [PATCH 33/44] fix: send every byte of messages longer than a record

---
 src/record/write.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/record/write.rs b/src/record/write.rs
index 1680cf5..804e305 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -14,7 +14,7 @@ pub(super) struct WriteBuf {
     /// This does not include the header.
     len: usize,
     record_bytes: usize,
-    /// The total number of bytes written to IO.
+    /// The number of bytes of the current message contained in records written to IO.
     total_bytes: usize,
 }
 
@@ -54,6 +54,7 @@ impl RecordLayer {
                 .copy_from_slice(&buf[self.wbuf.total_bytes..][..record_size]);
             self.wbuf.len = record_size;
             self.finish_raw()?;
+            self.wbuf.total_bytes += record_size;
         }
         self.wbuf.total_bytes = 0;
         Ok(())
@@ -70,7 +71,9 @@ impl RecordLayer {
             self.wbuf.buf[Self::HEADER_SIZE..][..record.len()].copy_from_slice(record);
             self.wbuf.len = record.len();
             self.finish(msg_type, aead)?;
+            self.wbuf.total_bytes += record.len();
         }
+        self.wbuf.total_bytes = 0;
         Ok(())
     }
 
@@ -101,7 +104,6 @@ impl RecordLayer {
                 .ok_or(TurtlsError::WantWrite)?;
             self.wbuf.record_bytes += bytes_written as usize;
         }
-        self.wbuf.total_bytes += self.wbuf.record_bytes;
         self.wbuf.record_bytes = 0;
         Ok(())
     }
-- 
2.43.0


From 1fa4ea0bded431560ef3d9b56aed473d41428b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:17 +0000
Subject: [PATCH 34/44] fix: resume writing ClientHello instead of creating
 another one

---
 src/handshake.rs | 21 +++++++++++++--------
 src/state.rs     |  2 ++
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 1969ec7..915ca90 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -31,10 +31,13 @@ pub(crate) fn handshake_client(
                     // Don't send alert because handshake hasn't started.
                     client_hello_client(unprot_state, &mut shake_state.buf, config)
                         .map_err(|err| global_state.error = FullError::error(err))?;
-
+                    shake_state.buf.finish(&mut global_state.transcript);
+                    *next = UnprotShakeMsg::ClientHelloWrite;
+                },
+                UnprotShakeMsg::ClientHelloWrite => {
                     shake_state
                         .buf
-                        .write_raw(&mut global_state.rl, &mut global_state.transcript)
+                        .write_raw(&mut global_state.rl)
                         .map_err(|err| global_state.error = FullError::error(err))?;
 
                     *next = UnprotShakeMsg::ServerHello;
@@ -326,14 +329,16 @@ impl ShakeBuf {
         self.read_inner(rl, get_fn, transcript)
     }
 
-    pub(crate) fn write_raw(
-        &mut self,
-        rl: &mut RecordLayer,
-        transcript: &mut TranscriptHasher,
-    ) -> Result<(), TurtlsError> {
+    /// Completes the message and adds it to the transcript.
+    pub(crate) fn finish(&mut self, transcript: &mut TranscriptHasher) {
         self.encode_len();
-
         transcript.update_with(&self.buf[..Self::HEADER_SIZE + self.len]);
+    }
+
+    /// Writes the message, or what is left of it, to `rl`.
+    ///
+    /// The message must first be completed with [`Self::finish`].
+    pub(crate) fn write_raw(&mut self, rl: &mut RecordLayer) -> Result<(), TurtlsError> {
         rl.write_raw(
             &self.buf[..Self::HEADER_SIZE + self.len],
             ContentType::Handshake,
diff --git a/src/state.rs b/src/state.rs
index f4fd3fd..cfe3510 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -83,6 +83,8 @@ pub(crate) enum MaybeProt {
 #[derive(PartialEq, Eq)]
 pub(crate) enum UnprotShakeMsg {
     ClientHello,
+    /// ClientHello has been created but not completely written yet.
+    ClientHelloWrite,
     ServerHello,
 }
 
-- 
2.43.0


From c192780a0a3183f03c963fec3e24300ed46481e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:19 +0000
Subject: [PATCH 35/44] fix: finish the current record before sending an alert

---
 src/record/write.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/record/write.rs b/src/record/write.rs
index 804e305..d167010 100644
--- a/src/record/write.rs
+++ b/src/record/write.rs
@@ -122,7 +122,11 @@ impl RecordLayer {
     }
 
     pub(crate) fn close_raw(&mut self, alert: TurtlsAlert) {
-        let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        // The alert must not be mixed with a partially-written record.
+        if self.wbuf.record_bytes == 0 || self.write_record().is_ok() {
+            self.wbuf.total_bytes = 0;
+            let _ = self.write_raw(&AlertMsg::new(alert).to_be_bytes(), ContentType::Alert);
+        }
         self.io.close();
     }
 
-- 
2.43.0


From e6e50dd995747ff3ca975aa0f9870857e6c0518b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:56 +0000
Subject: [PATCH 36/44] fix: count only known options in the lengths of
 ClientHello

---
 src/cipher_suites.rs        | 5 ++++-
 src/extensions/key_share.rs | 4 ++--
 src/extensions/sig_algs.rs  | 9 +++++++--
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/cipher_suites.rs b/src/cipher_suites.rs
index 2951cf1..1ec5df5 100644
--- a/src/cipher_suites.rs
+++ b/src/cipher_suites.rs
@@ -22,8 +22,11 @@ impl TurtlsCipherList {
 
     pub(crate) const LEN_SIZE: usize = 2;
 
+    /// The cipher suites that exist.
+    const ALL: u8 = Self::TURTLS_CHA_CHA_POLY1305_SHA256 | Self::TURTLS_AES_128_GCM_SHA256;
+
     pub(crate) const fn len(&self) -> usize {
-        self.suites.count_ones() as usize * size_of::<CipherSuite>()
+        (self.suites & Self::ALL).count_ones() as usize * size_of::<CipherSuite>()
     }
 
     pub(crate) fn write_to(&self, buf: &mut ShakeBuf) {
diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index d676aba..4553c21 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -60,7 +60,7 @@ pub(crate) struct GroupKeys {
 
 impl GroupKeys {
     pub(crate) fn generate(groups: u16) -> Result<Self, TurtlsError> {
-        if groups == 0 {
+        if groups & TURTLS_SECP256R1 == 0 {
             return Err(TurtlsError::MissingExtensions);
         }
         let mut buf = [0; 32];
@@ -122,7 +122,7 @@ impl TurtlsExts {
     }
 
     pub(super) const fn sup_groups_len(&self) -> usize {
-        Self::LEN_SIZE + self.sup_groups.count_ones() as usize * size_of::<NamedGroup>()
+        Self::LEN_SIZE + (self.sup_groups & TURTLS_SECP256R1).count_ones() as usize * size_of::<NamedGroup>()
     }
 
     pub(super) fn write_sup_groups(&self, shake_buf: &mut ShakeBuf) {
diff --git a/src/extensions/sig_algs.rs b/src/extensions/sig_algs.rs
index 415d498..8cd2445 100644
--- a/src/extensions/sig_algs.rs
+++ b/src/extensions/sig_algs.rs
@@ -57,11 +57,16 @@ pub const TURTLS_ECDSA_SECP256R1: u16 = 0b0000000000000001;
 
 impl TurtlsExts {
     pub(super) const fn sig_algs_len(&self) -> usize {
-        self.sig_algs.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
+        let known = self.sig_algs & TURTLS_ECDSA_SECP256R1;
+        if known == 0 {
+            // the extension isn't sent
+            return 0;
+        }
+        known.count_ones() as usize * size_of::<SignatureScheme>() + Self::LEN_SIZE
     }
 
     pub(super) fn write_sig_algs(&self, shake_buf: &mut ShakeBuf) {
-        if self.sig_algs == 0 {
+        if self.sig_algs_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::SignatureAlgorithms.to_be_bytes());
-- 
2.43.0


From 5f27b30909eeffb57992c3ec66a884d8c2407798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:58 +0000
Subject: [PATCH 37/44] fix: refuse configurations that have no valid
 ClientHello

---
 src/extensions/server_name.rs |  6 +++++-
 src/lib.rs                    |  3 +--
 src/state.rs                  | 14 +++++++++++---
 3 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/extensions/server_name.rs b/src/extensions/server_name.rs
index 13f425c..d895128 100644
--- a/src/extensions/server_name.rs
+++ b/src/extensions/server_name.rs
@@ -12,11 +12,15 @@ impl TurtlsExts {
             return 0;
         }
         let str_len = unsafe { CStr::from_ptr(self.server_name).count_bytes() };
+        if str_len == 0 {
+            // An empty name can't be encoded.
+            return 0;
+        }
         Self::LEN_SIZE + size_of_val(&SERVER_NAME_TYPE) + Self::LEN_SIZE + str_len
     }
 
     pub(super) fn write_server_name(&self, shake_buf: &mut ShakeBuf) {
-        if self.server_name.is_null() {
+        if self.server_name_len() == 0 {
             return;
         }
         shake_buf.extend_from_slice(&ExtensionType::ServerName.to_be_bytes());
diff --git a/src/lib.rs b/src/lib.rs
index 3c8a6b6..120d404 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -22,7 +22,6 @@ use std::ffi::c_int;
 use crylib::hash::Sha256;
 use crylib::hkdf;
 
-use error::FullError;
 use handshake::handshake_client;
 use state::MaybeProt;
 use state::ShakeState;
@@ -84,7 +83,7 @@ pub unsafe extern "C" fn turtls_connect(tls_conn: *mut TurtlsConn) -> c_int {
                 match ShakeState::new(&tls_conn.config) {
                     Ok(state) => tls_conn.state = TlsStatus::Shake(state),
                     Err(err) => {
-                        tls_conn.gloabl_state.error = FullError::error(err);
+                        tls_conn.gloabl_state.error = err;
                         return -1;
                     },
                 }
diff --git a/src/state.rs b/src/state.rs
index cfe3510..5ce99e9 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -7,7 +7,7 @@ use crate::error::FullError;
 use crate::extensions::key_share::GroupKeys;
 use crate::handshake::ShakeBuf;
 use crate::record::{RecordLayer, TurtlsIo};
-use crate::TurtlsError;
+use crate::{TurtlsAlert, TurtlsError};
 /// A TLS connection object.
 ///
 /// An instance may be reused between multiple consecutive connections.
@@ -107,12 +107,20 @@ pub(crate) struct ShakeState {
 }
 
 impl ShakeState {
-    pub(crate) fn new(config: &TurtlsConfig) -> Result<Self, TurtlsError> {
+    pub(crate) fn new(config: &TurtlsConfig) -> Result<Self, FullError> {
+        if config.cipher_suites.len() == 0 {
+            return Err(FullError::error(TurtlsError::MissingExtensions));
+        }
+        if config.extensions.len_client() > u16::MAX as usize {
+            // The configuration doesn't fit in ClientHello.
+            return Err(FullError::sending_alert(TurtlsAlert::InternalError));
+        }
         Ok(Self {
             state: MaybeProt::Unprot {
                 next: UnprotShakeMsg::ClientHello,
                 unprot_state: UnprotShakeState {
-                    priv_keys: GroupKeys::generate(config.extensions.sup_groups)?,
+                    priv_keys: GroupKeys::generate(config.extensions.sup_groups)
+                        .map_err(FullError::error)?,
                     sup_groups: config.extensions.sup_groups,
                     sig_algs: config.extensions.sig_algs,
                     ciphers: config.cipher_suites,
-- 
2.43.0


From a553dbce722f4deb605841268e25bf7ae38c15b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:00 +0000
Subject: [PATCH 38/44] fix: detect private keys that are zero modulo the group
 order

---
 src/extensions/key_share.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/extensions/key_share.rs b/src/extensions/key_share.rs
index 4553c21..e0cd20e 100644
--- a/src/extensions/key_share.rs
+++ b/src/extensions/key_share.rs
@@ -66,15 +66,13 @@ impl GroupKeys {
         let mut buf = [0; 32];
         getrandom(&mut buf).map_err(|_| TurtlsError::Rng)?;
 
-        if buf == [0; 32] {
-            return Err(TurtlsError::PrivKeyIsZero);
-        }
-
         // SAFETY: `[u64; 4]` and `[u8; 32]` have the same memory layout.
         let as_u64s: [u64; 4] = unsafe { std::mem::transmute(buf) };
-        return Ok(Self {
-            secp256r1: FieldElement::<4, _>::new(UBigInt(as_u64s)),
-        });
+        let secp256r1 = FieldElement::<4, _>::new(UBigInt(as_u64s));
+        if secp256r1 == FieldElement::ZERO {
+            return Err(TurtlsError::PrivKeyIsZero);
+        }
+        return Ok(Self { secp256r1 });
     }
 }
 
-- 
2.43.0


From 6d9f2f668b7b529271c5a7918a87699a3dcd43fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:25 +0000
Subject: [PATCH 39/44] fix: treat an empty server name as not offered

---
 src/extensions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/extensions.rs b/src/extensions.rs
index 1141b25..02fdb30 100644
--- a/src/extensions.rs
+++ b/src/extensions.rs
@@ -265,7 +265,7 @@ pub(crate) fn parse_encrypted_extensions(
         match ext.ext_type {
             // ServerName from server is ignored
             x if x == ExtensionType::ServerName.to_be_bytes() => {
-                if offered.server_name.is_null() {
+                if offered.server_name_len() == 0 {
                     return Err(TurtlsAlert::UnsupportedExtension);
                 }
             },
-- 
2.43.0


From 71a26c27af1804cd5669239a959eb4ca220f5e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:27 +0000
Subject: [PATCH 40/44] fix: don't panic on malformed certificate signatures
 and versions

---
 src/certificates/x509.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 7084a2f..1f8c9fa 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -27,11 +27,11 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
-    if signature.data[0] != 0 {
+    let Some((0, sig_data)) = signature.data.split_first() else {
         // there should never be unused bits
         return Err(CertError::ParseError);
-    }
-    let sig_obj = DerIter::new(&signature.data[1..]).next().ok_or(CertError::ParseError)?;
+    };
+    let sig_obj = DerIter::new(sig_data).next().ok_or(CertError::ParseError)?;
     if sig_obj.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
     }
@@ -75,7 +75,7 @@ fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
         if vers.tag != DerTag::Integer as u8 || vers.data.len() != 1 {
         return Err(CertError::ParseError);
         }
-        version = vers.data[0] + 1;
+        version = vers.data[0].saturating_add(1);
         next = tbs_iter.next().ok_or(CertError::ParseError)?;
     } else {
         version = 1;
-- 
2.43.0


From 68e7ef1932266d44884d06aa12a098e7478d3841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:59 +0000
Subject: [PATCH 41/44] fix: parse the scalars of certificate signatures

---
 src/certificates/x509.rs | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 1f8c9fa..238eb87 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -1,10 +1,11 @@
 use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
 use crylib::ec::ecdsa::Signature;
-use crylib::ec::Secp256r1;
+use crylib::ec::{EllipticCurve, Secp256r1};
 use crylib::big_int::UBigInt;
 use crylib::finite_field::FieldElement;
 
+type Order = <Secp256r1 as EllipticCurve>::Order;
 
 pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
     let cert = DerIter::new(cert_buf).next().ok_or(CertError::ParseError)?;
@@ -23,7 +24,7 @@ pub(crate) fn validate_cert(cert_buf: &[u8]) -> Result<(), CertError> {
     Ok(())
 }
 
-fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError> {
+fn parse_signature(signature: DerObj) -> Result<Signature<Order>, CertError> {
     if signature.tag != DerTag::BitString as u8 {
         return Err(CertError::ParseError);
     }
@@ -42,24 +43,37 @@ fn parse_signature(signature: DerObj) -> Result<Signature<Secp256r1>, CertError>
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = r_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let r = UBigInt::<4>::from_be_bytes(r_obj.data[leading_bytes..].try_into().unwrap());
-    let r = FieldElement::<4, Secp256r1>::try_new(r).ok_or(CertError::CertInvalid)?;
+    let r = parse_scalar(r_obj.data)?;
 
     let s_obj = sig_iter.next().ok_or(CertError::ParseError)?;
     if s_obj.tag != DerTag::Integer as u8 {
         return Err(CertError::ParseError);
     }
 
-    // remove leading zeros
-    let leading_bytes = s_obj.data.len().checked_sub(32).ok_or(CertError::ParseError)?;
-    let s = UBigInt::<4>::from_be_bytes(s_obj.data[leading_bytes..].try_into().unwrap());
-    let s = FieldElement::<4, Secp256r1>::try_new(s).ok_or(CertError::CertInvalid)?;
+    let s = parse_scalar(s_obj.data)?;
 
     Ok(Signature::new(r, s))
 }
 
+/// Parses a component of a signature, which is a positive DER integer less than the group order.
+fn parse_scalar(data: &[u8]) -> Result<FieldElement<4, Order>, CertError> {
+    let digits = match data {
+        [0, digits @ ..] if digits.first().is_some_and(|x| x & 0x80 != 0) => digits,
+        // negative numbers and superfluous leading zeros
+        [x, ..] if *x & 0x80 != 0 => return Err(CertError::CertInvalid),
+        [0, _, ..] | [] => return Err(CertError::ParseError),
+        digits => digits,
+    };
+    let mut buf = [0; 32];
+    let leading_zeros = buf.len().checked_sub(digits.len()).ok_or(CertError::CertInvalid)?;
+    buf[leading_zeros..].copy_from_slice(digits);
+    let scalar = FieldElement::try_new(UBigInt::<4>::from_be_bytes(buf)).ok_or(CertError::CertInvalid)?;
+    if scalar == FieldElement::ZERO {
+        return Err(CertError::CertInvalid);
+    }
+    Ok(scalar)
+}
+
 fn parse_tbs_cert(tbs_cert: DerObj) -> Result<(), CertError> {
     if tbs_cert.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
-- 
2.43.0


From bc279e1695a20522e847a3ba2e15d09e9e11cce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:01 +0000
Subject: [PATCH 42/44] fix: refuse malformed Certificate messages instead of
 panicking

---
 src/certificates.rs      | 38 ++++++++++++++++++++++++++++++++------
 src/certificates/x509.rs | 12 ++++++++++++
 src/handshake.rs         | 15 ++++++---------
 3 files changed, 50 insertions(+), 15 deletions(-)

diff --git a/src/certificates.rs b/src/certificates.rs
index 5f3b120..f8e776e 100644
--- a/src/certificates.rs
+++ b/src/certificates.rs
@@ -1,5 +1,7 @@
 use std::iter::Iterator;
 
+use crate::TurtlsAlert;
+
 pub(crate) mod der;
 pub(crate) mod x509;
 
@@ -23,6 +25,27 @@ pub(crate) struct CertIter<'a> {
     cert_list: &'a [u8],
 }
 
+/// Parses the Certificate message of a server.
+pub(crate) fn parse_certificate(msg: &[u8]) -> Result<(), TurtlsAlert> {
+    let (context_len, msg) = msg.split_first().ok_or(TurtlsAlert::DecodeError)?;
+    let (_context, msg) = msg
+        .split_at_checked(*context_len as usize)
+        .ok_or(TurtlsAlert::DecodeError)?;
+
+    let (list_len, cert_list) = msg.split_at_checked(3).ok_or(TurtlsAlert::DecodeError)?;
+    let list_len = u32::from_be_bytes([0, list_len[0], list_len[1], list_len[2]]) as usize;
+
+    // The server must send at least one certificate.
+    if list_len != cert_list.len() || list_len == 0 {
+        return Err(TurtlsAlert::DecodeError);
+    }
+
+    for cert in CertIter::new(cert_list) {
+        x509::validate_cert(cert?.data).map_err(|err| err.to_alert())?;
+    }
+    Ok(())
+}
+
 impl<'a> CertIter<'a> {
     pub(crate) fn new(cert_list: &'a [u8]) -> Self {
         Self {
@@ -32,30 +55,33 @@ impl<'a> CertIter<'a> {
 }
 
 impl<'a> Iterator for CertIter<'a> {
-    type Item = CertEntry<'a>;
+    type Item = Result<CertEntry<'a>, TurtlsAlert>;
 
-    fn next(&mut self) -> Option<CertEntry<'a>> {
-        if self.cert_list.len() < 5 {
+    fn next(&mut self) -> Option<Self::Item> {
+        if self.cert_list.is_empty() {
             return None;
         }
+        if self.cert_list.len() < 5 {
+            return Some(Err(TurtlsAlert::DecodeError));
+        }
         let data_len =
             u32::from_be_bytes([0, self.cert_list[0], self.cert_list[1], self.cert_list[2]])
                 as usize;
         if data_len > self.cert_list.len() - 5 {
-            return None;
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let extensions_len = u16::from_be_bytes([
             self.cert_list[3 + data_len],
             self.cert_list[3 + data_len + 1],
         ]) as usize;
         if extensions_len > self.cert_list.len() - 5 - data_len {
-            return None;
+            return Some(Err(TurtlsAlert::DecodeError));
         }
         let cert = CertEntry {
             data: &self.cert_list[3..][..data_len],
             extensions: &self.cert_list[3 + data_len + 2..][..extensions_len],
         };
         self.cert_list = &self.cert_list[5 + data_len + extensions_len..];
-        Some(cert)
+        Some(Ok(cert))
     }
 }
diff --git a/src/certificates/x509.rs b/src/certificates/x509.rs
index 238eb87..0d00165 100644
--- a/src/certificates/x509.rs
+++ b/src/certificates/x509.rs
@@ -1,5 +1,7 @@
 use super::der::{DerClass, DerIter, DerObj, DerTag, DerPrimCon, der_gen_tag};
 
+use crate::TurtlsAlert;
+
 use crylib::ec::ecdsa::Signature;
 use crylib::ec::{EllipticCurve, Secp256r1};
 use crylib::big_int::UBigInt;
@@ -163,6 +165,16 @@ pub(crate) enum CertError {
     UnsupportedSigAlg,
 }
 
+impl CertError {
+    pub(crate) const fn to_alert(self) -> TurtlsAlert {
+        match self {
+            Self::ParseError | Self::CertInvalid => TurtlsAlert::BadCert,
+            Self::CertExpired => TurtlsAlert::CertExpired,
+            Self::UnsupportedVersion | Self::UnsupportedSigAlg => TurtlsAlert::UnsupportedCert,
+        }
+    }
+}
+
 fn validate_time(validity: DerObj) -> Result<(), CertError> {
     if validity.tag != DerTag::Sequence as u8 {
         return Err(CertError::ParseError);
diff --git a/src/handshake.rs b/src/handshake.rs
index 915ca90..98e7ff4 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -123,15 +123,12 @@ pub(crate) fn handshake_client(
                         global_state.error = FullError::sending_alert(alert);
                         return Err(());
                     }
-                    let cert_msg = shake_state.buf.data();
-
-                    let context_len = cert_msg[0] as usize;
-                    let certs = &cert_msg[1 + context_len as usize..];
-
-                    let data_len = u32::from_be_bytes([0, certs[0], certs[1], certs[2]]) as usize;
-                    for cert in crate::certificates::CertIter::new(&certs[3..][..data_len]) {
-                        crate::certificates::x509::validate_cert(cert.data).unwrap();
-                    }
+                    crate::certificates::parse_certificate(shake_state.buf.data()).map_err(
+                        |alert| {
+                            global_state.rl.close(alert, aead);
+                            global_state.error = FullError::sending_alert(alert);
+                        },
+                    )?;
                     todo!("validate certificates");
                 },
                 _ => todo!("Finish handshake"),
-- 
2.43.0


From ca70d5deaff08b8e7f202e8570aad0b1b214a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:04 +0000
Subject: [PATCH 43/44] fix: refuse unvalidated certificates instead of
 aborting

---
 src/handshake.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handshake.rs b/src/handshake.rs
index 98e7ff4..e6f1998 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -129,7 +129,12 @@ pub(crate) fn handshake_client(
                             global_state.error = FullError::sending_alert(alert);
                         },
                     )?;
-                    todo!("validate certificates");
+                    // TODO: validate certificates and finish the handshake. Until then, no server
+                    // can be trusted.
+                    let alert = TurtlsAlert::CertUnknown;
+                    global_state.rl.close(alert, aead);
+                    global_state.error = FullError::sending_alert(alert);
+                    return Err(());
                 },
                 _ => todo!("Finish handshake"),
             },
-- 
2.43.0


From 8f9b1ce8652e5ae300a90082846000457638259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:03 +0000
Subject: [PATCH 44/44] fix: refuse protected records with more than 2^14 bytes
 of plaintext

---
 src/record/read.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record/read.rs b/src/record/read.rs
index 3f065e6..1975c0b 100644
--- a/src/record/read.rs
+++ b/src/record/read.rs
@@ -152,6 +152,9 @@ impl RecordLayer {
         }
 
         self.rbuf.len -= TAG_SIZE;
+        if self.rbuf.len > Self::MAX_LEN + size_of::<ContentType>() {
+            return Err(TurtlsAlert::RecordOverflow);
+        }
 
         let Some(padding) = self.rbuf.buf[Self::HEADER_SIZE..][..self.rbuf.len]
             .iter()
-- 
2.43.0

