From ae238c25b4a6a89cde8d3d76dc889e08a73b3ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 01/64] fix: rejected shared borrow of AtomicRefCell must not
 change its state

---
 parasol_concurrency/src/lib.rs | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/parasol_concurrency/src/lib.rs b/parasol_concurrency/src/lib.rs
index b3ba051..ed84069 100644
--- a/parasol_concurrency/src/lib.rs
+++ b/parasol_concurrency/src/lib.rs
@@ -73,14 +73,23 @@ impl<T> AtomicRefCell<T> {
     /// # Panics
     /// If the underlying value is already mutably borrowed.
     pub fn borrow(&self) -> Ref<T> {
-        let old = self.state.fetch_add(1, Ordering::Acquire);
+        // Only count the borrow if we're allowed to have it. A rejected borrow must not
+        // disturb the state, or subsequent borrows would alias the outstanding ones.
+        let result = self
+            .state
+            .fetch_update(Ordering::Acquire, Ordering::Relaxed, |old| {
+                if old == 0 || old >= usize::MAX / 2 {
+                    None
+                } else {
+                    Some(old + 1)
+                }
+            });
 
-        if old == 0 {
-            panic!("AtomicRefCell already borrowed as mut");
-        }
+        if let Err(old) = result {
+            if old == 0 {
+                panic!("AtomicRefCell already borrowed as mut");
+            }
 
-        if old >= usize::MAX / 2 {
-            self.state.fetch_sub(1, Ordering::Acquire);
             panic!("AtomicRefCell says I think you have enough references, buddy.");
         }
 
-- 
2.43.0


From d0fdb7b55f1f5692c12a04c55457844d73ebcd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 02/64] fix: decode torus elements with 32 or more plaintext
 bits

---
 sunscreen_tfhe/src/math/torus.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/torus.rs b/sunscreen_tfhe/src/math/torus.rs
index e03ad0e..19ce18b 100644
--- a/sunscreen_tfhe/src/math/torus.rs
+++ b/sunscreen_tfhe/src/math/torus.rs
@@ -294,7 +294,7 @@ impl<S: TorusOps> Torus<S> {
         assert!(plain_bits.0 < S::BITS);
 
         let round_bit = self.0.wrapping_shr(S::BITS - plain_bits.0 - 1) & S::from(0x1);
-        let mask = S::from((0x1 << plain_bits.0) - 1);
+        let mask = S::from_u64((0x1u64 << plain_bits.0) - 1);
 
         (self.0.wrapping_shr(S::BITS - plain_bits.0) + round_bit) & mask
     }
-- 
2.43.0


From 44df5ee4aca37b3046666a856c708771f45eb802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 03/64] fix: scalar fallback of u64 vector_sub subtracts
 instead of adding

---
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index bf04674..d40d65c 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -150,7 +150,7 @@ impl VectorOps for u64 {
         if avx2_available() {
             unsafe { avx2::vector_sub_u64(c, a, b) };
         } else {
-            scalar::vector_add(c, a, b);
+            scalar::vector_sub(c, a, b);
         }
     }
 
-- 
2.43.0


From 6ee1625012fe6f022d7e0321685bc57d7afb64ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 04/64] fix: AVX2 vector add and sub wrap when overflow checks
 are enabled

---
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index f4cfcd0..6b9e92f 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -40,7 +40,7 @@ pub fn complex_untwist<T: Float>(output: &mut [T], ifft: &[Complex<T>], twist_in
 #[target_feature(enable = "avx2,fma")]
 pub fn vector_add_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
     for (c, (a, b)) in c.iter_mut().zip(a.iter().cloned().zip(b.iter().cloned())) {
-        *c = a + b;
+        *c = a.wrapping_add(b);
     }
 }
 
@@ -48,7 +48,7 @@ pub fn vector_add_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
 #[target_feature(enable = "avx2,fma")]
 pub fn vector_sub_u64(c: &mut [u64], a: &[u64], b: &[u64]) {
     for (c, (a, b)) in c.iter_mut().zip(a.iter().cloned().zip(b.iter().cloned())) {
-        *c = a - b;
+        *c = a.wrapping_sub(b);
     }
 }
 
-- 
2.43.0


From c1e9dc97f3c0b22db167323c4f6aced6c9e38df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 05/64] fix: RLEV encryption must not print plaintext
 coefficients

---
 sunscreen_tfhe/src/ops/encryption/glev_encryption.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd0e79f..bd91437 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -155,8 +155,6 @@ pub fn encrypt_rlev_ciphertext<S>(
     for (j, glwe) in rlev_ciphertext.glwe_ciphertexts_mut(params).enumerate() {
         scale_msg_by_gadget_factor(scaled_msg, msg, radix.radix_log.0, j);
 
-        dbg!(&scaled_msg.coeffs()[0..16]);
-
         rlwe_encrypt_public(glwe, scaled_msg, rlwe_public_key, params);
     }
 }
-- 
2.43.0


From ebec10e2388f32cf1571d22c68503a4d5264900c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 06/64] fix: GLWE secret key encryption overwrites the
 destination's body

---
 sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index b53e431..38ec73f 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -42,7 +42,7 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
     }
 
     // b = A * S
-    polynomial_add_assign(b, &tmp);
+    b.clone_from_ref(&tmp);
 
     // b = A * S + m
     polynomial_add_assign(b, msg);
-- 
2.43.0


From e4a838dfc78a74e95f1a39c33d21e6be8101933b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 07/64] fix: public functional keyswitch zeroes the map's
 output polynomial

---
 sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 4c30992..9cac4e0 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -126,6 +126,7 @@ pub fn public_functional_keyswitch<S, F>(
 
         row.fft(glev_fft, to_glwe);
 
+        poly.clear();
         f(poly, lwe_vals);
 
         let decomp = PolynomialRadixIterator::new(poly, decomp_scratch, radix);
@@ -138,6 +139,7 @@ pub fn public_functional_keyswitch<S, F>(
         lwe_vals[j] = *b;
     }
 
+    poly.clear();
     f(poly, lwe_vals);
 
     output_fft.ifft(output, to_glwe);
-- 
2.43.0


From b5ca4eb3cee939d19f61fb9f03834cebf0519e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:03 +0000
Subject: [PATCH 08/64] fix: private functional keyswitch overwrites its output

---
 .../src/ops/keyswitch/private_functional_keyswitch.rs           | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index 5a09a6d..cdb6475 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -122,6 +122,8 @@ pub fn private_functional_keyswitch<S: TorusOps>(
 
     assert_eq!(lwe_count.0, inputs.len());
 
+    output.clear();
+
     let mut ksk_glevs = pfksk.glevs(to_glwe, radix);
 
     for input in inputs.iter() {
-- 
2.43.0


From 7448cc548c90c7a5a21a4f0efa719c67443d5a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 09/64] fix: scheme_switch_fft overwrites its output

---
 sunscreen_tfhe/src/ops/fft_ops.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index eb47ee8..8c917fd 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -264,7 +264,9 @@ fn scheme_switch_glwe_operation<S>(
 
     let a_i = x_i.a(params);
 
-    // Generate encrypted secret key component for this specific GLWE
+    // Generate encrypted secret key component for this specific GLWE. Only the polynomial at
+    // index `j` gets written, so zero out the others.
+    y_i_j.clear();
     update_encrypted_secret_key_component_fft(y_i_j, x_i, j, params);
 
     // Process each polynomial in the mask
-- 
2.43.0


From 29ec1ef5321bbea7ef47794e3721a91713ac5cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 10/64] fix: scratch slices must not exceed their allocation

---
 sunscreen_tfhe/src/scratch.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/sunscreen_tfhe/src/scratch.rs b/sunscreen_tfhe/src/scratch.rs
index e280dcf..4dbb34d 100644
--- a/sunscreen_tfhe/src/scratch.rs
+++ b/sunscreen_tfhe/src/scratch.rs
@@ -195,19 +195,24 @@ impl<T> ScratchBuffer<'_, T> {
     #[allow(unused)]
     /// Get a slice to the underlying data.
     pub fn as_slice(&self) -> &[T] {
-        let slice =
-            unsafe { std::mem::transmute::<&[u8], &[T]>((*self.allocation).data.as_slice()) };
-
-        &slice[0..self.requested_len]
+        // The allocation is at least `requested_len * size_of::<T>()` bytes long and aligned for T.
+        unsafe {
+            std::slice::from_raw_parts(
+                (*self.allocation).data.as_ptr().cast::<T>(),
+                self.requested_len,
+            )
+        }
     }
 
     /// Get a mutable slice to the underlying data.
     pub fn as_mut_slice(&mut self) -> &mut [T] {
-        let slice = unsafe {
-            std::mem::transmute::<&mut [u8], &mut [T]>((*self.allocation).data.as_mut_slice())
-        };
-
-        &mut slice[0..self.requested_len]
+        // The allocation is at least `requested_len * size_of::<T>()` bytes long and aligned for T.
+        unsafe {
+            std::slice::from_raw_parts_mut(
+                (*self.allocation).data.as_mut_ptr().cast::<T>(),
+                self.requested_len,
+            )
+        }
     }
 }
 
-- 
2.43.0


From 70dda3a95dd3fc5cd03eb72f05140447ae5d7f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 11/64] fix: radix decomposition that uses every bit of the
 torus

---
 sunscreen_tfhe/src/math/radix.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index 21e71bd..bb2ae5c 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -39,7 +39,7 @@ fn get_next_digit<S: TorusOps>(cur: &mut S, radix_log: usize) -> S {
     let mut digit = *cur & mask;
     *cur = *cur >> radix_log;
     let carry = digit >> (radix_log - 1);
-    *cur = *cur + carry;
+    *cur = cur.wrapping_add(&carry);
     digit = digit.wrapping_sub(&(carry << radix_log));
 
     digit
@@ -83,7 +83,7 @@ where
         scratch: &'a mut PolynomialRef<S>,
         radix: &RadixDecomposition,
     ) -> Self {
-        assert!(radix.radix_log.0 * radix.count.0 < S::BITS as usize);
+        assert!(radix.radix_log.0 * radix.count.0 <= S::BITS as usize);
         assert_ne!(radix.radix_log.0 * radix.count.0, 0);
 
         poly.map_into(scratch, |x| round(*x, radix));
@@ -156,6 +156,12 @@ pub fn scale_by_decomposition_factor<S: TorusOps>(
 /// Rounds the given [`Torus`] element and returns the value interpreted as an integer.
 fn round<S: TorusOps>(x: Torus<S>, radix: &RadixDecomposition) -> S {
     let shift = S::BITS as usize - radix.radix_log.0 * radix.count.0;
+
+    // The decomposition is exact, so there's nothing to round.
+    if shift == 0 {
+        return x.inner();
+    }
+
     let round_bit = (x.inner() >> (shift - 1)) & S::from_u64(0x1);
 
     (x.inner() >> shift).wrapping_add(&round_bit)
-- 
2.43.0


From 6281a9548a3496a651227e62227a235b6347bdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:02 +0000
Subject: [PATCH 12/64] fix: rounded division by odd divisors and of negative
 numbers

---
 sunscreen_tfhe/src/math/basic.rs | 52 +++++++++++++++++++++++---------
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/sunscreen_tfhe/src/math/basic.rs b/sunscreen_tfhe/src/math/basic.rs
index 19cc422..c920e8e 100644
--- a/sunscreen_tfhe/src/math/basic.rs
+++ b/sunscreen_tfhe/src/math/basic.rs
@@ -4,7 +4,7 @@ pub trait RoundedDiv {
     fn div_rounded(&self, divisor: Self) -> Self;
 }
 
-macro_rules! div_rounded {
+macro_rules! div_rounded_unsigned {
     ($t:ty) => {
         impl RoundedDiv for $t {
             #[inline(always)]
@@ -16,24 +16,48 @@ macro_rules! div_rounded {
                 // inputs in half before overflow.
                 let q = self / divisor;
                 let r = self % divisor;
-                if r >= divisor / 2 { q + 1 } else { q }
+
+                // r >= divisor / 2, rounding the half up when the divisor is odd.
+                if r >= divisor - divisor / 2 { q + 1 } else { q }
+            }
+        }
+    };
+}
+
+macro_rules! div_rounded_signed {
+    ($t:ty) => {
+        impl RoundedDiv for $t {
+            #[inline(always)]
+            fn div_rounded(&self, divisor: $t) -> $t {
+                // Same as above with the magnitudes. Halfway cases round away from 0.
+                let q = self / divisor;
+                let r = (self % divisor).unsigned_abs();
+                let d = divisor.unsigned_abs();
+
+                if r < d - d / 2 {
+                    q
+                } else if (*self < 0) == (divisor < 0) {
+                    q + 1
+                } else {
+                    q - 1
+                }
             }
         }
     };
 }
 
-div_rounded!(u8);
-div_rounded!(u16);
-div_rounded!(u32);
-div_rounded!(u64);
-div_rounded!(u128);
-div_rounded!(usize);
-div_rounded!(i8);
-div_rounded!(i16);
-div_rounded!(i32);
-div_rounded!(i64);
-div_rounded!(i128);
-div_rounded!(isize);
+div_rounded_unsigned!(u8);
+div_rounded_unsigned!(u16);
+div_rounded_unsigned!(u32);
+div_rounded_unsigned!(u64);
+div_rounded_unsigned!(u128);
+div_rounded_unsigned!(usize);
+div_rounded_signed!(i8);
+div_rounded_signed!(i16);
+div_rounded_signed!(i32);
+div_rounded_signed!(i64);
+div_rounded_signed!(i128);
+div_rounded_signed!(isize);
 
 #[cfg(test)]
 mod tests {
-- 
2.43.0


From 31d5bc5c29eeb4b7f7e26aa4efb0237ba1aeb7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 13/64] fix: Goldilocks field construction and negation fully
 reduce

---
 sunscreen_tfhe/src/math/goldilocks_field.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/goldilocks_field.rs b/sunscreen_tfhe/src/math/goldilocks_field.rs
index 915913b..abe2811 100644
--- a/sunscreen_tfhe/src/math/goldilocks_field.rs
+++ b/sunscreen_tfhe/src/math/goldilocks_field.rs
@@ -36,7 +36,7 @@ impl RootOfUnity for Fg {
 impl Fg {
     /// Returns `x % GOLDILOCKS_PRIME`
     pub fn new(x: u64) -> Self {
-        if x > GOLDILOCKS_PRIME {
+        if x >= GOLDILOCKS_PRIME {
             Self(x - GOLDILOCKS_PRIME)
         } else {
             Self(x)
@@ -139,7 +139,11 @@ impl Neg for Fg {
     type Output = Fg;
 
     fn neg(self) -> Self::Output {
-        Self(GOLDILOCKS_PRIME - self.0)
+        if self.0 == 0 {
+            self
+        } else {
+            Self(GOLDILOCKS_PRIME - self.0)
+        }
     }
 }
 
-- 
2.43.0


From d24c6796debe8a213a1922e119d23d839a4e8910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 14/64] fix: polynomial equality compares the leading
 coefficient

---
 sunscreen_math/src/poly/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index 57fda40..aaecc73 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -43,7 +43,7 @@ where
             return false;
         }
 
-        for i in 0..lhs_degree {
+        for i in 0..=lhs_degree {
             if self.coeffs[i] != other.coeffs[i] {
                 return false;
             }
-- 
2.43.0


From 7899291f1f6464bb82c31bcadb6600cbe33f2418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:39 +0000
Subject: [PATCH 15/64] fix: combination counts that fit the result no longer
 overflow

---
 sunscreen_math/src/combination.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunscreen_math/src/combination.rs b/sunscreen_math/src/combination.rs
index 683fe5f..53519d2 100644
--- a/sunscreen_math/src/combination.rs
+++ b/sunscreen_math/src/combination.rs
@@ -40,7 +40,10 @@ fn number_combinations(n: usize, mut k: usize) -> usize {
 
     let mut result = 1;
     for i in 1..=k {
-        result = result * (n - k + i) / i;
+        // The product may not fit even when the quotient does.
+        let next = result as u128 * (n - k + i) as u128 / i as u128;
+
+        result = usize::try_from(next).expect("The number of combinations overflowed.");
     }
 
     result
-- 
2.43.0


From 5267207133336b85ed3129b485039ad04229f42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:15 +0000
Subject: [PATCH 16/64] fix: partially consumed entity iterators report their
 remaining length

---
 sunscreen_tfhe/src/dst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index ae6ee10..a050032 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -179,7 +179,7 @@ macro_rules! dst_iter {
             impl<'a, T> std::iter::ExactSizeIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
                 #[inline(always)]
                 fn len(&self) -> usize {
-                    self.data.len() / self.stride
+                    (self.back_idx + self.stride as i64 - self.front_idx as i64) as usize / self.stride
                 }
             }
 
-- 
2.43.0


From 8107706aff25462de9f758348c7499f51d1f3c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:20 +0000
Subject: [PATCH 17/64] verif-hooks: feature-gated access to private items for
 runtime monitors

---
 sunscreen_tfhe/Cargo.toml                  |  4 ++++
 sunscreen_tfhe/src/lib.rs                  |  9 ++++++++
 sunscreen_tfhe/src/math/mod.rs             |  9 ++++++++
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs | 24 ++++++++++++++++++++++
 4 files changed, 46 insertions(+)

diff --git a/sunscreen_tfhe/Cargo.toml b/sunscreen_tfhe/Cargo.toml
index e563141..9c30524 100644
--- a/sunscreen_tfhe/Cargo.toml
+++ b/sunscreen_tfhe/Cargo.toml
@@ -27,6 +27,10 @@ serde = { workspace = true }
 sunscreen_math = { workspace = true }
 thiserror = { workspace = true }
 
+[features]
+# Exposes private items to external runtime monitors. Never enable this in production.
+verif-hooks = []
+
 [dev-dependencies]
 criterion = { workspace = true }
 proptest = { workspace = true }
diff --git a/sunscreen_tfhe/src/lib.rs b/sunscreen_tfhe/src/lib.rs
index 4b6b40a..685ddc6 100644
--- a/sunscreen_tfhe/src/lib.rs
+++ b/sunscreen_tfhe/src/lib.rs
@@ -37,3 +37,12 @@ pub mod high_level;
 /// Container [`Error`] and [`Result`] types for this crate.
 mod error;
 pub use error::*;
+
+/// Private items exposed to external runtime monitors.
+#[cfg(feature = "verif-hooks")]
+#[allow(missing_docs)]
+pub mod verif_hooks {
+    pub use crate::iteration::{ParTriangularPairsExt, TriangularPairsExt};
+    pub use crate::math::verif_hooks::*;
+    pub use crate::scratch::{Pod, SIMD_ALIGN, ScratchBuffer, allocate_scratch};
+}
diff --git a/sunscreen_tfhe/src/math/mod.rs b/sunscreen_tfhe/src/math/mod.rs
index 4d009b8..2ae707b 100644
--- a/sunscreen_tfhe/src/math/mod.rs
+++ b/sunscreen_tfhe/src/math/mod.rs
@@ -20,6 +20,15 @@ pub use basic::*;
 
 pub(crate) mod simd;
 
+#[cfg(feature = "verif-hooks")]
+#[allow(missing_docs)]
+pub(crate) mod verif_hooks {
+    pub use super::goldilocks_field::{Fg, GOLDILOCKS_PRIME};
+    #[cfg(any(target_arch = "x86", target_arch = "x86_64"))]
+    pub use super::simd::force_scalar;
+    pub use super::simd::{VectorOps, complex_mad, complex_twist, complex_untwist};
+}
+
 /// Types where the roots of unity in the given field can be found.
 pub trait RootOfUnity
 where
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index d40d65c..8be1560 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -11,8 +11,22 @@ use crate::{
     simd::{VectorOps, scalar},
 };
 
+#[cfg(feature = "verif-hooks")]
+static FORCE_SCALAR: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
+
+/// Make every kernel behave as if the CPU had no vector extensions.
+#[cfg(feature = "verif-hooks")]
+pub fn force_scalar(force: bool) {
+    FORCE_SCALAR.store(force, std::sync::atomic::Ordering::SeqCst);
+}
+
 #[inline(always)]
 fn avx_512_available() -> bool {
+    #[cfg(feature = "verif-hooks")]
+    if FORCE_SCALAR.load(std::sync::atomic::Ordering::Relaxed) {
+        return false;
+    }
+
     static AVX512_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX512_AVAILABLE.get_or_init(|| {
@@ -26,6 +40,11 @@ fn avx_512_available() -> bool {
 
 #[inline(always)]
 fn avx2_available() -> bool {
+    #[cfg(feature = "verif-hooks")]
+    if FORCE_SCALAR.load(std::sync::atomic::Ordering::Relaxed) {
+        return false;
+    }
+
     static AVX2_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *AVX2_AVAILABLE.get_or_init(|| {
@@ -39,6 +58,11 @@ fn avx2_available() -> bool {
 
 #[inline(always)]
 fn fma_available() -> bool {
+    #[cfg(feature = "verif-hooks")]
+    if FORCE_SCALAR.load(std::sync::atomic::Ordering::Relaxed) {
+        return false;
+    }
+
     static FMA_AVAILABLE: OnceLock<bool> = OnceLock::new();
 
     *FMA_AVAILABLE.get_or_init(|| {
-- 
2.43.0


From 52c0e40dede1c0a3e5851c5afd562bb4e4ffa082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:01 +0000
Subject: [PATCH 18/64] fix: a decomposition into one digit as wide as the word
 returns that digit

---
 sunscreen_tfhe/src/math/radix.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index bb2ae5c..28c81fe 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -33,6 +33,11 @@ impl<S: TorusOps> ScalarRadixIterator<S> {
 
 #[inline(always)]
 fn get_next_digit<S: TorusOps>(cur: &mut S, radix_log: usize) -> S {
+    // A single digit spans the whole word; its carry wraps around the torus.
+    if radix_log == S::BITS as usize {
+        return *cur;
+    }
+
     let mask = S::from_u64((0x1u64 << radix_log) - 1);
 
     // Interpreting the digits over [-B/2,B/2) reduces noise by half a bit on average.
@@ -103,6 +108,12 @@ where
 
         self.level += 1;
 
+        // A single digit spans the whole word; its carry wraps around the torus.
+        if self.radix.radix_log.0 == S::BITS as usize {
+            dst.clone_from_ref(self.scratch);
+            return Some(());
+        }
+
         S::vector_next_decomp(
             self.scratch.coeffs_mut(),
             dst.coeffs_mut(),
-- 
2.43.0


From 2ca39915a4c352133b18c8dfd0e8a076995d7d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:04 +0000
Subject: [PATCH 19/64] verif-hooks: do not require docs on the exposed private
 items

---
 sunscreen_tfhe/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunscreen_tfhe/src/lib.rs b/sunscreen_tfhe/src/lib.rs
index 685ddc6..ee5fb86 100644
--- a/sunscreen_tfhe/src/lib.rs
+++ b/sunscreen_tfhe/src/lib.rs
@@ -2,6 +2,7 @@
 
 #![deny(missing_docs)]
 #![deny(rustdoc::broken_intra_doc_links)]
+#![cfg_attr(feature = "verif-hooks", allow(missing_docs))]
 
 #[macro_use]
 mod dst;
-- 
2.43.0


From ae44dcc4b17996c1972959d5ecd50b24f513ea50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:47 +0000
Subject: [PATCH 20/64] fix: AVX512 scalar multiply-accumulate stays inside its
 slices for every length and alignment

---
 sunscreen_tfhe/src/math/simd/x86_64/avx512.rs | 28 ++++++++++++-------
 sunscreen_tfhe/src/math/simd/x86_64/mod.rs    |  3 +-
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
index ee80f84..0446616 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx512.rs
@@ -90,24 +90,28 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
     #[repr(C, align(64))]
     struct AlignedArray([i64; 8]);
 
-    let s = s as i64;
-    let s = AlignedArray([s, s, s, s, s, s, s, s]);
-    let s_ptr = s.0.as_ptr();
+    // Vectors of 16 words at a time, the remaining words follow below.
+    let len = c.len().min(a.len());
+    let vector_len = len - len % 16;
+
+    let s_i64 = s as i64;
+    let s_array = AlignedArray([s_i64; 8]);
+    let s_ptr = s_array.0.as_ptr();
 
     // Each complex is 2 f64 values.
-    while i < c.len() {
+    while i < vector_len {
         unsafe {
             asm!(
                 // TODO: Move loading s outside the loop.
                 "vmovdqa64 zmm7, [{s_ptr}]",
 
                 // Load 2 __m512d of u64 from a
-                "vmovdqa64 zmm0, [{a_ptr}+8*{i}]",
-                "vmovdqa64 zmm1, [{a_ptr}+8*{i}+64]",
+                "vmovdqu64 zmm0, [{a_ptr}+8*{i}]",
+                "vmovdqu64 zmm1, [{a_ptr}+8*{i}+64]",
 
                 // Load 2 __m512d of u64 from c
-                "vmovdqa64 zmm2, [{c_ptr}+8*{i}]",
-                "vmovdqa64 zmm3, [{c_ptr}+8*{i}+64]",
+                "vmovdqu64 zmm2, [{c_ptr}+8*{i}]",
+                "vmovdqu64 zmm3, [{c_ptr}+8*{i}+64]",
 
                 "vpmullq zmm4, zmm0, zmm7", // multiply 64-bit words in zmm0 and zmm2
                 "vpmullq zmm5, zmm1, zmm7", // multiply 64-bit words in zmm1 and zmm3
@@ -115,8 +119,8 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
                 "vpaddq zmm2, zmm2, zmm4", // Add zmm0 scaled by s
                 "vpaddq zmm3, zmm3, zmm5", // Add zmm1 scaled by s
 
-                "vmovdqa64 [{c_ptr}+8*{i}], zmm2",
-                "vmovdqa64 [{c_ptr}+8*{i}+64], zmm3",
+                "vmovdqu64 [{c_ptr}+8*{i}], zmm2",
+                "vmovdqu64 [{c_ptr}+8*{i}+64], zmm3",
 
                 a_ptr = in(reg) a_ptr,
                 c_ptr = in(reg) c_ptr,
@@ -134,6 +138,10 @@ pub fn vector_scalar_mad(c: &mut [u64], a: &[u64], s: u64) {
 
         i += 16;
     }
+
+    for (c, a) in c[vector_len..len].iter_mut().zip(&a[vector_len..len]) {
+        *c = c.wrapping_add(a.wrapping_mul(s));
+    }
 }
 
 #[cfg(test)]
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
index 8be1560..0e31fae 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/mod.rs
@@ -31,7 +31,8 @@ fn avx_512_available() -> bool {
 
     *AVX512_AVAILABLE.get_or_init(|| {
         if let Some(e) = CpuId::new().get_extended_feature_info() {
-            e.has_avx512f()
+            // The kernels multiply 64-bit words, which is part of AVX512DQ.
+            e.has_avx512f() && e.has_avx512dq()
         } else {
             false
         }
-- 
2.43.0


From 798f5e2ac2f1ed3d94ffcc802b382a86342f2646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:01 +0000
Subject: [PATCH 21/64] fix: portable scalar multiply-accumulate wraps when
 overflow checks are enabled

---
 sunscreen_tfhe/src/math/simd/scalar.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index aa7d863..bb3095d 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -1,8 +1,8 @@
-use std::ops::{Add, BitAnd, Shl, Shr};
+use std::ops::{BitAnd, Shl, Shr};
 
 use num::{
     Complex, Float,
-    traits::{MulAdd, WrappingAdd, WrappingSub},
+    traits::{WrappingAdd, WrappingMul, WrappingSub},
 };
 use sunscreen_math::One;
 
@@ -119,14 +119,12 @@ pub fn vector_mod_pow2_q_f64<T: FromF64>(c: &mut [T], a: &[f64], log2_q: u64) {
 }
 
 #[inline(always)]
-pub fn vector_scalar_mad<S, T, U>(c: &mut [S], a: &[T], s: U)
+pub fn vector_scalar_mad<S>(c: &mut [S], a: &[S], s: S)
 where
-    S: Clone + Copy + Add<S, Output = S>,
-    T: Clone + Copy + MulAdd<U, S, Output = S>,
-    U: Clone + Copy,
+    S: WrappingAdd<Output = S> + WrappingMul<Output = S>,
 {
     for (c, a) in c.iter_mut().zip(a.iter()) {
-        *c = a.mul_add(s, *c);
+        *c = c.wrapping_add(&a.wrapping_mul(&s));
     }
 }
 
-- 
2.43.0


From 94ec5792310caab87975c95d6d52ca2e25a856b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 22/64] fix: reducing -q/2 modulo q no longer saturates to q/2
 - 1

---
 sunscreen_tfhe/src/math/simd/scalar.rs      | 2 +-
 sunscreen_tfhe/src/math/simd/x86_64/avx2.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/simd/scalar.rs b/sunscreen_tfhe/src/math/simd/scalar.rs
index bb3095d..83ad415 100644
--- a/sunscreen_tfhe/src/math/simd/scalar.rs
+++ b/sunscreen_tfhe/src/math/simd/scalar.rs
@@ -110,7 +110,7 @@ pub fn vector_mod_pow2_q_f64<T: FromF64>(c: &mut [T], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
diff --git a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
index 6b9e92f..d404d1b 100644
--- a/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
+++ b/sunscreen_tfhe/src/math/simd/x86_64/avx2.rs
@@ -116,7 +116,7 @@ pub fn vector_mod_pow2_q_f64_u64(c: &mut [u64], a: &[f64], log2_q: u64) {
         // point.
         if ifft >= q_div_2 {
             ifft -= q;
-        } else if ifft <= -q_div_2 {
+        } else if ifft < -q_div_2 {
             ifft += q;
         }
 
-- 
2.43.0


From 475ca4a45ef34a426518bd20c3243ce4b809ef5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:20 +0000
Subject: [PATCH 23/64] fix: recomposing a single digit as wide as the word no
 longer overflows a shift

---
 sunscreen_tfhe/src/math/radix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index 28c81fe..f1c2225 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -137,14 +137,14 @@ pub fn recompose_and_add<S>(
     S: TorusOps,
 {
     let shift_amount = S::BITS as usize - radix.0 * count.0;
-    let mut cur_radix = S::from_u64(0x1 << shift_amount);
     let mut actual_count = 0;
 
     for d in digits {
+        // Shift per digit: a shift past the last digit can exceed the word.
+        let cur_radix = S::from_u64(0x1 << (shift_amount + radix.0 * actual_count));
         polynomial_scalar_mad(dst, d.as_torus(), cur_radix);
 
         actual_count += 1;
-        cur_radix = cur_radix << radix.0;
     }
 
     assert_eq!(count.0, actual_count);
-- 
2.43.0


From e156eefebfbad77beaa831a62720065f244ec647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 24/64] fix: reading back a gadget ciphertext whose digit fills
 the word no longer underflows a shift

---
 .../src/ops/encryption/glev_encryption.rs       | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index bd91437..cb8d5aa 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -186,14 +186,19 @@ pub(crate) fn decrypt_glwe_in_glev<S>(
     // every row but the last (-SM) and M for the last row.
     decrypt_glwe_ciphertext(msg, glwe, glwe_secret_key, params);
 
-    let mask = (0x1 << decomposition_radix_log) - 1;
+    let mask = u64::MAX >> (u64::BITS as usize - decomposition_radix_log);
+    let shift = S::BITS as usize - decomposition_radix_log * (index + 1);
 
     for c in msg.coeffs_mut() {
-        let val = c.inner() >> (S::BITS as usize - decomposition_radix_log * (index + 1));
-        let r = (c.inner() >> (S::BITS as usize - decomposition_radix_log * (index + 1) - 1))
-            & S::from_u64(0x1);
-
-        *c = Torus::from((val + r) & S::from_u64(mask));
+        let val = c.inner() >> shift;
+        // With no bits below the message, there is nothing to round.
+        let r = if shift == 0 {
+            S::from_u64(0x0)
+        } else {
+            (c.inner() >> (shift - 1)) & S::from_u64(0x1)
+        };
+
+        *c = Torus::from(val.wrapping_add(&r) & S::from_u64(mask));
     }
 }
 
-- 
2.43.0


From 57a42c808e4f33b70c92074bcebaa0be53c25f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 25/64] fix: LWE keyswitch keys of non-binary secret keys no
 longer overflow when checked

---
 sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs b/sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs
index 1316725..8b6750e 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/lwe_keyswitch_key.rs
@@ -42,7 +42,7 @@ pub fn generate_keyswitch_key_lwe<S>(
             let decomp_factor =
                 S::from_u64(0x1 << (S::BITS as usize - decomposition_radix_log * (j + 1)));
 
-            let msg = decomp_factor * s_i;
+            let msg = decomp_factor.wrapping_mul(&s_i);
 
             encrypt_lwe_ciphertext(col, new_lwe_secret_key, Torus::from(msg), new_params);
         }
-- 
2.43.0


From bb88877d3e5e70c72c30455f047de1c32d76c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:16 +0000
Subject: [PATCH 26/64] fix: automorphism keys of non-binary secret keys no
 longer overflow when checked

---
 sunscreen_tfhe/src/ops/automorphisms/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/automorphisms/mod.rs b/sunscreen_tfhe/src/ops/automorphisms/mod.rs
index 0e537ac..85741ff 100644
--- a/sunscreen_tfhe/src/ops/automorphisms/mod.rs
+++ b/sunscreen_tfhe/src/ops/automorphisms/mod.rs
@@ -1,9 +1,11 @@
 use num::Complex;
 
 use crate::{
-    GlweDef, OverlaySize, RadixDecomposition, TorusOps,
+    GlweDef, OverlaySize, RadixDecomposition, Torus, TorusOps,
     dst::FromMutSlice,
-    entities::{AutomorphismKeyFftRef, AutomorphismKeyRef, GlweCiphertextRef, GlweSecretKeyRef},
+    entities::{
+        AutomorphismKeyFftRef, AutomorphismKeyRef, GlweCiphertextRef, GlweSecretKeyRef, Polynomial,
+    },
     ops::{
         ciphertext::glwe_add_assign, fft_ops::keyswitch_glwe_to_glwe,
         keyswitch::glwe_keyswitch_key::generate_keyswitch_key_glwe, polynomial::polynomial_pow_k,
@@ -36,7 +38,13 @@ pub fn generate_automorphism_key<S: TorusOps>(
         let k = poly_degree / (1 << (i - 1)) + 1;
 
         for (glwe_sk_k, glwe_sk) in glwe_sk_k.s_mut(glwe).zip(glwe_sk.s(glwe)) {
-            polynomial_pow_k(glwe_sk_k, glwe_sk, k);
+            // Key coefficients wrap when negated.
+            let mut s_k = Polynomial::<Torus<S>>::zero(poly_degree);
+            polynomial_pow_k::<_, S>(&mut s_k, &glwe_sk.map(|x| Torus::from(*x)), k);
+
+            for (o, c) in glwe_sk_k.coeffs_mut().iter_mut().zip(s_k.coeffs()) {
+                *o = c.inner();
+            }
         }
 
         generate_keyswitch_key_glwe(glwe_ksk, glwe_sk_k, glwe_sk, glwe, radix)
-- 
2.43.0


From 22224a598b498b851261528126930b9bb44f4c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 27/64] fix: tables of several functions that do not fit the
 polynomial are rejected

---
 .../ops/bootstrapping/programmable_bootstrapping.rs  | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
index 1d4f9be..315ba91 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
@@ -135,7 +135,9 @@ pub(crate) fn generate_lut<S, F>(
     S: TorusOps,
     F: Fn(u64) -> u64,
 {
-    let p = (1 << plaintext_bits.0) as usize;
+    assert!(plaintext_bits.0 < usize::BITS);
+
+    let p = 1usize << plaintext_bits.0;
     let n = params.dim.polynomial_degree.0;
 
     let v = maps.len();
@@ -152,6 +154,14 @@ pub(crate) fn generate_lut<S, F>(
 
     let stride = n / p;
 
+    // The outputs of several functions sit next to each other, so half a stride
+    // must hold all of them. Otherwise some functions would be left out and others
+    // would take the place of their neighbors.
+    assert!(
+        v == 1 || stride >= 2 * ceil_v,
+        "A table of {v} functions of {p} messages doesn't fit a polynomial of degree {n}"
+    );
+
     let delta = S::BITS - plaintext_bits.0;
 
     let c = output.coeffs_mut();
-- 
2.43.0


From 7733ce7d406a53fc0b3ed23bbcef38b2dfa2c27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:07 +0000
Subject: [PATCH 28/64] fix: noise of large deviation wraps around and has
 random low bits

---
 sunscreen_tfhe/src/rand.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/rand.rs b/sunscreen_tfhe/src/rand.rs
index ede55d7..974752a 100644
--- a/sunscreen_tfhe/src/rand.rs
+++ b/sunscreen_tfhe/src/rand.rs
@@ -20,11 +20,21 @@ pub struct Stddev(pub f64);
 pub fn normal_torus<S: TorusOps>(std: Stddev) -> Torus<S> {
     let dist = Normal::new(0., std.0).unwrap();
 
-    let e_0 = thread_rng().sample(dist);
+    let e_0: f64 = thread_rng().sample(dist);
     let q = (S::BITS as f64).exp2();
 
+    // An f64 has 53 significant bits, so the low bits of larger noise would always be zero.
+    let lost_bits = ((e_0 * q).abs().log2() - 52.0).min(63.0) as u32;
+    let dither = match lost_bits {
+        0 => 0,
+        _ => thread_rng().next_u64() & ((1 << lost_bits) - 1),
+    };
+
+    // The torus wraps, so noise is only defined modulo 1.
+    let e_0 = e_0 - e_0.round();
+
     let e = f64::round(e_0 * q) as i64;
-    let e: u64 = i64::cast_unsigned(e);
+    let e: u64 = i64::cast_unsigned(e).wrapping_add(dither);
 
     Torus::from(S::from_u64(e))
 }
-- 
2.43.0


From d21499dd6865d13d282c7552798fb076c8824b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 29/64] fix: reject mis-sized operands and invalid parameters
 in ciphertext operations

---
 sunscreen_tfhe/src/math/radix.rs              | 20 +++++++++-
 .../src/ops/ciphertext/glev_ciphertext_ops.rs | 11 +++++-
 .../src/ops/ciphertext/glwe_ciphertext_ops.rs | 38 +++++++++++++++++++
 .../src/ops/ciphertext/lev_ciphertext_ops.rs  |  7 +++-
 .../src/ops/ciphertext/lwe_ciphertext_ops.rs  | 14 ++++++-
 sunscreen_tfhe/src/ops/homomorphisms/lwe.rs   |  2 +
 6 files changed, 87 insertions(+), 5 deletions(-)

diff --git a/sunscreen_tfhe/src/math/radix.rs b/sunscreen_tfhe/src/math/radix.rs
index f1c2225..d2bfeaf 100644
--- a/sunscreen_tfhe/src/math/radix.rs
+++ b/sunscreen_tfhe/src/math/radix.rs
@@ -23,12 +23,19 @@ impl<S: TorusOps> ScalarRadixIterator<S> {
     /// Creates a new [`ScalarRadixIterator`] for the given [Torus] value.
     #[inline(always)]
     pub fn new(val: Torus<S>, radix: &RadixDecomposition) -> Self {
+        radix.assert_valid::<S>();
+
         Self {
             cur: round(val, radix),
             level: 0,
             radix: *radix,
         }
     }
+
+    /// The number of digits not produced yet.
+    pub(crate) fn remaining(&self) -> RadixCount {
+        RadixCount(self.radix.count.0 - self.level)
+    }
 }
 
 #[inline(always)]
@@ -88,8 +95,7 @@ where
         scratch: &'a mut PolynomialRef<S>,
         radix: &RadixDecomposition,
     ) -> Self {
-        assert!(radix.radix_log.0 * radix.count.0 <= S::BITS as usize);
-        assert_ne!(radix.radix_log.0 * radix.count.0, 0);
+        radix.assert_valid::<S>();
 
         poly.map_into(scratch, |x| round(*x, radix));
 
@@ -122,6 +128,16 @@ where
 
         Some(())
     }
+
+    /// The number of digits not produced yet.
+    pub(crate) fn remaining(&self) -> RadixCount {
+        RadixCount(self.radix.count.0 - self.level)
+    }
+
+    /// The number of coefficients of each digit.
+    pub(crate) fn degree(&self) -> usize {
+        self.scratch.len()
+    }
 }
 
 /// Recomposes a polynomial from its `digits` decomposition and adds it to `dst`.
diff --git a/sunscreen_tfhe/src/ops/ciphertext/glev_ciphertext_ops.rs b/sunscreen_tfhe/src/ops/ciphertext/glev_ciphertext_ops.rs
index ed10dca..9b6acbf 100644
--- a/sunscreen_tfhe/src/ops/ciphertext/glev_ciphertext_ops.rs
+++ b/sunscreen_tfhe/src/ops/ciphertext/glev_ciphertext_ops.rs
@@ -1,5 +1,5 @@
 use crate::{
-    GlweDef, TorusOps,
+    GlweDef, OverlaySize, TorusOps,
     entities::{GlevCiphertextRef, GlweCiphertextRef, Polynomial},
     radix::{PolynomialRadixIterator, ScalarRadixIterator},
 };
@@ -23,6 +23,11 @@ pub fn decomposed_polynomial_glev_mad<S>(
 ) where
     S: TorusOps,
 {
+    assert_eq!(a.degree(), params.dim.polynomial_degree.0);
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    b.assert_is_valid((params.dim, a.remaining()));
+
     // a = decomp(a_i)
     // b = r
 
@@ -53,6 +58,10 @@ pub fn decomposed_scalar_glev_mad<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    b.assert_is_valid((params.dim, a.remaining()));
+
     for (b, a) in b.glwe_ciphertexts(params).rev().zip(a) {
         glwe_scalar_mad(c, b, a, params);
     }
diff --git a/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs b/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
index e1dc3f3..64fb78f 100644
--- a/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
+++ b/sunscreen_tfhe/src/ops/ciphertext/glwe_ciphertext_ops.rs
@@ -36,6 +36,8 @@ pub fn sample_extract<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    output.assert_is_valid(params.as_lwe_def().dim);
     glwe.assert_is_valid(params.dim);
     assert!(h < params.dim.polynomial_degree.0);
 
@@ -84,6 +86,11 @@ pub fn add_glwe_ciphertexts<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+    b.assert_is_valid(params.dim);
+
     let (c_a, c_b) = c.a_b_mut(params);
     let (a_a, a_b) = a.a_b(params);
     let (b_a, b_b) = b.a_b(params);
@@ -126,6 +133,11 @@ pub fn sub_glwe_ciphertexts<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+    b.assert_is_valid(params.dim);
+
     let (c_a, c_b) = c.a_b_mut(params);
     let (a_a, a_b) = a.a_b(params);
     let (b_a, b_b) = b.a_b(params);
@@ -148,6 +160,9 @@ pub fn glwe_negate_inplace<S>(ct: &mut GlweCiphertextRef<S>, params: &GlweDef)
 where
     S: TorusOps,
 {
+    params.assert_valid();
+    ct.assert_is_valid(params.dim);
+
     for a in ct.a_mut(params) {
         polynomial_negate(a);
     }
@@ -169,6 +184,11 @@ pub fn glwe_polynomial_mad<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+    b.assert_is_valid(params.dim.polynomial_degree);
+
     let (c_a, c_b) = c.a_b_mut(params);
     let (a_a, a_b) = a.a_b(params);
 
@@ -194,6 +214,10 @@ pub fn glwe_scalar_mad<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+
     for (c, a) in c.a_mut(params).zip(a.a(params)) {
         polynomial_small_scalar_mad(c, a, b.into());
     }
@@ -214,6 +238,12 @@ pub fn glwe_ggsw_mad<S>(
 ) where
     S: TorusOps,
 {
+    glwe_def.assert_valid();
+    radix.assert_valid::<S>();
+    c.assert_is_valid(glwe_def.dim);
+    a.assert_is_valid(glwe_def.dim);
+    b.assert_is_valid((glwe_def.dim, radix.count));
+
     let (a_a, a_b) = a.a_b(glwe_def);
     let rows = b.rows(glwe_def, radix);
 
@@ -273,6 +303,10 @@ pub fn glwe_mod_switch_and_expand_pow_2<S>(
 ) where
     S: TorusOps,
 {
+    glwe.assert_valid();
+    y.assert_is_valid(glwe.dim);
+    x.assert_is_valid(glwe.dim);
+
     for (y, x) in y.a_mut(glwe).zip(x.a(glwe)) {
         polynomial_shr_round(y, x, log_q_prime);
     }
@@ -290,6 +324,10 @@ pub fn glwe_rotate<S>(
 ) where
     S: TorusOps,
 {
+    glwe.assert_valid();
+    y.assert_is_valid(glwe.dim);
+    x.assert_is_valid(glwe.dim);
+
     for (y_a, x_a) in y.a_mut(glwe).zip(x.a(glwe)) {
         y_a.coeffs_mut().clone_from_slice(x_a.coeffs());
     }
diff --git a/sunscreen_tfhe/src/ops/ciphertext/lev_ciphertext_ops.rs b/sunscreen_tfhe/src/ops/ciphertext/lev_ciphertext_ops.rs
index 86aae03..eadda41 100644
--- a/sunscreen_tfhe/src/ops/ciphertext/lev_ciphertext_ops.rs
+++ b/sunscreen_tfhe/src/ops/ciphertext/lev_ciphertext_ops.rs
@@ -1,5 +1,5 @@
 use crate::{
-    LweDef, TorusOps,
+    LweDef, OverlaySize, TorusOps,
     entities::{LevCiphertextRef, LweCiphertextRef, Polynomial},
     radix::PolynomialRadixIterator,
 };
@@ -23,6 +23,11 @@ pub fn decomposed_scalar_lev_mad<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    assert_eq!(a.degree(), 1);
+    b.assert_is_valid((params.dim, a.remaining()));
+
     let b_lwe = b.lwe_ciphertexts(params);
     let mut cur_radix: Polynomial<S> = Polynomial::zero(1);
 
diff --git a/sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs b/sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs
index 979b386..bf28f48 100644
--- a/sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs
+++ b/sunscreen_tfhe/src/ops/ciphertext/lwe_ciphertext_ops.rs
@@ -1,10 +1,14 @@
-use crate::{LweDef, Torus, TorusOps, entities::LweCiphertextRef};
+use crate::{LweDef, OverlaySize, Torus, TorusOps, entities::LweCiphertextRef};
 
 /// Add the coefficients of a to the coefficients of c in place.
 pub fn add_lwe_inplace<S>(c: &mut LweCiphertextRef<S>, a: &LweCiphertextRef<S>, params: &LweDef)
 where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+
     let (c_a, c_b) = c.a_b_mut(params);
     let (a_a, a_b) = a.a_b(params);
 
@@ -28,6 +32,11 @@ pub(crate) fn sub_lwe_ciphertexts<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+    b.assert_is_valid(params.dim);
+
     let (c_a, c_b) = c.a_b_mut(params);
     let (a_a, a_b) = a.a_b(params);
     let (b_a, b_b) = b.a_b(params);
@@ -103,6 +112,9 @@ pub fn lwe_ciphertext_modulus_switch<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    ct.assert_is_valid(params.dim);
+
     let (c_a, c_b) = ct.a_b_mut(params);
 
     // We specifically want to zero out the MSBs instead of shifting them back
diff --git a/sunscreen_tfhe/src/ops/homomorphisms/lwe.rs b/sunscreen_tfhe/src/ops/homomorphisms/lwe.rs
index 3187bfb..d073617 100644
--- a/sunscreen_tfhe/src/ops/homomorphisms/lwe.rs
+++ b/sunscreen_tfhe/src/ops/homomorphisms/lwe.rs
@@ -12,6 +12,8 @@ pub fn lwe_rotate<S: TorusOps>(
     amount: Torus<S>,
     lwe: &LweDef,
 ) {
+    lwe.assert_valid();
+
     output.assert_is_valid(lwe.dim);
     input.assert_is_valid(lwe.dim);
 
-- 
2.43.0


From e219d3d05c78fec850dd26b9e8e7af8b1f72605d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 30/64] fix: reject mis-sized operands and invalid parameters
 when encrypting and decrypting

---
 sunscreen_tfhe/src/entities/lwe_secret_key.rs    |  1 +
 .../src/ops/encryption/ggsw_encryption.rs        |  8 ++++++++
 .../src/ops/encryption/glev_encryption.rs        |  3 +++
 .../src/ops/encryption/glwe_encryption.rs        | 16 +++++++++++++++-
 .../src/ops/encryption/lwe_encryption.rs         |  2 ++
 .../src/ops/encryption/rlwe_encryption.rs        |  4 ++++
 6 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/entities/lwe_secret_key.rs b/sunscreen_tfhe/src/entities/lwe_secret_key.rs
index 9ec357d..f25dbe8 100644
--- a/sunscreen_tfhe/src/entities/lwe_secret_key.rs
+++ b/sunscreen_tfhe/src/entities/lwe_secret_key.rs
@@ -90,6 +90,7 @@ where
     /// performing operations like shifting by delta and rounding. See
     /// [Self::decrypt] for a function that performs the decoding automatically.
     pub fn decrypt_without_decode(&self, ct: &LweCiphertextRef<S>, params: &LweDef) -> Torus<S> {
+        self.assert_is_valid(params.dim);
         params.assert_valid();
         ct.assert_is_valid(params.dim);
 
diff --git a/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs b/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
index 32f38b2..379e107 100644
--- a/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/ggsw_encryption.rs
@@ -29,6 +29,14 @@ pub(crate) fn encrypt_ggsw_ciphertext_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    ggsw_ciphertext.assert_is_valid((params.dim, radix.count));
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    glwe_secret_key.assert_is_valid(params.dim);
+
+    assert!(plaintext_bits.0 < S::BITS);
+
     let max_val = S::from_u64(0x1 << plaintext_bits.0);
     assert!(msg.coeffs().iter().all(|x| *x < max_val));
 
diff --git a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
index cb8d5aa..d3166c3 100644
--- a/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glev_encryption.rs
@@ -35,6 +35,7 @@ pub(crate) fn encrypt_secret_glev_ciphertext_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
     radix.assert_valid::<S>();
     glev_ciphertext.assert_is_valid((params.dim, radix.count));
     msg.assert_is_valid(params.dim.polynomial_degree);
@@ -69,6 +70,8 @@ pub fn scale_msg_by_gadget_factor<S>(
 ) where
     S: TorusOps,
 {
+    assert_eq!(scaled_msg.len(), msg.len());
+
     // The factor is q / B^{i+1}. Since B is a power of 2, this is equivalent to
     // multiplying by 2^{log2(q) - log2(B) * (i + 1)}
     let decomp_factor = S::from_u64(0x1 << (S::BITS as usize - decomposition_radix_log * (j + 1)));
diff --git a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
index 38ec73f..468a630 100644
--- a/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/glwe_encryption.rs
@@ -1,7 +1,7 @@
 use num::Zero;
 
 use crate::{
-    GlweDef, Torus, TorusOps,
+    GlweDef, OverlaySize, Torus, TorusOps,
     entities::{GlweCiphertextRef, GlweSecretKeyRef, Polynomial, PolynomialRef},
     polynomial::{polynomial_add_assign, polynomial_external_mad, polynomial_sub_assign},
     rand::{normal_torus, uniform_torus},
@@ -27,6 +27,11 @@ pub fn encrypt_glwe_ciphertext_secret_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    sk.assert_is_valid(params.dim);
+
     let mut tmp = Polynomial::zero(params.dim.polynomial_degree.0);
 
     let (a, b) = c.a_b_mut(params);
@@ -83,6 +88,10 @@ pub fn trivially_encrypt_glwe_ciphertext<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    msg.assert_is_valid(params.dim.polynomial_degree);
+
     let (a, b) = c.a_b_mut(params);
 
     // tmp = A_i * S_i
@@ -109,6 +118,11 @@ pub fn decrypt_glwe_ciphertext<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    msg.assert_is_valid(params.dim.polynomial_degree);
+    ct.assert_is_valid(params.dim);
+    sk.assert_is_valid(params.dim);
+
     let (a, b) = ct.a_b(params);
 
     let mut tmp = Polynomial::zero(b.len());
diff --git a/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
index 57bfa57..5b13dd2 100644
--- a/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/lwe_encryption.rs
@@ -42,6 +42,8 @@ pub fn encrypt_lwe_ciphertext<S>(
 where
     S: TorusOps,
 {
+    ct.assert_is_valid(params.dim);
+    sk.assert_is_valid(params.dim);
     params.assert_valid();
 
     let (a, b) = ct.a_b_mut(params);
diff --git a/sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs b/sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs
index f5229e1..21df033 100644
--- a/sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs
+++ b/sunscreen_tfhe/src/ops/encryption/rlwe_encryption.rs
@@ -51,6 +51,9 @@ pub fn rlwe_generate_public_key<S>(
 ) where
     S: TorusOps,
 {
+    glwe.assert_valid();
+    public_key.assert_is_valid(glwe.dim);
+    secret_key.assert_is_valid(glwe.dim);
     assert_eq!(glwe.dim.size.0, 1);
 
     allocate_scratch_ref!(pt, PolynomialRef<Torus<S>>, (glwe.dim.polynomial_degree));
@@ -131,6 +134,7 @@ fn rlwe_encrypt_public_impl<S>(
 where
     S: TorusOps,
 {
+    glwe.assert_valid();
     assert_eq!(glwe.dim.size.0, 1);
     assert_eq!(encoded_msg.len(), glwe.dim.polynomial_degree.0);
     ct.assert_is_valid(glwe.dim);
-- 
2.43.0


From 7ad93def10183e4f6bd99d81f852f7b77ebf5e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 31/64] fix: reject mis-sized operands and invalid parameters
 in keyswitching and bootstrapping

---
 .../src/ops/bootstrapping/blind_rotation.rs   | 25 +++++++++++-
 .../bootstrapping/circuit_bootstrapping.rs    | 20 ++++++++++
 .../programmable_bootstrapping.rs             |  9 +++++
 .../src/ops/bootstrapping/scheme_switch.rs    |  4 ++
 sunscreen_tfhe/src/ops/fft_ops.rs             | 38 ++++++++++++++++++-
 .../src/ops/keyswitch/glwe_keyswitch.rs       |  8 +++-
 .../src/ops/keyswitch/glwe_keyswitch_key.rs   |  8 +++-
 .../keyswitch/private_functional_keyswitch.rs |  4 ++
 .../keyswitch/public_functional_keyswitch.rs  |  8 ++++
 9 files changed, 120 insertions(+), 4 deletions(-)

diff --git a/sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs b/sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs
index c6b4eaf..78a3ec4 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/blind_rotation.rs
@@ -1,7 +1,7 @@
 use num::Complex;
 
 use crate::{
-    GlweDef, PlaintextBits, RadixDecomposition, TorusOps,
+    GlweDef, OverlaySize, PlaintextBits, RadixDecomposition, TorusOps,
     dst::FromMutSlice,
     entities::{BlindRotationShiftFftRef, GgswCiphertext, GlweCiphertextRef, GlweSecretKeyRef},
     ops::{encryption::encrypt_ggsw_ciphertext_scalar, fft_ops::cmux},
@@ -84,6 +84,10 @@ pub fn rotate_glwe_monomial_negacyclic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    output.assert_is_valid(params.dim);
+    ct.assert_is_valid(params.dim);
+
     let (output_a, output_b) = output.a_b_mut(params);
     let (ct_a, ct_b) = ct.a_b(params);
 
@@ -112,6 +116,10 @@ pub fn rotate_glwe_negative_monomial_negacyclic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    output.assert_is_valid(params.dim);
+    ct.assert_is_valid(params.dim);
+
     rotate_glwe_monomial_negacyclic(output, ct, -(rotation as isize), params)
 }
 
@@ -131,6 +139,10 @@ pub fn rotate_glwe_positive_monomial_negacyclic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    output.assert_is_valid(params.dim);
+    ct.assert_is_valid(params.dim);
+
     rotate_glwe_monomial_negacyclic(output, ct, rotation as isize, params)
 }
 
@@ -208,6 +220,12 @@ pub fn blind_rotation<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    output.assert_is_valid(params.dim);
+    blind_rotation_index.assert_is_valid((params.dim, radix.count));
+    ct.assert_is_valid(params.dim);
+
     // Initialize with the unrotated message m
     output.clone_from_ref(ct);
     allocate_scratch_ref!(rotated_ct, GlweCiphertextRef<S>, (params.dim));
@@ -237,6 +255,11 @@ pub fn generate_blind_rotation_shift<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    bootstrap_key.assert_is_valid((params.dim, radix.count));
+    sk.assert_is_valid(params.dim);
+
     let degree = params.dim.polynomial_degree.0;
     assert!(rotation < degree);
 
diff --git a/sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs b/sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs
index 4a8b74c..139fe5b 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/circuit_bootstrapping.rs
@@ -354,6 +354,18 @@ pub fn circuit_bootstrap_via_trace_and_scheme_switch<S>(
 ) where
     S: TorusOps,
 {
+    lwe_0.assert_valid();
+    glwe_1.assert_valid();
+    pbs_radix.assert_valid::<S>();
+    trace_radix.assert_valid::<S>();
+    ss_radix.assert_valid::<S>();
+    cbs_radix.assert_valid::<S>();
+    output.assert_is_valid((glwe_1.dim, cbs_radix.count));
+    input.assert_is_valid(lwe_0.dim);
+    bsk.assert_is_valid((lwe_0.dim, glwe_1.dim, pbs_radix.count));
+    ak.assert_is_valid((glwe_1.dim, trace_radix.count));
+    ssk.assert_is_valid((glwe_1.dim, ss_radix.count));
+
     allocate_scratch_ref!(
         lo_noise_glev,
         GlevCiphertextRef<S>,
@@ -491,6 +503,14 @@ pub fn apply_pfks_on_ggsw_components<S: TorusOps>(
     pfks_radix: &RadixDecomposition,
     cbs_radix: &RadixDecomposition,
 ) {
+    glwe_1.assert_valid();
+    glwe_2.assert_valid();
+    pfks_radix.assert_valid::<S>();
+    cbs_radix.assert_valid::<S>();
+    result.assert_is_valid((glwe_1.dim, cbs_radix.count));
+    lwes_2.assert_is_valid((glwe_2.as_lwe_def().dim, cbs_radix.count.0));
+    cbsksk.assert_is_valid((glwe_2.as_lwe_def().dim, glwe_1.dim, pfks_radix.count));
+
     for (glev, pfksk) in result.rows_mut(glwe_1, cbs_radix).zip(cbsksk.keys(
         &glwe_2.as_lwe_def(),
         glwe_1,
diff --git a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
index 315ba91..2fdf097 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/programmable_bootstrapping.rs
@@ -135,6 +135,8 @@ pub(crate) fn generate_lut<S, F>(
     S: TorusOps,
     F: Fn(u64) -> u64,
 {
+    params.assert_valid();
+    output.assert_is_valid(params.dim.polynomial_degree);
     assert!(plaintext_bits.0 < usize::BITS);
 
     let p = 1usize << plaintext_bits.0;
@@ -309,6 +311,9 @@ pub fn programmable_bootstrap_univariate<S>(
 ) where
     S: TorusOps,
 {
+    glwe_params.assert_valid();
+    output.assert_is_valid(glwe_params.as_lwe_def().dim);
+
     allocate_scratch_ref!(glwe, GlweCiphertextRef<S>, (glwe_params.dim));
 
     generalized_programmable_bootstrap(
@@ -595,6 +600,10 @@ pub fn programmable_bootstrap_bivariate<S>(
 ) where
     S: TorusOps,
 {
+    lwe_params.assert_valid();
+    left_input.assert_is_valid(lwe_params.dim);
+    right_input.assert_is_valid(lwe_params.dim);
+
     // The general operation for a bivariate PBS is
     //
     // 1. Ensure that the number of carry bits is equal to the size of the
diff --git a/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs b/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
index 61cd0d7..ccf408c 100644
--- a/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
+++ b/sunscreen_tfhe/src/ops/bootstrapping/scheme_switch.rs
@@ -261,6 +261,10 @@ pub fn scheme_switch<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix_ggsw.assert_valid::<S>();
+    radix_ss.assert_valid::<S>();
+
     ssk.assert_is_valid((params.dim, radix_ss.count));
     output.assert_is_valid((params.dim, radix_ggsw.count));
     glev_ciphertext.assert_is_valid((params.dim, radix_ggsw.count));
diff --git a/sunscreen_tfhe/src/ops/fft_ops.rs b/sunscreen_tfhe/src/ops/fft_ops.rs
index 8c917fd..7eecf2e 100644
--- a/sunscreen_tfhe/src/ops/fft_ops.rs
+++ b/sunscreen_tfhe/src/ops/fft_ops.rs
@@ -2,7 +2,7 @@ use num::Complex;
 
 use crate::{
     GlweDef, RadixDecomposition, TorusOps,
-    dst::{FromMutSlice, OverlaySize},
+    dst::{AsSlice, FromMutSlice, OverlaySize},
     entities::{
         GgswCiphertextFftRef, GlevCiphertextFftRef, GlevCiphertextRef, GlweCiphertextFftRef,
         GlweCiphertextRef, GlweKeyswitchKeyFftRef, PolynomialFftRef, PolynomialRef,
@@ -29,6 +29,12 @@ pub fn glwe_ggsw_mad<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    c_fft.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+    b_fft.assert_is_valid((params.dim, radix.count));
+
     let (a_a, a_b) = a.a_b(params);
     let rows = b_fft.rows(params, radix);
 
@@ -72,6 +78,11 @@ pub fn decomposed_polynomial_glev_mad<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    assert_eq!(a.degree(), params.dim.polynomial_degree.0);
+    c.assert_is_valid(params.dim);
+    b.assert_is_valid((params.dim, a.remaining()));
+
     let b_glwe = b.glwe_ciphertexts(params);
 
     let mut cur_radix = allocate_scratch::<S>(params.dim.polynomial_degree.0);
@@ -110,6 +121,11 @@ pub fn glwe_polynomial_mad(
     b: &PolynomialFftRef<Complex<f64>>,
     params: &GlweDef,
 ) {
+    params.assert_valid();
+    c.assert_is_valid(params.dim);
+    a.assert_is_valid(params.dim);
+    b.assert_is_valid(params.dim.polynomial_degree);
+
     let (c_a, c_b) = c.a_b_mut(params);
     let (a_a, a_b) = a.a_b(params);
 
@@ -210,6 +226,16 @@ pub fn glev_cmux<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    ggsw_radix.assert_valid::<S>();
+    b_fft.assert_is_valid((params.dim, ggsw_radix.count));
+    assert_eq!(d_0.as_slice().len(), c.as_slice().len());
+    assert_eq!(d_1.as_slice().len(), c.as_slice().len());
+    assert_eq!(
+        c.as_slice().len() % GlweCiphertextRef::<S>::size(params.dim),
+        0
+    );
+
     for ((c, d_0), d_1) in c
         .glwe_ciphertexts_mut(params)
         .zip(d_0.glwe_ciphertexts(params))
@@ -412,6 +438,10 @@ pub fn scheme_switch_fft<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix_ggsw.assert_valid::<S>();
+    radix_ss.assert_valid::<S>();
+
     ssk_fft.assert_is_valid((params.dim, radix_ss.count));
     output.assert_is_valid((params.dim, radix_ggsw.count));
     glev_ciphertext.assert_is_valid((params.dim, radix_ggsw.count));
@@ -465,6 +495,12 @@ pub fn keyswitch_glwe_to_glwe<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    output.assert_is_valid(params.dim);
+    ciphertext_under_original_key.assert_is_valid(params.dim);
+    keyswitch_key.assert_is_valid((params.dim, radix.count));
+
     let (ciphertext_a, ciphertext_b) = ciphertext_under_original_key.a_b(params);
 
     let keyswitch_glevs = keyswitch_key.rows(params, radix);
diff --git a/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs
index 7ac7cdb..f91ed0e 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch.rs
@@ -1,5 +1,5 @@
 use crate::{
-    GlweDef, RadixDecomposition, TorusOps,
+    GlweDef, OverlaySize, RadixDecomposition, TorusOps,
     dst::FromMutSlice,
     entities::{GlweCiphertext, GlweCiphertextRef, GlweKeyswitchKeyRef, PolynomialRef},
     ops::{
@@ -32,6 +32,12 @@ pub fn keyswitch_glwe_to_glwe<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    output.assert_is_valid(params.dim);
+    ciphertext_under_original_key.assert_is_valid(params.dim);
+    keyswitch_key.assert_is_valid((params.dim, radix.count));
+
     let (ciphertext_a, ciphertext_b) = ciphertext_under_original_key.a_b(params);
 
     let keyswitch_glevs = keyswitch_key.rows(params, radix);
diff --git a/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs b/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs
index e53fa4b..78ede84 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/glwe_keyswitch_key.rs
@@ -1,5 +1,5 @@
 use crate::{
-    GlweDef, RadixDecomposition, Torus, TorusOps,
+    GlweDef, OverlaySize, RadixDecomposition, Torus, TorusOps,
     entities::{
         GlweCiphertextRef, GlweKeyswitchKeyRef, GlweSecretKeyRef, Polynomial, PolynomialRef,
     },
@@ -44,6 +44,12 @@ fn encrypt_keyswitch_key_generic<S>(
 ) where
     S: TorusOps,
 {
+    params.assert_valid();
+    radix.assert_valid::<S>();
+    keyswitch_key.assert_is_valid((params.dim, radix.count));
+    original_glwe_secret_key.assert_is_valid(params.dim);
+    new_glwe_secret_key.assert_is_valid(params.dim);
+
     let decomposition_radix_log = radix.radix_log.0;
     let polynomial_degree = params.dim.polynomial_degree.0;
 
diff --git a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
index cdb6475..aa1d306 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/private_functional_keyswitch.rs
@@ -113,6 +113,10 @@ pub fn private_functional_keyswitch<S: TorusOps>(
     radix: &RadixDecomposition,
     lwe_count: &PrivateFunctionalKeyswitchLweCount,
 ) {
+    for i in inputs {
+        i.assert_is_valid(from_lwe.dim);
+    }
+
     output.assert_is_valid(to_glwe.dim);
     pfksk.assert_is_valid((from_lwe.dim, to_glwe.dim, radix.count, *lwe_count));
     from_lwe.assert_valid();
diff --git a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
index 9cac4e0..a8acb6a 100644
--- a/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
+++ b/sunscreen_tfhe/src/ops/keyswitch/public_functional_keyswitch.rs
@@ -34,6 +34,10 @@ pub fn generate_public_functional_keyswitch_key<S: TorusOps>(
     to_glwe: &GlweDef,
     radix: &RadixDecomposition,
 ) {
+    from_lwe.assert_valid();
+    to_glwe.assert_valid();
+    radix.assert_valid::<S>();
+
     from_sk.assert_is_valid(from_lwe.dim);
     to_sk.assert_is_valid(to_glwe.dim);
     output.assert_is_valid((from_lwe.dim, to_glwe.dim, radix.count));
@@ -83,6 +87,10 @@ pub fn public_functional_keyswitch<S, F>(
     S: TorusOps,
     F: Fn(&mut PolynomialRef<Torus<S>>, &[Torus<S>]),
 {
+    from_lwe.assert_valid();
+    to_glwe.assert_valid();
+    radix.assert_valid::<S>();
+
     pufksk.assert_is_valid((from_lwe.dim, to_glwe.dim, radix.count));
     output.assert_is_valid(to_glwe.dim);
 
-- 
2.43.0


From 4152c29bfaa0236c4fd632c3320b4328a2733bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:20 +0000
Subject: [PATCH 32/64] fix: reject mis-sized operands in entity transforms,
 operators and polynomial operations

---
 sunscreen_tfhe/src/dst.rs                     |  2 ++
 .../src/entities/automorphism_key.rs          |  4 ++++
 .../src/entities/bivariate_lookup_table.rs    |  3 +++
 .../src/entities/blind_rotation_shift.rs      |  5 +++++
 sunscreen_tfhe/src/entities/bootstrap_key.rs  | 22 +++++++++++++++++++
 .../src/entities/ggsw_ciphertext.rs           |  3 +++
 .../src/entities/ggsw_ciphertext_fft.rs       |  5 +++++
 .../src/entities/glev_ciphertext.rs           | 20 ++++++++++++++++-
 .../src/entities/glev_ciphertext_fft.rs       | 19 +++++++++++++++-
 .../src/entities/glwe_ciphertext.rs           |  2 ++
 .../src/entities/glwe_ciphertext_fft.rs       |  4 ++++
 .../src/entities/glwe_keyswitch_key.rs        |  5 +++++
 .../src/entities/glwe_keyswitch_key_fft.rs    |  5 +++++
 .../src/entities/scheme_switch_key.rs         |  3 +++
 .../src/entities/scheme_switch_key_fft.rs     |  5 +++++
 .../src/entities/univariate_lookup_table.rs   |  3 +++
 sunscreen_tfhe/src/macros.rs                  |  2 ++
 sunscreen_tfhe/src/math/polynomial.rs         |  8 +++++++
 18 files changed, 118 insertions(+), 2 deletions(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index a050032..3e76e01 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -43,6 +43,8 @@ macro_rules! dst {
                 #[allow(unused)]
                 /// Clones the contents of rhs into self
                 pub fn clone_from_ref(&mut self, rhs: &$ref_t<T>) {
+                    assert_eq!(self.data.len(), rhs.data.len());
+
                     for (l, r) in self.data.iter_mut().zip(rhs.data.iter()) {
                         *l = r.clone();
                     }
diff --git a/sunscreen_tfhe/src/entities/automorphism_key.rs b/sunscreen_tfhe/src/entities/automorphism_key.rs
index 58dcfd2..ee2054c 100644
--- a/sunscreen_tfhe/src/entities/automorphism_key.rs
+++ b/sunscreen_tfhe/src/entities/automorphism_key.rs
@@ -71,6 +71,10 @@ impl<S: TorusOps> AutomorphismKeyRef<S> {
         glwe: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        glwe.assert_valid();
+        self.assert_is_valid((glwe.dim, radix.count));
+        result.assert_is_valid((glwe.dim, radix.count));
+
         for (i, o) in self
             .keyswitch_keys(glwe, radix)
             .zip(result.keyswitch_keys_mut(glwe, radix))
diff --git a/sunscreen_tfhe/src/entities/bivariate_lookup_table.rs b/sunscreen_tfhe/src/entities/bivariate_lookup_table.rs
index 9515f33..a9ed3b7 100644
--- a/sunscreen_tfhe/src/entities/bivariate_lookup_table.rs
+++ b/sunscreen_tfhe/src/entities/bivariate_lookup_table.rs
@@ -90,6 +90,9 @@ impl<S: TorusOps> BivariateLookupTableRef<S> {
 
     /// Creates a lookup table filled with the same value at every entry.
     pub fn fill_with_constant(&mut self, val: S, glwe: &GlweDef, plaintext_bits: PlaintextBits) {
+        glwe.assert_valid();
+        self.assert_is_valid(glwe.dim);
+
         self.clear();
         for o in self.glwe_mut().b_mut(glwe).coeffs_mut() {
             *o = Torus::encode(val, plaintext_bits);
diff --git a/sunscreen_tfhe/src/entities/blind_rotation_shift.rs b/sunscreen_tfhe/src/entities/blind_rotation_shift.rs
index 2abdd8c..950db1a 100644
--- a/sunscreen_tfhe/src/entities/blind_rotation_shift.rs
+++ b/sunscreen_tfhe/src/entities/blind_rotation_shift.rs
@@ -130,6 +130,11 @@ impl BlindRotationShiftFftRef<Complex<f64>> {
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
+        self.assert_is_valid((params.dim, radix.count));
+        result.assert_is_valid((params.dim, radix.count));
+
         for (s, r) in self.rows(params, radix).zip(result.rows_mut(params, radix)) {
             s.ifft(r, params, radix);
         }
diff --git a/sunscreen_tfhe/src/entities/bootstrap_key.rs b/sunscreen_tfhe/src/entities/bootstrap_key.rs
index ed12d5f..9b92e12 100644
--- a/sunscreen_tfhe/src/entities/bootstrap_key.rs
+++ b/sunscreen_tfhe/src/entities/bootstrap_key.rs
@@ -96,6 +96,10 @@ impl<S: TorusOps> BootstrapKeyRef<S> {
         glwe: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        lwe.assert_valid();
+        glwe.assert_valid();
+        radix.assert_valid::<S>();
+
         self.assert_is_valid((lwe.dim, glwe.dim, radix.count));
         result.assert_is_valid((lwe.dim, glwe.dim, radix.count));
 
@@ -171,6 +175,24 @@ impl BootstrapKeyFftRef<Complex<f64>> {
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
+
+        // The number of rows is the LWE dimension, which isn't a parameter here.
+        assert_eq!(
+            self.as_slice().len()
+                % GgswCiphertextFftRef::<Complex<f64>>::size((params.dim, radix.count)),
+            0
+        );
+        assert_eq!(
+            result.as_slice().len() % GgswCiphertextRef::<S>::size((params.dim, radix.count)),
+            0
+        );
+        assert_eq!(
+            self.rows(params, radix).count(),
+            result.rows(params, radix).count()
+        );
+
         for (s, r) in self.rows(params, radix).zip(result.rows_mut(params, radix)) {
             s.ifft(r, params, radix);
         }
diff --git a/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs b/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
index db902c2..0b38bcb 100644
--- a/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
+++ b/sunscreen_tfhe/src/entities/ggsw_ciphertext.rs
@@ -101,6 +101,9 @@ where
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
+
         self.assert_is_valid((params.dim, radix.count));
         result.assert_is_valid((params.dim, radix.count));
 
diff --git a/sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs b/sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs
index 9357b0a..279671e 100644
--- a/sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs
+++ b/sunscreen_tfhe/src/entities/ggsw_ciphertext_fft.rs
@@ -72,6 +72,11 @@ impl GgswCiphertextFftRef<Complex<f64>> {
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
+        self.assert_is_valid((params.dim, radix.count));
+        result.assert_is_valid((params.dim, radix.count));
+
         for (s, r) in self.rows(params, radix).zip(result.rows_mut(params, radix)) {
             s.ifft(r, params);
         }
diff --git a/sunscreen_tfhe/src/entities/glev_ciphertext.rs b/sunscreen_tfhe/src/entities/glev_ciphertext.rs
index 938051d..e93a815 100644
--- a/sunscreen_tfhe/src/entities/glev_ciphertext.rs
+++ b/sunscreen_tfhe/src/entities/glev_ciphertext.rs
@@ -2,7 +2,9 @@ use num::{Complex, Zero};
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    GlweDef, GlweDimension, RadixCount, RadixDecomposition, Torus, TorusOps, dst::OverlaySize,
+    GlweDef, GlweDimension, RadixCount, RadixDecomposition, Torus, TorusOps,
+    dst::{AsSlice, OverlaySize},
+    entities::GlweCiphertextFftRef,
 };
 
 use super::{
@@ -64,6 +66,22 @@ where
     /// Compute the FFT of each of the GLWE ciphertexts in the GLEV ciphertext.
     /// The result is stored in `result`.
     pub fn fft(&self, result: &mut GlevCiphertextFftRef<Complex<f64>>, params: &GlweDef) {
+        params.assert_valid();
+
+        // The number of levels isn't a parameter here, so it must agree between both.
+        assert_eq!(
+            self.as_slice().len() % GlweCiphertextRef::<S>::size(params.dim),
+            0
+        );
+        assert_eq!(
+            result.as_slice().len() % GlweCiphertextFftRef::<Complex<f64>>::size(params.dim),
+            0
+        );
+        assert_eq!(
+            self.glwe_ciphertexts(params).count(),
+            result.glwe_ciphertexts(params).count()
+        );
+
         for (i, fft) in self
             .glwe_ciphertexts(params)
             .zip(result.glwe_ciphertexts_mut(params))
diff --git a/sunscreen_tfhe/src/entities/glev_ciphertext_fft.rs b/sunscreen_tfhe/src/entities/glev_ciphertext_fft.rs
index 991d503..db1b95f 100644
--- a/sunscreen_tfhe/src/entities/glev_ciphertext_fft.rs
+++ b/sunscreen_tfhe/src/entities/glev_ciphertext_fft.rs
@@ -3,7 +3,8 @@ use serde::{Deserialize, Serialize};
 
 use crate::{
     GlweDef, GlweDimension, RadixCount, TorusOps,
-    dst::{NoWrapper, OverlaySize},
+    dst::{AsSlice, NoWrapper, OverlaySize},
+    entities::GlweCiphertextRef,
 };
 
 use super::{
@@ -55,6 +56,22 @@ impl GlevCiphertextFftRef<Complex<f64>> {
     /// Computes the inverse FFT of the GLEV ciphertexts and stores computation
     /// in `result`.
     pub fn ifft<S: TorusOps>(&self, result: &mut GlevCiphertextRef<S>, params: &GlweDef) {
+        params.assert_valid();
+
+        // The number of levels isn't a parameter here, so it must agree between both.
+        assert_eq!(
+            result.as_slice().len() % GlweCiphertextRef::<S>::size(params.dim),
+            0
+        );
+        assert_eq!(
+            self.as_slice().len() % GlweCiphertextFftRef::<Complex<f64>>::size(params.dim),
+            0
+        );
+        assert_eq!(
+            self.glwe_ciphertexts(params).count(),
+            result.glwe_ciphertexts(params).count()
+        );
+
         for (i, ifft) in self
             .glwe_ciphertexts(params)
             .zip(result.glwe_ciphertexts_mut(params))
diff --git a/sunscreen_tfhe/src/entities/glwe_ciphertext.rs b/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
index 5b55304..5236a96 100644
--- a/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
+++ b/sunscreen_tfhe/src/entities/glwe_ciphertext.rs
@@ -139,6 +139,8 @@ where
 
     /// Create an FFT transformed version of `self` stored to result.
     pub fn fft(&self, result: &mut GlweCiphertextFftRef<Complex<f64>>, params: &GlweDef) {
+        params.assert_valid();
+
         self.assert_is_valid(params.dim);
         result.assert_is_valid(params.dim);
 
diff --git a/sunscreen_tfhe/src/entities/glwe_ciphertext_fft.rs b/sunscreen_tfhe/src/entities/glwe_ciphertext_fft.rs
index 7823582..3cb0871 100644
--- a/sunscreen_tfhe/src/entities/glwe_ciphertext_fft.rs
+++ b/sunscreen_tfhe/src/entities/glwe_ciphertext_fft.rs
@@ -103,6 +103,10 @@ impl GlweCiphertextFftRef<Complex<f64>> {
     /// Computes the inverse FFT of the GLWE ciphertext and stores the
     /// computation in `result`.
     pub fn ifft<T: TorusOps>(&self, result: &mut GlweCiphertextRef<T>, params: &GlweDef) {
+        params.assert_valid();
+        self.assert_is_valid(params.dim);
+        result.assert_is_valid(params.dim);
+
         for (a, fft) in self.a(params).zip(result.a_mut(params)) {
             a.ifft(fft);
         }
diff --git a/sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs b/sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs
index 2692d96..d092449 100644
--- a/sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs
+++ b/sunscreen_tfhe/src/entities/glwe_keyswitch_key.rs
@@ -83,6 +83,11 @@ where
         glwe: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        glwe.assert_valid();
+        radix.assert_valid::<S>();
+        self.assert_is_valid((glwe.dim, radix.count));
+        output.assert_is_valid((glwe.dim, radix.count));
+
         for (o, i) in output.rows_mut(glwe, radix).zip(self.rows(glwe, radix)) {
             i.fft(o, glwe);
         }
diff --git a/sunscreen_tfhe/src/entities/glwe_keyswitch_key_fft.rs b/sunscreen_tfhe/src/entities/glwe_keyswitch_key_fft.rs
index 245102d..253ed34 100644
--- a/sunscreen_tfhe/src/entities/glwe_keyswitch_key_fft.rs
+++ b/sunscreen_tfhe/src/entities/glwe_keyswitch_key_fft.rs
@@ -80,6 +80,11 @@ impl GlweKeyswitchKeyFftRef<Complex<f64>> {
     ) where
         S: TorusOps,
     {
+        glwe.assert_valid();
+        radix.assert_valid::<S>();
+        self.assert_is_valid((glwe.dim, radix.count));
+        output.assert_is_valid((glwe.dim, radix.count));
+
         for (o, i) in output.rows_mut(glwe, radix).zip(self.rows(glwe, radix)) {
             i.ifft(o, glwe);
         }
diff --git a/sunscreen_tfhe/src/entities/scheme_switch_key.rs b/sunscreen_tfhe/src/entities/scheme_switch_key.rs
index f823f82..f30accb 100644
--- a/sunscreen_tfhe/src/entities/scheme_switch_key.rs
+++ b/sunscreen_tfhe/src/entities/scheme_switch_key.rs
@@ -177,6 +177,9 @@ where
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
+
         self.assert_is_valid((params.dim, radix.count));
         result.assert_is_valid((params.dim, radix.count));
 
diff --git a/sunscreen_tfhe/src/entities/scheme_switch_key_fft.rs b/sunscreen_tfhe/src/entities/scheme_switch_key_fft.rs
index 13ae1c4..f55d277 100644
--- a/sunscreen_tfhe/src/entities/scheme_switch_key_fft.rs
+++ b/sunscreen_tfhe/src/entities/scheme_switch_key_fft.rs
@@ -150,6 +150,11 @@ impl SchemeSwitchKeyFftRef<Complex<f64>> {
         params: &GlweDef,
         radix: &RadixDecomposition,
     ) {
+        params.assert_valid();
+        radix.assert_valid::<S>();
+        self.assert_is_valid((params.dim, radix.count));
+        result.assert_is_valid((params.dim, radix.count));
+
         for (s, r) in self
             .glev_ciphertexts(params, radix)
             .zip(result.glev_ciphertexts_mut(params, radix))
diff --git a/sunscreen_tfhe/src/entities/univariate_lookup_table.rs b/sunscreen_tfhe/src/entities/univariate_lookup_table.rs
index 5d9ee54..a953b69 100644
--- a/sunscreen_tfhe/src/entities/univariate_lookup_table.rs
+++ b/sunscreen_tfhe/src/entities/univariate_lookup_table.rs
@@ -104,6 +104,9 @@ impl<S: TorusOps> UnivariateLookupTableRef<S> {
 
     /// Creates a lookup table filled with the same value at every entry.
     pub fn fill_with_constant(&mut self, val: S, glwe: &GlweDef, plaintext_bits: PlaintextBits) {
+        glwe.assert_valid();
+        self.assert_is_valid(glwe.dim);
+
         self.clear();
         for o in self.glwe_mut().b_mut(glwe).coeffs_mut() {
             *o = Torus::encode(val, plaintext_bits);
diff --git a/sunscreen_tfhe/src/macros.rs b/sunscreen_tfhe/src/macros.rs
index 9097727..3dc8aaf 100644
--- a/sunscreen_tfhe/src/macros.rs
+++ b/sunscreen_tfhe/src/macros.rs
@@ -8,6 +8,8 @@ macro_rules! impl_binary_op {
                 S: $($t_bounds)*
             {
                 fn [<$op:lower _assign>](&mut self, rhs: Self) {
+                    assert_eq!(self.data.len(), rhs.data.len());
+
                     self.data.iter_mut().zip(rhs.data.iter()).for_each(|(a, b)| {
                         *a = num::traits::[<Wrapping $op>]::[<wrapping_ $op:lower>](a, b);
                     });
diff --git a/sunscreen_tfhe/src/math/polynomial.rs b/sunscreen_tfhe/src/math/polynomial.rs
index dd69dab..aee3521 100644
--- a/sunscreen_tfhe/src/math/polynomial.rs
+++ b/sunscreen_tfhe/src/math/polynomial.rs
@@ -19,6 +19,8 @@ pub fn polynomial_sub_assign<S>(lhs: &mut PolynomialRef<S>, rhs: &PolynomialRef<
 where
     S: SubAssign + Copy,
 {
+    assert_eq!(lhs.len(), rhs.len());
+
     for (a, b) in lhs
         .coeffs_mut()
         .iter_mut()
@@ -46,6 +48,8 @@ where
     T: Clone + Copy + Mul<U, Output = S>,
     U: Clone + Copy,
 {
+    assert_eq!(c.len(), a.len());
+
     for (c, a) in c.coeffs_mut().iter_mut().zip(a.coeffs().iter()) {
         *c = *a * s
     }
@@ -58,6 +62,8 @@ where
     T: Clone + Copy + MulAdd<U, S, Output = S>,
     U: Clone + Copy,
 {
+    assert_eq!(c.len(), a.len());
+
     for (c, a) in c.coeffs_mut().iter_mut().zip(a.coeffs().iter()) {
         *c = a.mul_add(s, *c);
     }
@@ -89,6 +95,8 @@ pub fn polynomial_add_assign<S>(lhs: &mut PolynomialRef<S>, rhs: &PolynomialRef<
 where
     S: AddAssign + Copy,
 {
+    assert_eq!(lhs.len(), rhs.len());
+
     for (a, b) in lhs
         .coeffs_mut()
         .iter_mut()
-- 
2.43.0


From 13b8da6102538cdcb124ee0f6aae352855ed8010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 33/64] fix: iterate mutably over an empty container without
 arithmetic overflow

---
 sunscreen_tfhe/src/dst.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index 3e76e01..fbd86f2 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -334,7 +334,7 @@ macro_rules! dst_iter {
                 pub fn new(data: &'a mut [$wrapper_type<T>], stride: usize) -> Self {
                     assert_eq!(data.len() % stride, 0);
 
-                    let len = (data.len() - stride) as isize;
+                    let len = data.len() as isize - stride as isize;
 
                     Self {
                         start: data.as_mut_ptr(),
-- 
2.43.0


From c2f113e9e19d3cdff2bfd45840fc038c6899bdc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 34/64] fix: report the exact size hint of container iterators

---
 sunscreen_tfhe/src/dst.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sunscreen_tfhe/src/dst.rs b/sunscreen_tfhe/src/dst.rs
index fbd86f2..8469d35 100644
--- a/sunscreen_tfhe/src/dst.rs
+++ b/sunscreen_tfhe/src/dst.rs
@@ -205,6 +205,12 @@ macro_rules! dst_iter {
 
                     Some(data)
                 }
+
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = std::iter::ExactSizeIterator::len(self);
+
+                    (len, Some(len))
+                }
             }
 
             impl<'a, T> std::iter::DoubleEndedIterator for $t<'a, T> where T: Clone $(+ $t_bounds)* {
@@ -363,6 +369,12 @@ macro_rules! dst_iter {
 
                     Some(<$item_ref<T> as crate::dst::FromMutSlice<$wrapper_type<T>>>::from_mut_slice(slice))
                 }
+
+                fn size_hint(&self) -> (usize, Option<usize>) {
+                    let len = std::iter::ExactSizeIterator::len(self);
+
+                    (len, Some(len))
+                }
             }
 
             impl<'a, T> std::iter::ExactSizeIterator for $t_mut<'a, T> where T: Clone $(+ $t_bounds)* {
-- 
2.43.0


From 174cf4a01a2bc92d0ffe8ac002e0b04001ec3d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 35/64] fix: conversion of signed integers to ring elements
 reduces first

---
 sunscreen_math/src/ring/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/sunscreen_math/src/ring/mod.rs b/sunscreen_math/src/ring/mod.rs
index 37e83d6..f160a54 100644
--- a/sunscreen_math/src/ring/mod.rs
+++ b/sunscreen_math/src/ring/mod.rs
@@ -628,18 +628,12 @@ impl<const N: usize, B: ArithmeticBackend<N>> From<i32> for Zq<N, B> {
 }
 
 impl<const N: usize, B: ArithmeticBackend<N>> From<i64> for Zq<N, B> {
-    /// Returns `value` over the range [-q/2, q/2].
-    ///
-    /// # Remarks
-    /// Calling this over `Zq` where `|value| > q /2` may result in incorrect results
-    ///
-    /// # Panics
-    /// If value is i64::MIN.
+    /// Returns `value` modulo q.
     fn from(value: i64) -> Self {
         let modulus = NonZero::new(B::MODULUS).unwrap();
 
         // TODO: Verify this is constant time
-        let abs = Uint::from_u64(value.unsigned_abs());
+        let abs = Uint::from_u64(value.unsigned_abs()).rem(&modulus);
         let neg = if value.is_negative() {
             Choice::from(1)
         } else {
-- 
2.43.0


From 644b60b09d9c97682ed272f88afb7ada7b37f986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:35 +0000
Subject: [PATCH 36/64] fix: polynomial division refuses divisors it cannot
 divide by, as documented

---
 sunscreen_math/src/poly/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/sunscreen_math/src/poly/mod.rs b/sunscreen_math/src/poly/mod.rs
index aaecc73..bf85235 100644
--- a/sunscreen_math/src/poly/mod.rs
+++ b/sunscreen_math/src/poly/mod.rs
@@ -117,15 +117,20 @@ where
     pub fn vartime_div_rem_restricted_rhs(&self, rhs: &Self) -> (Self, Self) {
         let mut rem = self.clone();
 
+        // Will panic if rhs is `Self::zero()`
+        let rhs_degree = rhs.vartime_degree();
+
+        assert!(
+            rhs.coeffs[rhs_degree] == R::one(),
+            "The divisor's leading non-zero coefficient must be one."
+        );
+
         if self.vartime_is_zero() {
             return (Self::zero(), Self::zero());
         }
 
         let lhs_degree = self.vartime_degree();
 
-        // Will panic if rhs is `Self::zero()`
-        let rhs_degree = rhs.vartime_degree();
-
         // If the denominator is higher degree than the numerator, then we're done.
         if lhs_degree < rhs_degree {
             return (Self::zero(), rem);
-- 
2.43.0


From 7924a09a00155ab0124a4b3dd53c555fb6ca4d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 37/64] fix: byte layouts of tuple structures and of fields
 named like generated variables

IntoBytes spelled a field of a tuple structure as an integer literal with a
suffix, which does not compile, and used the names of the fields themselves as
variables, so a field called data or cur_offset hid the variables of the
generated function.
---
 parasol_cpu_macros/src/lib.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/parasol_cpu_macros/src/lib.rs b/parasol_cpu_macros/src/lib.rs
index e5d5654..13eea32 100644
--- a/parasol_cpu_macros/src/lib.rs
+++ b/parasol_cpu_macros/src/lib.rs
@@ -35,7 +35,11 @@ fn derive_into_bytes_impl(item: DeriveInput) -> TokenStream2 {
             .unnamed
             .iter()
             .enumerate()
-            .map(|(i, _)| quote! { #i })
+            .map(|(i, _)| {
+                let i = syn::Index::from(i);
+
+                quote! { #i }
+            })
             .collect::<Vec<_>>(),
         Fields::Named(x) => x
             .named
@@ -53,6 +57,11 @@ fn derive_into_bytes_impl(item: DeriveInput) -> TokenStream2 {
         }
     };
 
+    // Names that can't collide with the variables below, whatever the fields are called.
+    let field_vars = (0..fields.len())
+        .map(|i| quote::format_ident!("__field_{i}"))
+        .collect::<Vec<_>>();
+
     let field_types = fields.iter().cloned().map(|x| x.ty).collect::<Vec<_>>();
 
     let mut prev_field_size = vec![quote! { 0usize }];
@@ -120,12 +129,12 @@ fn derive_into_bytes_impl(item: DeriveInput) -> TokenStream2 {
                     cur_offset = cur_offset.next_multiple_of(<#field_types as tfhe_cpu::IntoBytes>::alignment());
 
                     let byte_slice = &data[cur_offset..cur_offset + <#field_types as tfhe_cpu::IntoBytes>::size()];
-                    let #field_idents = <#field_types as tfhe_cpu::IntoBytes>::try_from_bytes( byte_slice)?;
+                    let #field_vars = <#field_types as tfhe_cpu::IntoBytes>::try_from_bytes( byte_slice)?;
                 )*
 
 
                 Ok(Self {
-                    #(#field_idents,)*
+                    #(#field_idents: #field_vars,)*
                 })
             }
         }
-- 
2.43.0


From 70af8b4479c8cd9ac533cb79daa2b3fcd017261e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 38/64] fix: common subexpression elimination visits a child
 once and removes nodes last

A node feeding several operands of a child made the child appear several
times, so its edges were moved repeatedly or to nodes already removed.
---
 mux_circuits/src/opt.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mux_circuits/src/opt.rs b/mux_circuits/src/opt.rs
index 21029ed..ffbe1b2 100644
--- a/mux_circuits/src/opt.rs
+++ b/mux_circuits/src/opt.rs
@@ -339,7 +339,17 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
         // Look through out immediate children. If we find any of the
         // type that share an edge with another node, consolidate them into
         // one and fix up their outputs.
-        for e in query.neighbors_directed(index, Direction::Outgoing) {
+        //
+        // A child may use this node for several of its operands, but must be
+        // considered only once. Removals come after every edge has been moved,
+        // as children may use each other.
+        let mut seen = HashSet::new();
+        let mut removals = vec![];
+
+        for e in query
+            .neighbors_directed(index, Direction::Outgoing)
+            .filter(|e| seen.insert(*e))
+        {
             // Unwrapping is okay because index e is a node in the graph.
             let child_node = query.get_node(e).unwrap();
 
@@ -355,9 +365,7 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
                     transforms.push(Transform::AddEdge(node_to_add, edge, *info));
                 }
 
-                transforms.push(Transform::RemoveNode(TransformNodeIndex::NodeIndex(
-                    removed_node,
-                )));
+                removals.push(removed_node);
             };
 
             let child_op = child_node;
@@ -393,6 +401,12 @@ pub(crate) fn common_subexpression_elimination<O: Operation, E: Clone + Copy + E
             };
         }
 
+        for removed_node in removals {
+            transforms.push(Transform::RemoveNode(TransformNodeIndex::NodeIndex(
+                removed_node,
+            )));
+        }
+
         Ok::<_, Infallible>(transforms)
     })
     .expect("Traverse closure should be infallible.");
-- 
2.43.0


From 4a09eec9c03fcf66a575eda36eff0d9a03ebeda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 39/64] fix: test_mux_circuit returns outputs in the order of
 their indices

They came in the order of graph nodes, and values of nodes after a removed
one were out of range.
---
 mux_circuits/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mux_circuits/src/lib.rs b/mux_circuits/src/lib.rs
index 6ce161b..b324037 100644
--- a/mux_circuits/src/lib.rs
+++ b/mux_circuits/src/lib.rs
@@ -13,7 +13,7 @@ use petgraph::{
     Direction,
     graph::NodeIndex,
     stable_graph::{EdgeReference, StableGraph},
-    visit::{EdgeRef, NodeRef},
+    visit::{EdgeRef, NodeIndexable, NodeRef},
 };
 use serde::{Deserialize, Serialize};
 
@@ -455,7 +455,7 @@ pub fn test_mux_circuit(circuit: &MuxCircuit, inputs: &[Bit]) -> Vec<Bit> {
             .count()
     );
 
-    let mut data = vec![false; circuit.graph.node_count()];
+    let mut data = vec![false; circuit.graph.node_bound()];
 
     forward_traverse(&circuit.graph, |query, n| {
         let node = query.get_node(n).unwrap();
@@ -506,7 +506,7 @@ pub fn test_mux_circuit(circuit: &MuxCircuit, inputs: &[Bit]) -> Vec<Bit> {
         })
         .collect::<Vec<_>>();
 
-    outputs.sort();
+    outputs.sort_by_key(|(_, idx)| *idx);
     outputs.iter().map(|(x, _)| Bit(data[x.index()])).collect()
 }
 
-- 
2.43.0


From 06c16625af537ee1bd52109a6df67b7a42e307df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:56 +0000
Subject: [PATCH 40/64] fix: bit helpers accept values as wide as their type

---
 mux_circuits/src/util.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mux_circuits/src/util.rs b/mux_circuits/src/util.rs
index 2051b18..cfe4c3e 100644
--- a/mux_circuits/src/util.rs
+++ b/mux_circuits/src/util.rs
@@ -31,7 +31,7 @@ pub fn arbitrary_width_borrowing_sub(
     borrow: u128,
     width: u32,
 ) -> (u128, u128) {
-    let diff_mask = (0x1 << width) - 1;
+    let diff_mask = u128::MAX.checked_shr(128 - width).unwrap_or(0);
 
     let (diff, borrow) = borrowing_sub(lhs, rhs, borrow != 0);
 
@@ -47,7 +47,7 @@ pub fn arbitrary_width_borrowing_sub(
 pub fn try_to_bits(val: u64, bits: usize) -> Result<Vec<Bit>, Error> {
     let mut result = vec![Bit(false); bits];
 
-    if val >= 0x1 << bits {
+    if bits < u64::BITS as usize && val >= 0x1 << bits {
         return Err(Error::OutOfRange);
     }
 
-- 
2.43.0


From 697d02551edabe75d53ef0f05fbe54806ea485a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 41/64] fix: multiplying fluent integers keeps the other nodes
 of the graph

Pruning renumbered the graph and dropped nodes without outputs, so integers
obtained before the multiplication and the cached constants referred to
unrelated nodes.
---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 41 +++++++------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index f674268..41b6a17 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -5,8 +5,8 @@ use mux_circuits::{
     comparisons::{compare_equal, compare_not_equal},
     sub::full_subtractor,
 };
-use petgraph::stable_graph::NodeIndex;
-use std::marker::PhantomData;
+use petgraph::{Direction, stable_graph::NodeIndex};
+use std::{collections::HashSet, marker::PhantomData};
 
 use crate::{
     Encryption, FheEdge, FheOp, L1GgswCiphertext, L1GlweCiphertext,
@@ -14,7 +14,6 @@ use crate::{
         BitNode, CiphertextOps, DynamicGenericInt, FheCircuitCtx, Muxable,
         PackedDynamicGenericIntGraphNode, Sign,
     },
-    prune,
 };
 
 /// A collection of graph nodes resulting from FHE operations over dynamic generic integers (e.g. the
@@ -485,34 +484,24 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let mut circuit_mut = ctx.circuit.borrow_mut();
 
         // TODO: introduce a mul_lo so we don't have to do this pruning in the first place.
-        let existing_outputs = circuit_mut
-            .node_indices()
-            .filter(|x| {
-                let node_type = matches!(
-                    circuit_mut.node_weight(*x).unwrap(),
-                    FheOp::OutputGgsw1(_)
-                        | FheOp::OutputGlev1(_)
-                        | FheOp::OutputGlwe1(_)
-                        | FheOp::OutputLwe0(_)
-                        | FheOp::OutputLwe1(_)
-                );
-
-                node_type
-                    && circuit_mut
-                        .neighbors_directed(*x, petgraph::Direction::Outgoing)
-                        .count()
-                        == 0
-            })
-            .collect::<Vec<_>>();
+        //
+        // Only nodes of the multiplication itself are removed and none is renumbered, since
+        // callers hold the indices of the nodes added so far.
+        let mut keep = circuit_mut.node_indices().collect::<HashSet<_>>();
 
         let (lo, _hi) = V::append_multiply::<OutCt>(&mut circuit_mut, &a, &b);
 
-        let to_keep = [lo.clone(), existing_outputs].concat();
+        let mut reachable = lo.clone();
+
+        while let Some(node) = reachable.pop() {
+            if keep.insert(node) {
+                reachable.extend(circuit_mut.neighbors_directed(node, Direction::Incoming));
+            }
+        }
 
-        let (pruned, rename) = prune(&circuit_mut, &to_keep);
-        circuit_mut.graph = pruned;
+        circuit_mut.graph.retain_nodes(|_, node| keep.contains(&node));
 
-        let lo = lo.into_iter().map(|x| *rename.get(&x).unwrap());
+        let lo = lo.into_iter();
 
         DynamicGenericIntGraphNodes::from_nodes(lo, &ctx.allocator)
     }
-- 
2.43.0


From 4d27800d1d9c243fe981c0163dafbbd79fe78423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:49 +0000
Subject: [PATCH 42/64] fix: constant caches have room for every ciphertext
 type

---
 parasol_runtime/src/fluent/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parasol_runtime/src/fluent/mod.rs b/parasol_runtime/src/fluent/mod.rs
index 2eb68b9..dbded84 100644
--- a/parasol_runtime/src/fluent/mod.rs
+++ b/parasol_runtime/src/fluent/mod.rs
@@ -50,8 +50,8 @@ pub use uint::*;
 pub struct FheCircuitCtx {
     /// The underlying [`FheCircuit`].
     pub circuit: AtomicRefCell<FheCircuit>,
-    one_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
-    zero_cache: AtomicRefCell<[Option<NodeIndex>; 4]>,
+    one_cache: AtomicRefCell<[Option<NodeIndex>; 5]>,
+    zero_cache: AtomicRefCell<[Option<NodeIndex>; 5]>,
     allocator: Bump,
 }
 
@@ -66,8 +66,8 @@ impl FheCircuitCtx {
     pub fn new() -> Self {
         Self {
             circuit: AtomicRefCell::new(FheCircuit::new()),
-            one_cache: AtomicRefCell::new([None; 4]),
-            zero_cache: AtomicRefCell::new([None; 4]),
+            one_cache: AtomicRefCell::new([None; 5]),
+            zero_cache: AtomicRefCell::new([None; 5]),
             allocator: Bump::new(),
         }
     }
-- 
2.43.0


From cde07b9ac4239c0ffc47edde6b9b00b1f1650c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:10 +0000
Subject: [PATCH 43/64] fix: comparing signed integers of different lengths
 extends the sign

---
 .../fluent/dynamic_generic_int_graph_nodes.rs | 64 ++++++++++---------
 1 file changed, 34 insertions(+), 30 deletions(-)

diff --git a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
index 41b6a17..f8d8526 100644
--- a/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
+++ b/parasol_runtime/src/fluent/dynamic_generic_int_graph_nodes.rs
@@ -205,6 +205,37 @@ impl<U: Sign> DynamicGenericIntGraphNodes<'_, L1GlweCiphertext, U> {
 }
 
 impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
+    /// Interleave the bits of `self` and `other`, extending the shorter integer to the length
+    /// of the longer one in a way that preserves its value.
+    fn interleave_extended(
+        &self,
+        other: &DynamicGenericIntGraphNodes<L1GgswCiphertext, V>,
+        ctx: &FheCircuitCtx,
+    ) -> Vec<NodeIndex> {
+        let max_len = self.bits.len().max(other.bits.len());
+        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
+
+        let extend = |bits: &[BitNode<L1GgswCiphertext>]| {
+            let (_, _, use_msb) = V::resize_config(bits.len(), max_len);
+
+            let extend_bit = match bits.last() {
+                Some(msb) if use_msb => msb.node,
+                _ => zero,
+            };
+
+            let mut nodes = bits.iter().map(|x| x.node).collect::<Vec<_>>();
+            nodes.resize(max_len, extend_bit);
+
+            nodes
+        };
+
+        extend(self.bits)
+            .into_iter()
+            .zip(extend(other.bits))
+            .flat_map(|(a, b)| [a, b])
+            .collect()
+    }
+
     pub(crate) fn cmp<OutCt: Muxable>(
         &self,
         other: &DynamicGenericIntGraphNodes<L1GgswCiphertext, V>,
@@ -218,16 +249,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = V::gen_compare_circuit(max_len, gt, eq);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let cmp_result = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
@@ -257,16 +279,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
@@ -296,16 +309,7 @@ impl<'a, V: Sign> DynamicGenericIntGraphNodes<'a, L1GgswCiphertext, V> {
         let max_len = m.max(n);
         let mux_circuit = compare_not_equal(max_len);
 
-        let zero = ctx.circuit.borrow_mut().add_node(FheOp::ZeroGgsw1);
-
-        let interleaved = self
-            .bits
-            .iter()
-            .zip(other.bits.iter())
-            .flat_map(|(a, b)| [a.node, b.node])
-            .chain(self.bits.iter().skip(m).flat_map(|x| [x.node, zero]))
-            .chain(other.bits.iter().skip(n).flat_map(|x| [zero, x.node]))
-            .collect::<Vec<_>>();
+        let interleaved = self.interleave_extended(other, ctx);
 
         let eq = ctx.circuit.borrow_mut().insert_mux_circuit(
             &mux_circuit,
-- 
2.43.0


From 1bbea54ae59ac94edaa38083581ea5f994329bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:25 +0000
Subject: [PATCH 44/64] fix: recursive multiplication of unequal lengths and
 into Glev ciphertexts

The adder for a short second operand was fed too few bits, and the partial
products of the general case were always taken for Glwe ciphertexts.
---
 parasol_runtime/src/circuits/mul.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/parasol_runtime/src/circuits/mul.rs b/parasol_runtime/src/circuits/mul.rs
index 7185e79..8a4ba52 100644
--- a/parasol_runtime/src/circuits/mul.rs
+++ b/parasol_runtime/src/circuits/mul.rs
@@ -130,9 +130,9 @@ fn mul_impl<OutCt: Muxable>(
 
         let adder_inputs = hi
             .iter()
-            .zip(a_hi_b_lo.iter().take(a_lo_len))
+            .zip(a_hi_b_lo.iter().take(b_lo_len))
             .flat_map(|(x, y)| [*x, *y])
-            .chain(a_hi_b_lo.iter().skip(a_lo_len).copied())
+            .chain(a_hi_b_lo.iter().skip(b_lo_len).copied())
             .map(|x| {
                 insert_ciphertext_conversion(
                     uop_graph,
@@ -145,9 +145,12 @@ fn mul_impl<OutCt: Muxable>(
 
         let sum_out = uop_graph.insert_mux_circuit(&adder, &adder_inputs, OutCt::MUX_MODE);
 
+        // The sum fits in the longer operand, so the adder never carries out.
+        let sum_out = &sum_out[..a_hi_len + b_lo_len];
+
         assert_eq!(lo.len() + sum_out.len(), a.len() + b.len());
 
-        [lo, &sum_out].concat()
+        [lo, sum_out].concat()
     } else {
         // If both operands have high and low pieces, recursively compute the 4
         // partial products and reduce.
@@ -180,7 +183,7 @@ fn mul_impl<OutCt: Muxable>(
                 insert_ciphertext_conversion(
                     uop_graph,
                     x,
-                    CiphertextType::L1GlweCiphertext,
+                    OutCt::CIPHERTEXT_TYPE,
                     CiphertextType::L1GgswCiphertext,
                 )
             })
-- 
2.43.0


From 4b38a6e83f01a6aa8667d522658bf56d55a1c5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:48 +0000
Subject: [PATCH 45/64] fix: deserialised integers hold as many bits as their
 type says

The bytes decide how many bits an integer has, and nothing compared that
number with the type's (or, packed, with the polynomial degree), so malformed
input was accepted and later failed assertions.
---
 parasol_runtime/src/fluent/generic_int.rs        | 8 ++++++++
 parasol_runtime/src/fluent/packed_generic_int.rs | 6 +++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/parasol_runtime/src/fluent/generic_int.rs b/parasol_runtime/src/fluent/generic_int.rs
index 4951016..5413b91 100644
--- a/parasol_runtime/src/fluent/generic_int.rs
+++ b/parasol_runtime/src/fluent/generic_int.rs
@@ -87,6 +87,10 @@ impl<const N: usize, T: CiphertextOps, U: Sign> GetSize for GenericInt<N, T, U>
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.inner.bits.len() != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         for b in &self.inner.bits {
             b.borrow().check_is_valid(params)?;
         }
@@ -205,6 +209,10 @@ impl<T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSize
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
+        if self.bit_len as usize >= T::poly_degree(params).0 {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
         self.ct.borrow().check_is_valid(params)
     }
 }
diff --git a/parasol_runtime/src/fluent/packed_generic_int.rs b/parasol_runtime/src/fluent/packed_generic_int.rs
index 93ac28a..e885530 100644
--- a/parasol_runtime/src/fluent/packed_generic_int.rs
+++ b/parasol_runtime/src/fluent/packed_generic_int.rs
@@ -93,7 +93,11 @@ impl<const N: usize, T: CiphertextOps + PolynomialCiphertextOps, U: Sign> GetSiz
     }
 
     fn check_is_valid(&self, params: &crate::Params) -> crate::Result<()> {
-        self.inner.ct.borrow().check_is_valid(params)
+        if self.inner.bit_len as usize != N {
+            return Err(sunscreen_tfhe::Error::InvalidSize.into());
+        }
+
+        self.inner.check_is_valid(params)
     }
 }
 
-- 
2.43.0


From 08a2541080eef9357263e976f9e9126b078e0b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 46/64] fix: integers wider than 128 bits encrypt and decrypt
 values of 128 bits

Shifts by 128 and more overflow, so UInt256 and Int256 refused nearly every
value and repeated the low bits in the high ones.
---
 parasol_runtime/src/fluent/int.rs  | 24 ++++++++++++++++++++----
 parasol_runtime/src/fluent/uint.rs | 11 +++++++----
 2 files changed, 27 insertions(+), 8 deletions(-)

diff --git a/parasol_runtime/src/fluent/int.rs b/parasol_runtime/src/fluent/int.rs
index 57e8372..5b52b0e 100644
--- a/parasol_runtime/src/fluent/int.rs
+++ b/parasol_runtime/src/fluent/int.rs
@@ -19,11 +19,15 @@ pub struct Signed;
 
 impl PlaintextOps for i128 {
     fn assert_in_bounds(&self, bits: usize) {
+        if bits >= 128 {
+            return;
+        }
+
         let max_val = ((0x1u128 << (bits - 1)) - 1).cast_signed();
         let min_val = -(0x1u128 << (bits - 1)).cast_signed();
 
-        assert!(bits == 128 || *self <= max_val);
-        assert!(bits == 128 || *self >= min_val);
+        assert!(*self <= max_val);
+        assert!(*self >= min_val);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(bits: I) -> Self {
@@ -31,9 +35,20 @@ impl PlaintextOps for i128 {
 
         let mut val = bits.enumerate().fold(0i128, |s, (i, x)| {
             num_bits += 1;
-            s | ((x as i128) << i)
+
+            if i < 128 {
+                s | ((x as i128) << i)
+            } else {
+                // Bits past the 128th must repeat the sign.
+                assert_eq!(x, s < 0, "Value does not fit in 128 bits.");
+                s
+            }
         });
 
+        if num_bits >= 128 {
+            return val;
+        }
+
         let sign = (val >> (num_bits - 1)) & 0x1;
 
         // Sign extend our value to 128-bit.
@@ -45,7 +60,8 @@ impl PlaintextOps for i128 {
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        // Bits past the 128th repeat the sign.
+        (0..len).map(|i| ((*self >> i.min(127)) & 0x1) == 0x1)
     }
 }
 
diff --git a/parasol_runtime/src/fluent/uint.rs b/parasol_runtime/src/fluent/uint.rs
index f81e38d..5614ec3 100644
--- a/parasol_runtime/src/fluent/uint.rs
+++ b/parasol_runtime/src/fluent/uint.rs
@@ -19,16 +19,19 @@ pub struct Unsigned;
 
 impl PlaintextOps for u128 {
     fn assert_in_bounds(&self, bits: usize) {
-        assert!(bits == 128 || *self < 0x1 << bits);
+        assert!(bits >= 128 || *self < 0x1 << bits);
     }
 
     fn from_bits<I: Iterator<Item = bool>>(iter: I) -> Self {
-        iter.enumerate()
-            .fold(0u128, |s, (i, x)| s | ((x as u128) << i))
+        iter.enumerate().fold(0u128, |s, (i, x)| {
+            assert!(i < 128 || !x, "Value does not fit in 128 bits.");
+
+            if i < 128 { s | ((x as u128) << i) } else { s }
+        })
     }
 
     fn to_bits(&self, len: usize) -> impl Iterator<Item = bool> {
-        (0..len).map(|i| ((*self >> i) & 0x1) == 0x1)
+        (0..len).map(|i| i < 128 && ((*self >> i) & 0x1) == 0x1)
     }
 }
 
-- 
2.43.0


From 54ce356f259d2de554cafcc42084956634e44939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:05 +0000
Subject: [PATCH 47/64] fix: packed trivial encryption refuses values that do
 not fit

Every other way to encrypt an integer does; this one truncated the value.
---
 parasol_runtime/src/fluent/generic_int.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/parasol_runtime/src/fluent/generic_int.rs b/parasol_runtime/src/fluent/generic_int.rs
index 5413b91..aecf021 100644
--- a/parasol_runtime/src/fluent/generic_int.rs
+++ b/parasol_runtime/src/fluent/generic_int.rs
@@ -276,6 +276,8 @@ where
 
     /// Trivially encrypt the given value as a [`PackedDynamicGenericInt`].
     pub fn trivial_encrypt(val: U::PlaintextType, enc: &Encryption, n: usize) -> Self {
+        val.assert_in_bounds(n);
+
         let msg = Self::encode(val, enc, n);
 
         Self {
-- 
2.43.0


From b2eb832ce95ae6a143f3da0ec8290eaac28e8623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:58 +0000
Subject: [PATCH 48/64] fix: plaintext instructions on registers of 128 bits

Masks of 128 bits shifted by the whole width of their type and came out
zero, and immediates wider than 32 bits did the same in 32 and 64 bits.
---
 parasol_cpu/src/proc/ops/add.rs         | 16 ++++++++++------
 parasol_cpu/src/proc/ops/and.rs         |  4 ++--
 parasol_cpu/src/proc/ops/casting.rs     |  8 ++++----
 parasol_cpu/src/proc/ops/comparisons.rs |  4 ++--
 parasol_cpu/src/proc/ops/loadi.rs       |  8 ++++----
 parasol_cpu/src/proc/ops/mod.rs         |  9 +++++++++
 parasol_cpu/src/proc/ops/neg.rs         |  4 ++--
 parasol_cpu/src/proc/ops/not.rs         |  4 ++--
 parasol_cpu/src/proc/ops/or.rs          |  4 ++--
 parasol_cpu/src/proc/ops/sub.rs         |  4 ++--
 parasol_cpu/src/proc/ops/xor.rs         |  4 ++--
 11 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/add.rs b/parasol_cpu/src/proc/ops/add.rs
index e2381fb..b305295 100644
--- a/parasol_cpu/src/proc/ops/add.rs
+++ b/parasol_cpu/src/proc/ops/add.rs
@@ -2,7 +2,7 @@ use parasol_runtime::circuits::add::add_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_add(*val2) & mask,
@@ -178,12 +178,16 @@ impl FheProcessor {
 
 /// Add two plaintext numbers together, returning the sum and the carry out.
 fn add_with_carry(a: u128, b: u128, carry_in: u128, width: u32) -> (u128, u128) {
-    let sum_mask = (0x1 << width) - 1;
-
-    let full_sum = a.wrapping_add(b).wrapping_add(carry_in);
+    let sum_mask = width_mask(width);
 
+    let (full_sum, carry_1) = a.overflowing_add(b);
+    let (full_sum, carry_2) = full_sum.overflowing_add(carry_in);
     let sum = full_sum & sum_mask;
-    let carry = (full_sum >> width) & 1;
+    let carry = if width < 128 {
+        (full_sum >> width) & 1
+    } else {
+        (carry_1 || carry_2) as u128
+    };
 
     (sum, carry)
 }
diff --git a/parasol_cpu/src/proc/ops/and.rs b/parasol_cpu/src/proc/ops/and.rs
index f933080..d0fa54b 100644
--- a/parasol_cpu/src/proc/ops/and.rs
+++ b/parasol_cpu/src/proc/ops/and.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an and instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: val1 & val2 & mask,
diff --git a/parasol_cpu/src/proc/ops/casting.rs b/parasol_cpu/src/proc/ops/casting.rs
index bf7d654..578b946 100644
--- a/parasol_cpu/src/proc/ops/casting.rs
+++ b/parasol_cpu/src/proc/ops/casting.rs
@@ -4,7 +4,7 @@ use parasol_concurrency::AtomicRefCell;
 
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -80,8 +80,8 @@ impl FheProcessor {
                             if val >> (width - 1) == 0 {
                                 *val
                             } else {
-                                let old_mask = (1 << width) - 1;
-                                let new_mask = (1 << new_width) - 1;
+                                let old_mask = width_mask(*width);
+                                let new_mask = width_mask(new_width);
                                 (val | !old_mask) & new_mask
                             }
                         } else {
@@ -153,7 +153,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width: _ } => {
-                    let mask = (0x1 << new_width) - 1;
+                    let mask = width_mask(new_width);
                     *dst = Register::Plaintext {
                         val: (*val) & mask,
                         width: new_width,
diff --git a/parasol_cpu/src/proc/ops/comparisons.rs b/parasol_cpu/src/proc/ops/comparisons.rs
index 4a26566..fc4db6a 100644
--- a/parasol_cpu/src/proc/ops/comparisons.rs
+++ b/parasol_cpu/src/proc/ops/comparisons.rs
@@ -12,14 +12,14 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 fn to_signed(val: u128, width: u32) -> i128 {
     let sign = 1 << (width - 1);
     if sign & val == 0 {
         val as i128
     } else {
-        (!((sign << 1) - 1) | val) as i128
+        (!width_mask(width) | val) as i128
     }
 }
 
diff --git a/parasol_cpu/src/proc/ops/loadi.rs b/parasol_cpu/src/proc/ops/loadi.rs
index 82adae1..fe89cde 100644
--- a/parasol_cpu/src/proc/ops/loadi.rs
+++ b/parasol_cpu/src/proc/ops/loadi.rs
@@ -1,6 +1,6 @@
 use crate::{
     Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -24,15 +24,15 @@ impl FheProcessor {
             // the number -90 in 2's complement with 8 bit will be 0xA6, but
             // in the encoding we have 32 bit for the immediate so it's
             // 0xFFFFFFA6, not 0x000000A6
-            let in_range_unsigned = (imm as u64) < (1 << width);
-            let in_range_signed_neg = imm >= 0xFFFFFFFF << (width - 1);
+            let in_range_unsigned = imm as u128 <= width_mask(width);
+            let in_range_signed_neg = width < 32 && imm >= 0xFFFFFFFF << (width - 1);
 
             if !in_range_unsigned && !in_range_signed_neg {
                 return Err(Error::out_of_range(instruction_id, pc));
             }
 
             *dst = Register::Plaintext {
-                val: imm as u128 & ((1 << width) - 1),
+                val: imm as u128 & width_mask(width),
                 width,
             };
 
diff --git a/parasol_cpu/src/proc/ops/mod.rs b/parasol_cpu/src/proc/ops/mod.rs
index 22ac6ab..b465a8d 100644
--- a/parasol_cpu/src/proc/ops/mod.rs
+++ b/parasol_cpu/src/proc/ops/mod.rs
@@ -128,6 +128,15 @@ pub fn make_parent_op(retirement_info: &RetirementInfo<DispatchIsaOp>) -> Arc<Co
     }))
 }
 
+/// A mask of the low `width` bits.
+pub(crate) fn width_mask(width: u32) -> u128 {
+    if width < 128 {
+        (0x1 << width) - 1
+    } else {
+        u128::MAX
+    }
+}
+
 pub(crate) fn is_invalid_load_store_alignment(addr: Ptr32, num_bytes: u32) -> bool {
     num_bytes == 0 || addr.0 % num_bytes != 0 || num_bytes > 16 || !num_bytes.is_power_of_two()
 }
diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 2091e21..38f719a 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,6 @@
 use crate::{
     Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -23,7 +23,7 @@ impl FheProcessor {
                     val: val1,
                     width: width1,
                 } => {
-                    let mask = (0x1 << width1) - 1;
+                    let mask = width_mask(*width1);
 
                     *dst = Register::Plaintext {
                         val: val1.wrapping_neg() & mask,
diff --git a/parasol_cpu/src/proc/ops/not.rs b/parasol_cpu/src/proc/ops/not.rs
index 41afcac..88fe3b3 100644
--- a/parasol_cpu/src/proc/ops/not.rs
+++ b/parasol_cpu/src/proc/ops/not.rs
@@ -5,7 +5,7 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -25,7 +25,7 @@ impl FheProcessor {
 
             match src {
                 Register::Plaintext { val, width } => {
-                    let mask = (0x1 << width) - 1;
+                    let mask = width_mask(*width);
 
                     *dst = Register::Plaintext {
                         val: (!val) & mask,
diff --git a/parasol_cpu/src/proc/ops/or.rs b/parasol_cpu/src/proc/ops/or.rs
index 839e515..d20d0c7 100644
--- a/parasol_cpu/src/proc/ops/or.rs
+++ b/parasol_cpu/src/proc/ops/or.rs
@@ -9,7 +9,7 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
 
 impl FheProcessor {
     /// Execute an or instruction, where each element in the vector is a bit.
@@ -35,7 +35,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width) - 1;
+                let mask = width_mask(*width);
 
                 *dst = Register::Plaintext {
                     val: (val1 | val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/sub.rs b/parasol_cpu/src/proc/ops/sub.rs
index d885f6a..af36a55 100644
--- a/parasol_cpu/src/proc/ops/sub.rs
+++ b/parasol_cpu/src/proc/ops/sub.rs
@@ -3,7 +3,7 @@ use parasol_runtime::circuits::sub_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -36,7 +36,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1.wrapping_sub(*val2) & mask,
diff --git a/parasol_cpu/src/proc/ops/xor.rs b/parasol_cpu/src/proc/ops/xor.rs
index fc49af5..4aa147d 100644
--- a/parasol_cpu/src/proc/ops/xor.rs
+++ b/parasol_cpu/src/proc/ops/xor.rs
@@ -5,7 +5,7 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::make_parent_op},
+    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
@@ -38,7 +38,7 @@ impl FheProcessor {
                 },
             ) = (a, b)
             {
-                let mask = (0x1 << width1) - 1;
+                let mask = width_mask(*width1);
 
                 *dst = Register::Plaintext {
                     val: val1 ^ val2 & mask,
-- 
2.43.0


From cc4bd06fe9c84b02d7eec2b13975b151ccd38b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 49/64] fix: plain shifts by the width of the value or more,
 and left shifts keep the width

The plain forms overflowed or asserted on amounts the circuits for encrypted
amounts handle, and left shifts and negative arithmetic shifts set bits above
the width of the register.
---
 parasol_cpu/src/proc/ops/bitshift.rs | 61 +++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 15 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index 2edef37..8117df8 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -15,41 +15,66 @@ use crate::{
     unwrap_registers,
 };
 
-use super::make_parent_op;
+use super::{make_parent_op, width_mask};
+
+fn shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift < width as u128 {
+        val >> shift
+    } else {
+        0
+    }
+}
+
+fn shift_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    if shift < width as u128 {
+        (val << shift) & width_mask(width)
+    } else {
+        0
+    }
+}
 
 fn arithmetic_shift_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
+    let shift = shift.min(width as u128 - 1);
     let right = val >> shift;
 
     // check if the number if positive
     if (0x1 << (width - 1)) & val == 0 {
         right
     } else {
-        let signs = ((0x1 << (shift + 1)) - 1) << (width as u128 - shift);
+        let signs = !(width_mask(width) >> shift) & width_mask(width);
         signs | right
     }
 }
 
 fn rotate_right_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
+
+    if shift == 0 {
+        return val;
+    }
 
     let left = val << (width as u128 - shift);
     let right = val >> shift;
 
-    (left | right) & mask
+    (left | right) & width_mask(width)
 }
 
 fn rotate_left_arbitrary_width(val: u128, shift: u128, width: u32) -> u128 {
-    let mask = (0x1 << width) - 1;
+    let shift = shift % width as u128;
+
+    if shift == 0 {
+        return val;
+    }
 
     let left = val << shift;
     let right = val >> (width as u128 - shift);
 
-    (left | right) & mask
+    (left | right) & width_mask(width)
 }
 
 fn encrypted_value_plain_shift(
     c: &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    shift: u32,
+    shift: u128,
     l1glwe_zero: &L1GlweCiphertext,
     dir: ShiftDirection,
     mode: ShiftMode,
@@ -58,15 +83,21 @@ fn encrypted_value_plain_shift(
 
     let old_msb = result.last().unwrap().clone();
 
+    // Shifting by the width or more moves every bit out; rotations wrap around.
+    let shift = match mode {
+        ShiftMode::Rotation => (shift % c.len() as u128) as usize,
+        _ => shift.min(c.len() as u128) as usize,
+    };
+
     // The processor is little endian, so a right shift is a left rotation.
     match dir {
-        ShiftDirection::Left => result.rotate_right(shift as usize),
-        ShiftDirection::Right => result.rotate_left(shift as usize),
+        ShiftDirection::Left => result.rotate_right(shift),
+        ShiftDirection::Right => result.rotate_left(shift),
     }
 
     match mode {
         ShiftMode::Logical => {
-            for i in 0..shift as usize {
+            for i in 0..shift {
                 let ix = match dir {
                     ShiftDirection::Left => i,
                     ShiftDirection::Right => result.len() - i - 1,
@@ -77,7 +108,7 @@ fn encrypted_value_plain_shift(
         ShiftMode::Rotation => {}
         ShiftMode::Arithmetic => {
             assert_eq!(dir, ShiftDirection::Right);
-            for i in 0..shift as usize {
+            for i in 0..shift {
                 let ix = result.len() - i - 1;
                 result[ix] = old_msb.clone();
             }
@@ -92,7 +123,7 @@ type ShiftOperation = fn(u128, u128, u32) -> u128;
 // (c, shift, l1glwe_zero) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>
 type ShiftOperationCiphertext = fn(
     &[Arc<AtomicRefCell<L1GlweCiphertext>>],
-    u32,
+    u128,
     &L1GlweCiphertext,
 ) -> Vec<Arc<AtomicRefCell<L1GlweCiphertext>>>;
 
@@ -133,7 +164,7 @@ impl FheProcessor {
                         width: _,
                     },
                 ) => {
-                    let output = plain_shift(c, *shift as u32, &self.aux_data.l1glwe_zero);
+                    let output = plain_shift(c, *shift, &self.aux_data.l1glwe_zero);
 
                     *dst = Register::Ciphertext(Ciphertext::L1Glwe { data: output });
 
@@ -201,7 +232,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val >> shift,
+            shift_right_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
@@ -267,7 +298,7 @@ impl FheProcessor {
             dst,
             src,
             shift,
-            |val, shift, _| val << shift,
+            shift_left_arbitrary_width,
             |c, shift, l1glwe_zero| {
                 encrypted_value_plain_shift(
                     c,
-- 
2.43.0


From aeb7f29f041973e4bce96ef7afbb2bb6dc93bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 50/64] fix: instruction words with unknown high bits are
 illegal instructions

Decoding asserted, so a word that is no instruction ended the process.
---
 parasol_cpu/src/proc/assembly.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/assembly.rs b/parasol_cpu/src/proc/assembly.rs
index 39e19db..e9d151f 100644
--- a/parasol_cpu/src/proc/assembly.rs
+++ b/parasol_cpu/src/proc/assembly.rs
@@ -120,7 +120,9 @@ macro_rules! define_op {
                                         let value = value >> $unused_width;
                                     )*
 
-                                    assert_eq!(value, 0);
+                                    if value != 0 {
+                                        return Err(Error::IllegalInstruction(0));
+                                    }
 
                                     $inst_name :: $op_name(
                                         $($dst_name,)*
-- 
2.43.0


From 0cc6f58c4bef0f94720d9d9fe45af6ffb8c1f978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 51/64] fix: invalid memory operands fail the program rather
 than hang it

The instruction was counted as in flight before its address was checked, and
nobody retired it when the check failed.
---
 parasol_cpu/src/proc/fhe_processor.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index 5cb02a4..b88b845 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -353,7 +353,6 @@ impl FheProcessor {
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
-        self.instructions_inflight += 1;
 
         // Increment our dependency count to 1 to prevent any dependents
         // from issuing our new instruction until we've finished processing
@@ -369,6 +368,9 @@ impl FheProcessor {
             pc,
         )?;
 
+        // From here on the instruction will retire.
+        self.instructions_inflight += 1;
+
         for dep in deps.into_iter().flatten() {
             // If we take a dependency on ourself, we somehow fucked up.
             assert_ne!(dep.id, scoreboard_entry.id);
-- 
2.43.0


From 38c26c2fcc1eb7255d094cda4fa68f26559f4a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:34 +0000
Subject: [PATCH 52/64] fix: branch conditions and addresses are read once they
 are computed

While the producer of a condition or an address was in flight the front end
read the zero its register starts with, so branches on encrypted values and
on values loaded behind encrypted stores went the wrong way silently.
---
 parasol_cpu/src/proc/fhe_processor.rs | 88 +++++++++++++++++++--------
 1 file changed, 64 insertions(+), 24 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index b88b845..dd15bc4 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -148,7 +148,7 @@ impl FheProcessor {
 
     // This method requires that load and store operations have no in-flight
     // register dependencies. That is, its src/dst register value must be resolved before we decode
-    // this instruction.
+    // this instruction; dispatch_instruction waits for it.
     //
     // Removing this assumption requires multiple stages of dependency checking, as we will need this
     // if we allow encrypted load/store src/dst registers.
@@ -316,6 +316,21 @@ impl FheProcessor {
 
         inst.validate(self.current_instruction, pc)?;
 
+        // The front end itself reads conditions and addresses.
+        let front_end_operand = match inst {
+            IsaOp::BranchNonZero(cond, _) | IsaOp::BranchZero(cond, _) => Some(cond),
+            IsaOp::Load(_, ptr, _, _) | IsaOp::Store(ptr, _, _, _) => Some(ptr),
+            _ => None,
+        };
+
+        if let Some(register) = front_end_operand {
+            self.wait_for_register(register, options);
+
+            if let Some(e) = self.aux_data.fault.get() {
+                return Err(e.clone());
+            }
+        }
+
         let srcs = (&self.registers, ());
 
         if options.log_instruction_execution {
@@ -431,37 +446,62 @@ impl FheProcessor {
                 }
             };
 
-            if options.log_instruction_execution {
-                trace!("Instructions remaining {}", self.instructions_inflight);
-            }
+            self.handle_ready_instruction(ready, options);
+        }
+    }
 
-            match ready {
-                InstructionOperation::Retire(Ok(v)) => {
-                    if options.log_instruction_execution {
-                        debug!("retired id={} pc={}", v.id, v.pc);
-                    }
+    fn handle_ready_instruction(
+        &mut self,
+        ready: InstructionOperation<DispatchIsaOp>,
+        options: &RunProgramOptions,
+    ) {
+        if options.log_instruction_execution {
+            trace!("Instructions remaining {}", self.instructions_inflight);
+        }
 
-                    self.instructions_inflight -= 1;
+        match ready {
+            InstructionOperation::Retire(Ok(v)) => {
+                if options.log_instruction_execution {
+                    debug!("retired id={} pc={}", v.id, v.pc);
                 }
-                InstructionOperation::Retire(Err(e)) => {
-                    error!("retire error e={e}");
 
-                    // This should already be set in `retire`, but let's do this for safety
-                    // just in case we later add another sender codepath to the retirement channel.
-                    let _ = self.aux_data.fault.set(e);
-                    self.instructions_inflight -= 1;
-                }
-                InstructionOperation::Exec(v) => {
-                    self.exec_instruction(
-                        v.clone(),
-                        self.make_retirement_info(&v, &self.aux_data.fault),
-                        options,
-                    );
-                }
+                self.instructions_inflight -= 1;
+            }
+            InstructionOperation::Retire(Err(e)) => {
+                error!("retire error e={e}");
+
+                // This should already be set in `retire`, but let's do this for safety
+                // just in case we later add another sender codepath to the retirement channel.
+                let _ = self.aux_data.fault.set(e);
+                self.instructions_inflight -= 1;
+            }
+            InstructionOperation::Exec(v) => {
+                self.exec_instruction(
+                    v.clone(),
+                    self.make_retirement_info(&v, &self.aux_data.fault),
+                    options,
+                );
             }
         }
     }
 
+    /// Run instructions until the one producing `register` (if any) has retired.
+    fn wait_for_register(
+        &mut self,
+        register: RegisterName<Register>,
+        options: &RunProgramOptions,
+    ) {
+        while let Some(producer) = self.registers.get_instruction(register) {
+            // Instructions never unlock their dependents again once they retire.
+            if producer.dependents.try_lock().is_none() {
+                return;
+            }
+
+            let ready = self.ready_instructions.1.recv().unwrap();
+            self.handle_ready_instruction(ready, options);
+        }
+    }
+
     fn make_retirement_info(
         &self,
         scoreboard_entry: &ScoreboardEntryRef<DispatchIsaOp>,
-- 
2.43.0


From 228db137df8a50b9ebbe1a032fd3fa3fbe78e144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 53/64] fix: gas limits bound a whole program, and gas counts
 resolved operands

The limit was compared with each instruction alone, and operands still in
flight counted as plaintext, so the gas used depended on timing.
---
 parasol_cpu/src/proc/fhe_processor.rs | 60 +++++++++++++--------------
 1 file changed, 29 insertions(+), 31 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index dd15bc4..a2497a5 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -119,6 +119,9 @@ where
 
     pc: u32,
 
+    /// Gas used by the instructions of the current program that started executing.
+    gas: u32,
+
     /// The number of instructions currently dispatched or executing
     pub instructions_inflight: usize,
 
@@ -140,6 +143,7 @@ impl FheProcessor {
             aux_data,
             pc: 0,
             current_instruction: 0,
+            gas: 0,
             instructions_inflight: 0,
             ready_instructions: mpsc::channel(),
             debug_handlers: vec![],
@@ -218,7 +222,7 @@ impl FheProcessor {
     }
 
     /// Figures out the gas cost for the given instruction
-    fn compute_gas(&self, dispatched_op: &crate::proc::DispatchIsaOp) -> u32 {
+    fn compute_gas(dispatched_op: &crate::proc::DispatchIsaOp) -> u32 {
         fn is_register_ciphertext(reg: &RobEntryRef<Register>) -> bool {
             match reg {
                 RobEntryRef::Id(e) | RobEntryRef::IdMut(e) => e.entry().is_ciphertext(),
@@ -311,7 +315,7 @@ impl FheProcessor {
         inst: IsaOp,
         pc: u32,
         options: &RunProgramOptions,
-    ) -> Result<(u32, u32)> {
+    ) -> Result<u32> {
         use crate::tomasulo::{GetDeps, ToDispatchedOp};
 
         inst.validate(self.current_instruction, pc)?;
@@ -357,14 +361,6 @@ impl FheProcessor {
         let disp_inst =
             inst.to_dispatched_op(srcs, scoreboard_entry.clone(), self.current_instruction, pc)?;
 
-        let gas = self.compute_gas(&disp_inst);
-
-        if let Some(gas_limit) = options.gas_limit {
-            if gas > gas_limit {
-                return Err(Error::OutOfGas(gas, gas_limit));
-            }
-        }
-
         scoreboard_entry.set_instruction(&disp_inst);
 
         self.current_instruction += 1;
@@ -412,9 +408,7 @@ impl FheProcessor {
         // Execute any ready instructions (possibly including the one we just dispatched)
         self.execute_ready_instructions(false, options);
 
-        let next_pc = self.next_program_counter(disp_inst, pc)?;
-
-        Ok((next_pc, gas))
+        self.next_program_counter(disp_inst, pc)
     }
 
     fn execute_ready_instructions(&mut self, blocking: bool, options: &RunProgramOptions) {
@@ -644,6 +638,8 @@ impl FheProcessor {
 
         self.debug_handlers = vec![];
 
+        self.gas = 0;
+
         // Clear any fault
         self.aux_data.fault = Arc::new(OnceLock::new());
 
@@ -681,8 +677,6 @@ impl FheProcessor {
         args: &CallData<T>,
         options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
-        let gas_limit = options.gas_limit();
-
         self.reset()?;
         let return_data = self.set_up_function_call(memory, args)?;
         self.aux_data.memory = Some(memory.clone());
@@ -690,7 +684,6 @@ impl FheProcessor {
 
         let mut run_program_impl = || {
             self.pc = initial_pc.0;
-            let mut gas = 0;
 
             loop {
                 // If an async error occurred, stop issuing new instructions.
@@ -704,10 +697,7 @@ impl FheProcessor {
                 let pc_result = self.dispatch_instruction(inst, self.pc, options);
 
                 match pc_result {
-                    Ok((next_pc, used_gas)) => {
-                        gas += used_gas;
-                        self.pc = next_pc;
-                    }
+                    Ok(next_pc) => self.pc = next_pc,
                     Err(e) => match e {
                         // Halt isn't a true error, but rather we ran out of instructions
                         // to execute.
@@ -717,18 +707,14 @@ impl FheProcessor {
                 }
             }
 
-            Ok::<_, Error>(gas)
+            Ok::<_, Error>(())
         };
 
-        let gas = match run_program_impl() {
-            Ok(gas) => gas,
-            Err(e) => {
-                // Attempt to overwrite the current fault. If the frontend returned
-                // an error due to a previous fault, this will fail, but whatever.
-                let _ = self.aux_data.fault.set(e);
-                gas_limit.unwrap_or_default()
-            }
-        };
+        if let Err(e) = run_program_impl() {
+            // Attempt to overwrite the current fault. If the frontend returned
+            // an error due to a previous fault, this will fail, but whatever.
+            let _ = self.aux_data.fault.set(e);
+        }
 
         self.wait(options);
 
@@ -741,7 +727,7 @@ impl FheProcessor {
         }
 
         self.try_capture_return_value(memory, args, return_data)
-            .map(|ret_val| (gas, ret_val))
+            .map(|ret_val| (self.gas, ret_val))
     }
 
     /// Runs the given program using the passed user `data` as arguments.
@@ -797,6 +783,18 @@ impl Tomasulo for FheProcessor {
             return;
         }
 
+        // The operands are known only now: a register in flight doesn't tell whether its value
+        // will be encrypted.
+        self.gas = self.gas.saturating_add(Self::compute_gas(&instruction));
+
+        if let Some(gas_limit) = options.gas_limit {
+            if self.gas > gas_limit {
+                let error = Error::OutOfGas(self.gas, gas_limit);
+                FheProcessor::retire(&retirement_info, Err(error));
+                return;
+            }
+        }
+
         match instruction {
             Load(dst, src, width, offset) => {
                 self.load(
-- 
2.43.0


From 8ee45a1dcfde68d62f31182281adf121d068a8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 54/64] fix: negation of encrypted values

It was a todo!(), so a program negating an encrypted value ended the process.
---
 parasol_cpu/src/proc/ops/neg.rs | 40 ++++++++++++++++++++++++---------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/neg.rs b/parasol_cpu/src/proc/ops/neg.rs
index 38f719a..0cf6246 100644
--- a/parasol_cpu/src/proc/ops/neg.rs
+++ b/parasol_cpu/src/proc/ops/neg.rs
@@ -1,6 +1,12 @@
+use parasol_runtime::circuits::sub_circuit;
+
 use crate::{
-    Ciphertext, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::width_mask},
+    Ciphertext, Error, Register, Result,
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, trivially_encrypt_value_l1glwe, width_mask},
+    },
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
@@ -15,7 +21,7 @@ impl FheProcessor {
         _instruction_id: usize,
         _pc: u32,
     ) {
-        let neg_impl = || -> Result<()> {
+        let mut neg_impl = || -> Result<()> {
             unwrap_registers!((mut dst) (src));
 
             match src {
@@ -32,15 +38,29 @@ impl FheProcessor {
 
                     FheProcessor::retire(&retirement_info, Ok(()));
                 }
-                Register::Ciphertext(Ciphertext::L1Glwe { data: _c1 }) => {
-                    todo!()
-                    // let output = add_l1glwe_cipher_cipher(c1, c2);
+                Register::Ciphertext(Ciphertext::L1Glwe { data }) => {
+                    let zero = trivially_encrypt_value_l1glwe(
+                        0,
+                        data.len() as u32,
+                        &self.aux_data.l1glwe_zero,
+                        &self.aux_data.l1glwe_one,
+                    );
 
-                    // *dst = Register::Ciphertext(Ciphertext::L1GlweCiphertext { data: output });
-                }
-                _ => {
-                    todo!()
+                    let (graph, output) =
+                        sub_circuit(data.len(), &zero, data, None, &self.aux_data.enc);
+
+                    let parent_op = make_parent_op(&retirement_info);
+
+                    self.aux_data
+                        .uop_processor
+                        .spawn_graph(&graph, &self.aux_data.flow, parent_op);
+
+                    // There is a borrow out bit that we will ignore
+                    *dst = Register::Ciphertext(Ciphertext::L1Glwe {
+                        data: output[0..output.len() - 1].to_owned(),
+                    });
                 }
+                _ => return Err(Error::EncryptionMismatch),
             };
 
             Ok(())
-- 
2.43.0


From 510f5761d9c4f00d398ba0c48f691de858dadf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:46 +0000
Subject: [PATCH 55/64] fix: stores of narrow encrypted values and of the
 address itself

Storing more bytes than an encrypted register has, or a register at the
address it holds, panicked.
---
 parasol_cpu/src/proc/ops/store.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index e448547..8090af1 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -20,10 +20,7 @@ impl FheProcessor {
         pc: u32,
     ) {
         let store_impl = || -> Result<()> {
-            let mut dst = dst.entry_force_mut();
-            let dst = &mut **dst;
-
-            unwrap_registers!((src));
+            unwrap_registers!((dst) (src));
 
             match dst {
                 Register::Plaintext { val: ptr, width: _ } => {
@@ -37,6 +34,13 @@ impl FheProcessor {
                         return Err(Error::UnalignedAccess(base_addr.0));
                     }
 
+                    if src.is_ciphertext() && src.width() < 8 * num_bytes as usize {
+                        return Err(Error::WidthMismatch {
+                            inst_id: instruction_id,
+                            pc,
+                        });
+                    }
+
                     for i in 0..num_bytes {
                         let byte = match src {
                             Register::Plaintext { val, width: _ } => {
-- 
2.43.0


From 84cc8ac450dc247b9e38b8277f5f32f96bb30668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:52 +0000
Subject: [PATCH 56/64] fix: encrypted shift amounts of few bits, and rotations
 of odd widths

The circuits demand enough bits for the width and rotate powers of two only;
both demands were asserted in the middle of running a program.
---
 parasol_cpu/src/proc/fhe_processor.rs |  6 +-----
 parasol_cpu/src/proc/ops/add.rs       |  6 +++++-
 parasol_cpu/src/proc/ops/bitshift.rs  | 25 +++++++++++++++++++++++++
 parasol_cpu/src/proc/ops/not.rs       |  6 +++++-
 parasol_cpu/src/proc/ops/store.rs     |  2 +-
 parasol_cpu/src/proc/ops/sub.rs       |  6 +++++-
 parasol_cpu/src/proc/ops/xor.rs       |  6 +++++-
 7 files changed, 47 insertions(+), 10 deletions(-)

diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index a2497a5..c668484 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -480,11 +480,7 @@ impl FheProcessor {
     }
 
     /// Run instructions until the one producing `register` (if any) has retired.
-    fn wait_for_register(
-        &mut self,
-        register: RegisterName<Register>,
-        options: &RunProgramOptions,
-    ) {
+    fn wait_for_register(&mut self, register: RegisterName<Register>, options: &RunProgramOptions) {
         while let Some(producer) = self.registers.get_instruction(register) {
             // Instructions never unlock their dependents again once they retire.
             if producer.dependents.try_lock().is_none() {
diff --git a/parasol_cpu/src/proc/ops/add.rs b/parasol_cpu/src/proc/ops/add.rs
index b305295..88348d4 100644
--- a/parasol_cpu/src/proc/ops/add.rs
+++ b/parasol_cpu/src/proc/ops/add.rs
@@ -2,7 +2,11 @@ use parasol_runtime::circuits::add::add_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
diff --git a/parasol_cpu/src/proc/ops/bitshift.rs b/parasol_cpu/src/proc/ops/bitshift.rs
index 8117df8..0c93f84 100644
--- a/parasol_cpu/src/proc/ops/bitshift.rs
+++ b/parasol_cpu/src/proc/ops/bitshift.rs
@@ -137,6 +137,7 @@ impl FheProcessor {
         shift: RobEntryRef<Register>,
         plain_operation: ShiftOperation,
         plain_shift: ShiftOperationCiphertext,
+        mode: ShiftMode,
         circuit_gen: fn(usize, usize) -> MuxCircuit,
     ) {
         let mut shift_impl = || -> Result<()> {
@@ -178,6 +179,25 @@ impl FheProcessor {
                     )?;
 
                     let input_width = c.len();
+
+                    // The circuits for rotations don't reduce the amount modulo the width.
+                    if mode == ShiftMode::Rotation && !input_width.is_power_of_two() {
+                        return Err(Error::unsupported_width(
+                            *retirement_info.scoreboard_entry.id,
+                            retirement_info.scoreboard_entry.pc,
+                        ));
+                    }
+
+                    // The circuits need enough bits to shift by any amount below the width.
+                    let min_shift_width =
+                        (input_width - 1).checked_ilog2().unwrap_or(0) as usize + 1;
+                    let zero = Arc::new(AtomicRefCell::new(self.aux_data.l1glwe_zero.clone()));
+                    let mut c_shift = c_shift.clone();
+
+                    if c_shift.len() < min_shift_width {
+                        c_shift.resize(min_shift_width, zero);
+                    }
+
                     let shift_width = c_shift.len();
 
                     let mut graph = FheCircuit::new();
@@ -242,6 +262,7 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            ShiftMode::Logical,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -275,6 +296,7 @@ impl FheProcessor {
                     ShiftMode::Arithmetic,
                 )
             },
+            ShiftMode::Arithmetic,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -308,6 +330,7 @@ impl FheProcessor {
                     ShiftMode::Logical,
                 )
             },
+            ShiftMode::Logical,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -341,6 +364,7 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            ShiftMode::Rotation,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
@@ -374,6 +398,7 @@ impl FheProcessor {
                     ShiftMode::Rotation,
                 )
             },
+            ShiftMode::Rotation,
             |inputs, shift_size| {
                 bitshift(
                     inputs as u16,
diff --git a/parasol_cpu/src/proc/ops/not.rs b/parasol_cpu/src/proc/ops/not.rs
index 88fe3b3..48bd9b9 100644
--- a/parasol_cpu/src/proc/ops/not.rs
+++ b/parasol_cpu/src/proc/ops/not.rs
@@ -5,7 +5,11 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Error, Register, Result,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
 };
diff --git a/parasol_cpu/src/proc/ops/store.rs b/parasol_cpu/src/proc/ops/store.rs
index 8090af1..d903231 100644
--- a/parasol_cpu/src/proc/ops/store.rs
+++ b/parasol_cpu/src/proc/ops/store.rs
@@ -20,7 +20,7 @@ impl FheProcessor {
         pc: u32,
     ) {
         let store_impl = || -> Result<()> {
-            unwrap_registers!((dst) (src));
+            unwrap_registers!((dst)(src));
 
             match dst {
                 Register::Plaintext { val: ptr, width: _ } => {
diff --git a/parasol_cpu/src/proc/ops/sub.rs b/parasol_cpu/src/proc/ops/sub.rs
index af36a55..234f367 100644
--- a/parasol_cpu/src/proc/ops/sub.rs
+++ b/parasol_cpu/src/proc/ops/sub.rs
@@ -3,7 +3,11 @@ use parasol_runtime::circuits::sub_circuit;
 
 use crate::{
     Ciphertext, Error, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
diff --git a/parasol_cpu/src/proc/ops/xor.rs b/parasol_cpu/src/proc/ops/xor.rs
index 4aa147d..c0b658d 100644
--- a/parasol_cpu/src/proc/ops/xor.rs
+++ b/parasol_cpu/src/proc/ops/xor.rs
@@ -5,7 +5,11 @@ use parasol_runtime::{FheCircuit, FheEdge, FheOp};
 
 use crate::{
     Ciphertext, Register, Result, check_register_width,
-    proc::{DispatchIsaOp, fhe_processor::FheProcessor, ops::{make_parent_op, width_mask}},
+    proc::{
+        DispatchIsaOp,
+        fhe_processor::FheProcessor,
+        ops::{make_parent_op, width_mask},
+    },
     register_to_l1glwe_by_trivial_lift,
     tomasulo::{registers::RobEntryRef, tomasulo_processor::RetirementInfo},
     unwrap_registers,
-- 
2.43.0


From 140a76794b6e1fa548e7b94c85465cf9029a0bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 57/64] fix: objects may end at the end of mapped memory

The check included the byte after the object, and wrapped at the end of the
address space.
---
 parasol_cpu/src/memory/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 586c42b..1faf3db 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -712,14 +712,18 @@ impl Memory {
     /// Returns an error if pointer arithmetic wraps for an address in the given range
     /// has no page mapping.
     pub fn check_range_is_mapped(&self, ptr: Ptr32, len: u32) -> Result<()> {
+        if len == 0 {
+            return Ok(());
+        }
+
         let start_page = ptr.0 / PAGE_SIZE;
-        let end_page = (ptr.0 + len) / PAGE_SIZE;
+        let end_page = ptr.try_offset(len - 1)?.0 / PAGE_SIZE;
 
         let pages = self.pages.lock().unwrap();
 
         for i in start_page..=end_page {
             if pages[i as usize].is_none() {
-                return Err(Error::AccessViolation(ptr.try_offset(i * PAGE_SIZE)?.0));
+                return Err(Error::AccessViolation(ptr.0.max(i * PAGE_SIZE)));
             }
         }
 
-- 
2.43.0


From 604d75a711dc29d259c75667b2b5433c55fe9e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 58/64] fix: the stack aligns what is pushed and stays where it
 is when a push fails

Padding was computed for the other direction without the size of the data, and
written above the stack; allocations at fixed addresses that end with a page
mapped one page too many, which hid it.
---
 parasol_cpu/src/memory/mod.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 1faf3db..7306cb4 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -475,21 +475,25 @@ impl Memory {
 
         let alignment = data.alignment as u32;
 
-        let padding_bytes = (alignment - stack_ptr.0 % alignment) % alignment;
-
-        // Push padding to align data
-        for i in 0..padding_bytes {
-            self.try_store(*stack_ptr, Byte::from(0))?;
-            *stack_ptr = stack_ptr.try_signed_offset(-1)?;
-        }
-
-        *stack_ptr = stack_ptr.try_signed_offset(-(data.bytes.len() as i32))?;
+        // The data goes to the first aligned address that leaves enough room for it.
+        let end = u32::try_from(data.bytes.len())
+            .ok()
+            .and_then(|len| stack_ptr.0.checked_sub(len))
+            .ok_or(Error::PointerOverflow)?;
+        let start = Ptr32(end - end % alignment);
 
         // Write the bytes in the argument
         for (i, b) in data.bytes.iter().enumerate() {
-            self.try_store(stack_ptr.try_offset(i as u32)?, b.clone())?;
+            self.try_store(start.try_offset(i as u32)?, b.clone())?;
         }
 
+        // Push padding to align data
+        for i in start.0 + data.bytes.len() as u32..stack_ptr.0 {
+            self.try_store(Ptr32(i), Byte::from(0))?;
+        }
+
+        *stack_ptr = start;
+
         Ok(*stack_ptr)
     }
 
@@ -509,7 +513,7 @@ impl Memory {
         }
 
         let start_page_id = Page::page_id_from_pointer(virtual_address) as usize;
-        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len)?) as usize;
+        let end_page_id = Page::page_id_from_pointer(virtual_address.try_offset(len - 1)?) as usize;
 
         let mut pages = self.pages.lock().unwrap();
 
-- 
2.43.0


From 1d503c0d9bba8d51f3679c085f46a144debce626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 59/64] fix: allocations of almost 4 GiB are refused

Their size wrapped to no pages at all.
---
 parasol_cpu/src/memory/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 7306cb4..4f8886d 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -605,7 +605,7 @@ impl Memory {
         }
 
         let mut pages = self.pages.lock().unwrap();
-        let num_pages = len.next_multiple_of(PAGE_SIZE) / PAGE_SIZE;
+        let num_pages = len.div_ceil(PAGE_SIZE);
 
         // Never allocate the zero page for end-user use. We don't want to ever
         // give a valid null virtual address to user applications, as many languages generate
-- 
2.43.0


From bc7aa03d8124b13956e04e3c82e9a785bd7b3543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 60/64] fix: stacks that do not fit the address space are
 errors

As MemoryConfigBuilder says; they panicked.
---
 parasol_cpu/src/memory/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 4f8886d..a77307f 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -334,7 +334,7 @@ impl Memory {
     /// `elf_data` should contain the contents of an executable ELF file generated by the Parasol
     /// linker.
     pub fn new_from_elf_with_config(elf_data: &[u8], config: &MemoryConfig) -> Result<Self> {
-        let mut memory = Self::new(config.stack_top, config.stack_size);
+        let mut memory = Self::new(config.stack_top, config.stack_size)?;
 
         let elf = ElfBytes::<LittleEndian>::minimal_parse(elf_data)?;
 
@@ -413,25 +413,25 @@ impl Memory {
         Ok(memory)
     }
 
-    pub(crate) fn new(stack_start: Ptr32, stack_size: u32) -> Self {
+    pub(crate) fn new(stack_start: Ptr32, stack_size: u32) -> Result<Self> {
         // Stacks grow downward, so initialize the pointer to the end of the stack rather than
         // the start.
         let memory = Self {
             pages: Mutex::new(vec![None; TOTAL_PAGES as usize]),
-            stack_ptr: Mutex::new(stack_start.try_offset(stack_size).unwrap()),
+            stack_ptr: Mutex::new(stack_start.try_offset(stack_size)?),
             symbols: HashMap::new(),
         };
 
-        memory.try_allocate_at(stack_start, stack_size).unwrap();
+        memory.try_allocate_at(stack_start, stack_size)?;
 
-        memory
+        Ok(memory)
     }
 
     /// Create a new [`Memory`] object with a default stack starting at
     /// 0x8000_0000. This is mostly useful if you are generating your own
     /// program in assembly.
     pub fn new_default_stack() -> Self {
-        Memory::new(Ptr32::from(0x8000_0000), 4096)
+        Memory::new(Ptr32::from(0x8000_0000), 4096).unwrap()
     }
 
     /// Allocate a program in this memory and return the address of the
-- 
2.43.0


From ac9537cf62782ea342963ff295d3b453f6d94d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 61/64] fix: arrays of values with padding can be read

Elements received their padding as well as their bytes.
---
 parasol_cpu/src/proc/args.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parasol_cpu/src/proc/args.rs b/parasol_cpu/src/proc/args.rs
index 61742a7..8936a3d 100644
--- a/parasol_cpu/src/proc/args.rs
+++ b/parasol_cpu/src/proc/args.rs
@@ -308,7 +308,7 @@ impl<const N: usize, T: ToArg> ToArg for [T; N] {
         let as_vec = data
             // Strip off the padding and recreate the Ts
             .chunks(T::size().next_multiple_of(T::alignment()))
-            .map(|x| T::try_from_bytes(x.to_owned()))
+            .map(|x| T::try_from_bytes(x[..T::size().min(x.len())].to_owned()))
             .collect::<Result<Vec<_>>>()?;
 
         if as_vec.len() != N {
-- 
2.43.0


From f7d3c4494983847dcc7dc855d0ae71e618be00fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:10 +0000
Subject: [PATCH 62/64] fix: calls release their stack, and align it for every
 argument

Every call left its arguments on the stack of the memory, so that calls failed
after some hundred of them. Arguments aligned to more than 16 bytes could lie
beyond the space reserved for them.
---
 parasol_cpu/src/memory/mod.rs         |  9 +++++++++
 parasol_cpu/src/proc/fhe_processor.rs | 15 ++++++++++++++-
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index a77307f..3a08d27 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -497,6 +497,15 @@ impl Memory {
         Ok(*stack_ptr)
     }
 
+    /// Undo the push that moved the stack pointer from `to` to `from`.
+    pub(crate) fn pop_stack(&self, from: Ptr32, to: Ptr32) {
+        let mut stack_ptr = self.stack_ptr.lock().unwrap();
+
+        if *stack_ptr == from {
+            *stack_ptr = to;
+        }
+    }
+
     /// Get the current stack pointer
     pub fn stack_ptr(&self) -> Ptr32 {
         *self.stack_ptr.lock().unwrap()
diff --git a/parasol_cpu/src/proc/fhe_processor.rs b/parasol_cpu/src/proc/fhe_processor.rs
index c668484..398e57a 100644
--- a/parasol_cpu/src/proc/fhe_processor.rs
+++ b/parasol_cpu/src/proc/fhe_processor.rs
@@ -575,9 +575,18 @@ impl FheProcessor {
     fn set_up_function_call<T>(&mut self, memory: &Memory, args: &CallData<T>) -> Result<Ptr32> {
         let call_data_size = args.alloc_size();
 
+        // Anything aligned to more than the stack needs the stack to be aligned as much.
+        let alignment = args
+            .args
+            .iter()
+            .map(|x| x.alignment)
+            .chain([args.return_value.alignment, 16])
+            .max()
+            .unwrap();
+
         memory.try_push_arg_onto_stack(&Arg {
             bytes: vec![Byte::Plaintext(0); call_data_size],
-            alignment: 16,
+            alignment,
         })?;
 
         let sp = memory.stack_ptr();
@@ -674,7 +683,9 @@ impl FheProcessor {
         options: &RunProgramOptions,
     ) -> Result<(u32, T)> {
         self.reset()?;
+        let caller_stack_ptr = memory.stack_ptr();
         let return_data = self.set_up_function_call(memory, args)?;
+        let callee_stack_ptr = memory.stack_ptr();
         self.aux_data.memory = Some(memory.clone());
         self.debug_handlers = options.debug_handlers.clone();
 
@@ -718,6 +729,8 @@ impl FheProcessor {
         self.aux_data.inflight_memory_ops.clear();
         self.aux_data.memory = None;
 
+        memory.pop_stack(callee_stack_ptr, caller_stack_ptr);
+
         if let Some(e) = self.aux_data.fault.get() {
             return Err(e.clone());
         }
-- 
2.43.0


From dc452416dfd2c1b632caba0cb280d13188d12103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:08 +0000
Subject: [PATCH 63/64] fix: LWE secret keys could be generated under invalid
 parameters

keygen::generate_binary_lwe_sk and generate_uniform_lwe_sk document a panic for an invalid LweDef, as the
GLWE equivalents do, but returned an empty key for a dimension of 0.
---
 sunscreen_tfhe/src/entities/lwe_secret_key.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunscreen_tfhe/src/entities/lwe_secret_key.rs b/sunscreen_tfhe/src/entities/lwe_secret_key.rs
index f25dbe8..3bbbfde 100644
--- a/sunscreen_tfhe/src/entities/lwe_secret_key.rs
+++ b/sunscreen_tfhe/src/entities/lwe_secret_key.rs
@@ -40,6 +40,8 @@ where
     S: TorusOps,
 {
     fn generate(params: &LweDef, torus_element_generator: fn() -> S) -> Self {
+        params.assert_valid();
+
         let len = LweSecretKeyRef::<S>::size(params.dim);
 
         LweSecretKey {
-- 
2.43.0


From 46ecc8c8ed1492027a9fc3d114fec10049d0140f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:52 +0000
Subject: [PATCH 64/64] fix: allocations are shared while they have space

Allocation::try_allocate remembered the address of the free space rather than its offset,
so that the third object already got an allocation of its own, and objects that just fit
were not placed.
---
 parasol_cpu/src/memory/mod.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/parasol_cpu/src/memory/mod.rs b/parasol_cpu/src/memory/mod.rs
index 3a08d27..a4097dd 100644
--- a/parasol_cpu/src/memory/mod.rs
+++ b/parasol_cpu/src/memory/mod.rs
@@ -886,13 +886,16 @@ impl Allocation {
         let padded = existing.next_free.next_multiple_of(alignment);
 
         // If we lack space in this allocation, make another.
-        if padded + len >= existing.size {
+        if padded
+            .checked_add(len)
+            .is_none_or(|end| end > existing.size)
+        {
             return Self::new(memory, len);
         }
 
         let ptr = existing.base.try_offset(padded)?;
 
-        existing.next_free = ptr.0 + len;
+        existing.next_free = padded + len;
 
         Ok((existing, ptr))
     }
-- 
2.43.0

