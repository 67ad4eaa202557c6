From a68f1dddeceb0c64782e0c9b68e38f6c8381144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:37 +0000
Subject: [PATCH 01/11] fix: take the NTT table lock when reading the cached
 tables in get_ntt_table

---
 algebra_derive/src/ntt.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/algebra_derive/src/ntt.rs b/algebra_derive/src/ntt.rs
index 20e304f..a43dd3e 100644
--- a/algebra_derive/src/ntt.rs
+++ b/algebra_derive/src/ntt.rs
@@ -147,13 +147,18 @@ fn impl_ntt(input: Input) -> TokenStream {
             #generate_ntt_table
 
             fn get_ntt_table(log_n: u32) -> Result<::std::sync::Arc<Self::Table>, ::algebra::AlgebraError> {
-                if let Some(tables) = unsafe { #ntt_table.get() } {
-                    if let Some(t) = tables.get(&log_n) {
-                        return Ok(::std::sync::Arc::clone(t));
+                {
+                    // `init_ntt_table` mutates the tables, so they may only be read with the lock held.
+                    let _g = #ntt_mutex.lock().unwrap_or_else(::std::sync::PoisonError::into_inner);
+                    if let Some(tables) = unsafe { #ntt_table.get() } {
+                        if let Some(t) = tables.get(&log_n) {
+                            return Ok(::std::sync::Arc::clone(t));
+                        }
                     }
                 }
 
                 Self::init_ntt_table(&[log_n])?;
+                let _g = #ntt_mutex.lock().unwrap_or_else(::std::sync::PoisonError::into_inner);
                 Ok(::std::sync::Arc::clone(unsafe {
                     #ntt_table.get().unwrap().get(&log_n).unwrap()
                 }))
-- 
2.43.0


From 5fc1f4816b014ea5521ed14d4ff1f3fd958a829e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 02/11] fix: run every Miller-Rabin round in probably_prime

---
 algebra/src/utils/prime.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/utils/prime.rs b/algebra/src/utils/prime.rs
index 63f5342..6951f99 100644
--- a/algebra/src/utils/prime.rs
+++ b/algebra/src/utils/prime.rs
@@ -92,7 +92,7 @@ macro_rules! impl_prime_check {
                     for _ in 1..r {
                         x = $crate::WideningMul::widening_mul(x, x).reduce(self);
                         if x == value_sub_one {
-                            break 'next_round;
+                            continue 'next_round;
                         }
                         if x == 1 {
                             return false;
-- 
2.43.0


From ae4b269d4d683a3b4408127884d2a58c70a5047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 03/11] fix: overwrite every digit in decompose_at

---
 algebra_derive/src/decomposable_field.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/algebra_derive/src/decomposable_field.rs b/algebra_derive/src/decomposable_field.rs
index e04e16a..30eda94 100644
--- a/algebra_derive/src/decomposable_field.rs
+++ b/algebra_derive/src/decomposable_field.rs
@@ -41,9 +41,6 @@ fn impl_decomposable_field(input: Input) -> TokenStream {
                 let bits = basis.bits();
 
                 for v in destination {
-                    if temp == 0 {
-                        break;
-                    }
                     *v = Self(temp & mask);
                     temp >>= bits;
                 }
-- 
2.43.0


From 894535b416e046de0acd66cadf9088c3368fa06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 04/11] fix: reject ordinal root powers of the wrong length in
 NTTTable::new

---
 algebra/src/transformation/ntt_table.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index d202e1c..c7ba218 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -48,6 +48,10 @@ where
     F: NTTField<Table = Self>,
 {
     /// Creates a new [`NTTTable<F>`].
+    ///
+    /// # Panics
+    ///
+    /// Panics if `ordinal_root_powers` does not hold exactly `2^(coeff_count_power + 1)` powers.
     #[inline]
     pub fn new(
         root: F,
@@ -56,6 +60,9 @@ where
     ) -> Self {
         let coeff_count = 1usize << coeff_count_power;
 
+        // The monomial transforms index this table without bounds checks.
+        assert_eq!(ordinal_root_powers.len(), coeff_count << 1);
+
         let inv_root = F::from_root(*ordinal_root_powers.last().unwrap());
 
         debug_assert_eq!(root * inv_root, F::one());
-- 
2.43.0


From 39d8a01fa368cf9a666819e095a78f878e77338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:38 +0000
Subject: [PATCH 05/11] fix: reduce the Goldilocks modulus itself to zero

---
 algebra/src/modulus/goldilocks/ops.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 49154df..90aec63 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -13,7 +13,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self > P {
+        if self >= P {
             self - P
         } else {
             self
@@ -24,7 +24,7 @@ impl Reduce<GoldilocksModulus> for u64 {
 impl ReduceAssign<GoldilocksModulus> for u64 {
     #[inline]
     fn reduce_assign(&mut self, _: GoldilocksModulus) {
-        if *self > P {
+        if *self >= P {
             *self -= P;
         }
     }
-- 
2.43.0


From 8a1c538cfd31adeb9020702aab4eb6e7234db03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 06/11] fix: negate non-canonical Goldilocks values without
 underflow

---
 algebra/src/modulus/goldilocks/ops.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/algebra/src/modulus/goldilocks/ops.rs b/algebra/src/modulus/goldilocks/ops.rs
index 90aec63..773f6ff 100644
--- a/algebra/src/modulus/goldilocks/ops.rs
+++ b/algebra/src/modulus/goldilocks/ops.rs
@@ -77,11 +77,8 @@ impl NegReduce<GoldilocksModulus> for u64 {
 
     #[inline]
     fn neg_reduce(self, _: GoldilocksModulus) -> Self::Output {
-        if self == 0 {
-            0
-        } else {
-            P - self
-        }
+        // The other operations may leave values in `P..2^64`.
+        0u64.sub_reduce(self, GoldilocksModulus)
     }
 }
 
-- 
2.43.0


From 66002e67d90e699065ea7012bd7b57a40da832a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:18 +0000
Subject: [PATCH 07/11] fix: report that the Goldilocks modulus itself has no
 inverse

---
 algebra/src/modulus/goldilocks/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/algebra/src/modulus/goldilocks/mod.rs b/algebra/src/modulus/goldilocks/mod.rs
index 3a3e696..8f1f879 100644
--- a/algebra/src/modulus/goldilocks/mod.rs
+++ b/algebra/src/modulus/goldilocks/mod.rs
@@ -43,7 +43,7 @@ pub fn to_canonical_u64(value: u64) -> u64 {
 /// The following code has been adapted from winterfell/math/src/field/f64/mod.rs
 /// located at <https://github.com/facebook/winterfell>.
 fn try_inverse(value: u64) -> Option<u64> {
-    if value == 0 {
+    if to_canonical_u64(value) == 0 {
         return None;
     }
 
-- 
2.43.0


From 908a9a8dfd2174e6c766ef18ed128db1afdc5b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:54 +0000
Subject: [PATCH 08/11] fix: reject a plaintext modulus equal to the cipher
 modulus, which decode cannot handle

---
 fhe_core/src/parameter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fhe_core/src/parameter.rs b/fhe_core/src/parameter.rs
index 33e6dc7..ac9bfc7 100644
--- a/fhe_core/src/parameter.rs
+++ b/fhe_core/src/parameter.rs
@@ -147,7 +147,7 @@ impl<C: LWEModulusType, Q: NTTField> Parameters<C, Q> {
 
         let t: u64 = params.lwe_plain_modulus.as_into();
         let q: u64 = lwe_cipher_modulus.as_into();
-        assert!(t <= q);
+        assert!(t < q);
         assert!(t.is_power_of_two() && q.is_power_of_two());
         let lwe_params = LWEParameters {
             dimension: lwe_dimension,
-- 
2.43.0


From c9f3a28d4df7fa9929ea6a138d386a4d15ca174d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 09/11] fix: reject parameters whose bootstrapping steps cannot
 be carried out

---
 fhe_core/src/parameter.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/fhe_core/src/parameter.rs b/fhe_core/src/parameter.rs
index ac9bfc7..d960311 100644
--- a/fhe_core/src/parameter.rs
+++ b/fhe_core/src/parameter.rs
@@ -145,6 +145,25 @@ impl<C: LWEModulusType, Q: NTTField> Parameters<C, Q> {
             });
         }
 
+        // 2N must be a value of the LWE modulus type, the first modulus switch goes to 2N
+        if C::try_from(twice_ring_dimension as u64).is_err() {
+            return Err(FHECoreError::LweModulusRingDimensionNotCompatible {
+                lwe_modulus: lwe_cipher_modulus.as_into(),
+                ring_dimension,
+            });
+        }
+
+        // The keys of every step must exist
+        let is_gaussian = ring_secret_key_type == RingSecretKeyType::Gaussian;
+        let steps_compatible = match steps {
+            Steps::BrMsKs => !is_gaussian,
+            Steps::BrKsMs => lwe_dimension <= ring_dimension,
+            Steps::BrMs => !is_gaussian && lwe_dimension == ring_dimension,
+        };
+        if !steps_compatible {
+            return Err(FHECoreError::StepsParametersNotCompatible);
+        }
+
         let t: u64 = params.lwe_plain_modulus.as_into();
         let q: u64 = lwe_cipher_modulus.as_into();
         assert!(t < q);
-- 
2.43.0


From e53536a24fc14d0f00680fb30fe98c0c29319ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:41 +0000
Subject: [PATCH 10/11] fix: include the last partial chunk in the Barrett dot
 product

---
 algebra/src/modulus/barrett/internal_macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/algebra/src/modulus/barrett/internal_macros.rs b/algebra/src/modulus/barrett/internal_macros.rs
index 31c9c12..6bbec60 100644
--- a/algebra/src/modulus/barrett/internal_macros.rs
+++ b/algebra/src/modulus/barrett/internal_macros.rs
@@ -515,8 +515,8 @@ macro_rules! impl_barrett_modulus {
                 let a = a.as_ref();
                 let b = b.as_ref();
                 debug_assert_eq!(a.len(), b.len());
-                a.chunks_exact(16)
-                    .zip(b.chunks_exact(16))
+                a.chunks(16)
+                    .zip(b.chunks(16))
                     .map(|(a_s, b_s)| {
                         let mut c: [$SelfT; 2] = [0, 0];
                         for (&a, &b) in a_s.iter().zip(b_s) {
-- 
2.43.0


From 17a07775fac3ef337ecaaa60d27607736d26059d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:24 +0000
Subject: [PATCH 11/11] fix: inverse transform of a single coefficient
 underflowed the butterfly gap

---
 algebra/src/transformation/ntt_table.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algebra/src/transformation/ntt_table.rs b/algebra/src/transformation/ntt_table.rs
index c7ba218..d5c380a 100644
--- a/algebra/src/transformation/ntt_table.rs
+++ b/algebra/src/transformation/ntt_table.rs
@@ -346,6 +346,12 @@ where
             }
         }
 
+        if log_n == 0 {
+            // There is no butterfly for a single coefficient.
+            values.iter_mut().for_each(intt_normalize_assign);
+            return;
+        }
+
         let roots = self.inv_root_powers();
         let mut root_iter = roots[1..].iter().copied();
 
-- 
2.43.0

