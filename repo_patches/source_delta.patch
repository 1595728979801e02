From c47d94a477adfdaafa223bf762b5b788b8b259a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 01/12] fix: reject too short pairing powers instead of
 indexing out of bounds

The bounds checks were off by one, so a table with exactly one row or one
power missing caused a panic instead of InvalidPairingPowers.
---
 src/encryption.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index a48f92b..eabde18 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -548,12 +548,12 @@ impl<E: Pairing> Encryption<E> {
         p: PairingOutput<E>,
         pairing_powers: &[Vec<PairingOutput<E>>],
     ) -> crate::Result<CHUNK_TYPE> {
-        if pairing_powers.len() < chunk_index {
+        if pairing_powers.len() <= chunk_index {
             return Err(SaverError::InvalidPairingPowers);
         }
         for j in 1..=chunk_max_val {
             let j = j as usize - 1;
-            if pairing_powers[chunk_index].len() < j {
+            if pairing_powers[chunk_index].len() <= j {
                 return Err(SaverError::InvalidPairingPowers);
             }
             if pairing_powers[chunk_index][j] == p {
-- 
2.43.0


From 5471aa768614bb6d6062ea70ce8c1600d9fada1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 02/12] fix: do not overflow the search bound for decryption
 ranges of 32 bits and more

The idiom of doubling the chunk size to decrypt a sum of ciphertexts gives 32
for 16-bit chunks, where 1 << 32 overflowed. The largest value a decrypted
chunk can have is CHUNK_TYPE::MAX, so search up to that.
---
 src/encryption.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index eabde18..9a53912 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -317,7 +317,7 @@ impl<E: Pairing> Encryption<E> {
         let c_0_rho = c_0.mul_bigint((-sk.0).into_bigint());
         let c_0_rho_prepared = E::G1Prepared::from(c_0_rho.into_affine());
         let mut decrypted_chunks = vec![];
-        let chunk_max_val: u32 = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = Self::chunk_max_val(chunk_bit_size);
         let pairing_powers = if let Some(p) = pairing_powers { p } else { &[] };
         for i in 0..n {
             let p = E::multi_pairing(
@@ -333,14 +333,14 @@ impl<E: Pairing> Encryption<E> {
                 // Precomputed powers are not provided, compute the necessary pairings
                 let g_i_v_i = E::pairing(E::G1Prepared::from(g_i[i]), dk.V_2[i].clone());
                 decrypted_chunks.push(Self::solve_discrete_log(
-                    chunk_max_val as CHUNK_TYPE,
+                    chunk_max_val,
                     g_i_v_i,
                     p,
                 )?);
             } else {
                 decrypted_chunks.push(Self::solve_discrete_log_using_pairing_powers(
                     i,
-                    chunk_max_val as CHUNK_TYPE,
+                    chunk_max_val,
                     p,
                     pairing_powers,
                 )?);
@@ -488,14 +488,14 @@ impl<E: Pairing> Encryption<E> {
         .collect::<Vec<_>>();
 
         let mut decrypted_chunks = vec![];
-        let chunk_max_val: u32 = (1 << chunk_bit_size) - 1;
+        let chunk_max_val = Self::chunk_max_val(chunk_bit_size);
         for i in 0..n {
             if gi_mi[i].is_zero() {
                 decrypted_chunks.push(0);
                 continue;
             }
             decrypted_chunks.push(Self::solve_discrete_log_for_g(
-                chunk_max_val as CHUNK_TYPE,
+                chunk_max_val,
                 &g_i[i],
                 &gi_mi[i],
             )?)
@@ -503,6 +503,13 @@ impl<E: Pairing> Encryption<E> {
         Ok(decrypted_chunks)
     }
 
+    /// Largest chunk value to search for, the largest value of `CHUNK_TYPE` if `chunk_bit_size` exceeds it
+    fn chunk_max_val(chunk_bit_size: u8) -> CHUNK_TYPE {
+        (1 as CHUNK_TYPE)
+            .checked_shl(chunk_bit_size as u32)
+            .map_or(CHUNK_TYPE::MAX, |v| v - 1)
+    }
+
     /// Does not use precomputation
     fn solve_discrete_log_for_g(
         chunk_max_val: CHUNK_TYPE,
-- 
2.43.0


From 88daa9a4ca9f88a5519ba2e5856764c7d7919865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:41 +0000
Subject: [PATCH 03/12] fix: reject keys with more chunks than the chunk count
 can express

n as u8 truncated, so a key with 256 + n elements was treated as one with n.
---
 src/keygen.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index dd26e39..12893e7 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -179,7 +179,7 @@ macro_rules! impl_enc_key_funcs {
             if self.Z.len() != (n + 1) {
                 return Err(SaverError::MalformedEncryptionKey(self.Z.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedEncryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
@@ -202,7 +202,7 @@ macro_rules! impl_dec_key_funcs {
             if self.V_2.len() != n {
                 return Err(SaverError::MalformedDecryptionKey(self.V_2.len(), n));
             }
-            Ok(n as u8)
+            u8::try_from(n).map_err(|_| SaverError::MalformedDecryptionKey(n, u8::MAX as usize))
         }
 
         pub fn validate(&self) -> crate::Result<()> {
-- 
2.43.0


From 2899b1404adf8ec66c30184549146dc43723c4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 04/12] fix: return an error when ciphertexts or shares of
 different sizes are combined

add_cts, combine_re_encrypt_share and combine_ct_with_w indexed out of bounds
when the second argument was shorter and dropped its tail when it was longer;
re_encrypt_share indexed out of bounds for a ciphertext longer than the key.
---
 src/encryption.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/encryption.rs b/src/encryption.rs
index 9a53912..6cb055c 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -399,6 +399,9 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
         let n = c.len();
+        if n > sk.s.len() {
+            return Err(SaverError::VectorShorterThanExpected(sk.s.len(), n));
+        }
         // r
         let rho = E::ScalarField::rand(rng);
         // g * r
@@ -421,6 +424,12 @@ impl<E: Pairing> Encryption<E> {
         w2: &[E::G1Affine],
     ) -> crate::Result<(Vec<E::G1Affine>, E::G1Affine)> {
         
+        if w1.len() != w2.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                w1.len().min(w2.len()),
+                w1.len().max(w2.len()),
+            ));
+        }
         let mut w_combined = vec![];
         // w_combined = w1 + w2
         for i in 0..w1.len(){
@@ -441,6 +450,12 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
         
         let n = c.len();
+        if n != w.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                n.min(w.len()),
+                n.max(w.len()),
+            ));
+        }
 
         let mut ct = vec![];
         // c[0] = g_r
@@ -459,6 +474,12 @@ impl<E: Pairing> Encryption<E> {
     ) -> crate::Result<Vec<E::G1Affine>> {
    
         let n = ct1.len();
+        if n != ct2.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                n.min(ct2.len()),
+                n.max(ct2.len()),
+            ));
+        }
 
         let mut ct = vec![];
 
-- 
2.43.0


From 854fb4554c97c60d678d5d135ae011cd4693bca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 05/12] fix: return an error when pairing powers are requested
 with too few generators

---
 src/keygen.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keygen.rs b/src/keygen.rs
index 12893e7..46bd531 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -285,6 +285,9 @@ impl<E: Pairing> PreparedDecryptionKey<E> {
         g_i: &[E::G1Affine],
     ) -> crate::Result<Vec<Vec<PairingOutput<E>>>> {
         let n = self.supported_chunks_count()? as usize;
+        if n > g_i.len() {
+            return Err(SaverError::VectorShorterThanExpected(g_i.len(), n));
+        }
         let chunk_max_val = (1 << chunk_bit_size) - 1;
         let mut powers = Vec::<Vec<PairingOutput<E>>>::with_capacity(n);
         for i in 0..n {
-- 
2.43.0


From e2bea0d8f746b60e5301c7fcbcd0aed3cfa82a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 06/12] fix: reject a commitment key whose size does not fit
 the chunk size

The multi-scalar multiplication ignored the values that had no base, so with a
short key the commitment did not depend on the blinding (or the last chunks)
and with a long one the blinding was applied to the wrong base.
---
 src/commitment.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/commitment.rs b/src/commitment.rs
index d0fcb4e..b652a85 100644
--- a/src/commitment.rs
+++ b/src/commitment.rs
@@ -1,4 +1,5 @@
 use crate::{
+    error::SaverError,
     setup::ChunkedCommitmentGens,
     utils::{chunks_count, decompose, multiply_field_elems_with_same_group_elem},
     serde_utils::*
@@ -75,6 +76,12 @@ impl<G: AffineRepr> ChunkedCommitment<G> {
         comm_key: &[G],
     ) -> crate::Result<G> {
         let decomposed = Self::get_values_to_commit(message, blinding, chunk_bit_size)?;
+        if comm_key.len() != decomposed.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                comm_key.len().min(decomposed.len()),
+                comm_key.len().max(decomposed.len()),
+            ));
+        }
         Ok(G::Group::msm_bigint(comm_key, &decomposed).into_affine())
     }
 
-- 
2.43.0


From 91a90d97447022642c2dc2041db85a5cfb4a13ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 07/12] fix: do not merge distributed key contributions of
 different sizes

combineEKs dropped the tail of a larger second contribution and genP1share the
tail of a larger secret key, producing an unusable key without any error.
---
 src/keygen.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/keygen.rs b/src/keygen.rs
index 46bd531..4ed0910 100644
--- a/src/keygen.rs
+++ b/src/keygen.rs
@@ -366,10 +366,15 @@ pub fn combineEKs<E: Pairing>(
     eks: &[FEncryptionKeyPartial<E>],
 ) -> FEncryptionKeyPartial<E> {
 
-    // [TODO]: add check for ek X,Y,Z sizes on all eks
-
     let mut ek = eks[0].clone();
 
+    // A contribution of a different size would be merged only in part
+    for other in &eks[1..] {
+        assert_eq!(ek.X.len(), other.X.len());
+        assert_eq!(ek.Y.len(), other.Y.len());
+        assert_eq!(ek.Z.len(), other.Z.len());
+    }
+
     // ek_combined = ek_1 + ek_2 + ... + ek_n
     for i in 1..eks.len() {
         for j in 0..ek.X.len(){
@@ -400,6 +405,8 @@ pub fn genP1share<E: Pairing>(
     ek: &FEncryptionKeyPartial<E>,
     sk: &SecretKeyST<E>,
 ) -> P1share<E> {
+    // A secret key of a different size would be used only in part
+    assert_eq!(sk.t.len(), ek.X.len() + 1);
     // g*delta*t_0
     let delta_g_t = ek.X_0.mul_bigint(sk.t[0].into_bigint());
     // {X_i*t_(i+1)}, i=0..n
-- 
2.43.0


From 7197da4390cbc16dea21f6460a85f57c3f5ff225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 08/12] fix: reject a proof for a ciphertext whose number of
 chunks is not that of the verifying key

---
 src/saver_groth16.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/saver_groth16.rs b/src/saver_groth16.rs
index f8cb1c4..6745fc5 100644
--- a/src/saver_groth16.rs
+++ b/src/saver_groth16.rs
@@ -117,6 +117,14 @@ pub fn calculate_d<E: Pairing>(
     pvk: &PreparedVerifyingKey<E>,
     ciphertext: &Ciphertext<E>,
 ) -> Result<E::G1Affine, SaverError> {
+    // The proof is about exactly one public input per chunk
+    let expected = ciphertext.enc_chunks.len() + 1;
+    if pvk.vk.gamma_abc_g1.len() != expected {
+        return Err(SaverError::VectorShorterThanExpected(
+            expected.min(pvk.vk.gamma_abc_g1.len()),
+            expected.max(pvk.vk.gamma_abc_g1.len()),
+        ));
+    }
     let mut d = ciphertext.X_r.into_group();
     for c in ciphertext.enc_chunks.iter() {
         d.add_assign(c.into_group())
-- 
2.43.0


From e2402f2505684cd7d118835c411f459dda2e63db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:33 +0000
Subject: [PATCH 09/12] fix: do not panic on a verifying key without any public
 input element

---
 src/saver_groth16.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/saver_groth16.rs b/src/saver_groth16.rs
index 6745fc5..6a78a55 100644
--- a/src/saver_groth16.rs
+++ b/src/saver_groth16.rs
@@ -40,7 +40,7 @@ pub struct ProvingKey<E: Pairing> {
 
 /// These parameters are needed for setting up keys for encryption/decryption
 pub fn get_gs_for_encryption<E: Pairing>(vk: &VerifyingKey<E>) -> &[E::G1Affine] {
-    &vk.gamma_abc_g1[1..]
+    vk.gamma_abc_g1.get(1..).unwrap_or(&[])
 }
 
 /// Generate Groth16 SRS
-- 
2.43.0


From 17cc0ab6e09b4842385f8998b86b40f784d5df21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 10/12] fix: do not create a proof with parameters for a
 different number of chunks

---
 src/encryption.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 6cb055c..8286e0e 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -131,11 +131,18 @@ impl<E: Pairing> Encryption<E> {
         chunk_bit_size: u8,
     ) -> crate::Result<(Ciphertext<E>, E::ScalarField, ark_groth16::Proof<E>)> {
         let g_i = saver_groth16::get_gs_for_encryption(&snark_pk.pk.vk);
-        let (ct, r) = Encryption::encrypt(rng, message, ek, g_i, chunk_bit_size)?;
         let decomposed_message = utils::decompose(message, chunk_bit_size)?
             .into_iter()
             .map(|m| E::ScalarField::from(m as u64))
             .collect::<Vec<_>>();
+        // With parameters for a different number of chunks, the proof would not be valid
+        if decomposed_message.len() != g_i.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                decomposed_message.len().min(g_i.len()),
+                decomposed_message.len().max(g_i.len()),
+            ));
+        }
+        let (ct, r) = Encryption::encrypt(rng, message, ek, g_i, chunk_bit_size)?;
         let circuit =
             BitsizeCheckCircuit::new(chunk_bit_size, None, Some(decomposed_message), true);
         let proof = saver_groth16::create_proof(circuit, &r, snark_pk, ek, rng)?;
-- 
2.43.0


From 8de1c006b82e59786a8bb74f37546697a008a47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:46 +0000
Subject: [PATCH 11/12] fix: do not panic on an empty batch or a wrong number
 of batch weights

---
 src/encryption.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/encryption.rs b/src/encryption.rs
index 8286e0e..c194b84 100644
--- a/src/encryption.rs
+++ b/src/encryption.rs
@@ -262,7 +262,12 @@ impl<E: Pairing> Encryption<E> {
         ek: impl Into<PreparedEncryptionKey<E>>,
         gens: impl Into<PreparedEncryptionGens<E>>,
     ) -> crate::Result<()> {
-        assert_eq!(r_powers.len(), ciphertexts.len());
+        if r_powers.len() != ciphertexts.len() {
+            return Err(SaverError::VectorShorterThanExpected(
+                r_powers.len().min(ciphertexts.len()),
+                r_powers.len().max(ciphertexts.len()),
+            ));
+        }
         let ek = ek.into();
         let gens = gens.into();
         let expected_count = ek.supported_chunks_count()? as usize;
@@ -274,6 +279,9 @@ impl<E: Pairing> Encryption<E> {
                 ));
             }
         }
+        if ciphertexts.is_empty() {
+            return Ok(());
+        }
 
         let a =
             Self::get_g1_for_ciphertext_commitments_in_batch_pairing_checks(ciphertexts, r_powers);
-- 
2.43.0


From 35afcf9c0958d47cf61efa4ccd08a5ed8df8fbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:54 +0000
Subject: [PATCH 12/12] fix: multi_pairing! could not be expanded: the type to
 convert to was ambiguous

The macro is documented to become E::multi_pairing([a, b], [c, d]); the
conversions it added left the type of the elements open, so that no use of
the macro compiled.
---
 src/macros.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/macros.rs b/src/macros.rs
index 8d68cc4..9562d66 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -45,10 +45,10 @@ macro_rules! multi_pairing {
     (using $pairing_engine: path: $($g1: expr, $g2: expr);+) => {
         <$pairing_engine>::multi_pairing(
             [
-                $($g1.into()),+
+                $($g1),+
             ],
             [
-                $($g2.into()),+
+                $($g2),+
             ]
         )
     }
-- 
2.43.0

