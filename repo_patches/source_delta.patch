From b5b6101f7af13e0e083a3281549562acf371272f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 01/25] hook: optional inclusion of an external verification
 harness (cfg synedrion_verif)

---
 src/lib.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 83ff5c3..6ca5ac2 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -68,3 +68,18 @@ pub use curve::{DeriveChildKey, PublicTweakable, SecretTweakable};
 #[doc(hidden)]
 // Hack to expose internals for benchmarking purposes
 pub mod private_benches;
+
+// Hook for the external verification harness: only present when built with `--cfg synedrion_verif`,
+// in which case the environment variable names the source file of the harness,
+// which is compiled as a part of the crate to have access to its internals.
+#[allow(unexpected_cfgs)]
+#[cfg(synedrion_verif)]
+#[macro_use]
+extern crate std;
+
+#[allow(unexpected_cfgs, missing_docs, warnings, clippy::all)]
+#[cfg(synedrion_verif)]
+#[doc(hidden)]
+pub mod verif {
+    include!(env!("SYNEDRION_VERIF_SRC"));
+}
-- 
2.43.0


From 473dd142f36be12068ac88c761335a4167fef6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 02/25] fix: SecretSigned::new_positive must reject values
 exceeding the declared bound

---
 src/uint/secret_signed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/uint/secret_signed.rs b/src/uint/secret_signed.rs
index 5334729..5ddbcb0 100644
--- a/src/uint/secret_signed.rs
+++ b/src/uint/secret_signed.rs
@@ -36,7 +36,7 @@ where
     pub fn new_positive(value: Secret<T>, bound: u32) -> CtOption<Self> {
         let in_bound = {
             let c1 = Choice::from((bound < T::BITS) as u8);
-            let c2 = Choice::from((value.expose_secret().bits() < T::BITS) as u8);
+            let c2 = Choice::from((value.expose_secret().bits() <= bound) as u8);
             c1 & c2
         };
         let new_positive = Self::new_from_unsigned_unchecked(value, bound);
-- 
2.43.0


From 56fb37a4a77041729712a0602a9b388ca92b6f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:43 +0000
Subject: [PATCH 03/25] fix: residues derived from a hash must be reduced
 modulo N

---
 src/paillier/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index ef0e5be..3d34220 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -309,7 +309,7 @@ impl<P: PaillierParams> PublicModulus<P> {
         let modulus_bits = self.modulus().bits_vartime();
         loop {
             let r = P::Uint::from_xof_reader(reader, modulus_bits);
-            if r.is_invertible(&self.modulus.0) {
+            if &r < self.modulus() && r.is_invertible(&self.modulus.0) {
                 return r;
             }
         }
-- 
2.43.0


From 90fc154aee24545005031445699dc84997fbe544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 04/25] fix: never generate an RSA modulus from two equal
 primes

---
 src/paillier/rsa.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index 3d34220..67d6bbd 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -64,6 +64,18 @@ impl<P: PaillierParams> SecretPrimesWire<P> {
         Self { p, q }
     }
 
+    /// Creates a pair of different primes given a generator of random primes.
+    fn random_distinct(mut random_prime: impl FnMut() -> P::HalfUint) -> Self {
+        let p = Secret::init_with(&mut random_prime);
+        let q = loop {
+            let q = Secret::init_with(&mut random_prime);
+            if q.expose_secret() != p.expose_secret() {
+                break q;
+            }
+        };
+        Self::new(p, q)
+    }
+
     /// Creates smaller than required primes to trigger an error during tests.
     #[cfg(test)]
     pub fn random_small_paillier_blum(rng: &mut dyn CryptoRngCore) -> Self {
@@ -76,10 +88,7 @@ impl<P: PaillierParams> SecretPrimesWire<P> {
     /// Creates the primes for a Paillier-Blum modulus,
     /// that is `p` and `q` are regular primes with an additional condition `p, q mod 3 = 4`.
     pub fn random_paillier_blum(rng: &mut dyn CryptoRngCore) -> Self {
-        Self::new(
-            Secret::init_with(|| random_paillier_blum_prime::<P>(rng)),
-            Secret::init_with(|| random_paillier_blum_prime::<P>(rng)),
-        )
+        Self::random_distinct(|| random_paillier_blum_prime::<P>(rng))
     }
 
     /// Creates smaller than required primes to trigger an error during tests.
@@ -93,10 +102,7 @@ impl<P: PaillierParams> SecretPrimesWire<P> {
 
     /// Creates a pair of safe primes.
     pub fn random_safe(rng: &mut dyn CryptoRngCore) -> Self {
-        Self::new(
-            Secret::init_with(|| P::HalfUint::generate_safe_prime_with_rng(rng, P::PRIME_BITS)),
-            Secret::init_with(|| P::HalfUint::generate_safe_prime_with_rng(rng, P::PRIME_BITS)),
-        )
+        Self::random_distinct(|| P::HalfUint::generate_safe_prime_with_rng(rng, P::PRIME_BITS))
     }
 
     pub fn modulus(&self) -> PublicModulusWire<P> {
-- 
2.43.0


From 9fe4d2a09c1065b887ace0f287161331bcd9eaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:29 +0000
Subject: [PATCH 05/25] fix: separate the variable-length items hashed through
 serde

---
 src/tools/hashing.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tools/hashing.rs b/src/tools/hashing.rs
index 84966a2..4e04355 100644
--- a/src/tools/hashing.rs
+++ b/src/tools/hashing.rs
@@ -78,6 +78,19 @@ pub trait Hashable {
     fn chain<C: Chain>(&self, digest: C) -> C;
 }
 
+/// Prefixes every chunk of bytes with its length.
+///
+/// `HashingSerializer` hashes strings and byte arrays as they are, without their lengths,
+/// so this is needed to separate them from the data that follows.
+struct LengthPrefixed<'a, D>(&'a mut D);
+
+impl<D: Update> Update for LengthPrefixed<'_, D> {
+    fn update(&mut self, data: &[u8]) {
+        self.0.update(&(data.len() as u64).to_be_bytes());
+        self.0.update(data);
+    }
+}
+
 // We have a lot of things that already implement `Serialize`,
 // so there's no point in implementing `Hashable` for them separately.
 // The reproducibility of this hash depends on `serde` not breaking things,
@@ -87,9 +100,8 @@ impl<T: Serialize> Hashable for T {
     fn chain<C: Chain>(&self, digest: C) -> C {
         let mut digest = digest;
 
-        let serializer = HashingSerializer {
-            digest: digest.as_digest_mut(),
-        };
+        let mut prefixed = LengthPrefixed(digest.as_digest_mut());
+        let serializer = HashingSerializer { digest: &mut prefixed };
 
         // The only way it can return an error is if there is
         // some non-serializable element encountered, which is 100% reproducible
-- 
2.43.0


From 47e8459a4cf52eb134047bdc8203912ed71dc0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 06/25] fix: serialize the point at infinity instead of
 panicking

---
 src/curve/arithmetic.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index ac8d77c..7c40ef1 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -274,12 +274,9 @@ where
             .ok_or_else(|| "Invalid curve point representation".into())
     }
 
-    pub(crate) fn to_compressed_array(
-        self,
-    ) -> GenericArray<u8, <FieldBytesSize<P::Curve> as ModulusSize>::CompressedPointSize> {
-        GenericArray::from_exact_iter(
-            self.0.to_affine().to_encoded_point(true).as_bytes().iter().cloned(),
-        ).expect("An AffinePoint is composed of elements of the correct size and their slice repr fits in the `CompressedPointSize`-sized array.")
+    /// Returns the SEC1 encoding of this point: the compressed form, or a single zero byte for the point at infinity.
+    pub(crate) fn to_compressed_bytes(self) -> Box<[u8]> {
+        self.0.to_affine().to_encoded_point(true).as_bytes().into()
     }
 
     pub(crate) fn to_backend(self) -> <P::Curve as CurveArithmetic>::ProjectivePoint {
@@ -302,7 +299,7 @@ where
     P: SchemeParams,
 {
     fn serialize<S: Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
-        SliceLike::<Hex>::serialize(&self.to_compressed_array(), serializer)
+        SliceLike::<Hex>::serialize(&self.to_compressed_bytes(), serializer)
     }
 }
 
-- 
2.43.0


From 96c632114e2dcd279d5b49aac97486a52adfbcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:25 +0000
Subject: [PATCH 07/25] fix: refuse to deserialize an even RSA modulus

---
 src/paillier/rsa.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index 67d6bbd..0ea5221 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -1,3 +1,5 @@
+use alloc::string::String;
+
 use crypto_bigint::{BitOps, CheckedSub, Integer, Monty, NonZero, Odd, RandomMod, Square};
 use crypto_primes::{
     hazmat::{SetBits, SmallPrimesSieveFactory},
@@ -233,8 +235,21 @@ impl<P: PaillierParams> SecretPrimes<P> {
 ///
 /// Suitable for serialization or transmission.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
+#[serde(try_from = "PublicUint<P::Uint>")]
 pub(crate) struct PublicModulusWire<P: PaillierParams>(PublicUint<P::Uint>);
 
+impl<P: PaillierParams> TryFrom<PublicUint<P::Uint>> for PublicModulusWire<P> {
+    type Error = String;
+    fn try_from(source: PublicUint<P::Uint>) -> Result<Self, Self::Error> {
+        // Needed for the Montgomery representation.
+        if source.is_odd().into() {
+            Ok(Self(source))
+        } else {
+            Err("An RSA modulus must be odd".into())
+        }
+    }
+}
+
 impl<P: PaillierParams> PublicModulusWire<P> {
     fn new(primes: &SecretPrimesWire<P>) -> Self {
         Self(primes.p.expose_secret().mul_wide(primes.q.expose_secret()).into())
-- 
2.43.0


From 3d543c9ba02744deb125726cb619285058101175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 08/25] fix: do not show the primes in the debug form of a
 Paillier secret key

---
 src/paillier/keys.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/paillier/keys.rs b/src/paillier/keys.rs
index e7b2c70..5244b20 100644
--- a/src/paillier/keys.rs
+++ b/src/paillier/keys.rs
@@ -47,7 +47,8 @@ impl<P: PaillierParams> SecretKeyPaillierWire<P> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
+#[derive_where::derive_where(Debug)]
 pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     /// The secret primes with some precomputed constants,
     primes: SecretPrimes<P>,
@@ -61,8 +62,10 @@ pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     nonsquare_sampling_constant: Secret<<P::Uint as Integer>::Monty>,
     // TODO (#162): these should be secret, but they are not zeroizable.
     /// Montgomery parameters for operations modulo $p$.
+    #[derive_where(skip(Debug))] // contains $p$
     monty_params_mod_p: <<P::HalfUint as Integer>::Monty as Monty>::Params,
     /// Montgomery parameters for operations modulo $q$.
+    #[derive_where(skip(Debug))] // contains $q$
     monty_params_mod_q: <<P::HalfUint as Integer>::Monty as Monty>::Params,
     /// The precomputed public key
     public_key: PublicKeyPaillier<P>,
-- 
2.43.0


From 16d5e6183d6a49c4cdcb50dff8b4ffe6af7fb1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:52 +0000
Subject: [PATCH 09/25] fix: reject Mod and Prm proofs with missing elements

The verifiers iterated over the shortest of the lists involved,
so a proof with truncated or empty lists was accepted.
---
 src/zk/mod_.rs | 4 ++++
 src/zk/prm.rs  | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/zk/mod_.rs b/src/zk/mod_.rs
index 3b7d597..f4f3d5f 100644
--- a/src/zk/mod_.rs
+++ b/src/zk/mod_.rs
@@ -142,6 +142,10 @@ impl<P: SchemeParams> ModProof<P> {
             return false;
         }
 
+        if self.proof.len() != self.challenge.0.len() {
+            return false;
+        }
+
         let mut reader = Hasher::<P::Digest>::new_with_dst(b"P_mod RNG")
             // commitments
             .chain(&self.commitment)
diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 31e907b..026ae89 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -110,6 +110,11 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        let bits = challenge.0.bits().len();
+        if self.commitment.0.len() != bits || self.proof.len() != bits {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From d7868bac8c8e67e7f84d94c9ccaf49a2676707d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:53 +0000
Subject: [PATCH 10/25] fix: reject Prm proofs for setups with non-invertible
 bases

With both bases set to zero any commitment of zeros satisfies the equations,
and commitments made with such a setup do not bind or cause a panic
when raised to a negative power.
---
 src/zk/prm.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 026ae89..54995e6 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -16,7 +16,7 @@ use crate::{
         bitvec::BitVec,
         hashing::{Chain, Hashable, Hasher},
     },
-    uint::{Exponentiable, PublicUint, SecretUnsigned, ToMontgomery},
+    uint::{Exponentiable, IsInvertible, PublicUint, SecretUnsigned, ToMontgomery},
 };
 
 const HASH_TAG: &[u8] = b"P_prm";
@@ -105,6 +105,13 @@ impl<P: SchemeParams> PrmProof<P> {
     pub fn verify(&self, setup: &RPParams<P::Paillier>, aux: &impl Hashable) -> bool {
         let monty_params = setup.monty_params_mod_n();
 
+        // If the bases are not in $Z^*_N$ (e.g. zero), the equations below do not prove anything.
+        if !setup.base_randomizer().retrieve().is_invertible(setup.modulus())
+            || !setup.base_value().retrieve().is_invertible(setup.modulus())
+        {
+            return false;
+        }
+
         let challenge = PrmChallenge::new(&self.commitment, setup, aux);
         if challenge != self.challenge {
             return false;
-- 
2.43.0


From c91b2ccaae786f13b1c8cd677bdd017a446f87a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:37 +0000
Subject: [PATCH 11/25] fix: reject proofs with non-invertible ciphertexts,
 randomizers and commitments

With a zero ciphertext commitment and a zero response for the randomizer
both sides of the Paillier equations are zero, so they were satisfied without
knowing anything about the statement; and raising a non-invertible ciphertext
or commitment to a negative power panicked.
---
 src/paillier/encryption.rs    | 18 +++++++++++++++++-
 src/paillier/ring_pedersen.rs |  8 +++++++-
 src/zk/aff_g.rs               | 11 +++++++++++
 src/zk/aff_g_star.rs          | 11 +++++++++++
 src/zk/dec.rs                 | 11 +++++++++++
 src/zk/enc_elg.rs             |  6 ++++++
 src/zk/fac.rs                 |  8 +++++++-
 7 files changed, 70 insertions(+), 3 deletions(-)

diff --git a/src/paillier/encryption.rs b/src/paillier/encryption.rs
index 70b88f9..cca9c15 100644
--- a/src/paillier/encryption.rs
+++ b/src/paillier/encryption.rs
@@ -17,13 +17,23 @@ use super::{
 };
 use crate::{
     tools::Secret,
-    uint::{Exponentiable, Extendable, PublicSigned, PublicUint, SecretSigned, SecretUnsigned, ToMontgomery},
+    uint::{
+        Exponentiable, Extendable, IsInvertible, PublicSigned, PublicUint, SecretSigned, SecretUnsigned, ToMontgomery,
+    },
 };
 
 /// A public randomizer-like quantity used in ZK proofs.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub(crate) struct MaskedRandomizer<P: PaillierParams>(PublicUint<P::Uint>);
 
+impl<P: PaillierParams> MaskedRandomizer<P> {
+    /// Returns `true` if this value is an element of $\mathbb{Z}^*_N$,
+    /// which is always the case for masked randomizers that were created honestly.
+    pub fn is_invertible(&self, pk: &PublicKeyPaillier<P>) -> bool {
+        self.0.is_invertible(pk.modulus())
+    }
+}
+
 /// A ciphertext randomizer (an invertible element of $\mathbb{Z}_N$).
 #[derive(Debug, Clone)]
 pub(crate) struct Randomizer<P: PaillierParams> {
@@ -94,6 +104,12 @@ impl<P: PaillierParams> Ciphertext<P> {
         &self.pk
     }
 
+    /// Returns `true` if this value is an element of $\mathbb{Z}^*_{N^2}$,
+    /// which is always the case for ciphertexts that were created honestly.
+    pub fn is_invertible(&self) -> bool {
+        self.ciphertext.invert().is_some().into()
+    }
+
     /// Encrypts the plaintext with the provided randomizer.
     fn new_with_randomizer_inner(
         pk: &PublicKeyPaillier<P>,
diff --git a/src/paillier/ring_pedersen.rs b/src/paillier/ring_pedersen.rs
index 66b2a78..95a4df3 100644
--- a/src/paillier/ring_pedersen.rs
+++ b/src/paillier/ring_pedersen.rs
@@ -1,7 +1,7 @@
 /// Implements the Definition 3.3 from the CGGMP'21 paper and related operations.
 use core::ops::Mul;
 
-use crypto_bigint::{modular::Retrieve, Integer, Monty, NonZero, RandomMod, ShrVartime};
+use crypto_bigint::{modular::Retrieve, Integer, Invert, Monty, NonZero, RandomMod, ShrVartime};
 use rand_core::CryptoRngCore;
 use serde::{Deserialize, Serialize};
 
@@ -195,6 +195,12 @@ impl<P: PaillierParams> RPCommitment<P> {
         RPCommitmentWire(self.0.retrieve().into())
     }
 
+    /// Returns `true` if this value is an element of $\mathbb{Z}^*_N$,
+    /// which is always the case for commitments that were created honestly.
+    pub fn is_invertible(&self) -> bool {
+        self.0.invert().is_some().into()
+    }
+
     /// Raise to the power of `exponent`.
     pub fn pow<V>(&self, exponent: &V) -> Self
     where
diff --git a/src/zk/aff_g.rs b/src/zk/aff_g.rs
index 5c1c246..aa41c0c 100644
--- a/src/zk/aff_g.rs
+++ b/src/zk/aff_g.rs
@@ -211,6 +211,17 @@ impl<P: SchemeParams> AffGProof<P> {
             return false;
         }
 
+        // C, D ∈ Z^*_{N_0^2}, Y ∈ Z^*_{N_1^2}, w ∈ Z^*_{N_0}, w_y ∈ Z^*_{N_1}
+        // (otherwise the equations below may be satisfied trivially, by having zeros on both sides)
+
+        if !public.cap_c.is_invertible() || !public.cap_d.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
+        if !self.w.is_invertible(public.pk0) || !self.w_y.is_invertible(public.pk1) {
+            return false;
+        }
+
         // C (*) z_1 (+) enc_0(z_2, w) == A (+) D (*) e
         if public.cap_c * &self.z1 + Ciphertext::new_public_with_randomizer(public.pk0, &self.z2, &self.w)
             != public.cap_d * &e + self.cap_a.to_precomputed(public.pk0)
diff --git a/src/zk/aff_g_star.rs b/src/zk/aff_g_star.rs
index 697c616..13e5ddb 100644
--- a/src/zk/aff_g_star.rs
+++ b/src/zk/aff_g_star.rs
@@ -201,6 +201,12 @@ impl<P: SchemeParams> AffGStarProof<P> {
             return false;
         }
 
+        // C, D ∈ Z^*_{N_0^2}, Y ∈ Z^*_{N_1^2}
+        // (otherwise the equations below may be satisfied trivially, by having zeros on both sides)
+        if !public.cap_c.is_invertible() || !public.cap_d.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
         for ((e_bit, commitment), element) in e
             .bits()
             .iter()
@@ -218,6 +224,11 @@ impl<P: SchemeParams> AffGStarProof<P> {
                 return false;
             }
 
+            // w_j ∈ Z^*_{N_0}, \lambda_j ∈ Z^*_{N_1}
+            if !element.w.is_invertible(public.pk0) || !element.lambda.is_invertible(public.pk1) {
+                return false;
+            }
+
             // C (*) z_j (+) enc_0(z^\prime_j, w_j) == A_j (+) D_j (*) e_j
             let cap_a = commitment.cap_a.to_precomputed(public.pk0);
             let lhs = public.cap_c * &element.z
diff --git a/src/zk/dec.rs b/src/zk/dec.rs
index cb92ac8..9718b6b 100644
--- a/src/zk/dec.rs
+++ b/src/zk/dec.rs
@@ -206,6 +206,12 @@ impl<P: SchemeParams> DecProof<P> {
             return false;
         }
 
+        // K, D ∈ Z^*_{N_0^2}
+        // (otherwise the equations below may be satisfied trivially, by having zeros on both sides)
+        if !public.cap_k.is_invertible() || !public.cap_d.is_invertible() {
+            return false;
+        }
+
         for ((e_bit, commitment), element) in e
             .bits()
             .iter()
@@ -213,6 +219,11 @@ impl<P: SchemeParams> DecProof<P> {
             .zip(self.commitments.iter())
             .zip(self.elements.iter())
         {
+            // \nu_j ∈ Z^*_{N_0}
+            if !element.nu.is_invertible(public.pk0) {
+                return false;
+            }
+
             // enc(w_j, \nu_j) (+) K (*) (-z_j) == A_j (+) D (*) e_j
             let cap_a = commitment.cap_a.to_precomputed(public.pk0);
             let lhs = Ciphertext::new_public_wide_with_randomizer(public.pk0, &element.w, &element.nu)
diff --git a/src/zk/enc_elg.rs b/src/zk/enc_elg.rs
index 94fc985..60495bb 100644
--- a/src/zk/enc_elg.rs
+++ b/src/zk/enc_elg.rs
@@ -161,6 +161,12 @@ impl<P: SchemeParams> EncElgProof<P> {
             return false;
         }
 
+        // C ∈ Z^*_{N_0^2}, z_2 ∈ Z^*_{N_0}
+        // (otherwise the equation below may be satisfied trivially, by having zeros on both sides)
+        if !public.cap_c.is_invertible() || !self.z2.is_invertible(public.pk0) {
+            return false;
+        }
+
         // enc_0(z_1, z_2) == D (+) C (*) e
         let c = Ciphertext::new_public_with_randomizer(public.pk0, &self.z1, &self.z2);
         let cap_d = self.cap_d.to_precomputed(public.pk0);
diff --git a/src/zk/fac.rs b/src/zk/fac.rs
index f755b11..77ff759 100644
--- a/src/zk/fac.rs
+++ b/src/zk/fac.rs
@@ -186,13 +186,19 @@ impl<P: SchemeParams> FacProof<P> {
         // s^{z_1} t^{w_1} == A P^e \mod \hat{N}
         let cap_a = self.cap_a.to_precomputed(setup);
         let cap_p = self.cap_p.to_precomputed(setup);
+        let cap_q = self.cap_q.to_precomputed(setup);
+
+        // P, Q ∈ Z^*_\hat{N} (they are raised to the powers that may be negative)
+        if !cap_p.is_invertible() || !cap_q.is_invertible() {
+            return false;
+        }
+
         if setup.commit(&self.z1, &self.w1) != &cap_a * &cap_p.pow(&e) {
             return false;
         }
 
         // s^{z_2} t^{w_2} == B Q^e \mod \hat{N}
         let cap_b = self.cap_b.to_precomputed(setup);
-        let cap_q = self.cap_q.to_precomputed(setup);
         if setup.commit(&self.z2, &self.w2) != &cap_b * &cap_q.pow(&e) {
             return false;
         }
-- 
2.43.0


From c5f39da11e5e0f2278d183e6a3d42195c1fbb191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 12/25] fix: evaluate public polynomials of degree zero
 (thresholds of 1)

---
 src/tools/sss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index 62dc040..c3e8783 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -39,7 +39,7 @@ where
     Coef: Copy + Add<Coef, Output = Coef> + for<'a> Mul<&'a Scalar<P>, Output = Coef> + Clone,
     P: SchemeParams,
 {
-    assert!(coeffs.len() > 1, "Expected coefficients to be non-empty");
+    assert!(!coeffs.is_empty(), "Expected coefficients to be non-empty");
     // Evaluate in reverse to save on multiplications.
     // Basically: a0 + a1 x + a2 x^2 + a3 x^3 == (((a3 x) + a2) x + a1) x + a0
 
-- 
2.43.0


From 5f1762a71984788ed12fe90a1ec351c3c8ef8224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 13/25] fix: reject polynomials of a wrong degree during
 resharing

---
 src/protocols/key_resharing.rs | 8 ++++++++
 src/tools/sss.rs               | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 2a55759..f57b56e 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -77,6 +77,8 @@ pub enum KeyResharingError {
     UnexpectedSender,
     /// Mismatch of the subshare
     SubshareMismatch,
+    /// The degree of the public polynomial does not correspond to the new threshold
+    WrongPolynomialDegree,
 }
 
 impl<I> ProtocolError<I> for KeyResharingError {
@@ -352,6 +354,12 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
                     "my_id={:?} is missing from the new_share_ids",
                     &self.my_id
                 )))?;
+                // A polynomial of a different degree would lead to the new shares
+                // not having the threshold they are declared to have.
+                if echo_broadcast.public_polynomial.num_coeffs() != self.new_threshold {
+                    return Err(ReceiveError::protocol(KeyResharingError::WrongPolynomialDegree));
+                }
+
                 let public_subshare_from_poly = echo_broadcast.public_polynomial.evaluate(my_share_id);
                 let public_subshare_from_private = Secret::mul_by_generator(&direct_message.subshare);
 
diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index c3e8783..65e7833 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -98,6 +98,10 @@ where
         evaluate_polynomial(&self.0, &x.0)
     }
 
+    pub fn num_coeffs(&self) -> usize {
+        self.0.len()
+    }
+
     pub fn coeff0(&self) -> Result<&Point<P>, LocalError> {
         self.0
             .first()
-- 
2.43.0


From e1afdc3b409d92cd3965caa106aaa5f9594e7466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:09 +0000
Subject: [PATCH 14/25] fix: return an error instead of panicking when the
 reshared key is wrong

---
 src/protocols/key_resharing.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index f57b56e..0c9405a 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -433,7 +433,9 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
             // TODO (#113): this is unattributable.
             // Should we add an enum variant to `FinalizeError`?
             // or take the public shares as an input (assuming the nodes published those previously)
-            panic!("Invalid shares");
+            return Err(LocalError::new(
+                "The received shares do not correspond to the expected verifying key",
+            ));
         }
 
         // Assemble the new share.
-- 
2.43.0


From db95cb9042f678e624544c9e651a04ca9d586457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 15/25] fix: separate the commitments of KeyRefresh and AuxGen
 from those of KeyInit

---
 src/protocols/aux_gen.rs     | 2 +-
 src/protocols/key_refresh.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocols/aux_gen.rs b/src/protocols/aux_gen.rs
index b2c75f6..a088ecb 100644
--- a/src/protocols/aux_gen.rs
+++ b/src/protocols/aux_gen.rs
@@ -290,7 +290,7 @@ pub(super) struct PublicData<P: SchemeParams> {
 
 impl<P: SchemeParams> PublicData<P> {
     pub(super) fn hash<Id: PartyId>(&self, sid: &Sid, id: &Id) -> HashOutput {
-        Hasher::<P::Digest>::new_with_dst(b"KeyInit")
+        Hasher::<P::Digest>::new_with_dst(b"AuxGen")
             .chain(sid)
             .chain(id)
             .chain(&self.paillier_pk.clone().into_wire())
diff --git a/src/protocols/key_refresh.rs b/src/protocols/key_refresh.rs
index adc6ba7..a930f80 100644
--- a/src/protocols/key_refresh.rs
+++ b/src/protocols/key_refresh.rs
@@ -452,7 +452,7 @@ pub(super) struct PublicData<P: SchemeParams, Id> {
 
 impl<P: SchemeParams, Id: PartyId> PublicData<P, Id> {
     pub(super) fn hash(&self, sid: &Sid, id: &Id) -> HashOutput {
-        Hasher::<P::Digest>::new_with_dst(b"KeyInit")
+        Hasher::<P::Digest>::new_with_dst(b"KeyRefresh")
             .chain(sid)
             .chain(id)
             .chain(&self.cap_xs)
-- 
2.43.0


From 5ebea432007ca03c1296c3fae85d3f6a38a0cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 16/25] fix: check all the maps of signing round 2 for
 unexpected IDs

---
 src/protocols/interactive_signing.rs | 58 ++++++++++++++++++++++++++++
 1 file changed, 58 insertions(+)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 5a69056..48e8dbd 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -139,6 +139,10 @@ impl<P, Id: Debug> Display for InteractiveSigningError<P, Id> {
                 Error::R1EncElg1Failed => "Round 1: failed to verify `\\psi^1` (`П^{enc-elg}` proof).",
                 Error::R2WrongIdsD => "Round 2: wrong IDs in `D` map.",
                 Error::R2WrongIdsF => "Round 2: wrong IDs in `F` map.",
+                Error::R2WrongIdsHatD => "Round 2: wrong IDs in `\\hat{D}` map.",
+                Error::R2WrongIdsHatF => "Round 2: wrong IDs in `\\hat{F}` map.",
+                Error::R2WrongIdsHatPsi =>
+                    "Round 2: wrong IDs in `\\hat{\\psi}` map (`П^{aff-g}` proofs for `\\hat{D}`).",
                 Error::R2WrongIdsPsi => "Round 2: wrong IDs in `\\psi` map (`П^{aff-g}` proofs for `D`).",
                 Error::R2AffGPsiFailed { .. } => "Round 2: failed to verify `\\psi` (`П^{aff-g}` proof for `D`).",
                 Error::R2AffGHatPsiFailed { .. } =>
@@ -165,6 +169,9 @@ enum Error<Id> {
     R2WrongIdsD,
     R2WrongIdsF,
     R2WrongIdsPsi,
+    R2WrongIdsHatD,
+    R2WrongIdsHatF,
+    R2WrongIdsHatPsi,
     R2AffGPsiFailed {
         /// The index $k$ for which the verification of $\psi_{k,j}$ failed
         /// (where $j$ is the index of the guilty party).
@@ -274,6 +281,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R2WrongIdsD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2WrongIdsF => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
+            Error::R2WrongIdsHatD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
+            Error::R2WrongIdsHatF => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
+            Error::R2WrongIdsHatPsi => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2AffGPsiFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
                 None,
@@ -443,6 +453,42 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .without(&guilty_party);
                 verify_that(r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
+            Error::R2WrongIdsHatD => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_nb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
+            Error::R2WrongIdsHatF => {
+                let r2_eb = message
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_eb.hat_cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
+            Error::R2WrongIdsHatPsi => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let expected_ids = associated_data
+                    .aux
+                    .as_map()
+                    .keys()
+                    .collect::<BTreeSet<_>>()
+                    .without(&guilty_party);
+                verify_that(r2_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+            }
             Error::R2AffGPsiFailed { failed_for } => {
                 let r1_eb = combined_echos
                     .get_round(1)?
@@ -1569,6 +1615,18 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2WrongIdsPsi.into()));
         }
 
+        if normal_broadcast.hat_cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatD.into()));
+        }
+
+        if echo_broadcast.hat_cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatF.into()));
+        }
+
+        if normal_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+            return Err(ReceiveError::protocol(Error::R2WrongIdsHatPsi.into()));
+        }
+
         let sender_payload = self.r1_payloads.safe_get("Round 1 payloads", from)?;
 
         let mut cap_ds = BTreeMap::new();
-- 
2.43.0


From 146c7353b07fd9f9af24c9697e0fd228eb02fca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 17/25] fix: use the guilty party's share when verifying
 evidence of a failed `hat_psi`

---
 src/protocols/interactive_signing.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 48e8dbd..d218382 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -540,7 +540,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 let failed_for_aux = &associated_data.aux.as_map().try_get("aux infos", failed_for)?;
                 let guilty_party_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
-- 
2.43.0


From ceb52bed56d709368afa804a4e9b7d3b5c70f3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 18/25] fix: missing entries in the evidence are not an error
 of the local node

---
 src/protocols/interactive_signing.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index d218382..c129019 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -511,8 +511,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let from_pk = guilty_party_aux.paillier_pk.clone().into_precomputed();
 
                 let cap_k = r1_eb.cap_k.to_precomputed(&for_pk);
-                let cap_d = r2_nb.cap_ds.safe_get("`D` map", failed_for)?.to_precomputed(&for_pk);
-                let cap_f = r2_eb.cap_fs.safe_get("`F` map", failed_for)?.to_precomputed(&from_pk);
+                let cap_d = r2_nb.cap_ds.try_get("`D` map", failed_for)?.to_precomputed(&for_pk);
+                let cap_f = r2_eb.cap_fs.try_get("`F` map", failed_for)?.to_precomputed(&from_pk);
 
                 let psi = r2_nb.psis.try_get("`psi` map", failed_for)?;
                 verify_that(!psi.verify(
@@ -554,11 +554,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let cap_k = r1_eb.cap_k.to_precomputed(&for_pk);
                 let hat_cap_d = r2_nb
                     .hat_cap_ds
-                    .safe_get("`\\hat{D}` map", failed_for)?
+                    .try_get("`\\hat{D}` map", failed_for)?
                     .to_precomputed(&for_pk);
                 let hat_cap_f = r2_eb
                     .hat_cap_fs
-                    .safe_get("`\\hat{F}` map", failed_for)?
+                    .try_get("`\\hat{F}` map", failed_for)?
                     .to_precomputed(&from_pk);
 
                 let hat_psi = r2_nb.hat_psis.try_get("`\\hat{psi}` map", failed_for)?;
-- 
2.43.0


From 5e39748b36282bd42a2fbe940f645f0a0201b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 19/25] fix: use the combined `Gamma` when verifying evidence
 of a failed Elog proof in round 3

---
 src/protocols/interactive_signing.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index c129019..36f2745 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -308,7 +308,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     ]
                     .into(),
                 ),
-                None,
+                Some([2.into()].into()),
             ),
             Error::R4InvalidSignatureShare => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
@@ -608,18 +608,23 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(2)?
                     .echo_broadcast
                     .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                let r2_ebs = combined_echos
+                    .get_round(2)?
+                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r3_nb = message
                     .normal_broadcast
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
                 let aux = (&epid, guilty_party);
 
+                let cap_gamma = r2_eb.cap_gamma + r2_ebs.values().map(|eb| eb.cap_gamma).sum();
+
                 verify_that(!r3_nb.psi_prime.verify(
                     ElogPublicInputs {
                         cap_l: &r1_eb.cap_a1,
                         cap_m: &r1_eb.cap_a2,
                         cap_x: &r1_eb.cap_y,
                         cap_y: &r3_nb.cap_delta,
-                        h: &r2_eb.cap_gamma,
+                        h: &cap_gamma,
                     },
                     &aux,
                 ))
-- 
2.43.0


From 5d24d0321721d3d18ec83452d55e695a13aada78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 20/25] fix: take the proof maps of rounds 5 and 6 from the
 echo broadcast in the evidence

---
 src/protocols/interactive_signing.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 36f2745..c711ac6 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -740,8 +740,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R5WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r5_nb = message
-                    .normal_broadcast
+                let r5_eb = message
+                    .echo_broadcast
                     .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -749,7 +749,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r5_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r5_eb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R5AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
@@ -892,8 +892,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R6WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r6_nb = message
-                    .normal_broadcast
+                let r6_eb = message
+                    .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -901,7 +901,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r6_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r6_eb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R6AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
-- 
2.43.0


From 8157bb6abda8d39037f4405d87625dc5b63dee97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:24 +0000
Subject: [PATCH 21/25] fix: verify the evidence of failed AffG* proofs against
 the statement that was proven

---
 src/protocols/interactive_signing.rs | 44 +++++++++++++---------------
 1 file changed, 20 insertions(+), 24 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index c711ac6..a67233b 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -337,7 +337,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R5AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
-                Some([1.into(), 2.into()].into()),
+                Some([1.into()].into()),
             ),
             Error::R6DecFailed => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
@@ -354,8 +354,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R6WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R6AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
-                None,
-                Some([1.into(), 2.into()].into()),
+                Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
+                Some([1.into()].into()),
             ),
         }
     }
@@ -756,9 +756,6 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r1_ebs = combined_echos
                     .get_round(1)?
                     .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_nb = previous_messages
                     .get_round(2)?
                     .normal_broadcast
@@ -791,20 +788,19 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .try_get("Round 1 echo broadcasts", failed_for)?
                     .cap_k
                     .to_precomputed(&failed_for_pk);
-                let cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let cap_f = r2_eb
                     .cap_fs
-                    .try_get("`F` map", guilty_party)?
+                    .try_get("`F` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
                 let psi = r5_eb.psis.try_get("`\\{psi}` map", failed_for)?;
 
                 verify_that(!psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &cap_d,
                         cap_y: &cap_f,
                         cap_x: &r2_eb.cap_gamma,
                     },
@@ -908,13 +904,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r1_ebs = combined_echos
                     .get_round(1)?
                     .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r2_nb = previous_messages
                     .get_round(2)?
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let r2_eb = previous_messages
+                    .get_round(2)?
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r6_eb = message
                     .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
@@ -927,7 +924,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let guilty_party_pk = guilty_party_aux.paillier_pk.clone().into_precomputed();
                 let aux = (&epid, guilty_party);
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 // l = failed_for
                 // j = guilty_party
@@ -941,20 +938,19 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .try_get("Round 1 echo broadcasts", failed_for)?
                     .cap_k
                     .to_precomputed(&failed_for_pk);
-                let hat_cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let hat_cap_f = r2_eb
                     .hat_cap_fs
-                    .try_get("`\\hat{F}` map", guilty_party)?
+                    .try_get("`\\hat{F}` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
                 let hat_psi = r6_eb.hat_psis.try_get("`\\hat{\\psi}` map", failed_for)?;
 
                 verify_that(!hat_psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &hat_cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &hat_cap_d,
                         cap_y: &hat_cap_f,
                         cap_x,
                     },
-- 
2.43.0


From ed81e6ab1164d679667b69bd12f6b8d1855afa16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 22/25] fix: expect a round 6 message in the evidence of a
 failed Dec proof in round 6

---
 src/protocols/interactive_signing.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index a67233b..b2518e2 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -827,9 +827,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(3)?
                     .normal_broadcast
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
-                let r5_eb = message
+                let r6_eb = message
                     .echo_broadcast
-                    .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
+                    .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
 
                 // Calculate `\hat{D}_j` where `j = guilty_party`.
                 // `\hat{D}_j = sum_{l != j}(\hat{D}_{l,j} + \hat{F}_{j,l})
@@ -872,7 +872,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
                 let cap_x = associated_data.shares.as_map().try_get("`X` map", guilty_party)?;
 
-                verify_that(!r5_eb.psi_star.verify(
+                verify_that(!r6_eb.hat_psi_star.verify(
                     DecPublicInputs {
                         pk0: &pk,
                         cap_k: &cap_k,
-- 
2.43.0


From a703687fdecb46454d381299bd38166dc42e82cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 23/25] fix: a correct EncElg proof must not be evidence
 against the party that created it

---
 src/protocols/interactive_signing.rs | 58 ++++++++++++++++------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index b2518e2..14ddbfb 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -379,21 +379,26 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
-                let rp = public_aux.rp_params.to_precomputed();
 
                 let aux = (&epid, guilty_party);
 
-                verify_that(!r1_dm.psi0.verify(
-                    EncElgPublicInputs {
-                        pk0: &pk,
-                        cap_c: &r1_eb.cap_k.to_precomputed(&pk),
-                        cap_a: &r1_eb.cap_y,
-                        cap_b: &r1_eb.cap_a1,
-                        cap_x: &r1_eb.cap_a2,
-                    },
-                    &rp,
-                    &aux,
-                ))
+                // The direct message does not mention its destination, so the proof could have been created
+                // for any of the other parties.
+                let ids = associated_data.aux.as_map().iter().filter(|(id, _)| *id != guilty_party);
+                let all_failed = ids.map(|(_, aux_info)| aux_info.rp_params.to_precomputed()).all(|rp| {
+                    !r1_dm.psi0.verify(
+                        EncElgPublicInputs {
+                            pk0: &pk,
+                            cap_c: &r1_eb.cap_k.to_precomputed(&pk),
+                            cap_a: &r1_eb.cap_y,
+                            cap_b: &r1_eb.cap_a1,
+                            cap_x: &r1_eb.cap_a2,
+                        },
+                        &rp,
+                        &aux,
+                    )
+                });
+                verify_that(all_failed)
             }
             Error::R1EncElg1Failed => {
                 let r1_dm = message.direct_message.deserialize::<Round1DirectMessage<P>>(format)?;
@@ -401,21 +406,26 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
-                let rp = public_aux.rp_params.to_precomputed();
 
                 let aux = (&epid, guilty_party);
 
-                verify_that(!r1_dm.psi1.verify(
-                    EncElgPublicInputs {
-                        pk0: &pk,
-                        cap_c: &r1_eb.cap_g.to_precomputed(&pk),
-                        cap_a: &r1_eb.cap_y,
-                        cap_b: &r1_eb.cap_b1,
-                        cap_x: &r1_eb.cap_b2,
-                    },
-                    &rp,
-                    &aux,
-                ))
+                // The direct message does not mention its destination, so the proof could have been created
+                // for any of the other parties.
+                let ids = associated_data.aux.as_map().iter().filter(|(id, _)| *id != guilty_party);
+                let all_failed = ids.map(|(_, aux_info)| aux_info.rp_params.to_precomputed()).all(|rp| {
+                    !r1_dm.psi1.verify(
+                        EncElgPublicInputs {
+                            pk0: &pk,
+                            cap_c: &r1_eb.cap_g.to_precomputed(&pk),
+                            cap_a: &r1_eb.cap_y,
+                            cap_b: &r1_eb.cap_b1,
+                            cap_x: &r1_eb.cap_b2,
+                        },
+                        &rp,
+                        &aux,
+                    )
+                });
+                verify_that(all_failed)
             }
             Error::R2WrongIdsD => {
                 let r2_nb = message
-- 
2.43.0


From 2ad0d5d582df6a7de6f4adb99b093abb329b7c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 24/25] fix: a correct Fac proof must not be evidence against
 the party that created it

---
 src/protocols/aux_gen.rs     | 17 ++++++++++++-----
 src/protocols/key_refresh.rs | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/protocols/aux_gen.rs b/src/protocols/aux_gen.rs
index a088ecb..b392449 100644
--- a/src/protocols/aux_gen.rs
+++ b/src/protocols/aux_gen.rs
@@ -262,18 +262,25 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                 let rid = reconstruct_rid::<P, _>(format, &previous_messages, &combined_echos)?;
                 let aux = (&sid, guilty_party, &rid);
 
-                let r2_eb = combined_echos
+                let r2_ebs = combined_echos
                     .get_round(2)?
-                    .try_get("combined echos for Round 2", reported_by)?
-                    .deserialize::<Round2EchoBroadcast<P>>(format)?;
+                    .deserialize_all::<Round2EchoBroadcast<P>>(format)?;
+                r2_ebs.try_get("combined echos for Round 2", reported_by)?;
                 let r2_bc = previous_messages
                     .get_round(2)?
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P>>(format)?;
                 let r3_dm = message.direct_message.deserialize::<Round3DirectMessage<P>>(format)?;
                 let paillier_pk = r2_bc.paillier_pk.into_precomputed();
-                let rp_params = r2_eb.rp_params.to_precomputed();
-                verify_that(!r3_dm.psi.verify(&paillier_pk, &rp_params, &aux))
+
+                // The direct message does not mention its destination, so the proof could have been created
+                // for any of the other parties.
+                let all_failed = r2_ebs
+                    .iter()
+                    .filter(|(id, _)| *id != guilty_party)
+                    .map(|(_, r2_eb)| r2_eb.rp_params.to_precomputed())
+                    .all(|rp_params| !r3_dm.psi.verify(&paillier_pk, &rp_params, &aux));
+                verify_that(all_failed)
             }
         }
     }
diff --git a/src/protocols/key_refresh.rs b/src/protocols/key_refresh.rs
index a930f80..fc032d2 100644
--- a/src/protocols/key_refresh.rs
+++ b/src/protocols/key_refresh.rs
@@ -398,18 +398,25 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                 let rid = reconstruct_rid::<P, _>(format, &previous_messages, &combined_echos)?;
                 let aux = (&sid, guilty_party, &rid);
 
-                let r2_eb = combined_echos
+                let r2_ebs = combined_echos
                     .get_round(2)?
-                    .try_get("combined echos for Round 2", reported_by)?
-                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
+                r2_ebs.try_get("combined echos for Round 2", reported_by)?;
                 let r2_bc = previous_messages
                     .get_round(2)?
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
                 let r3_dm = message.direct_message.deserialize::<Round3DirectMessage<P>>(format)?;
                 let paillier_pk = r2_bc.paillier_pk.into_precomputed();
-                let rp_params = r2_eb.rp_params.to_precomputed();
-                verify_that(!r3_dm.psi.verify(&paillier_pk, &rp_params, &aux))
+
+                // The direct message does not mention its destination, so the proof could have been created
+                // for any of the other parties.
+                let all_failed = r2_ebs
+                    .iter()
+                    .filter(|(id, _)| *id != guilty_party)
+                    .map(|(_, r2_eb)| r2_eb.rp_params.to_precomputed())
+                    .all(|rp_params| !r3_dm.psi.verify(&paillier_pk, &rp_params, &aux));
+                verify_that(all_failed)
             }
             Error::R3WrongIdsHatPsi => {
                 let r3_eb = message
-- 
2.43.0


From 9064e921b87170f3f1e7aa2bf69116d3619bc723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:27 +0000
Subject: [PATCH 25/25] fix: reject random bit vectors of a wrong length
 instead of panicking

---
 src/protocols/aux_gen.rs     | 25 +++++++++++++++++++++++++
 src/protocols/key_init.rs    | 25 +++++++++++++++++++++++++
 src/protocols/key_refresh.rs | 27 +++++++++++++++++++++++++++
 src/tools/bitvec.rs          |  4 ++++
 4 files changed, 81 insertions(+)

diff --git a/src/protocols/aux_gen.rs b/src/protocols/aux_gen.rs
index b392449..92c8454 100644
--- a/src/protocols/aux_gen.rs
+++ b/src/protocols/aux_gen.rs
@@ -109,6 +109,7 @@ impl<P, Id: PartyId> Display for AuxGenError<P, Id> {
                 Error::R2HashMismatch => "Round 2: the previously sent hash does not match the public data.",
                 Error::R2PaillierModulusTooSmall => "Round 2: Paillier modulus is too small.",
                 Error::R2RPModulusTooSmall => "Round 2: ring-Pedersent modulus is too small.",
+                Error::R2WrongBitVecLength => "Round 2: wrong length of the random bit vectors.",
                 Error::R2PrmFailed => "Round 2: `П^{prm}` verification failed.",
                 Error::R3ModFailed => "Round 3: `П^{mod}` verification failed.",
                 Error::R3FacFailed { .. } => "Round 3: `П^{fac}` verification failed.",
@@ -121,6 +122,7 @@ impl<P, Id: PartyId> Display for AuxGenError<P, Id> {
 #[derive(Debug, Clone, Serialize, Deserialize)]
 enum Error<Id> {
     R2HashMismatch,
+    R2WrongBitVecLength,
     R2PaillierModulusTooSmall,
     R2RPModulusTooSmall,
     R2PrmFailed,
@@ -146,6 +148,11 @@ fn reconstruct_rid<P: SchemeParams, Id: PartyId>(
         .deserialize::<Round2EchoBroadcast<P>>(format)?;
     let mut rid_combined = r2_eb.rid;
     for message in r2_ebs.values() {
+        if message.rid.num_bits() != rid_combined.num_bits() {
+            return Err(ProtocolValidationError::InvalidEvidence(
+                "Wrong length of the random bit vectors".into(),
+            ));
+        }
         rid_combined ^= &message.rid;
     }
     Ok(rid_combined)
@@ -172,6 +179,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                 RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None)
             }
             Error::R2RPModulusTooSmall => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
+            Error::R2WrongBitVecLength => RequiredMessages::new(
+                RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
+                None,
+                None,
+            ),
             Error::R2PrmFailed => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
                 None,
@@ -236,6 +248,15 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                     r2_eb.rp_params.modulus().bits_vartime() < <P::Paillier as PaillierParams>::MODULUS_BITS - 2,
                 )
             }
+            Error::R2WrongBitVecLength => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P>>(format)?;
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast<P>>(format)?;
+                verify_that(
+                    r2_eb.rid.num_bits() != P::SECURITY_PARAMETER || r2_nb.u.num_bits() != P::SECURITY_PARAMETER,
+                )
+            }
             Error::R2PrmFailed => {
                 let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast<P>>(format)?;
                 let r2_bc = message
@@ -559,6 +580,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rid.num_bits() != P::SECURITY_PARAMETER || data.u.num_bits() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2WrongBitVecLength.into()));
+        }
+
         if data.paillier_pk.modulus().bits_vartime() < <P::Paillier as PaillierParams>::MODULUS_BITS - 2 {
             return Err(ReceiveError::protocol(Error::R2PaillierModulusTooSmall.into()));
         }
diff --git a/src/protocols/key_init.rs b/src/protocols/key_init.rs
index f494d57..bafe721 100644
--- a/src/protocols/key_init.rs
+++ b/src/protocols/key_init.rs
@@ -107,6 +107,8 @@ impl<P: SchemeParams> From<Error> for KeyInitError<P> {
 enum Error {
     /// Round 2: the previously sent hash does not match the public data.
     R2HashMismatch,
+    /// Round 2: wrong length of the random bit vectors.
+    R2WrongBitVecLength,
     /// Round 3: failed to verify `П^{{sch}}`.
     R3InvalidSchProof,
 }
@@ -128,6 +130,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                 Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),
                 None,
             ),
+            Error::R2WrongBitVecLength => RequiredMessages::new(
+                RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
+                None,
+                None,
+            ),
             Error::R3InvalidSchProof => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
@@ -166,6 +173,15 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                 };
                 verify_that(data.hash(&sid, guilty_party) != r1_eb.cap_v)
             }
+            Error::R2WrongBitVecLength => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P>>(format)?;
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast>(format)?;
+                verify_that(
+                    r2_eb.rho.num_bits() != P::SECURITY_PARAMETER || r2_nb.u.num_bits() != P::SECURITY_PARAMETER,
+                )
+            }
             Error::R3InvalidSchProof => {
                 let r2_ebs = combined_echos
                     .get_round(2)?
@@ -184,6 +200,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
 
                 let mut rho = r2_eb.rho;
                 for message in r2_ebs.values() {
+                    if message.rho.num_bits() != rho.num_bits() {
+                        return Err(ProtocolValidationError::InvalidEvidence(
+                            "Wrong length of the random bit vectors".into(),
+                        ));
+                    }
                     rho ^= &message.rho;
                 }
 
@@ -448,6 +469,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rho.num_bits() != P::SECURITY_PARAMETER || data.u.num_bits() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2WrongBitVecLength.into()));
+        }
+
         Ok(Payload::new(Round2Payload {
             cap_x: data.cap_x,
             rho: data.rho,
diff --git a/src/protocols/key_refresh.rs b/src/protocols/key_refresh.rs
index fc032d2..d8d25f2 100644
--- a/src/protocols/key_refresh.rs
+++ b/src/protocols/key_refresh.rs
@@ -132,6 +132,7 @@ where
                 Error::R2PaillierModulusTooSmall => "Round 2: Paillier modulus is too small.",
                 Error::R2RPModulusTooSmall => "Round 2: ring-Pedersent modulus is too small.",
                 Error::R2NonZeroSumOfChanges => "Round 2: sum of share changes is not zero.",
+                Error::R2WrongBitVecLength => "Round 2: wrong length of the random bit vectors.",
                 Error::R2PrmFailed => "Round 2: `П^{prm}` verification failed.",
                 Error::R3ShareChangeMismatch { .. } =>
                     "Round 3: secret share change does not match the public commitment.",
@@ -153,6 +154,7 @@ where
     P: SchemeParams,
 {
     R2HashMismatch,
+    R2WrongBitVecLength,
     R2WrongIdsX,
     R2WrongIdsY,
     R2WrongIdsA,
@@ -194,6 +196,11 @@ fn reconstruct_rid<P: SchemeParams, Id: PartyId>(
         .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
     let mut rid_combined = r2_eb.rid;
     for message in r2_ebs.values() {
+        if message.rid.num_bits() != rid_combined.num_bits() {
+            return Err(ProtocolValidationError::InvalidEvidence(
+                "Wrong length of the random bit vectors".into(),
+            ));
+        }
         rid_combined ^= &message.rid;
     }
     Ok(rid_combined)
@@ -224,6 +231,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
             }
             Error::R2RPModulusTooSmall => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2NonZeroSumOfChanges => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
+            Error::R2WrongBitVecLength => RequiredMessages::new(
+                RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
+                None,
+                None,
+            ),
             Error::R2PrmFailed => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
                 None,
@@ -330,6 +342,17 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
                 verify_that(r2_nb.cap_xs.values().sum::<Point<P>>() != Point::identity())
             }
+            Error::R2WrongBitVecLength => {
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let r2_eb = message
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                verify_that(
+                    r2_eb.rid.num_bits() != P::SECURITY_PARAMETER || r2_nb.u.num_bits() != P::SECURITY_PARAMETER,
+                )
+            }
             Error::R2PrmFailed => {
                 let r2_eb = message
                     .echo_broadcast
@@ -773,6 +796,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rid.num_bits() != P::SECURITY_PARAMETER || data.u.num_bits() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2WrongBitVecLength.into()));
+        }
+
         if data.cap_xs.keys().cloned().collect::<BTreeSet<_>>() != self.context.all_ids {
             return Err(ReceiveError::protocol(Error::R2WrongIdsX.into()));
         }
diff --git a/src/tools/bitvec.rs b/src/tools/bitvec.rs
index 2484b7e..fa9ff09 100644
--- a/src/tools/bitvec.rs
+++ b/src/tools/bitvec.rs
@@ -80,6 +80,10 @@ impl BitVec {
         &self.0
     }
 
+    pub fn num_bits(&self) -> usize {
+        self.0.len()
+    }
+
     pub fn from_xof_reader(reader: &mut impl XofReader, bits: usize) -> Self {
         let bytes = bits.div_ceil(8);
         let mut byte_vec = vec![0u8; bytes];
-- 
2.43.0

