KEYS = r'''
use crate::{curve::{Point, Scalar}, dev::TestParams as T, paillier::*, params::{SchemeParams, secret_scalar_from_signed}, tools::Secret, uint::{PublicSigned, SecretSigned}, zk::*};
type Q = <T as SchemeParams>::Paillier;
type U = <Q as PaillierParams>::Uint;
#[allow(dead_code)]
fn int(v: i64) -> SecretSigned<U> {
    let u = U::from(v.unsigned_abs());
    Option::from(SecretSigned::new_from_unsigned(Secret::init_with(|| if v < 0 { u.wrapping_neg() } else { u }), 40)).unwrap()
}
/// Returns zeros between two positions, and pseudo-random bytes elsewhere.
#[allow(dead_code)]
struct Zeros { from: usize, to: usize, pos: usize, det: Det }
impl RngCore for Zeros {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { let r = self.det.next_u64() as u8; *x = if self.pos >= self.from && self.pos < self.to { 0 } else { r }; self.pos += 1; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Zeros {}
#[allow(dead_code)]
fn field(v: &ciborium::Value, name: &str) -> Option<ciborium::Value> {
    v.as_map()?.iter().find(|(k, _)| k.as_text() == Some(name)).map(|(_, x)| x.clone())
}
#[allow(dead_code)]
fn value<X: serde::Serialize>(x: &X) -> ciborium::Value { ciborium::Value::serialized(x).unwrap() }
'''
bugs = [
dict(id="z02-enc-elg-b", property="Z02",
 needs="a statement in which B is not the commitment to the blinding scalar used in X",
 breaks="the equation for B is effectively not checked, so a statement about a wrong B is provable",
 edits=[("src/zk/enc_elg.rs", "        if self.w.mul_by_generator() != self.cap_z + public.cap_b * e {\n            return false;\n        }\n", "        if self.w.mul_by_generator() == Point::identity() && self.cap_z + public.cap_b * e != Point::identity() {\n            return false;\n        }\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let pk = sk.public_key();
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let x = int(-123456);
    let rho = Randomizer::random(&mut rng, pk);
    let a = Scalar::<T>::random_nonzero(&mut rng);
    let b = Secret::init_with(|| Scalar::<T>::from(777));
    let cap_c = Ciphertext::new_with_randomizer(pk, &x, &rho);
    let cap_a = a.mul_by_generator();
    let cap_x = cap_a * &b + secret_scalar_from_signed::<T>(&x).mul_by_generator();
    for (b2, legal) in [(777u64, true), (778, false), (0, false)] {
        let cap_b = Scalar::<T>::from(b2).mul_by_generator();
        let public = EncElgPublicInputs::<T> { pk0: pk, cap_c: &cap_c, cap_a: &cap_a, cap_b: &cap_b, cap_x: &cap_x };
        let proof = EncElgProof::<T>::new(&mut rng, EncElgSecretInputs { x: &x, rho: &rho, b: &b }, public, &setup, &aux);
        expect(proof.verify(public, &setup, &aux) == legal, &std::format!("B = g * {b2}"), &mut bad);
    }
    bad
}
'''),
dict(id="z02-fac-z2-range", property="Z02",
 needs="a small-factor proof in which only the second response is out of range",
 breaks="the range of the second response is not checked (the first one is checked twice)",
 edits=[("src/zk/fac.rs", "        if !self\n            .z2\n            .is_in_exponent_range", "        if !self\n            .z1\n            .is_in_exponent_range")],
 demo=KEYS + r'''
type W = <Q as PaillierParams>::WideUint;
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let bound = T::L_BOUND + T::EPS_BOUND + Q::PRIME_BITS - 2;
    let mut out = [0, 0];
    // push the sampled masks to the lower end of their intervals, each in its turn
    for from in (0..160).step_by(8) { for len in [32usize, 64] { for seed in 0..2 {
        let mut r = Zeros { from, to: from + len, pos: 0, det: Det(seed) };
        let proof = FacProof::<T>::new(&mut r, &sk, &setup, &aux);
        let v = value(&proof);
        let z = |n: &str| field(&v, n).unwrap().deserialized::<PublicSigned<W>>().unwrap().is_in_exponent_range(bound);
        let (z1, z2) = (z("z1"), z("z2"));
        if !z1 { out[0] += 1 }
        if !z2 { out[1] += 1 }
        expect(proof.verify(sk.public_key(), &setup, &aux) == (z1 && z2), &std::format!("responses in range: {z1} {z2}"), &mut bad);
    } } }
    expect(out[0] > 0 && out[1] > 0, &std::format!("both responses are out of range sometimes {out:?}"), &mut bad);
    bad
}
'''),
dict(id="z02-aff-g-z2-range", property="Z02",
 needs="an affine operation proof whose response for y is slightly out of range",
 breaks="the response for y is checked against a range twice as wide",
 edits=[("src/zk/aff_g.rs", "        if !self.z2.is_in_exponent_range(P::LP_BOUND + P::EPS_BOUND) {", "        if !self.z2.is_in_exponent_range(P::LP_BOUND + P::EPS_BOUND + 1) {")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk0 = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let sk1 = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let (pk0, pk1) = (sk0.public_key(), sk1.public_key());
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let mut out = 0;
    for sign in [1i64, -1] {
        let (x, y) = (int(5000), int(sign * 700_000_000));
        let (rho, rho_y) = (Randomizer::random(&mut rng, pk0), Randomizer::random(&mut rng, pk1));
        let cap_c = Ciphertext::new_with_randomizer(pk0, &int(99), &Randomizer::random(&mut rng, pk0));
        let cap_d = &cap_c * &x + Ciphertext::new_with_randomizer(pk0, &-&y, &rho);
        let cap_y = Ciphertext::new_with_randomizer(pk1, &y, &rho_y);
        let cap_x: Point<T> = secret_scalar_from_signed::<T>(&x).mul_by_generator();
        let public = AffGPublicInputs::<T> { pk0, pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
        for from in (0..80).step_by(8) { for seed in 0..3 {
            let mut r = Zeros { from, to: from + 32, pos: 0, det: Det(seed) };
            let proof = AffGProof::<T>::new(&mut r, AffGSecretInputs { x: &x, y: &y, rho: &rho, rho_y: &rho_y }, public, &setup, &aux);
            let v = value(&proof);
            let z = |n: &str, b| field(&v, n).unwrap().deserialized::<PublicSigned<U>>().unwrap().is_in_exponent_range(b);
            let (z1, z2) = (z("z1", T::L_BOUND + T::EPS_BOUND), z("z2", T::LP_BOUND + T::EPS_BOUND));
            if z1 && !z2 { out += 1 }
            expect(proof.verify(public, &setup, &aux) == (z1 && z2), &std::format!("responses in range: {z1} {z2}"), &mut bad);
        } }
    }
    expect(out > 0, "the response for y is out of range sometimes", &mut bad);
    bad
}
'''),
dict(id="z02-elog-combined", property="Z02",
 needs="a statement in which M and Y are wrong by opposite amounts",
 breaks="two equations are checked as one sum, so errors in M and Y that cancel each other are accepted",
 edits=[("src/zk/elog.rs", "        if self.u.mul_by_generator() + public.cap_x * self.z != self.cap_n + public.cap_m * e {\n            return false;\n        }\n", "        let lhs = self.u.mul_by_generator() + public.cap_x * self.z;\n        let rhs = self.cap_n + public.cap_m * e;\n"),
        ("src/zk/elog.rs", "        if public.h * self.u != self.cap_b + public.cap_y * e {\n", "        if lhs + public.h * self.u != rhs + self.cap_b + public.cap_y * e {\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let aux: &[u8] = b"aux";
    let y = Secret::init_with(|| Scalar::<T>::random(&mut Det(1)));
    let lambda = Secret::init_with(|| Scalar::<T>::random(&mut Det(2)));
    let h = Scalar::<T>::random(&mut rng).mul_by_generator();
    let cap_x = Scalar::<T>::random(&mut rng).mul_by_generator();
    let cap_l = lambda.mul_by_generator();
    for off in [0u64, 1, 12345] {
        let d = Scalar::<T>::from(off);
        let cap_m = y.mul_by_generator() + cap_x * &lambda + d.mul_by_generator();
        let cap_y = h * &y + (-d).mul_by_generator();
        let public = ElogPublicInputs::<T> { cap_l: &cap_l, cap_m: &cap_m, cap_x: &cap_x, cap_y: &cap_y, h: &h };
        let proof = ElogProof::<T>::new(&mut rng, ElogSecretInputs { y: &y, lambda: &lambda }, public, &aux);
        expect(proof.verify(public, &aux) == (off == 0), &std::format!("M and Y are off by {off}"), &mut bad);
    }
    bad
}
'''),
dict(id="z02-dec-last-range", property="Z02",
 needs="a decryption proof with an out-of-range response in some repetition, but not in the last one",
 breaks="only the last repetition's response is checked for its range",
 edits=[("src/zk/dec.rs", "        for ((e_bit, commitment), element) in e\n", "        let mut in_range = true;\n\n        for ((e_bit, commitment), element) in e\n"),
        ("src/zk/dec.rs", "            if !element.z.is_in_exponent_range(P::L_BOUND + P::EPS_BOUND) {\n                return false;\n            }\n", "            in_range = element.z.is_in_exponent_range(P::L_BOUND + P::EPS_BOUND);\n"),
        ("src/zk/dec.rs", "                return false;\n            }\n        }\n\n        true\n", "                return false;\n            }\n        }\n\n        in_range\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let pk = sk.public_key();
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let (x, y) = (int(-2_000_000_000), int(31337));
    let rho = Randomizer::random(&mut rng, pk);
    let cap_k = Ciphertext::new_with_randomizer(pk, &int(99), &Randomizer::random(&mut rng, pk));
    let cap_d = Ciphertext::new_with_randomizer(pk, &y, &rho) + &cap_k * &-&x;
    let cap_x: Point<T> = secret_scalar_from_signed::<T>(&x).mul_by_generator();
    let cap_g = Scalar::<T>::from(5).mul_by_generator();
    let cap_s = cap_g * secret_scalar_from_signed::<T>(&y);
    let public = DecPublicInputs::<T> { pk0: pk, cap_k: &cap_k, cap_x: &cap_x, cap_d: &cap_d, cap_s: &cap_s, cap_g: &cap_g, num_parties: 2 };
    let mut out = 0;
    for from in (0..48).step_by(8) { for seed in 0..6 {
        let mut r = Zeros { from, to: from + 24, pos: 0, det: Det(seed) };
        let proof = DecProof::<T>::new(&mut r, DecSecretInputs { x: &x, y: &y, rho: &rho }, public, &setup, &aux);
        let v = value(&proof);
        let all = field(&v, "elements").unwrap().as_array().unwrap().iter().all(|e| field(e, "z").unwrap().deserialized::<PublicSigned<U>>().unwrap().is_in_exponent_range(T::L_BOUND + T::EPS_BOUND));
        if !all { out += 1 }
        expect(proof.verify(public, &setup, &aux) == all, &std::format!("all responses in range: {all}"), &mut bad);
    } }
    expect(out > 0, "a response is out of range sometimes", &mut bad);
    bad
}
'''),
dict(id="z03-dec-setup", property="Z03",
 needs="presenting a decryption proof made for one verifier's commitment parameters to another verifier",
 breaks="the challenge of the decryption proof does not depend on the verifier's commitment parameters any more",
 count=2,
 edits=[("src/zk/dec.rs", "            .chain(&public.cap_g)\n            .chain(&setup.to_wire())\n            .chain(aux)\n", "            .chain(&public.cap_g)\n            .chain(aux)\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let pk = sk.public_key();
    let setups = [RPParams::<Q>::random(&mut rng), RPParams::<Q>::random(&mut rng)];
    let aux: &[u8] = b"aux";
    let (x, y) = (int(2_000_000_000), int(31337));
    let rho = Randomizer::random(&mut rng, pk);
    let cap_k = Ciphertext::new_with_randomizer(pk, &int(99), &Randomizer::random(&mut rng, pk));
    let cap_d = Ciphertext::new_with_randomizer(pk, &y, &rho) + &cap_k * &-&x;
    let cap_x: Point<T> = secret_scalar_from_signed::<T>(&x).mul_by_generator();
    let cap_g = Scalar::<T>::from(5).mul_by_generator();
    let cap_s = cap_g * secret_scalar_from_signed::<T>(&y);
    let public = DecPublicInputs::<T> { pk0: pk, cap_k: &cap_k, cap_x: &cap_x, cap_d: &cap_d, cap_s: &cap_s, cap_g: &cap_g, num_parties: 2 };
    for i in 0..2 {
        let proof = DecProof::<T>::new(&mut rng, DecSecretInputs { x: &x, y: &y, rho: &rho }, public, &setups[i], &aux);
        for j in 0..2 { expect(proof.verify(public, &setups[j], &aux) == (i == j), &std::format!("made for {i}, verified by {j}"), &mut bad); }
    }
    bad
}
'''),
dict(id="z03-sch-public", property="Z03",
 needs="a public key chosen after the challenge is known",
 breaks="the Schnorr challenge depends on whether there is a public key, but not on its value, so a proof can be made for a key with unknown secret",
 edits=[("src/zk/sch.rs", "            .chain(public)\n", "            .chain(&(*public != Point::identity()))\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let aux: &[u8] = b"aux";
    let secret = SchSecret::<T>::random(&mut rng);
    let commitment = SchCommitment::new(&secret);
    let cap_a: Point<T> = uncbor(&cbor(&commitment)).unwrap();
    let key = Secret::init_with(|| Scalar::<T>::random(&mut Det(9)));
    let proof = SchProof::new(&secret, &key, &commitment, &key.mul_by_generator(), &aux);
    expect(proof.verify(&commitment, &key.mul_by_generator(), &aux), "the honest proof is accepted", &mut bad);
    let v = value(&proof);
    let e: Scalar<T> = field(&v, "challenge").unwrap().deserialized().unwrap();
    // any response s, and the key that makes the equation hold with the old challenge
    for s in [5u64, 6] {
        let s = Scalar::<T>::from(s);
        let forged_key = (s.mul_by_generator() + cap_a * (-Scalar::<T>::ONE)) * e.invert().unwrap();
        let mut f = v.clone();
        for (k, x) in f.as_map_mut().unwrap() { if k.as_text() == Some("proof") { *x = value(&s); } }
        let forged: SchProof<T> = f.deserialized().unwrap();
        expect(!forged.verify(&commitment, &forged_key, &aux), "a proof for a key picked afterwards is refused", &mut bad);
    }
    bad
}
'''),
dict(id="z03-mod-aux", property="Z03",
 needs="replaying a modulus proof in another session or for another prover",
 breaks="the challenge of the modulus proof does not depend on the context any more",
 edits=[("src/zk/mod_.rs", "            .chain(pk.as_wire())\n            .chain(commitment)\n            .chain(aux)\n            .finalize_to_reader();\n        let ys", "            .chain(pk.as_wire())\n            .chain(commitment)\n            .finalize_to_reader();\n        let _ = aux;\n        let ys")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let contexts: [&[u8]; 3] = [b"session 1", b"session 2", b""];
    for a in contexts {
        let proof = ModProof::<T>::new(&mut rng, &sk, &a);
        for b in contexts { expect(proof.verify(sk.public_key(), &b) == (a == b), "context", &mut bad); }
    }
    bad
}
'''),
dict(id="z01-dec-odd-parties", property="Z01",
 needs="a decryption proof with a number of parties that is not a power of two",
 breaks="the verifier uses the rounded down logarithm of the number of parties in its range check, the prover the rounded up one, so honest proofs are refused",
 edits=[("src/zk/dec.rs", "            let ceil_log2_num_parties = (public.num_parties - 1).ilog2() + 1;\n            if !element", "            let ceil_log2_num_parties = public.num_parties.ilog2();\n            if !element")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let pk = sk.public_key();
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let (x, y) = (int(2_000_000_000), int(31337));
    let rho = Randomizer::random(&mut rng, pk);
    let cap_k = Ciphertext::new_with_randomizer(pk, &int(99), &Randomizer::random(&mut rng, pk));
    let cap_d = Ciphertext::new_with_randomizer(pk, &y, &rho) + &cap_k * &-&x;
    let cap_x: Point<T> = secret_scalar_from_signed::<T>(&x).mul_by_generator();
    let cap_g = Scalar::<T>::from(5).mul_by_generator();
    let cap_s = cap_g * secret_scalar_from_signed::<T>(&y);
    for num_parties in 2..7 {
        let public = DecPublicInputs::<T> { pk0: pk, cap_k: &cap_k, cap_x: &cap_x, cap_d: &cap_d, cap_s: &cap_s, cap_g: &cap_g, num_parties };
        let proof = DecProof::<T>::new(&mut rng, DecSecretInputs { x: &x, y: &y, rho: &rho }, public, &setup, &aux);
        expect(proof.verify(public, &setup, &aux), &std::format!("honest proof with {num_parties} parties"), &mut bad);
    }
    bad
}
'''),
dict(id="z01-aff-g-boundary", property="Z01",
 needs="a witness y at the upper end of its interval in the affine operation proof",
 breaks="the prover checks the range of -y in place of y; the interval is not symmetric, so it panics for the largest permitted y",
 edits=[("src/zk/aff_g.rs", "        secret.x.assert_exponent_range(P::L_BOUND);\n        secret.y.assert_exponent_range(P::LP_BOUND);\n", "        secret.x.assert_exponent_range(P::L_BOUND);\n        (-secret.y).assert_exponent_range(P::LP_BOUND);\n")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    std::panic::set_hook(std::boxed::Box::new(|_| {}));
    let mut rng = Det(21);
    let sk0 = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let sk1 = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let (pk0, pk1) = (sk0.public_key(), sk1.public_key());
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let end = U::ONE << (T::LP_BOUND - 1);
    for (yv, what) in [(end, "the upper end"), (end.wrapping_sub(&U::ONE).wrapping_neg(), "the lower end"), (U::ZERO, "zero")] {
        let x = int(5000);
        let y: SecretSigned<U> = Option::from(SecretSigned::new_from_unsigned(Secret::init_with(|| yv), T::LP_BOUND)).unwrap();
        let (rho, rho_y) = (Randomizer::random(&mut rng, pk0), Randomizer::random(&mut rng, pk1));
        let cap_c = Ciphertext::new_with_randomizer(pk0, &int(99), &Randomizer::random(&mut rng, pk0));
        let cap_d = &cap_c * &x + Ciphertext::new_with_randomizer(pk0, &-&y, &rho);
        let cap_y = Ciphertext::new_with_randomizer(pk1, &y, &rho_y);
        let cap_x: Point<T> = secret_scalar_from_signed::<T>(&x).mul_by_generator();
        let public = AffGPublicInputs::<T> { pk0, pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| AffGProof::<T>::new(&mut Det(4), AffGSecretInputs { x: &x, y: &y, rho: &rho, rho_y: &rho_y }, public, &setup, &aux).verify(public, &setup, &aux)));
        expect(matches!(ok, Ok(true)), &std::format!("honest proof with y at {what}"), &mut bad);
    }
    bad
}
'''),
dict(id="z04-dec-surplus", property="Z04",
 needs="a decryption proof with more commitments than repetitions",
 breaks="surplus commitments are accepted (the check only refuses missing ones)",
 edits=[("src/zk/dec.rs", "        if e.bits().len() != self.commitments.len() || e.bits().len() != self.elements.len() {", "        if e.bits().len() > self.commitments.len() || e.bits().len() > self.elements.len() {")],
 demo=KEYS + r'''
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(21);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let pk = sk.public_key();
    let setup = RPParams::<Q>::random(&mut rng);
    let aux: &[u8] = b"aux";
    let (x, y) = (int(2_000_000_000), int(31337));
    let rho = Randomizer::random(&mut rng, pk);
    let cap_k = Ciphertext::new_with_randomizer(pk, &int(99), &Randomizer::random(&mut rng, pk));
    let cap_d = Ciphertext::new_with_randomizer(pk, &y, &rho) + &cap_k * &-&x;
    let cap_x: Point<T> = secret_scalar_from_signed::<T>(&x).mul_by_generator();
    let cap_g = Scalar::<T>::from(5).mul_by_generator();
    let cap_s = cap_g * secret_scalar_from_signed::<T>(&y);
    let public = DecPublicInputs::<T> { pk0: pk, cap_k: &cap_k, cap_x: &cap_x, cap_d: &cap_d, cap_s: &cap_s, cap_g: &cap_g, num_parties: 2 };
    let proof = DecProof::<T>::new(&mut rng, DecSecretInputs { x: &x, y: &y, rho: &rho }, public, &setup, &aux);
    let v = value(&proof);
    for more in 0..3 {
        let mut f = v.clone();
        for (k, x) in f.as_map_mut().unwrap() { if k.as_text() == Some("elements") { let a = x.as_array_mut().unwrap(); for _ in 0..more { let l = a[0].clone(); a.push(l); } } }
        let forged: DecProof<T> = f.deserialized().unwrap();
        expect(forged.verify(public, &setup, &aux) == (more == 0), &std::format!("{more} surplus elements"), &mut bad);
    }
    bad
}
'''),
]
