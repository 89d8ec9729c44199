bugs = [
dict(id="c05-range-low-end", property="C05",
 needs="a public value that is exactly -2^(exp-1), the excluded end of the half-open interval",
 breaks="the public exponent range check accepts -2^(exp-1), which is outside of the documented interval, and disagrees with the secret version",
 edits=[("src/uint/public_signed.rs", "        let is_high_end = (abs == T::one() << (exp - 1)) && !self.is_negative();\n", "        let is_high_end = abs == T::one() << (exp - 1);\n")],
 demo=r'''
use crate::uint::PublicSigned;
use crypto_bigint::U256;
pub fn main() -> i32 {
    let mut bad = 0;
    for exp in [1u32, 2, 17, 64, 100, 200] {
        let edge = U256::ONE << (exp - 1);
        let high = PublicSigned::<U256>::new_from_unsigned(edge, 250).unwrap();
        let low = PublicSigned::<U256>::new_from_unsigned(edge.wrapping_neg(), 250).unwrap();
        expect(high.is_in_exponent_range(exp), &std::format!("2^{} is inside of the range {exp}", exp - 1), &mut bad);
        expect(!low.is_in_exponent_range(exp), &std::format!("-2^{} is outside of the range {exp}", exp - 1), &mut bad);
    }
    bad
}
'''),
dict(id="c04-mul-bound", property="C04",
 needs="a product of a secret and a public value whose bounds add up to exactly the width of the integer",
 breaks="the checked multiplication succeeds with a bound as large as the integer itself, so that the product can wrap around into the sign bit",
 edits=[("src/uint/secret_signed.rs", "        let bound = self.bound + rhs.bound();\n        let in_range = bound.ct_lt(&T::BITS);\n", "        let bound = self.bound + rhs.bound();\n        let in_range = !bound.ct_gt(&T::BITS);\n"),
        ("src/uint/secret_signed.rs", "    subtle::{Choice, ConditionallySelectable, ConstantTimeLess, CtOption},", "    subtle::{Choice, ConditionallySelectable, ConstantTimeGreater, ConstantTimeLess, CtOption},")],
 demo=r'''
use crate::{tools::Secret, uint::{PublicSigned, SecretSigned}};
use crypto_bigint::{CheckedMul, U128};
pub fn main() -> i32 {
    let mut bad = 0;
    for (a, b) in [(64u32, 64u32), (100, 28), (1, 127), (63, 64), (60, 60)] {
        let x = SecretSigned::<U128>::new_positive(Secret::init_with(|| (U128::ONE << a).wrapping_sub(&U128::ONE)), a).unwrap();
        let y = PublicSigned::<U128>::new_positive((U128::ONE << b).wrapping_sub(&U128::ONE), b).unwrap();
        let r: Option<SecretSigned<U128>> = x.checked_mul(&y).into();
        expect(r.is_some() == (a + b < 128), &std::format!("product of bounds {a} and {b}"), &mut bad);
        if let Some(r) = r { expect(!bool::from(r.is_negative()), "the product of positive numbers is positive", &mut bad); }
    }
    bad
}
'''),
dict(id="c04-wide-negative", property="C04",
 needs="widening or wide-multiplying a negative public value by a negative public value (both operands negative)",
 breaks="the wide product of a secret by a public number has the sign of the public one only, so the product of a negative secret is wrong",
 edits=[("src/uint/secret_signed.rs", "            self.is_negative() ^ Choice::from(rhs.is_negative() as u8),", "            self.is_negative() | Choice::from(rhs.is_negative() as u8),")],
 demo=r'''
use crate::{tools::Secret, uint::{PublicSigned, SecretSigned}};
use crypto_bigint::{U128, U256};
pub fn main() -> i32 {
    let mut bad = 0;
    let val = |v: i64| { let u = U128::from(v.unsigned_abs()); if v < 0 { u.wrapping_neg() } else { u } };
    for a in [-77i64, -1, 0, 1, 300] { for b in [-1000i64, -1, 0, 1, 13] {
        let x: SecretSigned<U128> = Option::from(SecretSigned::new_from_unsigned(Secret::init_with(|| val(a)), 20)).unwrap();
        let y = PublicSigned::<U128>::new_from_unsigned(val(b), 20).unwrap();
        let r: SecretSigned<U256> = x.mul_wide_public(&y);
        let want = U256::from((a * b).unsigned_abs());
        let want = if a * b < 0 { want.wrapping_neg() } else { want };
        expect(r.to_public().value() == &want, &std::format!("{a} * {b}"), &mut bad);
    } }
    bad
}
'''),
dict(id="c05-xof-mask", property="C05",
 needs="reading an integer whose number of bits is not a multiple of eight from a hash",
 breaks="the mask keeps one bit too few, so the upper half of the interval is never sampled",
 edits=[("src/uint/traits.rs", "            (1 << (n_bits & 7)) - 1\n", "            u8::MAX >> 9u32.saturating_sub(n_bits & 7).min(7)\n")],
 demo=r'''
use crate::uint::{FromXofReader, PublicSigned};
use crypto_bigint::U128;
struct Ones;
impl digest::XofReader for Ones { fn read(&mut self, b: &mut [u8]) { b.fill(0xff) } }
pub fn main() -> i32 {
    let mut bad = 0;
    for n in 1..=100u32 {
        let x = U128::from_xof_reader(&mut Ones, n);
        expect(x == (U128::ONE << n).wrapping_sub(&U128::ONE), &std::format!("all ones make the largest number of {n} bits"), &mut bad);
        let y = PublicSigned::<U128>::from_xof_reader_in_exponent_range(&mut Ones, n);
        expect(y.value() == &(U128::ONE << (n - 1)), &std::format!("all ones make the largest number in the range {n}"), &mut bad);
    }
    bad
}
'''),
dict(id="c01-half-modulus", property="C01",
 needs="decrypting exactly the largest plaintext, (N - 1) / 2",
 breaks="the largest plaintext of the balanced range comes back as a negative number",
 edits=[("src/uint/secret_signed.rs", "        let is_negative = positive_value.expose_secret().ct_gt(&half_modulus);\n", "        let is_negative = !positive_value.expose_secret().ct_lt(&half_modulus);\n")],
 demo=r'''
use crate::{dev::TestParams, paillier::*, params::SchemeParams, tools::Secret, uint::SecretSigned};
type Q = <TestParams as SchemeParams>::Paillier;
type U = <Q as PaillierParams>::Uint;
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(7);
    let sk = SecretKeyPaillierWire::<Q>::random(&mut rng).into_precomputed();
    let pk = sk.public_key();
    let half: U = *pk.modulus() >> 1;
    for (i, v) in [half, half.wrapping_neg(), half.wrapping_sub(&U::ONE), U::ZERO].into_iter().enumerate() {
        let m: SecretSigned<_> = Option::from(SecretSigned::new_from_unsigned(Secret::init_with(|| v), 255)).unwrap();
        let c = Ciphertext::new_with_randomizer(pk, &m, &Randomizer::random(&mut rng, pk));
        expect(c.decrypt(&sk).to_public().value() == m.to_public().value(), &std::format!("plaintext {i} survives"), &mut bad);
    }
    bad
}
'''),
dict(id="c03-neg-pow", property="C03",
 needs="a negative public exponent whose declared bound is tight (its absolute value has exactly `bound` bits)",
 breaks="raising to a negative public power ignores the top bit of the exponent, so commitments with negative public values are wrong",
 edits=[("src/uint/traits.rs", "        let abs_result = self.pow_bounded_exp(&abs_exp, exp.bound());\n        if exp.is_negative() {\n            abs_result.invert().expect(\"`self` is assumed invertible\")\n        } else {\n            abs_result\n        }", "        if exp.is_negative() {\n            // the range of negative numbers is shorter\n            let abs_result = self.pow_bounded_exp(&abs_exp, exp.bound().saturating_sub(1));\n            abs_result.invert().expect(\"`self` is assumed invertible\")\n        } else {\n            self.pow_bounded_exp(&abs_exp, exp.bound())\n        }")],
 demo=r'''
use crate::{dev::TestParams, paillier::*, params::SchemeParams, uint::PublicSigned};
type Q = <TestParams as SchemeParams>::Paillier;
type U = <Q as PaillierParams>::Uint;
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(3);
    let rp = RPParams::<Q>::random(&mut rng);
    let r0 = PublicSigned::<U>::zero();
    for v in [1u64, 2, 3, 4, 5, 1000] {
        let b = 64 - v.leading_zeros();
        let pos = PublicSigned::<U>::new_positive(U::from(v), b).unwrap();
        let neg = PublicSigned::<U>::new_from_unsigned(U::from(v).wrapping_neg(), b).unwrap();
        // s^v s^(-v) == 1
        expect(&rp.commit(&pos, &r0) * &rp.commit(&neg, &r0) == rp.commit(&r0, &r0), &std::format!("s^{v} * s^-{v} is one"), &mut bad);
    }
    bad
}
'''),
dict(id="c06-x-coordinate", property="C06",
 needs="a point whose x coordinate is not smaller than the group order",
 breaks="the x coordinate of such a point becomes zero instead of being reduced modulo the group order",
 edits=[("src/curve/arithmetic.rs", "        Scalar(<BackendScalar<P> as Reduce<<P::Curve as Curve>::Uint>>::reduce_bytes(\n            &bytes,\n        ))\n", "        Scalar::try_from_be_bytes(&bytes).unwrap_or(Scalar::ZERO)\n")],
 demo=r'''
use crate::{curve::{Point, Scalar}, dev::TestParams};
use elliptic_curve::{sec1::ToEncodedPoint, group::Curve as _};
pub fn main() -> i32 {
    let mut bad = 0;
    // the field of the test curve is larger than its group for about one point of 2^16; walk along the multiples of g
    let order = { let b = (-Scalar::<TestParams>::ONE).to_be_bytes(); let mut v = 0u64; for x in b.iter() { v = v * 256 + *x as u64; } v + 1 };
    let g = Point::<TestParams>::generator();
    let mut p = g;
    let mut seen = 0;
    for k in 1..3_000_000u64 {
        let e = p.to_backend().to_affine().to_encoded_point(false);
        let x = e.x().unwrap().iter().fold(0u64, |a, b| a * 256 + *b as u64);
        if x >= order {
            seen += 1;
            expect(p.x_coordinate() == Scalar::from(x - order), &std::format!("x coordinate of {k}g"), &mut bad);
            if seen == 3 { break; }
        }
        p = p + g;
    }
    expect(seen > 0, "a point with an x coordinate above the order exists", &mut bad);
    bad
}
'''),
dict(id="c07-recovery-before-normalising", property="C07",
 needs="a signature with a high s, so that it has to be normalised",
 breaks="the recovery id belongs to the signature before normalisation, so it recovers a different key",
 edits=[("src/curve/ecdsa.rs", "        let signature = signature.normalize_s().unwrap_or(signature);\n\n", ""), ("src/curve/ecdsa.rs", "        .ok()?;\n\n        Some(Self { signature, recovery_id })\n    }\n\n    /// Unwraps", "        .ok()?;\n        let signature = signature.normalize_s().unwrap_or(signature);\n\n        Some(Self { signature, recovery_id })\n    }\n\n    /// Unwraps")],
 demo=r'''
use crate::{curve::{Point, RecoverableSignature, Scalar}, k256::ProductionParams112 as P};
use ecdsa::{signature::hazmat::PrehashVerifier, VerifyingKey};
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(11);
    for i in 0..20 {
        let d = Scalar::<P>::random_nonzero(&mut rng);
        let k = Scalar::<P>::random_nonzero(&mut rng);
        let m = Scalar::<P>::random(&mut rng);
        let key: Point<P> = d.mul_by_generator();
        let r = k.mul_by_generator().x_coordinate();
        let s = (m + r * d) * k.invert().unwrap();
        let Some(sig) = RecoverableSignature::from_scalars(r, s, key, m) else { expect(false, "a signature is made", &mut bad); continue };
        let (sig, rid) = sig.to_backend();
        let vk = key.to_verifying_key().unwrap();
        expect(sig.normalize_s().is_none(), "s is low", &mut bad);
        expect(vk.verify_prehash(&m.to_be_bytes(), &sig).is_ok(), "verifies", &mut bad);
        expect(VerifyingKey::recover_from_prehash(&m.to_be_bytes(), &sig, rid).ok() == Some(vk), &std::format!("key is recovered ({i})"), &mut bad);
    }
    bad
}
'''),
dict(id="c08-repeated-part", property="C08",
 needs="splitting a secret into three or more parts",
 breaks="the random parts are all the same value, so two of the parts determine the secret",
 edits=[("src/curve/arithmetic.rs", "    let mut parts = (0..(num - 1))\n        .map(|_| Secret::init_with(|| Scalar::random_nonzero(rng)))\n        .collect::<Vec<_>>();", "    let mut parts = vec![Secret::init_with(|| Scalar::random_nonzero(rng)); num - 1];")],
 demo=r'''
use crate::{curve::{secret_split, Scalar}, dev::TestParams, tools::Secret};
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(5);
    for n in 1..8 {
        let x = Scalar::<TestParams>::random(&mut rng);
        let parts = secret_split(&mut rng, Secret::init_with(|| x), n);
        let sum: Secret<Scalar<TestParams>> = parts.iter().cloned().sum();
        expect(*sum.expose_secret() == x && parts.len() == n, "the parts add up", &mut bad);
        for i in 0..n { for j in 0..i { expect(parts[i].expose_secret() != parts[j].expose_secret(), &std::format!("parts {i} and {j} of {n} differ"), &mut bad); } }
    }
    bad
}
'''),
dict(id="c09-length-byte", property="C09",
 needs="hashed byte strings whose lengths differ by a multiple of 256",
 breaks="only the last byte of the length is hashed, so strings of 256 and more bytes can be re-split without changing the hash",
 edits=[("src/tools/hashing.rs", "        let len = (bytes.as_ref().len() as u64).to_be_bytes();\n        self.chain_raw_bytes(&len).chain_raw_bytes(bytes.as_ref())", "        let len = bytes.as_ref().len() as u8;\n        self.chain_raw_bytes(&[len]).chain_raw_bytes(bytes.as_ref())")],
 demo=r'''
use crate::tools::hashing::{Chain, Hasher};
use sha3::Shake256;
pub fn main() -> i32 {
    let mut bad = 0;
    // length byte, data | length byte, data: a zero length byte ends the first of the two strings early
    for n in [256usize, 512] {
        let long = vec![0u8; n];
        let many = vec![0u8; n - 256];
        let h1 = Hasher::<Shake256>::new_with_dst(b"x").chain_bytes(&long).finalize(64);
        // the same number of zero bytes, split differently
        let mut h2 = Hasher::<Shake256>::new_with_dst(b"x").chain_bytes(&many);
        for _ in 0..256 { h2 = h2.chain_bytes(&b""[..]); }
        expect(h1 != h2.finalize(64), &std::format!("a string of {n} bytes and {} empty strings differ", 256), &mut bad);
    }
    bad
}
'''),
dict(id="c10-bitvec-length", property="C10",
 needs="a stored bit string with fewer bytes than its declared number of bits needs, by less than a byte",
 breaks="such an encoding is not refused; decoding it reads past the end of the bytes and panics",
 edits=[("src/tools/bitvec.rs", "        if source.bits.div_ceil(8) as usize > source.byte_vec.len() {", "        if (source.bits / 8) as usize > source.byte_vec.len() {")],
 demo=r'''
use crate::tools::bitvec::BitVec;
pub fn main() -> i32 {
    let mut bad = 0;
    std::panic::set_hook(std::boxed::Box::new(|_| {}));
    for (bits, bytes, legal) in [(9u32, 1usize, false), (1, 0, false), (15, 1, false), (16, 2, true), (16, 1, false), (9, 2, true)] {
        #[derive(serde::Serialize)]
        struct Enc { bits: u32, byte_vec: B }
        struct B(usize);
        impl serde::Serialize for B { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&std::vec![0x55u8; self.0]) } }
        let enc = cbor(&Enc { bits, byte_vec: B(bytes) });
        let r = std::panic::catch_unwind(|| uncbor::<BitVec>(&enc).is_ok());
        match r {
            Err(_) => expect(false, &std::format!("decoding {bits} bits in {bytes} bytes does not panic"), &mut bad),
            Ok(ok) => expect(ok == legal, &std::format!("{bits} bits in {bytes} bytes"), &mut bad),
        }
    }
    bad
}
'''),
dict(id="c11-ref-mul", property="C11",
 needs="multiplying a borrowed wrapped secret by a borrowed bare value",
 breaks="this one combination of operand kinds multiplies by the bare value twice",
 edits=[("src/tools/secret.rs", "impl<'a, T> Mul<&'a T> for &Secret<T>\nwhere\n    T: Zeroize + Clone + MulAssign<&'a T>,\n{\n    type Output = Secret<T>;\n    fn mul(self, rhs: &'a T) -> Self::Output {\n        self.clone() * rhs\n    }\n}", "impl<'a, T> Mul<&'a T> for &Secret<T>\nwhere\n    T: Zeroize + Clone + MulAssign<&'a T>,\n{\n    type Output = Secret<T>;\n    fn mul(self, rhs: &'a T) -> Self::Output {\n        let result = self.clone() * rhs;\n        result * rhs\n    }\n}")],
 demo=r'''
use crate::{curve::Scalar, dev::TestParams, tools::Secret};
pub fn main() -> i32 {
    let mut bad = 0;
    let mut rng = Det(2);
    for _ in 0..4 {
        let (a, b) = (Scalar::<TestParams>::random(&mut rng), Scalar::<TestParams>::random(&mut rng));
        let sa = Secret::init_with(|| a);
        expect(*(&sa * &b).expose_secret() == a * b, "&Secret * &T", &mut bad);
        expect(*(&sa * b).expose_secret() == a * b, "&Secret * T", &mut bad);
        expect(*(sa.clone() * &b).expose_secret() == a * b, "Secret * &T", &mut bad);
        expect(*(sa * b).expose_secret() == a * b, "Secret * T", &mut bad);
    }
    bad
}
'''),
]
