bugs = [
dict(id="c10-signed-bound", property="C10",
 needs="an encoding of a signed integer that declares a bound as large as the integer type",
 breaks="such encodings are accepted and give values whose sign is lost (positive numbers become negative ones)",
 edits=[("src/uint/public_signed.rs", "        if bound >= T::BITS || abs_value.bits_vartime() > bound {\n            return None;\n        }\n\n        let value", "        if bound > T::BITS || abs_value.bits_vartime() > bound {\n            return None;\n        }\n\n        let value")],
 demo=r'''
use crate::uint::PublicSigned;
use crypto_bigint::U128;
pub fn main() -> i32 {
    let mut bad = 0;
    struct B(Vec<u8>);
    impl serde::Serialize for B { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_bytes(&self.0) } }
    #[derive(serde::Serialize)]
    struct Enc { bound: u32, is_negative: bool, abs_bytes: B }
    for (bound, top, legal) in [(127u32, 0x7fu8, true), (128, 0x80, false), (128, 0x7f, false), (129, 0x7f, false), (127, 0x80, false)] {
        let mut bytes = std::vec![0x11u8; 16];
        bytes[0] = top;
        let r = uncbor::<PublicSigned<U128>>(&cbor(&Enc { bound, is_negative: false, abs_bytes: B(bytes) }));
        expect(r.is_ok() == legal, &std::format!("bound {bound}, top byte {top:#x}"), &mut bad);
        if let Ok(x) = r { expect(!x.is_negative(), "a value encoded as positive is positive", &mut bad); }
    }
    bad
}
'''),
dict(id="c05-scaled-shift", property="C05",
 needs="drawing the smallest value of a scaled interval",
 breaks="the scaled sampling is off by one: it returns values below the documented interval and never the largest one",
 edits=[("src/uint/secret_signed.rs", "            .expect(\"`2^exp` fits into `T`, so the result fits into `T::Wide::Wide`\")\n            .checked_sub(&XW::one())\n            .expect(\"does not overflow because of the assertions above\");\n", "            .expect(\"`2^exp` fits into `T`, so the result fits into `T::Wide::Wide`\");\n")],
 demo=r'''
use crate::uint::SecretSigned;
use crypto_bigint::{U128, U256, U512};
struct Zeros(u8);
impl RngCore for Zeros {
    fn next_u32(&mut self) -> u32 { u32::from_le_bytes([self.0; 4]) }
    fn next_u64(&mut self) -> u64 { u64::from_le_bytes([self.0; 8]) }
    fn fill_bytes(&mut self, d: &mut [u8]) { d.fill(self.0) }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { d.fill(self.0); Ok(()) }
}
impl CryptoRng for Zeros {}
pub fn main() -> i32 {
    let mut bad = 0;
    for exp in [1u32, 2, 5, 60] { for scale in [1u64, 2, 64, 1 << 40] {
        // all zeros draw the smallest value, all ones the largest one (for a power of two)
        let half = U512::from(scale) << (exp - 1);
        let lo: SecretSigned<U512> = SecretSigned::<U128>::random_in_exponent_range_scaled_wide(&mut Zeros(0), exp, &U256::from(scale));
        let hi: SecretSigned<U512> = SecretSigned::<U128>::random_in_exponent_range_scaled_wide(&mut Zeros(0xff), exp, &U256::from(scale));
        expect(lo.to_public().value() == &half.wrapping_sub(&U512::ONE).wrapping_neg(), &std::format!("smallest value for {exp} {scale}"), &mut bad);
        expect(hi.to_public().value() == &half, &std::format!("largest value for {exp} {scale}"), &mut bad);
    } }
    bad
}
'''),
dict(id="c09-params-bits", property="C09",
 needs="two parameter sets that differ only in the slackness bound",
 breaks="the slackness bound is left out of the hash of the scheme parameters (the masking bound is hashed twice)",
 edits=[("src/params/traits.rs", "        .chain_bytes(&P::EPS_BOUND.to_be_bytes())\n", "        .chain_bytes(&P::LP_BOUND.to_be_bytes())\n")],
 demo=r'''
use crate::{dev::{PaillierTest, TestParams}, params::{chain_scheme_params, SchemeParams}, tools::hashing::Hasher};
use crypto_bigint::{nlimbs, Uint};
macro_rules! params { ($name:ident, $eps:expr) => {
    #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
    struct $name;
    impl SchemeParams for $name {
        type Curve = <TestParams as SchemeParams>::Curve;
        type Digest = sha3::Shake256;
        const SECURITY_BITS: usize = 16;
        const EPS_BOUND: u32 = $eps;
        type Paillier = PaillierTest;
        type ExtraWideUint = Uint<{ nlimbs!(128 * 5) }>;
    }
} }
params!(A, 64);
params!(B, 65);
params!(C, 63);
pub fn main() -> i32 {
    let mut bad = 0;
    fn h<P: SchemeParams>() -> std::string::String { std::format!("{:?}", chain_scheme_params::<P, _>(Hasher::<sha3::Shake256>::new_with_dst(b"x")).finalize(128)) }
    expect(h::<A>() == h::<A>(), "the hash is reproducible", &mut bad);
    expect(h::<A>() != h::<B>(), "slackness 64 and 65 differ", &mut bad);
    expect(h::<A>() != h::<C>(), "slackness 64 and 63 differ", &mut bad);
    bad
}
'''),
]
