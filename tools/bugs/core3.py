PARAMS = r'''
use crate::{dev::TestParams, paillier::PaillierParams, params::SchemeParams};
use crypto_bigint::{nlimbs, Uint};
#[allow(unused_macros)]
macro_rules! params { ($name:ident, $pai:ty, $extra:literal, $($c:tt)*) => {
    #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
    struct $name;
    impl SchemeParams for $name {
        type Curve = <TestParams as SchemeParams>::Curve;
        type Digest = sha3::Shake256;
        const SECURITY_BITS: usize = 16;
        type Paillier = $pai;
        type ExtraWideUint = Uint<$extra>;
        $($c)*
    }
} }
'''
TR = "src/params/traits.rs"
bugs = [
dict(id="c12-party-room", property="C12",
 needs="a parameter set with a large bound for masks, which leaves no room for the number of parties",
 breaks="the room for the number of parties is left out of the inequality between modulus and masks",
 edits=[(TR, "        && Self::Paillier::MODULUS_BITS >= Self::LP_BOUND + Self::EPS_BOUND + 1 + 20\n", "        && Self::Paillier::MODULUS_BITS > Self::LP_BOUND + Self::EPS_BOUND\n")],
 demo=PARAMS + r'''
params!(Fits, crate::dev::PaillierTest, 10, const LP_BOUND: u32 = 256 - 64 - 21;);
params!(Over, crate::dev::PaillierTest, 10, const LP_BOUND: u32 = 256 - 64 - 20;);
params!(Way, crate::dev::PaillierTest, 10, const LP_BOUND: u32 = 256 - 64;);
pub fn main() -> i32 {
    let mut bad = 0;
    expect(Fits::SELF_CONSISTENT, "the largest bound for masks is fine", &mut bad);
    expect(!Over::SELF_CONSISTENT, "one bit more is not", &mut bad);
    expect(!Way::SELF_CONSISTENT, "twenty-one bits more are not", &mut bad);
    bad
}
'''),
dict(id="c12-sign-bit", property="C12",
 needs="a parameter set whose widest integers have exactly as many bits as the largest value, without one for the sign",
 breaks="the width of the widest integers may be that of the largest absolute value",
 edits=[(TR, "        && Self::ExtraWideUint::BITS > Self::Paillier::MODULUS_BITS * 2 + Self::L_BOUND + Self::EPS_BOUND;\n", "        && Self::ExtraWideUint::BITS >= Self::Paillier::MODULUS_BITS * 2 + Self::L_BOUND + Self::EPS_BOUND;\n")],
 demo=PARAMS + r'''
// 2 L + EPS = 128, so that L + EPS = 64 needs L = 64 and EPS = 0 (other inequalities fail); L + EPS + 512 = 608 = 9.5 limbs for the
// test parameters, so a curve of 32 bits with primes of 160 bits is taken: L = 32, EPS = 96, moduli of 320 bits, 640 + 128 = 768 = 12 limbs
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
struct P160;
impl PaillierParams for P160 { const PRIME_BITS: u32 = 160; type HalfUint = Uint<{ nlimbs!(160) }>; type Uint = Uint<{ nlimbs!(320) }>; type WideUint = Uint<{ nlimbs!(640) }>; }
params!(Exact, P160, 12,);
params!(More, P160, 13,);
pub fn main() -> i32 {
    let mut bad = 0;
    expect(P160::SELF_CONSISTENT, "the Paillier parameters are fine", &mut bad);
    expect(More::SELF_CONSISTENT, "a limb more than necessary is fine", &mut bad);
    expect(!Exact::SELF_CONSISTENT, "no bit for the sign", &mut bad);
    bad
}
'''),
dict(id="c12-slackness", property="C12",
 needs="a parameter set with a slackness below the sum of the range and the security parameter",
 breaks="the slackness only has to exceed the range of the secrets, so that masks may be too short to hide challenge times secret",
 edits=[(TR, "        && Self::EPS_BOUND >= Self::L_BOUND + Self::SECURITY_PARAMETER as u32\n", "        && Self::EPS_BOUND >= Self::L_BOUND\n")],
 demo=PARAMS + r'''
params!(Fine, crate::dev::PaillierTest, 10, const L_BOUND: u32 = 32; const EPS_BOUND: u32 = 64;);
params!(Short, crate::dev::PaillierTest, 10, const L_BOUND: u32 = 33; const EPS_BOUND: u32 = 62; const LP_BOUND: u32 = 170;);
params!(Shorter, crate::dev::PaillierTest, 10, const L_BOUND: u32 = 36; const EPS_BOUND: u32 = 56; const LP_BOUND: u32 = 170;);
pub fn main() -> i32 {
    let mut bad = 0;
    expect(Fine::SELF_CONSISTENT, "the test parameters are fine", &mut bad);
    expect(!Short::SELF_CONSISTENT, "slackness three bits short", &mut bad);
    expect(!Shorter::SELF_CONSISTENT, "slackness twelve bits short", &mut bad);
    bad
}
'''),
dict(id="c12-level-128", property="C12",
 needs="the production parameters of the higher level",
 breaks="the parameters of the higher level inherit the number of security bits of the lower one: shorter hashes, fewer repetitions of proofs",
 edits=[("src/params/k256.rs", "    const SECURITY_BITS: usize = 128;\n", "    const SECURITY_BITS: usize = ProductionParams112::SECURITY_BITS;\n")],
 demo=r'''
use crate::{k256::{ProductionParams112, ProductionParams128}, params::SchemeParams, tools::hashing::{Chain, Hasher}};
pub fn main() -> i32 {
    let mut bad = 0;
    fn hash<P: SchemeParams>() -> usize { std::format!("{:?}", Hasher::<sha3::Shake256>::new_with_dst(b"x").chain_bytes(b"y").finalize(P::SECURITY_BITS)).len() }
    expect(ProductionParams112::SECURITY_BITS == 112, "112 bits", &mut bad);
    expect(ProductionParams128::SECURITY_BITS == 128, "128 bits", &mut bad);
    expect(hash::<ProductionParams112>() < hash::<ProductionParams128>(), "commitments of the higher level are longer", &mut bad);
    bad
}
'''),
]
