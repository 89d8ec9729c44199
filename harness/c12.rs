// C12: parameter sets are accepted exactly if they satisfy the scheme's inequalities, and those shipped do and work.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
use big::*; use util::*; use engine::*; use tree::*;
use std::sync::OnceLock;
use crypto_bigint::{Bounded, Uint};
use elliptic_curve::{bigint::Encoding, Curve, CurveArithmetic, PrimeField};
use crate::curve::{Point, Scalar};
use crate::dev::{PaillierTest, TestParams};
use crate::k256::{PaillierProduction112, PaillierProduction128, ProductionParams112, ProductionParams128};
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::zk::*;

// ---------------------------------------------------------------- sets of parameters by number

// Paillier: a prime size, a modulus size that differs by A-3, integers of HALF, UINT, WIDE limbs
const fn modulus(a: usize, prime: u32) -> u32 { 2 * prime + a as u32 - 3 }
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Pai<const PRIME: u32, const A: usize, const H: usize, const U: usize, const W: usize>;
macro_rules! pai { ($h:literal $u:literal $w:literal) => {
    impl<const PRIME: u32, const A: usize> PaillierParams for Pai<PRIME, A, $h, $u, $w> {
        const PRIME_BITS: u32 = PRIME; const MODULUS_BITS: u32 = modulus(A, PRIME);
        type HalfUint = Uint<$h>; type Uint = Uint<$u>; type WideUint = Uint<$w>;
    }
} }
pai!(1 2 4); pai!(2 4 8); pai!(4 8 16); pai!(3 5 10);
fn paillier_ok(prime: i64, modulus: i64, h: i64, u: i64, w: i64) -> bool { modulus == 2 * prime && 64 * h >= prime && 64 * u >= modulus && u >= h && 64 * w >= 2 * modulus && w >= u }
type Row = (String, bool, bool);
fn prow<P: PaillierParams>(out: &mut Vec<Row>, prime: u32, a: usize, h: i64, u: i64, w: i64) {
    out.push((format!("primes of {prime} bits, moduli of {}, integers of {h}, {u}, {w} limbs", modulus(a, prime)), P::SELF_CONSISTENT, paillier_ok(prime as i64, modulus(a, prime) as i64, h, u, w)))
}
macro_rules! prows { ($v:expr, $($p:literal)*) => { $( prows!(@ $v, $p, 0 1 2 3 4 5 6); )* }; (@ $v:expr, $p:literal, $($a:literal)*) => { $(
    prow::<Pai<$p, $a, 1, 2, 4>>($v, $p, $a, 1, 2, 4); prow::<Pai<$p, $a, 2, 4, 8>>($v, $p, $a, 2, 4, 8); prow::<Pai<$p, $a, 4, 8, 16>>($v, $p, $a, 4, 8, 16);
)* } }

/// The schemes: how far each of the parameters is from those of the base set.
/// kappa + A-2, L + B-2, EPS + C-2, LP + D-3, and the prime size of the Paillier set + E-2.
#[derive(Clone, Copy, Debug)]
pub struct Set { kappa: i64, l: i64, eps: i64, lp: i64, prime: i64, extra: i64 }
/// At base, each of the inequalities holds with the least possible slack; the last two sets have room in some of them.
const fn base(e: usize, bits: u32, prime: u32) -> Set {
    let (k, p) = (bits as i64, prime as i64);
    let (l, eps) = (k, p - 2 * k);
    // LP between 3 L + EPS and MODULUS - EPS - 21
    let lp = match e { 0 => 3 * l + eps, 1 => 2 * p - eps - 21, _ => p + l };
    Set { kappa: k, l, eps, lp, prime: p, extra: 0 }
}
const fn shifted(s: Set, k: usize) -> Set {
    // two changes by up to two each: K = 25 * which + 5 * first + second
    let (w, a, b) = (k / 25, (k / 5 % 5) as i64 - 2, (k % 5) as i64 - 2);
    let mut s = s;
    match w {
        0 => { s.kappa += a; s.l += b } 1 => { s.kappa += a; s.eps += b } 2 => { s.kappa += a; s.lp += b }
        3 => { s.l += a; s.eps += b } 4 => { s.l += a; s.lp += b } 5 => { s.eps += a; s.lp += b }
        6 => { s.l += a; s.eps -= 2 * a; s.lp += 3 * b } 7 => { s.eps += 32 * a; s.lp += 32 * b } 8 => { s.kappa += a; s.l += a; s.eps -= 2 * a; s.lp += b } _ => { s.l += 8 * a; s.eps -= 16 * a; s.lp += 8 * b }
    }
    s
}
macro_rules! scheme { ($n:ident, $curve:ty, $bits:literal, $($prime:literal: $h:literal $u:literal $w:literal),*) => {
    #[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
    pub struct $n<const E: usize, const PRIME: u32, const K: usize, const X: usize>;
    $( impl<const E: usize, const K: usize, const X: usize> SchemeParams for $n<E, $prime, K, X> where Uint<$w>: crate::uint::Extendable<Uint<X>>, Uint<X>: crypto_bigint::Integer + crate::uint::BoxedEncoding, <Uint<$u> as crypto_bigint::Integer>::Monty: crypto_bigint::PowBoundedExp<Uint<X>> {
        type Curve = $curve; type Digest = sha3::Shake256; type Paillier = Pai<$prime, 3, $h, $u, $w>; type ExtraWideUint = Uint<X>;
        const SECURITY_BITS: usize = 16; const SECURITY_PARAMETER: usize = shifted(base(E, $bits, $prime), K).kappa as usize;
        const L_BOUND: u32 = shifted(base(E, $bits, $prime), K).l as u32; const EPS_BOUND: u32 = shifted(base(E, $bits, $prime), K).eps as u32; const LP_BOUND: u32 = shifted(base(E, $bits, $prime), K).lp as u32;
    } )*
} }
scheme!(S16, tiny_curve::TinyCurve16, 16, 128: 2 4 8);
// (with primes of 160 bits, the largest of the integers has as many bits as 12 limbs, without its sign)
scheme!(S32, tiny_curve::TinyCurve32, 32, 128: 2 4 8, 160: 3 5 10);
fn scheme_ok(bits: i64, s: &Set, extra: i64) -> bool {
    bits == s.kappa && s.l >= s.kappa && s.eps >= s.l + s.kappa && s.lp >= 3 * s.l + s.eps && 2 * s.prime >= s.lp + s.eps + 21 && 2 * s.l + s.eps == s.prime && extra > 4 * s.prime + s.l + s.eps
}
fn srow<P: SchemeParams>(out: &mut Vec<Row>, bits: u32, e: usize, k: usize, x: i64) {
    let s = Set { extra: 64 * x, ..shifted(base(e, bits, <P::Paillier as PaillierParams>::PRIME_BITS), k) };
    let got = (P::SECURITY_PARAMETER as i64, P::L_BOUND as i64, P::EPS_BOUND as i64, P::LP_BOUND as i64);
    assert_eq!(got, (s.kappa, s.l, s.eps, s.lp));
    out.push((format!("{bits} bits, {s:?}"), P::SELF_CONSISTENT, scheme_ok(<P::Curve as CurveArithmetic>::Scalar::NUM_BITS as i64, &s, 64 * x)))
}
macro_rules! digits { ($m:ident $($a:tt)*) => { $m!($($a)* 0); $m!($($a)* 1); $m!($($a)* 2); $m!($($a)* 3); $m!($($a)* 4); $m!($($a)* 5); $m!($($a)* 6); $m!($($a)* 7); $m!($($a)* 8); $m!($($a)* 9); } }
macro_rules! one { ($v:ident $a:literal $b:literal $c:literal) => {
    if 100 * $a + 10 * $b + $c < 250 {
        srow::<S32<0, 128, { 100 * $a + 10 * $b + $c }, 10>>($v, 32, 0, 100 * $a + 10 * $b + $c, 10); srow::<S32<1, 128, { 100 * $a + 10 * $b + $c }, 10>>($v, 32, 1, 100 * $a + 10 * $b + $c, 10); srow::<S32<2, 128, { 100 * $a + 10 * $b + $c }, 10>>($v, 32, 2, 100 * $a + 10 * $b + $c, 10);
        srow::<S16<0, 128, { 100 * $a + 10 * $b + $c }, 10>>($v, 16, 0, 100 * $a + 10 * $b + $c, 10); srow::<S16<2, 128, { 100 * $a + 10 * $b + $c }, 10>>($v, 16, 2, 100 * $a + 10 * $b + $c, 10);
    }
} }
macro_rules! widths { ($v:ident $e:literal $k:literal) => { srow::<S32<$e, 160, $k, 11>>($v, 32, $e, $k, 11); srow::<S32<$e, 160, $k, 12>>($v, 32, $e, $k, 12); srow::<S32<$e, 160, $k, 13>>($v, 32, $e, $k, 13); } }
macro_rules! ten { ($v:ident $a:literal $b:literal) => { digits!(one $v $a $b); } }
macro_rules! hundred { ($v:ident $a:literal) => { digits!(ten $v $a); } }
fn rows() -> &'static Vec<Row> {
    static R: OnceLock<Vec<Row>> = OnceLock::new();
    R.get_or_init(|| {
        let mut out = vec![]; let v = &mut out;
        hundred!(v 0); hundred!(v 1); hundred!(v 2);
        srow::<S32<2, 128, 12, 9>>(v, 32, 2, 12, 9); srow::<S32<2, 128, 12, 10>>(v, 32, 2, 12, 10); srow::<S16<2, 128, 12, 9>>(v, 16, 2, 12, 9);
        widths!(v 0 0); widths!(v 0 12); widths!(v 1 12); widths!(v 2 12); widths!(v 0 86); widths!(v 0 87); widths!(v 0 88); widths!(v 0 167); widths!(v 0 162); widths!(v 0 172); widths!(v 0 157);
        out
    })
}
fn predicates(r: &mut Runner) {
    let mut p = vec![]; let v = &mut p;
    prows!(v, 31 32 33 62 63 64 65 66 126 127 128 129 130 254 255 256 257 258);
    r.explore("paillier-sets", &format!("{} sets of Paillier parameters (prime sizes around those of three sets of integers, moduli of two primes' size +-3)", p.len()), |c| {
        let (what, got, want) = c.pick(&p).clone(); c.label(|| what.clone()); c.state(&what); c.ops(1); c.trace();
        c.check(got == want, if want { "a sound set of Paillier parameters is refused" } else { "an unsound set of Paillier parameters is accepted" }, || what.clone());
    });
    let s = rows(); let ok = s.iter().filter(|x| x.2).count();
    r.explore("scheme-sets", &format!("{} sets of scheme parameters over two curves, {ok} of them sound: all pairs of changes by up to 2 (and of coupled changes) from sets that satisfy the inequalities barely", s.len()), |c| {
        let (what, got, want) = c.pick(s).clone(); c.label(|| what.clone()); c.state(&what); c.ops(1); c.trace();
        c.check(got == want, if want { "a sound parameter set is refused" } else { "an unsound parameter set is accepted" }, || what.clone());
    });
}

// ---------------------------------------------------------------- those shipped
struct Shipped { name: &'static str, security: usize, kappa: usize, l: u32, eps: u32, lp: u32, prime: u32, modulus: u32, widths: [u32; 4], consistent: bool, order: Nat }
fn shipped<P: SchemeParams>(name: &'static str) -> Shipped {
    Shipped {
        name, security: P::SECURITY_BITS, kappa: P::SECURITY_PARAMETER, l: P::L_BOUND, eps: P::EPS_BOUND, lp: P::LP_BOUND, prime: <P::Paillier as PaillierParams>::PRIME_BITS, modulus: <P::Paillier as PaillierParams>::MODULUS_BITS,
        widths: [<P::Paillier as PaillierParams>::HalfUint::BITS, <P::Paillier as PaillierParams>::Uint::BITS, <P::Paillier as PaillierParams>::WideUint::BITS, P::ExtraWideUint::BITS],
        consistent: P::SELF_CONSISTENT && <P::Paillier as PaillierParams>::SELF_CONSISTENT, order: Nat::from_be(P::Curve::ORDER.to_be_bytes().as_ref()),
    }
}
fn literals(r: &mut Runner) {
    let hexn = |s: &str| { let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); Nat::from_be(&b) };
    let secp = hexn("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    // name, security, kappa = l, eps, lp, prime: the table of the definition's appendix
    let want = [("112 bits", 112usize, 256u32, 512u32, 1280u32, 1024u32), ("128 bits", 128, 256, 1024, 1792, 1536)];
    let got = [shipped::<ProductionParams112>("112 bits"), shipped::<ProductionParams128>("128 bits"), shipped::<TestParams>("test")];
    r.explore("shipped", "the parameter sets that are shipped, against the table of the scheme's definition and its inequalities", |c| {
        let s = c.pick(&got); c.label(|| s.name.to_string()); c.state(&s.name); c.ops(1); c.trace();
        if let Some(w) = want.iter().find(|w| w.0 == s.name) {
            c.check((s.security, s.kappa as u32, s.l, s.eps, s.lp, s.prime) == (w.1, w.2, w.2, w.3, w.4, w.5), "a production set is not that of its security level", || format!("{}: security {}, kappa {}, L {}, EPS {}, LP {}, primes of {} bits", s.name, s.security, s.kappa, s.l, s.eps, s.lp, s.prime));
            c.check(s.order == secp, "a production set uses another group", || format!("{}: order {}", s.name, s.order));
        }
        let set = Set { kappa: s.kappa as i64, l: s.l as i64, eps: s.eps as i64, lp: s.lp as i64, prime: s.prime as i64, extra: s.widths[3] as i64 };
        let w = s.widths.map(|x| x as i64);
        c.check(scheme_ok(s.order.bits() as i64, &set, w[3]) && paillier_ok(s.prime as i64, s.modulus as i64, w[0] / 64, w[1] / 64, w[2] / 64) && s.consistent, "a shipped set is unsound", || format!("{}: {set:?}, modulus {}, widths {w:?}, declared consistent: {}", s.name, s.modulus, s.consistent));
    });
}

// ---------------------------------------------------------------- proofs with production parameters
fn range(b: u32) -> Vec<(&'static str, Z)> { let h = Nat::pow2(b - 1); vec![("most", Z::n(h.clone())), ("least", Z::new(true, h.sub(&Nat::one()))), ("0", Z::zero()), ("-1", Z::i(-1))] }
/// The length of the longest list in a value.
fn longest(v: &Value) -> usize { let mut n = 0; walk(v, &mut vec![], &mut |_, x| if let Value::Array(a) = x { n = n.max(a.len()) }); n }
const AUX: &[u8] = b"context";
const OTHER: &[u8] = b"another context";
macro_rules! production { ($m:ident, $p:ty, $pai:ty, $u:literal, $name:literal, $bits:literal) => { mod $m {
    use super::*;
    type P = $p; type U = Uint<$u>;
    fn keys() -> &'static Vec<SecretKeyPaillier<$pai>> { static K: OnceLock<Vec<SecretKeyPaillier<$pai>>> = OnceLock::new(); K.get_or_init(|| {
        let hs: Vec<_> = (0..3u64).map(|i| std::thread::spawn(move || to_tree(&SecretKeyPaillierWire::<$pai>::random(&mut DetRng(100 + i))))).collect();
        hs.into_iter().map(|h| from_tree::<SecretKeyPaillierWire<$pai>>(&h.join().unwrap()).expect("a key").into_precomputed()).collect() }) }
    fn setup() -> &'static RPParams<$pai> { static S: OnceLock<RPParams<$pai>> = OnceLock::new(); S.get_or_init(|| {
        let n = keys()[2].public_key().modulus().nat(); let len = $u * 8;
        let mut b = vec![0u8; len]; rand_core::RngCore::fill_bytes(&mut DetRng(7), &mut b); let x = Nat::from_be(&b).rem(&n);
        let t = x.mul(&x).rem(&n); let s = t.powmod(&Nat::pow2(77).add(&Nat::u(12345)), &n);
        // the layout of a smaller setup
        let small = RPParams::<PaillierTest>::random(&mut DetRng(4)); let mut v = to_tree(&small.to_wire());
        use crypto_bigint::modular::Retrieve;
        let (m, t0, s0) = (small.modulus().nat(), small.base_randomizer().retrieve().nat(), small.base_value().retrieve().nat());
        for l in leaves(&v) { if let Some(b) = bytes(get(&v, &l)) { let old = Nat::from_be(b); let new = if old == m { &n } else if old == t0 { &t } else if old == s0 { &s } else { continue }; *get_mut(&mut v, &l) = Value::Bytes(new.to_be(len)) } }
        from_tree::<RPParamsWire<$pai>>(&v).expect("a setup").to_precomputed() }) }
    fn sc(z: &Z) -> Scalar<P> { Scalar::try_from_be_bytes(&z.modulo(&Nat::from_be(<P as SchemeParams>::Curve::ORDER.to_be_bytes().as_ref())).to_be(32)).expect("a scalar") }
    fn pt(z: &Z) -> Point<P> { sc(z).mul_by_generator() }
    fn scalars() -> Vec<(&'static str, Z)> { let q = Nat::from_be(<P as SchemeParams>::Curve::ORDER.to_be_bytes().as_ref()); vec![("0", Z::zero()), ("1", Z::i(1)), ("-1", Z::i(-1)), ("half", Z::n(q.shr(1))), ("some", Z::n(Nat::from_be(&[0x5a; 31])))] }
    fn st<T: serde::Serialize>(c: &mut Ctl, what: &str, p: &T, repetitions: usize, verify: impl Fn(&T, &[u8]) -> bool) where T: for<'a> serde::Deserialize<'a> {
        c.trace(); c.ops(3); c.state(&(what, $name));
        let t = to_cbor(p);
        let back: T = match from_cbor(&t) { Ok(p) => p, Err(e) => return c.fail("an honest proof does not deserialize", format!("{what}: {e}")) };
        c.check(to_cbor(&back) == t, "an honest proof changes when it is stored", || what.to_string());
        c.check(verify(&back, AUX), "an honest proof is rejected", || what.to_string());
        c.check(!verify(&back, OTHER), "a proof is accepted in another context", || what.to_string());
        if repetitions > 0 { let n = longest(&to_tree(p)); c.check(n == repetitions, "a proof has too few or many repetitions", || format!("{what}: {n} repetitions, not {repetitions}")); }
    }
    pub fn run(r: &mut Runner) {
        let (l, lp, eps) = (<P as SchemeParams>::L_BOUND, <P as SchemeParams>::LP_BOUND, <P as SchemeParams>::EPS_BOUND);
        let th = r.thorough();
        let ends = |b: u32| -> Vec<(&'static str, Z)> { range(b) };
        r.explore(&format!("sch-{}", $name), "Schnorr proofs of boundary scalars", |c| {
            let (n, x) = c.pick(&scalars()).clone(); c.label(|| format!("x = {n}"));
            let s = SchSecret::<P>::random(&mut DetRng(1)); let com = SchCommitment::new(&s); let cx = pt(&x);
            let p = SchProof::new(&s, &secret(sc(&x)), &com, &cx, &AUX);
            st(c, &format!("Sch {n}"), &p, 0, |p, a| p.verify(&com, &cx, &a));
        });
        r.explore(&format!("elog-{}", $name), "Elog proofs of boundary scalars", |c| {
            let s = scalars(); let w: Vec<_> = (0..4).map(|i| if i < 2 { c.pick(&s).clone() } else { c.pick(&s[3..]).clone() }).collect(); c.label(|| format!("{:?}", w.iter().map(|x| x.0).collect::<Vec<_>>()));
            let (y, la, x, h) = (&w[0].1, &w[1].1, &w[2].1, &w[3].1);
            let (cl, cm, cx, cy, ch) = (pt(la), pt(&y.add(&x.mul(la))), pt(x), pt(&y.mul(h)), pt(h));
            let public = ElogPublicInputs { cap_l: &cl, cap_m: &cm, cap_x: &cx, cap_y: &cy, h: &ch };
            let p = ElogProof::<P>::new(&mut DetRng(2), ElogSecretInputs { y: &secret(sc(y)), lambda: &secret(sc(la)) }, public, &AUX);
            st(c, &format!("Elog {:?}", w.iter().map(|x| x.0).collect::<Vec<_>>()), &p, 0, |p, a| p.verify(public, &a));
        });
        if r.active(&format!("enc-elg-{}", $name)) { keys(); setup(); }
        r.explore(&format!("enc-elg-{}", $name), "EncElg proofs of boundary plaintexts and scalars", |c| {
            let (n, x) = c.pick(&ends(l)).clone(); let s = scalars(); let (nb, b) = c.pick(&s[2..]).clone(); c.label(|| format!("x = {n}, b = {nb}"));
            let pk = keys()[0].public_key(); let a = Z::i(77); let xs = ss::<U>(&x, l); let rho = Randomizer::random(&mut DetRng(3), pk);
            let cc = Ciphertext::new_with_randomizer(pk, &xs, &rho); let (ca, cb, cx) = (pt(&a), pt(&b), pt(&a.mul(&b).add(&x)));
            let public = EncElgPublicInputs { pk0: pk, cap_c: &cc, cap_a: &ca, cap_b: &cb, cap_x: &cx };
            let p = EncElgProof::<P>::new(&mut DetRng(4), EncElgSecretInputs { x: &xs, rho: &rho, b: &secret(sc(&b)) }, public, setup(), &AUX);
            st(c, &format!("EncElg {n} {nb}"), &p, 0, |p, a| p.verify(public, setup(), &a));
        });
        if r.active(&format!("aff-g-{}", $name)) { keys(); setup(); }
        let affine = |c: &mut Ctl, star: bool, (nx, x): (&str, Z), (ny, y): (&str, Z)| {
            let (pk0, pk1) = (keys()[0].public_key(), keys()[1].public_key()); let mut rng = DetRng(5);
            let (xs, ys) = (ss::<U>(&x, l), ss::<U>(&y, lp)); let (rho, rho_y) = (Randomizer::random(&mut rng, pk0), Randomizer::random(&mut rng, pk1));
            let cap_c = { let w = Randomizer::random(&mut rng, pk0); Ciphertext::new_with_randomizer(pk0, &ss::<U>(&Z::n(Nat::pow2(l - 1)), l), &w) };
            let cap_d = &cap_c * &xs + Ciphertext::new_with_randomizer(pk0, &-&ys, &rho); let cap_y = Ciphertext::new_with_randomizer(pk1, &ys, &rho_y); let cap_x = pt(&x);
            // the plaintexts are as they should be (no reduction)
            let want = x.mul(&Z::n(Nat::pow2(l - 1))).sub(&y);
            c.check(zs::<U>(&cap_d.decrypt(&keys()[0])) == want, "an affine operation does not give its plaintext", || format!("x = {nx}, y = {ny}"));
            if star {
                let public = AffGStarPublicInputs { pk0, pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
                let p = AffGStarProof::<P>::new(&mut rng, AffGStarSecretInputs { x: &xs, y: &ys, rho: &rho, mu: &rho_y }, public, &AUX);
                st(c, &format!("AffG* {nx} {ny}"), &p, 256, |p, a| p.verify(public, &a));
            } else {
                let public = AffGPublicInputs { pk0, pk1, cap_c: &cap_c, cap_d: &cap_d, cap_y: &cap_y, cap_x: &cap_x };
                let p = AffGProof::<P>::new(&mut rng, AffGSecretInputs { x: &xs, y: &ys, rho: &rho, rho_y: &rho_y }, public, setup(), &AUX);
                st(c, &format!("AffG {nx} {ny}"), &p, 0, |p, a| p.verify(public, setup(), &a));
            }
        };
        let dec = |c: &mut Ctl, parties: usize, (nx, x): (&str, Z), y: usize| {
            let by = lp + eps + 1 + (parties - 1).ilog2() + 1; let (ny, y) = ends(by)[y].clone();
            let pk = keys()[0].public_key(); let mut rng = DetRng(6); let (xs, ys) = (ss::<U>(&x, l), ss::<U>(&y, by)); let rho = Randomizer::random(&mut rng, pk);
            let cap_k = { let w = Randomizer::random(&mut rng, pk); Ciphertext::new_with_randomizer(pk, &ss::<U>(&Z::n(Nat::pow2(l - 1)), l), &w) }; let cap_d = Ciphertext::new_with_randomizer(pk, &ys, &rho) + &cap_k * &-&xs;
            let (cap_x, cap_g) = (pt(&x), pt(&Z::i(99))); let cap_s = cap_g * sc(&y);
            let public = DecPublicInputs { pk0: pk, cap_k: &cap_k, cap_x: &cap_x, cap_d: &cap_d, cap_s: &cap_s, cap_g: &cap_g, num_parties: parties };
            let p = DecProof::<P>::new(&mut rng, DecSecretInputs { x: &xs, y: &ys, rho: &rho }, public, setup(), &AUX);
            st(c, &format!("Dec {nx} {ny} {parties}"), &p, 256, |p, a| p.verify(public, setup(), &a));
        };
        r.explore(&format!("aff-g-{}", $name), "AffG proofs of boundary factors and summands", |c| {
            let x = c.pick(&ends(l)).clone(); let y = c.pick(&ends(lp)).clone(); c.label(|| format!("x = {}, y = {}", x.0, y.0));
            affine(c, false, x, y);
        });
        if r.active(&format!("fac-{}", $name)) { keys(); setup(); }
        r.explore(&format!("fac-{}", $name), "Fac proofs of several keys and streams", |c| {
            let k = c.choose(2); let s = c.choose(if th { 20 } else { 4 }); c.label(|| format!("key {k}, stream {s}"));
            let p = FacProof::<P>::new(&mut DetRng(20 + s as u64), &keys()[k], setup(), &AUX);
            st(c, &format!("Fac {k} {s}"), &p, 0, |p, a| p.verify(keys()[k].public_key(), setup(), &a));
        });
        let name = format!("repeated-{}", $name);
        if r.active(&name) { keys(); setup(); }
        // proofs of many repetitions take long; those of the larger set are left to the thorough tier
        let (all, some) = (th && $u == 32, th || $u == 32);
        r.explore(&name, "Dec, AffG* and Mod proofs (of many repetitions) of boundary exponents, factors and summands, and of several keys", |c| {
            match c.choose(if some { 3 } else { 1 }) {
                0 => {
                    let k = c.choose(if th { 3 } else { 1 }); c.label(|| format!("Mod, key {k}"));
                    let p = ModProof::<P>::new(&mut DetRng(30), &keys()[k], &AUX);
                    st(c, &format!("Mod {k}"), &p, $bits, |p, a| p.verify(keys()[k].public_key(), &a));
                }
                1 => {
                    let i = c.choose(if all { 4 } else { 2 }); let j = if all { c.choose(4) } else { 1 - i }; let (x, y) = (ends(l)[i].clone(), ends(lp)[j].clone()); c.label(|| format!("AffG*, x = {}, y = {}", x.0, y.0));
                    affine(c, true, x, y);
                }
                _ => {
                    let parties = if all { *c.pick(&[2usize, 1 << 20]) } else { 1 << 20 }; let i = c.choose(2); let j = if all { c.choose(4) } else { i }; c.label(|| format!("Dec, x = {}, y = {j}, {parties} parties", ends(l)[i].0));
                    dec(c, parties, ends(l)[i].clone(), j);
                }
            }
        });
    }
} } }
production!(p112, ProductionParams112, PaillierProduction112, 32, "112", 112);
production!(p128, ProductionParams128, PaillierProduction128, 48, "128", 128);

pub fn main() -> i32 {
    let mut r = Runner::from_env("C12");
    r.assume("parameter sets are compared over the stated grid; production proofs use keys and randomness from fixed streams and commitment setups of known discrete logarithm");
    predicates(&mut r); literals(&mut r); p112::run(&mut r); p128::run(&mut r);
    r.finish()
}
