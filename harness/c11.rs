// C11: secret wrappers compute the same as plain values and do not show them.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/micro.rs"] mod micro;
#[path = "common/sp16.rs"] mod sp16;
use big::*; use util::*; use engine::*; use tree::*; use micro::*; use sp16::*;
use std::fmt::Debug;
use crypto_bigint::{Monty, NonZero, Odd, Uint, U64, U128, U256, modular::Retrieve, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub, Integer, subtle::{Choice, ConditionallyNegatable, ConditionallySelectable}};
use zeroize::Zeroize;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::tools::Secret;
use crate::uint::*;
use crate::zk::SchSecret;

/// Runs the operation on wrapped and on bare operands: both give the same, or both refuse.
fn same<T: PartialEq + Debug + Zeroize + Clone>(c: &mut Ctl, key: &str, what: &dyn Fn() -> String, bare: impl FnOnce() -> T, wrapped: impl FnOnce() -> Secret<T>) {
    c.ops(1);
    match (quiet(bare), quiet(wrapped)) {
        (Ok(a), Ok(b)) => { c.check(a == *b.expose_secret(), key, || format!("{}: bare {a:?}, wrapped {:?}", what(), b.expose_secret())); }
        (Err(_), Err(_)) => {}
        (a, b) => c.fail(&format!("{key} (refusal)"), format!("{}: bare {a:?}, wrapped {:?}", what(), b.map(|x| x.expose_secret().clone()))),
    }
}

fn scalar_ops<P: SchemeParams>(c: &mut Ctl, x: Scalar<P>, y: Scalar<P>) {
    let w = || format!("{x:?}, {y:?}"); let (sx, sy) = (|| secret(x), || secret(y)); let w = &w as &dyn Fn() -> String;
    same(c, "secret + &", w, || x + y, || sx() + &y);
    same(c, "&secret + &", w, || x + y, || &sx() + &y);
    same(c, "secret + secret", w, || x + y, || sx() + sy());
    same(c, "secret + &secret", w, || x + y, || sx() + &sy());
    same(c, "&secret + secret", w, || x + y, || &sx() + sy());
    same(c, "&secret + &secret", w, || x + y, || &sx() + &sy());
    same(c, "secret += &", w, || x + y, || { let mut s = sx(); s += &y; s });
    same(c, "secret += secret", w, || x + y, || { let mut s = sx(); s += sy(); s });
    same(c, "secret - &", w, || x - y, || sx() - &y);
    same(c, "secret - secret", w, || x - y, || sx() - sy());
    same(c, "secret * &", w, || x * y, || sx() * &y);
    same(c, "&secret * &", w, || x * y, || &sx() * &y);
    same(c, "&secret * bare", w, || x * y, || &sx() * y);
    same(c, "secret * bare", w, || x * y, || sx() * y);
    same(c, "secret * secret", w, || x * y, || sx() * sy());
    same(c, "secret * &secret", w, || x * y, || sx() * &sy());
    same(c, "&secret * &secret", w, || x * y, || &sx() * &sy());
    same(c, "secret *= &", w, || x * y, || { let mut s = sx(); s *= &y; s });
    same(c, "sum of secrets", w, || x + y + x, || vec![sx(), sy(), sx()].into_iter().sum());
    same(c, "sum of references", w, || x + y + x, || [sx(), sy(), sx()].iter().sum());
    for b in [0u8, 1] { same(c, "conditional_select", w, || if b == 0 { x } else { y }, || Secret::<Scalar<P>>::conditional_select(&sx(), &sy(), Choice::from(b))); }
    // operands are not modified
    let (a, b) = (sx(), sy()); let _ = &a + &b; let _ = &a * &b; let _ = &a + &y; let _ = -&a; c.check(*a.expose_secret() == x && *b.expose_secret() == y, "an operand was modified", w);
}
fn scalar_one<P: SchemeParams>(c: &mut Ctl, x: Scalar<P>) {
    let w = || format!("{x:?}"); let sx = || secret(x); let w = &w as &dyn Fn() -> String;
    same(c, "-&secret", w, || -x, || -&sx());
    same(c, "clone", w, || x, || sx().clone());
    same(c, "try_init_with", w, || x, || Secret::try_init_with(|| Ok::<_, ()>(x)).unwrap());
    c.check(Secret::<Scalar<P>>::try_init_with(|| Err::<Scalar<P>, u8>(7)).err() == Some(7), "try_init_with hides an error", w);
    let mut m = sx(); *m.expose_secret_mut() = Scalar::ONE; c.check(*m.expose_secret() == Scalar::ONE, "expose_secret_mut", w);
    let (s, e): (Secret<Scalar<P>>, Secret<Scalar<P>>) = (Vec::<Secret<Scalar<P>>>::new().into_iter().sum(), Vec::<Secret<Scalar<P>>>::new().iter().sum());
    c.check(*s.expose_secret() == Scalar::ZERO && *e.expose_secret() == Scalar::ZERO, "empty sum", w);
    same(c, "sum of one", w, || x, || vec![sx()].into_iter().sum()); same(c, "sum of one reference", w, || x, || [sx()].iter().sum());
    let g = x.mul_by_generator(); c.ops(5);
    c.check(sx().mul_by_generator() == g, "mul_by_generator", w);
    for k in [1u64, 5, 60000] { let p: Point<P> = Scalar::from(k).mul_by_generator(); let want = p * x;
        c.check(p * sx() == want, "point * secret", w); c.check(p * &sx() == want, "point * &secret", w); c.check(&p * sx() == want, "&point * secret", w); c.check(&p * &sx() == want, "&point * &secret", w); }
    let id = Point::<P>::identity(); c.check(id * &sx() == id, "identity * secret", w);
    let k = quiet(|| sx().to_signing_key()).ok(); c.check(k.is_some(), "to_signing_key panics", w);
    if let Some(k) = k { c.check(k.as_ref().map(|k| Point::<P>::from_verifying_key(k.verifying_key()) == g).unwrap_or(x == Scalar::ZERO), "to_signing_key", w); }
}
fn scalars(r: &mut Runner) {
    let th = r.thorough();
    r.explore("scalars-16", "every scalar of a 16-bit curve (quick: every third), with each of 24 boundary scalars on either side, in every combination of wrapped, referenced and bare operands", |c| {
        let blk = c.choose(256); c.label(|| format!("scalars {blk}*256.."));
        let bd: Vec<u64> = { let mut v = vec![0, 1, 2, 3, Q - 1, Q - 2, Q / 2, Q / 2 + 1, Q / 2 + 2, 255, 256, 257, 0x7fff, 0x8000, 0x8001]; for k in 2..11 { v.push(1 << k); } v };
        for lo in 0..256u64 { let x = blk as u64 * 256 + lo; if x >= Q { break; } if !th && x % 3 != 0 { continue; }
            c.state(&x); let s = Scalar::<SP16>::from(x); scalar_one(c, s);
            for (i, y) in bd.iter().enumerate() { if !th && (x / 3 + i as u64) % 4 != 0 { continue; } let t = Scalar::from(*y); scalar_ops(c, s, t); scalar_ops(c, t, s); } }
        c.trace();
    });
    fn bd<P: SchemeParams>(r: &mut Runner, name: &str, bits: u32) {
        let mut v: Vec<Scalar<P>> = vec![Scalar::ZERO, Scalar::ONE, -Scalar::ONE, Scalar::from(2), -Scalar::from(2), ct(Scalar::from(2).invert()).unwrap()];
        let mut p = Scalar::<P>::ONE; for k in 1..bits { p = p + p; if k % 8 == 7 || k % 8 == 0 { v.push(p); v.push(-p); v.push(p - Scalar::ONE); } }
        r.explore(&format!("scalars-{name}"), "all pairs of boundary scalars, in every combination of operand forms", |c| { let x = *c.pick(&v); c.label(|| format!("{x:?}")); c.state(&x.to_be_bytes().to_vec()); scalar_one(c, x); for y in &v { scalar_ops(c, x, *y); } c.trace(); });
    }
    bd::<TestParams>(r, "32", 32); bd::<ProductionParams112>(r, "256", 256);
}

macro_rules! uint_ops { ($r:expr, $name:expr, $T:ty, $W:ty) => {{
    let width = <$T as Nt>::width();
    let mut v = vec![Nat::zero(), Nat::one(), Nat::u(2), Nat::u(3), Nat::u(10), Nat::pow2(width).sub(&Nat::one()), Nat::pow2(width).sub(&Nat::u(2))];
    for k in 1..width { if k % 16 <= 1 || k + 3 > width { v.push(Nat::pow2(k)); v.push(Nat::pow2(k).sub(&Nat::one())); v.push(Nat::pow2(k).add(&Nat::one())); v.push(Nat::pow2(width).sub(&Nat::pow2(k))); } }
    v.sort(); v.dedup();
    $r.explore(&format!("uints-{}", $name), "all pairs of boundary integers: wrapping and checked arithmetic, division, remainder, widening, selection, in every combination of operand forms; both refuse or neither does", |c| {
        let a = c.pick(&v).clone(); c.label(|| format!("{a}")); let x = <$T as Nt>::of(&a); let sx = || secret(x);
        let m = Nat::pow2(width);
        for b in &v {
            let y = <$T as Nt>::of(b); let sy = || secret(y); c.state(&(&a, b));
            let w = || format!("{a}, {b}"); let w = &w as &dyn Fn() -> String;
            let za = Z::n(a.clone()); let zb = Z::n(b.clone());
            same(c, "wrapping_add", w, || <$T as Nt>::of(&a.add(b).rem(&m)), || sx().wrapping_add(&sy()));
            same(c, "wrapping_sub", w, || <$T as Nt>::of(&za.sub(&zb).modulo(&m)), || sx().wrapping_sub(&sy()));
            same(c, "wrapping_mul", w, || <$T as Nt>::of(&a.mul(b).rem(&m)), || sx().wrapping_mul(&sy()));
            same(c, "wrapping_neg", w, || <$T as Nt>::of(&za.neg().modulo(&m)), || sx().wrapping_neg());
            let bare = |r: Option<Nat>| r.filter(|r| r.bits() <= width).map(|r| <$T as Nt>::of(&r)).expect("overflow");
            let add = || bare(Some(a.add(b))); let sub = || bare(if a >= *b { Some(a.sub(b)) } else { None }); let mul = || bare(Some(a.mul(b)));
            same(c, "secret + &", w, add, || sx() + &y); same(c, "&secret + &", w, add, || &sx() + &y); same(c, "secret + secret", w, add, || sx() + sy());
            same(c, "secret + &secret", w, add, || sx() + &sy()); same(c, "&secret + &secret", w, add, || &sx() + &sy()); same(c, "&secret + secret", w, add, || &sx() + sy());
            same(c, "secret += &", w, add, || { let mut s = sx(); s += &y; s }); same(c, "secret += secret", w, add, || { let mut s = sx(); s += sy(); s });
            same(c, "secret - &", w, sub, || sx() - &y); same(c, "secret - secret", w, sub, || sx() - sy());
            same(c, "secret * &", w, mul, || sx() * &y); same(c, "&secret * &", w, mul, || &sx() * &y); same(c, "secret * secret", w, mul, || sx() * sy()); same(c, "secret * bare", w, mul, || sx() * y); same(c, "&secret * bare", w, mul, || &sx() * y);
            same(c, "secret * &secret", w, mul, || sx() * &sy()); same(c, "&secret * &secret", w, mul, || &sx() * &sy()); same(c, "secret *= &", w, mul, || { let mut s = sx(); s *= &y; s });
            if !b.is_zero() { let nz = || NonZero::new(y).unwrap(); let (q, rm) = a.divrem(b); let (q, rm) = (<$T as Nt>::of(&q), <$T as Nt>::of(&rm));
                same(c, "secret / nonzero", w, || q, || sx() / nz()); same(c, "secret /= &nonzero", w, || q, || { let mut s = sx(); s /= &nz(); s });
                same(c, "&secret % &nonzero", w, || rm, || &sx() % &nz()); same(c, "secret %= &nonzero", w, || rm, || { let mut s = sx(); s %= &nz(); s }); }
            for k in [0u8, 1] { same(c, "conditional_select", w, || if k == 0 { x } else { y }, || Secret::<$T>::conditional_select(&sx(), &sy(), Choice::from(k))); }
            let (p, q) = (sx(), sy()); let _ = quiet(|| &p + &q); let _ = quiet(|| &p * &q); let _ = p.wrapping_add(&q); c.check(*p.expose_secret() == x && *q.expose_secret() == y, "an operand was modified", w);
        }
        same(c, "to_wide", &|| format!("{a}"), || <$W as Nt>::of(&a), || sx().to_wide::<$W>());
        c.trace();
    });
}} }

fn monty(r: &mut Runner) {
    r.explore("residues", "residues modulo every odd number up to 129: montgomery form, retrieval, negation, multiplication, and powers by secret and public exponents of either sign, against a reference model", |c| {
        let n = 3 + 2 * c.choose(64) as u64; c.label(|| format!("modulo {n}"));
        type M = <U128 as Integer>::Monty;
        let params = <M as Monty>::new_params_vartime(Odd::new(U128::from(n)).unwrap()); let nn = Nat::u(n);
        for x in 0..n { let xn = Nat::u(x); let s = secret(U128::from(x)); c.state(&(n, x)); c.ops(6);
            let w = || format!("{x} mod {n}"); let w = &w as &dyn Fn() -> String;
            let m = s.to_montgomery(&params); c.check(m.retrieve().expose_secret().nat() == xn, "to_montgomery, retrieve", w);
            for k in [0u8, 1] { let mut t = m.clone(); t.conditional_negate(Choice::from(k)); let want = if k == 0 { xn.clone() } else { Z::n(xn.clone()).neg().modulo(&nn) }; c.check(t.retrieve().expose_secret().nat() == want, "conditional_negate", w); }
            c.check((-&m).retrieve().expose_secret().nat() == Z::n(xn.clone()).neg().modulo(&nn), "negation of a residue", w);
            let inv = xn.gcd(&nn) == Nat::one();
            for e in [0i64, 1, 2, 3, 7, 64, 255, -1, -2, -5] {
                if e < 0 && !inv { continue; } c.ops(3);
                let want = Z::powmod(&xn, &Z::i(e), &nn).unwrap();
                let z = Z::i(e);
                // powers by secret exponents need an invertible base
                if inv { let p = m.pow(&ss::<U64>(&z, 9)); c.check(p.retrieve().expose_secret().nat() == want, "power by a secret exponent", || format!("{x}^{e} mod {n}")); }
                let p = m.pow(&ps::<U64>(&z, 9)); c.check(p.retrieve().expose_secret().nat() == want, "power by a public exponent", || format!("{x}^{e} mod {n}"));
                if e >= 0 { let p = m.pow(&ct(SecretUnsigned::<U64>::new(secret(U64::from(e as u64)), 9)).unwrap()); c.check(p.retrieve().expose_secret().nat() == want, "power by a secret unsigned exponent", || format!("{x}^{e} mod {n}")); }
            }
            for y in [0, 1, n / 2, n - 1] { let t = secret(U128::from(y)).to_montgomery(&params); let want = Nat::u(x * y % n); let b = *t.expose_secret(); c.ops(3);
                c.check((m.clone() * &t).retrieve().expose_secret().nat() == want && (&m * &b).retrieve().expose_secret().nat() == want && (&m * &t).retrieve().expose_secret().nat() == want, "product of residues", || format!("{x} * {y} mod {n}"));
                let want = Nat::u((x + y) % n); c.check((m.clone() + &t).retrieve().expose_secret().nat() == want, "sum of residues", || format!("{x} + {y} mod {n}"));
                let want = Nat::u((x + n - y) % n); c.check((m.clone() - &b).retrieve().expose_secret().nat() == want, "difference of residues", || format!("{x} - {y} mod {n}")); }
        }
        c.trace();
    });
}

fn squash(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace() && *c != ',').collect() }
/// Both debug forms, without layout.
fn dbg<T: Debug>(t: &T) -> (String, String) { (format!("{t:?}"), squash(&format!("{t:#?}"))) }
/// All values look the same once the given public parts are removed, and no value is visible.
fn opaque<T: Debug>(c: &mut Ctl, key: &str, ts: &[(T, Vec<(String, String)>, Vec<Nat>)]) {
    let mut first: Option<(String, String)> = None;
    for (t, public, hidden) in ts {
        c.ops(2);
        let (mut a, mut b) = dbg(t);
        for (p, q) in public { a = a.replace(p, "<public>"); b = b.replace(q, "<public>"); }
        for h in hidden { if h.bits() < 30 { continue; } let len = h.bits().div_ceil(8) as usize; let hex: String = h.to_be(len).iter().map(|x| format!("{x:02x}")).collect(); let hex = hex.trim_start_matches('0').to_string(); let dec = h.to_string();
            let lists: Vec<String> = { let mut le = h.to_be(len); le.reverse(); let be = h.to_be(len); vec![be.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", "), le.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")] };
            for s in [&a, &b] { let low = s.to_lowercase(); c.check(!low.contains(&hex) && !s.contains(&dec) && !lists.iter().any(|l| s.contains(l)), &format!("{key}: the debug form shows a secret"), || format!("{h} in {s}")); } }
        match &first { None => first = Some((a, b)), Some(f) => { c.check(f.0 == a && f.1 == b, &format!("{key}: the debug form depends on the secret"), || format!("{} and {a}", f.0)); } }
    }
}
fn debug(r: &mut Runner) {
    r.explore("debug-basic", "the debug forms of wrapped scalars, integers and bounded integers over boundary values are all the same and do not contain the value", |c| {
        let k = c.choose(7); c.label(|| format!("kind {k}")); c.state(&k);
        let vals: Vec<Nat> = { let mut v = vec![]; for k in 0..63u32 { v.push(Nat::pow2(k)); v.push(Nat::pow2(k + 1).sub(&Nat::one())); v.push(Nat::u(0x9E3779B97F4A7C15 >> 1 >> k)); } v.push(Nat::zero()); v };
        let np = vec![];
        match k {
            0 => opaque(c, "Secret<integer>", &vals.iter().map(|v| (secret(U64::of(v)), np.clone(), vec![v.clone()])).collect::<Vec<_>>()),
            1 => opaque(c, "Secret<scalar>", &vals.iter().map(|v| (secret(Scalar::<ProductionParams112>::from(v.to_u64())), np.clone(), vec![v.clone()])).collect::<Vec<_>>()),
            2 => opaque(c, "SecretSigned", &vals.iter().flat_map(|v| [false, true].map(|n| (ss::<U128>(&Z::new(n, v.clone()), 64), np.clone(), vec![v.clone(), Z::new(n, v.clone()).twos(128)]))).collect::<Vec<_>>()),
            3 => opaque(c, "SecretUnsigned", &vals.iter().map(|v| (ct(SecretUnsigned::new(secret(U128::of(v)), 64)).unwrap(), np.clone(), vec![v.clone()])).collect::<Vec<_>>()),
            4 => opaque(c, "SchSecret", &(0..40).map(|i| (SchSecret::<TestParams>::random(&mut DetRng(i)), np.clone(), vec![])).collect::<Vec<_>>()),
            5 => opaque(c, "Secret<Vec>", &vals.iter().map(|v| (secret(vec![v.to_u64(); 4]), np.clone(), vec![v.clone()])).collect::<Vec<_>>()),
            _ => opaque(c, "Option and tuple of secrets", &vals.iter().map(|v| (Some((secret(v.to_u64()), [secret(U64::of(v))])), np.clone(), vec![v.clone()])).collect::<Vec<_>>()),
        }
        c.trace();
    });
    fn keys<P: PaillierParams>(c: &mut Ctl, key: &str, sks: &[SecretKeyPaillierWire<P>]) where P::Uint: Nt, P::HalfUint: Nt {
        let np: Vec<(String, String)> = vec![];
        let hid = |w: &SecretKeyPaillierWire<P>| -> Vec<Nat> { let t = to_tree(w); let mut v: Vec<Nat> = leaves(&t).iter().filter_map(|l| bytes(get(&t, l)).map(|b| Nat::from_be(b))).collect(); let o = Nat::one(); let m = v[0].sub(&o).mul(&v[1].sub(&o)); v.push(m); v };
        opaque(c, &format!("{key} secret key, wire form"), &sks.iter().map(|w| (w.clone(), np.clone(), hid(w))).collect::<Vec<_>>());
        opaque(c, &format!("{key} secret key"), &sks.iter().map(|w| { let k = w.clone().into_precomputed(); let p = dbg(k.public_key()); let h = hid(w); (k, vec![p], h) }).collect::<Vec<_>>());
        opaque(c, &format!("{key} randomizer"), &sks.iter().map(|w| { let k = w.clone().into_precomputed(); let rd = Randomizer::random(&mut DetRng(3), k.public_key()); let v = to_tree(&rd.to_masked(&rd, &PublicSigned::zero())); let h = Nat::from_be(bytes(&v).unwrap()); (rd, vec![dbg(k.public_key()), dbg(k.public_key().monty_params_mod_n())], vec![h]) }).collect::<Vec<_>>());
        opaque(c, &format!("{key} randomizers of one key"), &{ let k = sks[0].clone().into_precomputed(); (0..20).map(|i| { let rd = Randomizer::random(&mut DetRng(i), k.public_key()); let v = to_tree(&rd.to_masked(&rd, &PublicSigned::zero())); let h = Nat::from_be(bytes(&v).unwrap()); (rd, vec![], vec![h]) }).collect::<Vec<_>>() });
    }
    r.explore("debug-keys", "the debug forms of Paillier keys, randomizers and ring-Pedersen secrets of several seeds are the same after removing the public key", |c| {
        let k = c.choose(3); c.label(|| format!("kind {k}")); c.state(&k);
        type P = <TestParams as SchemeParams>::Paillier;
        match k {
            0 => keys::<P>(c, "256-bit", &(0..12).map(|s| SecretKeyPaillierWire::random(&mut DetRng(s + 9))).collect::<Vec<_>>()),
            1 => keys::<MP<32>>(c, "64-bit", &(0..12).map(|s| SecretKeyPaillierWire::random(&mut DetRng(s + 9))).collect::<Vec<_>>()),
            _ => { let s: Vec<_> = (0..8).map(|s| { let x = RPSecret::<P>::random(&mut DetRng(s)); let l = x.lambda().expose_secret().nat(); let t = x.totient_nonzero().expose_secret().get().nat(); (x, vec![], vec![l, t]) }).collect(); opaque(c, "ring-Pedersen secret", &s); }
        }
        c.trace();
    });
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("C11");
    r.assume("the public parts of a secret key may appear in its debug form; everything else must be the same for all keys");
    scalars(&mut r);
    uint_ops!(r, "64", U64, U128); uint_ops!(r, "128", U128, U256);
    if r.thorough() { uint_ops!(r, "512", Uint<8>, Uint<16>); }
    monty(&mut r); debug(&mut r);
    r.finish()
}
