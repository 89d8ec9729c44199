// C04: bounded signed arithmetic is exact and never loses its bound.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
use big::*; use util::*; use engine::*;
use crypto_bigint::{Uint, U64, U128, U192, U256, U512, NonZero, Odd, CheckedAdd, CheckedMul, CheckedSub, Integer, Bounded, subtle::{Choice, ConditionallySelectable, CtOption}};
use zeroize::Zeroize;
use crate::uint::{SecretSigned, PublicSigned, SecretUnsigned, Extendable, MulWide};
use crate::tools::Secret;

trait T: Nt + Integer + Bounded + Zeroize + ConditionallySelectable + Send + Sync + std::hash::Hash + Eq {}
impl<X: Nt + Integer + Bounded + Zeroize + ConditionallySelectable + Send + Sync + std::hash::Hash + Eq> T for X {}

/// Boundary magnitudes of an integer type: around zero and around every power of two.
fn mags(width: u32, step: u32) -> Vec<Nat> {
    let mut v: Vec<Nat> = (0..6).map(Nat::u).collect();
    for k in (0..=width).filter(|k| k % step == 0 || *k + 3 >= width || (k % 64) < 2 || (k % 64) == 63) { let p = Nat::pow2(k); v.push(p.sub(&Nat::one())); v.push(p.clone()); v.push(p.add(&Nat::one())); }
    v.retain(|x| x.bits() <= width);
    v.sort(); v.dedup(); v
}

fn cmp<A: T>(c: &mut Ctl, op: &str, got: Option<&SecretSigned<A>>, want: &Z, must: bool, bound_ref: Option<u32>, ctx: &dyn Fn() -> String) {
    match got {
        None => { c.check(!must, &format!("{op} fails on valid input"), || format!("{}: expected {}", ctx(), want)); }
        Some(r) => {
            let v = quiet(|| zs(r));
            let v = match v { Ok(v) => v, Err(p) => { c.fail(&format!("{op} bound"), format!("{}: the result violates its bound: {p}", ctx())); return; } };
            c.check(v == *want, &format!("{op} value"), || format!("{}: got {} expected {}", ctx(), v, want));
            c.check(r.bound() < A::width() && v.abs.bits() <= r.bound(), &format!("{op} bound"), || format!("{}: result {} has bound {}", ctx(), v, r.bound()));
            if let Some(b) = bound_ref { c.check(r.bound() == b, &format!("{op} bound depends on the value"), || format!("{}: bound {} but {} for zero operands", ctx(), r.bound(), b)); }
        }
    }
}

fn unary<A: T>(r: &mut Runner, name: &str, step: u32) {
    let w = A::width();
    let ms = mags(w, step);
    // construction: all magnitudes x all bounds
    r.explore(&format!("construct-{name}"), "every boundary magnitude with every bound 0..=width+2", |c| {
        let m = c.pick(&ms).clone();
        c.label(|| format!("value {m}"));
        let a = A::of(&m);
        let signed = Z::from_twos(&m, w);
        for bound in 0..=w + 2 {
            c.state(&(name, &m, bound)); c.ops(4);
            let fits_pos = bound < w && m.bits() <= bound;
            let fits_signed = bound < w && signed.abs.bits() <= bound;
            let ctx = |o: &str| format!("{o}({m}, {bound})");
            let Some(x) = c.guard("new_positive panics", || ctx("SecretSigned::new_positive"), || ct(SecretSigned::new_positive(secret(a), bound))) else { continue };
            c.check(x.is_some() == fits_pos, "secret new_positive", || format!("{} is_some={} expected {}", ctx("SecretSigned::new_positive"), x.is_some(), fits_pos));
            if let (Some(x), true) = (&x, fits_pos) { cmp(c, "secret new_positive", Some(x), &Z::n(m.clone()), true, Some(bound), &|| ctx("SecretSigned::new_positive")); }
            let Some(x) = c.guard("new_from_unsigned panics", || ctx("SecretSigned::new_from_unsigned"), || ct(SecretSigned::new_from_unsigned(secret(a), bound))) else { continue };
            c.check(x.is_some() == fits_signed, "secret new_from_unsigned", || format!("{} is_some={} expected {}", ctx("SecretSigned::new_from_unsigned"), x.is_some(), fits_signed));
            if let (Some(x), true) = (&x, fits_signed) { cmp(c, "secret new_from_unsigned", Some(x), &signed, true, Some(bound), &|| ctx("SecretSigned::new_from_unsigned")); }
            for (n, p, fits, want) in [("public new_positive", PublicSigned::new_positive(a, bound), fits_pos, Z::n(m.clone())), ("public new_from_unsigned", PublicSigned::new_from_unsigned(a, bound), fits_signed, signed.clone())] {
                c.check(p.is_some() == fits, n, || format!("{} is_some={} expected {}", ctx(n), p.is_some(), fits));
                if let Some(p) = p {
                    c.check(zp(&p) == want && p.bound() == bound && p.is_negative() == want.neg && p.abs().nat() == want.abs, n, || format!("{}: value {} bound {}", ctx(n), zp(&p), p.bound()));
                    let ng = p.neg(); let ng2 = -p;
                    c.check(zp(&ng) == want.neg() && zp(&ng2) == want.neg() && ng.bound() == bound, "public neg", || format!("-{} = {}", want, zp(&ng)));
                }
            }
            let u = ct(SecretUnsigned::new(secret(a), bound));
            let fits_u = bound <= w && m.bits() <= bound;
            c.check(u.is_some() == fits_u, "secret unsigned new", || format!("{} is_some={} expected {}", ctx("SecretUnsigned::new"), u.is_some(), fits_u));
            if let Some(u) = u {
                c.check(zu(&u) == Z::n(m.clone()) && u.bound() == bound && bool::from(u.is_zero()) == m.is_zero(), "secret unsigned", || ctx("SecretUnsigned"));
                for k in [0u32, 1, w / 2, w - 1] { let mask = Nat::pow2(k).sub(&Nat::one()); let x = &u & A::of(&mask); let want = m.rem(&Nat::pow2(k)); c.check(x.expose_secret().nat() == want && want.bits() <= x.bound(), "secret unsigned bitand", || format!("{m} & {mask}")); }
            }
            c.trace();
        }
    });
    r.explore(&format!("unary-{name}"), "every boundary value of either sign with every valid bound: neg, abs, sign, to_public, zero/one", |c| {
        let m = c.pick(&ms).clone();
        if m.bits() >= w { return; }
        let z = Z::new(c.choose(2) == 1, m);
        c.label(|| format!("value {z}"));
        for bound in z.abs.bits()..w {
            c.state(&(name, 7u8, &z, bound)); c.ops(8);
            let Some(x) = c.guard("construction panics", || format!("{z} bound {bound}"), || ss::<A>(&z, bound)) else { continue };
            let ctx = || format!("{z} (bound {bound})");
            c.check(bool::from(x.is_negative()) == z.neg, "is_negative", ctx);
            c.check(x.abs_value().expose_secret().nat() == z.abs, "abs_value", ctx);
            let a = x.abs(); c.check(zu(&a) == Z::n(z.abs.clone()) && a.bound() == bound, "abs", ctx);
            let p = x.to_public(); c.check(zp(&p) == z && p.bound() == bound, "to_public", ctx);
            let n = x.neg(); cmp(c, "neg", Some(&n), &z.neg(), true, Some(bound), &ctx);
            let n = -&x; cmp(c, "neg", Some(&n), &z.neg(), true, Some(bound), &ctx);
            let n = -x.clone(); cmp(c, "neg", Some(&n), &z.neg(), true, Some(bound), &ctx);
            c.trace();
        }
        let zero = SecretSigned::<A>::zero(); c.check(zs(&zero) == Z::zero(), "zero", || "zero".into());
        c.check(zp(&PublicSigned::<A>::zero()) == Z::zero() && zp(&PublicSigned::<A>::one()) == Z::i(1) && PublicSigned::<A>::one().bound() >= 1, "zero/one", || "PublicSigned".into());
    });
}

fn operands(w: u32, step: u32, all_bounds: bool) -> Vec<(Z, u32)> {
    let mut v = vec![];
    for m in mags(w, step) { if m.bits() >= w { continue; }
        for neg in [false, true] { if neg && m.is_zero() { continue; }
            let z = Z::new(neg, m.clone());
            let b0 = m.bits();
            let mut bs: Vec<u32> = if all_bounds { (b0..w).collect() } else { [b0, b0 + 1, (w - 1) / 2, w / 2, w - b0.min(w), (w - 1).saturating_sub(b0), w - 3, w - 2, w - 1].into_iter().filter(|b| *b >= b0 && *b < w).collect() };
            bs.sort(); bs.dedup();
            for b in bs { v.push((z.clone(), b)); }
        } }
    v
}

fn pair<A: T>(c: &mut Ctl, name: &str, z1: &Z, b1: u32, x1: &SecretSigned<A>, z2: &Z, b2: u32) where A: Nt {
    let w = A::width();
    let ctx = |o: &str| format!("{name}: ({z1}, bound {b1}) {o} ({z2}, bound {b2})");
    let x2: SecretSigned<A> = ss(z2, b2);
    let p2: PublicSigned<A> = ps(z2, b2);
    c.ops(10);
    let badd = b1.max(b2) + 1; let madd = badd < w; let bmul = b1 + b2; let mmul = bmul < w;
    // the bound of a result is a function of the bounds of the operands: the one obtained for zeros
    macro_rules! op { ($key:expr, $sym:expr, $must:expr, $want:expr, $bref:expr, $e:expr) => {{
        let want: Z = $want;
        let fits = want.abs.bits() < w;
        match quiet(|| $e) {
            Ok(r) => { let r: Option<SecretSigned<A>> = r; let _ = fits; cmp(c, $key, r.as_ref(), &want, $must, Some($bref), &|| ctx($sym)); }
            Err(p) => { c.check(false, &format!("{} panics", $key), || format!("{}: {p}", ctx($sym))); }
        }
    }} }
    op!("checked_add", "+", madd, z1.add(z2), badd, ct(x1.checked_add(&x2)));
    op!("checked_add public", "+p", madd, z1.add(z2), badd, ct(x1.checked_add(&p2)));
    op!("checked_sub", "-", madd, z1.sub(z2), badd, ct(x1.checked_sub(&x2)));
    op!("checked_mul", "*", mmul, z1.mul(z2), bmul, ct(x1.checked_mul(&x2)));
    op!("checked_mul public", "*p", mmul, z1.mul(z2), bmul, ct(x1.checked_mul(&p2)));
    // the operators: exact or panic
    if madd {
        op!("add", "+", true, z1.add(z2), badd, Some(x1.clone() + x2.clone()));
        op!("add ref", "+", true, z1.add(z2), badd, Some(x1.clone() + &x2));
        op!("add public", "+", true, z1.add(z2), badd, Some(x1.clone() + p2));
        op!("sub", "-", true, z1.sub(z2), badd, Some(x1.clone() - x2.clone()));
    }
    if mmul {
        op!("mul", "*", true, z1.mul(z2), bmul, Some(x1.clone() * x2.clone()));
        op!("mul ref", "*", true, z1.mul(z2), bmul, Some(x1.clone() * &x2));
        op!("mul public", "*", true, z1.mul(z2), bmul, Some(x1.clone() * p2));
        op!("mul public ref", "*", true, z1.mul(z2), bmul, Some(x1 * p2));
    }
    c.trace();
}

fn binary<A: T>(r: &mut Runner, name: &str, ops: Vec<(Z, u32)>) {
    r.explore(&format!("binary-{name}"), &format!("all {}^2 pairs of (boundary value, bound): checked_add/sub/mul and operators, secret and public right operand", ops.len()), |c| {
        let (z1, b1) = c.pick(&ops).clone();
        c.label(|| format!("left ({z1}, {b1})"));
        let x1: SecretSigned<A> = ss(&z1, b1);
        for (z2, b2) in &ops { c.state(&(name, 1u8, &z1, b1, z2, *b2)); pair(c, name, &z1, b1, &x1, z2, *b2); }
    });
}

/// Operation sequences: every expression of the given depth over a small alphabet, exact or refused.
fn sequences<A: T>(r: &mut Runner, name: &str, depth: usize) {
    let w = A::width();
    let atoms: Vec<(Z, u32)> = vec![(Z::i(0), 0), (Z::i(1), 1), (Z::i(-1), 1), (Z::i(1), 5), (Z::new(false, Nat::pow2(w / 2)), w / 2 + 1), (Z::new(true, Nat::pow2(w / 2).sub(&Nat::one())), w / 2), (Z::new(false, Nat::pow2(w - 2).sub(&Nat::one())), w - 2), (Z::new(true, Nat::pow2(w - 2).sub(&Nat::one())), w - 2), (Z::new(true, Nat::pow2(w / 4)), w / 3)];
    r.explore(&format!("sequences-{name}"), &format!("all operation sequences of length <= {depth} over {} atoms and operations add, add public, sub, mul, mul public, neg", atoms.len()), |c| {
        let (z0, b0) = c.pick(&atoms).clone();
        let mut acc: SecretSigned<A> = ss(&z0, b0); let mut z = z0.clone(); let mut text = format!("({z0},{b0})");
        for _ in 0..depth {
            let op = c.choose(6);
            if op == 5 { acc = -acc; z = z.neg(); text += " neg"; c.ops(1); c.state(&(name, 2u8, &z, acc.bound())); cmp(c, "sequence", Some(&acc), &z, true, None, &|| text.clone()); continue; }
            let (y, b) = c.pick(&atoms).clone();
            let rhs: SecretSigned<A> = ss(&y, b); let rp: PublicSigned<A> = ps(&y, b);
            let (res, want, must, s) = match op {
                0 => (ct(acc.checked_add(&rhs)), z.add(&y), acc.bound().max(b) + 1 < w, "+"),
                1 => (ct(acc.checked_add(&rp)), z.add(&y), acc.bound().max(b) + 1 < w, "+p"),
                2 => (ct(acc.checked_sub(&rhs)), z.sub(&y), acc.bound().max(b) + 1 < w, "-"),
                3 => (ct(acc.checked_mul(&rhs)), z.mul(&y), acc.bound() + b < w, "*"),
                _ => (ct(acc.checked_mul(&rp)), z.mul(&y), acc.bound() + b < w, "*p"),
            };
            text += &format!(" {s} ({y},{b})"); c.ops(1);
            cmp(c, "sequence", res.as_ref(), &want, must, None, &|| text.clone());
            match res { Some(x) => { acc = x; z = want; c.state(&(name, 2u8, &z, acc.bound())); } None => { c.state(&(name, 3u8, &text)); break } }
        }
        c.label(|| text.clone());
        let items: Vec<SecretSigned<A>> = vec![ss(&Z::i(3), 2), ss(&Z::i(-5), 3), ss(&Z::i(7), 4)];
        let s: SecretSigned<A> = items.iter().sum(); c.check(zs(&s) == Z::i(5), "sum", || format!("sum = {}", zs(&s)));
        let s: SecretSigned<A> = items[..0].iter().sum(); c.check(zs(&s) == Z::i(0), "sum", || format!("empty sum = {}", zs(&s)));
        c.trace();
    });
}

fn wide<A: T + Extendable<W> + MulWide<A, W> + crate::uint::BoxedEncoding, W: T>(r: &mut Runner, name: &str, step: u32) {
    let w = A::width();
    let ops = operands(w, step, false);
    r.explore(&format!("wide-{name}"), &format!("all {}^2 pairs: to_wide, mul_wide_public, Extendable, MulWide", ops.len()), |c| {
        let (z1, b1) = c.pick(&ops).clone();
        c.label(|| format!("left ({z1}, {b1})"));
        let x1: SecretSigned<A> = ss(&z1, b1);
        let y: SecretSigned<W> = x1.to_wide(); cmp(c, "to_wide", Some(&y), &z1, true, Some(b1), &|| format!("to_wide({z1})"));
        let y: PublicSigned<W> = ps::<A>(&z1, b1).to_wide(); c.check(zp(&y) == z1 && y.bound() == b1, "public to_wide", || format!("to_wide({z1})"));
        let y: SecretUnsigned<W> = x1.abs().to_wide(); c.check(zu(&y).abs == z1.abs && y.bound() == b1, "unsigned to_wide", || format!("to_wide({z1})"));
        c.ops(3);
        for (z2, b2) in &ops {
            c.state(&(name, 4u8, &z1, b1, z2, *b2)); c.ops(2);
            let p2: PublicSigned<A> = ps(z2, *b2);
            let ctx = || format!("mul_wide ({z1}, {b1}) ({z2}, {b2})");
            if let Some(m) = c.guard("mul_wide_public panics", ctx, || x1.mul_wide_public::<A, W>(&p2)) {
                cmp(c, "mul_wide_public", Some(&m), &z1.mul(z2), true, Some(b1 + b2), &ctx);
            }
            let full: W = MulWide::mul_wide(&A::of(&z1.abs), &A::of(&z2.abs)); c.check(full.nat() == z1.abs.mul(&z2.abs), "MulWide", ctx);
        }
        c.trace();
    });
    let ms = mags(W::width(), step);
    r.explore(&format!("extend-{name}"), "every boundary value of the wide type: narrowing succeeds exactly when it fits", |c| {
        let m = c.pick(&ms).clone(); c.label(|| format!("{m}"));
        let n: Option<A> = A::try_from_wide(&W::of(&m));
        c.ops(1); c.state(&(name, 5u8, &m));
        c.check(n.is_some() == (m.bits() <= w), "try_from_wide", || format!("try_from_wide({m}) is_some={}", n.is_some()));
        if let Some(n) = n { c.check(n.nat() == m, "try_from_wide", || format!("{m}")); c.check(n.to_wide().nat() == m, "Extendable::to_wide", || format!("{m}")); }
        c.trace();
    });
}

fn modulo<A: T>(r: &mut Runner, name: &str) {
    let w = A::width();
    let mut mods: Vec<(Nat, Vec<Nat>)> = (1..=129u64).map(|m| (Nat::u(m), (0..m).map(Nat::u).collect())).collect();
    for k in [7, 8, w / 2, w - 2, w - 1, w] { for d in [-2i64, -1, 0, 1, 3] {
        let m = Z::n(Nat::pow2(k)).add(&Z::i(d)); if m.neg || m.abs.bits() > w { continue; } let m = m.abs; let h = m.shr(1);
        let mut vs: Vec<Nat> = vec![]; for c in [Nat::zero(), h.clone(), m.clone()] { for d in -3i64..=3 { let x = Z::n(c.clone()).add(&Z::i(d)); if !x.neg && x.abs < m { vs.push(x.abs); } } }
        vs.sort(); vs.dedup(); mods.push((m, vs)); } }
    r.explore(&format!("modulo-{name}"), "all residues of all moduli up to 129 and boundary residues of boundary moduli: new_modulo", |c| {
        let (m, vs) = c.pick(&mods).clone(); c.label(|| format!("modulus {m}"));
        for v in &vs {
            let want = balanced(v, &m);
            for mb in [m.bits(), m.bits() + 1, w] { if mb > w || mb == 0 { continue; }
                c.state(&(name, 6u8, &m, v, mb)); c.ops(1);
                let ctx = || format!("new_modulo({v}, {m}, {mb})");
                let Some(x) = c.guard("new_modulo panics", ctx, || ct(SecretSigned::new_modulo(secret(A::of(v)), &NonZero::new(A::of(&m)).unwrap(), mb))) else { continue };
                let fits = want.abs.bits() <= mb - 1;
                c.check(x.is_some() == fits, "new_modulo", || format!("{} is_some={}", ctx(), x.is_some()));
                if let (Some(x), true) = (&x, fits) { cmp(c, "new_modulo", Some(x), &want, true, Some(mb - 1), &ctx); }
            }
        }
        c.trace();
    });
    let moduli: Vec<Nat> = (2..=17u64).map(Nat::u).chain([Nat::pow2(w - 1).sub(&Nat::one()), Nat::pow2(w).sub(&Nat::u(5))]).collect();
    r.explore(&format!("add_mod-{name}"), "all residue pairs of small moduli and boundary residues of large ones: add_mod", |c| {
        let m = c.pick(&moduli).clone();
        let vs: Vec<Nat> = if m.bits() < 8 { (0..m.to_u64()).map(Nat::u).collect() } else { vec![Nat::zero(), Nat::one(), m.shr(1), m.shr(1).add(&Nat::one()), m.sub(&Nat::one()), m.sub(&Nat::u(2))] };
        for a in &vs { for b in &vs {
            c.state(&(name, 8u8, &m, a, b)); c.ops(1);
            let x = ct(SecretUnsigned::new(secret(A::of(a)), m.bits())).unwrap(); let y = ct(SecretUnsigned::new(secret(A::of(b)), m.bits())).unwrap();
            let s = x.add_mod(&y, &secret(NonZero::new(A::of(&m)).unwrap()));
            c.check(s.expose_secret().nat() == a.add(b).rem(&m) && s.expose_secret().nat().bits() <= s.bound() && s.bound() <= w, "add_mod", || format!("{a}+{b} mod {m} = {}", s.expose_secret().nat()));
        } }
        c.trace();
    });
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("C04");
    r.assume("crypto-bigint integers implement the documented semantics of its primitive operations");
    unary::<U64>(&mut r, "u64", 1);
    unary::<U128>(&mut r, "u128", 1);
    unary::<U256>(&mut r, "u256", 8);
    let t = r.thorough();
    binary::<U64>(&mut r, "u64", operands(64, if t { 1 } else { 2 }, t));
    binary::<U128>(&mut r, "u128", operands(128, if t { 2 } else { 8 }, false));
    binary::<U256>(&mut r, "u256", operands(256, if t { 8 } else { 32 }, false));
    // every small value with every small bound
    let small: Vec<(Z, u32)> = (-(9i64)..=9).flat_map(|v| { let z = Z::i(v); let b0 = z.abs.bits(); (b0..b0 + 3).map(move |b| (z.clone(), b)) }).collect();
    binary::<U64>(&mut r, "u64-small", small);
    sequences::<U64>(&mut r, "u64", if t { 4 } else { 3 });
    sequences::<U128>(&mut r, "u128", 3);
    wide::<U64, U128>(&mut r, "u64", if t { 4 } else { 8 });
    wide::<U128, U256>(&mut r, "u128", if t { 8 } else { 32 });
    wide::<U256, U512>(&mut r, "u256", if t { 16 } else { 64 });
    modulo::<U64>(&mut r, "u64");
    modulo::<U256>(&mut r, "u256");
    r.finish()
}
