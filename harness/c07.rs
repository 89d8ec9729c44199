// C07: assembled ECDSA signatures are valid, normalised and recoverable, or refused.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
use big::*; use util::*; use engine::*; use sp16::*;
use elliptic_curve::{Curve, bigint::Encoding, PrimeField, sec1::ToEncodedPoint};
use ecdsa::{VerifyingKey, hazmat::VerifyPrimitive};
use signature::hazmat::PrehashVerifier;
use crate::curve::{Point, Scalar, RecoverableSignature};
use crate::params::SchemeParams;
use crate::dev::TestParams;
use crate::k256::ProductionParams112;

fn sc<P: SchemeParams>(x: &Nat) -> Scalar<P> { Scalar::try_from_be_bytes(&x.to_be(Scalar::<P>::repr_len())).expect("canonical") }
fn s16(x: u64) -> Scalar<SP16> { sc(&Nat::u(x)) }

/// The unique nonce `k` (its discrete logarithm) under which `(r, s)` signs `m` for the key `d`; `None` if the signature is invalid.
fn nonce(tab: &[Pt], r: u64, s: u64, d: u64, m: u64) -> Option<u64> {
    if r == 0 || s == 0 || d == 0 { return None; }
    let k = (m + r * d) % Q * inv_mod(s, Q) % Q;
    match tab[k as usize] { Some((x, _)) if x % Q == r => Some(k), _ => None }
}
/// Assembles the signature and compares with the model.
fn assemble(c: &mut Ctl, tab: &[Pt], pts: &[Point<SP16>], r: u64, s: u64, d: u64, m: u64) {
    let ctx = || format!("r={r} s={s} key={d} message={m}");
    c.ops(1);
    let Some(got) = c.guard("from_scalars panics", ctx, || RecoverableSignature::from_scalars(s16(r), s16(s), pts[d as usize], s16(m))) else { return };
    let want = nonce(tab, r, s, d, m);
    match (got, want) {
        (None, None) => {}
        (None, Some(_)) => c.fail("a valid signature is refused", ctx()),
        (Some(_), None) => c.fail("an invalid signature is returned", ctx()),
        (Some(sig), Some(k)) => {
            let (b, rid) = sig.to_backend();
            let (rr, ss) = b.split_scalars();
            let (rr, ss) = (Nat::from_be(&rr.to_repr()).to_u64(), Nat::from_be(&ss.to_repr()).to_u64());
            let (ws, wk) = if s > Q / 2 { (Q - s, (Q - k) % Q) } else { (s, k) };
            c.check(rr == r, "r is changed", || format!("{}: {rr}", ctx()));
            c.check(ss == ws, "s is not the normalised value", || format!("{}: {ss} expected {ws}", ctx()));
            let (x, y) = tab[wk as usize].expect("valid nonce");
            c.check(rid.is_y_odd() == (y & 1 == 1) && rid.is_x_reduced() == (x >= Q), "recovery id", || format!("{}: {:?} for the nonce point ({x}, {y})", ctx(), rid));
        }
    }
}

fn exhaustive(r: &mut Runner) {
    let tab = table();
    let pts: Vec<Point<SP16>> = { let g = Point::generator(); let mut v = vec![Point::identity()]; for _ in 1..Q { v.push(*v.last().unwrap() + g); } v };
    let chunks: Vec<u64> = (0..Q).step_by(2048).collect();
    let keys: Vec<u64> = r.by_tier(vec![1, Q / 2 + 1, 12345], { let mut v: Vec<u64> = (1..Q).step_by(5009).collect(); v.extend([1, 2, 3, Q / 2, Q / 2 + 1, Q - 2, Q - 1]); v });
    let msgs: Vec<u64> = r.by_tier(vec![0, 31337], { let mut v: Vec<u64> = (0..Q).step_by(30011).collect(); v.extend([1, 2, Q / 2, Q - 1]); v });
    r.explore("all-nonces", "every nonce of the 16-bit curve for a grid of keys and messages (both representatives of s): validity, low s, recovery id, against an independent model", |c| {
        let d = *c.pick(&keys); let m = *c.pick(&msgs); let k0 = *c.pick(&chunks); c.label(|| format!("key {d} message {m} nonces from {k0}"));
        for k in (k0.max(1)..(k0 + 2048).min(Q)) {
            let rx = tab[k as usize].unwrap().0 % Q;
            let s = (m + rx * d) % Q * inv_mod(k, Q) % Q;
            c.state(&(d, m, k));
            assemble(c, &tab, &pts, rx, s, d, m);
            assemble(c, &tab, &pts, rx, (Q - s) % Q, d, m);
        }
        c.trace();
    });
    let nb = r.by_tier(2usize, 4);
    let base: Vec<(u64, u64, u64, u64)> = { let mut v = vec![]; for (k, d, m) in [(1u64, 1u64, 0u64), (777, 12345, 31337), (Q - 1, Q - 1, Q - 1), (40000, 2, 5)].into_iter().skip(1).cycle().take(nb) { let rx = tab[k as usize].unwrap().0 % Q; v.push((rx, (m + rx * d) % Q * inv_mod(k, Q) % Q, d, m)); } v };
    // nonce points with a reduced x-coordinate
    let reduced: Vec<u64> = (1..Q).filter(|k| tab[*k as usize].unwrap().0 >= Q).collect();
    r.assume(&format!("the 16-bit curve has {} nonces with a reduced x-coordinate, all of them are covered", reduced.len()));
    let step = r.by_tier(61usize, 5);
    r.explore("reduced-x", "all nonces with an x-coordinate above the order, with a grid of keys (every 5th in the thorough tier)", |c| {
        let k = *c.pick(&reduced); let d0 = *c.pick(&chunks); c.label(|| format!("nonce {k} keys from {d0}"));
        for d in (d0..(d0 + 2048).min(Q)).step_by(step) { let rx = tab[k as usize].unwrap().0 % Q; c.state(&(k, d)); let m = 31337; assemble(c, &tab, &pts, rx, (m + rx * d) % Q * inv_mod(k, Q) % Q, d, m); }
        c.trace();
    });
    r.explore("all-of-one", "a valid signature with r, s, key or message replaced by every other value (zero included): refused unless it happens to be valid", |c| {
        let b = *c.pick(&base); let which = c.choose(4); let x0 = *c.pick(&chunks); c.label(|| format!("{b:?} component {which} from {x0}"));
        for x in x0..(x0 + 2048).min(Q) {
            let mut t = b;
            match which { 0 => t.0 = x, 1 => t.1 = x, 2 => t.2 = x, _ => t.3 = x }
            c.state(&t); assemble(c, &tab, &pts, t.0, t.1, t.2, t.3);
        }
        c.trace();
    });
    let small: Vec<u64> = vec![0, 1, 2, 3, Q / 2, Q / 2 + 1, Q - 2, Q - 1, tab[1].unwrap().0 % Q];
    r.explore("boundary-tuples", "all tuples (r, s, key, message) of boundary values", |c| {
        let t = (*c.pick(&small), *c.pick(&small), *c.pick(&small), *c.pick(&small)); c.label(|| format!("{t:?}"));
        c.state(&t); assemble(c, &tab, &pts, t.0, t.1, t.2, t.3); c.trace();
    });
}

macro_rules! curve { ($r:expr, $P:ty, $name:expr) => {{
    let q = Nat::from_be(<$P as SchemeParams>::Curve::ORDER.to_be_bytes().as_ref());
    let vals: Vec<Nat> = { let mut v = vec![]; for d in 0..3u64 { v.push(Nat::u(d)); v.push(q.sub(&Nat::u(d + 1))); v.push(q.shr(1).add(&Nat::u(d))); v.push(q.shr(1).sub(&Nat::u(d + 1))); } for k in [5, q.bits() / 3, q.bits() / 2, q.bits() - 2] { v.push(Nat::pow2(k).add(&Nat::u(9))); } v };
    $r.explore(&format!("boundary-{}", $name), "all triples of boundary nonces, keys and messages, each with valid scalars and with each of r, s, key, message replaced: refused or verified, low s, key recovered", |c| {
        let (k, d, m) = (c.pick(&vals).clone(), c.pick(&vals).clone(), c.pick(&vals).clone());
        c.label(|| format!("nonce {k} key {d} message {m}"));
        if k.is_zero() { return; }
        let (ks, ds, ms) = (sc::<$P>(&k), sc::<$P>(&d), sc::<$P>(&m));
        let rx = ks.mul_by_generator().x_coordinate();
        let s = (ms + rx * ds) * ct(ks.invert()).unwrap();
        for mutation in 0..7 {
            let (mut r1, mut s1, mut d1, mut m1) = (rx, s, ds, ms);
            match mutation { 1 => s1 = -s, 2 => r1 = r1 + Scalar::ONE, 3 => s1 = s1 + Scalar::ONE, 4 => d1 = d1 + Scalar::ONE, 5 => m1 = m1 + Scalar::ONE, 6 => r1 = Scalar::ZERO, _ => {} }
            let ctx = || format!("nonce {k} key {d} message {m} mutation {mutation}");
            c.ops(1); c.state(&(&k, &d, &m, mutation));
            let pt = d1.mul_by_generator();
            let Some(got) = c.guard("from_scalars panics", ctx, || RecoverableSignature::<$P>::from_scalars(r1, s1, pt, m1)) else { continue };
            // validity by the definition: the x-coordinate of (m/s)G + (r/s)P is r
            let valid = r1 != Scalar::ZERO && s1 != Scalar::ZERO && d1 != Scalar::ZERO && { let i = ct(s1.invert()).unwrap(); let p = (i * m1).mul_by_generator() + pt * (i * r1); p != Point::identity() && p.x_coordinate() == r1 };
            c.check(got.is_some() == valid, if valid { "a valid signature is refused" } else { "an invalid signature is returned" }, ctx);
            if let (Some(sig), true) = (got, valid) {
                let (b, rid) = sig.to_backend();
                let vk = pt.to_verifying_key().unwrap();
                let mb = m1.to_be_bytes();
                c.check(vk.verify_prehash(&mb, &b).is_ok(), "the signature does not verify", ctx);
                c.check(Nat::from_be(&b.split_scalars().1.to_repr()) <= q.shr(1), "s is not low", ctx);
                c.check(b.normalize_s().is_none(), "s is not normalised", ctx);
                c.check(VerifyingKey::recover_from_prehash(&mb, &b, rid).ok() == Some(vk), "the key is not recovered", ctx);
            }
        }
        c.trace();
    });
}} }

pub fn main() -> i32 {
    let mut r = Runner::from_env("C07");
    exhaustive(&mut r);
    curve!(r, TestParams, "32");
    curve!(r, ProductionParams112, "k256");
    r.finish()
}
