// C06: scalar, point and integer conversions are faithful homomorphisms.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/micro.rs"] mod micro;
#[path = "common/sp16.rs"] mod sp16;
use big::*; use util::*; use engine::*; use tree::*; use sp16::*;
use elliptic_curve::{Curve, bigint::Encoding};
use crate::curve::{Point, Scalar};
use crate::params::{SchemeParams, public_signed_from_scalar, scalar_from_signed, scalar_from_wide_signed, secret_scalar_from_signed, secret_scalar_from_wide_signed, secret_signed_from_scalar};
use crate::paillier::PaillierParams;
use crate::tools::Secret;
use crate::dev::TestParams;
use crate::k256::{ProductionParams112, ProductionParams128};

type U<P> = <<P as SchemeParams>::Paillier as PaillierParams>::Uint;
type W<P> = <<P as SchemeParams>::Paillier as PaillierParams>::WideUint;
trait SP: SchemeParams<Paillier: PaillierParams<Uint: Nt, WideUint: Nt>> {}
impl<P: SchemeParams<Paillier: PaillierParams<Uint: Nt, WideUint: Nt>>> SP for P {}

/// Encoding and decoding of points through their serialized form.
trait Enc { fn pipe_enc(&self) -> Vec<u8>; }
impl<P: SchemeParams> Enc for Point<P> { fn pipe_enc(&self) -> Vec<u8> { bytes(&to_tree(self)).expect("points are serialized as bytes").clone() } }
fn dec_pt<P: SchemeParams>(b: &[u8]) -> Result<Point<P>, String> { from_tree(&Value::Bytes(b.to_vec())) }
fn order<P: SP>() -> Nat { Nat::from_be(P::Curve::ORDER.to_be_bytes().as_ref()) }
fn sc<P: SP>(x: &Nat) -> Scalar<P> { Scalar::try_from_be_bytes(&x.to_be(Scalar::<P>::repr_len())).expect("canonical") }
fn val<P: SP>(x: &Scalar<P>) -> Nat { Nat::from_be(x.to_be_bytes().as_ref()) }

/// All checks of the conversions of one scalar to integers and back.
fn one_scalar<P: SP>(c: &mut Ctl, x: &Nat) {
    let q = order::<P>();
    let s = sc::<P>(x);
    let ctx = || format!("scalar {x}");
    c.ops(8);
    c.check(val(&s) == *x, "scalar encoding", || format!("{}: {}", ctx(), val(&s)));
    let Some(p) = c.guard("public_signed_from_scalar panics", ctx, || public_signed_from_scalar::<P>(&s)) else { return };
    let z = zp(&p);
    c.check(z.modulo(&q) == *x, "public_signed_from_scalar value", || format!("{}: {z}", ctx()));
    c.check(!z.neg && z.abs == *x && p.bound() <= q.bits(), "public_signed_from_scalar range", || format!("{}: {z} with bound {}", ctx(), p.bound()));
    let back = scalar_from_signed::<P>(&p);
    c.check(back == s, "scalar -> public -> scalar", || format!("{}: {}", ctx(), val(&back)));
    let sec = secret(s);
    let Some(p) = c.guard("secret_signed_from_scalar panics", ctx, || secret_signed_from_scalar::<P>(&sec)) else { return };
    let z = zs(&p);
    let want = balanced(x, &q);
    c.check(z == want && p.bound() <= q.bits() && z.abs.bits() <= p.bound(), "secret_signed_from_scalar", || format!("{}: {z} expected {want}, bound {}", ctx(), p.bound()));
    c.check(p.bound() == secret_signed_from_scalar::<P>(&secret(Scalar::ZERO)).bound(), "secret_signed_from_scalar bound depends on the value", ctx);
    let back = secret_scalar_from_signed::<P>(&p);
    c.check(*back.expose_secret() == s, "scalar -> secret -> scalar", || format!("{}: {}", ctx(), val(back.expose_secret())));
}
/// All checks of the conversions of one integer to a scalar.
fn one_int<P: SP>(c: &mut Ctl, z: &Z) {
    let q = order::<P>();
    let want = z.modulo(&q);
    let (uw, ww) = (<U<P> as Nt>::width(), <W<P> as Nt>::width());
    for b in [z.abs.bits(), uw - 1] {
        if z.abs.bits() > b { continue; }
        let ctx = || format!("integer {z} (bound {b})");
        c.ops(2);
        if let Some(r) = c.guard("scalar_from_signed panics", ctx, || scalar_from_signed::<P>(&ps(z, b))) { c.check(val(&r) == want, "scalar_from_signed", || format!("{}: {} expected {want}", ctx(), val(&r))); }
        if let Some(r) = c.guard("secret_scalar_from_signed panics", ctx, || secret_scalar_from_signed::<P>(&ss(z, b))) { c.check(val(r.expose_secret()) == want, "secret_scalar_from_signed", || format!("{}: {} expected {want}", ctx(), val(r.expose_secret()))); }
    }
    for b in [z.abs.bits(), ww - 1] {
        if z.abs.bits() > b { continue; }
        let ctx = || format!("wide integer {z} (bound {b})");
        c.ops(2);
        if let Some(r) = c.guard("scalar_from_wide_signed panics", ctx, || scalar_from_wide_signed::<P>(&ps(z, b))) { c.check(val(&r) == want, "scalar_from_wide_signed", || format!("{}: {} expected {want}", ctx(), val(&r))); }
        if let Some(r) = c.guard("secret_scalar_from_wide_signed panics", ctx, || secret_scalar_from_wide_signed::<P>(&ss(z, b))) { c.check(val(r.expose_secret()) == want, "secret_scalar_from_wide_signed", || format!("{}: {} expected {want}", ctx(), val(r.expose_secret()))); }
    }
}
/// Scalar arithmetic against modular arithmetic.
fn pair<P: SP>(c: &mut Ctl, x: &Nat, y: &Nat) {
    let q = order::<P>();
    let (a, b) = (sc::<P>(x), sc::<P>(y));
    let (xz, yz) = (Z::n(x.clone()), Z::n(y.clone()));
    let (sum, dif, pro) = (xz.add(&yz).modulo(&q), xz.sub(&yz).modulo(&q), xz.mul(&yz).modulo(&q));
    c.ops(14);
    let mut ck = |c: &mut Ctl, n: &str, r: Scalar<P>, w: &Nat| { c.check(val(&r) == *w, n, || format!("{n} of {x} and {y}: {} expected {w}", val(&r))); };
    ck(c, "scalar +", a + b, &sum); ck(c, "scalar & + &", &a + &b, &sum);
    let mut t = a; t += &b; ck(c, "scalar +=", t, &sum);
    ck(c, "scalar -", a - b, &dif);
    let mut t = a; t -= &b; ck(c, "scalar -=", t, &dif);
    ck(c, "scalar *", a * b, &pro); ck(c, "scalar * &", a * &b, &pro);
    let mut t = a; t *= &b; ck(c, "scalar *=", t, &pro);
    ck(c, "scalar sum", [a, b, a].into_iter().sum(), &xz.add(&yz).add(&xz).modulo(&q));
    ck(c, "scalar sum of references", [a, b].iter().sum(), &sum);
    ck(c, "scalar product", [a, b, b].into_iter().product(), &xz.mul(&yz).mul(&yz).modulo(&q));
    c.check((a == b) == (x == y), "scalar equality", || format!("{x} {y}"));
    for (n, ch) in [(0u8, &a), (1, &b)] { let r = <Scalar<P> as elliptic_curve::subtle::ConditionallySelectable>::conditional_select(&a, &b, n.into()); c.check(r == *ch, "scalar conditional_select", || format!("{x} {y} {n}")); }
}
fn single<P: SP>(c: &mut Ctl, x: &Nat) {
    let q = order::<P>(); let a = sc::<P>(x);
    c.ops(3);
    let n = -a; c.check(val(&n) == Z::new(true, x.clone()).modulo(&q), "scalar negation", || format!("-{x}: {}", val(&n)));
    let i = ct(a.invert()).map(|i| val(&i));
    c.check(i == if x.is_zero() { None } else { x.inv(&q) }, "scalar inversion", || format!("1/{x}: {:?}", i));
    if x.bits() <= 64 { let v = Scalar::<P>::from(x.to_u64()); c.check(v == a, "scalar from u64", || format!("{x}: {}", val(&v))); }
}

fn big_scalars<P: SP>() -> Vec<Nat> {
    let q = order::<P>(); let one = Nat::one();
    let mut v = vec![];
    let h = q.shr(1);
    for d in 0..4u64 { v.push(Nat::u(d)); v.push(q.sub(&Nat::u(d + 1))); v.push(h.sub(&Nat::u(d))); v.push(h.add(&Nat::u(d))); }
    for k in 0..q.bits() { let p = Nat::pow2(k); v.push(p.clone()); v.push(p.sub(&one)); v.push(p.add(&one)); v.push(q.sub(&p)); }
    v.retain(|x| *x < q); v.sort(); v.dedup(); v
}
fn big_ints<P: SP>(width: u32) -> Vec<Z> {
    let q = order::<P>(); let one = Nat::one();
    let mut v = vec![];
    let mut push = |n: &Nat| for d in 0..3u64 { v.push(n.add(&Nat::u(d))); if *n >= Nat::u(d) { v.push(n.sub(&Nat::u(d))); } };
    for k in 0..width { if k < 6 || k % 8 == 0 || k % 64 >= 62 || k % 64 == 1 || k + 3 >= width || (k as i64 - q.bits() as i64).abs() < 4 { push(&Nat::pow2(k)); push(&q.mul(&Nat::pow2(k))); push(&q.shr(1).mul(&Nat::pow2(k))); } }
    let top = Nat::pow2(width - 1).sub(&one); push(&top); push(&top.divrem(&q).0.mul(&q)); push(&Nat::zero()); push(&q.mul(&Nat::u(3))); push(&q.mul(&q));
    v.retain(|x| x.bits() < width); v.sort(); v.dedup();
    v.iter().flat_map(|x| [Z::n(x.clone()), Z::new(true, x.clone())]).collect()
}

fn boundary<P: SP>(r: &mut Runner, name: &str) {
    let (sv, uv, wv) = (big_scalars::<P>(), big_ints::<P>(<U<P> as Nt>::width()), big_ints::<P>(<W<P> as Nt>::width()));
    let q = order::<P>();
    r.explore(&format!("scalars-{name}"), "every boundary scalar (around 0, the order, half of the order, powers of two): conversions, negation, inversion", |c| {
        let x = c.pick(&sv).clone(); c.label(|| format!("scalar {x}")); c.state(&(name, &x));
        one_scalar::<P>(c, &x); single::<P>(c, &x);
        let bytes = x.to_be(Scalar::<P>::repr_len());
        let rb = Scalar::<P>::from_reduced_bytes(&bytes); c.check(val(&rb) == x, "from_reduced_bytes of a canonical value", || format!("{x}"));
        c.trace();
    });
    r.explore(&format!("scalar-pairs-{name}"), "all pairs of boundary scalars: sums, differences, products in all operator forms", |c| {
        let x = c.pick(&sv).clone(); c.label(|| format!("scalar {x}"));
        for y in &sv { c.state(&(name, &x, y)); pair::<P>(c, &x, y); }
        c.trace();
    });
    r.explore(&format!("integers-{name}"), "every boundary integer of both signs and widths (around powers of two, multiples of the order and of half of the order, the limits)", |c| {
        let z = if c.choose(2) == 0 { c.pick(&uv).clone() } else { c.pick(&wv).clone() };
        if z.abs.bits() < <U<P> as Nt>::width() { one_int::<P>(c, &z) } else {
            let want = z.modulo(&q);
            for b in [z.abs.bits(), <W<P> as Nt>::width() - 1] {
                let r = scalar_from_wide_signed::<P>(&ps(&z, b)); c.check(val(&r) == want, "scalar_from_wide_signed", || format!("{z}: {} expected {want}", val(&r)));
                let r = secret_scalar_from_wide_signed::<P>(&ss(&z, b)); c.check(val(r.expose_secret()) == want, "secret_scalar_from_wide_signed", || format!("{z}: {} expected {want}", val(r.expose_secret())));
                c.ops(2);
            }
        }
        c.state(&(name, &z)); c.trace();
    });
    let pts: Vec<Nat> = sv.iter().step_by(7).cloned().chain([Nat::zero(), Nat::one(), q.sub(&Nat::one())]).collect();
    r.explore(&format!("points-{name}"), "pairs of points with boundary logarithms: group law, encoding, x-coordinate", |c| {
        let x = c.pick(&pts).clone(); c.label(|| format!("{x}"));
        let a = sc::<P>(&x); let p = a.mul_by_generator();
        c.check((p == Point::identity()) == x.is_zero(), "identity", || format!("{x}"));
        if !x.is_zero() {
            let e = p.pipe_enc();
            let want = Nat::from_be(&e.as_slice()[1..]).rem(&q);
            c.check(val(&p.x_coordinate()) == want, "x_coordinate", || format!("{x}: {} expected {want}", val(&p.x_coordinate())));
            c.check(dec_pt::<P>(&e) == Ok(p), "point decoding", || format!("{x}"));
            let m = (-a).mul_by_generator().pipe_enc();
            c.check(m.as_slice()[1..] == e.as_slice()[1..] && m.as_slice()[0] ^ e.as_slice()[0] == 1, "encoding of the negated point", || format!("{x}"));
            c.check(p.to_verifying_key().map(|k| Point::<P>::from_verifying_key(&k)) == Some(p), "verifying key round trip", || format!("{x}"));
        }
        for y in &pts {
            let b = sc::<P>(y); let o = b.mul_by_generator(); c.state(&(name, &x, y)); c.ops(3);
            c.check(p + o == (a + b).mul_by_generator(), "point +", || format!("{x} {y}"));
            c.check(p * b == (a * b).mul_by_generator() && &p * &b == p * b, "point * scalar", || format!("{x} {y}"));
            c.check((p == o) == (x == *y), "point equality", || format!("{x} {y}"));
        }
        c.trace();
    });
    // homomorphism: integer arithmetic followed by conversion is scalar arithmetic
    let reps: Vec<Nat> = { let mut v: Vec<Nat> = (0..3).map(Nat::u).collect(); let q = q.clone(); for d in 0..3u64 { v.push(q.shr(1).sub(&Nat::u(d))); v.push(q.shr(1).add(&Nat::u(d))); v.push(q.sub(&Nat::u(d + 1))); } for k in [q.bits() / 2, q.bits() - 1] { v.push(Nat::pow2(k).sub(&Nat::one())); } v };
    r.explore(&format!("homomorphism-{name}"), "pairs of boundary scalars: conversion commutes with addition, subtraction, multiplication (public and secret, both widths)", |c| {
        let x = c.pick(&reps).clone(); let y = c.pick(&reps).clone(); c.label(|| format!("{x} {y}"));
        let (a, b) = (sc::<P>(&x), sc::<P>(&y));
        let (ia, ib) = (secret_signed_from_scalar::<P>(&secret(a)), secret_signed_from_scalar::<P>(&secret(b)));
        c.ops(8); c.state(&(name, &x, &y));
        let mut ck = |c: &mut Ctl, n: &str, got: Secret<Scalar<P>>, want: Scalar<P>| { c.check(*got.expose_secret() == want, n, || format!("{n} of {x} and {y}: {} expected {}", val(got.expose_secret()), val(&want))); };
        ck(c, "secret sum", secret_scalar_from_signed::<P>(&(ia.clone() + &ib)), a + b);
        ck(c, "secret difference", secret_scalar_from_signed::<P>(&(ia.clone() - ib.clone())), a - b);
        if q.bits() * 2 < <U<P> as Nt>::width() { ck(c, "secret product", secret_scalar_from_signed::<P>(&(ia.clone() * &ib)), a * b); }
        ck(c, "secret wide product", secret_scalar_from_wide_signed::<P>(&ia.mul_wide_public(&ib.to_public())), a * b);
        ck(c, "secret negation", secret_scalar_from_signed::<P>(&-&ia), -a);
        // a secret integer made public is the same scalar
        c.check(scalar_from_signed::<P>(&ia.to_public()) == a, "secret -> public -> scalar", || format!("{x}"));
        let (pa, pb) = (public_signed_from_scalar::<P>(&a), public_signed_from_scalar::<P>(&b));
        let n = -pa; c.check(scalar_from_signed::<P>(&n) == -a, "public negation", || format!("{x}"));
        let _ = pb;
        c.trace();
    });
}

fn tiny(r: &mut Runner) {
    let tab = table();
    let chunk = 512;
    let chunks: Vec<u64> = (0..Q.div_ceil(chunk)).collect();
    r.explore("scalars-all-16", "all scalars of the 16-bit curve: conversions, negation, inversion", |c| {
        let i = *c.pick(&chunks); c.label(|| format!("chunk {i}"));
        for x in (i * chunk..(i + 1) * chunk).filter(|x| *x < Q) { let x = Nat::u(x); c.state(&x); one_scalar::<SP16>(c, &x); single::<SP16>(c, &x); }
        c.trace();
    });
    r.explore("integers-all-18", "all integers in (-2^18, 2^18): conversion to scalars is reduction modulo the order", |c| {
        let blk: Vec<i64> = (0..256).collect();
        let i = *c.pick(&blk); c.label(|| format!("block {i}"));
        for z in (i * 2048 - (1 << 18))..((i + 1) * 2048 - (1 << 18)) { let z = Z::i(z); c.state(&z); one_int::<SP16>(c, &z); }
        c.trace();
    });
    let step = r.by_tier(1021u64, 61);
    let xs: Vec<u64> = { let mut v: Vec<u64> = (0..Q).step_by(step as usize).collect(); v.extend([1, 2, 3, Q / 2, Q / 2 + 1, Q - 1, Q - 2]); v.sort(); v.dedup(); v };
    r.explore("scalar-pairs-16", "a grid of scalars of the 16-bit curve against all scalars: sums, differences, products", |c| {
        let x = *c.pick(&xs); c.label(|| format!("scalar {x}"));
        let a = sc::<SP16>(&Nat::u(x));
        for y in (0..Q).step_by(7) {
            let b = sc::<SP16>(&Nat::u(y)); c.state(&(x, y)); c.ops(3);
            for (n, g, w) in [("scalar +", a + b, (x + y) % Q), ("scalar -", a - b, (x + Q - y) % Q), ("scalar *", a * b, x * y % Q)] { c.check(val(&g) == Nat::u(w), n, || format!("{n} of {x}, {y}: {} expected {w}", val(&g))); }
        }
        c.trace();
    });
    r.explore("points-all-16", "all multiples of the generator of the 16-bit curve against an independent model of the curve: encoding, x-coordinate, scalar multiplication in every form, addition of the generator, verifying keys", |c| {
        let i = *c.pick(&chunks); c.label(|| format!("chunk {i}"));
        let g = Point::<SP16>::generator();
        for x in (i * chunk..(i + 1) * chunk).filter(|x| *x < Q) {
            let s = sc::<SP16>(&Nat::u(x)); let want = tab[x as usize];
            c.state(&x); c.ops(10);
            let p = g * s;
            let sec = secret(s);
            for (n, o) in [("point * &scalar", g * &s), ("&point * &scalar", &g * &s), ("&point * scalar", &g * s), ("mul_by_generator", s.mul_by_generator()), ("secret mul_by_generator", sec.mul_by_generator()), ("point * &secret", g * &sec), ("&point * &secret", &g * &sec), ("&point * secret", &g * sec.clone()), ("point * secret", g * sec.clone())] { c.check(o == p, n, || format!("{n} differs for scalar {x}")); }
            c.check((p == Point::identity()) == (x == 0), "identity", || format!("{x}"));
            match want {
                None => { c.check(p.to_verifying_key().is_none(), "verifying key of the identity", || "identity".into()); }
                Some((px, _)) => {
                    let e = p.pipe_enc();
                    c.check(e.as_slice() == enc(want), "point encoding", || format!("{x}: {:?}", e));
                    let back = dec_pt::<SP16>(&enc(want)); c.check(back.as_ref() == Ok(&p), "point decoding", || format!("{x}: {:?}", back));
                    let xc = p.x_coordinate(); c.check(val(&xc) == Nat::u(px % Q), "x_coordinate", || format!("{x}: {} expected {}", val(&xc), px % Q));
                    match p.to_verifying_key() { None => { c.fail("verifying key", format!("{x}")); } Some(k) => { c.check(Point::<SP16>::from_verifying_key(&k) == p, "verifying key round trip", || format!("{x}")); } }
                    let nx = (x + 1) % Q; let sum = p + g;
                    if nx != 0 { c.check(sum.pipe_enc().as_slice() == enc(tab[nx as usize]), "point + generator", || format!("{x}")); } else { c.check(sum == Point::identity(), "point + generator", || format!("{x}")); }
                }
            }
        }
        c.trace();
    });
    r.explore("point-pairs-16", "a grid of pairs of points: addition, sums, distributivity of scalar multiplication", |c| {
        let x = *c.pick(&xs); c.label(|| format!("{x}"));
        let p = sc::<SP16>(&Nat::u(x)).mul_by_generator();
        for &y in &xs {
            let b = sc::<SP16>(&Nat::u(y)); let o = b.mul_by_generator(); c.state(&(x, y)); c.ops(4);
            let want = sc::<SP16>(&Nat::u((x + y) % Q)).mul_by_generator();
            c.check(p + o == want, "point +", || format!("{x} {y}"));
            c.check([p, o].iter().sum::<Point<SP16>>() == want && [p, o].into_iter().sum::<Point<SP16>>() == want, "point sum", || format!("{x} {y}"));
            c.check(p * b == sc::<SP16>(&Nat::u(x * y % Q)).mul_by_generator(), "point * scalar", || format!("{x} {y}"));
            c.check((p == o) == (x == y), "point equality", || format!("{x} {y}"));
        }
        c.trace();
    });
    r.explore("reduced-bytes-16", "all 17-bit values and boundary 64-bit values: reduction of a hash to a scalar", |c| {
        let i = c.choose(128) as u64; c.label(|| format!("block {i}"));
        let mut vs: Vec<u64> = (i * 1024..(i + 1) * 1024).collect();
        if i == 0 { for k in 17..64 { for d in [0i64, 1, -1] { vs.push((1u64 << k).wrapping_add(d as u64)); } } vs.push(u64::MAX); vs.push(u64::MAX / Q * Q); vs.push(u64::MAX / Q * Q - 1); }
        for v in vs { c.state(&v); c.ops(2); let s = Scalar::<SP16>::from_reduced_bytes(Nat::u(v).to_be(24)); c.check(val(&s) == Nat::u(v % Q), "from_reduced_bytes", || format!("{v}: {} expected {}", val(&s), v % Q));
            let s = quiet(|| Scalar::<SP16>::try_from_be_bytes(&Nat::u(v).to_be(24))); c.check(matches!(&s, Ok(Ok(x)) if v < Q && val(x) == Nat::u(v)) || matches!(&s, Ok(Err(_)) if v >= Q), "try_from_be_bytes", || format!("{v}: {:?}", s)); }
        c.trace();
    });
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("C06");
    r.assume("the field and group arithmetic of the elliptic curve libraries is trusted for the secp256k1 curve beyond the explored values; for the 16-bit curve it is compared with an independent model");
    tiny(&mut r);
    boundary::<SP16>(&mut r, "16");
    boundary::<TestParams>(&mut r, "32");
    boundary::<ProductionParams112>(&mut r, "k256-112");
    boundary::<ProductionParams128>(&mut r, "k256-128");
    r.finish()
}
