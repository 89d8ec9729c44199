// C05: range checks and range sampling cover exactly the documented interval.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/micro.rs"] mod micro;
use big::*; use util::*; use engine::*; use tree::*; use micro::*;
use std::collections::BTreeMap;
use crypto_bigint::{U64, U128, U256, U512, Integer, Bounded, RandomMod, NonZero, modular::Retrieve, subtle::ConditionallySelectable};
use zeroize::Zeroize;
use digest::XofReader;
use crate::uint::{SecretSigned, PublicSigned, FromXofReader, Extendable, BoxedEncoding};
use crate::paillier::*;
use crate::curve::Scalar;
use crate::params::SchemeParams;

trait T: Nt + Integer + Bounded + Zeroize + ConditionallySelectable + RandomMod + BoxedEncoding + Send + Sync + std::hash::Hash + Eq {}
impl<X: Nt + Integer + Bounded + Zeroize + ConditionallySelectable + RandomMod + BoxedEncoding + Send + Sync + std::hash::Hash + Eq> T for X {}

/// An extendable output that returns scripted bytes, then `fill`.
struct Xof { bytes: Vec<u8>, pos: usize, fill: u8, over: usize }
impl Xof { fn new(bytes: Vec<u8>, fill: u8) -> Self { Xof { bytes, pos: 0, fill, over: 0 } } }
impl XofReader for Xof { fn read(&mut self, b: &mut [u8]) { for x in b { *x = match self.bytes.get(self.pos) { Some(v) => *v, None => { self.over += 1; assert!(self.over < 1 << 20, "the scripted reader was exhausted"); self.fill } }; self.pos += 1; } } }

fn range_checks<A: T>(r: &mut Runner, name: &str) {
    let w = A::width();
    let all: Vec<u32> = (1..=w).collect();
    r.explore(&format!("range-check-{name}"), "every exponent 1..=width with every value around both interval ends, zero, powers of two, and the limits", |c| {
        let exp = *c.pick(&all);
        c.label(|| format!("exp {exp}"));
        let mut vals: Vec<Z> = vec![];
        let h = Nat::pow2(exp - 1);
        for base in [Z::zero(), Z::n(h.clone()), Z::new(true, h.clone()), Z::n(Nat::pow2(exp)), Z::new(true, Nat::pow2(exp)), Z::n(Nat::pow2(exp.saturating_sub(2))), Z::new(true, Nat::pow2(exp.saturating_sub(2))), Z::n(Nat::pow2(w - 1)), Z::new(true, Nat::pow2(w - 1))] {
            for d in -3i64..=3 { let v = base.add(&Z::i(d)); if v.abs.bits() < w { vals.push(v); } }
        }
        for k in 0..w - 1 { vals.push(Z::n(Nat::pow2(k))); vals.push(Z::new(true, Nat::pow2(k))); }
        if exp <= 6 { for v in -70i64..=70 { vals.push(Z::i(v)); } }
        for v in &vals {
            for b in [v.abs.bits(), w - 1] {
                c.state(&(name, exp, v, b)); c.ops(3);
                let want = in_exponent_range(v, exp);
                let ctx = || format!("value {v} (bound {b}), exponent {exp}");
                let p: PublicSigned<A> = ps(v, b);
                if let Some(got) = c.guard("public range check panics", ctx, || p.is_in_exponent_range(exp)) { c.check(got == want, "public range check", || format!("{}: {} expected {}", ctx(), got, want)); }
                let s: SecretSigned<A> = ss(v, b);
                let got = quiet(|| s.assert_exponent_range(exp)).is_ok();
                c.check(got == want, "secret range assertion", || format!("{}: passes={} expected {}", ctx(), got, want));
                if let Some(e) = c.guard("ensure_exponent_range panics", ctx, || ct(s.clone().ensure_exponent_range(exp))) {
                    // the widened bound has to fit as well
                    let want = want && exp < w - 1;
                    c.check(e.is_some() == want, "ensure_exponent_range", || format!("{}: is_some={} expected {}", ctx(), e.is_some(), want));
                    if let Some(e) = e { c.check(zs(&e) == *v && v.abs.bits() <= e.bound() && e.bound() < w, "ensure_exponent_range result", || format!("{}: {} bound {}", ctx(), zs(&e), e.bound())); }
                }
            }
        }
        c.trace();
    });
}

/// Feeds every 16-bit pattern to a sampler, as the little- and as the big-endian first word of its randomness.
/// Returns the count of every value, for the placement that the sampler is sensitive to,
/// not counting the patterns for which it asked for more.
fn census(f: impl Fn(&mut ScriptRng) -> Z) -> [BTreeMap<String, (Z, u64)>; 2] {
    [false, true].map(|be| {
        let mut m = BTreeMap::new();
        for x in 0..65536u64 {
            let mut rng = ScriptRng::new(if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() });
            let z = f(&mut rng);
            if rng.over == 0 { m.entry(z.to_string()).or_insert((z, 0)).1 += 1; }
        }
        m
    })
}
fn census_check(c: &mut Ctl, key: &str, m: [BTreeMap<String, (Z, u64)>; 2], lo: &Z, hi: &Z, ctx: &dyn Fn() -> String) {
    let size = hi.sub(lo).add(&Z::i(1)).abs.to_u64() as usize;
    for mm in &m { for (z, _) in mm.values() { c.check(!z.sub(lo).neg && !hi.sub(z).neg, &format!("{key} range"), || format!("{}: sampled {} outside of [{}, {}]", ctx(), z, lo, hi)); } }
    // the placement the sampler depends on has the most distinct values
    let mm = if m[0].len() >= m[1].len() { &m[0] } else { &m[1] };
    if mm.len() < 2 && size > 1 { return; } // this sampler reads its randomness in some other way: only the range is checked
    c.check(mm.len() == size, &format!("{key} coverage"), || format!("{}: only {} of {} values are reachable", ctx(), mm.len(), size));
    let (a, b) = (mm.values().map(|x| x.1).min().unwrap_or(0), mm.values().map(|x| x.1).max().unwrap_or(0));
    c.check(a == b, &format!("{key} bias"), || format!("{}: counts of values range from {a} to {b}", ctx()));
}

fn interval(exp: u32, scale: &Nat) -> (Z, Z) { let h = Z::n(scale.shl(exp - 1)); (h.neg().add(&Z::i(1)), h) }

fn sampling<A: T + Extendable<W>, W: T>(r: &mut Runner, name: &str) {
    let w = A::width();
    let exps: Vec<u32> = (1..=13).collect();
    r.explore(&format!("random-{name}"), "every 16-bit random word for every exponent up to 13: exact census of random_in_exponent_range", |c| {
        let exp = *c.pick(&exps); c.label(|| format!("exp {exp}"));
        let m = census(|rng| { let x = SecretSigned::<A>::random_in_exponent_range(rng, exp); assert!(x.bound() >= zs(&x).abs.bits() && x.bound() < w, "bound"); zs(&x) });
        c.ops(131072); for z in m[0].values().chain(m[1].values()) { c.state(&(name, 1u8, exp, &z.0)); }
        let (lo, hi) = interval(exp, &Nat::one());
        census_check(c, "random_in_exponent_range", m, &lo, &hi, &|| format!("exp {exp}")); c.trace();
    });
    let scales: Vec<u64> = vec![1, 2, 3, 5, 7, 8, 15, 33, 127];
    r.explore(&format!("random-scaled-{name}"), "every 16-bit random word for exponents up to 5 and nine scales: exact census of random_in_exponent_range_scaled", |c| {
        let exp = c.choose(5) as u32 + 1; let scale = *c.pick(&scales); c.label(|| format!("exp {exp} scale {scale}"));
        let (lo, hi) = interval(exp, &Nat::u(scale));
        let m = census(|rng| { let x: SecretSigned<W> = SecretSigned::<A>::random_in_exponent_range_scaled(rng, exp, &A::of(&Nat::u(scale))); assert!(x.bound() >= zs(&x).abs.bits(), "bound"); zs(&x) });
        c.ops(131072); for z in m[0].values() { c.state(&(name, 2u8, exp, scale, &z.0)); }
        census_check(c, "random_in_exponent_range_scaled", m, &lo, &hi, &|| format!("exp {exp} scale {scale}")); c.trace();
    });
    let big: Vec<u32> = (14..w).collect();
    r.explore(&format!("random-ends-{name}"), "every larger exponent with extreme outputs of the random source", |c| {
        let exp = *c.pick(&big); c.label(|| format!("exp {exp}"));
        let (lo, hi) = interval(exp, &Nat::one());
        let mut seen = vec![];
        for pat in 0..6u8 {
            let n = (w / 8 * 2) as usize;
            let s = match pat { 0 => vec![0; n], 1 => vec![0xff; 8], 2 => vec![0x55; n], 3 => { let mut v = vec![0; n]; v[0] = 1; v } 4 => { let mut v = vec![0; n]; v[7] = 0x80; v } _ => vec![0x0f; n] };
            let mut rng = ScriptRng::new(s);
            let x = SecretSigned::<A>::random_in_exponent_range(&mut rng, exp); let z = zs(&x);
            c.ops(1); c.state(&(name, 3u8, exp, &z));
            c.check(!z.sub(&lo).neg && !hi.sub(&z).neg && x.bound() >= z.abs.bits() && x.bound() < w, "random_in_exponent_range range", || format!("exp {exp}: {z}"));
            seen.push(z);
            // scaled by a boundary scale
            for sc in [Nat::pow2(w - exp).sub(&Nat::one()), Nat::one(), Nat::pow2(w - exp - 1).add(&Nat::one())] {
                if sc.is_zero() || sc.bits() > w { continue; }
                let mut rng = ScriptRng::new(vec![if pat == 0 { 0 } else { 0x11 << (pat % 4) }; n * 4]);
                let x: SecretSigned<W> = SecretSigned::<A>::random_in_exponent_range_scaled(&mut rng, exp, &A::of(&sc));
                let z = zs(&x); let (lo, hi) = interval(exp, &sc); c.ops(1);
                c.check(!z.sub(&lo).neg && !hi.sub(&z).neg && x.bound() >= z.abs.bits(), "random_in_exponent_range_scaled range", || format!("exp {exp} scale {sc}: {z}"));
                if pat == 0 { c.check(z == lo, "random_in_exponent_range_scaled low end", || format!("exp {exp} scale {sc}: an all-zero source gives {z}, expected {lo}")); }
            }
        }
        c.check(seen[0] == lo, "random_in_exponent_range low end", || format!("exp {exp}: an all-zero source gives {}, expected {}", seen[0], lo));
        c.trace();
    });
    // deriving from a hash
    let exps: Vec<u32> = (1..=16).collect();
    r.explore(&format!("xof-{name}"), "every output prefix of the extendable hash for every size up to 16 bits: exact census of from_xof_reader and from_xof_reader_in_exponent_range", |c| {
        let exp = *c.pick(&exps); c.label(|| format!("exp {exp}"));
        let nb = exp.div_ceil(8) as usize;
        let mut m: BTreeMap<String, (Z, u64)> = BTreeMap::new(); let mut u: BTreeMap<u64, u64> = BTreeMap::new();
        for x in 0..(1u64 << (8 * nb)) {
            let b = x.to_be_bytes()[8 - nb..].to_vec();
            let mut rd = Xof::new(b.clone(), 0);
            let p = PublicSigned::<A>::from_xof_reader_in_exponent_range(&mut rd, exp); let z = zp(&p);
            c.check(p.bound() >= z.abs.bits() && p.bound() < w, "from_xof_reader_in_exponent_range bound", || format!("{z} bound {}", p.bound()));
            m.entry(z.to_string()).or_insert((z, 0)).1 += 1;
            let v = A::from_xof_reader(&mut Xof::new(b, 0), exp).nat();
            c.check(v.bits() <= exp, "from_xof_reader range", || format!("{v} from {exp} bits"));
            if v.bits() <= 64 { *u.entry(v.to_u64()).or_insert(0) += 1; }
        }
        c.ops(2 << (8 * nb)); for z in m.values() { c.state(&(name, 4u8, exp, &z.0)); }
        let (lo, hi) = interval(exp, &Nat::one());
        census_check(c, "from_xof_reader_in_exponent_range", [m, BTreeMap::new()], &lo, &hi, &|| format!("exp {exp}"));
        let counts: Vec<u64> = u.values().copied().collect();
        c.check(u.len() == 1 << exp && counts.iter().all(|x| *x == counts[0]), "from_xof_reader coverage", || format!("{} bits: {} values", exp, u.len()));
        c.trace();
    });
    let all: Vec<u32> = (1..=w).collect();
    r.explore(&format!("xof-ends-{name}"), "every size up to the width with extreme hash outputs", |c| {
        let exp = *c.pick(&all); c.label(|| format!("exp {exp}"));
        for f in [0u8, 0xff, 0x80, 0x01, 0x7f] {
            let v = A::from_xof_reader(&mut Xof::new(vec![], f), exp).nat(); c.ops(1); c.state(&(name, 5u8, exp, f));
            c.check(v.bits() <= exp, "from_xof_reader range", || format!("{v} from {exp} bits"));
            if f == 0 { c.check(v.is_zero(), "from_xof_reader value", || format!("{v}")); }
            if f == 0xff { c.check(v == Nat::pow2(exp).sub(&Nat::one()), "from_xof_reader high end", || format!("{exp} bits: {v}")); }
            if exp < w {
                let z = zp(&PublicSigned::<A>::from_xof_reader_in_exponent_range(&mut Xof::new(vec![], f), exp)); let (lo, hi) = interval(exp, &Nat::one());
                c.check(!z.sub(&lo).neg && !hi.sub(&z).neg, "from_xof_reader_in_exponent_range range", || format!("exp {exp}: {z}"));
                if f == 0 { c.check(z == lo, "from_xof_reader_in_exponent_range low end", || format!("exp {exp}: {z}")); }
                if f == 0xff { c.check(z == hi, "from_xof_reader_in_exponent_range high end", || format!("exp {exp}: {z}")); }
            }
        }
        c.trace();
    });
}

/// Residue sampling for all moduli made of small primes.
fn residues(r: &mut Runner) {
    let tmpl = sk_template::<5>();
    let primes: Vec<u64> = vec![3, 7, 11, 19, 23, 31];
    let mut keys = vec![]; for (i, p) in primes.iter().enumerate() { for q in &primes[i + 1..] {
        // the scheme requires gcd(N, phi(N)) = 1
        if Nat::u(p * q).gcd(&Nat::u((p - 1) * (q - 1))) == Nat::one() { keys.push((*p, *q)); keys.push((*q, *p)); } } }
    r.explore("residues", "all moduli p*q with p, q in {3,7,11,19,23,31} coprime to their totient, every 16-bit output of the random source: exact census of invertible residues", |c| {
        let (p, q) = *c.pick(&keys); let n = p * q; c.label(|| format!("N = {p}*{q}"));
        let sk = sk_wire::<MP<5>>(&tmpl, &Nat::u(p), &Nat::u(q)).into_precomputed(); let pk = sk.public_key();
        let units: Vec<u64> = (0..n).filter(|x| Nat::u(*x).gcd(&Nat::u(n)) == Nat::one()).collect();
        // from the hash
        let mut cnt: BTreeMap<u64, u64> = BTreeMap::new();
        let nb = Nat::u(n).bits().div_ceil(8) as usize;
        for x in 0..(1u64 << (8 * nb)) {
            let mut b = x.to_be_bytes()[8 - nb..].to_vec(); b.extend_from_slice(&[0u8; 64]);
            // after the scripted value the reader returns zeros, which are not invertible, and then ones
            let mut rd = Xof::new(b, 1);
            let v = pk.invertible_residue_from_xof_reader(&mut rd).nat();
            c.check(v < Nat::u(n), "residue from the hash is not reduced", || format!("N={n}: {v} from hash output {x:#x}"));
            c.check(v.gcd(&Nat::u(n)) == Nat::one(), "residue from the hash is not invertible", || format!("N={n}: {v}"));
            if rd.pos <= nb { *cnt.entry(v.to_u64()).or_insert(0) += 1; }
        }
        c.ops(1 << (8 * nb));
        let vals: Vec<u64> = cnt.values().copied().collect();
        c.check(cnt.keys().copied().collect::<Vec<_>>() == units && vals.iter().all(|v| *v == vals[0]), "residue from the hash: coverage or bias", || format!("N={n}: {} of {} units, counts {:?}", cnt.len(), units.len(), (vals.iter().min(), vals.iter().max())));
        // from the random generator
        let m = census_small(|rng| pk.random_invertible_residue(rng).nat(), 12); c.ops(4096);
        for (v, _) in &m { c.state(&(n, v)); }
        c.check(m.keys().copied().collect::<Vec<_>>() == units || m.len() < 2, "random invertible residue coverage", || format!("N={n}: {:?}", m.keys().collect::<Vec<_>>()));
        let vals: Vec<u64> = m.values().copied().collect();
        c.check(vals.iter().all(|v| *v == vals[0]), "random invertible residue bias", || format!("N={n}"));
        c.trace();
    });
    r.explore("nonsquare", "all these moduli, every output word below 2^10 of the random source with both selector bits: non-squares have Jacobi symbol -1 and are invertible, each equally likely", |c| {
        let (p, q) = *c.pick(&keys); let n = p * q; c.label(|| format!("N = {p}*{q}"));
        let sk = sk_wire::<MP<5>>(&tmpl, &Nat::u(p), &Nat::u(q)).into_precomputed();
        let leg = |x: u64, p: u64| Nat::u(x).powmod(&Nat::u((p - 1) / 2), &Nat::u(p)) == Nat::one();
        let want: Vec<u64> = (0..n).filter(|x| x % p != 0 && x % q != 0 && (leg(*x, p) != leg(*x, q))).collect();
        let mut cnt: BTreeMap<u64, u64> = BTreeMap::new();
        for x in 0..1024u64 { for bit in 0..2u8 {
            let mut s = x.to_le_bytes().to_vec(); s.extend_from_slice(&[bit, 0, 0, 0]);
            let mut rng = ScriptRng::new(s); rng.fill = 1;
            let v = sk.random_nonsquare_residue(&mut rng).nat(); c.ops(1);
            c.check(v < Nat::u(n) && want.contains(&v.to_u64()), "nonsquare residue", || format!("N={p}*{q}: sampled {v}"));
            c.state(&(n, 1u8, &v));
            if rng.over == 0 { *cnt.entry(v.to_u64()).or_insert(0) += 1; }
        } }
        let vals: Vec<u64> = cnt.values().copied().collect();
        c.check(cnt.len() == want.len() && vals.iter().all(|v| *v == vals[0]) || cnt.len() < 2, "nonsquare residue coverage", || format!("N={p}*{q}: {} of {} values, counts {:?}", cnt.len(), want.len(), (vals.iter().min(), vals.iter().max())));
        c.trace();
    });
}
fn sampling_wide<A: T + Extendable<W>, W: T + Extendable<X>, X: T>(r: &mut Runner, name: &str) {
    let (w, ww) = (A::width(), W::width());
    let scales: Vec<u64> = vec![1, 2, 3, 5, 7, 8, 15, 33, 127];
    r.explore(&format!("random-scaled-wide-{name}"), "every 16-bit random word for exponents up to 5 and nine scales: exact census of random_in_exponent_range_scaled_wide", |c| {
        let exp = c.choose(5) as u32 + 1; let scale = *c.pick(&scales); c.label(|| format!("exp {exp} scale {scale}"));
        let (lo, hi) = interval(exp, &Nat::u(scale));
        let m = census(|rng| { let x: SecretSigned<X> = SecretSigned::<A>::random_in_exponent_range_scaled_wide(rng, exp, &W::of(&Nat::u(scale))); assert!(x.bound() >= zs(&x).abs.bits(), "bound"); zs(&x) });
        c.ops(131072); for z in m[0].values() { c.state(&(name, 4u8, exp, scale, &z.0)); }
        census_check(c, "random_in_exponent_range_scaled_wide", m, &lo, &hi, &|| format!("exp {exp} scale {scale}")); c.trace();
    });
    let exps: Vec<u32> = (1..w).collect();
    r.explore(&format!("random-wide-ends-{name}"), "every exponent and boundary scales up to the width with extreme outputs of the random source", |c| {
        let exp = *c.pick(&exps); c.label(|| format!("exp {exp}"));
        for sc in [Nat::one(), Nat::u(3), Nat::pow2(ww / 2).sub(&Nat::one()), Nat::pow2(ww - 1), Nat::pow2(ww).sub(&Nat::one()), Nat::pow2(ww - 2).add(&Nat::one())] { for pat in 0..5u8 {
            let n = (X::width() / 8) as usize;
            let x: SecretSigned<X> = if pat == 0 { SecretSigned::<A>::random_in_exponent_range_scaled_wide(&mut ScriptRng::new(vec![0; n]), exp, &W::of(&sc)) } else { SecretSigned::<A>::random_in_exponent_range_scaled_wide(&mut DetRng(pat as u64), exp, &W::of(&sc)) };
            let z = zs(&x); let (lo, hi) = interval(exp, &sc); c.ops(1); c.state(&(name, 6u8, exp, &sc.to_string(), &z));
            c.check(!z.sub(&lo).neg && !hi.sub(&z).neg && x.bound() >= z.abs.bits(), "random_in_exponent_range_scaled_wide range", || format!("exp {exp} scale {sc}: {z}"));
            if pat == 0 { c.check(z == lo, "random_in_exponent_range_scaled_wide low end", || format!("exp {exp} scale {sc}: an all-zero source gives {z}, expected {lo}")); }
        } }
        c.trace();
    });
}
fn census_small(f: impl Fn(&mut ScriptRng) -> Nat, bits: u32) -> BTreeMap<u64, u64> {
    let mut m = BTreeMap::new();
    for x in 0..(1u64 << bits) { let mut rng = ScriptRng::new(x.to_le_bytes().to_vec()); rng.fill = 1; let v = f(&mut rng); if rng.over == 0 { *m.entry(v.to_u64()).or_insert(0) += 1; } }
    m
}

fn scalars<P: SchemeParams>(r: &mut Runner, name: &str, order: Nat) {
    r.explore(&format!("scalar-{name}"), "extreme and single-byte outputs of the hash and of the random source: scalars are canonical, nonzero where promised, and the hash output is reduced as a whole", |c| {
        let len = core::mem::size_of::<<<P::Curve as elliptic_curve::Curve>::Uint as elliptic_curve::bigint::Encoding>::Repr>();
        let kind = c.choose(3); let pos = c.choose(2 * len + 2); c.label(|| format!("kind {kind} position {pos}"));
        for b in 0..=255u8 {
            let mut s = match kind { 0 => vec![0u8; 2 * len], 1 => vec![0xffu8; 2 * len], _ => { let o = order.to_be(len); let mut v = o.clone(); v.extend(&o); v } };
            if pos < 2 * len { s[pos] = b; } else if b > 0 { break; }
            let lo = Nat::from_be(&s[..len]); let hi = Nat::from_be(&s[len..]);
            let want: Vec<Nat> = [hi.shl(len as u32 * 8).add(&lo), lo.shl(len as u32 * 8).add(&hi)].iter().map(|x| x.rem(&order)).collect();
            let got = Scalar::<P>::from_xof_reader(&mut Xof::new(s.clone(), 0)); let g = Nat::from_be(&got.to_be_bytes());
            c.ops(1); c.state(&(name, &s));
            c.check(g < order, "scalar from hash is not canonical", || format!("{g}"));
            c.check(want.contains(&g), "scalar from hash is not the reduced output", || format!("{s:02x?} -> {g}, expected {} or {}", want[0], want[1]));
            // the internal representation has to be canonical too
            c.check(got + Scalar::ZERO == got && Scalar::<P>::try_from_be_bytes(&got.to_be_bytes()) == Ok(got), "scalar from hash is not canonical", || format!("{g}"));
            let mut rng = ScriptRng::new(s.clone()); rng.fill = 1;
            let x = Scalar::<P>::random(&mut rng); c.check(Nat::from_be(&x.to_be_bytes()) < order, "random scalar is not canonical", || format!("{s:02x?}"));
            let mut rng = ScriptRng::new(s.clone()); rng.fill = 1;
            let x = Scalar::<P>::random_nonzero(&mut rng); let v = Nat::from_be(&x.to_be_bytes());
            c.check(v < order && !v.is_zero(), "random nonzero scalar", || format!("{s:02x?} -> {v}"));
            c.ops(2);
        }
        c.trace();
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("C05");
    r.assume("crypto-bigint integers implement the documented semantics of their primitive operations");
    r.assume("unbiasedness is decided over a uniform source by counting all 16-bit outputs of the source; outputs for which the sampler asks for more are rejections, which are uniform by symmetry");
    range_checks::<U64>(&mut r, "u64"); range_checks::<U128>(&mut r, "u128"); if r.thorough() { range_checks::<U256>(&mut r, "u256"); range_checks::<U512>(&mut r, "u512"); }
    sampling::<U64, U128>(&mut r, "u64"); sampling::<U128, U256>(&mut r, "u128"); if r.thorough() { sampling::<U256, U512>(&mut r, "u256"); }
    sampling_wide::<U64, U128, U256>(&mut r, "u64"); if r.thorough() { sampling_wide::<U128, U256, U512>(&mut r, "u128"); }
    residues(&mut r);
    let hexn = |s: &str| { let b: Vec<u8> = (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect(); Nat::from_be(&b) };
    scalars::<crate::k256::ProductionParams112>(&mut r, "secp256k1", hexn("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"));
    { use elliptic_curve::{Curve, bigint::Encoding}; let o = Nat::from_be(tiny_curve::TinyCurve32::ORDER.to_be_bytes().as_ref()); scalars::<crate::dev::TestParams>(&mut r, "tiny32", o); }
    r.finish()
}
