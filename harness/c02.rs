// C02: key material generation and import only produce usable, consistent keys.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/micro.rs"] mod micro;
use big::*; use util::*; use engine::*; use tree::*; use micro::*;
use std::collections::BTreeMap;
use crypto_bigint::{modular::Retrieve, Integer, Monty};
use rand_core::{CryptoRng, RngCore};
use crate::paillier::*;
use crate::uint::ToMontgomery;
use crate::dev::PaillierTest;
use crate::k256::PaillierProduction112;

trait PP: PaillierParams<HalfUint: Nt, Uint: Nt, WideUint: Nt> + serde::Serialize + serde::de::DeserializeOwned + Sync {}
impl<P: PaillierParams<HalfUint: Nt, Uint: Nt, WideUint: Nt> + serde::Serialize + serde::de::DeserializeOwned + Sync> PP for P {}

/// A random source with a fault: after `at` bytes it starts over once, repeating everything it returned before.
/// `first` replaces its first bytes. It gives up after a million bytes.
struct FaultRng { det: DetRng, first: Vec<u8>, at: usize, log: Vec<u8>, pos: usize, calls: Vec<usize> }
impl FaultRng { fn new(seed: u64, first: Vec<u8>, at: usize) -> Self { FaultRng { det: DetRng(seed), first, at, log: vec![], pos: 0, calls: vec![] } } }
impl RngCore for FaultRng {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.calls.push(self.pos);
        for x in d {
            let i = self.pos; self.pos += 1;
            assert!(i < 8 << 20, "the random source was asked for 8 MB");
            *x = if i >= self.at && i < 2 * self.at { self.log[i - self.at] } else { self.first.get(i).copied().unwrap_or_else(|| self.det.next_u64() as u8) };
            if i < self.at { self.log.push(*x); }
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for FaultRng {}

/// Compares everything derived from a pair of primes with its definition.
fn derived<P: PP>(c: &mut Ctl, sk: &SecretKeyPaillier<P>, p: &Nat, q: &Nat) {
    let (n, phi) = (p.mul(q), p.sub(&Nat::one()).mul(&q.sub(&Nat::one())));
    let n2 = n.mul(&n);
    let ctx = || format!("p={p} q={q}");
    c.ops(14);
    let pub_ = sk.public_key();
    let (zp_, zq_) = (sk.p_signed(), sk.q_signed());
    c.check(zs(&zp_) == Z::n(p.clone()) && zp_.bound() == P::PRIME_BITS, "p_signed", || format!("{}: {} bound {}", ctx(), zs(&zp_), zp_.bound()));
    c.check(zs(&zq_) == Z::n(q.clone()) && zq_.bound() == P::PRIME_BITS, "q_signed", || format!("{}: {} bound {}", ctx(), zs(&zq_), zq_.bound()));
    let t = sk.totient_wide_unsigned();
    c.check(zu(&t) == Z::n(phi.clone()) && t.bound() >= phi.bits(), "totient", || format!("{}: {}", ctx(), zu(&t)));
    let it = sk.inv_totient().expose_secret().retrieve().nat();
    c.check(Some(&it) == phi.inv(&n).as_ref(), "inverse of the totient", || format!("{}: {it}", ctx()));
    let im = sk.inv_modulus();
    c.check(Some(zu(im).abs) == n.inv(&phi), "inverse of the modulus", || format!("{}: {}", ctx(), zu(im)));
    c.check(im.bound() >= zu(im).abs.bits(), "bound of the inverse of the modulus", ctx);
    c.check(pub_.modulus().nat() == n && pub_.modulus_nonzero().nat() == n && pub_.modulus_wide_nonzero().nat() == n, "modulus", ctx);
    let ms = pub_.modulus_signed();
    c.check(zp(&ms) == Z::n(n.clone()) && ms.bound() == P::MODULUS_BITS, "modulus_signed", || format!("{}: {} bound {}", ctx(), zp(&ms), ms.bound()));
    c.check(pub_.modulus_mod_modulus_squared().retrieve().nat() == n, "modulus modulo its square", ctx);
    // the parameters of the two residue rings: -1 plus 1 is 0, and -1 is N-1 (or N^2-1)
    let m1 = -<<P::Uint as Integer>::Monty as Monty>::one(pub_.monty_params_mod_n().clone());
    c.check(m1.retrieve().nat() == n.sub(&Nat::one()), "parameters modulo N", ctx);
    let m2 = -<<P::WideUint as Integer>::Monty as Monty>::one(pub_.monty_params_mod_n_squared().clone());
    c.check(m2.retrieve().nat() == n2.sub(&Nat::one()), "parameters modulo N^2", ctx);
    // storage and wire forms
    let w = sk.clone().into_wire();
    let w2: SecretKeyPaillierWire<P> = from_cbor(&to_cbor(&w)).expect("secret key");
    c.check(to_tree(&w) == to_tree(&w2), "storage of a secret key", ctx);
    c.check(w.public_key() == w2.public_key() && w.public_key() == *pub_.as_wire() && pub_.clone().into_wire() == *pub_.as_wire(), "public key of a stored secret key", ctx);
    c.check(w.public_key().modulus().nat() == n, "modulus of the public key's wire form", ctx);
    c.check(w2.clone().into_precomputed().public_key() == pub_ && w.public_key().into_precomputed() == *pub_, "public key after storage", ctx);
    let pw: PublicKeyPaillierWire<P> = from_cbor(&to_cbor(pub_.as_wire())).expect("public key");
    c.check(pw == *pub_.as_wire(), "storage of a public key", ctx);
    let js = serde_json::to_string(&w).unwrap(); let w3: SecretKeyPaillierWire<P> = serde_json::from_str(&js).expect("secret key");
    c.check(to_tree(&w3) == to_tree(&w), "storage of a secret key (text)", ctx);
}
fn crt<P: PP>(c: &mut Ctl, sk: &SecretKeyPaillier<P>, p: &Nat, q: &Nat, x: &Nat) {
    let n = p.mul(q);
    let ctx = || format!("p={p} q={q} x={x}");
    c.ops(3);
    let Some((a, b)) = c.guard("CRT split panics", ctx, || sk.rns_split(&P::Uint::of(x))) else { return };
    let (va, vb) = (a.retrieve().nat(), b.retrieve().nat());
    c.check(va == x.rem(p) && vb == x.rem(q), "CRT split", || format!("{}: ({va}, {vb})", ctx()));
    if let Some(j) = c.guard("CRT join panics", ctx, || sk.rns_join(&(a.clone(), b.clone()))) { c.check(j.nat() == x.rem(&n), "CRT join", || format!("{}: {}", ctx(), j.nat())); }
    let qr = |x: &Nat, p: &Nat| x.rem(p).is_zero() || x.powmod(&p.shr(1), p) == Nat::one();
    let Some(s) = c.guard("square root panics", ctx, || sk.rns_sqrt(&(a, b))) else { return };
    let want = qr(x, p) && qr(x, q);
    c.check(s.is_some() == want, "existence of a square root", || format!("{}: {}", ctx(), s.is_some()));
    if let Some((a, b)) = s {
        c.check(a.retrieve().nat().powmod(&Nat::u(2), p) == x.rem(p) && b.retrieve().nat().powmod(&Nat::u(2), q) == x.rem(q), "square root", ctx);
        let j = sk.rns_join(&(a, b)).nat(); c.check(j.mul(&j).rem(&n) == x.rem(&n), "square root modulo N", || format!("{}: {j}", ctx()));
    }
}
/// Known factors of the ring-Pedersen secret's modulus, found from the modulus and its totient.
fn factors(n: &Nat, phi: &Nat) -> Option<(Nat, Nat)> {
    if *phi > n.add(&Nat::one()) { return None; }
    let s = n.add(&Nat::one()).sub(phi); let s2 = s.mul(&s); let n4 = n.shl(2);
    if n4 > s2 { return None; }
    let d = s2.sub(&n4); let r = d.sqrt(); if r.mul(&r) != d || r > s { return None; }
    let (a, b) = (s.add(&r).shr(1), s.sub(&r).shr(1));
    (a.mul(&b) == *n).then_some((a, b))
}
/// Generates a Paillier key with this random source and checks it.
fn generated<P: PP>(c: &mut Ctl, rng: &mut FaultRng, what: &str) -> Option<(SecretKeyPaillier<P>, Nat, Nat)> {
    c.ops(1);
    let ctx = || format!("{} bits, {what}", P::PRIME_BITS);
    let w = c.guard("key generation panics", ctx, || SecretKeyPaillierWire::<P>::random(rng))?;
    let sk = c.guard("precomputation for a generated key panics", ctx, || w.clone().into_precomputed())?;
    let (p, q) = (zs(&sk.p_signed()).abs, zs(&sk.q_signed()).abs);
    for x in [&p, &q] {
        c.check(x.is_prime(), "a generated number is not prime", || format!("{}: {x}", ctx()));
        c.check(x.bits() == P::PRIME_BITS, "size of a generated prime", || format!("{}: {x}", ctx()));
        c.check(x.rem(&Nat::u(4)) == Nat::u(3), "a generated prime is not 3 mod 4", || format!("{}: {x}", ctx()));
    }
    c.check(p != q, "the generated primes are equal", || format!("{}: {p}", ctx()));
    c.check(p.mul(&q).bits() == P::MODULUS_BITS, "size of the generated modulus", || format!("{}: {}", ctx(), p.mul(&q)));
    c.state(&(P::PRIME_BITS, &p, &q));
    derived(c, &sk, &p, &q);
    Some((sk, p, q))
}
fn generated_setup<P: PP>(c: &mut Ctl, rng: &mut FaultRng, what: &str) {
    c.ops(1);
    let ctx = || format!("{} bits, {what}", P::PRIME_BITS);
    let Some(s) = c.guard("setup generation panics", ctx, || RPSecret::<P>::random(rng)) else { return };
    let n = s.modulus().nat(); let phi = s.totient_nonzero().expose_secret().nat();
    let f = factors(&n, &phi);
    if !c.check(f.is_some(), "totient of the setup", || format!("{}: N={n} totient {phi}", ctx())) { return; }
    let (p, q) = f.unwrap();
    for x in [&p, &q] {
        c.check(x.is_prime() && x.shr(1).is_prime(), "a generated number is not a safe prime", || format!("{}: {x}", ctx()));
        c.check(x.bits() == P::PRIME_BITS, "size of a generated safe prime", || format!("{}: {x}", ctx()));
    }
    c.check(p != q, "the generated safe primes are equal", || format!("{}: {p}", ctx()));
    let l = zu(s.lambda()).abs;
    c.check(l < phi.shr(2) && s.lambda().bound() >= l.bits(), "range of the setup's secret", || format!("{}: lambda {l} totient {phi}", ctx()));
    c.state(&(1u8, P::PRIME_BITS, &p, &q, &l));
    // the setup is related by its secret, also after storage
    let Some(rp) = c.guard("setup from a secret panics", ctx, || RPParams::<P>::random_with_secret(rng, &s)) else { return };
    let (s0, t0) = (rp.base_value().retrieve().nat(), rp.base_randomizer().retrieve().nat());
    c.check(rp.modulus().nat() == n, "modulus of the setup", ctx);
    c.check(t0.powmod(&l, &n) == s0, "the bases of the setup are not related by its secret", || format!("{}: s={s0} t={t0} lambda={l}", ctx()));
    let qr = |x: &Nat, p: &Nat| x.powmod(&p.shr(1), p) == Nat::one();
    c.check(t0.gcd(&n) == Nat::one() && qr(&t0, &p) && qr(&t0, &q), "the base of the setup is not a square", || format!("{}: t={t0}", ctx()));
    let w = rp.to_wire(); let w2: RPParamsWire<P> = from_cbor(&to_cbor(&w)).expect("setup"); let back = w2.to_precomputed();
    c.check(to_tree(&w) == to_tree(&w2) && back.modulus().nat() == n && back.base_value().retrieve().nat() == s0 && back.base_randomizer().retrieve().nat() == t0 && w.modulus().nat() == n, "storage of a setup", ctx);
    for _ in 0..4 { let x = s.random_residue_mod_totient(rng); c.ops(1); c.check(zu(&x).abs < phi && x.bound() >= zu(&x).abs.bits(), "residue modulo the totient", || format!("{}: {}", ctx(), zu(&x))); }
}

fn micro(r: &mut Runner) {
    let tmpl = sk_template::<8>();
    let mut ps_: Vec<u64> = vec![3, 7]; for b in 4..=8 { ps_.extend(blum_primes(b)); }
    let good = |p: u64, q: u64| p != q && Nat::u(p * q).gcd(&Nat::u((p - 1) * (q - 1))) == Nat::one();
    let mut pairs = vec![]; for p in &ps_ { for q in &ps_ { if good(*p, *q) { pairs.push((*p, *q)); } } }
    let lim = r.by_tier(4000, 60000);
    r.explore("derived", "all ordered pairs of primes below 256 that are 3 mod 4 and coprime to the totient: all derived values against their definitions", |c| {
        let (p, q) = *c.pick(&pairs); c.label(|| format!("p={p} q={q}")); c.state(&(p, q));
        let (p, q) = (Nat::u(p), Nat::u(q));
        let Some(sk) = c.guard("precomputation panics", || format!("p={p} q={q}"), || sk_wire::<MP<8>>(&tmpl, &p, &q).into_precomputed()) else { return };
        derived(c, &sk, &p, &q);
        c.trace();
    });
    let some: Vec<(u64, u64)> = pairs.iter().copied().filter(|(p, q)| p * q < lim).collect();
    r.explore("crt", &format!("all these pairs with a modulus below {lim}: every residue (and values of up to 128 bits) split, joined, and its square root taken"), |c| {
        let (p, q) = *c.pick(&some); c.label(|| format!("p={p} q={q}"));
        let n = p * q; let (p, q) = (Nat::u(p), Nat::u(q));
        let sk = sk_wire::<MP<8>>(&tmpl, &p, &q).into_precomputed();
        for x in 0..n { c.state(&(&p, &q, x)); crt(c, &sk, &p, &q, &Nat::u(x)); }
        for b in [16u32, 63, 64, 127, 128] { for x in [Nat::pow2(b).sub(&Nat::one()), Nat::pow2(b - 1), Nat::u(n).shl(b - 18 .min(b))] { if x.bits() <= 128 { c.state(&(&p, &q, &x)); crt(c, &sk, &p, &q, &x); } } }
        c.trace();
    });
}
fn generation<P: PP>(r: &mut Runner, seeds: u64, firsts: usize) {
    let b = P::PRIME_BITS;
    r.explore(&format!("generate-{b}"), &format!("Paillier keys of two {b}-bit primes: {firsts} values repeated in the first eight random bytes, {seeds} streams"), |c| {
        let first = c.choose(firsts) as u8; let seed = c.choose(seeds as usize) as u64; c.label(|| format!("first byte {first:#x} stream {seed}"));
        let mut rng = FaultRng::new(seed, vec![first; 8], 0);
        let what = format!("first byte {first:#x} stream {seed}");
        if let Some((sk, p, q)) = generated::<P>(c, &mut rng, &what) { let n = p.mul(&q); for x in [Nat::zero(), Nat::one(), p.clone(), q.clone(), n.sub(&Nat::one()), n.shr(1), Nat::u(4), p.add(&Nat::u(2)).mul(&p)] { crt(c, &sk, &p, &q, &x); } }
        c.trace();
    });
    r.explore(&format!("generate-repeat-{b}"), &format!("Paillier keys of two {b}-bit primes when the random source starts over after any number of its first calls, {seeds} streams"), |c| {
        let seed = c.choose(seeds as usize) as u64;
        let mut plain = FaultRng::new(seed, vec![], 0);
        if quiet(|| SecretKeyPaillierWire::<P>::random(&mut plain)).is_err() { c.fail("key generation panics", format!("{b} bits, stream {seed}")); return; }
        let mut at: Vec<usize> = plain.calls.clone(); at.push(plain.pos); at.dedup(); at.retain(|x| *x > 0); at.truncate(60);
        let at = *c.pick(&at); c.label(|| format!("stream {seed} starts over after {at} bytes"));
        generated::<P>(c, &mut FaultRng::new(seed, vec![], at), &format!("stream {seed} starts over after {at} bytes"));
        c.trace();
    });
}
fn setups<P: PP>(r: &mut Runner, seeds: u64, firsts: usize, faults: usize) {
    let b = P::PRIME_BITS;
    r.explore(&format!("setup-{b}"), &format!("ring-Pedersen setups of two {b}-bit safe primes: {firsts} values repeated in the first eight random bytes, {seeds} streams"), |c| {
        let first = c.choose(firsts) as u8; let seed = c.choose(seeds as usize) as u64; c.label(|| format!("first byte {first:#x} stream {seed}"));
        generated_setup::<P>(c, &mut FaultRng::new(seed, vec![first; 8], 0), &format!("first byte {first:#x} stream {seed}"));
        c.trace();
    });
    if faults == 0 { return; }
    r.explore(&format!("setup-repeat-{b}"), &format!("the same when the random source starts over after any number (up to {faults}) of its first calls, {seeds} streams"), |c| {
        let seed = c.choose(seeds as usize) as u64;
        let mut plain = FaultRng::new(seed, vec![], 0);
        if quiet(|| RPSecret::<P>::random(&mut plain)).is_err() { c.fail("setup generation panics", format!("{b} bits, stream {seed}")); return; }
        let mut at: Vec<usize> = plain.calls.clone(); at.push(plain.pos); at.dedup(); at.retain(|x| *x > 0);
        if at.len() > faults { let n = at.len(); at = (0..faults).map(|i| at[i * n / faults]).collect(); }
        let at = *c.pick(&at); c.label(|| format!("stream {seed} starts over after {at} bytes"));
        generated_setup::<P>(c, &mut FaultRng::new(seed, vec![], at), &format!("stream {seed} starts over after {at} bytes"));
        c.trace();
    });
}
/// Complete counts of the setup's secret and of residues modulo the totient, for one small setup.
fn census(r: &mut Runner) {
    r.explore("totient-residues", "one micro setup of every stream: residues modulo the totient for every 16-bit output of the random source", |c| {
        let seed = c.choose(6) as u64; c.label(|| format!("stream {seed}"));
        let s = RPSecret::<MP<6>>::random(&mut DetRng(seed)); let phi = s.totient_nonzero().expose_secret().nat().to_u64();
        let mut m: BTreeMap<u64, u64> = BTreeMap::new();
        let bits = 64 - phi.leading_zeros();
        for x in 0..(1u64 << bits) {
            let mut rng = ScriptRng::new(x.to_le_bytes().to_vec()); rng.fill = 1;
            let v = zu(&s.random_residue_mod_totient(&mut rng)).abs.to_u64(); c.ops(1); c.state(&(seed, v, phi));
            c.check(v < phi, "residue modulo the totient", || format!("totient {phi}: {v}"));
            if rng.over == 0 { *m.entry(v).or_insert(0) += 1; }
        }
        let v: Vec<u64> = m.values().copied().collect();
        c.check(m.len() as u64 == phi && v.iter().all(|x| *x == v[0]) || m.len() < 2, "residues modulo the totient: coverage or bias", || format!("totient {phi}: {} values", m.len()));
        c.trace();
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("C02");
    r.assume("primality is decided by Miller-Rabin with the first 20 prime bases, which is exact below 2^64");
    r.assume("key generation is explored over a fixed set of random streams and over faults of the random source (a chosen first byte, starting over after any of its calls), not over all streams");
    micro(&mut r);
    let n = r.by_tier(1, 8);
    generation::<MP<7>>(&mut r, 4 * n, 256);
    generation::<MP<8>>(&mut r, 16 * n, 256);
    generation::<MP<13>>(&mut r, 16 * n, 256);
    generation::<MP<32>>(&mut r, 32 * n, 32);
    setups::<MP<6>>(&mut r, 4 * n, 64, 60);
    setups::<MP<8>>(&mut r, 8 * n, 256, 60);
    setups::<MP<16>>(&mut r, 8 * n, 64, 60);
    setups::<MP<32>>(&mut r, 16 * n, 16, 40);
    generation::<PaillierTest>(&mut r, 16 * n, 8);
    setups::<PaillierTest>(&mut r, 8 * n, 4, 20);
    if r.thorough() { generation::<PaillierProduction112>(&mut r, 1, 1); }
    census(&mut r);
    r.finish()
}
