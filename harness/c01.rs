// C01: Paillier encryption is a correct additive homomorphic cryptosystem.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/micro.rs"] mod micro;
use big::*; use util::*; use engine::*; use tree::*; use micro::*;
use std::collections::BTreeMap;
use crypto_bigint::subtle::ConditionallySelectable;
use crate::paillier::*;
use crate::uint::{SecretSigned, PublicSigned, SecretUnsigned};
use crate::dev::PaillierTest;
use crate::k256::PaillierProduction112;

trait PP: PaillierParams<HalfUint: Nt, Uint: Nt, WideUint: Nt> + serde::Serialize + serde::de::DeserializeOwned + Sync {}
impl<P: PaillierParams<HalfUint: Nt, Uint: Nt, WideUint: Nt> + serde::Serialize + serde::de::DeserializeOwned + Sync> PP for P {}

/// The value carried by a serialized newtype around one integer.
fn wire_val<T: serde::Serialize>(t: &T) -> Nat { let v = to_tree(t); let l = leaves(&v); let b: Vec<&Vec<u8>> = l.iter().filter_map(|p| bytes(get(&v, p))).collect(); assert_eq!(b.len(), 1, "one integer"); Nat::from_be(b[0]) }
fn masked<P: PaillierParams<Uint: Nt>>(tmpl: &Value, n: &Nat) -> MaskedRandomizer<P> { let l: Vec<Path> = leaves(tmpl).into_iter().filter(|p| bytes(get(tmpl, p)).is_some()).collect(); let len = bytes(get(tmpl, &l[0])).unwrap().len(); from_tree(&set(tmpl, &l[0], Value::Bytes(n.to_be(len)))).expect("masked randomizer") }
use ciborium::Value;

struct Key<P: PaillierParams> { sk: SecretKeyPaillier<P>, n: Nat, n2: Nat, rand: Vec<(Nat, Randomizer<P>)>, tmpl: Value }
impl<P: PP> Key<P> {
    fn new(sk: SecretKeyPaillier<P>, scripts: impl Iterator<Item = Vec<u8>>, fill: u8) -> Self {
        let n = sk.public_key().modulus().nat();
        let mut m: BTreeMap<Vec<u32>, (Nat, Randomizer<P>)> = BTreeMap::new();
        let mut tmpl = None;
        for s in scripts {
            let mut rng = ScriptRng::new(s); rng.fill = fill;
            let r = Randomizer::random(&mut rng, sk.public_key());
            let one = PublicSigned::<P::Uint>::zero();
            let w = r.to_masked(&r, &one);
            let v = wire_val(&w); if tmpl.is_none() { tmpl = Some(to_tree(&w)); }
            m.entry(v.0.iter().rev().copied().collect()).or_insert((v, r));
        }
        Key { n2: n.mul(&n), n, sk, rand: m.into_values().collect(), tmpl: tmpl.unwrap() }
    }
    fn enc(&self, m: &Z, rho: &Nat) -> Nat { Nat::one().add(&Nat::n_times(&m.modulo(&self.n), &self.n)).mul(&rho.powmod(&self.n, &self.n2)).rem(&self.n2) }
}
impl Nat { fn n_times(a: &Nat, b: &Nat) -> Nat { a.mul(b) } }

/// Encrypts `m` in all available ways and compares with the definition; decrypts and recovers the randomizer.
fn encrypt<P: PP>(c: &mut Ctl, k: &Key<P>, m: &Z, ri: usize) -> Option<Ciphertext<P>> {
    let (rho, r) = &k.rand[ri]; let pk = k.sk.public_key();
    let want = k.enc(m, rho);
    let ctx = || format!("N={} m={m} rho={rho}", k.n);
    let mr = masked::<P>(&k.tmpl, rho);
    let (uw, ww) = (<P::Uint as Nt>::width(), <P::WideUint as Nt>::width());
    let mut out: Option<Ciphertext<P>> = None;
    for tight in [true, false] {
        let mut got: Vec<(&str, Option<Ciphertext<P>>)> = vec![];
        if m.abs.bits() < uw {
            let b = if tight { m.abs.bits() } else { uw - 1 };
            got.push(("new_with_randomizer", c.guard("encryption panics", ctx, || Ciphertext::new_with_randomizer(pk, &ss(m, b), r))));
            got.push(("new_public_with_randomizer", c.guard("encryption panics", ctx, || Ciphertext::new_public_with_randomizer(pk, &ps(m, b), &mr))));
        }
        let b = if tight { m.abs.bits() } else { ww - 1 };
        got.push(("new_wide_with_randomizer", c.guard("encryption panics", ctx, || Ciphertext::new_wide_with_randomizer(pk, &ss(m, b), r))));
        got.push(("new_public_wide_with_randomizer", c.guard("encryption panics", ctx, || Ciphertext::new_public_wide_with_randomizer(pk, &ps(m, b), &mr))));
        c.ops(got.len() as u64);
        for (n, ct) in got { let Some(ct) = ct else { continue }; let v = wire_val(&ct.to_wire()); c.check(v == want, n, || format!("{}: ciphertext {v} expected {want}", ctx())); c.check(ct.public_key() == pk, "public key of a ciphertext", ctx); out = Some(ct); }
    }
    let ct = out?;
    decrypts(c, k, &ct, m, Some(rho), &ctx);
    Some(ct)
}
fn decrypts<P: PP>(c: &mut Ctl, k: &Key<P>, ct: &Ciphertext<P>, m: &Z, rho: Option<&Nat>, ctx: &dyn Fn() -> String) {
    let want = balanced(&m.modulo(&k.n), &k.n);
    c.ops(2);
    if let Some(d) = c.guard("decryption panics", ctx, || ct.decrypt(&k.sk)) { let v = zs(&d); c.check(v == want && d.bound() >= v.abs.bits(), "decrypt", || format!("{}: decrypted {v} expected {want}", ctx())); }
    if let Some(rho) = rho {
        let Some(d) = c.guard("derive_randomizer panics", ctx, || ct.derive_randomizer(&k.sk)) else { return };
        let v = wire_val(&d.to_masked(&d, &PublicSigned::zero()));
        c.check(v == *rho, "derive_randomizer", || format!("{}: derived randomizer {v} expected {rho}", ctx()));
        // ... and it encrypts to the same ciphertext
        let again = Ciphertext::new_with_randomizer(k.sk.public_key(), &ss(&want, want.abs.bits()), &d);
        c.check(again == *ct && wire_val(&again.to_wire()) == wire_val(&ct.to_wire()), "re-encryption with the derived randomizer", ctx);
    }
}
fn wire_round_trip<P: PP>(c: &mut Ctl, k: &Key<P>, ct: &Ciphertext<P>) {
    let w = ct.to_wire();
    let w2: CiphertextWire<P> = from_cbor(&to_cbor(&w)).expect("ciphertext"); c.ops(1);
    let back = w2.to_precomputed(k.sk.public_key());
    c.check(back == *ct, "ciphertext round trip", || format!("N={} {}", k.n, wire_val(&w)));
}
/// All operations on two ciphertexts (with the plaintexts and randomizers they carry).
fn homo<P: PP>(c: &mut Ctl, k: &Key<P>, a: (&Ciphertext<P>, &Z, &Nat), b: (&Ciphertext<P>, &Z, &Nat)) {
    let ctx = || format!("N={} m1={} rho1={} m2={} rho2={}", k.n, a.1, a.2, b.1, b.2);
    let (ca, cb) = (wire_val(&a.0.to_wire()), wire_val(&b.0.to_wire()));
    let want = ca.mul(&cb).rem(&k.n2);
    c.ops(4);
    let sum = a.0 + b.0;
    c.check(wire_val(&sum.to_wire()) == want, "ciphertext & + &", || format!("{}: {}", ctx(), wire_val(&sum.to_wire())));
    c.check(a.0.clone() + b.0 == sum && a.0.clone() + b.0.clone() == sum, "ciphertext + in other forms", ctx);
    decrypts(c, k, &sum, &a.1.add(b.1), Some(&a.2.mul(b.2).rem(&k.n)), &ctx);
    let dif = a.0.clone() - b.0;
    let want = ca.mul(&cb.inv(&k.n2).expect("unit")).rem(&k.n2);
    c.check(wire_val(&dif.to_wire()) == want, "ciphertext -", || format!("{}: {}", ctx(), wire_val(&dif.to_wire())));
    decrypts(c, k, &dif, &a.1.sub(b.1), Some(&a.2.mul(&b.2.inv(&k.n).expect("unit")).rem(&k.n)), &ctx);
}
fn times<P: PP>(c: &mut Ctl, k: &Key<P>, a: (&Ciphertext<P>, &Z, &Nat), e: &Z) {
    let ctx = || format!("N={} m={} rho={} factor {e}", k.n, a.1, a.2);
    let ca = wire_val(&a.0.to_wire());
    let want = Z::powmod(&ca, e, &k.n2).expect("unit");
    let (uw, ww) = (<P::Uint as Nt>::width(), <P::WideUint as Nt>::width());
    let mut got: Vec<(&str, Option<Ciphertext<P>>)> = vec![];
    for tight in [true, false] {
        if e.abs.bits() < uw {
            let b = if tight { e.abs.bits() } else { uw - 1 };
            let (s, p): (SecretSigned<P::Uint>, PublicSigned<P::Uint>) = (ss(e, b), ps(e, b));
            got.push(("ciphertext * secret", c.guard("ciphertext * panics", ctx, || a.0 * &s)));
            got.push(("ciphertext * public", c.guard("ciphertext * panics", ctx, || a.0 * &p)));
            got.push(("owned ciphertext * secret", c.guard("ciphertext * panics", ctx, || a.0.clone() * &s)));
            got.push(("owned ciphertext * public", c.guard("ciphertext * panics", ctx, || a.0.clone() * &p)));
            if !e.neg { let u = ct(SecretUnsigned::<P::Uint>::new(secret(P::Uint::of(&e.abs)), b)).expect("bound"); got.push(("ciphertext * unsigned", c.guard("ciphertext * panics", ctx, || a.0 * &u))); }
        }
        let b = if tight { e.abs.bits() } else { ww - 1 };
        let (s, p): (SecretSigned<P::WideUint>, PublicSigned<P::WideUint>) = (ss(e, b), ps(e, b));
        got.push(("ciphertext * wide secret", c.guard("ciphertext * panics", ctx, || a.0 * &s)));
        got.push(("ciphertext * wide public", c.guard("ciphertext * panics", ctx, || a.0 * &p)));
    }
    c.ops(got.len() as u64);
    let mut last = None;
    for (n, r) in got { let Some(r) = r else { continue }; let v = wire_val(&r.to_wire()); c.check(v == want, n, || format!("{}: {v} expected {want}", ctx())); last = Some(r); }
    if let Some(l) = last { decrypts(c, k, &l, &a.1.mul(e), Z::powmod(a.2, e, &k.n).as_ref(), &ctx); }
}
fn masking<P: PP>(c: &mut Ctl, k: &Key<P>, i: usize, j: usize, e: &Z) {
    let (a, b) = (&k.rand[i], &k.rand[j]);
    let want = Z::powmod(&a.0, e, &k.n).expect("unit").mul(&b.0).rem(&k.n);
    let uw = <P::Uint as Nt>::width();
    for bd in [e.abs.bits(), uw - 1] {
        c.ops(1);
        let ctx = || format!("N={} rho={} exponent={e} (bound {bd}) coefficient={}", k.n, a.0, b.0);
        if let Some(g) = c.guard("to_masked panics", ctx, || a.1.to_masked(&b.1, &ps(e, bd))) { let v = wire_val(&g); c.check(v == want, "to_masked", || format!("{}: {v} expected {want}", ctx())); }
    }
}

fn micro_keys(pairs: &[(u64, u64)]) -> Vec<Key<MP<5>>> {
    let tmpl = sk_template::<5>();
    pairs.iter().map(|(p, q)| Key::new(sk_wire::<MP<5>>(&tmpl, &Nat::u(*p), &Nat::u(*q)).into_precomputed(), (0..1024u64).map(|x| x.to_le_bytes().to_vec()), 1)).collect()
}
fn zrange(n: &Nat, f: i64) -> Vec<Z> { let n = n.to_u64() as i64; (-(n * f)..=n * f).map(Z::i).collect() }

fn small(r: &mut Runner) {
    // 21 = 3*7 and 57 = 3*19 and so on are excluded: gcd(N, phi(N)) must be 1
    let good = |p: u64, q: u64| Nat::u(p * q).gcd(&Nat::u((p - 1) * (q - 1))) == Nat::one();
    let ps_: Vec<u64> = vec![3, 7, 11, 19, 23, 31];
    let mut pairs = vec![]; for p in &ps_ { for q in &ps_ { if p != q && good(*p, *q) { pairs.push((*p, *q)); } } }
    let lim = r.by_tier(260, 720);
    let (few, _): (Vec<_>, Vec<_>) = pairs.iter().copied().partition(|(p, q)| p * q < lim);
    let keys = micro_keys(&few);
    for k in &keys { let n = k.n.to_u64(); let units = (1..n).filter(|x| Nat::u(*x).gcd(&k.n) == Nat::one()).count(); assert_eq!(units, k.rand.len(), "all randomizers can be produced"); }
    r.assume(&format!("micro keys: {} ordered pairs of primes 3 mod 4 with modulus below {lim}, each with all of its units as randomizers", keys.len()));
    r.explore("encrypt-all", "micro keys: every plaintext of the balanced range and its surroundings (-N..N) with every randomizer, in all four encryption forms, decrypted and re-encrypted", |c| {
        let k = c.pick(&keys); let ri = c.choose(k.rand.len()); c.label(|| format!("N={} rho={}", k.n, k.rand[ri].0));
        for m in zrange(&k.n, 1) {
            c.state(&(&k.n, &m, ri));
            if let Some(ct) = encrypt(c, k, &m, ri) { if m.abs.to_u64() % 8 == 0 { wire_round_trip(c, k, &ct); } }
        }
        c.trace();
    });
    r.explore("encrypt-wide", "micro keys: wide plaintexts around multiples of N, N^2 and powers of two", |c| {
        let k = c.pick(&keys); c.label(|| format!("N={}", k.n));
        let mut ms = vec![]; for b in [k.n.clone(), k.n2.clone(), k.n.shl(1), Nat::pow2(20), Nat::pow2(127), Nat::pow2(128), Nat::pow2(254)] { for d in 0..3u64 { ms.push(b.add(&Nat::u(d))); ms.push(b.sub(&Nat::u(d))); } }
        for m in ms { for neg in [false, true] { let z = Z::new(neg, m.clone()); c.state(&(&k.n, &z)); encrypt(c, k, &z, 1); } }
        c.trace();
    });
    r.explore("homomorphism", "micro keys: all pairs of plaintexts with a grid of randomizers: sum and difference of ciphertexts", |c| {
        let k = c.pick(&keys); let n = k.n.to_u64() as i64;
        let h: Vec<Z> = (-(n / 2)..=n / 2).map(Z::i).collect();
        let i = c.choose(h.len()); let m1 = &h[i]; c.label(|| format!("N={} m1={m1}", k.n));
        let r1 = (i * 5) % k.rand.len();
        let pk = k.sk.public_key();
        let c1 = Ciphertext::new_with_randomizer(pk, &ss(m1, m1.abs.bits()), &k.rand[r1].1);
        let step = if n > 100 { 7 } else { 1 };
        for (j, m2) in h.iter().enumerate().skip(i % step).step_by(step) { let r2 = (j * 3 + i) % k.rand.len(); let c2 = Ciphertext::new_with_randomizer(pk, &ss(m2, m2.abs.bits()), &k.rand[r2].1); c.state(&(&k.n, m1, m2, r1, r2)); homo(c, k, (&c1, m1, &k.rand[r1].0), (&c2, m2, &k.rand[r2].0)); }
        c.trace();
    });
    r.explore("multiplication", "micro keys: all plaintexts times all factors in -2N..2N and boundary factors up to the wide integer's limit, every kind of factor", |c| {
        let k = c.pick(&keys); let n = k.n.to_u64() as i64;
        let h: Vec<Z> = (-(n / 2)..=n / 2).map(Z::i).collect();
        let i = c.choose(h.len()); let m1 = &h[i]; c.label(|| format!("N={} m1={m1}", k.n));
        let r1 = (i * 7 + 1) % k.rand.len();
        let c1 = Ciphertext::new_with_randomizer(k.sk.public_key(), &ss(m1, m1.abs.bits()), &k.rand[r1].1);
        let step = if n > 100 { 23 } else { 3 };
        let mut es: Vec<Z> = zrange(&k.n, 2).into_iter().skip(i % step).step_by(step).collect();
        es.extend((-3..=3).map(Z::i));
        if i % 16 == 0 { for b in [126u32, 127, 128, 200, 254] { for z in [Nat::pow2(b), Nat::pow2(b).sub(&Nat::one())] { es.push(Z::n(z.clone())); es.push(Z::new(true, z)); } } }
        for e in es { c.state(&(&k.n, m1, &e)); times(c, k, (&c1, m1, &k.rand[r1].0), &e); }
        c.trace();
    });
    r.explore("masking", "micro keys: all pairs of randomizers with exponents of both signs and boundary exponents", |c| {
        let k = c.pick(&keys); let i = c.choose(k.rand.len()); c.label(|| format!("N={} rho={}", k.n, k.rand[i].0));
        let mut es: Vec<Z> = (-6..=6).map(Z::i).collect(); for b in [k.n.clone(), Nat::pow2(64), Nat::pow2(126), Nat::pow2(127).sub(&Nat::one())] { es.push(Z::n(b.clone())); es.push(Z::new(true, b)); }
        for j in (0..k.rand.len()).step_by(if k.rand.len() > 60 { 11 } else { 1 }) { for e in &es { c.state(&(&k.n, i, j, e)); masking(c, k, i, j, e); } }
        c.trace();
    });
}

fn large<P: PP>(r: &mut Runner, name: &str, seeds: u64) {
    if !r.active(&format!("boundary-{name}")) { return; }
    let keys: Vec<Key<P>> = std::thread::scope(|s| { let hs: Vec<_> = (0..seeds).map(|i| s.spawn(move || {
        let w = <P::Uint as Nt>::width() as usize / 8;
        let mut scripts: Vec<Vec<u8>> = vec![]; let mut d = DetRng(77 + i);
        for _ in 0..2 { let mut v = vec![0; w * 4]; rand_core::RngCore::fill_bytes(&mut d, &mut v); scripts.push(v); }
        let mut one = vec![0; w * 4]; one[0] = 1; scripts.push(one); let mut two = vec![0; w * 4]; two[0] = 2; scripts.push(two);
        Key::<P>::new(SecretKeyPaillierWire::<P>::random(&mut DetRng(1000 + i)).into_precomputed(), scripts.into_iter(), 0x21)
    })).collect(); hs.into_iter().map(|h| h.join().unwrap()).collect() });
    r.explore(&format!("boundary-{name}"), "generated keys of this size: boundary plaintexts and factors (0, +-1, +-2, around N/2, N, powers of two), boundary and fixed arbitrary randomizers", |c| {
        let k = c.pick(&keys); let ri = c.choose(k.rand.len());
        let h = k.n.shr(1);
        let mut ms: Vec<Nat> = vec![Nat::zero(), Nat::one(), Nat::u(2), h.clone(), h.sub(&Nat::one()), k.n.clone(), k.n.sub(&Nat::one()), k.n.add(&Nat::one()), k.n.add(&h), k.n2.sub(&Nat::one()), k.n2.clone()];
        ms.push(h.add(&Nat::one())); let uw = <P::Uint as Nt>::width(); ms.push(Nat::pow2(uw - 1).sub(&Nat::one())); ms.push(Nat::pow2(uw - 2)); ms.push(Nat::pow2(uw)); ms.push(Nat::pow2(2 * uw - 1).sub(&Nat::one()));
        ms.retain(|m| m.bits() < <P::WideUint as Nt>::width());
        let m = c.pick(&ms).clone(); let m = Z::new(c.choose(2) == 1, m);
        c.label(|| format!("N={} rho={} m={m}", k.n, k.rand[ri].0)); c.state(&(&k.n, ri, &m));
        let Some(ct) = encrypt(c, k, &m, ri) else { return };
        wire_round_trip(c, k, &ct);
        let m2 = Z::new(ri % 2 == 1, h.clone()); let pk = k.sk.public_key(); let rj = (ri + 1) % k.rand.len();
        let c2 = Ciphertext::new_wide_with_randomizer(pk, &ss(&m2, m2.abs.bits()), &k.rand[rj].1);
        homo(c, k, (&ct, &m, &k.rand[ri].0), (&c2, &m2, &k.rand[rj].0));
        for e in [Z::i(0), Z::i(1), Z::i(-1), Z::i(-2), Z::n(h.clone()), Z::new(true, k.n.clone())] { c.state(&(&k.n, ri, &m, &e)); times(c, k, (&ct, &m, &k.rand[ri].0), &e); }
        for e in [Z::i(0), Z::i(1), Z::i(-1), Z::new(true, h.shr(1)), Z::n(h.shr(2))] { masking(c, k, ri, rj, &e); }
        c.trace();
    });
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("C01");
    r.assume("the reference is the textbook definition c = (1+N)^m rho^N mod N^2 evaluated with a separate big-integer implementation");
    small(&mut r);
    let n = r.by_tier(1, 4);
    large::<PaillierTest>(&mut r, "256", n * 2);
    if r.thorough() { large::<PaillierProduction112>(&mut r, "2048", 1); }
    r.finish()
}
