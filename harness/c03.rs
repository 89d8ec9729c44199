// C03: ring-Pedersen commitments compute the committed product exactly.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/micro.rs"] mod micro;
use big::*; use util::*; use engine::*; use tree::*; use micro::*;
use ciborium::Value;
use crypto_bigint::modular::Retrieve;
use crate::paillier::*;
use crate::uint::{SecretSigned, PublicSigned, SecretUnsigned};
use crate::dev::PaillierTest;
use crate::k256::PaillierProduction112;

trait PP: PaillierParams<HalfUint: Nt, Uint: Nt, WideUint: Nt> + serde::Serialize + serde::de::DeserializeOwned + Sync {}
impl<P: PaillierParams<HalfUint: Nt, Uint: Nt, WideUint: Nt> + serde::Serialize + serde::de::DeserializeOwned + Sync> PP for P {}

/// The integers of a serialized value, in their order.
fn ints(v: &Value) -> Vec<(Path, Nat)> { leaves(v).into_iter().filter_map(|p| bytes(get(v, &p)).map(|b| (p.clone(), Nat::from_be(b)))).collect() }
fn with(v: &Value, i: usize, n: &Nat) -> Value { let (p, _) = &ints(v)[i]; let len = bytes(get(v, p)).unwrap().len(); set(v, p, Value::Bytes(n.to_be(len))) }

/// How the wire form of a setup is laid out, found by matching the values of a generated setup.
struct Tmpl { v: Value, n: usize, s: usize, t: usize, cv: Value }
fn template<P: PP>() -> Tmpl {
    let rp = RPParams::<P>::random(&mut DetRng(3)); let w = rp.to_wire(); let v = to_tree(&w); let l = ints(&v);
    assert_eq!(l.len(), 3, "a setup consists of three integers");
    let find = |x: Nat| l.iter().position(|y| y.1 == x).expect("layout of a setup");
    let c = rp.commit_zero_value(&PublicSigned::<P::Uint>::one());
    Tmpl { n: find(rp.modulus().nat()), s: find(rp.base_value().retrieve().nat()), t: find(rp.base_randomizer().retrieve().nat()), v, cv: to_tree(&c.to_wire()) }
}
impl Tmpl {
    fn setup<P: PP>(&self, n: &Nat, s: &Nat, t: &Nat) -> RPParamsWire<P> { let v = with(&with(&with(&self.v, self.n, n), self.s, s), self.t, t); from_tree(&v).expect("setup") }
    fn commitment<P: PP>(&self, x: &Nat) -> RPCommitmentWire<P> { from_tree(&with(&self.cv, 0, x)).expect("commitment") }
}

/// An exponent in one of its forms.
enum E<P: PaillierParams> { SS(SecretSigned<P::Uint>), PS(PublicSigned<P::Uint>), SU(SecretUnsigned<P::Uint>), SW(SecretSigned<P::WideUint>), PW(PublicSigned<P::WideUint>), UW(SecretUnsigned<P::WideUint>) }
const FORMS: usize = 6;
fn form<P: PP>(z: &Z, i: usize, loose: bool) -> Option<E<P>> {
    let (uw, ww) = (<P::Uint as Nt>::width(), <P::WideUint as Nt>::width());
    let bits = z.abs.bits();
    let signed = |w: u32| if loose { w - 1 } else { bits };
    match i {
        0 | 1 if bits >= uw => None,
        3 | 4 if bits >= ww => None,
        2 | 5 if z.neg && bits > 0 => None,
        2 if bits > uw => None,
        5 if bits > ww => None,
        0 => Some(E::SS(ss(z, signed(uw)))),
        1 => Some(E::PS(ps(z, signed(uw)))),
        2 => Some(E::SU(ct(SecretUnsigned::new(secret(P::Uint::of(&z.abs)), if loose { uw } else { bits })).expect("bound"))),
        3 => Some(E::SW(ss(z, signed(ww)))),
        4 => Some(E::PW(ps(z, signed(ww)))),
        _ => Some(E::UW(ct(SecretUnsigned::new(secret(P::WideUint::of(&z.abs)), if loose { ww } else { bits })).expect("bound"))),
    }
}
macro_rules! on { ($e:expr, $x:ident => $b:expr) => { match $e { E::SS($x) => $b, E::PS($x) => $b, E::SU($x) => $b, E::SW($x) => $b, E::PW($x) => $b, E::UW($x) => $b } } }
// (the type of commitments is not exported, so these cannot be functions)
macro_rules! commit { ($rp:expr, $a:expr, $b:expr) => { on!($a, x => on!($b, y => $rp.commit(x, y))) } }
macro_rules! pow { ($c:expr, $e:expr) => { on!($e, x => $c.pow(x)) } }
macro_rules! val { ($c:expr) => { ints(&to_tree(&$c.to_wire()))[0].1.clone() } }

struct Setup<P: PaillierParams> { rp: RPParams<P>, n: Nat, s: Nat, t: Nat }
fn setup<P: PP>(c: &mut Ctl, tm: &Tmpl, n: &Nat, s: &Nat, t: &Nat) -> Setup<P> {
    let w = tm.setup::<P>(n, s, t);
    let rp = w.to_precomputed(); c.ops(2);
    let ctx = || format!("N={n} s={s} t={t}");
    let (s0, t0) = (s.rem(n), t.rem(n));
    c.check(w.modulus().nat() == *n && rp.modulus().nat() == *n, "modulus of a setup", ctx);
    c.check(rp.base_value().retrieve().nat() == s0 && rp.base_randomizer().retrieve().nat() == t0, "bases of a setup", || format!("{}: s={} t={}", ctx(), rp.base_value().retrieve().nat(), rp.base_randomizer().retrieve().nat()));
    let l: Vec<Nat> = ints(&to_tree(&rp.to_wire())).into_iter().map(|x| x.1).collect();
    c.check(l[tm.n] == *n && l[tm.s] == s0 && l[tm.t] == t0, "wire form of a setup", ctx);
    let again = rp.to_wire().to_precomputed();
    c.check(again.modulus().nat() == *n && again.base_value().retrieve().nat() == s0 && again.base_randomizer().retrieve().nat() == t0, "setup after a round trip", ctx);
    Setup { rp, n: n.clone(), s: s0, t: t0 }
}
impl<P: PP> Setup<P> {
    fn want(&self, a: &Z, b: &Z) -> Nat { Z::powmod(&self.s, a, &self.n).expect("unit").mul(&Z::powmod(&self.t, b, &self.n).expect("unit")).rem(&self.n) }
    fn ctx(&self, a: &Z, b: &Z) -> String { format!("N={} s={} t={} a={a} b={b}", self.n, self.s, self.t) }
    /// Commits in one pair of forms and compares with the definition.
    fn check(&self, c: &mut Ctl, a: &Z, b: &Z, fa: usize, fb: usize, loose: bool, tm: &Tmpl, transfer: bool) -> Option<RPCommitmentWire<P>> {
        let (x, y) = (form::<P>(a, fa, loose)?, form::<P>(b, fb, loose)?);
        c.ops(3);
        let r = c.guard("commit panics", || self.ctx(a, b), || commit!(self.rp, &x, &y))?;
        let (v, w) = (val!(r), self.want(a, b));
        c.check(v == w, "commit", || format!("{} (forms {fa} {fb}): {v} expected {w}", self.ctx(a, b)));
        let zero = Z::i(0);
        let r0 = c.guard("commit_zero_randomizer panics", || self.ctx(a, &zero), || on!(&x, x => self.rp.commit_zero_randomizer(x)))?;
        let (v, w) = (val!(r0), self.want(a, &zero)); c.check(v == w, "commit_zero_randomizer", || format!("{} (form {fa}): {v} expected {w}", self.ctx(a, &zero)));
        let r1 = c.guard("commit_zero_value panics", || self.ctx(&zero, b), || on!(&y, y => self.rp.commit_zero_value(y)))?;
        let (v, w) = (val!(r1), self.want(&zero, b)); c.check(v == w, "commit_zero_value", || format!("{} (form {fb}): {v} expected {w}", self.ctx(&zero, b)));
        c.check(&r0 * &r1 == r, "product of the two halves", || self.ctx(a, b));
        let w = r.to_wire();
        if !transfer { return Some(w); }
        c.ops(2); let w2: RPCommitmentWire<P> = from_cbor(&to_cbor(&w)).expect("commitment");
        let v = val!(r);
        c.check(w2.to_precomputed(&self.rp) == r && tm.commitment::<P>(&v).to_precomputed(&self.rp) == r, "commitment after a round trip", || format!("N={} {v}", self.n));
        let other = tm.commitment::<P>(&v.add(&Nat::one()).rem(&self.n)).to_precomputed(&self.rp);
        c.check(other != r, "different commitments compare as equal", || format!("N={} {v}", self.n));
        Some(w)
    }
}

fn micro(r: &mut Runner) {
    type P = MP<8>;
    let tm = template::<P>();
    let ns = r.by_tier(vec![15u64, 21, 33, 35, 49, 55], vec![15, 21, 33, 35, 49, 55, 77, 91, 143, 161]);
    let lim = r.by_tier(7i64, 16);
    r.explore("all", &format!("moduli {ns:?}: every pair of units as bases, all exponents in -{lim}..{lim}, rotating through the forms of exponents"), |c| {
        let n = *c.pick(&ns); let un: Vec<u64> = (1..n).filter(|x| Nat::u(*x).gcd(&Nat::u(n)) == Nat::one()).collect();
        let s = *c.pick(&un); c.label(|| format!("N={n} s={s}"));
        for (k, t) in un.iter().enumerate() {
            let st = setup::<P>(c, &tm, &Nat::u(n), &Nat::u(s), &Nat::u(*t));
            let mut rot = k;
            for a in -lim..=lim { for b in -lim..=lim {
                rot += 7; let (fa, fb) = (rot % FORMS, (rot / FORMS) % FORMS); let (za, zb) = (Z::i(a), Z::i(b));
                c.state(&(n, s, t, a, b));
                st.check(c, &za, &zb, fa, fb, rot % 5 == 0, &tm, rot % 17 == 0);
            } }
        }
        c.trace();
    });
    r.explore("unreduced", "setups and commitments whose received integers are not reduced modulo N", |c| {
        let n = *c.pick(&ns); let m = Nat::u(n); c.label(|| format!("N={n}"));
        for k in [m.clone(), m.mul(&Nat::u(5)), Nat::pow2(100).divrem(&m).0.mul(&m), Nat::pow2(127)] {
            let st = setup::<P>(c, &tm, &m, &k.add(&Nat::u(2)), &k.add(&Nat::u(4)));
            for x in 0..n { let r = tm.commitment::<P>(&k.add(&Nat::u(x))).to_precomputed(&st.rp); c.ops(1); c.state(&(n, &k, x)); c.check(val!(r) == k.add(&Nat::u(x)).rem(&m), "commitment from an unreduced integer", || format!("N={n} {k}+{x}")); }
        }
        c.trace();
    });
    let es: Vec<i64> = (-lim..=lim).collect();
    r.explore("homomorphism", "products of commitments and powers of commitments against sums and multiples of the committed values, every form of exponent", |c| {
        let n = *c.pick(&ns); let un: Vec<u64> = (1..n).filter(|x| Nat::u(*x).gcd(&Nat::u(n)) == Nat::one()).collect();
        let a1 = *c.pick(&es); let b1 = *c.pick(&es); c.label(|| format!("N={n} a1={a1} b1={b1}"));
        let s = un[(a1 + lim) as usize % un.len()]; let t = un[(b1 + 2 * lim) as usize % un.len()];
        let st = setup::<P>(c, &tm, &Nat::u(n), &Nat::u(s), &Nat::u(t));
        let (za, zb) = (Z::i(a1), Z::i(b1)); let x = commit!(st.rp, &form::<P>(&za, 0, true).unwrap(), &form::<P>(&zb, 4, false).unwrap());
        for a2 in [-5i64, -1, 0, 2, 6] { for b2 in [-3i64, 0, 1, 7] {
            let y = commit!(st.rp, &form::<P>(&Z::i(a2), 3, false).unwrap(), &form::<P>(&Z::i(b2), 1, true).unwrap());
            let (v, w) = (val!((&x * &y)), st.want(&Z::i(a1 + a2), &Z::i(b1 + b2))); c.ops(1); c.state(&(n, a1, b1, a2, b2));
            c.check(v == w, "product of commitments", || format!("N={n} s={s} t={t} ({a1},{b1}) ({a2},{b2}): {v} expected {w}"));
        } }
        for e in -6i64..=6 { for f in 0..FORMS { for loose in [false, true] {
            let ze = Z::i(e); let Some(x_e) = form::<P>(&ze, f, loose) else { continue };
            c.ops(1); c.state(&(n, a1, b1, e, f, loose));
            let Some(y) = c.guard("power of a commitment panics", || format!("N={n} s={s} t={t} ({a1},{b1}) exponent {e}"), || pow!(x, &x_e)) else { continue };
            let (v, w) = (val!(y), st.want(&za.mul(&ze), &zb.mul(&ze)));
            c.check(v == w, "power of a commitment", || format!("N={n} s={s} t={t} ({a1},{b1}) exponent {e} (form {f}): {v} expected {w}"));
        } } }
        c.trace();
    });
}
fn large<P: PP>(r: &mut Runner, name: &str, seeds: u64) {
    if !r.active(&format!("boundary-{name}")) { return; }
    let tm = template::<P>();
    let secrets: Vec<(RPSecret<P>, RPParams<P>)> = std::thread::scope(|s| { let h: Vec<_> = (0..seeds).map(|i| s.spawn(move || { let mut d = DetRng(40 + i); let s = RPSecret::<P>::random(&mut d); let p = RPParams::random_with_secret(&mut d, &s); (s, p) })).collect(); h.into_iter().map(|h| h.join().unwrap()).collect() });
    let (uw, ww) = (<P::Uint as Nt>::width(), <P::WideUint as Nt>::width());
    let mut es: Vec<Nat> = vec![Nat::zero(), Nat::one(), Nat::u(2)];
    for b in [uw / 2, uw - 1, uw, ww - 1, ww] { if b <= ww { es.push(Nat::pow2(b).sub(&Nat::one())); } if b < ww { es.push(Nat::pow2(b)); es.push(Nat::pow2(b - 1)); } }
    es.push(Nat::from_be(&(0..uw / 8 - 1).map(|i| (i * 37 + 11) as u8).collect::<Vec<_>>()));
    let zs_: Vec<Z> = es.iter().flat_map(|e| [Z::n(e.clone()), Z::new(true, e.clone())]).collect();
    r.explore(&format!("boundary-{name}"), "generated setups of this size: boundary exponents (powers of two up to the width of the wide integer, both signs) in all pairs of forms with tight and loose bounds", |c| {
        let (sec, rp) = c.pick(&secrets); let a = c.pick(&zs_).clone(); let b = c.pick(&zs_).clone(); c.label(|| format!("N={} a={a} b={b}", rp.modulus().nat()));
        let (n, s, t) = (rp.modulus().nat(), rp.base_value().retrieve().nat(), rp.base_randomizer().retrieve().nat());
        c.check(t.powmod(&zu(sec.lambda()).abs, &n) == s, "the bases of a setup are not related by its secret", || format!("N={n}"));
        let st = setup::<P>(c, &tm, &n, &s, &t);
        let i = zs_.iter().position(|x| *x == a).unwrap() + zs_.iter().position(|x| *x == b).unwrap();
        for f in 0..FORMS { let g = (f + i) % FORMS; for loose in [false, true] {
            c.state(&(&n, &a, &b, f, g, loose));
            if let Some(x) = st.check(c, &a, &b, f, g, loose, &tm, f % 3 == 0) {
                let x = x.to_precomputed(&st.rp);
                if let Some(e) = form::<P>(&a, g, loose) { c.ops(1); if let Some(y) = c.guard("power of a commitment panics", || st.ctx(&a, &b), || pow!(x, &e)) { let (v, w) = (val!(y), Z::powmod(&val!(x), &a, &n).expect("unit")); c.check(v == w, "power of a commitment", || format!("{}: {v} expected {w}", st.ctx(&a, &b))); } }
            }
        } }
        c.trace();
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("C03");
    r.assume("the reference evaluates s^a t^b mod N with a separate big-integer implementation");
    r.assume("exponents of both signs presuppose invertible bases, as the setup's definition does; degenerate bases are the subject of Z04");
    micro(&mut r);
    let n = r.by_tier(1, 6);
    large::<PaillierTest>(&mut r, "256", n);
    if r.thorough() { large::<PaillierProduction112>(&mut r, "2048", 1); }
    r.finish()
}
