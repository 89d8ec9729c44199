//! The nine proof systems: statements and proofs as data, an independent reference verifier and simulator
//! (on plain integers), and a digest whose output can be chosen (a programmable random oracle).
use std::prelude::v1::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::OnceLock;
use super::big::*; use super::util::*; use super::tree::*;
use crypto_bigint::{Uint, U256, U512, BitOps};
use digest::{ExtendableOutput, Update, XofReader};
use elliptic_curve::{Curve, bigint::Encoding};
use tiny_curve::TinyCurve32;
use crate::curve::{Point, Scalar};
use crate::dev::PaillierTest;
use crate::paillier::*;
use crate::params::{secret_scalar_from_signed, secret_scalar_from_wide_signed, SchemeParams};
use crate::tools::bitvec::BitVec;
use crate::uint::{PublicSigned, PublicUint, SecretSigned};
use crate::zk::*;

// ------------------------------------------------------------------ the programmable digest
thread_local! { static TAPE: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) }; static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(vec![]) }; }
/// Records everything that is hashed; the output is the tape (if one is set), or the actual SHAKE256.
#[derive(Default, Clone)]
pub struct ZD(Vec<u8>);
impl Update for ZD { fn update(&mut self, d: &[u8]) { self.0.extend_from_slice(d) } }
pub enum ZR { Tape(Vec<u8>, usize), Real(Box<<sha3::Shake256 as ExtendableOutput>::Reader>) }
impl ZR { pub fn tape(t: &[u8]) -> ZR { ZR::Tape(t.to_vec(), 0) } }
impl XofReader for ZR {
    fn read(&mut self, b: &mut [u8]) {
        match self {
            ZR::Real(r) => r.read(b),
            // after its end the tape continues with a fixed pseudo-random pattern
            ZR::Tape(t, pos) => for x in b { *x = match t.get(*pos) { Some(v) => *v, None => { let mut z = (*pos as u64).wrapping_add(0x9E3779B97F4A7C15).wrapping_mul(0xBF58476D1CE4E5B9); z ^= z >> 27; z = z.wrapping_mul(0x94D049BB133111EB); (z >> 40) as u8 } }; *pos += 1; },
        }
    }
}
impl ExtendableOutput for ZD {
    type Reader = ZR;
    fn finalize_xof(self) -> ZR {
        LOG.with(|l| l.borrow_mut().push(self.0.clone()));
        match TAPE.with(|t| t.borrow().clone()) { Some(t) => ZR::Tape(t, 0), None => { let mut s = sha3::Shake256::default(); s.update(&self.0); ZR::Real(Box::new(s.finalize_xof())) } }
    }
}
struct Restore(Option<Vec<u8>>);
impl Drop for Restore { fn drop(&mut self) { TAPE.with(|t| *t.borrow_mut() = self.0.take()) } }
pub fn with_tape<T>(tape: Option<&[u8]>, f: impl FnOnce() -> T) -> T { let _old = Restore(TAPE.with(|t| t.replace(tape.map(|x| x.to_vec())))); f() }
/// Everything hashed while running `f`.
pub fn logged<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) { LOG.with(|l| l.borrow_mut().clear()); let r = f(); (r, LOG.with(|l| l.take())) }

// ------------------------------------------------------------------ parameters
pub trait ZkP: SchemeParams<Curve = TinyCurve32, Digest = ZD, Paillier = PaillierTest, ExtraWideUint = Uint<10>> {}
macro_rules! params { ($n:ident, $($c:tt)*) => {
    #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
    pub struct $n;
    impl SchemeParams for $n { type Curve = TinyCurve32; type Digest = ZD; type Paillier = PaillierTest; type ExtraWideUint = Uint<10>; $($c)* }
    impl ZkP for $n {}
} }
// the test parameters of the crate, and the same with challenges of 3 bits where a challenge is a bit string
params!(ZP, const SECURITY_BITS: usize = 16;);
params!(ZS, const SECURITY_BITS: usize = 3; const SECURITY_PARAMETER: usize = 3; const L_BOUND: u32 = 32;);
pub const L: u32 = 32;
pub const EPS: u32 = 64;
pub const LP: u32 = 160;
pub const PB: u32 = 128;
pub fn order() -> Nat { Nat::from_be(TinyCurve32::ORDER.to_be_bytes().as_ref()) }
pub fn sc<P: ZkP>(z: &Z) -> Scalar<P> { Scalar::try_from_be_bytes(&z.modulo(&order()).to_be(Scalar::<P>::repr_len())).expect("canonical") }
pub fn sci<P: ZkP>(x: i64) -> Scalar<P> { sc(&Z::i(x)) }
pub fn scz<P: ZkP>(x: &Scalar<P>) -> Z { Z::n(Nat::from_be(x.to_be_bytes().as_ref())) }
pub fn pneg<P: ZkP>(p: Point<P>) -> Point<P> { p * sci::<P>(-1) }
pub fn gen<P: ZkP>(x: &Z) -> Point<P> { sc::<P>(x).mul_by_generator() }

// ------------------------------------------------------------------ fixtures
#[derive(Clone)]
pub struct Key { pub p: Nat, pub q: Nat, pub n: Nat, pub tree: Value }
pub fn keys() -> &'static Vec<Key> {
    static K: OnceLock<Vec<Key>> = OnceLock::new();
    K.get_or_init(|| (0..6u64).map(|i| {
        let tree = to_tree(&SecretKeyPaillierWire::<PaillierTest>::random(&mut DetRng(1000 + i)));
        let b: Vec<Nat> = leaves(&tree).iter().filter_map(|l| bytes(get(&tree, l)).map(|x| Nat::from_be(x))).collect();
        Key { p: b[0].clone(), q: b[1].clone(), n: b[0].mul(&b[1]), tree }
    }).collect())
}
pub fn sk(i: usize) -> SecretKeyPaillier<PaillierTest> { from_tree::<SecretKeyPaillierWire<PaillierTest>>(&keys()[i].tree).expect("key").into_precomputed() }
pub fn rnat(seed: u64, bytes: usize) -> Nat { let mut b = vec![0; bytes]; rand_core::RngCore::fill_bytes(&mut DetRng(seed), &mut b); Nat::from_be(&b) }
/// Commitment setups with known factors.
pub fn setup(i: usize) -> Comp<ZP> { let (n, t, s) = setup_raw(i); Comp::Setup(n, t, s) }
pub fn setup_raw(i: usize) -> (Nat, Nat, Nat) { let n = keys()[3 + i].n.clone(); let r = rnat(77 + i as u64, 32).rem(&n); let t = r.mul(&r).rem(&n); let s = t.powmod(&rnat(99 + i as u64, 28), &n); (n, t, s) }
/// The factors of any modulus among the fixtures.
pub fn factor(n: &Nat) -> Option<Nat> { keys().iter().find(|k| k.n == *n).map(|k| k.p.clone()) }

// ------------------------------------------------------------------ statements and proofs as data
#[derive(Clone, Debug, PartialEq)]
pub enum Comp<P: SchemeParams> { Pk(Nat), Ct(usize, Nat), Pt(Point<P>), Setup(Nat, Nat, Nat), Num(usize) }
pub type Comps<P> = Vec<Comp<P>>;
impl<P: ZkP> Comp<P> {
    pub fn nat(&self) -> &Nat { match self { Comp::Pk(n) | Comp::Ct(_, n) | Comp::Setup(n, _, _) => n, _ => panic!("not a number") } }
    pub fn pt(&self) -> Point<P> { match self { Comp::Pt(p) => *p, _ => panic!("not a point") } }
    pub fn setup(&self) -> (&Nat, &Nat, &Nat) { match self { Comp::Setup(n, t, s) => (n, t, s), _ => panic!("not a setup") } }
    pub fn num(&self) -> usize { match self { Comp::Num(n) => *n, _ => panic!("not a count") } }
}
pub fn cast_setup<P: ZkP>(i: usize) -> Comp<P> { let (n, t, s) = setup_raw(i); Comp::Setup(n, t, s) }
/// Kinds of proof fields; the index refers to the statement component that gives the modulus.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum K { Sc, Pt, Ct(usize), Rp(usize), Z(u8), Mr(usize), Bits, Bool, Es, Un(usize), Ex }
#[derive(Clone, Debug, PartialEq)]
pub enum Val<P: SchemeParams> { Sc(Scalar<P>), Pt(Point<P>), N(Nat), S(Z), Bits(Vec<bool>), B(bool) }
impl<P: ZkP> Val<P> {
    pub fn n(&self) -> &Nat { match self { Val::N(n) => n, _ => panic!("kind") } }
    pub fn s(&self) -> &Z { match self { Val::S(n) => n, _ => panic!("kind") } }
    pub fn p(&self) -> Point<P> { match self { Val::Pt(n) => *n, _ => panic!("kind") } }
    pub fn c(&self) -> Scalar<P> { match self { Val::Sc(n) => *n, _ => panic!("kind") } }
    pub fn bits(&self) -> &Vec<bool> { match self { Val::Bits(n) => n, _ => panic!("kind") } }
    pub fn b(&self) -> bool { match self { Val::B(n) => *n, _ => panic!("kind") } }
}
impl<P: ZkP> std::fmt::Display for Val<P> { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { match self { Val::Sc(x) => write!(f, "{}", scz(x)), Val::Pt(x) => write!(f, "{:?}", to_cbor(x)), Val::N(n) => write!(f, "{n}"), Val::S(z) => write!(f, "{z}"), Val::Bits(b) => write!(f, "{b:?}"), Val::B(b) => write!(f, "{b}") } } }
pub enum Item { F(&'static str, K), L(&'static str, Vec<(&'static str, K)>) }
#[derive(Clone, Debug)]
pub struct Field { pub name: String, pub path: Path, pub kind: K }
pub type Vals<P> = BTreeMap<String, Val<P>>;

fn first_bytes(v: &Value) -> Option<Path> { leaves(v).into_iter().find(|l| bytes(get(v, l)).is_some()) }
pub fn residue<T: Nt + crate::uint::BoxedEncoding>(v: &Value) -> Option<Nat> { let l = first_bytes(v)?; from_tree::<PublicUint<T>>(get(v, &l)).ok().map(|x| x.as_ref().nat()) }
pub fn put_residue<T: Nt + crate::uint::BoxedEncoding>(old: &Value, n: &Nat) -> Value { let l = first_bytes(old).expect("a residue"); set(old, &l, to_tree(&PublicUint::<T>::from(T::of(n)))) }
pub fn signed<T: Nt + crypto_bigint::Integer + crypto_bigint::Bounded>(z: &Z) -> PublicSigned<T> { ps(z, z.abs.bits().max(1)) }
pub fn decode<P: ZkP>(k: K, v: &Value) -> Option<Val<P>> {
    Some(match k {
        K::Sc => Val::Sc(from_tree(v).ok()?), K::Pt => Val::Pt(from_tree(v).ok()?), K::Ct(_) => Val::N(residue::<U512>(v)?),
        K::Rp(_) | K::Mr(_) | K::Un(_) | K::Ex => Val::N(residue::<U256>(v)?),
        K::Z(0) | K::Es => Val::S(zp(&from_tree::<PublicSigned<U256>>(v).ok()?)), K::Z(1) => Val::S(zp(&from_tree::<PublicSigned<U512>>(v).ok()?)), K::Z(_) => Val::S(zp(&from_tree::<PublicSigned<Uint<10>>>(v).ok()?)),
        K::Bits => Val::Bits(from_tree::<BitVec>(v).ok()?.bits().to_vec()), K::Bool => Val::B(v.as_bool()?),
    })
}
pub fn bitvec(b: &[bool]) -> BitVec { let mut t = vec![0u8; b.len().div_ceil(8)]; for (i, x) in b.iter().enumerate() { if *x { t[i / 8] |= 0x80 >> (i % 8) } } BitVec::from_xof_reader(&mut ZR::tape(&t), b.len()) }
pub fn encode<P: ZkP>(k: K, old: &Value, v: &Val<P>) -> Value {
    match k {
        K::Sc => to_tree(&v.c()), K::Pt => to_tree(&v.p()), K::Ct(_) => put_residue::<U512>(old, v.n()), K::Rp(_) | K::Mr(_) | K::Un(_) | K::Ex => put_residue::<U256>(old, v.n()),
        K::Z(0) => to_tree(&signed::<U256>(v.s())), K::Es => to_tree(&ps::<U256>(v.s(), L)), K::Z(1) => to_tree(&signed::<U512>(v.s())), K::Z(_) => to_tree(&signed::<Uint<10>>(v.s())),
        K::Bits => to_tree(&bitvec(v.bits())), K::Bool => Value::Bool(v.b()),
    }
}
pub fn width(k: K) -> u32 { match k { K::Ct(_) => 512, K::Z(1) => 512, K::Z(2) => 640, _ => 256 } }
/// Position of a named entry (by name if possible, by position otherwise).
fn pos(v: &Value, name: &str, at: usize) -> usize { match v { Value::Map(m) => m.iter().position(|(k, _)| matches!(k, Value::Text(t) if t == name)).unwrap_or(at), _ => at } }
pub fn list_len(v: &Value) -> usize { match v { Value::Array(a) => a.len(), Value::Map(m) => m.len(), _ => 0 } }
pub fn layout_fields(items: &[Item], tree: &Value) -> Vec<Field> {
    let mut r = vec![];
    for (i, it) in items.iter().enumerate() {
        match it {
            Item::F(n, k) => r.push(Field { name: n.to_string(), path: vec![pos(tree, n, i)], kind: *k }),
            Item::L(n, el) => {
                let p = pos(tree, n, i);
                let list = get(tree, &[p]);
                for j in 0..list_len(list) {
                    for (m, (f, k)) in el.iter().enumerate() {
                        let mut path = vec![p, j];
                        if !f.is_empty() { path.push(pos(get(list, &[j]), f, m)); }
                        r.push(Field { name: format!("{}.{j}", if f.is_empty() { n } else { f }), path, kind: *k });
                    }
                }
            }
        }
    }
    r
}

// ------------------------------------------------------------------ statements for the real code
type PkP = PublicKeyPaillier<PaillierTest>;
pub fn pk(n: &Nat) -> Result<PkP, String> {
    static T: OnceLock<Value> = OnceLock::new();
    let t = T.get_or_init(|| to_tree(sk(0).public_key().as_wire()));
    thread_local! { static C: RefCell<HashMap<Nat, PkP>> = RefCell::new(HashMap::new()); }
    if let Some(k) = C.with(|c| c.borrow().get(n).cloned()) { return Ok(k) }
    let w: PublicKeyPaillierWire<PaillierTest> = from_tree(&put_residue::<U256>(t, n))?;
    let k = w.into_precomputed();
    C.with(|c| { if c.borrow().len() > 40 { c.borrow_mut().clear() } c.borrow_mut().insert(n.clone(), k.clone()) });
    Ok(k)
}
pub fn ciphertext(pk: &PkP, n: &Nat) -> Ciphertext<PaillierTest> {
    static T: OnceLock<Value> = OnceLock::new();
    let t = T.get_or_init(|| { let pk = sk(0).public_key().clone(); let r = Randomizer::random(&mut DetRng(3), &pk); to_tree(&Ciphertext::new_with_randomizer(&pk, &ss::<U256>(&Z::i(1), 8), &r).to_wire()) });
    from_tree::<CiphertextWire<PaillierTest>>(&put_residue::<U512>(t, n)).expect("a ciphertext").to_precomputed(pk)
}
pub fn rp(n: &Nat, t: &Nat, s: &Nat) -> Result<RPParams<PaillierTest>, String> {
    static T: OnceLock<(Value, [Path; 3])> = OnceLock::new();
    let (tree, paths) = T.get_or_init(|| {
        use crypto_bigint::modular::Retrieve;
        let p = RPParams::<PaillierTest>::random(&mut DetRng(4));
        let tree = to_tree(&p.to_wire());
        let ls: Vec<Path> = leaves(&tree).into_iter().filter(|l| bytes(get(&tree, l)).is_some()).collect();
        let find = |n: Nat| ls.iter().find(|l| residue::<U256>(get(&tree, l)) == Some(n.clone())).expect("a part of the setup").clone();
        let ps = [find(p.modulus().nat()), find(p.base_randomizer().retrieve().nat()), find(p.base_value().retrieve().nat())];
        (tree, ps)
    });
    let mut v = tree.clone();
    for (p, x) in paths.iter().zip([n, t, s]) { let y = put_residue::<U256>(get(&v, p), x); *get_mut(&mut v, p) = y; }
    Ok(from_tree::<RPParamsWire<PaillierTest>>(&v)?.to_precomputed())
}

// ------------------------------------------------------------------ reference arithmetic
thread_local! { static PW: RefCell<HashMap<(Nat, Z, Nat), Option<Nat>>> = RefCell::new(HashMap::new()); }
/// `b^e mod m`; `None` if it does not exist.
pub fn pw(b: &Nat, e: &Z, m: &Nat) -> Option<Nat> {
    if e.abs.bits() < 8 { return Z::powmod(b, e, m) }
    let k = (b.clone(), e.clone(), m.clone());
    if let Some(r) = PW.with(|c| c.borrow().get(&k).cloned()) { return r }
    let r = Z::powmod(b, e, m);
    PW.with(|c| { let mut c = c.borrow_mut(); if c.len() > 20_000 { c.clear() } c.insert(k, r.clone()); });
    r
}
pub fn mm(a: &Nat, b: &Nat, m: &Nat) -> Nat { a.mul(b).rem(m) }
/// `(1 + N)^m w^N mod N^2`
pub fn encr(n: &Nat, m: &Z, w: &Nat) -> Nat { let n2 = n.mul(n); let f = Nat::one().add(&mm(&m.modulo(n), n, &n2)); mm(&f, &pw(w, &Z::n(n.clone()), &n2).unwrap(), &n2) }
pub fn unit(x: &Nat, n: &Nat) -> bool { x.gcd(n) == Nat::one() }
pub fn commit(st: (&Nat, &Nat, &Nat), v: &Z, r: &Z) -> Option<Nat> { Some(mm(&pw(st.2, v, st.0)?, &pw(st.1, r, st.0)?, st.0)) }

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict { Accept, Reject(&'static str), Any }
/// Challenge: a scalar or signed number, a string of bits, or a list of residues.
#[derive(Clone, Debug, PartialEq)]
pub enum Chal<P: SchemeParams> { Sc(Scalar<P>), S(Z), Bits(Vec<bool>), Ns(Vec<Nat>) }
impl<P: ZkP> Chal<P> { fn z(&self) -> Z { match self { Chal::Sc(s) => scz(s), Chal::S(z) => z.clone(), _ => panic!("kind") } } fn bits(&self) -> &[bool] { match self { Chal::Bits(b) => b, _ => panic!("kind") } } }

macro_rules! need { ($c:expr, $n:expr) => { if !$c { return Verdict::Reject($n) } } }
/// an equation of possibly undefined values
macro_rules! eq { ($a:expr, $b:expr, $n:expr) => { match ($a, $b) { (Some(a), Some(b)) if a == b => {} _ => return Verdict::Reject($n) } } }

pub trait Sys<P: ZkP>: Sync {
    fn name(&self) -> &'static str;
    fn comp_names(&self) -> &'static [&'static str];
    fn layout(&self) -> Vec<Item>;
    /// Fields that belong to the responses (the others are commitments and the challenge), with the exponent of the permitted range.
    fn responses(&self, comps: &Comps<P>) -> Vec<(&'static str, Option<u32>)>;
    /// Sizes of the dimensions of the space of witnesses.
    fn dims(&self) -> Vec<usize>;
    /// An honest proof of the real prover, with its statement.
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value);
    fn verify(&self, comps: &Comps<P>, tree: &Value, aux: &Vec<u8>) -> Result<bool, String>;
    fn tapes(&self) -> Vec<Vec<u8>>;
    fn challenge(&self, comps: &Comps<P>, tape: &[u8]) -> Option<Chal<P>>;
    fn conds(&self, comps: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict;
    /// Recomputes the commitments from the responses and the challenge.
    fn simulate(&self, comps: &Comps<P>, v: &mut Vals<P>, ch: &Chal<P>) -> Option<()>;
    /// Number of list elements (0 if there is no list).
    fn rounds(&self) -> usize { 0 }

    fn fields(&self, tree: &Value) -> Vec<Field> { layout_fields(&self.layout(), tree) }
    fn read(&self, tree: &Value) -> Option<Vals<P>> { self.fields(tree).iter().map(|f| decode(f.kind, get(tree, &f.path)).map(|v| (f.name.clone(), v))).collect() }
    fn write(&self, template: &Value, vals: &Vals<P>) -> Value { let mut t = template.clone(); for f in self.fields(template) { let x = encode(f.kind, get(template, &f.path), &vals[&f.name]); *get_mut(&mut t, &f.path) = x; } t }
    fn reference(&self, comps: &Comps<P>, tree: &Value, ch: &Chal<P>) -> Verdict { match self.read(tree) { Some(v) => self.conds(comps, &v, ch), None => Verdict::Reject("malformed") } }
}
pub fn systems<P: ZkP>() -> Vec<Box<dyn Sys<P>>> { vec![Box::new(EncElg), Box::new(AffG), Box::new(AffGStar), Box::new(Dec), Box::new(Elog), Box::new(Fac), Box::new(Mod), Box::new(Prm), Box::new(Sch)] }

fn range(b: u32) -> Vec<Z> { let h = Nat::pow2(b - 1); vec![Z::n(rnat(b as u64, (b / 8) as usize).rem(&h)), Z::n(h.clone()), Z::new(true, h.sub(&Nat::one())), Z::zero(), Z::i(1), Z::i(-1)] }
fn scalars() -> Vec<Z> { let q = order(); vec![Z::n(rnat(5, 16).rem(&q)), Z::zero(), Z::i(1), Z::n(q.sub(&Nat::one())), Z::n(q.shr(1))] }
fn scalar_tapes() -> Vec<Vec<u8>> {
    let q = order(); let one = Nat::one();
    let mut es = vec![rnat(6, 16).rem(&q), Nat::zero(), one.clone(), q.sub(&one), q.shr(1), q.shr(1).add(&one), Nat::u(2), q.sub(&Nat::u(2))];
    es.dedup();
    // the reader takes the low half first
    es.iter().map(|e| { let mut t = e.to_be(Scalar::<ZP>::repr_len()); t.extend(vec![0; Scalar::<ZP>::repr_len()]); t }).collect()
}
fn scalar_chal<P: ZkP>(tape: &[u8]) -> Chal<P> { Chal::Sc(Scalar::from_xof_reader(&mut ZR::tape(tape))) }
fn bit_tapes(bits: usize) -> Vec<Vec<u8>> { if bits <= 3 { (0..1u32 << bits).map(|x| vec![(x << (8 - bits)) as u8]).collect() } else { [0xa5u8, 0, 0xff, 0x01, 0x80].iter().map(|b| { let mut t = vec![*b; bits.div_ceil(8)]; if *b == 1 { for x in &mut t[..bits.div_ceil(8) - 1] { *x = 0 } } if *b == 0x80 { for x in &mut t[1..] { *x = 0 } } t }).collect() } }
/// The prover's source: a stream of 64-bit draws, with one bit of one draw inverted on request.
pub struct FlipRng { src: DetRng, at: usize }
thread_local! { static FLIP: std::cell::Cell<Option<(usize, u32)>> = const { std::cell::Cell::new(None) }; static DRAWS: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }
impl rand_core::RngCore for FlipRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let x = self.src.next_u64(); let i = self.at; self.at += 1; DRAWS.set(self.at); match FLIP.get() { Some((j, b)) if i == j => x ^ 1 << b, _ => x } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl rand_core::CryptoRng for FlipRng {}
/// Runs `f` with a bit of the prover's randomness inverted; also returns how much randomness was used.
pub fn with_flip<T>(flip: Option<(usize, u32)>, f: impl FnOnce() -> T) -> (T, usize) { struct Reset; impl Drop for Reset { fn drop(&mut self) { FLIP.set(None) } } let _r = Reset; FLIP.set(flip); DRAWS.set(0); let r = f(); (r, DRAWS.get()) }
fn rng(seed: u64) -> FlipRng { FlipRng { src: DetRng(seed.wrapping_mul(0x1234567) + 17), at: 0 } }
fn u<T: Nt>(x: &T) -> Nat { x.nat() }
fn ctn(c: &Ciphertext<PaillierTest>) -> Nat { residue::<U512>(&to_tree(&c.to_wire())).unwrap() }
fn g<'a, P: ZkP>(v: &'a Vals<P>, n: &str) -> &'a Val<P> { v.get(n).unwrap_or_else(|| panic!("the proof has no field {n}")) }
fn gi<'a, P: ZkP>(v: &'a Vals<P>, n: &str, i: usize) -> &'a Val<P> { g(v, &format!("{n}.{i}")) }
fn count<P: ZkP>(v: &Vals<P>, n: &str) -> usize { (0..).take_while(|i| v.contains_key(&format!("{n}.{i}"))).count() }

// ------------------------------------------------------------------ enc-elg
pub struct EncElg;
impl<P: ZkP> Sys<P> for EncElg {
    fn name(&self) -> &'static str { "enc_elg" }
    fn comp_names(&self) -> &'static [&'static str] { &["pk0", "cap_c", "cap_a", "cap_b", "cap_x", "setup"] }
    fn layout(&self) -> Vec<Item> { use Item::F; vec![F("e", K::Sc), F("cap_s", K::Rp(5)), F("cap_d", K::Ct(0)), F("cap_y", K::Pt), F("cap_z", K::Pt), F("cap_t", K::Rp(5)), F("z1", K::Z(0)), F("w", K::Sc), F("z2", K::Mr(0)), F("z3", K::Z(1))] }
    fn responses(&self, _: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { vec![("cap_s", None), ("z1", Some(L + EPS)), ("w", None), ("z2", None), ("z3", None)] }
    fn dims(&self) -> Vec<usize> { vec![6, 5, 3, 2] }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) {
        let mut rng = rng(seed);
        let pk0 = pk(&keys()[d[3]].n).unwrap(); let st = cast_setup::<P>(d[3]); let rpp = rp(st.setup().0, st.setup().1, st.setup().2).unwrap();
        let x = range(L)[d[0]].clone(); let b = scalars()[d[1]].clone(); let a = scalars()[d[2]].clone();
        let xs = ss::<U256>(&x, L); let rho = Randomizer::random(&mut rng, &pk0);
        let c = Ciphertext::new_with_randomizer(&pk0, &xs, &rho);
        let (ca, cb) = (gen::<P>(&a), gen::<P>(&b)); let cx = gen::<P>(&a.mul(&b).add(&x));
        let bs = secret(sc::<P>(&b));
        let proof = EncElgProof::<P>::new(&mut rng, EncElgSecretInputs { x: &xs, rho: &rho, b: &bs }, EncElgPublicInputs { pk0: &pk0, cap_c: &c, cap_a: &ca, cap_b: &cb, cap_x: &cx }, &rpp, aux);
        (vec![Comp::Pk(u(pk0.modulus())), Comp::Ct(0, ctn(&c)), Comp::Pt(ca), Comp::Pt(cb), Comp::Pt(cx), st], to_tree(&proof))
    }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> {
        let proof: EncElgProof<P> = from_tree(t)?; let pk0 = pk(c[0].nat())?; let cc = ciphertext(&pk0, c[1].nat()); let s = c[5].setup(); let st = rp(s.0, s.1, s.2)?;
        Ok(proof.verify(EncElgPublicInputs { pk0: &pk0, cap_c: &cc, cap_a: &c[2].pt(), cap_b: &c[3].pt(), cap_x: &c[4].pt() }, &st, aux))
    }
    fn tapes(&self) -> Vec<Vec<u8>> { scalar_tapes() }
    fn challenge(&self, _: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { Some(scalar_chal(t)) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let (n, cc, st) = (c[0].nat(), c[1].nat(), c[5].setup()); let n2 = n.mul(n); let e = ch.z(); let es = sc::<P>(&e);
        let z1 = g(v, "z1").s(); let w = g(v, "w").c();
        need!(scz(&g(v, "e").c()) == e, "challenge");
        need!(in_exponent_range(z1, L + EPS), "range of z1");
        need!(unit(cc, n), "C is not invertible"); need!(unit(g(v, "z2").n(), n), "z2 is not invertible");
        need!(encr(n, z1, g(v, "z2").n()) == mm(g(v, "cap_d").n(), &pw(cc, &e, &n2).unwrap(), &n2), "ciphertext equation");
        need!(c[2].pt() * w + gen::<P>(z1) == g(v, "cap_y").p() + c[4].pt() * es, "equation of A, X");
        need!(w.mul_by_generator() == g(v, "cap_z").p() + c[3].pt() * es, "equation of B");
        eq!(commit(st, z1, g(v, "z3").s()), pw(g(v, "cap_s").n(), &e, st.0).map(|x| mm(&x, g(v, "cap_t").n(), st.0)), "commitment equation");
        if !unit(g(v, "cap_s").n(), st.0) { return Verdict::Any }
        Verdict::Accept
    }
    fn simulate(&self, c: &Comps<P>, v: &mut Vals<P>, ch: &Chal<P>) -> Option<()> {
        let (n, cc, st) = (c[0].nat(), c[1].nat(), c[5].setup()); let n2 = n.mul(n); let e = ch.z(); let es = sc::<P>(&e); let me = e.neg();
        let z1 = g(v, "z1").s().clone(); let w = g(v, "w").c();
        let d = mm(&encr(n, &z1, g(v, "z2").n()), &pw(cc, &me, &n2)?, &n2);
        let y = c[2].pt() * w + gen::<P>(&z1) + pneg(c[4].pt() * es); let z = w.mul_by_generator() + pneg(c[3].pt() * es);
        let t = mm(&commit(st, &z1, g(v, "z3").s())?, &pw(g(v, "cap_s").n(), &me, st.0)?, st.0);
        v.insert("cap_d".into(), Val::N(d)); v.insert("cap_y".into(), Val::Pt(y)); v.insert("cap_z".into(), Val::Pt(z)); v.insert("cap_t".into(), Val::N(t)); v.insert("e".into(), Val::Sc(es));
        Some(())
    }
}

// ------------------------------------------------------------------ aff-g
pub struct AffG;
struct AffWit<P: ZkP> { pk0: PkP, pk1: PkP, x: SecretSigned<U256>, y: SecretSigned<U256>, rho: Randomizer<PaillierTest>, rho_y: Randomizer<PaillierTest>, c: Ciphertext<PaillierTest>, d: Ciphertext<PaillierTest>, yy: Ciphertext<PaillierTest>, xx: Point<P> }
fn aff_witness<P: ZkP>(d: &[usize], rng: &mut FlipRng) -> AffWit<P> {
    let pk0 = pk(&keys()[d[2]].n).unwrap(); let pk1 = pk(&keys()[(d[2] + 1) % 3].n).unwrap();
    let x = range(L)[d[0]].clone(); let y = range(LP)[d[1]].clone();
    let (xs, ys) = (ss::<U256>(&x, L), ss::<U256>(&y, LP));
    let (rho, rho_y, rc) = (Randomizer::random(rng, &pk0), Randomizer::random(rng, &pk1), Randomizer::random(rng, &pk0));
    let c = Ciphertext::new_with_randomizer(&pk0, &ss::<U256>(&Z::n(rnat(d[0] as u64 + 50, 4)), 40), &rc);
    let dd = &c * &xs + Ciphertext::new_with_randomizer(&pk0, &ss::<U256>(&y.neg(), LP), &rho);
    let yy = Ciphertext::new_with_randomizer(&pk1, &ys, &rho_y);
    AffWit { pk0, pk1, x: xs, y: ys, rho, rho_y, c, d: dd, yy, xx: gen::<P>(&x) }
}
impl<P: ZkP> AffWit<P> { fn comps(&self) -> Comps<P> { vec![Comp::Pk(u(self.pk0.modulus())), Comp::Pk(u(self.pk1.modulus())), Comp::Ct(0, ctn(&self.c)), Comp::Ct(0, ctn(&self.d)), Comp::Ct(1, ctn(&self.yy)), Comp::Pt(self.xx)] } }
impl<P: ZkP> Sys<P> for AffG {
    fn name(&self) -> &'static str { "aff_g" }
    fn comp_names(&self) -> &'static [&'static str] { &["pk0", "pk1", "cap_c", "cap_d", "cap_y", "cap_x", "setup"] }
    fn layout(&self) -> Vec<Item> { use Item::F; vec![F("e", K::Sc), F("cap_a", K::Ct(0)), F("cap_b_x", K::Pt), F("cap_b_y", K::Ct(1)), F("cap_e", K::Rp(6)), F("cap_s", K::Rp(6)), F("cap_f", K::Rp(6)), F("cap_t", K::Rp(6)), F("z1", K::Z(0)), F("z2", K::Z(0)), F("z3", K::Z(1)), F("z4", K::Z(1)), F("w", K::Mr(0)), F("w_y", K::Mr(1))] }
    fn responses(&self, _: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { vec![("cap_s", None), ("cap_t", None), ("z1", Some(L + EPS)), ("z2", Some(LP + EPS)), ("z3", None), ("z4", None), ("w", None), ("w_y", None)] }
    fn dims(&self) -> Vec<usize> { vec![6, 6, 2] }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) {
        let mut rng = rng(seed); let w = aff_witness::<P>(d, &mut rng); let st = cast_setup::<P>(d[2]); let rpp = rp(st.setup().0, st.setup().1, st.setup().2).unwrap();
        let proof = AffGProof::<P>::new(&mut rng, AffGSecretInputs { x: &w.x, y: &w.y, rho: &w.rho, rho_y: &w.rho_y }, AffGPublicInputs { pk0: &w.pk0, pk1: &w.pk1, cap_c: &w.c, cap_d: &w.d, cap_y: &w.yy, cap_x: &w.xx }, &rpp, aux);
        let mut c = w.comps(); c.push(st); (c, to_tree(&proof))
    }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> {
        let proof: AffGProof<P> = from_tree(t)?; let (pk0, pk1) = (pk(c[0].nat())?, pk(c[1].nat())?); let s = c[6].setup(); let st = rp(s.0, s.1, s.2)?;
        let (cc, cd, cy) = (ciphertext(&pk0, c[2].nat()), ciphertext(&pk0, c[3].nat()), ciphertext(&pk1, c[4].nat()));
        Ok(proof.verify(AffGPublicInputs { pk0: &pk0, pk1: &pk1, cap_c: &cc, cap_d: &cd, cap_y: &cy, cap_x: &c[5].pt() }, &st, aux))
    }
    fn tapes(&self) -> Vec<Vec<u8>> { scalar_tapes() }
    fn challenge(&self, _: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { Some(scalar_chal(t)) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let (n0, n1, st) = (c[0].nat(), c[1].nat(), c[6].setup()); let (m0, m1) = (n0.mul(n0), n1.mul(n1)); let e = ch.z();
        let (z1, z2) = (g(v, "z1").s(), g(v, "z2").s());
        need!(scz(&g(v, "e").c()) == e, "challenge");
        need!(in_exponent_range(z1, L + EPS), "range of z1"); need!(in_exponent_range(z2, LP + EPS), "range of z2");
        need!(unit(c[2].nat(), n0) && unit(c[3].nat(), n0) && unit(c[4].nat(), n1), "a ciphertext is not invertible");
        need!(unit(g(v, "w").n(), n0), "w is not invertible"); need!(unit(g(v, "w_y").n(), n1), "w_y is not invertible");
        need!(mm(&pw(c[2].nat(), z1, &m0).unwrap(), &encr(n0, z2, g(v, "w").n()), &m0) == mm(g(v, "cap_a").n(), &pw(c[3].nat(), &e, &m0).unwrap(), &m0), "equation of C, D");
        need!(gen::<P>(z1) == g(v, "cap_b_x").p() + c[5].pt() * sc::<P>(&e), "equation of X");
        need!(encr(n1, z2, g(v, "w_y").n()) == mm(g(v, "cap_b_y").n(), &pw(c[4].nat(), &e.neg(), &m1).unwrap(), &m1), "equation of Y");
        eq!(commit(st, z1, g(v, "z3").s()), pw(g(v, "cap_s").n(), &e, st.0).map(|x| mm(&x, g(v, "cap_e").n(), st.0)), "equation of E, S");
        eq!(commit(st, z2, g(v, "z4").s()), pw(g(v, "cap_t").n(), &e, st.0).map(|x| mm(&x, g(v, "cap_f").n(), st.0)), "equation of F, T");
        if !unit(g(v, "cap_s").n(), st.0) || !unit(g(v, "cap_t").n(), st.0) { return Verdict::Any }
        Verdict::Accept
    }
    fn simulate(&self, c: &Comps<P>, v: &mut Vals<P>, ch: &Chal<P>) -> Option<()> {
        let (n0, n1, st) = (c[0].nat(), c[1].nat(), c[6].setup()); let (m0, m1) = (n0.mul(n0), n1.mul(n1)); let e = ch.z(); let me = e.neg();
        let (z1, z2) = (g(v, "z1").s().clone(), g(v, "z2").s().clone());
        let a = mm(&mm(&pw(c[2].nat(), &z1, &m0)?, &encr(n0, &z2, g(v, "w").n()), &m0), &pw(c[3].nat(), &me, &m0)?, &m0);
        let bx = gen::<P>(&z1) + pneg(c[5].pt() * sc::<P>(&e));
        let by = mm(&encr(n1, &z2, g(v, "w_y").n()), &pw(c[4].nat(), &e, &m1)?, &m1);
        let ce = mm(&commit(st, &z1, g(v, "z3").s())?, &pw(g(v, "cap_s").n(), &me, st.0)?, st.0);
        let cf = mm(&commit(st, &z2, g(v, "z4").s())?, &pw(g(v, "cap_t").n(), &me, st.0)?, st.0);
        for (k, x) in [("cap_a", Val::N(a)), ("cap_b_x", Val::Pt(bx)), ("cap_b_y", Val::N(by)), ("cap_e", Val::N(ce)), ("cap_f", Val::N(cf)), ("e", Val::Sc(sc(&e)))] { v.insert(k.into(), x); }
        Some(())
    }
}

// ------------------------------------------------------------------ aff-g*
pub struct AffGStar;
fn chal_bits<P: ZkP>(t: &[u8], n: usize) -> Chal<P> { Chal::Bits(BitVec::from_xof_reader(&mut ZR::tape(t), n).bits().to_vec()) }
impl<P: ZkP> Sys<P> for AffGStar {
    fn name(&self) -> &'static str { "aff_g_star" }
    fn comp_names(&self) -> &'static [&'static str] { &["pk0", "pk1", "cap_c", "cap_d", "cap_y", "cap_x"] }
    fn layout(&self) -> Vec<Item> { use Item::*; vec![F("e", K::Bits), L("commitments", vec![("cap_a", K::Ct(0)), ("cap_r", K::Pt), ("cap_b", K::Ct(1))]), L("elements", vec![("z", K::Z(0)), ("z_prime", K::Z(0)), ("w", K::Mr(0)), ("lambda", K::Mr(1))])] }
    fn responses(&self, _: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { vec![("z", Some(L + EPS)), ("z_prime", Some(LP + EPS)), ("w", None), ("lambda", None)] }
    fn dims(&self) -> Vec<usize> { vec![6, 6, 2] }
    fn rounds(&self) -> usize { P::SECURITY_PARAMETER }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) {
        let mut rng = rng(seed); let w = aff_witness::<P>(d, &mut rng);
        let proof = AffGStarProof::<P>::new(&mut rng, AffGStarSecretInputs { x: &w.x, y: &w.y, rho: &w.rho, mu: &w.rho_y }, AffGStarPublicInputs { pk0: &w.pk0, pk1: &w.pk1, cap_c: &w.c, cap_d: &w.d, cap_y: &w.yy, cap_x: &w.xx }, aux);
        (w.comps(), to_tree(&proof))
    }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> {
        let proof: AffGStarProof<P> = from_tree(t)?; let (pk0, pk1) = (pk(c[0].nat())?, pk(c[1].nat())?);
        let (cc, cd, cy) = (ciphertext(&pk0, c[2].nat()), ciphertext(&pk0, c[3].nat()), ciphertext(&pk1, c[4].nat()));
        Ok(proof.verify(AffGStarPublicInputs { pk0: &pk0, pk1: &pk1, cap_c: &cc, cap_d: &cd, cap_y: &cy, cap_x: &c[5].pt() }, aux))
    }
    fn tapes(&self) -> Vec<Vec<u8>> { bit_tapes(P::SECURITY_PARAMETER) }
    fn challenge(&self, _: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { Some(chal_bits(t, P::SECURITY_PARAMETER)) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let (n0, n1) = (c[0].nat(), c[1].nat()); let (m0, m1) = (n0.mul(n0), n1.mul(n1)); let bits = ch.bits();
        need!(g(v, "e").bits() == bits, "challenge");
        for n in ["cap_a", "z"] { need!(count(v, n) == bits.len(), "number of elements"); }
        need!(unit(c[2].nat(), n0) && unit(c[3].nat(), n0) && unit(c[4].nat(), n1), "a ciphertext is not invertible");
        for (i, b) in bits.iter().enumerate() {
            let e = Z::i(*b as i64); let (z, zp) = (gi(v, "z", i).s(), gi(v, "z_prime", i).s());
            need!(in_exponent_range(z, L + EPS), "range of z"); need!(in_exponent_range(zp, LP + EPS), "range of z'");
            need!(unit(gi(v, "w", i).n(), n0), "w is not invertible"); need!(unit(gi(v, "lambda", i).n(), n1), "lambda is not invertible");
            need!(mm(&pw(c[2].nat(), z, &m0).unwrap(), &encr(n0, zp, gi(v, "w", i).n()), &m0) == mm(gi(v, "cap_a", i).n(), &pw(c[3].nat(), &e, &m0).unwrap(), &m0), "equation of C, D");
            need!(gen::<P>(z) == gi(v, "cap_r", i).p() + c[5].pt() * sc::<P>(&e), "equation of X");
            need!(encr(n1, zp, gi(v, "lambda", i).n()) == mm(gi(v, "cap_b", i).n(), &pw(c[4].nat(), &e.neg(), &m1).unwrap(), &m1), "equation of Y");
        }
        Verdict::Accept
    }
    fn simulate(&self, c: &Comps<P>, v: &mut Vals<P>, ch: &Chal<P>) -> Option<()> {
        let (n0, n1) = (c[0].nat(), c[1].nat()); let (m0, m1) = (n0.mul(n0), n1.mul(n1)); let bits = ch.bits();
        for (i, b) in bits.iter().enumerate() {
            let e = Z::i(*b as i64); let (z, zp) = (gi(v, "z", i).s().clone(), gi(v, "z_prime", i).s().clone());
            let a = mm(&mm(&pw(c[2].nat(), &z, &m0)?, &encr(n0, &zp, gi(v, "w", i).n()), &m0), &pw(c[3].nat(), &e.neg(), &m0)?, &m0);
            let r = gen::<P>(&z) + pneg(c[5].pt() * sc::<P>(&e));
            let bb = mm(&encr(n1, &zp, gi(v, "lambda", i).n()), &pw(c[4].nat(), &e, &m1)?, &m1);
            for (k, x) in [("cap_a", Val::N(a)), ("cap_r", Val::Pt(r)), ("cap_b", Val::N(bb))] { v.insert(format!("{k}.{i}"), x); }
        }
        v.insert("e".into(), Val::Bits(bits.to_vec()));
        Some(())
    }
}

// ------------------------------------------------------------------ dec
pub struct Dec;
pub fn dec_bound(num: usize) -> u32 { LP + EPS + 1 + (usize::BITS - (num - 1).leading_zeros()) }
pub const NUMS: [usize; 5] = [3, 2, 4, 5, 9];
impl<P: ZkP> Sys<P> for Dec {
    fn name(&self) -> &'static str { "dec" }
    fn comp_names(&self) -> &'static [&'static str] { &["pk0", "cap_k", "cap_x", "cap_d", "cap_s", "cap_g", "num_parties", "setup"] }
    fn layout(&self) -> Vec<Item> { use Item::*; vec![F("e", K::Bits), L("commitments", vec![("cap_a", K::Ct(0)), ("cap_b", K::Pt), ("cap_c", K::Pt)]), L("elements", vec![("z", K::Z(0)), ("w", K::Z(1)), ("nu", K::Mr(0))])] }
    fn responses(&self, c: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { vec![("z", Some(L + EPS)), ("w", Some(dec_bound(c[6].num()) + EPS)), ("nu", None)] }
    fn dims(&self) -> Vec<usize> { vec![6, 6, 5, 3] }
    fn rounds(&self) -> usize { P::SECURITY_PARAMETER }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) {
        let mut rng = rng(seed); let num = NUMS[d[2]]; let yb = dec_bound(num);
        let pk0 = pk(&keys()[d[2] % 3].n).unwrap(); let st = cast_setup::<P>(d[2] % 3); let rpp = rp(st.setup().0, st.setup().1, st.setup().2).unwrap();
        let x = range(L)[d[0]].clone(); let y = range(yb)[d[1]].clone(); let (xs, ys) = (ss::<U256>(&x, L), ss::<U256>(&y, yb));
        let base = gen::<P>(&scalars()[d[3]]);
        let rho = Randomizer::random(&mut rng, &pk0); let rk = Randomizer::random(&mut rng, &pk0);
        let k = Ciphertext::new_with_randomizer(&pk0, &ss::<U256>(&Z::n(rnat(d[0] as u64 + 70, 4)), 40), &rk);
        let dd = Ciphertext::new_with_randomizer(&pk0, &ys, &rho) + &k * &ss::<U256>(&x.neg(), L);
        let (cx, cs) = (gen::<P>(&x), base * sc::<P>(&y));
        let proof = DecProof::<P>::new(&mut rng, DecSecretInputs { x: &xs, y: &ys, rho: &rho }, DecPublicInputs { pk0: &pk0, cap_k: &k, cap_x: &cx, cap_d: &dd, cap_s: &cs, cap_g: &base, num_parties: num }, &rpp, aux);
        (vec![Comp::Pk(u(pk0.modulus())), Comp::Ct(0, ctn(&k)), Comp::Pt(cx), Comp::Ct(0, ctn(&dd)), Comp::Pt(cs), Comp::Pt(base), Comp::Num(num), st], to_tree(&proof))
    }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> {
        let proof: DecProof<P> = from_tree(t)?; let pk0 = pk(c[0].nat())?; let s = c[7].setup(); let st = rp(s.0, s.1, s.2)?; let (k, d) = (ciphertext(&pk0, c[1].nat()), ciphertext(&pk0, c[3].nat()));
        Ok(proof.verify(DecPublicInputs { pk0: &pk0, cap_k: &k, cap_x: &c[2].pt(), cap_d: &d, cap_s: &c[4].pt(), cap_g: &c[5].pt(), num_parties: c[6].num() }, &st, aux))
    }
    fn tapes(&self) -> Vec<Vec<u8>> { bit_tapes(P::SECURITY_PARAMETER) }
    fn challenge(&self, _: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { Some(chal_bits(t, P::SECURITY_PARAMETER)) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let n = c[0].nat(); let n2 = n.mul(n); let bits = ch.bits();
        need!(g(v, "e").bits() == bits, "challenge");
        for n in ["cap_a", "z"] { need!(count(v, n) == bits.len(), "number of elements"); }
        need!(unit(c[1].nat(), n) && unit(c[3].nat(), n), "a ciphertext is not invertible");
        for (i, b) in bits.iter().enumerate() {
            let e = Z::i(*b as i64); let (z, w) = (gi(v, "z", i).s(), gi(v, "w", i).s());
            need!(in_exponent_range(z, L + EPS), "range of z"); need!(in_exponent_range(w, dec_bound(c[6].num()) + EPS), "range of w");
            need!(unit(gi(v, "nu", i).n(), n), "nu is not invertible");
            need!(mm(&encr(n, w, gi(v, "nu", i).n()), &pw(c[1].nat(), &z.neg(), &n2).unwrap(), &n2) == mm(gi(v, "cap_a", i).n(), &pw(c[3].nat(), &e, &n2).unwrap(), &n2), "equation of K, D");
            need!(gen::<P>(z) == gi(v, "cap_c", i).p() + c[2].pt() * sc::<P>(&e), "equation of X");
            need!(c[5].pt() * sc::<P>(w) == gi(v, "cap_b", i).p() + c[4].pt() * sc::<P>(&e), "equation of S");
        }
        Verdict::Accept
    }
    fn simulate(&self, c: &Comps<P>, v: &mut Vals<P>, ch: &Chal<P>) -> Option<()> {
        let n = c[0].nat(); let n2 = n.mul(n); let bits = ch.bits();
        for (i, b) in bits.iter().enumerate() {
            let e = Z::i(*b as i64); let (z, w) = (gi(v, "z", i).s().clone(), gi(v, "w", i).s().clone());
            let a = mm(&mm(&encr(n, &w, gi(v, "nu", i).n()), &pw(c[1].nat(), &z.neg(), &n2)?, &n2), &pw(c[3].nat(), &e.neg(), &n2)?, &n2);
            let cc = gen::<P>(&z) + pneg(c[2].pt() * sc::<P>(&e)); let bb = c[5].pt() * sc::<P>(&w) + pneg(c[4].pt() * sc::<P>(&e));
            for (k, x) in [("cap_a", Val::N(a)), ("cap_b", Val::Pt(bb)), ("cap_c", Val::Pt(cc))] { v.insert(format!("{k}.{i}"), x); }
        }
        v.insert("e".into(), Val::Bits(bits.to_vec()));
        Some(())
    }
}

// ------------------------------------------------------------------ elog
pub struct Elog;
impl<P: ZkP> Sys<P> for Elog {
    fn name(&self) -> &'static str { "elog" }
    fn comp_names(&self) -> &'static [&'static str] { &["cap_l", "cap_m", "cap_x", "cap_y", "h"] }
    fn layout(&self) -> Vec<Item> { use Item::F; vec![F("e", K::Sc), F("cap_a", K::Pt), F("cap_n", K::Pt), F("cap_b", K::Pt), F("z", K::Sc), F("u", K::Sc)] }
    fn responses(&self, _: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { vec![("z", None), ("u", None)] }
    fn dims(&self) -> Vec<usize> { vec![5, 5, 4, 4] }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) {
        let mut rng = rng(seed); let s = scalars(); let (y, l, x, h) = (s[d[0]].clone(), s[d[1]].clone(), s[d[2]].clone(), s[d[3]].clone());
        let (cl, cm, cx, cy, ch) = (gen::<P>(&l), gen::<P>(&y.add(&x.mul(&l))), gen::<P>(&x), gen::<P>(&y.mul(&h)), gen::<P>(&h));
        let proof = ElogProof::<P>::new(&mut rng, ElogSecretInputs { y: &secret(sc(&y)), lambda: &secret(sc(&l)) }, ElogPublicInputs { cap_l: &cl, cap_m: &cm, cap_x: &cx, cap_y: &cy, h: &ch }, aux);
        (vec![cl, cm, cx, cy, ch].into_iter().map(Comp::Pt).collect(), to_tree(&proof))
    }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> { Ok(from_tree::<ElogProof<P>>(t)?.verify(ElogPublicInputs { cap_l: &c[0].pt(), cap_m: &c[1].pt(), cap_x: &c[2].pt(), cap_y: &c[3].pt(), h: &c[4].pt() }, aux)) }
    fn tapes(&self) -> Vec<Vec<u8>> { scalar_tapes() }
    fn challenge(&self, _: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { Some(scalar_chal(t)) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let e = sc::<P>(&ch.z()); let (z, uu) = (g(v, "z").c(), g(v, "u").c());
        need!(g(v, "e").c() == e, "challenge");
        need!(z.mul_by_generator() == g(v, "cap_a").p() + c[0].pt() * e, "equation of L");
        need!(uu.mul_by_generator() + c[2].pt() * z == g(v, "cap_n").p() + c[1].pt() * e, "equation of M");
        need!(c[4].pt() * uu == g(v, "cap_b").p() + c[3].pt() * e, "equation of Y");
        Verdict::Accept
    }
    fn simulate(&self, c: &Comps<P>, v: &mut Vals<P>, ch: &Chal<P>) -> Option<()> {
        let e = sc::<P>(&ch.z()); let (z, uu) = (g(v, "z").c(), g(v, "u").c());
        let a = z.mul_by_generator() + pneg(c[0].pt() * e); let n = uu.mul_by_generator() + c[2].pt() * z + pneg(c[1].pt() * e); let b = c[4].pt() * uu + pneg(c[3].pt() * e);
        for (k, x) in [("cap_a", a), ("cap_n", n), ("cap_b", b)] { v.insert(k.into(), Val::Pt(x)); }
        v.insert("e".into(), Val::Sc(e));
        Some(())
    }
}

// ------------------------------------------------------------------ fac
pub struct Fac;
impl<P: ZkP> Sys<P> for Fac {
    fn name(&self) -> &'static str { "fac" }
    fn comp_names(&self) -> &'static [&'static str] { &["pk0", "setup"] }
    fn layout(&self) -> Vec<Item> { use Item::F; vec![F("e", K::Es), F("cap_p", K::Rp(1)), F("cap_q", K::Rp(1)), F("cap_a", K::Rp(1)), F("cap_b", K::Rp(1)), F("cap_t", K::Rp(1)), F("z1", K::Z(1)), F("z2", K::Z(1)), F("w1", K::Z(1)), F("w2", K::Z(1)), F("v", K::Z(2))] }
    fn responses(&self, _: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { let r = Some(L + EPS + PB - 2); vec![("cap_p", None), ("cap_q", None), ("z1", r), ("z2", r), ("w1", None), ("w2", None), ("v", None)] }
    fn dims(&self) -> Vec<usize> { vec![3, 3] }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) {
        let mut rng = rng(seed); let sk = sk(d[0]); let st = cast_setup::<P>(d[1]); let rpp = rp(st.setup().0, st.setup().1, st.setup().2).unwrap();
        let proof = FacProof::<P>::new(&mut rng, &sk, &rpp, aux);
        (vec![Comp::Pk(keys()[d[0]].n.clone()), st], to_tree(&proof))
    }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> { let p: FacProof<P> = from_tree(t)?; let pk0 = pk(c[0].nat())?; let s = c[1].setup(); let st = rp(s.0, s.1, s.2)?; Ok(p.verify(&pk0, &st, aux)) }
    fn tapes(&self) -> Vec<Vec<u8>> { let off = Nat::pow2(L - 1).sub(&Nat::one()); let h = Nat::pow2(L - 1); [Z::n(rnat(8, 3)), Z::zero(), Z::i(1), Z::i(-1), Z::n(h.clone()), Z::n(h.sub(&Nat::one())), Z::new(true, h.sub(&Nat::one())), Z::new(true, rnat(9, 3))].iter().map(|e| e.add(&Z::n(off.clone())).abs.to_be(L as usize / 8)).collect() }
    fn challenge(&self, _: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { Some(Chal::S(zp(&PublicSigned::<U256>::from_xof_reader_in_exponent_range(&mut ZR::tape(t), L)))) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let (n0, st) = (c[0].nat(), c[1].setup()); let m = st.0; let e = ch.z();
        let (z1, z2) = (g(v, "z1").s(), g(v, "z2").s()); let (cp, cq) = (g(v, "cap_p").n(), g(v, "cap_q").n());
        need!(*g(v, "e").s() == e, "challenge");
        need!(in_exponent_range(z1, L + EPS + PB - 2), "range of z1"); need!(in_exponent_range(z2, L + EPS + PB - 2), "range of z2");
        eq!(commit(st, z1, g(v, "w1").s()), pw(cp, &e, m).map(|x| mm(&x, g(v, "cap_a").n(), m)), "equation of P");
        eq!(commit(st, z2, g(v, "w2").s()), pw(cq, &e, m).map(|x| mm(&x, g(v, "cap_b").n(), m)), "equation of Q");
        let r = pw(st.2, &Z::n(n0.clone()), m).unwrap();
        eq!(pw(cq, z1, m).and_then(|x| Some(mm(&x, &pw(st.1, g(v, "v").s(), m)?, m))), pw(&r, &e, m).map(|x| mm(&x, g(v, "cap_t").n(), m)), "equation of N");
        if !unit(cp, m) || !unit(cq, m) { return Verdict::Any }
        Verdict::Accept
    }
    fn simulate(&self, c: &Comps<P>, v: &mut Vals<P>, ch: &Chal<P>) -> Option<()> {
        let (n0, st) = (c[0].nat(), c[1].setup()); let m = st.0; let e = ch.z(); let me = e.neg();
        let (z1, z2) = (g(v, "z1").s().clone(), g(v, "z2").s().clone()); let (cp, cq) = (g(v, "cap_p").n().clone(), g(v, "cap_q").n().clone());
        let a = mm(&commit(st, &z1, g(v, "w1").s())?, &pw(&cp, &me, m)?, m); let b = mm(&commit(st, &z2, g(v, "w2").s())?, &pw(&cq, &me, m)?, m);
        let r = pw(st.2, &Z::n(n0.clone()), m)?;
        let t = mm(&mm(&pw(&cq, &z1, m)?, &pw(st.1, g(v, "v").s(), m)?, m), &pw(&r, &me, m)?, m);
        for (k, x) in [("cap_a", a), ("cap_b", b), ("cap_t", t)] { v.insert(k.into(), Val::N(x)); }
        v.insert("e".into(), Val::S(e));
        Some(())
    }
}

// ------------------------------------------------------------------ mod
pub struct Mod;
pub fn residues<P: ZkP>(n: &Nat, tape: &[u8]) -> Option<Vec<Nat>> { let pk = pk(n).ok()?; let mut r = ZR::tape(tape); Some((0..P::SECURITY_BITS).map(|_| u(&pk.invertible_residue_from_xof_reader(&mut r))).collect()) }
impl<P: ZkP> Sys<P> for Mod {
    fn name(&self) -> &'static str { "mod" }
    fn comp_names(&self) -> &'static [&'static str] { &["pk0"] }
    fn layout(&self) -> Vec<Item> { use Item::*; vec![F("commitment", K::Un(0)), L("challenge", vec![("", K::Un(0))]), L("proof", vec![("x", K::Un(0)), ("a", K::Bool), ("b", K::Bool), ("z", K::Un(0))])] }
    fn responses(&self, _: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { vec![] }
    fn dims(&self) -> Vec<usize> { vec![6] }
    fn rounds(&self) -> usize { P::SECURITY_BITS }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) { let mut rng = rng(seed); let p = ModProof::<P>::new(&mut rng, &sk(d[0]), aux); (vec![Comp::Pk(keys()[d[0]].n.clone())], to_tree(&p)) }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> { let p: ModProof<P> = from_tree(t)?; Ok(p.verify(&pk(c[0].nat())?, aux)) }
    fn tapes(&self) -> Vec<Vec<u8>> { vec![vec![], { let mut t = vec![0; 31]; t.push(1); t.extend(vec![0; 31]); t.push(2); t }, vec![0xff; 40], vec![0x11; 32], (1..=96).collect(), vec![0x73; 64]] }
    fn challenge(&self, c: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { residues::<P>(c[0].nat(), t).map(Chal::Ns) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let n = c[0].nat(); let w = g(v, "commitment").n(); let Chal::Ns(ys) = ch else { panic!("kind") };
        need!(count(v, "challenge") == ys.len() && (0..ys.len()).all(|i| gi(v, "challenge", i).n() == &ys[i]), "challenge");
        need!(count(v, "x") == ys.len(), "number of elements");
        need!(!n.is_even() && !n.is_prime(), "the modulus is prime or even"); need!(unit(w, n), "w is not invertible");
        for (i, y) in ys.iter().enumerate() {
            need!(unit(y, n), "y is not invertible");
            need!(pw(gi(v, "z", i).n(), &Z::n(n.clone()), n) == Some(y.clone()), "equation of z");
            let mut r = y.clone(); if gi(v, "a", i).b() { r = Z::n(r).neg().modulo(n) } if gi(v, "b", i).b() { r = mm(&r, w, n) }
            need!(pw(gi(v, "x", i).n(), &Z::i(4), n) == Some(r), "equation of x");
        }
        Verdict::Accept
    }
    fn simulate(&self, _: &Comps<P>, _: &mut Vals<P>, _: &Chal<P>) -> Option<()> { Some(()) }
}

// ------------------------------------------------------------------ prm
pub struct Prm;
fn rp_secrets() -> &'static Vec<(RPSecret<PaillierTest>, Nat, Nat, Nat)> {
    static S: OnceLock<Vec<(RPSecret<PaillierTest>, Nat, Nat, Nat)>> = OnceLock::new();
    S.get_or_init(|| (0..3u64).map(|i| { use crypto_bigint::modular::Retrieve; let mut rng = DetRng(500 + i); let s = RPSecret::<PaillierTest>::random(&mut rng); let p = RPParams::<PaillierTest>::random_with_secret(&mut rng, &s); let (n, t, v) = { let (t, v): (U256, U256) = (p.base_randomizer().retrieve(), p.base_value().retrieve()); (u(p.modulus()), u(&t), u(&v)) }; (s, n, t, v) }).collect())
}
impl<P: ZkP> Sys<P> for Prm {
    fn name(&self) -> &'static str { "prm" }
    fn comp_names(&self) -> &'static [&'static str] { &["setup"] }
    fn layout(&self) -> Vec<Item> { use Item::*; vec![L("commitment", vec![("", K::Un(0))]), F("challenge", K::Bits), L("proof", vec![("", K::Ex)])] }
    fn responses(&self, _: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { vec![("proof", None)] }
    fn dims(&self) -> Vec<usize> { vec![3] }
    fn rounds(&self) -> usize { P::SECURITY_BITS }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) { let mut rng = rng(seed); let (s, n, t, v) = &rp_secrets()[d[0]]; let st = rp(n, t, v).unwrap(); let p = PrmProof::<P>::new(&mut rng, s, &st, aux); (vec![Comp::Setup(n.clone(), t.clone(), v.clone())], to_tree(&p)) }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> { let p: PrmProof<P> = from_tree(t)?; let s = c[0].setup(); let st = rp(s.0, s.1, s.2)?; Ok(p.verify(&st, aux)) }
    fn tapes(&self) -> Vec<Vec<u8>> { bit_tapes(P::SECURITY_BITS) }
    fn challenge(&self, _: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { Some(chal_bits(t, P::SECURITY_BITS)) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let (n, t, s) = c[0].setup(); let bits = ch.bits();
        need!(g(v, "challenge").bits() == bits, "challenge");
        need!(count(v, "commitment") == bits.len() && count(v, "proof") == bits.len(), "number of elements");
        need!(unit(t, n) && unit(s, n), "a base is not invertible");
        for (i, b) in bits.iter().enumerate() { need!(pw(t, &Z::n(gi(v, "proof", i).n().clone()), n) == Some(if *b { mm(gi(v, "commitment", i).n(), s, n) } else { gi(v, "commitment", i).n().rem(n) }), "equation"); }
        Verdict::Accept
    }
    fn simulate(&self, c: &Comps<P>, v: &mut Vals<P>, ch: &Chal<P>) -> Option<()> {
        let (n, t, s) = c[0].setup();
        for (i, b) in ch.bits().iter().enumerate() { let a = mm(&pw(t, &Z::n(gi(v, "proof", i).n().clone()), n)?, &if *b { s.inv(n)? } else { Nat::one() }, n); v.insert(format!("commitment.{i}"), Val::N(a)); }
        v.insert("challenge".into(), Val::Bits(ch.bits().to_vec()));
        Some(())
    }
}

// ------------------------------------------------------------------ sch
pub struct Sch;
impl<P: ZkP> Sys<P> for Sch {
    fn name(&self) -> &'static str { "sch" }
    fn comp_names(&self) -> &'static [&'static str] { &["commitment", "cap_x"] }
    fn layout(&self) -> Vec<Item> { use Item::F; vec![F("challenge", K::Sc), F("proof", K::Sc)] }
    fn responses(&self, _: &Comps<P>) -> Vec<(&'static str, Option<u32>)> { vec![("proof", None)] }
    fn dims(&self) -> Vec<usize> { vec![5] }
    fn prove(&self, d: &[usize], seed: u64, aux: &Vec<u8>) -> (Comps<P>, Value) {
        let mut rng = rng(seed); let x = scalars()[d[0]].clone(); let s = SchSecret::<P>::random(&mut rng); let com = SchCommitment::new(&s); let cx = gen::<P>(&x);
        let p = SchProof::new(&s, &secret(sc(&x)), &com, &cx, aux);
        (vec![Comp::Pt(from_tree(&to_tree(&com)).expect("a point")), Comp::Pt(cx)], to_tree(&p))
    }
    fn verify(&self, c: &Comps<P>, t: &Value, aux: &Vec<u8>) -> Result<bool, String> { let p: SchProof<P> = from_tree(t)?; let com: SchCommitment<P> = from_tree(&to_tree(&c[0].pt()))?; Ok(p.verify(&com, &c[1].pt(), aux)) }
    fn tapes(&self) -> Vec<Vec<u8>> { scalar_tapes() }
    fn challenge(&self, _: &Comps<P>, t: &[u8]) -> Option<Chal<P>> { Some(scalar_chal(t)) }
    fn conds(&self, c: &Comps<P>, v: &Vals<P>, ch: &Chal<P>) -> Verdict {
        let e = sc::<P>(&ch.z());
        need!(g(v, "challenge").c() == e, "challenge");
        need!(g(v, "proof").c().mul_by_generator() == c[0].pt() + c[1].pt() * e, "equation");
        Verdict::Accept
    }
    // the commitment is a part of the statement
    fn simulate(&self, _: &Comps<P>, _: &mut Vals<P>, _: &Chal<P>) -> Option<()> { Some(()) }
}

// ------------------------------------------------------------------ alternatives
fn other_residues(v: &Nat, m: &Nat, w: u32) -> Vec<(&'static str, Nat)> {
    let mut r = vec![("plus one", v.add(&Nat::one()).rem(m)), ("negated", Z::n(v.clone()).neg().modulo(m)), ("doubled", v.add(v).rem(m)), ("one", Nat::one()), ("zero", Nat::zero()), ("the modulus", m.clone())];
    if v.add(m).bits() <= w { r.push(("plus the modulus", v.add(m))) }
    r
}
/// Values that differ from the given one (to be put into a finished proof).
pub fn alts<P: ZkP>(k: K, v: &Val<P>, comps: &Comps<P>) -> Vec<(&'static str, Val<P>)> {
    let md = |i: usize| match &comps[i] { Comp::Setup(n, _, _) => n.clone(), c => c.nat().clone() };
    let withp = |mut r: Vec<(&'static str, Nat)>, n: &Nat, m: &Nat, v: &Nat| { if let Some(p) = factor(n) { r.push(("a multiple of a factor", mm(v, &p, m))); r.push(("a factor", p)); } r };
    let r: Vec<(&'static str, Val<P>)> = match k {
        K::Sc => vec![("plus one", Val::Sc(v.c() + sci(1))), ("minus one", Val::Sc(v.c() + sci(-1))), ("zero", Val::Sc(sci(0))), ("negated", Val::Sc(v.c() * sci(-1))), ("one", Val::Sc(sci(1)))],
        K::Pt => vec![("plus the generator", Val::Pt(v.p() + gen(&Z::i(1)))), ("negated", Val::Pt(pneg(v.p()))), ("identity", Val::Pt(gen(&Z::i(0)))), ("generator", Val::Pt(gen(&Z::i(1)))), ("doubled", Val::Pt(v.p() + v.p()))],
        K::Ct(i) => { let n = md(i); let m = n.mul(&n); let mut r = other_residues(v.n(), &m, 512); r.push(("times 1 + N", mm(v.n(), &n.add(&Nat::one()), &m))); r.push(("times an N-th power", mm(v.n(), &Nat::u(3).powmod(&n, &m), &m))); withp(r, &n, &m, v.n()).into_iter().map(|(a, b)| (a, Val::N(b))).collect() }
        K::Rp(i) | K::Mr(i) | K::Un(i) => { let n = md(i); withp(other_residues(v.n(), &n, 256), &n, &n, v.n()).into_iter().map(|(a, b)| (a, Val::N(b))).collect() }
        K::Ex => { let mut r = vec![("plus one", v.n().add(&Nat::one()).rem(&Nat::pow2(256))), ("zero", Nat::zero()), ("one", Nat::one()), ("all ones", Nat::pow2(256).sub(&Nat::one()))]; if !v.n().is_zero() { r.push(("minus one", v.n().sub(&Nat::one()))) } r.into_iter().map(|(a, b)| (a, Val::N(b))).collect() }
        K::Z(_) => { let big = Nat::pow2(width(k) - 2); vec![("plus one", v.s().add(&Z::i(1))), ("minus one", v.s().sub(&Z::i(1))), ("negated", v.s().neg()), ("zero", Z::zero()), ("large", Z::n(big.clone())), ("large negative", Z::new(true, big))].into_iter().map(|(a, b)| (a, Val::S(b))).collect() }
        K::Es => { let h = Nat::pow2(L - 1); vec![("plus one", v.s().add(&Z::i(1))), ("minus one", v.s().sub(&Z::i(1))), ("negated", v.s().neg()), ("zero", Z::zero()), ("largest", Z::n(h.clone())), ("smallest", Z::new(true, h.sub(&Nat::one())))].into_iter().map(|(a, b)| (a, Val::S(b))).collect() }
        K::Bits => { let b = v.bits(); let mut r: Vec<(&'static str, Vec<bool>)> = vec![("all zeros", vec![false; b.len()]), ("all ones", vec![true; b.len()])]; for i in 0..b.len() { let mut x = b.clone(); x[i] = !x[i]; r.push(("one bit flipped", x)) } r.into_iter().map(|(a, b)| (a, Val::Bits(b))).collect() }
        K::Bool => vec![("flipped", Val::B(!v.b()))],
    };
    let mut out: Vec<(&'static str, Val<P>)> = vec![];
    for (a, x) in r { if x != *v && !out.iter().any(|(_, y)| *y == x) { out.push((a, x)) } }
    out
}
/// Responses from which a proof is simulated.
pub fn resp_alts<P: ZkP>(k: K, v: &Val<P>, range: Option<u32>, comps: &Comps<P>) -> Vec<(&'static str, Val<P>)> {
    let md = |i: usize| match &comps[i] { Comp::Setup(n, _, _) => n.clone(), c => c.nat().clone() };
    match k {
        K::Z(_) => {
            let big = Nat::pow2(width(k) - 2);
            let mut r = vec![("0", Z::zero()), ("1", Z::i(1)), ("-1", Z::i(-1))];
            match range {
                Some(b) => { let h = Z::n(Nat::pow2(b - 1)); let l = h.neg().add(&Z::i(1)); r.extend([("the largest value", h.clone()), ("one above the range", h.add(&Z::i(1))), ("the smallest value", l.clone()), ("one below the range", l.sub(&Z::i(1))), ("twice the largest value", h.add(&h)), ("twice the smallest value", l.add(&l)), ("minus twice the largest value", h.add(&h).neg()), ("far above the range", h.mul(&Z::n(Nat::pow2(20)))), ("far below the range", h.mul(&Z::n(Nat::pow2(20))).neg())]); }
                None => { r.push(("large", Z::n(big.clone()))); r.push(("large negative", Z::new(true, big))); r.push(("negated", v.s().neg())); }
            }
            r.into_iter().filter(|(_, z)| z.abs.bits() < width(k) && *z != *v.s()).map(|(a, z)| (a, Val::S(z))).collect()
        }
        K::Sc => vec![("0", Val::Sc(sci(0))), ("1", Val::Sc(sci(1))), ("-1", Val::Sc(sci(-1)))],
        K::Mr(i) | K::Rp(i) => { let n = md(i); let mut r = vec![("1", Nat::one()), ("-1", n.sub(&Nat::one())), ("3", Nat::u(3)), ("0", Nat::zero())]; if let Some(p) = factor(&n) { r.push(("a factor of the modulus", p)) } if v.n().add(&n).bits() <= 256 { r.push(("the value plus the modulus", v.n().add(&n))) } r.into_iter().map(|(a, z)| (a, Val::N(z))).collect() }
        K::Ex => vec![("0", Val::N(Nat::zero())), ("1", Val::N(Nat::one())), ("all ones", Val::N(Nat::pow2(256).sub(&Nat::one())))],
        _ => vec![],
    }
}
/// Other values for a component of a statement.
pub fn comp_alts<P: ZkP>(comps: &Comps<P>, i: usize) -> Vec<(&'static str, Comp<P>)> {
    let r: Vec<(&'static str, Comp<P>)> = match &comps[i] {
        Comp::Pk(n) => keys().iter().filter(|k| k.n != *n).take(3).map(|k| ("another key", Comp::Pk(k.n.clone()))).collect(),
        Comp::Ct(j, v) => { let n = comps[*j].nat(); let m = n.mul(n); vec![("times 1 + N", mm(v, &n.add(&Nat::one()), &m)), ("times an N-th power", mm(v, &Nat::u(3).powmod(n, &m), &m)), ("negated", Z::n(v.clone()).neg().modulo(&m)), ("one", Nat::one()), ("1 + N", n.add(&Nat::one())), ("inverted", v.inv(&m).unwrap_or(Nat::one()))].into_iter().map(|(a, b)| (a, Comp::Ct(*j, b))).collect() }
        Comp::Pt(p) => vec![("plus the generator", Comp::Pt(*p + gen(&Z::i(1)))), ("negated", Comp::Pt(pneg(*p))), ("identity", Comp::Pt(gen(&Z::i(0)))), ("generator", Comp::Pt(gen(&Z::i(1)))), ("doubled", Comp::Pt(*p + *p))],
        Comp::Setup(n, t, s) => { let mut r = vec![("bases swapped", Comp::Setup(n.clone(), s.clone(), t.clone())), ("another base for values", Comp::Setup(n.clone(), t.clone(), mm(s, t, n))), ("another base for randomizers", Comp::Setup(n.clone(), mm(t, t, n), s.clone())), ("base for values negated", Comp::Setup(n.clone(), t.clone(), n.sub(s))), ("base for randomizers negated", Comp::Setup(n.clone(), n.sub(t), s.clone()))]; for j in 0..3 { let c = cast_setup::<P>(j); if c != comps[i] { r.push(("another setup", c)) } } r }
        Comp::Num(n) => [2usize, 3, 4, 5, 8, 9, 17, 1000].iter().filter(|m| *m != n).map(|m| ("another number", Comp::Num(*m))).collect(),
    };
    r.into_iter().filter(|(_, c)| *c != comps[i]).collect()
}
