// C09: hash inputs are unambiguous and domain separated; joint random bit strings.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/micro.rs"] mod micro;
#[path = "common/sp16.rs"] mod sp16;
use big::*; use util::*; use engine::*; use tree::*; use micro::*; use sp16::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use crypto_bigint::{Uint, U128};
use digest::{ExtendableOutput, Update, XofReader};
use crate::params::{chain_scheme_params, SchemeParams};
use crate::tools::hashing::{Chain, HashOutput, Hashable, Hasher};
use crate::tools::bitvec::BitVec;
use crate::uint::{PublicSigned, PublicUint};
use crate::curve::{Point, Scalar};

thread_local! { static LAST: RefCell<Vec<u8>> = RefCell::new(vec![]); }
/// A hash function that records its input; its output is a counter.
#[derive(Default, Clone)]
pub struct Rec(Vec<u8>);
impl Update for Rec { fn update(&mut self, b: &[u8]) { self.0.extend_from_slice(b) } }
pub struct RecReader(u64);
impl XofReader for RecReader { fn read(&mut self, b: &mut [u8]) { for x in b { *x = (self.0 % 251) as u8; self.0 += 1; } } }
impl ExtendableOutput for Rec { type Reader = RecReader; fn finalize_xof(self) -> RecReader { LAST.with(|l| *l.borrow_mut() = self.0); RecReader(0) } }
fn transcript(h: Hasher<Rec>) -> Vec<u8> { let _ = h.finalize_to_reader(); LAST.with(|l| l.borrow().clone()) }
fn new(dst: &[u8]) -> Hasher<Rec> { Hasher::<Rec>::new_with_dst(dst) }

/// Checks that different sequences give different inputs of the hash function.
struct Seen { m: HashMap<Vec<u8>, String> }
impl Seen {
    fn new() -> Self { Seen { m: HashMap::new() } }
    fn add(&mut self, c: &mut Ctl, key: &str, t: Vec<u8>, what: String) {
        c.ops(1); c.state(&(key, &what));
        if let Some(old) = self.m.get(&t) { if *old != what { c.fail(key, format!("{old} and {what} are hashed as the same bytes {t:02x?}")); } return; }
        self.m.insert(t, what);
    }
}
fn strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> { let mut all = vec![vec![]]; let mut cur = vec![vec![]]; for _ in 0..max { cur = cur.iter().flat_map(|s: &Vec<u8>| alpha.iter().map(move |a| { let mut t = s.clone(); t.push(*a); t })).collect(); all.extend(cur.clone()); } all }

fn raw(r: &mut Runner) {
    let max = r.by_tier(3, 4);
    r.explore("byte-strings", &format!("all sequences of up to three byte strings of up to {max} bytes over an alphabet of two (three for shorter ones), under four labels"), |c| {
        let mut seen = Seen::new();
        let ss = strings(&[0, 1], max); let s3 = strings(&[0, 1, 8], 2);
        for dst in [&b""[..], b"\0", b"A", b"A\0"] {
            seen.add(c, "byte strings", transcript(new(dst)), format!("{dst:?}: []"));
            for set in [&ss, &s3] { for a in set { 
                seen.add(c, "byte strings", transcript(new(dst).chain_bytes(a)), format!("{dst:?}: [{a:?}]"));
                for b in set {
                    seen.add(c, "byte strings", transcript(new(dst).chain_bytes(a).chain_bytes(b)), format!("{dst:?}: [{a:?}, {b:?}]"));
                    for d in set { seen.add(c, "byte strings", transcript(new(dst).chain_bytes(a).chain_bytes(b).chain_bytes(d)), format!("{dst:?}: [{a:?}, {b:?}, {d:?}]")); }
                }
            } }
        }
        c.trace();
    });
    r.explore("crafted-strings", "byte strings and labels with the contents that would make them collide with two shorter ones, if their lengths were not hashed (as a whole)", |c| {
        let wrap = *c.pick(&[0usize, 1 << 8, 1 << 16, 1 << 24]); let first = c.choose(4); let label = c.choose(2) == 1; c.label(|| format!("lengths modulo {wrap}, first string of {first} bytes, label: {label}"));
        let base = if label { 0 } else { transcript(new(b"L")).len() };
        let one = |s: &[u8]| if label { transcript(new(s)) } else { transcript(new(b"L").chain_bytes(s)) };
        let two = |a: &[u8], b: &[u8]| if label { transcript(new(a).chain_bytes(b)) } else { transcript(new(b"L").chain_bytes(a).chain_bytes(b)) };
        let a: Vec<u8> = (0..first as u8).collect();
        // what is hashed besides the contents
        let (h1, h2) = (one(&a).len() - base - first, two(&a, &[]).len() - base - first);
        if wrap > 0 && wrap < h2 - h1 { return }
        for more in if wrap == 0 { vec![0, 1, 2, 8] } else { vec![wrap - (h2 - h1)] } {
            let b = vec![7u8; more]; let t = two(&a, &b);
            for skip in 0..=h1 { if t.len() < base + skip { continue } let y = &t[base + skip..]; c.ops(1); c.state(&(wrap, first, label, more, skip)); c.check(one(y) != t, "crafted byte strings", || format!("a string of {} bytes is hashed like one of {first} and one of {more}", y.len())); }
        }
        c.trace();
    });
    r.explore("long-strings", "byte strings around every power of two up to 2^17 bytes, split in two at every boundary, and strings that contain the encoding of other sequences", |c| {
        let mut seen = Seen::new();
        let mut lens: Vec<usize> = vec![0, 1, 2, 3]; for k in 2..=17 { for d in [-1i64, 0, 1] { lens.push(((1i64 << k) + d) as usize); } }
        for n in &lens { let a = vec![0u8; *n]; seen.add(c, "long byte strings", transcript(new(b"L").chain_bytes(&a)), format!("[0^{n}]")); }
        let short: Vec<usize> = lens.iter().copied().filter(|n| *n <= 520).collect();
        for n in &short { for m in &short { let (a, b) = (vec![0u8; *n], vec![0u8; *m]); seen.add(c, "long byte strings", transcript(new(b"L").chain_bytes(&a).chain_bytes(&b)), format!("[0^{n}, 0^{m}]")); } }
        let mut seen = Seen::new();
        // strings made from what another sequence feeds the hash with
        let base = transcript(new(b"L"));
        let mut pool: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1, 2]];
        for _ in 0..2 {
            let mut more = vec![];
            for a in &pool { for b in &pool { let t = transcript(new(b"L").chain_bytes(a).chain_bytes(b)); more.push(t[base.len()..].to_vec()); more.push(t.clone()); } }
            pool.extend(more); pool.sort(); pool.dedup(); pool.truncate(40);
        }
        for a in &pool { seen.add(c, "nested byte strings", transcript(new(b"L").chain_bytes(a)), format!("[{a:?}]")); for b in &pool { seen.add(c, "nested byte strings", transcript(new(b"L").chain_bytes(a).chain_bytes(b)), format!("[{a:?}, {b:?}]")); } }
        for a in &pool { seen.add(c, "nested labels", transcript(new(a)), format!("{a:?}: []")); for b in &pool { seen.add(c, "nested labels", transcript(new(a).chain_bytes(b)), format!("{a:?}: [{b:?}]")); } }
        c.trace();
    });
}
fn hash_output(b: &[u8]) -> HashOutput { from_tree(&ciborium::Value::Bytes(b.to_vec())).expect("hash output") }
fn bitvec(bits: &[bool]) -> BitVec { let mut b = vec![0u8; bits.len().div_ceil(8)]; for (i, x) in bits.iter().enumerate() { if *x { b[i / 8] |= 128 >> (i % 8); } } let mut rng = ScriptRng::new(b); BitVec::random(&mut rng, bits.len()) }
fn all_bits(n: usize) -> Vec<Vec<bool>> { (0..1usize << n).map(|x| (0..n).map(|i| x >> i & 1 == 1).collect()).collect() }

/// Sequences of up to three values of one type.
fn family<T: Hashable>(c: &mut Ctl, name: &str, vs: &[(String, T)]) {
    let mut seen = Seen::new(); let key = format!("sequences of {name}");
    seen.add(c, &key, transcript(new(b"F")), "[]".into());
    for (a, x) in vs {
        seen.add(c, &key, transcript(new(b"F").chain(x)), format!("[{a}]"));
        for (b, y) in vs {
            seen.add(c, &key, transcript(new(b"F").chain(x).chain(y)), format!("[{a}, {b}]"));
            if vs.len() <= 40 { for (d, z) in vs { seen.add(c, &key, transcript(new(b"F").chain(x).chain(y).chain(z)), format!("[{a}, {b}, {d}]")); } }
        }
    }
}
fn pairs<T: Hashable, U: Hashable>(c: &mut Ctl, name: &str, ts: &[(String, T)], us: &[(String, U)]) {
    let mut seen = Seen::new(); let key = format!("pairs of {name}");
    for (a, x) in ts { for (b, y) in us { seen.add(c, &key, transcript(new(b"F").chain(x).chain(y)), format!("({a}, {b})")); } }
    let mut seen = Seen::new();
    for (a, x) in ts { for (b, y) in us { seen.add(c, &key, transcript(new(b"F").chain(y).chain(x)), format!("({b}, {a})")); } }
}
fn lab<T: core::fmt::Debug>(v: Vec<T>) -> Vec<(String, T)> { v.into_iter().map(|x| (format!("{x:?}"), x)).collect() }
fn typed(r: &mut Runner) {
    let strs = || -> Vec<String> { strings(b"ab", 3).into_iter().map(|b| String::from_utf8(b).unwrap()).collect() };
    let bytes_ = || -> Vec<Vec<u8>> { strings(&[0, 1], 3) };
    let bits = |n: usize| -> Vec<BitVec> { (0..=n).flat_map(all_bits).map(|b| bitvec(&b)).collect() };
    let scalars = || -> Vec<(String, Scalar<SP16>)> { [0u64, 1, 2, 255, 256, Q - 1].iter().map(|x| (format!("scalar {x}"), Scalar::<SP16>::try_from_be_bytes(&Nat::u(*x).to_be(Scalar::<SP16>::ZERO.to_be_bytes().len())).expect("scalar"))).collect() };
    let points = || -> Vec<(String, Point<SP16>)> { scalars().into_iter().filter(|(n, _)| n != "scalar 0").map(|(n, s)| (format!("{n} * G"), s.mul_by_generator())).collect() };
    let uints = || -> Vec<(String, PublicUint<U128>)> { [0u64, 1, 255, 256, u64::MAX].iter().map(|x| (format!("uint {x}"), PublicUint::from(U128::from_u64(*x)))).collect() };
    let signed = || -> Vec<(String, PublicSigned<U128>)> { [0i64, 1, -1, 255, 256, -256].iter().map(|x| (format!("signed {x}"), ps(&Z::i(*x), 20))).collect() };
    let houts = || -> Vec<(String, HashOutput)> { strings(&[0, 7], 3).into_iter().map(|b| (format!("hash {b:?}"), hash_output(&b))).collect() };
    let maps = || -> Vec<BTreeMap<String, bool>> { let s = ["", "a", "b", "ab", "\u{1}", "\u{1}\u{1}"]; let mut v = vec![BTreeMap::new()]; for a in s { for x in [false, true] { v.push(BTreeMap::from([(a.to_string(), x)])); for b in s { if a < b { for y in [false, true] { v.push(BTreeMap::from([(a.to_string(), x), (b.to_string(), y)])); } } } } } v };
    let sets = || -> Vec<BTreeSet<String>> { let s = strs(); let mut v = vec![BTreeSet::new()]; for a in &s { v.push(BTreeSet::from([a.clone()])); for b in &s { if a < b { v.push(BTreeSet::from([a.clone(), b.clone()])); } } } v };
    r.explore("typed", "all sequences of up to three values of each hashed type (scalars, points, integers, bit strings, hash outputs, strings, sequences, maps, sets, options), and pairs of them", |c| {
        let k = c.choose(24); c.label(|| format!("family {k}"));
        match k {
            0 => family(c, "strings", &lab(strs())),
            1 => family(c, "byte vectors", &lab(bytes_())),
            2 => family(c, "bit strings", &lab(bits(4))),
            3 => family(c, "scalars", &scalars()),
            4 => family(c, "points", &points()),
            5 => family(c, "integers", &uints()),
            6 => family(c, "signed integers", &signed()),
            7 => family(c, "hash outputs", &houts()),
            8 => family(c, "maps", &lab(maps())),
            9 => family(c, "sets of strings", &lab(sets())),
            10 => family(c, "options", &lab(vec![None, Some("".to_string()), Some("a".into()), Some("\u{1}".into()), Some("\0".into())])),
            11 => family(c, "sequences of strings", &lab({ let s = strs(); let mut v: Vec<Vec<String>> = vec![vec![]]; for a in s.iter().take(7) { v.push(vec![a.clone()]); for b in s.iter().take(7) { v.push(vec![a.clone(), b.clone()]); } } v })),
            12 => family(c, "sequences of bit strings", &lab({ let s = bits(2); let mut v: Vec<Vec<BitVec>> = vec![vec![]]; for a in &s { v.push(vec![a.clone()]); for b in &s { v.push(vec![a.clone(), b.clone()]); } } v })),
            13 => family(c, "sequences of points", &{ let s = points(); let mut v: Vec<(String, Vec<Point<SP16>>)> = vec![("[]".into(), vec![])]; for (n, a) in &s { v.push((format!("[{n}]"), vec![*a])); for (m, b) in &s { v.push((format!("[{n}, {m}]"), vec![*a, *b])); } } v }),
            14 => pairs(c, "string and bit string", &lab(strs()), &lab(bits(4))),
            15 => pairs(c, "string and byte vector", &lab(strs()), &lab(bytes_())),
            16 => pairs(c, "string and hash output", &lab(strs()), &houts()),
            17 => pairs(c, "hash output and string", &houts(), &lab(strs())),
            18 => pairs(c, "string and scalar", &lab(strs()), &scalars()),
            19 => pairs(c, "hash output and point", &houts(), &points()),
            20 => pairs(c, "byte vector and set of strings", &lab(bytes_()), &lab(sets())),
            21 => pairs(c, "bit string and bit string", &lab(bits(5)), &lab(bits(5))),
            22 => pairs(c, "sequence of strings and string", &lab(vec![vec!["".to_string()], vec!["a".into()], vec!["a".into(), "b".into()], vec!["ab".into()], vec![]]), &lab(strs())),
            _ => pairs(c, "map and string", &lab(maps()), &lab(strs())),
        }
        c.trace();
    });
    // values of any type as one string, and labels
    r.explore("labels", "the same typed items under different labels, and labels against items", |c| {
        let mut seen = Seen::new();
        for dst in strings(b"ab", 4) { for (n, x) in houts().iter().take(6) { seen.add(c, "labels", transcript(new(&dst).chain(x)), format!("{dst:?}: {n}")); } for s in strs().iter().take(6) { seen.add(c, "labels", transcript(new(&dst).chain(s).chain(s)), format!("{dst:?}: {s} {s}")); } }
        c.trace();
    });
}

const BASE: [u32; 5] = [100, 101, 102, 103, 104];
/// Parameter set number K: one parameter or two swapped parameters differ from the base.
const fn tbl(k: usize) -> [u32; 5] {
    let mut t = BASE;
    if k >= 1 && k <= 5 { t[k - 1] += 50; }
    if k >= 6 && k <= 10 { t[k - 6] += 256; }
    if k >= 11 && k < 15 { let i = k - 11; let x = t[i]; t[i] = t[i + 1]; t[i + 1] = x; }
    if k >= 15 && k <= 19 { t[k - 15] <<= 16; }
    t
}
macro_rules! params { ($name:ident, $curve:ty) => {
    #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
    pub struct $name<const K: usize, const B: u32>;
    impl<const K: usize, const B: u32> SchemeParams for $name<K, B> {
        type Curve = $curve; type Digest = Rec;
        const SECURITY_BITS: usize = tbl(K)[0] as usize; const SECURITY_PARAMETER: usize = tbl(K)[1] as usize;
        const L_BOUND: u32 = tbl(K)[2]; const LP_BOUND: u32 = tbl(K)[3]; const EPS_BOUND: u32 = tbl(K)[4];
        type Paillier = MP<B>; type ExtraWideUint = Uint<5>;
    }
} }
params!(V16, tiny_curve::TinyCurve16); params!(V32, tiny_curve::TinyCurve32); params!(V64, tiny_curve::TinyCurve64); params!(VK, ::k256::Secp256k1);
fn scheme<P: SchemeParams>(out: &mut Vec<(String, Vec<u8>)>, what: String) { out.push((what, transcript(chain_scheme_params::<P, _>(new(b"P"))))); }
macro_rules! all_params { ($v:expr, $t:ident, $($k:literal)*) => { $( scheme::<$t<$k, 128>>($v, format!("{} {:?} 128", stringify!($t), tbl($k))); )* } }
macro_rules! all_primes { ($v:expr, $t:ident, $($b:literal)*) => { $( scheme::<$t<0, $b>>($v, format!("{} {:?} {}", stringify!($t), tbl(0), $b)); )* } }
fn params(r: &mut Runner) {
    r.explore("parameters", "scheme parameter sets on four curves that differ from a base set in one parameter (by a little, by 256, shifted) or in two swapped ones", |c| {
        let mut v = vec![];
        all_params!(&mut v, V16, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19); all_params!(&mut v, V32, 0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19);
        all_params!(&mut v, V64, 0 1 2 3 4 5 11 12 13 14); all_params!(&mut v, VK, 0 1 2 3 4 5 11 12 13 14);
        all_primes!(&mut v, V16, 1 2 100 101 129 256 384 1024 1536 65536); all_primes!(&mut v, V32, 1 2 100 101 129 256 384 1024 1536 65536); all_primes!(&mut v, VK, 1 2 100 256 1024);
        let mut seen = Seen::new();
        for (w, t) in v { seen.add(c, "scheme parameters", t, w); }
        c.trace();
    });
}
fn output(r: &mut Runner) {
    let ns: Vec<usize> = (0..=600).collect();
    r.explore("output", "finalization for every number of security bits up to 600: the output is the beginning of the hash output, twice as long as the security level", |c| {
        let n = *c.pick(&ns); c.label(|| format!("{n} bits")); c.state(&(1u8, n)); c.ops(1);
        let v = to_tree(&new(b"O").finalize(n)); let b = bytes(&v).expect("bytes").clone();
        c.check(b.len() == (2 * n).div_ceil(8), "length of a hash output", || format!("{n} security bits: {} bytes", b.len()));
        c.check(b.iter().enumerate().all(|(i, x)| *x == (i % 251) as u8), "content of a hash output", || format!("{n} bits: {b:?}"));
        c.trace();
    });
}
fn bitvecs(r: &mut Runner) {
    let th = r.thorough();
    let n = r.by_tier(7, 9);
    r.explore("xor", &format!("all pairs of bit strings of each length up to {n}"), |c| {
        let l = c.choose(n + 1); let all = all_bits(l); let a = c.pick(&all); c.label(|| format!("{a:?}"));
        for b in &all { let mut x = bitvec(a); x ^= &bitvec(b); c.ops(1); c.state(&(l, a, b)); let want: Vec<bool> = a.iter().zip(b).map(|(x, y)| x ^ y).collect(); c.check(x.bits() == &want[..], "exclusive or", || format!("{a:?} ^ {b:?} = {:?}", x.bits())); c.check(x == bitvec(&want), "equality of bit strings", || format!("{want:?}")); }
        c.trace();
    });
    r.explore("xor-order", "all orders of combining four bit strings of every length up to 40", |c| {
        let l = c.choose(41); let v: Vec<Vec<bool>> = (0..4).map(|k| (0..l).map(|i| (i * (k + 3) + i / 3 + k) % (k + 2) == 0).collect()).collect();
        let mut idx: Vec<usize> = (0..4).collect(); let mut want: Option<Vec<bool>> = None; let mut order = vec![];
        while !idx.is_empty() { let k = c.choose(idx.len()); order.push(idx.remove(k)); }
        c.label(|| format!("{l} bits in order {order:?}")); c.state(&(l, &order)); c.ops(4);
        let mut x = bitvec(&vec![false; l]); for k in &order { x ^= &bitvec(&v[*k]); }
        let w = want.get_or_insert_with(|| (0..l).map(|i| v.iter().fold(false, |a, b| a ^ b[i])).collect());
        c.check(x.bits() == &w[..], "exclusive or of several bit strings", || format!("{order:?}"));
        c.trace();
    });
    r.explore("xor-length", "bit strings of different lengths are never combined silently", |c| {
        let a = c.choose(20); let b = c.choose(20); if a == b { return; } c.label(|| format!("{a} and {b} bits")); c.state(&(2u8, a, b)); c.ops(1);
        let r = quiet(|| { let mut x = bitvec(&vec![true; a]); x ^= &bitvec(&vec![true; b]); x });
        c.check(r.is_err(), "bit strings of different lengths were combined", || format!("{a} and {b} bits: {:?}", r.unwrap().bits().len()));
        c.trace();
    });
    r.explore("bits", "bit strings of every length up to 12 (thorough: 16) from every value of a random source and of a hash: each bit string equally often; storage in both formats", |c| {
        let l = c.choose(if th { 18 } else { 13 }); c.label(|| format!("{l} bits"));
        let nb = l.div_ceil(8); let mut seen: [HashMap<Vec<bool>, u64>; 2] = [HashMap::new(), HashMap::new()];
        for x in 0..(1u64 << (8 * nb)) {
            let b = x.to_le_bytes()[..nb].to_vec(); c.ops(2);
            let mut rng = ScriptRng::new(b.clone()); let v = BitVec::random(&mut rng, l); c.check(rng.over == 0, "a random bit string takes more bytes than needed", || format!("{l} bits"));
            let w = BitVec::from_xof_reader(&mut RecSlice(b, 0), l);
            for (i, v) in [&v, &w].iter().enumerate() { c.check(v.bits().len() == l, "length of a random bit string", || format!("{l} bits: {}", v.bits().len())); *seen[i].entry(v.bits().to_vec()).or_insert(0) += 1; }
            if nb < 2 || x % if nb > 2 { 251 } else { 7 } == 0 { for v in [&v, &w] {
                let d: BitVec = from_cbor(&to_cbor(v)).expect("bit string"); c.check(d == *v && d.bits() == v.bits(), "storage of a bit string", || format!("{:?} became {:?}", v.bits(), d.bits()));
                let d: BitVec = serde_json::from_str(&serde_json::to_string(v).unwrap()).expect("bit string"); c.check(d == *v && d.bits() == v.bits(), "storage of a bit string (text)", || format!("{:?} became {:?}", v.bits(), d.bits()));
            } }
        }
        for (i, m) in seen.iter().enumerate() { let v: Vec<u64> = m.values().copied().collect(); for k in m.keys() { c.state(&(3u8, i, l, k)); } c.check(m.len() == 1 << l && v.iter().all(|x| *x == v[0]), "coverage of random bit strings", || format!("{l} bits, source {i}: {} values", m.len())); }
        c.trace();
    });
    r.explore("long-bits", "storage of bit strings of every length up to 600", |c| {
        let l = c.choose(601); c.label(|| format!("{l} bits"));
        for k in 2..6usize { let b: Vec<bool> = (0..l).map(|i| (i * i + i / k) % k == 0).collect(); let v = bitvec(&b); c.ops(2); c.state(&(4u8, l, k));
            let d: BitVec = from_cbor(&to_cbor(&v)).expect("bit string"); c.check(v.bits() == &b[..] && d.bits() == &b[..], "storage of a long bit string", || format!("{l} bits"));
            let d: BitVec = serde_json::from_str(&serde_json::to_string(&v).unwrap()).expect("bit string"); c.check(d.bits() == &b[..], "storage of a long bit string (text)", || format!("{l} bits")); }
        c.trace();
    });
}
struct RecSlice(Vec<u8>, usize);
impl XofReader for RecSlice { fn read(&mut self, b: &mut [u8]) { for x in b { *x = self.0[self.1]; self.1 += 1; } } }

pub fn main() -> i32 {
    let mut r = Runner::from_env("C09");
    r.assume("unambiguity is decided on the bytes fed to the hash function, for sequences of items of the same types; collisions of the hash function itself are out of scope");
    raw(&mut r); typed(&mut r); params(&mut r); output(&mut r); bitvecs(&mut r);
    r.finish()
}
