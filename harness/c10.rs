// C10: stored and transmitted values survive a round trip, and bad encodings are refused.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/sp16.rs"] mod sp16;
use big::*; use util::*; use engine::*; use tree::*; use sp16::*;
use std::collections::HashMap;
use crypto_bigint::{Bounded, Integer, Uint, U64, U128, U192};
use serde::{Serialize, de::DeserializeOwned};
use zeroize::Zeroize;
use crate::curve::{Point, Scalar, RecoverableSignature};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::tools::{Secret, bitvec::BitVec, hashing::{HashOutput, Hasher, Chain}};
use crate::uint::{BoxedEncoding, PublicSigned, PublicUint};

/// Deserializes by hand-made tree; a panic is an error of its own kind.
fn de<T: DeserializeOwned>(c: &mut Ctl, key: &str, v: &Value) -> Option<Result<T, String>> {
    let k = format!("{key}: deserialization panics");
    c.guard(&k, || format!("{v:?}"), || from_tree::<T>(v))
}
fn to_json<T: Serialize>(t: &T) -> String { serde_json::to_string(t).expect("serializable") }
fn b(x: &[u8]) -> Value { Value::Bytes(x.to_vec()) }

/// A value survives storage in the binary and the textual format, and in the self-describing tree.
fn rt<T: Serialize + DeserializeOwned>(c: &mut Ctl, key: &str, what: &str, t: &T, same: impl Fn(&T) -> bool) {
    c.ops(3);
    let k = format!("{key}: serialization panics");
    let Some(tree) = c.guard(&k, || what.into(), || to_tree(t)) else { return };
    for (f, r) in [("binary", quiet(|| from_cbor::<T>(&to_cbor(t)))), ("tree", quiet(|| from_tree::<T>(&tree))), ("text", quiet(|| serde_json::from_str::<T>(&to_json(t)).map_err(|e| e.to_string()))), ("pretty text", quiet(|| serde_json::from_slice::<T>(&serde_json::to_vec_pretty(t).unwrap()).map_err(|e| e.to_string())))] {
        match r {
            Ok(Ok(x)) => { c.check(same(&x) && to_tree(&x) == tree, &format!("{key}: the {f} round trip changes the value"), || what.into()); }
            Ok(Err(e)) => c.fail(&format!("{key}: the {f} form is refused"), format!("{what}: {e}")),
            Err(p) => c.fail(&format!("{key}: the {f} round trip panics"), format!("{what}: {p}")),
        }
    }
}
/// The binary and the text format, for one encoded byte string.
fn both<T: DeserializeOwned>(bytes: &[u8]) -> [(&'static str, Result<Result<T, String>, String>); 2] {
    let v = b(bytes); let mut bin = vec![]; ciborium::into_writer(&v, &mut bin).unwrap();
    let txt = format!("\"0x{}\"", bytes.iter().map(|x| format!("{x:02x}")).collect::<String>());
    [("binary", quiet(|| from_cbor::<T>(&bin))), ("text", quiet(|| serde_json::from_str::<T>(&txt).map_err(|e| e.to_string())))]
}

fn scalars(r: &mut Runner) {
    let n = Scalar::<SP16>::repr_len();
    r.explore("scalars-16", "every value of 0..2^16 as a scalar of a 16-bit curve: accepted exactly below the order; all round trips; wrapped in a secret", |c| {
        let hi = c.choose(256); c.label(|| format!("scalars {:#x}..", hi << 8));
        for lo in 0..256u64 {
            let x = (hi as u64) << 8 | lo; let bytes = Nat::u(x).to_be(n); c.state(&x); c.ops(4);
            for (f, res) in both::<Scalar<SP16>>(&bytes) { match res {
                Ok(Ok(s)) => { c.check(x < Q && s.to_be_bytes().as_slice() == &bytes[..], &format!("scalar from {f}"), || format!("{x}: {:02x?}", s.to_be_bytes())); }
                Ok(Err(e)) => { c.check(x >= Q, &format!("scalar from {f} refused"), || format!("{x}: {e}")); }
                Err(p) => c.fail(&format!("scalar from {f} panics"), format!("{x}: {p}")),
            } }
            for (f, res) in both::<Secret<Scalar<SP16>>>(&bytes) { match res {
                Ok(Ok(s)) => { c.check(x < Q && (*s.expose_secret()).to_be_bytes().as_slice() == &bytes[..], &format!("secret scalar from {f}"), || format!("{x}")); if lo % 16 == 3 { rt(c, "secret scalar", &format!("{x}"), &s, |y| y.expose_secret() == s.expose_secret()); } }
                Ok(Err(e)) => { c.check(x >= Q, &format!("secret scalar from {f} refused"), || format!("{x}: {e}")); }
                Err(p) => c.fail(&format!("secret scalar from {f} panics"), format!("{x}: {p}")),
            } }
            let t: Result<Scalar<SP16>, _> = Scalar::try_from(&bytes[..]); c.check(t.is_ok() == (x < Q), "scalar from bytes", || format!("{x}"));
            if let Ok(s) = t { rt(c, "scalar", &format!("{x}"), &s, |y| *y == s); }
        }
        c.trace();
    });
    fn gen<P: SchemeParams>(r: &mut Runner, name: &str, order: Nat) {
        let n = Scalar::<P>::repr_len();
        r.explore(&format!("scalars-{name}"), "byte strings of every length up to the size of a scalar plus two, filled with boundary values: around the order, powers of two, single high bytes", |c| {
            let len = c.choose(n + 3); c.label(|| format!("{len} bytes"));
            let mut vals = vec![];
            for d in 0..4u64 { vals.push(order.add(&Nat::u(d))); vals.push(order.sub(&Nat::u(d + 1))); vals.push(Nat::u(d)); vals.push(order.mul(&Nat::u(d + 2))); }
            for k in 0..(8 * len as u32) { vals.push(Nat::pow2(k)); vals.push(Nat::pow2(k + 1).sub(&Nat::one())); vals.push(order.add(&Nat::pow2(k))); vals.push(order.shr(1).add(&Nat::pow2(k))); }
            vals.retain(|v| v.bits() as usize <= 8 * len);
            for v in vals {
                let bytes = v.to_be(len); let legal = len == n && v < order; c.state(&(len, &v)); c.ops(2);
                for (f, res) in both::<Scalar<P>>(&bytes) { match res {
                    Ok(Ok(s)) => { c.check(legal && Nat::from_be(&s.to_be_bytes()) == v, &format!("scalar from {f}"), || format!("{v} in {len} bytes was accepted as {:02x?}", s.to_be_bytes().as_slice())); }
                    Ok(Err(e)) => { c.check(!legal, &format!("scalar from {f} refused"), || format!("{v}: {e}")); }
                    Err(p) => c.fail(&format!("scalar from {f} panics"), format!("{v} in {len} bytes: {p}")),
                } }
            }
            c.trace();
        });
    }
    use elliptic_curve::{Curve, bigint::Encoding};
    gen::<SP16>(r, "16-long", Nat::u(Q));
    gen::<TestParams>(r, "32", Nat::from_be(<<TestParams as SchemeParams>::Curve as Curve>::ORDER.to_be_bytes().as_ref()));
    gen::<ProductionParams112>(r, "256", Nat::from_be(<<ProductionParams112 as SchemeParams>::Curve as Curve>::ORDER.to_be_bytes().as_ref()));
}

fn points(r: &mut Runner) {
    let th = r.thorough();
    let tab = table();
    let on: HashMap<(u64, u64), u64> = tab.iter().enumerate().filter_map(|(k, p)| p.map(|p| (p, k as u64))).collect();
    let mut ys: HashMap<u64, Vec<u64>> = HashMap::new(); for ((x, y), _) in &on { ys.entry(*x).or_default().push(*y); }
    let coord = |p: &Point<SP16>| -> Vec<u8> { to_tree(p).as_bytes().expect("bytes").clone() };
    r.explore("points-16", "every x in 0..2^16 with both compressed tags, for a 16-bit curve: accepted exactly if on the curve", |c| {
        let hi = c.choose(256); c.label(|| format!("x {:#x}..", hi << 8));
        for lo in 0..256u64 { for tag in [2u8, 3] {
            let x = (hi as u64) << 8 | lo; let mut e = vec![tag]; e.extend(Nat::u(x).to_be(24)); c.state(&(x, tag)); c.ops(2);
            let want = ys.get(&x).and_then(|v| v.iter().find(|y| (**y & 1) as u8 == tag - 2)).copied();
            for (f, res) in both::<Point<SP16>>(&e) { match res {
                Ok(Ok(p)) => { c.check(want.is_some(), &format!("a point off the curve was accepted ({f})"), || format!("x = {x}")); c.check(coord(&p) == e, &format!("point from {f}"), || format!("{e:02x?} -> {:02x?}", coord(&p))); }
                Ok(Err(er)) => { c.check(want.is_none(), &format!("a point of the curve was refused ({f})"), || format!("x = {x}: {er}")); }
                Err(p) => c.fail(&format!("point from {f} panics"), format!("{e:02x?}: {p}")),
            } }
        } }
        c.trace();
    });
    r.explore("points-16-values", "every multiple of the generator of a 16-bit curve (quick: every seventh), and the point at infinity: encoding and round trips", |c| {
        let blk = c.choose(256); c.label(|| format!("multiples {blk}*256.."));
        let mut p = Scalar::<SP16>::from(blk as u64 * 256).mul_by_generator();
        for k in 0..256u64 { let m = blk as u64 * 256 + k; if m >= Q { break; }
            if m < 8 || th || m % 7 == 0 {
                c.state(&m);
                if m > 0 { c.check(coord(&p) == enc(tab[m as usize]), "point encoding", || format!("{m}: {:02x?}", coord(&p))); }
                rt(c, "point", &format!("{m} times the generator"), &p, |q| *q == p);
            }
            p = p + Point::generator();
        }
        c.trace();
    });
    r.explore("points-16-bad", "byte strings of every length up to 52 and every tag, over an alphabet of coordinates: what is accepted is a point of the curve with these coordinates, or the point at infinity encoded by a single zero", |c| {
        let tag = c.choose(256) as u8; let len = c.choose(53); c.label(|| format!("tag {tag}, {len} bytes")); c.state(&(tag, len));
        let ok = [1u64, 2, 3].map(|k| tab[k as usize].unwrap());
        let mut cs: Vec<Vec<u8>> = vec![vec![], Nat::u(F).to_be(24), Nat::u(F + 1).to_be(24), vec![0xff; 24], vec![0; 24]];
        for (x, y) in ok { for xx in [x, x + F, x + (1 << 16)] { for yy in [y, F - y, y + F, y ^ 1, 0] { let mut v = Nat::u(xx).to_be(24); v.extend(Nat::u(yy).to_be(24)); cs.push(v); } } }
        for mut v in cs { v.insert(0, tag); v.resize(len, 0); c.ops(1);
            for (f, res) in both::<Point<SP16>>(&v) { match res {
                Ok(Ok(p)) => {
                    if len == 1 && v == [0] { c.check(p == Point::identity(), "the point at infinity", || format!("{v:02x?}")); continue; }
                    let k = coord(&p);
                    let Some(k) = (k.len() == 25).then(|| Nat::from_be(&k[1..])).filter(|x| x.bits() <= 16).map(|x| x.to_u64()) else { c.fail("a byte string was accepted as the point at infinity", format!("{v:02x?} ({f})")); continue };
                    let x = if len >= 25 { Nat::from_be(&v[1..25]) } else { Nat::from_be(&v[1..]) };
                    let fine = x == Nat::u(k) && ys.contains_key(&k) && match len { 25 => tag == 2 || tag == 3 || tag == 5, 49 => tag == 4 && { let y = Nat::from_be(&v[25..49]); y.bits() <= 16 && on.contains_key(&(k, y.to_u64())) && p == Scalar::<SP16>::from(on[&(k, y.to_u64())]).mul_by_generator() }, _ => false };
                    c.check(fine, "a bad encoding of a point was accepted", || format!("{v:02x?} ({f})"));
                }
                Ok(Err(e)) => { c.check(!(len == 25 && (tag == 2 || tag == 3) && Nat::from_be(&v[1..]).bits() <= 16 && ys.contains_key(&Nat::from_be(&v[1..]).to_u64())), "a point of the curve was refused", || format!("{v:02x?}: {e}")); }
                Err(p) => c.fail(&format!("point from {f} panics"), format!("{v:02x?}: {p}")),
            } }
        }
        c.trace();
    });
    r.explore("points-256", "boundary multiples of the generator of secp256k1, and flips of every bit of their encodings: accepted ones are on the curve", |c| {
        let ks = [1u64, 2, 3, 7, 0xffff, 1 << 32, u64::MAX]; let k = *c.pick(&ks); let neg = c.choose(2) == 1; c.label(|| format!("{k} {neg}")); c.state(&(k, neg));
        type P = ProductionParams112;
        let s = Scalar::<P>::from(k); let p = (if neg { -s } else { s }).mul_by_generator();
        rt(c, "point", &format!("{k}"), &p, |q| *q == p);
        let e = to_tree(&p).as_bytes().unwrap().clone(); c.check(e.len() == 33, "length of a point", || format!("{}", e.len()));
        let prime = Nat::pow2(256).sub(&Nat::pow2(32)).sub(&Nat::u(977));
        for i in 0..e.len() * 8 { let mut v = e.clone(); v[i / 8] ^= 1 << (i % 8); c.ops(1);
            let x = Nat::from_be(&v[1..]); let rhs = x.mul(&x).mul(&x).add(&Nat::u(7)).rem(&prime);
            let legal = (v[0] == 2 || v[0] == 3) && x < prime && rhs.powmod(&prime.shr(1), &prime) == Nat::one();
            match quiet(|| from_tree::<Point<P>>(&b(&v))) { Ok(Ok(q)) => { c.check(legal && to_tree(&q).as_bytes().unwrap() == &v, "a bad encoding of a point was accepted", || format!("{v:02x?}")); } Ok(Err(_)) => { c.check(!legal, "a point of the curve was refused", || format!("{v:02x?}")); } Err(p) => c.fail("point panics", p) }
        }
        for l in 0..e.len() { c.check(from_tree::<Point<P>>(&b(&e[..l])).is_err() , "a truncated point was accepted", || format!("{l} bytes")); }
        c.trace();
    });
}

fn uints<T: BoxedEncoding + Nt + Zeroize + PartialEq + Send + Sync>(r: &mut Runner, name: &str) {
    let n = (T::width() / 8) as usize;
    r.explore(&format!("uints-{name}"), "byte strings of every length up to the size plus nine with boundary fillings: accepted exactly at the right length; round trips", |c| {
        let len = c.choose(n + 10); c.label(|| format!("{len} bytes"));
        let mut fills = vec![vec![0u8; len], vec![0xff; len], (0..len).map(|i| (i % 251) as u8 + 1).collect::<Vec<_>>()];
        for i in 0..len { let mut v = vec![0; len]; v[i] = 0x80; fills.push(v.clone()); v[i] = 1; fills.push(v); }
        for v in fills { c.state(&v); c.ops(4); let want = Nat::from_be(&v);
            for (f, res) in both::<PublicUint<T>>(&v) { match res {
                Ok(Ok(x)) => { c.check(len == n && x.nat() == want, &format!("integer from {f}"), || format!("{v:02x?}: {}", x.nat())); if len == n { let y = x.clone(); rt(c, "integer", &format!("{want}"), &x, |z| **z == *y); } }
                Ok(Err(e)) => { c.check(len != n, &format!("integer from {f} refused"), || format!("{v:02x?}: {e}")); }
                Err(p) => c.fail(&format!("integer from {f} panics"), format!("{v:02x?}: {p}")),
            } }
            for (f, res) in both::<Secret<T>>(&v) { match res {
                Ok(Ok(x)) => { c.check(len == n && x.expose_secret().nat() == want, &format!("secret integer from {f}"), || format!("{v:02x?}: {}", x.expose_secret().nat())); if len == n { rt(c, "secret integer", &format!("{want}"), &x, |z| z.expose_secret() == x.expose_secret()); } }
                Ok(Err(e)) => { c.check(len != n, &format!("secret integer from {f} refused"), || format!("{v:02x?}: {e}")); }
                Err(p) => c.fail(&format!("secret integer from {f} panics"), format!("{v:02x?}: {p}")),
            } }
        }
        c.trace();
    });
}

fn signed<T: BoxedEncoding + Nt + Integer + Bounded + Send + Sync>(r: &mut Runner, name: &str) {
    let w = T::width(); let n = (w / 8) as usize;
    r.explore(&format!("signed-{name}"), "all bounds (0..=width+2 and huge ones), every length of the magnitude up to the width plus two, both signs, boundary magnitudes: accepted exactly if the magnitude fits the integer and the bound", |c| {
        let mut bounds: Vec<u32> = (0..=w + 2).collect(); bounds.extend([2 * w, 1 << 31, u32::MAX - 1, u32::MAX]);
        let bound = *c.pick(&bounds); c.label(|| format!("bound {bound}"));
        // the serialized form of some number serves as the template
        let tpl = to_tree(&ps::<T>(&Z::i(-5), 3)); let ls = leaves(&tpl);
        let find = |f: &dyn Fn(&Value) -> bool| ls.iter().find(|l| f(get(&tpl, l))).expect("field").clone();
        let (lb, ln, la) = (find(&|v| matches!(v, Value::Integer(_))), find(&|v| matches!(v, Value::Bool(_))), find(&|v| bytes(v).is_some()));
        for len in 0..=n + 2 {
            let mut mags = vec![Nat::zero(), Nat::one()];
            for k in [bound, w, w - 1, 8 * len as u32, 1, 7, 8, 9] { if k <= 8 * len as u32 { let p = Nat::pow2(k); mags.push(p.sub(&Nat::one())); if k > 0 { mags.push(p.shr(1)); } mags.push(p); } }
            mags.retain(|m| m.bits() as usize <= 8 * len); mags.sort(); mags.dedup();
            for m in mags { for neg in [false, true] {
                c.state(&(bound, len, &m, neg)); c.ops(1);
                let v = set(&set(&set(&tpl, &lb, Value::Integer(bound.into())), &ln, Value::Bool(neg)), &la, b(&m.to_be(len)));
                let legal = len <= n && bound < w && m.bits() <= bound;
                let full = len == bound.div_ceil(8) as usize;
                let ctx = || format!("magnitude {m} in {len} bytes, bound {bound}, negative: {neg}");
                match de::<PublicSigned<T>>(c, "signed", &v) {
                    Some(Ok(x)) => { let z = zp(&x); c.check(legal, "a bad encoding of a signed integer was accepted", || format!("{}: {z}", ctx())); c.check(z == Z::new(neg, m.clone()) && x.bound() == bound && x.is_negative() == (neg && !m.is_zero()), "signed integer from its encoding", || format!("{}: {z} with bound {}", ctx(), x.bound()));
                        if legal { rt(c, "signed integer", &ctx(), &x, |y| *y == x); } }
                    Some(Err(e)) => { c.check(!(legal && full), "a signed integer was refused", || format!("{}: {e}", ctx())); }
                    None => {}
                }
            } }
        }
        c.trace();
    });
}

fn packed_bits(r: &mut Runner) {
    r.explore("bit-strings", "every declared number of bits up to 40 (and huge ones) with every length of the byte string up to seven: accepted only if there are enough bytes; the bits are those of the bytes", |c| {
        let mut ns: Vec<u64> = (0..=40).collect(); ns.extend([255, 1 << 16, (1 << 31) - 1, (1 << 32) - 1]);
        let bits = *c.pick(&ns); let len = c.choose(8); c.label(|| format!("{bits} bits in {len} bytes"));
        let mut rng = ScriptRng::new(vec![0x5a]); let tpl = to_tree(&BitVec::random(&mut rng, 8)); let ls = leaves(&tpl);
        let li = ls.iter().find(|l| matches!(get(&tpl, l), Value::Integer(_))).unwrap(); let lv = ls.iter().find(|l| bytes(get(&tpl, l)).is_some()).unwrap();
        for fill in 0..4usize { let by: Vec<u8> = (0..len).map(|i| [0, 0xff, 0xa5, (37 * i + 11) as u8][fill]).collect();
            c.state(&(bits, &by)); c.ops(1);
            let v = set(&set(&tpl, li, Value::Integer(bits.into())), lv, b(&by));
            let legal = bits.div_ceil(8) as usize <= len; let full = bits.div_ceil(8) as usize == len;
            match de::<BitVec>(c, "bit string", &v) {
                Some(Ok(x)) => { let want: Vec<bool> = (0..bits.min(64) as usize).map(|i| by.get(i / 8).map(|y| y >> (7 - i % 8) & 1 == 1).unwrap_or(false)).collect(); c.check(legal && x.bits() == &want[..], "bit string from its encoding", || format!("{bits} bits from {by:02x?}: {:?}", x.bits())); rt(c, "bit string", &format!("{bits} {by:02x?}"), &x, |y| *y == x); }
                Some(Err(e)) => { c.check(!(legal && full), "a bit string was refused", || format!("{bits} bits of {by:02x?}: {e}")); }
                None => {}
            }
        }
        c.trace();
    });
    r.explore("hash-outputs", "hash outputs for every number of security bits up to 300", |c| {
        let n = c.choose(301); c.label(|| format!("{n}")); c.state(&n);
        let h = Hasher::<sha3::Shake256>::new_with_dst(b"x").chain_bytes(&[n as u8]).finalize(n);
        rt(c, "hash output", &format!("{n}"), &h, |y| *y == h);
        let d: HashOutput = from_cbor(&to_cbor(&h)).unwrap(); c.check(d == h, "hash output", || format!("{n}")); c.trace();
    });
}

/// What is accepted after a change of one leaf is a value that can be used and stored again.
fn tamper<T: Serialize + DeserializeOwned>(c: &mut Ctl, key: &str, good: &T, usable: impl Fn(&T)) {
    let tree = to_tree(good);
    for l in leaves(&tree) {
        let old = get(&tree, &l).clone(); if old == Value::Null { continue; } let nm = name(&tree, &l);
        let mut alts: Vec<(bool, Value)> = vec![]; // whether it must be refused
        match &old {
            Value::Bytes(x) => {
                // fixed-size items: other lengths are refused
                let mut t = x.clone(); t.pop(); alts.push((true, b(&t))); alts.push((true, b(&x[1..]))); let mut t = x.clone(); t.push(0); alts.push((true, b(&t))); let mut t = x.clone(); t.insert(0, 0); alts.push((true, b(&t))); alts.push((true, b(&[])));
                for i in 0..x.len().min(64) { let mut t = x.clone(); t[i] ^= 0x81; alts.push((false, b(&t))); }
                alts.push((false, b(&vec![0; x.len()]))); alts.push((false, b(&vec![0xff; x.len()])));
                alts.push((true, Value::Integer(3.into()))); alts.push((true, Value::Null)); alts.push((true, Value::Array(vec![Value::Null]))); alts.push((true, Value::Bool(true)));
            }
            _ => { alts.push((true, Value::Null)); alts.push((true, Value::Text("x".into()))); }
        }
        for (refuse, a) in alts {
            c.ops(1);
            let v = set(&tree, &l, a.clone());
            let Some(res) = de::<T>(c, key, &v) else { continue };
            if let Ok(x) = res {
                c.check(!refuse, &format!("{key}: a malformed field was accepted"), || format!("{nm} = {a:?}"));
                let t = to_tree(&x); c.check(t == v, &format!("{key}: the value differs from its encoding"), || format!("{nm} = {a:?}"));
                let k = format!("{key}: an accepted value cannot be used"); c.guard(&k, || format!("{nm} = {a:?}"), || usable(&x));
            }
        }
    }
    // structure
    for p in containers(&tree) { if let Value::Map(m) = get(&tree, &p) { for i in 0..m.len() { let mut m2 = m.clone(); m2.remove(i); let v = set(&tree, &p, Value::Map(m2)); c.ops(1); if let Some(Ok(_)) = de::<T>(c, key, &v) { c.fail(&format!("{key}: a missing field was accepted"), name(&tree, &p)); } } } }
}

fn keys<P: PaillierParams>(r: &mut Runner, name: &str, seeds: usize) where P::Uint: Nt, P: Send + Sync {
    r.explore(&format!("keys-{name}"), "keys, moduli, ring-Pedersen setups, commitments, ciphertexts and masked randomizers of several seeds: round trips through both formats, and every single-field malformation (lengths, types, flips of every byte, extremes, missing fields)", |c| {
        let seed = c.choose(seeds); let kind = c.choose(6); c.label(|| format!("seed {seed}, kind {kind}")); c.state(&(seed, kind));
        let mut rng = DetRng(seed as u64 + 77);
        let sk_w = SecretKeyPaillierWire::<P>::random(&mut rng); let pk_w = sk_w.public_key(); let sk = sk_w.clone().into_precomputed(); let pk = sk.public_key().clone();
        match kind {
            0 => { rt(c, "secret key", "", &sk_w, |y| y.public_key() == pk_w); let again = sk.clone().into_wire(); c.check(to_tree(&again) == to_tree(&sk_w), "secret key: working and wire forms", || format!("seed {seed}")); }
            1 => { rt(c, "public key", "", &pk_w, |y| *y == pk_w); tamper(c, "public key", &pk_w, |x| { let p = x.clone().into_precomputed(); let _ = (p.modulus(), p.modulus_signed(), p.monty_params_mod_n_squared()); assert!(to_tree(&p.into_wire()) == to_tree(x)); }); }
            2 => { let rp = RPParams::<P>::random(&mut rng).to_wire(); rt(c, "setup", "", &rp, |y| to_tree(y) == to_tree(&rp)); tamper(c, "setup", &rp, |x| { let p = x.to_precomputed(); let _ = p.modulus(); let _ = p.to_wire(); }); }
            3 => { let rp = RPParams::<P>::random(&mut rng); let z = SecretSignedZero::<P>(); for e in [0i64, 1, -1, 77] { let cm = rp.commit(&ps::<P::Uint>(&Z::i(e), 10), &z.0).to_wire(); rt(c, "commitment", &format!("{e}"), &cm, |y| to_tree(y) == to_tree(&cm)); tamper(c, "commitment", &cm, |x| { let _ = x.to_precomputed(&rp).to_wire(); }); } }
            4 => { for e in [0i64, 1, -1, 77] { let rd = Randomizer::random(&mut rng, &pk); let ct = Ciphertext::new_public_with_randomizer(&pk, &ps::<P::Uint>(&Z::i(e), 10), &rd.to_masked(&rd, &PublicSigned::zero())).to_wire(); rt(c, "ciphertext", &format!("{e}"), &ct, |y| to_tree(y) == to_tree(&ct)); tamper(c, "ciphertext", &ct, |x| { let _ = x.to_precomputed(&pk).to_wire(); }); c.check(to_tree(&ct.to_precomputed(&pk).to_wire()) == to_tree(&ct), "ciphertext: working and wire forms", || format!("{e}")); } }
            _ => { let rd = Randomizer::random(&mut rng, &pk); let m = rd.to_masked(&rd, &ps::<P::Uint>(&Z::i(-3), 10)); rt(c, "masked randomizer", "", &m, |y| to_tree(y) == to_tree(&m)); tamper(c, "masked randomizer", &m, |x| { let _ = Ciphertext::new_public_with_randomizer(&pk, &PublicSigned::zero(), x); }); }
        }
        c.trace();
    });
}
struct Zero<P: PaillierParams>(PublicSigned<P::Uint>);
#[allow(non_snake_case)] fn SecretSignedZero<P: PaillierParams>() -> Zero<P> { Zero(PublicSigned::zero()) }

fn modulus(r: &mut Runner) {
    r.explore("moduli", "public keys with boundary moduli: even ones (zero included) are refused, odd ones can be brought into the working form", |c| {
        type P = <TestParams as SchemeParams>::Paillier;
        let mut rng = DetRng(5); let sk = SecretKeyPaillierWire::<P>::random(&mut rng); let tpl = to_tree(&sk.public_key()); let ls = leaves(&tpl);
        let k = c.choose(257) as u32; c.label(|| format!("around 2^{k}"));
        let p = if k == 256 { Nat::zero() } else { Nat::pow2(k) };
        let mut v = vec![p.clone(), p.add(&Nat::one()), p.add(&Nat::u(2))]; if k < 256 { v.push(Nat::pow2(k + 1).sub(&Nat::one())); if k > 2 { v.push(Nat::pow2(k + 1).sub(&Nat::u(2))); } }
        for n in v { if n.bits() > 256 { continue; } c.state(&n); c.ops(1);
            let t = set(&tpl, &ls[0], b(&n.to_be(32)));
            match de::<PublicKeyPaillierWire<P>>(c, "modulus", &t) {
                Some(Ok(x)) => { c.check(!n.is_even(), "an even modulus was accepted", || format!("{n}")); if n.bits() > 1 { c.guard("an odd modulus cannot be used", || format!("{n}"), || { let q = x.clone().into_precomputed(); assert!(q.modulus().nat() == n); }); } }
                Some(Err(e)) => { c.check(n.is_even(), "an odd modulus was refused", || format!("{n}: {e}")); }
                None => {}
            }
        }
        c.trace();
    });
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("C10");
    r.assume("secret keys are restored from trusted storage: that two stored numbers are prime is not checked on import");
    r.assume("formats: CBOR (binary), JSON (text), and the self-describing value tree of ciborium");
    scalars(&mut r); points(&mut r);
    uints::<U64>(&mut r, "64"); uints::<U128>(&mut r, "128"); uints::<Uint<4>>(&mut r, "256"); uints::<Uint<32>>(&mut r, "2048");
    signed::<U64>(&mut r, "64"); signed::<U192>(&mut r, "192");
    if r.thorough() { signed::<Uint<8>>(&mut r, "512"); uints::<Uint<64>>(&mut r, "4096"); }
    packed_bits(&mut r); modulus(&mut r);
    let n = r.by_tier(4, 40); keys::<<TestParams as SchemeParams>::Paillier>(&mut r, "256", n);
    r.finish()
}
