// C08: splitting a secret preserves it, and share derivation follows the key.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
use big::*; use util::*; use engine::*; use sp16::SP16;
use std::collections::{BTreeMap, BTreeSet};
use bip32::{ChildNumber, DerivationPath};
use digest::Digest;
use ecdsa::{SigningKey, VerifyingKey, hazmat::DigestPrimitive};
use elliptic_curve::{Curve, bigint::Encoding, sec1::ToEncodedPoint, PrimeField};
use crate::curve::{secret_split, Point, Scalar, DeriveChildKey, PublicTweakable, SecretTweakable};
use crate::params::SchemeParams;
use crate::tools::{Secret, sss::{interpolation_coeff, ShareId}};
use crate::{ThresholdKeyShare, KeyShare, dev::TestParams, k256::ProductionParams112};

fn order<P: SchemeParams>() -> Nat { Nat::from_be(P::Curve::ORDER.to_be_bytes().as_ref()) }
fn sc<P: SchemeParams>(x: &Nat) -> Scalar<P> { Scalar::try_from_be_bytes(&x.to_be(Scalar::<P>::repr_len())).expect("canonical") }
fn val<P: SchemeParams>(x: &Scalar<P>) -> Nat { Nat::from_be(x.to_be_bytes().as_ref()) }

// ---------------------------------------------------------------- splitting
/// `big` curves: values that collide over the seeds can be ruled out.
fn split_all<P: SchemeParams>(r: &mut Runner, name: &str, max_parts: usize, seeds: u64, unique: bool) {
    let q = order::<P>();
    let secrets: Vec<Nat> = vec![Nat::u(0), Nat::u(1), Nat::u(2), q.sub(&Nat::u(1)), q.sub(&Nat::u(2)), q.shr(1), q.shr(1).add(&Nat::u(1))];
    r.explore(&format!("split {name}"), &format!("1..={max_parts} parts, {} boundary secrets, {seeds} random streams; every sum and difference of parts with coefficients -1, 0, 1", secrets.len()), |c| {
        let num = 1 + c.choose(max_parts);
        let q = &q;
        c.label(|| format!("{num} parts"));
        c.state(&(num, 0));
        // values[seed][part] for the first secret, to look at the joint distribution over the streams
        let mut by_seed: Vec<Vec<Nat>> = vec![];
        for seed in 0..seeds {
            let mut first: Option<Vec<Nat>> = None;
            for s in &secrets {
                let ctx = || format!("{num} parts of {s}, stream {seed}");
                let Some(parts) = c.guard("secret_split panics", ctx, || secret_split::<P>(&mut DetRng(seed * 77 + 5), secret(sc::<P>(s)), num)) else { return };
                c.ops(1);
                let vals: Vec<Nat> = parts.iter().map(|p| val(p.expose_secret())).collect();
                if !c.check(vals.len() == num, "number of parts", || format!("{}: {}", ctx(), vals.len())) { return }
                let sum = vals.iter().fold(Nat::u(0), |a, b| a.add(b)).rem(q);
                c.check(sum == *s, "sum of parts", || format!("{}: {sum}", ctx()));
                c.state(&vals.iter().map(|v| v.to_be(64)).collect::<Vec<_>>());
                match &first {
                    None => { first = Some(vals) }
                    Some(f) => {
                        // the randomness is the same, so only one part can depend on the secret
                        let diff = (0..num).filter(|i| f[*i] != vals[*i]).count();
                        c.check(diff <= 1, "more than one part depends on the secret", || format!("{}: {diff}", ctx()));
                    }
                }
            }
            by_seed.push(first.unwrap());
        }
        if num == 1 { c.trace(); return }
        // no proper combination of the parts is known beforehand
        let combos = 3usize.pow(num as u32);
        for k in 0..combos {
            let co: Vec<i8> = (0..num).map(|i| (k / 3usize.pow(i as u32) % 3) as i8 - 1).collect();
            if co.iter().all(|x| *x == co[0]) { continue }
            let v: Vec<Nat> = by_seed.iter().map(|p| p.iter().zip(&co).fold(Z::n(Nat::u(0)), |a, (x, s)| match s { 1 => a.add(&Z::n(x.clone())), -1 => a.sub(&Z::n(x.clone())), _ => a }).modulo(q)).collect();
            let distinct: BTreeSet<Vec<u8>> = v.iter().map(|x| x.to_be(64)).collect();
            // on the small curve collisions are possible, but never many
            let ok = if unique { distinct.len() == v.len() } else { distinct.len() * 10 >= v.len() * 9 };
            c.check(ok, "parts are predictable", || format!("{num} parts, coefficients {co:?}: only {} values over {} streams", distinct.len(), v.len()));
        }
        c.trace();
    });
}
/// Key shares made for a given signing key.
fn split_keys<P: SchemeParams>(r: &mut Runner, name: &str, max_parts: usize, seeds: u64) {
    let q = order::<P>();
    r.explore(&format!("key shares {name}"), &format!("1..={max_parts} parties, boundary keys, {seeds} streams"), |c| {
        let num = 1 + c.choose(max_parts);
        let key = [Nat::u(1), Nat::u(2), q.sub(&Nat::u(1)), q.shr(1)][c.choose(4)].clone();
        let seed = c.choose(seeds as usize) as u64;
        let sk = SigningKey::<P::Curve>::from_slice(&key.to_be(Scalar::<P>::repr_len())).expect("key");
        let ids: BTreeSet<u8> = (0..num as u8).collect();
        let ctx = || format!("{num} parties, key {key}, stream {seed}");
        c.ops(1);
        let Some(shares) = c.guard("KeyShare::new_centralized panics", ctx, || KeyShare::<P, u8>::new_centralized(&mut DetRng(seed + 9), &ids, Some(&sk))) else { return };
        c.check(shares.keys().cloned().collect::<BTreeSet<_>>() == ids, "parties", ctx);
        let mut sum = Scalar::<P>::ZERO;
        for (id, s) in &shares {
            c.check(s.owner() == id && s.all_parties() == ids, "share owner", ctx);
            sum = sum + *s.secret_share().expose_secret();
            for (id2, s2) in &shares {
                let want = s2.secret_share().expose_secret().mul_by_generator();
                c.check(s.public_shares().get(id2) == Some(&want), "public share", || format!("{} of {id2} at {id}", ctx()));
            }
            let vk = quiet(|| s.verifying_key());
            c.check(vk.as_ref().ok() == Some(sk.verifying_key()), "verifying key", || format!("{}: {vk:?}", ctx()));
        }
        c.check(val(&sum) == key, "sum of the shares", ctx);
        c.trace();
    });
}

// ---------------------------------------------------------------- SHA-512 and HMAC, for the model
fn sha512(data: &[u8]) -> [u8; 64] {
    // constants are the fractional parts of roots of the first primes
    fn frac(n: &Nat, root: u32) -> u64 { // floor(n^(1/root) * 2^64) mod 2^64
        let target = n.shl(64 * root);
        let mut x = Nat::u(0);
        for i in (0..72).rev() {
            let y = x.add(&Nat::u(1).shl(i));
            let p = (1..root).fold(y.clone(), |a, _| a.mul(&y));
            if p.cmp(&target) != std::cmp::Ordering::Greater { x = y }
        }
        let low = x.sub(&x.shr(64).shl(64));
        low.to_u64()
    }
    static K: std::sync::OnceLock<(Vec<u64>, Vec<u64>)> = std::sync::OnceLock::new();
    let (h0, k) = K.get_or_init(|| {
        let primes: Vec<u64> = (2..500u64).filter(|n| (2..*n).all(|d| n % d != 0)).collect();
        (primes[..8].iter().map(|p| frac(&Nat::u(*p), 2)).collect(), primes[..80].iter().map(|p| frac(&Nat::u(*p), 3)).collect())
    });
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 128 != 112 { m.push(0) }
    m.extend((data.len() as u128 * 8).to_be_bytes());
    let mut h: Vec<u64> = h0.clone();
    for block in m.chunks(128) {
        let mut w: Vec<u64> = block.chunks(8).map(|b| u64::from_be_bytes(b.try_into().unwrap())).collect();
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            let x = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
            w.push(x);
        }
        let mut v = h.clone();
        for i in 0..80 {
            let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
            let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            v = vec![t1.wrapping_add(s0.wrapping_add(maj)), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 { h[i] = h[i].wrapping_add(v[i]) }
    }
    let mut out = [0; 64];
    for (i, x) in h.iter().enumerate() { out[8 * i..8 * i + 8].copy_from_slice(&x.to_be_bytes()) }
    out
}
fn hmac512(key: &[u8], data: &[u8]) -> [u8; 64] {
    let mut k = key.to_vec(); k.resize(128, 0);
    let inner = sha512(&[k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>(), data.to_vec()].concat());
    sha512(&[k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>(), inner.to_vec()].concat())
}
/// The discrete logarithm of the child key of secret `k`, and the sum of the tweaks, in the model.
fn model_bip32(k: &k256::Scalar, path: &[u32]) -> Option<(k256::Scalar, k256::Scalar)> {
    let pt = |s: &k256::Scalar| (k256::ProjectivePoint::GENERATOR * s).to_affine().to_encoded_point(true).as_bytes().to_vec();
    let mut cc = <k256::Secp256k1 as DigestPrimitive>::Digest::digest([&b"chain-code-derivation"[..], &pt(k)].concat()).to_vec();
    let (mut cur, mut sum) = (*k, k256::Scalar::ZERO);
    for i in path {
        let h = hmac512(&cc, &[pt(&cur), i.to_be_bytes().to_vec()].concat());
        let t: Option<k256::Scalar> = k256::Scalar::from_repr(k256::FieldBytes::clone_from_slice(&h[..32])).into();
        cur += t?; sum += t?;
        if bool::from(cur.is_zero()) { return None }
        cc = h[32..].to_vec();
    }
    Some((cur, sum))
}

// ---------------------------------------------------------------- derivation
fn path(idx: &[u32]) -> DerivationPath { if idx.is_empty() { "m".parse().unwrap() } else { format!("m/{}", idx.iter().map(|i| if i >> 31 == 1 { format!("{}'", i & 0x7fffffff) } else { i.to_string() }).collect::<Vec<_>>().join("/")).parse().expect("path") } }
const IDX: [u32; 8] = [0, 1, 0x7fffffff, 2, 255, 256, 65536, 0x12345678];
fn choose_path(c: &mut Ctl, depth: usize, alphabet: usize) -> Vec<u32> { let n = c.choose(depth + 1); (0..n).map(|_| IDX[c.choose(alphabet)]).collect() }

/// Checks that a derived set of shares is a consistent sharing of `child`.
fn check_derived<P: SchemeParams>(c: &mut Ctl, ctx: &dyn Fn() -> String, old: &BTreeMap<u8, ThresholdKeyShare<P, u8>>, new: &BTreeMap<u8, ThresholdKeyShare<P, u8>>, child: &VerifyingKey<P::Curve>) {
    let ids: Vec<u8> = old.keys().cloned().collect();
    let t = old[&ids[0]].threshold();
    let mut shift: Option<Nat> = None;
    let q = order::<P>();
    for id in &ids {
        let (o, n) = (&old[id], &new[id]);
        c.check(n.owner == *id && n.threshold() == t && n.share_id().ok() == o.share_id().ok() && BTreeMap::from(n.share_ids.clone()) == BTreeMap::from(o.share_ids.clone()), "derived share changes its identity", || format!("{} party {id}", ctx()));
        let d = Z::n(val(n.secret_share.expose_secret())).sub(&Z::n(val(o.secret_share.expose_secret()))).modulo(&q);
        c.check(shift.as_ref().map(|s| *s == d).unwrap_or(true), "shares are shifted by different amounts", || format!("{} party {id}", ctx()));
        shift = Some(d);
        for id2 in &ids { c.check(n.public_shares.get(id2) == Some(&new[id2].secret_share.expose_secret().mul_by_generator()), "derived public share", || format!("{} of {id2} at {id}", ctx())); }
        c.check(n.public_shares.len() == ids.len(), "derived public shares", ctx);
        let vk = n.verifying_key();
        c.check(vk.as_ref().ok() == Some(child), "verifying key of the derived share", || format!("{} party {id}: {vk:?}", ctx()));
    }
    // every quorum
    for mask in 0u32..1 << ids.len() {
        if mask.count_ones() as usize != t { continue }
        let quorum: BTreeSet<u8> = ids.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, x)| *x).collect();
        let sids: Vec<ShareId<P>> = quorum.iter().map(|i| *new[i].share_id().unwrap()).collect();
        let s: Scalar<P> = quorum.iter().map(|i| *new[i].secret_share.expose_secret() * interpolation_coeff(sids.iter(), new[i].share_id().unwrap())).fold(Scalar::ZERO, |a, b| a + b);
        c.check(s.mul_by_generator() == Point::from_verifying_key(child), "a quorum of derived shares", || format!("{} quorum {quorum:?}", ctx()));
    }
}

fn derive_shares<P: SchemeParams>(r: &mut Runner, name: &str, depth: usize, alphabet: usize, sizes: &[(usize, usize)], keys: usize, model: impl Fn(&mut Ctl, &Nat, &[u32], &VerifyingKey<P::Curve>) + Sync)
where VerifyingKey<P::Curve>: PublicTweakable, SigningKey<P::Curve>: SecretTweakable {
    let q = order::<P>();
    let ks = [Nat::u(1), q.sub(&Nat::u(1)), q.shr(1), q.shr(1).add(&Nat::u(12345)), Nat::u(0xdeadbeef).rem(&q)];
    r.explore(&format!("derivation {name}"), &format!("{keys} keys, (n, t) in {sizes:?}, all paths up to depth {depth} over {:?}, every quorum", &IDX[..alphabet]), |c| {
        let k = &ks[c.choose(keys)];
        let &(n, t) = c.pick(sizes);
        let idx = choose_path(c, depth, alphabet);
        c.label(|| format!("key {k}, {t} of {n}, path {idx:?}"));
        c.state(&(k.to_be(40), n, t, &idx));
        let ctx = || format!("key {k}, {t} of {n}, path {idx:?}");
        let sk = SigningKey::<P::Curve>::from_slice(&k.to_be(Scalar::<P>::repr_len())).expect("key");
        let ids: BTreeSet<u8> = (10..10 + n as u8).collect();
        let shares = ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(n as u64 * 31 + t as u64), &ids, t, Some(&sk)).expect("shares");
        let p = path(&idx);
        c.ops(2 + n as u64);
        let Some(child) = c.guard("derive_verifying_key_bip32 panics", ctx, || sk.verifying_key().derive_verifying_key_bip32(&p)) else { return };
        let child = match child { Ok(x) => x, Err(e) => { c.fail("a non-hardened path is refused", format!("{}: {e}", ctx())); return } };
        model(c, k, &idx, &child);
        if idx.is_empty() { c.check(child == *sk.verifying_key(), "empty path", ctx); }
        let mut new = BTreeMap::new();
        for (id, s) in &shares {
            let vk = s.derive_verifying_key_bip32(&p);
            c.check(vk.as_ref().ok() == Some(&child), "key derived from a share", || format!("{}: {vk:?}", ctx()));
            match quiet(|| s.derive_bip32(&p)) {
                Ok(Ok(x)) => { new.insert(*id, x); }
                e => { c.fail("derive_bip32 fails", format!("{}: {e:?}", ctx())); return }
            }
        }
        check_derived(c, &ctx, &shares, &new, &child);
        c.trace();
    });
    r.explore(&format!("hardened {name}"), "a hardened index at every position of a path of up to 3 elements", |c| {
        let n = 1 + c.choose(3);
        let pos = c.choose(n);
        let hard = 0x80000000u32 | IDX[c.choose(4)];
        let idx: Vec<u32> = (0..n).map(|i| if i == pos { hard } else { IDX[c.choose(2)] }).collect();
        c.state(&idx);
        let sk = SigningKey::<P::Curve>::from_slice(&Nat::u(77).to_be(Scalar::<P>::repr_len())).expect("key");
        let ids: BTreeSet<u8> = (0..2).collect();
        let shares = ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(3), &ids, 2, Some(&sk)).expect("shares");
        let p = path(&idx);
        let ctx = || format!("path {idx:?}");
        c.ops(3);
        let a = c.guard("hardened panics", ctx, || sk.verifying_key().derive_verifying_key_bip32(&p).is_err());
        c.check(a == Some(true), "a hardened path is accepted", ctx);
        for s in shares.values() {
            let a = c.guard("hardened panics", ctx, || s.derive_verifying_key_bip32(&p).is_err() && s.derive_bip32(&p).is_err());
            c.check(a == Some(true), "a hardened path is accepted by a share", ctx);
        }
        c.trace();
    });
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("C08");
    r.assume("the curve arithmetic, SHA-256 and bip32 dependencies are trusted; HMAC-SHA512 and the derivation are recomputed by the harness");
    // FIPS 180-4 and RFC 4231 vectors for the model itself
    assert_eq!(Nat::from_be(&sha512(b"abc")[..8]).to_u64(), 0xddaf35a193617aba);
    assert_eq!(Nat::from_be(&hmac512(b"Jefe", b"what do ya want for nothing?")[..8]).to_u64(), 0x164b7a7bfcf819e2);
    let n = r.by_tier(6, 8);
    split_all::<SP16>(&mut r, "16-bit curve", n, 64, false);
    split_all::<TestParams>(&mut r, "32-bit curve", n, r_seeds(&n), true);
    split_all::<ProductionParams112>(&mut r, "secp256k1", n, 24, true);
    split_keys::<TestParams>(&mut r, "32-bit curve", 5, 8);
    split_keys::<ProductionParams112>(&mut r, "secp256k1", 5, 4);
    let (d, a) = r.by_tier((2, 5), (3, 8));
    let sizes: &[(usize, usize)] = r.by_tier(&[(1, 1), (2, 2), (3, 2)], &[(1, 1), (2, 2), (3, 2), (4, 3), (4, 2)]);
    derive_shares::<ProductionParams112>(&mut r, "secp256k1", d, a, sizes, r_keys(&n), |c, k, idx, child| {
        let ks: k256::Scalar = Option::from(k256::Scalar::from_repr(k256::FieldBytes::clone_from_slice(&k.to_be(32)))).unwrap();
        let Some((want, _)) = model_bip32(&ks, idx) else { return };
        let got = child.as_affine().to_encoded_point(true);
        let want = (k256::ProjectivePoint::GENERATOR * want).to_affine().to_encoded_point(true);
        c.check(got == want, "child key differs from BIP32", || format!("key {k}, path {idx:?}"));
        // children of different paths are different keys
    });
    derive_shares::<TestParams>(&mut r, "32-bit curve", d, a, sizes, r_keys(&n), |_, _, _, _| ());
    r.finish()
}
fn r_seeds(n: &usize) -> u64 { if *n > 6 { 32 } else { 24 } }
fn r_keys(n: &usize) -> usize { if *n > 6 { 5 } else { 4 } }
