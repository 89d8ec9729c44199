// S01: interactive signing yields one valid signature under the group key.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/tree.rs"] mod tree;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
use big::*; use util::*; use engine::*; use sp16::SP16; use proto::*; use scen::*;
use std::collections::{BTreeMap, BTreeSet};
use ecdsa::{hazmat::VerifyPrimitive, SigningKey, VerifyingKey};
use elliptic_curve::{bigint::Encoding, sec1::ToEncodedPoint, Curve, PrimeField};
use signature::hazmat::PrehashVerifier;
use manul::protocol::BoxedFormat;
use crate::{params::SchemeParams, dev::TestParams, k256::ProductionParams112, curve::{Scalar, RecoverableSignature}, KeyShare, AuxInfo, ThresholdKeyShare, PrehashedMessage};

/// The message of a given value (which may exceed the order).
fn message<P: SchemeParams>(x: &Nat) -> PrehashedMessage<P::Curve> { let mut m = PrehashedMessage::<P::Curve>::default(); let n = m.len(); m.copy_from_slice(&x.to_be(n)); m }
fn messages<P: SchemeParams>() -> Vec<Nat> {
    let q = order::<P>(); let bits = PrehashedMessage::<P::Curve>::default().len() as u32 * 8; let one = Nat::u(1);
    vec![Nat::u(0), one.clone(), Nat::u(2), q.shr(1), q.shr(1).add(&one), q.sub(&one), q.clone(), q.add(&one), Nat::pow2(bits).sub(&one), Nat::pow2(bits - 1), Nat::u(0x1234_5678_9abc_def0)]
}
/// Independent verification on the small curve (`tab`: multiples of its generator).
fn model(tab: &[sp16::Pt], sigs: &BTreeMap<u8, &RecoverableSignature<SP16>>, vk: &VerifyingKey<tiny_curve::TinyCurve16>, msg: &Nat) -> Res {
    let e = vk.to_encoded_point(false);
    let pk = (Nat::from_be(e.x().unwrap()).to_u64(), Nat::from_be(e.y().unwrap()).to_u64());
    let d = tab.iter().position(|p| *p == Some(pk)).ok_or("the verifying key is not on the curve")? as u64;
    let m = msg.rem(&Nat::u(sp16::Q)).to_u64();
    for (id, s) in sigs {
        let (b, rid) = (**s).clone().to_backend();
        let (r, s) = b.split_scalars();
        let (r, s) = (Nat::from_be(&r.to_repr()).to_u64(), Nat::from_be(&s.to_repr()).to_u64());
        need(s > 0 && r > 0 && s <= sp16::Q / 2, || format!("s at {id} is out of range"))?;
        let k = (m + r * d) % sp16::Q * sp16::inv_mod(s, sp16::Q) % sp16::Q;
        let Some((x, y)) = tab[k as usize] else { return Err(format!("the signature at {id} has no nonce")) };
        need(x % sp16::Q == r, || format!("the signature at {id} is invalid in the model"))?;
        need(rid.is_y_odd() == (y & 1 == 1) && rid.is_x_reduced() == (x >= sp16::Q), || format!("recovery id {rid:?} at {id}"))?;
    }
    Ok(())
}
fn first_words(e: &str) -> String { e.split(|c: char| c.is_ascii_digit() || c == '{').next().unwrap_or("").trim().to_string() }
/// Runs a signing session; the signature (r, s, id) if it is right.
fn sign<P: SchemeParams>(c: &mut Ctl, s: &Sign<P>, shared: &[u8], fmt: Fmt, seed: u64, o: &mut dyn Meddle, what: &dyn Fn() -> String) -> Option<Net<crate::InteractiveSigningProtocol<P, u8>>>
where ecdsa::SignatureSize<P::Curve>: elliptic_curve::generic_array::ArrayLength<u8> {
    let mut net = match s.start(shared, fmt, seed) { Ok(n) => n, Err(e) => { c.fail("the session does not start", format!("{}: {e}", what())); return None } };
    net.run(o);
    c.ops(net.steps);
    match finished(s, &net) { Ok(()) => { c.trace(); Some(net) } Err(_) if degenerate::<P>(&net) => { c.trace(); None } Err(e) => { c.fail(&first_words(&e), format!("{}: {}: {e}", what(), s.name())); None } }
}
/// No signature exists for the nonce (which happens on a curve this small): the shares of delta or of s add up to zero.
fn degenerate<P: SchemeParams>(net: &Net<crate::InteractiveSigningProtocol<P, u8>>) -> bool {
    fn number(v: &serde_json::Value, out: &mut Vec<Nat>) { match v {
        serde_json::Value::String(s) => { let h = s.trim_start_matches("0x"); if h.len() >= 8 && h.len() % 2 == 0 && h.chars().all(|c| c.is_ascii_hexdigit()) { out.push(Nat::from_be(&(0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>())); } }
        serde_json::Value::Array(a) => a.iter().for_each(|x| number(x, out)), serde_json::Value::Object(o) => o.values().for_each(|x| number(x, out)), _ => {} } }
    let sum = |round: u8, part: Part| -> Option<Nat> {
        let mut all = Nat::u(0);
        for id in net.nodes.keys() {
            let b = net.hist.get(&(round, *id))?.part(part).clone()?;
            let mut v = vec![];
            match net.fmt { BoxedFormat::Cbor => { let t: tree::Value = tree::from_cbor(&b).ok()?; tree::leaves(&t).iter().for_each(|p| if let Some(x) = tree::bytes(tree::get(&t, p)) { v.push(Nat::from_be(&x)) }) } _ => number(&serde_json::from_slice(&b).ok()?, &mut v) }
            if v.len() != 1 { return None }
            all = all.add(&v.remove(0));
        }
        Some(all.rem(&order::<P>()))
    };
    if net.nodes.values().any(|n| matches!(n.st, St::Panic(_) | St::Running | St::Stuck)) { return false }
    [sum(3, Part::Eb), sum(4, Part::Nb)].iter().any(|s| s.as_ref().is_some_and(|s| s.is_zero()))
}
fn sig_key<P: SchemeParams>(net: &Net<crate::InteractiveSigningProtocol<P, u8>>) -> Option<(Vec<u8>, Vec<u8>)> where ecdsa::SignatureSize<P::Curve>: elliptic_curve::generic_array::ArrayLength<u8> {
    net.nodes.values().find_map(|n| match &n.st { St::Done(s) => { let (r, s) = s.clone().to_backend().0.split_scalars(); Some((r.to_repr().to_vec(), s.to_repr().to_vec())) } _ => None })
}
/// The library's own verification and recovery of the signature.
macro_rules! library { ($c:expr, $net:expr, $vk:expr, $msg:expr, $what:expr) => {
    for (id, n) in &$net.nodes { if let St::Done(s) = &n.st {
        let (b, rid) = s.clone().to_backend();
        $c.check($vk.verify_prehash(&$msg, &b).is_ok(), "the signature does not verify", || format!("{} at {id}", $what()));
        $c.check(VerifyingKey::recover_from_prehash(&$msg, &b, rid).ok() == Some($vk), "the key is not recovered", || format!("{} at {id}", $what()));
        $c.check(b.normalize_s().is_none(), "s is not normalised", || format!("{} at {id}", $what()));
    } }
} }

const SETS: [&[u8]; 6] = [&[0, 1], &[7, 200], &[0, 1, 2], &[250, 9, 3], &[1, 2, 3, 4], &[255, 0]];

fn streams(r: &mut Runner, n2: usize, n3: usize) {
    let tab = sp16::table();
    for (n, seeds) in [(2usize, n2), (3, n3)] {
        r.explore(&format!("streams-{n}"), &format!("{n} parties, {seeds} random streams (new key, auxiliary data and nonces each), on the 16-bit curve against the independent model"), |c| {
            let seed = c.choose(seeds) as u64;
            let msg = Nat::u(seed * 7919);
            c.label(|| format!("stream {seed}"));
            let s = Sign::<SP16>::of(&SETS[if n == 2 { 0 } else { 2 }], seed, message::<SP16>(&msg));
            let what = || format!("stream {seed}");
            let Some(net) = sign(c, &s, &seed.to_be_bytes(), if seed % 2 == 0 { BoxedFormat::Cbor } else { BoxedFormat::Json }, seed, &mut Honest, &what) else { return };
            c.state(&sig_key(&net));
            if let Err(e) = model(&tab, &results(&net, &s.ids()), &s.vk(), &msg) { c.fail(&format!("model: {}", first_words(&e)), format!("{}: {e}", what())); }
        });
    }
}
macro_rules! boundary { ($r:expr, $P:ty, $name:expr, $seeds:expr) => {{
    let q = order::<$P>();
    let keys: Vec<Nat> = vec![Nat::u(1), Nat::u(2), q.shr(1), q.shr(1).add(&Nat::u(1)), q.sub(&Nat::u(2)), q.sub(&Nat::u(1))];
    let msgs = messages::<$P>();
    let tab = sp16::table();
    let aux: Vec<_> = (0..$seeds as u64).map(|s| AuxInfo::<$P, u8>::new_centralized(&mut DetRng(s + 60), &ids_of(&[0, 1]))).collect();
    $r.explore(&format!("boundary-{}", $name), &format!("all pairs of {} boundary keys and {} boundary messages, {} streams", keys.len(), msgs.len(), $seeds), |c| {
        let (k, m, seed) = (c.pick(&keys).clone(), c.pick(&msgs).clone(), c.choose($seeds) as u64);
        c.label(|| format!("key {k} message {m} stream {seed}")); c.state(&(&k, &m, seed));
        let what = || format!("{} key {k} message {m} stream {seed}", $name);
        let ids = ids_of(&[0, 1]);
        let sk = SigningKey::<<$P as SchemeParams>::Curve>::from_slice(&k.to_be(Scalar::<$P>::repr_len())).expect("key");
        let s = Sign::<$P> { keys: KeyShare::new_centralized(&mut DetRng(seed), &ids, Some(&sk)), aux: aux[seed as usize].clone(), msg: message::<$P>(&m) };
        c.check(s.vk() == *sk.verifying_key(), "the key of the shares", what);
        let Some(net) = sign(c, &s, b"boundary", BoxedFormat::Cbor, seed, &mut Honest, &what) else { return };
        library!(c, net, s.vk(), s.msg, what);
    });
}} }

/// Where the key shares can come from.
const SOURCES: [&str; 9] = ["dealt", "generated", "refreshed", "refreshed twice", "quorum", "reshared", "converted and reshared", "derived", "derived quorum of a derived key"];
fn shares_from<P: SchemeParams>(source: usize, ids: &Ids, seed: u64) -> Result<(BTreeMap<u8, KeyShare<P, u8>>, BTreeMap<u8, AuxInfo<P, u8>>, VerifyingKey<P::Curve>), String>
where VerifyingKey<P::Curve>: crate::PublicTweakable, SigningKey<P::Curve>: crate::SecretTweakable {
    let v: Vec<u8> = ids.iter().copied().collect();
    let fmt = BoxedFormat::Cbor;
    let mut rng = DetRng(seed + 500);
    let outer: Ids = ids.iter().copied().chain([100, 101]).collect();
    let run = |s: &Refresh<P>, shared: &[u8], seed: u64| -> Result<BTreeMap<u8, (crate::KeyShareChange<P, u8>, AuxInfo<P, u8>)>, String> { let mut n = s.start(shared, fmt, seed)?; n.run(&mut Honest); finished(s, &n)?; Ok(results(&n, ids).into_iter().map(|(i, r)| (i, r.clone())).collect()) };
    let thresholds = |s: &BTreeMap<u8, ThresholdKeyShare<P, u8>>| -> Result<BTreeMap<u8, KeyShare<P, u8>>, String> { ids.iter().map(|i| Ok((*i, s[i].to_key_share(ids).map_err(|e| e.to_string())?))).collect() };
    let dealt = |rng: &mut DetRng| ThresholdKeyShare::<P, u8>::new_centralized(rng, &outer, ids.len(), None).map_err(|e| e.to_string());
    let aux = |rng: &mut DetRng| AuxInfo::<P, u8>::new_centralized(rng, ids);
    Ok(match source {
        0 => { let k = KeyShare::new_centralized(&mut rng, ids, None); let vk = k[&v[0]].verifying_key(); (k, aux(&mut rng), vk) }
        1 => {
            let s = Init::<P>::of(&v); let mut n = s.start(b"init", fmt, seed)?; n.run(&mut Honest); finished(&s, &n)?;
            let k: BTreeMap<u8, KeyShare<P, u8>> = results(&n, ids).into_iter().map(|(i, k)| (i, k.clone())).collect();
            let s = Aux::<P>::of(&v); let mut n = s.start(b"aux", fmt, seed)?; n.run(&mut Honest); finished(&s, &n)?;
            let vk = k[&v[0]].verifying_key();
            (k, results(&n, ids).into_iter().map(|(i, k)| (i, k.clone())).collect(), vk)
        }
        2 | 3 => {
            let mut k = KeyShare::<P, u8>::new_centralized(&mut rng, ids, None); let vk = k[&v[0]].verifying_key();
            let mut a = BTreeMap::new();
            for step in 0..source as u64 - 1 {
                let r = run(&Refresh::of(&v), b"refresh", seed * 3 + step)?;
                k = k.into_iter().map(|(i, k)| Ok((i, k.update(r[&i].0.clone()).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?;
                a = r.into_iter().map(|(i, r)| (i, r.1)).collect();
            }
            (k, a, vk)
        }
        4 => {
            // auxiliary data of the whole group, cut down to the quorum
            let s = dealt(&mut rng)?; let vk = s[&v[0]].verifying_key().map_err(|e| e.to_string())?;
            let a = AuxInfo::<P, u8>::new_centralized(&mut rng, &outer);
            (thresholds(&s)?, ids.iter().map(|i| Ok((*i, a[i].clone().subset(ids).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?, vk)
        }
        5 | 6 => {
            let old: Ids = [50, 51, v[0]].into();
            let shares: BTreeMap<u8, ThresholdKeyShare<P, u8>> = if source == 5 { ThresholdKeyShare::new_centralized(&mut rng, &old, 2, None).map_err(|e| e.to_string())? } else { KeyShare::<P, u8>::new_centralized(&mut rng, &old, None).iter().map(|(i, k)| (*i, ThresholdKeyShare::from_key_share(k))).collect() };
            let s = Reshare { old: shares, quorum: old, new: outer.clone(), new_threshold: ids.len() }; let vk = s.vk();
            let mut n = s.start(b"reshare", fmt, seed)?; n.run(&mut Honest); finished(&s, &n)?;
            let k: BTreeMap<u8, ThresholdKeyShare<P, u8>> = results(&n, &outer).into_iter().map(|(i, k)| (i, k.clone().unwrap())).collect();
            (thresholds(&k)?, aux(&mut rng), vk)
        }
        _ => {
            let s = dealt(&mut rng)?;
            let path: bip32::DerivationPath = if source == 7 { "m/0/1".parse() } else { "m/2".parse() }.map_err(|e: bip32::Error| e.to_string())?;
            let mut d: BTreeMap<u8, ThresholdKeyShare<P, u8>> = s.iter().map(|(i, k)| Ok((*i, k.derive_bip32(&path).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?;
            if source == 8 { let p: bip32::DerivationPath = "m/1/7/3".parse().map_err(|e: bip32::Error| e.to_string())?; d = d.iter().map(|(i, k)| Ok((*i, k.derive_bip32(&p).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?; }
            let vk = d[&v[0]].verifying_key().map_err(|e| e.to_string())?;
            (thresholds(&d)?, aux(&mut rng), vk)
        }
    })
}
macro_rules! sources { ($r:expr, $P:ty, $name:expr, $sets:expr, $seeds:expr) => {{
    let sets: &[&[u8]] = $sets;
    $r.explore(&format!("sources-{}", $name), &format!("{} sets of parties, {} origins of the shares ({}), {} streams", sets.len(), SOURCES.len(), SOURCES.join(", "), $seeds), |c| {
        let ids = *c.pick(sets); let source = c.choose(SOURCES.len()); let seed = c.choose($seeds) as u64;
        c.label(|| format!("{ids:?} {} stream {seed}", SOURCES[source])); c.state(&(ids, source, seed));
        let what = || format!("{} shares {} stream {seed}", $name, SOURCES[source]);
        let (keys, aux, vk) = match quiet(|| shares_from::<$P>(source, &ids_of(ids), seed)) { Ok(Ok(x)) => x, Ok(Err(e)) | Err(e) => return c.fail(&format!("no shares: {}", SOURCES[source]), format!("{}: {e}", what())) };
        c.ops(1);
        let m = Nat::u(seed * 1_000_003 + source as u64);
        let s = Sign::<$P> { keys, aux, msg: message::<$P>(&m) };
        c.check(s.keys.values().all(|k| k.verifying_key() == vk), "the key of the shares", what);
        let Some(net) = sign(c, &s, b"sources", BoxedFormat::Cbor, seed, &mut Honest, &what) else { return };
        library!(c, net, vk, s.msg, what);
    });
}} }
fn orders<P: SchemeParams>(r: &mut Runner, name: &str, ids: &[u8], dev: u32) where ecdsa::SignatureSize<P::Curve>: elliptic_curve::generic_array::ArrayLength<u8> {
    let n = ids.len();
    let s = Sign::<P>::of(ids, 5, message::<P>(&Nat::u(77)));
    let base = { let mut x = s.start(b"orders", BoxedFormat::Cbor, 9).expect("start"); x.run(&mut Honest); sig_key(&x) };
    r.explore_dev(&format!("orders-{name}-{n}"), &format!("{n} parties: at most {dev} nodes and rounds with another delivery order (all permutations), and a session in which all orders are reversed: the same signature"), dev, |c| {
        let mut o = Order(BTreeMap::new());
        for round in 1..=4 { for to in ids { let k = c.deviate(factorial(n - 1)); if k > 0 { o.0.insert((round, *to), k); } } }
        if o.0.is_empty() && c.deviate(2) == 1 { for round in 1..=4 { for to in ids { o.0.insert((round, *to), factorial(n - 1) - 1); } } }
        c.label(|| format!("{:?}", o.0)); c.state(&o.0);
        let what = format!("{ids:?} orders {:?}", o.0);
        let Some(net) = sign(c, &s, b"orders", BoxedFormat::Cbor, 9, &mut o, &|| what.clone()) else { return };
        c.check(sig_key(&net) == base, "the order of delivery changes the signature", || what.clone());
    });
}
/// Sessions with the same shares: different nonces, and no session disturbs another one.
fn sessions(r: &mut Runner, len: usize) {
    let tab = sp16::table();
    r.explore("sessions", &format!("sequences of {len} sessions with the same shares (same or other message, shared randomness, stream): all signatures are valid, and a nonce is reused only with the same stream"), |c| {
        let s0 = Sign::<SP16>::of(&[0, 1], 3, Default::default());
        let mut seen: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
        let mut log = vec![];
        for _ in 0..len {
            let (m, sh, st) = (c.choose(2) as u64, c.choose(2), c.choose(3) as u64);
            log.push((m, sh, st));
            let msg = Nat::u(1000 + m);
            let s = Sign::<SP16> { keys: s0.keys.clone(), aux: s0.aux.clone(), msg: message::<SP16>(&msg) };
            let what = || format!("sessions {log:?}");
            let Some(net) = sign(c, &s, &[sh as u8], BoxedFormat::Cbor, 100 + st, &mut Honest, &what) else { return };
            if let Err(e) = model(&tab, &results(&net, &s.ids()), &s.vk(), &msg) { c.fail(&format!("model: {}", first_words(&e)), format!("{}: {e}", what())); }
            let (r, _) = sig_key(&net).expect("done");
            c.check(*seen.entry(r).or_insert(st) == st, "a nonce is used again", what);
        }
        c.state(&log); c.label(|| format!("{log:?}"));
    });
}
/// Inputs that do not belong together are refused before the first message.
fn inputs(r: &mut Runner) {
    let sets: [&[u8]; 4] = [&[0, 1], &[0, 1, 2], &[1, 2], &[0, 2]];
    let keys: Vec<_> = sets.iter().map(|s| KeyShare::<SP16, u8>::new_centralized(&mut DetRng(1), &ids_of(s), None)).collect();
    let aux: Vec<_> = sets.iter().map(|s| AuxInfo::<SP16, u8>::new_centralized(&mut DetRng(1), &ids_of(s))).collect();
    r.explore("inputs", "all combinations of key shares and auxiliary data of four overlapping groups, and of the id the session is started with: accepted exactly when groups and owners agree", |c| {
        let (a, b) = (c.choose(4), c.choose(4));
        let i = *c.pick(sets[a]); let j = *c.pick(sets[b]); let id = c.choose(3) as u8;
        c.label(|| format!("share {i} of {:?}, aux {j} of {:?}, id {id}", sets[a], sets[b])); c.state(&(a, b, i, j, id)); c.ops(1);
        let what = || format!("share {i} of {:?}, auxiliary data {j} of {:?}, id {id}", sets[a], sets[b]);
        let got = quiet(|| crate::InteractiveSigning::<SP16, u8>::new(Default::default(), keys[a][&i].clone(), aux[b][&j].clone()).and_then(|e| manul::protocol::EntryPoint::make_round(e, &mut DetRng(1), b"x", &id).map(|_| ())));
        match got { Err(p) => c.fail("panic", format!("{}: {p}", what())), Ok(g) => { c.check(g.is_ok() == (a == b && i == j && id == i), "inputs", || format!("{}: accepted {}", what(), g.is_ok())); } }
        c.trace();
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S01");
    let t = r.thorough();
    let big: &[&[u8]] = &SETS;
    inputs(&mut r);
    streams(&mut r, if t { 40000 } else { 5000 }, if t { 6000 } else { 600 });
    boundary!(r, SP16, "16", if t { 16 } else { 4 });
    boundary!(r, TestParams, "32", if t { 16 } else { 3 });
    sources!(r, TestParams, "32", big, if t { 8 } else { 2 });
    orders::<TestParams>(&mut r, "32", &[0, 1, 2], 2);
    orders::<SP16>(&mut r, "16", &[4, 3, 2, 1], 1);
    sessions(&mut r, 2);
    if t { sources!(r, ProductionParams112, "k256", &[&[0, 1]], 1); }
    r.assume("Randomness is a reproducible stream per party; all streams with the given seeds are run.");
    r.finish()
}
