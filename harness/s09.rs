// S09: a key survives any history of its shares.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/tree.rs"] mod tree;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
use big::*; use util::*; use engine::*; use proto::*; use scen::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use ecdsa::{SigningKey, VerifyingKey};
use manul::protocol::BoxedFormat;
use crate::{params::SchemeParams, dev::TestParams, curve::DeriveChildKey, AuxInfo, KeyShare, PrehashedMessage, ThresholdKeyShare};

type P = TestParams;
type C = <P as SchemeParams>::Curve;
type Keys = BTreeMap<u8, KeyShare<P, u8>>;
type Auxs = BTreeMap<u8, AuxInfo<P, u8>>;
type Shares = BTreeMap<u8, ThresholdKeyShare<P, u8>>;

fn words(e: &str) -> String { e.split(|c: char| c.is_ascii_digit() || c == '{').next().unwrap_or("").trim().to_string() }
fn session<S: Scen>(s: &S, tag: &[u8], seed: u64, fmt: Fmt) -> Result<(Net<S::Pr>, u64), String> {
    let mut n = s.start(tag, fmt, seed)?;
    n.run(&mut Honest);
    finished(s, &n).map_err(|e| format!("{}: {e}", s.name()))?;
    let steps = n.steps;
    Ok((n, steps))
}
fn message(x: u64) -> PrehashedMessage<C> { let mut m = PrehashedMessage::<C>::default(); let n = m.len(); m.copy_from_slice(&Nat::u(x).to_be(n)); m }

// ---------------------------------------------------------------- the state of a key
#[derive(Clone)]
enum Form { Additive(Keys), Threshold(Shares, usize) }
#[derive(Clone)]
struct State { form: Form, aux: Auxs, vk: VerifyingKey<C>, steps: u64 }
const ORIGINS: [&str; 4] = ["generated by 2", "generated by 3", "dealt to 3", "dealt 2 of 3 from a given key"];
fn origin(k: usize) -> Result<State, String> {
    let seed = 5 + k as u64;
    let (form, vk, steps) = match k {
        0 | 1 => {
            let s = Init::<P>::of(if k == 0 { &[1, 2] } else { &[1, 2, 3] });
            let (n, steps) = session(&s, b"init", seed, BoxedFormat::Cbor)?;
            let keys: Keys = results(&n, &s.ids()).into_iter().map(|(i, k)| (i, k.clone())).collect();
            let vk = keys[&1].verifying_key();
            (Form::Additive(keys), vk, steps)
        }
        2 => { let keys = KeyShare::new_centralized(&mut DetRng(seed), &ids_of(&[1, 2, 3]), None); let vk = keys[&1].verifying_key(); (Form::Additive(keys), vk, 0) }
        _ => {
            let sk = SigningKey::<C>::from_slice(&Nat::u(0x1234567).to_be(crate::curve::Scalar::<P>::repr_len())).map_err(|e| e.to_string())?;
            (Form::Threshold(ThresholdKeyShare::new_centralized(&mut DetRng(seed), &ids_of(&[1, 2, 3]), 2, Some(&sk)).map_err(|e| e.to_string())?, 2), *sk.verifying_key(), 0)
        }
    };
    Ok(State { form, aux: Auxs::new(), vk, steps })
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Refresh, AuxGen, Store(bool), ToThreshold, Derive(&'static str), Reshare(&'static [u8], usize, bool), ToAdditive(bool) }
const RESHARE: [(&[u8], usize); 4] = [(&[1, 2, 3], 2), (&[2, 3, 4], 3), (&[5, 6], 2), (&[1, 2, 3, 7], 2)];
impl State {
    fn ids(&self) -> Ids { match &self.form { Form::Additive(k) => k.keys().copied().collect(), Form::Threshold(k, _) => k.keys().copied().collect() } }
    fn ops(&self, last: Option<Op>) -> Vec<Op> {
        let mut v = vec![];
        match &self.form {
            Form::Additive(_) => { v.push(Op::Refresh); if last != Some(Op::AuxGen) { v.push(Op::AuxGen) } v.push(Op::ToThreshold); }
            Form::Threshold(k, t) => {
                v.push(Op::Derive("m/0")); v.push(Op::Derive("m/7/2147483647"));
                for (to, nt) in RESHARE { v.push(Op::Reshare(to, nt, false)); }
                if k.len() > *t { v.push(Op::Reshare(RESHARE[0].0, RESHARE[0].1, true)); v.push(Op::ToAdditive(true)); }
                if *t > 1 { v.push(Op::ToAdditive(false)); }
            }
        }
        if !matches!(last, Some(Op::Store(_))) { v.push(Op::Store(false)); v.push(Op::Store(true)); }
        v
    }
    /// The first or the last holders of a quorum.
    fn quorum(&self, last: bool) -> Ids { let Form::Threshold(k, t) = &self.form else { return self.ids() }; if last { k.keys().rev().take(*t).copied().collect() } else { k.keys().take(*t).copied().collect() } }
    fn apply(&self, op: Op, seed: u64) -> Result<State, String> {
        let mut s = self.clone();
        s.steps = 1;
        let ids = self.ids();
        match (op, &self.form) {
            (Op::Refresh, Form::Additive(k)) => {
                let r = Refresh::<P>(ids.clone(), Default::default());
                let (n, steps) = session(&r, b"refresh", seed, BoxedFormat::Cbor)?;
                let res = results(&n, &ids);
                s.form = Form::Additive(k.iter().map(|(i, k)| Ok((*i, k.clone().update(res[i].0.clone()).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?);
                s.aux = res.iter().map(|(i, r)| (*i, r.1.clone())).collect();
                s.steps = steps;
            }
            (Op::AuxGen, Form::Additive(_)) => { let a = Aux::<P>(ids.clone(), Default::default()); let (n, steps) = session(&a, b"aux", seed, BoxedFormat::Json)?; s.aux = results(&n, &ids).into_iter().map(|(i, a)| (i, a.clone())).collect(); s.steps = steps; }
            (Op::ToThreshold, Form::Additive(k)) => s.form = Form::Threshold(k.iter().map(|(i, k)| (*i, ThresholdKeyShare::from_key_share(k))).collect(), k.len()),
            (Op::Derive(p), Form::Threshold(k, t)) => {
                let path: bip32::DerivationPath = p.parse().map_err(|e: bip32::Error| e.to_string())?;
                s.vk = self.vk.derive_verifying_key_bip32(&path).map_err(|e| e.to_string())?;
                s.form = Form::Threshold(k.iter().map(|(i, k)| Ok((*i, k.derive_bip32(&path).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?, *t);
            }
            (Op::Reshare(to, nt, all), Form::Threshold(k, _)) => {
                let r = Reshare { old: k.clone(), quorum: if all { ids } else { self.quorum(true) }, new: ids_of(to), new_threshold: nt };
                let (n, steps) = session(&r, b"reshare", seed, BoxedFormat::Cbor)?;
                s.form = Form::Threshold(results(&n, &r.new).into_iter().map(|(i, k)| (i, k.clone().expect("a share"))).collect(), nt);
                s.aux.clear(); s.steps = steps;
            }
            (Op::ToAdditive(last), Form::Threshold(k, _)) => {
                let q = self.quorum(last);
                s.form = Form::Additive(q.iter().map(|i| Ok((*i, k[i].to_key_share(&q).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?);
                s.aux = self.aux.iter().filter(|(i, _)| q.contains(i)).map(|(i, a)| Ok((*i, a.clone().subset(&q).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()?;
            }
            (Op::Store(text), _) => {
                fn back<T: serde::Serialize + serde::de::DeserializeOwned>(x: &T, text: bool) -> Result<T, String> {
                    let y: T = if text { serde_json::from_str(&serde_json::to_string(x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())? } else { tree::from_cbor(&tree::to_cbor(x)).map_err(|e| format!("{e:?}"))? };
                    if json(&y) == json(x) { Ok(y) } else { Err("storing changes a value".into()) }
                }
                s.form = match &self.form { Form::Additive(k) => Form::Additive(back(k, text)?), Form::Threshold(k, t) => Form::Threshold(back(k, text)?, *t) };
                s.aux = back(&self.aux, text)?;
            }
            _ => return Err("no such operation".into()),
        }
        s.right()?;
        Ok(s)
    }
    fn right(&self) -> Res {
        match &self.form { Form::Additive(k) => shares_right::<P>(k, &self.ids(), Some(&self.vk)), Form::Threshold(k, t) => threshold_right::<P>(k, &self.ids(), *t, &self.vk) }?;
        aux_right::<P>(&self.aux, &self.ids())
    }
    /// The inputs of a signing session of one quorum.
    fn signers(&self, q: &Ids) -> Result<(Keys, Auxs), String> {
        let keys: Keys = match &self.form { Form::Additive(k) => k.clone(), Form::Threshold(k, _) => q.iter().map(|i| Ok((*i, k[i].to_key_share(q).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()? };
        let aux = if self.aux.is_empty() { dealt_aux(q) } else { q.iter().map(|i| Ok((*i, self.aux[i].clone().subset(q).map_err(|e| e.to_string())?))).collect::<Result<_, String>>()? };
        Ok((keys, aux))
    }
    fn quorums(&self) -> Vec<Ids> { match &self.form { Form::Additive(_) => vec![self.ids()], Form::Threshold(_, t) => subsets(&self.ids()).into_iter().filter(|q| q.len() == *t).collect() } }
}
fn dealt_aux(ids: &Ids) -> Auxs {
    static CACHE: Mutex<BTreeMap<Vec<u8>, Auxs>> = Mutex::new(BTreeMap::new());
    let key: Vec<u8> = ids.iter().copied().collect();
    if let Some(a) = CACHE.lock().unwrap().get(&key) { return a.clone() }
    let a = AuxInfo::new_centralized(&mut DetRng(41), ids);
    CACHE.lock().unwrap().insert(key, a.clone());
    a
}
/// Every state is reached once; what can be done next and every quorum's signature follow from it.
fn histories(r: &mut Runner, depth: usize, sign_depth: usize) {
    let cache: Mutex<HashMap<Vec<usize>, Arc<State>>> = Mutex::new(HashMap::new());
    r.explore("histories", &format!("{} origins ({}), all sequences of up to {depth} operations (refresh, new auxiliary data, to threshold shares and back, two derivations, resharing to four groups by the last quorum or everybody, storing in two formats); after up to {sign_depth} operations every quorum signs, after more the first and the last one", ORIGINS.len(), ORIGINS.join(", ")), |c| {
        let o = c.choose(ORIGINS.len());
        let mut key = vec![o];
        let mut names = vec![ORIGINS[o].to_string()];
        let mut at = match cache.lock().unwrap().get(&key).cloned() { Some(s) => Ok(s), None => Err(()) }.or_else(|_| quiet(|| origin(o)).and_then(|x| x).and_then(|s| { s.right()?; Ok(Arc::new(s)) }));
        let mut last = None;
        let mut done = 0;
        loop {
            let s = match at {
                Ok(s) => s,
                Err(e) => { c.fail(&words(&e), format!("{}: {e}", names.join(", "))); return }
            };
            c.state(&key);
            if cache.lock().unwrap().insert(key.clone(), s.clone()).is_none() { c.ops(s.steps) }
            let ops = s.ops(last);
            let k = if done < depth { c.choose(ops.len() + 1) } else { 0 };
            if k == 0 {
                // sign
                let qs = s.quorums();
                let qs: Vec<Ids> = if done <= sign_depth || qs.len() < 3 { qs } else { vec![qs[0].clone(), qs[qs.len() - 1].clone()] };
                for (n, q) in qs.iter().enumerate() {
                    let what = || format!("{}: {q:?} sign", names.join(", "));
                    let r = quiet(|| {
                        let (keys, aux) = s.signers(q)?;
                        let scen = Sign::<P> { keys, aux, msg: message(77 + n as u64) };
                        let (net, steps) = session(&scen, b"sign", 3, BoxedFormat::Cbor)?;
                        signatures_right::<P>(&results(&net, q), &s.vk, &scen.msg)?;
                        Ok(steps)
                    }).and_then(|x: Result<u64, String>| x);
                    match r { Ok(steps) => { c.ops(steps); c.trace() } Err(e) => c.fail(&format!("signing: {}", words(&e)), format!("{}: {e}", what())) }
                }
                c.label(|| names.join(", "));
                return;
            }
            let op = ops[k - 1];
            key.push(k); names.push(format!("{op:?}"));
            let hit = cache.lock().unwrap().get(&key).cloned();
            at = match hit { Some(s) => Ok(s), None => quiet(|| s.apply(op, fp(&key) & 0xffff)).and_then(|x| x).map(Arc::new) };
            last = Some(op); done += 1;
        }
    });
}
/// Shares and auxiliary data of different epochs in one session: no wrong signature, no crash.
fn epochs(r: &mut Runner, ids: &[u8], seeds: usize) {
    let all = ids_of(ids);
    r.explore(&format!("epochs-{}", ids.len()), &format!("{} parties, each with the shares and the auxiliary data of before or after a refresh (all combinations), {seeds} streams: a signature exactly if all are of one epoch, otherwise none and no crash", ids.len()), |c| {
        let seed = c.choose(seeds) as u64;
        let s0 = State { form: Form::Additive(KeyShare::new_centralized(&mut DetRng(60 + seed), &all, None)), aux: dealt_aux(&all), vk: KeyShare::<P, u8>::new_centralized(&mut DetRng(60 + seed), &all, None)[&ids[0]].verifying_key(), steps: 0 };
        let s1 = match quiet(|| s0.apply(Op::Refresh, seed)).and_then(|x| x) { Ok(s) => s, Err(e) => return c.fail(&words(&e), e) };
        let (mut keys, mut aux, mut plan) = (Keys::new(), Auxs::new(), vec![]);
        for i in ids {
            let (a, b) = (c.choose(2), c.choose(2));
            let get = |n: usize| if n == 0 { &s0 } else { &s1 };
            let (Form::Additive(k), Form::Additive(_)) = (&get(a).form, &get(b).form) else { return };
            keys.insert(*i, k[i].clone()); aux.insert(*i, get(b).aux[i].clone()); plan.push((a, b));
        }
        c.label(|| format!("{plan:?} stream {seed}")); c.state(&(&plan, seed));
        let what = || format!("{ids:?} (epochs of shares and auxiliary data): {plan:?}, stream {seed}");
        let msg = message(5);
        let s = Sign::<P> { keys, aux, msg: msg.clone() };
        let mut net = match s.start(b"epochs", BoxedFormat::Cbor, seed) { Ok(n) => n, Err(e) => return c.fail("the session does not start", format!("{}: {e}", what())) };
        net.run(&mut Honest);
        c.ops(net.steps); c.trace();
        let done = results(&net, &all);
        let same = plan.iter().all(|p| *p == plan[0]);
        if same { c.check(done.len() == ids.len(), "no signature within an epoch", || format!("{}: {}", what(), net.describe())); }
        else { c.check(done.is_empty(), "a signature across epochs", || format!("{}: {}", what(), net.describe())); }
        if let Err(e) = signatures_right::<P>(&done, &s0.vk, &msg) { c.fail(&words(&e), format!("{}: {e}", what())); }
        for (i, n) in &net.nodes { if let St::Panic(p) = &n.st { c.fail("a crash across epochs", format!("{}: {i}: {p}", what())); } }
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S09");
    let t = r.thorough();
    epochs(&mut r, &[0, 1], if t { 20 } else { 4 });
    epochs(&mut r, &[0, 1, 2], if t { 6 } else { 1 });
    histories(&mut r, if t { 4 } else { 3 }, if t { 3 } else { 2 });
    r.assume("Randomness is a reproducible stream per party and operation.");
    r.finish()
}
