// S06: nobody can be framed: no accusation against an honest participant is accepted.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/tree.rs"] mod tree;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
#[path = "common/deviate.rs"] mod deviate;
use big::*; use util::*; use engine::*; use sp16::SP16; use proto::*; use scen::*; use deviate::*;
use std::collections::{BTreeMap, BTreeSet};
use manul::protocol::*;
use serde_json::Value;
use crate::{params::SchemeParams, dev::TestParams, InteractiveSigningProtocol};

const SHARED: &[u8] = b"session";
const STRANGER: u8 = 99;
type Errs<E> = Vec<(String, Why<E>)>;
/// Everything one can say about a message.
fn accusations<S: Scen>(s: &S, ys: &[Value]) -> Errs<<S::Pr as Protocol<u8>>::ProtocolError> where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug + Sync + serde::de::DeserializeOwned {
    let mut ids: Vec<u8> = s.ids().into_iter().collect(); ids.push(STRANGER);
    let mut out: Errs<_> = all_errors::<<S::Pr as Protocol<u8>>::ProtocolError>(&ids, &|f| if f == "y" { ys.to_vec() } else { vec![] }).into_iter().map(|(n, e)| (n, Why::Protocol(e))).collect();
    assert!(!out.is_empty(), "no errors");
    out.extend([("invalid direct message".to_string(), Why::BadDm), ("invalid echo broadcast".to_string(), Why::BadEb), ("invalid normal broadcast".to_string(), Why::BadNb)]);
    out
}
/// The kind of an accusation; one that uses what another recipient would have to reveal is a kind of its own.
fn name_of(n: &str, by: u8) -> String {
    let (kind, v) = match n.split_once(" {") { Some((k, v)) => (k, serde_json::from_str::<Value>(&format!("{{{v}")).unwrap_or_default()), None => (n, Value::Null) };
    let other = v.get("y").is_some() && v.get("reported_by").and_then(|x| x.as_u64()).is_some_and(|x| x != by as u64);
    if other { format!("{kind} with the revealed key of another recipient") } else { kind.into() }
}
/// Judges every accusation of every party that behaved, over every message it sent (and, with `last`, only of that round).
fn frame<S: Scen>(s: &S, net: &Net<S::Pr>, errs: &Errs<<S::Pr as Protocol<u8>>::ProtocolError>, of: u8, round: u8, by: u8, i: usize) -> Result<bool, String> {
    // there is no such message
    if matches!(errs[i].1, Why::BadDm) && !net.hist.get(&(round, of)).is_some_and(|m| m.dms.contains_key(&by)) { return Ok(false) }
    match net.judge(of, round, by, &errs[i].1, &s.data()) { Verdict::Guilty => Ok(true), Verdict::Refused(_) => Ok(false), Verdict::Panic(p) => Err(p) }
}
fn honest<S: Scen>(r: &mut Runner, name: &str, s: &S, ys: &[Value], seeds: u64) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug + Sync + serde::de::DeserializeOwned, Net<S::Pr>: Sync {
    if !r.active(name) { return }
    let nets: Vec<Net<S::Pr>> = (0..seeds).map(|seed| { let mut n = s.start(SHARED, if seed % 2 == 0 { BoxedFormat::Cbor } else { BoxedFormat::Json }, seed).expect("start"); n.run(&mut Honest); n }).collect();
    let errs = accusations(s, ys);
    let ids: Vec<u8> = s.ids().into_iter().collect();
    let rounds: Vec<u8> = nets[0].hist.keys().map(|(r, _)| *r).collect::<BTreeSet<_>>().into_iter().collect();
    r.explore(name, &format!("{}: every one of {} accusations over every message of every party, as received by any party (and by a stranger), {seeds} streams", s.name(), errs.len()), |c| {
        let net = c.pick(&nets); let of = *c.pick(&ids); let round = *c.pick(&rounds);
        let mut all = ids.clone(); all.push(STRANGER);
        let by = *c.pick(&all); let i = c.choose(errs.len());
        c.label(|| format!("{of} accused by {by} of {} in round {round}", errs[i].0));
        c.state(&(net.hist.get(&(1, of)).map(|m| format!("{:?}", m.eb)), of, round, by, i)); c.trace(); c.ops(1);
        if i == 0 && by == STRANGER { c.check(net.nodes.values().all(|n| matches!(n.st, St::Done(_))), "honest parties do not finish", || net.describe()); }
        match frame(s, net, &errs, of, round, by, i) {
            Ok(ok) => { c.check(!ok, &format!("an honest party is convicted: {}", name_of(&errs[i].0, by)), || format!("{of} by {by} in round {round}: {}", errs[i].0)); }
            Err(p) => c.fail(&format!("panic judging {}", name_of(&errs[i].0, by)), p),
        }
    });
}
/// The errors of nodes in a run in which `who` deviates, and everything said about the others.
fn framing<S: Scen>(r: &mut Runner, name: &str, s: &S, who: u8, rounds: &[u8], pre: Pre, inb: Inb, ys: &[Value]) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug + Sync + serde::de::DeserializeOwned, Net<S::Pr>: Sync {
    if !r.active(name) { return }
    let bad: Ids = [who].into();
    let adv = |case| Change { who, case, bad: &bad, prelude: pre, inbound: inb };
    let errs = accusations(s, ys);
    let base = { let mut n = s.start(SHARED, BoxedFormat::Cbor, 3).expect("start"); n.run(&mut adv(None)); n };
    let bases: BTreeMap<u8, (Net<S::Pr>, Sent)> = rounds.iter().map(|i| { let mut n = s.start(SHARED, BoxedFormat::Cbor, 3).expect("start"); let m = n.until(*i, &mut adv(None)).expect("the round is reached"); (*i, (n, m)) }).collect();
    let mut all: Vec<Option<Case>> = vec![None];
    // what some honest party does not object to at once
    all.extend(cases(&base.hist, who, Family::Semantic, rounds).into_iter().map(Some));
    let ids: Vec<u8> = s.ids().into_iter().filter(|i| *i != who).collect();
    r.explore(name, &format!("{}: party {who} deviates by each of {} changes of its messages of rounds {rounds:?}; where the others go on, every accusation over every message of theirs", s.name(), all.len()), |c| {
        let case = c.pick(&all).as_ref();
        let what = case.map_or("unchanged".to_string(), |case| format!("round {} {:?}{}: {}", case.round, case.part, case.only.map(|d| format!(" to {d} only")).unwrap_or_default(), case.label));
        c.label(|| what.clone());
        if let Some(case) = case { let (net, sent) = &bases[&case.round]; if objections(net, sent, &|_| false, who, case, &bad, &s.data(), false).is_some() { c.ops(net.steps + 2); c.state(&(case.round, &case.new, 0)); return } }
        let mut net = match s.start(SHARED, BoxedFormat::Cbor, 3) { Ok(n) => n, Err(e) => return c.fail("the run does not start", e) };
        net.run(&mut adv(case));
        c.ops(net.steps); c.trace();
        for (id, n) in &net.nodes { if let St::Stopped(accs) = &n.st { for a in accs {
            if *id != who { c.check(a.of == who, &format!("honest party accused: {}", a.kind()), || format!("{what}: {id} accuses {} in round {}", a.of, a.round)); }
            // the deviating party's own view is as good as any
            else if let Verdict::Guilty = net.judge(a.of, a.round, *id, &a.why, &s.data()) { c.fail(&format!("an honest party is convicted: {}", a.kind()), format!("{what}: {} by the deviating party in round {}", a.of, a.round)); }
        } } }
        let mut n = 0u64;
        for ((round, of), _) in net.hist.iter().filter(|(k, _)| ids.contains(&k.1)) { for by in s.ids() { for i in 0..errs.len() {
            // the parts that only the recipient sees matter for those accusations only that need them
            let direct = net.hist[&(*round, *of)].dms.get(&by).is_some_and(|d| d.0.is_some()) || net.hist[&(*round, *of)].nb_for.contains_key(&by);
            if by != who && !direct { continue }
            n += 1;
            match frame(s, &net, &errs, *of, *round, by, i) {
                Ok(ok) => { c.check(!ok, &format!("an honest party is convicted: {}", name_of(&errs[i].0, by)), || format!("{what}: {of} by {by} in round {round}: {}", errs[i].0)); }
                Err(p) => c.fail(&format!("panic judging {}", name_of(&errs[i].0, by)), p),
            }
        } } }
        c.ops(n); c.state(&(case.map(|c| (c.round, &c.new)), n));
    });
}
/// What the parties of a key refresh can reveal as the key of the share that somebody sent them.
fn revealed(s: &Refresh<TestParams>, seed: u64) -> Vec<Value> {
    let mut out = vec![];
    fn find(v: &Value, out: &mut Vec<Value>) { match v { Value::Object(m) => for (k, x) in m { if k == "y" { if !out.contains(x) { out.push(x.clone()) } } else { find(x, out) } }, Value::Array(a) => for x in a { find(x, out) }, _ => {} } }
    let mut net = s.start(SHARED, BoxedFormat::Cbor, seed).expect("start");
    let Some(sent) = net.until(3, &mut Honest) else { return out };
    for i in s.ids() { for j in s.ids() { if i != j {
        for case in cases(&net.hist, j, Family::Semantic, &[3]).iter().filter(|c| c.part == Part::Dm(i)) {
            let mut m = sent.msgs[&j].clone(); case.apply(&mut m);
            let Err(Why::Protocol(e)) = net.receive(i, j, m.to(i)) else { continue };
            if variant(&format!("{e:?}")) != "R3ShareChangeMismatch" { continue }
            let n = out.len(); find(&serde_json::to_value(e).expect("serializable"), &mut out);
            if out.len() > n { break }
        }
    } } }
    out
}
fn signing<P: SchemeParams>(r: &mut Runner, name: &str, ids: &[u8], who: &[u8], seeds: u64) where ecdsa::SignatureSize<P::Curve>: elliptic_curve::generic_array::ArrayLength<u8>, Net<InteractiveSigningProtocol<P, u8>>: Sync, <InteractiveSigningProtocol<P, u8> as Protocol<u8>>::ProtocolError: serde::de::DeserializeOwned {
    let sign = Sign::<P>::of(ids, 1, Default::default());
    honest(r, &format!("{name}-honest"), &sign, &[], seeds);
    for who in who {
        framing(r, &format!("{name}-by-{who}"), &sign, *who, &[1, 2, 3, 4], None, None, &[]);
        for (n, delta) in [(5, true), (6, false)] {
            let witness = *ids.iter().find(|i| *i != who).unwrap();
            let (pre, inb) = wrong_sum(delta, *who, witness);
            framing(r, &format!("{name}-by-{who}-round-{n}"), &sign, *who, if r.thorough() { if n == 5 { &[1, 2, 3, 5] } else { &[1, 2, 3, 6] } } else { &[] }, Some(&pre), Some(&inb), &[]);
        }
    }
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S06");
    let t = r.thorough();
    type P = TestParams;
    let seeds = if t { 12 } else { 3 };
    honest(&mut r, "key-init-honest", &Init::<P>::of(&[0, 1, 2]), &[], seeds);
    honest(&mut r, "aux-gen-honest", &Aux::<P>::of(&[0, 1, 2]), &[], seeds);
    let refresh = Refresh::<P>::of(&[0, 1, 2]);
    let mut ys = vec![]; for s in 0..seeds { ys.extend(revealed(&refresh, s)); }
    let ys3 = revealed(&refresh, 3);
    if r.active("key-refresh-honest") { assert!(ys.len() as u64 >= 6 * seeds && ys3.len() >= 6, "revealed keys: {} {}", ys.len(), ys3.len()); }
    honest(&mut r, "key-refresh-honest", &refresh, &ys, seeds);
    honest(&mut r, "key-init-honest-2", &Init::<P>::of(&[3, 7]), &[], seeds);
    honest(&mut r, "aux-gen-honest-2", &Aux::<P>::of(&[3, 7]), &[], seeds);
    honest(&mut r, "key-refresh-honest-2", &Refresh::<P>::of(&[3, 7]), &revealed(&Refresh::<P>::of(&[3, 7]), 0), 1);
    let who: &[u8] = &[0, 1, 2];
    for w in who {
        framing(&mut r, &format!("key-init-by-{w}"), &Init::<P>::of(&[0, 1, 2]), *w, &[1, 2, 3], None, None, &[]);
        framing(&mut r, &format!("aux-gen-by-{w}"), &Aux::<P>::of(&[0, 1, 2]), *w, &[1, 2, 3], None, None, &[]);
        framing(&mut r, &format!("key-refresh-by-{w}"), &refresh, *w, &[1, 2, 3], None, None, &ys3);
    }
    signing::<P>(&mut r, "signing", &[0, 1, 2], who, seeds);
    signing::<P>(&mut r, "signing-2", &[3, 7], &[7], seeds);
    if t { signing::<P>(&mut r, "signing-4", &[1, 2, 3, 4], &[2], seeds); honest(&mut r, "aux-gen-honest-4", &Aux::<P>::of(&[1, 2, 3, 4]), &[], seeds); honest(&mut r, "key-refresh-honest-4", &Refresh::<P>::of(&[1, 2, 3, 4]), &[], seeds); }
    r.assume("Evidence consists of messages that the accused party signed in this session and of the echoed broadcasts, all of them authentic.");
    r.assume("Accusation parameters: all ids of the session and one stranger; revealed keys are those that the parties really used, for every pair.");
    r.finish()
}
