// S07: no message from a peer crashes or wedges an honest node.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/tree.rs"] mod tree;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
#[path = "common/deviate.rs"] mod deviate;
use big::*; use util::*; use engine::*; use sp16::SP16; use proto::*; use scen::*; use deviate::*;
use std::collections::{BTreeMap, BTreeSet};
use manul::protocol::*;
use crate::{params::SchemeParams, dev::TestParams, InteractiveSigningProtocol, ThresholdKeyShare};

const SHARED: &[u8] = b"session";
/// Which runs: the deviating party, its rounds and the kinds of changes.
struct Plan<'a> { who: u8, rounds: &'a [u8], families: &'a [Family], pre: Pre<'a>, inb: Inb<'a>, fmt: Fmt, judged: bool }
fn plan(who: u8, rounds: &[u8]) -> Plan<'_> { Plan { who, rounds, families: &[Family::Structural], pre: None, inb: None, fmt: BoxedFormat::Cbor, judged: true } }
fn bad_thing(k: &str) -> bool { k.starts_with("panic") || k.starts_with("local error") || k.starts_with("honest party accused") || k == "wrong result" }
fn robust<S: Scen>(r: &mut Runner, name: &str, s: &S, p: Plan) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug, Net<S::Pr>: Sync {
    if !r.active(name) { return }
    let bad: Ids = [p.who].into();
    let adv = |case| Change { who: p.who, case, bad: &bad, prelude: p.pre, inbound: p.inb };
    let base = { let mut n = s.start(SHARED, p.fmt, 4).expect("start"); n.run(&mut adv(None)); n };
    for i in p.rounds { assert!(base.hist.contains_key(&(*i, p.who)), "{name}: round {i} is not reached: {}", base.describe()); }
    let bases: BTreeMap<u8, (Net<S::Pr>, Sent)> = p.rounds.iter().map(|i| { let mut n = s.start(SHARED, p.fmt, 4).expect("start"); let m = n.until(*i, &mut adv(None)).expect("the round is reached"); (*i, (n, m)) }).collect();
    let ends: BTreeSet<(u8, u8)> = base.nodes.iter().flat_map(|(i, n)| if let St::Stopped(a) = &n.st { a.iter().map(|a| (a.round, *i)).collect() } else { vec![] }).collect();
    let mut all = vec![];
    for f in p.families { all.extend(cases(&base.hist, p.who, *f, p.rounds)); }
    r.explore(name, &format!("{}: each of {} malformed or degenerate versions of a part of the messages of party {} in rounds {:?}", s.name(), all.len(), p.who, p.rounds), |c| {
        let case = c.pick(&all);
        let what = format!("round {} {:?}{}: {}", case.round, case.part, case.only.map(|d| format!(" to {d} only")).unwrap_or_default(), case.label);
        c.label(|| what.clone());
        let (net, sent) = &bases[&case.round];
        let state = |k: &BTreeSet<String>| { use std::hash::{Hash, Hasher}; let mut h = std::collections::hash_map::DefaultHasher::new(); (case.round, case.part, &case.new, k).hash(&mut h); h.finish() };
        c.trace();
        // the accused messages are judged as well
        let o = match objections(net, sent, &|to| ends.contains(&(case.round, to)), p.who, case, &bad, &s.data(), p.judged) {
            Some(o) => { c.ops(net.steps + 2); o }
            None => {
                let mut net = match s.start(SHARED, p.fmt, 4) { Ok(n) => n, Err(e) => return c.fail("the run does not start", e) };
                net.run(&mut adv(Some(case)));
                c.ops(net.steps);
                let o = outcome(s, &net, &bad, &s.data(), p.judged);
                let quit = !matches!(net.nodes[&p.who].st, St::Done(_) | St::Running);
                let done = net.nodes.iter().all(|(i, n)| *i == p.who || matches!(n.st, St::Done(_)));
                if !o.accused && !o.problems.iter().any(|(k, _)| bad_thing(k)) { c.check(done || quit, "the run neither finishes nor is anybody accused", || format!("{what}: {}", net.describe())); }
                o
            }
        };
        c.state(&state(&o.kinds));
        for (k, w) in o.problems { if bad_thing(&k) { c.fail(&k, format!("{what}: {w}")) } }
    });
}
/// Third parties that get malformed messages (of the accused or as echoes) with any accusation whatever.
fn judges<S: Scen>(r: &mut Runner, name: &str, s: &S, p: Plan) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug + Sync + serde::de::DeserializeOwned, Net<S::Pr>: Sync {
    if !r.active(name) { return }
    let bad: Ids = [p.who].into();
    let base = { let mut n = s.start(SHARED, p.fmt, 4).expect("start"); n.run(&mut Change { who: p.who, case: None, bad: &bad, prelude: p.pre, inbound: p.inb }); n };
    let ids: Vec<u8> = s.ids().into_iter().collect();
    let y = serde_json::to_value(crate::curve::Scalar::<TestParams>::ONE).expect("serializable");
    let errs: Vec<(String, Why<_>)> = all_errors::<<S::Pr as Protocol<u8>>::ProtocolError>(&ids, &|f| if f == "y" { vec![y.clone()] } else { vec![] }).into_iter().map(|(n, e)| (n, Why::Protocol(e))).chain([("invalid direct message".to_string(), Why::BadDm), ("invalid echo broadcast".to_string(), Why::BadEb), ("invalid normal broadcast".to_string(), Why::BadNb)]).collect();
    let mut all = vec![];
    for f in p.families { all.extend(cases(&base.hist, p.who, *f, p.rounds).into_iter().filter(|c| c.only.is_none())); }
    let rounds: Vec<u8> = base.hist.keys().map(|k| k.0).collect::<BTreeSet<_>>().into_iter().collect();
    r.explore(name, &format!("{}: a third party gets the messages of party {} with each of {} changes (rounds {:?}) and each of {} accusations against each party", s.name(), p.who, all.len(), p.rounds, errs.len()), |c| {
        let case = c.pick(&all);
        let mut hist = base.hist.clone();
        case.apply(hist.get_mut(&(case.round, p.who)).expect("sent"));
        c.label(|| format!("round {} {:?}: {}", case.round, case.part, case.label)); c.state(&(case.round, case.part, &case.new)); c.trace();
        let all: Ids = ids.iter().copied().collect();
        for of in &ids { for round in &rounds {
            // the accused's messages: only the accusations that may look at the changed round
            if *round < case.round { continue }
            let by = match case.part { Part::Dm(d) => d, _ => *ids.iter().find(|i| *i != of).expect("another") };
            if by == *of || *of != p.who && case.part != Part::Eb { continue }
            for (n, why) in &errs {
                c.ops(1);
                if matches!(why, Why::BadDm) && !hist.get(&(*round, *of)).is_some_and(|m| m.dms.contains_key(&by)) { continue }
                match judge::<S::Pr>(&hist, &all, SHARED, p.fmt, *of, *round, by, why, &s.data()) {
                    Verdict::Panic(e) => c.fail(&format!("panic judging {}: {}", n.split(' ').next().unwrap_or(""), e.chars().take(60).collect::<String>()), format!("round {} {:?} {}: against {of} in round {round}: {e}", case.round, case.part, case.label)),
                    _ => {}
                }
            }
        } }
    });
}
fn reshare(t: usize, old: &[u8], quorum: &[u8], nt: usize, new: &[u8]) -> Reshare<TestParams> {
    Reshare { old: ThresholdKeyShare::new_centralized(&mut DetRng(9), &ids_of(old), t, None).expect("shares"), quorum: ids_of(quorum), new: ids_of(new), new_threshold: nt }
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S07");
    let t = r.thorough();
    type P = TestParams;
    let both: &[Family] = &[Family::Structural, Family::Semantic];
    let who: &[u8] = &[0, 1, 2];
    for w in who {
        robust(&mut r, &format!("key-init-{w}"), &Init::<P>::of(&[0, 1, 2]), plan(*w, &[1, 2, 3]));
        robust(&mut r, &format!("aux-gen-{w}"), &Aux::<P>::of(&[0, 1, 2]), plan(*w, &[1, 2, 3]));
        robust(&mut r, &format!("key-refresh-{w}"), &Refresh::<P>::of(&[0, 1, 2]), plan(*w, &[1, 2, 3]));
        let sign = Sign::<P>::of(&[0, 1, 2], 1, Default::default());
        robust(&mut r, &format!("signing-{w}"), &sign, plan(*w, &[1, 2, 3, 4]));
        for (n, delta) in [(5, true), (6, false)] {
            let (pre, inb) = wrong_sum(delta, *w, (*w + 1) % 3);
            robust(&mut r, &format!("signing-{w}-round-{n}"), &sign, Plan { pre: Some(&pre), inb: Some(&inb), ..plan(*w, &[n]) });
        }
        // old and new holders, holders that are both
        for (n, s) in [("all", reshare(2, &[0, 1, 2], &[0, 1, 2], 2, &[0, 1, 2])), ("overlap", reshare(2, &[0, 1, 2], &[0, 1, 2], 3, &[1, 2, 3, 4])), ("apart", reshare(3, &[0, 1, 2], &[0, 1, 2], 1, &[5, 6]))] {
            robust(&mut r, &format!("resharing-{n}-{w}"), &s, Plan { families: both, judged: false, ..plan(*w, &[1]) });
        }
    }
    robust(&mut r, "signing-2-3", &Sign::<P>::of(&[3, 7], 1, Default::default()), plan(3, &[1, 2, 3, 4]));
    robust(&mut r, "resharing-judged", &reshare(2, &[0, 1, 2], &[0, 1, 2], 2, &[0, 1, 2]), Plan { families: both, ..plan(1, &[1]) });
    if t {
        let bytes: &[Family] = &[Family::Bytes];
        robust(&mut r, "key-init-bytes-2", &Init::<P>::of(&[0, 1, 2]), Plan { families: bytes, ..plan(2, &[1, 2, 3]) });
        robust(&mut r, "aux-gen-bytes-2", &Aux::<P>::of(&[0, 1, 2]), Plan { families: bytes, ..plan(2, &[1, 2, 3]) });
        robust(&mut r, "key-refresh-bytes-2", &Refresh::<P>::of(&[0, 1, 2]), Plan { families: bytes, ..plan(2, &[1, 2, 3]) });
        robust(&mut r, "signing-bytes-2", &Sign::<P>::of(&[0, 1, 2], 1, Default::default()), Plan { families: bytes, ..plan(2, &[1, 2, 3, 4]) });
    }
    for w in who {
        judges(&mut r, &format!("judges-key-init-{w}"), &Init::<P>::of(&[0, 1, 2]), Plan { families: both, ..plan(*w, &[1, 2, 3]) });
        judges(&mut r, &format!("judges-aux-gen-{w}"), &Aux::<P>::of(&[0, 1, 2]), Plan { families: both, ..plan(*w, &[1, 2, 3]) });
        judges(&mut r, &format!("judges-key-refresh-{w}"), &Refresh::<P>::of(&[0, 1, 2]), Plan { families: both, ..plan(*w, &[1, 2, 3]) });
        let sign = Sign::<P>::of(&[0, 1, 2], 1, Default::default());
        judges(&mut r, &format!("judges-signing-{w}"), &sign, Plan { families: if t { both } else { &[Family::Structural] }, ..plan(*w, &[1, 2, 3, 4]) });
        if t && *w == 1 { for (n, delta) in [(5, true), (6, false)] {
            let (pre, inb) = wrong_sum(delta, *w, (*w + 1) % 3);
            judges(&mut r, &format!("judges-signing-{w}-round-{n}"), &sign, Plan { pre: Some(&pre), inb: Some(&inb), ..plan(*w, &[n]) });
        } }
    }
    r.assume("The session layer has checked signatures, sender, session and round of a message.");
    r.finish()
}
