// S05: a deviating participant is identified by evidence that third parties accept.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/tree.rs"] mod tree;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
#[path = "common/deviate.rs"] mod deviate;
use big::*; use util::*; use engine::*; use sp16::SP16; use proto::*; use scen::*; use deviate::*;
use std::collections::{BTreeMap, BTreeSet};
use manul::protocol::*;
use crate::{params::SchemeParams, dev::TestParams, AuxInfo, KeyShare, InteractiveSigningProtocol, PrehashedMessage};


const SHARED: &[u8] = b"session";
/// The deviating parties of a scenario: `who` has the cases, the others of `bad` only what `pre` does.
struct Plan<'a> { who: u8, bad: Ids, rounds: &'a [u8], pre: Pre<'a>, inb: Inb<'a>, seed: u64 }
impl<'a> Plan<'a> { fn of(who: u8, rounds: &'a [u8]) -> Self { Plan { who, bad: [who].into(), rounds, pre: None, inb: None, seed: 2 } } }
fn adversary<'a>(p: &'a Plan<'a>, case: Option<&'a Case>) -> Change<'a> { Change { who: p.who, case, bad: &p.bad, prelude: p.pre, inbound: p.inb } }
fn verdict<S: Scen>(c: &mut Ctl, s: &S, net: &Net<S::Pr>, bad: &Ids, what: &str, state: &dyn Fn(&std::collections::BTreeSet<String>) -> u64) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug {
    c.ops(net.steps); c.trace();
    let o = outcome(s, net, bad, &s.data(), true);
    c.state(&state(&o.kinds));
    let any = !o.problems.is_empty();
    for (k, w) in o.problems { c.fail(&k, format!("{what}: {w} ({})", net.describe())); }
    if o.accused || any { return }
    let honest = || net.nodes.iter().filter(|(i, _)| !bad.contains(i));
    let done = honest().all(|(_, n)| matches!(n.st, St::Done(_)));
    // somebody who stopped sending is noticed by a time-out, which is no concern of the protocol
    let quit = bad.iter().any(|b| !matches!(net.nodes[b].st, St::Done(_) | St::Running));
    c.check(done || quit, "nobody is accused and the run does not finish", || format!("{what}: {}", net.describe()));
}
fn hash(x: &impl std::hash::Hash) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut h); h.finish() }
fn deviations<S: Scen>(r: &mut Runner, name: &str, s: &S, p: Plan) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug, S::Pr: Sync, Net<S::Pr>: Sync {
    if !r.active(name) { return }
    let base = { let mut n = s.start(SHARED, BoxedFormat::Cbor, p.seed).expect("start"); n.run(&mut adversary(&p, None)); n };
    for i in p.rounds { assert!(base.hist.contains_key(&(*i, p.who)), "{name}: round {i} is not reached: {}", base.describe()); }
    let ends: BTreeSet<(u8, u8)> = base.nodes.iter().flat_map(|(i, n)| if let St::Stopped(a) = &n.st { a.iter().filter(|a| a.of != p.who).map(|a| (a.round, *i)).collect() } else { vec![] }).collect();
    let mut all: Vec<Option<Case>> = cases(&base.hist, p.who, Family::Semantic, p.rounds).into_iter().map(Some).collect();
    all.push(None);
    if std::env::var("S_DEBUG").is_ok() { println!("{name}: {}", base.describe()); for r in p.rounds { println!("  round {r}: {}", all.iter().flatten().filter(|c| c.round == *r).count()); } }
    let bases: BTreeMap<u8, (Net<S::Pr>, Sent)> = p.rounds.iter().map(|i| { let mut n = s.start(SHARED, BoxedFormat::Cbor, p.seed).expect("start"); let m = n.until(*i, &mut adversary(&p, None)).expect("the round is reached"); (*i, (n, m)) }).collect();
    r.explore(name, &format!("{}: party {} deviates{}; each of {} changes to the leaves, fields and sequences of its messages of rounds {:?}", s.name(), p.who, if p.pre.is_some() { " (and in round 3 as the error rounds need it)" } else { "" }, all.len(), p.rounds), |c| {
        let case = c.pick(&all).as_ref();
        let what = case.map_or("unchanged".to_string(), |case| format!("round {} {:?}{}: {}", case.round, case.part, case.only.map(|d| format!(" to {d} only")).unwrap_or_default(), case.label));
        c.label(|| what.clone());
        let state = |k: &BTreeSet<String>| hash(&(case.map(|c| (c.round, c.part, &c.new)), k));
        if let Some(case) = case {
            let (net, sent) = &bases[&case.round];
            if let Some(o) = objections(net, sent, &|to| ends.contains(&(case.round, to)), p.who, case, &p.bad, &s.data(), true) {
                c.ops(net.steps + 2); c.trace(); c.state(&state(&o.kinds));
                for (k, w) in o.problems { c.fail(&k, format!("{what}: {w}")); }
                // what everybody checks of an error round, except that nobody checks what is about itself
                for to in o.accepted { c.check(!telling(case, &sent.msgs[&p.who], to), "an honest party accepts a changed proof of an error round", || format!("{to}: {what}")); }
                return
            }
        }
        let mut net = match s.start(SHARED, BoxedFormat::Cbor, p.seed) { Ok(n) => n, Err(e) => return c.fail("the run does not start", e) };
        net.run(&mut adversary(&p, case));
        verdict(c, s, &net, &p.bad, &what, &state);
    });
}
/// Parties that run the protocol as it is, but with inputs of their own.
type Other<'a, S> = (&'a str, Box<dyn Fn(u64) -> Result<Net<<S as Scen>::Pr>, String> + Sync + 'a>);
fn impostors<S: Scen>(r: &mut Runner, name: &str, s: &S, who: &[u8], seeds: u64, others: &[Other<S>]) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug, S::Pr: Sync, Net<S::Pr>: Sync {
    r.explore(name, &format!("{}: one party of {who:?} runs the protocol with other inputs ({} kinds), {seeds} streams", s.name(), others.len()), |c| {
        let who = *c.pick(who); let (kind, other) = c.pick(others); let seed = c.choose(seeds as usize) as u64;
        c.label(|| format!("{who}: {kind}, stream {seed}"));
        let mut net = match s.start(SHARED, BoxedFormat::Cbor, seed) { Ok(n) => n, Err(e) => return c.fail("the run does not start", e) };
        // refusing the inputs is fine too
        let mut o = match other(seed) { Ok(o) => o, Err(_) => return c.state(&(who, kind, seed)) };
        let Some(n) = o.nodes.remove(&who) else { return };
        net.nodes.insert(who, n);
        net.run(&mut Honest);
        verdict(c, s, &net, &[who].into(), kind, &|k| hash(&(who, kind, seed, k)));
    });
}
fn signing<P: SchemeParams>(r: &mut Runner, name: &str, ids: &[u8], who: u8, rounds: &[u8]) where ecdsa::SignatureSize<P::Curve>: elliptic_curve::generic_array::ArrayLength<u8>, InteractiveSigningProtocol<P, u8>: Sync, Net<InteractiveSigningProtocol<P, u8>>: Sync {
    let sign = Sign::<P>::of(ids, 1, Default::default());
    deviations(r, &format!("{name}-{who}"), &sign, Plan::of(who, rounds));
    for (n, delta) in [(5, true), (6, false)] {
        let others: Vec<u8> = ids.iter().copied().filter(|i| *i != who).collect();
        let (pre, inb) = wrong_sum(delta, who, others[0]);
        deviations(r, &format!("{name}-{who}-round-{n}"), &sign, Plan { pre: Some(&pre), inb: Some(&inb), ..Plan::of(who, &[n]) });
        if let [other, honest, ..] = others[..] {
            // another one causes the error round
            let (pre, inb) = wrong_sum(delta, other, honest);
            deviations(r, &format!("{name}-{who}-after-{n}"), &sign, Plan { bad: [who, other].into(), pre: Some(&pre), inb: Some(&inb), ..Plan::of(who, &[n]) });
        }
    }
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S05");
    let t = r.thorough();
    type P = TestParams;
    let who: &[u8] = if t { &[0, 1, 2] } else { &[1] };
    for w in who {
        deviations(&mut r, &format!("key-init-{w}"), &Init::<P>::of(&[0, 1, 2]), Plan::of(*w, &[1, 2, 3]));
        deviations(&mut r, &format!("aux-gen-{w}"), &Aux::<P>::of(&[0, 1, 2]), Plan::of(*w, &[1, 2, 3]));
        deviations(&mut r, &format!("key-refresh-{w}"), &Refresh::<P>::of(&[0, 1, 2]), Plan::of(*w, &[1, 2, 3]));
        signing::<P>(&mut r, "signing", &[0, 1, 2], *w, &[1, 2, 3, 4]);
    }
    signing::<P>(&mut r, "signing-2", &[3, 7], 7, if t { &[1, 2, 3, 4] } else { &[3, 4] });
    deviations(&mut r, "key-init-2", &Init::<P>::of(&[3, 7]), Plan::of(3, &[1, 2, 3]));
    // other inputs
    let init = Init::<P>::of(&[0, 1, 2]);
    let seeds = if t { 20 } else { 4 };
    fn of<'a, S: Scen + 'a>(s: S, shared: &'static [u8]) -> Box<dyn Fn(u64) -> Result<Net<S::Pr>, String> + Sync + 'a> { Box::new(move |seed| s.start(shared, BoxedFormat::Cbor, seed)) }
    impostors(&mut r, "impostors-key-init", &init, &[0, 1, 2], seeds, &[("another session", of(Init::<P>::of(&[0, 1, 2]), b"other")), ("fewer parties", of(Init::<P>::of(&[0, 1]), SHARED)), ("more parties", of(Init::<P>::of(&[0, 1, 2, 3]), SHARED)), ("one party replaced", of(Init::<P>::of(&[0, 1, 2, 3]), SHARED))]);
    impostors(&mut r, "impostors-aux-gen", &Aux::<P>::of(&[0, 1, 2]), &[0, 1, 2], seeds, &[("another session", of(Aux::<P>::of(&[0, 1, 2]), b"other")), ("fewer parties", of(Aux::<P>::of(&[0, 1]), SHARED)), ("more parties", of(Aux::<P>::of(&[0, 1, 2, 3]), SHARED))]);
    impostors(&mut r, "impostors-key-refresh", &Refresh::<P>::of(&[0, 1, 2]), &[0, 1, 2], seeds, &[("another session", of(Refresh::<P>::of(&[0, 1, 2]), b"other")), ("fewer parties", of(Refresh::<P>::of(&[0, 1]), SHARED)), ("more parties", of(Refresh::<P>::of(&[0, 1, 2, 3]), SHARED))]);
    let base = || Sign::<P>::of(&[0, 1, 2], 1, Default::default());
    let (other_msg, other_keys, other_aux, all_other) = (Sign::<P>::of(&[0, 1, 2], 1, { let mut m = PrehashedMessage::<<P as SchemeParams>::Curve>::default(); m[0] = 1; m }), { let mut s = base(); s.keys = Sign::<P>::of(&[0, 1, 2], 5, Default::default()).keys; s }, { let mut s = base(); s.aux = Sign::<P>::of(&[0, 1, 2], 5, Default::default()).aux; s }, Sign::<P>::of(&[0, 1, 2], 5, Default::default()));
    // only the secret parts are others: the public data are those of everybody else
    let mix_keys = { let mut s = base(); let o = Sign::<P>::of(&[0, 1, 2], 5, Default::default()); for (i, k) in s.keys.iter_mut() { let (mut t, mut x) = (tree::to_tree(&*k), tree::to_tree(&o.keys[i])); *field(&mut t, "secret") = field(&mut x, "secret").clone(); *k = tree::from_tree(&t).expect("a share"); } s };
    let mix_aux = { let mut s = base(); let o = Sign::<P>::of(&[0, 1, 2], 5, Default::default()); for (i, k) in s.aux.iter_mut() { *k = AuxInfo { owner: *i, secret: o.aux[i].secret.clone(), public: k.public.clone() }; } s };
    impostors(&mut r, "impostors-signing", &base(), &[0, 1, 2], seeds, &[("another session", of(base(), b"other")), ("another message", of(other_msg, SHARED)), ("another key", of(other_keys, SHARED)), ("other auxiliary data", of(other_aux, SHARED)), ("everything different", of(all_other, SHARED)), ("another secret share", of(mix_keys, SHARED)), ("another Paillier key", of(mix_aux, SHARED))]);
    r.assume("Echo broadcasts reach everybody unchanged (the echo round of the session layer); the messages a party sends are signed by it.");
    r.assume("A direct message is not tied to its recipient by the protocol messages themselves.");
    r.finish()
}
