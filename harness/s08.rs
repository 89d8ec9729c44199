// S08: messages are bound to their session, sender and parameters.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/tree.rs"] mod tree;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
#[path = "common/deviate.rs"] mod deviate;
use big::*; use util::*; use engine::*; use sp16::SP16; use proto::*; use scen::*; use deviate::*;
use std::collections::{BTreeMap, BTreeSet};
use manul::protocol::*;
use tree::Value;
use crate::{params::SchemeParams, dev::TestParams, AuxInfo, KeyShare, InteractiveSigningProtocol, PrehashedMessage};

const SHARED: &[u8] = b"session";
/// The entries of a message part: its fields, and the elements of those that are maps by party.
fn entries(b: &Option<Vec<u8>>) -> Vec<Vec<usize>> {
    let Some(t) = b.as_ref().and_then(|b| tree::from_cbor::<Value>(b).ok()) else { return vec![] };
    let Value::Map(m) = &t else { return vec![vec![]] };
    let mut out = vec![];
    for (i, (_, v)) in m.iter().enumerate() { match v {
        Value::Array(a) if !a.is_empty() && a.iter().all(|p| matches!(p, Value::Array(p) if p.len() == 2 && matches!(p[0], Value::Integer(_)))) => for j in 0..a.len() { out.push(vec![i, j, 1]) },
        _ => out.push(vec![i]),
    } }
    out
}
fn tree_of(b: &Option<Vec<u8>>) -> Option<Value> { b.as_ref().and_then(|b| tree::from_cbor(b).ok()) }
/// The entries of a part that differ in another version of it.
fn differing(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> Vec<Vec<usize>> {
    let (Some(x), Some(y)) = (tree_of(a), tree_of(b)) else { return vec![] };
    entries(a).into_iter().filter(|p| try_get(&y, p).is_none_or(|v| v != tree::get(&x, p))).collect()
}
/// A replacement: in the given round (or all of them), the given part (or all), the given entry (or all).
struct Replay<'a> { who: u8, round: Option<u8>, part: Option<Part>, entry: Option<Vec<usize>>, from: u8, other: Option<&'a Hist>, used: bool }
impl Meddle for Replay<'_> {
    fn outgoing(&mut self, round: u8, from: u8, m: &mut Msg, all: &BTreeMap<u8, Msg>) {
        if from != self.who || self.round.is_some_and(|r| r != round) { return }
        let Some(o) = (match self.other { Some(h) => h.get(&(round, self.from)), None => all.get(&self.from) }) else { return };
        let before = m.clone();
        // the messages to one recipient replace those to the same one (or to the one that it is instead of)
        let dm = |d: u8| o.dms.get(&d).or_else(|| o.dms.get(&self.who)).cloned();
        match (self.part, &self.entry) {
            (Some(p), Some(e)) => { let b = match p { Part::Dm(d) => dm(d).and_then(|d| d.0), p => o.part(p).clone() }; if let (Some(x), Some(v)) = (tree_of(m.part(p)), tree_of(&b).and_then(|t| try_get(&t, e).cloned())) { *m.part_mut(p) = Some(tree::to_cbor(&tree::set(&x, e, v))) } }
            (Some(Part::Dm(d)), None) => { if let (true, Some(x)) = (m.dms.contains_key(&d), dm(d)) { m.dms.insert(d, x); } }
            (Some(p), None) => *m.part_mut(p) = o.part(p).clone(),
            (None, _) => { m.eb = o.eb.clone(); m.nb = o.nb.clone(); for d in m.dms.keys().copied().collect::<Vec<_>>() { if let Some(x) = dm(d) { m.dms.insert(d, x); } } }
        }
        self.used |= *m != before;
    }
}
fn noticed<S: Scen>(c: &mut Ctl, s: &S, net: &Net<S::Pr>, who: u8, used: bool, what: &str) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug {
    c.ops(net.steps); c.trace();
    if !used { return }
    let o = outcome(s, net, &[who].into(), &s.data(), false);
    c.state(&(what.to_string(), o.kinds));
    let any = !o.problems.is_empty();
    for (k, w) in o.problems { c.fail(&k, format!("{what}: {w} ({})", net.describe())); }
    if !any { let quit = !matches!(net.nodes[&who].st, St::Done(_) | St::Running); c.check(o.accused || quit && !net.nodes.values().any(|n| matches!(n.st, St::Done(_))), "a message from elsewhere is accepted", || format!("{what}: {}", net.describe())); }
}
fn start<S: Scen>(s: &S, shared: &[u8], seed: u64) -> Net<S::Pr> { let mut n = s.start(shared, BoxedFormat::Cbor, seed).expect("start"); n.run(&mut Honest); n }
/// Every entry of every message in turn from a run with the same random numbers in which only one thing was different,
/// and the number of entries that depend on that thing (per round and kind of part, for each party).
fn bound<S: Scen, T: Scen<Pr = S::Pr>>(r: &mut Runner, name: &str, what: &str, s: &S, t: &T, other: &[u8], expected: &[[usize; 3]]) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug, Net<S::Pr>: Sync {
    if !r.active(name) { return }
    let (a, b) = (start(s, SHARED, 7), start(t, other, 7));
    let mut all: Vec<(u8, u8, Part, Option<Vec<usize>>)> = vec![];
    let mut counts: BTreeMap<(u8, u8), [usize; 3]> = BTreeMap::new();
    for ((round, who), m) in &a.hist {
        let Some(o) = b.hist.get(&(*round, *who)) else { continue };
        let n = counts.entry((*who, *round)).or_default();
        for (k, p) in [Part::Eb, Part::Nb].into_iter().chain(m.dms.keys().map(|d| Part::Dm(*d))).enumerate() {
            if matches!(p, Part::Dm(d) if !o.dms.contains_key(&d)) || m.part(p) == o.part(p) { continue }
            let d = differing(m.part(p), o.part(p));
            n[k.min(2)] += d.len();
            all.push((*round, *who, p, None));
            for e in d { all.push((*round, *who, p, Some(e))); }
        }
    }
    let whos: Vec<u8> = s.ids().into_iter().filter(|w| t.ids().contains(w)).collect();
    if std::env::var("S_DEBUG").is_ok() { for w in &whos { println!("{name}: party {w}: {:?}", (1..=4).filter_map(|r| counts.get(&(*w, r))).collect::<Vec<_>>()); } }
    r.explore(&format!("{name}-entries"), &format!("{}: for each party and round, the number of message entries that depend on {what}", s.name()), |c| {
        let who = *c.pick(&whos); let round = 1 + c.choose(expected.len()) as u8;
        let n = counts.get(&(who, round)).copied().unwrap_or_default();
        c.label(|| format!("{who}, round {round}")); c.state(&(who, round, n)); c.ops(1);
        c.check((0..3).all(|i| n[i] >= expected[round as usize - 1][i]), &format!("round {round}: fewer entries depend on {what}"), || format!("party {who}, round {round}: {n:?} entries of the echo broadcast, the normal broadcast and the direct messages depend on {what}, not {:?}", expected[round as usize - 1]));
    });
    r.explore(name, &format!("{}: each of {} parts and entries that depend on {what}, from a run that was different in that only", s.name(), all.len()), |c| {
        let (round, who, part, entry) = c.pick(&all).clone();
        let what = format!("round {round} of {who}, {part:?} {}", entry.as_ref().map(|e| tree::name(&tree_of(a.hist[&(round, who)].part(part)).unwrap_or(Value::Null), e)).unwrap_or_default());
        c.label(|| what.clone());
        let mut net = match s.start(SHARED, BoxedFormat::Cbor, 7) { Ok(n) => n, Err(e) => return c.fail("the run does not start", e) };
        let mut adv = Replay { who, round: Some(round), part: Some(part), entry, from: who, other: Some(&b.hist), used: false };
        net.run(&mut adv);
        noticed(c, s, &net, who, adv.used, &what);
    });
}
/// Parts, rounds and whole runs of one party from another run of any party, or of another party of the same run.
fn stolen<S: Scen>(r: &mut Runner, name: &str, s: &S, others: &[(&str, Hist)]) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug, Net<S::Pr>: Sync {
    if !r.active(name) { return }
    let ids: Vec<u8> = s.ids().into_iter().collect();
    let rounds: Vec<u8> = start(s, SHARED, 7).hist.keys().map(|k| k.0).collect::<BTreeSet<_>>().into_iter().collect();
    let kinds: Vec<(String, Option<&Hist>)> = others.iter().map(|(n, h)| (n.to_string(), Some(h))).chain([("the same session".to_string(), None)]).collect();
    let mut spans: Vec<(Option<u8>, Option<u8>)> = vec![(None, None)];
    for r in &rounds { spans.push((Some(*r), None)); for p in 0..3 { spans.push((Some(*r), Some(p))); } }
    r.explore(name, &format!("{}: a part, a round or everything that one party sends is that of any party of {:?}", s.name(), kinds.iter().map(|k| &k.0).collect::<Vec<_>>()), |c| {
        let who = *c.pick(&ids); let (kind, other) = c.pick(&kinds); let from = *c.pick(&ids); let (round, part) = *c.pick(&spans);
        if other.is_none() && from == who { return }
        let dest = *ids.iter().find(|i| **i != who).expect("another");
        let part = part.map(|p| [Part::Eb, Part::Nb, Part::Dm(dest)][p as usize]);
        let what = format!("{who} sends {} of {from} in {kind}", match (round, part) { (None, _) => "everything".to_string(), (Some(r), None) => format!("round {r}"), (Some(r), Some(p)) => format!("{p:?} of round {r}") });
        c.label(|| what.clone());
        let mut net = match s.start(SHARED, BoxedFormat::Cbor, 7) { Ok(n) => n, Err(e) => return c.fail("the run does not start", e) };
        let mut adv = Replay { who, round, part, entry: None, from, other: *other, used: false };
        net.run(&mut adv);
        noticed(c, s, &net, who, adv.used, &what);
    });
}
/// Two parties exchange their random numbers (and so everything they choose): what still differs is bound to the sender.
fn senders<S: Scen>(r: &mut Runner, name: &str, s: &S, x: u8, y: u8, expected: &[[usize; 3]]) where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug, Net<S::Pr>: Sync {
    if !r.active(name) { return }
    let a = start(s, SHARED, 7);
    let b = start(s, SHARED, exchanged(7, x, y));
    let mut counts = vec![];
    for round in 1..=expected.len() as u8 {
        let (Some(m), Some(o)) = (a.hist.get(&(round, x)), b.hist.get(&(round, y))) else { continue };
        let mut n = [differing(&m.eb.0, &o.eb.0).len(), differing(&m.nb.0, &o.nb.0).len(), 0];
        for (d, dm) in &m.dms { n[2] += differing(&dm.0, &o.dms.get(d).or_else(|| o.dms.get(&x)).and_then(|d| d.0.clone())).len(); }
        counts.push(n);
    }
    if std::env::var("S_DEBUG").is_ok() { println!("{name}: {counts:?}"); }
    r.explore(name, &format!("{}: with the random numbers of {x} and {y} exchanged, the entries of each round that depend on the sender", s.name()), |c| {
        let i = c.choose(expected.len());
        c.label(|| format!("round {}", i + 1)); c.state(&(i, &counts)); c.ops(1); c.trace();
        let n = counts.get(i).copied().unwrap_or_default();
        c.check((0..3).all(|k| n[k] >= expected[i][k]), &format!("round {}: fewer entries depend on the sender", i + 1), || format!("{n:?}, not {:?}", expected[i]));
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S08");
    type P = TestParams;
    let ids = [0, 1, 2];
    let (init, aux, refresh) = (Init::<P>::of(&ids), Aux::<P>::of(&ids), Refresh::<P>::of(&ids));
    bound(&mut r, "key-init-session", "the session", &init, &init, b"other", &[[1, 0, 0], [0, 0, 0], [0, 1, 0]]);
    bound(&mut r, "aux-gen-session", "the session", &aux, &aux, b"other", &[[1, 0, 0], [0, 1, 0], [0, 1, 2]]);
    bound(&mut r, "key-refresh-session", "the session", &refresh, &refresh, b"other", &[[1, 0, 0], [0, 1, 0], [3, 1, 4]]);
    bound(&mut r, "key-init-parties", "the participants", &init, &Init::<P>::of(&[0, 1, 2, 3]), SHARED, &[[1, 0, 0], [0, 0, 0], [0, 1, 0]]);
    bound(&mut r, "aux-gen-parties", "the participants", &aux, &Aux::<P>::of(&[0, 1, 2, 3]), SHARED, &[[1, 0, 0], [0, 1, 0], [0, 1, 2]]);
    bound(&mut r, "key-refresh-parties", "the participants", &refresh, &Refresh::<P>::of(&[0, 1, 2, 3]), SHARED, &[[1, 0, 0], [1, 8, 0], [3, 1, 4]]);
    for (n, set) in [("last", [0, 1, 3]), ("middle", [0, 2, 7]), ("first", [1, 2, 9])] {
        bound(&mut r, &format!("key-init-members-{n}"), "who the other participants are", &init, &Init::<P>::of(&set), SHARED, &[[1, 0, 0], [0, 0, 0], [0, 1, 0]]);
        bound(&mut r, &format!("aux-gen-members-{n}"), "who the other participants are", &aux, &Aux::<P>::of(&set), SHARED, &[[1, 0, 0], [0, 1, 0], [0, 1, 1]]);
        bound(&mut r, &format!("key-refresh-members-{n}"), "who the other participants are", &refresh, &Refresh::<P>::of(&set), SHARED, &[[1, 0, 0], [0, 1, 0], [0, 1, 1]]);
    }
    for (x, y) in [(0, 1), (1, 2), (0, 2)] {
        senders(&mut r, &format!("key-init-sender-{x}-{y}"), &init, x, y, &[[1, 0, 0], [0, 0, 0], [0, 1, 0]]);
        senders(&mut r, &format!("aux-gen-sender-{x}-{y}"), &aux, x, y, &[[1, 0, 0], [0, 1, 0], [0, 1, 2]]);
        senders(&mut r, &format!("key-refresh-sender-{x}-{y}"), &refresh, x, y, &[[1, 0, 0], [0, 1, 0], [3, 1, 4]]);
    }
    let t = r.thorough();
    let msg = |b: u8| { let mut m = PrehashedMessage::<<P as SchemeParams>::Curve>::default(); m[0] = b; m };
    let sign = Sign::<P>::of(&ids, 1, msg(0));
    bound(&mut r, "signing-session", "the session", &sign, &sign, b"other", &[[0, 0, 4], [0, 5, 0], [0, 1, 0], [0, 0, 0]]);
    bound(&mut r, "signing-message", "the message", &sign, &Sign::<P>::of(&ids, 1, msg(1)), SHARED, &[[0, 0, 0], [0, 0, 0], [0, 0, 0], [0, 1, 0]]);
    let other = Sign::<P>::of(&ids, 5, msg(0));
    let keys = Sign::<P> { keys: other.keys.clone(), aux: sign.aux.clone(), msg: msg(0) };
    let auxs = Sign::<P> { keys: sign.keys.clone(), aux: other.aux.clone(), msg: msg(0) };
    bound(&mut r, "signing-keys", "the key shares", &sign, &keys, SHARED, &[[0, 0, 4], [0, 7, 0], [0, 2, 0], [0, 1, 0]]);
    bound(&mut r, "signing-aux", "the auxiliary data", &sign, &auxs, SHARED, &[[2, 0, 4], [4, 9, 0], [1, 2, 0], [0, 1, 0]]);
    let h = |n: &'static str, net: Hist| (n, net);
    stolen(&mut r, "stolen-key-init", &init, &[h("another session", start(&init, b"other", 7).hist), h("another session with other random numbers", start(&init, b"other", 8).hist), h("a repetition of the session", start(&init, SHARED, 8).hist), h("a session of more parties", start(&Init::<P>::of(&[0, 1, 2, 3]), SHARED, 7).hist)]);
    stolen(&mut r, "stolen-aux-gen", &aux, &[h("another session", start(&aux, b"other", 7).hist), h("another session with other random numbers", start(&aux, b"other", 8).hist), h("a repetition of the session", start(&aux, SHARED, 8).hist), h("a session of more parties", start(&Aux::<P>::of(&[0, 1, 2, 3]), SHARED, 7).hist)]);
    stolen(&mut r, "stolen-key-refresh", &refresh, &[h("another session", start(&refresh, b"other", 7).hist), h("another session with other random numbers", start(&refresh, b"other", 8).hist), h("a repetition of the session", start(&refresh, SHARED, 8).hist), h("a session of more parties", start(&Refresh::<P>::of(&[0, 1, 2, 3]), SHARED, 7).hist)]);
    stolen(&mut r, "stolen-signing", &sign, &[h("another session", start(&sign, b"other", 7).hist), h("another session with other random numbers", start(&sign, b"other", 8).hist), h("a repetition of the session", start(&sign, SHARED, 8).hist), h("a session for another message", start(&Sign::<P>::of(&ids, 1, msg(1)), SHARED, 7).hist), h("a session with another key", start(&keys, SHARED, 7).hist), h("a session with other auxiliary data", start(&auxs, SHARED, 7).hist)]);
    // the error rounds
    for (n, delta) in [(5, true), (6, false)] { for who in ids {
        let (pre, inb) = wrong_sum(delta, who, (who + 1) % 3);
        let bad: Ids = [who].into();
        let run = |s: &Sign<P>, shared: &[u8]| { let mut n = s.start(shared, BoxedFormat::Cbor, 7).expect("start"); n.run(&mut Change { who, case: None, bad: &bad, prelude: Some(&pre), inbound: Some(&inb) }); n.hist };
        let name = format!("signing-round-{n}-{who}");
        if !r.active(&name) { continue }
        let a = run(&sign, SHARED);
        let kinds = [("the session", run(&sign, b"other")), ("the key shares", run(&keys, SHARED)), ("the auxiliary data", run(&auxs, SHARED))];
        r.explore(&name, &format!("{}: in round {n}, caused by {who}, the number of message entries that depend on the session, the key shares or the auxiliary data", sign.name()), |c| {
            let (kind, b) = c.pick(&kinds); let of = *c.pick(&ids);
            c.label(|| format!("{of}: {kind}")); c.ops(1); c.trace();
            let d = match (a.get(&(n, of)), b.get(&(n, of))) { (Some(x), Some(y)) => differing(&x.eb.0, &y.eb.0).len(), _ => return c.fail("the error round is not reached", format!("by {of}")) };
            c.state(&(kind, of, d));
            c.check(d >= 3, &format!("fewer entries depend on {kind}"), || format!("{d} entries of {of}"));
        });
    } }
    if t {
        for seed in 9..19 {
            stolen(&mut r, &format!("stolen-key-init-{seed}"), &init, &[h("another session", start(&init, b"other", seed).hist), h("a repetition of the session", start(&init, SHARED, seed).hist)]);
            stolen(&mut r, &format!("stolen-aux-gen-{seed}"), &aux, &[h("another session", start(&aux, b"other", seed).hist), h("a repetition of the session", start(&aux, SHARED, seed).hist)]);
            stolen(&mut r, &format!("stolen-key-refresh-{seed}"), &refresh, &[h("another session", start(&refresh, b"other", seed).hist), h("a repetition of the session", start(&refresh, SHARED, seed).hist)]);
            stolen(&mut r, &format!("stolen-signing-{seed}"), &sign, &[h("another session", start(&sign, b"other", seed).hist), h("a repetition of the session", start(&sign, SHARED, seed).hist)]);
        }
        let four = [1, 4, 6, 9];
        let (init, aux, refresh, sign) = (Init::<P>::of(&four), Aux::<P>::of(&four), Refresh::<P>::of(&four), Sign::<P>::of(&four, 1, msg(0)));
        stolen(&mut r, "stolen-key-init-4", &init, &[h("another session", start(&init, b"other", 7).hist), h("a repetition of the session", start(&init, SHARED, 8).hist)]);
        stolen(&mut r, "stolen-aux-gen-4", &aux, &[h("another session", start(&aux, b"other", 7).hist), h("a repetition of the session", start(&aux, SHARED, 8).hist)]);
        stolen(&mut r, "stolen-key-refresh-4", &refresh, &[h("another session", start(&refresh, b"other", 7).hist), h("a repetition of the session", start(&refresh, SHARED, 8).hist)]);
        stolen(&mut r, "stolen-signing-4", &sign, &[h("another session", start(&sign, b"other", 7).hist), h("a repetition of the session", start(&sign, SHARED, 8).hist)]);
        bound(&mut r, "signing-session-4", "the session", &sign, &sign, b"other", &[[0, 0, 6], [0, 7, 0], [0, 1, 0], [0, 0, 0]]);
    }
    r.assume("Every message is authentic: it carries its sender, session and round, which the session layer checks; what is replaced here is what the sender puts into it.");
    r.finish()
}
