//! Drives the real protocol rounds as a small network: who sends what, who receives it in which order, what an
//! adversary changes on the way, and what a third party says about the resulting accusations.
use std::prelude::v1::*;
use std::collections::{BTreeMap, BTreeSet};
use super::engine::quiet;
use super::util::DetRng;
use rand_core::{CryptoRng, RngCore};
use manul::protocol::*;

pub type Fmt = BoxedFormat;
/// The messages of one node in one round.
#[derive(Clone, Debug, PartialEq)]
pub struct Msg { pub eb: EchoBroadcast, pub nb: NormalBroadcast, pub dms: BTreeMap<u8, DirectMessage>, pub nb_for: BTreeMap<u8, NormalBroadcast> }
impl Msg {
    pub fn to(&self, id: u8) -> ProtocolMessage {
        ProtocolMessage { echo_broadcast: self.eb.clone(), normal_broadcast: self.nb_for.get(&id).unwrap_or(&self.nb).clone(), direct_message: self.dms.get(&id).cloned().unwrap_or_else(DirectMessage::none) }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Part { Eb, Nb, Dm(u8) }
impl Msg {
    pub fn part(&self, p: Part) -> &Option<Vec<u8>> { match p { Part::Eb => &self.eb.0, Part::Nb => &self.nb.0, Part::Dm(d) => &self.dms[&d].0 } }
    pub fn part_mut(&mut self, p: Part) -> &mut Option<Vec<u8>> { match p { Part::Eb => &mut self.eb.0, Part::Nb => &mut self.nb.0, Part::Dm(d) => &mut self.dms.get_mut(&d).expect("destination").0 } }
}

pub enum Why<E> { Protocol(E), BadDm, BadEb, BadNb, Unprovable(String), Local(String), Panic(String) }
pub struct Accusation<E> { pub by: u8, pub of: u8, pub round: u8, pub why: Why<E> }
impl<E: std::fmt::Debug> Accusation<E> {
    pub fn kind(&self) -> String { match &self.why { Why::Protocol(e) => variant(&format!("{e:?}")), Why::BadDm => "invalid direct message".into(), Why::BadEb => "invalid echo broadcast".into(), Why::BadNb => "invalid normal broadcast".into(), Why::Unprovable(s) => format!("unprovable: {s}"), Why::Local(s) => format!("local error: {s}"), Why::Panic(s) => format!("panic: {s}") } }
}
/// The variant name within the debug form of an error.
pub fn variant(d: &str) -> String {
    let d = d.split("error: ").nth(1).unwrap_or(d);
    d.chars().take_while(|c| c.is_alphanumeric()).collect()
}
pub enum St<R, E> { Running, Done(R), Stopped(Vec<Accusation<E>>), Local(String), Panic(String), Stuck }
pub struct Node<Pr: Protocol<u8>> { pub round: Option<BoxedRound<u8, Pr>>, pub st: St<Pr::Result, Pr::ProtocolError>, pub rng: NodeRng }
/// (round, sender) -> messages as sent.
pub type Hist = BTreeMap<(u8, u8), Msg>;
pub struct Net<Pr: Protocol<u8>> { pub nodes: BTreeMap<u8, Node<Pr>>, pub hist: Hist, pub honest_hist: Hist, pub shared: Vec<u8>, pub fmt: Fmt, pub steps: u64 }

/// A round of messages on their way.
pub struct Sent { pub msgs: BTreeMap<u8, Msg>, arts: BTreeMap<u8, BTreeMap<u8, Artifact>>, pub numbers: BTreeMap<u8, u8>, order: Vec<u8> }

/// What the adversary does to a network.
pub trait Meddle {
    /// Changes the messages of `from` as they leave it.
    fn outgoing(&mut self, _round: u8, _from: u8, _m: &mut Msg, _all: &BTreeMap<u8, Msg>) {}
    /// Changes what a node receives (used for the adversary's own nodes only).
    fn incoming(&mut self, _round: u8, _from: u8, _to: u8, _m: &mut ProtocolMessage) {}
    /// The order in which `to` receives the messages of a round.
    fn order(&mut self, _round: u8, _to: u8, _from: &mut Vec<u8>) {}
    fn order_nodes(&mut self, _round: u8, _ids: &mut Vec<u8>) {}
}
pub struct Honest;
impl Meddle for Honest {}

/// The random numbers of a party; with `exchanged` those of two parties are exchanged.
fn stream(seed: u64, id: u8) -> u64 { let (x, y) = ((seed >> 48) as u8, (seed >> 40) as u8); let id = if x != y && id == x { y } else if x != y && id == y { x } else { id }; (seed & 0xff_ffff).wrapping_mul(1000) + id as u64 }
pub fn exchanged(seed: u64, x: u8, y: u8) -> u64 { seed | (x as u64) << 48 | (y as u64) << 40 }
/// The random numbers of a party, how many of them were used, and whose they are.
#[derive(Clone)]
pub struct NodeRng(DetRng, pub u64, u8);
thread_local! { static FLIP: std::cell::Cell<Option<(u8, u64, u64)>> = const { std::cell::Cell::new(None) }; }
impl RngCore for NodeRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { let x = self.0.next_u64(); let i = self.1; self.1 += 1; match FLIP.get() { Some((id, j, mask)) if id == self.2 && i == j => x ^ mask, _ => x } }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for NodeRng {}
/// Runs `f` with one of the random numbers of a party changed.
pub fn with_change<T>(change: Option<(u8, u64, u64)>, f: impl FnOnce() -> T) -> T { struct Reset; impl Drop for Reset { fn drop(&mut self) { FLIP.set(None) } } let _r = Reset; FLIP.set(change); f() }
impl<Pr: Protocol<u8>> Net<Pr> {
    pub fn new<EP: EntryPoint<u8, Protocol = Pr>>(shared: &[u8], fmt: Fmt, seed: u64, eps: BTreeMap<u8, EP>) -> Result<Self, String> {
        let mut nodes = BTreeMap::new();
        for (id, ep) in eps {
            let mut rng = NodeRng(DetRng(stream(seed, id)), 0, id);
            let round = quiet(|| ep.make_round(&mut rng, shared, &id))?.map_err(|e| e.to_string())?;
            nodes.insert(id, Node { round: Some(round), st: St::Running, rng });
        }
        Ok(Net { nodes, hist: Hist::new(), honest_hist: Hist::new(), shared: shared.to_vec(), fmt, steps: 0 })
    }
    pub fn number(&self, id: u8) -> Option<u8> { self.nodes[&id].round.as_ref().map(|r| r.as_ref().transition_info().id.number()) }
    pub fn running(&self) -> Vec<u8> { self.nodes.iter().filter(|(_, n)| matches!(n.st, St::Running)).map(|(i, _)| *i).collect() }
    /// One round of everybody that is still running. Returns false when nobody is.
    pub fn step(&mut self, adv: &mut dyn Meddle) -> bool { match self.send(adv) { None => false, Some(s) => { self.deliver(s, adv); true } } }
    /// What everybody that is still running sends in its round.
    pub fn send(&mut self, adv: &mut dyn Meddle) -> Option<Sent> {
        let ids = self.running();
        if ids.is_empty() { return None; }
        // sending
        let mut msgs: BTreeMap<u8, Msg> = BTreeMap::new();
        let mut arts: BTreeMap<u8, BTreeMap<u8, Artifact>> = BTreeMap::new();
        let mut failed: Vec<u8> = vec![];
        let mut order = ids.clone();
        let first = self.number(ids[0]).unwrap_or(0);
        adv.order_nodes(first, &mut order);
        for id in &order {
            let node = self.nodes.get_mut(id).expect("node");
            let round = node.round.as_ref().expect("running");
            let (fmt, rng) = (self.fmt, &mut node.rng);
            let r = quiet(|| -> Result<(Msg, BTreeMap<u8, Artifact>), LocalError> {
                let r = round.as_ref();
                let eb = r.make_echo_broadcast(rng, &fmt)?;
                let nb = r.make_normal_broadcast(rng, &fmt)?;
                let (mut dms, mut arts) = (BTreeMap::new(), BTreeMap::new());
                for dest in r.communication_info().message_destinations {
                    let (dm, art) = r.make_direct_message(rng, &fmt, &dest)?;
                    dms.insert(dest, dm);
                    if let Some(a) = art { arts.insert(dest, a); }
                }
                Ok((Msg { eb, nb, dms, nb_for: BTreeMap::new() }, arts))
            });
            self.steps += 1;
            match r {
                Ok(Ok((m, a))) => { msgs.insert(*id, m); arts.insert(*id, a); }
                Ok(Err(e)) => { node.st = St::Local(format!("sending: {e}")); failed.push(*id) }
                Err(p) => { node.st = St::Panic(format!("sending: {p}")); failed.push(*id) }
            }
        }
        let numbers: BTreeMap<u8, u8> = msgs.keys().map(|id| (*id, self.number(*id).expect("round"))).collect();
        for (id, m) in &msgs { self.honest_hist.insert((numbers[id], *id), m.clone()); }
        let honest = msgs.clone();
        for (id, m) in msgs.iter_mut() { adv.outgoing(numbers[id], *id, m, &honest); self.hist.insert((numbers[id], *id), m.clone()); }
        Some(Sent { msgs, arts, numbers, order: order.into_iter().filter(|i| !failed.contains(i)).collect() })
    }
    /// Whether `to` accepts a message.
    pub fn receive(&self, to: u8, from: u8, m: ProtocolMessage) -> Result<Payload, Why<Pr::ProtocolError>> {
        let round = self.nodes[&to].round.as_ref().expect("running");
        match quiet(|| round.as_ref().receive_message(&self.fmt, &from, m)) {
            Ok(Ok(p)) => Ok(p),
            Ok(Err(e)) => Err(match e.0 {
                ReceiveErrorType::Protocol(e) => Why::Protocol(e),
                ReceiveErrorType::InvalidDirectMessage(_) => Why::BadDm,
                ReceiveErrorType::InvalidEchoBroadcast(_) => Why::BadEb,
                ReceiveErrorType::InvalidNormalBroadcast(_) => Why::BadNb,
                ReceiveErrorType::Unprovable(e) => Why::Unprovable(e.0),
                ReceiveErrorType::Local(e) => Why::Local(e.to_string()),
                ReceiveErrorType::Phantom(_) => Why::Local("?".into()),
            }),
            Err(p) => Err(Why::Panic(p)),
        }
    }
    /// Delivers a round and finalizes it.
    pub fn deliver(&mut self, sent: Sent, adv: &mut dyn Meddle) {
        let Sent { msgs, mut arts, numbers, order } = sent;
        for id in &order {
            let node = &self.nodes[id];
            let round = node.round.as_ref().expect("running");
            let expecting = round.as_ref().communication_info().expecting_messages_from;
            let mut from: Vec<u8> = expecting.iter().copied().filter(|f| msgs.contains_key(f) && numbers[f] == numbers[id]).collect();
            let missing = from.len() != expecting.len();
            adv.order(numbers[id], *id, &mut from);
            let mut payloads = BTreeMap::new();
            let mut acc = vec![];
            for f in from {
                let mut m = msgs[&f].to(*id);
                adv.incoming(numbers[id], f, *id, &mut m);
                self.steps += 1;
                let why = match self.receive(*id, f, m) { Ok(p) => { payloads.insert(f, p); continue; } Err(w) => w };
                acc.push(Accusation { by: *id, of: f, round: numbers[id], why });
            }
            let node = self.nodes.get_mut(id).expect("node");
            let art = arts.remove(id).unwrap_or_default();
            if !acc.is_empty() { node.st = St::Stopped(acc); node.round = None; continue; }
            if missing { node.st = St::Stuck; node.round = None; continue; }
            let round = node.round.take().expect("running").into_boxed();
            let rng = &mut node.rng;
            self.steps += 1;
            match quiet(|| round.finalize(rng, payloads, art)) {
                Ok(Ok(FinalizeOutcome::AnotherRound(r))) => node.round = Some(r),
                Ok(Ok(FinalizeOutcome::Result(r))) => node.st = St::Done(r),
                Ok(Err(e)) => node.st = St::Local(format!("round {}: {e}", numbers[id])),
                Err(p) => node.st = St::Panic(format!("finalizing round {}: {p}", numbers[id])),
            }
        }
    }
    /// Runs up to (and with) the sending of a round.
    pub fn until(&mut self, round: u8, adv: &mut dyn Meddle) -> Option<Sent> { loop { let s = self.send(adv)?; if s.numbers.values().any(|n| *n == round) { return Some(s) } self.deliver(s, adv); } }
    pub fn run(&mut self, adv: &mut dyn Meddle) { while self.step(adv) {} }
    /// The state in words, for messages.
    pub fn describe(&self) -> String {
        self.nodes.iter().map(|(id, n)| format!("{id}: {}", match &n.st { St::Running => "running".into(), St::Done(_) => "done".into(), St::Stopped(a) => a.iter().map(|a| format!("accuses {} in round {} of {}", a.of, a.round, a.kind())).collect::<Vec<_>>().join(", "), St::Local(e) => format!("local error {e}"), St::Panic(p) => format!("panic {p}"), St::Stuck => "waits".into() })).collect::<Vec<_>>().join("; ")
    }
    /// Everything a third party gets: what of the accused's messages the error asks for, and nothing else.
    pub fn judge(&self, guilty: u8, round: u8, by: u8, why: &Why<Pr::ProtocolError>, data: &<Pr::ProtocolError as ProtocolError<u8>>::AssociatedData) -> Verdict { judge::<Pr>(&self.hist, &self.nodes.keys().copied().collect(), &self.shared, self.fmt, guilty, round, by, why, data) }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Verdict { Guilty, Refused(String), Panic(String) }

pub fn judge<Pr: Protocol<u8>>(hist: &Hist, ids: &BTreeSet<u8>, shared: &[u8], fmt: Fmt, guilty: u8, round: u8, by: u8, why: &Why<Pr::ProtocolError>, data: &<Pr::ProtocolError as ProtocolError<u8>>::AssociatedData) -> Verdict {
    let Some(msg) = hist.get(&(round, guilty)).map(|m| m.to(by)) else { return Verdict::Refused("no such message".into()) };
    let rid = RoundId::new(round);
    let mv = |r: Result<Result<(), MessageValidationError>, String>| match r { Ok(Ok(())) => Verdict::Guilty, Ok(Err(e)) => Verdict::Refused(format!("{e:?}")), Err(p) => Verdict::Panic(p) };
    match why {
        Why::BadDm => mv(quiet(|| Pr::verify_direct_message_is_invalid(&fmt, &rid, &msg.direct_message))),
        Why::BadEb => mv(quiet(|| Pr::verify_echo_broadcast_is_invalid(&fmt, &rid, &msg.echo_broadcast))),
        Why::BadNb => mv(quiet(|| Pr::verify_normal_broadcast_is_invalid(&fmt, &rid, &msg.normal_broadcast))),
        Why::Unprovable(s) | Why::Local(s) => Verdict::Refused(s.clone()),
        Why::Panic(p) => Verdict::Panic(p.clone()),
        Why::Protocol(e) => {
            let req = match quiet(|| e.required_messages()) { Ok(r) => r, Err(p) => return Verdict::Panic(p) };
            let cut = |m: ProtocolMessage, p: RequiredMessageParts| ProtocolMessage {
                echo_broadcast: if p.echo_broadcast { m.echo_broadcast } else { EchoBroadcast::none() },
                normal_broadcast: if p.normal_broadcast { m.normal_broadcast } else { NormalBroadcast::none() },
                direct_message: if p.direct_message { m.direct_message } else { DirectMessage::none() },
            };
            let mut previous = BTreeMap::new();
            for (r, parts) in req.previous_rounds.unwrap_or_default() {
                let Some(m) = hist.get(&(r.number(), guilty)) else { return Verdict::Refused(format!("no message of round {}", r.number())) };
                previous.insert(r, cut(m.to(by), parts));
            }
            let mut echos = BTreeMap::new();
            for r in req.combined_echos.unwrap_or_default() {
                let mut all = BTreeMap::new();
                for id in ids { if *id != guilty { let Some(m) = hist.get(&(r.number(), *id)) else { return Verdict::Refused(format!("no message of round {}", r.number())) }; all.insert(*id, m.eb.clone()); } }
                echos.insert(r, all);
            }
            let (this, shared) = (cut(msg, req.this_round), shared.to_vec());
            match quiet(|| e.verify_messages_constitute_error(&fmt, &guilty, &shared, data, this, previous, echos)) {
                Ok(Ok(())) => Verdict::Guilty,
                Ok(Err(e)) => Verdict::Refused(format!("{e:?}")),
                Err(p) => Verdict::Panic(p),
            }
        }
    }
}

/// All values of an error type that can be written down, found by asking the deserializer what it expects
/// (ids are taken from `ids`, numbers and other fields from `fill`).
pub fn all_errors<E: serde::de::DeserializeOwned + std::fmt::Debug>(ids: &[u8], fill: &dyn Fn(&str) -> Vec<serde_json::Value>) -> Vec<(String, E)> {
    use serde_json::{json, Value};
    let wrap = |v: Value| json!({"error": v, "phantom": null});
    let attempt = |v: Value| -> Result<E, String> { serde_json::from_value::<E>(v).map_err(|e| e.to_string()) };
    let mut out = vec![];
    // either a wrapper around an enum, or the enum itself
    for f in [&wrap as &dyn Fn(Value) -> Value, &|v| v] {
        let msg = match attempt(f(json!("?"))) { Err(m) => m, Ok(_) => continue };
        let Some(list) = msg.split("expected").nth(1).filter(|_| msg.contains("unknown variant")) else { continue };
        for name in list.split('`').skip(1).step_by(2) {
            if let Ok(e) = attempt(f(json!(name))) { out.push((name.to_string(), e)); continue; }
            // a struct variant: learn its fields one by one
            let mut fields: Vec<String> = vec![];
            let mut values: Vec<serde_json::Map<String, Value>> = vec![serde_json::Map::new()];
            for _ in 0..8 {
                let m = match attempt(f(json!({name: Value::Object(values[0].clone())}))) { Ok(_) => break, Err(m) => m };
                let Some(field) = m.split("missing field `").nth(1).and_then(|x| x.split('`').next()).map(|x| x.to_string()) else { break };
                let vals: Vec<Value> = { let v = fill(&field); if v.is_empty() { ids.iter().map(|i| json!(i)).collect() } else { v } };
                values = values.into_iter().flat_map(|o| vals.iter().map(|x| { let mut o = o.clone(); o.insert(field.clone(), x.clone()); o }).collect::<Vec<_>>()).collect();
                fields.push(field);
            }
            for v in values {
                let text = format!("{name} {}", Value::Object(v.clone()));
                if let Ok(e) = attempt(f(json!({name: Value::Object(v)}))) { out.push((text, e)); }
            }
        }
        break;
    }
    out
}
