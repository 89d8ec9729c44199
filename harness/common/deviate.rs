//! One participant deviates: every change of every part of its messages, and what the others make of it.
use std::prelude::v1::*;
use std::collections::{BTreeMap, BTreeSet};
use manul::protocol::*;
use super::big::Nat; use super::engine::*; use super::proto::*; use super::scen::*; use super::tree::{self, Value};

#[derive(Clone, Debug)]
pub struct Case { pub round: u8, pub part: Part, pub only: Option<u8>, pub label: String, pub new: Option<Vec<u8>> }
impl Case {
    pub fn apply(&self, m: &mut Msg) {
        match self.only { Some(d) => { m.nb_for.insert(d, NormalBroadcast(self.new.clone())); } None => if let Part::Dm(d) = self.part { if m.dms.contains_key(&d) { *m.part_mut(self.part) = self.new.clone() } } else { *m.part_mut(self.part) = self.new.clone() } }
    }
    /// Whether `to` gets another message because of this.
    pub fn concerns(&self, to: u8) -> bool { match (self.part, self.only) { (Part::Dm(d), _) => d == to, (_, Some(d)) => d == to, _ => true } }
}
/// The orders of the curves.
fn orders() -> &'static [Nat] {
    static ORDERS: std::sync::OnceLock<Vec<Nat>> = std::sync::OnceLock::new();
    ORDERS.get_or_init(|| vec![order::<crate::dev::TestParams>(), order::<super::sp16::SP16>()])
}
/// Variants of a leaf.
fn leaf_variants(v: &Value) -> Vec<(String, Value)> {
    let mut out = vec![];
    match v {
        Value::Bytes(b) => {
            let mut put = |n: &str, x: Vec<u8>| if x != *b && !out.iter().any(|(_, y)| *y == Value::Bytes(x.clone())) { out.push((n.to_string(), Value::Bytes(x))) };
            let n = b.len();
            if n > 0 {
                for (name, i, bit) in [("first byte low bit", 0, 1u8), ("first byte high bit", 0, 128), ("last byte low bit", n - 1, 1), ("last byte high bit", n - 1, 128), ("middle", n / 2, 16)] { let mut x = b.clone(); x[i] ^= bit; put(name, x) }
                put("zeros", vec![0; n]); put("ones", vec![255; n]);
                let mut one = vec![0; n]; one[0] = 1; put("one (little endian)", one.clone()); one[0] = 0; one[n - 1] = 1; put("one (big endian)", one);
                // scalars: the other numbers that are easily mistaken for this one
                let x = Nat::from_be(b);
                for q in orders() { if q.bits().div_ceil(8) as usize == n && x < *q { put("negated", q.sub(&x).rem(q).to_be(n)); put("plus one", x.add(&Nat::u(1)).rem(q).to_be(n)); put("doubled", x.add(&x).rem(q).to_be(n)); } }
                put("truncated", b[..n - 1].to_vec()); put("halved", b[..n / 2].to_vec());
                put("empty", vec![]);
            }
            let mut x = b.clone(); x.push(0); put("longer", x);
        }
        Value::Integer(i) => { let i = i128::from(*i); for x in [0, 1, i + 1, i - 1, -1, 255, u32::MAX as i128, u64::MAX as i128] { if x != i { if let Ok(y) = ciborium::value::Integer::try_from(x) { out.push((format!("{x}"), Value::Integer(y))) } } } }
        Value::Bool(b) => out.push(("negated".into(), Value::Bool(!b))),
        Value::Text(t) => { out.push(("empty".into(), Value::Text(String::new()))); out.push(("other text".into(), Value::Text(format!("{t}x")))); }
        _ => {}
    }
    out.push(("null".into(), Value::Null));
    out.push(("sequence".into(), Value::Array(vec![])));
    out
}
fn container_variants(v: &Value) -> Vec<(String, Value)> {
    let mut out = vec![];
    match v {
        Value::Array(a) => {
            let mut put = |n: &str, x: Vec<Value>| if x != *a { out.push((n.to_string(), Value::Array(x))) };
            let n = a.len();
            if n > 0 { put("last dropped", a[..n - 1].to_vec()); put("first dropped", a[1..].to_vec()); let mut x = a.clone(); x.push(a[n - 1].clone()); put("last repeated", x); put("emptied", vec![]); put("first only", a[..1].to_vec()); }
            if n > 1 { let mut x = a.clone(); x.swap(0, 1); put("first two swapped", x); let mut x = a.clone(); x[1] = a[0].clone(); put("second is the first", x); let mut x = a.clone(); x.reverse(); put("reversed", x); }
        }
        Value::Map(m) => {
            let mut put = |n: &str, x: Vec<(Value, Value)>| if x != *m { out.push((n.to_string(), Value::Map(x))) };
            let n = m.len();
            if n > 0 { put("last field dropped", m[..n - 1].to_vec()); put("first field dropped", m[1..].to_vec()); put("emptied", vec![]); let mut x = m.clone(); x.push(m[0].clone()); put("field repeated", x); let mut x = m.clone(); x.push((Value::Text("extra".into()), Value::Null)); put("extra field", x); }
            if n > 1 { let mut x = m.clone(); let t = x[0].1.clone(); x[0].1 = x[1].1.clone(); x[1].1 = t; put("values swapped", x); }
        }
        _ => {}
    }
    out
}
#[derive(Clone, Copy, PartialEq)]
pub enum Family { Semantic, Structural, Bytes }
/// All changed versions of one part; `others` are the same parts from elsewhere.
pub fn variants(b: &Option<Vec<u8>>, others: &[(String, Vec<u8>)], family: Family) -> Vec<(String, Option<Vec<u8>>)> {
    let mut out: Vec<(String, Option<Vec<u8>>)> = vec![];
    let garbage: Vec<(String, Vec<u8>)> = vec![("no bytes".into(), vec![]), ("null".into(), vec![0xf6]), ("an empty map".into(), vec![0xa0]), ("an endless array".into(), vec![0x9b, 255, 255, 255, 255, 255, 255, 255, 255]), ("a long byte string".into(), vec![0x5b, 0, 0, 0, 255, 255, 255, 255, 255])];
    let Some(b) = b else {
        if family == Family::Structural { for (n, g) in garbage { out.push((format!("present: {n}"), Some(g))); } }
        return out;
    };
    let t: Value = tree::from_cbor(b).expect("cbor");
    let mut put = |n: String, x: Option<Vec<u8>>| if x.as_ref() != Some(b) { out.push((n, x)) };
    if family == Family::Bytes {
        for k in 0..b.len() { for x in [1u8, 0x20, 0x80, 0xff] { let mut y = b.clone(); y[k] ^= x; put(format!("byte {k} ^ {x}"), Some(y)); } put(format!("truncated to {k}"), Some(b[..k].to_vec())); }
        return out;
    }
    if family == Family::Structural {
        put("missing".into(), None);
        for (n, g) in garbage { put(n, Some(g)); }
        for k in 0..b.len() { if k < 40 || k % 97 == 0 || k + 8 > b.len() { put(format!("truncated to {k}"), Some(b[..k].to_vec())); } }
        for k in 0..b.len() { if k < 48 || k % 61 == 0 { let mut x = b.clone(); x[k] ^= 0x20; put(format!("byte {k} changed"), Some(x)); } }
        let mut x = b.clone(); x.push(0); put("trailing byte".into(), Some(x));
    }
    let total = tree::leaves(&t).len();
    for p in tree::leaves(&t) {
        for (n, x) in leaf_variants(tree::get(&t, &p)) {
            let structural = matches!(x, Value::Null | Value::Array(_)) || n == "longer" || n == "truncated" || n == "halved" || n == "empty";
            // long uniform sequences: the type confusions are tried on some of the leaves only
            if structural && (family == Family::Semantic || total > 150 && p.last().map(|i| *i > 1).unwrap_or(false)) { continue }
            put(format!("{} {n}", tree::name(&t, &p)), Some(tree::to_cbor(&tree::set(&t, &p, x))));
        }
    }
    for p in tree::containers(&t) { for (n, x) in container_variants(tree::get(&t, &p)) { put(format!("{} {n}", tree::name(&t, &p)), Some(tree::to_cbor(&tree::set(&t, &p, x)))); } }
    if family == Family::Semantic {
        let (lv, n) = (tree::leaves(&t), tree::leaves(&t).len());
        // another leaf of the same shape from this message
        for i in 0..n { let j = (i + 1..n).find(|j| tree::get(&t, &lv[*j]) != tree::get(&t, &lv[i]) && shape(tree::get(&t, &lv[*j])) == shape(tree::get(&t, &lv[i]))); if let Some(j) = j { put(format!("{} from {}", tree::name(&t, &lv[i]), tree::name(&t, &lv[j])), Some(tree::to_cbor(&tree::set(&t, &lv[i], tree::get(&t, &lv[j]).clone())))); } }
        for (from, o) in others {
            put(format!("all from {from}"), Some(o.clone()));
            let Ok(ot) = tree::from_cbor::<Value>(o) else { continue };
            for p in &lv { if let Some(x) = try_get(&ot, p) { if shape(x) == shape(tree::get(&t, p)) && x != tree::get(&t, p) { put(format!("{} from {from}", tree::name(&t, p)), Some(tree::to_cbor(&tree::set(&t, p, x.clone())))); } } }
            for p in tree::containers(&t) { if p.is_empty() { continue } if let Some(x) = try_get(&ot, &p) { if x != tree::get(&t, &p) { put(format!("{} from {from}", tree::name(&t, &p)), Some(tree::to_cbor(&tree::set(&t, &p, x.clone())))); } } }
        }
    }
    out
}
fn shape(v: &Value) -> (u8, usize) { match v { Value::Bytes(b) => (1, b.len()), Value::Integer(_) => (2, 0), Value::Bool(_) => (3, 0), Value::Text(_) => (4, 0), _ => (5, 0) } }
pub fn try_get<'a>(v: &'a Value, p: &[usize]) -> Option<&'a Value> { match p { [] => Some(v), [i, r @ ..] => match v { Value::Array(a) => try_get(a.get(*i)?, r), Value::Map(m) => try_get(&m.get(*i)?.1, r), _ => None } } }

/// All the changes to the messages of `who`.
pub fn cases(hist: &Hist, who: u8, family: Family, rounds: &[u8]) -> Vec<Case> {
    let mut out = vec![];
    for round in rounds {
        let Some(m) = hist.get(&(*round, who)) else { continue };
        let dests: Vec<u8> = m.dms.keys().copied().collect();
        let mut parts = vec![Part::Eb, Part::Nb];
        parts.extend(dests.iter().map(|d| Part::Dm(*d)));
        for part in parts {
            let mut others: Vec<(String, Vec<u8>)> = vec![];
            for ((r, f), o) in hist { if r == round { match part {
                Part::Dm(d) => for x in o.dms.keys() { if (*f, *x) != (who, d) { if let Some(b) = o.part(Part::Dm(*x)) { others.push((format!("the message of {f} to {x}"), b.clone())) } } },
                p => if *f != who { if let Some(b) = o.part(p) { others.push((format!("party {f}"), b.clone())) } }
            } } }
            if others.len() > 2 { others.truncate(3) }
            for (label, new) in variants(m.part(part), &others, family) {
                out.push(Case { round: *round, part, only: None, label: label.clone(), new: new.clone() });
                // normal broadcasts are not echoed: they can differ between the receivers
                if part == Part::Nb && dests.len() > 1 && family == Family::Semantic { out.push(Case { round: *round, part, only: Some(dests[0]), label, new }); }
            }
        }
    }
    out
}
/// A change of the messages of a round as they leave (or reach) the deviating parties.
pub type Pre<'a> = Option<&'a (dyn Fn(u8, u8, &mut Msg) + Sync)>;
pub type Inb<'a> = Option<&'a (dyn Fn(u8, u8, u8, &mut ProtocolMessage) + Sync)>;
/// Puts a case of `who` into effect; `prelude` changes what any of `bad` sends and `inbound` what they receive (round, from, to).
pub struct Change<'a> { pub who: u8, pub case: Option<&'a Case>, pub bad: &'a Ids, pub prelude: Pre<'a>, pub inbound: Inb<'a> }
impl Meddle for Change<'_> {
    fn outgoing(&mut self, round: u8, from: u8, m: &mut Msg, _: &BTreeMap<u8, Msg>) {
        if self.bad.contains(&from) { if let Some(p) = self.prelude { p(round, from, m) } }
        let Some(c) = self.case else { return };
        if from == self.who && c.round == round { c.apply(m) }
    }
    fn incoming(&mut self, round: u8, from: u8, to: u8, m: &mut ProtocolMessage) { if self.bad.contains(&to) && from != to { if let Some(p) = self.inbound { p(round, from, to, m) } } }
}

pub struct Outcome { pub problems: Vec<(String, String)>, pub accused: bool, pub kinds: BTreeSet<String>, pub accepted: Ids }
/// What the honest nodes made of a run in which `bad` deviated: (category, detail) of everything that must not happen.
pub fn outcome<S: Scen>(s: &S, net: &Net<S::Pr>, bad: &Ids, data: &<<S::Pr as Protocol<u8>>::ProtocolError as ProtocolError<u8>>::AssociatedData, must_prove: bool) -> Outcome where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug {
    let mut o = Outcome { problems: vec![], accused: false, kinds: BTreeSet::new(), accepted: Ids::new() };
    let honest: Ids = s.ids().into_iter().filter(|i| !bad.contains(i)).collect();
    for (id, n) in &net.nodes {
        if bad.contains(id) { continue }
        match &n.st {
            St::Stopped(accs) => for a in accs { weigh(&mut o, net, &net.hist, bad, a, data, must_prove) },
            St::Local(e) => o.problems.push((format!("local error in {}", e.chars().take(90).collect::<String>()), format!("{id}: {e}"))),
            St::Panic(p) => o.problems.push((format!("panic {}", site(p)), format!("{id}: {p}"))),
            St::Done(_) | St::Running | St::Stuck => {}
        }
    }
    if let Err(e) = s.right(net, &honest) { o.problems.push(("wrong result".into(), e)); }
    o
}
/// What is to be said about an accusation by an honest party, given the messages that were sent.
fn weigh<Pr: Protocol<u8>>(o: &mut Outcome, net: &Net<Pr>, hist: &Hist, bad: &Ids, a: &Accusation<Pr::ProtocolError>, data: &<Pr::ProtocolError as ProtocolError<u8>>::AssociatedData, must_prove: bool) where Pr::ProtocolError: std::fmt::Debug {
    let (id, kind) = (a.by, a.kind());
    o.kinds.insert(kind.clone());
    match &a.why {
        Why::Panic(p) => { o.problems.push((format!("panic on receipt: {}", site(p)), format!("{id} receiving from {}: {p}", a.of))); return }
        Why::Local(e) => { o.problems.push((format!("local error on receipt in round {}", a.round), format!("{id} receiving from {}: {e}", a.of))); return }
        _ => {}
    }
    if !bad.contains(&a.of) { o.problems.push((format!("honest party accused: {kind}"), format!("{id} accuses {}", a.of))); return }
    o.accused = true;
    if !must_prove { return }
    match judge::<Pr>(hist, &net.nodes.keys().copied().collect(), &net.shared, net.fmt, a.of, a.round, id, &a.why, data) {
        Verdict::Guilty => {}
        // a direct message does not say whom it is for: one that would be right for somebody else proves nothing
        Verdict::Refused(_) if misdirected(hist, &net.honest_hist, a.of, a.round, id) => o.problems.push((format!("a direct message made for another recipient proves nothing: {kind}"), format!("by {id} against {}", a.of))),
        Verdict::Refused(e) => o.problems.push((format!("evidence refused: {kind}"), format!("by {id}: {e}"))),
        Verdict::Panic(p) => o.problems.push((format!("panic judging {kind}: {}", site(&p)), format!("by {id}: {p}"))),
    }
}
/// What the honest nodes that receive the messages changed by `case` make of them, if all of them object at once.
/// `net` has just sent its round; `ends` are the nodes that object to something else in it anyway. The rest of the run is that of honest parties without the objecting ones.
pub fn objections<Pr: Protocol<u8>>(net: &Net<Pr>, sent: &Sent, ends: &dyn Fn(u8) -> bool, who: u8, case: &Case, bad: &Ids, data: &<Pr::ProtocolError as ProtocolError<u8>>::AssociatedData, must_prove: bool) -> Option<Outcome> where Pr::ProtocolError: std::fmt::Debug {
    let mut o = Outcome { problems: vec![], accused: false, kinds: BTreeSet::new(), accepted: Ids::new() };
    let mut m = sent.msgs.get(&who)?.clone();
    case.apply(&mut m);
    let (mut accs, mut any) = (vec![], false);
    for (to, n) in &net.nodes {
        if bad.contains(to) || !case.concerns(*to) || sent.numbers.get(to) != Some(&case.round) { continue }
        if !n.round.as_ref()?.as_ref().communication_info().expecting_messages_from.contains(&who) { continue }
        match net.receive(*to, who, m.to(*to)) { Ok(_) if ends(*to) => { any = true; o.accepted.insert(*to); } Ok(_) => return None, Err(why) => accs.push(Accusation { by: *to, of: who, round: case.round, why }) }
    }
    if accs.is_empty() && !any { return None }
    let mut hist = net.hist.clone();
    hist.insert((case.round, who), m);
    for a in accs { weigh(&mut o, net, &hist, bad, &a, data, must_prove); }
    Some(o)
}
/// Whether the direct message contains something made for another recipient.
fn misdirected(hist: &Hist, honest: &Hist, of: u8, round: u8, to: u8) -> bool {
    let (Some(sent), Some(made)) = (hist.get(&(round, of)), honest.get(&(round, of))) else { return false };
    let tree = |b: Option<&DirectMessage>| b.and_then(|d| d.0.as_ref()).and_then(|b| tree::from_cbor::<Value>(b).ok());
    let (Some(got), Some(own)) = (tree(sent.dms.get(&to)), tree(made.dms.get(&to))) else { return false };
    made.dms.iter().filter(|(d, _)| **d != to).any(|(_, m)| tree(Some(m)).is_some_and(|m| got == m || match (&got, &m, &own) { (Value::Map(g), Value::Map(m), Value::Map(o)) => g.iter().zip(m).zip(o).any(|((g, m), o)| g == m && g != o), _ => false }))
}
/// Whether a case changes some value (a byte string of the same length, a sign) that is not in an entry of a map for `to`.
pub fn telling(case: &Case, m: &Msg, to: u8) -> bool {
    // maps are sequences of pairs, in any order
    fn sorted(v: &mut Value) { match v { Value::Array(a) => { a.iter_mut().for_each(sorted); a.sort_by_key(|x| if let Value::Array(p) = x { p.first().and_then(|k| k.as_integer()) } else { None }) } Value::Map(m) => m.iter_mut().for_each(|(_, x)| sorted(x)), _ => {} } }
    let tree = |b: &Option<Vec<u8>>| b.as_ref().and_then(|b| tree::from_cbor::<Value>(b).ok()).map(|mut v| { sorted(&mut v); v });
    let (Some(old), Some(new)) = (tree(m.part(case.part)), tree(&case.new)) else { return false };
    fn own(v: &Value, p: &[usize], to: u8) -> bool { match (p, v) { ([i, r @ ..], Value::Map(m)) => m[*i].0 == Value::Integer(to.into()) || own(&m[*i].1, r, to), ([i, r @ ..], Value::Array(a)) => a.len() == 2 && a[0] == Value::Integer(to.into()) || own(&a[*i], r, to), _ => false } }
    tree::leaves(&old).iter().any(|p| match (tree::get(&old, p), try_get(&new, p)) { (Value::Bytes(a), Some(Value::Bytes(b))) => a != b && a.len() == b.len(), (Value::Bool(a), Some(Value::Bool(b))) => a != b, _ => false } && !own(&old, p, to))
}
/// The tree of a part, changed.
pub fn edit(b: &mut Option<Vec<u8>>, f: impl FnOnce(&mut Value)) { if let Some(x) = b { let mut t: Value = tree::from_cbor(x).expect("cbor"); f(&mut t); *x = tree::to_cbor(&t); } }
/// The field of a map by name, or the last one.
pub fn field<'a>(v: &'a mut Value, name: &str) -> &'a mut Value { let Value::Map(m) = v else { panic!("not a map") }; let i = m.iter().position(|(k, _)| *k == Value::Text(name.into())).unwrap_or(m.len() - 1); &mut m[i].1 }
/// Sends signing into the error round of an inconsistent `delta` (or `S`): everybody else by what `culprit` sends, itself by what it gets from `witness`.
pub fn wrong_sum(delta: bool, culprit: u8, witness: u8) -> (impl Fn(u8, u8, &mut Msg) + Sync, impl Fn(u8, u8, u8, &mut ProtocolMessage) + Sync) {
    let flip = |b: &mut Option<Vec<u8>>| edit(b, |t| { let p = tree::leaves(t)[0].clone(); if let Value::Bytes(b) = tree::get_mut(t, &p) { let n = b.len() - 1; b[n] ^= 1; } });
    let swap = |b: &mut Option<Vec<u8>>| edit(b, |t| { let x = field(t, "cap_delta").clone(); *field(t, "cap_s") = x; });
    (move |round, from, m: &mut Msg| if round == 3 && from == culprit { if delta { flip(&mut m.eb.0) } else { swap(&mut m.nb.0) } }, move |round, from, to, m: &mut ProtocolMessage| if round == 3 && to == culprit && from == witness { if delta { flip(&mut m.echo_broadcast.0) } else { swap(&mut m.normal_broadcast.0) } })
}
/// The place of a panic, without its line.
fn site(p: &str) -> String { match p.rfind(" [") { Some(i) => format!("{} in {}", p[..i].chars().take(60).collect::<String>(), p[i + 2..].split(':').next().unwrap_or("")), None => p.chars().take(60).collect() } }
