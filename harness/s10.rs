// S10: messages give away no secret: masks are fresh, full and used once.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/tree.rs"] mod tree;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
#[path = "common/deviate.rs"] mod deviate;
use big::*; use util::*; use engine::*; use proto::*; use scen::*; use tree::*; use deviate::{wrong_sum, Change};
use std::collections::{BTreeMap, BTreeSet};
use elliptic_curve::{bigint::Encoding, Curve};
use manul::protocol::BoxedFormat;
use crate::{params::SchemeParams, curve::{Point, Scalar}, dev::TestParams, ThresholdKeyShare};

type P = TestParams;
type Pt = Point<P>;

// ---------------------------------------------------------------- what is sent
#[derive(Clone, PartialEq, Debug)]
enum Val { Bytes(Vec<u8>), Int(Z) }
impl Val { fn int(&self) -> Z { match self { Val::Bytes(b) => Z::n(Nat::from_be(b)), Val::Int(z) => z.clone() } } fn len(&self) -> usize { match self { Val::Bytes(b) => b.len(), Val::Int(z) => z.abs.bits().div_ceil(8) as usize } } }
/// Where a value is (round, sender, part, path), and the same without party and position.
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct Place { round: u8, from: u8, part: Part, path: String, class: String }
impl std::fmt::Display for Place { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{} of party {} in round {} ({:?})", self.path, self.from, self.round, self.part) } }
type Sent = BTreeMap<Place, Val>;
fn field_of<'a>(v: &'a Value, f: &str) -> Option<&'a Value> { if let Value::Map(m) = v { m.iter().find(|(k, _)| matches!(k, Value::Text(s) if s == f)).map(|x| &x.1) } else { None } }
fn values(v: &Value) -> Vec<(String, String, Val)> {
    let mut r = vec![];
    walk(v, &mut vec![], &mut |p, x| {
        let val = match x {
            Value::Bytes(b) if !p.is_empty() && field_of(get(v, &p[..p.len() - 1]), "is_negative").is_none() => Val::Bytes(b.clone()),
            _ => match (field_of(x, "is_negative"), field_of(x, "abs_bytes")) { (Some(Value::Bool(n)), Some(Value::Bytes(b))) => Val::Int(Z::new(*n, Nat::from_be(b))), _ => return }
        };
        r.push((name(v, p), class(v, p), val));
    });
    r
}
fn sent<Pr: manul::protocol::Protocol<u8>>(net: &Net<Pr>) -> Sent {
    let mut r = Sent::new();
    for ((round, from), m) in &net.hist {
        for part in [Part::Eb, Part::Nb].into_iter().chain(m.dms.keys().map(|d| Part::Dm(*d))) {
            let Some(b) = m.part(part) else { continue };
            let v: Value = from_cbor(b).expect("a message");
            let kind = match part { Part::Eb => "eb", Part::Nb => "nb", Part::Dm(_) => "dm" };
            for (path, class, val) in values(&v) { r.insert(Place { round: *round, from: *from, part, path, class: format!("{round} {kind}{class}") }, val); }
        }
    }
    r
}
fn moduli(s: &Sent, extra: &[Nat]) -> Vec<Nat> { s.iter().filter(|(p, _)| p.path.ends_with("modulus")).map(|(_, v)| v.int().abs).chain(extra.iter().cloned()).collect::<BTreeSet<_>>().into_iter().collect() }
fn q() -> Nat { Nat::from_be(<P as SchemeParams>::Curve::ORDER.to_be_bytes().as_ref()) }
fn point(v: &Val) -> Option<Pt> { match v { Val::Bytes(b) => from_tree(&Value::Bytes(b.clone())).ok(), _ => None } }
fn neg(x: &Pt) -> Pt { *x * -Scalar::<P>::ONE }
fn scalar(v: &Val) -> Option<Scalar<P>> { match v { Val::Bytes(b) => from_tree(&Value::Bytes(b.clone())).ok(), _ => None } }

// ---------------------------------------------------------------- masks
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind { Integer, Scalar, Point, Modulo(Nat) }
/// By how much a value changes, in each of the groups it can be an element of; the same for a change and its inverse.
fn change(a: &Val, b: &Val, moduli: &[Nat]) -> Vec<(Kind, Vec<u8>)> {
    let mut r = vec![];
    if a == b || a.len() < 3 { return r }
    if let (Some(x), Some(y)) = (point(a), point(b)) { return vec![(Kind::Point, to_cbor(&(y + neg(&x))).min(to_cbor(&(x + neg(&y)))))] }
    let (x, y) = (a.int(), b.int());
    r.push((Kind::Integer, y.sub(&x).abs.to_be(200)));
    if let (Some(x), Some(y)) = (scalar(a), scalar(b)) { let d = y - x; r.push((Kind::Scalar, val::<P>(&d).min(val::<P>(&-d)).to_be(200))) }
    for n in moduli { for m in [n.clone(), n.mul(n)] {
        if !matches!(a, Val::Bytes(v) if v.len() == m.bits().div_ceil(8) as usize) { continue }
        let Some(i) = x.abs.inv(&m) else { continue };
        let Some(j) = y.abs.inv(&m) else { continue };
        r.push((Kind::Modulo(m.clone()), y.abs.mul(&i).rem(&m).min(x.abs.mul(&j).rem(&m)).to_be(200)));
    } }
    r
}
type Pairs = BTreeSet<(Place, Place, Kind)>;
/// The pairs of values that both change, but whose sum or difference (product or quotient) does not.
fn pairs(a: &Sent, b: &Sent, extra: &[Nat]) -> Pairs {
    let moduli: Vec<Nat> = { let other = moduli(b, extra); moduli(a, extra).into_iter().filter(|m| other.contains(m)).collect() };
    let mut groups: BTreeMap<(Kind, Vec<u8>), Vec<Place>> = BTreeMap::new();
    for (p, x) in a { if let Some(y) = b.get(p) { for k in change(x, y, &moduli) { groups.entry(k).or_default().push(p.clone()) } } }
    groups.into_iter().flat_map(|((k, _), g)| { let mut r = vec![]; for (i, x) in g.iter().enumerate() { for y in &g[..i] { r.push((y.clone(), x.clone(), k.clone())) } } r }).collect()
}
const MASKS: [u64; 3] = [1 << 3, 1 << 14, 1 << 22];
/// Pairs that move together for a good reason: `changed` tells whether a kind of value changed at all.
fn natural(x: &Place, y: &Place, changed: &dyn Fn(&str) -> bool) -> bool {
    let is = |a: &str, b: &str| (x.class == a && y.class == b) || (x.class == b && y.class == a);
    // additive shares of something: one party's random part is the negated part of another's
    if x.from != y.from { return ["3 eb.delta", "3 nb.cap_s", "4 nb.sigma"].iter().any(|c| is(c, c)) }
    // the changes of the shares add up to zero; the masks of those sent are others
    is("2 nb.cap_xs[][]", "2 nb.cap_xs[][]") || is("3 dm.cap_c", "3 dm.cap_c") && changed("2 nb.cap_xs[][]")
    // the same multiple (zero or one) of the secret exponent under different masks
    || is("2 nb.psi.proof[]", "2 nb.psi.proof[]") || [x, y].iter().all(|p| p.round > 4 && [".z", ".z_prime", ".lambda", ".w", ".nu"].iter().any(|f| p.class.ends_with(f)))
    // what is encrypted or committed to is the same, under different masks
    || is("1 eb.cap_b2", "2 eb.cap_gamma") || is("1 dm.psi1.cap_s", "2 nb.psis[][].cap_s") && changed("2 eb.cap_gamma")
    // a mask multiplied with the same base, for exponents of which one is masked once more
    || is("2 nb.psi_elog.cap_b", "2 nb.psi_elog.cap_n") || is("3 nb.psi.cap_b", "3 nb.psi.cap_n")
}
fn session<S: Scen>(s: &S, seed: u64) -> Result<Net<S::Pr>, String> { let mut n = s.start(b"session", BoxedFormat::Cbor, seed)?; n.run(&mut Honest); finished(s, &n)?; Ok(n) }
/// What has to change when something else does.
type Follow<'a> = &'a (dyn Fn(&Sent, &Sent) -> Vec<(String, String)> + Sync);
fn reuse<S: Scen>(r: &mut Runner, name: &str, s: &S, who: &[u8], seeds: u64, extra: &[Nat], run: &(dyn Fn(u64) -> Result<Net<S::Pr>, String> + Sync), skip: u64, follow: Follow) where S::Pr: Sync {
    let name = &format!("masks-{name}");
    if !r.active(name) { return }
    let run = |seed: u64, change: Option<(u8, u64, u64)>| with_change(change, || run(seed).map(|n| (sent(&n), n.nodes.iter().map(|(i, x)| (*i, x.rng.1)).collect::<BTreeMap<_, _>>(), n.steps)));
    let base: Vec<_> = match (0..seeds).map(|s| run(s + 1, None)).collect::<Result<_, _>>() { Ok(b) => b, Err(e) => return r.explore(name, "the honest run", |c| { c.fail("the run fails", e.to_string()) }) };
    let draws = base.iter().flat_map(|b| b.1.values()).max().copied().unwrap_or(0);
    r.explore(name, &format!("{}: each of the up to {draws} random numbers (from the {skip}th on) of one party of {who:?} is changed in turn, {seeds} streams: no two values move together", s.name()), |c| {
        let seed = c.choose(seeds as usize); let who = *c.pick(who); let (a, used, _) = &base[seed]; let at = skip + c.choose((used[&who] - skip) as usize) as u64;
        c.label(|| format!("stream {seed}, random number {at} of party {who}"));
        let mut left: Option<Pairs> = None;
        for m in MASKS {
            let (b, _, steps) = match run(seed as u64 + 1, Some((who, at, m))) { Ok(x) => x, Err(e) => return c.fail("the run fails", format!("stream {seed}, random number {at} of party {who} changed: {e}")) };
            c.ops(steps); c.trace(); c.state(&(seed, who, at, m));
            for (k, w) in follow(a, &b) { c.fail(&k, format!("{}, stream {seed}: with random number {at} of party {who} changed, {w}", s.name())) }
            let p = pairs(a, &b, extra);
            let p: Pairs = match left { Some(l) => l.into_iter().filter(|x| p.contains(x)).collect(), None => { let changed = |k: &str| a.iter().any(|(p, x)| p.class == k && b.get(p) != Some(x)); p.into_iter().filter(|(x, y, _)| !natural(x, y, &changed)).collect() } };
            if p.is_empty() { return }
            left = Some(p);
        }
        for (x, y, k) in left.into_iter().flatten() { c.fail(&format!("{} and {} share a mask ({})", x.class, y.class, match k { Kind::Integer => "integers", Kind::Scalar => "scalars", Kind::Point => "points", Kind::Modulo(_) => "residues" }), format!("{}, stream {seed}: with random number {at} of party {who} changed, {x} and {y} move together", s.name())) }
    });
}
fn nothing(_: &Sent, _: &Sent) -> Vec<(String, String)> { vec![] }
/// A change of share is masked with what its two parties have agreed on.
fn agreed(a: &Sent, b: &Sent) -> Vec<(String, String)> {
    let mut r = vec![];
    for (p, x) in a.iter().filter(|(p, _)| p.class == "2 eb.cap_ys[][]") {
        let Some(k) = p.path.split(['[', ']']).nth(1).and_then(|k| k.parse::<u8>().ok()) else { continue };
        if k == p.from || b.get(p) == Some(x) { continue }
        for (from, to) in [(p.from, k), (k, p.from)] { for (c, v) in a.iter().filter(|(c, _)| c.class == "3 dm.cap_c" && c.from == from && c.part == Part::Dm(to)) { if b.get(c) == Some(v) { r.push((format!("a change of share is not masked by the {} key", if from == p.from { "sender's" } else { "recipient's" }), format!("{p} changes and {c} does not"))) } } }
    }
    r
}

// ---------------------------------------------------------------- values of many runs
/// More values that are not sent as they are (plaintexts and randomizers), to be looked at like those that are.
type More<'a, S> = &'a (dyn Fn(&S, &Net<<S as Scen>::Pr>, &Sent) -> Vec<(Place, Val, u32)> + Sync);
/// How many bits of a value must be random.
fn width(v: &Val) -> u32 { match v { Val::Bytes(b) if point(v).is_none() => if scalar(v).is_some() { q().bits() - 2 } else { b.len() as u32 * 8 - if b.len() > 8 { 4 } else { 0 } }, _ => 0 } }
fn fresh<S: Scen>(r: &mut Runner, name: &str, s: &S, seeds: usize, inputs: &[&str], more: More<S>) where S::Pr: Sync {
    let name = &format!("streams-{name}");
    if !r.active(name) { return }
    type All = BTreeMap<Place, (u32, Vec<Val>)>;
    let all: std::sync::Mutex<BTreeMap<usize, Vec<(Place, Val, u32)>>> = Default::default();
    r.explore(name, &format!("{}: {seeds} streams: every value sent is different each time, and so are all the bits it can have", s.name()), |c| {
        let seed = c.choose(seeds);
        c.label(|| format!("stream {seed}"));
        let n = match session(s, seed as u64 + 1) { Ok(n) => n, Err(e) => return c.fail("the run fails", format!("stream {seed}: {e}")) };
        let x = sent(&n); let mut y = more(s, &n, &x); y.extend(x.into_iter().map(|(p, v)| { let w = if p.path.ends_with("modulus") { 0 } else { width(&v) }; (p, v, w) }));
        c.ops(n.steps); c.trace(); c.state(&(seed, y.len()));
        all.lock().unwrap().insert(seed, y);
    });
    let all = all.into_inner().unwrap();
    if all.len() < seeds { return }
    let mut by: All = All::new();
    for (p, v, w) in all.into_values().flatten() { if inputs.contains(&p.class.as_str()) || inputs.contains(&p.path.as_str()) { continue } by.entry(p).or_insert((w, vec![])).1.push(v) }
    r.explore(&format!("{name}-values"), &format!("{}: the {} values of {seeds} streams: all different, no bit stuck", s.name(), by.len()), |c| {
        let places: Vec<_> = by.iter().collect(); let (p, (w, v)) = *c.pick(&places);
        c.label(|| p.to_string()); c.ops(v.len() as u64); c.trace(); c.state(&p.to_string());
        c.check(v.len() == seeds, "what is sent depends on the randomness", || format!("{}: {p} is sent in {} of {seeds} runs", s.name(), v.len()));
        if v.iter().all(|v| v.len() < 3) { return }
        let distinct: BTreeSet<_> = v.iter().map(|v| match v { Val::Bytes(b) => (false, b.clone()), Val::Int(z) => (z.neg, z.abs.to_be(200)) }).collect();
        c.check(distinct.len() == v.len(), &format!("{} repeats", p.class), || format!("{}: {p} takes {} values in {} runs", s.name(), distinct.len(), v.len()));
        let ints: Vec<Nat> = v.iter().map(|v| v.int().abs).collect();
        let stuck: Vec<u32> = (0..*w).filter(|b| ints.iter().all(|x| x.bit(*b) == ints[0].bit(*b))).collect();
        c.check(stuck.is_empty(), &format!("{} is not random", p.class), || format!("{}: bits {stuck:?} of {p} are the same in {} runs", s.name(), v.len()));
    });
}

// ---------------------------------------------------------------- known relations
/// Secrets that follow from what is sent: discrete logarithms, factors, orders, setup secrets.
fn relations(s: &Sent, points: &[(String, Pt)], extra: &[Nat], setups: &[[Nat; 3]]) -> BTreeSet<String> {
    let mut r = BTreeSet::new();
    let at = |p: &Place| format!("{p}");
    let pts: Vec<(String, Pt)> = s.iter().filter_map(|(p, v)| point(v).map(|x| (at(p), x))).chain(points.iter().cloned()).filter(|x| x.1 != Pt::identity()).collect();
    let mut known: BTreeMap<Vec<u8>, &String> = BTreeMap::new();
    for (n, x) in &pts { known.insert(to_cbor(x), n); known.insert(to_cbor(&neg(x)), n); }
    let bases: Vec<(String, Pt)> = std::iter::once(("the generator".to_string(), Scalar::<P>::ONE.mul_by_generator())).chain(pts.iter().cloned()).collect();
    let moduli = moduli(s, extra);
    let part = |ps: &str| s.iter().filter(|(p, _)| p.path.ends_with(ps)).map(|(p, v)| ((p.round, p.from), v.int().abs)).collect::<BTreeMap<_, _>>();
    let (ns, ss, ts) = (part("rp_params.modulus"), part("rp_params.base_value"), part("rp_params.base_randomizer"));
    let setups: Vec<[Nat; 3]> = ns.iter().map(|(k, n)| [n.clone(), ss[k].clone(), ts[k].clone()]).chain(setups.iter().cloned()).collect();
    for (p, v) in s {
        if point(v).is_some() || v.len() < 3 { continue }
        let scalars: BTreeSet<Nat> = [v.int().modulo(&q())].into_iter().filter(|x| !x.is_zero() && x.bits() > 8).collect();
        for x in scalars { let x = sc::<P>(&x); for (n, b) in &bases { if let Some(m) = known.get(&to_cbor(&(*b * x))) { r.insert(format!("{} is the discrete logarithm of {m} to the base of {n}", at(p))); } } }
        let x = v.int().abs;
        if p.path.ends_with("modulus") || x.bits() < 32 { continue }
        for n in &moduli { let g = x.gcd(n); if g != Nat::one() && g != *n { r.insert(format!("{} has a factor in common with a modulus", at(p))); } if Nat::u(2).powmod(&x, n) == Nat::one() { r.insert(format!("{} is a multiple of the order of 2 modulo a modulus", at(p))); } }
        for [n, s, t] in &setups { let y = t.powmod(&x, n); if y == *s || y.mul(s).rem(n) == Nat::one() { r.insert(format!("{} is the secret of a setup", at(p))); } }
    }
    r
}
type Known = (Vec<(String, Pt)>, Vec<Nat>, Vec<[Nat; 3]>);
fn leaks<S: Scen>(r: &mut Runner, name: &str, all: &[(S, Known)], seeds: usize) where S::Pr: Sync {
    r.explore(&format!("relations-{name}"), &format!("{} configurations, {seeds} streams each: no value sent is the logarithm of a point, shares a factor with a modulus, is an exponent of its group or the secret of a setup", all.len()), |c| {
        let (s, (points, moduli, setups)) = c.pick(all); let seed = c.choose(seeds) as u64;
        let what = || format!("{}, stream {seed}", s.name());
        c.label(what);
        // something that holds in two runs is not by chance
        let mut left: Option<BTreeSet<String>> = None;
        for k in [1, 1001] {
            let n = match session(s, seed + k) { Ok(n) => n, Err(e) => return c.fail("the run fails", format!("{}: {e}", what())) };
            let x = sent(&n); c.ops(n.steps + x.len() as u64); c.trace(); c.state(&(s.name(), seed + k));
            let found = relations(&x, points, moduli, setups);
            left = Some(match left { None => found, Some(l) => l.intersection(&found).cloned().collect() });
            if left.as_ref().is_some_and(|l| l.is_empty()) { break }
        }
        for w in left.into_iter().flatten() { c.fail("a secret follows from the messages", format!("{}: {w}", what())) }
    });
}
/// Nobody but its recipient gets a part of a share.
fn subshares(r: &mut Runner, name: &str, all: &[Reshare<P>], seeds: usize) {
    r.explore(&format!("subshares-{name}"), &format!("{} configurations, {seeds} streams each: the value of an old holder's polynomial for a new holder is sent to that one only", all.len()), |c| {
        let s = c.pick(all); let seed = c.choose(seeds) as u64;
        let what = || format!("{}, stream {seed}", s.name());
        c.label(what); c.trace(); c.state(&(s.name(), seed));
        let n = match session(s, seed + 1) { Ok(n) => n, Err(e) => return c.fail("the run fails", format!("{}: {e}", what())) };
        c.ops(n.steps);
        let ids: Vec<(u8, Nat)> = results(&n, &s.new).values().filter_map(|x| x.as_ref()).next().map(|k| k.share_ids.iter().map(|(i, x)| (*i, val::<P>(&from_tree(&to_tree(x)).expect("a scalar")))).collect()).unwrap_or_default();
        let x = sent(&n);
        for old in &s.quorum {
            let coeffs: Vec<Pt> = x.iter().filter(|(p, _)| p.from == *old && p.part == Part::Eb).filter_map(|(_, v)| point(v)).collect();
            for (p, v) in x.iter().filter(|(p, _)| p.from == *old) { let Some(y) = scalar(v) else { continue }; let y = y.mul_by_generator();
                for (i, id) in &ids { let at = coeffs.iter().rev().fold(Pt::identity(), |a, b| a * sc::<P>(id) + *b);
                    if at == y { c.check(p.part == Part::Dm(*i), "a part of a share is sent to somebody else", || format!("{}: {p} is that of {i}", what())); } } }
        }
    });
}

fn setups(aux: &BTreeMap<u8, crate::AuxInfo<P, u8>>) -> Vec<[Nat; 3]> { aux.values().next().unwrap().public.as_map().values().map(|p| { let v = to_tree(&p.rp_params); let g = |f: &str| Nat::from_be(bytes(field_of(&v, f).expect("a field")).expect("bytes")); [g("modulus"), g("base_value"), g("base_randomizer")] }).collect() }
fn known(s: &Sign<P>) -> Known {
    let st = setups(&s.aux);
    let m = st.iter().map(|x| x[0].clone()).chain(s.aux.values().next().unwrap().public.as_map().values().map(|p| p.paillier_pk.modulus().nat())).collect();
    let k = s.keys.values().next().unwrap();
    (k.public_shares().iter().map(|(i, x)| (format!("the public share of {i}"), *x)).collect(), m, st)
}
/// The plaintexts and randomizers of what is encrypted during signing.
fn opened(s: &Sign<P>, _: &Net<crate::InteractiveSigningProtocol<P, u8>>, x: &Sent) -> Vec<(Place, Val, u32)> {
    let sks: BTreeMap<u8, _> = s.aux.iter().map(|(i, a)| (*i, a.secret.paillier_sk.clone().into_precomputed())).collect();
    let ids: Vec<u8> = sks.keys().copied().collect();
    let mut r = vec![];
    let lp = <P as SchemeParams>::LP_BOUND;
    for (p, v) in x {
        let Val::Bytes(b) = v else { continue };
        // (whose key, bits of the plaintext)
        let (of, w) = match p.class.as_str() {
            "1 eb.cap_k.ciphertext" | "1 eb.cap_g.ciphertext" => (p.from, q().bits() - 3),
            "2 eb.cap_fs[][].ciphertext" | "2 eb.hat_cap_fs[][].ciphertext" => (p.from, lp - 2),
            "2 nb.cap_ds[][].ciphertext" | "2 nb.hat_cap_ds[][].ciphertext" => { let i: usize = p.path.split(['[', ']']).nth(1).unwrap().parse().unwrap(); (ids.iter().copied().filter(|i| *i != p.from).nth(i).unwrap(), lp - 2) }
            _ => continue,
        };
        let sk = &sks[&of]; let n = sk.public_key().modulus().nat(); let n2 = n.mul(&n);
        let (l, m) = { let phi = sk.totient_wide_unsigned().expose_secret().nat(); (phi.clone(), phi.inv(&n).expect("invertible")) };
        let c = Nat::from_be(b);
        // the definition of decryption
        let pt = balanced(&c.powmod(&l, &n2).sub(&Nat::one()).divrem(&n).0.mul(&m).rem(&n), &n);
        let one = Nat::one().add(&Z::n(n.clone()).abs.mul(&pt.modulo(&n))).rem(&n2);
        let rn = c.mul(&one.inv(&n2).expect("invertible")).rem(&n2);
        let rho = rn.rem(&n).powmod(&n.rem(&l).inv(&l).expect("invertible"), &n);
        let with = |what: &str| Place { path: format!("{} ({what})", p.path), class: format!("{} ({what})", p.class), ..p.clone() };
        r.push((with("sign"), Val::Bytes(vec![if pt.neg { 255 } else { 0 }, 0]), 0));
        r.push((with("plaintext"), Val::Int(pt), w));
        r.push((with("randomizer"), Val::Bytes(rho.to_be(n.bits().div_ceil(8) as usize)), n.bits() - 3));
    }
    r
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S10");
    let t = r.thorough();
    let seeds = if t { 3 } else { 1 };
    let sign = Sign::<P>::of(&[0, 1, 2], 1, Default::default());
    let kn = known(&sign);
    let resharings: Vec<Reshare<P>> = [(&[0u8, 1, 2][..], 2, &[0u8, 1][..], &[1u8, 2, 3][..], 2), (&[0, 1, 2], 2, &[0, 1, 2], &[0, 1, 2], 3), (&[0, 1], 2, &[0, 1], &[4, 5], 2), (&[0, 1, 2, 3], 3, &[0, 2, 3], &[2, 5], 2)].into_iter().map(|(old, ot, quorum, new, nt)| Reshare { old: ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(9), &ids_of(old), ot, None).expect("shares"), quorum: ids_of(quorum), new: ids_of(new), new_threshold: nt }).collect();
    // many streams
    let n = if t { 400 } else { 56 };
    // the results' secrets
    let out = |i: u8, path: &str, x: Nat, bits: u32| { let path = format!("({path})"); (Place { round: 9, from: i, part: Part::Eb, path: path.clone(), class: path }, Val::Int(Z::n(x)), bits) };
    let share = |i: u8, x: &Scalar<P>| out(i, "the secret share", val::<P>(x), q().bits() - 2);
    let primes = |i: u8, a: &crate::AuxInfo<P, u8>| { let k = a.secret.paillier_sk.clone().into_precomputed(); let bits = k.public_key().modulus().nat().bits() / 2; [("p", zs(&k.p_signed())), ("q", zs(&k.q_signed()))].map(|(n, x)| out(i, &format!("the prime {n}"), x.abs.shr(2), bits - 4)) };
    fresh(&mut r, "key-init", &Init::<P>::of(&[0, 1]), n, &[], &|s, n, _| results(n, &s.ids()).into_iter().map(|(i, k)| share(i, k.secret_share().expose_secret())).collect());
    fresh(&mut r, "aux-gen", &Aux::<P>::of(&[0, 1]), n, &[], &|s, n, _| results(n, &s.ids()).into_iter().flat_map(|(i, k)| primes(i, k)).collect());
    fresh(&mut r, "key-refresh", &Refresh::<P>::of(&[0, 1]), n, &[], &|s, n, _| results(n, &s.ids()).into_iter().flat_map(|(i, k)| { let mut v = primes(i, &k.1).to_vec(); v.push(share(i, k.0.secret_share_change.expose_secret())); v }).collect());
    fresh(&mut r, "signing", &sign, n, &[], &opened);
    fresh(&mut r, "resharing", &resharings[1], n, &["1 eb.old_share_id", ".public_polynomial[0]"], &|s, n, _| results(n, &s.new).into_iter().filter_map(|(i, k)| k.as_ref().map(|k| share(i, k.secret_share.expose_secret()))).collect());
    // relations
    let sets: &[&[u8]] = &[&[0, 1], &[0, 1, 2], &[3, 7], &[1, 5, 6, 9]];
    let none: Known = (vec![], vec![], vec![]);
    let m = if t { 10 } else { 1 };
    leaks(&mut r, "key-init", &sets.iter().map(|s| (Init::<P>::of(s), none.clone())).collect::<Vec<_>>(), m * 10);
    leaks(&mut r, "aux-gen", &sets.iter().map(|s| (Aux::<P>::of(s), none.clone())).collect::<Vec<_>>(), m);
    leaks(&mut r, "key-refresh", &sets.iter().map(|s| (Refresh::<P>::of(s), none.clone())).collect::<Vec<_>>(), m);
    leaks(&mut r, "signing", &sets.iter().map(|s| { let s = Sign::<P>::of(s, 1, Default::default()); let k = known(&s); (s, k) }).collect::<Vec<_>>(), m);
    subshares(&mut r, "resharing", &resharings, m * 10);
    leaks(&mut r, "resharing", &resharings.iter().map(|s| { let s = Reshare { old: s.old.clone(), quorum: s.quorum.clone(), new: s.new.clone(), new_threshold: s.new_threshold }; let k = s.old.values().next().unwrap().public_shares.iter().map(|(i, x)| (format!("the public share of {i}"), *x)).collect(); (s, (k, vec![], vec![])) }).collect::<Vec<_>>(), m * 10);
    // masks
    fn plain<S: Scen>(s: &S) -> impl Fn(u64) -> Result<Net<S::Pr>, String> + Sync + '_ { move |seed| session(s, seed) }
    let (init, aux, refresh) = (Init::<P>::of(&[0, 1, 2]), Aux::<P>::of(&[0, 1, 2]), Refresh::<P>::of(&[0, 1, 2]));
    reuse(&mut r, "key-init", &init, &[0, 1, 2], seeds * 10, &[], &plain(&init), 0, &nothing);
    reuse(&mut r, "aux-gen", &aux, &[1], seeds, &[], &plain(&aux), 0, &nothing);
    reuse(&mut r, "key-refresh", &refresh, &[1], seeds, &[], &plain(&refresh), 0, &agreed);
    reuse(&mut r, "signing", &sign, &[1], seeds, &kn.1, &plain(&sign), 0, &nothing);
    reuse(&mut r, "resharing", &resharings[1], &[0, 1, 2], seeds * 10, &[], &plain(&resharings[1]), 0, &nothing);
    {
    let (sign, kn) = if t { (Sign::<P>::of(&[0, 1, 2], 1, Default::default()), kn.clone()) } else { let s = Sign::<P>::of(&[0, 1], 1, Default::default()); let k = known(&s); (s, k) };
    let seeds = 1;
    // the random numbers used before an error round are those of a run without one
    let before = (0..seeds).map(|s| session(&sign, s + 1).map_or(0, |n| n.nodes[&1].rng.1)).min().unwrap_or(0);
    for (n, delta) in [(5, true), (6, false)] {
        let (pre, inb) = wrong_sum(delta, 0, 1); let bad: Ids = [0].into();
        let run = |seed: u64| -> Result<Net<_>, String> { let mut x = sign.start(b"session", BoxedFormat::Cbor, seed)?; x.run(&mut Change { who: 0, case: None, bad: &bad, prelude: Some(&pre), inbound: Some(&inb) }); if x.hist.contains_key(&(n, 1)) { Ok(x) } else { Err(x.describe()) } };
        reuse(&mut r, &format!("signing-round-{n}"), &sign, &[1], seeds, &kn.1, &run, before, &nothing);
    }
    }
    r.assume("Relations are looked for between pairs of values (their sums and differences as integers, scalars or points, products and quotients modulo the published moduli and their squares); what follows only from three values or more is not found.");
    r.assume("Direct messages reach nobody but their recipient (the session layer encrypts them).");
    r.assume("Randomness is a reproducible stream per party; a mask is found by changing one of the random numbers, for all of them.");
    r.finish()
}
