// Z04: malformed or degenerate proofs and statements are rejected, and never crash the verifier.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/zkfix.rs"] mod zkfix;
use big::*; use util::*; use tree::*; use engine::*; use zkfix::*;

const AUX: [u8; 3] = [1, 2, 3];
fn keep(name: &str, n: usize) -> bool { match name.rsplit_once('.') { Some((_, i)) => { let i: usize = i.parse().unwrap(); i < 1 || i + 1 == n } None => true } }

// ------------------------------------------------------------------ lists of the wrong length
/// Ways to change the length (or, for `k` = 9, the order) of a list.
const SHAPES: [&str; 11] = ["unchanged", "empty", "without the first", "without the last", "the last twice", "the first twice", "doubled", "one element", "first half", "reversed", "a thousand elements"];
fn reshape<T: Clone>(v: &mut Vec<T>, k: usize) {
    match k { 1 => v.clear(), 2 => { if !v.is_empty() { v.remove(0); } } 3 => { v.pop(); } 4 => { if let Some(x) = v.last().cloned() { v.push(x) } } 5 => { if let Some(x) = v.first().cloned() { v.insert(0, x) } }
        6 => { let x = v.clone(); v.extend(x) } 7 => v.truncate(1), 8 => { let n = v.len() / 2; v.truncate(n) } 9 => v.reverse(), 10 => { let x = v.clone(); while v.len() < 1000 { v.extend(x.clone()) } v.truncate(1000) } _ => {} }
}
fn lists<P: ZkP>(r: &mut Runner, id: &str) {
    for s in systems::<P>() {
        if s.rounds() == 0 { continue }
        let s = &*s; let tapes = s.tapes(); let nt = tapes.len().min(if r.thorough() { 8 } else { 3 });
        let base: Vec<_> = (0..nt + 1).map(|t| { let tape = if t < nt { Some(&tapes[t][..]) } else { None }; with_tape(tape, || s.prove(&vec![0; s.dims().len()], 3, &AUX.to_vec())) }).collect();
        // the lists of the proof, and the challenge if it is a string of bits
        let layout = s.layout();
        let lists: Vec<(String, usize, Option<Field>)> = { let f = s.fields(&base[0].1); let mut r: Vec<_> = layout.iter().enumerate().filter_map(|(i, it)| if let Item::L(n, _) = it { let p = f.iter().find(|x| x.path[0] == list_pos(&base[0].1, n, i)).expect("a list").path[0]; Some((n.to_string(), p, None)) } else { None }).collect(); for x in f { if x.kind == K::Bits { r.push((x.name.clone(), x.path[0], Some(x.clone()))) } } r };
        let name = format!("{} {id} list lengths", s.name());
        r.explore(&name, &format!("{nt} challenges and the actual hash, all combinations of {} shapes for each of the {} lists", SHAPES.len(), lists.len()), |c| {
            let t = c.choose(nt + 1); let (comps, tree) = &base[t]; let tape = if t < nt { Some(&tapes[t][..]) } else { None };
            let ks: Vec<usize> = lists.iter().map(|_| c.choose(SHAPES.len())).collect();
            let what = || ks.iter().zip(&lists).map(|(k, l)| format!("{} {}", l.0, SHAPES[*k])).collect::<Vec<_>>().join(", ");
            let ctx = || format!("{} ({id}), challenge {t}: {}", s.name(), what());
            c.label(what); c.state(&(s.name(), id, t, &ks)); c.ops(1);
            let mut tr = tree.clone(); let mut same = true;
            for (k, (_, p, f)) in ks.iter().zip(&lists) {
                match f {
                    Some(f) => { let Some(Val::Bits(b)) = decode::<P>(f.kind, get(tree, &f.path)) else { return }; let mut x = b.clone(); reshape(&mut x, *k); same &= x == b; *get_mut(&mut tr, &f.path) = encode::<P>(f.kind, get(tree, &f.path), &Val::Bits(x)); }
                    None => { let Value::Array(a) = get_mut(&mut tr, &[*p]) else { return }; let old = a.clone(); reshape(a, *k); same &= *a == old; }
                }
            }
            if let Some(got) = c.guard("verifier panics", ctx, || with_tape(tape, || s.verify(comps, &tr, &AUX.to_vec()))) {
                if same { c.check(matches!(got, Ok(true)), "the proof itself is rejected", ctx); }
                // any change of a length makes it malformed, a change of the order is decided by the equations
                else if ks.iter().any(|k| *k != 9 && *k != 0) { c.check(!matches!(got, Ok(true)), "accepted with lists of the wrong length", ctx); }
                else if let Some(tp) = tape { let ch = s.challenge(comps, tp).unwrap(); if let Verdict::Reject(why) = s.reference(comps, &tr, &ch) { c.check(!matches!(got, Ok(true)), &format!("accepted in spite of: {why}"), ctx); } }
            }
            c.trace();
        });
    }
}
fn list_pos(v: &Value, name: &str, at: usize) -> usize { match v { Value::Map(m) => m.iter().position(|(k, _)| matches!(k, Value::Text(t) if t == name)).unwrap_or(at), _ => at } }

// ------------------------------------------------------------------ degenerate values
#[derive(Clone)]
enum D<P: ZkP> { Comp(usize, &'static str, Comp<P>), Leaf(String, &'static str, Val<P>) }
fn degenerate_residues(m: &Nat, n: &Nat) -> Vec<(&'static str, Nat)> { let mut r = vec![("zero", Nat::zero()), ("one", Nat::one()), ("minus one", m.sub(&Nat::one())), ("the modulus", m.clone())]; if let Some(p) = factor(n) { r.push(("a factor", p.clone())); r.push(("the other factor", n.divrem(&p).0)); if m != n { r.push(("N", n.clone())); r.push(("the square of a factor", p.mul(&p))) } } r }
fn degenerates<P: ZkP>(s: &dyn Sys<P>, comps: &Comps<P>, tree: &Value, vals: &Vals<P>) -> Vec<D<P>> {
    let mut r = vec![]; let md = |i: usize| match &comps[i] { Comp::Setup(n, _, _) => n.clone(), c => c.nat().clone() };
    for (i, c) in comps.iter().enumerate() {
        match c {
            Comp::Ct(j, _) => { let n = md(*j); for (w, x) in degenerate_residues(&n.mul(&n), &n) { r.push(D::Comp(i, w, Comp::Ct(*j, x))) } }
            Comp::Pt(_) => { r.push(D::Comp(i, "identity", Comp::Pt(gen(&Z::zero())))); r.push(D::Comp(i, "generator", Comp::Pt(gen(&Z::i(1))))) }
            Comp::Setup(n, t, v) if s.name() == "prm" => { for (w, x) in degenerate_residues(n, n) { r.push(D::Comp(i, w, Comp::Setup(n.clone(), x.clone(), v.clone()))); r.push(D::Comp(i, w, Comp::Setup(n.clone(), t.clone(), x))) } r.push(D::Comp(i, "both zero", Comp::Setup(n.clone(), Nat::zero(), Nat::zero()))) }
            _ => {}
        }
    }
    for f in s.fields(tree) {
        if !keep(&f.name, s.rounds()) { continue }
        let vs: Vec<(&'static str, Val<P>)> = match f.kind {
            K::Sc => vec![("zero", Val::Sc(sci(0)))], K::Pt => vec![("identity", Val::Pt(gen(&Z::zero())))],
            K::Ct(i) => { let n = md(i); degenerate_residues(&n.mul(&n), &n).into_iter().map(|(w, x)| (w, Val::N(x))).collect() }
            K::Rp(i) | K::Mr(i) | K::Un(i) => { let n = md(i); degenerate_residues(&n, &n).into_iter().map(|(w, x)| (w, Val::N(x))).collect() }
            K::Ex => vec![("zero", Val::N(Nat::zero()))], K::Z(_) | K::Es => vec![("zero", Val::S(Z::zero()))], K::Bits | K::Bool => vec![],
        };
        for (w, v) in vs { if v != vals[&f.name] { r.push(D::Leaf(f.name.clone(), w, v)) } }
    }
    r
}
fn combos<P: ZkP>(r: &mut Runner, id: &str, max_dev: u32, ntapes: usize) {
    for s in systems::<P>() {
        let s = &*s; let tapes = s.tapes();
        let nt = tapes.len().min(ntapes);
        let base: Vec<_> = tapes[..nt].iter().map(|t| { let (comps, tree) = with_tape(Some(t), || s.prove(&vec![0; s.dims().len()], 4, &AUX.to_vec())); let vals = s.read(&tree).expect("fields"); let d = degenerates(s, &comps, &tree, &vals); (comps, tree, vals, d) }).collect();
        r.explore_dev(&format!("{} {id}", s.name()), &format!("{nt} challenges, up to {max_dev} of {} degenerate values (zero, one, minus one, the modulus, its factors, the identity) at once", base[0].3.len()), max_dev, |c| {
            let t = c.choose(nt); let (comps, tree, vals, ds) = &base[t];
            let mut picked: Vec<usize> = vec![];
            for _ in 0..max_dev { let from = picked.last().map(|x| x + 1).unwrap_or(0); if from >= ds.len() { break } let i = c.deviate(ds.len() - from + 1); if i == 0 { break } picked.push(from + i - 1); }
            let what = || if picked.is_empty() { "no change".to_string() } else { picked.iter().map(|i| match &ds[*i] { D::Comp(j, w, _) => format!("{}: {w}", s.comp_names()[*j]), D::Leaf(f, w, _) => format!("proof field {f}: {w}") }).collect::<Vec<_>>().join("; ") };
            let ctx = || format!("{} ({id}), challenge {:02x?}: {}", s.name(), tapes[t], what());
            c.label(what); c.state(&(s.name(), id, t, &picked));
            let (mut comps, mut vals) = (comps.clone(), vals.clone());
            for i in &picked { match &ds[*i] { D::Comp(j, _, x) => comps[*j] = x.clone(), D::Leaf(f, _, v) => { vals.insert(f.clone(), v.clone()); } } }
            let tr = if picked.iter().any(|i| matches!(ds[*i], D::Leaf(..))) { s.write(tree, &vals) } else { tree.clone() };
            let Some(ch) = s.challenge(&comps, &tapes[t]) else { return };
            let want = s.reference(&comps, &tr, &ch);
            c.ops(1);
            if let Some(got) = c.guard("verifier panics", ctx, || with_tape(Some(&tapes[t]), || s.verify(&comps, &tr, &AUX.to_vec()))) {
                match want { Verdict::Reject(why) => { c.check(!matches!(got, Ok(true)), &format!("accepted in spite of: {why}"), ctx); } Verdict::Accept => { c.check(matches!(got, Ok(true)), "rejected although every condition holds", ctx); } Verdict::Any => {} }
            }
            c.trace();
        });
    }
}

// ------------------------------------------------------------------ degenerate moduli
fn moduli() -> Vec<(&'static str, Nat)> {
    let k = &keys()[0]; let one = Nat::one(); let prime = { let mut n = k.n.add(&Nat::u(2)); while !n.is_prime() { n = n.add(&Nat::u(2)) } n };
    let prime3 = { let mut n = k.n.add(&Nat::u(2)); while !(n.is_prime() && n.rem(&Nat::u(4)) == Nat::u(3)) { n = n.add(&Nat::u(2)) } n };
    let odd = |n: Nat| if n.is_even() { n.add(&one) } else { n };
    vec![("zero", Nat::zero()), ("one", one.clone()), ("two", Nat::u(2)), ("three", Nat::u(3)), ("fifteen", Nat::u(15)), ("even", k.n.add(&one)), ("twice a prime", k.p.add(&k.p)), ("a power of two", Nat::pow2(255)), ("the largest", Nat::pow2(256).sub(&one)), ("prime", prime), ("a prime 3 mod 4", prime3), ("half-size prime", k.p.clone()), ("a square", k.p.mul(&k.p)), ("a cube", { let c = odd(Nat::pow2(84).add(&Nat::u(7))); c.mul(&c).mul(&c) }), ("three times the key", odd(k.n.divrem(&Nat::u(3)).0)), ("the key plus two", k.n.add(&Nat::u(2))), ("a small factor", odd(k.n.shr(8)).mul(&Nat::u(255)))]
}
fn degenerate_moduli<P: ZkP>(r: &mut Runner) {
    let ms = moduli();
    for s in systems::<P>() {
        let s = &*s; let tapes = s.tapes(); let nt = tapes.len().min(3);
        let base: Vec<_> = (0..nt + 1).map(|t| with_tape(tapes.get(t).filter(|_| t < nt).map(|x| &x[..]), || s.prove(&vec![0; s.dims().len()], 4, &AUX.to_vec()))).collect();
        let slots: Vec<usize> = base[0].0.iter().enumerate().filter(|(_, c)| matches!(c, Comp::Pk(_) | Comp::Setup(..))).map(|(i, _)| i).collect();
        if slots.is_empty() { continue }
        r.explore(&format!("{} moduli", s.name()), &format!("{nt} challenges and the actual hash, {} degenerate moduli as each key and each setup", ms.len()), |c| {
            let t = c.choose(nt + 1); let (comps, tree) = &base[t]; let i = *c.pick(&slots); let (w, m) = c.pick(&ms).clone();
            let ctx = || format!("{}, challenge {t}, {} with modulus {w} ({m})", s.name(), s.comp_names()[i]);
            c.state(&(s.name(), t, i, w)); c.ops(1);
            let mut c2 = comps.clone();
            c2[i] = match &comps[i] { Comp::Setup(_, a, b) => { let fit = |x: &Nat| if m.is_zero() { x.clone() } else { let mut x = x.rem(&m); while s.name() != "prm" && !unit(&x, &m) { x = x.add(&Nat::one()).rem(&m) } x }; Comp::Setup(m.clone(), fit(a), fit(b)) } _ => Comp::Pk(m.clone()) };
            if let Some(got) = c.guard("verifier panics", ctx, || with_tape(tapes.get(t).filter(|_| t < nt).map(|x| &x[..]), || s.verify(&c2, tree, &AUX.to_vec()))) { c.check(m.bits() < 120 || (t < nt && s.name() != "mod") || !matches!(got, Ok(true)), "accepted with a degenerate modulus", ctx); }
            c.trace();
        });
    }
    let s = Mod; let s: &dyn Sys<P> = &s;
    r.explore("mod crafted", "degenerate moduli with elements 0, 1, -1 everywhere, the challenge taken as it comes", |c| {
        let (w, m) = c.pick(&ms).clone(); let v = c.choose(3); let (a, b) = (c.choose(2) == 1, c.choose(2) == 1); let cm = c.choose(3);
        let (_, template) = s.prove(&[0], 1, &AUX.to_vec());
        let val = |k: usize| match k { 0 => Nat::zero(), 1 => Nat::one(), _ => if m.is_zero() { Nat::u(2) } else { m.sub(&Nat::one()) } };
        let mut x = s.read(&template).unwrap();
        x.insert("commitment".into(), Val::N(val(cm)));
        for j in 0..s.rounds() { x.insert(format!("x.{j}"), Val::N(val(v))); x.insert(format!("z.{j}"), Val::N(val(v))); x.insert(format!("challenge.{j}"), Val::N(val(v))); x.insert(format!("a.{j}"), Val::B(a)); x.insert(format!("b.{j}"), Val::B(b)); }
        let tape = vec![0u8; 4];
        let ctx = || format!("modulus {w} ({m}), elements {v}, w = {cm}, a = {a}, b = {b}");
        c.state(&(w, v, a, b, cm)); c.ops(1);
        let comps: Comps<P> = vec![Comp::Pk(m.clone())];
        // a tiny modulus is refused by the protocols because of its size
        if let (Some(Ok(true)), false) = (c.guard("verifier panics", ctx, || with_tape(Some(&tape), || s.verify(&comps, &s.write(&template, &x), &AUX.to_vec()))), m.bits() < 120) { c.fail("accepted with a degenerate modulus", ctx()) }
        c.trace();
    });
}

// ------------------------------------------------------------------ malformed encodings
fn malformed<P: ZkP>(r: &mut Runner) {
    for s in systems::<P>() {
        let s = &*s; let (comps, tree) = s.prove(&vec![0; s.dims().len()], 4, &AUX.to_vec());
        let mut places: Vec<Path> = leaves(&tree); places.extend(containers(&tree));
        r.explore(&format!("{} encodings", s.name()), &format!("{} leaves and containers of the encoding, each replaced in 16 ways", places.len()), |c| {
            let p = c.pick(&places).clone(); let k = c.choose(16); let old = get(&tree, &p).clone();
            let new = match (k, &old) {
                (0, _) => Value::Null, (1, _) => Value::Bool(true), (2, _) => Value::Integer(0.into()), (3, _) => Value::Integer(u64::MAX.into()), (4, _) => Value::Text(String::new()), (5, _) => Value::Bytes(vec![]), (6, _) => Value::Array(vec![]), (7, _) => Value::Map(vec![]),
                (8, Value::Bytes(b)) => Value::Bytes(b[..b.len().saturating_sub(1)].to_vec()), (9, Value::Bytes(b)) => Value::Bytes([&b[..], &[0]].concat()), (10, Value::Bytes(b)) => Value::Bytes(vec![0; b.len()]), (11, Value::Bytes(b)) => Value::Bytes(vec![0xff; b.len()]), (12, Value::Bytes(b)) => Value::Bytes(vec![0; 4 * b.len()]),
                (13, Value::Bytes(b)) => Value::Bytes([&[0x80][..], &vec![0; b.len().saturating_sub(1)][..]].concat()),
                (8, Value::Integer(_)) => Value::Integer(1.into()), (9, Value::Integer(_)) => Value::Integer((-1).into()), (10, Value::Integer(_)) => Value::Integer(u32::MAX.into()), (11, Value::Integer(_)) => Value::Integer(256.into()), (12, Value::Integer(_)) => Value::Integer(1024.into()),
                (8, Value::Array(a)) => Value::Array(a.iter().skip(1).cloned().collect()), (9, Value::Array(a)) => Value::Array(a.iter().chain(a.last()).cloned().collect()), (10, Value::Array(a)) => Value::Array(a.iter().rev().cloned().collect()),
                (8, Value::Map(a)) => Value::Map(a.iter().skip(1).cloned().collect()), (9, Value::Map(a)) => Value::Map(a.iter().chain(a.last()).cloned().collect()), (10, Value::Map(a)) => Value::Map(a[..a.len().saturating_sub(1)].to_vec()),
                (14, _) => Value::Array(vec![old.clone()]), (15, _) => Value::Float(0.5), _ => return };
            if new == old { return }
            let t = set(&tree, &p, new.clone());
            let ctx = || format!("{}: {p:?} = {}", s.name(), { let mut x = format!("{new:?}"); x.truncate(80); x });
            c.state(&(s.name(), &p, k)); c.ops(1);
            if let Some(got) = c.guard("verifier panics", ctx, || s.verify(&comps, &t, &AUX.to_vec())) {
                // a different declared bound of the same number is the same number
                let same = quiet(|| s.read(&t)).ok().flatten().is_some_and(|x| Some(x) == s.read(&tree));
                if !same { c.check(!matches!(got, Ok(true)), "accepted a malformed proof", ctx); }
            }
            c.trace();
        });
    }
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("Z04");
    let th = r.thorough();
    lists::<ZS>(&mut r, "small challenges");
    lists::<ZP>(&mut r, "full size");
    combos::<ZS>(&mut r, "degenerate", 2, if th { 8 } else { 3 });
    if th { combos::<ZS>(&mut r, "degenerate triples", 3, 8); }
    degenerate_moduli::<ZP>(&mut r);
    malformed::<ZP>(&mut r);
    r.assume("commitment setups belong to the verifier, who has checked them with a Prm proof: other proofs are not shown setups with degenerate bases, but they are shown setups with degenerate moduli");
    r.assume("that a modulus has the required size is checked by the protocols; tiny ones are only tested for panics");
    r.assume("up to two (thorough: three) degenerate values at the same time");
    r.finish()
}
