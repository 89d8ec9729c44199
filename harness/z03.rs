// Z03: proofs are bound to the whole statement and context.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/zkfix.rs"] mod zkfix;
use std::collections::HashMap;
use big::*; use util::*; use tree::*; use engine::*; use zkfix::*;

fn keep(name: &str, n: usize, all: bool) -> bool { match name.rsplit_once('.') { Some((_, i)) => { let i: usize = i.parse().unwrap(); all || i < 2 || i + 1 == n } None => true } }
const AUX: [u8; 3] = [1, 2, 3];
fn auxs() -> Vec<(&'static str, Vec<u8>)> { vec![("empty", vec![]), ("truncated", vec![1, 2]), ("extended by zero", vec![1, 2, 3, 0]), ("extended", vec![1, 2, 3, 4]), ("last byte changed", vec![1, 2, 4]), ("first byte changed", vec![0, 2, 3]), ("prefixed", vec![0, 1, 2, 3]), ("reordered", vec![2, 1, 3]), ("one bit", vec![1, 2, 0x83]), ("doubled", vec![1, 2, 3, 1, 2, 3])] }
/// Is the field a part of the prover's first message?
fn first_message(k: K, name: &str, sys: &str) -> bool { let base = name.split('.').next().unwrap(); match k { K::Ct(_) | K::Rp(_) | K::Pt => true, K::Un(_) => base == "commitment", K::Sc | K::Z(_) | K::Mr(_) | K::Bits | K::Bool | K::Es | K::Ex => { let _ = sys; false } } }

#[derive(Clone)]
enum Ch<P: ZkP> { Aux(&'static str, Vec<u8>), Comp(usize, &'static str, Comp<P>), SwapComp(usize, usize), Field(Field, &'static str, Val<P>), SwapField(Field, Field) }
impl<P: ZkP> Ch<P> {
    fn describe(&self, s: &dyn Sys<P>) -> String { match self { Ch::Aux(w, _) => format!("context {w}"), Ch::Comp(i, w, c) => format!("{}: {w}{}", s.comp_names()[*i], if let Comp::Num(n) = c { format!(" ({n})") } else { String::new() }), Ch::SwapComp(i, j) => format!("{} and {} exchanged", s.comp_names()[*i], s.comp_names()[*j]), Ch::Field(f, w, v) => format!("proof field {}: {w} ({v})", f.name), Ch::SwapField(f, g) => format!("proof fields {} and {} exchanged", f.name, g.name) } }
    fn apply(&self, s: &dyn Sys<P>, comps: &Comps<P>, tree: &Value, vals: &Vals<P>) -> (Comps<P>, Value, Vec<u8>) {
        let (mut comps, mut v, mut aux, mut same) = (comps.clone(), vals.clone(), AUX.to_vec(), true);
        match self {
            Ch::Aux(_, a) => aux = a.clone(), Ch::Comp(i, _, c) => comps[*i] = c.clone(), Ch::SwapComp(i, j) => comps.swap(*i, *j),
            Ch::Field(f, _, x) => { v.insert(f.name.clone(), x.clone()); same = false; } Ch::SwapField(f, g) => { let (a, b) = (v[&f.name].clone(), v[&g.name].clone()); v.insert(f.name.clone(), b); v.insert(g.name.clone(), a); same = false; }
        }
        let t = if same { tree.clone() } else { s.write(tree, &v) };
        (comps, t, aux)
    }
}
fn swappable<P: ZkP>(a: &Comp<P>, b: &Comp<P>) -> bool { matches!((a, b), (Comp::Pk(_), Comp::Pk(_)) | (Comp::Pt(_), Comp::Pt(_))) || matches!((a, b), (Comp::Ct(i, _), Comp::Ct(j, _)) if i == j) }
fn changes<P: ZkP>(s: &dyn Sys<P>, comps: &Comps<P>, tree: &Value, vals: &Vals<P>, all: bool, first_only: bool) -> Vec<Ch<P>> {
    let mut r: Vec<Ch<P>> = auxs().into_iter().map(|(w, a)| Ch::Aux(w, a)).collect();
    for i in 0..comps.len() { for (w, c) in comp_alts(comps, i) { r.push(Ch::Comp(i, w, c)) } for j in 0..i { if swappable(&comps[i], &comps[j]) && comps[i] != comps[j] { r.push(Ch::SwapComp(j, i)) } } }
    let fields = s.fields(tree);
    for (a, f) in fields.iter().enumerate() {
        if !keep(&f.name, s.rounds(), all) || (first_only && !first_message(f.kind, &f.name, s.name())) { continue }
        for (w, v) in alts(f.kind, &vals[&f.name], comps) { if w != "plus the modulus" { r.push(Ch::Field(f.clone(), w, v)) } }
        for g in &fields[..a] { if keep(&g.name, s.rounds(), all) && (!first_only || first_message(g.kind, &g.name, s.name())) && f.kind == g.kind && vals[&f.name] != vals[&g.name] { r.push(Ch::SwapField(g.clone(), f.clone())) } }
    }
    r
}
/// The challenge as it is stated in an honest proof.
fn stated<P: ZkP>(s: &dyn Sys<P>, v: &Vals<P>) -> Chal<P> {
    match s.name() {
        "mod" => Chal::Ns((0..s.rounds()).map(|i| v[&format!("challenge.{i}")].n().clone()).collect()),
        _ => match v.get("e").or(v.get("challenge")).expect("the challenge") { Val::Sc(x) => Chal::Sc(*x), Val::S(z) => Chal::S(z.clone()), Val::Bits(b) => Chal::Bits(b.clone()), _ => panic!("kind") },
    }
}

/// Single replacements, with the actual hash.
fn replaced<P: ZkP>(r: &mut Runner, id: &str) {
    let th = true; let seeds = if r.thorough() { 8 } else { 2 };
    for s in systems::<P>() {
        let s = &*s;
        let base: Vec<_> = (0..seeds).map(|i| { let d: Vec<usize> = s.dims().iter().map(|n| (i as usize) % n).collect(); let (comps, tree) = s.prove(&d, 40 + i, &AUX.to_vec()); let vals = s.read(&tree).expect("fields"); let ch = changes(s, &comps, &tree, &vals, th, false); (comps, tree, vals, ch) }).collect();
        r.explore(&format!("{} {id}", s.name()), &format!("{seeds} honest proofs, each of {} replacements of the context, a statement component, or a proof field", base[0].3.len()), |c| {
            let i = c.choose(base.len()); let (comps, tree, vals, chs) = &base[i];
            let j = c.choose(chs.len() + 1);
            c.state(&(s.name(), id, i, j)); c.ops(1);
            if j == 0 { let ok = quiet(|| s.verify(comps, tree, &AUX.to_vec())); c.check(matches!(ok, Ok(Ok(true))), "the proof itself is rejected", || format!("{} ({id}): {ok:?}", s.name())); return }
            let ch = &chs[j - 1]; let ctx = || format!("{} ({id}), proof {i}, {}", s.name(), ch.describe(s));
            c.label(|| ch.describe(s));
            let (c2, t2, a2) = ch.apply(s, comps, tree, vals);
            // what is not a part of the statement or the first message has to satisfy the equations for the same challenge
            let excused = match ch { Ch::Aux(..) | Ch::SwapComp(..) => false, Ch::Comp(_, _, c) => matches!(c, Comp::Num(_)), Ch::Field(f, ..) => !first_message(f.kind, &f.name, s.name()), Ch::SwapField(f, g) => !first_message(f.kind, &f.name, s.name()) && !first_message(g.kind, &g.name, s.name()) };
            if excused && s.reference(&c2, &t2, &stated(s, vals)) != Verdict::Reject("") && !matches!(s.reference(&c2, &t2, &stated(s, vals)), Verdict::Reject(_)) { return }
            if let Some(got) = c.guard("verifier panics", ctx, || s.verify(&c2, &t2, &a2)) { c.check(!matches!(got, Ok(true)), match ch { Ch::Aux(..) => "accepted in another context", Ch::Comp(..) | Ch::SwapComp(..) => "accepted for another statement", _ => "accepted with another field" }, ctx); }
            c.trace();
        });
    }
}
/// Every combination of components of two statements that both have a valid proof.
fn mixed<P: ZkP>(r: &mut Runner) {
    for s in systems::<P>() {
        let s = &*s; let dims = s.dims();
        let mk = |i: usize| { let d: Vec<usize> = dims.iter().map(|n| i % n).collect(); s.prove(&d, 60 + i as u64, &AUX.to_vec()) };
        let all: Vec<_> = (0..3).map(mk).collect();
        r.explore(&format!("{} mixed statements", s.name()), "the proofs of 3 statements, every subset of the components taken from another statement, the same context or another one", |c| {
            let i = c.choose(3); let j = (i + 1 + c.choose(2)) % 3; let (comps, tree) = &all[i];
            let mask = c.choose(1 << comps.len()); let other = c.choose(2) == 1;
            let c2: Comps<P> = comps.iter().zip(&all[j].0).enumerate().map(|(k, (a, b))| if mask >> k & 1 == 1 { b.clone() } else { a.clone() }).collect();
            let num = c2.iter().zip(comps).all(|(a, b)| a == b || matches!(a, Comp::Num(_)));
            let aux = if other { vec![9u8] } else { AUX.to_vec() };
            c.state(&(s.name(), i, j, mask, other)); c.ops(1);
            let ctx = || format!("{}, proof {i}, components of statement {j}: {mask:b}, other context: {other}", s.name());
            let want = !other && num && !matches!(s.reference(&c2, tree, &stated(s, &s.read(tree).unwrap())), Verdict::Reject(_));
            if let Some(got) = c.guard("verifier panics", ctx, || s.verify(&c2, tree, &aux)) { c.check(matches!(got, Ok(true)) == want, if want { "the proof itself is rejected" } else { "accepted for a mixture of statements" }, ctx); }
            c.trace();
        });
    }
}
/// The exact input of the hash function.
fn transcripts<P: ZkP>(r: &mut Runner) {
    let th = r.thorough();
    let mut prefixes: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut own: HashMap<&'static str, Vec<Vec<u8>>> = HashMap::new();
    for s in systems::<P>() {
        let s = &*s; let dims = s.dims();
        let honest = |i: usize, aux: Vec<u8>| { let d: Vec<usize> = dims.iter().map(|n| i % n).collect(); let ((comps, tree), by_prover) = logged(|| s.prove(&d, 80 + i as u64, &aux)); let (ok, by_verifier) = logged(|| s.verify(&comps, &tree, &aux)); (comps, tree, by_prover, by_verifier, ok) };
        let one = honest(0, AUX.to_vec()); let two = honest(1, vec![0xaa; 5]);
        // the constant part at the beginning
        let common = |a: &Vec<Vec<u8>>, b: &Vec<Vec<u8>>| -> Vec<u8> { let (x, y) = (a.concat(), b.concat()); x.iter().zip(&y).take_while(|(p, q)| p == q).map(|(p, _)| *p).collect() };
        prefixes.push((s.name(), common(&one.3, &two.3)));
        own.insert(s.name(), one.3.clone());
        let (comps, tree, by_prover, by_verifier, ok) = one;
        let vals = s.read(&tree).expect("fields");
        let chs = changes(s, &comps, &tree, &vals, th, true);
        r.explore(&format!("{} transcript", s.name()), &format!("all pairs of {} replacements of the context, statement components, and commitments", chs.len()), |c| {
            c.check(matches!(ok, Ok(true)), "the proof itself is rejected", || s.name().to_string());
            let chal = by_prover.last().cloned().unwrap_or_default();
            c.check(!chal.is_empty() && by_verifier.contains(&chal), "prover and verifier hash different things", || format!("{}: {} and {} transcripts", s.name(), by_prover.len(), by_verifier.len()));
            // the verifier may hash other things as well: what shares the longest prefix with the honest transcript is the challenge
            let lcp = |t: &Vec<u8>| t.iter().zip(&chal).take_while(|(p, q)| p == q).count();
            let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
            seen.insert(chal.clone(), "the unchanged statement".into());
            for (i, ch) in chs.iter().enumerate() {
                if let Ch::Comp(_, _, Comp::Num(_)) = ch { continue }
                let (c2, t2, a2) = ch.apply(s, &comps, &tree, &vals);
                c.state(&(s.name(), i)); c.ops(1);
                let ctx = || format!("{}: {}", s.name(), ch.describe(s));
                let Some((_, log)) = c.guard("verifier panics", ctx, || logged(|| s.verify(&c2, &t2, &a2))) else { continue };
                // refused without looking at the challenge
                let Some(log) = log.into_iter().max_by_key(lcp) else { continue };
                if let Some(old) = seen.insert(log, ch.describe(s)) { if old != ch.describe(s) { c.fail("two different inputs are hashed in the same way", format!("{}: {} / {old}", s.name(), ch.describe(s))) } }
            }
            c.trace();
        });
    }
    r.explore("labels", "all pairs of the nine systems", |c| {
        let i = c.choose(prefixes.len()); let j = c.choose(prefixes.len());
        c.state(&(i, j)); c.ops(1);
        let ((a, x), (b, y)) = (&prefixes[i], &prefixes[j]);
        c.check(!x.is_empty(), "no label", || a.to_string());
        if i == j { return }
        let n = x.len().min(y.len());
        c.check(x[..n] != y[..n], "two systems use the same label", || format!("{a} and {b}"));
        c.check(own[a] != own[b], "two systems hash the same", || format!("{a} and {b}"));
        c.trace();
    });
}
/// A prover that knows what is not hashed picks it afterwards: for each statement component and the first message, statements
/// are searched for which a simulated proof (made for a fixed challenge) is accepted.
fn late<P: ZkP>(r: &mut Runner) {
    let ss: Vec<Box<dyn Sys<P>>> = systems::<P>().into_iter().filter(|s| s.rounds() == 0 && s.name() != "sch").collect();
    r.explore("simulated", "proofs simulated for the challenge of another first message: 6 systems, every component and field changed, two iterations", |c| {
        let s = &*ss[c.choose(ss.len())]; let d = vec![0; s.dims().len()];
        let (comps, tree) = s.prove(&d, 5, &AUX.to_vec()); let vals = s.read(&tree).unwrap();
        let chs: Vec<Ch<P>> = changes(s, &comps, &tree, &vals, true, false).into_iter().filter(|x| !matches!(x, Ch::SwapField(..))).collect();
        let ch = &chs[c.choose(chs.len())]; let again = c.choose(2) == 1;
        let (c2, t2, a2) = ch.apply(s, &comps, &tree, &vals);
        let ctx = || format!("{}, {}, {}", s.name(), ch.describe(s), if again { "repeated" } else { "once" });
        c.state(&(s.name(), ch.describe(s), again));
        let mut v = s.read(&t2).unwrap(); let mut tree = t2; let mut e = stated(s, &vals);
        for _ in 0..1 + again as usize {
            // the challenge for what there is now, and then new commitments for this challenge
            let (_, log) = logged(|| s.verify(&c2, &tree, &a2));
            if let (true, Some(l)) = (again, log.last()) { if let Some(x) = s.challenge(&c2, &digest_of(l)) { e = x } }
            if s.simulate(&c2, &mut v, &e).is_none() { return }
            tree = s.write(&tree, &v);
        }
        c.ops(2);
        // if nothing of the first message has changed, it is the honest proof
        let now = s.read(&tree).unwrap();
        let same = now.iter().all(|(k, x)| *x == vals[k]) && c2 == comps && a2 == AUX;
        let unhashed = s.fields(&tree).iter().all(|f| !first_message(f.kind, &f.name, s.name()) || now[&f.name] == vals[&f.name]) && a2 == AUX && c2.iter().zip(&comps).all(|(a, b)| a == b || matches!(a, Comp::Num(_)));
        if let Some(got) = c.guard("verifier panics", ctx, || s.verify(&c2, &tree, &a2)) { if !same && !unhashed { c.check(!matches!(got, Ok(true)), "a proof made without the witness is accepted", ctx); } }
        c.trace();
    });
}
fn digest_of(b: &[u8]) -> Vec<u8> { use digest::{ExtendableOutput, Update, XofReader}; let mut h = sha3::Shake256::default(); h.update(b); let mut o = vec![0; 256]; h.finalize_xof().read(&mut o); o }

pub fn main() -> i32 {
    let mut r = Runner::from_env("Z03");
    replaced::<ZP>(&mut r, "replacement");
    mixed::<ZP>(&mut r);
    transcripts::<ZP>(&mut r);
    late::<ZP>(&mut r);
    r.assume("challenges of 16 bits (Prm) and 32 bits with the actual SHAKE256: a change of a hashed value is noticed up to a collision of the challenges, and that every hashed value matters is decided on the transcripts");
    r.assume("the number of parties (Dec) belongs to the verifier and only determines a range, it is not hashed; equal residues in different representations count as equal");
    r.finish()
}
