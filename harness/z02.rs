// Z02: every verification condition is enforced.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/zkfix.rs"] mod zkfix;
use big::*; use util::*; use tree::*; use engine::*; use zkfix::*;
use crate::uint::PublicSigned;
use crypto_bigint::{Uint, U256, U512};

/// A change to a proof: before (`Resp`, `Comp`) or after (`Leaf`, `Stmt`, `Wide`) the commitments are calculated from the responses.
#[derive(Clone)]
enum Mv<P: ZkP> { Resp(String, &'static str, Val<P>), Comp(usize, &'static str, Comp<P>), Leaf(String, &'static str, Val<P>), Stmt(usize, &'static str, Comp<P>), Wide(String), Two(Field, Field, bool) }

fn keep(name: &str, n: usize, all: bool) -> bool { match name.rsplit_once('.') { Some((_, i)) => { let i: usize = i.parse().unwrap(); all || i < 2 || i + 1 == n } None => true } }
fn moves<P: ZkP>(s: &dyn Sys<P>, comps: &Comps<P>, tree: &Value, vals: &Vals<P>, all: bool) -> Vec<Mv<P>> {
    let mut r = vec![]; let fields = s.fields(tree);
    for (name, range) in s.responses(comps) {
        for f in fields.iter().filter(|f| f.name == name || f.name.rsplit_once('.').map(|x| x.0 == name).unwrap_or(false)) {
            if keep(&f.name, s.rounds(), all) { for (w, v) in resp_alts(f.kind, &vals[&f.name], range, comps) { r.push(Mv::Resp(f.name.clone(), w, v)) } }
        }
    }
    for i in 0..comps.len() { for (w, c) in comp_alts(comps, i) { r.push(Mv::Comp(i, w, c)) } }
    for f in &fields { if keep(&f.name, s.rounds(), all) { for (w, v) in alts(f.kind, &vals[&f.name], comps) { r.push(Mv::Leaf(f.name.clone(), w, v)) } if matches!(f.kind, K::Z(_)) { r.push(Mv::Wide(f.name.clone())) } } }
    for i in 0..comps.len() { for (w, c) in comp_alts(comps, i) { r.push(Mv::Stmt(i, w, c)) } }
    r
}
/// Errors in two fields from the same group, which cancel each other in the sum (or the difference) of two equations.
fn cancelling<P: ZkP>(s: &dyn Sys<P>, tree: &Value, all: bool) -> Vec<Mv<P>> {
    let fields: Vec<Field> = s.fields(tree).into_iter().filter(|f| keep(&f.name, s.rounds(), all && s.rounds() < 8) && !matches!(f.kind, K::Bits | K::Bool | K::Ex | K::Un(_))).collect();
    let mut r = vec![];
    for (i, f) in fields.iter().enumerate() { for g in &fields[i + 1..] { if f.kind == g.kind { for same in [false, true] { r.push(Mv::Two(f.clone(), g.clone(), same)) } } } }
    r
}
fn shifted<P: ZkP>(k: K, v: &Val<P>, comps: &Comps<P>, up: bool) -> Option<Val<P>> {
    let one = if up { Z::i(1) } else { Z::i(-1) };
    let by = |n: &Nat, m: &Nat| { let two = Nat::u(2); let x = if up { two } else { two.inv(m)? }; Some(Val::N(mm(n, &x, m))) };
    Some(match k {
        K::Sc => Val::Sc(v.c() + sc::<P>(&one)), K::Pt => Val::Pt(v.p() + gen::<P>(&one)), K::Z(_) | K::Es => Val::S(v.s().add(&one)),
        K::Ct(i) => { let n = comps[i].nat(); by(v.n(), &n.mul(n))? } K::Rp(i) | K::Mr(i) => by(v.n(), comps[i].nat())?,
        _ => return None,
    })
}
fn describe<P: ZkP>(s: &dyn Sys<P>, m: &Mv<P>) -> String { match m {
    Mv::Resp(f, w, v) => format!("made with {f} = {w} ({v})"), Mv::Comp(i, w, _) => format!("made for {} {w}", s.comp_names()[*i]),
    Mv::Leaf(f, w, _) => format!("{f} replaced: {w}"), Mv::Stmt(i, w, _) => format!("shown for {} {w}", s.comp_names()[*i]), Mv::Wide(f) => format!("{f} with the largest declared bound"),
    Mv::Two(f, g, same) => format!("{} shifted, {} shifted {}", f.name, g.name, if *same { "likewise" } else { "back" }) } }

fn conditions<P: ZkP>(r: &mut Runner, id: &str, only_lists: bool, ntapes: usize, max_dev: u32) {
    let all = r.thorough();
    for s in systems::<P>() {
        let s = &*s;
        if only_lists && s.rounds() == 0 { continue }
        let tapes = s.tapes(); let nt = tapes.len().min(ntapes);
        let aux = vec![1u8, 2, 3];
        let d = vec![0; s.dims().len()];
        // one honest proof for each challenge, and everything that can be done to it
        let base: Vec<_> = tapes[..nt].iter().map(|t| { let (comps, tree) = with_tape(Some(t), || s.prove(&d, 3, &aux)); let vals = s.read(&tree).expect("the fields of the proof"); let mut mv = moves(s, &comps, &tree, &vals, all); if max_dev == 1 { mv.extend(cancelling(s, &tree, all)) } (comps, tree, vals, mv) }).collect();
        let name = format!("{} {id}{}", s.name(), if max_dev > 1 { " pairs" } else { "" });
        let bound = format!("{nt} challenges; a simulated proof with up to {max_dev} of {} changes: responses at the ends of their ranges, other statements, replaced proof fields, replaced statement components", base[0].3.len());
        r.explore_dev(&name, &bound, max_dev, |c| {
            let t = c.choose(nt); let (comps, tree, vals, mv) = &base[t];
            let mut picked: Vec<usize> = vec![];
            for _ in 0..max_dev { let from = picked.last().map(|x| x + 1).unwrap_or(0); if from >= mv.len() { break } let i = c.deviate(mv.len() - from + 1); if i == 0 { break } picked.push(from + i - 1); }
            let ms: Vec<&Mv<P>> = picked.iter().map(|i| &mv[*i]).collect();
            c.label(|| ms.iter().map(|m| describe(s, m)).collect::<Vec<_>>().join("; "));
            c.state(&(s.name(), id, t, &picked));
            let ctx = || format!("{} ({id}), challenge {:02x?}: {}", s.name(), tapes[t], if ms.is_empty() { "no change".into() } else { ms.iter().map(|m| describe(s, m)).collect::<Vec<_>>().join("; ") });
            let (mut comps, mut vals) = (comps.clone(), vals.clone());
            for m in &ms { match m { Mv::Resp(f, _, v) => { vals.insert(f.clone(), v.clone()); } Mv::Comp(i, _, x) => comps[*i] = x.clone(), _ => {} } }
            if ms.iter().any(|m| matches!(m, Mv::Resp(..) | Mv::Comp(..))) {
                let Some(ch) = s.challenge(&comps, &tapes[t]) else { return };
                // there may be no such proof, e.g. if an inverse does not exist
                if s.simulate(&comps, &mut vals, &ch).is_none() { return }
            }
            for m in &ms { match m { Mv::Leaf(f, _, v) => { vals.insert(f.clone(), v.clone()); } Mv::Stmt(i, _, x) => comps[*i] = x.clone(),
                Mv::Two(f, g, same) => { let (Some(a), Some(b)) = (shifted(f.kind, &vals[&f.name], &comps, true), shifted(g.kind, &vals[&g.name], &comps, *same)) else { return }; vals.insert(f.name.clone(), a); vals.insert(g.name.clone(), b); }
                _ => {} } }
            let mut tree = s.write(tree, &vals);
            for m in &ms { if let Mv::Wide(f) = m {
                let fl = s.fields(&tree).into_iter().find(|x| x.name == *f).unwrap(); let z = vals[f].s();
                let x = match fl.kind { K::Z(0) => to_tree(&ps::<U256>(z, 255)), K::Z(1) => to_tree(&ps::<U512>(z, 511)), _ => to_tree(&ps::<Uint<10>>(z, 639)) };
                *get_mut(&mut tree, &fl.path) = x;
            } }
            let Some(ch) = s.challenge(&comps, &tapes[t]) else { return };
            let want = s.reference(&comps, &tree, &ch);
            c.ops(1);
            match (c.guard("verifier panics", ctx, || with_tape(Some(&tapes[t]), || s.verify(&comps, &tree, &aux))), want) {
                (Some(got), Verdict::Reject(why)) => { c.check(!matches!(got, Ok(true)), &format!("accepted in spite of: {why}"), ctx); }
                (Some(got), Verdict::Accept) => { c.check(matches!(got, Ok(true)), "rejected although every condition holds", || format!("{}: {got:?}", ctx())); }
                _ => {}
            }
            c.trace();
        });
    }
}

// ------------------------------------------------------------------ proofs about moduli that are not Paillier-Blum moduli
fn sqrt_p(a: &Nat, p: &Nat) -> Option<Nat> { let r = a.powmod(&p.add(&Nat::one()).shr(2), p); if mm(&r, &r, p) == a.rem(p) { Some(r) } else { None } }
fn next_prime(mut n: Nat, m4: u64) -> Nat { loop { if n.rem(&Nat::u(4)) == Nat::u(m4) && n.is_prime() { return n } n = n.add(&Nat::one()) } }
/// Elements that satisfy both equations of the Mod proof for a modulus with the given (3 mod 4) prime factors, with only `a` used.
fn mod_elements<P: ZkP>(n: &Nat, ps: &[Nat], ys: &[Nat]) -> Option<Vec<(Nat, bool, Nat)>> {
    let phi = ps.iter().fold(Nat::one(), |a, p| a.mul(&p.sub(&Nat::one())));
    let d = n.inv(&phi)?;
    ys.iter().map(|y| {
        let z = y.powmod(&d, n);
        for a in [false, true] {
            let t = if a { n.sub(y) } else { y.clone() };
            let roots: Option<Vec<Nat>> = ps.iter().map(|p| { let r = sqrt_p(&t, p)?; sqrt_p(&r, p).or_else(|| sqrt_p(&p.sub(&r), p)) }).collect();
            if let Some(rs) = roots { let x = if rs.len() == 1 { rs[0].clone() } else { let (p, q) = (&ps[0], &ps[1]); let h = Z::n(rs[0].clone()).sub(&Z::n(rs[1].clone())).mul(&Z::n(q.inv(p).unwrap())).modulo(p); rs[1].add(&h.mul(q)).rem(n) }; return Some((x, a, z)) }
        }
        None
    }).collect()
}
fn moduli<P: ZkP>(r: &mut Runner) {
    let half: Vec<Nat> = (0..3).map(|i| next_prime(keys()[i].p.add(&Nat::u(10)), 3)).collect();
    // products of 2^127-sized primes do not fill 256 bits, but the prime moduli have to
    let primes: Vec<Nat> = (0..3).map(|i| next_prime(keys()[i].n.add(&Nat::u(4)), 3)).collect();
    let s = Mod;
    let s: &dyn Sys<P> = &s;
    r.explore("mod, other moduli", "prime moduli, products of two primes with w = 0, 1, a factor; each with elements that satisfy both equations, for challenges that are fourth powers up to the sign", |c| {
        let kind = c.choose(6); let i = c.choose(3);
        let (n, ps, w, want): (Nat, Vec<Nat>, Nat, bool) = match kind {
            0 => (primes[i].clone(), vec![primes[i].clone()], Nat::u(3), false),
            1 => (primes[i].clone(), vec![primes[i].clone()], primes[i].sub(&Nat::one()), false),
            2 => { let k = &keys()[i]; (k.n.clone(), vec![k.p.clone(), k.q.clone()], k.p.clone(), false) }
            3 => { let k = &keys()[i]; (k.n.clone(), vec![k.p.clone(), k.q.clone()], Nat::zero(), false) }
            4 => { let k = &keys()[i]; (k.n.clone(), vec![k.p.clone(), k.q.clone()], k.q.mul(&Nat::u(5)).rem(&k.n), false) }
            _ => { let k = &keys()[i]; (k.n.clone(), vec![k.p.clone(), k.q.clone()], Nat::one(), true) }
        };
        let _ = &half;
        // challenges that are fourth powers, so that no factor w is needed
        let ys: Vec<Nat> = (0..s.rounds()).map(|j| Nat::u(3 + j as u64 + 10 * i as u64).powmod(&Nat::u(4 * 17), &n)).map(|y| if kind == 1 { Z::n(y).neg().modulo(&n) } else { y }).collect();
        let len = (n.bits() as usize).div_ceil(8);
        let tape: Vec<u8> = ys.iter().flat_map(|y| y.to_be(len)).collect();
        let comps: Comps<P> = vec![Comp::Pk(n.clone())];
        let ctx = || format!("modulus {n}, {} prime factors, w = {w}", ps.len());
        c.label(ctx); c.state(&(kind, i)); c.ops(1);
        let Some(Chal::Ns(got)) = s.challenge(&comps, &tape) else { c.check(kind < 2, "the modulus is refused", ctx); return };
        if got != ys { c.fail("challenge is not the derived one", ctx()); return }
        let els = mod_elements::<P>(&n, &ps, &ys).expect("the elements exist");
        let (_, template) = s.prove(&[i], 1, &vec![]);
        let mut v = s.read(&template).unwrap();
        v.insert("commitment".into(), Val::N(w.clone()));
        for (j, (x, a, z)) in els.iter().enumerate() { for (f, y) in [("x", Val::N(x.clone())), ("a", Val::B(*a)), ("b", Val::B(false)), ("z", Val::N(z.clone())), ("challenge", Val::N(ys[j].clone()))] { v.insert(format!("{f}.{j}"), y); } }
        let tree = s.write(&template, &v);
        let verdict = s.conds(&comps, &v, &Chal::Ns(ys.clone()));
        assert_eq!(verdict == Verdict::Accept, want, "{verdict:?}");
        match c.guard("verifier panics", ctx, || with_tape(Some(&tape), || s.verify(&comps, &tree, &vec![]))) {
            Some(Ok(ok)) => { c.check(ok == want, if want { "rejected although every condition holds" } else { "accepted in spite of the modulus or w" }, ctx); }
            Some(Err(_)) => { c.check(!want, "refused", ctx); }
            None => {}
        }
        c.trace();
    });
}

// ------------------------------------------------------------------ honest provers with witnesses outside of their range
fn outside<P: ZkP>(r: &mut Runner) {
    // what a cheating prover could do: answer truthfully about a witness that is too large; the response then leaves its range
    // for all but a few masks, whatever the challenge (other than 0)
    let ss: Vec<Box<dyn Sys<P>>> = systems::<P>().into_iter().filter(|s| ["enc_elg", "aff_g", "aff_g_star", "dec", "fac"].contains(&s.name())).collect();
    r.explore("witness out of range", "the five range proofs, every response with a range, witnesses 2^k times too large for k = 2..8, both signs, all challenges", |c| {
        let s = &*ss[c.choose(ss.len())]; let tapes = s.tapes(); let t = c.choose(tapes.len()); let sign = c.choose(2) == 1; let k = 2 + c.choose(7) as u32;
        let d = vec![0; s.dims().len()]; let aux = vec![9u8];
        let (comps, tree) = with_tape(Some(&tapes[t]), || s.prove(&d, 5, &aux));
        let rs: Vec<_> = s.responses(&comps).into_iter().filter_map(|(n, b)| b.map(|b| (n, b))).collect();
        let (n, b) = rs[c.choose(rs.len())];
        let mut v = s.read(&tree).unwrap();
        let f = if s.rounds() > 0 { format!("{n}.{}", s.rounds() - 1) } else { n.to_string() };
        let old = v[&f].s().clone();
        let z = Z::new(sign, Nat::pow2(b - 1 + k)).add(&old);
        if z.abs.bits() >= 255 && n != "w" && s.name() != "fac" { return }
        v.insert(f.clone(), Val::S(z.clone()));
        let ch = s.challenge(&comps, &tapes[t]).unwrap();
        if s.simulate(&comps, &mut v, &ch).is_none() { return }
        let ctx = || format!("{}, challenge {t}, {f} = {z}, range 2^{b}", s.name());
        c.state(&(s.name(), t, sign, k, n)); c.ops(1);
        match c.guard("verifier panics", ctx, || with_tape(Some(&tapes[t]), || s.verify(&comps, &s.write(&tree, &v), &aux))) { Some(got) => { c.check(!matches!(got, Ok(true)), "a response outside of its range is accepted", ctx); } None => {} }
        c.trace();
    });
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("Z02");
    let th = r.thorough();
    let _ = PublicSigned::<U256>::zero;
    conditions::<ZS>(&mut r, "small challenges", false, 100, 1);
    conditions::<ZS>(&mut r, "small challenges", false, if th { 8 } else { 1 }, 2);
    conditions::<ZP>(&mut r, "full size", true, if th { 5 } else { 1 }, 1);
    moduli::<ZS>(&mut r);
    outside::<ZS>(&mut r);
    r.assume("the challenge is chosen freely (the digest is replaced), the rest is the real verifier with the parameters of the test size");
    r.assume("pairs of changes are explored for a few challenges, single changes for all challenges of the small challenge spaces and for boundary challenges otherwise");
    r.finish()
}
