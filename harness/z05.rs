// Z05: an honest proof does not reveal the witness: every response is covered by a mask of its own.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/zkfix.rs"] mod zkfix;
use big::*; use engine::*; use zkfix::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Mutex, OnceLock};

/// The masks in a proof: the responses to the challenge zero, and (with a prime) what the challenge one adds to them.
type Masks = BTreeMap<String, Z>;
fn number<P: ZkP>(v: &Val<P>) -> Option<Z> { Some(match v { Val::S(z) => z.clone(), Val::Sc(x) => scz(x), Val::N(n) => Z::n(n.clone()), _ => return None }) }
fn masks<P: ZkP>(s: &dyn Sys<P>, d: &[usize], seed: u64, flip: Option<(usize, u32)>) -> Result<(Masks, Comps<P>, usize), String> {
    let zero = s.tapes().into_iter().find(|t| is_const(s, d, t, 0)).ok_or("no challenge zero")?;
    let one = s.tapes().into_iter().find(|t| is_const(s, d, t, 1)).ok_or("no challenge one")?;
    let ((comps, a), n) = quiet(|| with_flip(flip, || with_tape(Some(&zero), || s.prove(d, seed, &vec![]))))?;
    let ((_, b), _) = quiet(|| with_flip(flip, || with_tape(Some(&one), || s.prove(d, seed, &vec![]))))?;
    let mut out = Masks::new();
    let (fa, va, vb) = (s.fields(&a), s.read(&a).ok_or("malformed")?, s.read(&b).ok_or("malformed")?);
    let responses: BTreeSet<&str> = s.responses(&comps).iter().map(|r| r.0).collect();
    for f in fa {
        let base = f.name.split('.').next().unwrap();
        if !(responses.contains(base) && !base.starts_with("cap_") || (s.name(), base) == ("mod", "commitment")) { continue }
        let (x, y) = (number(&va[&f.name]).ok_or("no number")?, number(&vb[&f.name]).ok_or("no number")?);
        if matches!(f.kind, K::Z(_)) { out.insert(format!("{}'", f.name), y.sub(&x)); }
        out.insert(f.name, x);
    }
    Ok((out, comps, n))
}
fn is_const<P: ZkP>(s: &dyn Sys<P>, d: &[usize], t: &[u8], v: i64) -> bool {
    // a challenge does not depend on the witness, and hardly on the statement
    let comps: Comps<P> = if s.name() == "mod" { vec![Comp::Pk(keys()[d[0]].n.clone())] } else { vec![] };
    match s.challenge(&comps, t) { Some(Chal::Sc(x)) => scz(&x) == Z::i(v), Some(Chal::S(z)) => z == Z::i(v), Some(Chal::Bits(b)) => b.iter().all(|x| *x == (v == 1)), Some(Chal::Ns(_)) => true, None => false }
}
/// The number of values of a mask, by the definition of the proof.
fn width<P: ZkP>(s: &dyn Sys<P>, comps: &Comps<P>, name: &str) -> Option<Nat> {
    let base = name.trim_end_matches('\'').split('.').next().unwrap();
    let second = name.ends_with('\'');
    let p = |b: u32| Nat::pow2(b);
    let n = |i: usize| comps[i].nat().clone();
    Some(match (s.name(), base, second) {
        ("enc_elg", "z1", false) | ("aff_g", "z1", false) | ("aff_g_star", "z", false) | ("dec", "z", false) => p(L + EPS),
        ("enc_elg", "z2", _) => n(0), ("enc_elg", "z3", false) => p(L + EPS).mul(&n(5)), ("enc_elg", "z3", true) => p(L).mul(&n(5)),
        ("aff_g", "z2", false) | ("aff_g_star", "z_prime", false) => p(LP + EPS),
        ("aff_g", "z3" | "z4", false) => p(L + EPS).mul(&n(6)), ("aff_g", "z3" | "z4", true) => p(L).mul(&n(6)),
        ("aff_g" | "aff_g_star", "w", _) => n(0), ("aff_g", "w_y", _) | ("aff_g_star", "lambda", _) => n(1),
        ("dec", "w", false) => p(dec_bound(comps[6].num()) + EPS), ("dec", "nu", _) => n(0),
        ("fac", "z1" | "z2", false) => p(L + EPS + PB - 2), ("fac", "w1" | "w2", false) => p(L + EPS).mul(&n(1)), ("fac", "w1" | "w2", true) => p(L).mul(&n(1)), ("fac", "v", false) => p(L + EPS).mul(&n(0)).mul(&n(1)),
        ("enc_elg", "w", _) | ("elog", _, _) | ("sch", _, _) => order(), ("prm", _, _) | ("mod", _, _) => n(0),
        _ => return None,
    })
}
struct Data { base: Masks, comps: usize, draws: usize, flips: Vec<((usize, u32), Masks)>, streams: Vec<Masks>, widths: BTreeMap<String, Nat> }
/// All proofs with one bit of the randomness inverted, and those with other streams.
fn collect<P: ZkP>(s: &dyn Sys<P>, d: &[usize], seed: u64, streams: u64) -> Result<Data, String> {
    let (base, comps, draws) = masks(s, d, seed, None)?;
    let widths = base.keys().filter_map(|k| width(s, &comps, k).map(|w| (k.clone(), w))).collect();
    let jobs: Vec<(u64, Option<(usize, u32)>)> = (0..draws).flat_map(|i| (0..64).map(move |b| (seed, Some((i, b))))).chain((1..=streams).map(|k| (seed + 1000 * k, None))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let (flips, others, bad) = (Mutex::new(vec![]), Mutex::new(vec![]), Mutex::new(None));
    std::thread::scope(|sc| for _ in 0..std::thread::available_parallelism().map_or(8, |n| n.get()) { sc.spawn(|| loop {
        let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let Some((seed, flip)) = jobs.get(i) else { break };
        match masks(s, d, *seed, *flip) {
            Ok((m, _, _)) => match flip { Some(f) => flips.lock().unwrap().push((*f, m)), None => others.lock().unwrap().push(m) },
            Err(e) => { *bad.lock().unwrap() = Some(format!("bit {flip:?}: {e}")); }
        }
    }); });
    if let Some(e) = bad.into_inner().unwrap() { return Err(e) }
    let mut flips = flips.into_inner().unwrap(); flips.sort_by_key(|x| x.0);
    Ok(Data { base, comps: comps.len(), draws, flips, streams: others.into_inner().unwrap(), widths })
}
fn hiding<P: ZkP>(r: &mut Runner, seeds: u64) {
    for s in systems::<P>() {
        let d0 = vec![0; s.dims().len()];
        let data: Vec<OnceLock<Result<Data, String>>> = (0..seeds).map(|_| OnceLock::new()).collect();
        let names: Vec<String> = match masks(&*s, &d0, 0, None) { Ok((m, c, _)) => m.into_keys().filter(|k| width(&*s, &c, k).is_some()).collect(), Err(_) => vec!["?".into()] };
        r.explore(&format!("masks {}", s.name()), &format!("{seeds} streams, every one of their bits inverted, for each of {} masks: each bit of a mask is random, the masks fill their interval and nothing else, and no two of them are related", names.len()), |c| {
            let k = c.choose(seeds as usize); let name = &names[c.choose(names.len())];
            c.label(|| format!("{name}, stream {k}")); c.state(&(s.name(), k, name));
            let ctx = || format!("{}, stream {k}, mask {name}", s.name());
            let d = match data[k].get_or_init(|| collect(&*s, &d0, 7 * k as u64, 64)) { Ok(d) => d, Err(e) => return c.fail("the prover fails", format!("{}: {e}", ctx())) };
            c.ops((d.flips.len() + d.streams.len()) as u64 / names.len() as u64); let _ = d.comps;
            let w = &d.widths[name];
            let base = &d.base[name];
            // the bits
            let seen: BTreeSet<u32> = d.flips.iter().map(|(_, m)| m[name].sub(base).abs.bits()).collect();
            // (the top bits of one stream may all lead to a rejection; the condition on the hull covers them. The
            // commitment of a modulus proof is drawn until its Jacobi symbol fits: no bit changes alone)
            let missing: Vec<u32> = (1..=w.bits().saturating_sub(6)).filter(|b| !seen.contains(b)).collect();
            c.check(s.name() == "mod" || missing.is_empty(), "a bit of a mask is not random", || format!("{}: bits {missing:?} of {}", ctx(), w.bits()));
            // the interval
            let all: Vec<&Z> = d.flips.iter().map(|x| &x.1[name]).chain(d.streams.iter().map(|m| &m[name])).chain([base]).collect();
            let signed = !matches!((s.name(), name.split('.').next().unwrap()), ("enc_elg", "w" | "z2") | ("aff_g", "w" | "w_y") | ("aff_g_star", "w" | "lambda") | ("dec", "nu") | ("elog" | "sch" | "prm" | "mod", _));
            let half = w.shr(1);
            let inside = |z: &Z| if signed { z.abs <= half } else { !z.neg && z.abs < *w };
            if let Some(z) = all.iter().find(|z| !inside(z)) { c.fail("a mask out of its interval", format!("{}: {z} for an interval of {w}", ctx())); }
            let (lo, hi) = all.iter().fold((base.clone(), base.clone()), |(l, h), z| (if z.sub(&l).neg { (*z).clone() } else { l }, if h.sub(z).neg { (*z).clone() } else { h }));
            let hull = hi.sub(&lo).abs;
            c.check(hull.mul(&Nat::u(10)) >= w.mul(&Nat::u(7)), "masks leave a part of the interval out", || format!("{}: from {lo} to {hi} in an interval of {w}", ctx()));
            // the others
            for other in &names {
                if other == name { continue }
                let alone = d.flips.iter().any(|(_, m)| m[name] != *base && m[other] == d.base[other]);
                c.check(alone, "two masks are related", || format!("{}: never changes without {other}", ctx()));
            }
            c.trace();
        });
        // responses to the challenge zero do not depend on the witness
        let dims = s.dims();
        r.explore(&format!("witness {}", s.name()), &format!("witness dimensions {dims:?}, {seeds} streams: the masks are those of any other witness"), |c| {
            let d: Vec<usize> = dims.iter().map(|n| c.choose(*n)).collect(); let k = c.choose(seeds as usize) as u64;
            c.label(|| format!("witness {d:?}, stream {k}")); c.state(&(s.name(), &d, k)); c.ops(4); c.trace();
            let ctx = || format!("{}, witness {d:?}, stream {k}", s.name());
            let (a, ca) = match masks(&*s, &d, k, None) { Ok((m, c, _)) => (m, c), Err(e) => return c.fail("the prover fails", format!("{}: {e}", ctx())) };
            // the first witness with the same keys
            let keyed = |c: &Comps<P>| c.iter().filter(|x| matches!(x, Comp::Pk(_) | Comp::Setup(..) | Comp::Num(_))).cloned().collect::<Vec<_>>();
            let Some(b) = key_dims(s.name()).map(|ks| d.iter().enumerate().map(|(i, x)| if ks.contains(&i) { *x } else { 0 }).collect::<Vec<usize>>()) else { return };
            let (b, cb) = match masks(&*s, &b, k, None) { Ok((m, c, _)) => (m, c), Err(e) => return c.fail("the prover fails", format!("{}: {e}", ctx())) };
            assert!(keyed(&ca) == keyed(&cb), "other keys");
            for (n, x) in &a { if width(&*s, &ca, n).is_some() { c.check(b.get(n) == Some(x), "a mask depends on the witness", || format!("{}: {n}", ctx())); } }
        });
    }
}
/// The dimensions that stand for the keys; `None` if there are only keys.
fn key_dims(s: &str) -> Option<&'static [usize]> { Some(match s { "enc_elg" => &[3], "aff_g" | "aff_g_star" => &[2], "dec" => &[2], "elog" | "sch" => &[], _ => return None }) }

pub fn main() -> i32 {
    let mut r = Runner::from_env("Z05");
    let seeds = r.by_tier(1, 6);
    hiding::<ZS>(&mut r, seeds);
    r.assume("parameters of the test size (primes of 128 bits, a curve of 32 bits), challenges chosen freely by replacing the digest");
    r.assume("the prover's random source is a stream of independent uniform 64-bit words; a mask all of whose bits follow bits of the source, and which fills its interval, is taken for uniform in it (uniformity of the samplers themselves is decided in C05)");
    r.finish()
}
