// S03: refreshing shares keeps the group key and produces consistent auxiliary data.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
use big::*; use util::*; use engine::*; use sp16::SP16; use proto::*; use scen::*;
use std::collections::{BTreeMap, BTreeSet};
use manul::protocol::BoxedFormat;
use crate::{params::SchemeParams, dev::TestParams, KeyShare, AuxInfo};

fn run<S: Scen>(c: &mut Ctl, s: &S, shared: &[u8], fmt: Fmt, seed: u64, adv: &mut dyn Meddle, what: &dyn Fn() -> String) -> Option<Net<S::Pr>> {
    let mut net = match s.start(shared, fmt, seed) { Ok(n) => n, Err(e) => { c.fail("the run does not start", format!("{}: {e}", what())); return None } };
    net.run(adv);
    c.ops(net.steps);
    match finished(s, &net) { Ok(()) => { c.trace(); Some(net) } Err(e) => { c.fail(&format!("results: {}", e.split(':').next().unwrap_or("")), format!("{}: {}: {e}", what(), s.name())); None } }
}
/// The moduli behind the auxiliary data: two primes of the right size and residue, whose product is the modulus.
fn moduli<P: SchemeParams>(c: &mut Ctl, aux: &BTreeMap<u8, AuxInfo<P, u8>>, what: &dyn Fn() -> String) {
    use crate::paillier::PaillierParams;
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for (id, a) in aux {
        let (p, q, n, m) = (leaf_nats(&a.secret), leaf_nats(&a.public.as_map()[id].paillier_pk), 0, 0);
        let _ = (n, m);
        // the two largest numbers of the secret key, the number of the public key
        c.check(p.len() == 2 && q.len() == 1, "shape of the keys", || format!("{}: {} secret and {} public numbers at {id}", what(), p.len(), q.len()));
        if p.len() != 2 || q.len() != 1 { return }
        c.check(p[0].mul(&p[1]) == q[0], "the modulus is not the product of the primes", || format!("{}: at {id}", what()));
        for x in &p { c.check(seen.insert(format!("{x}")), "a prime is used twice", || format!("{}: {x} at {id}", what())); c.check(x.bits() == P::Paillier::PRIME_BITS, "size of the primes", || format!("{}: {x} at {id}", what())); c.check(x.rem(&Nat::u(4)) == Nat::u(3), "residue of the primes", || format!("{}: {x} at {id}", what())); }
        // commitment parameters: another modulus
        let rp = leaf_nats(&a.public.as_map()[id].rp_params);
        c.check(rp.iter().all(|x| *x != q[0]), "the commitment parameters use the encryption modulus", || format!("{}: at {id}", what()));
    }
}
/// The byte strings of a serialized value as little-endian numbers... in whichever order of bytes makes them odd of full size.
fn leaf_nats<T: serde::Serialize>(x: &T) -> Vec<Nat> {
    fn walk(v: &serde_json::Value, out: &mut Vec<Nat>) { match v {
        serde_json::Value::String(s) => { let h = s.trim_start_matches("0x"); if h.len() >= 16 && h.chars().all(|c| c.is_ascii_hexdigit()) { let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect(); out.push(Nat::from_be(&b)); } }
        serde_json::Value::Array(a) => a.iter().for_each(|x| walk(x, out)),
        serde_json::Value::Object(o) => o.values().for_each(|x| walk(x, out)), _ => {} } }
    let mut out = vec![]; walk(&serde_json::to_value(x).unwrap(), &mut out); out
}
fn histories<P: SchemeParams>(r: &mut Runner, name: &str, sets: &[&[u8]], seeds: usize, max_len: usize) {
    r.explore(&format!("histories-{name}"), &format!("{} sets of parties, shares from key generation or a dealer, 1..={max_len} refreshes with {seeds} streams: the key stays, shares match and change, every share change counts", sets.len()), |c| {
        let ids = *c.pick(sets); let all = ids_of(ids);
        let source = c.choose(2); let seed = c.choose(seeds) as u64; let len = 1 + c.choose(max_len);
        c.label(|| format!("{ids:?} source {source} stream {seed} refreshes {len}"));
        c.state(&(ids, source, seed, len));
        let what = || format!("{name} {ids:?} source {source} stream {seed} refreshes {len}");
        let mut keys: BTreeMap<u8, KeyShare<P, u8>> = if source == 0 { KeyShare::new_centralized(&mut DetRng(seed), &all, None) } else {
            let s = Init::<P>::of(ids);
            let Some(n) = run(c, &s, b"i", BoxedFormat::Cbor, seed, &mut Honest, &what) else { return };
            results(&n, &all).into_iter().map(|(i, k)| (i, k.clone())).collect()
        };
        let vk = keys[&ids[0]].verifying_key();
        let mut history: Vec<BTreeMap<u8, String>> = vec![keys.iter().map(|(i, k)| (*i, json(&k.public_shares()[i]))).collect()];
        for step in 0..len {
            let s = Refresh::<P>::of(ids);
            let Some(n) = run(c, &s, &[step as u8], if step % 2 == 0 { BoxedFormat::Cbor } else { BoxedFormat::Json }, seed * 10 + step as u64, &mut Honest, &what) else { return };
            let res = results(&n, &all);
            let mut next = BTreeMap::new();
            for (i, k) in keys { match k.update(res[&i].0.clone()) { Ok(k) => { next.insert(i, k); } Err(e) => return c.fail("update is refused", format!("{}: {e}", what())) } }
            if let Err(e) = shares_right::<P>(&next, &all, Some(&vk)) { return c.fail("refreshed shares", format!("{} after {}: {e}", what(), step + 1)); }
            let pubs: BTreeMap<u8, String> = next.iter().map(|(i, k)| (*i, json(&k.public_shares()[i]))).collect();
            for i in &all { c.check(!large::<P>() || history.iter().all(|h| h[i] != pubs[i]), "a share came back", || format!("{}: party {i} after {}", what(), step + 1)); }
            history.push(pubs);
            moduli::<P>(c, &res.iter().map(|(i, x)| (*i, x.1.clone())).collect(), &what);
            keys = next;
        }
        // shares of different epochs do not mix
        c.trace();
    });
}
fn aux_gen<P: SchemeParams>(r: &mut Runner, name: &str, sets: &[&[u8]], seeds: usize) {
    r.explore(&format!("aux-{name}"), &format!("{} sets of parties, {seeds} streams, both formats: auxiliary data agree and belong to their owners; every subset of it too", sets.len()), |c| {
        let ids = *c.pick(sets); let all = ids_of(ids); let seed = c.choose(seeds) as u64;
        c.label(|| format!("{ids:?} {seed}")); c.state(&(ids, seed));
        let what = || format!("{name} {ids:?} stream {seed}");
        let s = Aux::<P>::of(ids);
        let Some(n) = run(c, &s, b"a", if seed % 2 == 0 { BoxedFormat::Cbor } else { BoxedFormat::Json }, seed, &mut Honest, &what) else { return };
        let aux: BTreeMap<u8, AuxInfo<P, u8>> = results(&n, &all).into_iter().map(|(i, k)| (i, k.clone())).collect();
        moduli::<P>(c, &aux, &what);
        for sub in subsets(&all) { if sub.is_empty() { continue }
            let mut m = BTreeMap::new();
            for i in &all { let r = aux[i].clone().subset(&sub); c.check(r.is_ok() == sub.contains(i), "subset", || format!("{}: {sub:?} for {i}", what())); if let Ok(x) = r { m.insert(*i, x); } }
            if let Err(e) = aux_right::<P>(&m, &sub) { c.fail("subset data", format!("{}: {sub:?}: {e}", what())); }
            let pick = |x: &AuxInfo<P, u8>, i: &u8| json(&x.public.as_map().get(i).map(|p| json(p)));
            let mut more = sub.clone(); more.extend((0..=255u8).find(|i| !all.contains(i)));
            for i in &all { c.check(aux[i].clone().subset(&more).is_err(), "subset with a party without data", || format!("{}: {more:?} for {i}", what())); }
            for (i, x) in &m { for j in &sub { c.check(pick(x, j) == pick(&aux[i], j), "subset changes data", || format!("{}: {sub:?}", what())); } }
        }
    });
}
fn orders<S: Scen>(r: &mut Runner, name: &str, rounds: u8, dev: u32, make: impl Fn() -> S + Sync, show: impl Fn(&<S::Pr as manul::protocol::Protocol<u8>>::Result) -> String + Sync) {
    let n = make().ids().len();
    r.explore_dev(&format!("orders-{name}"), &format!("{n} parties, at most {dev} nodes and rounds with another delivery order (all permutations): the result is that of the ordered run"), dev, |c| {
        let s = make();
        let mut o = Order(BTreeMap::new());
        for round in 1..=rounds { for to in s.ids() { let k = c.deviate(factorial(n - 1)); if k > 0 { o.0.insert((round, to), k); } } }
        c.label(|| format!("{:?}", o.0)); c.state(&o.0);
        let what = format!("orders {:?}", o.0);
        let Some(a) = run(c, &s, b"shared", BoxedFormat::Cbor, 3, &mut o, &|| what.clone()) else { return };
        let Some(b) = run(c, &s, b"shared", BoxedFormat::Cbor, 3, &mut Honest, &|| what.clone()) else { return };
        let all = s.ids();
        let (x, y): (Vec<String>, Vec<String>) = (results(&a, &all).values().map(|k| show(*k)).collect(), results(&b, &all).values().map(|k| show(*k)).collect());
        c.check(x == y, "the order of delivery changes the result", || what.clone());
    });
}
/// A refresh for other parties or for another owner is not applied.
fn misuse(r: &mut Runner) {
    r.explore("misuse", "all pairs of a key share and a share change of 2 to 4 parties (sets equal, disjoint, overlapping): applied exactly when the owner and the set of parties agree, and then the key stays", |c| {
        const SETS: [&[u8]; 5] = [&[0, 1], &[0, 2], &[0, 1, 2], &[0, 1, 3], &[0, 1, 2, 3]];
        let (a, b) = (*c.pick(&SETS), *c.pick(&SETS));
        c.label(|| format!("{a:?} {b:?}")); c.state(&(a, b));
        let what = || format!("shares of {a:?}, change of {b:?}");
        let keys = KeyShare::<SP16, u8>::new_centralized(&mut DetRng(5), &ids_of(a), None);
        let s = Refresh::<SP16>::of(b);
        let Some(n) = run(c, &s, b"m", BoxedFormat::Cbor, 1, &mut Honest, &what) else { return };
        for (i, k) in &keys { for (j, ch) in results(&n, &ids_of(b)) {
            let Some(got) = c.guard("update panics", what, || k.clone().update(ch.0.clone())) else { return };
            c.check(got.is_ok() == (*i == j && a == b), "update", || format!("{}: owners {i} and {j}: {}", what(), got.is_ok()));
        } }
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S03");
    let t = r.thorough();
    let sets: &[&[u8]] = &[&[0, 1], &[7, 200], &[0, 1, 2], &[255, 3, 9], &[1, 2, 3, 4]];
    histories::<SP16>(&mut r, "16", sets, if t { 60 } else { 6 }, if t { 4 } else { 3 });
    histories::<TestParams>(&mut r, "32", sets, if t { 60 } else { 8 }, if t { 4 } else { 2 });
    aux_gen::<SP16>(&mut r, "16", sets, if t { 400 } else { 30 });
    aux_gen::<TestParams>(&mut r, "32", sets, if t { 400 } else { 30 });
    orders(&mut r, "refresh", 3, if t { 3 } else { 2 }, || Refresh::<SP16>::of(&[0, 1, 2]), |x| json(x));
    orders(&mut r, "aux", 3, if t { 3 } else { 2 }, || Aux::<SP16>::of(&[0, 1, 2]), |x| json(x));
    misuse(&mut r);
    r.assume("Randomness is a reproducible stream per party; all streams with the given seeds are run.");
    r.finish()
}
