// S02: key generation gives every node the same key and matching shares.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
use big::*; use util::*; use engine::*; use sp16::SP16; use proto::*; use scen::*;
use std::collections::{BTreeMap, BTreeSet};
use manul::protocol::BoxedFormat;
use crate::{params::SchemeParams, dev::TestParams, k256::ProductionParams112};

const SETS: [&[u8]; 8] = [&[0, 1], &[7, 200], &[0, 1, 2], &[250, 9, 3], &[1, 2, 3, 4], &[0, 50, 100, 150, 200], &[1, 2, 3, 4, 5, 6], &[255, 0]];
fn run<S: Scen>(c: &mut Ctl, s: &S, shared: &[u8], fmt: Fmt, seed: u64, adv: &mut dyn Meddle, what: &dyn Fn() -> String) -> Option<Net<S::Pr>> {
    let mut net = match s.start(shared, fmt, seed) { Ok(n) => n, Err(e) => { c.fail("the run does not start", format!("{}: {e}", what())); return None } };
    net.run(adv);
    c.ops(net.steps);
    match finished(s, &net) { Ok(()) => { c.trace(); Some(net) } Err(e) => { c.fail(&format!("results: {}", e.split(':').next().unwrap_or("")), format!("{}: {e}", what())); None } }
}
fn configs<P: SchemeParams>(r: &mut Runner, name: &str, seeds: usize) {
    r.explore(&format!("configurations-{name}"), &format!("{} sets of 2 to 6 parties, {seeds} random streams, three values of the shared randomness, both wire formats: results are right", SETS.len()), |c| {
        let ids = *c.pick(&SETS);
        let seed = c.choose(seeds) as u64; let k = c.choose(6);
        let shared: &[u8] = [b"".as_slice(), b"shared", &[0; 64]][k % 3];
        let fmt = if k < 3 { BoxedFormat::Cbor } else { BoxedFormat::Json };
        c.label(|| format!("{ids:?} stream {seed} variant {k}"));
        c.state(&(ids, seed, k));
        run(c, &Init::<P>::of(ids), shared, fmt, seed, &mut Honest, &|| format!("{name} {ids:?} stream {seed} shared {shared:?}"));
    });
}
fn orders<P: SchemeParams>(r: &mut Runner, name: &str, sets: &[&[u8]], dev: u32) {
    for ids in sets {
        let n = ids.len();
        r.explore_dev(&format!("orders-{name}-{n}"), &format!("{n} parties, delivery orders: all permutations at every node and round, at most {dev} of them not in order: the result is that of the ordered run"), dev, |c| {
            let s = Init::<P>::of(ids);
            let mut o = Order(BTreeMap::new());
            for round in 1..=3 { for to in *ids { let k = c.deviate(factorial(n - 1)); if k > 0 { o.0.insert((round, *to), k); } } }
            c.label(|| format!("{:?}", o.0));
            c.state(&o.0);
            let what = format!("{ids:?} orders {:?}", o.0);
            let Some(a) = run(c, &s, b"shared", BoxedFormat::Cbor, 3, &mut o, &|| what.clone()) else { return };
            let Some(b) = run(c, &s, b"shared", BoxedFormat::Cbor, 3, &mut Honest, &|| what.clone()) else { return };
            let all = s.ids();
            let (x, y): (Vec<String>, Vec<String>) = (results(&a, &all).values().map(|k| json(*k)).collect(), results(&b, &all).values().map(|k| json(*k)).collect());
            c.check(x == y, "the order of delivery changes the result", || what.clone());
        });
    }
}
/// The key depends on what every party puts in, and no two parties hold the same share.
fn contributions<P: SchemeParams>(r: &mut Runner, name: &str, seeds: usize) {
    r.explore(&format!("contributions-{name}"), "every party's random stream is replaced in turn: exactly that party's share changes, and so does the key", |c| {
        let ids = *c.pick(&SETS[..6]);
        let who = *c.pick(ids);
        let seed = c.choose(seeds) as u64;
        c.label(|| format!("{ids:?} {who} {seed}")); c.state(&(ids, who, seed));
        let s = Init::<P>::of(ids);
        let what = || format!("{ids:?}, stream {seed}, other stream for {who}");
        let Some(a) = run(c, &s, b"x", BoxedFormat::Cbor, seed, &mut Honest, &what) else { return };
        let start = |seed: u64, other: u64| -> Result<Net<crate::KeyInitProtocol<P, u8>>, String> {
            let mut net = s.start(b"x", BoxedFormat::Cbor, seed)?;
            let mut o = s.start(b"x", BoxedFormat::Cbor, other)?;
            net.nodes.insert(who, o.nodes.remove(&who).expect("node"));
            Ok(net)
        };
        let mut b = match start(seed, seed + 1000) { Ok(n) => n, Err(e) => return c.fail("the run does not start", e) };
        b.run(&mut Honest); c.ops(b.steps);
        if let Err(e) = finished(&s, &b) { return c.fail("results", format!("{}: {e}", what())); }
        let all = s.ids();
        let (ra, rb) = (results(&a, &all), results(&b, &all));
        for id in &all {
            let same = json(&ra[id].public_shares()[id]) == json(&rb[id].public_shares()[id]);
            c.check(same == (*id != who), "whose share changes", || format!("{}: the share of {id} is {}", what(), if same { "the same" } else { "another one" }));
        }
        c.check(ra[&who].verifying_key() != rb[&who].verifying_key(), "the key does not depend on a party", what);
        let distinct: BTreeSet<String> = ra[&who].public_shares().values().map(json).collect();
        c.check(distinct.len() == ids.len(), "two parties have the same share", what);
        c.trace();
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S02");
    let t = r.thorough();
    configs::<SP16>(&mut r, "16", 10);
    configs::<TestParams>(&mut r, "32", if t { 4000 } else { 400 });
    configs::<ProductionParams112>(&mut r, "k256", if t { 200 } else { 20 });
    orders::<TestParams>(&mut r, "32", &[&[0, 1, 2]], 9);
    orders::<TestParams>(&mut r, "32", &[&[3, 1, 4, 9]], if t { 5 } else { 3 });
    contributions::<TestParams>(&mut r, "32", if t { 4000 } else { 400 });
    contributions::<ProductionParams112>(&mut r, "k256", if t { 20 } else { 2 });
    r.assume("Randomness is a reproducible stream per party; all streams with the given seeds are run.");
    r.finish()
}
