// S04: every quorum of threshold shares represents the same key, also after resharing.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/sp16.rs"] mod sp16;
#[path = "common/tree.rs"] mod tree;
#[path = "common/proto.rs"] mod proto;
#[path = "common/scen.rs"] mod scen;
#[path = "common/deviate.rs"] mod deviate;
use big::*; use util::*; use engine::*; use sp16::SP16; use proto::*; use scen::*; use deviate::*;
use std::collections::{BTreeMap, BTreeSet};
use ecdsa::SigningKey;
use manul::protocol::BoxedFormat;
use crate::{params::SchemeParams, dev::TestParams, k256::ProductionParams112, KeyShare, ThresholdKeyShare, KeyResharing, OldHolder, NewHolder};

fn first_words(e: &str) -> String { e.split(|c: char| c.is_ascii_digit() || c == '{').next().unwrap_or("").trim().to_string() }
fn dealt<P: SchemeParams>(r: &mut Runner, name: &str, max_n: usize, seeds: usize) {
    let q = order::<P>();
    let keys: Vec<Option<Nat>> = vec![None, Some(Nat::u(1)), Some(Nat::u(2)), Some(q.sub(&Nat::u(1))), Some(q.shr(1))];
    r.explore(&format!("dealt-{name}"), &format!("all thresholds t <= n <= {max_n}, random and boundary keys, {seeds} streams: every quorum, and every smaller set"), |c| {
        let n = 1 + c.choose(max_n); let t = 1 + c.choose(n); let k = c.choose(keys.len()); let seed = c.choose(seeds) as u64; let base = *c.pick(&[0u8, 240]);
        let ids: Ids = (0..n as u8).map(|i| base + 3 * i).collect();
        c.label(|| format!("{t} of {ids:?}, key {k}, stream {seed}")); c.state(&(n, t, k, seed, base));
        let what = || format!("{name} {t} of {ids:?}, key {:?}, stream {seed}", keys[k]);
        let sk = keys[k].as_ref().map(|k| SigningKey::<P::Curve>::from_slice(&k.to_be(crate::curve::Scalar::<P>::repr_len())).expect("key"));
        let Some(s) = c.guard("new_centralized panics", what, || ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(seed + 99), &ids, t, sk.as_ref())) else { return };
        let s = match s { Ok(s) => s, Err(e) => return c.fail("new_centralized is refused", format!("{}: {e}", what())) };
        c.ops(1);
        let vk = match &sk { Some(sk) => *sk.verifying_key(), None => match quiet(|| s[ids.first().unwrap()].verifying_key()) { Ok(Ok(v)) => v, e => return c.fail("verifying_key", format!("{}: {e:?}", what())) } };
        c.check(s.keys().copied().collect::<Ids>() == ids, "parties", what);
        if let Err(e) = threshold_right::<P>(&s, &ids, t, &vk) { c.fail(&format!("shares: {}", first_words(&e)), format!("{}: {e}", what())); }
        // a larger threshold than there are parties
        if n < max_n { c.check(matches!(quiet(|| ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(1), &ids, n + 1, None).is_err()), Ok(true)), "threshold above the number of parties", what); }
        c.trace();
    });
    r.explore(&format!("converted-{name}"), &format!("additive shares of 1..={max_n} parties turned into threshold shares and back"), |c| {
        let n = 1 + c.choose(max_n); let seed = c.choose(seeds) as u64; let base = *c.pick(&[0u8, 240]);
        let ids: Ids = (0..n as u8).map(|i| base + 3 * i).collect();
        c.label(|| format!("{ids:?}, stream {seed}")); c.state(&(n, seed, base));
        let what = || format!("{name} {ids:?}, stream {seed}");
        let add = KeyShare::<P, u8>::new_centralized(&mut DetRng(seed + 7), &ids, None);
        let vk = add[ids.first().unwrap()].verifying_key();
        let Some(s) = c.guard("from_key_share panics", what, || add.iter().map(|(i, k)| (*i, ThresholdKeyShare::from_key_share(k))).collect::<BTreeMap<_, _>>()) else { return };
        c.ops(n as u64);
        if let Err(e) = threshold_right::<P>(&s, &ids, n, &vk) { return c.fail(&format!("shares: {}", first_words(&e)), format!("{}: {e}", what())); }
        for i in &ids { let b = s[i].to_key_share(&ids).expect("checked"); c.check(json(&b) == json(&add[i]), "there and back", || format!("{}: {i}", what())); }
        c.trace();
    });
}
fn reshare<P: SchemeParams>(c: &mut Ctl, s: &Reshare<P>, fmt: Fmt, seed: u64, o: &mut dyn Meddle, what: &dyn Fn() -> String) -> Option<BTreeMap<u8, ThresholdKeyShare<P, u8>>> {
    let mut net = match s.start(b"r", fmt, seed) { Ok(n) => n, Err(e) => { c.fail("the resharing does not start", format!("{}: {e}", what())); return None } };
    net.run(o);
    c.ops(net.steps);
    match finished(s, &net) {
        Ok(()) => { c.trace(); Some(results(&net, &s.new).into_iter().map(|(i, k)| (i, k.clone().unwrap())).collect()) }
        Err(e) => { c.fail(&format!("resharing: {}", first_words(&e)), format!("{}: {}: {e}", what(), s.name())); None }
    }
}
fn resharing<P: SchemeParams>(r: &mut Runner, name: &str, universe: u8, max_old: usize, seeds: usize) {
    let all: Ids = (0..universe).map(|i| 10 * i + 1).collect();
    let sets: Vec<Ids> = subsets(&all).into_iter().filter(|s| !s.is_empty()).collect();
    r.explore(&format!("resharing-{name}"), &format!("{universe} parties: every old group of up to {max_old}, old threshold, contributing quorum, new group and new threshold, {seeds} streams: the new shares represent the old key"), |c| {
        let old_sets: Vec<&Ids> = sets.iter().filter(|s| s.len() <= max_old && s.first() == all.first()).collect();
        let old = (*c.pick(&old_sets)).clone(); let t = 1 + c.choose(old.len());
        let qs: Vec<Ids> = subsets(&old).into_iter().filter(|q| q.len() >= t).collect();
        let quorum = c.pick(&qs).clone(); let new = c.pick(&sets).clone(); let nt = 1 + c.choose(new.len()); let seed = c.choose(seeds) as u64;
        c.label(|| format!("{t} of {old:?} by {quorum:?} to {nt} of {new:?}, stream {seed}")); c.state(&(&old, t, &quorum, &new, nt, seed));
        let what = || format!("{name} stream {seed}");
        let s = Reshare { old: ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(seed + 3), &old, t, None).expect("shares"), quorum, new, new_threshold: nt };
        reshare(c, &s, if seed % 2 == 0 { BoxedFormat::Cbor } else { BoxedFormat::Json }, seed, &mut Honest, &what);
    });
}
/// Several resharings in a row.
fn chains<P: SchemeParams>(r: &mut Runner, name: &str, len: usize) {
    let all: Ids = [1, 2, 3, 4].into();
    let groups: Vec<Ids> = subsets(&all).into_iter().filter(|s| s.len() >= 2).collect();
    r.explore(&format!("chains-{name}"), &format!("all sequences of {len} resharings among 4 parties (groups of at least 2, threshold 2 or all, the first quorum contributes); the last shares sign for the first key"), |c| {
        let mut old: Ids = [1, 2, 3].into(); let mut t = 2;
        let mut shares = ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(11), &old, t, None).expect("shares");
        let vk = shares[&1].verifying_key().expect("key");
        for step in 0..len {
            let new = c.pick(&groups).clone(); let nt = if c.choose(2) == 0 { 2 } else { new.len() };
            c.label(|| format!("to {nt} of {new:?}"));
            let quorum: Ids = old.iter().copied().take(t).collect();
            let s = Reshare { old: shares.clone(), quorum, new: new.clone(), new_threshold: nt };
            let Some(n) = reshare(c, &s, BoxedFormat::Cbor, step as u64, &mut Honest, &|| format!("{name} step {step}")) else { return };
            c.state(&json(&n));
            shares = n; old = new; t = nt;
            if let Err(e) = threshold_right::<P>(&shares, &old, t, &vk) { return c.fail(&format!("chain: {}", first_words(&e)), e); }
        }
    });
}
fn orders<P: SchemeParams>(r: &mut Runner, name: &str) {
    let plans: Vec<(Ids, usize, Ids, usize)> = vec![([1, 2, 3].into(), 2, [4, 5].into(), 2), ([1, 2, 3].into(), 3, [2, 3, 4].into(), 2), ([1, 2, 3, 4].into(), 2, [1, 2, 3, 4].into(), 3), ([1, 2, 3, 4].into(), 4, [9].into(), 1)];
    r.explore(&format!("orders-{name}"), "four plans of resharing by 3 or 4 old holders: every combination of delivery orders (all permutations at the first two nodes): the result is that of the ordered run", |c| {
        let (old, t, new, nt) = c.pick(&plans).clone();
        let s = Reshare { old: ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(4), &old, t, None).expect("shares"), quorum: old.clone(), new: new.clone(), new_threshold: nt };
        let mut o = Order(BTreeMap::new());
        for (i, to) in s.new.iter().enumerate() { let n = factorial(old.iter().filter(|x| *x != to).count()); let k = c.choose(if i < 2 { n } else { 2.min(n) }); o.0.insert((1, *to), if i < 2 { k } else { k * (n - 1) }); }
        c.label(|| format!("{} {:?}", s.name(), o.0)); c.state(&(&old, &new, &o.0));
        let what = || format!("{name} orders {:?}", o.0);
        let Some(a) = reshare(c, &s, BoxedFormat::Cbor, 1, &mut Order(o.0.clone()), &what) else { return };
        let Some(b) = reshare(c, &s, BoxedFormat::Cbor, 1, &mut Honest, &what) else { return };
        c.check(json(&a) == json(&b), "the order of delivery changes the result", what);
    });
}
/// One old holder deviates: new holders that finish have right shares all the same.
fn deviating(r: &mut Runner, name: &str, t: usize, quorum: &[u8], nt: usize, new: &[u8]) {
    type P = TestParams;
    let old: Ids = [0, 1, 2].into();
    let deal = |seed: u64, t: usize| ThresholdKeyShare::<P, u8>::new_centralized(&mut DetRng(seed), &old, t, None).expect("shares");
    let s = Reshare::<P> { old: deal(9, t), quorum: ids_of(quorum), new: ids_of(new), new_threshold: nt };
    let right = |c: &mut Ctl, net: &Net<crate::KeyResharingProtocol<P, u8>>, who: u8, what: &dyn Fn() -> String| {
        let honest: Ids = s.ids().into_iter().filter(|i| *i != who).collect();
        if let Err(e) = s.right(net, &honest) { c.fail(&format!("with a deviating old holder: {}", first_words(&e)), format!("{}: {e}", what())); }
    };
    let base = { let mut n = s.start(b"d", BoxedFormat::Cbor, 4).expect("start"); n.run(&mut Honest); n };
    let all: Vec<(u8, Case)> = quorum.iter().flat_map(|w| [Family::Semantic, Family::Structural].into_iter().flat_map(|f| cases(&base.hist, *w, f, &[1])).map(|x| (*w, x)).collect::<Vec<_>>()).collect();
    r.explore(&format!("changed-{name}"), &format!("{}: each of {} changes to a message of an old holder", s.name(), all.len()), |c| {
        let (who, case) = c.pick(&all);
        let what = || format!("{who}: {:?}{}: {}", case.part, case.only.map(|d| format!(" to {d} only")).unwrap_or_default(), case.label);
        c.label(what); c.state(&(who, case.part, &case.new)); c.trace();
        let mut net = s.start(b"d", BoxedFormat::Cbor, 4).expect("start");
        net.run(&mut Change { who: *who, case: Some(case), bad: &[*who].into(), prelude: None, inbound: None });
        c.ops(net.steps);
        right(c, &net, *who, &what);
    });
    let kinds = ["the share of another key", "the share of another old threshold", "the share of another holder", "the own share under the id of another holder", "a lower new threshold", "a higher new threshold", "another set of new holders", "the threshold zero"];
    r.explore(&format!("inputs-{name}"), &format!("{}: an old holder takes part with other inputs ({}), 4 streams", s.name(), kinds.join(", ")), |c| {
        let who = *c.pick(quorum); let kind = c.choose(kinds.len()); let seed = c.choose(4) as u64;
        let what = || format!("{who} uses {}, stream {seed}", kinds[kind]);
        c.label(what); c.state(&(who, kind, seed)); c.trace();
        let next = quorum.iter().copied().find(|i| *i != who).expect("another");
        let mut wrong = s.old[&who].clone();
        let (mut nt, mut nh) = (nt, s.new.clone());
        match kind {
            0 => wrong = deal(20 + seed, t)[&who].clone(),
            1 => wrong = deal(9, if t == 3 { 2 } else { t + 1 })[&who].clone(),
            2 => { wrong = s.old[&next].clone(); }
            3 => { wrong.share_ids.insert(who, s.old[&next].share_ids[&next]); }
            4 => nt -= 1.min(nt - 1), 5 => nt += 1, 6 => { nh.insert(77); } _ => nt = 0,
        }
        let eps = s.ids().into_iter().map(|i| {
            let old = s.quorum.contains(&i).then(|| OldHolder { key_share: if i == who { wrong.clone() } else { s.old[&i].clone() } });
            let new = s.new.contains(&i).then(|| NewHolder { verifying_key: s.vk(), old_threshold: t, old_holders: s.quorum.clone() });
            (i, if i == who { KeyResharing::new(old, new, nh.clone(), nt) } else { KeyResharing::new(old, new, s.new.clone(), s.new_threshold) })
        }).collect();
        let Ok(Ok(mut net)) = quiet(|| Net::new(b"d", BoxedFormat::Cbor, seed, eps)) else { return };
        if quiet(|| net.run(&mut Honest)).is_err() { return }
        c.ops(net.steps);
        right(c, &net, who, &what);
    });
}
pub fn main() -> i32 {
    let mut r = Runner::from_env("S04");
    let t = r.thorough();
    dealt::<SP16>(&mut r, "16", if t { 7 } else { 6 }, if t { 40 } else { 10 });
    dealt::<TestParams>(&mut r, "32", 5, if t { 40 } else { 6 });
    dealt::<ProductionParams112>(&mut r, "k256", 4, 1);
    resharing::<SP16>(&mut r, "16", 4, 4, if t { 12 } else { 3 });
    resharing::<TestParams>(&mut r, "32", if t { 5 } else { 3 }, 3, 2);
    chains::<SP16>(&mut r, "16", if t { 4 } else { 3 });
    orders::<TestParams>(&mut r, "32");
    deviating(&mut r, "all", 2, &[0, 1, 2], 2, &[0, 1, 2]);
    deviating(&mut r, "overlap", 2, &[0, 1, 2], 3, &[1, 2, 3, 4]);
    deviating(&mut r, "apart", 3, &[0, 1, 2], 2, &[5, 6, 7]);
    deviating(&mut r, "two", 2, &[0, 2], 2, &[2, 3]);
    r.assume("Randomness is a reproducible stream per party; all streams with the given seeds are run.");
    r.finish()
}
