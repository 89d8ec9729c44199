use std::prelude::v1::*;
#[path = "common/engine.rs"] #[allow(dead_code)] mod engine;
#[path = "common/big.rs"] #[allow(dead_code)] mod big;
#[path = "common/util.rs"] #[allow(dead_code)] mod util;
#[path = "common/sp16.rs"] #[allow(dead_code)] mod sp16;
#[path = "common/tree.rs"] #[allow(dead_code)] mod tree;
#[path = "common/proto.rs"] #[allow(dead_code)] mod proto;
#[path = "common/scen.rs"] #[allow(dead_code)] mod scen;
#[path = "common/deviate.rs"] #[allow(dead_code)] mod deviate;
#[allow(unused_imports)]
use {big::*, util::*, engine::*, sp16::SP16, proto::*, scen::*, deviate::*, manul::protocol::*, std::collections::{BTreeMap, BTreeSet}};
#[allow(unused_imports)]
use crate::{params::SchemeParams, dev::TestParams as T, curve::{Point, Scalar}, *};
#[allow(dead_code)]
fn expect(ok: bool, what: &str, bad: &mut i32) { if !ok { std::println!("WRONG: {what}"); *bad = 1; } }
/// Everybody is honest and is done with the right results.
#[allow(dead_code)]
fn honest<S: Scen>(s: &S, seed: u64, bad: &mut i32) {
    let mut net = s.start(b"session", BoxedFormat::Cbor, seed).expect("start");
    net.run(&mut Honest);
    if let Err(e) = finished(s, &net) { expect(false, &std::format!("{}: {e}", s.name()), bad); }
}
/// One party changes what it sends: nobody else is blamed, and the evidence holds.
#[allow(dead_code)]
fn culprit<S: Scen>(s: &S, who: u8, bad: &mut i32, f: &(dyn Fn(u8, u8, &mut Msg) + Sync)) -> bool where <S::Pr as Protocol<u8>>::ProtocolError: std::fmt::Debug {
    let w: Ids = [who].into();
    let mut net = s.start(b"session", BoxedFormat::Cbor, 2).expect("start");
    net.run(&mut Change { who, case: None, bad: &w, prelude: Some(f), inbound: None });
    let o = outcome(s, &net, &w, &s.data(), true);
    for (k, e) in o.problems { expect(false, &std::format!("{}: {k}: {e}: {}", s.name(), net.describe()), bad); }
    o.accused
}
/// Flips the lowest bit of the last byte of the first leaf below the given field.
#[allow(dead_code)]
fn flip(b: &mut Option<Vec<u8>>, name: &str) {
    edit(b, |t| { let v = field(t, name); let p = tree::leaves(v).into_iter().find(|p| matches!(tree::get(v, p), tree::Value::Bytes(_))).expect("bytes"); if let tree::Value::Bytes(b) = tree::get_mut(v, &p) { let n = b.len() - 1; b[n] ^= 1; } });
}
