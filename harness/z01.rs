// Z01: an honest proof always verifies, whatever the witness, the keys and the challenge.
use std::prelude::v1::*;
#[path = "common/engine.rs"] mod engine;
#[path = "common/big.rs"] mod big;
#[path = "common/util.rs"] mod util;
#[path = "common/tree.rs"] mod tree;
#[path = "common/zkfix.rs"] mod zkfix;
#[path = "common/micro.rs"] mod micro;
use big::*; use util::*; use tree::*; use engine::*; use zkfix::*; use micro::*;
use crypto_bigint::{Uint, U128};
use tiny_curve::TinyCurve32;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::zk::ModProof;

fn honest<P: ZkP>(r: &mut Runner, id: &str, only_lists: bool, seeds: u64) {
    for s in systems::<P>() {
        if only_lists && s.rounds() == 0 { continue }
        let tapes = s.tapes(); let dims = s.dims();
        // the long lists only differ in the number of repetitions
        let few = only_lists;
        let (nt, seeds) = if few { (tapes.len().min(3), 1) } else { (tapes.len(), seeds) };
        let bound = format!("witness dimensions {dims:?}{}, {nt} challenges and the actual hash, {seeds} random streams", if few { " (first two values of each)" } else { "" });
        r.explore(&format!("{} {id}", s.name()), &bound, |c| {
            let d: Vec<usize> = dims.iter().map(|n| c.choose(if few { (*n).min(2) } else { *n })).collect();
            let t = c.choose(nt + 1);
            let seed = c.choose(seeds as usize) as u64;
            let tape = if t < nt { Some(&tapes[t][..]) } else { None };
            let aux = vec![1u8, 2, 3, seed as u8];
            c.label(|| format!("witness {d:?}, challenge {t}, stream {seed}"));
            c.state(&(s.name(), id, &d, t, seed));
            let ctx = || format!("{} ({id}): witness {d:?}, challenge {}, stream {seed}", s.name(), tape.map(|t| format!("{:02x?}", t)).unwrap_or("from the hash".into()));
            let Some((comps, tree)) = c.guard("prover panics", ctx, || with_tape(tape, || s.prove(&d, 10 * seed + t as u64, &aux))) else { return };
            c.ops(2);
            match c.guard("verifier panics", ctx, || with_tape(tape, || s.verify(&comps, &tree, &aux))) {
                Some(Ok(ok)) => { c.check(ok, "honest proof is rejected", ctx); }
                Some(Err(e)) => c.fail("honest proof does not deserialize", format!("{}: {e}", ctx())),
                None => {}
            }
            if let Some(t) = tape {
                let ch = s.challenge(&comps, t).expect("a challenge");
                let v = s.reference(&comps, &tree, &ch);
                c.check(v == Verdict::Accept, "honest proof does not satisfy the equations", || format!("{}: {v:?}", ctx()));
            }
            c.trace();
        });
    }
}
/// Serialization of proofs in binary and text formats.
fn serialized(r: &mut Runner) {
    let ss = systems::<ZS>();
    r.explore("serialized", "all nine systems, 3 random streams, tree, CBOR and JSON", |c| {
        let s = &ss[c.choose(ss.len())]; let seed = c.choose(3) as u64; let fmt = c.choose(3);
        let aux = vec![7u8];
        let d = vec![0; s.dims().len()];
        let (comps, tree) = s.prove(&d, seed, &aux);
        c.state(&(s.name(), seed, fmt)); c.ops(2);
        let ctx = || format!("{}, stream {seed}, {}", s.name(), ["tree", "CBOR", "JSON"][fmt]);
        // the proof goes through the actual format, driven by its own type
        let Some(back) = c.guard("serialization panics", ctx, || roundtrip(s.name(), &tree, fmt)) else { return };
        match back {
            Ok(t) => { c.check(t == tree, "serialization changes the proof", ctx); match quiet(|| s.verify(&comps, &t, &aux)) { Ok(Ok(true)) => {} x => c.fail("a deserialized proof is rejected", format!("{}: {x:?}", ctx())) } }
            Err(e) => c.fail("a proof does not deserialize", format!("{}: {e}", ctx())),
        }
        c.trace();
    });
}
fn rt<T: serde::Serialize + serde::de::DeserializeOwned>(v: &Value, fmt: usize) -> Result<Value, String> {
    let x: T = from_tree(v)?;
    let y: T = match fmt { 0 => from_tree(&to_tree(&x))?, 1 => from_cbor(&to_cbor(&x))?, _ => serde_json::from_str(&serde_json::to_string(&x).map_err(|e| e.to_string())?).map_err(|e| e.to_string())? };
    Ok(to_tree(&y))
}
fn roundtrip(name: &str, v: &Value, fmt: usize) -> Result<Value, String> {
    use crate::zk::*;
    match name { "enc_elg" => rt::<EncElgProof<ZS>>(v, fmt), "aff_g" => rt::<AffGProof<ZS>>(v, fmt), "aff_g_star" => rt::<AffGStarProof<ZS>>(v, fmt), "dec" => rt::<DecProof<ZS>>(v, fmt), "elog" => rt::<ElogProof<ZS>>(v, fmt), "fac" => rt::<FacProof<ZS>>(v, fmt), "mod" => rt::<ModProof<ZS>>(v, fmt), "prm" => rt::<PrmProof<ZS>>(v, fmt), "sch" => rt::<SchProof<ZS>>(v, fmt), _ => panic!("system") }
}

// ------------------------------------------------------------------ all small Blum moduli
#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
struct ZM<const B: u32>;
impl<const B: u32> SchemeParams for ZM<B> { type Curve = TinyCurve32; type Digest = ZD; const SECURITY_BITS: usize = 4; type Paillier = MP<B>; type ExtraWideUint = Uint<10>; const LP_BOUND: u32 = 1; const EPS_BOUND: u32 = 1; }
/// Every residue as a challenge for every Blum modulus with primes of `B` bits.
fn small_blum<const B: u32>(r: &mut Runner, all: bool) {
    let ps = blum_primes(B);
    let pairs: Vec<(u64, u64)> = ps.iter().flat_map(|p| ps.iter().map(move |q| (*p, *q))).filter(|(p, q)| p != q && (all || p < q) && Nat::u(p * q).gcd(&Nat::u((p - 1) * (q - 1))) == Nat::one()).collect();
    let template = sk_template::<B>();
    r.explore(&format!("mod, primes of {B} bits"), &format!("all {} products of two different Blum primes of {B} bits, all residues as challenges", pairs.len()), |c| {
        let (p, q) = *c.pick(&pairs); let n = p * q;
        c.label(|| format!("{p} * {q}"));
        let sk = match quiet(|| sk_wire::<MP<B>>(&template, &Nat::u(p), &Nat::u(q)).into_precomputed()) { Ok(s) => s, Err(e) => { c.fail("a key with these primes cannot be used", format!("{p} * {q}: {e}")); return } };
        let len = (64 - n.leading_zeros() as usize).div_ceil(8);
        let ys: Vec<u64> = (1..n).filter(|y| y % p != 0 && y % q != 0).collect();
        for (i, ch) in ys.chunks(4).enumerate() {
            let tape: Vec<u8> = ch.iter().flat_map(|y| y.to_be_bytes()[8 - len..].to_vec()).collect();
            let ctx = || format!("primes {p}, {q}, residues {ch:?}");
            c.state(&(p, q, i)); c.ops(2);
            let aux = i as u64;
            let Some(proof) = c.guard("prover panics", ctx, || with_tape(Some(&tape), || ModProof::<ZM<B>>::new(&mut DetRng(i as u64), &sk, &aux))) else { return };
            // for so small moduli the modulus has to be recognized as composite as well
            match c.guard("verifier panics", ctx, || with_tape(Some(&tape), || proof.verify(sk.public_key(), &aux))) { Some(ok) => { if !c.check(ok, "honest proof is rejected", ctx) { return } } None => return }
            let tree = to_tree(&proof);
            let b: Vec<Nat> = leaves(&tree).iter().filter_map(|l| residue::<U128>(get(&tree, l))).collect();
            let used: Vec<u64> = b[1..1 + ch.len()].iter().map(|x| x.to_u64()).collect();
            c.check(used == ch, "challenge is not the derived one", || format!("{}: {used:?}", ctx()));
        }
        c.trace();
    });
}

pub fn main() -> i32 {
    let mut r = Runner::from_env("Z01");
    let seeds = r.by_tier(1, 5) as u64;
    honest::<ZS>(&mut r, "small challenges", false, seeds);
    honest::<ZP>(&mut r, "full size", true, 1);
    serialized(&mut r);
    small_blum::<5>(&mut r, true);
    small_blum::<6>(&mut r, true);
    small_blum::<7>(&mut r, false);
    if r.thorough() { small_blum::<8>(&mut r, false); }
    r.assume("parameters of the test size (primes of 128 bits, a curve of 32 bits); the challenge of the Fiat-Shamir transform is chosen freely by replacing the digest, whose derivation is checked in Z03, C05 and C09");
    r.assume("the masking values come from deterministic streams; that an honest response can leave its range with probability about 2^-64 is part of the protocol");
    r.finish()
}
