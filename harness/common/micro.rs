//! Small Paillier parameters and keys made from chosen primes.
use std::prelude::v1::*;
use super::big::Nat;
use super::tree::*;
use super::util::*;
use crypto_bigint::{U64, U128, U256};
use crate::paillier::*;

/// Paillier parameters with primes of `B` bits.
#[derive(Debug, Copy, Clone, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct MP<const B: u32>;
impl<const B: u32> PaillierParams for MP<B> {
    const PRIME_BITS: u32 = B;
    type HalfUint = U64;
    type Uint = U128;
    type WideUint = U256;
}
/// All primes of exactly `bits` bits that are 3 mod 4.
pub fn blum_primes(bits: u32) -> Vec<u64> { ((1u64 << (bits - 1))..(1u64 << bits)).filter(|p| p % 4 == 3 && Nat::u(*p).is_prime()).collect() }
/// A secret key with the given primes, made by replacing the two leaves of a serialized key.
pub fn sk_wire<P: PaillierParams>(template: &Value, p: &Nat, q: &Nat) -> SecretKeyPaillierWire<P> {
    let ls = leaves(template);
    let mut v = template.clone();
    let mut set_one = |path: &Path, n: &Nat| { let old = get_mut(&mut v, path); let len = bytes(old).unwrap().len(); *old = Value::Bytes(n.to_be(len)); };
    let bs: Vec<&Path> = ls.iter().filter(|l| bytes(get(template, l)).is_some()).collect();
    assert_eq!(bs.len(), 2, "a secret key consists of two primes");
    set_one(bs[0], p); set_one(bs[1], q);
    from_tree(&v).expect("secret key")
}
/// The serialized form of any secret key of these parameters.
pub fn sk_template<const B: u32>() -> Value {
    // generation does not work for every micro size, but the format does not depend on the size of the primes
    to_tree(&SecretKeyPaillierWire::<MP<32>>::random(&mut DetRng(1)))
}
