//! Bridges between the crate's types and the reference model.
use std::prelude::v1::*;
use super::big::{Nat, Z};
use crypto_bigint::{Uint, Integer, Bounded};
use zeroize::Zeroize;
use crate::tools::Secret;
use crate::uint::{SecretSigned, PublicSigned, SecretUnsigned};
use rand_core::{CryptoRng, RngCore};

/// Conversion between fixed-size integers and the reference integers, which does not use the crate's own encoding.
pub trait Nt: Copy { fn nat(&self) -> Nat; fn of(n: &Nat) -> Self; fn width() -> u32; }
impl<const L: usize> Nt for Uint<L> {
    fn nat(&self) -> Nat { let mut v = vec![]; for w in self.as_words() { v.push(*w as u32); v.push((*w >> 32) as u32); } Nat::norm(v) }
    fn of(n: &Nat) -> Self { assert!(n.bits() as usize <= L * 64, "reference value does not fit"); let mut w = [0u64; L]; for (i, x) in n.0.iter().enumerate() { w[i / 2] |= (*x as u64) << (32 * (i % 2)); } Uint::from_words(w) }
    fn width() -> u32 { L as u32 * 64 }
}
pub fn secret<T: Zeroize + Clone>(x: T) -> Secret<T> { Secret::init_with(|| x) }
pub fn ct<T>(x: crypto_bigint::subtle::CtOption<T>) -> Option<T> { Option::from(x) }
pub fn zs<T: Nt + Zeroize + Integer + Bounded>(x: &SecretSigned<T>) -> Z { let p = x.to_public(); Z::from_twos(&p.value().nat(), T::width()) }
pub fn zp<T: Nt + Integer + Bounded>(x: &PublicSigned<T>) -> Z { Z::from_twos(&x.value().nat(), T::width()) }
pub fn zu<T: Nt + Zeroize + Integer + Bounded>(x: &SecretUnsigned<T>) -> Z { Z::n(x.expose_secret().nat()) }
/// A public signed value, made without `new_from_abs`.
pub fn ps<T: Nt + Integer + Bounded>(v: &Z, bound: u32) -> PublicSigned<T> { PublicSigned::new_from_unsigned(T::of(&v.twos(T::width())), bound).expect("in bound") }
pub fn ss<T: Nt + Integer + Bounded + Zeroize + crypto_bigint::subtle::ConditionallySelectable>(v: &Z, bound: u32) -> SecretSigned<T> { ct(SecretSigned::new_from_unsigned(secret(T::of(&v.twos(T::width()))), bound)).expect("in bound") }

/// A random generator that returns scripted bytes; running out of script is recorded and answered by a fixed pattern.
pub struct ScriptRng { pub bytes: Vec<u8>, pub pos: usize, pub over: u64, pub fill: u8 }
impl ScriptRng { pub fn new(bytes: Vec<u8>) -> Self { ScriptRng { bytes, pos: 0, over: 0, fill: 0 } } }
impl RngCore for ScriptRng {
    fn next_u32(&mut self) -> u32 { let mut b = [0; 4]; self.fill_bytes(&mut b); u32::from_le_bytes(b) }
    fn next_u64(&mut self) -> u64 { let mut b = [0; 8]; self.fill_bytes(&mut b); u64::from_le_bytes(b) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = match self.bytes.get(self.pos) { Some(b) => *b, None => { self.over += 1; assert!(self.over < 1 << 22, "the scripted random generator was exhausted"); self.fill } }; self.pos += 1; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for ScriptRng {}

/// Deterministic pseudo-random generator (splitmix64).
#[derive(Clone)]
pub struct DetRng(pub u64);
impl RngCore for DetRng {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    fn fill_bytes(&mut self, d: &mut [u8]) { for c in d.chunks_mut(8) { let b = self.next_u64().to_le_bytes(); c.copy_from_slice(&b[..c.len()]); } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for DetRng {}
