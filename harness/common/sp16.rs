//! Scheme parameters over a curve of 16 bits, and an independent model of that curve.
use std::prelude::v1::*;
use super::big::{Nat, Z};
use crypto_bigint::{Uint, U128, U256, U512};
use crate::paillier::PaillierParams;
use crate::params::SchemeParams;

/// Paillier parameters for this curve (its scalars are represented by 192 bits).
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct MP16;
impl PaillierParams for MP16 {
    const PRIME_BITS: u32 = 128;
    type HalfUint = U128;
    type Uint = U256;
    type WideUint = U512;
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
pub struct SP16;
impl SchemeParams for SP16 {
    type Curve = tiny_curve::TinyCurve16;
    type Digest = sha3::Shake256;
    const SECURITY_BITS: usize = 16;
    type Paillier = MP16;
    type ExtraWideUint = Uint<10>;
}

pub const Q: u64 = 0xfe93;
pub const F: u64 = 0xffa7;
pub const GX: u64 = 23947;
pub const GY: u64 = 53757;
/// A point of y^2 = x^3 - 3x + 7 over the field of F elements; `None` is the identity.
pub type Pt = Option<(u64, u64)>;
fn pm(mut b: u64, mut e: u64, m: u64) -> u64 { let mut r = 1; b %= m; while e > 0 { if e & 1 == 1 { r = r * b % m; } b = b * b % m; e >>= 1; } r }
pub fn inv_mod(a: u64, m: u64) -> u64 { pm(a, m - 2, m) }
pub fn pneg(a: Pt) -> Pt { a.map(|(x, y)| (x, (F - y) % F)) }
pub fn padd(a: Pt, b: Pt) -> Pt {
    let ((x1, y1), (x2, y2)) = match (a, b) { (None, b) => return b, (a, None) => return a, (Some(a), Some(b)) => (a, b) };
    let l = if x1 == x2 {
        if (y1 + y2) % F == 0 { return None; }
        (3 * x1 % F * x1 + F - 3) % F * inv_mod(2 * y1, F) % F
    } else { (y2 + F - y1) % F * inv_mod((x2 + F - x1) % F, F) % F };
    let x = (l * l + 2 * F - x1 - x2) % F;
    Some((x, (l * ((x1 + F - x) % F) + F - y1) % F))
}
pub fn pmul(mut k: u64, mut a: Pt) -> Pt { let mut r = None; while k > 0 { if k & 1 == 1 { r = padd(r, a); } a = padd(a, a); k >>= 1; } r }
pub const G: Pt = Some((GX, GY));
/// SEC1 compressed encoding with field elements of 24 bytes.
pub fn enc(p: Pt) -> Vec<u8> { let (x, y) = p.expect("not the identity"); let mut v = vec![2 + (y & 1) as u8]; v.extend([0; 16]); v.extend(x.to_be_bytes()); v }
/// All multiples of the generator.
pub fn table() -> Vec<Pt> { let mut t = vec![None]; let mut p = G; for _ in 1..Q { t.push(p); p = padd(p, G); } assert!(p.is_none(), "the order of the curve"); t }
pub fn modq(z: &Z) -> u64 { z.modulo(&Nat::u(Q)).to_u64() }
