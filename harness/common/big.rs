//! A deliberately plain arbitrary precision integer: the reference model for all the arithmetic.
use std::prelude::v1::*;
use std::cmp::Ordering;
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Nat(pub Vec<u32>); // little endian, no leading zeros
impl Nat {
    pub fn norm(mut v: Vec<u32>) -> Nat { while v.last() == Some(&0) { v.pop(); } Nat(v) }
    pub fn zero() -> Nat { Nat(vec![]) }
    pub fn one() -> Nat { Nat(vec![1]) }
    pub fn u(x: u64) -> Nat { Nat::norm(vec![x as u32, (x >> 32) as u32]) }
    pub fn is_zero(&self) -> bool { self.0.is_empty() }
    pub fn is_even(&self) -> bool { self.0.first().map(|x| x & 1 == 0).unwrap_or(true) }
    pub fn pow2(n: u32) -> Nat { let mut v = vec![0; (n / 32 + 1) as usize]; v[(n / 32) as usize] = 1 << (n % 32); Nat(v) }
    pub fn from_be(b: &[u8]) -> Nat { let mut v = vec![0u32; b.len().div_ceil(4)]; for (i, x) in b.iter().rev().enumerate() { v[i / 4] |= (*x as u32) << (8 * (i % 4)); } Nat::norm(v) }
    pub fn to_be(&self, len: usize) -> Vec<u8> { let mut r = vec![0u8; len]; for i in 0..len { let w = self.0.get(i / 4).copied().unwrap_or(0); r[len - 1 - i] = (w >> (8 * (i % 4))) as u8; } assert!(self.bits() as usize <= len * 8, "does not fit"); r }
    pub fn bits(&self) -> u32 { match self.0.last() { None => 0, Some(x) => (self.0.len() as u32) * 32 - x.leading_zeros() } }
    pub fn bit(&self, i: u32) -> bool { self.0.get((i / 32) as usize).map(|w| (w >> (i % 32)) & 1 == 1).unwrap_or(false) }
    pub fn add(&self, o: &Nat) -> Nat { let n = self.0.len().max(o.0.len()); let mut v = Vec::with_capacity(n + 1); let mut c = 0u64; for i in 0..n { let s = *self.0.get(i).unwrap_or(&0) as u64 + *o.0.get(i).unwrap_or(&0) as u64 + c; v.push(s as u32); c = s >> 32; } v.push(c as u32); Nat::norm(v) }
    pub fn sub(&self, o: &Nat) -> Nat { assert!(*self >= *o, "negative"); let mut v = Vec::with_capacity(self.0.len()); let mut b = 0i64; for i in 0..self.0.len() { let mut s = self.0[i] as i64 - *o.0.get(i).unwrap_or(&0) as i64 - b; b = 0; if s < 0 { s += 1 << 32; b = 1; } v.push(s as u32); } Nat::norm(v) }
    pub fn mul(&self, o: &Nat) -> Nat { let mut v = vec![0u32; self.0.len() + o.0.len() + 1]; for (i, a) in self.0.iter().enumerate() { let mut c = 0u64; for (j, b) in o.0.iter().enumerate() { let s = v[i + j] as u64 + *a as u64 * *b as u64 + c; v[i + j] = s as u32; c = s >> 32; } let mut k = i + o.0.len(); while c > 0 { let s = v[k] as u64 + c; v[k] = s as u32; c = s >> 32; k += 1; } } Nat::norm(v) }
    pub fn shl(&self, n: u32) -> Nat { self.mul(&Nat::pow2(n)) }
    pub fn shr(&self, n: u32) -> Nat { self.divrem(&Nat::pow2(n)).0 }
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero());
        if self < d { return (Nat::zero(), self.clone()); }
        if d.0.len() == 1 { let d0 = d.0[0] as u64; let mut r = 0u64; let mut q = vec![0u32; self.0.len()]; for i in (0..self.0.len()).rev() { let c = (r << 32) | self.0[i] as u64; q[i] = (c / d0) as u32; r = c % d0; } return (Nat::norm(q), Nat::u(r)); }
        // Knuth D
        let s = d.0.last().unwrap().leading_zeros();
        let sh = |x: &Nat| -> Vec<u32> { let mut v = Vec::with_capacity(x.0.len() + 1); let mut c = 0u64; for w in &x.0 { let t = ((*w as u64) << s) | c; v.push(t as u32); c = t >> 32; } v.push(c as u32); v };
        let mut u = sh(self); let mut v = sh(d); while v.last() == Some(&0) { v.pop(); } let n = v.len();
        if u.len() == self.0.len() { u.push(0); }
        let m = u.len() - n - 1; let mut q = vec![0u32; m + 1];
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64; let mut rh = num % v[n - 1] as u64;
            while qh >= 1 << 32 || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) { qh -= 1; rh += v[n - 1] as u64; if rh >= 1 << 32 { break; } }
            let mut b = 0i64; let mut c = 0u64;
            for i in 0..n { let p = qh * v[i] as u64 + c; c = p >> 32; let t = u[i + j] as i64 - b - (p & 0xffffffff) as i64; u[i + j] = t as u32; b = if t < 0 { 1 } else { 0 }; }
            let t = u[j + n] as i64 - b - c as i64; u[j + n] = t as u32;
            if t < 0 { qh -= 1; let mut c = 0u64; for i in 0..n { let t = u[i + j] as u64 + v[i] as u64 + c; u[i + j] = t as u32; c = t >> 32; } u[j + n] = (u[j + n] as u64 + c) as u32; }
            q[j] = qh as u32;
        }
        u.truncate(n);
        let mut r = vec![0u32; n]; for i in 0..n { let hi = if s > 0 && i + 1 < n { (u[i + 1] as u64) << (32 - s) } else { 0 }; r[i] = ((u[i] as u64 >> s) | hi) as u32; }
        (Nat::norm(q), Nat::norm(r))
    }
    pub fn rem(&self, d: &Nat) -> Nat { self.divrem(d).1 }
    pub fn powmod(&self, e: &Nat, m: &Nat) -> Nat { let mut r = Nat::one().rem(m); let b = self.rem(m); for i in (0..e.bits()).rev() { r = r.mul(&r).rem(m); if e.bit(i) { r = r.mul(&b).rem(m); } } r }
    pub fn gcd(&self, o: &Nat) -> Nat { let (mut a, mut b) = (self.clone(), o.clone()); while !b.is_zero() { let r = a.rem(&b); a = b; b = r; } a }
    pub fn inv(&self, m: &Nat) -> Option<Nat> { let (mut r0, mut r1) = (Z::n(m.clone()), Z::n(self.rem(m))); let (mut t0, mut t1) = (Z::i(0), Z::i(1)); while !r1.abs.is_zero() { let q = Z::n(r0.abs.divrem(&r1.abs).0); let r2 = r0.sub(&q.mul(&r1)); let t2 = t0.sub(&q.mul(&t1)); r0 = r1; r1 = r2; t0 = t1; t1 = t2; } if r0.abs == Nat::one() { Some(t0.modulo(m)) } else { None } }
    pub fn to_u64(&self) -> u64 { assert!(self.0.len() <= 2); *self.0.first().unwrap_or(&0) as u64 | (*self.0.get(1).unwrap_or(&0) as u64) << 32 }
    pub fn is_square(&self) -> bool { if self.is_zero() { return true; } let mut x = Nat::pow2(self.bits().div_ceil(2)); loop { let y = x.add(&self.divrem(&x).0).shr(1); if y >= x { break; } x = y; } x.mul(&x) == *self }
    pub fn sqrt(&self) -> Nat { if self.is_zero() { return Nat::zero(); } let mut x = Nat::pow2(self.bits().div_ceil(2)); loop { let y = x.add(&self.divrem(&x).0).shr(1); if y >= x { break; } x = y; } x }
    /// Miller-Rabin with the first 20 prime bases.
    pub fn is_prime(&self) -> bool {
        let ps = [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71];
        if *self < Nat::u(2) { return false; }
        for p in ps { if *self == Nat::u(p) { return true; } if self.rem(&Nat::u(p)).is_zero() { return false; } }
        let n1 = self.sub(&Nat::one()); let mut d = n1.clone(); let mut s = 0; while d.is_even() { d = d.shr(1); s += 1; }
        'o: for p in ps { let mut x = Nat::u(p).powmod(&d, self); if x == Nat::one() || x == n1 { continue; } for _ in 1..s { x = x.mul(&x).rem(self); if x == n1 { continue 'o; } } return false; }
        true
    }
}
impl PartialOrd for Nat { fn partial_cmp(&self, o: &Nat) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for Nat { fn cmp(&self, o: &Nat) -> Ordering { self.0.len().cmp(&o.0.len()).then_with(|| self.0.iter().rev().cmp(o.0.iter().rev())) } }
impl std::fmt::Display for Nat { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if self.0.len() <= 2 { write!(f, "{}", self.to_u64()) } else { write!(f, "0x")?; for (i, w) in self.0.iter().rev().enumerate() { if i == 0 { write!(f, "{:x}", w)? } else { write!(f, "{:08x}", w)? } } Ok(()) } } }

/// Signed integer.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Z { pub neg: bool, pub abs: Nat }
impl Z {
    pub fn new(neg: bool, abs: Nat) -> Z { Z { neg: neg && !abs.is_zero(), abs } }
    pub fn n(abs: Nat) -> Z { Z::new(false, abs) }
    pub fn i(x: i64) -> Z { Z::new(x < 0, Nat::u(x.unsigned_abs())) }
    pub fn zero() -> Z { Z::i(0) }
    pub fn neg(&self) -> Z { Z::new(!self.neg, self.abs.clone()) }
    pub fn add(&self, o: &Z) -> Z { if self.neg == o.neg { Z::new(self.neg, self.abs.add(&o.abs)) } else if self.abs >= o.abs { Z::new(self.neg, self.abs.sub(&o.abs)) } else { Z::new(o.neg, o.abs.sub(&self.abs)) } }
    pub fn sub(&self, o: &Z) -> Z { self.add(&o.neg()) }
    pub fn mul(&self, o: &Z) -> Z { Z::new(self.neg ^ o.neg, self.abs.mul(&o.abs)) }
    /// Canonical residue in `[0, m)`.
    pub fn modulo(&self, m: &Nat) -> Nat { let r = self.abs.rem(m); if self.neg && !r.is_zero() { m.sub(&r) } else { r } }
    /// Two's complement in `bits` bits (wrapping).
    pub fn twos(&self, bits: u32) -> Nat { self.modulo(&Nat::pow2(bits)) }
    pub fn from_twos(v: &Nat, bits: u32) -> Z { if v.bit(bits - 1) { Z::new(true, Nat::pow2(bits).sub(v)) } else { Z::n(v.clone()) } }
    /// `x^e mod m` with inversion for negative exponents.
    pub fn powmod(base: &Nat, e: &Z, m: &Nat) -> Option<Nat> { let r = base.powmod(&e.abs, m); if e.neg { r.inv(m) } else { Some(r) } }
}
impl std::fmt::Display for Z { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { if self.neg { write!(f, "-")?; } write!(f, "{}", self.abs) } }
/// `-2^{e-1}+1 <= x <= 2^{e-1}`
pub fn in_exponent_range(x: &Z, e: u32) -> bool { let h = Nat::pow2(e - 1); if x.neg { x.abs < h } else { x.abs <= h } }
pub fn balanced(x: &Nat, m: &Nat) -> Z { let h = m.shr(1); if *x > h { Z::new(true, m.sub(x)) } else { Z::n(x.clone()) } }
