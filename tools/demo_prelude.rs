use std::prelude::v1::*;
#[allow(unused_imports)]
use rand_core::{CryptoRng, RngCore};
/// A reproducible random generator (splitmix64).
#[allow(dead_code)]
struct Det(u64);
impl RngCore for Det {
    fn next_u32(&mut self) -> u32 { self.next_u64() as u32 }
    fn next_u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) { for x in d { *x = self.next_u64() as u8; } }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> { self.fill_bytes(d); Ok(()) }
}
impl CryptoRng for Det {}
#[allow(dead_code)]
fn expect(ok: bool, what: &str, bad: &mut i32) { if !ok { std::println!("WRONG: {what}"); *bad = 1; } }
#[allow(dead_code)]
fn cbor<T: serde::Serialize>(x: &T) -> Vec<u8> { let mut v = vec![]; ciborium::into_writer(x, &mut v).expect("serializable"); v }
#[allow(dead_code)]
fn uncbor<T: serde::de::DeserializeOwned>(b: &[u8]) -> Result<T, String> { ciborium::from_reader(b).map_err(|e| std::format!("{e}")) }

