//! Stand-in for the small part of `rand` 0.9 the library uses. Values come from a
//! queue filled by the monitor; when it is empty, from a splitmix64 stream.
use std::collections::VecDeque;
use std::sync::Mutex;

static QUEUE: Mutex<VecDeque<u64>> = Mutex::new(VecDeque::new());
static STATE: Mutex<u64> = Mutex::new(0x9E37_79B9_7F4A_7C15);

pub fn shim_push(v: u64) {
    QUEUE.lock().unwrap().push_back(v);
}
pub fn shim_clear() {
    QUEUE.lock().unwrap().clear();
}
pub fn shim_seed(v: u64) {
    *STATE.lock().unwrap() = v;
}
fn next() -> u64 {
    if let Some(v) = QUEUE.lock().unwrap().pop_front() {
        return v;
    }
    let mut s = STATE.lock().unwrap();
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub trait Standard: Sized {
    fn from_u64(v: u64) -> Self;
}
macro_rules! std_int { ($($t:ty),*) => { $(impl Standard for $t { fn from_u64(v: u64) -> Self { v as $t } })* } }
std_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128);
impl Standard for bool {
    fn from_u64(v: u64) -> Self {
        v & 1 == 1
    }
}
impl<const N: usize> Standard for [u8; N] {
    fn from_u64(v: u64) -> Self {
        let mut r = [0u8; N];
        for (i, x) in r.iter_mut().enumerate() {
            *x = (if i < 8 { v } else { next() } >> (8 * (i % 8))) as u8;
        }
        r
    }
}
pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dst: &mut [u8]);
}
#[derive(Clone, Debug, Default)]
pub struct ThreadRng;
impl RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        next() as u32
    }
    fn next_u64(&mut self) -> u64 {
        next()
    }
    fn fill_bytes(&mut self, dst: &mut [u8]) {
        for x in dst.iter_mut() {
            *x = next() as u8;
        }
    }
}
pub trait Rng: RngCore {
    fn random<T: Standard>(&mut self) -> T {
        T::from_u64(self.next_u64())
    }
    fn fill(&mut self, dst: &mut [u8]) {
        self.fill_bytes(dst)
    }
    fn random_bool(&mut self, p: f64) -> bool {
        ((self.next_u64() >> 11) as f64 / (1u64 << 53) as f64) < p
    }
    fn random_range<T: RangeInt, R: Into<Bounds<T>>>(&mut self, r: R) -> T {
        let b: Bounds<T> = r.into();
        let (lo, hi) = (b.0.to_i128(), b.1.to_i128());
        T::from_i128(lo + (self.next_u64() as i128) % (hi - lo + 1))
    }
}
impl<R: RngCore + ?Sized> Rng for R {}
pub struct Bounds<T>(T, T);
pub trait RangeInt: Copy {
    fn to_i128(self) -> i128;
    fn from_i128(v: i128) -> Self;
}
macro_rules! range_int { ($($t:ty),*) => { $(
    impl RangeInt for $t { fn to_i128(self) -> i128 { self as i128 } fn from_i128(v: i128) -> Self { v as $t } }
    impl From<std::ops::Range<$t>> for Bounds<$t> { fn from(r: std::ops::Range<$t>) -> Self { Bounds(r.start, r.end - 1) } }
    impl From<std::ops::RangeInclusive<$t>> for Bounds<$t> { fn from(r: std::ops::RangeInclusive<$t>) -> Self { Bounds(*r.start(), *r.end()) } }
)* } }
range_int!(u8, u16, u32, u64, usize, i8, i16, i32, i64, isize);

pub fn rng() -> ThreadRng {
    ThreadRng
}
pub fn random<T: Standard>() -> T {
    T::from_u64(next())
}
pub mod rngs {
    pub use super::ThreadRng;
}
pub mod prelude {
    pub use super::{Rng, RngCore, random, rng};
}
