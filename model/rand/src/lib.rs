//! The real `rand` (distributions, traits, samplers) with the process' generator replaced: its draws are
//! symbolic inputs, or (outside the randomness check) a counter that makes all drawn strings distinct.
pub use real::*;
use symrt::Global;

pub struct Src {
    /// symbolic draws?
    pub symbolic: bool,
    /// at most this many draws
    pub limit: usize,
    /// draws made so far
    pub drawn: Vec<u64>,
    /// draws to replay instead of fresh ones (same position)
    pub replay: Option<Vec<u64>>,
    pub counter: u64,
    /// draws are below 62/64 of their range (what a sampler of 62 characters can use), except at this position
    pub free: Option<usize>,
    /// only the draw at this position is symbolic, the others are varied constants
    pub only: Option<usize>,
}
static S: Global<Src> = Global::new();
pub fn src() -> &'static mut Src { S.get(|| Src { symbolic: false, limit: usize::MAX, drawn: vec![], replay: None, counter: 0, free: None, only: None }) }

fn draw(bits: u32) -> u64 {
    let s = src();
    if !s.symbolic {
        // Alphanumeric uses the top six bits of a 32-bit draw. Base-32 digits of a running number: blocks of 32
        // draws (one string) are pairwise different.
        let (word, digit) = (s.counter / 32, s.counter % 32);
        s.counter += 1;
        let d = if digit < 8 { (word >> (4 * digit)) & 15 } else { digit % 16 };
        let six = d + 10;
        return if bits == 32 { six << 26 } else { six << 58 | six << 26 };
    }
    let k = s.drawn.len();
    if k >= s.limit { symrt::end(); }
    let v = match &s.replay { Some(r) if k < r.len() => r[k], _ if s.only.is_some_and(|j| j != k) => {
        let six = (k * 7 % 62) as u64;
        if bits == 32 { six << 26 } else { six << 58 | six << 26 }
    }, _ => {
        let v = if bits == 32 { symrt::u32v("draw") as u64 } else { symrt::u64v("draw") };
        if s.free != Some(k) { symrt::assume(v >> (bits - 8) < 0xf8); }
        v
    } };
    s.drawn.push(v);
    v
}

#[derive(Clone, Debug)]
pub struct SysRng;
impl RngCore for SysRng {
    fn next_u32(&mut self) -> u32 { draw(32) as u32 }
    fn next_u64(&mut self) -> u64 { draw(64) }
    fn fill_bytes(&mut self, b: &mut [u8]) { for x in b { *x = (draw(32) >> 24) as u8; } }
}
impl CryptoRng for SysRng {}
pub fn rng() -> SysRng { SysRng }
#[deprecated]
pub fn thread_rng() -> SysRng { SysRng }
/// A generator seeded from another: what it draws is a function of its seed, not of further randomness. The function
/// (a simple one that the solver can follow) differs from the real one's.
#[derive(Clone, Debug)]
pub struct Seeded { state: u64, drawn: u64, full: bool }
impl Seeded {
    fn draw(&mut self, bits: u32) -> u64 {
        if self.full { return draw(bits); }
        self.drawn += 1;
        let six = ((self.state ^ (self.state >> 32)) >> (5 * self.drawn % 28) & 31) + (self.drawn & 7) + 10;
        if bits == 32 { six << 26 } else { six << 58 | six << 26 }
    }
}
impl RngCore for Seeded {
    fn next_u32(&mut self) -> u32 { self.draw(32) as u32 }
    fn next_u64(&mut self) -> u64 { self.draw(64) }
    fn fill_bytes(&mut self, b: &mut [u8]) { for x in b { *x = (self.draw(32) >> 24) as u8; } }
}
impl SeedableRng for Seeded {
    type Seed = [u8; 32];
    fn from_seed(s: [u8; 32]) -> Self {
        let mut n = 0;
        for i in 0..4 { let mut w = [0; 8]; w.copy_from_slice(&s[8 * i..8 * i + 8]); n ^= u64::from_le_bytes(w); }
        Seeded { state: n, drawn: 0, full: false }
    }
    // a whole seed from the process' generator or the system: as good as these
    fn from_rng(_: &mut impl RngCore) -> Self { Seeded { state: 0, drawn: 0, full: true } }
    fn from_os_rng() -> Self { Seeded { state: 0, drawn: 0, full: true } }
    fn seed_from_u64(n: u64) -> Self { Seeded { state: n, drawn: 0, full: false } }
}
pub mod rngs {
    pub use super::{Seeded as SmallRng, Seeded as StdRng};
    pub type ThreadRng = super::SysRng;
    pub type OsRng = super::SysRng;
}
pub fn random<T>() -> T where real::distr::StandardUniform: real::distr::Distribution<T> { rng().random() }
