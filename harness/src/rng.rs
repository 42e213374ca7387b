//! Small deterministic random source (splitmix64); every case is a function of (seed, case index) only.
#[derive(Clone)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
pub fn hash2(a: u64, b: u64) -> u64 { mix(mix(a) ^ b.wrapping_mul(0xff51afd7ed558ccd)) }
pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() { h = (h ^ b as u64).wrapping_mul(0x100000001b3); }
    mix(h)
}
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(mix(seed)) }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    /// uniform in a..=b
    pub fn range(&mut self, a: i64, b: i64) -> i64 { a + (self.next() % ((b - a) as u64 + 1)) as i64 }
    /// true with probability pct/100
    pub fn pct(&mut self, pct: u32) -> bool { (self.next() % 100) < pct as u64 }
    pub fn f01(&mut self) -> f64 { (self.next() >> 11) as f64 / (1u64 << 53) as f64 }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) { for i in (1..xs.len()).rev() { let j = self.below(i + 1); xs.swap(i, j); } }
    /// weighted choice: index into weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut r = (self.next() % total.max(1) as u64) as u32;
        for (i, &x) in w.iter().enumerate() { if r < x { return i; } r -= x; }
        w.len() - 1
    }
}
