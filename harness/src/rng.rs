//! Deterministic random numbers (splitmix64): a run is a function of the seed.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { Rng(seed ^ 0x9E37_79B9_7F4A_7C15) }
    pub fn from_parts(parts: &[u64]) -> Self {
        let mut r = Rng::new(0x1234_5678);
        for p in parts { r.0 ^= p.wrapping_mul(0xBF58_476D_1CE4_E5B9); r.next(); }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize { lo + self.below(hi - lo + 1) }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
    pub fn subset<T: Clone>(&mut self, v: &[T], max: usize) -> Vec<T> {
        let mut w = v.to_vec();
        self.shuffle(&mut w);
        let n = self.range(1, max.max(1)).min(w.len());
        w.truncate(n);
        w
    }
}
pub fn hash_str(s: &str) -> u64 { hash_bytes(s.as_bytes()) }
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s { h ^= *b as u64; h = h.wrapping_mul(0x100_0000_01b3); }
    h ^ (h >> 29)
}
