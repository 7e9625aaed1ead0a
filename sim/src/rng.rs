//! The only source of randomness: splitmix64-seeded xoshiro256**.
#[derive(Clone)]
pub struct Rng { s: [u64; 4] }

fn sm(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng { s: [sm(&mut x), sm(&mut x), sm(&mut x), sm(&mut x)] }
    }
    /// Derives an independent stream from a list of integers.
    pub fn derive(parts: &[u64]) -> Rng {
        let mut h = 0xcbf29ce484222325u64;
        for p in parts { let mut x = h ^ p.wrapping_mul(0x9E3779B97F4A7C15); h = sm(&mut x); }
        Rng::new(h)
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0]; self.s[3] ^= self.s[1]; self.s[1] ^= self.s[2]; self.s[0] ^= self.s[3];
        self.s[2] ^= t; self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// uniform in 0..n (n > 0)
    pub fn below(&mut self, n: u64) -> u64 { ((self.next() as u128 * n as u128) >> 64) as u64 }
    pub fn idx(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    /// inclusive range
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.idx(v.len())] }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> { (0..n).map(|_| self.next() as u8).collect() }
    pub fn u32(&mut self) -> u32 { self.next() as u32 }
}

pub fn fnv(h: u64, data: &[u8]) -> u64 {
    let mut h = h;
    for b in data { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); }
    h
}
pub const FNV0: u64 = 0xcbf29ce484222325;
