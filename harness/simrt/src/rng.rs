//! splitmix64 / xoshiro-style generator: the only source of choice.
#[derive(Clone, Debug)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        ((self.next() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den
    pub fn p(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.idx(v.len())]
    }
    /// log-uniform in 2^a..2^b
    pub fn logu(&mut self, a: u32, b: u32) -> u64 {
        let e = self.range(a as u64, b as u64) as u32;
        let lo = 1u64 << e;
        lo + self.below(lo)
    }
    /// geometric-ish with the given mean, at least 1
    pub fn geom(&mut self, mean: u64) -> u64 {
        let u = ((self.next() >> 11) as f64 + 1.0) / 9007199254740993.0;
        let x = -(u.ln()) * mean as f64;
        (x as u64).max(1)
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.next())
    }
}
