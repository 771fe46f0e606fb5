//! splitmix64-seeded xoshiro256**: the only source of randomness of plans and schedules.
#[derive(Clone, Copy, Debug)]
pub struct Rng([u64; 4]);

pub const fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

impl Rng {
    pub const fn new(seed: u64) -> Self {
        let mut s = [0u64; 4];
        let mut i = 0;
        let mut z = seed;
        while i < 4 {
            z = z.wrapping_add(0x9e3779b97f4a7c15);
            s[i] = mix(z);
            i += 1;
        }
        Rng(s)
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// Uniform in 0..n (n > 0).
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn range(&mut self, lo: u64, hi_incl: u64) -> u64 {
        lo + self.below(hi_incl - lo + 1)
    }
    /// True with probability num/den.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    /// Uniform in [0, 1).
    pub fn f01(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn frange(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f01()
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// Geometric-like positive gap with the given mean.
    pub fn gap(&mut self, mean: u64) -> u64 {
        let u = self.f01();
        let g = -(mean as f64) * (1.0 - u).ln();
        1 + g as u64
    }
}
