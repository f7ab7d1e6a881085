//! A small deterministic generator (xoshiro256**), so that a seed replays a run.

#[derive(Clone)]
pub struct Rng([u64; 4]);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed ^ 0x6a09_e667_f3bc_c908;
        let mut next = || {
            x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
            let mut z = x;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
            z ^ (z >> 31)
        };
        Rng([next(), next(), next(), next()])
    }
    pub fn u64(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    /// below `n`, which may not be zero
    pub fn below(&mut self, n: usize) -> usize {
        ((u128::from(self.u64()) * n as u128) >> 64) as usize
    }
    /// within `a..=b`
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// true `n` times in a hundred
    pub fn pct(&mut self, n: u32) -> bool {
        self.below(100) < n as usize
    }
    pub fn one_in(&mut self, n: usize) -> bool {
        self.below(n) == 0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u32 = ws.iter().sum();
        let mut k = self.below(total.max(1) as usize) as u32;
        for (i, &w) in ws.iter().enumerate() {
            if k < w {
                return i;
            }
            k -= w;
        }
        0
    }
    /// small numbers mostly, large ones sometimes
    pub fn skewed(&mut self, max: usize) -> usize {
        let mut n = 0;
        while n < max && self.pct(55) {
            n += 1;
        }
        if n == 0 || !self.one_in(12) {
            n
        } else {
            self.range(0, max)
        }
    }
}
