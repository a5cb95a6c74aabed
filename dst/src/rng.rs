//! SplitMix64: the one generator every case is derived from.
#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, salt: &str, index: u64) -> Rng {
        let mut s = simrt::mix(seed, 0x5EED);
        for b in salt.bytes() {
            s = simrt::mix(s, b as u64);
        }
        let mut r = Rng(simrt::mix(s, index));
        r.u64();
        r
    }
    pub fn from(x: u64) -> Rng {
        Rng(x)
    }
    #[inline]
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.u64() % n
        }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
    /// A size with every magnitude about equally likely.
    pub fn skewed(&mut self, max: u64) -> u64 {
        let bits = 64 - max.leading_zeros() as u64;
        let b = self.below(bits + 1);
        self.below(1u64 << b.min(62)).min(max)
    }
}
