//! Deterministic pseudo random numbers (no dependencies).

#[derive(Clone, Debug)]
pub struct Rng(u64, u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |h, b| {
        (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3)
    })
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let a = mix(seed);
        let b = mix(a ^ 0x5555);
        Self(a | 1, b)
    }
    pub fn u64(&mut self) -> u64 {
        // xoroshiro128+
        let (s0, mut s1) = (self.0, self.1);
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.1 = s1.rotate_left(37);
        mix(r)
    }
    /// Uniform below `n` (`n > 0`).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        (self.u64() % (n as u64)) as usize
    }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, p: f64) -> bool {
        ((self.u64() >> 11) as f64) / ((1u64 << 53) as f64) < p
    }
    pub fn coin(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len())]
    }
    pub fn fork(&mut self) -> Rng {
        Rng::new(self.u64())
    }
}

/// Order-sensitive fingerprint.
#[derive(Clone, Copy, Debug)]
pub struct Fp(pub u64);
impl Default for Fp {
    fn default() -> Self {
        Fp(0x1234_5678)
    }
}
impl Fp {
    pub fn add(&mut self, v: u64) {
        self.0 = mix(self.0.rotate_left(5) ^ v);
    }
}
