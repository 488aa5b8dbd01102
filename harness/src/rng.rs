//! Deterministic generator: every random choice of the harness comes from here, seeded by VERIF_SEED.
#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub struct Fp(pub u64);
impl Fp {
    pub fn new() -> Self {
        Fp(0x1234_5678_9abc_def0)
    }
    pub fn add(&mut self, x: u64) {
        self.0 = mix(self.0 ^ x.wrapping_mul(0x9E3779B97F4A7C15)).rotate_left(17);
    }
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = [0; 4];
        let mut x = seed;
        for v in s.iter_mut() {
            x = mix(x);
            *v = x;
        }
        Rng { s }
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    /// Uniform in [0, n).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (((self.u64() >> 32) * n as u64) >> 32) as usize
    }
    pub fn bit(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bits(&mut self, n: usize) -> Vec<bool> {
        (0..n).map(|_| self.bit()).collect()
    }
    /// An index that is often 0, small, the last, or uniform.
    pub fn skewed(&mut self, n: usize) -> usize {
        match self.below(5) {
            0 => 0,
            1 => n - 1,
            2 => n - 1 - self.below(n.min(4)),
            3 => self.below(n.min(4)),
            _ => self.below(n),
        }
    }
}
