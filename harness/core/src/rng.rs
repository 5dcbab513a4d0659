//! Deterministic generator (xoshiro256++), seeded from (seed, section, case).
#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100000001b3);
    }
    let mut h2 = h;
    splitmix(&mut h2)
}
pub fn hash_u64s(v: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for x in v {
        h ^= *x;
        h = splitmix(&mut h.clone()).rotate_left(17) ^ h.wrapping_mul(0x9E3779B97F4A7C15);
    }
    h
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn for_case(seed: u64, section: &str, idx: u64) -> Self {
        Rng::new(hash_u64s(&[seed, hash_bytes(section.as_bytes()), idx]))
    }
    pub fn u64(&mut self) -> u64 {
        let r = self.s[0]
            .wrapping_add(self.s[3])
            .rotate_left(23)
            .wrapping_add(self.s[0]);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
    pub fn u32(&mut self) -> u32 {
        (self.u64() >> 32) as u32
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// uniform in 0..n (n>0)
    pub fn below(&mut self, n: u64) -> u64 {
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// uniform in a..=b
    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        if a == 0 && b == u64::MAX {
            return self.u64();
        }
        a + self.below(b - a + 1)
    }
    pub fn irange(&mut self, a: i64, b: i64) -> i64 {
        a.wrapping_add(self.range(0, b.wrapping_sub(a) as u64) as i64)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    /// true with probability n/d
    pub fn chance(&mut self, n: u64, d: u64) -> bool {
        self.below(d) < n
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T {
        v[self.usize(v.len())].clone()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }
    pub fn perm(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        self.shuffle(&mut v);
        v
    }
    /// value with `bits` bits, heavily biased to boundary patterns
    pub fn edge(&mut self, bits: u32) -> u64 {
        let mask = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        let v = match self.below(12) {
            0 => 0,
            1 => 1,
            2 => u64::MAX,
            3 => 1u64 << (bits - 1).min(63),
            4 => (1u64 << (bits - 1).min(63)).wrapping_sub(1),
            5 => (1u64 << self.below(bits as u64)).wrapping_add(self.irange(-2, 2) as u64),
            6 => (!0u64 << self.below(bits as u64)).wrapping_add(self.irange(-2, 2) as u64),
            7 => {
                let a = self.below(bits as u64);
                let b = self.below(bits as u64);
                (1u64 << a) ^ (1u64 << b)
            }
            8 => self.u64() >> self.below(64),
            9 => {
                let s = self.below(64);
                self.u64() << s
            }
            _ => self.u64(),
        };
        v & mask
    }
}
