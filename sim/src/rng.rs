//! The only source of randomness of a run.

#[derive(Clone, Debug)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x5DEE_CE66_D1CE_4E5B))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    /// True in `pct` of 100 cases.
    pub fn pct(&mut self, pct: u64) -> bool {
        self.below(100) < pct
    }
    pub fn bool(&mut self) -> bool {
        self.next() & 1 == 1
    }
    pub fn f(&mut self, lo: f32, hi: f32) -> f32 {
        lo + (hi - lo) * ((self.next() >> 40) as f32 / (1u64 << 24) as f32)
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.idx(s.len());
        &s[i]
    }
    /// An index, with the given weights.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut r = self.below(total.max(1));
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i;
            }
            r -= *x as u64;
        }
        w.len() - 1
    }
    pub fn seed(&mut self) -> u32 {
        self.next() as u32
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.idx(i + 1);
            v.swap(i, j);
        }
    }
}

/// 64-bit content hash (FNV-style with a final mix; stable across processes).
#[derive(Clone, Copy)]
pub struct Hasher64(u64);

impl Default for Hasher64 {
    fn default() -> Self {
        Hasher64(0xcbf2_9ce4_8422_2325)
    }
}

impl Hasher64 {
    pub fn bytes(&mut self, b: &[u8]) {
        let mut h = self.0;
        let mut it = b.chunks_exact(8);
        for c in &mut it {
            h = (h ^ u64::from_le_bytes(c.try_into().unwrap())).wrapping_mul(0x9FB2_1C65_1E98_DF25);
            h ^= h >> 29;
        }
        for c in it.remainder() {
            h = (h ^ *c as u64).wrapping_mul(0x0000_0100_0000_01B3);
        }
        self.0 = h ^ ((b.len() as u64) << 1);
    }
    pub fn u64(&mut self, v: u64) {
        self.bytes(&v.to_le_bytes());
    }
    pub fn str(&mut self, s: &str) {
        self.bytes(s.as_bytes());
    }
    pub fn finish(&self) -> u64 {
        mix(self.0)
    }
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = Hasher64::default();
    h.bytes(b);
    h.finish()
}

pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}

impl std::fmt::Write for Hasher64 {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.str(s);
        Ok(())
    }
}

/// Hash of a value's `Debug` form.
pub fn hash_debug(v: &impl std::fmt::Debug) -> u64 {
    hash_str(&format!("{v:?}"))
}
