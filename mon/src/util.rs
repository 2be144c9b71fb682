//! Small deterministic RNG, bit helpers and hashing used by all monitors.
#![allow(dead_code)]

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.u64();
        r.u64();
        r
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// Uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.u64() % n as u64) as usize }
    }
    /// Uniform in lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn fr(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }
    /// Log-uniform
    pub fn logu(&mut self, lo: f64, hi: f64) -> f64 {
        (self.fr(lo.ln(), hi.ln())).exp()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.rotate_left(17) ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.u64()
}

/// FNV-1a over 64-bit words.
#[derive(Clone, Copy)]
pub struct Fnv(pub u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl Fnv {
    pub fn w(&mut self, v: u64) -> &mut Self {
        for b in v.to_le_bytes() {
            self.0 ^= b as u64;
            self.0 = self.0.wrapping_mul(0x1000_0000_01b3);
        }
        self
    }
    pub fn f(&mut self, v: f64) -> &mut Self {
        self.w(v.to_bits())
    }
    pub fn fs<'a>(&mut self, v: impl IntoIterator<Item = &'a f64>) -> &mut Self {
        for x in v {
            self.f(*x);
        }
        self
    }
    pub fn s(&mut self, v: &str) -> &mut Self {
        for b in v.bytes() {
            self.w(b as u64);
        }
        self
    }
}

pub fn bits(p: &ndarray::Array1<f64>) -> Vec<u64> {
    p.iter().map(|v| v.to_bits()).collect()
}

pub fn d2(a: &ndarray::Array1<f64>, b: &ndarray::Array1<f64>) -> f64 {
    let d = a - b;
    d.dot(&d)
}
