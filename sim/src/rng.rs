//! The one generator everything is derived from.
pub fn next(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
pub fn hash(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        next(&mut x);
        Rng(x)
    }
    pub fn of(seed: u64, label: &str, n: u64) -> Self {
        let mut x = seed ^ hash(label);
        let a = next(&mut x);
        let mut y = a ^ n.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        next(&mut y);
        Rng(y)
    }
    pub fn u64(&mut self) -> u64 {
        next(&mut self.0)
    }
    /// below n
    pub fn n(&mut self, n: usize) -> usize {
        ((self.u64() >> 11) % n.max(1) as u64) as usize
    }
    /// between a and b inclusive
    pub fn r(&mut self, a: usize, b: usize) -> usize {
        a + self.n(b - a + 1)
    }
    /// true one time in n
    pub fn one_in(&mut self, n: usize) -> bool {
        self.n(n) == 0
    }
    pub fn pct(&mut self, p: usize) -> bool {
        self.n(100) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.n(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
}
