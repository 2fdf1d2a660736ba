//! The driver's own random numbers (independent of the generator the library draws from).

#[derive(Clone)]
pub struct R(pub u64);

impl R {
    pub fn new(seed: u64) -> R {
        let mut r = R(seed ^ 0x5851_F42D_4C95_7F2D);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0 <= result < n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            ((self.next() >> 11) % n as u64) as usize
        }
    }
    /// lo <= result <= hi
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, x: &'a [T]) -> &'a T {
        let n = self.below(x.len());
        &x[n]
    }
    pub fn shuffle<T>(&mut self, x: &mut Vec<T>) {
        for n in (1..x.len()).rev() {
            let m = self.below(n + 1);
            x.swap(n, m);
        }
    }
}
