#[derive(Clone, Debug)]
pub struct Rng(pub u64);
pub fn mix(mut z: u64) -> u64 {
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed ^ 0x9e3779b97f4a7c15))
    }
    pub fn stream(seed: u64, id: u64) -> Self {
        Rng(mix(mix(seed ^ 0x9e3779b97f4a7c15) ^ mix(id.wrapping_mul(0xd1342543de82ef95).wrapping_add(1))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        mix(self.0)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 { 0 } else { ((self.next() as u128 * n as u128) >> 64) as u64 }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1).max(1) as u64) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        ((self.next() >> 11) as f64) * (1.0 / 9007199254740992.0) < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len() as u64) as usize]
    }
    /// geometric-like with the given mean, at least 1
    pub fn geo(&mut self, mean: u64) -> u64 {
        let u = (((self.next() >> 11) as f64) + 1.0) * (1.0 / 9007199254740993.0);
        ((-(u.ln()) * mean as f64) as u64).clamp(1, mean.saturating_mul(20))
    }
}
