/// splitmix64
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(a: u64, b: u64) -> Rng {
        let mut r = Rng(a.wrapping_mul(0x9E3779B97F4A7C15) ^ b.wrapping_mul(0xD1B54A32D192ED03));
        r.next(); r.next(); r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n.max(1) }
    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }
    pub fn chance(&mut self, pct: u64) -> bool { self.below(100) < pct }
    pub fn range(&mut self, lo: u8, hi: u8) -> u8 { lo + self.below(hi as u64 - lo as u64 + 1) as u8 }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.usize(v.len())] }
}
