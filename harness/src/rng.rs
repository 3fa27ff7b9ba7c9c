//! Deterministic PRNG (splitmix64), so that every run is reproducible from VERIF_SEED.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64, salt: &str) -> Self {
        let mut h = 0xcbf29ce484222325u64 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
        for b in salt.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut r = Rng(h);
        r.next();
        r
    }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }

    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        let span = (hi as i128 - lo as i128 + 1) as u128;
        (lo as i128 + (self.next() as u128 % span) as i128) as i64
    }

    pub fn chance(&mut self, percent: u32) -> bool {
        self.below(100) < percent as usize
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }

    /// One to `max` digits.
    pub fn some_digits(&mut self, max: usize) -> String {
        let n = self.below(max) + 1;
        self.digits(n)
    }

    /// `a` with the probability of `percent`, otherwise `b`.
    pub fn either<T>(&mut self, percent: u32, a: T, b: T) -> T {
        if self.chance(percent) {
            a
        } else {
            b
        }
    }

    pub fn digits(&mut self, n: usize) -> String {
        (0..n)
            .map(|_| (b'0' + self.below(10) as u8) as char)
            .collect()
    }
}
