//! Keyed stateless randomness: every choice is a pure function of (seed, stream, index).
pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn h3(seed: u64, stream: u64, idx: u64) -> u64 {
    mix(mix(mix(seed).wrapping_add(stream.wrapping_mul(0xD6E8FEB86659FD93))).wrapping_add(idx))
}
pub fn unit(x: u64) -> f64 {
    (x >> 11) as f64 / (1u64 << 53) as f64
}
#[derive(Clone)]
pub struct Rng {
    seed: u64,
    stream: u64,
    n: u64,
}
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Rng {
        Rng { seed, stream, n: 0 }
    }
    pub fn next(&mut self) -> u64 {
        self.n += 1;
        h3(self.seed, self.stream, self.n)
    }
    pub fn f(&mut self) -> f64 {
        unit(self.next())
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    /// inclusive range
    pub fn range(&mut self, a: i64, b: i64) -> i64 {
        a + self.below((b - a + 1) as u64) as i64
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f() < p
    }
    pub fn uni(&mut self, a: f64, b: f64) -> f64 {
        a + (b - a) * self.f()
    }
    pub fn logu(&mut self, a: f64, b: f64) -> f64 {
        (self.uni(a.ln(), b.ln())).exp()
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len() as u64) as usize;
        &v[i]
    }
    pub fn weighted(&mut self, w: &[f64]) -> usize {
        let s: f64 = w.iter().sum();
        let mut x = self.f() * s;
        for (i, &p) in w.iter().enumerate() {
            if x < p {
                return i;
            }
            x -= p;
        }
        w.len() - 1
    }
    /// a double with interesting bit patterns now and then, always finite
    pub fn weird_f64(&mut self) -> f64 {
        match self.below(14) {
            0 => 0.0,
            1 => -0.0,
            2 => f64::MIN_POSITIVE,
            3 => 5e-324,
            4 => -1.7976931348623157e308,
            5 => self.range(-1000, 1000) as f64,
            6 => {
                let b = self.next();
                let f = f64::from_bits(b);
                if f.is_finite() {
                    f
                } else {
                    1.0 / 3.0
                }
            }
            _ => self.uni(-100., 100.),
        }
    }
}
