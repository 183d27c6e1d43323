//! Small deterministic generators and the choice lists they fill.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(a: u64, b: u64) -> u64 {
    let mut z = a.wrapping_add(b.wrapping_mul(0x9E3779B97F4A7C15)).wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(s.as_bytes())
}
pub fn hash_bytes(s: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h, s.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed, 0x5157))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            0
        } else {
            self.next() % n
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }
}

/// The workload choices of a run: drawn from a generator and recorded, or played back.
/// Zero is always the simplest choice, so that shrinking means lowering and dropping.
#[derive(Clone)]
pub struct Choices {
    pub list: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Choices {
    pub fn gen(seed: u64) -> Choices {
        Choices { list: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(list: Vec<u64>) -> Choices {
        Choices { list, pos: 0, rng: None }
    }
    /// A value in 0..n.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        match &mut self.rng {
            Some(rng) => {
                let v = rng.below(n);
                self.list.push(v);
                self.pos += 1;
                v
            }
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v % n
            }
        }
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den (recorded as 0 or 1: zero is "no").
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        match &mut self.rng {
            Some(rng) => {
                let v = rng.below(den) < num;
                self.list.push(v as u64);
                self.pos += 1;
                v
            }
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v != 0
            }
        }
    }
    /// An index drawn with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        match &mut self.rng {
            Some(rng) => {
                let mut v = rng.below(total);
                let mut i = 0;
                while v >= w[i] {
                    v -= w[i];
                    i += 1;
                }
                self.list.push(i as u64);
                self.pos += 1;
                i
            }
            None => {
                let v = self.list.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                (v as usize) % w.len()
            }
        }
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    /// A generator for bulk content, seeded by one recorded choice.
    pub fn bulk(&mut self) -> Rng {
        Rng::new(self.below(1 << 40))
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.list.len())
    }
}
