//! One seed decides everything: every decision of a run (workload, schedule,
//! faults) is drawn from here, and the drawn values are recorded. A replay file
//! is the recorded list; minimisation edits that list.

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }
    pub fn next(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }
}

pub fn fnv(data: &[u8], mut h: u64) -> u64 {
    for b in data {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01B3);
    }
    h
}
pub const FNV0: u64 = 0xcbf2_9ce4_8422_2325;

pub fn run_seed(seed: u64, prop: &str, run: u64) -> u64 {
    let mut x = seed ^ fnv(prop.as_bytes(), FNV0) ^ run.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    splitmix(&mut x)
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Source {
    mode: Mode,
    pos: usize,
    pub rec: Vec<u64>,
}

impl Source {
    pub fn random(seed: u64) -> Self {
        Source { mode: Mode::Random(Rng::new(seed)), pos: 0, rec: Vec::with_capacity(1024) }
    }
    pub fn replay(v: Vec<u64>) -> Self {
        Source { mode: Mode::Replay(v), pos: 0, rec: Vec::with_capacity(1024) }
    }
    /// uniform in [0, n); 0 is by convention the simplest choice
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => ((r.next() as u128 * n as u128) >> 64) as u64,
            Mode::Replay(v) => v.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        self.rec.push(v);
        v
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn us(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den; 0 means false
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.us(v.len())]
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let tot: u64 = w.iter().sum();
        let mut x = self.below(tot);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= *k;
        }
        0
    }
    /// random subset of v, each with probability num/den, never empty
    pub fn subset<T: Clone>(&mut self, v: &[T], num: u64, den: u64) -> Vec<T> {
        let mut o: Vec<T> = Vec::new();
        for x in v {
            if self.chance(num, den) {
                o.push(x.clone());
            }
        }
        if o.is_empty() {
            o.push(self.pick(v).clone());
        }
        o
    }
}
