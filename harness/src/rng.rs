//! Randomness: a small deterministic generator, and the tape of choices that a case is made of.

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9e37_79b9_7f4a_7c15)
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn shuffle<X>(&mut self, v: &mut [X]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ b);
    r.next()
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h, b.len() as u64)
}

/// The choices of a case. While generating, choices come from the generator and are recorded;
/// while replaying or shrinking they come from the tape (zero when it is exhausted).
pub struct Src {
    pub tape: Vec<u64>,
    pub pos: usize,
    rng: Option<Rng>,
    /// every choice is also written here at once (it survives a crash)
    pub log: Option<std::fs::File>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)), log: None }
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src { tape, pos: 0, rng: None, log: None }
    }
    /// 0 is the simplest choice
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos] % n as u64
        } else {
            let v = match &mut self.rng {
                Some(r) => r.below(n) as u64,
                None => 0,
            };
            self.tape.push(v);
            v
        };
        if let Some(f) = &mut self.log {
            use std::io::Write;
            let _ = f.write_all(&v.to_le_bytes());
        }
        self.pos += 1;
        v as usize
    }
    /// false is the simplest choice
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn pick<'a, X>(&mut self, v: &'a [X]) -> &'a X {
        &v[self.below(v.len())]
    }
    /// a seed for something that is not worth recording choice by choice; 0 means "plain"
    pub fn seed(&mut self) -> u64 {
        // mostly random, sometimes plain
        if self.chance(15, 16) {
            1 + self.below(1 << 32) as u64
        } else {
            0
        }
    }
    pub fn shuffle<X>(&mut self, v: &mut [X]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// mostly small, sometimes large
    pub fn size(&mut self, small: usize, large: usize, huge: usize) -> usize {
        match self.below(64) {
            0..=55 => self.below(small + 1),
            56..=62 => self.below(large + 1),
            _ => self.below(huge + 1),
        }
    }
}
