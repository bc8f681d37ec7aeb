//! Coverage guidance: what a case reached in the code under test, and cases made from others that
//! reached something new.
use crate::rng::Rng;

extern "C" {
    fn hv_counters(n: *mut usize) -> *mut u8;
    static mut hv_cmp: [u8; CMP];
}
const CMP: usize = 1 << 16;

/// choices that a mutated case can make beyond those of its parent
const BEYOND: usize = 3000;
const LONGEST: usize = 20_000;

pub struct Guide {
    counters: &'static mut [u8],
    seen: Vec<u8>,
    seen_cmp: Vec<u8>,
    /// (tape, microseconds)
    corpus: Vec<(Vec<u64>, u64)>,
}

fn bucket(n: u8) -> u8 {
    match n {
        0 => 0,
        1 => 1,
        2 => 2,
        3 => 4,
        4..=7 => 8,
        8..=15 => 16,
        16..=31 => 32,
        32..=127 => 64,
        _ => 128,
    }
}

#[allow(static_mut_refs)]
impl Guide {
    pub fn new() -> Guide {
        let counters = unsafe {
            let mut n = 0;
            let p = hv_counters(&mut n);
            if n == 0 {
                &mut []
            } else {
                std::slice::from_raw_parts_mut(p, n)
            }
        };
        let n = counters.len();
        Guide { counters, seen: vec![0; n], seen_cmp: vec![0; CMP], corpus: vec![] }
    }

    pub fn size(&self) -> usize {
        self.corpus.len()
    }

    pub fn start(&mut self) {
        self.counters.fill(0);
    }

    /// called after a case: is there anything that no earlier case did?
    pub fn learn(&mut self, tape: &[u64], micros: u64) {
        let mut new = 0;
        for (c, s) in self.counters.iter().zip(self.seen.iter_mut()) {
            let b = bucket(*c);
            if b & !*s != 0 {
                *s |= b;
                new += 1;
            }
        }
        let cmp = unsafe { &hv_cmp[..] };
        if cmp != &self.seen_cmp[..] {
            new += 1;
            self.seen_cmp.copy_from_slice(cmp);
        }
        if new > 0 && tape.len() <= LONGEST {
            self.corpus.push((tape.to_vec(), micros));
        }
    }

    /// a tape made from one or two of the corpus
    pub fn mutant(&mut self, seed: u64) -> Vec<u64> {
        let mut r = Rng::new(seed);
        let n = self.corpus.len();
        // newer and faster ones more often
        let pick = |r: &mut Rng| {
            let (a, b, c) = (r.below(n), r.below(n), r.below(n));
            let fast = |x: usize, y: usize| if self.corpus[x].1 <= self.corpus[y].1 { x } else { y };
            match r.below(4) {
                0 => a.max(b),
                1 => fast(a, b),
                _ => fast(fast(a, b), c),
            }
        };
        let mut t = self.corpus[pick(&mut r)].0.clone();
        let steps = 1 + [0, 0, 0, 1, 2, 4, 8][r.below(7)];
        for _ in 0..steps {
            if t.is_empty() {
                break;
            }
            let i = r.below(t.len());
            let m = [1, 4, 16, 64][r.below(4)];
            let len = (1 + r.below(m)).min(t.len() - i);
            match r.below(10) {
                0 | 1 => t[i] = r.next() >> 1,
                2 => t[i] = r.below(8) as u64,
                3 => t[i] = t[i].wrapping_add(1 + r.below(3) as u64),
                4 => t[i] = t[i].saturating_sub(1 + r.below(3) as u64),
                5 => {
                    t.drain(i..i + len);
                }
                6 | 7 => {
                    // repeat a block
                    let block = t[i..i + len].to_vec();
                    let times = 1 + [0, 0, 1, 6][r.below(4)];
                    for _ in 0..times {
                        t.splice(i..i, block.iter().cloned());
                    }
                }
                8 => {
                    // a block of another one
                    let o = &self.corpus[pick(&mut r)].0;
                    if !o.is_empty() {
                        let j = r.below(o.len());
                        let l = (1 + r.below(64)).min(o.len() - j);
                        let hi = if r.chance(1, 2) { (i + l).min(t.len()) } else { i };
                        t.splice(i..hi, o[j..j + l].iter().cloned());
                    }
                }
                _ => {
                    // everything from here on anew, or as in another one
                    t.truncate(i);
                    let o = &self.corpus[pick(&mut r)].0;
                    if r.chance(1, 2) && i < o.len() {
                        t.extend_from_slice(&o[i..]);
                    }
                }
            }
        }
        t.truncate(LONGEST);
        for _ in 0..BEYOND {
            t.push(r.next() >> 1);
        }
        t
    }
}
