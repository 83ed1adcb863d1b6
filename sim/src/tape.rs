//! The choice tape: the only source of randomness. One seed gives one tape; one tape gives one run.
//! A recorded tape can be replayed exactly and shrunk (0 is always the simplest choice, and a tape
//! that runs out yields zeros).

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_mul(0xff51_afd7_ed55_8ccd);
    splitmix(&mut x)
}

pub struct Tape {
    pub c: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    /// Where to append each draw unbuffered, to get the tape of a run that kills the process.
    log: Option<std::fs::File>,
}

impl Tape {
    pub fn from_seed(seed: u64) -> Self {
        Tape { c: Vec::with_capacity(4096), pos: 0, rng: Some(seed), log: None }
    }
    pub fn replay(c: Vec<u64>) -> Self {
        Tape { c, pos: 0, rng: None, log: None }
    }
    pub fn log_to(&mut self, f: std::fs::File) {
        self.log = Some(f);
    }
    pub fn used(&self) -> usize {
        self.pos
    }
    /// A value in `0..n`.
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = match &mut self.rng {
            Some(s) => {
                let r = splitmix(s);
                let v = if n.is_power_of_two() { r & (n - 1) } else { ((u128::from(r) * u128::from(n)) >> 64) as u64 };
                let _p = crate::sim::pause();
                self.c.push(v);
                if let Some(f) = &mut self.log {
                    use std::io::Write;
                    let _ = f.write_all(&v.to_le_bytes());
                }
                v
            }
            None => self.c.get(self.pos).copied().unwrap_or(0).min(n - 1),
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        let hi = self.draw(1 << 32);
        let lo = self.draw(1 << 32);
        (hi << 32) | lo
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability `num/den`; the zero choice is false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        if num == 0 {
            return false;
        }
        self.draw(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len());
        &xs[i]
    }
    /// Index by weight; index 0 is the simplest.
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|&x| u64::from(x)).sum();
        let mut v = self.draw(total);
        for (i, &x) in w.iter().enumerate() {
            if v < u64::from(x) {
                return i;
            }
            v -= u64::from(x);
        }
        w.len() - 1
    }
    /// Small sizes mostly, up to `max` now and then.
    pub fn size(&mut self, max: usize) -> usize {
        if max == 0 {
            return 0;
        }
        match self.draw(8) {
            0 => 0,
            1..=3 => self.below(max.min(3) + 1),
            4..=6 => self.below(max.min(8) + 1),
            _ => self.below(max + 1),
        }
    }
}
