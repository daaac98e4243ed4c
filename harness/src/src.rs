//! Decoder of generated choices. Every random decision of the harness is read
//! from a vector of numbers owned (generated and shrunk) by proptest. An
//! exhausted vector yields zeros, and alternative 0 is always the simplest one.

pub struct Src<'a> {
    v: &'a [u32],
    pos: usize,
    /// Derive further choices from those of the vector when it is exhausted
    cycle: bool,
}

impl<'a> Src<'a> {
    pub fn new(v: &'a [u32]) -> Self {
        Src {
            v,
            pos: 0,
            cycle: false,
        }
    }

    /// Without an end
    pub fn endless(v: &'a [u32]) -> Self {
        Src {
            v,
            pos: 0,
            cycle: true,
        }
    }

    fn next(&mut self) -> u32 {
        let pos = self.pos;
        self.pos += 1;
        if !self.cycle || self.v.is_empty() {
            return self.v.get(pos).copied().unwrap_or(0);
        }
        let x = self.v[pos % self.v.len()];
        match (pos / self.v.len()) as u32 {
            0 => x,
            round => {
                let x = (x ^ round.wrapping_mul(0x9E37_79B9)).wrapping_mul(0x85EB_CA6B);
                (x ^ (x >> 13)).wrapping_mul(0xC2B2_AE35)
            }
        }
    }

    /// Number in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        let x = self.next();
        ((x as u64 * n as u64) >> 32) as usize
    }

    /// True with probability num/den
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num.min(den)
    }

    pub fn exhausted(&self) -> bool {
        self.pos >= self.v.len()
    }

    pub fn pick<'b, T>(&mut self, xs: &'b [T]) -> &'b T {
        &xs[self.below(xs.len())]
    }
}
