//! A choice tape: every random decision a check makes is read from a
//! `Vec<u32>` that proptest generates (and shrinks). Once the tape runs out all
//! choices are the simplest one (0), so deleting from or zeroing the tape always
//! leads to a simpler case.

pub struct Tape<'a> {
    data: &'a [u32],
    pos: usize,
}

impl<'a> Tape<'a> {
    pub fn new(data: &'a [u32]) -> Self {
        Tape { data, pos: 0 }
    }

    pub fn raw(&mut self) -> u32 {
        let v = self.data.get(self.pos).copied().unwrap_or(0);
        self.pos += 1;
        v
    }

    /// Uniform in `0..n` (monotonic in the tape value).
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0 && n <= 1 << 31);
        ((self.raw() as u64 * n as u64) >> 32) as usize
    }

    /// Inclusive range.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    /// True with probability num/den. False is the simple choice.
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) >= den - num
    }

    pub fn pick<'b, T>(&mut self, items: &'b [T]) -> &'b T {
        &items[self.below(items.len())]
    }

    /// Index into `weights`, proportionally.
    pub fn weighted(&mut self, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut x = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= *w;
        }
        unreachable!()
    }

    /// Small count with a tail: mostly 0..=3, sometimes up to `max`.
    pub fn count(&mut self, max: usize) -> usize {
        let n = match self.weighted(&[3, 4, 3, 2, 1]) {
            0 => 1,
            1 => 2,
            2 => 0,
            3 => 3,
            _ => self.range(4, 9),
        };
        n.min(max)
    }
}
