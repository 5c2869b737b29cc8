//! Every decision of a simulated run is drawn here. A run is a pure function of the code and of the
//! list of drawn values, which is what a replay file holds.

#[derive(Clone)]
pub struct SplitMix(pub u64);
impl SplitMix {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = SplitMix(a ^ b.wrapping_mul(0xD6E8FEB86659FD93).rotate_left(29));
    s.next();
    s.next()
}

enum Source {
    Rng(SplitMix),
    Replay(Vec<u32>, usize),
}

pub struct Ch {
    source: Source,
    pub record: Vec<u32>,
    /// Mirror of the record in memory shared with the parent, for runs that never return.
    pub shared: Option<*mut crate::run::SharedRecord>,
}

impl Ch {
    pub fn seeded(seed: u64) -> Self {
        Ch { source: Source::Rng(SplitMix(seed)), record: Vec::new(), shared: None }
    }
    pub fn replay(values: Vec<u32>) -> Self {
        Ch { source: Source::Replay(values, 0), record: Vec::new(), shared: None }
    }
    /// Uniform in 0..n; 0 is by convention the simplest alternative.
    pub fn choose(&mut self, n: u32) -> u32 {
        assert!(n > 0, "choose(0)");
        let v = match &mut self.source {
            Source::Rng(rng) => ((rng.next() >> 32) as u128 * n as u128 >> 32) as u32,
            Source::Replay(values, pos) => {
                let v = values.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v.min(n - 1)
            }
        };
        self.push(v);
        v
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.choose(n as u32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// True with probability num/den; 0 drawn means false.
    pub fn chance(&mut self, num: u32, den: u32) -> bool {
        self.choose(den) >= den - num
    }
    pub fn pick<'a, T>(&mut self, list: &'a [T]) -> &'a T {
        let i = self.below(list.len());
        &list[i]
    }
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u32 = weights.iter().sum();
        let mut v = self.choose(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    /// Full 64-bit value (hash keys, allocator seeds).
    pub fn bits(&mut self) -> u64 {
        let a = self.choose(u32::MAX) as u64;
        let b = self.choose(u32::MAX) as u64;
        a << 32 | b
    }
    /// Generate with rejection: a rejected attempt leaves no trace in the record, so that a replay
    /// goes straight to the accepted one. Gives None after `tries` rejections.
    pub fn attempt<T>(&mut self, tries: usize, mut f: impl FnMut(&mut Ch) -> Option<T>) -> Option<T> {
        let mark = self.record.len();
        if let Source::Replay(values, pos) = &mut self.source {
            let found = values.get(*pos).copied().unwrap_or(0);
            *pos += 1;
            if found != 0 {
                self.push(1);
                if let Some(v) = f(self) {
                    return Some(v);
                }
                self.truncate(mark);
            }
        } else {
            for _ in 0..tries {
                self.push(1);
                if let Some(v) = f(self) {
                    return Some(v);
                }
                self.truncate(mark);
            }
        }
        self.push(0);
        None
    }
    fn push(&mut self, v: u32) {
        if let Some(s) = self.shared {
            unsafe { (*s).push(self.record.len(), v) };
        }
        self.record.push(v);
    }
    fn truncate(&mut self, n: usize) {
        self.record.truncate(n);
    }
}
