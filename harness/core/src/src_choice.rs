//! Choice-sequence generation: a generator draws bounded integers from a `Src`; the sequence of
//! drawn integers determines the case, so a failing case is shrunk by simplifying the sequence
//! (delete blocks, zero, lower values) and generating again.

pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

enum Mode {
    Random(Rng),
    Replay(Vec<u64>),
}

pub struct Src {
    mode: Mode,
    pub trace: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Self {
        Src {
            mode: Mode::Random(Rng::new(seed)),
            trace: vec![],
        }
    }
    pub fn replay(choices: Vec<u64>) -> Self {
        Src {
            mode: Mode::Replay(choices),
            trace: vec![],
        }
    }
    /// A value in 0..n (0 is the simplest).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = match &mut self.mode {
            Mode::Random(r) => r.next() % n,
            Mode::Replay(c) => c.get(self.trace.len()).copied().unwrap_or(0).min(n - 1),
        };
        self.trace.push(v);
        v
    }
    pub fn usize(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.usize(hi - lo + 1)
    }
    /// true with probability num/den; false is simplest.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.usize(xs.len())]
    }
    /// A length biased to small values, at most `max`.
    pub fn len(&mut self, max: usize) -> usize {
        match self.below(8) {
            0 => 0,
            1..=4 => self.usize(max.min(3) + 1),
            5 | 6 => self.usize(max.min(8) + 1),
            _ => self.usize(max + 1),
        }
    }
    /// Index by weight (put the simplest first).
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let total: u64 = weights.iter().sum();
        let mut v = self.below(total);
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        weights.len() - 1
    }
}

/// Shrinks a choice sequence while `fails` holds; `fails` returns the trace actually used.
pub fn shrink(
    mut best: Vec<u64>,
    mut budget: usize,
    mut fails: impl FnMut(Vec<u64>) -> Option<Vec<u64>>,
) -> Vec<u64> {
    fn less(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a) < (b.len(), b)
    }
    let mut try_one = |cand: Vec<u64>, best: &mut Vec<u64>, budget: &mut usize| -> bool {
        if *budget == 0 {
            return false;
        }
        *budget -= 1;
        if let Some(t) = fails(cand) {
            if less(&t, best) {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i > 0 {
                i = i.saturating_sub(size);
                if i >= best.len() {
                    continue;
                }
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                // also try lowering the choice just before (often a length)
                if !try_one(c.clone(), &mut best, &mut budget) && i > 0 && i <= c.len() && c[i - 1] > 0
                {
                    c[i - 1] -= 1;
                    try_one(c, &mut best, &mut budget);
                }
            }
            if size == 1 || budget == 0 {
                break;
            }
            size /= 2;
        }
        // lower values
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_one(c, &mut best, &mut budget) {
                    let (mut lo, mut hi) = (0u64, best[i]);
                    while lo + 1 < hi && budget > 0 && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_one(c, &mut best, &mut budget) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                    if i < best.len() && best[i] > 0 {
                        let mut c = best.clone();
                        c[i] -= 1;
                        try_one(c, &mut best, &mut budget);
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            return best;
        }
    }
}
