//! The choice sequence every generator draws from: recorded while random, replayed while shrinking.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for v in b {
        h = (h ^ *v as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn hash_words(b: &[u64]) -> u64 {
    let mut h = 0x1234_5678_9abc_def0u64;
    for v in b {
        h = mix(h ^ *v);
    }
    h
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
}

pub struct Src {
    rng: Option<Rng>,
    tape: Vec<u64>,
    pos: usize,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { rng: Some(Rng::new(seed)), tape: Vec::new(), pos: 0 }
    }

    pub fn replay(tape: &[u64]) -> Src {
        Src { rng: None, tape: tape.to_vec(), pos: 0 }
    }

    /// The choices made so far (the whole tape of a random run).
    pub fn tape(&self) -> &[u64] {
        &self.tape[..self.pos.min(self.tape.len())]
    }

    fn raw(&mut self) -> u64 {
        let v = match &mut self.rng {
            Some(r) => {
                let v = r.next();
                self.tape.push(v);
                v
            }
            None => self.tape.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        v
    }

    fn fix(&mut self, v: u64) -> u64 {
        if self.rng.is_some() {
            let p = self.pos - 1;
            self.tape[p] = v;
        }
        v
    }

    /// Any 64-bit word, uniformly.
    pub fn word(&mut self) -> u64 {
        self.raw()
    }

    /// A number in 0..n (0 is the simplest).
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        let v = self.raw() % n;
        self.fix(v)
    }

    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }

    pub fn range(&mut self, a: u64, b: u64) -> u64 {
        a + self.below(b - a + 1)
    }

    /// True once in n.
    pub fn one_in(&mut self, n: u64) -> bool {
        // 0 must be the simple (false) answer, hence the comparison with n - 1
        n <= 1 || self.below(n) == n - 1
    }

    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }

    /// An index chosen with the given weights; put the simplest alternative first.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.below(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        0
    }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.idx(v.len());
        &v[i]
    }

    /// A length, small most of the time.
    pub fn len(&mut self, max: usize) -> usize {
        match self.weighted(&[6, 3, 1]) {
            0 => self.below(4.min(max as u64 + 1)) as usize,
            1 => self.below(12.min(max as u64 + 1)) as usize,
            _ => self.below(max as u64 + 1) as usize,
        }
    }

    /// A value of n bits: random, boundary, single-bit and small values are all likely.
    pub fn bits(&mut self, n: u32) -> u64 {
        let mask = if n >= 64 { u64::MAX } else { (1u64 << n) - 1 };
        let v = match self.weighted(&[2, 1, 1, 1, 1, 3]) {
            0 => self.below(8),
            1 => mask,
            2 => 1u64 << self.below(n.max(1) as u64),
            3 => (1u64 << (n.max(1) - 1)).wrapping_sub(self.below(2)),
            4 => mask.wrapping_sub(self.below(8)),
            _ => self.word(),
        };
        v & mask
    }

    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        if n <= 48 {
            let style = self.weighted(&[1, 1, 1, 4]);
            return (0..n)
                .map(|_| match style {
                    0 => 0,
                    1 => 0xFF,
                    2 => [0u8, 0xFF, 0x80, 1, 0x7F][self.idx(5)],
                    _ => self.below(256) as u8,
                })
                .collect();
        }
        let seed = self.word();
        let mut r = Rng::new(seed);
        if seed == 0 {
            return vec![0; n];
        }
        (0..n).map(|_| r.next() as u8).collect()
    }
}

/// Shrinks a failing tape: `fails` returns the tape actually consumed when the case still fails.
pub fn shrink(start: Vec<u64>, budget: usize, mut fails: impl FnMut(&[u64]) -> bool) -> Vec<u64> {
    let mut best = start;
    let mut left = budget;
    let mut progress = true;
    while progress && left > 0 {
        progress = false;
        // drop blocks
        let mut size = (best.len() / 2).max(1);
        while size >= 1 && left > 0 {
            let mut i = 0;
            while i + size <= best.len() && left > 0 {
                let mut cand = best.clone();
                cand.drain(i..i + size);
                left -= 1;
                if fails(&cand) {
                    best = cand;
                    progress = true;
                } else {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // zero and lower single words
        let mut i = 0;
        while i < best.len() && left > 0 {
            let orig = best[i];
            if orig != 0 {
                let mut cand = best.clone();
                cand[i] = 0;
                left -= 1;
                if fails(&cand) {
                    best = cand;
                    progress = true;
                } else {
                    let (mut lo, mut hi) = (0u64, orig);
                    while lo + 1 < hi && left > 0 {
                        let mid = lo + (hi - lo) / 2;
                        let mut cand = best.clone();
                        cand[i] = mid;
                        left -= 1;
                        if fails(&cand) {
                            hi = mid;
                            best = cand;
                            progress = true;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
    }
    while best.last() == Some(&0) {
        best.pop();
    }
    best
}
