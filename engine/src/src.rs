//! The choice tape. Every random decision of a case is one `draw`; the list of
//! draws *is* the case: it is what is shrunk, mutated by the coverage-guided
//! search (guided.rs), and stored in replay files.

pub type R = Result<(), String>;

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(mix(seed))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
}

fn pick_literal(d: &crate::dict::Dict, r: &mut Rng) -> u64 {
    if d.ints.is_empty() {
        return r.next();
    }
    let n = if d.new > 0 && r.next() % 8 != 0 { d.new } else { d.ints.len() };
    d.ints[(r.next() % n as u64) as usize]
}

enum Feed {
    Rng(Rng),
    /// A tape, then zeros.
    Tape(Vec<u64>),
}

pub struct Src {
    feed: Feed,
    prefix: Vec<u64>,
    pos: usize,
    /// The draws made so far (what a replay needs).
    pub used: Vec<u64>,
    pub want_notes: bool,
    pub notes: Vec<String>,
    pub classes: Vec<&'static str>,
    pub nontrivial: bool,
    /// Affine x and Z of representations a generator of points prepared.
    pub hints: Vec<(crate::big::U, crate::big::U)>,
    pub hash: u64,
    /// Where every draw goes at once (replays of a case that ends the process).
    trace: Option<std::fs::File>,
}

impl Src {
    fn with(feed: Feed) -> Src {
        Src {
            feed,
            prefix: Vec::new(),
            pos: 0,
            used: Vec::new(),
            want_notes: false,
            notes: Vec::new(),
            classes: Vec::new(),
            nontrivial: false,
            hints: Vec::new(),
            hash: 0x1234_5678_9abc_def0,
            trace: None,
        }
    }
    pub fn trace_to(&mut self, path: &str) {
        self.trace = std::fs::File::create(path).ok();
    }
    fn record(&mut self, v: u64) {
        if let Some(f) = &mut self.trace {
            use std::io::Write;
            let _ = writeln!(f, "{}", v);
        }
        self.used.push(v);
    }
    pub fn random(seed: u64) -> Src {
        Src::with(Feed::Rng(Rng::new(seed)))
    }
    pub fn replay(tape: Vec<u64>) -> Src {
        Src::with(Feed::Tape(tape))
    }
    /// A tape, then fresh randomness.
    pub fn tape_then(tape: Vec<u64>, seed: u64) -> Src {
        let mut s = Src::with(Feed::Rng(Rng::new(seed)));
        s.prefix = tape;
        s
    }

    /// A choice in `0..n`; `n == 0` means any u64. Choice 0 is the simplest one.
    pub fn draw(&mut self, n: u64) -> u64 {
        let raw = match &mut self.feed {
            _ if self.pos < self.prefix.len() => self.prefix[self.pos],
            Feed::Rng(r) => r.next(),
            Feed::Tape(t) => t.get(self.pos).copied().unwrap_or(0),
        };
        self.pos += 1;
        let v = if n == 0 { raw } else { raw % n };
        self.record(v);
        v
    }
    /// A value put on the tape as it is: by `f` from fresh randomness, or as
    /// found on the tape.
    fn by_value(&mut self, f: impl FnOnce(&mut Rng) -> u64) -> u64 {
        let v = match &mut self.feed {
            Feed::Rng(r) if self.pos >= self.prefix.len() => f(r),
            _ => return self.draw(0),
        };
        self.pos += 1;
        self.record(v);
        v
    }
    /// A literal of the source under test, or a word close to one.
    pub fn literal(&mut self) -> u64 {
        self.by_value(|r| {
            let d = crate::dict::get();
            let v = pick_literal(d, r);
            match r.next() % 12 {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => 1 << (v % 64),
                3 => (1u64 << (v % 64)).wrapping_sub(1),
                4 => !v,
                5 => v.wrapping_neg(),
                _ => v,
            }
        })
    }
    /// A word of boundary shape: of `xs`, or a literal of the source.
    pub fn word(&mut self, xs: &[u64]) -> u64 {
        self.by_value(|r| {
            let d = crate::dict::get();
            let odds = if d.new > 0 { 3 } else { 6 };
            if r.next() % odds == 0 {
                pick_literal(d, r)
            } else {
                xs[(r.next() % xs.len() as u64) as usize]
            }
        })
    }
    /// A size below `n`, or (rarely) a literal of the source, at most `cap`, or
    /// one more or less.
    pub fn size(&mut self, n: usize, cap: usize) -> usize {
        let v = self.by_value(|r| {
            let d = crate::dict::get();
            if r.next() % 24 == 0 {
                let v = pick_literal(d, r).wrapping_add(r.next() % 3).wrapping_sub(1);
                if v <= cap as u64 {
                    return v;
                }
            }
            r.next() % n as u64
        });
        if v <= cap as u64 {
            v as usize
        } else {
            v as usize % n
        }
    }
    /// A short string or character literal of the source under test.
    pub fn text(&mut self) -> String {
        let d = crate::dict::get();
        let t: Vec<char> = match &mut self.feed {
            Feed::Rng(r) if !d.strings.is_empty() => d.strings[(r.next() % d.strings.len() as u64) as usize].chars().collect(),
            _ => vec![],
        };
        let n = self.by_value(|_| t.len() as u64) % 25;
        (0..n as usize)
            .map(|i| self.by_value(|_| t.get(i).map(|c| *c as u64).unwrap_or(0)))
            .map(|v| char::from_u32(v as u32 & 0x1f_ffff).unwrap_or('?'))
            .collect()
    }
    /// Four words written out as one constant in the source under test.
    pub fn quad(&mut self) -> [u64; 4] {
        let mut q = [0; 4];
        if let Feed::Rng(r) = &mut self.feed {
            let d = crate::dict::get();
            if !d.quads.is_empty() {
                q = d.quads[(r.next() % d.quads.len() as u64) as usize];
            }
        }
        q.map(|w| self.by_value(|_| w))
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    pub fn flag(&mut self) -> bool {
        self.draw(2) == 1
    }
    /// True once in `n` (false is the simple choice).
    pub fn one_in(&mut self, n: u64) -> bool {
        self.draw(n) == n - 1
    }
    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())]
    }
    /// Index chosen with the given weights.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= *x;
        }
        unreachable!()
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.want_notes {
            let s = f();
            self.notes.push(s);
        }
    }
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    /// Record a generated value: two cases are distinct when these differ.
    pub fn absorb(&mut self, v: &[u64]) {
        for x in v {
            self.hash = mix(self.hash ^ *x).wrapping_mul(0x2545_f491_4f6c_dd1d);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
}

/// Bytes at a chosen place in memory: on or off word, line and page boundaries,
/// with other bytes around them.
pub struct Placed(Vec<u8>, usize, usize);
impl Placed {
    pub fn new(s: &mut Src, b: &[u8]) -> Placed {
        let to = match s.weighted(&[2, 3, 2, 1]) {
            0 => 0,
            1 => s.below(65),
            2 => 64 * s.below(64),
            _ => 4096 - s.below(33),
        };
        let mut v = vec![[0u8, 0xff, 0x80][s.below(3)]; b.len() + 3 * 4096];
        let base = v.as_ptr() as usize;
        let i = (4096 - base % 4096) % 4096 + to;
        v[i..i + b.len()].copy_from_slice(b);
        s.note(|| format!("{} bytes from a page boundary", to));
        Placed(v, i, b.len())
    }
    pub fn bytes(&self) -> &[u8] {
        &self.0[self.1..self.1 + self.2]
    }
}
