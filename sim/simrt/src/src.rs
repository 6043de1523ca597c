//! The single source of choices of a run.
use crate::shm::{self, SPAN_CAP, TAPE_CAP};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x6A09E667F3BCC909)
    }
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}
pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD1342543DE82EF95));
    r.next();
    r.next()
}

enum Mode {
    Gen(Rng),
    Replay(&'static [u64]),
}

/// Every choice of a run - generated documents, operations, schedule, faults - is drawn from here,
/// in an order that is itself determined by earlier choices, and recorded in shared memory.
pub struct Src {
    mode: Mode,
    pos: usize,
}

impl Src {
    pub fn generate(seed: u64) -> Src {
        reset();
        Src { mode: Mode::Gen(Rng::new(seed)), pos: 0 }
    }
    pub fn replay(tape: &'static [u64]) -> Src {
        reset();
        Src { mode: Mode::Replay(tape), pos: 0 }
    }
    #[inline]
    fn draw(&mut self, n: u64) -> u64 {
        let v = match self.mode {
            Mode::Gen(ref mut r) => {
                let x = r.next();
                if n == 0 {
                    x
                } else {
                    ((x as u128 * n as u128) >> 64) as u64
                }
            }
            Mode::Replay(t) => {
                let x = t.get(self.pos).copied().unwrap_or(0);
                if n == 0 || x < n {
                    x
                } else {
                    n - 1
                }
            }
        };
        if let Some(m) = shm::get() {
            if self.pos < TAPE_CAP {
                m.tape[self.pos] = v;
                m.tape_len = (self.pos + 1) as u64;
            }
        }
        self.pos += 1;
        v
    }
    /// Uniform in 0..n (n >= 1); 0 is the simplest choice.
    #[inline]
    pub fn below(&mut self, n: u64) -> u64 {
        if n <= 1 {
            return 0;
        }
        self.draw(n)
    }
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.below(hi - lo + 1)
    }
    pub fn bits(&mut self) -> u64 {
        self.draw(0)
    }
    /// True with probability num/den; false is the simplest choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let t: u64 = w.iter().sum();
        let mut r = self.below(t);
        for (i, x) in w.iter().enumerate() {
            if r < *x {
                return i;
            }
            r -= x;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.below(xs.len() as u64) as usize;
        &xs[i]
    }
    /// A number spread over orders of magnitude, at most 2^bits - 1.
    pub fn scale(&mut self, bits: u64) -> u64 {
        let b = self.below(bits + 1);
        if b == 0 {
            0
        } else {
            (1 << (b - 1)) + self.below(1 << (b - 1))
        }
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    /// Marks the choices drawn since `from` as one unit for the minimiser.
    pub fn span(&mut self, from: usize) {
        if let Some(m) = shm::get() {
            let n = m.span_len as usize;
            if n < SPAN_CAP && self.pos > from {
                m.spans[n] = (from as u32, self.pos as u32);
                m.span_len += 1;
            }
        }
    }
    /// Calls `f` at least `min` and at most `max` times, continuing with probability num/den;
    /// every element is a span, so that the minimiser can remove it.
    pub fn many<T>(&mut self, min: usize, max: usize, num: u64, den: u64, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut out = Vec::new();
        loop {
            let at = self.pos;
            if out.len() >= max || (out.len() >= min && !self.chance(num, den)) {
                break;
            }
            let x = f(self);
            out.push(x);
            self.span(at);
        }
        out
    }
}

fn reset() {
    if let Some(m) = shm::get() {
        m.tape_len = 0;
        m.span_len = 0;
        m.status = 0;
        m.class_len = 0;
        m.msg_len = 0;
        m.log_len = 0;
        m.res_len = 0;
        m.trace_hash = 0;
        m.nontrivial = 0;
    }
}
