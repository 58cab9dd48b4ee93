//! Choice tape: every random decision is a bounded draw recorded on a tape, so a failing case can
//! be replayed and shrunk on the tape. Draw value 0 always means the simplest choice.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64, stream: u64) -> Self {
        let mut r = Rng(seed ^ stream.wrapping_mul(0x9E3779B97F4A7C15).rotate_left(17) ^ 0xD1B54A32D192ED03);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

pub struct Src {
    pub tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    pub spans: Vec<(usize, usize)>,
    open: Option<usize>,
}

impl Src {
    pub fn random(rng: Rng) -> Self {
        Src { tape: Vec::with_capacity(1024), pos: 0, rng: Some(rng), spans: vec![], open: None }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None, spans: vec![], open: None }
    }
    /// uniform in 0..n (n = 0 means the full 64-bit range)
    pub fn draw(&mut self, n: u64) -> u64 {
        let v = if self.pos < self.tape.len() {
            let v = self.tape[self.pos];
            if n == 0 {
                v
            } else {
                v % n
            }
        } else {
            let v = match &mut self.rng {
                Some(r) => {
                    let x = r.next();
                    if n == 0 {
                        x
                    } else {
                        ((x as u128 * n as u128) >> 64) as u64
                    }
                }
                None => 0,
            };
            self.tape.push(v);
            v
        };
        self.pos += 1;
        v
    }
    pub fn upto(&mut self, n: u64) -> u64 {
        self.draw(n + 1)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num.min(den)
    }
    pub fn pick<'a, T>(&mut self, l: &'a [T]) -> &'a T {
        let i = self.draw(l.len() as u64) as usize;
        &l[i]
    }
    /// index chosen with the given weights
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u32 = w.iter().sum();
        let mut d = self.draw(tot.max(1) as u64) as u32;
        for (i, x) in w.iter().enumerate() {
            if d < *x {
                return i;
            }
            d -= *x;
        }
        w.len() - 1
    }
    pub fn begin(&mut self) {
        self.open = Some(self.pos);
    }
    pub fn end(&mut self) {
        if let Some(s) = self.open.take() {
            self.spans.push((s, self.pos));
        }
    }
    pub fn used(&self) -> Vec<u64> {
        self.tape[..self.pos.min(self.tape.len())].to_vec()
    }
}
