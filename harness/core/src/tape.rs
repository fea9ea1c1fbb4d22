//! Choice sequence ("tape"): every random decision of a case is one entry.
//! Generation records entries from a seeded PRNG; replay and shrinking re-run
//! the case from an explicit entry list (missing entries read as 0, the
//! simplest choice; oversized entries are clamped).

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

pub fn mix(parts: &[u64]) -> u64 {
    let mut r = Rng::new(0x1234_5678);
    let mut acc = 0u64;
    for p in parts {
        r.0 ^= p.wrapping_mul(0xD6E8_FEB8_6659_FD93);
        acc = acc.rotate_left(17) ^ r.next();
    }
    acc
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h ^= *x as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    h
}

pub struct Tape {
    pub data: Vec<u64>,
    pub pos: usize,
    rng: Option<Rng>,
}

impl Tape {
    pub fn random(seed: u64) -> Tape {
        Tape { data: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(data: Vec<u64>) -> Tape {
        Tape { data, pos: 0, rng: None }
    }
    /// uniform in 0..n (n >= 1)
    pub fn draw(&mut self, n: u64) -> u64 {
        debug_assert!(n > 0);
        let v = if self.pos < self.data.len() {
            let v = self.data[self.pos];
            if v < n { v } else { n - 1 }
        } else if let Some(r) = &mut self.rng {
            let v = r.next() % n;
            self.data.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn raw(&mut self) -> u64 {
        if self.pos < self.data.len() {
            let v = self.data[self.pos];
            self.pos += 1;
            v
        } else if let Some(r) = &mut self.rng {
            let v = r.next();
            self.data.push(v);
            self.pos += 1;
            v
        } else {
            self.pos += 1;
            0
        }
    }
    pub fn below(&mut self, n: usize) -> usize {
        self.draw(n as u64) as usize
    }
    /// inclusive
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    /// true with probability p/100; 0 on the tape means false
    pub fn chance(&mut self, p: u64) -> bool {
        self.draw(100) >= 100 - p
    }
    pub fn byte(&mut self) -> u8 {
        self.draw(256) as u8
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.byte()).collect()
    }
    /// index chosen according to weights; index 0 should be the simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut x = self.draw(total as u64) as u32;
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= *k;
        }
        w.len() - 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// integer with a bias towards edges of the given bit width
    pub fn edgy(&mut self, bits: u32) -> u64 {
        let max = if bits >= 64 { u64::MAX } else { (1u64 << bits) - 1 };
        match self.below(6) {
            0 => self.draw(4).min(max),
            1 => self.raw() & max,
            2 => max - self.draw(4).min(max),
            3 => {
                let s = self.draw(bits as u64);
                let d = self.draw(3);
                ((1u64 << s).wrapping_add(d).wrapping_sub(1)) & max
            }
            4 => self.draw(256).min(max),
            _ => {
                let b = self.draw(bits as u64) as u32 + 1;
                let m = if b >= 64 { u64::MAX } else { (1u64 << b) - 1 };
                self.raw() & m & max
            }
        }
    }
    /// small count, geometric-ish
    pub fn small(&mut self, max: usize) -> usize {
        let m = self.below(max + 1);
        self.below(m + 1)
    }
}
