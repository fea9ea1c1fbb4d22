//! An independent DEFLATE compressor (every legal block kind, any match) and a strict reference inflater.
use vharness::checks::c19::canonical;
use vharness::tape::Tape;

#[derive(Default)]
pub struct Bits {
    pub out: Vec<u8>,
    n: u32,
}
impl Bits {
    pub fn put(&mut self, v: u64, n: u32) {
        for i in 0..n {
            if self.n == 0 {
                self.out.push(0);
            }
            *self.out.last_mut().unwrap() |= ((v >> i & 1) as u8) << self.n;
            self.n = (self.n + 1) % 8;
        }
    }
    fn code(&mut self, c: (u32, u64)) {
        for i in (0..c.0).rev() {
            self.put(c.1 >> i & 1, 1);
        }
    }
    fn align(&mut self, t: &mut Tape) {
        while self.n != 0 {
            let b = t.below(2) as u64;
            self.put(b, 1);
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Tok {
    Lit(u8),
    Ref(usize, usize),
}

pub const LBASE: [usize; 29] = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258];
pub const LEXT: [u32; 29] = [0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 3, 3, 4, 4, 4, 4, 5, 5, 5, 5, 0];
pub const DBASE: [usize; 30] = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577];
pub const DEXT: [u32; 30] = [0, 0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 11, 11, 12, 12, 13, 13];

fn lsym(len: usize) -> (usize, u32, u64) {
    let i = if len == 258 { 28 } else { (0..28).rev().find(|i| LBASE[*i] <= len).unwrap() };
    (257 + i, LEXT[i], (len - LBASE[i]) as u64)
}
fn dsym(d: usize) -> (usize, u32, u64) {
    let i = (0..30).rev().find(|i| DBASE[*i] <= d).unwrap();
    (i, DEXT[i], (d - DBASE[i]) as u64)
}

/// Code lengths for the symbols in `used` (all distinct): a complete code no deeper than `max`.
fn lengths(t: &mut Tape, used: &[usize], n: usize, max: u32) -> Vec<u32> {
    let mut out = vec![0; n];
    match used.len() {
        0 => {}
        1 => out[used[0]] = 1,
        _ => {
            let skew = t.below(3);
            let mut leaves = vec![1u32, 1];
            while leaves.len() < used.len() {
                // skewed towards long codes, short ones, or neither
                let k = match skew {
                    0 => t.below(leaves.len()),
                    1 => leaves.len() - 1,
                    _ => {
                        let m = *leaves.iter().min().unwrap();
                        leaves.iter().position(|l| *l == m).unwrap()
                    }
                };
                let k = if leaves[k] < max { k } else { leaves.iter().position(|l| *l < max).unwrap() };
                // never split so deep that the rest no longer fits
                let l = leaves[k] + 1;
                leaves[k] = l;
                leaves.push(l);
            }
            // room check: splitting keeps the code complete, so any shape with depth <= max is fine
            let mut order: Vec<usize> = used.to_vec();
            for i in (1..order.len()).rev() {
                let j = t.below(i + 1);
                order.swap(i, j);
            }
            for (s, l) in order.iter().zip(leaves) {
                out[*s] = l;
            }
        }
    }
    out
}

#[derive(Default, Clone, Debug)]
pub struct Shape {
    pub stored: usize,
    pub fixed: usize,
    pub dynamic: usize,
    pub refs: usize,
    pub overlap: usize,
    pub far: usize,
}

/// A byte string together with one legal compressed form of it.
pub fn compress(t: &mut Tape, size: usize) -> (Vec<u8>, Vec<u8>, Shape) {
    let mut orig: Vec<u8> = vec![];
    let mut w = Bits::default();
    let mut sh = Shape::default();
    let nblocks = 1 + t.small(4) as usize;
    let alpha = match t.below(4) {
        0 => 2,
        1 => 26,
        2 => 256,
        _ => 5,
    };
    let long = size > 4000;
    for b in 0..nblocks {
        let last = b + 1 == nblocks;
        w.put(last as u64, 1);
        let kind = t.weighted(&[2, 4, 5]);
        w.put(kind as u64, 2);
        if kind == 0 {
            sh.stored += 1;
            let n = if t.chance(20) { 0 } else { t.below(1 + size.min(400)) };
            w.align(t);
            w.put(n as u64, 16);
            w.put(!(n as u64) & 0xffff, 16);
            for _ in 0..n {
                let x = t.byte();
                w.put(x as u64, 8);
                orig.push(x);
            }
            continue;
        }
        let room = size.saturating_sub(orig.len());
        let want = t.below(1 + room);
        let mut toks = vec![];
        let end = orig.len() + want;
        while orig.len() < end && toks.len() < 400 {
            if !orig.is_empty() && t.chance(if long { 80 } else { 35 }) {
                let len = match t.below(5) {
                    0 => 3,
                    1 => 258,
                    2 => 3 + t.below(256),
                    3 => LBASE[t.below(29)],
                    _ => 3 + t.below(12),
                };
                let maxd = orig.len().min(32768);
                let dist = match t.below(5) {
                    0 => 1 + t.below(maxd),
                    1 => maxd,
                    2 => DBASE[t.below(30)].min(maxd),
                    3 => (DBASE[t.below(30)].wrapping_sub(1)).clamp(1, maxd),
                    _ => 1 + t.below(maxd.min(4)),
                };
                sh.refs += 1;
                sh.overlap += (dist < len) as usize;
                sh.far += (dist > 1024) as usize;
                toks.push(Tok::Ref(len, dist));
                for _ in 0..len {
                    orig.push(orig[orig.len() - dist]);
                }
            } else {
                let x = if alpha == 256 { t.byte() } else { b'a'.wrapping_add(t.below(alpha) as u8) };
                toks.push(Tok::Lit(x));
                orig.push(x);
            }
        }
        let (lens, dists) = if kind == 1 {
            sh.fixed += 1;
            let l: Vec<u32> = (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect();
            (l, vec![5; 32])
        } else {
            sh.dynamic += 1;
            let mut lu: Vec<usize> = vec![256];
            let mut du: Vec<usize> = vec![];
            for k in &toks {
                match k {
                    Tok::Lit(x) => lu.push(*x as usize),
                    Tok::Ref(l, d) => {
                        lu.push(lsym(*l).0);
                        du.push(dsym(*d).0);
                    }
                }
            }
            for _ in 0..t.small(6) {
                lu.push(t.below(286));
                du.push(t.below(30));
            }
            lu.sort();
            lu.dedup();
            du.sort();
            du.dedup();
            let lmax = 15;
            let l = lengths(t, &lu, 286, lmax);
            let d = lengths(t, &du, 30, 15);
            let hlit = (257..=286).find(|n| l[*n..].iter().all(|x| *x == 0)).unwrap();
            let hlit = if t.chance(30) { hlit + t.below(286 - hlit + 1) } else { hlit };
            let hdist = (1..=30).find(|n| d[*n..].iter().all(|x| *x == 0)).unwrap();
            let hdist = if t.chance(30) { hdist + t.below(30 - hdist + 1) } else { hdist };
            let all: Vec<u32> = l[..hlit].iter().chain(&d[..hdist]).copied().collect();
            // run-length coding of the lengths, at random
            let mut ops: Vec<(usize, u32, u64)> = vec![];
            let lazy = t.below(3);
            let mut i = 0;
            while i < all.len() {
                let run = all[i..].iter().take_while(|x| **x == all[i]).count();
                let back = if i > 0 { all[i..].iter().take_while(|x| **x == all[i - 1]).count() } else { 0 };
                let use_run = lazy == 0 || lazy == 1 && t.chance(70);
                if use_run && all[i] == 0 && run >= 11 && t.chance(80) {
                    let k = 11 + t.below(run.min(138) - 10);
                    ops.push((18, 7, k as u64 - 11));
                    i += k;
                } else if use_run && all[i] == 0 && run >= 3 && t.chance(80) {
                    let k = 3 + t.below(run.min(10) - 2);
                    ops.push((17, 3, k as u64 - 3));
                    i += k;
                } else if use_run && back >= 3 && t.chance(80) {
                    let k = 3 + t.below(back.min(6) - 2);
                    ops.push((16, 2, k as u64 - 3));
                    i += k;
                } else {
                    ops.push((all[i] as usize, 0, 0));
                    i += 1;
                }
            }
            let mut cu: Vec<usize> = ops.iter().map(|o| o.0).collect();
            if t.chance(30) {
                cu.push(t.below(19));
            }
            cu.sort();
            cu.dedup();
            if cu.len() == 1 {
                // a lone code-length symbol: give it company, so that the code is complete
                cu.push(if cu[0] == 0 { 1 } else { 0 });
                cu.sort();
            }
            let c = lengths(t, &cu, 19, 7);
            const ORD: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
            let hclen = (4..=19).find(|n| ORD[*n..].iter().all(|s| c[*s] == 0)).unwrap();
            let hclen = if t.chance(30) { hclen + t.below(19 - hclen + 1) } else { hclen };
            w.put(hlit as u64 - 257, 5);
            w.put(hdist as u64 - 1, 5);
            w.put(hclen as u64 - 4, 4);
            for s in &ORD[..hclen] {
                w.put(c[*s] as u64, 3);
            }
            let cc = canonical(&c);
            for (s, n, x) in ops {
                w.code(cc[s].unwrap());
                w.put(x, n);
            }
            (l, d)
        };
        let lc = canonical(&lens);
        let dc = canonical(&dists);
        for k in toks {
            match k {
                Tok::Lit(x) => w.code(lc[x as usize].unwrap()),
                Tok::Ref(l, d) => {
                    let (s, n, x) = lsym(l);
                    w.code(lc[s].unwrap());
                    w.put(x, n);
                    let (s, n, x) = dsym(d);
                    w.code(dc[s].unwrap());
                    w.put(x, n);
                }
            }
        }
        w.code(lc[256].unwrap());
    }
    (orig, w.out, sh)
}

pub enum Bad {
    /// ends too early
    Short,
    /// not a deflate stream
    Invalid(&'static str),
    /// uses a code that the specification leaves open or forbids without consequence for the data
    Odd(&'static str),
}

struct Rd<'a> {
    d: &'a [u8],
    at: usize,
    bit: u32,
}
impl Rd<'_> {
    fn bits(&mut self, n: u32) -> Result<usize, Bad> {
        let mut v = 0;
        for i in 0..n {
            let b = *self.d.get(self.at).ok_or(Bad::Short)?;
            v |= ((b >> self.bit & 1) as usize) << i;
            self.bit += 1;
            if self.bit == 8 {
                self.bit = 0;
                self.at += 1;
            }
        }
        Ok(v)
    }
    fn sym(&mut self, codes: &[Option<(u32, u64)>]) -> Result<usize, Bad> {
        let (mut v, mut n) = (0u64, 0);
        loop {
            v = v << 1 | self.bits(1)? as u64;
            n += 1;
            if let Some(s) = codes.iter().position(|c| *c == Some((n, v))) {
                return Ok(s);
            }
            if n > 15 {
                return Err(Bad::Invalid("no such code"));
            }
        }
    }
}

fn kraft(l: &[u32]) -> u64 {
    l.iter().filter(|x| **x > 0).map(|x| 1u64 << (15 - x)).sum()
}

/// Strict inflation: the data and how many bytes were read.
pub fn inflate(d: &[u8]) -> Result<(Vec<u8>, usize), Bad> {
    let mut r = Rd { d, at: 0, bit: 0 };
    let mut out: Vec<u8> = vec![];
    loop {
        let last = r.bits(1)? == 1;
        let kind = r.bits(2)?;
        match kind {
            0 => {
                if r.bit > 0 {
                    r.bit = 0;
                    r.at += 1;
                }
                let n = r.bits(16)?;
                let c = r.bits(16)?;
                if n ^ c != 0xffff {
                    return Err(Bad::Invalid("length check"));
                }
                for _ in 0..n {
                    out.push(r.bits(8)? as u8);
                }
            }
            1 | 2 => {
                let (l, dd) = if kind == 1 {
                    let l: Vec<u32> = (0..288).map(|i| if i < 144 { 8 } else if i < 256 { 9 } else if i < 280 { 7 } else { 8 }).collect();
                    (l, vec![5; 32])
                } else {
                    let hlit = r.bits(5)? + 257;
                    let hdist = r.bits(5)? + 1;
                    let hclen = r.bits(4)? + 4;
                    if hlit > 286 || hdist > 30 {
                        return Err(Bad::Odd("too many codes"));
                    }
                    const ORD: [usize; 19] = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15];
                    let mut c = vec![0u32; 19];
                    for s in &ORD[..hclen] {
                        c[*s] = r.bits(3)? as u32;
                    }
                    let k = kraft(&c);
                    if k > 1 << 15 {
                        return Err(Bad::Odd("over-subscribed"));
                    }
                    if k < 1 << 15 {
                        return Err(Bad::Odd("incomplete"));
                    }
                    let cc = canonical(&c);
                    let mut all: Vec<u32> = vec![];
                    while all.len() < hlit + hdist {
                        match r.sym(&cc)? {
                            16 => {
                                let p = *all.last().ok_or(Bad::Invalid("nothing to repeat"))?;
                                let n = 3 + r.bits(2)?;
                                all.extend(vec![p; n]);
                            }
                            17 => {
                                let n = 3 + r.bits(3)?;
                                all.extend(vec![0; n]);
                            }
                            18 => {
                                let n = 11 + r.bits(7)?;
                                all.extend(vec![0; n]);
                            }
                            x => all.push(x as u32),
                        }
                    }
                    if all.len() > hlit + hdist {
                        return Err(Bad::Invalid("lengths overrun"));
                    }
                    let dd = all.split_off(hlit);
                    if all[256] == 0 {
                        return Err(Bad::Odd("no end code"));
                    }
                    for (i, v) in [&all, &dd].iter().enumerate() {
                        let k = kraft(v);
                        let n = v.iter().filter(|x| **x > 0).count();
                        if k > 1 << 15 {
                            return Err(Bad::Odd("over-subscribed"));
                        }
                        if k < 1 << 15 && !(n == 0 && i == 1 || n == 1 && k == 1 << 14) {
                            return Err(Bad::Odd("incomplete"));
                        }
                    }
                    (all, dd)
                };
                let lc = canonical(&l);
                let dc = canonical(&dd);
                loop {
                    let s = r.sym(&lc)?;
                    match s {
                        0..=255 => out.push(s as u8),
                        256 => break,
                        // these two are documented to be skipped
                        286.. => {}
                        _ => {
                            let n = LBASE[s - 257] + r.bits(LEXT[s - 257])?;
                            let e = r.sym(&dc)?;
                            if e >= 30 {
                                return Err(Bad::Invalid("distance symbol"));
                            }
                            let x = DBASE[e] + r.bits(DEXT[e])?;
                            if x > out.len() {
                                return Err(Bad::Invalid("distance too far"));
                            }
                            for _ in 0..n {
                                out.push(out[out.len() - x]);
                            }
                        }
                    }
                }
            }
            _ => return Err(Bad::Invalid("block type")),
        }
        if last {
            return Ok((out, r.at + (r.bit > 0) as usize));
        }
    }
}

pub fn adler(d: &[u8]) -> u32 {
    let (mut a, mut b) = (1u32, 0u32);
    for x in d {
        a = (a + *x as u32) % 65521;
        b = (b + a) % 65521;
    }
    b << 16 | a
}
pub fn crc(d: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in d {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xedb88320 } else { c >> 1 };
        }
    }
    !c
}
/// A zlib stream around a deflate stream.
pub fn zlib(t: &mut Tape, data: &[u8], z: &[u8]) -> (Vec<u8>, Option<u32>, u8) {
    let cmf = 8 | (t.below(8) as u8) << 4;
    let dict = if t.chance(15) { Some(t.edgy(32) as u32) } else { None };
    let level = t.below(4) as u8;
    let mut flg = level << 6 | (dict.is_some() as u8) << 5;
    let r = (cmf as u16 * 256 + flg as u16) % 31;
    flg += ((31 - r) % 31) as u8;
    let mut out = vec![cmf, flg];
    if let Some(x) = dict {
        out.extend(x.to_be_bytes());
    }
    out.extend(z);
    out.extend(adler(data).to_be_bytes());
    (out, dict, level)
}
