//! C08: the run-time parser driven by random operation trees (in the call protocol generated code
//! uses) against a recursive functional model over absolute bit positions.
use crate::runner::*;
use crate::tape::{Tape, hash_bytes};
use doodle::parser::{Parser, View};

#[derive(Clone, Debug)]
enum Op {
    Read,
    Advance(u64),
    Align(usize),
    SkipRem,
    Finish,
    Pos,
    Rem,
    Offset,
    Fail,
    Slice(usize, Vec<Op>),
    Peek(Vec<Op>),
    PeekNot(Vec<Op>),
    Alt(Vec<Vec<Op>>),
    Permit(Vec<Op>),
    Seek(u64, Vec<Op>),
    Bits(Vec<Op>),
    /// enter bits mode and leave it to the enclosing context to restore byte mode
    EnterBits,
    /// capture a view here, then use it
    View(Vec<VOp>),
}
#[derive(Clone, Debug)]
enum VOp {
    Len(usize, usize),
    ArrU8(usize, usize),
    Arr16(usize, usize),
    Arr32(usize, usize),
    Arr64(usize, usize),
    U16(usize),
    Parse(usize, Vec<Op>),
    Nest(usize, Vec<VOp>),
}

struct G<'t> {
    t: &'t mut Tape,
    n: usize,
    left: i32,
    /// the deterministic part never sees a random-access error path without alternatives
    big: bool,
}
impl G<'_> {
    fn num(&mut self) -> usize {
        match self.t.weighted(&[60, 14, 8, 4]) {
            0 => self.t.below(5),
            1 => self.t.below(self.n + 3),
            2 => self.n,
            _ => {
                if self.big {
                    [usize::MAX, usize::MAX / 2, 1 << 32, usize::MAX - 1, usize::MAX - 7][self.t.below(5)]
                } else {
                    9
                }
            }
        }
    }
    fn ops(&mut self, depth: u32, bits: bool) -> Vec<Op> {
        let k = 1 + self.t.small(6);
        (0..k).map(|_| self.op(depth, bits)).collect()
    }
    /// the body of a context whose closing restores the mode
    fn body(&mut self, depth: u32, bits: bool) -> Vec<Op> {
        let mut v = self.ops(depth, bits);
        if !bits && self.t.chance(12) {
            v.push(Op::EnterBits);
            v.extend(self.ops(depth, true));
        }
        v
    }
    fn op(&mut self, depth: u32, bits: bool) -> Op {
        self.left -= 1;
        let leaf = depth == 0 || self.left <= 0;
        let c = if leaf { self.t.weighted(&[10, 3, 2, 1, 1, 2, 2, 2, 1]) } else { self.t.weighted(&[10, 3, 2, 1, 1, 2, 2, 2, 1, 5, 4, 4, 5, 3, 4, 4, 4]) };
        match c {
            0 => Op::Read,
            1 => Op::Advance(self.num() as u64),
            2 => Op::Align(1 + self.t.below(9)),
            3 => Op::SkipRem,
            4 => Op::Finish,
            5 => {
                if bits {
                    Op::Rem
                } else {
                    Op::Pos
                }
            }
            6 => Op::Rem,
            7 => Op::Offset,
            8 => Op::Fail,
            9 => {
                let n = self.num();
                Op::Slice(n, self.body(depth - 1, bits))
            }
            10 => Op::Peek(self.body(depth - 1, bits)),
            11 => Op::PeekNot(self.body(depth - 1, bits)),
            12 => {
                let k = 2 + self.t.below(2);
                Op::Alt((0..k).map(|_| self.ops(depth - 1, bits)).collect())
            }
            13 => Op::Permit(self.ops(depth - 1, bits)),
            14 if !bits => {
                let n = self.num();
                Op::Seek(n as u64, self.body(depth - 1, bits))
            }
            15 if !bits => Op::Bits(self.ops(depth - 1, true)),
            16 if !bits => Op::View(self.vops(depth - 1)),
            _ => Op::Read,
        }
    }
    fn vops(&mut self, depth: u32) -> Vec<VOp> {
        let k = 1 + self.t.small(3);
        (0..k)
            .map(|_| {
                let (a, b) = (self.num(), self.num());
                match self.t.below(if depth == 0 { 6 } else { 9 }) {
                    0 => VOp::Len(a, b),
                    1 => VOp::ArrU8(a, b),
                    2 => VOp::Arr16(a, b),
                    3 => VOp::Arr32(a, b),
                    4 => VOp::Arr64(a, b),
                    5 => VOp::U16(a),
                    6 | 7 => VOp::Parse(a, self.ops(depth - 1, false)),
                    _ => VOp::Nest(a, self.vops(depth - 1)),
                }
            })
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq)]
enum O {
    Byte(u8),
    Num(u64),
    Rem(usize),
    Bytes(Vec<u8>),
    Nums(Vec<u64>),
    Mark(&'static str),
}

// ---------------------------------------------------------------- real
type R = Result<(), ()>;
fn real(p: &mut Parser<'_>, ops: &[Op], tr: &mut Vec<O>) -> R {
    for o in ops {
        match o {
            Op::Read => tr.push(O::Byte(p.read_byte().map_err(|_| ())?)),
            Op::Advance(n) => p.advance_by(*n).map_err(|_| ())?,
            Op::Align(n) => p.skip_align(*n).map_err(|_| ())?,
            Op::SkipRem => p.skip_remainder(),
            Op::Finish => p.finish().map_err(|_| ())?,
            Op::Pos => tr.push(O::Num(p.get_offset_u64())),
            Op::Rem => tr.push(O::Rem(p.remaining())),
            Op::Offset => {
                let (b, s) = p.get_current_offset().as_bytes();
                tr.push(O::Num(b as u64 * 8 + s.unwrap_or(0) as u64));
                tr.push(O::Num(p.get_bits_read().map(|x| x as u64 + 1).unwrap_or(0)));
            }
            Op::Fail => return Err(()),
            Op::Slice(n, b) => {
                p.start_slice(*n).map_err(|_| ())?;
                real(p, b, tr)?;
                p.end_slice().map_err(|_| ())?;
            }
            Op::Peek(b) => {
                p.open_peek_context();
                real(p, b, tr)?;
                p.close_peek_context().map_err(|_| ())?;
            }
            Op::PeekNot(b) => {
                p.open_peek_not_context();
                let r = real(p, b, tr);
                p.close_peek_not_context().map_err(|_| ())?;
                if r.is_ok() {
                    tr.push(O::Mark("negated"));
                    return Err(());
                }
            }
            Op::Alt(bs) => {
                p.start_alt();
                let l = bs.len();
                for (i, b) in bs.iter().enumerate() {
                    tr.push(O::Mark("alt"));
                    if i + 1 == l {
                        real(p, b, tr)?;
                    } else if real(p, b, tr).is_ok() {
                        p.end_alt().map_err(|_| ())?;
                        break;
                    } else {
                        p.next_alt(i + 2 == l).map_err(|_| ())?;
                    }
                }
            }
            Op::Permit(b) => {
                p.start_alt();
                if real(p, b, tr).is_ok() {
                    p.end_alt().map_err(|_| ())?;
                } else {
                    tr.push(O::Mark("permitted"));
                    p.next_alt(true).map_err(|_| ())?;
                }
            }
            Op::Seek(n, b) => {
                tr.push(O::Num(p.advance_or_seek(*n).map_err(|_| ())? as u64));
                real(p, b, tr)?;
                p.close_peek_context().map_err(|_| ())?;
            }
            Op::Bits(b) => {
                p.enter_bits_mode().map_err(|_| ())?;
                real(p, b, tr)?;
                tr.push(O::Num(p.escape_bits_mode().map_err(|_| ())? as u64));
            }
            Op::EnterBits => p.enter_bits_mode().map_err(|_| ())?,
            Op::View(v) => {
                let w = p.view();
                real_v(w, v, tr)?;
            }
        }
    }
    Ok(())
}
fn real_v(w: View<'_>, v: &[VOp], tr: &mut Vec<O>) -> R {
    for o in v {
        match o {
            VOp::Len(a, n) => tr.push(O::Bytes(w.offset(*a).map_err(|_| ())?.read_len(*n).map_err(|_| ())?.to_vec())),
            VOp::ArrU8(a, n) => tr.push(O::Nums(w.offset(*a).map_err(|_| ())?.read_array_u8(*n).map_err(|_| ())?.iter().map(|x| x as u64).collect())),
            VOp::Arr16(a, n) => tr.push(O::Nums(w.offset(*a).map_err(|_| ())?.read_array_u16be(*n).map_err(|_| ())?.iter().map(|x| x as u64).collect())),
            VOp::Arr32(a, n) => tr.push(O::Nums(w.offset(*a).map_err(|_| ())?.read_array_u32be(*n).map_err(|_| ())?.iter().map(|x| x as u64).collect())),
            VOp::Arr64(a, n) => tr.push(O::Nums(w.offset(*a).map_err(|_| ())?.read_array_u64be(*n).map_err(|_| ())?.iter().collect())),
            VOp::U16(a) => tr.push(O::Num(w.offset(*a).map_err(|_| ())?.read_u16be().map_err(|_| ())? as u64)),
            VOp::Parse(a, b) => {
                let mut q = Parser::from(w.offset(*a).map_err(|_| ())?);
                real(&mut q, b, tr)?;
            }
            VOp::Nest(a, b) => real_v(w.offset(*a).map_err(|_| ())?, b, tr)?,
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- model
/// Positions are absolute bit numbers in the original buffer.
#[derive(Clone, Copy, Debug)]
struct M<'a> {
    buf: &'a [u8],
    /// first byte of this parser's buffer and one past its last
    base: usize,
    /// absolute bit position and absolute bit limit of the innermost window
    pos: u128,
    lim: u128,
    /// bit position at which bits mode was entered
    bits: Option<u128>,
}
impl M<'_> {
    fn unit(&self) -> u128 {
        if self.bits.is_some() { 1 } else { 8 }
    }
    fn rem(&self) -> u128 {
        (self.lim - self.pos) / self.unit()
    }
    fn adv(&mut self, n: u128) -> R {
        if n > self.rem() {
            return Err(());
        }
        self.pos += n * self.unit();
        Ok(())
    }
    fn at(&self) -> usize {
        (self.pos / 8) as usize
    }
}
fn model(m: &mut M<'_>, ops: &[Op], tr: &mut Vec<O>, st: &mut Stat) -> R {
    for o in ops {
        match o {
            Op::Read => {
                let p = m.pos;
                m.adv(1)?;
                let b = m.buf[(p / 8) as usize];
                tr.push(O::Byte(if m.bits.is_some() { b >> (p % 8) & 1 } else { b }));
                st.reads += 1;
            }
            Op::Advance(n) => m.adv(*n as u128)?,
            Op::Align(n) => {
                let n = *n as u128;
                let c = match m.bits {
                    Some(s) => m.pos - s,
                    None => m.pos / 8,
                };
                m.adv((n - c % n) % n)?;
            }
            Op::SkipRem => m.pos = m.pos + m.rem() * m.unit(),
            Op::Finish => {
                if m.rem() != 0 {
                    return Err(());
                }
            }
            Op::Pos => tr.push(O::Num((m.pos / 8) as u64)),
            Op::Rem => tr.push(O::Rem(m.rem() as usize)),
            Op::Offset => {
                tr.push(O::Num((m.pos - m.base as u128 * 8) as u64));
                tr.push(O::Num(m.bits.map(|s| (m.pos - s) as u64 + 1).unwrap_or(0)));
            }
            Op::Fail => return Err(()),
            Op::Slice(n, b) => {
                let n = *n as u128;
                if n > m.rem() {
                    return Err(());
                }
                let mut i = *m;
                i.lim = m.pos + n * m.unit();
                let end = i.lim;
                model(&mut i, b, tr, st)?;
                m.pos = end;
                st.ctx += 1;
            }
            Op::Peek(b) => {
                let mut i = *m;
                model(&mut i, b, tr, st)?;
                st.ctx += 1;
            }
            Op::PeekNot(b) => {
                let mut i = *m;
                st.ctx += 1;
                if model(&mut i, b, tr, st).is_ok() {
                    tr.push(O::Mark("negated"));
                    return Err(());
                }
            }
            Op::Alt(bs) => {
                let l = bs.len();
                for (k, b) in bs.iter().enumerate() {
                    tr.push(O::Mark("alt"));
                    let mut i = *m;
                    let r = model(&mut i, b, tr, st);
                    if r.is_ok() {
                        *m = i;
                        break;
                    }
                    st.back += 1;
                    if k + 1 == l {
                        return Err(());
                    }
                }
            }
            Op::Permit(b) => {
                let mut i = *m;
                if model(&mut i, b, tr, st).is_ok() {
                    *m = i;
                } else {
                    st.back += 1;
                    tr.push(O::Mark("permitted"));
                }
            }
            Op::Seek(n, b) => {
                let d = *n as u128;
                let mut i = *m;
                if d < m.base as u128 {
                    return Err(());
                }
                if d * 8 >= m.pos {
                    if d * 8 > m.lim {
                        return Err(());
                    }
                    tr.push(O::Num(1));
                } else {
                    // a seek backwards keeps the end of the enclosing window
                    tr.push(O::Num(0));
                }
                i.pos = d * 8;
                st.ctx += 1;
                model(&mut i, b, tr, st)?;
            }
            Op::Bits(b) => {
                let mut i = *m;
                i.bits = Some(m.pos);
                model(&mut i, b, tr, st)?;
                tr.push(O::Num((i.pos - m.pos) as u64));
                m.pos = i.pos.div_ceil(8) * 8;
                st.ctx += 1;
            }
            Op::EnterBits => m.bits = Some(m.pos),
            Op::View(v) => {
                let w = &m.buf[..(m.lim / 8) as usize];
                st.ctx += 1;
                model_v(w, m.at(), v, tr, st)?;
            }
        }
    }
    Ok(())
}
fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
fn model_v(w: &[u8], start: usize, v: &[VOp], tr: &mut Vec<O>, st: &mut Stat) -> R {
    let off = |a: usize| -> Result<usize, ()> { start.checked_add(a).filter(|x| *x <= w.len()).ok_or(()) };
    let arr = |a: usize, n: usize, sz: usize| -> Result<O, ()> {
        let s = off(a)?;
        let len = (n as u128) * sz as u128;
        if len > (w.len() - s) as u128 {
            return Err(());
        }
        Ok(O::Nums(w[s..s + len as usize].chunks(sz).map(be).collect()))
    };
    for o in v {
        match o {
            VOp::Len(a, n) => {
                let s = off(*a)?;
                if *n > w.len() - s {
                    return Err(());
                }
                tr.push(O::Bytes(w[s..s + n].to_vec()));
            }
            VOp::ArrU8(a, n) => tr.push(arr(*a, *n, 1)?),
            VOp::Arr16(a, n) => tr.push(arr(*a, *n, 2)?),
            VOp::Arr32(a, n) => tr.push(arr(*a, *n, 4)?),
            VOp::Arr64(a, n) => tr.push(arr(*a, *n, 8)?),
            VOp::U16(a) => {
                let s = off(*a)?;
                if w.len() - s < 2 {
                    return Err(());
                }
                tr.push(O::Num(be(&w[s..s + 2])));
            }
            VOp::Parse(a, b) => {
                let s = off(*a)?;
                let mut m = M { buf: w, base: s, pos: s as u128 * 8, lim: w.len() as u128 * 8, bits: None };
                model(&mut m, b, tr, st)?;
            }
            VOp::Nest(a, b) => model_v(w, off(*a)?, b, tr, st)?,
        }
    }
    Ok(())
}
#[derive(Default)]
struct Stat {
    reads: u32,
    ctx: u32,
    back: u32,
}

fn kind(o: &[Op]) -> &'static str {
    // coarse classification of the program for signatures
    let s = format!("{o:?}");
    if s.contains("View(") {
        "view"
    } else if s.contains("Seek(") {
        "seek"
    } else if s.contains("Bits(") {
        "bits"
    } else if s.contains("Alt(") || s.contains("Permit(") || s.contains("PeekNot(") {
        "speculation"
    } else {
        "plain"
    }
}

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let n = match cx.tape.below(4) {
        0 => cx.tape.below(4),
        _ => cx.tape.below(24),
    };
    let buf: Vec<u8> = (0..n).map(|i| if cx.tape.chance(33) { cx.tape.byte() } else { (i as u8).wrapping_mul(29) ^ 0x5a }).collect();
    let big = cx.tape.chance(16);
    let depth = 1 + cx.tape.below(4) as u32;
    let mut g = G { t: cx.tape, n, left: 40, big };
    let k = 1 + g.t.below(6);
    let prog: Vec<Op> = (0..k).map(|_| g.op(depth, false)).collect();
    if cx.want_text {
        cx.text = format!("buffer {buf:02x?}\nops {prog:?}");
    }
    let mut st = Stat::default();
    let mut em = vec![];
    let mut m = M { buf: &buf, base: 0, pos: 0, lim: n as u128 * 8, bits: None };
    let mut want = vec![];
    for o in &prog {
        // each top-level operation separately, so that a failed one ends the history
        let r = model(&mut m, std::slice::from_ref(o), &mut want, &mut st);
        em.push((r.is_ok(), m.pos, m.rem()));
        if r.is_err() {
            break;
        }
    }
    let mut got = vec![];
    let mut er = vec![];
    let r = guarded(|| {
        let mut p = Parser::new(&buf);
        for o in &prog {
            let r = real(&mut p, std::slice::from_ref(o), &mut got);
            let (b, s) = p.get_current_offset().as_bytes();
            er.push((r.is_ok(), b as u128 * 8 + s.unwrap_or(0) as u128, p.remaining() as u128));
            if r.is_err() {
                break;
            }
        }
    });
    if let Err(p) = r {
        return Outcome::fail(format!("panic {}", crate::checks::c01::panic_sig(&p)), format!("the parser panicked: {p}\nexpected trace {want:?}\nsteps {em:?}"));
    }
    let tag = kind(&prog);
    if got != want {
        let i = got.iter().zip(&want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        return Outcome::fail(format!("trace {tag}"), format!("observation {i} differs: expected {:?}, got {:?}\nexpected {want:?}\ngot      {got:?}", want.get(i), got.get(i)));
    }
    // after a failure the position is not meaningful; everything before it is
    let fix = |v: &mut Vec<(bool, u128, u128)>| {
        for x in v.iter_mut() {
            if !x.0 {
                *x = (false, 0, 0)
            }
        }
    };
    fix(&mut em);
    fix(&mut er);
    if em != er {
        return Outcome::fail(format!("position {tag}"), format!("(ok, bit position, remaining) after each operation: expected {em:?}, got {er:?}"));
    }
    let nontrivial = st.reads > 0 && st.ctx > 0;
    Outcome::Pass { nontrivial, key: hash_bytes(format!("{prog:?}{buf:?}").as_bytes()), classes: vec![tag, if st.back > 0 { "backtracked" } else { "straight" }], sub: st.reads as u64 }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C08", sub: "ops", rule: "the history reads at least one byte or bit and leaves at least one context; distinct by program and buffer", quick: 6_000_000, thorough: 100_000_000, f: &case }]
}
