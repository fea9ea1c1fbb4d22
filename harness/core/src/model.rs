//! Reference semantics of the description language, written from the language
//! documentation, independent of doodle's interpreter.
//!
//! The same evaluator has a "grow" mode that invents the input while decoding
//! (used only to generate inputs; the oracle is always the strict mode).

use crate::ast::*;
use crate::tape::Tape;
use std::cell::{Cell, RefCell};
use std::sync::Arc as Rc;

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Stop {
    /// the format does not match
    Fail,
    /// outside the domain on which the meaning is defined (overflow, index out of range, ...)
    Partial(&'static str),
}
type R<T> = Result<T, Stop>;
fn partial<T>(s: &'static str) -> R<T> {
    Err(Stop::Partial(s))
}

pub struct Buf {
    cells: RefCell<Vec<u8>>,
    growable: bool,
    bits: bool,
    /// one past the highest cell examined
    seen: Cell<usize>,
}

#[derive(Clone)]
pub struct In {
    pub buf: Rc<Buf>,
    pub pos: usize,
    pub end: Option<usize>,
}

#[derive(Clone)]
pub enum Bind {
    Val(V),
    View(In),
    Huff(Rc<Vec<(usize, u32, u64)>>),
}
pub struct Node {
    name: L,
    bind: Bind,
    next: Env,
}
pub type Env = Option<Rc<Node>>;
pub fn push(env: &Env, name: &L, bind: Bind) -> Env {
    Some(Rc::new(Node { name: name.clone(), bind, next: env.clone() }))
}
fn look<'a>(env: &'a Env, name: &str) -> &'a Bind {
    let mut e = env;
    while let Some(n) = e {
        if &*n.name == name {
            return &n.bind;
        }
        e = &n.next;
    }
    panic!("model: unbound {name}")
}

const MAX_GROW: usize = 3000;
pub const MAX_COUNT: u64 = 50_000;

pub struct M<'p> {
    pub prog: &'p Prog,
    pub grow: Option<&'p RefCell<Tape>>,
    pub fuel: u64,
    pub soft: u64,
    /// constructors actually executed
    pub feats: std::collections::BTreeSet<&'static str>,
    /// when wanted: every successful sub-parse as (format node, from, to, byte value + 1)
    pub log: Option<std::collections::HashSet<(usize, usize, usize, u16)>>,
    /// when wanted: every successful sub-parse as (format node, units consumed, units examined ahead)
    pub spans: Option<std::collections::HashSet<(usize, usize, usize)>>,
}

pub fn canonical_codes(lengths: &[u64]) -> R<Vec<(usize, u32, u64)>> {
    let max = lengths.iter().copied().max().unwrap_or(0) as usize;
    if max == 0 || max > 20 {
        return partial("huffman lengths");
    }
    let mut count = vec![0u64; max + 1];
    for l in lengths {
        count[*l as usize] += 1;
    }
    count[0] = 0;
    // Kraft
    let kraft: u64 = (1..=max).map(|l| count[l] << (max - l)).sum();
    if kraft > 1 << max {
        return partial("huffman over-subscribed");
    }
    let mut next = vec![0u64; max + 2];
    let mut code = 0u64;
    for l in 1..=max {
        code = (code + count[l - 1]) << 1;
        next[l] = code;
    }
    let mut out = vec![];
    for (s, l) in lengths.iter().enumerate() {
        if *l != 0 {
            out.push((*l as usize, next[*l as usize] as u32, s as u64));
            next[*l as usize] += 1;
        }
    }
    Ok(out)
}

impl<'p> M<'p> {
    pub fn strict(prog: &'p Prog) -> M<'p> {
        M { prog, grow: None, fuel: 400_000, soft: 0, feats: Default::default(), log: None, spans: None }
    }

    /// Decode: Ok((value, bytes consumed-position, highest byte examined))
    pub fn run(&mut self, input: &[u8]) -> R<(V, usize, usize)> {
        let buf = Rc::new(Buf { cells: RefCell::new(input.to_vec()), growable: false, bits: false, seen: Cell::new(0) });
        let i = In { buf: buf.clone(), pos: 0, end: Some(input.len()) };
        let (v, o) = self.parse(&self.prog.root, &None, i)?;
        Ok((clean(v), o.pos, buf.seen.get()))
    }

    /// Invent an input that (usually) matches.
    pub fn invent(prog: &'p Prog, tape: &'p RefCell<Tape>) -> Vec<u8> {
        let mut m = M { prog, grow: Some(tape), fuel: 20_000, soft: 0, feats: Default::default(), log: None, spans: None };
        let buf = Rc::new(Buf { cells: RefCell::new(vec![]), growable: true, bits: false, seen: Cell::new(0) });
        let i = In { buf: buf.clone(), pos: 0, end: None };
        let r = m.parse(&prog.root.clone(), &None, i);
        if let Ok((_, o)) = r {
            m.fill(&o, o.pos);
        }
        let c = buf.cells.borrow().clone();
        c
    }

    fn t(&self) -> std::cell::RefMut<'p, Tape> {
        self.grow.unwrap().borrow_mut()
    }

    fn fill(&self, i: &In, upto: usize) {
        if !i.buf.growable {
            return;
        }
        let mut c = i.buf.cells.borrow_mut();
        while c.len() < upto && c.len() < MAX_GROW * 8 {
            let b = self.rand_cell(i);
            c.push(b);
        }
    }

    fn rand_cell(&self, i: &In) -> u8 {
        let mut t = self.t();
        if i.buf.bits {
            return t.draw(2) as u8;
        }
        match t.below(4) {
            0 => t.draw(4) as u8,
            1 => t.draw(20) as u8,
            2 => t.byte(),
            _ => *t.pick(b"abcxyz01\x00\xff\x7f\x80"),
        }
    }

    fn tick(&mut self) -> R<()> {
        if self.fuel == 0 {
            return partial("fuel");
        }
        self.fuel -= 1;
        Ok(())
    }

    fn growing_at(&self, i: &In) -> bool {
        i.buf.growable && i.pos >= i.buf.cells.borrow().len() && i.end.is_none_or(|e| i.pos < e) && i.pos < MAX_GROW
    }

    /// next cell, growing from `want` if inventing
    fn cell(&self, i: &In, want: &BS) -> Option<u8> {
        if let Some(e) = i.end {
            if i.pos >= e {
                return None;
            }
        }
        if self.growing_at(i) {
            self.fill(i, i.pos);
            let mut b = None;
            for _ in 0..2 {
                let c = self.rand_cell(i);
                if want.has(c) {
                    b = Some(c);
                    break;
                }
            }
            let m;
            let b = match b {
                Some(b) => b,
                None => {
                    m = want.members();
                    if m.is_empty() { 0 } else { *self.t().pick(&m) }
                }
            };
            i.buf.cells.borrow_mut().push(b);
        }
        let r = i.buf.cells.borrow().get(i.pos).copied();
        if r.is_some() && i.buf.seen.get() < i.pos + 1 {
            i.buf.seen.set(i.pos + 1);
        }
        r
    }

    fn adv(&self, i: &In, n: u64) -> R<In> {
        let np = (i.pos as u64).saturating_add(n);
        let lim = match i.end {
            Some(e) => e as u64,
            None => MAX_GROW as u64,
        };
        if np > lim {
            return Err(Stop::Fail);
        }
        Ok(In { pos: np as usize, ..i.clone() })
    }

    pub fn first(&self, f: &F) -> (BS, bool) {
        let cat = |fs: &mut dyn Iterator<Item = (BS, bool)>| {
            let mut s = BS::empty();
            for (b, n) in fs {
                s = s.or(&b);
                if !n {
                    return (s, false);
                }
            }
            (s, true)
        };
        match f {
            F::Fail => (BS::empty(), false),
            F::Byte(s) => (*s, false),
            F::Variant(_, f) | F::Hint(_, f) | F::Some(f) | F::Map(f, ..) | F::Where(f, ..) | F::Let(_, _, f) | F::LetView(_, f) | F::Repeat1(f) | F::UntilLast(_, _, f) | F::UntilSeq(_, _, f) => self.first(f),
            F::Tuple(fs) | F::Sequence(fs) => cat(&mut fs.iter().map(|f| self.first(f))),
            F::Record(fs) => cat(&mut fs.iter().map(|f| self.first(&f.2))),
            F::Seq2(a, b) | F::LetF(a, _, b) => cat(&mut [a, b].into_iter().map(|f| self.first(f))),
            F::Union(fs) | F::UnionND(fs) => {
                let mut s = BS::empty();
                let mut nul = false;
                for f in fs {
                    let (b, n) = self.first(f);
                    s = s.or(&b);
                    nul |= n;
                }
                (s, nul)
            }
            F::Match(_, bs) => {
                let mut s = BS::empty();
                let mut nul = false;
                for (_, f) in bs {
                    let (b, n) = self.first(f);
                    s = s.or(&b);
                    nul |= n;
                }
                (s, nul)
            }
            F::Repeat(f) | F::Maybe(_, f) => (self.first(f).0, true),
            F::Compute(_) | F::None | F::Pos => (BS::empty(), true),
            F::Int(..) => (BS::full(), false),
            F::Call(i, ..) => self.first(&self.prog.defs[*i].body),
            _ => (BS::full(), true),
        }
    }

    /// straight-line prefix of plain bytes every match starts with
    pub fn prefix(&self, f: &F) -> (Vec<BS>, bool) {
        let cat = |fs: &mut dyn Iterator<Item = (Vec<BS>, bool)>| {
            let mut v = vec![];
            for (p, whole) in fs {
                v.extend(p);
                if !whole || v.len() > 6 {
                    return (v, false);
                }
            }
            (v, true)
        };
        match f {
            F::Byte(s) => (vec![*s], true),
            F::Int(k, _) => (vec![BS::full(); k.bits() as usize / 8], true),
            F::Compute(_) | F::None => (vec![], true),
            F::Variant(_, f) | F::Hint(_, f) | F::Some(f) | F::Map(f, ..) | F::Let(_, _, f) | F::LetView(_, f) | F::Where(f, ..) => self.prefix(f),
            F::Tuple(fs) | F::Sequence(fs) => cat(&mut fs.iter().map(|f| self.prefix(f))),
            F::Record(fs) => cat(&mut fs.iter().map(|f| self.prefix(&f.2))),
            F::Seq2(a, b) | F::LetF(a, _, b) => cat(&mut [a, b].into_iter().map(|f| self.prefix(f))),
            _ => (vec![], false),
        }
    }

    fn next_in(&self, i: &In, s: &BS) -> bool {
        if let Some(e) = i.end {
            if i.pos >= e {
                return false;
            }
        }
        let b = i.buf.cells.borrow().get(i.pos).copied();
        if b.is_some() && i.buf.seen.get() < i.pos + 1 {
            i.buf.seen.set(i.pos + 1);
        }
        b.is_some_and(|b| s.has(b))
    }

    pub fn parse(&mut self, f: &F, env: &Env, i: In) -> R<(V, In)> {
        if self.spans.is_some() {
            return self.parse_spans(f, env, i);
        }
        if self.log.is_none() {
            return self.parse_in(f, env, i);
        }
        let from = i.pos;
        let (v, o) = self.parse_in(f, env, i)?;
        let b = match v {
            V::U(K::U8, b) => b as u16 + 1,
            _ => 0,
        };
        self.log.as_mut().unwrap().insert((f as *const F as usize, from, o.pos, b));
        Ok((v, o))
    }

    fn parse_spans(&mut self, f: &F, env: &Env, i: In) -> R<(V, In)> {
        let (from, buf) = (i.pos, i.buf.clone());
        let before = buf.seen.replace(from);
        let r = self.parse_in(f, env, i);
        // what is read through a view or at an offset is not read ahead of the current position
        if matches!(f, F::FromView(..) | F::Capture(..) | F::ReadArray(..) | F::Reify(..) | F::RelOff(..)) {
            buf.seen.set(from);
        }
        let seen = buf.seen.get();
        buf.seen.set(seen.max(before));
        if let Ok((_, o)) = &r {
            self.spans.as_mut().unwrap().insert((f as *const F as usize, o.pos.saturating_sub(from), seen.max(from) - from));
        }
        r
    }

    fn parse_in(&mut self, f: &F, env: &Env, i: In) -> R<(V, In)> {
        self.tick()?;
        match f {
            F::Fail => Err(Stop::Fail),
            F::Eoi => {
                self.feats.insert("Eoi");
                if i.end.is_none() {
                    return if i.pos >= i.buf.cells.borrow().len() { Ok((VUNIT, i)) } else { Err(Stop::Fail) };
                }
                if i.pos < i.end.unwrap() { Err(Stop::Fail) } else { Ok((VUNIT, i)) }
            }
            F::Align(n) => {
                self.feats.insert("Align");
                let skip = (n - i.pos % n) % n;
                let i2 = self.adv(&i, skip as u64)?;
                self.fill(&i, i2.pos);
                Ok((VUNIT, i2))
            }
            F::Byte(s) => match self.cell(&i, s) {
                None => Err(Stop::Fail),
                Some(b) => {
                    if s.has(b) {
                        let p = i.pos + 1;
                        Ok((V::U(K::U8, b as u64), In { pos: p, ..i }))
                    } else {
                        Err(Stop::Fail)
                    }
                }
            },
            F::Int(k, be) => {
                self.feats.insert("Int");
                let mut i = i;
                let mut bs = vec![];
                for _ in 0..k.bits() / 8 {
                    match self.cell(&i, &BS::full()) {
                        None => return Err(Stop::Fail),
                        Some(b) => bs.push(b),
                    }
                    i.pos += 1;
                }
                if i.buf.bits {
                    // not generated
                    return partial("int in bits");
                }
                Ok((V::U(*k, endian(&bs, *be)), i))
            }
            F::Variant(l, f) => {
                let (v, i) = self.parse(f, env, i)?;
                Ok((V::Variant(l.clone(), Box::new(v)), i))
            }
            F::Union(fs) => {
                self.feats.insert("Union");
                let mut pick = None;
                if self.growing_at(&i) {
                    pick = Some(self.t().below(fs.len()));
                } else {
                    let firsts: Vec<(BS, bool)> = fs.iter().map(|f| self.first(f)).collect();
                    let dflt = firsts.iter().position(|x| x.1);
                    if dflt.is_some() {
                        pick = (0..fs.len()).find(|k| self.next_in(&i, &firsts[*k].0));
                    } else {
                        // the alternative whose leading bytes match furthest (they are pairwise distinguishable)
                        let mut best = 0;
                        for (k, f) in fs.iter().enumerate() {
                            let (pre, _) = self.prefix(f);
                            let n = if pre.is_empty() { self.next_in(&i, &firsts[k].0) as usize } else { pre.iter().enumerate().take_while(|(d, s)| self.next_in(&In { pos: i.pos + d, ..i.clone() }, s)).count() };
                            if n > best {
                                best = n;
                                pick = Some(k);
                            }
                        }
                    }
                    if pick.is_none() {
                        pick = dflt;
                    }
                }
                match pick {
                    None => Err(Stop::Fail),
                    Some(k) => self.parse(&fs[k], env, i),
                }
            }
            F::UnionND(fs) => {
                self.feats.insert("UnionND");
                if self.growing_at(&i) {
                    let k = self.t().below(fs.len());
                    let n = i.buf.cells.borrow().len();
                    match self.parse(&fs[k], env, i.clone()) {
                        Err(Stop::Fail) => i.buf.cells.borrow_mut().truncate(n),
                        r => return r,
                    }
                }
                for f in fs {
                    match self.parse(f, env, i.clone()) {
                        Err(Stop::Fail) => {}
                        r => return r,
                    }
                }
                Err(Stop::Fail)
            }
            F::Tuple(fs) => {
                let mut i = i;
                let mut vs = vec![];
                for f in fs {
                    let (v, i2) = self.parse(f, env, i)?;
                    vs.push(v);
                    i = i2;
                }
                Ok((V::Tuple(vs), i))
            }
            F::Sequence(fs) => {
                self.feats.insert("Sequence");
                let mut i = i;
                let mut vs = vec![];
                for f in fs {
                    let (v, i2) = self.parse(f, env, i)?;
                    vs.push(v);
                    i = i2;
                }
                Ok((V::Seq(vs), i))
            }
            F::Repeat(f) => self.repeat(f, env, i, 0, u64::MAX, "Repeat"),
            F::Repeat1(f) => self.repeat(f, env, i, 1, u64::MAX, "Repeat1"),
            F::RepeatBetween(lo, hi, f) => {
                let lo = self.usz(lo, env)?;
                let hi = self.usz(hi, env)?;
                self.repeat(f, env, i, lo, hi, "RepeatBetween")
            }
            F::RepeatCount(e, f) => {
                self.feats.insert("RepeatCount");
                let n = self.usz(e, env)?;
                if n > MAX_COUNT {
                    if crate::r#gen::minlen(f, &self.prog.defs) == 0 {
                        return partial("huge count");
                    }
                    self.feats.insert("huge");
                }
                let mut i = i;
                let mut vs = vec![];
                for k in 0..n {
                    if n > MAX_COUNT && i.buf.growable && k > 2 {
                        return Err(Stop::Fail);
                    }
                    let (v, i2) = self.parse(f, env, i)?;
                    vs.push(v);
                    i = i2;
                }
                Ok((V::Seq(vs), i))
            }
            F::UntilLast(x, e, f) => {
                self.feats.insert("UntilLast");
                let mut i = i;
                let mut vs = vec![];
                loop {
                    let (v, i2) = self.parse(f, env, i)?;
                    i = i2;
                    let done = self.boolean(e, &push(env, x, Bind::Val(v.clone())))?;
                    vs.push(v);
                    if done {
                        break;
                    }
                    if self.grow.is_some() && vs.len() > 12 {
                        return Err(Stop::Fail);
                    }
                }
                Ok((V::Seq(vs), i))
            }
            F::UntilSeq(x, e, f) => {
                self.feats.insert("UntilSeq");
                let mut i = i;
                let mut vs = vec![];
                loop {
                    let (v, i2) = self.parse(f, env, i)?;
                    i = i2;
                    vs.push(v);
                    if self.boolean(e, &push(env, x, Bind::Val(V::Seq(vs.clone()))))? {
                        break;
                    }
                    if self.grow.is_some() && vs.len() > 12 {
                        return Err(Stop::Fail);
                    }
                }
                Ok((V::Seq(vs), i))
            }
            F::AccumUntil { a, s, x, done, upd, init, f, .. } => {
                self.feats.insert("AccumUntil");
                let mut i = i;
                let mut vs: Vec<V> = vec![];
                let mut acc = self.expr(init, env)?;
                loop {
                    let e1 = push(&push(env, a, Bind::Val(acc.clone())), s, Bind::Val(V::Seq(vs.clone())));
                    if self.boolean(done, &e1)? {
                        break;
                    }
                    if self.grow.is_some() && vs.len() > 12 {
                        return Err(Stop::Fail);
                    }
                    let (v, i2) = self.parse(f, env, i)?;
                    i = i2;
                    vs.push(v.clone());
                    let e2 = push(&push(env, a, Bind::Val(acc)), x, Bind::Val(v));
                    acc = self.expr(upd, &e2)?;
                }
                Ok((V::Tuple(vec![acc, V::Seq(vs)]), i))
            }
            F::ForEach(e, x, f) => {
                self.feats.insert("ForEach");
                let s = self.seq(e, env)?;
                let mut i = i;
                let mut vs = vec![];
                for y in s {
                    let (v, i2) = self.parse(f, &push(env, x, Bind::Val(y)), i)?;
                    i = i2;
                    vs.push(v);
                }
                Ok((V::Seq(vs), i))
            }
            F::Maybe(e, f) => {
                self.feats.insert("Maybe");
                if self.boolean(e, env)? {
                    let (v, i) = self.parse(f, env, i)?;
                    Ok((V::Opt(Some(Box::new(v))), i))
                } else {
                    Ok((V::Opt(None), i))
                }
            }
            F::Peek(f) => {
                self.feats.insert("Peek");
                let (v, _) = self.parse(f, env, i.clone())?;
                Ok((v, i))
            }
            F::PeekNot(f) => {
                self.feats.insert("PeekNot");
                if self.growing_at(&i) {
                    // look at up to 3 invented bytes half of the time
                    if self.t().chance(50) {
                        let k = i.pos + 1 + self.t().below(3);
                        let k = i.end.map_or(k, |e| k.min(e));
                        self.fill(&i, k);
                    }
                    let fixed = Rc::new(Buf { cells: RefCell::new(i.buf.cells.borrow().clone()), growable: false, bits: i.buf.bits, seen: Cell::new(0) });
                    let n = fixed.cells.borrow().len();
                    let j = In { pos: i.pos.min(n), end: Some(i.end.map_or(n, |e| e.min(n))), buf: fixed };
                    return match self.parse(f, env, j) {
                        Ok(_) => Err(Stop::Fail),
                        Err(Stop::Fail) => Ok((VUNIT, i)),
                        Err(e) => Err(e),
                    };
                }
                match self.parse(f, env, i.clone()) {
                    Ok(_) => Err(Stop::Fail),
                    Err(Stop::Fail) => Ok((VUNIT, i)),
                    Err(e) => Err(e),
                }
            }
            F::Slice(e, f) => {
                self.feats.insert("Slice");
                let n = self.usz(e, env)?;
                let after = self.adv(&i, n)?;
                let inner = In { end: Some(after.pos), ..i };
                let (v, _) = self.parse(f, env, inner)?;
                self.fill(&after, after.pos);
                Ok((v, after))
            }
            F::Bits(f) => {
                self.feats.insert("Bits");
                let cells = i.buf.cells.borrow().clone();
                let lim = i.end.unwrap_or(cells.len().max(i.pos)).min(cells.len().max(i.pos));
                let mut bits = vec![];
                for b in cells.get(i.pos..lim).unwrap_or(&[]) {
                    for k in 0..8 {
                        bits.push(b >> k & 1);
                    }
                }
                let growable = i.buf.growable;
                let total_bits = bits.len();
                let bb = Rc::new(Buf { cells: RefCell::new(bits), growable, bits: true, seen: Cell::new(0) });
                let end = if growable { i.end.map(|e| (e - i.pos) * 8) } else { Some(total_bits) };
                let j = In { buf: bb.clone(), pos: 0, end };
                let (v, o) = self.parse(f, env, j)?;
                let used = o.pos.div_ceil(8);
                if growable {
                    self.fill(&i, i.pos);
                    let mut c = i.buf.cells.borrow_mut();
                    let mut bs = bb.cells.borrow().clone();
                    while bs.len() % 8 != 0 || bs.len() < used * 8 {
                        let z = self.t().draw(2) as u8;
                        bs.push(z);
                    }
                    let bytes: Vec<u8> = bs.chunks(8).map(|ch| ch.iter().enumerate().map(|(k, b)| b << k).sum()).collect();
                    for (k, b) in bytes.into_iter().enumerate() {
                        if i.pos + k >= c.len() {
                            c.push(b);
                        }
                    }
                }
                let s = i.pos + bb.seen.get().div_ceil(8);
                if i.buf.seen.get() < s {
                    i.buf.seen.set(s);
                }
                Ok((v, self.adv(&i, used as u64)?))
            }
            F::RelOff(b, o, f) => {
                self.feats.insert("RelOff");
                let b = self.usz(b, env)?;
                let o = self.usz(o, env)?;
                let Some(abs) = b.checked_add(o) else { return partial("seek overflow") };
                let lim = i.end.unwrap_or(MAX_GROW) as u64;
                if abs > lim {
                    return Err(Stop::Fail);
                }
                let (v, _) = self.parse(f, env, In { pos: abs as usize, ..i.clone() })?;
                Ok((v, i))
            }
            F::Map(f, x, e) => {
                self.feats.insert("Map");
                let (v, i) = self.parse(f, env, i)?;
                let w = self.expr(e, &push(env, x, Bind::Val(v)))?;
                Ok((w, i))
            }
            F::Where(f, x, e, strict) => {
                self.feats.insert(if *strict { "Where" } else { "Expect" });
                let n = i.buf.cells.borrow().len();
                let mut tries = if self.growing_at(&i) { 4 } else { 1 };
                loop {
                    let (v, o) = self.parse(f, env, i.clone())?;
                    let ok = self.boolean(e, &push(env, x, Bind::Val(v.clone())))?;
                    if ok || !strict {
                        if !ok {
                            self.soft += 1;
                        }
                        return Ok((v, o));
                    }
                    tries -= 1;
                    if tries == 0 {
                        return Err(Stop::Fail);
                    }
                    i.buf.cells.borrow_mut().truncate(n);
                }
            }
            F::Compute(e) => Ok((self.expr(e, env)?, i)),
            F::Let(x, e, f) => {
                self.feats.insert("Let");
                let v = self.expr(e, env)?;
                self.parse(f, &push(env, x, Bind::Val(v)), i)
            }
            F::Match(e, bs) => {
                self.feats.insert("Match");
                let v = self.expr(e, env)?;
                for (p, f) in bs {
                    let mut e2 = env.clone();
                    if matches(p, &v, &mut e2)? {
                        return self.parse(f, &e2, i);
                    }
                }
                self.feats.insert("unmatched");
                Err(Stop::Fail)
            }
            F::Huffman(n, ls, vs, f) => {
                self.feats.insert("Huffman");
                let ls = self.useq(ls, env)?;
                let ls = match vs {
                    None => ls,
                    Some(vs) => {
                        let vs = self.useq(vs, env)?;
                        let mut nl = vec![0; vs.len()];
                        for (k, l) in ls.iter().enumerate() {
                            let Some(s) = vs.get(k) else { return partial("huffman values") };
                            let Some(c) = nl.get_mut(*s as usize) else { return partial("huffman values") };
                            *c = *l;
                        }
                        nl
                    }
                };
                let codes = canonical_codes(&ls)?;
                self.parse(f, &push(env, n, Bind::Huff(Rc::new(codes))), i)
            }
            F::Apply(n) => {
                self.feats.insert("Apply");
                let Bind::Huff(codes) = look(env, n).clone() else { panic!("not a code") };
                let mut i = i;
                let mut code = 0u32;
                let mut len = 0usize;
                let two = {
                    let mut s = BS::one(0);
                    s.add(1);
                    s
                };
                loop {
                    if len > 20 {
                        return Err(Stop::Fail);
                    }
                    match self.cell(&i, &two) {
                        Some(b) if b < 2 => {
                            code = code << 1 | b as u32;
                            len += 1;
                            i.pos += 1;
                        }
                        _ => return Err(Stop::Fail),
                    }
                    if let Some(c) = codes.iter().find(|c| c.0 == len && c.1 == code) {
                        return Ok((V::U(K::U16, c.2), i));
                    }
                }
            }
            F::Pos => {
                self.feats.insert("Pos");
                Ok((V::U(K::U64, i.pos as u64), i))
            }
            F::SkipRem => {
                self.feats.insert("SkipRem");
                match i.end {
                    Some(e) => Ok((VUNIT, In { pos: e, ..i })),
                    None => {
                        if self.growing_at(&i) {
                            let k = self.t().below(4);
                            self.fill(&i, i.pos + k);
                        }
                        let p = i.buf.cells.borrow().len().max(i.pos);
                        Ok((VUNIT, In { pos: p, ..i }))
                    }
                }
            }
            F::DecodeBytes(e, f) => {
                self.feats.insert("DecodeBytes");
                let bs: Vec<u8> = self.useq(e, env)?.into_iter().map(|x| x as u8).collect();
                let n = bs.len();
                let j = In { buf: Rc::new(Buf { cells: RefCell::new(bs), growable: false, bits: false, seen: Cell::new(0) }), pos: 0, end: Some(n) };
                let (v, o) = self.parse(f, env, j)?;
                if o.pos < n {
                    self.soft += 1;
                }
                Ok((v, i))
            }
            F::LetF(a, x, f) => {
                let (v, i) = self.parse(a, env, i)?;
                self.parse(f, &push(env, x, Bind::Val(v)), i)
            }
            F::Seq2(a, f) => {
                let (_, i) = self.parse(a, env, i)?;
                self.parse(f, env, i)
            }
            F::Hint(_, f) => self.parse(f, env, i),
            F::Some(f) => {
                let (v, i) = self.parse(f, env, i)?;
                Ok((V::Opt(Some(Box::new(v))), i))
            }
            F::None => Ok((V::Opt(None), i)),
            F::LetView(x, f) => {
                self.feats.insert("LetView");
                self.parse(f, &push(env, x, Bind::View(i.clone())), i)
            }
            F::Capture(v, e) => {
                self.feats.insert("Capture");
                let n = self.usz(e, env)?;
                let mut w = self.view(v, env)?;
                if n > MAX_COUNT {
                    self.feats.insert("huge");
                    return Err(Stop::Fail);
                }
                let mut vs = vec![];
                for _ in 0..n {
                    match self.cell(&w, &BS::full()) {
                        None => return Err(Stop::Fail),
                        Some(b) => vs.push(V::U(K::U8, b as u64)),
                    }
                    w.pos += 1;
                }
                Ok((V::Seq(vs), i))
            }
            F::ReadArray(v, e, k) => {
                self.feats.insert("ReadArray");
                let n = self.usz(e, env)?;
                let mut w = self.view(v, env)?;
                if n > MAX_COUNT {
                    self.feats.insert("huge");
                    return Err(Stop::Fail);
                }
                let mut vs = vec![];
                for _ in 0..n {
                    let mut bs = vec![];
                    for _ in 0..k.bits() / 8 {
                        match self.cell(&w, &BS::full()) {
                            None => return Err(Stop::Fail),
                            Some(b) => bs.push(b),
                        }
                        w.pos += 1;
                    }
                    vs.push(V::U(*k, endian(&bs, true)));
                }
                Ok((V::Seq(vs), i))
            }
            F::Reify(v) => {
                let w = self.view(v, env)?;
                Ok((V::View(w.pos), i))
            }
            F::FromView(v, f) => {
                self.feats.insert("FromView");
                let w = self.view(v, env)?;
                let (v, _) = self.parse(f, env, w)?;
                Ok((v, i))
            }
            F::Phantom(_) => Ok((V::Phantom, i)),
            F::Permit(f, e) => {
                self.feats.insert("Permit");
                let n = i.buf.cells.borrow().len();
                let g = self.growing_at(&i);
                if g && self.t().chance(30) {
                    let k = i.pos + self.t().below(3);
                    let k = i.end.map_or(k, |e| k.min(e));
                    self.fill(&i, k);
                }
                match self.parse(f, env, i.clone()) {
                    Err(Stop::Fail) => {
                        if g {
                            i.buf.cells.borrow_mut().truncate(n);
                        }
                        self.soft += 1;
                        Ok((V::Bad(Box::new(self.expr(e, env)?)), i))
                    }
                    r => r,
                }
            }
            F::Call(k, args, views) => {
                self.feats.insert("Call");
                let prog = self.prog;
                let d = &prog.defs[*k];
                let mut e2: Env = None;
                for ((l, _), a) in d.args.iter().zip(args) {
                    let v = self.expr(a, env)?;
                    e2 = push(&e2, l, Bind::Val(v));
                }
                for (l, v) in d.views.iter().zip(views) {
                    let w = self.view(v, env)?;
                    e2 = push(&e2, l, Bind::View(w));
                }
                self.parse(&d.body, &e2, i)
            }
            F::Record(fs) => {
                self.feats.insert("Record");
                let mut env = env.clone();
                let mut i = i;
                let mut out = vec![];
                for (l, how, f) in fs {
                    let (v, i2) = self.parse(f, &env, i)?;
                    i = i2;
                    if *how != 2 {
                        env = push(&env, l, Bind::Val(v.clone()));
                    }
                    if *how == 0 {
                        out.push((l.clone(), v));
                    }
                }
                // an empty record is the unit value
                Ok((if out.is_empty() { VUNIT } else { V::Record(out) }, i))
            }
        }
    }

    fn repeat(&mut self, f: &F, env: &Env, i: In, lo: u64, hi: u64, name: &'static str) -> R<(V, In)> {
        self.feats.insert(name);
        let (s, _) = self.first(f);
        let mut i = i;
        let mut vs: Vec<V> = vec![];
        let target = if self.growing_at(&i) { Some(lo.max(self.t().small(6) as u64)) } else { None };
        while (vs.len() as u64) < hi {
            let go = if self.growing_at(&i) { (vs.len() as u64) < target.unwrap_or(lo) } else { self.next_in(&i, &s) };
            if !go {
                break;
            }
            let (v, i2) = self.parse(f, env, i)?;
            vs.push(v);
            i = i2;
        }
        if (vs.len() as u64) < lo {
            return Err(Stop::Fail);
        }
        Ok((V::Seq(vs), i))
    }

    fn view(&mut self, v: &VE, env: &Env) -> R<In> {
        let Bind::View(w) = look(env, &v.var).clone() else { panic!("not a view") };
        let mut w = w;
        let ns = v.offs.iter().map(|o| self.usz(o, env)).collect::<R<Vec<_>>>()?;
        for n in ns {
            w = self.adv(&w, n)?;
        }
        Ok(w)
    }

    /// evaluate for inspection: a tolerated-failure fallback may not be looked into
    fn look_at(&mut self, e: &E, env: &Env) -> R<V> {
        match self.expr(e, env)? {
            V::Bad(_) => partial("fallback inspected"),
            v => Ok(v),
        }
    }

    pub fn usz(&mut self, e: &E, env: &Env) -> R<u64> {
        match self.look_at(e, env)? {
            V::U(_, n) => Ok(n),
            v => panic!("model: expected integer, got {v:?}"),
        }
    }
    fn boolean(&mut self, e: &E, env: &Env) -> R<bool> {
        match self.look_at(e, env)? {
            V::Bool(b) => Ok(b),
            v => panic!("model: expected bool, got {v:?}"),
        }
    }
    fn seq(&mut self, e: &E, env: &Env) -> R<Vec<V>> {
        match self.look_at(e, env)? {
            V::Seq(v) => Ok(v),
            v => panic!("model: expected seq, got {v:?}"),
        }
    }
    fn useq(&mut self, e: &E, env: &Env) -> R<Vec<u64>> {
        self.seq(e, env)?
            .into_iter()
            .map(|v| match v {
                V::U(_, n) => Ok(n),
                V::Bad(_) => partial("fallback inspected"),
                v => panic!("model: expected int in seq, got {v:?}"),
            })
            .collect()
    }

    pub fn expr(&mut self, e: &E, env: &Env) -> R<V> {
        self.tick()?;
        match e {
            E::Var(l) => match look(env, l) {
                Bind::Val(v) => {
                    let sz = v.size() as u64;
                    if self.fuel < sz {
                        return partial("fuel");
                    }
                    self.fuel -= sz;
                    Ok(v.clone())
                }
                _ => panic!("model: {l} is not a value"),
            },
            E::Bool(b) => Ok(V::Bool(*b)),
            E::U(k, n) => Ok(V::U(*k, *n)),
            E::Tuple(es) => Ok(V::Tuple(es.iter().map(|e| self.expr(e, env)).collect::<R<_>>()?)),
            E::Proj(e, k) => match self.look_at(e, env)? {
                V::Tuple(mut vs) => Ok(vs.swap_remove(*k)),
                v => panic!("proj of {v:?}"),
            },
            E::Record(fs) => Ok(V::Record(fs.iter().map(|(l, e)| Ok((l.clone(), self.expr(e, env)?))).collect::<R<_>>()?)),
            E::Field(e, l) => match self.look_at(e, env)? {
                V::Record(fs) => Ok(fs.into_iter().find(|f| f.0 == *l).unwrap().1),
                v => panic!("field of {v:?}"),
            },
            E::Variant(l, e) => Ok(V::Variant(l.clone(), Box::new(self.expr(e, env)?))),
            E::Seq(es) => Ok(V::Seq(es.iter().map(|e| self.expr(e, env)).collect::<R<_>>()?)),
            E::Match(h, bs) => {
                let v = self.expr(h, env)?;
                for (p, b) in bs {
                    let mut e2 = env.clone();
                    if matches(p, &v, &mut e2)? {
                        return self.expr(b, &e2);
                    }
                }
                partial("non-exhaustive")
            }
            E::Destr(h, p, b) => {
                let v = self.expr(h, env)?;
                let mut e2 = env.clone();
                if matches(p, &v, &mut e2)? { self.expr(b, &e2) } else { partial("refutable destructure") }
            }
            E::Rel(r, a, b) => {
                let (x, y) = (self.usz(a, env)?, self.usz(b, env)?);
                Ok(V::Bool(match r {
                    Rel::Eq => x == y,
                    Rel::Ne => x != y,
                    Rel::Lt => x < y,
                    Rel::Gt => x > y,
                    Rel::Le => x <= y,
                    Rel::Ge => x >= y,
                }))
            }
            E::Op(o, a, b) => {
                let (V::U(k, x), V::U(k2, y)) = (self.look_at(a, env)?, self.look_at(b, env)?) else { panic!("op on non-int") };
                assert_eq!(k, k2, "model: mixed widths in {e:?}");
                let (x, y) = (x as u128, y as u128);
                let r = match o {
                    Op::Add => x + y,
                    Op::Sub => {
                        if y > x {
                            return partial("underflow");
                        }
                        x - y
                    }
                    Op::Mul => x.checked_mul(y).unwrap_or(u128::MAX),
                    Op::Div | Op::Rem => {
                        if y == 0 {
                            return partial("division by zero");
                        }
                        if *o == Op::Div { x / y } else { x % y }
                    }
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Shl => {
                        if y >= k.bits() as u128 {
                            return partial("overshift");
                        }
                        // bits shifted out are dropped, as in the machine operation
                        (x << y) & k.top() as u128
                    }
                    Op::Shr => {
                        if y >= k.bits() as u128 {
                            return partial("overshift");
                        }
                        x >> y
                    }
                };
                if r > k.top() as u128 {
                    return partial("overflow");
                }
                Ok(V::U(k, r as u64))
            }
            E::BoolAnd(a, b) => {
                let (x, y) = (self.boolean(a, env)?, self.boolean(b, env)?);
                Ok(V::Bool(x && y))
            }
            E::BoolOr(a, b) => {
                let (x, y) = (self.boolean(a, env)?, self.boolean(b, env)?);
                Ok(V::Bool(x || y))
            }
            E::Not(a) => Ok(V::Bool(!self.boolean(a, env)?)),
            E::Succ(a) => match self.look_at(a, env)? {
                V::U(k, n) if n < k.top() => Ok(V::U(k, n + 1)),
                _ => partial("overflow"),
            },
            E::Pred(a) => match self.look_at(a, env)? {
                V::U(k, n) if n > 0 => Ok(V::U(k, n - 1)),
                _ => partial("underflow"),
            },
            E::As(k, a) => {
                let n = self.usz(a, env)?;
                if n > k.top() { partial("narrowing") } else { Ok(V::U(*k, n)) }
            }
            E::AsChar(a) => {
                let n = self.usz(a, env)?;
                if n > u32::MAX as u64 {
                    return partial("char");
                }
                Ok(V::Char(char::from_u32(n as u32).unwrap_or('\u{fffd}')))
            }
            E::End(k, be, a) => {
                let V::Tuple(vs) = self.look_at(a, env)? else { panic!("endian of non-tuple") };
                let bs: Vec<u8> = vs
                    .into_iter()
                    .map(|v| match v {
                        V::U(K::U8, n) => Ok(n as u8),
                        V::Bad(_) => partial("fallback inspected"),
                        v => panic!("endian of {v:?}"),
                    })
                    .collect::<R<_>>()?;
                Ok(V::U(*k, endian(&bs, *be)))
            }
            E::Len(s) => {
                let n = self.seq(s, env)?.len();
                Ok(V::U(K::U32, n as u64))
            }
            E::SubSeq(s, a, n) => {
                let s = self.seq(s, env)?;
                let (a, n) = (self.usz(a, env)?, self.usz(n, env)?);
                if a.checked_add(n).is_none_or(|x| x > s.len() as u64) {
                    return partial("subsequence out of range");
                }
                Ok(V::Seq(s[a as usize..(a + n) as usize].to_vec()))
            }
            E::Ix(s, k) => {
                let s = self.seq(s, env)?;
                let k = self.usz(k, env)?;
                match s.get(k as usize) {
                    Some(v) => Ok(v.clone()),
                    None => partial("index out of range"),
                }
            }
            E::Inflate(s, a, n) => {
                let s = self.seq(s, env)?;
                let (a, n) = (self.usz(a, env)?, self.usz(n, env)?);
                if n > 0 && a >= s.len() as u64 {
                    return partial("inflate start");
                }
                if n > MAX_COUNT {
                    return partial("huge count");
                }
                // reading on past the end re-reads what was just produced
                let mut all = s.clone();
                let mut out = vec![];
                for k in 0..n as usize {
                    let v = all[a as usize + k].clone();
                    all.push(v.clone());
                    out.push(v);
                }
                Ok(V::Seq(out))
            }
            E::FlatMap(x, b, s) => {
                let s = self.seq(s, env)?;
                let mut out = vec![];
                for v in s {
                    out.extend(self.seq(b, &push(env, x, Bind::Val(v)))?);
                }
                Ok(V::Seq(out))
            }
            E::FlatMapAccum(a, x, b, init, _, s) => {
                let s = self.seq(s, env)?;
                let mut acc = self.expr(init, env)?;
                let mut out = vec![];
                for v in s {
                    let e2 = push(&push(env, a, Bind::Val(acc)), x, Bind::Val(v));
                    let V::Tuple(mut t) = self.look_at(b, &e2)? else { panic!("fma") };
                    let V::Seq(n) = t.pop().unwrap() else { return partial("fallback inspected") };
                    acc = t.pop().unwrap();
                    out.extend(n);
                }
                Ok(V::Seq(out))
            }
            E::FlatMapList(a, x, b, _, s) => {
                let s = self.seq(s, env)?;
                let mut out: Vec<V> = vec![];
                for v in s {
                    let e2 = push(&push(env, a, Bind::Val(V::Seq(out.clone()))), x, Bind::Val(v));
                    let n = self.seq(b, &e2)?;
                    out.extend(n);
                }
                Ok(V::Seq(out))
            }
            E::Fold(a, x, b, init, _, s) => {
                let s = self.seq(s, env)?;
                let mut acc = self.expr(init, env)?;
                for v in s {
                    let e2 = push(&push(env, a, Bind::Val(acc)), x, Bind::Val(v));
                    acc = self.expr(b, &e2)?;
                }
                Ok(acc)
            }
            E::Find(sorted, x, k, q, s) => {
                let s = self.seq(s, env)?;
                let q = self.usz(q, env)?;
                let mut keys = vec![];
                for v in &s {
                    keys.push(self.usz(k, &push(env, x, Bind::Val(v.clone())))?);
                }
                if *sorted {
                    if keys.windows(2).any(|w| w[0] > w[1]) {
                        return partial("unsorted");
                    }
                    // which of several equal keys is found is not specified
                    if keys.iter().filter(|z| **z == q).count() > 1 {
                        let first = keys.iter().position(|z| *z == q).unwrap();
                        if s.iter().zip(&keys).any(|(v, z)| *z == q && *v != s[first]) {
                            return partial("duplicate keys");
                        }
                    }
                }
                Ok(V::Opt(keys.iter().position(|z| *z == q).map(|p| Box::new(s[p].clone()))))
            }
            E::Range(a, b) => {
                let k = match self.expr(a, env)? {
                    V::U(k, _) => k,
                    _ => K::Usz,
                };
                let (a, b) = (self.usz(a, env)?, self.usz(b, env)?);
                if b.saturating_sub(a) > 2000 {
                    return partial("huge range");
                }
                Ok(V::Seq((a..b).map(|n| V::U(k, n)).collect()))
            }
            E::Dup(n, e) => {
                let n = self.usz(n, env)?;
                let v = self.expr(e, env)?;
                if n > 2000 {
                    return partial("huge dup");
                }
                Ok(V::Seq(vec![v; n as usize]))
            }
            E::Some(e) => Ok(V::Opt(Some(Box::new(self.expr(e, env)?)))),
            E::None => Ok(V::Opt(None)),
            E::Append(a, b) => {
                let mut x = self.seq(a, env)?;
                x.extend(self.seq(b, env)?);
                Ok(V::Seq(x))
            }
        }
    }
}

/// remove fallback markers
pub fn clean(v: V) -> V {
    match v {
        V::Bad(v) => clean(*v),
        V::Tuple(vs) => V::Tuple(vs.into_iter().map(clean).collect()),
        V::Seq(vs) => V::Seq(vs.into_iter().map(clean).collect()),
        V::Record(fs) => V::Record(fs.into_iter().map(|(l, v)| (l, clean(v))).collect()),
        V::Variant(l, v) => V::Variant(l, Box::new(clean(*v))),
        V::Opt(Some(v)) => V::Opt(Some(Box::new(clean(*v)))),
        v => v,
    }
}

pub fn endian(bs: &[u8], be: bool) -> u64 {
    let mut n = 0u64;
    if be {
        for b in bs {
            n = n << 8 | *b as u64;
        }
    } else {
        for b in bs.iter().rev() {
            n = n << 8 | *b as u64;
        }
    }
    n
}

pub fn matches(p: &P, v: &V, env: &mut Env) -> R<bool> {
    let all = |ps: &Vec<P>, vs: &Vec<V>, env: &mut Env| -> R<bool> {
        if ps.len() != vs.len() {
            return Ok(false);
        }
        for (p, v) in ps.iter().zip(vs) {
            if !matches(p, v, env)? {
                return Ok(false);
            }
        }
        Ok(true)
    };
    Ok(match (p, v) {
        (P::Bind(l), v) => {
            *env = push(env, l, Bind::Val(v.clone()));
            true
        }
        (P::Wild, _) => true,
        (_, V::Bad(_)) => return partial("fallback inspected"),
        (P::Bool(a), V::Bool(b)) => a == b,
        (P::U(k, a), V::U(k2, b)) => k == k2 && a == b,
        (P::Int(lo, hi), V::U(_, b)) => lo <= b && hi.is_none_or(|h| *b <= h),
        (P::Char(a), V::Char(b)) => a == b,
        (P::Tuple(ps), V::Tuple(vs)) => all(ps, vs, env)?,
        (P::Seq(ps), V::Seq(vs)) => all(ps, vs, env)?,
        (P::Variant(l, p), V::Variant(m, v)) => l == m && matches(p, v, env)?,
        (P::Some(p), V::Opt(Some(v))) => matches(p, v, env)?,
        (P::None, V::Opt(None)) => true,
        _ => false,
    })
}
