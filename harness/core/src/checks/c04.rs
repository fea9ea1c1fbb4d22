//! C04: deterministic choice and repetition find the one parse whenever it exists.
//!
//! Regular descriptions closed by end-of-input; the oracle enumerates every derivation.
use super::c01::{hex, panic_sig};
use crate::ast::{K, L, V, VUNIT, norm};
use crate::runner::*;
use crate::tape::{Tape, hash_bytes};
use doodle::byte_set::ByteSet;
use doodle::decoder::Compiler;
use doodle::read::ReadCtxt;
use doodle::{Expr, Format, FormatModule, FormatRef, IntRel};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum R {
    Byte(Vec<u8>),
    Not(u8),
    Unit,
    Cat(Vec<R>),
    Alt(Vec<R>),
    Many(Box<R>),
    Some(Box<R>),
    Count(usize, Box<R>),
    Between(usize, usize, Box<R>),
    /// window of fixed size that its content must fill
    Window(usize, Box<R>),
    /// a byte, then the content exactly when the byte equals the given one
    When(Vec<u8>, u8, Box<R>),
    /// one byte satisfying an extra condition
    Where(Vec<u8>, u8),
    /// the next bytes must (not) be these
    Ahead(bool, Vec<u8>),
    Named(Rc<R>),
}

struct G<'a> {
    sigma: &'a [u8],
    budget: usize,
}

impl G<'_> {
    fn set(&self, t: &mut Tape) -> Vec<u8> {
        let n = if t.chance(75) { 1 } else { t.range(1, 3) as usize };
        let mut v: Vec<u8> = (0..n).map(|_| self.sigma[t.below(self.sigma.len())]).collect();
        v.sort();
        v.dedup();
        v
    }
    fn r(&mut self, t: &mut Tape, d: u32) -> R {
        if self.budget == 0 || d == 0 {
            return R::Byte(self.set(t));
        }
        self.budget -= 1;
        match t.weighted(&[10, 12, 14, 8, 5, 3, 4, 2, 4, 2, 2, 3, 1, 1]) {
            0 => R::Byte(self.set(t)),
            1 => {
                let n = t.range(2, 4) as usize;
                R::Cat((0..n).map(|_| self.r(t, d - 1)).collect())
            }
            2 => {
                let n = t.range(2, 4) as usize;
                let mut v: Vec<R> = (0..n).map(|_| self.r(t, d - 1)).collect();
                if t.chance(40) {
                    // common prefix: the choice needs a longer look
                    let p = t.range(1, 6) as usize;
                    let pre: Vec<R> = (0..p).map(|_| R::Byte(self.set(t))).collect();
                    v = v
                        .into_iter()
                        .map(|x| {
                            let mut c = pre.clone();
                            c.push(x);
                            R::Cat(c)
                        })
                        .collect();
                }
                R::Alt(v)
            }
            3 => R::Many(Box::new(self.r(t, d - 1))),
            4 => R::Some(Box::new(self.r(t, d - 1))),
            5 => R::Count(t.below(4), Box::new(self.r(t, d - 1))),
            6 => {
                let lo = t.below(3);
                let hi = lo + t.range(1, 2) as usize;
                R::Between(lo, hi, Box::new(R::Byte(self.set(t))))
            }
            7 => {
                let b = self.r(t, d - 1);
                R::Window(t.range(1, 4) as usize, Box::new(b))
            }
            8 => {
                let s = self.set(t);
                let k = s[t.below(s.len())];
                R::When(s, k, Box::new(self.r(t, d - 1)))
            }
            9 => {
                let s = self.set(t);
                let k = s[t.below(s.len())];
                R::Where(s, k)
            }
            10 => {
                let n = t.range(1, 3) as usize;
                R::Ahead(t.chance(40), (0..n).map(|_| self.sigma[t.below(self.sigma.len())]).collect())
            }
            11 => R::Named(Rc::new(self.r(t, d - 1))),
            12 => R::Unit,
            _ => R::Not(self.sigma[t.below(self.sigma.len())]),
        }
    }
}

fn bs(v: &[u8]) -> ByteSet {
    ByteSet::from_iter(v.iter().copied())
}

struct Low {
    m: FormatModule,
    n: usize,
}

impl Low {
    fn f(&mut self, r: &R) -> Format {
        match r {
            R::Byte(s) => Format::Byte(bs(s)),
            R::Not(b) => Format::Byte(!ByteSet::from_iter([*b])),
            R::Unit => Format::EMPTY,
            R::Cat(v) => Format::Tuple(v.iter().map(|x| self.f(x)).collect()),
            R::Alt(v) => Format::Union(v.iter().enumerate().map(|(i, x)| Format::Variant(format!("k{i}").into(), Box::new(self.f(x)))).collect()),
            R::Many(x) => Format::Repeat(Box::new(self.f(x))),
            R::Some(x) => Format::Repeat1(Box::new(self.f(x))),
            R::Count(n, x) => Format::RepeatCount(Box::new(Expr::U32(*n as u32)), Box::new(self.f(x))),
            R::Between(a, b, x) => Format::RepeatBetween(Box::new(Expr::U32(*a as u32)), Box::new(Expr::U32(*b as u32)), Box::new(self.f(x))),
            R::Window(n, x) => Format::Slice(Box::new(Expr::U32(*n as u32)), Box::new(Format::Tuple(vec![self.f(x), Format::EndOfInput]))),
            R::When(s, k, x) => {
                self.n += 1;
                let v = format!("x{}", self.n);
                let body = self.f(x);
                Format::LetFormat(
                    Box::new(Format::Byte(bs(s))),
                    v.clone().into(),
                    Box::new(Format::Maybe(Box::new(Expr::IntRel(IntRel::Eq, Box::new(Expr::Var(v.into())), Box::new(Expr::U8(*k)))), Box::new(body))),
                )
            }
            R::Where(s, k) => {
                self.n += 1;
                let v = format!("x{}", self.n);
                doodle::helper::where_lambda(Format::Byte(bs(s)), v.clone(), Expr::IntRel(IntRel::Ne, Box::new(Expr::Var(v.into())), Box::new(Expr::U8(*k))))
            }
            R::Ahead(pos, s) => {
                let f = Box::new(Format::Tuple(s.iter().map(|b| Format::Byte(bs(&[*b]))).collect()));
                if *pos { Format::Peek(f) } else { Format::PeekNot(f) }
            }
            R::Named(x) => {
                let f = self.f(x);
                self.n += 1;
                let name = format!("n{}", self.n);
                let r: FormatRef = self.m.define_format(name, f);
                r.call()
            }
        }
    }
}

/// All ways in which `r` matches a prefix of `s[at..end]`; `None` when there are too many to list.
fn derive(r: &R, s: &[u8], at: usize, end: usize, fuel: &mut usize) -> Option<Vec<(V, usize)>> {
    *fuel = fuel.checked_sub(1)?;
    let one = |ok: &dyn Fn(u8) -> bool| match s[..end].get(at) {
        Some(&b) if ok(b) => vec![(V::U(K::U8, b as u64), at + 1)],
        _ => vec![],
    };
    Some(match r {
        R::Byte(v) => one(&|b| v.contains(&b)),
        R::Not(x) => one(&|b| b != *x),
        R::Where(v, k) => one(&|b| v.contains(&b) && b != *k),
        R::Unit => vec![(VUNIT, at)],
        R::Cat(v) => {
            let mut cur = vec![(vec![], at)];
            for x in v {
                let mut nxt = vec![];
                for (vs, p) in cur {
                    for (v1, p1) in derive(x, s, p, end, fuel)? {
                        let mut vs: Vec<V> = vs.clone();
                        vs.push(v1);
                        nxt.push((vs, p1));
                    }
                }
                cur = nxt;
                *fuel = fuel.checked_sub(cur.len())?;
            }
            cur.into_iter().map(|(vs, p)| (V::Tuple(vs), p)).collect()
        }
        R::Alt(v) => {
            let mut out = vec![];
            for (i, x) in v.iter().enumerate() {
                out.extend(derive(x, s, at, end, fuel)?.into_iter().map(|(v, p)| (V::Variant(L::from(format!("k{i}")), Box::new(v)), p)));
            }
            out
        }
        R::Many(x) => reps(x, 0, usize::MAX, s, at, end, fuel)?,
        R::Some(x) => reps(x, 1, usize::MAX, s, at, end, fuel)?,
        R::Count(n, x) => reps(x, *n, *n, s, at, end, fuel)?,
        R::Between(a, b, x) => reps(x, *a, *b, s, at, end, fuel)?,
        R::Window(n, x) => {
            if at + n > end {
                return Some(vec![]);
            }
            derive(x, s, at, at + n, fuel)?.into_iter().filter(|(_, p)| *p == at + n).map(|(v, p)| (V::Tuple(vec![v, VUNIT]), p)).collect()
        }
        R::When(v, k, x) => match s[..end].get(at) {
            Some(b) if v.contains(b) => {
                if b == k {
                    derive(x, s, at + 1, end, fuel)?.into_iter().map(|(v, p)| (V::Opt(Some(Box::new(v))), p)).collect()
                } else {
                    vec![(V::Opt(None), at + 1)]
                }
            }
            _ => vec![],
        },
        R::Ahead(pos, w) => {
            let hit = s[at..end].starts_with(w);
            if hit == *pos {
                let v = if *pos { V::Tuple(w.iter().map(|b| V::U(K::U8, *b as u64)).collect()) } else { VUNIT };
                vec![(v, at)]
            } else {
                vec![]
            }
        }
        R::Named(x) => derive(x, s, at, end, fuel)?,
    })
}

fn reps(x: &R, lo: usize, hi: usize, s: &[u8], at: usize, end: usize, fuel: &mut usize) -> Option<Vec<(V, usize)>> {
    let mut out = vec![];
    let mut cur: Vec<(Vec<V>, usize)> = vec![(vec![], at)];
    let mut n = 0;
    loop {
        if n >= lo {
            out.extend(cur.iter().map(|(vs, p)| (V::Seq(vs.clone()), *p)));
        }
        if n >= hi || cur.is_empty() {
            return Some(out);
        }
        let mut nxt = vec![];
        for (vs, p) in cur {
            for (v, q) in derive(x, s, p, end, fuel)? {
                // an empty step of an open-ended repetition would go on for ever
                if q == p && n >= lo {
                    continue;
                }
                let mut vs = vs.clone();
                vs.push(v);
                nxt.push((vs, q));
            }
        }
        cur = nxt;
        *fuel = fuel.checked_sub(cur.len())?;
        n += 1;
    }
}

/// One random member (ignoring look-ahead and extra conditions).
fn sample(r: &R, t: &mut Tape, out: &mut Vec<u8>, room: &mut usize) {
    *room = room.saturating_sub(1);
    match r {
        R::Byte(v) | R::Where(v, _) => out.push(v[t.below(v.len())]),
        R::Not(x) => out.push(x.wrapping_add(1 + t.below(255) as u8)),
        R::Unit | R::Ahead(..) => {}
        R::Cat(v) => v.iter().for_each(|x| sample(x, t, out, room)),
        R::Alt(v) => sample(&v[t.below(v.len())], t, out, room),
        R::Many(x) | R::Some(x) => {
            let lo = usize::from(matches!(r, R::Some(_)));
            let n = if *room == 0 { lo } else { lo + t.small(4) as usize };
            for _ in 0..n {
                sample(x, t, out, room);
            }
        }
        R::Count(n, x) => (0..*n).for_each(|_| sample(x, t, out, room)),
        R::Between(a, b, x) => (0..t.range(*a, *b)).for_each(|_| sample(x, t, out, room)),
        R::Window(n, x) => {
            let mut w = vec![];
            sample(x, t, &mut w, room);
            w.resize(*n, 0x61);
            out.extend(w);
        }
        R::When(v, k, x) => {
            let b = v[t.below(v.len())];
            out.push(b);
            if b == *k {
                sample(x, t, out, room);
            }
        }
        R::Named(x) => sample(x, t, out, room),
    }
}

fn nullable(r: &R) -> bool {
    match r {
        R::Unit | R::Ahead(..) | R::Many(_) => true,
        R::Cat(v) => v.iter().all(nullable),
        R::Alt(v) => v.iter().any(nullable),
        R::Some(x) => nullable(x),
        R::Count(n, x) => *n == 0 || nullable(x),
        R::Between(n, _, x) => *n == 0 || nullable(x),
        R::Named(x) => nullable(x),
        _ => false,
    }
}

fn has_nullable_loop(r: &R) -> bool {
    match r {
        R::Many(x) | R::Some(x) | R::Count(_, x) => nullable(x) || has_nullable_loop(x),
        R::Cat(v) | R::Alt(v) => v.iter().any(has_nullable_loop),
        R::Between(_, _, x) | R::Window(_, x) | R::When(_, _, x) => has_nullable_loop(x),
        R::Named(x) => has_nullable_loop(x),
        _ => false,
    }
}

fn size(r: &R) -> usize {
    1 + match r {
        R::Cat(v) | R::Alt(v) => v.iter().map(size).sum(),
        R::Many(x) | R::Some(x) | R::Count(_, x) | R::Between(_, _, x) | R::Window(_, x) | R::When(_, _, x) => size(x),
        R::Named(x) => size(x),
        _ => 0,
    }
}

fn has_rough(r: &R) -> bool {
    match r {
        R::Window(..) | R::Ahead(..) => true,
        R::Many(x) | R::Some(x) | R::Count(_, x) | R::Between(_, _, x) | R::When(_, _, x) => has_rough(x),
        R::Cat(v) | R::Alt(v) => v.iter().any(has_rough),
        R::Named(x) => has_rough(x),
        _ => false,
    }
}

fn points(r: &R) -> usize {
    match r {
        R::Cat(v) => v.iter().map(points).sum(),
        R::Alt(v) => 1 + v.iter().map(points).sum::<usize>(),
        R::Many(x) | R::Some(x) => 1 + points(x),
        R::Between(_, _, x) => 1 + points(x),
        R::Count(_, x) | R::Window(_, x) | R::When(_, _, x) => points(x),
        R::Named(x) => points(x),
        _ => 0,
    }
}

// ------------------------------------------------------------------ how far each choice has to look

type Map = std::collections::BTreeMap<usize, u64>;

#[derive(Default)]
struct Nfa {
    eps: Vec<Vec<usize>>,
    byte: Vec<Option<([bool; 256], usize)>>,
    choices: Vec<Vec<usize>>,
    /// constructs the automaton only approximates
    rough: bool,
}

const END: usize = 0;

impl Nfa {
    fn node(&mut self, eps: Vec<usize>) -> usize {
        self.eps.push(eps);
        self.byte.push(None);
        self.eps.len() - 1
    }
    fn on(&mut self, f: &dyn Fn(u8) -> bool, to: usize) -> usize {
        let n = self.node(vec![]);
        self.byte[n] = Some((std::array::from_fn(|i| f(i as u8)), to));
        n
    }
    fn build(&mut self, r: &R, next: usize, rec: bool) -> usize {
        match r {
            R::Byte(v) => self.on(&|b| v.contains(&b), next),
            R::Not(x) => self.on(&|b| b != *x, next),
            R::Where(v, _) => {
                self.rough = true;
                self.on(&|b| v.contains(&b), next)
            }
            R::Unit => next,
            R::Ahead(..) => {
                self.rough = true;
                next
            }
            R::Cat(v) => v.iter().rev().fold(next, |n, x| self.build(x, n, rec)),
            R::Alt(v) => {
                let es: Vec<usize> = v.iter().map(|x| self.build(x, next, rec)).collect();
                if rec {
                    self.choices.push(es.clone());
                }
                self.node(es)
            }
            R::Many(x) | R::Some(x) => {
                let l = self.node(vec![]);
                let b = self.build(x, l, rec);
                self.eps[l] = vec![b, next];
                if rec {
                    self.choices.push(vec![b, next]);
                }
                if matches!(r, R::Some(_)) { b } else { l }
            }
            R::Count(n, x) => {
                if rec {
                    // the look-ahead inside a counted body sees an open-ended loop
                    let l = self.node(vec![]);
                    let b = self.build(x, l, true);
                    self.eps[l] = vec![b, next];
                }
                (0..*n).fold(next, |m, _| self.build(x, m, false))
            }
            R::Between(lo, hi, x) => {
                let es: Vec<usize> = (0..=*hi).map(|c| (0..c).fold(next, |m, _| self.build(x, m, false))).collect();
                let e = self.node(es[*lo..].to_vec());
                if rec {
                    self.choices.push(es);
                }
                e
            }
            R::Window(n, x) => {
                self.rough = true;
                if rec {
                    let e = self.node(vec![]);
                    self.build(x, e, true);
                }
                (0..*n).fold(next, |m, _| self.on(&|_| true, m))
            }
            R::When(v, _, x) => {
                self.rough = true;
                let b = self.build(x, next, rec);
                let n = self.node(vec![b, next]);
                self.on(&|b| v.contains(&b), n)
            }
            R::Named(x) => self.build(x, next, rec),
        }
    }
    /// Number of silent paths to each node that reads a byte or ends.
    fn close(&self, from: &[(usize, u64)], fuel: &mut u64) -> Option<Map> {
        let mut out = Map::new();
        let mut todo: Vec<(usize, u64)> = from.to_vec();
        while let Some((n, k)) = todo.pop() {
            *fuel = fuel.checked_sub(1)?;
            if self.byte[n].is_some() || n == END {
                let e = out.entry(n).or_insert(0);
                *e += k;
            }
            todo.extend(self.eps[n].iter().map(|m| (*m, k)));
        }
        Some(out)
    }
    /// Look-ahead that separates the alternatives: `Some(None)` when none does, `None` when the tree is too large.
    fn look(&self, alts: Vec<Map>, depth: usize, fuel: &mut u64, bytes: &[u8]) -> Option<Option<usize>> {
        if alts.iter().filter(|s| !s.is_empty()).count() <= 1 {
            return Some(Some(0));
        }
        if depth == 0 || !self.rough && alts.iter().filter(|s| s.contains_key(&END)).count() > 1 {
            return Some(None);
        }
        let paths: u64 = alts.iter().flat_map(|s| s.values()).fold(0, |a, b| a.saturating_add(*b));
        *fuel = fuel.checked_sub(paths)?;
        let mut need = Some(0);
        for &b in bytes {
            let mut nxt = vec![];
            for s in &alts {
                let step: Vec<(usize, u64)> = s.iter().filter_map(|(n, k)| self.byte[*n].as_ref().filter(|x| x.0[b as usize]).map(|x| (x.1, *k))).collect();
                nxt.push(self.close(&step, fuel)?);
            }
            match self.look(nxt, depth - 1, fuel, bytes)? {
                Some(d) => need = need.map(|n: usize| n.max(d + 1)),
                // go on: the order in which branches are explored is not ours to know
                None => need = None,
            }
        }
        Some(need)
    }
}

/// (look-ahead that settles every choice, exact?); nothing when the prediction tree would be very large
fn foresight(r: &R, sigma: &[u8]) -> Option<(Option<usize>, bool)> {
    let mut n = Nfa::default();
    let end = n.node(vec![]);
    assert_eq!(end, END);
    n.build(r, END, true);
    let mut bytes = sigma.to_vec();
    bytes.push((0..=255u8).find(|b| !sigma.contains(b)).unwrap());
    let mut worst = Some(0);
    let mut fuel = 60_000;
    for c in n.choices.clone() {
        let mut alts = vec![];
        for e in &c {
            alts.push(n.close(&[(*e, 1)], &mut fuel)?);
        }
        let need = n.look(alts, 80, &mut fuel, &bytes)?;
        worst = match (worst, need) {
            (Some(a), Some(b)) => Some(a.max(b)),
            _ => None,
        };
    }
    Some((worst, !n.rough))
}

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let sigma: Vec<u8> = match t.below(4) {
        0 => vec![0x61, 0x62],
        1 => vec![0x61, 0x62, 0x63, 0x64],
        2 => vec![0x00, 0xff, 0x80],
        _ => vec![0x61, 0x62, 0x63],
    };
    let mut g = G { sigma: &sigma, budget: t.range(2, 14) as usize };
    let depth = t.range(1, 4) as u32;
    let mut r = g.r(t, depth);
    if points(&r) == 0 {
        // nothing to decide yet: put the format next to another one
        let other = g.r(t, depth);
        r = match t.below(4) {
            0 => R::Alt(vec![r, other]),
            1 => R::Cat(vec![R::Many(Box::new(r)), other]),
            2 => R::Cat(vec![R::Some(Box::new(other)), r]),
            _ => R::Many(Box::new(R::Alt(vec![other, r]))),
        };
    }
    let choices = points(&r);
    if choices == 0 {
        return Outcome::Discard("no choice");
    }
    if choices > 9 {
        return Outcome::Discard("too large");
    }
    let mut low = Low { m: FormatModule::new(), n: 0 };
    let built = guarded(|| {
        let f = Format::Tuple(vec![low.f(&r), Format::EndOfInput]);
        f
    });
    let f = match built {
        Ok(f) => f,
        Err(_) => return Outcome::Discard("refused at definition"),
    };
    if cx.want_text {
        cx.text = format!("{r:?}");
    }
    if choices > 2 && has_rough(&r) {
        return Outcome::Discard("prediction tree too large");
    }
    let loops = has_nullable_loop(&r);
    let (need, exact) = if loops {
        if size(&r) > 9 || format!("{r:?}").split(|c: char| !c.is_alphanumeric()).filter(|w| matches!(*w, "Many" | "Some" | "Count" | "Between")).count() > 2 {
            return Outcome::Discard("large, with an empty loop body");
        }
        (None, false)
    } else {
        match foresight(&r, &sigma) {
            Some(x) => x,
            None => return Outcome::Discard("prediction tree too large"),
        }
    };
    let prog = match guarded(|| Compiler::compile_program(&low.m, &f)) {
        Ok(Ok(p)) => Some(p),
        _ => None,
    };
    let Some(prog) = prog else {
        if let (Some(k), true) = (need, exact) {
            if k <= 40 {
                return Outcome::fail("refuses-predictable", format!("{k} bytes of look-ahead settle every choice, yet the description is refused: {r:?}"));
            }
        }
        return Outcome::Pass { nontrivial: false, key: hash_bytes(format!("{r:?}").as_bytes()), classes: vec!["refused"], sub: 0 };
    };
    // inputs: all short strings, members, near-members
    let mut inputs: Vec<Vec<u8>> = vec![vec![]];
    let k = sigma.len();
    let mut from = 0;
    for _ in 0..7 {
        let upto = inputs.len();
        if upto + (upto - from) * k > 260 {
            break;
        }
        for i in from..upto {
            for &b in &sigma {
                let mut s = inputs[i].clone();
                s.push(b);
                inputs.push(s);
            }
        }
        from = upto;
    }
    for _ in 0..24 {
        let mut s = vec![];
        sample(&r, t, &mut s, &mut 40);
        if s.len() > 60 {
            continue;
        }
        let mut m = s.clone();
        match t.below(4) {
            0 if !m.is_empty() => {
                let i = t.below(m.len());
                m[i] = sigma[t.below(k)];
            }
            1 if !m.is_empty() => {
                m.remove(t.below(m.len()));
            }
            2 => m.insert(t.below(m.len() + 1), sigma[t.below(k)]),
            _ => m.push(t.byte()),
        }
        inputs.push(s);
        inputs.push(m);
    }
    let mut accepted = 0u64;
    let mut n = 0u64;
    for s in &inputs {
        let mut fuel = 6000;
        let Some(all) = derive(&r, s, 0, s.len(), &mut fuel) else { continue };
        let full: Vec<V> = all.into_iter().filter(|(_, p)| *p == s.len()).map(|(v, _)| V::Tuple(vec![v, VUNIT])).collect();
        n += 1;
        if full.len() > 1 {
            return Outcome::fail("ambiguous-compiles", format!("{r:?} compiles, yet {} matches in {} ways", hex(s), full.len()));
        }
        let got = guarded(|| prog.run(ReadCtxt::new(s)).map(|x| norm(&x.0)).map_err(|e| format!("{e:?}")));
        match (got, full.first()) {
            (Err(p), _) => return Outcome::fail(format!("panic:{}", panic_sig(&p)), format!("{p} on {} with {r:?}", hex(s))),
            (Ok(Err(_)), None) => {}
            (Ok(Ok(v)), Some(w)) if v == *w => accepted += 1,
            (Ok(Ok(v)), Some(w)) => return Outcome::fail("other-parse", format!("{} decodes to {v:?}, the only match is {w:?}; {r:?}", hex(s))),
            (Ok(Err(e)), Some(w)) => return Outcome::fail("rejects-member", format!("{} is rejected ({e}), but matches as {w:?}; {r:?}", hex(s))),
            (Ok(Ok(v)), None) => return Outcome::fail("accepts-nonmember", format!("{} decodes to {v:?} but does not match; {r:?}", hex(s))),
        }
    }
    Outcome::Pass {
        nontrivial: accepted >= 3 && n > accepted,
        key: hash_bytes(format!("{r:?}").as_bytes()),
        classes: vec![if need.is_some_and(|k| k <= 1) { "one-byte" } else { "deeper" }, if choices > 2 { "several-choices" } else { "few-choices" }],
        sub: n,
    }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C04", sub: "regular", rule: "compiles, has a choice or loop, and the inputs tried include at least three members and a non-member", quick: 1_200_000, thorough: 40_000_000, f: &case }]
}
