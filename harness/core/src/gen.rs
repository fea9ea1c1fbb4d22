//! Type-directed random generation of well-formed format descriptions.

use crate::ast::*;
use crate::tape::Tape;
use std::collections::BTreeMap;
use std::sync::Arc as Rc;

#[derive(Clone, Copy)]
pub struct Prof {
    /// restrict to what the code generator supports
    pub codegen: bool,
    pub fuel: i32,
    pub max_defs: usize,
    /// for the renderers: hidden field names, style hints only on what they describe
    pub render: bool,
}
impl Prof {
    pub fn render() -> Prof {
        Prof { render: true, ..Prof::interp() }
    }
    pub fn interp() -> Prof {
        Prof { codegen: false, fuel: 28, max_defs: 2, render: false }
    }
    pub fn codegen() -> Prof {
        Prof { codegen: true, fuel: 22, max_defs: 2, render: false }
    }
}

#[derive(Clone, Default)]
pub struct Cx {
    pub vars: Vec<(L, Ty)>,
    pub views: Vec<L>,
    pub codes: Vec<L>,
    pub bits: bool,
    /// nothing follows in the enclosing window
    pub closed: bool,
    /// inside a slice/view/decoded buffer window (affects only weights)
    pub depth: usize,
}
impl Cx {
    pub fn bind(&self, name: &L, ty: &Ty) -> Cx {
        let mut c = self.clone();
        c.vars.retain(|v| v.0 != *name);
        c.vars.push((name.clone(), ty.clone()));
        c
    }
    fn open(&self) -> Cx {
        Cx { closed: false, ..self.clone() }
    }
    fn close(&self) -> Cx {
        Cx { closed: true, ..self.clone() }
    }
}

pub struct G<'t> {
    pub t: &'t mut Tape,
    pub prof: Prof,
    pub defs: Vec<Def>,
    n: usize,
    fuel: i32,
}

fn b(e: E) -> Box<E> {
    Box::new(e)
}
fn fb(f: F) -> Box<F> {
    Box::new(f)
}
pub fn num(k: K, n: u64) -> E {
    E::U(k, n)
}
pub fn rel(r: Rel, a: E, c: E) -> E {
    E::Rel(r, b(a), b(c))
}
pub fn op(o: Op, a: E, c: E) -> E {
    E::Op(o, b(a), b(c))
}
pub fn var(l: &L) -> E {
    E::Var(l.clone())
}
fn prim(t: &Ty) -> bool {
    matches!(t, Ty::Bool | Ty::U(_) | Ty::Char)
}
const KS: [K; 4] = [K::U8, K::U16, K::U32, K::U64];

/// length range of what a successful parse consumes, when statically evident
pub fn minlen(f: &F, defs: &[Def]) -> u64 {
    match f {
        F::Byte(_) => 1,
        F::Int(k, _) => k.bits() as u64 / 8,
        F::Variant(_, f) | F::Hint(_, f) | F::Some(f) | F::Map(f, ..) | F::Where(f, ..) | F::Let(_, _, f) | F::LetView(_, f) | F::Repeat1(f) | F::UntilLast(_, _, f) | F::UntilSeq(_, _, f) | F::Huffman(_, _, _, f) => minlen(f, defs),
        F::Tuple(fs) | F::Sequence(fs) => fs.iter().map(|f| minlen(f, defs)).sum(),
        F::Record(fs) => fs.iter().map(|f| minlen(&f.2, defs)).sum(),
        F::Seq2(a, c) | F::LetF(a, _, c) => minlen(a, defs) + minlen(c, defs),
        F::Union(fs) | F::UnionND(fs) => fs.iter().map(|f| minlen(f, defs)).min().unwrap_or(0),
        F::Match(_, bs) => bs.iter().map(|x| minlen(&x.1, defs)).min().unwrap_or(0),
        F::Slice(E::U(_, n), _) => (*n).min(300),
        F::RepeatCount(E::U(_, n), f) => *n * minlen(f, defs),
        F::RepeatBetween(E::U(_, n), _, f) => *n * minlen(f, defs),
        F::Bits(f) => minlen(f, defs).div_ceil(8),
        F::Apply(_) => 1,
        F::Call(i, ..) => minlen(&defs[*i].body, defs),
        _ => 0,
    }
}

impl<'t> G<'t> {
    pub fn new(t: &'t mut Tape, prof: Prof) -> G<'t> {
        G { t, prof, defs: vec![], n: 0, fuel: prof.fuel }
    }

    fn name(&mut self, cx: &Cx, p: &str) -> L {
        if !self.prof.codegen && p == "x" && !cx.vars.is_empty() && self.t.chance(8) {
            return self.t.pick(&cx.vars).0.clone();
        }
        self.n += 1;
        L::from(format!("{p}{}", self.n))
    }

    // ------------------------------------------------------------ types
    /// the code generator has no pattern or coercion for units inside these
    fn inner_ty(&mut self, d: usize) -> Ty {
        let t = self.ty(d);
        if self.prof.codegen && t == UNIT { Ty::U(K::U8) } else { t }
    }

    pub fn ty(&mut self, d: usize) -> Ty {
        let w: &[u32] = if d == 0 { &[6, 3, 3, 2, 2, 1, 2, 0, 0, 0, 0, 0] } else { &[5, 2, 2, 2, 1, 1, 2, 4, 6, 5, 6, 4] };
        match self.t.weighted(w) {
            0 => Ty::U(K::U8),
            1 => Ty::U(K::U16),
            2 => Ty::U(K::U32),
            3 => Ty::U(K::U64),
            4 => Ty::Bool,
            5 => Ty::Char,
            6 => UNIT,
            7 => {
                let n = self.t.range(1, 3);
                let n = if n == 1 { 2 } else { n };
                if self.t.chance(15) {
                    let n = *self.t.pick(&[2, 4]);
                    return Ty::Tuple(vec![Ty::U(K::U8); n]);
                }
                Ty::Tuple((0..n).map(|_| self.ty(d - 1)).collect())
            }
            8 => {
                let n = self.t.range(1, 3);
                let o = self.t.below(3);
                let names = if self.prof.render { ["fa", "__fb", "_fc", "__fd", "fe"] } else { ["fa", "fb", "fc", "fd", "fe"] };
                Ty::Record((0..n).map(|i| (L::from(names[i + o]), self.ty(d - 1))).collect())
            }
            9 => {
                let n = self.t.range(2, 3);
                let o = self.t.below(3);
                let m: BTreeMap<L, Ty> = (0..n).map(|i| (L::from(["Va", "Vb", "Vc", "Vd", "Ve"][i + o]), self.payload(d - 1))).collect();
                Ty::Union(m)
            }
            10 => seq_ty(self.inner_ty(d - 1)),
            _ => opt_ty(self.inner_ty(d - 1)),
        }
    }

    fn as_char(&self, x: E, k: K) -> E {
        if self.prof.codegen && k != K::U32 { E::AsChar(b(E::As(K::U32, b(x)))) } else { E::AsChar(b(x)) }
    }

    /// a sequence to take apart: in generated code these are read in place, so a variable
    fn source(&mut self, cx: &Cx, t: &Ty, d: usize) -> Option<E> {
        if self.prof.codegen { self.some_path(cx, t) } else { Some(self.expr(cx, t, d)) }
    }

    /// stopping condition on an element
    fn until(&mut self, cx: &Cx, x: &L, t: &Ty, d: usize) -> E {
        if !self.prof.codegen {
            return self.expr(cx, &Ty::Bool, d);
        }
        // generated code sees the element by reference: comparisons of its parts only
        let c = Cx { vars: vec![(x.clone(), t.clone())], ..Cx::default() };
        for k in KS {
            if let Some(p) = self.some_path(&c, &Ty::U(k)) {
                let r = *self.t.pick(&[Rel::Eq, Rel::Ne, Rel::Lt, Rel::Gt, Rel::Le, Rel::Ge]);
                let n = self.t.edgy(k.bits());
                return rel(r, p, num(k, n));
            }
        }
        E::Bool(self.t.chance(50))
    }

    fn payload(&mut self, d: usize) -> Ty {
        let t = self.inner_ty(d);
        // the code generator wants a literal tuple under a variant with a tuple payload
        if self.prof.codegen && matches!(&t, Ty::Tuple(ts) if !ts.is_empty()) { opt_ty(Ty::U(K::U8)) } else { t }
    }

    // ------------------------------------------------------------ expressions

    /// access paths (variable plus projections) of exactly this type
    fn paths(&self, cx: &Cx, ty: &Ty) -> Vec<E> {
        fn go(e: E, t: &Ty, want: &Ty, out: &mut Vec<E>, d: usize) {
            if t == want {
                out.push(e.clone());
            }
            if d == 0 {
                return;
            }
            match t {
                Ty::Tuple(ts) => {
                    for (i, x) in ts.iter().enumerate() {
                        go(E::Proj(b(e.clone()), i), x, want, out, d - 1);
                    }
                }
                Ty::Record(fs) => {
                    for (l, x) in fs {
                        go(E::Field(b(e.clone()), l.clone()), x, want, out, d - 1);
                    }
                }
                _ => {}
            }
        }
        let mut out = vec![];
        for (l, t) in &cx.vars {
            go(var(l), t, ty, &mut out, 3);
        }
        out
    }

    fn some_path(&mut self, cx: &Cx, ty: &Ty) -> Option<E> {
        let ps = self.paths(cx, ty);
        if ps.is_empty() { None } else { Some(self.t.pick(&ps).clone()) }
    }

    pub fn expr(&mut self, cx: &Cx, ty: &Ty, d: usize) -> E {
        self.fuel -= 1;
        if self.t.chance(45) {
            if let Some(p) = self.some_path(cx, ty) {
                return p;
            }
        }
        let d = if self.fuel < -60 { 0 } else { d };
        if d == 0 {
            return self.expr_leaf(cx, ty);
        }
        // generic forms
        if self.t.chance(14) {
            match self.t.below(3) {
                0 => {
                    // match on an integer
                    let k = *self.t.pick(&KS);
                    let h = if self.prof.codegen { self.some_path(cx, &Ty::U(k)).unwrap_or(num(k, 1)) } else { self.expr(cx, &Ty::U(k), d - 1) };
                    return self.match_expr(cx, h, &Ty::U(k), ty, d - 1);
                }
                1 => {
                    let (h, ht) = self.head(cx, d - 1);
                    return self.match_expr(cx, h, &ht, ty, d - 1);
                }
                _ => {
                    // destructure a tuple
                    let n = self.t.range(2, 3);
                    let ts: Vec<Ty> = (0..n).map(|_| self.ty(0)).collect();
                    let h = self.expr(cx, &Ty::Tuple(ts.clone()), d - 1);
                    let mut c = cx.clone();
                    let ps = ts
                        .iter()
                        .map(|t| {
                            if self.t.chance(20) {
                                P::Wild
                            } else {
                                let x = self.name(cx, "y");
                                c = c.bind(&x, t);
                                P::Bind(x)
                            }
                        })
                        .collect();
                    let body = self.expr(&c, ty, d - 1);
                    return E::Destr(b(h), P::Tuple(ps), b(body));
                }
            }
        }
        match ty {
            Ty::Bool => match self.t.below(5) {
                0 => {
                    let k = *self.t.pick(&KS);
                    let r = *self.t.pick(&[Rel::Eq, Rel::Ne, Rel::Lt, Rel::Gt, Rel::Le, Rel::Ge]);
                    let x = self.expr(cx, &Ty::U(k), d - 1);
                    let y = self.expr(cx, &Ty::U(k), d - 1);
                    rel(r, x, y)
                }
                1 => {
                    let (x, y) = (self.expr(cx, ty, d - 1), self.expr(cx, ty, d - 1));
                    E::BoolAnd(b(x), b(y))
                }
                2 => {
                    let (x, y) = (self.expr(cx, ty, d - 1), self.expr(cx, ty, d - 1));
                    E::BoolOr(b(x), b(y))
                }
                3 => E::Not(b(self.expr(cx, ty, d - 1))),
                _ => {
                    let k = *self.t.pick(&KS);
                    let r = *self.t.pick(&[Rel::Eq, Rel::Ne, Rel::Lt, Rel::Gt, Rel::Le, Rel::Ge]);
                    let x = self.expr(cx, &Ty::U(k), d - 1);
                    let y = self.t.edgy(k.bits());
                    rel(r, x, num(k, y))
                }
            },
            Ty::U(k) => self.int_expr(cx, *k, d),
            Ty::Char => {
                let k = *self.t.pick(&[K::U8, K::U32]);
                let x = self.expr(cx, &Ty::U(k), d - 1);
                self.as_char(x, k)
            }
            Ty::Tuple(ts) => E::Tuple(ts.iter().map(|t| self.expr(cx, t, d - 1)).collect()),
            Ty::Record(fs) => E::Record(fs.iter().map(|(l, t)| (l.clone(), self.expr(cx, t, d - 1))).collect()),
            Ty::Union(_) => self.expr_leaf(cx, ty),
            Ty::Opt(t) => match self.t.below(3) {
                0 => E::Some(b(self.expr(cx, t, d - 1))),
                1 => {
                    // keyed search
                    let Some(s) = self.source(cx, &seq_ty((**t).clone()), d - 1) else { return self.expr_leaf(cx, ty) };
                    let x = self.name(cx, "y");
                    let c = cx.bind(&x, t);
                    let k = *self.t.pick(&KS);
                    // keys are read straight off the element in generated code
                    let key = if self.prof.codegen { self.some_path(&Cx { vars: vec![(x.clone(), (**t).clone())], ..Cx::default() }, &Ty::U(k)) } else { Some(self.expr(&c, &Ty::U(k), 1)) };
                    let Some(key) = key else { return self.expr_leaf(cx, ty) };
                    let q = self.expr(cx, &Ty::U(k), d - 1);
                    let sorted = self.t.chance(40);
                    E::Find(sorted, x, b(key), b(q), b(s))
                }
                _ => {
                    let c = self.expr(cx, &Ty::Bool, d - 1);
                    let y = self.expr(cx, t, d - 1);
                    E::Match(b(c), vec![(P::Bool(true), E::Some(b(y))), (P::Bool(false), E::None)])
                }
            },
            Ty::Seq(t) => self.seq_expr(cx, t, d),
        }
    }

    fn int_expr(&mut self, cx: &Cx, k: K, d: usize) -> E {
        let ty = Ty::U(k);
        let half = k.top() >> 1;
        let hib = half + 1;
        let quarter = k.top() >> (k.bits() / 2);
        let sub = |g: &mut Self| g.expr(cx, &ty, d - 1);
        match self.t.below(19) {
            0 => {
                let n = self.t.edgy(k.bits());
                num(k, n)
            }
            1 => {
                let (x, y) = (sub(self), sub(self));
                op(Op::And, x, y)
            }
            2 => {
                let (x, y) = (sub(self), sub(self));
                op(Op::Or, x, y)
            }
            3 => {
                let (x, y) = (sub(self), sub(self));
                op(Op::Add, op(Op::And, x, num(k, half)), op(Op::And, y, num(k, half)))
            }
            4 => {
                let (x, y) = (sub(self), sub(self));
                op(Op::Sub, op(Op::Or, x, num(k, hib)), op(Op::And, y, num(k, half)))
            }
            5 => {
                let (x, y) = (sub(self), sub(self));
                op(Op::Mul, op(Op::And, x, num(k, quarter)), op(Op::And, y, num(k, quarter)))
            }
            6 => {
                let (x, y) = (sub(self), sub(self));
                op(Op::Div, x, op(Op::Or, y, num(k, 1)))
            }
            7 => {
                let (x, y) = (sub(self), sub(self));
                op(Op::Rem, x, op(Op::Or, y, num(k, 1)))
            }
            8 => {
                let x = sub(self);
                let n = self.t.below(k.bits() as usize) as u64;
                op(Op::Shl, x, num(k, n))
            }
            9 => {
                let x = sub(self);
                let n = self.t.below(k.bits() as usize) as u64;
                op(Op::Shr, x, num(k, n))
            }
            10 => {
                let (x, y) = (sub(self), sub(self));
                let o = *self.t.pick(&[Op::Shr, Op::Shl]);
                if self.prof.codegen && self.t.chance(40) {
                    return op(o, x, op(Op::Shr, op(Op::And, y, num(k, 31)), num(k, 2)));
                }
                op(o, x, op(Op::And, y, num(k, 7)))
            }
            11 => E::Succ(b(op(Op::And, sub(self), num(k, k.top() - 1)))),
            12 => E::Pred(b(op(Op::Or, sub(self), num(k, 1)))),
            13 => {
                // cast
                let k2 = *self.t.pick(&KS);
                let x = self.expr(cx, &Ty::U(k2), d - 1);
                if k2.bits() <= k.bits() { E::As(k, b(x)) } else { E::As(k, b(op(Op::And, x, num(k2, k.top())))) }
            }
            14 if k != K::U8 => {
                let n = k.bits() as usize / 8;
                let be = self.t.chance(50);
                if let Some(p) = self.some_path(cx, &Ty::Tuple(vec![Ty::U(K::U8); n])) {
                    return E::End(k, be, b(p));
                }
                let t = E::Tuple((0..n).map(|_| self.expr(cx, &Ty::U(K::U8), if n > 4 { 0 } else { d - 1 })).collect());
                E::End(k, be, b(t))
            }
            15 => {
                let t = self.inner_ty(0);
                let s = self.expr(cx, &seq_ty(t), d - 1);
                if k == K::U32 { E::Len(b(s)) } else { E::As(k, b(op(Op::And, E::Len(b(s)), num(K::U32, 0x7f)))) }
            }
            16 => {
                // index
                let Some(s) = self.source(cx, &seq_ty(ty.clone()), d - 1) else { return self.expr_leaf(cx, &ty) };
                self.index(cx, s, &ty, d - 1)
            }
            17 => {
                // fold over a sequence
                let t = self.inner_ty(if d > 1 && !self.prof.codegen { 1 } else { 0 });
                let s = self.expr(cx, &seq_ty(t.clone()), d - 1);
                let (a, x) = (self.name(cx, "a"), self.name(cx, "y"));
                let c = cx.bind(&a, &ty).bind(&x, &t);
                let body = self.expr(&c, &ty, d - 1);
                let init = self.expr(cx, &ty, 0);
                E::Fold(a, x, b(body), b(init), ty, b(s))
            }
            _ => {
                // possibly partial arithmetic
                let (x, y) = (sub(self), sub(self));
                let o = *self.t.pick(&[Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem]);
                if self.t.chance(40) { op(o, x, y) } else { op(Op::Or, x, y) }
            }
        }
    }

    /// s[i mod len] or a default on the empty sequence
    fn index(&mut self, cx: &Cx, s: E, t: &Ty, d: usize) -> E {
        let dflt = self.expr(cx, t, d.min(1));
        let i = self.expr(cx, &Ty::U(K::U32), d.min(1));
        let z = self.name(cx, "z");
        let body = E::Ix(b(s.clone()), b(op(Op::Rem, i, var(&z))));
        E::Match(b(E::Len(b(s))), vec![(P::U(K::U32, 0), dflt), (P::Bind(z), body)])
    }

    fn seq_expr(&mut self, cx: &Cx, t: &Rc<Ty>, d: usize) -> E {
        let st = Ty::Seq(t.clone());
        match self.t.below(12) {
            0 => {
                let n = self.t.range(1, 3);
                E::Seq((0..n).map(|_| self.expr(cx, t, d - 1)).collect())
            }
            1 => {
                let n = self.small_int(cx, K::U32, 4);
                let x = self.expr(cx, t, d - 1);
                E::Dup(b(n), b(x))
            }
            2 | 3 => {
                // flat-map over another sequence
                let mut u = if self.t.chance(50) { (**t).clone() } else { self.inner_ty(0) };
                if self.prof.codegen && !prim(&u) {
                    u = self.inner_ty(0);
                }
                let s = self.expr(cx, &seq_ty(u.clone()), d - 1);
                let x = self.name(cx, "y");
                let c = cx.bind(&x, &u);
                let body = self.expr(&c, &st, d - 1);
                E::FlatMap(x, b(body), b(s))
            }
            4 if !self.prof.codegen => {
                // flat-map over an integer range
                let lo = self.small_int(cx, K::U32, 3);
                let hi = self.small_int(cx, K::U32, 6);
                let x = self.name(&Cx::default(), "y");
                let y = self.name(cx, "z");
                let c = cx.bind(&y, &Ty::U(K::U32));
                let body = self.expr(&c, &st, d - 1);
                let body = E::Destr(b(E::As(K::U32, b(var(&x)))), P::Bind(y), b(body));
                E::FlatMap(x, b(body), b(E::Range(b(lo), b(hi))))
            }
            5 => {
                let u = self.inner_ty(0);
                let at = Ty::U(*self.t.pick(&KS));
                let s = self.expr(cx, &seq_ty(u.clone()), d - 1);
                let (a, x) = (self.name(cx, "a"), self.name(cx, "y"));
                let c = cx.bind(&a, &at).bind(&x, &u);
                let na = self.expr(&c, &at, d - 1);
                let ns = self.expr(&c, &st, d - 1);
                let init = self.expr(cx, &at, 0);
                E::FlatMapAccum(a, x, b(E::Tuple(vec![na, ns])), b(init), at, b(s))
            }
            6 if !self.prof.codegen => {
                let u = self.inner_ty(0);
                let s = self.expr(cx, &seq_ty(u.clone()), d - 1);
                let (a, x) = (self.name(cx, "a"), self.name(cx, "y"));
                let c = cx.bind(&a, &st).bind(&x, &u);
                let ns = self.expr(&c, &st, d - 1);
                E::FlatMapList(a, x, b(ns), (**t).clone(), b(s))
            }
            7 if !self.prof.codegen => {
                let (x, y) = match (self.source(cx, &st, d - 1), self.source(cx, &st, d - 1)) {
                    (Some(x), Some(y)) => (x, y),
                    _ => return self.expr_leaf(cx, &st),
                };
                E::Append(b(x), b(y))
            }
            8 | 9 => {
                // sub-sequence with lengths derived from the sequence
                let Some(s) = self.source(cx, &st, d - 1) else { return self.expr_leaf(cx, &st) };
                let z = self.name(cx, "z");
                let i = self.small_int(cx, K::U32, 5);
                let len = E::Len(b(s.clone()));
                let w = self.name(cx, "z");
                // start = i mod (len+1); count = len - start (or one less when possible)
                let cnt = match self.t.below(3) {
                    0 => op(Op::Sub, var(&z), var(&w)),
                    1 => op(Op::Div, op(Op::Sub, var(&z), var(&w)), num(K::U32, 2)),
                    _ => num(K::U32, 0),
                };
                let body = E::SubSeq(b(s), b(var(&w)), b(cnt));
                E::Destr(b(len), P::Bind(z.clone()), b(E::Destr(b(op(Op::Rem, i, E::Succ(b(var(&z))))), P::Bind(w), b(body))))
            }
            10 => {
                let Some(s) = self.source(cx, &st, d - 1) else { return self.expr_leaf(cx, &st) };
                let z = self.name(cx, "z");
                let i = self.small_int(cx, K::U32, 5);
                let n = self.small_int(cx, K::U32, 7);
                let dflt = self.expr(cx, &st, 0);
                E::Match(
                    b(E::Len(b(s.clone()))),
                    vec![(P::U(K::U32, 0), dflt), (P::Bind(z.clone()), E::Inflate(b(s), b(op(Op::Rem, i, var(&z))), b(n)))],
                )
            }
            _ => {
                let u = self.inner_ty(0);
                let s = self.expr(cx, &opt_ty(u.clone()), d - 1);
                let y = self.name(cx, "y");
                let c = cx.bind(&y, &u);
                let a = self.expr(&c, &st, d - 1);
                let z = self.expr(cx, &st, d - 1);
                E::Match(b(s), vec![(P::Some(Box::new(P::Bind(y))), a), (P::None, z)])
            }
        }
    }

    fn head(&mut self, cx: &Cx, d: usize) -> (E, Ty) {
        if !cx.vars.is_empty() && self.t.chance(70) {
            let n = cx.vars.len();
            let (l, t) = if self.t.chance(50) { cx.vars[n - 1].clone() } else { self.t.pick(&cx.vars).clone() };
            return (var(&l), t);
        }
        if self.prof.codegen {
            return (num(K::U8, 7), Ty::U(K::U8));
        }
        let ht = self.ty(1);
        (self.expr(cx, &ht, d), ht)
    }

    fn match_expr(&mut self, cx: &Cx, h: E, ht: &Ty, ty: &Ty, d: usize) -> E {
        let bs = self.arms(cx, ht);
        E::Match(b(h), bs.into_iter().map(|(p, c)| (p, self.expr(&c, ty, d))).collect())
    }

    /// exhaustive arms for a head type
    fn arms(&mut self, cx: &Cx, ht: &Ty) -> Vec<(P, Cx)> {
        let mut out = vec![];
        match ht {
            Ty::Bool if self.t.chance(60) => {
                out.push((P::Bool(true), cx.clone()));
                out.push((P::Bool(false), cx.clone()));
                return out;
            }
            Ty::Opt(t) if self.t.chance(60) => {
                let (p, c) = self.pat(cx, t, 1, true);
                out.push((P::Some(Box::new(p)), c));
                out.push((P::None, cx.clone()));
                return out;
            }
            Ty::Union(bs) if self.t.chance(60) => {
                for (l, t) in bs {
                    let (p, c) = self.pat(cx, t, 1, true);
                    out.push((P::Variant(l.clone(), Box::new(p)), c));
                }
                return out;
            }
            _ => {}
        }
        let n = self.t.range(1, 3);
        for _ in 0..n {
            let (p, c) = self.pat(cx, ht, 2, false);
            out.push((p, c));
        }
        if self.t.chance(50) || self.prof.codegen && !prim(ht) {
            out.push((P::Wild, cx.clone()));
        } else {
            let x = self.name(cx, "y");
            let c = cx.bind(&x, ht);
            out.push((P::Bind(x), c));
        }
        out
    }

    fn pat(&mut self, cx: &Cx, t: &Ty, d: usize, irrefutable: bool) -> (P, Cx) {
        if irrefutable || d == 0 || self.t.chance(20) {
            if let (Ty::Tuple(ts), true) = (t, self.t.chance(40)) {
                if d > 0 && !ts.is_empty() {
                    let mut c = cx.clone();
                    let mut ps = vec![];
                    for t in ts {
                        let (p, c2) = self.pat(&c, t, d - 1, irrefutable);
                        c = c2;
                        ps.push(p);
                    }
                    return (P::Tuple(ps), c);
                }
            }
            // in generated code a binding moves the value unless it is a plain one
            if self.t.chance(30) || self.prof.codegen && !prim(t) {
                return (P::Wild, cx.clone());
            }
            let x = self.name(&Cx::default(), "y");
            let c = cx.bind(&x, t);
            return (P::Bind(x), c);
        }
        match t {
            Ty::Bool => (P::Bool(self.t.chance(50)), cx.clone()),
            Ty::U(k) => match self.t.below(3) {
                0 => {
                    let n = if self.t.chance(60) { self.t.draw(3) } else { self.t.edgy(k.bits()) };
                    (P::U(*k, n), cx.clone())
                }
                1 => {
                    let a = self.t.draw(40);
                    let w = self.t.draw(200);
                    (P::Int(a, Some((a + w).min(k.top()))), cx.clone())
                }
                _ => {
                    let a = self.t.edgy(k.bits());
                    (P::Int(a, if self.prof.codegen { Some(k.top()) } else { None }), cx.clone())
                }
            },
            Ty::Char => (P::Char(*self.t.pick(&['a', 'b', '\0', 'é', '\u{7f}'])), cx.clone()),
            Ty::Tuple(ts) if !ts.is_empty() => {
                let mut c = cx.clone();
                let mut ps = vec![];
                for t in ts {
                    let (p, c2) = self.pat(&c, t, d - 1, false);
                    c = c2;
                    ps.push(p);
                }
                (P::Tuple(ps), c)
            }
            Ty::Union(bs) => {
                let ls: Vec<_> = bs.iter().collect();
                let (l, t) = *self.t.pick(&ls);
                let (p, c) = self.pat(cx, t, d - 1, false);
                (P::Variant(l.clone(), Box::new(p)), c)
            }
            Ty::Seq(_) if self.prof.codegen && d < 2 => (P::Wild, cx.clone()),
            Ty::Seq(t) => {
                let n = self.t.below(4);
                let mut c = cx.clone();
                let mut ps = vec![];
                for _ in 0..n {
                    let (p, c2) = self.pat(&c, t, d - 1, false);
                    if self.prof.codegen && format!("{p:?}").contains("Bind(") {
                        ps.push(P::Wild);
                        continue;
                    }
                    c = c2;
                    ps.push(p);
                }
                (P::Seq(ps), c)
            }
            Ty::Opt(t) => {
                if self.t.chance(35) {
                    (P::None, cx.clone())
                } else {
                    let (p, c) = self.pat(cx, t, d - 1, false);
                    (P::Some(Box::new(p)), c)
                }
            }
            _ => (P::Wild, cx.clone()),
        }
    }

    pub fn small_int(&mut self, cx: &Cx, k: K, max: u64) -> E {
        match self.t.below(4) {
            0 | 1 => {
                let n = self.t.draw(max + 1);
                num(k, n)
            }
            2 => {
                let ks: Vec<K> = KS.iter().copied().filter(|k2| k2.bits() <= k.bits()).collect();
                for _ in 0..2 {
                    let k2 = *self.t.pick(&ks);
                    if let Some(p) = self.some_path(cx, &Ty::U(k2)) {
                        let p = if k2 == k { p } else { E::As(k, b(p)) };
                        return op(Op::Rem, p, num(k, max + 1));
                    }
                }
                num(k, 1)
            }
            _ => {
                for (l, t) in cx.vars.iter().rev() {
                    if let Ty::Seq(_) = t {
                        let e = op(Op::Rem, E::Len(b(var(l))), num(K::U32, max + 1));
                        return if k == K::U32 { e } else { E::As(k, b(e)) };
                    }
                }
                num(k, 2.min(max))
            }
        }
    }

    fn expr_leaf(&mut self, cx: &Cx, ty: &Ty) -> E {
        if self.t.chance(70) {
            if let Some(p) = self.some_path(cx, ty) {
                return p;
            }
        }
        match ty {
            Ty::Bool => E::Bool(self.t.chance(50)),
            Ty::U(k) => {
                let n = self.t.edgy(k.bits());
                num(*k, n)
            }
            Ty::Char => {
                let n = self.t.range(32, 126) as u64;
                self.as_char(num(K::U8, n), K::U8)
            }
            Ty::Tuple(ts) => E::Tuple(ts.iter().map(|t| self.expr_leaf(cx, t)).collect()),
            Ty::Record(fs) => E::Record(fs.iter().map(|(l, t)| (l.clone(), self.expr_leaf(cx, t))).collect()),
            Ty::Union(bs) => {
                // a match covering every label, so that the inferred type is the whole union
                let h = match self.some_path(cx, &Ty::U(K::U8)) {
                    Some(p) => op(Op::Rem, p, num(K::U8, bs.len() as u64)),
                    None => {
                        let n = self.t.below(bs.len()) as u64;
                        num(K::U8, n)
                    }
                };
                let n = bs.len();
                let arms = bs
                    .iter()
                    .enumerate()
                    .map(|(i, (l, t))| {
                        let e = E::Variant(l.clone(), b(self.expr_leaf(cx, t)));
                        (if i + 1 == n { P::Wild } else { P::U(K::U8, i as u64) }, e)
                    })
                    .collect();
                E::Match(b(h), arms)
            }
            Ty::Seq(t) => {
                if self.t.chance(70) {
                    let n = self.t.range(1, 3);
                    E::Seq((0..n).map(|_| self.expr_leaf(cx, t)).collect())
                } else {
                    let n = self.t.draw(3);
                    E::Dup(b(num(K::U32, n)), b(self.expr_leaf(cx, t)))
                }
            }
            Ty::Opt(t) => {
                let c = self.expr_leaf(cx, &Ty::Bool);
                let y = self.expr_leaf(cx, t);
                if self.t.chance(50) { E::Some(b(y)) } else { E::Match(b(c), vec![(P::Bool(true), E::Some(b(y))), (P::Bool(false), E::None)]) }
            }
        }
    }

    // ------------------------------------------------------------ formats

    fn byteset(&mut self, bits: bool) -> BS {
        if bits {
            return match self.t.below(4) {
                0 | 1 => {
                    let mut s = BS::one(0);
                    s.add(1);
                    s
                }
                2 => BS::one(0),
                _ => BS::one(1),
            };
        }
        match self.t.below(5) {
            0 | 1 => BS::full(),
            2 => BS::one(self.t.byte()),
            3 => {
                let lo = self.t.byte();
                let w = self.t.range(1, 60) as u8;
                let mut s = BS::empty();
                for x in lo..=lo.saturating_add(w) {
                    s.add(x);
                }
                s
            }
            _ => {
                let mut s = BS::empty();
                for _ in 0..self.t.range(1, 4) {
                    let x = self.t.byte();
                    s.add(x);
                }
                if self.t.chance(30) { s.inv() } else { s }
            }
        }
    }

    /// n pairwise-distinguishable guard strings
    pub fn guards(&mut self, n: usize, bits: bool) -> Vec<Vec<BS>> {
        if bits {
            return match n {
                0 | 1 => vec![vec![BS::one(0)]],
                2 => vec![vec![BS::one(0)], vec![BS::one(1)]],
                _ => vec![vec![BS::one(0)], vec![BS::one(1), BS::one(0)], vec![BS::one(1), BS::one(1)]],
            };
        }
        let base = self.t.byte();
        let step = self.t.range(1, 20) as u8;
        let heads: Vec<BS> = (0..n)
            .map(|i| {
                let x = base.wrapping_add(step.wrapping_mul(i as u8));
                let mut s = BS::one(x);
                // widen within the step, keeping disjoint
                if step > 1 && step as usize * n < 250 && self.t.chance(30) {
                    for d in 1..step.min(6) {
                        s.add(x.wrapping_add(d));
                    }
                }
                s
            })
            .collect();
        match self.t.below(4) {
            // shared prefix: deeper lookahead
            0 => {
                let pre: Vec<BS> = (0..self.t.range(1, 2)).map(|_| self.byteset(false)).collect();
                heads
                    .into_iter()
                    .map(|h| {
                        let mut v = pre.clone();
                        v.push(h);
                        v
                    })
                    .collect()
            }
            _ => heads.into_iter().map(|h| vec![h]).collect(),
        }
    }

    fn guarded(&mut self, g: Vec<BS>, body: F) -> F {
        let mut f = body;
        for s in g.into_iter().rev() {
            f = F::Seq2(fb(F::Byte(s)), fb(f));
        }
        f
    }

    /// a format of type `t` that always consumes, starting with `g`
    fn nonempty(&mut self, cx: &Cx, t: &Ty, g: Option<Vec<BS>>) -> F {
        let g = match g {
            Some(g) => g,
            None => vec![self.byteset(cx.bits)],
        };
        if *t == Ty::U(K::U8) && g.len() == 1 && self.t.chance(70) {
            return F::Byte(g[0]);
        }
        let body = self.fmt(cx, t);
        self.guarded(g, body)
    }

    pub fn leaf(&mut self, cx: &Cx, ty: &Ty) -> F {
        match ty {
            Ty::U(K::U8) => F::Byte(self.byteset(cx.bits)),
            Ty::U(k) if !cx.bits => {
                if self.t.chance(80) {
                    let be = self.t.chance(50);
                    F::Int(*k, be)
                } else {
                    F::Compute(self.expr_leaf(cx, ty))
                }
            }
            Ty::Tuple(ts) => F::Tuple(ts.iter().map(|t| self.leaf(&cx.open(), t)).collect()),
            Ty::Record(fs) => {
                let mut c = cx.open();
                let mut out = vec![];
                for (l, t) in fs {
                    let f = self.leaf(&c, t);
                    c = c.bind(l, t);
                    out.push((l.clone(), 0, f));
                }
                F::Record(out)
            }
            Ty::Union(bs) => {
                let gs = self.guards(bs.len(), cx.bits);
                F::Union(
                    bs.iter()
                        .zip(gs)
                        .map(|((l, t), g)| {
                            let f = self.leaf(&cx.open(), t);
                            let f = self.guarded(g, f);
                            F::Variant(l.clone(), fb(f))
                        })
                        .collect(),
                )
            }
            Ty::Seq(t) => {
                let n = self.t.range(0, 3) as u64;
                F::RepeatCount(num(K::U8, n), fb(self.leaf(&cx.open(), t)))
            }
            Ty::Opt(t) => {
                let c = self.expr(cx, &Ty::Bool, 1);
                F::Maybe(c, fb(self.leaf(&cx.open(), t)))
            }
            Ty::Char => {
                let x = self.name(cx, "x");
                {
                    let e = self.as_char(var(&x), K::U8);
                    F::Map(fb(F::Byte(self.byteset(cx.bits))), x.clone(), e)
                }
            }
            Ty::Bool => {
                let x = self.name(cx, "x");
                let n = if cx.bits { 0 } else { self.t.byte() as u64 };
                F::Map(fb(F::Byte(self.byteset(cx.bits))), x.clone(), rel(Rel::Gt, var(&x), num(K::U8, n)))
            }
            _ => F::Compute(self.expr_leaf(cx, ty)),
        }
    }

    /// length or first bytes of a captured stretch
    fn capture_len(&mut self, cx: &Cx) -> F {
        let kk = *self.t.pick(&KS);
        let n = self.small_int(cx, kk, 6);
        let x = self.name(&Cx::default(), "q");
        let e = E::Len(b(var(&x)));
        if !cx.views.is_empty() && self.t.chance(60) {
            let v = self.view(cx);
            return F::Map(fb(F::Capture(v, n)), x, e);
        }
        let w = self.name(&Cx::default(), "v");
        let mut ve = VE { var: w.clone(), offs: vec![] };
        if self.t.chance(40) {
            let o = self.small_int(cx, kk, 3);
            ve.offs.push(o);
        }
        F::LetView(w, fb(F::Map(fb(F::Capture(ve, n)), x, e)))
    }

    pub fn fmt(&mut self, cx: &Cx, ty: &Ty) -> F {
        self.fuel -= 1;
        if self.fuel <= 0 || cx.depth > 9 {
            return self.leaf(cx, ty);
        }
        let mut cx = cx.clone();
        cx.depth += 1;
        let cx = &cx;
        let generic = match ty {
            Ty::Bool | Ty::Char => 70,
            Ty::U(_) => 60,
            Ty::Tuple(ts) if ts.is_empty() => 55,
            _ => 45,
        };
        if self.t.chance(generic) {
            if let Some(f) = self.generic(cx, ty) {
                return f;
            }
        }
        match ty {
            Ty::Tuple(ts) if ts.is_empty() => self.unit(cx),
            Ty::U(K::U16) if cx.bits && !cx.codes.is_empty() && self.t.chance(70) => {
                let c = self.t.pick(&cx.codes).clone();
                F::Apply(c)
            }
            Ty::U(K::U64) if !cx.bits && self.t.chance(30) => {
                // the type of a position is left open by the checker; pin it
                let x = self.name(&Cx::default(), "p");
                F::Map(fb(F::Pos), x.clone(), E::As(K::U64, b(var(&x))))
            }
            Ty::U(K::U32) if self.prof.codegen && !cx.bits && self.t.chance(25) => self.capture_len(cx),
            Ty::U(_) | Ty::Bool | Ty::Char => self.leaf(cx, ty),
            Ty::Tuple(ts) => {
                if let [at, Ty::Seq(t)] = &ts[..] {
                    if self.t.chance(45) && !matches!(at, Ty::Union(_) | Ty::Opt(_)) && !(self.prof.codegen && !prim(at)) {
                        return self.accum(cx, at, t);
                    }
                }
                let n = ts.len();
                F::Tuple(ts.iter().enumerate().map(|(i, t)| if i + 1 == n { self.fmt(cx, t) } else { self.fmt(&cx.open(), t) }).collect())
            }
            Ty::Record(fs) => self.record(cx, fs),
            Ty::Union(bs) => {
                let gs = self.guards(bs.len(), cx.bits);
                let nd = self.t.chance(25);
                let mut arms: Vec<F> = vec![];
                for ((l, t), g) in bs.iter().zip(gs) {
                    let f = if nd && self.t.chance(60) { self.fmt(&cx.open(), t) } else { self.nonempty(cx, t, Some(g)) };
                    arms.push(F::Variant(l.clone(), fb(f)));
                }
                if nd && self.t.chance(50) {
                    arms.reverse();
                }
                if nd { F::UnionND(arms) } else { F::Union(arms) }
            }
            Ty::Seq(t) => self.seq(cx, t),
            Ty::Opt(t) => self.opt(cx, t),
        }
    }

    fn unit(&mut self, cx: &Cx) -> F {
        match self.t.below(6) {
            0 => F::Tuple(vec![]),
            1 if !cx.bits => F::Align(*self.t.pick(&[1, 2, 3, 4, 8])),
            2 if cx.closed && !(cx.bits && self.prof.codegen) => F::SkipRem,
            3 if cx.closed => F::Eoi,
            4 => {
                let inner = match self.t.below(3) {
                    0 => F::Byte(self.byteset(cx.bits)),
                    1 => F::Tuple(vec![F::Byte(self.byteset(cx.bits)), F::Byte(self.byteset(cx.bits))]),
                    _ => {
                        let x = self.name(cx, "x");
                        let c = cx.bind(&x, &Ty::U(K::U8));
                        let e = self.expr(&c, &Ty::Bool, 1);
                        F::Where(fb(F::Byte(self.byteset(cx.bits))), x, e, true)
                    }
                };
                F::PeekNot(fb(inner))
            }
            _ => {
                let t = self.ty(0);
                let f = self.fmt(cx, &t);
                let x = self.name(cx, "x");
                F::Map(fb(f), x, E::Tuple(vec![]))
            }
        }
    }

    fn record(&mut self, cx: &Cx, fs: &[(L, Ty)]) -> F {
        let mut c = cx.open();
        let mut out = vec![];
        let n = fs.len();
        for (i, (l, t)) in fs.iter().enumerate() {
            if self.t.chance(20) {
                // a temporary or discarded field first
                if self.t.chance(50) {
                    let tt = self.ty(1);
                    let f = self.fmt(&c, &tt);
                    let x = L::from(format!("t{}", self.n));
                    self.n += 1;
                    c = c.bind(&x, &tt);
                    out.push((x, 1, f));
                } else {
                    let tt = self.ty(0);
                    let f = self.fmt(&c, &tt);
                    self.n += 1;
                    out.push((L::from(format!("d{}", self.n)), 2, f));
                }
            }
            let last = i + 1 == n;
            let cc = if last && cx.closed { c.close() } else { c.clone() };
            // an unterminated repetition may be kept as a field followed by its terminator
            if let (Ty::Seq(et), true) = (t, self.t.chance(20)) {
                let gs = self.guards(2, cx.bits);
                let body = self.nonempty(&c, et, Some(vec![gs[0][0]]));
                if gs[0][0].and(&gs[1][0]).is_empty() {
                    let f = if self.t.chance(50) { F::Repeat(fb(body)) } else { F::Repeat1(fb(body)) };
                    out.push((l.clone(), 0, f));
                    c = c.bind(l, t);
                    self.n += 1;
                    out.push((L::from(format!("d{}", self.n)), 2, F::Byte(gs[1][0])));
                    continue;
                }
            }
            let f = self.fmt(&cc, t);
            c = c.bind(l, t);
            out.push((l.clone(), 0, f));
        }
        F::Record(out)
    }

    fn accum(&mut self, cx: &Cx, at: &Ty, t: &Rc<Ty>) -> F {
        let (a, s, x) = (self.name(cx, "a"), self.name(cx, "s"), self.name(cx, "y"));
        let init = self.expr_leaf(cx, at);
        let c = cx.bind(&a, at).bind(&s, &Ty::Seq(t.clone()));
        let n = self.t.draw(4);
        let stop = rel(Rel::Ge, E::Len(b(var(&s))), num(K::U32, n));
        let done = if self.t.chance(60) {
            stop
        } else {
            let e = self.expr(&c, &Ty::Bool, 1);
            E::BoolOr(b(e), b(stop))
        };
        let c2 = cx.bind(&a, at).bind(&x, t);
        let upd = self.expr(&c2, at, 2);
        let f = self.nonempty(&cx.open(), t, None);
        F::AccumUntil { a, s, x, done, upd, init, ty: at.clone(), f: fb(f) }
    }

    fn seq(&mut self, cx: &Cx, t: &Rc<Ty>) -> F {
        let o = cx.open();
        match self.t.below(12) {
            0 | 1 => {
                let k = *self.t.pick(&KS);
                if !self.prof.codegen && self.t.chance(3) {
                    // far more than any input holds: a plain rejection
                    let x = self.name(&Cx::default(), "n");
                    let n = self.t.edgy(64).max(1 << 20);
                    let f = self.nonempty(&o, t, None);
                    return F::Let(x.clone(), num(K::U64, n), fb(F::RepeatCount(var(&x), fb(f))));
                }
                let n = self.small_int(cx, k, 5);
                F::RepeatCount(n, fb(self.fmt(&o, t)))
            }
            2 | 3 => {
                // greedy repetition
                let gs = self.guards(2, cx.bits);
                let (g0, g1) = (gs[0][0], gs[1][0]);
                if !g0.and(&g1).is_empty() {
                    return self.leaf(cx, &Ty::Seq(t.clone()));
                }
                let kind = self.t.below(3);
                // bounded repetition predicts several elements ahead: plain bodies only
                let body = if kind == 2 {
                    if **t == Ty::U(K::U8) {
                        F::Byte(g0)
                    } else {
                        F::Seq2(fb(F::Byte(g0)), fb(F::Compute(self.expr_leaf(&o, t))))
                    }
                } else {
                    self.nonempty(&o, t, Some(vec![g0]))
                };
                let f = match kind {
                    0 => F::Repeat(fb(body)),
                    1 => F::Repeat1(fb(body)),
                    _ => {
                        let lo = self.t.draw(3);
                        let hi = lo + self.t.draw(4);
                        let k = *self.t.pick(&KS);
                        F::RepeatBetween(num(k, lo), num(k, hi), fb(body))
                    }
                };
                if cx.closed && self.t.chance(70) {
                    return f;
                }
                let x = self.name(cx, "x");
                F::LetF(fb(f), x.clone(), fb(F::Seq2(fb(F::Byte(g1)), fb(F::Compute(var(&x))))))
            }
            4 => {
                let x = self.name(cx, "x");
                let c = cx.bind(&x, t);
                let e = self.until(&c, &x, t, 2);
                F::UntilLast(x, e, fb(self.nonempty(&o, t, None)))
            }
            5 => {
                let x = self.name(cx, "x");
                let c = cx.bind(&x, &Ty::Seq(t.clone()));
                let n = self.t.range(1, 4) as u64;
                let stop = rel(Rel::Ge, E::Len(b(var(&x))), num(K::U32, n));
                let e = if self.prof.codegen { E::Bool(false) } else { self.expr(&c, &Ty::Bool, 2) };
                let e = if self.t.chance(50) { stop } else { E::BoolOr(b(e), b(stop)) };
                F::UntilSeq(x, e, fb(self.nonempty(&o, t, None)))
            }
            6 | 7 => {
                // for-each over a sequence expression
                let range = self.t.chance(20);
                let x = if range { self.name(&Cx::default(), "x") } else { self.name(cx, "x") };
                if range {
                    let lo = self.small_int(cx, K::U32, 3);
                    let hi = self.small_int(cx, K::U32, 6);
                    let z = self.name(cx, "z");
                    let c = o.bind(&z, &Ty::U(K::U32));
                    let f = self.fmt(&c, t);
                    return F::ForEach(E::Range(b(lo), b(hi)), x.clone(), fb(F::Let(z, E::As(K::U32, b(var(&x))), fb(f))));
                }
                let u = self.inner_ty(if self.prof.codegen { 0 } else { 1 });
                let s = self.expr(cx, &seq_ty(u.clone()), 2);
                let c = o.bind(&x, &u);
                F::ForEach(s, x, fb(self.fmt(&c, t)))
            }
            8 => {
                let n = self.t.range(1, 3);
                F::Sequence((0..n).map(|i| if i + 1 == n { self.fmt(cx, t) } else { self.fmt(&o, t) }).collect())
            }
            9 | 10 if !cx.bits => {
                let Ty::U(k) = **t else { return self.leaf(cx, &Ty::Seq(t.clone())) };
                if self.prof.codegen {
                    // a capture is a borrowed slice in generated code: see `capture_len`
                    return self.leaf(cx, &Ty::Seq(t.clone()));
                }
                let kk = *self.t.pick(&KS);
                let n = if !self.prof.codegen && self.t.chance(4) { num(K::U64, self.t.edgy(64).max(1 << 20)) } else { self.small_int(cx, kk, 6) };
                if !cx.views.is_empty() && self.t.chance(60) {
                    let v = self.view(cx);
                    return if k == K::U8 && self.t.chance(60) { F::Capture(v, n) } else { F::ReadArray(v, n, k) };
                }
                let w = L::from(format!("v{}", self.n));
                self.n += 1;
                let mut ve = VE { var: w.clone(), offs: vec![] };
                if self.t.chance(40) {
                    let o = self.small_int(cx, kk, 3);
                    ve.offs.push(o);
                }
                let f = if k == K::U8 && self.t.chance(60) { F::Capture(ve, n) } else { F::ReadArray(ve, n, k) };
                F::LetView(w, fb(f))
            }
            _ => {
                let st = Ty::Seq(t.clone());
                F::Compute(self.expr(cx, &st, 2))
            }
        }
    }

    fn view(&mut self, cx: &Cx) -> VE {
        let var = self.t.pick(&cx.views).clone();
        let mut offs = vec![];
        while offs.len() < 2 && self.t.chance(40) {
            let k = *self.t.pick(&KS);
            offs.push(self.small_int(cx, k, 4));
        }
        VE { var, offs }
    }

    fn opt(&mut self, cx: &Cx, t: &Rc<Ty>) -> F {
        let o = cx.open();
        match self.t.below(6) {
            0 | 1 => {
                let e = self.expr(cx, &Ty::Bool, 2);
                F::Maybe(e, fb(self.fmt(&o, t)))
            }
            2 | 3 => {
                // optional, guarded by its first byte
                let gs = self.guards(2, cx.bits);
                let (g0, g1) = (gs[0][0], gs[1][0]);
                if !g0.and(&g1).is_empty() {
                    return F::Some(fb(self.fmt(cx, t)));
                }
                if cx.closed && self.t.chance(60) {
                    let f = self.nonempty(cx, t, Some(vec![g0]));
                    return F::Union(vec![F::Some(fb(f)), F::None]);
                }
                let f = self.nonempty(&o, t, Some(vec![g0]));
                let x = self.name(cx, "x");
                F::LetF(fb(F::Union(vec![F::Some(fb(f)), F::None])), x.clone(), fb(F::Seq2(fb(F::Byte(g1)), fb(F::Compute(var(&x))))))
            }
            4 => {
                // tolerated alternatives
                let f = self.fmt(&o, t);
                F::UnionND(vec![F::Some(fb(f)), F::None])
            }
            _ => {
                let f = self.fmt(cx, t);
                if self.prof.codegen || self.t.chance(70) {
                    F::Some(fb(f))
                } else {
                    F::Map(fb(f), L::from("q"), E::Some(b(var(&L::from("q")))))
                }
            }
        }
    }

    /// formats available at every type
    fn generic(&mut self, cx: &Cx, ty: &Ty) -> Option<F> {
        let o = cx.open();
        Some(match self.t.below(26) {
            0 | 1 | 2 => {
                let t = self.ty(2);
                let a = self.fmt(&o, &t);
                let x = self.name(cx, "x");
                let f = self.fmt(&cx.bind(&x, &t), ty);
                F::LetF(fb(a), x, fb(f))
            }
            3 => {
                let t = self.ty(1);
                let a = self.fmt(&o, &t);
                F::Seq2(fb(a), fb(self.fmt(cx, ty)))
            }
            4 | 5 => {
                let t = self.ty(2);
                let a = self.fmt(cx, &t);
                let x = self.name(cx, "x");
                let e = self.expr(&cx.bind(&x, &t), ty, 3);
                F::Map(fb(a), x, e)
            }
            6 | 7 => {
                let a = self.fmt(cx, ty);
                let x = self.name(cx, "x");
                let e = self.expr(&cx.bind(&x, ty), &Ty::Bool, 2);
                let strict = self.t.chance(75);
                let e = if self.t.chance(50) {
                    e
                } else {
                    E::Not(b(e))
                };
                F::Where(fb(a), x, e, strict)
            }
            8 | 9 => {
                if cx.bits && self.prof.codegen {
                    return None;
                }
                let f = self.fmt(&cx.close(), ty);
                let m = minlen(&f, &self.defs);
                let extra = self.t.small(4) as u64;
                if !self.prof.codegen && self.t.chance(3) {
                    // far more than any input holds: a plain rejection
                    let n = self.t.edgy(64).max(1 << 20);
                    if self.t.chance(50) {
                        F::Slice(num(K::U64, n.min(u64::MAX >> 8)), fb(f))
                    } else {
                        let y = self.name(&Cx::default(), "n");
                        let x = self.name(&Cx::default(), "n");
                        F::LetF(fb(F::Byte(BS::full())), y, fb(F::Let(x.clone(), num(K::U64, n), fb(F::Slice(var(&x), fb(f))))))
                    }
                } else if cx.bits || m > 200 || self.t.chance(50) {
                    let k = if m + extra > 200 { K::U64 } else { *self.t.pick(&KS) };
                    F::Slice(num(k, m + extra), fb(f))
                } else {
                    let x = self.name(&Cx::default(), "n");
                    let mut s = BS::empty();
                    for z in 0..4 {
                        s.add((m + z) as u8);
                    }
                    F::LetF(fb(F::Byte(s)), x.clone(), fb(F::Slice(var(&x), fb(f))))
                }
            }
            10 => F::Peek(fb(self.fmt(&cx.close(), ty))),
            11 | 12 => {
                let (h, ht) = self.head(cx, 2);
                let mut arms = self.arms(&cx.open(), &ht);
                if arms.len() > 1 && !self.prof.codegen && self.t.chance(20) {
                    arms.pop();
                }
                F::Match(h, arms.into_iter().map(|(p, c)| (p, self.fmt(&c, ty))).collect())
            }
            13 | 14 => {
                let n = self.t.range(2, 3);
                let gs = self.guards(n, cx.bits);
                F::Union(gs.into_iter().map(|g| self.nonempty(cx, ty, Some(g))).collect())
            }
            15 => {
                let n = self.t.range(2, 3);
                F::UnionND((0..n).map(|_| self.fmt(&o, ty)).collect())
            }
            16 => {
                let f = self.fmt(&o, ty);
                let e = self.expr(cx, ty, 1);
                F::Permit(fb(f), e)
            }
            17 => {
                let t = self.ty(1);
                let x = self.name(cx, "x");
                let e = self.expr(cx, &t, 2);
                F::Let(x.clone(), e, fb(self.fmt(&cx.bind(&x, &t), ty)))
            }
            18 | 19 if !cx.bits => {
                // views
                if !cx.views.is_empty() && self.t.chance(50) {
                    let v = self.view(cx);
                    let f = self.fmt(&cx.close(), ty);
                    return Some(F::FromView(v, fb(f)));
                }
                self.n += 1;
                let w = L::from(format!("v{}", self.n));
                let mut c = cx.clone();
                c.views.push(w.clone());
                F::LetView(w, fb(self.fmt(&c, ty)))
            }
            20 if !cx.bits => {
                // bit stream, possibly with a Huffman code
                let mut c = cx.close();
                c.bits = true;
                c.views.clear();
                if self.t.chance(40) {
                    self.n += 1;
                    let h = L::from(format!("h{}", self.n));
                    let ls = self.t.pick(&[&[1u64, 1][..], &[1, 2, 2], &[2, 1, 2], &[2, 2, 2, 2], &[0, 1, 1], &[3, 1, 3, 2], &[2, 0, 2, 1], &[1, 2]]).to_vec();
                    let k = *self.t.pick(&[K::U8, K::U16]);
                    let lens = E::Seq(ls.iter().map(|l| num(K::U8, *l)).collect());
                    let vals = if self.t.chance(30) {
                        let mut p: Vec<u64> = (0..ls.len() as u64).collect();
                        let r = self.t.below(ls.len());
                        p.rotate_left(r);
                        let _ = k;
                        Some(E::Seq(p.into_iter().map(|x| num(K::U8, x)).collect()))
                    } else {
                        None
                    };
                    c.codes.push(h.clone());
                    let f = self.fmt(&c, ty);
                    F::Bits(fb(F::Huffman(h, lens, vals, fb(f))))
                } else {
                    F::Bits(fb(self.fmt(&c, ty)))
                }
            }
            21 if !cx.bits => {
                // seek
                let f = self.fmt(&cx.close(), ty);
                if self.t.chance(60) {
                    let x = self.name(&Cx::default(), "p");
                    let k = *self.t.pick(&KS);
                    let off = self.small_int(cx, k, 5);
                    F::LetF(fb(F::Pos), x.clone(), fb(F::RelOff(var(&x), E::As(K::U64, b(off)), fb(f))))
                } else {
                    let off = self.small_int(cx, K::U64, 8);
                    F::RelOff(num(K::U64, 0), off, fb(f))
                }
            }
            22 => {
                // decode computed bytes
                let bs = if self.prof.codegen { self.some_path(cx, &seq_ty(Ty::U(K::U8)))? } else { self.expr(cx, &seq_ty(Ty::U(K::U8)), 2) };
                let mut c = cx.close();
                c.bits = false;
                c.views.clear();
                c.codes.clear();
                let f = self.fmt(&c, ty);
                F::DecodeBytes(bs, fb(f))
            }
            23 if !cx.bits && !self.defs.is_empty() => {
                let cands: Vec<usize> = (0..self.defs.len()).filter(|i| self.defs[*i].ty == *ty).collect();
                let i = if cands.is_empty() || self.t.chance(30) { self.t.below(self.defs.len()) } else { *self.t.pick(&cands) };
                let d = self.defs[i].clone();
                if !d.views.is_empty() && cx.views.is_empty() {
                    return None;
                }
                let args = d.args.iter().map(|(_, t)| self.expr(cx, t, 1)).collect();
                let views = d.views.iter().map(|_| self.view(cx)).collect();
                let call = F::Call(i, args, views);
                if d.ty == *ty {
                    call
                } else {
                    let x = self.name(cx, "x");
                    F::LetF(fb(call), x.clone(), fb(self.fmt(&cx.bind(&x, &d.ty), ty)))
                }
            }
            24 => {
                let h = if self.t.chance(50) { Hint::Str } else { Hint::Chr };
                if self.prof.render {
                    let byte = F::Byte(BS::full());
                    return Some(if *ty == Ty::U(K::U8) && !cx.bits {
                        F::Hint(Hint::Chr, fb(byte))
                    } else if *ty == seq_ty(Ty::U(K::U8)) && !cx.bits {
                        let n = self.t.draw(14) as u64;
                        F::Hint(Hint::Str, fb(F::RepeatCount(E::U(K::U32, n), fb(byte))))
                    } else {
                        F::Compute(self.expr(cx, ty, 3))
                    });
                }
                if *ty == Ty::U(K::U8) || *ty == seq_ty(Ty::U(K::U8)) { F::Hint(h, fb(self.fmt(cx, ty))) } else { F::Compute(self.expr(cx, ty, 3)) }
            }
            _ => F::Compute(self.expr(cx, ty, 3)),
        })
    }

    pub fn prog(&mut self) -> Prog {
        let nd = self.t.below(self.prof.max_defs + 1);
        for i in 0..nd {
            let ty = self.ty(2);
            let na = self.t.below(3);
            let mut cx = Cx::default();
            let mut args = vec![];
            for j in 0..na {
                let l = L::from(format!("arg{i}_{j}"));
                let t = self.ty(1);
                // a sequence argument is a borrowed slice in generated code
                let t = if self.prof.codegen && format!("{t:?}").contains("Seq(") { Ty::U(K::U16) } else { t };
                cx = cx.bind(&l, &t);
                args.push((l, t));
            }
            let mut views = vec![];
            if self.t.chance(25) {
                let v = L::from(format!("vw{i}"));
                cx.views.push(v.clone());
                views.push(v);
            }
            self.fuel = self.prof.fuel / 3;
            let body = self.fmt(&cx, &ty);
            self.defs.push(Def { name: L::from(format!("def{i}")), args, views, body, ty });
        }
        self.fuel = self.prof.fuel;
        let ty = self.ty(3);
        let cx = Cx { closed: true, ..Cx::default() };
        let root = self.fmt(&cx, &ty);
        Prog { defs: self.defs.clone(), root, ty }
    }
}

/// Inputs for a program: invented matches, mutations of them, and noise.
pub fn inputs(prog: &Prog, tape: &mut Tape, n: usize) -> Vec<Vec<u8>> {
    let cell = std::cell::RefCell::new(std::mem::replace(tape, Tape::replay(vec![])));
    let mut out: Vec<Vec<u8>> = vec![];
    for k in 0..n {
        let mode = if k == 0 { 0 } else { cell.borrow_mut().weighted(&[5, 2, 2, 1, 1]) };
        let v = if mode == 4 {
            let mut t = cell.borrow_mut();
            let m = t.below(12);
            t.bytes(m)
        } else {
            let mut v = crate::model::M::invent(prog, &cell);
            let mut t = cell.borrow_mut();
            match mode {
                0 => {
                    let x = if t.chance(60) { 0 } else { t.below(5) };
                    let tail = t.bytes(x);
                    v.extend(tail);
                }
                1 => {
                    if !v.is_empty() {
                        let i = t.below(v.len());
                        v[i] = t.byte();
                    }
                }
                2 => {
                    let k = t.below(v.len() + 1);
                    v.truncate(v.len() - k.min(v.len()));
                }
                _ => {
                    let i = t.below(v.len() + 1);
                    let x = t.byte();
                    if t.chance(50) || v.is_empty() { v.insert(i, x) } else { v.remove(i.min(v.len() - 1)); }
                }
            }
            v
        };
        out.push(v);
    }
    *tape = cell.into_inner();
    out
}
