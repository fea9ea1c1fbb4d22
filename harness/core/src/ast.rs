//! The harness's own description language (types, expressions, patterns,
//! formats), its values, and its translation to doodle's public constructors.

use doodle::bounds::Bounds;
use doodle::byte_set::ByteSet;
use doodle::decoder::Value;
use doodle::helper::*;
use doodle::{BaseKind, BaseType, DynFormat, Endian, Expr, Format, FormatModule, FormatRef, Label, Pattern, StyleHint, ValueType, ViewExpr, ViewFormat};
use std::collections::BTreeMap;
use std::sync::Arc as Rc;

pub type L = Rc<str>;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum K {
    U8,
    U16,
    U32,
    U64,
    /// element of a lazily represented integer range (only ever cast away)
    Usz,
}
impl K {
    pub fn bits(self) -> u32 {
        match self {
            K::U8 => 8,
            K::U16 => 16,
            K::U32 => 32,
            K::U64 | K::Usz => 64,
        }
    }
    pub fn top(self) -> u64 {
        if self.bits() == 64 { u64::MAX } else { (1u64 << self.bits()) - 1 }
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty {
    Bool,
    U(K),
    Char,
    Tuple(Vec<Ty>),
    Record(Vec<(L, Ty)>),
    Union(BTreeMap<L, Ty>),
    Seq(Rc<Ty>),
    Opt(Rc<Ty>),
}
pub const UNIT: Ty = Ty::Tuple(Vec::new());
pub fn seq_ty(t: Ty) -> Ty {
    Ty::Seq(Rc::new(t))
}
pub fn opt_ty(t: Ty) -> Ty {
    Ty::Opt(Rc::new(t))
}

impl Ty {
    pub fn lower(&self) -> ValueType {
        match self {
            Ty::Bool => ValueType::Base(BaseType::Bool),
            Ty::Char => ValueType::Base(BaseType::Char),
            Ty::U(K::U8) => ValueType::Base(BaseType::U8),
            Ty::U(K::U16) => ValueType::Base(BaseType::U16),
            Ty::U(K::U32) => ValueType::Base(BaseType::U32),
            Ty::U(_) => ValueType::Base(BaseType::U64),
            Ty::Tuple(ts) => ValueType::Tuple(ts.iter().map(|t| t.lower()).collect()),
            Ty::Record(fs) => ValueType::Record(fs.iter().map(|(l, t)| (lab(l), t.lower())).collect()),
            Ty::Union(bs) => ValueType::Union(bs.iter().map(|(l, t)| (lab(l), t.lower())).collect()),
            Ty::Seq(t) => ValueType::Seq(Box::new(t.lower())),
            Ty::Opt(t) => ValueType::Option(Box::new(t.lower())),
        }
    }
}

pub fn lab(l: &L) -> Label {
    Label::Owned(l.to_string())
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum V {
    Bool(bool),
    U(K, u64),
    Char(char),
    Tuple(Vec<V>),
    Record(Vec<(L, V)>),
    Variant(L, Box<V>),
    Seq(Vec<V>),
    Opt(Option<Box<V>>),
    View(usize),
    Phantom,
    /// integer of the embedded numeric language (compared by number only)
    Num(String),
    /// fallback of a tolerated failure (model only): may be passed on, not inspected
    Bad(Box<V>),
}
pub const VUNIT: V = V::Tuple(Vec::new());

impl V {
    pub fn size(&self) -> usize {
        1 + match self {
            V::Tuple(vs) | V::Seq(vs) => vs.iter().map(|v| v.size()).sum(),
            V::Record(fs) => fs.iter().map(|(_, v)| v.size()).sum(),
            V::Variant(_, v) => v.size(),
            V::Opt(Some(v)) | V::Bad(v) => v.size(),
            _ => 0,
        }
    }
    pub fn inhabits(&self, t: &Ty) -> bool {
        match (self, t) {
            (V::Bool(_), Ty::Bool) | (V::Char(_), Ty::Char) => true,
            (V::U(k, _), Ty::U(k2)) => k == k2,
            (V::Tuple(vs), Ty::Tuple(ts)) => vs.len() == ts.len() && vs.iter().zip(ts).all(|(v, t)| v.inhabits(t)),
            (V::Record(vs), Ty::Record(ts)) => vs.len() == ts.len() && vs.iter().zip(ts).all(|((l, v), (m, t))| l == m && v.inhabits(t)),
            (V::Variant(l, v), Ty::Union(bs)) => bs.get(l).is_some_and(|t| v.inhabits(t)),
            (V::Seq(vs), Ty::Seq(t)) => vs.iter().all(|v| v.inhabits(t)),
            (V::Opt(None), Ty::Opt(_)) => true,
            (V::Opt(Some(v)), Ty::Opt(t)) => v.inhabits(t),
            _ => false,
        }
    }
}

/// doodle Value -> V, seeing through the provenance wrappers.
pub fn norm(v: &Value) -> V {
    match v {
        Value::Bool(b) => V::Bool(*b),
        Value::U8(x) => V::U(K::U8, *x as u64),
        Value::U16(x) => V::U(K::U16, *x as u64),
        Value::U32(x) => V::U(K::U32, *x as u64),
        Value::U64(x) => V::U(K::U64, *x),
        Value::Usize(x) => V::U(K::Usz, *x as u64),
        Value::Char(c) => V::Char(*c),
        Value::Numeric(n) => V::Num(n.to_string()),
        Value::View { offset } => V::View(*offset),
        Value::PhantomData => V::Phantom,
        Value::EnumFromTo(r) => V::Seq(r.clone().map(|x| V::U(K::Usz, x as u64)).collect()),
        Value::Option(o) => V::Opt(o.as_ref().map(|v| Box::new(norm(v)))),
        Value::Tuple(vs) => V::Tuple(vs.iter().map(norm).collect()),
        Value::Record(fs) => V::Record(fs.iter().map(|(l, v)| (L::from(l.as_ref()), norm(v))).collect()),
        Value::Variant(l, v) => V::Variant(L::from(l.as_ref()), Box::new(norm(v))),
        Value::Seq(s) => V::Seq(s.iter().map(norm).collect()),
        Value::Mapped(_, v) => norm(v),
        Value::Branch(_, v) => norm(v),
        Value::Permit(Ok(v)) => norm(v),
        Value::Permit(Err(Some(v))) => norm(v),
        Value::Permit(Err(None)) => V::Phantom,
    }
}

// ---------------------------------------------------------------- expressions

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    And,
    Or,
    Shl,
    Shr,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rel {
    Eq,
    Ne,
    Lt,
    Gt,
    Le,
    Ge,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum E {
    Var(L),
    Bool(bool),
    U(K, u64),
    Tuple(Vec<E>),
    Proj(Box<E>, usize),
    Record(Vec<(L, E)>),
    Field(Box<E>, L),
    Variant(L, Box<E>),
    Seq(Vec<E>),
    Match(Box<E>, Vec<(P, E)>),
    Destr(Box<E>, P, Box<E>),
    Rel(Rel, Box<E>, Box<E>),
    Op(Op, Box<E>, Box<E>),
    BoolAnd(Box<E>, Box<E>),
    BoolOr(Box<E>, Box<E>),
    Not(Box<E>),
    Succ(Box<E>),
    Pred(Box<E>),
    As(K, Box<E>),
    AsChar(Box<E>),
    /// (kind, big-endian?) over a tuple of bytes
    End(K, bool, Box<E>),
    Len(Box<E>),
    SubSeq(Box<E>, Box<E>, Box<E>),
    Ix(Box<E>, Box<E>),
    Inflate(Box<E>, Box<E>, Box<E>),
    FlatMap(L, Box<E>, Box<E>),
    /// (acc, x) -> (acc, [u]); init; acc type; seq.  `dest`: bind by destructuring or by projection of one variable
    FlatMapAccum(L, L, Box<E>, Box<E>, Ty, Box<E>),
    /// (so far, x) -> [u]; element type
    FlatMapList(L, L, Box<E>, Ty, Box<E>),
    Find(bool, L, Box<E>, Box<E>, Box<E>),
    Range(Box<E>, Box<E>),
    Fold(L, L, Box<E>, Box<E>, Ty, Box<E>),
    Dup(Box<E>, Box<E>),
    Some(Box<E>),
    None,
    Append(Box<E>, Box<E>),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum P {
    Bind(L),
    Wild,
    Bool(bool),
    U(K, u64),
    Int(u64, Option<u64>),
    Char(char),
    Tuple(Vec<P>),
    Variant(L, Box<P>),
    Seq(Vec<P>),
    Some(Box<P>),
    None,
}

impl P {
    pub fn lower(&self) -> Pattern {
        match self {
            P::Bind(l) => Pattern::Binding(lab(l)),
            P::Wild => Pattern::Wildcard,
            P::Bool(b) => Pattern::Bool(*b),
            P::U(K::U8, n) => Pattern::U8(*n as u8),
            P::U(K::U16, n) => Pattern::U16(*n as u16),
            P::U(K::U32, n) => Pattern::U32(*n as u32),
            P::U(_, n) => Pattern::U64(*n),
            P::Int(lo, Some(hi)) => Pattern::Int(Bounds::new(*lo as usize, *hi as usize)),
            P::Int(lo, None) => Pattern::Int(Bounds::at_least(*lo as usize)),
            P::Char(c) => Pattern::Char(*c),
            P::Tuple(ps) => Pattern::Tuple(ps.iter().map(|p| p.lower()).collect()),
            P::Variant(l, p) => Pattern::Variant(lab(l), Box::new(p.lower())),
            P::Seq(ps) => Pattern::Seq(ps.iter().map(|p| p.lower()).collect()),
            P::Some(p) => Pattern::Option(Some(Box::new(p.lower()))),
            P::None => Pattern::Option(None),
        }
    }
}

fn bx(e: &E) -> Box<Expr> {
    Box::new(e.lower())
}

fn lam2(a: &L, x: &L, body: &E) -> Expr {
    let hv = Label::Owned(format!("pair_{a}_{x}"));
    Expr::Lambda(
        hv.clone(),
        Box::new(Expr::Destructure(
            Box::new(Expr::Var(hv)),
            Pattern::Tuple(vec![Pattern::Binding(lab(a)), Pattern::Binding(lab(x))]),
            bx(body),
        )),
    )
}

impl E {
    pub fn lower(&self) -> Expr {
        use doodle::{Arith, IntRel, UnaryOp};
        match self {
            E::Var(l) => Expr::Var(lab(l)),
            E::Bool(b) => Expr::Bool(*b),
            E::U(K::U8, n) => Expr::U8(*n as u8),
            E::U(K::U16, n) => Expr::U16(*n as u16),
            E::U(K::U32, n) => Expr::U32(*n as u32),
            E::U(_, n) => Expr::U64(*n),
            E::Tuple(es) => Expr::Tuple(es.iter().map(|e| e.lower()).collect()),
            E::Proj(e, i) => Expr::TupleProj(bx(e), *i),
            E::Record(fs) => Expr::Record(fs.iter().map(|(l, e)| (lab(l), e.lower())).collect()),
            E::Field(e, l) => Expr::RecordProj(bx(e), lab(l)),
            E::Variant(l, e) => Expr::Variant(lab(l), bx(e)),
            E::Seq(es) => Expr::Seq(es.iter().map(|e| e.lower()).collect()),
            E::Match(e, bs) => Expr::Match(bx(e), bs.iter().map(|(p, e)| (p.lower(), e.lower())).collect()),
            E::Destr(e, p, b) => Expr::Destructure(bx(e), p.lower(), bx(b)),
            E::Rel(r, a, b) => Expr::IntRel(
                match r {
                    Rel::Eq => IntRel::Eq,
                    Rel::Ne => IntRel::Ne,
                    Rel::Lt => IntRel::Lt,
                    Rel::Gt => IntRel::Gt,
                    Rel::Le => IntRel::Lte,
                    Rel::Ge => IntRel::Gte,
                },
                bx(a),
                bx(b),
            ),
            E::Op(o, a, b) => Expr::Arith(
                match o {
                    Op::Add => Arith::Add,
                    Op::Sub => Arith::Sub,
                    Op::Mul => Arith::Mul,
                    Op::Div => Arith::Div,
                    Op::Rem => Arith::Rem,
                    Op::And => Arith::BitAnd,
                    Op::Or => Arith::BitOr,
                    Op::Shl => Arith::Shl,
                    Op::Shr => Arith::Shr,
                },
                bx(a),
                bx(b),
            ),
            E::BoolAnd(a, b) => Expr::Arith(Arith::BoolAnd, bx(a), bx(b)),
            E::BoolOr(a, b) => Expr::Arith(Arith::BoolOr, bx(a), bx(b)),
            E::Not(a) => Expr::Unary(UnaryOp::BoolNot, bx(a)),
            E::Succ(a) => Expr::Unary(UnaryOp::IntSucc, bx(a)),
            E::Pred(a) => Expr::Unary(UnaryOp::IntPred, bx(a)),
            E::As(K::U8, e) => Expr::AsU8(bx(e)),
            E::As(K::U16, e) => Expr::AsU16(bx(e)),
            E::As(K::U32, e) => Expr::AsU32(bx(e)),
            E::As(_, e) => Expr::AsU64(bx(e)),
            E::AsChar(e) => Expr::AsChar(bx(e)),
            E::End(K::U16, true, e) => Expr::U16Be(bx(e)),
            E::End(K::U16, false, e) => Expr::U16Le(bx(e)),
            E::End(K::U32, true, e) => Expr::U32Be(bx(e)),
            E::End(K::U32, false, e) => Expr::U32Le(bx(e)),
            E::End(_, true, e) => Expr::U64Be(bx(e)),
            E::End(_, false, e) => Expr::U64Le(bx(e)),
            E::Len(e) => Expr::SeqLength(bx(e)),
            E::SubSeq(s, a, n) => Expr::SubSeq(bx(s), bx(a), bx(n)),
            E::Ix(s, i) => Expr::SeqIx(bx(s), bx(i)),
            E::Inflate(s, a, n) => Expr::SubSeqInflate(bx(s), bx(a), bx(n)),
            E::FlatMap(x, b, s) => Expr::FlatMap(Box::new(lambda(lab(x), b.lower())), bx(s)),
            E::FlatMapAccum(a, x, b, i, t, s) => Expr::FlatMapAccum(Box::new(lam2(a, x, b)), bx(i), t.lower().into(), bx(s)),
            E::FlatMapList(a, x, b, t, s) => Expr::FlatMapList(Box::new(lam2(a, x, b)), t.lower().into(), bx(s)),
            E::Find(sorted, x, k, q, s) => Expr::FindByKey(*sorted, Box::new(lambda(lab(x), k.lower())), bx(q), bx(s)),
            E::Range(a, b) => Expr::EnumFromTo(bx(a), bx(b)),
            E::Fold(a, x, b, i, t, s) => Expr::LeftFold(Box::new(lam2(a, x, b)), bx(i), t.lower().into(), bx(s)),
            E::Dup(n, e) => Expr::Dup(bx(n), bx(e)),
            E::Some(e) => Expr::LiftOption(Some(bx(e))),
            E::None => Expr::LiftOption(None),
            E::Append(a, b) => Expr::Append(bx(a), bx(b)),
        }
    }
}

// ---------------------------------------------------------------- formats

/// View expression: base variable plus successive offsets
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct VE {
    pub var: L,
    pub offs: Vec<E>,
}
impl VE {
    pub fn lower(&self) -> ViewExpr {
        let mut v = ViewExpr::Var(lab(&self.var));
        for o in &self.offs {
            v = v.offset(o.lower());
        }
        v
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
pub struct BS(pub [u64; 4]);
impl BS {
    pub fn empty() -> BS {
        BS([0; 4])
    }
    pub fn full() -> BS {
        BS([u64::MAX; 4])
    }
    pub fn one(b: u8) -> BS {
        let mut s = BS::empty();
        s.add(b);
        s
    }
    pub fn add(&mut self, b: u8) {
        self.0[(b >> 6) as usize] |= 1 << (b & 63);
    }
    pub fn has(&self, b: u8) -> bool {
        self.0[(b >> 6) as usize] >> (b & 63) & 1 == 1
    }
    pub fn inv(&self) -> BS {
        BS(self.0.map(|x| !x))
    }
    pub fn or(&self, o: &BS) -> BS {
        BS(std::array::from_fn(|i| self.0[i] | o.0[i]))
    }
    pub fn and(&self, o: &BS) -> BS {
        BS(std::array::from_fn(|i| self.0[i] & o.0[i]))
    }
    pub fn is_empty(&self) -> bool {
        self.0 == [0; 4]
    }
    pub fn len(&self) -> usize {
        self.0.iter().map(|x| x.count_ones() as usize).sum()
    }
    pub fn members(&self) -> Vec<u8> {
        (0..=255u8).filter(|b| self.has(*b)).collect()
    }
    pub fn lower(&self) -> ByteSet {
        ByteSet::from_bits(self.0)
    }
}
impl std::fmt::Debug for BS {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        if *self == BS::full() {
            return write!(f, "{{any}}");
        }
        let m = self.members();
        if m.len() > 16 {
            write!(f, "!{:x?}", self.inv().members())
        } else {
            write!(f, "{m:x?}")
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Hint {
    Str,
    Chr,
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum F {
    Fail,
    Eoi,
    Align(usize),
    Byte(BS),
    Variant(L, Box<F>),
    Union(Vec<F>),
    UnionND(Vec<F>),
    Tuple(Vec<F>),
    Sequence(Vec<F>),
    Repeat(Box<F>),
    Repeat1(Box<F>),
    RepeatCount(E, Box<F>),
    RepeatBetween(E, E, Box<F>),
    UntilLast(L, E, Box<F>),
    UntilSeq(L, E, Box<F>),
    /// done (acc, seq), update (acc, x), init, acc type
    AccumUntil { a: L, s: L, x: L, done: E, upd: E, init: E, ty: Ty, f: Box<F> },
    ForEach(E, L, Box<F>),
    Maybe(E, Box<F>),
    Peek(Box<F>),
    PeekNot(Box<F>),
    Slice(E, Box<F>),
    Bits(Box<F>),
    RelOff(E, E, Box<F>),
    Map(Box<F>, L, E),
    Where(Box<F>, L, E, bool),
    Compute(E),
    Let(L, E, Box<F>),
    Match(E, Vec<(P, F)>),
    Huffman(L, E, Option<E>, Box<F>),
    Apply(L),
    Pos,
    SkipRem,
    DecodeBytes(E, Box<F>),
    LetF(Box<F>, L, Box<F>),
    Seq2(Box<F>, Box<F>),
    Hint(Hint, Box<F>),
    Some(Box<F>),
    None,
    LetView(L, Box<F>),
    Capture(VE, E),
    ReadArray(VE, E, K),
    Reify(VE),
    FromView(VE, Box<F>),
    Phantom(Box<F>),
    Permit(Box<F>, E),
    Call(usize, Vec<E>, Vec<VE>),
    /// record: (name, how, field); how: 0 keep, 1 temporary (bound, not kept), 2 discarded
    Record(Vec<(L, u8, F)>),
    /// fixed-endianness integer via doodle's base helpers
    Int(K, bool),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Def {
    pub name: L,
    pub args: Vec<(L, Ty)>,
    pub views: Vec<L>,
    pub body: F,
    pub ty: Ty,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Prog {
    pub defs: Vec<Def>,
    pub root: F,
    pub ty: Ty,
}

pub fn low(f: &F, refs: &[FormatRef]) -> Format {
    let b = |f: &F| Box::new(low(f, refs));
    match f {
        F::Fail => Format::Fail,
        F::Eoi => Format::EndOfInput,
        F::Align(n) => Format::Align(*n),
        F::Byte(s) => Format::Byte(s.lower()),
        F::Variant(l, f) => Format::Variant(lab(l), b(f)),
        F::Union(fs) => Format::Union(fs.iter().map(|f| low(f, refs)).collect()),
        F::UnionND(fs) => Format::UnionNondet(fs.iter().map(|f| low(f, refs)).collect()),
        F::Tuple(fs) => Format::Tuple(fs.iter().map(|f| low(f, refs)).collect()),
        F::Sequence(fs) => Format::Sequence(fs.iter().map(|f| low(f, refs)).collect()),
        F::Repeat(f) => Format::Repeat(b(f)),
        F::Repeat1(f) => Format::Repeat1(b(f)),
        F::RepeatCount(e, f) => Format::RepeatCount(bx(e), b(f)),
        F::RepeatBetween(lo, hi, f) => Format::RepeatBetween(bx(lo), bx(hi), b(f)),
        F::UntilLast(x, e, f) => Format::RepeatUntilLast(Box::new(lambda(lab(x), e.lower())), b(f)),
        F::UntilSeq(x, e, f) => Format::RepeatUntilSeq(Box::new(lambda(lab(x), e.lower())), b(f)),
        F::AccumUntil { a, s, x, done, upd, init, ty, f } => Format::AccumUntil(Box::new(lam2(a, s, done)), Box::new(lam2(a, x, upd)), bx(init), ty.lower().into(), b(f)),
        F::ForEach(e, x, f) => Format::ForEach(bx(e), lab(x), b(f)),
        F::Maybe(e, f) => Format::Maybe(bx(e), b(f)),
        F::Peek(f) => Format::Peek(b(f)),
        F::PeekNot(f) => Format::PeekNot(b(f)),
        F::Slice(e, f) => Format::Slice(bx(e), b(f)),
        F::Bits(f) => Format::Bits(b(f)),
        F::RelOff(base, off, f) => Format::WithRelativeOffset(bx(base), bx(off), b(f)),
        F::Map(f, x, e) => Format::Map(b(f), Box::new(lambda(lab(x), e.lower()))),
        F::Where(f, x, e, strict) => {
            if *strict {
                where_lambda(low(f, refs), lab(x), e.lower())
            } else {
                expect_lambda(low(f, refs), lab(x), e.lower())
            }
        }
        F::Compute(e) => Format::Compute(bx(e)),
        F::Let(x, e, f) => Format::Let(lab(x), bx(e), b(f)),
        F::Match(e, bs) => Format::Match(bx(e), bs.iter().map(|(p, f)| (p.lower(), low(f, refs))).collect()),
        F::Huffman(n, ls, vs, f) => Format::Dynamic(lab(n), DynFormat::Huffman(bx(ls), vs.as_ref().map(bx)), b(f)),
        F::Apply(n) => Format::Apply(lab(n)),
        F::Pos => Format::Pos,
        F::SkipRem => Format::SkipRemainder,
        F::DecodeBytes(e, f) => Format::DecodeBytes(bx(e), b(f)),
        F::LetF(a, x, f) => Format::LetFormat(b(a), lab(x), b(f)),
        F::Seq2(a, f) => Format::MonadSeq(b(a), b(f)),
        F::Hint(h, f) => Format::Hint(
            match h {
                Hint::Str => StyleHint::AsciiStr,
                Hint::Chr => StyleHint::AsciiChar,
            },
            b(f),
        ),
        F::Some(f) => Format::LiftedOption(Some(b(f))),
        F::None => Format::LiftedOption(None),
        F::LetView(x, f) => Format::LetView(lab(x), b(f)),
        F::Capture(v, e) => Format::WithView(v.lower(), ViewFormat::CaptureBytes(bx(e))),
        F::ReadArray(v, e, k) => Format::WithView(
            v.lower(),
            ViewFormat::ReadArray(
                bx(e),
                match k {
                    K::U8 => BaseKind::U8,
                    K::U16 => BaseKind::U16Ext(Endian::Be),
                    K::U32 => BaseKind::U32Ext(Endian::Be),
                    _ => BaseKind::U64Ext(Endian::Be),
                },
            ),
        ),
        F::Reify(v) => Format::WithView(v.lower(), ViewFormat::ReifyView),
        F::FromView(v, f) => Format::ParseFromView(v.lower(), b(f)),
        F::Phantom(f) => Format::Phantom(b(f)),
        F::Permit(f, e) => Format::Permit(b(f), bx(e)),
        F::Call(i, args, views) => refs[*i].call_args_views(args.iter().map(|e| e.lower()).collect(), views.iter().map(|v| v.lower()).collect()),
        F::Record(fs) => {
            if fs.iter().all(|x| x.1 == 0) {
                record(fs.iter().map(|(l, _, f)| (lab(l), low(f, refs))).collect::<Vec<_>>())
            } else {
                record_ext(
                    fs.iter()
                        .map(|(l, how, f)| {
                            (
                                match how {
                                    0 => Some((lab(l), true)),
                                    1 => Some((lab(l), false)),
                                    _ => None,
                                },
                                low(f, refs),
                            )
                        })
                        .collect::<Vec<_>>(),
                )
            }
        }
        F::Int(K::U8, _) => u8(),
        F::Int(K::U16, true) => u16be(),
        F::Int(K::U16, false) => u16le(),
        F::Int(K::U32, true) => u32be(),
        F::Int(K::U32, false) => u32le(),
        F::Int(_, true) => u64be(),
        F::Int(_, false) => u64le(),
    }
}

/// Build doodle's module and root format.  Panics (inside doodle) on ill-typed definitions.
pub fn build(p: &Prog) -> (FormatModule, Format) {
    let (m, f, _) = build_refs(p);
    (m, f)
}
/// A sub-description of a program on its own, in the context of the program's definitions.
pub fn lower_part(f: &F, refs: &[FormatRef]) -> Format {
    low(f, refs)
}
pub fn build_refs(p: &Prog) -> (FormatModule, Format, Vec<FormatRef>) {
    let mut m = FormatModule::new();
    let mut refs: Vec<FormatRef> = vec![];
    for d in &p.defs {
        let f = low(&d.body, &refs);
        let r = m.define_format_args_views(
            lab(&d.name),
            d.args.iter().map(|(l, t)| (lab(l), t.lower())).collect(),
            d.views.iter().map(lab).collect(),
            f,
        );
        refs.push(r);
    }
    let root = low(&p.root, &refs);
    (m, root, refs)
}
