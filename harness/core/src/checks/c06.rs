//! C06: type inference (both checkers) against the generator's own types and against decoded values;
//! descriptions made ill-typed at one place must be refused.
use crate::ast::*;
use crate::checks::c01::{hex, panic_sig};
use crate::r#gen::{G, Prof, inputs};
use crate::runner::*;
use crate::tape::{Tape, hash_bytes, mix};
use doodle::decoder::{Compiler, Value};
use doodle::read::ReadCtxt;
use doodle::{BaseType, ValueType};

pub const RULE: &str = "non-trivial: the inferred type has at least 3 type constructors and at least one decoded value was checked against it; distinct by (description, input)";
pub const RULE2: &str = "non-trivial: the mutated place lies inside a description of at least 4 nodes; distinct by description";

/// number of constructors
fn size(t: &ValueType) -> usize {
    1 + match t {
        ValueType::Tuple(ts) => ts.iter().map(size).sum(),
        ValueType::Record(fs) => fs.iter().map(|f| size(&f.1)).sum(),
        ValueType::Union(bs) => bs.values().map(size).sum(),
        ValueType::Seq(t) | ValueType::Option(t) | ValueType::PhantomData(t) => size(t),
        _ => 0,
    }
}

/// the inferred type says nothing the generator's type denies (holes and uninhabited parts aside)
fn fits(t: &ValueType, want: &Ty) -> bool {
    match (t, want) {
        (ValueType::Any | ValueType::Empty, _) => true,
        (ValueType::NumericHole, Ty::U(_)) => true,
        (_, Ty::U(K::Usz)) => matches!(t, ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64)),
        (ValueType::Base(b), Ty::U(k)) => matches!((b, k), (BaseType::U8, K::U8) | (BaseType::U16, K::U16) | (BaseType::U32, K::U32) | (BaseType::U64, K::U64)),
        (ValueType::Base(BaseType::Bool), Ty::Bool) | (ValueType::Base(BaseType::Char), Ty::Char) => true,
        (ValueType::Tuple(ts), Ty::Tuple(us)) => ts.len() == us.len() && ts.iter().zip(us).all(|(t, u)| fits(t, u)),
        (ValueType::Record(ts), Ty::Record(us)) => ts.len() == us.len() && ts.iter().zip(us).all(|((l, t), (m, u))| l.as_ref() == &**m && fits(t, u)),
        (ValueType::Union(bs), Ty::Union(us)) => bs.iter().all(|(l, t)| us.get(l.as_ref()).is_some_and(|u| fits(t, u))),
        (ValueType::Seq(t), Ty::Seq(u)) | (ValueType::Option(t), Ty::Opt(u)) => fits(t, u),
        _ => false,
    }
}

/// a decoded value is a member of the inferred type; a hole constrains nothing
fn member(v: &Value, t: &ValueType) -> Result<(), String> {
    let bad = || Err(format!("{v:?} is not of type {t:?}"));
    match (v, t) {
        (Value::Mapped(_, v) | Value::Branch(_, v), _) => member(v, t),
        (Value::Permit(Ok(v)), _) => member(v, t),
        (Value::Permit(Err(Some(v))), _) => member(v, t),
        // the remains of a tolerated failure after further computation
        (Value::Permit(Err(None)), _) => Ok(()),
        (_, ValueType::Empty) => bad(),
        (_, ValueType::Any) => Ok(()),
        (Value::PhantomData, ValueType::PhantomData(_)) => Ok(()),
        (Value::View { .. }, ValueType::ViewObj) => Ok(()),
        (Value::U8(_), ValueType::Base(BaseType::U8) | ValueType::NumericHole) => Ok(()),
        (Value::U16(_), ValueType::Base(BaseType::U16) | ValueType::NumericHole) => Ok(()),
        (Value::U32(_), ValueType::Base(BaseType::U32) | ValueType::NumericHole) => Ok(()),
        (Value::U64(_), ValueType::Base(BaseType::U64) | ValueType::NumericHole) => Ok(()),
        // integers of lazily represented ranges carry no width of their own
        (Value::Usize(_), ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64) | ValueType::NumericHole) => Ok(()),
        (Value::Numeric(_), ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64) | ValueType::NumericHole | ValueType::Signed(_)) => Ok(()),
        (Value::Bool(_), ValueType::Base(BaseType::Bool)) => Ok(()),
        (Value::Char(_), ValueType::Base(BaseType::Char)) => Ok(()),
        (Value::Tuple(vs), ValueType::Tuple(ts)) if vs.len() == ts.len() => vs.iter().zip(ts).try_for_each(|(v, t)| member(v, t)),
        (Value::Record(vs), ValueType::Record(ts)) if vs.len() == ts.len() => vs.iter().zip(ts).try_for_each(|((l, v), (m, t))| if l == m { member(v, t) } else { bad() }),
        (Value::Variant(l, v), ValueType::Union(bs)) => match bs.get(l) {
            Some(t) => member(v, t),
            None => bad(),
        },
        (Value::EnumFromTo(_), ValueType::Seq(t)) => {
            if matches!(**t, ValueType::Base(BaseType::U8 | BaseType::U16 | BaseType::U32 | BaseType::U64) | ValueType::NumericHole | ValueType::Any) {
                Ok(())
            } else {
                bad()
            }
        }
        (Value::Seq(s), ValueType::Seq(t)) => s.iter().try_for_each(|v| member(v, t)),
        (Value::Option(None), ValueType::Option(_)) => Ok(()),
        (Value::Option(Some(v)), ValueType::Option(t)) => member(v, t),
        _ => bad(),
    }
}

pub fn case(cx: &mut Ctx<'_>) -> Outcome {
    let prog = G::new(cx.tape, Prof::interp()).prog();
    let ins = inputs(&prog, cx.tape, 2);
    if cx.want_text {
        cx.text = format!("{prog:?}\n");
    }
    let built = guarded(|| {
        let (mut m, f) = build(&prog);
        let tc = doodle::typecheck(&m, &f).map_err(|e| e.to_string());
        let p = Compiler::compile_program(&m, &f).map_err(|e| e.to_string());
        let n = prog.defs.len();
        let defs: Vec<ValueType> = (0..n).map(|i| m.get_format_type(i).clone()).collect();
        m.define_format("root", f);
        (tc, m.get_format_type(n).clone(), defs, p)
    });
    let (tc, direct, defs, p) = match built {
        Err(e) => return Outcome::fail(format!("well-typed-panics-{}", panic_sig(&e)), e),
        Ok((Err(e), ..)) => return Outcome::fail("well-typed-refused", e),
        Ok((_, _, _, Err(e))) => return Outcome::fail("compile-refused", e),
        Ok((Ok(tc), d, defs, Ok(p))) => (tc, d, defs, p),
    };
    if cx.want_text {
        cx.text.push_str(&format!("checker {tc:?}\ndirect {direct:?}\n"));
    }
    for (d, t) in prog.defs.iter().zip(&defs) {
        if !fits(t, &d.ty) {
            return Outcome::fail("definition-type", format!("{}: inferred {t:?}, is {:?}", d.name, d.ty));
        }
    }
    if !fits(&direct, &prog.ty) {
        return Outcome::fail("direct-type", format!("inferred {direct:?}, is {:?}", prog.ty));
    }
    let mut classes = vec![];
    match &tc {
        Some(t) => {
            if !fits(t, &prog.ty) {
                return Outcome::fail("checker-type", format!("inferred {t:?}, is {:?}", prog.ty));
            }
            if t.unify(&direct).is_err() {
                return Outcome::fail("checkers-disagree", format!("{t:?} vs {direct:?}"));
            }
            classes.push("both-typed");
        }
        None => classes.push("checker-open"),
    }
    let ph = hash_bytes(format!("{prog:?}").as_bytes());
    let mut nontrivial = false;
    let mut key = 0;
    let mut sub = 1;
    for inp in &ins {
        let got = guarded(|| p.run(ReadCtxt::new(inp)).ok().map(|(v, _)| v));
        if let Ok(Some(v)) = got {
            sub += 1;
            if let Err(e) = member(&v, &direct) {
                return Outcome::fail("not-a-member-direct", format!("input [{}]: {e}; value {v:?} type {direct:?}", hex(inp)));
            }
            if let Some(t) = &tc {
                if let Err(e) = member(&v, t) {
                    return Outcome::fail("not-a-member-checker", format!("input [{}]: {e}; value {v:?} type {t:?}", hex(inp)));
                }
            }
            classes.push("member");
            if size(&direct) >= 3 {
                nontrivial = true;
                key = mix(&[ph, hash_bytes(inp)]);
            }
        }
    }
    Outcome::Pass { nontrivial, key, classes, sub }
}

// ---------------------------------------------------------------- ill-typed descriptions

#[derive(Clone, Copy, Debug, PartialEq)]
enum Want {
    Bool,
    Num,
    U32,
    Seq,
    Bytes,
}

/// one place where a description can be made ill-typed
enum Site<'a> {
    Slot(&'static str, Want, &'a mut E),
    Expr(&'a mut E),
    View(&'a mut VE),
    Fmt(&'a mut F),
}

fn we(e: &mut E, k: &mut dyn FnMut(Site<'_>)) {
    k(Site::Expr(e));
    match e {
        E::Var(_) | E::Bool(_) | E::U(..) | E::None => {}
        E::Tuple(es) | E::Seq(es) => es.iter_mut().for_each(|e| we(e, k)),
        E::Record(fs) => fs.iter_mut().for_each(|e| we(&mut e.1, k)),
        E::Proj(e, _) | E::Field(e, _) | E::Variant(_, e) | E::Not(e) | E::Succ(e) | E::Pred(e) | E::As(_, e) | E::AsChar(e) | E::End(_, _, e) | E::Some(e) => we(e, k),
        E::Len(e) => {
            k(Site::Slot("Len", Want::Seq, e));
            we(e, k)
        }
        E::Match(h, bs) => {
            we(h, k);
            bs.iter_mut().for_each(|b| we(&mut b.1, k));
        }
        E::Destr(h, _, b) => {
            we(h, k);
            we(b, k);
        }
        E::BoolAnd(a, b) | E::BoolOr(a, b) => {
            k(Site::Slot("BoolOp", Want::Bool, a));
            k(Site::Slot("BoolOp", Want::Bool, b));
            we(a, k);
            we(b, k);
        }
        E::Rel(_, a, b) | E::Op(_, a, b) | E::Range(a, b) => {
            k(Site::Slot("Arith", Want::Num, a));
            k(Site::Slot("Arith", Want::Num, b));
            we(a, k);
            we(b, k);
        }
        E::Append(a, b) => {
            k(Site::Slot("Append", Want::Seq, a));
            we(a, k);
            we(b, k);
        }
        E::Dup(n, b) => {
            k(Site::Slot("Dup", Want::U32, n));
            we(n, k);
            we(b, k);
        }
        E::SubSeq(s, a, n) | E::Inflate(s, a, n) => {
            k(Site::Slot("SubSeq", Want::Seq, s));
            k(Site::Slot("SubSeq", Want::U32, a));
            k(Site::Slot("SubSeq", Want::U32, n));
            we(s, k);
            we(a, k);
            we(n, k);
        }
        E::Ix(s, i) => {
            k(Site::Slot("Ix", Want::Seq, s));
            k(Site::Slot("Ix", Want::U32, i));
            we(s, k);
            we(i, k);
        }
        E::FlatMap(_, b, s) => {
            k(Site::Slot("FlatMap", Want::Seq, b));
            k(Site::Slot("FlatMap", Want::Seq, s));
            we(b, k);
            we(s, k);
        }
        E::FlatMapAccum(_, _, b, i, _, s) | E::Fold(_, _, b, i, _, s) => {
            k(Site::Slot("Fold", Want::Seq, s));
            we(b, k);
            we(i, k);
            we(s, k);
        }
        E::FlatMapList(_, _, b, _, s) => {
            k(Site::Slot("FlatMapList", Want::Seq, b));
            k(Site::Slot("FlatMapList", Want::Seq, s));
            we(b, k);
            we(s, k);
        }
        E::Find(_, _, key, q, s) => {
            k(Site::Slot("Find", Want::Num, q));
            k(Site::Slot("Find", Want::Seq, s));
            we(key, k);
            we(q, k);
            we(s, k);
        }
    }
}

fn wv(v: &mut VE, k: &mut dyn FnMut(Site<'_>)) {
    k(Site::View(v));
    for o in v.offs.iter_mut() {
        k(Site::Slot("ViewOffset", Want::Num, o));
        we(o, k);
    }
}

fn wf(f: &mut F, k: &mut dyn FnMut(Site<'_>)) {
    k(Site::Fmt(f));
    match f {
        F::Fail | F::Eoi | F::Align(_) | F::Byte(_) | F::Apply(_) | F::Pos | F::SkipRem | F::None | F::Int(..) => {}
        F::Variant(_, g) | F::Repeat(g) | F::Repeat1(g) | F::Peek(g) | F::PeekNot(g) | F::Bits(g) | F::Hint(_, g) | F::Some(g) | F::LetView(_, g) | F::Phantom(g) => wf(g, k),
        F::Union(gs) | F::UnionND(gs) | F::Tuple(gs) | F::Sequence(gs) => gs.iter_mut().for_each(|g| wf(g, k)),
        F::RepeatCount(e, g) => {
            k(Site::Slot("RepeatCount", Want::Num, e));
            we(e, k);
            wf(g, k);
        }
        F::RepeatBetween(a, b, g) => {
            k(Site::Slot("RepeatBetween", Want::Num, a));
            k(Site::Slot("RepeatBetween", Want::Num, b));
            we(a, k);
            we(b, k);
            wf(g, k);
        }
        F::UntilLast(_, e, g) | F::UntilSeq(_, e, g) => {
            k(Site::Slot("Until", Want::Bool, e));
            we(e, k);
            wf(g, k);
        }
        F::AccumUntil { done, upd, init, f: g, .. } => {
            k(Site::Slot("AccumUntil", Want::Bool, done));
            we(done, k);
            we(upd, k);
            we(init, k);
            wf(g, k);
        }
        F::ForEach(e, _, g) => {
            k(Site::Slot("ForEach", Want::Seq, e));
            we(e, k);
            wf(g, k);
        }
        F::Maybe(e, g) => {
            k(Site::Slot("Maybe", Want::Bool, e));
            we(e, k);
            wf(g, k);
        }
        F::Slice(e, g) => {
            k(Site::Slot("Slice", Want::Num, e));
            we(e, k);
            wf(g, k);
        }
        F::RelOff(a, b, g) => {
            k(Site::Slot("RelOff", Want::Num, a));
            k(Site::Slot("RelOff", Want::Num, b));
            we(a, k);
            we(b, k);
            wf(g, k);
        }
        F::Map(g, _, e) => {
            we(e, k);
            wf(g, k);
        }
        F::Where(g, _, e, _) => {
            k(Site::Slot("Where", Want::Bool, e));
            we(e, k);
            wf(g, k);
        }
        F::Compute(e) => we(e, k),
        F::Let(_, e, g) => {
            we(e, k);
            wf(g, k);
        }
        F::Match(h, bs) => {
            we(h, k);
            bs.iter_mut().for_each(|b| wf(&mut b.1, k));
        }
        F::Huffman(_, l, v, g) => {
            k(Site::Slot("Huffman", Want::Seq, l));
            we(l, k);
            if let Some(v) = v {
                k(Site::Slot("HuffmanValues", Want::Seq, v));
                we(v, k);
            }
            wf(g, k);
        }
        F::DecodeBytes(e, g) => {
            k(Site::Slot("DecodeBytes", Want::Bytes, e));
            we(e, k);
            wf(g, k);
        }
        F::LetF(a, _, g) | F::Seq2(a, g) => {
            wf(a, k);
            wf(g, k);
        }
        F::Capture(v, e) | F::ReadArray(v, e, _) => {
            wv(v, k);
            k(Site::Slot("Capture", Want::Num, e));
            we(e, k);
        }
        F::Reify(v) => wv(v, k),
        F::FromView(v, g) => {
            wv(v, k);
            wf(g, k);
        }
        F::Permit(g, e) => {
            we(e, k);
            wf(g, k);
        }
        F::Call(_, es, vs) => {
            es.iter_mut().for_each(|e| we(e, k));
            vs.iter_mut().for_each(|v| wv(v, k));
        }
        F::Record(fs) => fs.iter_mut().for_each(|x| wf(&mut x.2, k)),
    }
}

/// a sub-format that never fails outright, so its type cannot be the empty one
fn hole_free(f: &F) -> bool {
    match f {
        F::Fail => false,
        F::Byte(_) | F::Int(..) | F::Tuple(_) | F::Record(_) | F::Align(_) | F::Eoi => true,
        F::Variant(..) | F::Repeat(_) | F::Repeat1(_) | F::RepeatCount(..) | F::Some(_) | F::Maybe(..) => true,
        _ => false,
    }
}

fn odd() -> E {
    E::Tuple((0..7).map(|i| E::U(K::U8, i)).collect())
}

/// what happened at the chosen place, or None when it cannot be broken
fn breakit(s: Site<'_>, t: &mut Tape, defs: &[Def]) -> Option<String> {
    let nope = L::from("nowhere");
    match s {
        Site::Slot(n, w, e) => {
            *e = match w {
                Want::Bool => t.pick(&[E::U(K::U8, 1), odd(), E::Seq(vec![E::Bool(true)])]).clone(),
                Want::Num => t.pick(&[E::Bool(true), odd(), E::Seq(vec![E::U(K::U8, 1)])]).clone(),
                Want::U32 => t.pick(&[E::Bool(true), E::U(K::U8, 0), E::U(K::U64, 0), odd()]).clone(),
                Want::Seq => t.pick(&[E::Bool(true), E::U(K::U8, 0), odd()]).clone(),
                Want::Bytes => t.pick(&[E::Bool(true), E::Seq(vec![E::Bool(true)]), E::Seq(vec![E::U(K::U16, 1)]), odd()]).clone(),
            };
            Some(if w == Want::U32 && matches!(e, E::U(..)) { "slot-narrow-index".into() } else { format!("place-{n}-{w:?}") })
        }
        Site::View(v) => {
            v.var = nope;
            Some("unbound-view".into())
        }
        Site::Expr(e) => Some(match e {
            E::Var(l) => {
                *l = nope;
                "unbound-variable".into()
            }
            E::Op(_, a, b) => {
                let (k, j) = *t.pick(&[(K::U8, K::U16), (K::U32, K::U16), (K::U64, K::U32)]);
                **a = E::As(k, a.clone());
                **b = E::As(j, b.clone());
                "mixed-widths-op".into()
            }
            E::Rel(_, a, b) => {
                let (k, j) = *t.pick(&[(K::U8, K::U16), (K::U32, K::U16), (K::U64, K::U32)]);
                **a = E::As(k, a.clone());
                **b = E::As(j, b.clone());
                "mixed-widths-rel".into()
            }
            E::Not(a) => {
                **a = E::U(K::U8, 0);
                "not-of-int".into()
            }
            E::Succ(a) | E::Pred(a) => {
                **a = E::Bool(true);
                "succ-of-bool".into()
            }
            E::As(_, a) => {
                **a = E::Bool(true);
                "cast-of-bool".into()
            }
            E::AsChar(a) => {
                **a = E::Bool(true);
                "char-of-bool".into()
            }
            E::End(k, _, a) => {
                let n = k.bits() as usize / 8;
                **a = match t.below(2) {
                    0 => E::Tuple(vec![E::U(K::U8, 0); n + 1]),
                    _ => E::Tuple(vec![E::U(K::U16, 0); n]),
                };
                "byte-order-arity".into()
            }
            E::Proj(_, i) => {
                *i += 20;
                "projection-out-of-range".into()
            }
            E::Field(_, l) => {
                *l = nope;
                "unknown-field".into()
            }
            E::Seq(es) if !es.is_empty() => {
                es.push(odd());
                es.push(E::Bool(true));
                "mixed-sequence".into()
            }
            E::Match(_, bs) => {
                if t.chance(50) {
                    bs[0].0 = P::Tuple(vec![P::Wild; 9]);
                    "pattern-type".into()
                } else {
                    let p = bs.last().unwrap().0.clone();
                    bs.push((p.clone(), odd()));
                    bs.push((p, E::Bool(false)));
                    "mixed-arms".into()
                }
            }
            E::Destr(_, p, _) => {
                *p = P::Tuple(vec![P::Wild; 9]);
                "destructure-type".into()
            }
            E::Fold(_, _, b, i, ..) => {
                *if t.chance(50) { b } else { i } = Box::new(odd());
                "fold-type".into()
            }
            E::FlatMapAccum(_, _, b, i, ..) => {
                *if t.chance(50) { b } else { i } = Box::new(odd());
                "accum-type".into()
            }
            E::Find(_, _, key, ..) => {
                **key = E::Bool(true);
                "key-type".into()
            }
            _ => return None,
        }),
        Site::Fmt(f) => Some(match f {
            F::Union(gs) | F::UnionND(gs) if gs.iter().all(hole_free) => {
                gs.push(F::Tuple(vec![F::Byte(BS::full()); 7]));
                "mixed-alternatives".into()
            }
            F::Sequence(gs) if !gs.is_empty() && gs.iter().all(hole_free) => {
                gs.push(F::Tuple(vec![F::Byte(BS::full()); 7]));
                "mixed-sequence-format".into()
            }
            F::Match(_, bs) => {
                if t.chance(50) {
                    bs[0].0 = P::Tuple(vec![P::Wild; 9]);
                    "format-pattern-type".into()
                } else {
                    let p = bs.last().unwrap().0.clone();
                    bs.push((p.clone(), F::Compute(odd())));
                    bs.push((p, F::Compute(E::Bool(false))));
                    "mixed-format-arms".into()
                }
            }
            F::Apply(l) => {
                *l = nope;
                "unbound-code".into()
            }
            F::Permit(g, e) if hole_free(g) => {
                *e = odd();
                "permit-type".into()
            }
            F::AccumUntil { init, upd, .. } => {
                *if t.chance(50) { init } else { upd } = odd();
                "accum-until-type".into()
            }
            F::Call(i, es, vs) => match t.below(4) {
                0 => {
                    es.push(E::Bool(true));
                    "extra-argument".into()
                }
                1 if !es.is_empty() => {
                    es.pop();
                    "missing-argument".into()
                }
                2 if !es.is_empty() => {
                    let n = t.below(es.len());
                    es[n] = if defs[*i].args[n].1 == Ty::Bool { E::U(K::U8, 0) } else { E::Bool(true) };
                    if matches!(defs[*i].args[n].1, Ty::Tuple(_)) {
                        es[n] = E::Bool(false);
                    }
                    "argument-type".into()
                }
                _ if !vs.is_empty() => {
                    vs.pop();
                    "missing-view".into()
                }
                _ => {
                    es.push(E::U(K::U8, 0));
                    "extra-argument".into()
                }
            },
            _ => return None,
        }),
    }
}

fn ill(cx: &mut Ctx<'_>) -> Outcome {
    let mut prog = G::new(cx.tape, Prof::interp()).prog();
    let mut n = 0;
    wf(&mut prog.root, &mut |_| n += 1);
    let defs = prog.defs.clone();
    let mut what = None;
    for _ in 0..8 {
        let at = cx.tape.below(n.max(1));
        let mut i = 0;
        let t = &mut *cx.tape;
        wf(&mut prog.root, &mut |s| {
            if i == at && what.is_none() {
                what = breakit(s, t, &defs);
            }
            i += 1;
        });
        if what.is_some() {
            break;
        }
    }
    let Some(what) = what else { return Outcome::Discard("no place to break") };
    if cx.want_text {
        cx.text = format!("{what}\n{prog:?}\n");
    }
    let direct = guarded(|| {
        let (mut m, f) = build(&prog);
        m.define_format("root", f);
    });
    let checker = guarded(|| {
        let (m, f) = build(&prog);
        doodle::typecheck(&m, &f).map_err(|e| e.to_string())
    });
    let d = direct.is_err();
    let c = !matches!(checker, Ok(Ok(_)));
    if cx.want_text {
        cx.text.push_str(&format!("direct refuses: {d} {direct:?}\nchecker refuses: {c} {checker:?}\n"));
    }
    if !d && !c {
        return Outcome::fail(format!("accepted-{what}"), format!("both checkers accept {checker:?}"));
    }
    // the unification checker admits indices of any width where the direct inference insists on 32 bits
    if !c && !what.starts_with("slot-") {
        return Outcome::fail(format!("checker-accepted-{what}"), format!("the checker accepts {checker:?}"));
    }
    if !d {
        return Outcome::fail(format!("direct-accepted-{what}"), "the direct inference accepts");
    }
    Outcome::Pass { nontrivial: n >= 4, key: hash_bytes(format!("{prog:?}").as_bytes()), classes: vec!["refused"], sub: 2 }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C06", sub: "types", rule: RULE, quick: 400_000, thorough: 10_000_000, f: &case },
        Fam { prop: "C06", sub: "ill-typed", rule: RULE2, quick: 300_000, thorough: 6_000_000, f: &ill },
    ]
}
