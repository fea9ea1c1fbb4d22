//! C15: the numeric sub-language computes exactly or reports failure.
use super::c01::panic_sig;
use crate::runner::*;
use crate::tape::{Tape, hash_bytes, mix};
use doodle::numeric::core::{
    BasicBinOp, BasicUnaryOp, CastOp, EvalError, Expr as N, MachineRep, NumRep, TypedConst, VOID, Value as NV, bitwise_cast,
};
use doodle::numeric::eval::{self, EvalError as RunError};
use doodle::numeric::helper;
use doodle::prelude::*;
use doodle::read::ReadCtxt;
use doodle::{Expr, Format, FormatModule, IntRel, Pattern, decoder::Value};
use num_bigint::BigInt;

// ------------------------------------------------------------------ run-time functions

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
    Cast,
    Neg,
    Abs,
}
use Op::*;

#[derive(Clone, Debug, PartialEq)]
enum Got {
    Val(i128),
    Out(BigInt),
    Undefined,
}

struct Func {
    name: &'static str,
    op: Op,
    l: &'static str,
    r: Option<&'static str>,
    o: &'static str,
    run: fn(i128, i128) -> Got,
}

fn got<T: Copy + Into<i128>>(e: eval::Eval<T>) -> Got {
    match e.eval() {
        Ok(v) => Got::Val(v.into()),
        Err(RunError::Indirect(b)) => Got::Out(b),
        Err(RunError::NotANumber) => Got::Undefined,
    }
}

macro_rules! b {
    ($f:ident, $op:ident, $l:ident, $r:ident, $o:ident) => {
        Func { name: stringify!($f), op: $op, l: stringify!($l), r: Some(stringify!($r)), o: stringify!($o), run: |x, y| got::<$o>(eval::$f(x as $l, y as $r)) }
    };
}
macro_rules! u {
    ($f:ident, $op:ident, $l:ident, $o:ident) => {
        Func { name: stringify!($f), op: $op, l: stringify!($l), r: None, o: stringify!($o), run: |x, _| got::<$o>(eval::$f(x as $l)) }
    };
}
static TABLE: &[Func] = &include!("c15_table.rs");

fn range(t: &str) -> (i128, i128) {
    let n: u32 = t[1..].parse().unwrap();
    if t.starts_with('u') { (0, (1i128 << n) - 1) } else { (-(1i128 << (n - 1)), (1i128 << (n - 1)) - 1) }
}

fn operand(t: &mut Tape, r: (i128, i128)) -> i128 {
    let w = (r.1 - r.0) as u128;
    let v = match t.below(8) {
        0 => r.0,
        1 => r.1,
        2 => r.0 + t.draw(3) as i128,
        3 => r.1 - t.draw(3) as i128,
        4 => t.draw(6) as i128 - 3,
        5 => {
            let s = t.draw(65) as u32;
            let k = (1i128 << s) + t.draw(2) as i128 - 1;
            if t.chance(50) { -k } else { k }
        }
        6 => t.draw(40) as i128 - 20,
        _ => r.0 + (t.raw() as u128 % (w + 1)) as i128,
    };
    v.clamp(r.0, r.1)
}

fn machine(cx: &mut Ctx<'_>) -> Outcome {
    let f = &TABLE[cx.tape.below(TABLE.len())];
    let x = operand(cx.tape, range(f.l));
    let y = match f.r {
        Some(r) => operand(cx.tape, range(r)),
        None => 0,
    };
    let exact: Option<BigInt> = {
        let (a, b) = (BigInt::from(x), BigInt::from(y));
        match f.op {
            Add => Some(a + b),
            Sub => Some(a - b),
            Mul => Some(a * b),
            Div if y == 0 => None,
            Div => Some(BigInt::from(if (x < 0) == (y < 0) { x.abs() / y.abs() } else { -(x.abs() / y.abs()) })),
            Rem if y <= 0 => None,
            Rem => Some(BigInt::from(if x < 0 { -(x.abs() % y) } else { x % y })),
            Cast => Some(a),
            Neg => Some(-a),
            Abs => Some(BigInt::from(x.abs())),
        }
    };
    let ro = range(f.o);
    let want = match &exact {
        None => Got::Undefined,
        Some(v) if *v >= BigInt::from(ro.0) && *v <= BigInt::from(ro.1) => Got::Val(i128::try_from(v.clone()).unwrap()),
        Some(v) => Got::Out(v.clone()),
    };
    if cx.want_text {
        cx.text = format!("{}({x}, {y}) should give {want:?}", f.name);
    }
    match guarded(|| (f.run)(x, y)) {
        Err(p) => Outcome::fail(format!("{}:panic:{}", f.name, panic_sig(&p)), format!("{}({x}, {y}) panicked: {p}; expected {want:?}", f.name)),
        Ok(g) if g != want => Outcome::fail(format!("{}:{}", f.name, kind(&want)), format!("{}({x}, {y}) = {g:?}; expected {want:?}", f.name)),
        Ok(_) => Outcome::Pass {
            nontrivial: !matches!(want, Got::Val(v) if v == x) || f.op == Cast,
            key: hash_bytes(format!("{}{x},{y}", f.name).as_bytes()),
            classes: vec![kind(&want)],
            sub: 0,
        },
    }
}

fn kind(g: &Got) -> &'static str {
    match g {
        Got::Val(_) => "value",
        Got::Out(_) => "out-of-range",
        Got::Undefined => "undefined",
    }
}

// ------------------------------------------------------------------ expression trees

const REPS: [(MachineRep, &str); 8] = [
    (MachineRep::U8, "u8"),
    (MachineRep::U16, "u16"),
    (MachineRep::U32, "u32"),
    (MachineRep::U64, "u64"),
    (MachineRep::I8, "i8"),
    (MachineRep::I16, "i16"),
    (MachineRep::I32, "i32"),
    (MachineRep::I64, "i64"),
];

/// `None`: no representation fixed yet
type Rep = Option<usize>;

#[derive(Clone, Debug)]
enum T {
    Const(BigInt, Rep),
    Bin(u8, Rep, Box<T>, Box<T>),
    Un(u8, Rep, Box<T>),
    Cast(bool, usize, Box<T>),
    Var(usize),
}

#[derive(Clone, Debug, PartialEq)]
struct Res {
    v: BigInt,
    rep: Rep,
    valid: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Bad {
    DivZero,
    RemNonPos,
    Ambiguous,
    /// a bitwise cast of a value its own representation cannot hold
    Unrepresentable,
}

fn fits(v: &BigInt, rep: Rep) -> bool {
    match rep {
        None => true,
        Some(i) => {
            let (a, b) = range(REPS[i].1);
            *v >= BigInt::from(a) && *v <= BigInt::from(b)
        }
    }
}

fn small(v: &BigInt) -> Option<i128> {
    i128::try_from(v.clone()).ok()
}

fn wrap(v: i128, to: usize) -> i128 {
    let n: u32 = REPS[to].1[1..].parse().unwrap();
    let m = 1i128 << n;
    let r = v.rem_euclid(m);
    if REPS[to].1.starts_with('i') && r >= m / 2 { r - m } else { r }
}

fn reference(t: &T, env: &[(BigInt, usize)]) -> Result<Res, Bad> {
    let done = |v: BigInt, rep: Rep, ok: bool| Res { valid: ok && fits(&v, rep), v, rep };
    match t {
        T::Const(v, r) => Ok(done(v.clone(), *r, true)),
        T::Var(i) => Ok(done(env[*i].0.clone(), Some(env[*i].1), true)),
        T::Bin(op, out, l, r) => {
            let (l, r) = (reference(l, env)?, reference(r, env)?);
            let zero = BigInt::from(0);
            let (la, ra) = (BigInt::from(l.v.magnitude().clone()), BigInt::from(r.v.magnitude().clone()));
            let v = match op {
                0 => &l.v + &r.v,
                1 => &l.v - &r.v,
                2 => &l.v * &r.v,
                3 if r.v == zero => return Err(Bad::DivZero),
                3 => {
                    let q = la / ra;
                    if (l.v < zero) != (r.v < zero) { -q } else { q }
                }
                _ if r.v <= zero => return Err(Bad::RemNonPos),
                _ => {
                    let m = la % ra;
                    if l.v < zero { -m } else { m }
                }
            };
            let rep = match (out, l.rep, r.rep) {
                (Some(o), ..) => Some(*o),
                (None, None, x) | (None, x, None) => x,
                (None, Some(a), Some(b)) if a == b => Some(a),
                _ => return Err(Bad::Ambiguous),
            };
            Ok(done(v, rep, l.valid && r.valid))
        }
        T::Un(op, out, x) => {
            let x = reference(x, env)?;
            let v = match op {
                0 => -x.v.clone(),
                1 => BigInt::from(x.v.magnitude().clone()),
                2 => &x.v + 1,
                _ => &x.v - 1,
            };
            Ok(done(v, out.or(x.rep), x.valid))
        }
        T::Cast(bits, to, x) => {
            let x = reference(x, env)?;
            let v = if *bits && x.rep.is_some() {
                if !fits(&x.v, x.rep) {
                    return Err(Bad::Unrepresentable);
                }
                BigInt::from(wrap(small(&x.v).unwrap(), *to))
            } else {
                x.v.clone()
            };
            Ok(done(v, Some(*to), x.valid))
        }
    }
}

/// The representation each node settles on, if the annotations determine one.
fn typing(t: &T, env: &[(BigInt, usize)]) -> Result<Rep, ()> {
    Ok(match t {
        T::Const(_, r) => *r,
        T::Var(i) => Some(env[*i].1),
        T::Bin(_, out, l, r) => {
            let (l, r) = (typing(l, env)?, typing(r, env)?);
            match (out, l, r) {
                (Some(o), ..) => Some(*o),
                (None, None, x) | (None, x, None) => x,
                (None, Some(a), Some(b)) if a == b => Some(a),
                _ => return Err(()),
            }
        }
        T::Un(_, out, x) => out.or(typing(x, env)?),
        T::Cast(_, to, x) => {
            typing(x, env)?;
            Some(*to)
        }
    })
}

fn has_auto(t: &T) -> bool {
    match t {
        T::Const(_, r) => r.is_none(),
        T::Var(_) => false,
        T::Bin(_, _, l, r) => has_auto(l) || has_auto(r),
        T::Un(_, _, x) | T::Cast(_, _, x) => has_auto(x),
    }
}

fn has_var(t: &T) -> bool {
    match t {
        T::Const(..) => false,
        T::Var(_) => true,
        T::Bin(_, _, l, r) => has_var(l) || has_var(r),
        T::Un(_, _, x) | T::Cast(_, _, x) => has_var(x),
    }
}

fn size(t: &T) -> usize {
    1 + match t {
        T::Const(..) | T::Var(_) => 0,
        T::Bin(_, _, l, r) => size(l) + size(r),
        T::Un(_, _, x) | T::Cast(_, _, x) => size(x),
    }
}

fn lower(t: &T) -> N {
    let mr = |r: &Rep| r.map(|i| REPS[i].0);
    match t {
        T::Const(v, r) => helper::expr_const(TypedConst::new(v.clone(), r.map_or(NumRep::Auto, |i| NumRep::Concrete(REPS[i].0)))),
        T::Var(i) => helper::num_var(format!("v{i}")),
        T::Bin(op, o, l, r) => {
            let op = [BasicBinOp::Add, BasicBinOp::Sub, BasicBinOp::Mul, BasicBinOp::Div, BasicBinOp::Rem][*op as usize];
            helper::binop_with_rep(op, mr(o), lower(l), lower(r))
        }
        T::Un(op, o, x) => {
            let op = [BasicUnaryOp::Negate, BasicUnaryOp::AbsVal, BasicUnaryOp::IntSucc, BasicUnaryOp::IntPred][*op as usize];
            helper::unary_with_rep(op, mr(o), lower(x))
        }
        T::Cast(bits, to, x) => {
            let op = if *bits { CastOp::bitwise(REPS[*to].0) } else { CastOp::arith(REPS[*to].0) };
            N::Cast(op, Box::new(lower(x)))
        }
    }
}

struct Gen<'a> {
    home: usize,
    env: &'a [(BigInt, usize)],
}

impl Gen<'_> {
    fn rep(&self, t: &mut Tape) -> usize {
        if t.chance(60) { self.home } else { t.below(8) as usize }
    }
    fn tree(&self, t: &mut Tape, d: u32) -> T {
        if d == 0 || t.chance(15) {
            if !self.env.is_empty() && t.chance(35) {
                return T::Var(t.below(self.env.len()));
            }
            let rep = if t.chance(25) { None } else { Some(self.rep(t)) };
            let r = range(REPS[rep.unwrap_or(self.home)].1);
            let mut v = operand(t, r);
            if t.chance(4) {
                v = v * 3 + 1;
            }
            return T::Const(BigInt::from(v), rep);
        }
        match t.weighted(&[6, 2, 2]) {
            0 => {
                let out = if t.chance(45) { Some(self.rep(t)) } else { None };
                T::Bin(t.below(5) as u8, out, Box::new(self.tree(t, d - 1)), Box::new(self.tree(t, d - 1)))
            }
            1 => {
                let out = if t.chance(40) { Some(self.rep(t)) } else { None };
                T::Un(t.below(4) as u8, out, Box::new(self.tree(t, d - 1)))
            }
            _ => T::Cast(t.chance(50), self.rep(t), Box::new(self.tree(t, d - 1))),
        }
    }
}

fn environment(t: &mut Tape) -> Vec<(BigInt, usize)> {
    (0..t.below(4))
        .map(|_| {
            let rep = t.below(8) as usize;
            (BigInt::from(operand(t, range(REPS[rep].1))), rep)
        })
        .collect()
}

fn bind(env: &[(BigInt, usize)], body: Format) -> Format {
    env.iter().enumerate().rev().fold(body, |f, (i, (v, rep))| {
        let n = small(v).unwrap();
        let e = match rep {
            0 => Expr::U8(n as u8),
            1 => Expr::U16(n as u16),
            2 => Expr::U32(n as u32),
            3 => Expr::U64(n as u64),
            _ => Expr::Numeric(Box::new(N::Const(TypedConst::new(v.clone(), NumRep::Concrete(REPS[*rep].0))))),
        };
        Format::Let(format!("v{i}").into(), Box::new(e), Box::new(f))
    })
}

fn same(c: &TypedConst, r: &Res) -> bool {
    c.as_raw_value() == &r.v && c.get_rep() == r.rep.map_or(NumRep::Auto, |i| NumRep::Concrete(REPS[i].0)) && c.is_representable() == fits(&r.v, r.rep)
}

fn trees(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let env = environment(t);
    let g = Gen { home: t.below(8) as usize, env: &env };
    let depth = t.range(1, 4) as u32;
    let tree = g.tree(t, depth);
    let want = reference(&tree, &env);
    let n = lower(&tree);
    if cx.want_text {
        cx.text = format!("{tree:?} with {env:?} should give {want:?}");
    }
    let mut classes = vec![];
    let describe = || format!("{tree:?} with {env:?}: expected {want:?}");
    if !has_var(&tree) {
        let got = guarded(|| (n.eval::<_, std::convert::Infallible>(VOID), n.eval_strict::<_, std::convert::Infallible>(VOID)));
        match (&want, got) {
            (Err(Bad::Unrepresentable), Err(_)) => {}
            (Err(Bad::Unrepresentable), Ok((_, Ok(s)))) if !s.is_valid() => {}
            (Err(Bad::Unrepresentable), Ok((_, Err(_)))) => {}
            (_, Err(p)) => return Outcome::fail(format!("tree-panic:{}", panic_sig(&p)), format!("{p}; {}", describe())),
            (Ok(w), Ok((Ok(NV::Const(a)), Ok(s)))) => {
                let NV::Const(b) = &s.value;
                if !same(&a, w) || !same(b, w) {
                    return Outcome::fail("tree-value", format!("eval {a:?}, strict {b:?}; {}", describe()));
                }
                if s.is_valid() != w.valid {
                    return Outcome::fail("tree-validity", format!("strict evaluation says valid={}; {}", s.is_valid(), describe()));
                }
            }
            (Err(Bad::DivZero), Ok((Err(EvalError::DivideByZero), Err(EvalError::DivideByZero))))
            | (Err(Bad::RemNonPos), Ok((Err(EvalError::RemainderNonPositive), Err(EvalError::RemainderNonPositive))))
            | (Err(Bad::Ambiguous), Ok((Err(EvalError::Ambiguous(..)), Err(EvalError::Ambiguous(..))))) => {}
            (_, Ok((a, b))) => return Outcome::fail("tree-error", format!("eval {a:?}, strict {:?}; {}", b.map(|s| (s.value, s.is_valid)), describe())),
        }
        classes.push("closed");
    } else {
        classes.push("open");
    }
    // through the interpreter, both decoders
    let f = bind(&env, Format::Compute(Box::new(Expr::Numeric(Box::new(n.clone())))));
    let mut m = FormatModule::new();
    let typed = typing(&tree, &env);
    let defined = guarded(|| {
        let r = m.define_format("t", f.clone());
        let ty = m.get_format_type(r.get_level()).clone();
        (m, r, ty)
    });
    let tc = {
        let m = FormatModule::new();
        guarded(|| doodle::typecheck(&m, &f).is_ok())
    };
    if let Err(p) = &tc {
        return Outcome::fail(format!("tree-typecheck-panic:{}", panic_sig(p)), format!("{p}; {}", describe()));
    }
    let tc = tc.unwrap();
    if !has_auto(&tree) {
        if tc != typed.is_ok() {
            return Outcome::fail("tree-typecheck", format!("type checker accepts: {tc}, annotations consistent: {}; {}", typed.is_ok(), describe()));
        }
    } else if tc && typed.is_err() {
        return Outcome::fail("tree-typecheck-auto", format!("type checker accepts an ambiguous tree; {}", describe()));
    }
    match (defined, &typed) {
        (Err(_), Err(())) => classes.push("refused"),
        (Err(p), Ok(_)) => return Outcome::fail(format!("tree-define:{}", panic_sig(&p)), format!("{p}; {}", describe())),
        (Ok((m, r, ty)), _) => {
            if let (Ok(Some(rep)), s) = (&typed, format!("{ty:?}")) {
                let want_ty = doodle::ValueType::from(REPS[*rep].0);
                if ty != want_ty {
                    return Outcome::fail("tree-type", format!("inferred type {s}, expected {want_ty:?}; {}", describe()));
                }
            }
            let prog = match guarded(|| doodle::decoder::Compiler::compile_program(&m, &r.call())) {
                Ok(Ok(p)) => p,
                Ok(Err(_)) | Err(_) => return Outcome::Discard("does not compile"),
            };
            let plain = guarded(|| prog.run(ReadCtxt::new(b"")).map(|x| x.0).map_err(|e| format!("{e:?}")));
            let loc = guarded(|| prog.run_with_loc(ReadCtxt::new(b"")).map(|x| Value::from(x.0.into_cow_value().into_owned())).map_err(|e| format!("{e:?}")));
            for (who, got) in [("plain", plain), ("located", loc)] {
                match (&want, got) {
                    (Err(_), Err(_)) | (Err(_), Ok(Err(_))) | (Err(Bad::Unrepresentable), _) => {}
                    (Ok(w), Ok(Ok(Value::Numeric(c)))) if same(&c, w) => {}
                    (_, got) => return Outcome::fail(format!("tree-interp-{who}"), format!("{who} decoder gives {got:?}; {}", describe())),
                }
            }
        }
    }
    match &want {
        Ok(w) if w.valid => classes.push("valid"),
        Ok(_) => classes.push("unrepresentable"),
        Err(Bad::Ambiguous) => classes.push("ambiguous"),
        Err(Bad::Unrepresentable) => classes.push("bad-bitwise"),
        Err(_) => classes.push("undefined"),
    }
    if has_auto(&tree) {
        classes.push("auto");
    }
    Outcome::Pass { nontrivial: size(&tree) >= 3, key: hash_bytes(format!("{tree:?}{env:?}").as_bytes()), classes, sub: 0 }
}

// ------------------------------------------------------------------ representations, comparisons, patterns

fn reps(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let (a, b) = (t.below(8) as usize, t.below(8) as usize);
    let (ra, rb) = (range(REPS[a].1), range(REPS[b].1));
    let v = operand(t, ra);
    let c = TypedConst::new(v, NumRep::Concrete(REPS[a].0));
    if cx.want_text {
        cx.text = format!("{v} as {} against {}", REPS[a].1, REPS[b].1);
    }
    let inside = rb.0 <= ra.0 && rb.1 >= ra.1;
    let bounds = REPS[a].0.as_bounds();
    let fail = |s: &str, m: String| Outcome::fail(format!("reps-{s}"), format!("{m} ({v} as {} against {})", REPS[a].1, REPS[b].1));
    if format!("{bounds}") != format!("{}", doodle::numeric::core::Bounds::new(ra.0.into(), ra.1.into())) {
        return fail("bounds", format!("bounds {bounds}"));
    }
    if REPS[b].0.encompasses(REPS[a].0) != inside || REPS[b].0.is_superset(REPS[a].0) != inside {
        return fail("encompasses", format!("encompasses {} superset {} expected {inside}", REPS[b].0.encompasses(REPS[a].0), REPS[b].0.is_superset(REPS[a].0)));
    }
    let w = wrap(v, b);
    match guarded(|| bitwise_cast(v.into(), NumRep::Concrete(REPS[a].0), REPS[b].0)) {
        Ok(g) if g == BigInt::from(w) => {}
        g => return fail("bitwise", format!("bitwise cast gives {g:?}, expected {w}")),
    }
    let fit = v >= rb.0 && v <= rb.1;
    if TypedConst::new(v, NumRep::Concrete(REPS[b].0)).is_representable() != fit {
        return fail("representable", format!("representable, expected {fit}"));
    }
    if !c.is_representable() || !TypedConst::new_auto(v).is_representable() {
        return fail("representable", "own representation".into());
    }
    if c.as_usize().ok().map(|x| x as i128) != (0..=u64::MAX as i128).contains(&v).then_some(v) {
        return fail("usize", format!("as_usize {:?}", c.as_usize()));
    }
    let u8want = (a == 0).then_some(v);
    if c.get_as_u8().ok().map(|x| x as i128) != u8want || c.get_as_unsized::<u8>().ok().map(|x| x as i128) != u8want {
        return fail("as-u8", format!("get_as_u8 {:?}", c.get_as_u8()));
    }
    let auto = TypedConst::new_auto(v);
    for (k, got) in [(0, auto.get_as_unsized::<u8>().ok().map(|x| x as i128)), (1, auto.get_as_unsized::<u16>().ok().map(|x| x as i128)), (2, auto.get_as_unsized::<u32>().ok().map(|x| x as i128)), (3, auto.get_as_unsized::<u64>().ok().map(|x| x as i128))] {
        let r = range(REPS[k].1);
        if got != (v >= r.0 && v <= r.1).then_some(v) {
            return fail("auto-as", format!("{v} as {} gives {got:?}", REPS[k].1));
        }
    }
    // comparisons inside the description language
    let v2 = if t.chance(30) { v } else { operand(t, ra) };
    let rel = t.below(6) as usize;
    let rels = [IntRel::Eq, IntRel::Ne, IntRel::Lt, IntRel::Gt, IntRel::Lte, IntRel::Gte];
    let want = [v == v2, v != v2, v < v2, v > v2, v <= v2, v >= v2][rel];
    let num = |n: i128| Expr::Numeric(Box::new(N::Const(TypedConst::new(n, NumRep::Concrete(REPS[a].0)))));
    let native = |n: i128| match a {
        0 => Some(Expr::U8(n as u8)),
        1 => Some(Expr::U16(n as u16)),
        2 => Some(Expr::U32(n as u32)),
        3 => Some(Expr::U64(n as u64)),
        _ => None,
    };
    let side = t.below(3);
    let (l, r) = match (side, native(v), native(v2)) {
        (1, Some(l), _) => (l, num(v2)),
        (2, _, Some(r)) => (num(v), r),
        _ => (num(v), num(v2)),
    };
    // ranges and constants as patterns
    let (lo, hi) = {
        let (x, y) = (operand(t, ra), operand(t, ra));
        (x.min(y), x.max(y))
    };
    let z = if t.chance(40) { v } else { lo };
    let pick = t.below(4);
    let (pat, hit) = match pick {
        0 => (Pattern::ZConst(z.into()), v == z),
        1 => (Pattern::ZRange(doodle::numeric::core::Bounds::new(lo.into(), hi.into())), lo <= v && v <= hi),
        2 if a < 4 && hi <= usize::MAX as i128 => (Pattern::Int(doodle::bounds::Bounds::new(lo as usize, hi as usize)), lo <= v && v <= hi),
        _ => match a {
            0 => (Pattern::U8(z as u8), v == z),
            1 => (Pattern::U16(z as u16), v == z),
            2 => (Pattern::U32(z as u32), v == z),
            3 => (Pattern::U64(z as u64), v == z),
            _ => (Pattern::ZConst(z.into()), v == z),
        },
    };
    let head = if t.chance(50) { native(v).unwrap_or(num(v)) } else { num(v) };
    let cmp = Expr::IntRel(rels[rel], Box::new(l), Box::new(r));
    let mat = Expr::Match(Box::new(head), vec![(pat.clone(), Expr::Bool(true)), (Pattern::Wildcard, Expr::Bool(false))]);
    let f = Format::Compute(Box::new(Expr::Tuple(vec![cmp, mat])));
    let m = FormatModule::new();
    let prog = match guarded(|| doodle::decoder::Compiler::compile_program(&m, &f)) {
        Ok(Ok(p)) => p,
        x => return fail("compile", format!("{:?}", x.err())),
    };
    let exp = (want, hit);
    let read = |v: Value| match v {
        Value::Tuple(vs) => match (&vs[0], &vs[1]) {
            (Value::Bool(a), Value::Bool(b)) => Some((*a, *b)),
            _ => None,
        },
        _ => None,
    };
    let plain = guarded(|| prog.run(ReadCtxt::new(b"")).ok().and_then(|x| read(x.0)));
    let loc = guarded(|| prog.run_with_loc(ReadCtxt::new(b"")).ok().and_then(|x| read(x.0.into_cow_value().into_owned())));
    for (who, g) in [("plain", plain), ("located", loc)] {
        if g != Ok(Some(exp)) {
            return fail(&format!("compare-{who}"), format!("{who}: {g:?}, expected {exp:?} for {f:?} (second operand {v2})"));
        }
    }
    Outcome::Pass { nontrivial: a != b, key: mix(&[a as u64, b as u64, v as u64, v2 as u64, rel as u64, side as u64]), classes: vec![if inside { "inside" } else { "lossy" }], sub: 0 }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C15", sub: "functions", rule: "the result differs from the first operand, or the operation is a cast", quick: 2_000_000, thorough: 60_000_000, f: &machine },
        Fam { prop: "C15", sub: "trees", rule: "at least three nodes", quick: 500_000, thorough: 15_000_000, f: &trees },
        Fam { prop: "C15", sub: "representations", rule: "two different representations", quick: 300_000, thorough: 8_000_000, f: &reps },
    ]
}
