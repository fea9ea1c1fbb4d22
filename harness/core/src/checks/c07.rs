//! C07: expression evaluation (plain and located) against the model's exact evaluator, and the static
//! range of a numeric expression against its value.
use crate::ast::*;
use crate::checks::c01::{eq, hex, panic_sig};
use crate::r#gen::{Cx, G, Prof, inputs, num, op, rel, var};
use crate::model::{Bind, M, Env, Stop, push};
use crate::runner::*;
use crate::tape::{Tape, hash_bytes, mix};
use doodle::decoder::Compiler;
use doodle::read::ReadCtxt;

pub const R_EXPR: &str = "non-trivial: the expression was evaluated on an accepted input and has at least 4 nodes; distinct by (description, input)";
pub const R_ARITH: &str = "non-trivial: the exact result is representable, so the evaluation was compared; distinct by (expression, operand values)";
pub const R_SEQ: &str = "non-trivial: the consumed sequence has at least 2 elements; distinct by (expression, input)";
pub const R_BOUNDS: &str = "non-trivial: the computed range is narrower than everything; distinct by (expression, values)";

const KS: [K; 4] = [K::U8, K::U16, K::U32, K::U64];

fn bx(e: E) -> Box<E> {
    Box::new(e)
}

/// run plain and located, compare both with the model
fn judge(cx: &mut Ctx<'_>, prog: &Prog, ins: &[Vec<u8>]) -> Result<(usize, u64, &'static str), Outcome> {
    if cx.want_text {
        cx.text = format!("{prog:?}\n");
    }
    let built = guarded(|| {
        let (m, f) = build(prog);
        Compiler::compile_program(&m, &f).map_err(|e| e.to_string())
    });
    let p = match built {
        Err(e) => return Err(Outcome::fail(format!("build-{}", panic_sig(&e)), e)),
        Ok(Err(e)) => return Err(Outcome::fail("compile-refused", e)),
        Ok(Ok(p)) => p,
    };
    let mut n = 0;
    let mut key = 0;
    let mut why = "";
    for inp in ins {
        let want = M::strict(prog).run(inp);
        if let Err(Stop::Partial(r)) = want {
            why = r;
            continue;
        }
        if cx.want_text {
            cx.text.push_str(&format!("input [{}] expect {want:?}\n", hex(inp)));
        }
        for located in [false, true] {
            let got = guarded(|| {
                if located {
                    p.run_with_loc(ReadCtxt::new(inp)).map(|(v, r)| (norm(&v.into_cow_value()), r.remaining().len())).map_err(|e| format!("{e:?}"))
                } else {
                    p.run(ReadCtxt::new(inp)).map(|(v, r)| (norm(&v), r.remaining().len())).map_err(|e| format!("{e:?}"))
                }
            });
            let who = if located { "located" } else { "plain" };
            match (&want, got) {
                (_, Err(e)) => return Err(Outcome::fail(format!("{who}-{}", panic_sig(&e)), format!("panic {e} on [{}]; expected {want:?}", hex(inp)))),
                (Err(_), Ok(Err(_))) => {}
                (Ok((v, ..)), Ok(Ok((w, _)))) => {
                    if !eq(v, &w) {
                        return Err(Outcome::fail(format!("{who}-value"), format!("input [{}]: expected {v:?}, got {w:?}", hex(inp))));
                    }
                    n += 1;
                    key = mix(&[hash_bytes(format!("{prog:?}").as_bytes()), hash_bytes(inp)]);
                }
                (w, g) => return Err(Outcome::fail(format!("{who}-acceptance"), format!("input [{}]: expected {w:?}, got {g:?}", hex(inp)))),
            }
        }
    }
    Ok((n, key, why))
}

// ------------------------------------------------------------ any expression over produced values

fn exprs(cx: &mut Ctx<'_>) -> Outcome {
    let mut g = G::new(cx.tape, Prof { fuel: 14, max_defs: 0, ..Prof::interp() });
    let nv = g.t.range(1, 3);
    let mut c = Cx::default();
    let mut binds = vec![];
    for i in 0..nv {
        let ty = g.ty(2);
        let f = g.fmt(&c, &ty);
        let l = L::from(format!("in{i}"));
        c = c.bind(&l, &ty);
        binds.push((l, f));
    }
    let ty = g.ty(2);
    let e = g.expr(&c, &ty, 4);
    let nodes = format!("{e:?}").matches('(').count();
    let mut root = F::Compute(e);
    for (l, f) in binds.into_iter().rev() {
        root = F::LetF(Box::new(f), l, Box::new(root));
    }
    let prog = Prog { defs: vec![], root, ty };
    let ins = inputs(&prog, cx.tape, 2);
    match judge(cx, &prog, &ins) {
        Err(o) => o,
        Ok((0, _, "")) => Outcome::Pass { nontrivial: false, key: 0, classes: vec!["rejected"], sub: 1 },
        Ok((0, _, why)) => Outcome::Discard(why),
        Ok((n, key, _)) => Outcome::Pass { nontrivial: nodes >= 4, key, classes: vec!["evaluated"], sub: n as u64 },
    }
}

// ------------------------------------------------------------ operators at their edges

fn operand(t: &mut Tape, k: K, n: u64, body: &mut Vec<(L, F)>, input: &mut Vec<u8>) -> E {
    match t.below(6) {
        0 | 1 => num(k, n),
        2 if k != K::U8 => {
            // assembled from literal bytes
            let be = t.chance(50);
            let w = k.bits() as usize / 8;
            let mut bs: Vec<u8> = n.to_be_bytes()[8 - w..].to_vec();
            if !be {
                bs.reverse();
            }
            E::End(k, be, bx(E::Tuple(bs.iter().map(|x| num(K::U8, *x as u64)).collect())))
        }
        3 => {
            // widened from the narrowest width that holds it
            let k2 = KS.into_iter().find(|k| n <= k.top()).unwrap();
            E::As(k, bx(num(k2, n)))
        }
        _ => {
            let be = t.chance(50);
            let w = k.bits() as usize / 8;
            let mut bs: Vec<u8> = n.to_be_bytes()[8 - w..].to_vec();
            if !be {
                bs.reverse();
            }
            input.extend(&bs);
            let l = L::from(format!("in{}", body.len()));
            let mut f = F::Int(k, be);
            match t.below(5) {
                0 => f = F::Map(Box::new(f), L::from("q"), var(&L::from("q"))),
                1 => {
                    f = F::UnionND(vec![f, F::Compute(num(k, 0))]);
                }
                2 => f = F::Match(E::Bool(true), vec![(P::Bool(true), f), (P::Bool(false), F::Compute(num(k, 0)))]),
                _ => {}
            }
            body.push((l.clone(), f));
            var(&l)
        }
    }
}

fn arith(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let mut body = vec![];
    let mut input = vec![];
    let mut parts = vec![];
    let mut tys = vec![];
    for _ in 0..t.range(1, 3) {
        let k = *t.pick(&KS);
        let x = t.edgy(k.bits());
        let top = k.top();
        let sel = t.below(16);
        let near = t.draw(3);
        let up = |v: u64| v.saturating_add(near).min(top);
        let y = match sel {
            0 => (top - x).saturating_sub(near),          // sums just inside the width
            1 => x.saturating_sub(near),                  // differences just inside zero
            2 => (if x == 0 { top } else { top / x }).saturating_sub(near), // products just inside
            7 | 8 => t.draw(k.bits() as u64),
            9..=14 => match t.below(3) {
                0 => x,
                1 => up(x),
                _ => x.saturating_sub(near),
            },
            _ => t.edgy(k.bits()),
        };
        let a = operand(t, k, x, &mut body, &mut input);
        let c = operand(t, k, y, &mut body, &mut input);
        let (e, ty) = match sel {
            0 => (op(Op::Add, a, c), Ty::U(k)),
            1 => (op(Op::Sub, a, c), Ty::U(k)),
            2 => (op(Op::Mul, a, c), Ty::U(k)),
            3 => (op(Op::Div, a, c), Ty::U(k)),
            4 => (op(Op::Rem, a, c), Ty::U(k)),
            5 => (op(Op::And, a, c), Ty::U(k)),
            6 => (op(Op::Or, a, c), Ty::U(k)),
            7 => (op(Op::Shl, a, c), Ty::U(k)),
            8 => (op(Op::Shr, a, c), Ty::U(k)),
            9 => (rel(Rel::Eq, a, c), Ty::Bool),
            10 => (rel(Rel::Ne, a, c), Ty::Bool),
            11 => (rel(Rel::Lt, a, c), Ty::Bool),
            12 => (rel(Rel::Gt, a, c), Ty::Bool),
            13 => (rel(Rel::Le, a, c), Ty::Bool),
            14 => (rel(Rel::Ge, a, c), Ty::Bool),
            _ => match t.below(5) {
                0 => (E::Succ(bx(a)), Ty::U(k)),
                1 => (E::Pred(bx(a)), Ty::U(k)),
                2 => (E::AsChar(bx(a)), Ty::Char),
                _ => {
                    let k2 = *t.pick(&KS);
                    (E::As(k2, bx(a)), Ty::U(k2))
                }
            },
        };
        parts.push(e);
        tys.push(ty);
    }
    let mut root = F::Compute(E::Tuple(parts));
    for (l, f) in body.into_iter().rev() {
        root = F::LetF(Box::new(f), l, Box::new(root));
    }
    let prog = Prog { defs: vec![], root, ty: Ty::Tuple(tys) };
    match judge(cx, &prog, &[input]) {
        Err(o) => o,
        Ok((0, _, why)) => Outcome::Discard(if why.is_empty() { "rejected" } else { why }),
        Ok((n, key, _)) => Outcome::Pass { nontrivial: true, key, classes: vec!["compared"], sub: n as u64 },
    }
}

// ------------------------------------------------------------ sequences in every representation

fn source(t: &mut Tape, d: usize, n: &mut usize, body: &mut Vec<(L, F)>, input: &mut Vec<u8>, k: K) -> (E, usize) {
    // (expression of type Seq(U(k)), its length)
    let fresh = |n: &mut usize| {
        *n += 1;
        L::from(format!("s{n}"))
    };
    if d > 0 && t.chance(50) {
        let (s, len) = source(t, d - 1, n, body, input, k);
        match t.below(4) {
            0 => {
                let a = t.below(len + 1);
                let m = if t.chance(30) { len - a } else { t.below(len - a + 1) };
                return (E::SubSeq(bx(s), bx(num(K::U32, a as u64)), bx(num(K::U32, m as u64))), m);
            }
            1 => {
                let (s2, len2) = source(t, d - 1, n, body, input, k);
                return (E::Append(bx(s), bx(s2)), len + len2);
            }
            2 if len > 0 => {
                let a = t.below(len);
                let m = t.below(2 * len + 2);
                return (E::Inflate(bx(s), bx(num(K::U32, a as u64)), bx(num(K::U32, m as u64))), m);
            }
            _ => {
                let x = fresh(n);
                return (E::FlatMap(x.clone(), bx(E::Seq(vec![var(&x)])), bx(s)), len);
            }
        }
    }
    match t.below(6) {
        0 => {
            let len = t.below(7);
            // a literal empty sequence has no element type of its own
            if len == 0 {
                return (E::Dup(bx(num(K::U32, 0)), bx(num(k, 0))), 0);
            }
            let es = (0..len).map(|_| num(k, t.draw(6))).collect();
            (E::Seq(es), len)
        }
        1 => {
            let len = t.below(6);
            let v = t.draw(5);
            (E::Dup(bx(num(K::U32, len as u64)), bx(num(k, v))), len)
        }
        2 | 3 if k == K::U32 => {
            let a = t.draw(5);
            let len = t.below(7);
            (E::Range(bx(num(K::U32, a)), bx(num(K::U32, a + len as u64))), len)
        }
        _ => {
            let len = t.below(6);
            let l = fresh(n);
            let w = k.bits() as usize / 8;
            for _ in 0..len {
                let v = t.draw(6);
                input.extend(&v.to_be_bytes()[8 - w..]);
            }
            let mut f = match t.below(3) {
                0 => F::RepeatCount(num(K::U8, len as u64), Box::new(F::Int(k, true))),
                1 => F::Sequence(vec![F::Int(k, true); len.max(1)]),
                _ => {
                    let x = L::from(format!("e{n}"));
                    F::ForEach(E::Dup(bx(num(K::U32, len as u64)), bx(E::Bool(true))), x, Box::new(F::Int(k, true)))
                }
            };
            let mut len = len;
            if let F::Sequence(_) = f {
                if len == 0 {
                    input.extend(&[0u8; 8][..w]);
                    len = 1;
                }
            }
            match t.below(4) {
                0 => f = F::Map(Box::new(f), L::from("q"), var(&L::from("q"))),
                1 => f = F::UnionND(vec![f, F::Compute(E::Dup(bx(num(K::U32, 0)), bx(num(k, 0))))]),
                _ => {}
            }
            body.push((l.clone(), f));
            (var(&l), len)
        }
    }
}

fn seqs(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let mut body = vec![];
    let mut input = vec![];
    let mut n = 0;
    let k = *t.pick(&[K::U32, K::U8, K::U16, K::U64]);
    let (s, len) = source(t, 2, &mut n, &mut body, &mut input, k);
    let (a, x) = (L::from("acc"), L::from("x"));
    let wide = |l: &L| E::As(K::U64, bx(var(l)));
    let st = || Box::new(s.clone());
    let which = t.below(11);
    let e = match which {
        0 => s.clone(),
        1 => E::Len(st()),
        2 if len > 0 => {
            let i = t.below(len);
            E::As(K::U64, bx(E::Ix(st(), bx(num(K::U32, i as u64)))))
        }
        3 => {
            let st0 = t.below(len + 1);
            let m = t.below(len - st0 + 1);
            E::SubSeq(st(), bx(num(K::U32, st0 as u64)), bx(num(K::U32, m as u64)))
        }
        4 if len > 0 => {
            let st0 = t.below(len);
            let m = t.below(3 * len);
            E::Inflate(st(), bx(num(K::U32, st0 as u64)), bx(num(K::U32, m as u64)))
        }
        5 if t.chance(50) => E::FlatMap(
            x.clone(),
            bx(E::Seq(vec![op(Op::Add, var(&x), num(k, 3)), E::Match(bx(rel(Rel::Lt, var(&x), num(k, 2))), vec![(P::Bool(true), num(k, 1)), (P::Wild, op(Op::Mul, num(k, 2), var(&x)))])])),
            st(),
        ),
        5 => E::FlatMap(x.clone(), bx(E::Seq(vec![wide(&x), op(Op::Add, wide(&x), num(K::U64, 1))])), st()),
        6 => E::FlatMapAccum(
            a.clone(),
            x.clone(),
            bx(E::Tuple(vec![op(Op::Add, var(&a), wide(&x)), E::Seq(vec![var(&a)])])),
            bx(num(K::U64, 3)),
            Ty::U(K::U64),
            st(),
        ),
        7 => E::FlatMapList(
            a.clone(),
            x.clone(),
            bx(E::Seq(vec![op(Op::Add, wide(&x), E::As(K::U64, bx(E::Len(bx(var(&a))))))])),
            Ty::U(K::U64),
            st(),
        ),
        8 => E::Fold(a.clone(), x.clone(), bx(op(Op::Add, op(Op::Mul, var(&a), num(K::U64, 5)), wide(&x))), bx(num(K::U64, 1)), Ty::U(K::U64), st()),
        9 => {
            let q = t.draw(9);
            let sorted = t.chance(50);
            let found = E::Find(sorted, x.clone(), bx(wide(&x)), bx(num(K::U64, q)), st());
            let y = L::from("y");
            E::Match(bx(found), vec![(P::Some(Box::new(P::Bind(y.clone()))), E::Tuple(vec![E::Bool(true), wide(&y)])), (P::None, E::Tuple(vec![E::Bool(false), num(K::U64, 0)]))])
        }
        _ => {
            // patterns over whole sequences
            let m = if t.chance(60) { len } else { t.below(6) };
            let mut names = vec![];
            let ps = (0..m)
                .map(|i| match t.below(3) {
                    0 => P::Wild,
                    1 => P::U(k, t.draw(3)),
                    _ => {
                        let l = L::from(format!("p{i}"));
                        names.push(l.clone());
                        P::Bind(l)
                    }
                })
                .collect();
            let sum = names.iter().fold(num(K::U64, 7), |e, l| op(Op::Add, op(Op::Mul, e, num(K::U64, 3)), wide(l)));
            E::Match(st(), vec![(P::Seq(ps), sum), (P::Wild, num(K::U64, 0))])
        }
    };
    // a plain variable, or bound once and used twice
    let e = if t.chance(25) { E::Destr(bx(e.clone()), P::Bind(L::from("z")), bx(E::Tuple(vec![var(&L::from("z")), e]))) } else { e };
    let mut root = F::Compute(e);
    for (l, f) in body.into_iter().rev() {
        root = F::LetF(Box::new(f), l, Box::new(root));
    }
    let prog = Prog { defs: vec![], root, ty: UNIT };
    match judge(cx, &prog, &[input]) {
        Err(o) => o,
        Ok((0, _, why)) => Outcome::Discard(if why.is_empty() { "rejected" } else { why }),
        Ok((n, key, _)) => Outcome::Pass {
            nontrivial: len >= 2,
            key,
            classes: vec![["same", "len", "index", "subseq", "inflate", "flatmap", "accum", "list", "fold", "find", "pattern"][which]],
            sub: n as u64,
        },
    }
}

// ------------------------------------------------------------ static ranges

fn tree(t: &mut Tape, k: K, vars: &[(L, K)], d: usize) -> E {
    if d == 0 || t.chance(15) {
        let vs: Vec<&(L, K)> = vars.iter().filter(|v| v.1 == k).collect();
        if !vs.is_empty() && t.chance(50) {
            return var(&t.pick(&vs).0);
        }
        return num(k, t.edgy(k.bits()));
    }
    match t.below(12) {
        9 => E::Succ(bx(tree(t, k, vars, d - 1))),
        10 => E::Pred(bx(tree(t, k, vars, d - 1))),
        11 => {
            let k2 = *t.pick(&KS);
            E::As(k, bx(tree(t, k2, vars, d - 1)))
        }
        i => {
            let o = [Op::Add, Op::Sub, Op::Mul, Op::Div, Op::Rem, Op::And, Op::Or, Op::Shl, Op::Shr][i];
            let a = tree(t, k, vars, d - 1);
            let c = if i >= 7 && t.chance(70) { num(k, t.draw(k.bits() as u64)) } else { tree(t, k, vars, d - 1) };
            op(o, a, c)
        }
    }
}

fn subterms<'a>(e: &'a E, out: &mut Vec<&'a E>) {
    out.push(e);
    match e {
        E::Op(_, a, b) => {
            subterms(a, out);
            subterms(b, out);
        }
        E::Succ(a) | E::Pred(a) | E::As(_, a) => subterms(a, out),
        _ => {}
    }
}

fn ranges(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let mut vars = vec![];
    let mut env: Env = None;
    let mut vals = String::new();
    for i in 0..t.below(4) {
        let k = *t.pick(&KS);
        let l = L::from(format!("v{i}"));
        let n = t.edgy(k.bits());
        env = push(&env, &l, Bind::Val(V::U(k, n)));
        vals.push_str(&format!(" {l}={n}"));
        vars.push((l, k));
    }
    let k = *t.pick(&KS);
    let d = t.range(1, 4);
    let e = tree(t, k, &vars, d);
    let prog = Prog { defs: vec![], root: F::Eoi, ty: UNIT };
    if cx.want_text {
        cx.text = format!("{e:?} with{vals}");
    }
    let mut all = vec![];
    subterms(&e, &mut all);
    let mut sub = 0;
    let mut narrow = false;
    for s in all {
        let mut m = M::strict(&prog);
        let Ok(V::U(_, n)) = m.expr(s, &env) else { continue };
        let b = match guarded(|| doodle::verif_hooks::expr_bounds(&s.lower())) {
            Ok(b) => b,
            Err(p) => return Outcome::fail(format!("bounds-{}", panic_sig(&p)), format!("{p} for {s:?}")),
        };
        sub += 1;
        if (n as usize) < b.min() || b.max().is_some_and(|m| n as usize > m) {
            return Outcome::fail("outside-range", format!("{s:?} = {n} outside {b:?}"));
        }
        narrow |= b.min() > 0 || b.max().is_some();
    }
    if sub == 0 {
        return Outcome::Discard("not representable");
    }
    Outcome::Pass { nontrivial: narrow, key: hash_bytes(format!("{e:?}{vals}").as_bytes()), classes: vec!["contained"], sub }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C07", sub: "expressions", rule: R_EXPR, quick: 500_000, thorough: 10_000_000, f: &exprs },
        Fam { prop: "C07", sub: "operators", rule: R_ARITH, quick: 500_000, thorough: 10_000_000, f: &arith },
        Fam { prop: "C07", sub: "sequences", rule: R_SEQ, quick: 500_000, thorough: 10_000_000, f: &seqs },
        Fam { prop: "C07", sub: "ranges", rule: R_BOUNDS, quick: 2_000_000, thorough: 40_000_000, f: &ranges },
    ]
}
