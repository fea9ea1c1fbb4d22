//! C05: what the static analyses say about a description (bytes consumed, bytes examined, may it
//! match nothing) against what the reference semantics and the interpreter do with it.
use crate::ast::*;
use crate::checks::c01::{hex, panic_sig, show};
use crate::r#gen::{G, Prof, inputs, num};
use crate::model::{M, Stop};
use crate::runner::*;
use crate::tape::{hash_bytes, mix};
use doodle::bounds::Bounds;
use doodle::decoder::Compiler;
use doodle::read::ReadCtxt;
use doodle::verif_hooks as vh;
use std::collections::{HashMap, HashSet};

pub const RULE: &str = "non-trivial: at least 3 successful sub-parses (of at least one sub-description whose bounds are not 'anything') were compared with the computed bounds; distinct by (description, input)";
pub const RULE2: &str = "non-trivial: the repeated description can match without consuming anything (must be refused) or the repetition compiled and was decoded to the end on an input of at least one byte; distinct by (description, input)";

fn inside(b: &Bounds, n: usize) -> bool {
    b.min() <= n && b.max().is_none_or(|m| n <= m)
}

fn nodes(cx: &mut Ctx<'_>) -> Outcome {
    let prog = G::new(cx.tape, Prof::interp()).prog();
    let ins = inputs(&prog, cx.tape, 4);
    let ph = hash_bytes(format!("{prog:?}").as_bytes());
    if cx.want_text {
        cx.text = format!("{}\n", show(&prog));
    }
    let built = guarded(|| {
        let (m, f, refs) = build_refs(&prog);
        let p = Compiler::compile_program(&m, &f);
        (m, f, refs, p)
    });
    let Ok((m, f, refs, Ok(p))) = built else { return Outcome::Discard("refused") };
    let mut memo: HashMap<usize, (Bounds, Bounds, bool)> = HashMap::new();
    let (mut sub, mut key, mut partial, mut nontrivial, mut classes) = (0u64, 0, "", false, vec![]);
    for inp in &ins {
        let mut md = M::strict(&prog);
        md.spans = Some(HashSet::new());
        let want = md.run(inp);
        let spans = md.spans.take().unwrap();
        if let Err(Stop::Partial(r)) = want {
            partial = r;
        }
        if cx.want_text {
            cx.text.push_str(&format!("input [{}]\n", hex(inp)));
        }
        let mut tight = false;
        let mut here = 0;
        for (node, used, seen) in spans {
            // the address is that of a node of `prog`, which outlives this loop
            let g: &F = unsafe { &*(node as *const F) };
            let (mb, lb, nul) = match memo.entry(node) {
                std::collections::hash_map::Entry::Occupied(o) => *o.into_mut(),
                std::collections::hash_map::Entry::Vacant(v) => {
                    let r = guarded(|| {
                        let lf = lower_part(g, &refs);
                        (vh::match_bounds(&m, &lf), vh::lookahead_bounds(&m, &lf), vh::is_nullable(&m, &lf))
                    });
                    match r {
                        Ok(r) => *v.insert(r),
                        Err(e) => return Outcome::fail(format!("analysis-{}", panic_sig(&e)), format!("{e} on {g:?}")),
                    }
                }
            };
            sub += 1;
            here += 1;
            tight |= mb.max().is_some() || mb.min() > 0;
            if !inside(&mb, used) {
                return Outcome::fail(format!("consumed-{}", kind(g)), format!("{g:?} consumed {used}, computed {mb:?}, on [{}]", hex(inp)));
            }
            if used == 0 && !nul {
                return Outcome::fail(format!("nullable-{}", kind(g)), format!("{g:?} consumed nothing but is not reported nullable, on [{}]", hex(inp)));
            }
            if lb.max().is_some_and(|x| seen > x) {
                return Outcome::fail(format!("examined-{}", kind(g)), format!("{g:?} examined {seen}, computed {lb:?}, on [{}]", hex(inp)));
            }
        }
        // the same for the whole description, as actually decoded
        if let Ok(Ok((_, r))) = guarded(|| p.run(ReadCtxt::new(inp)).map_err(|_| ())) {
            let used = inp.len() - r.remaining().len();
            let mb = vh::match_bounds(&m, &f);
            sub += 1;
            if !inside(&mb, used) {
                return Outcome::fail("consumed-root", format!("consumed {used}, computed {mb:?}, on [{}]", hex(inp)));
            }
            if used > 0 && here >= 3 && tight {
                nontrivial = true;
                key = mix(&[ph, hash_bytes(inp)]);
                classes.push("decoded");
            }
        }
    }
    if sub == 0 {
        return Outcome::Discard(if partial.is_empty() { "no successful sub-parse" } else { partial });
    }
    Outcome::Pass { nontrivial, key, classes, sub }
}

fn kind(f: &F) -> String {
    format!("{f:?}").split(['(', ' ', '{']).next().unwrap_or("").to_string()
}

fn repeats(cx: &mut Ctx<'_>) -> Outcome {
    let mut prog = G::new(cx.tape, Prof::interp()).prog();
    let ins = inputs(&prog, cx.tape, 4);
    // also what is left over when nothing is
    let ins: Vec<Vec<u8>> = ins.into_iter().chain([vec![]]).collect();
    let mut empty = None;
    for inp in &ins {
        if let Ok((_, 0, _)) = M::strict(&prog).run(inp) {
            empty = Some(inp.clone());
            break;
        }
    }
    let root = std::mem::replace(&mut prog.root, F::Fail);
    let which = cx.tape.below(4);
    let rep = if which % 2 == 0 { F::Repeat(Box::new(root)) } else { F::Repeat1(Box::new(root)) };
    // alone, in a window, or among alternatives
    prog.root = match cx.tape.below(4) {
        0 => F::Seq2(Box::new(F::Byte(BS::full())), Box::new(rep)),
        1 => F::Slice(num(K::U8, 3), Box::new(rep)),
        _ => rep,
    };
    let ph = hash_bytes(format!("{prog:?}").as_bytes());
    if cx.want_text {
        cx.text = format!("{}\n", show(&prog));
    }
    // building the prediction tree of a large ambiguous repetition can take for ever: only small bodies
    // are taken past the point where nullable ones are refused
    let text = format!("{prog:?}");
    let small = text.len() < 500 && text.matches("Repeat").count() == 1 && !text.contains("Until") && !text.contains("ForEach");
    if empty.is_none() && !small {
        return Outcome::Discard("large body");
    }
    let built = guarded(|| {
        let (m, f) = build(&prog);
        Compiler::compile_program(&m, &f)
    });
    match (built, empty) {
        (Ok(Ok(_)), Some(inp)) => Outcome::fail("repeats-empty", format!("repetition of a description that matches nothing on [{}] was compiled", hex(&inp))),
        (_, Some(_)) => Outcome::Pass { nontrivial: true, key: ph, classes: vec!["refused"], sub: 1 },
        (Ok(Ok(p)), None) => {
            // decode to the end: each turn must make progress (checked with the reference first, so that this terminates)
            let mut sub = 0;
            let mut key = 0;
            for inp in &ins {
                let mut m = M::strict(&prog);
                m.spans = Some(HashSet::new());
                let r = m.run(inp);
                let body: &F = match &prog.root {
                    F::Repeat(b) | F::Repeat1(b) => b,
                    F::Seq2(_, r) | F::Slice(_, r) => match &**r {
                        F::Repeat(b) | F::Repeat1(b) => b,
                        _ => unreachable!(),
                    },
                    _ => unreachable!(),
                };
                if m.spans.unwrap().iter().any(|(n, used, _)| *n == body as *const F as usize && *used == 0) {
                    return Outcome::fail("repeats-empty", format!("a turn of a compiled repetition matches nothing on [{}]", hex(inp)));
                }
                if matches!(r, Err(Stop::Partial(_))) {
                    continue;
                }
                let _ = guarded(|| p.run(ReadCtxt::new(inp)).is_ok());
                sub += 1;
                if !inp.is_empty() {
                    key = mix(&[ph, hash_bytes(inp)]);
                }
            }
            if sub == 0 {
                return Outcome::Discard("partial");
            }
            Outcome::Pass { nontrivial: key != 0, key, classes: vec!["compiled"], sub }
        }
        (_, None) => Outcome::Pass { nontrivial: false, key: ph, classes: vec!["refused-other"], sub: 1 },
    }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C05", sub: "nodes", rule: RULE, quick: 400_000, thorough: 6_000_000, f: &nodes },
        Fam { prop: "C05", sub: "repeats", rule: RULE2, quick: 300_000, thorough: 4_000_000, f: &repeats },
    ]
}
