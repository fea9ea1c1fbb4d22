//! C01: interpreter == reference semantics.
use crate::ast::*;
use crate::r#gen::{G, Prof, inputs};
use crate::model::{M, Stop};
use crate::runner::*;
use crate::tape::{hash_bytes, mix};
use doodle::decoder::Compiler;
use doodle::read::ReadCtxt;

pub const RULE: &str = "non-trivial: the model accepted an input of at least one byte, at least 3 distinct constructors were executed and doodle was run on it; distinct by (description, input)";

pub fn show(p: &Prog) -> String {
    format!("{p:?}")
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

/// class of a panic message: location only, so that shrinking stays on the same defect
pub fn panic_sig(m: &str) -> String {
    let loc = m.split(": ").next().unwrap_or("");
    format!("panic@{}", loc.rsplit("/repo/").next().unwrap_or(loc))
}

pub fn case(cx: &mut Ctx<'_>) -> Outcome {
    let prog = G::new(cx.tape, Prof::interp()).prog();
    let ins = inputs(&prog, cx.tape, 4);
    judge(cx, &prog, &ins)
}

pub fn judge(cx: &mut Ctx<'_>, prog: &Prog, ins: &[Vec<u8>]) -> Outcome {
    let ph = hash_bytes(format!("{prog:?}").as_bytes());
    if cx.want_text {
        cx.text = format!("{}\n", show(prog));
    }
    let built = guarded(|| {
        let (m, f) = build(prog);
        let p = Compiler::compile_program(&m, &f);
        (m, f, p)
    });
    let (_m, _f, p) = match built {
        Err(e) => return Outcome::fail(format!("build-{}", panic_sig(&e)), e),
        Ok((_, _, Err(e))) => {
            let s = e.to_string();
            return Outcome::fail(format!("compile-refused: {}", s.chars().take(40).collect::<String>()), s);
        }
        Ok((m, f, Ok(p))) => (m, f, p),
    };
    let mut classes = vec![];
    let mut nontrivial = false;
    let mut sub = 0;
    let mut key = 0;
    let mut partial = "";
    for inp in ins {
        let mut m = M::strict(prog);
        let want = m.run(inp);
        if let Err(Stop::Partial(r)) = want {
            partial = r;
            continue;
        }
        if cx.want_text {
            cx.text.push_str(&format!("input [{}] expect {want:?}\n", hex(inp)));
        }
        let got = guarded(|| match p.run(ReadCtxt::new(inp)) {
            Ok((v, r)) => Ok((norm(&v), inp.len() - r.remaining().len())),
            Err(e) => Err(format!("{e:?}")),
        });
        sub += 1;
        match (&want, &got) {
            (_, Err(e)) => return Outcome::fail(panic_sig(e), format!("panic {e} on [{}]; expected {want:?}", hex(inp))),
            (Err(_), Ok(Err(_))) => classes.push("both-reject"),
            (Ok((v, pos, _)), Ok(Ok((w, pos2)))) => {
                let same = eq(v, w);
                if !same || pos != pos2 {
                    return Outcome::fail(if same { "position" } else { "value" }, format!("input [{}]: expected {v:?} at {pos}, got {w:?} at {pos2}", hex(inp)));
                }
                classes.push("both-accept");
                if !inp.is_empty() && m.feats.len() >= 3 {
                    nontrivial = true;
                    key = mix(&[ph, hash_bytes(inp)]);
                    classes.extend(m.feats.iter());
                }
            }
            (Ok((v, pos, _)), Ok(Err(e))) => return Outcome::fail("wrong-reject", format!("input [{}]: expected {v:?} at {pos}, got error {e}", hex(inp))),
            (Err(_), Ok(Ok((w, pos)))) => return Outcome::fail("wrong-accept", format!("input [{}]: expected rejection, got {w:?} at {pos}", hex(inp))),
        }
    }
    if sub == 0 {
        return Outcome::Discard(if partial.is_empty() { "none" } else { partial });
    }
    Outcome::Pass { nontrivial, key, classes, sub }
}

/// equality up to the integer kind of lazily represented ranges
pub fn eq(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::U(k, x), V::U(k2, y)) => x == y && (k == k2 || *k == K::Usz || *k2 == K::Usz),
        (V::Tuple(x), V::Tuple(y)) | (V::Seq(x), V::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| eq(x, y)),
        (V::Record(x), V::Record(y)) => x.len() == y.len() && x.iter().zip(y).all(|((l, x), (m, y))| l == m && eq(x, y)),
        (V::Variant(l, x), V::Variant(m, y)) => l == m && eq(x, y),
        (V::Opt(Some(x)), V::Opt(Some(y))) => eq(x, y),
        _ => a == b,
    }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C01", sub: "programs", rule: RULE, quick: 2_000_000, thorough: 20_000_000, f: &case }]
}
