//! C02: the location-tracking interpreter against the plain one, and its spans against the model's
//! record of which format node parsed which bytes.
use crate::ast::*;
use crate::checks::c01::{hex, panic_sig};
use crate::r#gen::{G, Prof, inputs};
use crate::model::{M, Stop};
use crate::runner::*;
use crate::tape::{hash_bytes, mix};
use doodle::decoder::{Compiler, SeqKind, Value};
use doodle::loc_decoder::{ParseLoc, ParsedValue};
use doodle::read::ReadCtxt;

pub const RULE: &str = "non-trivial: both decoders accepted an input of at least one byte and at least 3 located nodes were compared with the model's record; distinct by (description, input)";

struct W<'a> {
    prog: &'a Prog,
    log: &'a std::collections::HashSet<(usize, usize, usize, u16)>,
    seen: usize,
    bad: Option<String>,
}
impl W<'_> {
    fn node(&mut self, f: &F, v: &ParsedValue, byte: u16) {
        match v.get_loc() {
            ParseLoc::InBuffer { offset, length } => {
                self.seen += 1;
                let k = f as *const F as usize;
                if !self.log.contains(&(k, offset, offset.wrapping_add(length), byte)) {
                    let have: Vec<_> = self.log.iter().filter(|x| x.0 == k).map(|x| (x.1, x.2, x.3 as i32 - 1)).take(6).collect();
                    self.bad.get_or_insert(format!("node {f:?} reports offset {offset} length {length} (byte {}), parsed at {have:?}", byte as i32 - 1));
                }
            }
            ParseLoc::Synthesized => {
                self.bad.get_or_insert(format!("node {f:?} has no location"));
            }
        }
    }
    fn kids(&mut self, f: &F, v: &ParsedValue) {
        if let ParsedValue::Seq(s) = v {
            match s.as_ref() {
                SeqKind::Strict(vs) => vs.iter().for_each(|v| self.walk(f, v)),
                SeqKind::Dup(..) => {}
            }
        }
    }
    fn walk(&mut self, f: &F, v: &ParsedValue) {
        match (f, v) {
            (F::Byte(_), ParsedValue::Flat(p)) => {
                if let Value::U8(b) = p.as_ref() {
                    self.node(f, v, *b as u16 + 1)
                }
            }
            (F::Variant(_, g), ParsedValue::Variant(_, w)) => self.walk(g, w),
            (F::Union(gs) | F::UnionND(gs), ParsedValue::Branch(i, w)) => self.walk(&gs[*i], w),
            (F::Match(_, gs), ParsedValue::Branch(i, w)) => self.walk(&gs[*i].1, w),
            (F::Tuple(gs), ParsedValue::Tuple(p)) => {
                self.node(f, v, 0);
                for (g, w) in gs.iter().zip(p.as_ref()) {
                    self.walk(g, w)
                }
            }
            (F::Sequence(gs), ParsedValue::Seq(p)) => {
                self.node(f, v, 0);
                if let SeqKind::Strict(vs) = p.as_ref() {
                    for (g, w) in gs.iter().zip(vs) {
                        self.walk(g, w)
                    }
                }
            }
            (F::Repeat(g) | F::Repeat1(g) | F::RepeatCount(_, g) | F::RepeatBetween(_, _, g) | F::UntilLast(_, _, g) | F::UntilSeq(_, _, g) | F::ForEach(_, _, g), ParsedValue::Seq(_)) => {
                self.node(f, v, 0);
                self.kids(g, v);
            }
            (F::AccumUntil { f: g, .. }, ParsedValue::Tuple(p)) => {
                self.node(f, v, 0);
                if let Some(s) = p.as_ref().get(1) {
                    self.node(f, s, 0);
                    self.kids(g, s);
                }
            }
            (F::Align(_) | F::SkipRem | F::Eoi | F::PeekNot(_), ParsedValue::Tuple(_)) => self.node(f, v, 0),
            (F::Maybe(_, g) | F::Some(g), ParsedValue::Option(Some(w))) => self.walk(g, w),
            (F::Permit(g, _), ParsedValue::Permit(Ok(w))) => self.walk(g, w),
            (F::Map(g, ..), ParsedValue::Mapped(o, i)) => {
                self.walk(g, o);
                // an image stands where its original was read
                if !matches!(**i, ParsedValue::Option(None) | ParsedValue::Permit(_) | ParsedValue::Mapped(..)) && i.get_loc() != o.get_loc() && !holds_none(i) {
                    self.bad.get_or_insert(format!("image of {f:?} is located at {:?}, its original at {:?}", i.get_loc(), o.get_loc()));
                }
            }
            (F::Slice(_, g) | F::Peek(g) | F::Bits(g) | F::RelOff(_, _, g) | F::Where(g, ..) | F::Let(_, _, g) | F::Huffman(_, _, _, g) | F::DecodeBytes(_, g) | F::LetF(_, _, g) | F::Seq2(_, g) | F::Hint(_, g) | F::LetView(_, g) | F::FromView(_, g), _) => self.walk(g, v),
            (F::Call(k, ..), _) => {
                let prog = self.prog;
                self.walk(&prog.defs[*k].body, v)
            }
            (F::Record(fs), ParsedValue::Record(p)) => {
                for ((_, _, g), (_, w)) in fs.iter().filter(|x| x.1 == 0).zip(p.as_ref()) {
                    self.walk(g, w)
                }
            }
            _ => {}
        }
    }
}
/// a wrapper around a value that carries no location of its own
fn holds_none(v: &ParsedValue) -> bool {
    match v {
        ParsedValue::Option(None) | ParsedValue::Permit(Err(None)) => true,
        ParsedValue::Variant(_, w) | ParsedValue::Branch(_, w) | ParsedValue::Option(Some(w)) | ParsedValue::Permit(Ok(w)) | ParsedValue::Permit(Err(Some(w))) => holds_none(w),
        ParsedValue::Mapped(_, w) => holds_none(w) || true,
        _ => false,
    }
}

pub fn case(cx: &mut Ctx<'_>) -> Outcome {
    let prog = &G::new(cx.tape, Prof::interp()).prog();
    let ins = inputs(prog, cx.tape, 4);
    let ph = hash_bytes(format!("{prog:?}").as_bytes());
    if cx.want_text {
        cx.text = format!("{prog:?}\n");
    }
    let built = guarded(|| {
        let (m, f) = build(prog);
        Compiler::compile_program(&m, &f).map_err(|e| e.to_string())
    });
    let Ok(Ok(p)) = built else { return Outcome::Discard("does not compile (C01)") };
    let mut classes = vec![];
    let (mut nontrivial, mut sub, mut key) = (false, 0, 0);
    for inp in &ins {
        if cx.want_text {
            cx.text.push_str(&format!("input [{}]\n", hex(inp)));
        }
        let mut m = M::strict(prog);
        m.log = Some(Default::default());
        let want = m.run(inp);
        if let Err(Stop::Partial(_)) = want {
            continue;
        }
        let plain = guarded(|| match p.run(ReadCtxt::new(inp)) {
            Ok((v, r)) => Ok((norm(&v), inp.len() - r.remaining().len())),
            Err(e) => Err(format!("{e:?}")),
        });
        let Ok(plain) = plain else { return Outcome::Discard("plain decoder panics (C01)") };
        let loc = guarded(|| match p.run_with_loc(ReadCtxt::new(inp)) {
            Ok((v, r)) => {
                let w = v.into_cow_value().into_owned();
                Ok((norm(&w), v, inp.len() - r.remaining().len()))
            }
            Err(e) => Err(format!("{e:?}")),
        });
        sub += 1;
        match (plain, loc) {
            (_, Err(e)) => return Outcome::fail(panic_sig(&e), format!("the locating decoder panics: {e} on [{}]", hex(inp))),
            (Err(_), Ok(Err(_))) => classes.push("both-reject"),
            (Ok((a, n)), Ok(Ok((b, pv, k)))) => {
                if a != b || n != k {
                    return Outcome::fail("differs", format!("input [{}]: plain {a:?} at {n}, located {b:?} at {k}", hex(inp)));
                }
                classes.push("both-accept");
                if want.is_ok() {
                    let mut w = W { prog, log: m.log.as_ref().unwrap(), seen: 0, bad: None };
                    w.walk(&prog.root, &pv);
                    if let Some(e) = w.bad {
                        return Outcome::fail(format!("span: {}", e.split(['(', '{', '[']).next().unwrap_or("")), format!("input [{}]: {e}", hex(inp)));
                    }
                    if w.seen >= 3 && !inp.is_empty() {
                        nontrivial = true;
                        key = mix(&[ph, hash_bytes(inp)]);
                        classes.extend(m.feats.iter());
                    }
                }
            }
            (Ok((a, n)), Ok(Err(e))) => return Outcome::fail("located-rejects", format!("input [{}]: plain accepts {a:?} at {n}, located rejects: {e}", hex(inp))),
            (Err(e), Ok(Ok((b, _, k)))) => return Outcome::fail("located-accepts", format!("input [{}]: plain rejects ({e}), located accepts {b:?} at {k}", hex(inp))),
        }
    }
    if sub == 0 {
        return Outcome::Discard("partial");
    }
    Outcome::Pass { nontrivial, key, classes, sub }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C02", sub: "programs", rule: RULE, quick: 300_000, thorough: 15_000_000, f: &case }]
}
