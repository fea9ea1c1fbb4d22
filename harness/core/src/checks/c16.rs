//! C16: what the renderers show is the decoded value.
//!
//! A description is decoded with and without locations; the value is rendered as JSON, as a tree
//! (both) and as a flat listing.  The JSON text must read back as the value; the trees must show
//! the labels and leaves that an independent walk of the description says are visible, in order
//! (with their byte positions in the located tree), two values that differ in a visible leaf must
//! not render alike, and the listing must name the listed definitions that occur, in order.
use crate::ast::{BS, Def, E, F, Hint, K, L, Prog, Ty, UNIT, V, build, norm, seq_ty};
use crate::checks::c01::{hex, panic_sig, show};
use crate::r#gen::{G, Prof, inputs};
use crate::runner::{Ctx, Fam, Outcome, guarded};
use crate::tape::{Tape, hash_bytes, mix};
use doodle::decoder::Compiler;
use doodle::output::{flat, tree::TreePrinter};
use doodle::read::ReadCtxt;
use serde_json::Value as J;

const RULE: &str = "non-trivial: an input decoded whose tree must show at least three labels or leaves; distinct by description and input";
const SHOWN: [&str; 6] = ["png.ihdr", "gzip.header", "jpeg.sos", "tar.header", "deflate.block", "mpeg4.atom"];

/// a rendered-from value: provenance kept, locations where there are any
#[derive(Clone, Debug, PartialEq)]
pub enum N {
    Leaf(String, Option<(u64, u64)>),
    Bool(bool, Option<(u64, u64)>),
    Tuple(Vec<N>),
    Rec(Vec<(String, N)>, Option<(u64, u64)>),
    Var(String, Box<N>),
    Seq(Vec<N>),
    Range(u64, u64),
    Branch(usize, Box<N>),
    Mapped(Box<N>),
    Opt(Option<Box<N>>),
    Permit(Option<Box<N>>),
    Unknown,
}

type R<T> = Result<T, String>;
fn at<'a>(j: &'a J, k: &str) -> R<&'a J> {
    j.get(k).ok_or_else(|| format!("no `{k}` in {}", cut(&j.to_string())))
}
fn ix(j: &J, k: usize) -> R<&J> {
    j.get(k).ok_or_else(|| format!("no element {k} in {}", cut(&j.to_string())))
}
fn num(j: &J) -> R<u64> {
    j.as_u64().ok_or_else(|| format!("not a number: {}", cut(&j.to_string())))
}
fn text(j: &J) -> R<String> {
    j.as_str().map(String::from).ok_or_else(|| format!("not a string: {}", cut(&j.to_string())))
}
fn list(j: &J) -> R<&Vec<J>> {
    j.as_array().ok_or_else(|| format!("not a list: {}", cut(&j.to_string())))
}
fn cut(s: &str) -> String {
    s.chars().take(120).collect()
}
fn elems(j: &J, f: &dyn Fn(&J) -> R<(V, N)>) -> R<Vec<(V, N)>> {
    match at(j, "tag")?.as_str() {
        Some("Strict") => list(at(j, "data")?)?.iter().map(f).collect(),
        Some("Dup") => {
            let d = at(j, "data")?;
            let x = f(ix(d, 1)?)?;
            Ok(vec![x; num(ix(d, 0)?)? as usize])
        }
        _ => Err(format!("not a sequence: {}", cut(&j.to_string()))),
    }
}
fn split(v: Vec<(V, N)>) -> (Vec<V>, Vec<N>) {
    v.into_iter().unzip()
}
fn fields(d: &J, f: &dyn Fn(&J) -> R<(V, N)>) -> R<(Vec<(L, V)>, Vec<(String, N)>)> {
    let mut a = vec![];
    let mut b = vec![];
    for x in list(d)? {
        let l = text(ix(x, 0)?)?;
        let (v, n) = f(ix(x, 1)?)?;
        a.push((L::from(l.as_str()), v));
        b.push((l, n));
    }
    Ok((a, b))
}
fn permit(d: &J, f: &dyn Fn(&J) -> R<(V, N)>) -> R<(V, N)> {
    if let Some(x) = d.get("Ok") {
        let (v, n) = f(x)?;
        return Ok((v, N::Permit(Some(Box::new(n)))));
    }
    let e = at(d, "Err")?;
    Ok((if e.is_null() { V::Bad(Box::new(V::Phantom)) } else { V::Bad(Box::new(f(e)?.0)) }, N::Permit(None)))
}

/// read the JSON of a value
pub fn plain(j: &J) -> R<(V, N)> {
    flat_value(j, None)
}
fn flat_value(j: &J, loc: Option<(u64, u64)>) -> R<(V, N)> {
    let tag = text(at(j, "tag")?)?;
    let none = J::Null;
    let d = j.get("data").unwrap_or(&none);
    let n = |k: K| -> R<(V, N)> {
        let x = num(d)?;
        Ok((V::U(k, x), N::Leaf(x.to_string(), loc)))
    };
    Ok(match tag.as_str() {
        "Bool" => {
            let b = d.as_bool().ok_or("not a bool")?;
            (V::Bool(b), N::Bool(b, loc))
        }
        "U8" => n(K::U8)?,
        "U16" => n(K::U16)?,
        "U32" => n(K::U32)?,
        "U64" => n(K::U64)?,
        "Usize" => n(K::Usz)?,
        "Char" => {
            let s = text(d)?;
            let mut i = s.chars();
            let (Some(c), None) = (i.next(), i.next()) else { return Err(format!("not a character: {s:?}")) };
            (V::Char(c), N::Leaf(format!("{c:?}"), loc))
        }
        "View" => {
            let o = num(at(d, "offset")?)?;
            (V::View(o as usize), N::Leaf(format!("VIEW[+{o}]"), loc))
        }
        "Numeric" => {
            let x = format!("{}{}", text(ix(d, 0)?)?, text(ix(d, 1)?)?);
            (V::Num(x.clone()), N::Leaf(x, loc))
        }
        "PhantomData" => (V::Phantom, N::Unknown),
        "EnumFromTo" => {
            let (a, b) = (num(at(d, "start")?)?, num(at(d, "end")?)?);
            (V::Seq((a..b).map(|x| V::U(K::Usz, x)).collect()), N::Range(a, b))
        }
        "Option" => {
            if d.is_null() {
                (V::Opt(None), N::Opt(None))
            } else {
                let (v, n) = plain(d)?;
                (V::Opt(Some(Box::new(v))), N::Opt(Some(Box::new(n))))
            }
        }
        "Tuple" => {
            let (v, n) = split(list(d)?.iter().map(plain).collect::<R<_>>()?);
            (V::Tuple(v), N::Tuple(n))
        }
        "Record" => {
            let (v, n) = fields(d, &plain)?;
            (V::Record(v), N::Rec(n, None))
        }
        "Variant" => {
            let l = text(ix(d, 0)?)?;
            let (v, n) = plain(ix(d, 1)?)?;
            (V::Variant(L::from(l.as_str()), Box::new(v)), N::Var(l, Box::new(n)))
        }
        "Seq" => {
            let (v, n) = split(elems(d, &plain)?);
            (V::Seq(v), N::Seq(n))
        }
        "Mapped" => {
            plain(ix(d, 0)?)?;
            let (v, n) = plain(ix(d, 1)?)?;
            (v, N::Mapped(Box::new(n)))
        }
        "Branch" => {
            let i = num(ix(d, 0)?)? as usize;
            let (v, n) = plain(ix(d, 1)?)?;
            (v, N::Branch(i, Box::new(n)))
        }
        "Permit" => permit(d, &plain)?,
        t => return Err(format!("unknown tag {t}")),
    })
}
fn loc(j: &J) -> R<Option<(u64, u64)>> {
    if j.as_str() == Some("Synthesized") {
        return Ok(None);
    }
    let b = at(j, "InBuffer")?;
    Ok(Some((num(at(b, "offset")?)?, num(at(b, "length")?)?)))
}
/// read the JSON of a located value
pub fn located(j: &J) -> R<(V, N)> {
    let tag = text(at(j, "tag")?)?;
    let none = J::Null;
    let d = j.get("data").unwrap_or(&none);
    let inner = |d: &J| -> R<(J, Option<(u64, u64)>)> { Ok((at(d, "data")?.clone(), loc(at(d, "loc")?)?)) };
    Ok(match tag.as_str() {
        "Flat" => {
            let (d, l) = inner(d)?;
            flat_value(&d, l)?
        }
        "Tuple" => {
            let (d, _) = inner(d)?;
            let (v, n) = split(list(&d)?.iter().map(located).collect::<R<_>>()?);
            (V::Tuple(v), N::Tuple(n))
        }
        "Record" => {
            let (d, l) = inner(d)?;
            let (v, n) = fields(&d, &located)?;
            (V::Record(v), N::Rec(n, l))
        }
        "Seq" => {
            let (d, _) = inner(d)?;
            let (v, n) = split(elems(&d, &located)?);
            (V::Seq(v), N::Seq(n))
        }
        "Variant" => {
            let l = text(ix(d, 0)?)?;
            let (v, n) = located(ix(d, 1)?)?;
            (V::Variant(L::from(l.as_str()), Box::new(v)), N::Var(l, Box::new(n)))
        }
        "Mapped" => {
            located(ix(d, 0)?)?;
            let (v, n) = located(ix(d, 1)?)?;
            (v, N::Mapped(Box::new(n)))
        }
        "Branch" => {
            let i = num(ix(d, 0)?)? as usize;
            let (v, n) = located(ix(d, 1)?)?;
            (v, N::Branch(i, Box::new(n)))
        }
        "Permit" => permit(d, &located)?,
        "Option" => {
            if d.is_null() {
                (V::Opt(None), N::Opt(None))
            } else {
                let (v, n) = located(d)?;
                (V::Opt(Some(Box::new(v))), N::Opt(Some(Box::new(n))))
            }
        }
        t => return Err(format!("unknown tag {t}")),
    })
}

// ------------------------------------------------------------------ what must be visible
pub struct Vis<'a> {
    pub defs: &'a [Def],
    /// the located tree
    pub loc: bool,
    pub out: Vec<String>,
    pub odd: Option<String>,
    /// a part is shown in a way that is not specified (the fallback of a failed part)
    pub vague: bool,
}
impl Vis<'_> {
    fn body(&self, i: usize) -> &F {
        &self.defs[i].body
    }
    /// the value is not determined by the description alone, as far as the renderer looks
    fn varies(&self, f: &F) -> bool {
        match f {
            F::Byte(b) => b.len() != 1,
            F::Int(..) => true,
            F::Union(fs) | F::UnionND(fs) => fs.len() != 1 || self.varies(&fs[0]),
            F::Tuple(fs) | F::Sequence(fs) => fs.iter().any(|f| self.varies(f)),
            F::Record(fs) => fs.iter().any(|(_, how, f)| *how == 0 && self.varies(f)),
            F::AccumUntil { .. } | F::ForEach(..) | F::Maybe(..) | F::Compute(_) | F::Match(..) | F::Pos | F::Apply(_) | F::Capture(..) | F::ReadArray(..) | F::Reify(_) => true,
            F::Fail | F::Eoi | F::Align(_) | F::PeekNot(_) | F::SkipRem | F::Phantom(_) | F::None => false,
            F::Variant(_, f) | F::Repeat(f) | F::Repeat1(f) | F::RepeatCount(_, f) | F::RepeatBetween(_, _, f) | F::UntilLast(_, _, f) | F::UntilSeq(_, _, f) | F::Peek(f) | F::Slice(_, f) | F::Bits(f) | F::RelOff(_, _, f) | F::Map(f, ..) | F::Where(f, ..) | F::Let(_, _, f) | F::Huffman(_, _, _, f) | F::DecodeBytes(_, f) | F::LetF(_, _, f) | F::Seq2(_, f) | F::Hint(_, f) | F::Some(f) | F::LetView(_, f) | F::FromView(_, f) | F::Permit(f, _) => self.varies(f),
            F::Call(i, ..) => self.varies(self.body(*i)),
        }
    }
    fn chr(&self, f: &F) -> bool {
        match f {
            F::Hint(Hint::Chr, _) => true,
            F::Call(i, ..) => self.chr(self.body(*i)),
            F::Let(_, _, f) | F::LetF(_, _, f) | F::Seq2(_, f) => self.chr(f),
            _ => false,
        }
    }
    fn atom(&self, f: &F) -> bool {
        match f {
            F::Byte(_) | F::Int(K::U8, _) => true,
            F::Call(i, ..) => self.atom(self.body(*i)),
            F::Hint(Hint::Chr, f) => self.atom(f),
            _ => false,
        }
    }
    fn table(&self, f: &F) -> Option<Vec<L>> {
        match f {
            F::Call(i, ..) => self.table(self.body(*i)),
            F::Record(fs) => {
                let v: Vec<_> = fs.iter().filter(|x| x.1 == 0 && !x.0.starts_with("__")).collect();
                v.iter().all(|x| self.atom(&x.2)).then(|| v.iter().map(|x| x.0.clone()).collect())
            }
            _ => None,
        }
    }
    fn say(&mut self, s: impl Into<String>) {
        self.out.push(s.into());
    }
    fn leaf(&mut self, s: &str, l: Option<(u64, u64)>) {
        self.say(s);
        if let (true, Some((o, n))) = (self.loc, l) {
            self.say(format!("[BUF({o}:+{n})]"));
        }
    }
    fn odd(&mut self, f: &F, n: &N) {
        if self.odd.is_none() {
            self.odd = Some(format!("{} has the value {}", cut(&format!("{f:?}")), cut(&format!("{n:?}"))));
        }
    }
    fn shown(n: usize) -> Vec<usize> {
        if n > 10 { (0..10).chain([n - 1]).collect() } else { (0..n).collect() }
    }
    fn string(&mut self, ns: &[N]) {
        let mut s = String::from("\"");
        for n in ns {
            let N::Leaf(x, _) = n else { return self.vague = true };
            let Ok(b) = x.parse::<u8>() else { return self.vague = true };
            match b {
                0 => s.push_str("\\0"),
                9 => s.push_str("\\t"),
                10 => s.push_str("\\n"),
                13 => s.push_str("\\r"),
                32..=127 => s.push(b as char),
                _ => s.push_str(&format!("\\x{b:02X}")),
            }
        }
        s.push('"');
        self.say(s);
    }
    fn seq(&mut self, f: &F, n: &N) {
        let N::Seq(ns) = n else { return self.odd(f, n) };
        if let Some(ls) = self.table(f) {
            for l in &ls {
                self.say(l.to_string());
            }
            for n in ns {
                let N::Rec(fs, loc) = n else { return self.odd(f, n) };
                for (l, n) in fs {
                    if !l.starts_with("__") {
                        if let N::Leaf(x, _) = n {
                            self.say(x.clone());
                        }
                    }
                }
                if let (true, Some((o, n)), false) = (self.loc, loc, ls.is_empty()) {
                    self.say(format!("[BUF({o}:+{n})]"));
                }
            }
        } else if self.chr(f) {
            self.string(ns)
        } else {
            for i in Self::shown(ns.len()) {
                self.part(f, &ns[i]);
            }
        }
    }
    /// a field or element: a value determined by the description may be left out
    fn part(&mut self, f: &F, n: &N) {
        if self.varies(f) {
            self.walk(f, n);
        }
    }
    pub fn walk(&mut self, f: &F, n: &N) {
        match (f, n) {
            (F::Call(i, ..), n) => {
                let b = self.defs[*i].body.clone();
                self.walk(&b, n)
            }
            (F::Variant(l, f), N::Var(m, n)) if **l == **m => {
                self.say(m.clone());
                self.part(f, n);
            }
            (F::Union(fs) | F::UnionND(fs), N::Branch(i, n)) if *i < fs.len() => self.walk(&fs[*i], n),
            (F::Match(_, bs), N::Branch(i, n)) if *i < bs.len() => self.walk(&bs[*i].1, n),
            (F::Tuple(fs), N::Tuple(ns)) if fs.len() == ns.len() => {
                if !fs.is_empty() && fs.iter().all(|f| self.chr(f)) {
                    return self.string(ns);
                }
                for (f, n) in fs.iter().zip(ns) {
                    self.part(f, n);
                }
            }
            (F::Sequence(fs), N::Seq(ns)) if fs.len() == ns.len() => {
                if !fs.is_empty() && fs.iter().all(|f| self.chr(f)) {
                    return self.string(ns);
                }
                for i in Self::shown(ns.len()) {
                    self.part(&fs[i], &ns[i]);
                }
            }
            (F::Repeat(f) | F::Repeat1(f) | F::RepeatCount(_, f) | F::RepeatBetween(_, _, f) | F::UntilLast(_, _, f) | F::UntilSeq(_, _, f) | F::ForEach(_, _, f), n) => self.seq(f, n),
            (F::AccumUntil { f, .. }, N::Tuple(ns)) if ns.len() == 2 => {
                self.value(&ns[0]);
                self.seq(f, &ns[1]);
            }
            (F::Maybe(_, f), N::Opt(o)) => match o {
                Some(n) => {
                    self.say("some");
                    self.part(f, n);
                }
                None => self.say("none"),
            },
            (F::Some(f), N::Opt(Some(n))) => {
                self.say("some");
                self.part(f, n);
            }
            (F::None, N::Opt(None)) => self.say("none"),
            (F::Peek(f) | F::Slice(_, f) | F::Bits(f) | F::RelOff(_, _, f) | F::Where(f, ..) | F::Let(_, _, f) | F::Huffman(_, _, _, f) | F::DecodeBytes(_, f) | F::LetF(_, _, f) | F::Seq2(_, f) | F::LetView(_, f) | F::FromView(_, f), n) => self.walk(f, n),
            (F::Hint(Hint::Str, _), N::Seq(ns)) if !self.loc => self.string(ns),
            (F::Hint(Hint::Chr, _), _) if !self.loc => self.vague = true,
            (F::Hint(_, f), n) => self.walk(f, n),
            (F::Record(fs), N::Rec(ns, _)) => {
                if self.loc {
                    return self.value(n);
                }
                let ns: Vec<_> = ns.iter().filter(|x| !x.0.starts_with("__")).collect();
                if self.flags(&ns) {
                    return;
                }
                for (l, n) in ns {
                    self.say(l.clone());
                    match fs.iter().find(|x| x.1 == 0 && *x.0 == **l) {
                        Some(x) => self.part(&x.2, n),
                        None => self.value(n),
                    }
                }
            }
            (F::Permit(f, _), N::Permit(r)) => {
                if let Some(n) = r {
                    self.walk(f, n)
                } else {
                    self.vague = true
                }
            }
            (F::Pos, N::Leaf(s, _)) => self.say(s.clone()),
            (F::Byte(_) | F::Int(..) | F::Map(..) | F::Compute(_) | F::Apply(_) | F::Capture(..) | F::ReadArray(..) | F::Reify(_), n) => self.value(n),
            (F::Eoi | F::Align(_) | F::PeekNot(_) | F::SkipRem | F::Phantom(_), _) => {}
            (f, n) => self.odd(f, n),
        }
    }
    fn boolean(n: &N) -> Option<bool> {
        match n {
            N::Mapped(n) | N::Branch(_, n) | N::Permit(Some(n)) => Self::boolean(n),
            N::Bool(b, _) => Some(*b),
            _ => None,
        }
    }
    fn flags(&mut self, ns: &[&(String, N)]) -> bool {
        let b: Vec<_> = ns.iter().map(|x| Self::boolean(&x.1)).collect();
        if ns.is_empty() || b.iter().any(|b| b.is_none()) {
            return ns.is_empty();
        }
        let set: Vec<&str> = ns.iter().zip(&b).filter(|x| *x.1 == Some(true)).map(|x| x.0.0.as_str()).collect();
        self.say(format!("[{}]", set.join("|")));
        true
    }
    fn value(&mut self, n: &N) {
        match n {
            N::Leaf(s, l) => {
                let s = s.clone();
                self.leaf(&s, *l)
            }
            N::Bool(b, l) => {
                let s = b.to_string();
                self.leaf(&s, *l)
            }
            N::Tuple(ns) => ns.iter().for_each(|n| self.value(n)),
            N::Seq(ns) => Self::shown(ns.len()).into_iter().for_each(|i| self.value(&ns[i])),
            N::Rec(ns, _) => {
                let ns: Vec<_> = ns.iter().filter(|x| !x.0.starts_with("__")).collect();
                if !self.flags(&ns) {
                    for (l, n) in ns {
                        self.say(l.clone());
                        self.value(n);
                    }
                }
            }
            N::Var(l, n) => {
                self.say(l.clone());
                self.value(n);
            }
            N::Range(a, b) => self.say(format!("[{a}..{b}]")),
            N::Branch(_, n) | N::Mapped(n) => self.value(n),
            N::Opt(None) => self.say("none"),
            N::Opt(Some(n)) => {
                self.say("some");
                self.value(n);
            }
            N::Permit(_) | N::Unknown => self.vague = true,
        }
    }
}

fn word(c: Option<char>) -> bool {
    c.is_some_and(|c| c.is_ascii_alphanumeric() || c == '_')
}
/// the first of the wanted pieces that does not occur in order
pub fn absent(out: &str, want: &[String]) -> Option<usize> {
    let mut pos = 0;
    for (k, w) in want.iter().enumerate() {
        let mut from = pos;
        loop {
            let Some(i) = out[from..].find(w.as_str()).map(|i| i + from) else { return Some(k) };
            let (a, b) = (out[..i].chars().next_back(), out[i + w.len()..].chars().next());
            if (word(w.chars().next()) && word(a)) || (word(w.chars().next_back()) && word(b)) {
                from = i + w.chars().next().map_or(1, |c| c.len_utf8());
                continue;
            }
            pos = i + w.len();
            break;
        }
    }
    None
}

// ------------------------------------------------------------------ the flat listing
#[derive(Debug)]
enum Item {
    Name(L),
    Any,
}
fn listing(defs: &[Def], f: &F, n: &N, out: &mut Vec<Item>) {
    match (f, n) {
        (F::Call(i, ..), n) => {
            if SHOWN.contains(&&*defs[*i].name) {
                out.push(Item::Name(defs[*i].name.clone()));
            } else {
                listing(defs, &defs[*i].body, n, out)
            }
        }
        (F::Variant(_, f), N::Var(_, n)) | (F::Maybe(_, f) | F::Some(f), N::Opt(Some(n))) | (F::Permit(f, _), N::Permit(Some(n))) => listing(defs, f, n, out),
        (F::Union(fs) | F::UnionND(fs), N::Branch(i, n)) => listing(defs, &fs[*i], n, out),
        (F::Match(_, bs), N::Branch(i, n)) => listing(defs, &bs[*i].1, n, out),
        (F::Tuple(fs), N::Tuple(ns)) | (F::Sequence(fs), N::Seq(ns)) => fs.iter().zip(ns).for_each(|(f, n)| listing(defs, f, n, out)),
        (F::Repeat(f) | F::Repeat1(f) | F::RepeatCount(_, f) | F::RepeatBetween(_, _, f) | F::UntilLast(_, _, f) | F::UntilSeq(_, _, f) | F::ForEach(_, _, f), N::Seq(ns)) => ns.iter().for_each(|n| listing(defs, f, n, out)),
        (F::AccumUntil { f, .. }, N::Tuple(ns)) => {
            if let Some(N::Seq(ns)) = ns.get(1) {
                ns.iter().for_each(|n| listing(defs, f, n, out))
            }
        }
        (F::Peek(f) | F::Slice(_, f) | F::Bits(f) | F::RelOff(_, _, f) | F::Let(_, _, f) | F::Huffman(_, _, _, f) | F::DecodeBytes(_, f) | F::LetF(_, _, f) | F::Seq2(_, f) | F::LetView(_, f) | F::FromView(_, f) | F::Hint(_, f), n) => listing(defs, f, n, out),
        (F::Record(fs), N::Rec(ns, _)) => {
            for (l, n) in ns {
                if let Some(x) = fs.iter().find(|x| x.1 == 0 && *x.0 == **l) {
                    listing(defs, &x.2, n, out)
                }
            }
        }
        (F::Map(..) | F::Where(..) | F::Permit(..) | F::PeekNot(_) | F::Phantom(_) | F::Apply(_), _) => out.push(Item::Any),
        _ => {}
    }
}
fn fits(want: &[Item], got: &[String]) -> bool {
    match want.split_first() {
        None => got.is_empty(),
        Some((Item::Any, rest)) => (0..=got.len()).any(|k| fits(rest, &got[k..])),
        Some((Item::Name(n), rest)) => got.first().is_some_and(|g| **g == **n) && fits(rest, &got[1..]),
    }
}

// ------------------------------------------------------------------ descriptions
/// descriptions made of the shapes the tree treats specially
fn shaped(t: &mut Tape) -> Prog {
    struct S<'t> {
        t: &'t mut Tape,
        n: usize,
    }
    impl S<'_> {
        fn byte(&mut self) -> F {
            match self.t.below(5) {
                0 => F::Byte(BS::one(self.t.byte())),
                1 => {
                    let mut s = BS::empty();
                    (0..3).for_each(|_| s.add(self.t.byte()));
                    F::Byte(s)
                }
                2 => F::Hint(Hint::Chr, Box::new(F::Byte(BS::full()))),
                _ => F::Byte(BS::full()),
            }
        }
        fn label(&mut self, i: usize) -> L {
            let p = ["", "__", "", "_", ""][self.t.below(5)];
            L::from(format!("{p}{}", ["alpha", "beta", "gamma", "delta"][i]))
        }
        fn flag(&mut self) -> F {
            let x = L::from(format!("b{}", self.n));
            self.n += 1;
            F::Map(Box::new(F::Byte(BS::full())), x.clone(), E::Rel(crate::ast::Rel::Ge, Box::new(E::Var(x)), Box::new(E::U(K::U8, 128))))
        }
        fn go(&mut self, d: usize) -> (F, Ty) {
            if d == 0 {
                return match self.t.below(5) {
                    0 => (F::Int(K::U16, true), Ty::U(K::U16)),
                    1 => (self.flag(), Ty::Bool),
                    _ => (self.byte(), Ty::U(K::U8)),
                };
            }
            match self.t.below(10) {
                0 | 1 => {
                    // rows
                    let n = self.t.range(1, 4);
                    let fs: Vec<(L, u8, F)> = (0..n).map(|i| (self.label(i), 0, self.byte())).collect();
                    let ty = Ty::Record(fs.iter().map(|x| (x.0.clone(), Ty::U(K::U8))).collect());
                    let m = self.t.draw(14);
                    (F::RepeatCount(E::U(K::U32, m), Box::new(F::Record(fs))), seq_ty(ty))
                }
                2 => {
                    let n = self.t.range(1, 4);
                    let fs: Vec<(L, u8, F)> = (0..n).map(|i| (self.label(i), 0, self.flag())).collect();
                    let ty = Ty::Record(fs.iter().map(|x| (x.0.clone(), Ty::Bool)).collect());
                    (F::Record(fs), ty)
                }
                3 | 4 => {
                    let n = self.t.range(1, 4);
                    let mut fs = vec![];
                    let mut ts = vec![];
                    for i in 0..n {
                        let (f, t) = self.go(d - 1);
                        let l = self.label(i);
                        fs.push((l.clone(), 0, f));
                        ts.push((l, t));
                    }
                    (F::Record(fs), Ty::Record(ts))
                }
                5 => {
                    let n = self.t.range(2, 3);
                    let (fs, ts) = (0..n).map(|_| self.go(d - 1)).unzip();
                    (F::Tuple(fs), Ty::Tuple(ts))
                }
                6 => {
                    let (f, t) = self.go(d - 1);
                    let m = self.t.draw(14);
                    (F::RepeatCount(E::U(K::U32, m), Box::new(f)), seq_ty(t))
                }
                7 => {
                    let (f, t) = self.go(d - 1);
                    let (g, u) = self.go(d - 1);
                    let v = |l: &str, k: u8, f: F| F::Seq2(Box::new(F::Byte(BS::one(k))), Box::new(F::Variant(L::from(l), Box::new(f))));
                    (F::Union(vec![v("Left", 1, f), v("Right", 2, g)]), Ty::Union([(L::from("Left"), t), (L::from("Right"), u)].into_iter().collect()))
                }
                8 => {
                    let (f, t) = self.go(d - 1);
                    if self.t.chance(50) { (F::Some(Box::new(f)), crate::ast::opt_ty(t)) } else { (F::Slice(E::U(K::U16, 300), Box::new(f)), t) }
                }
                _ => {
                    let n = self.t.draw(16);
                    let f = F::RepeatCount(E::U(K::U32, n), Box::new(F::Byte(BS::full())));
                    (if self.t.chance(60) { F::Hint(Hint::Str, Box::new(f)) } else { f }, seq_ty(Ty::U(K::U8)))
                }
            }
        }
    }
    let mut s = S { t, n: 0 };
    let d = s.t.range(1, 3);
    let mut defs = vec![];
    let mut root = vec![];
    let mut ts = vec![];
    for i in 0..s.t.range(1, 3) {
        let (f, ty) = s.go(d);
        if s.t.chance(60) {
            defs.push(Def { name: L::from(format!("def{i}")), args: vec![], views: vec![], body: f, ty: ty.clone() });
            root.push(F::Call(defs.len() - 1, vec![], vec![]));
        } else {
            root.push(f);
        }
        ts.push(ty);
    }
    let (root, ty) = if root.len() == 1 { (root.pop().unwrap(), ts.pop().unwrap()) } else { (F::Tuple(root), Ty::Tuple(ts)) };
    let _ = UNIT;
    Prog { defs, root, ty }
}

fn named(mut p: Prog, t: &mut Tape) -> Prog {
    for i in 0..p.defs.len() {
        if t.chance(30) {
            p.defs[i].name = L::from(SHOWN[i % SHOWN.len()]);
        }
    }
    p
}

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let prog = G::new(cx.tape, Prof::render()).prog();
    judge(cx, prog)
}
fn shapes(cx: &mut Ctx<'_>) -> Outcome {
    let prog = shaped(cx.tape);
    judge(cx, prog)
}

fn judge(cx: &mut Ctx<'_>, prog: Prog) -> Outcome {
    let prog = named(prog, cx.tape);
    let ins = inputs(&prog, cx.tape, 4);
    if cx.want_text {
        cx.text = show(&prog);
    }
    let ph = hash_bytes(format!("{prog:?}").as_bytes());
    let built = guarded(|| {
        let (m, f) = build(&prog);
        let p = Compiler::compile_program(&m, &f).map_err(|e| e.to_string());
        (m, f, p)
    });
    let Ok((m, f, Ok(p))) = built else { return Outcome::Discard("does not compile (C01)") };
    let (mut sub, mut key, mut nontrivial) = (0, 0, false);
    let mut classes = vec![];
    // (visible, rendering) per input, without and with locations
    let mut seen: [Vec<(Vec<String>, String)>; 2] = [vec![], vec![]];
    for inp in &ins {
        let plain_v = guarded(|| p.run(ReadCtxt::new(inp)).map(|(v, _)| v).map_err(|e| format!("{e:?}")));
        let loc_v = guarded(|| p.run_with_loc(ReadCtxt::new(inp)).map(|(v, _)| v).map_err(|e| format!("{e:?}")));
        let (Ok(Ok(v)), Ok(Ok(lv))) = (plain_v, loc_v) else { continue };
        sub += 1;
        let at = format!("input [{}]", hex(inp));
        // JSON
        let js = match guarded(|| (serde_json::to_string(&v), serde_json::to_string(&lv))) {
            Ok((Ok(a), Ok(b))) => [a, b],
            Ok((a, b)) => return Outcome::fail("json", format!("{at}: a value cannot be written as JSON: {:?} {:?}", a.err(), b.err())),
            Err(e) => return Outcome::fail(format!("json-{}", panic_sig(&e)), format!("{at}: writing JSON panics: {e}")),
        };
        let lvv = lv.into_cow_value().into_owned();
        let mut ns = vec![];
        for (k, (s, want)) in js.iter().zip([norm(&v), norm(&lvv)]).enumerate() {
            let back = serde_json::from_str::<J>(s).map_err(|e| e.to_string()).and_then(|j| if k == 0 { plain(&j) } else { located(&j) });
            match back {
                Ok((got, n)) => {
                    if !same(&got, &want) {
                        return Outcome::fail("json-differs", format!("{at}: the JSON says {got:?}, the value is {want:?}"));
                    }
                    ns.push(n);
                }
                Err(e) => return Outcome::fail("json-unreadable", format!("{at}: the JSON does not describe a value: {e}")),
            }
        }
        // trees
        let trees = [
            guarded(|| TreePrinter::new(&m).compile_decoded_value(&v, &f).to_string()),
            guarded(|| TreePrinter::new(&m).compile_parsed_decoded_value(&lv, &f).to_string()),
        ];
        for (k, t) in trees.into_iter().enumerate() {
            let what = ["tree", "located tree"][k];
            let out = match t {
                Ok(s) => s,
                Err(e) => return Outcome::fail(format!("{what}-{}", panic_sig(&e)), format!("{at}: rendering the {what} panics: {e}")),
            };
            let mut w = Vis { defs: &prog.defs, loc: k == 1, out: vec![], odd: None, vague: false };
            w.walk(&prog.root, &ns[k]);
            if let Some(o) = w.odd {
                return Outcome::fail("shape", format!("{at}: {o}"));
            }
            if let Some(i) = absent(&out, &w.out) {
                if cx.want_text {
                    cx.text.push_str(&format!("\n{at}\n{out}"));
                }
                return Outcome::fail(format!("{what}-lacks"), format!("{at}: the {what} does not show {} after {:?}\n{out}", w.out[i], &w.out[i.saturating_sub(3)..i]));
            }
            if !nontrivial && w.out.len() >= 3 {
                nontrivial = true;
                key = mix(&[ph, hash_bytes(inp)]);
            }
            if w.vague {
                continue;
            }
            if let Some((x, _)) = seen[k].iter().find(|(x, o)| *o == out && !within(x, &w.out) && !within(&w.out, x)) {
                return Outcome::fail(format!("{what}-alike"), format!("{at}: the {what} shows {:?} like {x:?}", w.out));
            }
            seen[k].push((w.out, out));
        }
        // listing
        let mut buf = vec![];
        if let Err(e) = guarded(|| flat::Context::new(&mut buf, &m).write_flat(&v, &f).unwrap()) {
            return Outcome::fail(format!("flat-{}", panic_sig(&e)), format!("{at}: the flat listing panics: {e}"));
        }
        let got: Vec<String> = String::from_utf8_lossy(&buf).lines().map(|l| l.split(" - ").next().unwrap_or("").to_string()).collect();
        let mut want = vec![];
        listing(&prog.defs, &prog.root, &ns[0], &mut want);
        if !fits(&want, &got) {
            return Outcome::fail("flat-differs", format!("{at}: listed {got:?}, expected {want:?}"));
        }
        if !got.is_empty() {
            classes.push("listed");
        }
        if seen[0].last().is_some_and(|x| x.0.iter().any(|w| w.starts_with('['))) {
            classes.push("flags");
        }
    }
    if sub == 0 {
        return Outcome::Discard("no input is accepted");
    }
    Outcome::Pass { nontrivial, key, classes, sub }
}

/// one list is the other with parts left out (values fixed by the description may be)
fn within(a: &[String], b: &[String]) -> bool {
    let mut b = b.iter();
    a.iter().all(|x| b.any(|y| x == y))
}

/// equality; a fallback is read through, a missing one is nothing
pub fn same(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Bad(_), _) | (_, V::Bad(_)) => true,
        (V::Tuple(x), V::Tuple(y)) | (V::Seq(x), V::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same(x, y)),
        (V::Record(x), V::Record(y)) => x.len() == y.len() && x.iter().zip(y).all(|((l, x), (m, y))| l == m && same(x, y)),
        (V::Variant(l, x), V::Variant(m, y)) => l == m && same(x, y),
        (V::Opt(Some(x)), V::Opt(Some(y))) => same(x, y),
        _ => a == b,
    }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C16", sub: "programs", rule: RULE, quick: 100_000, thorough: 6_000_000, f: &case },
        Fam { prop: "C16", sub: "shapes", rule: RULE, quick: 100_000, thorough: 6_000_000, f: &shapes },
    ]
}
