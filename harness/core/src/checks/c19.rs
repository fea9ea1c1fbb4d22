//! C19: canonical Huffman decoding (interpreter, located interpreter, run-time library) against an
//! independent canonical encoder and a code-table walk.
use crate::runner::*;
use crate::tape::{Tape, hash_bytes};
use doodle::decoder::Compiler;
use doodle::parser::Parser;
use doodle::prelude::parse_huffman;
use doodle::read::ReadCtxt;
use doodle::{DynFormat, Expr, Format, FormatModule, decoder::Value};

/// lengths of a random complete code with `leaves` leaves, depth at most `maxd`
fn complete(t: &mut Tape, leaves: usize, maxd: u32) -> Vec<u32> {
    let mut v = vec![0u32];
    while v.len() < leaves {
        // split a random (or the deepest) leaf
        let c: Vec<usize> = (0..v.len()).filter(|i| v[*i] < maxd).collect();
        if c.is_empty() {
            break;
        }
        let i = if t.chance(25) { *c.iter().max_by_key(|i| v[**i]).unwrap() } else { c[t.below(c.len())] };
        v[i] += 1;
        let l = v[i];
        v.push(l);
    }
    v
}

/// (length, code) per symbol by the textbook rule: order by (length, symbol), count upwards
pub fn canonical(lens: &[u32]) -> Vec<Option<(u32, u64)>> {
    let mut order: Vec<usize> = (0..lens.len()).filter(|i| lens[*i] > 0).collect();
    order.sort_by_key(|i| (lens[*i], *i));
    let mut out = vec![None; lens.len()];
    let mut code = 0u64;
    let mut prev = 0;
    for i in order {
        code <<= lens[i] - prev;
        prev = lens[i];
        out[i] = Some((lens[i], code));
        code += 1;
    }
    out
}
fn kraft(lens: &[u32]) -> u128 {
    lens.iter().filter(|l| **l > 0).map(|l| 1u128 << (40 - l)).sum()
}

fn walk(codes: &[Option<(u32, u64)>], bits: &[u8], n: usize) -> Option<(Vec<u16>, usize)> {
    let mut i = 0;
    let mut out = vec![];
    for _ in 0..n {
        let (mut l, mut c) = (0u32, 0u64);
        loop {
            let b = *bits.get(i)?;
            i += 1;
            l += 1;
            c = c << 1 | b as u64;
            if l > 40 {
                return None;
            }
            if let Some(s) = codes.iter().position(|x| *x == Some((l, c))) {
                out.push(s as u16);
                break;
            }
        }
    }
    Some((out, i))
}

fn as_u16s(v: &Value) -> Option<Vec<u16>> {
    use crate::checks::c01::show;
    let Value::Seq(s) = v.coerce_mapped_value() else { return None };
    s.iter()
        .map(|x| {
            fn num(v: &Value) -> Option<u16> {
                match v {
                    Value::U16(n) => Some(*n),
                    Value::Mapped(_, v) => num(v),
                    Value::Branch(_, v) => num(v),
                    _ => None,
                }
            }
            let _ = show;
            num(&x)
        })
        .collect()
}

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let nsym = match t.weighted(&[40, 40, 18, 2]) {
        0 => 1 + t.below(4),
        1 => 1 + t.below(20),
        2 => 19 + t.below(30),
        _ => 288,
    };
    let leaves = match t.below(5) {
        0 => t.below(3),
        _ => 1 + t.below(nsym),
    };
    let maxd = [3, 7, 15, 15, 20][t.below(5)];
    let mut ls = if leaves == 0 { vec![] } else { complete(t, leaves, maxd) };
    if ls.len() == 1 {
        ls[0] = 1 + t.below(3) as u32;
    }
    ls.truncate(nsym);
    // place on random symbols
    let mut slots: Vec<usize> = (0..nsym).collect();
    let mut lens = vec![0u32; nsym];
    for l in &ls {
        let k = t.below(slots.len());
        lens[slots.swap_remove(k)] = *l;
    }
    // incomplete codes: forget or lengthen some
    let mut tag = "complete";
    match t.weighted(&[50, 30, 20]) {
        1 => {
            for _ in 0..1 + t.below(3) {
                let i = t.below(nsym);
                if lens[i] > 0 {
                    lens[i] = if t.chance(50) { 0 } else { lens[i] + 1 };
                    tag = "incomplete";
                }
            }
        }
        2 => {
            let i = t.below(nsym);
            lens[i] = 1 + t.below(4) as u32;
        }
        _ => {}
    }
    let over = kraft(&lens) > 1 << 40;
    if over {
        tag = "over-subscribed";
    } else if kraft(&lens) < 1 << 40 {
        tag = "incomplete";
    }
    if lens.iter().all(|l| *l == 0) {
        tag = "empty code";
    }
    let codes = canonical(&lens);
    // optional ordering: the i-th given length belongs to symbol order[i]
    let order: Option<Vec<usize>> = t.chance(40).then(|| {
        let mut v: Vec<usize> = (0..nsym).collect();
        for i in (1..nsym).rev() {
            let j = t.below(i + 1);
            v.swap(i, j);
        }
        v
    });
    let order = if nsym > 255 { None } else { order };
    let given: Vec<u8> = match &order {
        None => lens.iter().map(|l| *l as u8).collect(),
        Some(o) => {
            let mut g: Vec<u8> = o.iter().map(|s| lens[*s] as u8).collect();
            // trailing zeros may be left out
            if t.chance(50) {
                while g.len() > 1 && *g.last().unwrap() == 0 {
                    g.pop();
                }
            }
            g
        }
    };
    // message
    let have: Vec<usize> = (0..nsym).filter(|s| lens[*s] > 0).collect();
    let random = over || have.is_empty() || t.chance(25);
    let n = 1 + t.below(if random { 6 } else { 20 });
    let mut bits: Vec<u8> = vec![];
    let mut msg = vec![];
    if random {
        for _ in 0..8 * (1 + t.below(6)) {
            bits.push(t.draw(2) as u8);
        }
    } else {
        for _ in 0..n {
            let s = have[t.below(have.len())];
            msg.push(s as u16);
            let (l, c) = codes[s].unwrap();
            for k in (0..l).rev() {
                bits.push((c >> k & 1) as u8);
            }
        }
        let used = bits.len();
        while bits.len() % 8 != 0 || (bits.len() == used && t.chance(10)) {
            bits.push(t.draw(2) as u8);
        }
    }
    let bytes: Vec<u8> = bits.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | b << i)).collect();
    let want = if over { None } else { walk(&codes, &bits, n) };
    if !random {
        assert_eq!(want.as_ref().map(|w| &w.0), Some(&msg), "encoder and table walk disagree");
    }
    let want_rest = want.as_ref().map(|(_, u)| bytes.len() - u.div_ceil(8));
    let desc = format!("lengths {lens:?} given {given:?} order {order:?} n {n} bytes {bytes:02x?}");
    if cx.want_text {
        cx.text = format!("{desc}\nexpected {want:?}");
    }

    // run-time library
    let r = guarded(|| {
        let mut p = Parser::new(&bytes);
        let f = parse_huffman(&given, order.as_ref().map(|o| o.iter().map(|x| *x as u8).collect()));
        let mut out = vec![];
        p.enter_bits_mode().ok()?;
        for _ in 0..n {
            out.push(f(&mut p).ok()?);
        }
        p.escape_bits_mode().ok()?;
        Some((out, p.remaining()))
    });
    let expect = want.as_ref().map(|(w, _)| (w.clone(), want_rest.unwrap()));
    match r {
        Err(p) => return Outcome::fail(format!("runtime panic {tag}"), format!("run-time decoder panicked: {p}\n{desc}")),
        Ok(g) if g != expect => return Outcome::fail(format!("runtime {tag}"), format!("run-time decoder gave {g:?}, expected {expect:?}\n{desc}")),
        _ => {}
    }
    // interpreters
    let seq = |v: &[u8]| Expr::Seq(v.iter().map(|b| Expr::U8(*b)).collect());
    let fmt = Format::Bits(Box::new(Format::Dynamic(
        "h".into(),
        DynFormat::Huffman(Box::new(seq(&given)), order.as_ref().map(|o| Box::new(seq(&o.iter().map(|x| *x as u8).collect::<Vec<_>>())))),
        Box::new(Format::RepeatCount(Box::new(Expr::U32(n as u32)), Box::new(Format::Apply("h".into())))),
    )));
    let module = FormatModule::new();
    let r = guarded(|| {
        let program = Compiler::compile_program(&module, &fmt).map_err(|e| format!("{e}"))?;
        let a = program.run(ReadCtxt::new(&bytes)).ok().map(|(v, r)| (as_u16s(&v), r.remaining().len()));
        let b = program.run_with_loc(ReadCtxt::new(&bytes)).ok().map(|(v, r)| (as_u16s(&v.into_cow_value()), r.remaining().len()));
        Ok::<_, String>((a, b))
    });
    let expect = want.as_ref().map(|(w, _)| (Some(w.clone()), want_rest.unwrap()));
    match r {
        Err(p) => return Outcome::fail(format!("interpreter panic {tag}"), format!("interpreter panicked: {p}\n{desc}")),
        Ok(Err(e)) => return Outcome::fail("interpreter compile", format!("{e}\n{desc}")),
        Ok(Ok((a, b))) => {
            if a != expect {
                return Outcome::fail(format!("interpreter {tag}"), format!("interpreter gave {a:?}, expected {expect:?}\n{desc}"));
            }
            if b != expect {
                return Outcome::fail(format!("located interpreter {tag}"), format!("located interpreter gave {b:?}, expected {expect:?}\n{desc}"));
            }
        }
    }
    Outcome::Pass {
        nontrivial: have.len() >= 2,
        key: hash_bytes(desc.as_bytes()),
        classes: vec![tag, if want.is_some() { "decodes" } else { "rejected" }, if order.is_some() { "ordered" } else { "natural order" }],
        sub: 3,
    }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C19", sub: "codes", rule: "at least two symbols have codes; distinct by lengths, order and bits", quick: 600_000, thorough: 15_000_000, f: &case }]
}
