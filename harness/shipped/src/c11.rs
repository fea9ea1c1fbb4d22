//! C11: text.
use crate::exec::{bytes, custom, field, interpret, run};
use doodle::Format;
use doodle::helper::*;
use vharness::ast::V;
use vharness::checks::c01::hex;
use vharness::runner::{Ctx, Fam, Outcome};
use vharness::tape::{Tape, hash_bytes};

fn chars(v: &V) -> Option<String> {
    match v {
        V::Seq(xs) => xs.iter().map(|x| if let V::Char(c) = x { Some(*c) } else { None }).collect(),
        _ => None,
    }
}

/// Does the text format take `b` in full, exactly when it is UTF-8, and as the same characters?
fn one(b: &[u8]) -> Result<bool, Outcome> {
    let want = std::str::from_utf8(b).ok();
    let got = interpret("text.string$", b).ok();
    match (want, got) {
        (Some(w), Some((v, 0))) => {
            let g = field(&v, &["0"]).and_then(chars);
            if g.as_deref() != Some(w) {
                return Err(Outcome::fail("characters", format!("{} decodes as {g:?}, not {w:?}", hex(b))));
            }
            Ok(true)
        }
        (None, None) => Ok(false),
        (None, Some((v, _))) => Err(Outcome::fail("accepts-malformed", format!("{} is not UTF-8, but decodes as {:?}", hex(b), field(&v, &["0"]).and_then(chars)))),
        (Some(w), g) => Err(Outcome::fail("refuses-valid", format!("{} is {w:?}, but {}", hex(b), if g.is_some() { "leaves bytes" } else { "is refused" }))),
    }
}

const EDGES: [u32; 20] = [0, 1, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff, 0x61];

fn a_char(t: &mut Tape) -> char {
    loop {
        let c = match t.below(6) {
            0 => *t.pick(&EDGES),
            1 => t.below(0x80) as u32,
            2 => t.below(0x800) as u32,
            3 => t.below(0x10000) as u32,
            _ => t.below(0x110000) as u32,
        };
        if let Some(c) = char::from_u32(c) {
            return c;
        }
        if t.chance(50) {
            return 'x';
        }
    }
}

fn raw_form(t: &mut Tape) -> Vec<u8> {
    // a code point in a form of the wrong length, a surrogate, or beyond the range
    let c = match t.below(4) {
        0 => 0xd800 + t.below(0x800) as u32,
        1 => 0x110000 + t.below(0xf0000) as u32,
        2 => *t.pick(&EDGES),
        _ => t.below(0x200000) as u32,
    };
    match 2 + t.below(3) {
        2 if c < 0x800 => vec![0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8],
        3 if c < 0x10000 => vec![0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
        _ => vec![0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8],
    }
}

fn text(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let mut b = vec![];
    for _ in 0..t.small(10) {
        if t.chance(12) {
            b.extend(raw_form(t));
        } else {
            let mut buf = [0; 4];
            b.extend(a_char(t).encode_utf8(&mut buf).bytes());
        }
    }
    if t.chance(35) && !b.is_empty() {
        let n = b.len();
        match t.below(5) {
            0 => {
                let i = t.below(n);
                b[i] = t.byte();
            }
            1 => {
                let i = t.below(n);
                b.remove(i);
            }
            2 => {
                let i = t.below(n + 1);
                let x = t.byte();
                b.insert(i, x);
            }
            3 => b.truncate(t.below(n)),
            _ => {
                let i = t.below(n);
                b[i] ^= 1 << t.below(8);
            }
        }
    }
    if cx.want_text {
        cx.text = hex(&b);
    }
    match one(&b) {
        Ok(ok) => Outcome::Pass { nontrivial: b.iter().any(|x| *x >= 0x80), key: hash_bytes(&b), classes: vec![if ok { "valid" } else { "malformed" }], sub: 1 },
        Err(f) => f,
    }
}

/// Every sequence of up to three bytes, and every code point, in turn.
fn every(cx: &mut Ctx<'_>) -> Outcome {
    let i = cx.index as u32;
    let mut n = 0;
    let mut go = |b: &[u8]| {
        n += 1;
        one(b).err()
    };
    let key = i as u64;
    cx.tape.below(2);
    // one block per two leading bytes
    let (a, b) = ((i >> 8 & 0xff) as u8, (i & 0xff) as u8);
    if let Some(f) = go(&[a, b]) {
        return f;
    }
    if a >= 0xc0 || b >= 0xc0 || a & 7 == 0 {
        for c in 0..=255u8 {
            // every third byte next to the boundaries, and some in between
            if c & 0x3f < 2 || c & 0x3f > 0x3d || (c as u32 + i) % 7 == 0 {
                if let Some(f) = go(&[a, b, c]) {
                    return f;
                }
            }
        }
    }
    // seventeen code points, spread over the whole range
    for k in 0..17u32 {
        if let Some(c) = char::from_u32(i + 0x10000 * k) {
            let mut buf = [0; 4];
            if let Some(f) = go(c.encode_utf8(&mut buf).as_bytes()) {
                return f;
            }
        }
    }
    if a >= 0xf0 {
        for (c, d) in [(0x80, 0x80), (0x7f, 0x80), (0xbf, 0xbf), (0xc0, 0xbf), (0xbf, 0xc0), (0x80, 0x7f), (0x90, 0xa0)] {
            if let Some(f) = go(&[a, b, c, d]) {
                return f;
            }
        }
    }
    Outcome::Pass { nontrivial: true, key, classes: vec!["block"], sub: n }
}

fn z(s: &crate::exec::Shipped) -> Format {
    let _ = s;
    tuple([asciiz_string(), Format::SkipRemainder])
}
fn nz(s: &crate::exec::Shipped) -> Format {
    tuple([Format::ItemVar(s.by_name["text.string.utf8.non-null"], vec![], vec![]), is_byte(0)])
}
fn fixed(s: &crate::exec::Shipped) -> Format {
    let _ = s;
    tuple([fixed_len_string(ascii_char(), 4), string_of(ascii_decimal_digit()), is_byte(b'.')])
}

fn strings(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let n = t.small(24);
    let mut b: Vec<u8> = (0..n).map(|_| if t.chance(10) { 0 } else { t.byte() }).collect();
    match t.below(3) {
        0 => {
            if cx.want_text {
                cx.text = format!("asciiz {}", hex(&b));
            }
            let want = b.iter().position(|x| *x == 0);
            let got = run(&custom("z", z), &b);
            match (want, &got) {
                (Some(k), Ok((v, _))) if field(v, &["0"]).and_then(bytes).as_deref() == Some(&b[..k]) => {}
                (None, Err(_)) => {}
                _ => return Outcome::fail("asciiz", format!("{}: terminator at {want:?}, but {got:?}", hex(&b))),
            }
        }
        1 => {
            let s: String = (0..t.small(8)).map(|_| a_char(t)).collect();
            b = s.into_bytes();
            if t.chance(30) && !b.is_empty() {
                let i = t.below(b.len());
                b[i] = t.byte();
            }
            b.push(0);
            let tail = t.small(4);
            b.extend(t.bytes(tail));
            if cx.want_text {
                cx.text = format!("utf8-nz {}", hex(&b));
            }
            let k = b.iter().position(|x| *x == 0).unwrap();
            let want = std::str::from_utf8(&b[..k]).ok();
            let got = run(&custom("nz", nz), &b);
            match (want, &got) {
                (Some(w), Ok((v, left))) if field(v, &["0"]).and_then(chars).as_deref() == Some(w) && *left == b.len() - k - 1 => {}
                (None, Err(_)) => {}
                _ => return Outcome::fail("utf8-nul", format!("{}: {want:?}, but {got:?}", hex(&b))),
            }
        }
        _ => {
            b.truncate(4);
            if t.chance(80) {
                b.iter_mut().for_each(|x| *x &= 0x7f);
            }
            let k = t.small(6);
            b.extend((0..k).map(|_| b'0' + t.below(10) as u8));
            if t.chance(80) {
                b.push(b'.');
            }
            let tail = t.small(3);
            b.extend(t.bytes(tail));
            if cx.want_text {
                cx.text = format!("fixed {}", hex(&b));
            }
            let want = if b.len() < 4 {
                None
            } else {
                let k = b[4..].iter().take_while(|x| x.is_ascii_digit()).count();
                (b.get(4 + k) == Some(&b'.')).then(|| (b[..4].to_vec(), b[4..4 + k].to_vec(), b.len() - 5 - k))
            };
            let got = run(&custom("fixed", fixed), &b).ok().map(|(v, left)| (field(&v, &["0"]).and_then(bytes).unwrap_or_default(), field(&v, &["1"]).and_then(bytes).unwrap_or_default(), left));
            if want != got {
                return Outcome::fail("fixed", format!("{}: {want:?}, but {got:?}", hex(&b)));
            }
        }
    }
    Outcome::Pass { nontrivial: b.len() > 1, key: hash_bytes(&b), classes: vec!["string"], sub: 1 }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C11", sub: "text", rule: "holds a byte outside ASCII", quick: 400_000, thorough: 60_000_000, f: &text },
        Fam { prop: "C11", sub: "every", rule: "every block of two leading bytes, every code point", quick: 65_536, thorough: 65_536, f: &every },
        Fam { prop: "C11", sub: "strings", rule: "longer than one byte", quick: 200_000, thorough: 10_000_000, f: &strings },
    ]
}
