//! C14: interval arithmetic encloses concrete results (both interval types).
use crate::runner::*;
use crate::tape::{Tape, hash_bytes};
use doodle::bounds::Bounds;
use doodle::numeric::core::{Bounds as ZB, MachineRep};
use num_bigint::BigInt;

type I = (u64, Option<u64>);

fn mk(i: I) -> Bounds {
    match i.1 {
        Some(m) => Bounds::new(i.0 as usize, m as usize),
        None => Bounds::at_least(i.0 as usize),
    }
}

fn val(t: &mut Tape, bits: u32) -> u64 {
    t.edgy(bits)
}

fn interval(t: &mut Tape, bits: u32) -> I {
    match t.below(5) {
        0 => {
            let x = val(t, bits);
            (x, Some(x))
        }
        1 => (val(t, bits), None),
        2 => {
            // share a bit prefix
            let x = val(t, bits);
            let s = t.draw(bits as u64);
            let m = (1u64 << s).wrapping_sub(1);
            let (a, b) = (x & !m | (t.raw() & m), x & !m | (t.raw() & m));
            (a.min(b), Some(a.max(b)))
        }
        _ => {
            let (a, b) = (val(t, bits), val(t, bits));
            (a.min(b), Some(a.max(b)))
        }
    }
}

fn member(t: &mut Tape, i: I) -> u64 {
    let hi = i.1.unwrap_or(u64::MAX);
    match t.below(5) {
        0 => i.0,
        1 => hi,
        2 => i.0 + t.draw(4).min(hi - i.0),
        3 => hi - t.draw(4).min(hi - i.0),
        _ => {
            let w = hi - i.0;
            if w == u64::MAX { t.raw() } else { i.0 + t.raw() % (w + 1) }
        }
    }
}

fn has(b: &Bounds, v: u64) -> bool {
    b.min() as u64 <= v && b.max().is_none_or(|m| v <= m as u64)
}

pub fn case(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let bits = *t.pick(&[4u32, 8, 16, 32, 63, 64]);
    let (a, b) = (interval(t, bits), interval(t, bits));
    let sh = {
        let (x, y) = (t.draw(70), t.draw(70));
        let lo = x.min(y);
        match t.below(4) {
            0 => (lo, Some(lo)),
            1 => (lo, None),
            2 => (t.draw(9), Some(9 + t.draw(8))),
            _ => (lo, Some(x.max(y))),
        }
    };
    let text = format!("a={a:?} b={b:?} shift={sh:?}");
    if cx.want_text {
        cx.text = text.clone();
    }
    let (ba, bb, bs) = (mk(a), mk(b), mk(sh));
    let ops: [(&str, &dyn Fn() -> Bounds); 9] = [
        ("add", &|| ba + bb),
        ("sub", &|| ba - bb),
        ("mul", &|| ba * bb),
        ("div", &|| ba / bb),
        ("or", &|| ba | bb),
        ("and", &|| ba & bb),
        ("shl", &|| ba << bs),
        ("shr", &|| ba >> bs),
        ("union", &|| Bounds::union(ba, bb)),
    ];
    let mut res = vec![];
    for (n, f) in ops {
        match guarded(f) {
            Ok(r) => res.push((n, r)),
            Err(e) => return Outcome::fail(format!("bounds-{n}-panic"), format!("{n} panicked: {e}; {text}")),
        }
    }
    let mut sub = 0;
    let mut witnessed = 0;
    for _ in 0..6 {
        let (x, y, s) = (member(t, a), member(t, b), member(t, sh));
        if !ba.contains(x as usize) || !bb.contains(y as usize) {
            return Outcome::fail("bounds-contains", format!("{x} in {ba}, {y} in {bb}"));
        }
        for (n, r) in &res {
            let v = match *n {
                "add" => x.checked_add(y),
                "sub" => x.checked_sub(y),
                "mul" => x.checked_mul(y),
                "div" => x.checked_div(y),
                "or" => Some(x | y),
                "and" => Some(x & y),
                "shl" => (s < 64 && (x as u128) << s <= u64::MAX as u128).then(|| x << s),
                "shr" => (s < 64).then(|| x >> s),
                _ => Some(x),
            };
            if let Some(v) = v {
                sub += 1;
                witnessed += 1;
                if !has(r, v) {
                    return Outcome::fail(format!("bounds-{n}"), format!("{n}({x}, {}) = {v} not in {r}; {text}", if n.starts_with("sh") { s } else { y }));
                }
            }
            if *n == "union" && !has(r, y) {
                return Outcome::fail("bounds-union", format!("{y} not in {r}; {text}"));
            }
        }
        // queries
        let p = t.edgy(bits);
        sub += 2;
        let want = a.0 <= p && a.1.is_none_or(|m| p <= m);
        if ba.contains(p as usize) != want {
            return Outcome::fail("bounds-contains", format!("contains({p}) = {}; {text}", !want));
        }
    }
    if ba.as_exact() != (a.1 == Some(a.0)).then_some(a.0 as usize) {
        return Outcome::fail("bounds-as_exact", text);
    }
    let u = Bounds::union(ba, bb);
    if u.min() as u64 != a.0.min(b.0) || u.max().map(|x| x as u64) != a.1.zip(b.1).map(|(x, y)| x.max(y)) {
        return Outcome::fail("bounds-union-hull", format!("{u}; {text}"));
    }
    // clamp = intersection
    let (lo, hi) = (b.0, b.1.unwrap_or(u64::MAX));
    let want = {
        let l = a.0.max(lo);
        let h = a.1.unwrap_or(u64::MAX).min(hi);
        (l <= h).then_some((l, h))
    };
    let got = ba.clamp(lo as usize, hi as usize).map(|c| (c.min() as u64, c.max().map(|m| m as u64)));
    if got != want.map(|(l, h)| (l, Some(h))) {
        return Outcome::fail("bounds-clamp", format!("{got:?} want {want:?}; {text}"));
    }
    let bb8 = ba.bits_to_bytes();
    if bb8.min() as u64 != a.0.div_ceil(8) || bb8.max().map(|x| x as u64) != a.1.map(|x| x.div_ceil(8)) {
        return Outcome::fail("bounds-bits_to_bytes", format!("{bb8}; {text}"));
    }
    // exactness
    if let (Some(x), Some(y)) = (ba.as_exact(), bb.as_exact()) {
        for (n, r) in &res {
            let v = match *n {
                "add" => x.checked_add(y),
                "sub" => x.checked_sub(y),
                "mul" => x.checked_mul(y),
                "div" => x.checked_div(y),
                _ => continue,
            };
            if let Some(v) = v {
                if r.as_exact() != Some(v) {
                    return Outcome::fail(format!("bounds-{n}-exact"), format!("{r} for exact {v}; {text}"));
                }
            }
        }
    }
    // exact conversions
    let c8: Result<(u8, Option<u8>), _> = ba.try_into();
    let w8 = u8::try_from(a.0).ok().and_then(|l| a.1.map_or(Some((l, None)), |m| u8::try_from(m).ok().map(|m| (l, Some(m)))));
    if c8.ok() != w8 {
        return Outcome::fail("bounds-try_from-u8", text);
    }
    let c32: Result<(u32, Option<u32>), _> = ba.try_into();
    let w32 = u32::try_from(a.0).ok().and_then(|l| a.1.map_or(Some((l, None)), |m| u32::try_from(m).ok().map(|m| (l, Some(m)))));
    if c32.ok() != w32 {
        return Outcome::fail("bounds-try_from-u32", text);
    }
    let d = ba.to_string();
    let wd = match a.1 {
        Some(m) => format!("({}..={})", a.0, m),
        None => format!("({}..)", a.0),
    };
    if d != wd {
        return Outcome::fail("bounds-display", format!("{d} vs {wd}"));
    }
    Outcome::Pass { nontrivial: witnessed >= 10 && (a.1 != Some(a.0) || b.1 != Some(b.0)), key: hash_bytes(text.as_bytes()), classes: vec![], sub }
}

fn z(t: &mut Tape) -> BigInt {
    let m = t.edgy(64);
    let mut v = BigInt::from(m);
    if t.chance(15) {
        v += BigInt::from(u64::MAX);
    }
    if t.chance(40) { -v } else { v }
}

/// signed intervals of the numeric language
pub fn zcase(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let mut iv = |t: &mut Tape| {
        let (a, b) = (z(t), z(t));
        if a <= b { (a, b) } else { (b, a) }
    };
    let (a, b) = (iv(t), iv(t));
    let (ba, bb) = (ZB::new(a.0.clone(), a.1.clone()), ZB::new(b.0.clone(), b.1.clone()));
    let text = format!("{ba} {bb}");
    if cx.want_text {
        cx.text = text.clone();
    }
    let want = a.0 <= b.0 && a.1 >= b.1;
    if ba.encompasses(&bb) != want {
        return Outcome::fail("z-encompasses", text);
    }
    let want2 = a.0 >= b.0 && a.1 <= b.1;
    if ba.is_encompassed_by(&bb) != want2 {
        return Outcome::fail("z-is_encompassed_by", text);
    }
    let reps = [
        (MachineRep::U8, "u8", 0i128, u8::MAX as i128),
        (MachineRep::U16, "u16", 0, u16::MAX as i128),
        (MachineRep::U32, "u32", 0, u32::MAX as i128),
        (MachineRep::U64, "u64", 0, u64::MAX as i128),
        (MachineRep::I8, "i8", i8::MIN as i128, i8::MAX as i128),
        (MachineRep::I16, "i16", i16::MIN as i128, i16::MAX as i128),
        (MachineRep::I32, "i32", i32::MIN as i128, i32::MAX as i128),
        (MachineRep::I64, "i64", i64::MIN as i128, i64::MAX as i128),
    ];
    let (i, j) = (t.below(8), t.below(8));
    let (r, s) = (&reps[i], &reps[j]);
    let rb = r.0.as_bounds();
    if rb.min != BigInt::from(r.2) || rb.max != BigInt::from(r.3) || r.0.to_string() != r.1 {
        return Outcome::fail("rep-bounds", format!("{} {rb}", r.1));
    }
    let sup = r.2 <= s.2 && r.3 >= s.3;
    if r.0.is_superset(s.0) != sup || r.0.encompasses(s.0) != sup {
        return Outcome::fail("rep-superset", format!("{} vs {}", r.1, s.1));
    }
    let fit = a.0 >= rb.min && a.1 <= rb.max;
    if rb.encompasses(&ba) != fit {
        return Outcome::fail("z-encompasses", format!("{} {ba}", r.1));
    }
    let key = hash_bytes(format!("{text}{i}{j}").as_bytes());
    Outcome::Pass { nontrivial: a.0 != a.1, key, classes: vec![], sub: 6 }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C14", sub: "unsigned", rule: "non-trivial: at least 10 concrete results (not overflowing 64 bits) were tested for membership and not both intervals are single points; distinct by the three intervals", quick: 600_000, thorough: 60_000_000, f: &case },
        Fam { prop: "C14", sub: "signed", rule: "non-trivial: the first interval has at least two members; distinct by intervals and representations", quick: 200_000, thorough: 10_000_000, f: &zcase },
    ]
}
