//! C20: run-time helper routines against naive definitions.
use crate::runner::*;
use crate::tape::{Tape, hash_bytes};
use doodle::prelude::*;

type E = (String, String);
macro_rules! ck {
    ($sig:expr, $got:expr, $want:expr, $($ctx:tt)*) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return Err((format!("{}", $sig), format!("{}: got {:?}, expected {:?}", format!($($ctx)*), g, w)));
        }
    }};
}

struct Pair;
impl CommonObject for Pair {
    type Args<'a> = u8;
    type Output<'a> = (u8, u8, u64);
    fn parse<'i>(p: &mut Parser<'i>, a: u8) -> PResult<(u8, u8, u64)> {
        let at = p.get_offset_u64();
        Ok((p.read_byte()? ^ a, p.read_byte()?, at))
    }
}

fn seqs(t: &mut Tape) -> Vec<u16> {
    let n = t.below(20);
    (0..n).map(|_| if t.chance(60) { t.draw(6) as u16 } else { t.edgy(16) as u16 }).collect()
}

fn go(t: &mut Tape, log: &mut String) -> Result<(&'static str, bool), E> {
    Ok(match t.below(13) {
        0 => {
            // keyed search, sorted
            let mut v: Vec<(u32, u8)> = (0..t.below(24)).map(|_| (if t.chance(70) { t.draw(12) as u32 } else { t.edgy(32) as u32 }, t.byte())).collect();
            let sorted = t.chance(85);
            if sorted {
                v.sort_by_key(|x| x.0);
            }
            let q = if !v.is_empty() && t.chance(60) { v[t.below(v.len())].0 } else { t.draw(14) as u32 };
            log.push_str(&format!("find_by_key_sorted {v:?} {q}"));
            let g = find_by_key_sorted(|x: &(u32, u8)| x.0, q, &v);
            if sorted {
                ck!("find sorted presence", g.is_some(), v.iter().any(|x| x.0 == q), "query {q} in {v:?}");
            }
            if let Some(x) = g {
                ck!("find sorted key", x.0, q, "query {q} in {v:?}");
                ck!("find sorted member", v.contains(x), true, "query {q} in {v:?}");
            }
            ("search", v.len() > 1)
        }
        1 => {
            let v: Vec<(u32, u8)> = (0..t.below(24)).map(|_| (t.draw(9) as u32, t.byte())).collect();
            let q = t.draw(10) as u32;
            log.push_str(&format!("find_by_key_unsorted {v:?} {q}"));
            let mut want = None;
            for x in &v {
                if x.0 == q {
                    want = Some(*x);
                    break;
                }
            }
            ck!("find unsorted", find_by_key_unsorted(|x: &(u32, u8)| x.0, q, &v).copied(), want, "query {q} in {v:?}");
            ("search", v.len() > 1)
        }
        2 | 3 => {
            // slice with self-overlap: element i of (v ++ result)
            let n = 1 + t.below(20);
            let v: Vec<u8> = t.bytes(n);
            let s = t.below(n + 1);
            let len = if s == n { 0 } else { t.below(60) };
            log.push_str(&format!("slice_ext {v:?} {s}..{}", s + len));
            let mut all = v.clone();
            for i in s..s + len {
                let x = all[i];
                all.push(x);
            }
            ck!("slice_ext", slice_ext(&v, s..s + len).to_vec(), all[n..].to_vec(), "{v:?} {s}+{len}");
            let mut w = v.clone();
            extend_from_within_ext(&mut w, s..s + len);
            ck!("extend_from_within_ext", w, all, "{v:?} {s}+{len}");
            (if s + len > n { "overlapping" } else { "inside" }, len > 0)
        }
        4 => {
            let b: [u8; 8] = [(); 8].map(|_| if t.chance(40) { [0, 0xff, 0x80, 0x7f][t.below(4)] } else { t.byte() });
            log.push_str(&format!("byte order {b:02x?}"));
            let le = |k: usize| (0..k).map(|i| (b[i] as u64) << (8 * i)).sum::<u64>();
            let be = |k: usize| (0..k).map(|i| (b[i] as u64) << (8 * (k - 1 - i))).sum::<u64>();
            ck!("u16le", u16le((b[0], b[1])) as u64, le(2), "{b:?}");
            ck!("u16be", u16be((b[0], b[1])) as u64, be(2), "{b:?}");
            ck!("u32le", u32le((b[0], b[1], b[2], b[3])) as u64, le(4), "{b:?}");
            ck!("u32be", u32be((b[0], b[1], b[2], b[3])) as u64, be(4), "{b:?}");
            ck!("u64le", u64le((b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7])), le(8), "{b:?}");
            ck!("u64be", u64be((b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7])), be(8), "{b:?}");
            ("byte order", true)
        }
        5 => {
            let v = seqs(t);
            let bad = t.below(30);
            log.push_str(&format!("try_flat_map_vec {v:?} fail at {bad}"));
            let f = |x: u16| if x as usize % 31 == bad && bad > 0 { Err(x) } else { Ok(vec![x; x as usize % 4]) };
            let mut want = Ok(vec![]);
            for x in &v {
                match f(*x) {
                    Ok(y) => {
                        if let Ok(w) = &mut want {
                            w.extend(y)
                        }
                    }
                    Err(e) => {
                        want = Err(e);
                        break;
                    }
                }
            }
            ck!("try_flat_map_vec", try_flat_map_vec(v.iter().cloned(), f), want, "{v:?}");
            ("maps", !v.is_empty())
        }
        6 => {
            let v = seqs(t);
            let bad = t.below(40);
            log.push_str(&format!("try_flat_map_append_vec {v:?} limit {bad}"));
            // depends on everything accumulated so far
            let f = |(acc, x): (&[u64], u16)| if acc.len() > bad + 10 { Err(x) } else { Ok(vec![acc.iter().sum::<u64>() + x as u64; x as usize % 3]) };
            let mut acc: Vec<u64> = vec![];
            let mut want = None;
            for x in &v {
                if acc.len() > bad + 10 {
                    want = Some(*x);
                    break;
                }
                let s = acc.iter().sum::<u64>() + *x as u64;
                for _ in 0..*x % 3 {
                    acc.push(s);
                }
            }
            ck!("try_flat_map_append_vec", try_flat_map_append_vec(v.iter().cloned(), f), want.map(Err).unwrap_or(Ok(acc)), "{v:?}");
            ("maps", v.len() > 1)
        }
        7 => {
            let (a, b) = (seqs(t), seqs(t));
            log.push_str(&format!("seq_append {a:?} {b:?}"));
            let want: Vec<u16> = a.iter().chain(b.iter()).cloned().collect();
            ck!("seq_append", seq_append::<u16, Vec<u16>>(&a, &b), want, "{a:?} {b:?}");
            ck!("slice_all", slice_all(&a), &a[..], "{a:?}");
            ("append", !a.is_empty() && !b.is_empty())
        }
        8 => {
            let v = seqs(t);
            let lim = t.edgy(20) as i64;
            log.push_str(&format!("try_fold_left_curried {v:?} lim {lim}"));
            let f = |(a, x): (i64, u16)| if a > lim { Err(a) } else { Ok(a * 2 - x as i64) };
            let mut want = Ok(1i64);
            for x in &v {
                if let Ok(a) = want {
                    want = if a > lim { Err(a) } else { Ok(a * 2 - *x as i64) };
                }
            }
            ck!("try_fold_left_curried", try_fold_left_curried(v.iter().cloned(), 1i64, f), want, "{v:?}");
            ("folds", v.len() > 1)
        }
        9 => {
            let v = seqs(t);
            log.push_str(&format!("try_fold_map_curried {v:?}"));
            let f = |(a, x): (u64, u16)| -> Result<(u64, Vec<u64>), u64> { if x == 5 { Err(a) } else { Ok((a * 3 + x as u64, vec![a; (x % 3) as usize])) } };
            let mut acc = 7u64;
            let mut out = vec![];
            let mut err = None;
            for x in v.iter().take(12) {
                if *x == 5 {
                    err = Some(acc);
                    break;
                }
                for _ in 0..x % 3 {
                    out.push(acc);
                }
                acc = acc * 3 + *x as u64;
            }
            ck!("try_fold_map_curried", try_fold_map_curried(v.iter().cloned().take(12), 7u64, f), err.map(Err).unwrap_or(Ok(out)), "{v:?}");
            ("folds", v.len() > 1)
        }
        10 => {
            let max = t.below(6);
            let min = t.below(max + 1);
            let len = t.below(max + 1);
            let out = t.chance(50);
            log.push_str(&format!("repeat_between_finished {out} {len} {min} {max}"));
            let want = if out && len < min { None } else { Some(out || len == max) };
            ck!("repeat_between_finished", repeat_between_finished(out, len, min, max).ok(), want, "out {out} len {len} in {min}..={max}");
            ("repetition test", true)
        }
        11 => {
            let n = t.below(40) as u32;
            let x = t.raw();
            log.push_str(&format!("dup32 {n} {x}"));
            ck!("dup32", dup32(n, x), vec![x; n as usize], "{n}");
            let y = t.edgy(32) as u32;
            if y > 0 {
                ck!("pred", pred(y), y - 1, "{y}");
            }
            if y < u32::MAX {
                ck!("succ", succ(y), y + 1, "{y}");
            }
            let z = t.edgy(32) as u32;
            let f = |a: u32, b: u32| -> PResult<u32> { Ok(doodle::try_sub!(a, b, 0)) };
            ck!("try_sub", f(y, z).ok(), (y >= z).then(|| y.wrapping_sub(z)), "{y} - {z}");
            ("scalar", n > 0)
        }
        _ => {
            let n = t.below(12);
            let v = t.bytes(n);
            let (base, off, a) = (t.below(n + 1), if t.chance(90) { t.below(n + 3) } else { usize::MAX - t.below(3) }, t.byte());
            log.push_str(&format!("parse_offset {v:?} base {base} offset {off} arg {a}"));
            let view = View::new(&v).offset(base).map_err(|e| ("view".to_string(), format!("{e}")))?;
            let at = base.checked_add(off);
            let want = at.filter(|x| x.checked_add(2).is_some_and(|y| y <= n)).map(|x| (v[x] ^ a, v[x + 1], x as u64));
            ck!("parse_offset", Pair::parse_offset(view, off, a).ok(), want, "base {base} offset {off} of {n}");
            let want2 = if off == 0 { Some(None) } else { want.map(Some) };
            ck!("parse_nullable_offset", Pair::parse_nullable_offset(view, off, a).ok(), want2, "base {base} offset {off} of {n}");
            ("offset parse", want.is_some())
        }
    })
}

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let mut log = String::new();
    let r = guarded(|| go(cx.tape, &mut log));
    if cx.want_text {
        cx.text = log.clone();
    }
    match r {
        Err(p) => Outcome::fail(format!("panic {}", crate::checks::c01::panic_sig(&p)), format!("panic {p}\n{log}")),
        Ok(Err((s, m))) => Outcome::fail(s, m),
        Ok(Ok((class, nt))) => Outcome::Pass { nontrivial: nt, key: hash_bytes(log.as_bytes()), classes: vec![class], sub: 1 },
    }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C20", sub: "helpers", rule: "the helper has something to work on (non-empty or more than one element); distinct by helper and arguments", quick: 1_500_000, thorough: 30_000_000, f: &case }]
}
