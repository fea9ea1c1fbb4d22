//! C21: the binary reading library (scopes, cursors, arrays, tags) against direct indexing.
use crate::runner::*;
use crate::tape::{Tape, hash_bytes};
use doodle::alt::prelude::allsorts::binary::read::*;
use doodle::alt::prelude::allsorts::binary::*;
use doodle::alt::prelude::allsorts::tag::{DisplayTag, from_string};
use std::fmt::Debug;

fn be(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}

macro_rules! ck {
    ($sig:expr, $got:expr, $want:expr, $($ctx:tt)*) => {{
        let (g, w) = ($got, $want);
        if g != w {
            return Err((format!("{}", $sig), format!("{}: got {:?}, expected {:?}", format!($($ctx)*), g, w)));
        }
    }};
}
type E = (String, String);

fn num(t: &mut Tape, n: usize) -> usize {
    match t.weighted(&[50, 20, 12, 6]) {
        0 => t.below(5),
        1 => t.below(n + 3),
        2 => (n + 1).saturating_sub(t.below(3)),
        _ => match t.below(6) {
            0 => usize::MAX - t.below(4),
            1 => usize::MAX / 2 + t.below(3),
            2 => (1 << 63) / (1 + t.below(4)),
            3 => usize::MAX / (2 + t.below(7)) + t.below(3),
            4 => 1 << 32,
            _ => (1usize << 61) + t.below(3),
        },
    }
}

/// every observation of an array must agree with the expected items
fn array<'a, T, H>(a: &ReadArray<'a, T>, want: &[H], t: &mut Tape, what: &str) -> Result<u64, E>
where
    T: ReadUnchecked<HostType = H>,
    H: Copy + Debug + PartialEq + Ord,
{
    let n = want.len();
    ck!("array len", a.len(), n, "{what}");
    ck!("array is_empty", a.is_empty(), n == 0, "{what}");
    ck!("array to_vec", a.to_vec(), want.to_vec(), "{what}");
    ck!("array read_to_vec", a.read_to_vec().ok(), Some(want.to_vec()), "{what}");
    ck!("array last", a.last(), want.last().copied(), "{what}");
    ck!("array debug", format!("{a:?}"), format!("{want:?}"), "{what}");
    let k = t.below(n + 2);
    let mut it = a.iter();
    for i in 0..k {
        ck!("iter size_hint", it.size_hint(), (n.saturating_sub(i), Some(n.saturating_sub(i))), "{what} after {i} items");
        ck!("iter next", it.next(), want.get(i).copied(), "{what} item {i}");
    }
    ck!("iter rest", it.collect::<Vec<_>>(), want.get(k.min(n)..).unwrap_or(&[]).to_vec(), "{what} after {k}");
    let mut it = a.iter_res();
    for i in 0..k {
        ck!("iter_res size_hint", it.size_hint(), (n.saturating_sub(i), Some(n.saturating_sub(i))), "{what} after {i} items");
        ck!("iter_res next", it.next().map(|x| x.ok()), want.get(i).map(|x| Some(*x)), "{what} item {i}");
    }
    ck!("into_iter", a.into_iter().collect::<Vec<_>>(), want.to_vec(), "{what}");
    let cow = [ReadArrayCow::Borrowed(*a), ReadArrayCow::Owned(want.to_vec())];
    for i in [t.below(n + 2), num(t, n)] {
        ck!("get_item", a.get_item(i), want.get(i).copied(), "{what} index {i}");
        ck!("read_item", a.read_item(i).ok(), want.get(i).copied(), "{what} index {i}");
        ck!("check_index", a.check_index(i).is_ok(), i < n, "{what} index {i}");
        for c in &cow {
            ck!("cow get_item", c.get_item(i), want.get(i).copied(), "{what} index {i}");
            ck!("cow read_item", c.read_item(i).ok(), want.get(i).copied(), "{what} index {i}");
            ck!("cow check_index", c.check_index(i).is_ok(), i < n, "{what} index {i}");
        }
    }
    for c in &cow {
        ck!("cow len", (c.len(), c.is_empty()), (n, n == 0), "{what}");
        let mut it = c.iter();
        for i in 0..k {
            ck!("cow iter size_hint", it.size_hint(), (n.saturating_sub(i), Some(n.saturating_sub(i))), "{what} after {i} items");
            ck!("cow iter next", it.next(), want.get(i).copied(), "{what} item {i}");
        }
        ck!("cow debug", format!("{c:?}"), format!("{want:?}"), "{what}");
    }
    // search: on a sorted array, any comparison function that is monotone gives a valid answer
    if want.windows(2).all(|w| w[0] <= w[1]) && n > 0 {
        let probe = want[t.below(n)];
        let hit = a.binary_search_by(|x| x.cmp(&probe));
        ck!("binary_search present", hit.ok().and_then(|i| want.get(i).copied()), Some(probe), "{what} probe {probe:?}");
        // strictly-between searches by rank
        let r = t.below(n + 1);
        let cut = want.get(r).copied();
        let miss = a.binary_search_by(|x| match cut {
            Some(c) if x >= c => std::cmp::Ordering::Greater,
            _ => std::cmp::Ordering::Less,
        });
        let first = cut.map(|c| want.iter().position(|x| *x >= c).unwrap()).unwrap_or(n);
        ck!("binary_search absent", miss, Err(first), "{what} insertion point before {cut:?}");
    }
    Ok(6 + n as u64)
}

macro_rules! arr_case {
    ($ty:ty, $sz:expr, $conv:expr, $c:expr, $win:expr, $pos:expr, $t:expr, $len:expr, $mode:expr, $stride:expr, $log:expr) => {{
        let conv = $conv;
        let avail = $win.len() - $pos;
        let (stride, len) = match $mode {
            0 | 2 => ($sz, $len),
            3 => ($sz, $len.min(avail / $sz)),
            _ => ($stride, $len),
        };
        let ok = stride >= $sz && (len as u128) * (stride as u128) <= avail as u128;
        let what = format!("array of {} len {} mode {} stride {} at {}", stringify!($ty), $len, $mode, stride, $pos);
        $log.push_str(&what);
        $log.push_str("; ");
        let r = match $mode {
            0 => $c.read_array::<$ty>($len),
            1 => $c.read_array_stride::<$ty>($len, $stride),
            2 => $c.read_array_dep::<$ty>($len, ()),
            _ => $c.read_array_upto_hack::<$ty>($len),
        };
        match (r, ok) {
            (Ok(a), true) => {
                let want: Vec<_> = (0..len).map(|i| conv(&$win[$pos + i * stride..])).collect();
                $pos += len * stride;
                array::<$ty, _>(&a, &want, $t, &what)?
            }
            (Err(_), false) => 1,
            (Ok(_), false) => return Err(("array accepted out of range".into(), what)),
            (Err(e), true) => return Err(("array refused in range".into(), format!("{what}: {e}"))),
        }
    }};
}

fn script(cx: &mut Ctx<'_>, log: &mut String, subn: &mut u64) -> Result<(u32, u32), E> {
    let t = &mut *cx.tape;
    let n = t.below(40);
    let mut data: Vec<u8> = (0..n).map(|_| t.byte()).collect();
    if t.chance(30) {
        data.sort();
    }
    log.push_str(&format!("data {data:02x?}\n"));
    let base = if t.chance(20) { num(t, n) } else { 0 };
    let owned;
    let mut sc = ReadScope::from_parts(&data, base);
    if t.chance(15) {
        owned = ReadScopeOwned::new(sc);
        sc = owned.scope();
    }
    let mut win: &[u8] = &data;
    let mut c = sc.ctxt();
    let mut pos = 0usize;
    let (mut reads, mut fails) = (0, 0);
    let steps = 1 + t.below(12);
    for _ in 0..steps {
        ck!("scope data", c.scope().data(), &win[pos..], "rest of window at {pos}");
        ck!("bytes_available", c.bytes_available(), pos < win.len(), "at {pos}");
        ck!("window", sc.data(), win, "window");
        let avail = win.len() - pos;
        macro_rules! prim {
            ($m:ident, $ty:ty, $sz:expr, $conv:expr) => {{
                log.push_str(concat!(stringify!($m), "; "));
                let want = if avail >= $sz { Some($conv(&win[pos..])) } else { None };
                let peek = c.scope().read::<$ty>().ok();
                ck!("scope read", peek, want, "{} at {pos}", stringify!($ty));
                let two = if t.chance(50) { c.$m().ok() } else { c.read::<$ty>().ok() };
                ck!(stringify!($m), two, want, "at {pos} of {}", win.len());
                if want.is_some() {
                    pos += $sz;
                    reads += 1;
                } else {
                    fails += 1;
                }
                *subn += 2;
            }};
        }
        match t.below(18) {
            0 => prim!(read_u8, U8, 1, |b: &[u8]| b[0]),
            1 => prim!(read_i8, I8, 1, |b: &[u8]| b[0] as i8),
            2 => prim!(read_u16be, U16Be, 2, |b: &[u8]| be(&b[..2]) as u16),
            3 => prim!(read_i16be, I16Be, 2, |b: &[u8]| be(&b[..2]) as u16 as i16),
            4 => prim!(read_u32be, U32Be, 4, |b: &[u8]| be(&b[..4]) as u32),
            5 => prim!(read_i32be, I32Be, 4, |b: &[u8]| be(&b[..4]) as u32 as i32),
            6 => prim!(read_u64be, U64Be, 8, |b: &[u8]| be(&b[..8])),
            7 => prim!(read_i64be, I64Be, 8, |b: &[u8]| be(&b[..8]) as i64),
            8 => {
                log.push_str("u24; ");
                let want = if avail >= 3 { Some(be(&win[pos..pos + 3]) as u32) } else { None };
                ck!("read u24", c.read::<U24Be>().ok(), want, "at {pos}");
                if want.is_some() {
                    pos += 3;
                    reads += 1;
                } else {
                    fails += 1;
                }
            }
            9 => {
                log.push_str("tuple; ");
                let want = if avail >= 7 { Some((win[pos], be(&win[pos + 1..pos + 3]) as u16 as i16, be(&win[pos + 3..pos + 7]) as u32)) } else { None };
                ck!("read tuple", c.read::<(U8, I16Be, U32Be)>().ok(), want, "at {pos}");
                if want.is_some() {
                    pos += 7;
                    reads += 1;
                } else {
                    fails += 1;
                }
            }
            10 => {
                let k = num(t, avail);
                log.push_str(&format!("read_slice({k}); "));
                let want = if k <= avail { Some(&win[pos..pos + k]) } else { None };
                ck!("read_slice", c.read_slice(k).ok(), want, "{k} at {pos}");
                if want.is_some() {
                    pos += k;
                    reads += 1;
                } else {
                    fails += 1;
                }
            }
            11 => {
                let k = num(t, avail);
                log.push_str(&format!("read_scope({k}); "));
                let want = if k <= avail { Some(&win[pos..pos + k]) } else { None };
                let got = c.read_scope(k).ok();
                ck!("read_scope", got.map(|s| s.data()), want, "{k} at {pos}");
                if let Some(w) = want {
                    pos += k;
                    reads += 1;
                    if t.chance(40) {
                        sc = got.unwrap();
                        win = w;
                        pos = 0;
                        c = sc.ctxt();
                    }
                } else {
                    fails += 1;
                }
            }
            12 => {
                let nb = t.below(18) as u8;
                log.push_str(&format!("until_nibble({nb}); "));
                let want = win[pos..].iter().position(|b| b >> 4 == nb || b & 15 == nb).map(|i| &win[pos..pos + i + 1]);
                ck!("read_until_nibble", c.read_until_nibble(nb).ok(), want, "{nb} at {pos}");
                if let Some(w) = want {
                    pos += w.len();
                    reads += 1;
                } else {
                    fails += 1;
                }
            }
            13 => {
                // sub-windows of the window
                let (a, l) = (num(t, win.len()), num(t, win.len()));
                log.push_str(&format!("offset_length({a},{l}) "));
                let want: Option<&[u8]> = if l == 0 {
                    Some(&[])
                } else if a as u128 + l as u128 <= win.len() as u128 {
                    Some(&win[a..a + l])
                } else {
                    None
                };
                ck!("offset_length", sc.offset_length(a, l).ok().map(|s| s.data()), want, "({a},{l})");
                ck!("offset", sc.offset(a).data(), win.get(a..).unwrap_or(&[]), "({a})");
                if t.chance(30) && a <= win.len() {
                    sc = sc.offset(a);
                    win = &win[a..];
                    pos = 0;
                    c = sc.ctxt();
                    log.push_str("entered; ");
                }
                reads += 1;
            }
            _ => {
                let len = if t.chance(70) { t.below(avail + 2) } else { num(t, avail) };
                let stride = if t.chance(80) { t.below(12) } else { num(t, avail) };
                let mode = t.below(4);
                let s = match t.below(8) {
                    0 => arr_case!(U8, 1, |b: &[u8]| b[0], c, win, pos, t, len, mode, stride, log),
                    1 => arr_case!(I8, 1, |b: &[u8]| b[0] as i8, c, win, pos, t, len, mode, stride, log),
                    2 => arr_case!(U16Be, 2, |b: &[u8]| be(&b[..2]) as u16, c, win, pos, t, len, mode, stride, log),
                    3 => arr_case!(I16Be, 2, |b: &[u8]| be(&b[..2]) as u16 as i16, c, win, pos, t, len, mode, stride, log),
                    4 => arr_case!(U24Be, 3, |b: &[u8]| be(&b[..3]) as u32, c, win, pos, t, len, mode, stride, log),
                    5 => arr_case!(U32Be, 4, |b: &[u8]| be(&b[..4]) as u32, c, win, pos, t, len, mode, stride, log),
                    6 => arr_case!((U8, U16Be), 3, |b: &[u8]| (b[0], be(&b[1..3]) as u16), c, win, pos, t, len, mode, stride, log),
                    _ => arr_case!(I64Be, 8, |b: &[u8]| be(&b[..8]) as i64, c, win, pos, t, len, mode, stride, log),
                };
                if s > 1 {
                    reads += 1
                } else {
                    fails += 1
                }
                *subn += s;
            }
        }
    }
    Ok((reads, fails))
}

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let mut log = String::new();
    let mut subn = 0;
    let r = guarded(|| script(cx, &mut log, &mut subn));
    if cx.want_text {
        cx.text = log.clone();
    }
    match r {
        Err(p) => Outcome::fail(format!("panic {}", crate::checks::c01::panic_sig(&p)), format!("panic {p}\n{log}")),
        Ok(Err((sig, m))) => Outcome::fail(sig, format!("{m}\n{log}")),
        Ok(Ok((reads, fails))) => Outcome::Pass {
            nontrivial: reads > 0,
            key: hash_bytes(log.as_bytes()),
            classes: vec![if fails > 0 { "has out-of-range request" } else { "in range throughout" }],
            sub: subn,
        },
    }
}

fn tags(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let b: [u8; 4] = [0, 1, 2, 3].map(|_| match t.below(5) {
        0 => t.byte(),
        1 => b"\x1f\x20\x7e\x7f\x80\x00\xff"[t.below(7)],
        _ => 32 + t.draw(95) as u8,
    });
    let tag = u32::from_be_bytes(b);
    let printable = b.iter().all(|c| (32..127).contains(c));
    let want = if printable { b.iter().map(|c| *c as char).collect::<String>() } else { format!("0x{tag:08x}") };
    let got = DisplayTag(tag).to_string();
    if got != want || format!("{:?}", DisplayTag(tag)) != want {
        return Outcome::fail("tag display", format!("{tag:#010x} displays as {got:?}, expected {want:?}"));
    }
    if printable && from_string(&got) != Ok(tag) {
        return Outcome::fail("tag round trip", format!("{got:?} reads back as {:?}", from_string(&got)));
    }
    // arbitrary strings
    let k = t.below(7);
    let s: String = (0..k)
        .map(|_| match t.below(6) {
            0 => char::from_u32(t.draw(0x250) as u32).unwrap_or('x'),
            1 => ['\u{7f}', '\n', 'é', '\u{80}', '\u{a0}', '~', ' '][t.below(7)],
            _ => (32 + t.draw(95) as u8) as char,
        })
        .collect();
    let ok = s.chars().count() <= 4 && s.len() <= 4 && s.chars().all(|c| (' '..='~').contains(&c));
    let want = ok.then(|| {
        let mut v = s.as_bytes().to_vec();
        v.resize(4, b' ');
        u32::from_be_bytes(v.try_into().unwrap())
    });
    match guarded(|| from_string(&s)) {
        Err(p) => return Outcome::fail("tag panic", format!("{s:?}: {p}")),
        Ok(g) => {
            if g.clone().ok() != want {
                return Outcome::fail("tag from_string", format!("{s:?}: got {g:?}, expected {want:?}"));
            }
        }
    }
    if cx.want_text {
        cx.text = format!("tag {b:02x?} string {s:?}");
    }
    Outcome::Pass { nontrivial: true, key: hash_bytes(format!("{b:?}{s}").as_bytes()), classes: vec![if ok { "valid string" } else { "invalid string" }, if printable { "printable tag" } else { "hex tag" }], sub: 4 }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C21", sub: "reads", rule: "at least one read succeeded; distinct by buffer and operation history", quick: 800_000, thorough: 20_000_000, f: &case },
        Fam { prop: "C21", sub: "tags", rule: "every case; distinct by tag and string", quick: 300_000, thorough: 5_000_000, f: &tags },
    ]
}
