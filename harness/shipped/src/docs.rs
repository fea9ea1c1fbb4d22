//! Independent encoders of the shipped formats: documents, what decoding must recover, and damaged twins that must be refused.
use crate::zip;
use vharness::ast::V;
use vharness::tape::Tape;

#[derive(Clone, Debug)]
pub enum X {
    N(u64),
    I(i64),
    B(bool),
    /// bytes (as numbers or characters)
    Y(Vec<u8>),
    S(String),
    T(Vec<X>),
    R(Vec<(&'static str, X)>),
    V(&'static str, Box<X>),
    No,
    So(Box<X>),
}
use X::*;

pub struct Doc {
    pub name: &'static str,
    pub bytes: Vec<u8>,
    pub want: X,
    /// (what is wrong, damaged document)
    pub bad: Vec<(String, Vec<u8>)>,
    pub rich: bool,
}

pub fn matches(v: &V, x: &X) -> Result<(), String> {
    let no = || Err(format!(": {} instead of {}", cut(v), cut(x)));
    match (v, x) {
        (V::U(_, a), N(b)) if a == b => Ok(()),
        (V::Num(a), N(b)) if plain(a).parse() == Ok(*b) => Ok(()),
        (V::Num(a), I(b)) if plain(a).parse() == Ok(*b) => Ok(()),
        (V::Bool(a), B(b)) if a == b => Ok(()),
        (V::Bool(a), N(b)) if *a as u64 == *b => Ok(()),
        (V::U(_, a), B(b)) if *a == *b as u64 => Ok(()),
        (v, Y(b)) if crate::exec::bytes(v).as_ref() == Some(b) => Ok(()),
        (V::Seq(xs), S(s)) => {
            let g: Option<String> = xs.iter().map(|x| if let V::Char(c) = x { Some(*c) } else { None }).collect();
            if g.as_ref() == Some(s) { Ok(()) } else { no() }
        }
        (V::Opt(None), No) => Ok(()),
        (V::Opt(Some(a)), So(b)) => matches(a, b),
        (V::Seq(a), T(b)) | (V::Tuple(a), T(b)) => {
            if a.len() != b.len() {
                return Err(format!(": {} elements instead of {}", a.len(), b.len()));
            }
            for (i, (p, q)) in a.iter().zip(b).enumerate() {
                matches(p, q).map_err(|e| format!("[{i}]{e}"))?;
            }
            Ok(())
        }
        (V::Record(_), R(fs)) => {
            for (n, q) in fs {
                let p = crate::exec::field(v, &[n]).ok_or_else(|| format!(".{n} is missing"))?;
                matches(p, q).map_err(|e| format!(".{n}{e}"))?;
            }
            Ok(())
        }
        (V::Variant(l, p), V(n, q)) if &**l == *n => matches(p, q).map_err(|e| format!(".{n}{e}")),
        _ => no(),
    }
}

/// a number without the name of its type
pub fn plain(a: &str) -> &str {
    a.find(['i', 'u']).map_or(a, |i| &a[..i])
}

fn cut<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}").chars().take(140).collect()
}

fn s(x: X) -> X {
    So(Box::new(x))
}
fn v(n: &'static str, x: X) -> X {
    V(n, Box::new(x))
}

fn letters(t: &mut Tape, lo: usize, hi: usize) -> Vec<u8> {
    let n = t.range(lo, hi);
    (0..n).map(|_| b'a' + t.below(26) as u8).collect()
}

pub fn tar(t: &mut Tape) -> Doc {
    let mut out: Vec<u8> = vec![];
    let mut want = vec![];
    let mut bad = vec![];
    let k = 1 + t.small(3);
    for _ in 0..k {
        let start = out.len();
        let mut field = |t: &mut Tape, n: usize, min: usize, must0: bool| {
            let max = if must0 { n - 1 } else { n };
            let len = match t.below(5) {
                0 => max,
                1 => min,
                2 => (max - 1).max(min),
                _ => min + t.small(20).min(max - min),
            };
            let b: Vec<u8> = (0..len).map(|_| if t.chance(10) { 1 + t.below(255) as u8 } else { b'a' + t.below(26) as u8 }).collect();
            let mut p = b.clone();
            p.resize(n, 0);
            out.extend(p);
            R(vec![("string", Y(b))])
        };
        let name = field(t, 100, 1, false);
        let oct = |t: &mut Tape, out: &mut Vec<u8>, n: usize| {
            let k = t.below(n);
            let d: Vec<u8> = (0..k).map(|_| b'0' + t.below(8) as u8).collect();
            out.extend(&d);
            out.push(*t.pick(&[0, b' ']));
            out.resize(out.len() + n - 1 - k, 0);
            R(vec![("string", Y(d))])
        };
        let mode = oct(t, &mut out, 8);
        let uid = oct(t, &mut out, 8);
        let gid = oct(t, &mut out, 8);
        let size = match t.below(5) {
            0 => 0,
            1 => 512,
            2 => 511 + t.below(3),
            _ => t.below(1400),
        };
        let at_size = out.len();
        out.extend(format!("{size:011o}").bytes());
        out.push(*t.pick(&[0, b' ']));
        let mtime = oct(t, &mut out, 12);
        let chksum = oct(t, &mut out, 8);
        let tf = b'0' + t.below(8) as u8;
        out.push(tf);
        let mut field = |t: &mut Tape, n: usize, must0: bool| {
            let max = if must0 { n - 1 } else { n };
            let len = match t.below(4) {
                0 => max,
                1 => 0,
                _ => t.small(20).min(max),
            };
            let b: Vec<u8> = (0..len).map(|_| b'a' + t.below(26) as u8).collect();
            let mut p = b.clone();
            p.resize(n, 0);
            out.extend(p);
            R(vec![("string", Y(b))])
        };
        let link = field(t, 100, false);
        out.extend(b"ustar\x0000");
        let mut field2 = |t: &mut Tape, n: usize, must0: bool| {
            let max = if must0 { n - 1 } else { n };
            let len = match t.below(4) {
                0 => max,
                1 => 0,
                _ => t.small(20).min(max),
            };
            let b: Vec<u8> = (0..len).map(|_| b'a' + t.below(26) as u8).collect();
            let mut p = b.clone();
            p.resize(n, 0);
            out.extend(p);
            R(vec![("string", Y(b))])
        };
        let uname = field2(t, 32, true);
        let gname = field2(t, 32, true);
        let dmaj = oct(t, &mut out, 8);
        let dmin = oct(t, &mut out, 8);
        let mut field3 = |t: &mut Tape, n: usize| {
            let len = if t.chance(20) { n } else { t.small(20) };
            let b: Vec<u8> = (0..len).map(|_| b'a' + t.below(26) as u8).collect();
            let mut p = b.clone();
            p.resize(n, 0);
            out.extend(p);
            R(vec![("string", Y(b))])
        };
        let prefix = field3(t, 155);
        out.resize(out.len() + 12, 0);
        assert_eq!(out.len() - start, 512);
        let file = t.bytes(size);
        out.extend(&file);
        while out.len() % 512 != 0 {
            out.push(0);
        }
        bad.push((at_size, b'8', "size digit 8"));
        bad.push((start + 257 + t.below(5), b'X', "magic"));
        bad.push((start + 263, b'1', "version"));
        bad.push((start + 500 + t.below(12), 1, "padding of the header"));
        bad.push((start, 0, "empty name"));
        want.push(R(vec![
            (
                "header",
                R(vec![
                    ("name", name),
                    ("mode", mode),
                    ("uid", uid),
                    ("gid", gid),
                    ("size", N(size as u64)),
                    ("mtime", mtime),
                    ("chksum", chksum),
                    ("typeflag", N(tf as u64)),
                    ("linkname", link),
                    ("uname", uname),
                    ("gname", gname),
                    ("devmajor", dmaj),
                    ("devminor", dmin),
                    ("prefix", prefix),
                ]),
            ),
            ("file", Y(file)),
        ]));
    }
    let body = out.len();
    out.resize(body + 1024 + 512 * t.small(3), 0);
    let mut twins = vec![];
    for (at, x, what) in bad {
        let mut o = out.clone();
        o[at] = x;
        twins.push((what.to_string(), o));
    }
    twins.push(("trailer cut short".into(), out[..body + t.below(1024)].to_vec()));
    let i = twins.len();
    let keep = t.below(i);
    let keep2 = t.below(i);
    let bad = twins.into_iter().enumerate().filter(|(j, _)| *j == keep || *j == keep2).map(|x| x.1).collect();
    Doc { name: "tar.main", bytes: out, want: R(vec![("contents", T(want))]), bad, rich: k > 1 }
}

fn keyword(t: &mut Tape) -> Vec<u8> {
    let n = match t.below(4) {
        0 => 79,
        1 => 1,
        _ => 1 + t.small(12),
    };
    (0..n).map(|_| if t.chance(20) { 161 + t.below(95) as u8 } else { 33 + t.below(94) as u8 }).collect()
}

fn utf8(t: &mut Tape, n: usize) -> String {
    (0..t.small(n)).map(|_| *t.pick(&['a', 'z', 'é', '語', '𐍈', ' ', '~', '\u{7ff}', '\u{800}'])).collect()
}

pub fn png(t: &mut Tape) -> Doc {
    let mut out: Vec<u8> = b"\x89PNG\r\n\x1a\n".to_vec();
    let mut bad: Vec<(String, Vec<u8>)> = vec![];
    let ct = *t.pick(&[0u8, 2, 3, 4, 6]);
    let chunk = |t: &mut Tape, tag: &[u8], data: &[u8]| {
        let mut o = (data.len() as u32).to_be_bytes().to_vec();
        o.extend(tag);
        o.extend(data);
        let c = t.edgy(32) as u32;
        o.extend(c.to_be_bytes());
        (o, c)
    };
    let (w, h) = (t.edgy(32) as u32, t.edgy(32) as u32);
    let mut d = vec![];
    d.extend(w.to_be_bytes());
    d.extend(h.to_be_bytes());
    let bd = t.byte();
    let (cm, fm, im) = (t.byte(), t.byte(), t.byte());
    d.extend([bd, ct, cm, fm, im]);
    let (o, c) = chunk(t, b"IHDR", &d);
    out.extend(o);
    let ihdr = R(vec![
        ("length", N(13)),
        ("crc", N(c as u64)),
        ("data", R(vec![("width", N(w as u64)), ("height", N(h as u64)), ("bit-depth", N(bd as u64)), ("color-type", N(ct as u64)), ("compression-method", N(cm as u64)), ("filter-method", N(fm as u64)), ("interlace-method", N(im as u64))])),
    ]);
    let mut n = 0;
    let mut spots: Vec<(usize, u8, &'static str)> = vec![];
    let mut some = |t: &mut Tape, out: &mut Vec<u8>, spots: &mut Vec<(usize, u8, &'static str)>| {
        let mut v2 = vec![];
        for _ in 0..t.small(5) {
            n += 1;
            let mut d: Vec<u8> = vec![];
            let u16s = |t: &mut Tape, d: &mut Vec<u8>| {
                let x = t.edgy(16) as u16;
                d.extend(x.to_be_bytes());
                N(x as u64)
            };
            let u32s = |t: &mut Tape, d: &mut Vec<u8>| {
                let x = t.edgy(32) as u32;
                d.extend(x.to_be_bytes());
                N(x as u64)
            };
            let u8s = |t: &mut Tape, d: &mut Vec<u8>| {
                let x = t.byte();
                d.push(x);
                N(x as u64)
            };
            let grey = |x: X| R(vec![("greyscale", x)]);
            let (tag, x): (&[u8], X) = match t.below(16) {
                0 => {
                    let k = 1 + t.small(5);
                    let e = (0..k).map(|_| R(vec![("r", u8s(t, &mut d)), ("g", u8s(t, &mut d)), ("b", u8s(t, &mut d))])).collect();
                    (b"PLTE", v("PLTE", T(e)))
                }
                1 if ct < 4 => {
                    let x = match ct {
                        0 => v("color-type-0", grey(u16s(t, &mut d))),
                        2 => v("color-type-2", R(vec![("red", u16s(t, &mut d)), ("green", u16s(t, &mut d)), ("blue", u16s(t, &mut d))])),
                        _ => {
                            let k = t.small(5);
                            v("color-type-3", T((0..k).map(|_| R(vec![("palette-index", u8s(t, &mut d))])).collect()))
                        }
                    };
                    (b"tRNS", v("tRNS", x))
                }
                2 => {
                    let f = ["whitepoint-x", "whitepoint-y", "red-x", "red-y", "green-x", "green-y", "blue-x", "blue-y"].iter().map(|f| (*f, u32s(t, &mut d))).collect();
                    (b"cHRM", v("cHRM", R(f)))
                }
                3 => (b"gAMA", v("gAMA", R(vec![("gamma", u32s(t, &mut d))]))),
                4 => {
                    let k = keyword(t);
                    d.extend(&k);
                    d.extend([0, 0]);
                    let sz = t.below(60);
                    let (o, z, _) = zip::compress(t, sz);
                    let (z, _, _) = zip::zlib(t, &o, &z);
                    d.extend(z);
                    (b"iCCP", v("iCCP", R(vec![("profile-name", Y(k)), ("compressed-profile", R(vec![("data", R(vec![("inflate", Y(o))]))]))])))
                }
                5 => {
                    let (nm, fs): (&'static str, &[&'static str]) = match ct {
                        0 => ("color-type-0", &["sig-greyscale-bits"]),
                        2 => ("color-type-2", &["sig-red-bits", "sig-green-bits", "sig-blue-bits"]),
                        3 => ("color-type-3", &["sig-red-bits", "sig-green-bits", "sig-blue-bits"]),
                        4 => ("color-type-4", &["sig-greyscale-bits", "sig-alpha-bits"]),
                        _ => ("color-type-6", &["sig-red-bits", "sig-green-bits", "sig-blue-bits", "sig-alpha-bits"]),
                    };
                    let f = fs.iter().map(|f| (*f, u8s(t, &mut d))).collect();
                    (b"sBIT", v("sBIT", v(nm, R(f))))
                }
                6 => {
                    let k = t.below(4) as u8;
                    d.push(k);
                    spots.push((out.len() + 8, 4 + k, "rendering intent"));
                    (b"sRGB", v("sRGB", R(vec![("rendering-intent", N(k as u64))])))
                }
                7 => {
                    let k = keyword(t);
                    let lang = letters(t, 0, 8);
                    let tk = utf8(t, 6);
                    let tx = utf8(t, 12);
                    d.extend(&k);
                    d.push(0);
                    let flag = t.below(2) as u8;
                    spots.push((out.len() + 8 + d.len(), 2, "compression flag"));
                    d.extend([flag, 0]);
                    spots.push((out.len() + 8 + d.len() - 1, 1, "compression method"));
                    d.extend(&lang);
                    d.push(0);
                    d.extend(tk.bytes());
                    d.push(0);
                    let text = if flag == 1 {
                        // compressed: one stored block
                        let b = tx.as_bytes();
                        let mut z = vec![1, b.len() as u8, 0, !(b.len() as u8), 0xff];
                        z.extend(b);
                        let (z, _, _) = zip::zlib(t, b, &z);
                        d.extend(z);
                        v("compressed", v("valid", S(tx)))
                    } else {
                        d.extend(tx.bytes());
                        v("uncompressed", S(tx))
                    };
                    (b"iTXt", v("iTXt", R(vec![("keyword", Y(k)), ("compression-flag", N(flag as u64)), ("language-tag", Y(lang)), ("translated-keyword", S(tk)), ("text", text)])))
                }
                8 => {
                    let k = keyword(t);
                    let tx = letters(t, 0, 20);
                    d.extend(&k);
                    d.push(0);
                    d.extend(&tx);
                    spots.push((out.len() + 8, 0x1f, "keyword with a control character"));
                    (b"tEXt", v("tEXt", R(vec![("keyword", Y(k)), ("text", Y(tx))])))
                }
                9 => {
                    let k = keyword(t);
                    d.extend(&k);
                    d.extend([0, 0]);
                    let tx = utf8(t, 12);
                    let b = tx.as_bytes();
                    let mut z = vec![1, b.len() as u8, 0, !(b.len() as u8), 0xff];
                    z.extend(b);
                    let (z, _, _) = zip::zlib(t, b, &z);
                    d.extend(z);
                    (b"zTXt", v("zTXt", R(vec![("keyword", Y(k)), ("compressed-text", S(tx))])))
                }
                10 => {
                    let rgb = |t: &mut Tape, d: &mut Vec<u8>| R(vec![("red", u16s(t, d)), ("green", u16s(t, d)), ("blue", u16s(t, d))]);
                    let x = match ct {
                        0 => v("color-type-0", grey(u16s(t, &mut d))),
                        4 => v("color-type-4", grey(u16s(t, &mut d))),
                        2 => v("color-type-2", rgb(t, &mut d)),
                        6 => v("color-type-6", rgb(t, &mut d)),
                        _ => v("color-type-3", R(vec![("palette-index", u8s(t, &mut d))])),
                    };
                    (b"bKGD", v("bKGD", x))
                }
                11 => {
                    let k = t.small(5);
                    (b"hIST", v("hIST", R(vec![("histogram", T((0..k).map(|_| u16s(t, &mut d)).collect()))])))
                }
                12 => (b"pHYs", v("pHYs", R(vec![("pixels-per-unit-x", u32s(t, &mut d)), ("pixels-per-unit-y", u32s(t, &mut d)), ("unit-specifier", u8s(t, &mut d))]))),
                13 => {
                    let k = keyword(t);
                    d.extend(&k);
                    d.push(0);
                    let deep = t.chance(50);
                    d.push(if deep { 16 } else { 8 });
                    spots.push((out.len() + 8 + d.len() - 1, 9, "sample depth"));
                    let n = t.small(4);
                    let e = (0..n)
                        .map(|_| {
                            let mut f: Vec<(&'static str, X)> = ["red", "green", "blue", "alpha"].iter().map(|f| (*f, if deep { u16s(t, &mut d) } else { u8s(t, &mut d) })).collect();
                            f.push(("frequency", u16s(t, &mut d)));
                            R(f)
                        })
                        .collect();
                    (b"sPLT", v("sPLT", R(vec![("palette-name", Y(k)), ("palette", v(if deep { "sample-depth-u16" } else { "sample-depth-u8" }, T(e)))])))
                }
                14 => (b"tIME", v("tIME", R(vec![("year", u16s(t, &mut d)), ("month", u8s(t, &mut d)), ("day", u8s(t, &mut d)), ("hour", u8s(t, &mut d)), ("minute", u8s(t, &mut d)), ("second", u8s(t, &mut d))]))),
                _ => {
                    let k = t.small(10);
                    let b = t.bytes(k);
                    d.extend(&b);
                    (b"abCd", v("unknown", Y(b)))
                }
            };
            spots.push((out.len() + 4 + t.below(4), b'1', "tag with a digit"));
            let (o, c) = chunk(t, tag, &d);
            out.extend(o);
            v2.push(R(vec![("length", N(d.len() as u64)), ("tag", Y(tag.to_vec())), ("data", x), ("crc", N(c as u64))]));
        }
        v2
    };
    let before = some(t, &mut out, &mut spots);
    let sz = t.below(80);
    let (orig, z, _) = zip::compress(t, sz);
    let (z, dict, _) = zip::zlib(t, &orig, &z);
    let mut at = 0;
    let mut first = true;
    let idat_at = out.len();
    while first || at < z.len() {
        first = false;
        let n = if t.chance(50) { z.len() - at } else { t.below(z.len() - at + 1) };
        let (o, _) = chunk(t, b"IDAT", &z[at..at + n]);
        out.extend(o);
        at += n;
        if t.chance(10) {
            let (o, _) = chunk(t, b"IDAT", &[]);
            out.extend(o);
        }
    }
    let idat_end = out.len();
    let after = some(t, &mut out, &mut spots);
    let iend = out.len();
    let (o, c) = chunk(t, b"IEND", &[]);
    out.extend(o);
    spots.push((iend + 3, 1, "IEND with data"));
    spots.push((t.below(8), 0, "signature"));
    for (at, x, what) in spots {
        let mut o = out.clone();
        o[at] = x;
        bad.push((what.to_string(), o));
    }
    let mut o = out[..idat_at].to_vec();
    o.extend(&out[idat_end..]);
    bad.push(("no IDAT".into(), o));
    bad.push(("no IEND".into(), out[..iend].to_vec()));
    bad.push(("cut".into(), out[..t.below(out.len())].to_vec()));
    let k = bad.len();
    let (a, b) = (t.below(k), t.below(k));
    let bad = bad.into_iter().enumerate().filter(|(j, _)| *j == a || *j == b).map(|x| x.1).collect();
    Doc {
        name: "png.main",
        bytes: out,
        want: R(vec![
            ("ihdr", ihdr),
            ("chunks", T(before)),
            ("idat", R(vec![("data", R(vec![("inflate", Y(orig.clone()))])), ("adler32", N(zip::adler(&orig) as u64)), ("dict-id", dict.map_or(No, |d| s(N(d as u64))))])),
            ("more-chunks", T(after)),
            ("iend", R(vec![("crc", N(c as u64))])),
        ]),
        bad,
        rich: n > 1,
    }
}

pub fn gif(t: &mut Tape) -> Doc {
    let mut out: Vec<u8> = b"GIF".to_vec();
    let ver = letters(t, 3, 3);
    out.extend(&ver);
    let u16s = |t: &mut Tape, o: &mut Vec<u8>| {
        let x = t.edgy(16) as u16;
        o.extend(x.to_le_bytes());
        N(x as u64)
    };
    let u8s = |t: &mut Tape, o: &mut Vec<u8>| {
        let x = t.byte();
        o.push(x);
        N(x as u64)
    };
    let mut spots: Vec<(usize, u8, &'static str)> = vec![(t.below(3), b'X', "signature")];
    let table = |t: &mut Tape, o: &mut Vec<u8>, flags: u8| {
        if flags & 0x80 == 0 {
            return No;
        }
        let n = 2usize << (flags & 7);
        s(T((0..n).map(|_| R(vec![("r", u8s(t, o)), ("g", u8s(t, o)), ("b", u8s(t, o))])).collect()))
    };
    let w = u16s(t, &mut out);
    let h = u16s(t, &mut out);
    let fl = t.byte() & if t.chance(80) { 0xfb } else { 0xff };
    out.push(fl);
    let bg = u8s(t, &mut out);
    let par = u8s(t, &mut out);
    let gct = table(t, &mut out, fl);
    let screen = R(vec![
        (
            "descriptor",
            R(vec![
                ("screen-width", w),
                ("screen-height", h),
                ("flags", R(vec![("table-flag", B(fl & 0x80 != 0)), ("color-resolution", N((fl >> 4 & 7) as u64)), ("sort-flag", B(fl & 8 != 0)), ("table-size", N((fl & 7) as u64))])),
                ("bg-color-index", bg),
                ("pixel-aspect-ratio", par),
            ]),
        ),
        ("global-color-table", gct),
    ]);
    let subs = |t: &mut Tape, o: &mut Vec<u8>| {
        let k = t.small(3);
        let v = (0..k)
            .map(|_| {
                let n = if t.chance(5) { 255 } else { 1 + t.small(12) };
                let d = t.bytes(n);
                o.push(n as u8);
                o.extend(&d);
                R(vec![("len-bytes", N(n as u64)), ("data", Y(d))])
            })
            .collect();
        o.push(0);
        T(v)
    };
    let nb = t.small(5);
    let mut blocks = vec![];
    for _ in 0..nb {
        let o = &mut out;
        let b = match t.below(4) {
            0 => {
                spots.push((o.len() + 2, 10, "application block size"));
                o.extend([0x21, 0xff, 11]);
                let id = t.bytes(8);
                let auth = t.bytes(3);
                o.extend(&id);
                o.extend(&auth);
                let d = subs(t, o);
                v("special-purpose-block", v("application-extension", R(vec![("identifier", Y(id)), ("authentication-code", Y(auth)), ("application-data", d)])))
            }
            1 => {
                o.extend([0x21, 0xfe]);
                let d = subs(t, o);
                v("special-purpose-block", v("comment-extension", R(vec![("comment-data", d)])))
            }
            k => {
                let gce = if t.chance(50) {
                    let f = t.byte();
                    spots.push((o.len() + 2, 5, "control block size"));
                    o.extend([0x21, 0xf9, 4, f]);
                    let dt = u16s(t, o);
                    let tc = u8s(t, o);
                    spots.push((o.len(), 1, "control terminator"));
                    o.push(0);
                    s(R(vec![("flags", R(vec![("disposal-method", N((f >> 2 & 7) as u64)), ("user-input-flag", B(f & 2 != 0)), ("transparent-color-flag", B(f & 1 != 0))])), ("delay-time", dt), ("transparent-color-index", tc)]))
                } else {
                    No
                };
                let r = if k == 2 {
                    o.push(0x2c);
                    let p: Vec<X> = (0..4).map(|_| u16s(t, o)).collect();
                    let f = t.byte() & if t.chance(80) { 0xf9 } else { 0xff };
                    o.push(f);
                    let lct = table(t, o, f);
                    let lzw = u8s(t, o);
                    let d = subs(t, o);
                    let mut p = p.into_iter();
                    let mut nx = || p.next().unwrap();
                    v(
                        "table-based-image",
                        R(vec![
                            (
                                "descriptor",
                                R(vec![
                                    ("image-left-position", nx()),
                                    ("image-top-position", nx()),
                                    ("image-width", nx()),
                                    ("image-height", nx()),
                                    ("flags", R(vec![("table-flag", B(f & 0x80 != 0)), ("interlace-flag", B(f & 0x40 != 0)), ("sort-flag", B(f & 0x20 != 0)), ("table-size", N((f & 7) as u64))])),
                                ]),
                            ),
                            ("local-color-table", lct),
                            ("data", R(vec![("lzw-min-code-size", lzw), ("image-data", d)])),
                        ]),
                    )
                } else {
                    spots.push((o.len() + 2, 11, "text block size"));
                    o.extend([0x21, 1, 12]);
                    let mut f: Vec<(&'static str, X)> = ["text-grid-left-position", "text-grid-top-position", "text-grid-width", "text-grid-height"].iter().map(|f| (*f, u16s(t, o))).collect();
                    for n in ["character-cell-width", "character-cell-height", "text-foreground-color-index", "text-background-color-index"] {
                        f.push((n, u8s(t, o)));
                    }
                    f.push(("plain-text-data", subs(t, o)));
                    v("plain-text-extension", R(f))
                };
                v("graphic-block", R(vec![("graphic-control-extension", gce), ("graphic-rendering-block", r)]))
            }
        };
        blocks.push(b);
    }
    spots.push((out.len(), 0x3c, "trailer"));
    out.push(0x3b);
    let mut bad = vec![];
    let k = t.below(spots.len());
    let mut o = out.clone();
    o[spots[k].0] = spots[k].1;
    bad.push((spots[k].2.to_string(), o));
    bad.push(("cut".into(), out[..t.below(out.len())].to_vec()));
    Doc { name: "gif.main", bytes: out, want: R(vec![("header", R(vec![("version", Y(ver))])), ("logical-screen", screen), ("blocks", T(blocks)), ("trailer", R(vec![("separator", N(0x3b))]))]), bad, rich: nb > 0 }
}

pub fn riff(t: &mut Tape) -> Doc {
    let form = letters(t, 4, 4);
    let mut body = form.clone();
    let mut chunks = vec![];
    let mut pads = vec![];
    let k = t.small(5);
    for _ in 0..k {
        let tag = t.bytes(4);
        let n = t.small(20);
        let d = t.bytes(n);
        body.extend(&tag);
        body.extend((n as u32).to_le_bytes());
        body.extend(&d);
        if n % 2 == 1 {
            pads.push(body.len());
            body.push(0);
        }
        chunks.push(R(vec![("tag", Y(tag)), ("length", N(n as u64)), ("data", Y(d)), ("pad", if n % 2 == 1 { s(N(0)) } else { No })]));
    }
    let mut out = b"RIFF".to_vec();
    out.extend((body.len() as u32).to_le_bytes());
    out.extend(&body);
    let mut bad = vec![];
    let mut o = out.clone();
    let i = t.below(4);
    o[i] ^= 1 << t.below(8);
    bad.push(("tag".to_string(), o));
    if !pads.is_empty() {
        let mut o = out.clone();
        o[8 + pads[t.below(pads.len())]] = 1 + t.below(255) as u8;
        bad.push(("pad".to_string(), o));
    }
    let mut o = out.clone();
    o[4] = o[4].wrapping_add(2);
    if u32::from_le_bytes(o[4..8].try_into().unwrap()) as usize > body.len() {
        bad.push(("length beyond the end".to_string(), o));
    }
    if body.len() > 255 {
        bad.clear();
    }
    let odd = body.len() % 2 == 1;
    let _ = odd;
    Doc { name: "riff.main", bytes: out, want: R(vec![("length", N(body.len() as u64)), ("data", R(vec![("tag", Y(form)), ("chunks", T(chunks))]))]), bad, rich: k > 0 }
}

pub fn rle(t: &mut Tape) -> Doc {
    let style = t.below(2) as u8;
    let mut out = vec![style];
    let mut data = vec![];
    let mut runs = vec![];
    let k = t.small(8);
    for _ in 0..k {
        let n = match t.below(4) {
            0 => 0,
            1 => 255,
            _ => t.below(12),
        };
        let c = t.byte();
        out.extend([n as u8, c]);
        data.extend(vec![c; n]);
        runs.push(R(vec![("len", N(n as u64)), ("char", N(c as u64)), ("buf", Y(vec![c; n]))]));
    }
    let mut o = out.clone();
    o[0] = 2 + t.below(254) as u8;
    let bad = vec![("style".to_string(), o), ("half a run".to_string(), [&out[..], &[7]].concat())];
    let want = if style == 0 { v("old-style", R(vec![("runs", T(runs)), ("data", Y(data))])) } else { v("new-style", R(vec![("data", Y(data))])) };
    Doc { name: "rle.main", bytes: out, want, bad, rich: k > 1 }
}

pub fn waldo(t: &mut Tape) -> Doc {
    let noise = t.small(9);
    let gap = t.small(12);
    let tail = 5 + t.small(6);
    let here = 8 + noise + 1;
    let at = here + gap;
    let mut out = (at as u64).to_be_bytes().to_vec();
    out.extend(vec![0xff; noise]);
    out.push(0);
    out.extend(t.bytes(gap + tail));
    let w = out[at..at + 5].to_vec();
    let mut bad = vec![];
    for (what, p) in [("before the separator", here - 1), ("past the end", out.len() - 4), ("far away", usize::MAX)] {
        let mut o = out.clone();
        o[..8].copy_from_slice(&(p as u64).to_be_bytes());
        bad.push((what.to_string(), o));
    }
    let mut o = out.clone();
    o[here - 1] = 1;
    bad.push(("separator".into(), o));
    Doc { name: "waldo.main", bytes: out, want: R(vec![("where", N(at as u64)), ("noise", Y(vec![0xff; noise])), ("waldo", Y(w))]), bad, rich: true }
}

pub fn numbers(t: &mut Tape) -> Doc {
    let mut out = b"NUMS".to_vec();
    let mut vals = vec![];
    let k = t.small(8);
    for _ in 0..k {
        let kind = t.below(8);
        out.push(kind as u8);
        let bits = 8u32 << (kind % 4);
        let x = t.edgy(bits);
        out.extend(&x.to_be_bytes()[8 - bits as usize / 8..]);
        const N8: [&str; 8] = ["U8Value", "U16BEValue", "U32BEValue", "U64BEValue", "I8Value", "I16BEValue", "I32BEValue", "I64BEValue"];
        let val = if kind < 4 { N(x) } else { I(((x << (64 - bits)) as i64) >> (64 - bits)) };
        vals.push(v(N8[kind], val));
    }
    let mut o = out.clone();
    o.push(8 + t.below(248) as u8);
    o.extend(t.bytes(8));
    let mut p = out.clone();
    p.extend([3, 1, 2]);
    Doc { name: "numbers.main", bytes: out, want: R(vec![("values", T(vals))]), bad: vec![("kind".into(), o), ("cut".into(), p)], rich: k > 1 }
}

pub fn peano(t: &mut Tape) -> Doc {
    let k = 1 + t.small(6);
    let mut out = vec![];
    let mut vals = vec![];
    for _ in 0..k {
        let n = match t.below(4) {
            0 => 9,
            1 => 0,
            _ => t.below(10),
        };
        out.extend(vec![b'S'; n]);
        out.push(b'Z');
        vals.push(N(n as u64));
    }
    let mut a = out.clone();
    a.extend(vec![b'S'; 10 + t.below(3)]);
    a.push(b'Z');
    let mut b = out.clone();
    b.extend(vec![b'S'; t.below(4)]);
    b.push(b'X');
    Doc { name: "peano.sequence", bytes: out, want: T(vals), bad: vec![("ten".into(), a), ("letter".into(), b)], rich: k > 1 }
}

pub fn tiff(t: &mut Tape) -> Doc {
    let be = t.chance(50);
    let mut out = if be { b"MM".to_vec() } else { b"II".to_vec() };
    let p16 = |o: &mut Vec<u8>, x: u16| o.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() });
    let p32 = |o: &mut Vec<u8>, x: u32| o.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() });
    let magic = if t.chance(80) { 42 } else { t.edgy(16) as u16 };
    p16(&mut out, magic);
    let gap = t.small(10);
    p32(&mut out, 8 + gap as u32);
    out.extend(t.bytes(gap));
    let k = t.small(6);
    p16(&mut out, k as u16);
    let mut fs = vec![];
    for _ in 0..k {
        let (a, b, c, d) = (t.edgy(16) as u16, t.edgy(16) as u16, t.edgy(32) as u32, t.edgy(32) as u32);
        p16(&mut out, a);
        p16(&mut out, b);
        p32(&mut out, c);
        p32(&mut out, d);
        fs.push(R(vec![("tag", N(a as u64)), ("type", N(b as u64)), ("length", N(c as u64)), ("offset-or-data", N(d as u64))]));
    }
    let nx = t.edgy(32) as u32;
    p32(&mut out, nx);
    let full = out.len();
    let tail = t.small(10);
    let rest = t.bytes(tail);
    out.extend(&rest);
    let mut o = out.clone();
    o[t.below(2)] = b'X';
    let bad = vec![("byte order".to_string(), o), ("directory cut".to_string(), out[..full - 1 - t.below(4)].to_vec())];
    Doc {
        name: "tiff.main",
        bytes: out,
        want: R(vec![
            ("start_of_header", N(0)),
            ("magic", N(magic as u64)),
            ("offset", N(8 + gap as u64)),
            ("ifd", R(vec![("num-fields", N(k as u64)), ("fields", T(fs)), ("next-ifd-offset", N(nx as u64)), ("next-ifd", Y(rest))])),
        ]),
        bad,
        rich: k > 0,
    }
}

pub fn elf(t: &mut Tape) -> Doc {
    let wide = t.chance(50);
    let be = t.chance(50);
    let data = if be { 2 } else { t.below(2) as u8 };
    let class = if wide { 2u8 } else { 1 };
    let num = |o: &mut Vec<u8>, x: u64, n: usize| {
        let b = x.to_be_bytes();
        let b = &b[8 - n..];
        if be { o.extend(b) } else { o.extend(b.iter().rev()) }
    };
    let w = if wide { 8 } else { 4 };
    let vb = |p: &'static str, q: &'static str, x: u64| v(if wide { q } else { p }, N(x));
    let clip = |x: u64| if wide { x } else { x & 0xffff_ffff };
    let np = t.small(3);
    let ns = t.small(4);
    let with_p = np > 0 || t.chance(30);
    let with_s = ns > 0 || t.chance(30);
    let ehs = if wide { 64 } else { 52 };
    let phs = if wide { 56 } else { 32 };
    let shs = if wide { 64 } else { 40 };
    let mut at = ehs + if t.chance(30) { w * t.below(4) } else { 0 };
    let phoff = if with_p { at } else { 0 };
    if with_p {
        at += phs * np;
    }
    at += w * t.below(3);
    let shoff = if with_s { at } else { 0 };
    if with_s {
        at += shs * ns;
    }
    let body = at;
    // sections
    let mut secs = vec![];
    for _ in 0..ns {
        let ty = match t.below(6) {
            0 => 0,
            1 => 8,
            2 => *t.pick(&[11, 14, 18, 0x60000000, 0xffffffff]),
            _ => 1 + t.below(7) as u32,
        };
        let n = t.small(16);
        secs.push((ty, at, n));
        if ty != 0 && ty != 8 {
            at += n;
        }
        if t.chance(30) {
            at += t.small(4);
        }
    }
    let mut out = vec![0x7f, b'E', b'L', b'F', class, data];
    let (ver, abi, abiv) = (t.below(2) as u8, t.byte(), t.byte());
    out.extend([ver, abi, abiv, 0, 0, 0, 0, 0, 0, 0]);
    let ty = match t.below(3) {
        0 => t.below(5) as u16,
        1 => 0xfe00 + t.below(256) as u16,
        _ => 0xff00 + t.below(256) as u16,
    };
    num(&mut out, ty as u64, 2);
    let mach = t.edgy(16);
    num(&mut out, mach, 2);
    let ev = t.below(2) as u64;
    num(&mut out, ev, 4);
    let entry = clip(t.edgy(64));
    num(&mut out, entry, w);
    num(&mut out, phoff as u64, w);
    num(&mut out, shoff as u64, w);
    let flags = t.edgy(32);
    num(&mut out, flags, 4);
    let (strndx, es, ps, ss) = (t.edgy(16), t.edgy(16), t.edgy(16), t.edgy(16));
    num(&mut out, es, 2);
    num(&mut out, ps, 2);
    num(&mut out, np as u64, 2);
    num(&mut out, ss, 2);
    num(&mut out, ns as u64, 2);
    num(&mut out, strndx, 2);
    assert_eq!(out.len(), ehs);
    let header = R(vec![
        ("ident", R(vec![("class", N(class as u64)), ("data", N(data as u64)), ("version", N(ver as u64)), ("os_abi", N(abi as u64)), ("abi_version", N(abiv as u64))])),
        ("type", N(ty as u64)),
        ("machine", N(mach)),
        ("version", N(ev)),
        ("entry", vb("Addr32", "Addr64", entry)),
        ("phoff", vb("Off32", "Off64", phoff as u64)),
        ("shoff", vb("Off32", "Off64", shoff as u64)),
        ("flags", N(flags)),
        ("ehsize", N(es)),
        ("phentsize", N(ps)),
        ("phnum", N(np as u64)),
        ("shentsize", N(ss)),
        ("shnum", N(ns as u64)),
        ("shstrndx", N(strndx)),
    ]);
    let mut ph = vec![];
    if with_p {
        out.resize(phoff, 0xaa);
        for _ in 0..np {
            let ty = t.edgy(32);
            let fl = t.edgy(32);
            num(&mut out, ty, 4);
            if wide {
                num(&mut out, fl, 4);
            }
            let f: Vec<u64> = (0..6).map(|_| clip(t.edgy(64))).collect();
            for x in &f[..5] {
                num(&mut out, *x, w);
            }
            if !wide {
                num(&mut out, fl, 4);
            }
            num(&mut out, f[5], w);
            ph.push(R(vec![
                ("type", N(ty)),
                ("flags64", if wide { s(N(fl)) } else { No }),
                ("offset", vb("Off32", "Off64", f[0])),
                ("vaddr", vb("Addr32", "Addr64", f[1])),
                ("paddr", vb("Addr32", "Addr64", f[2])),
                ("filesz", vb("Full32", "Full64", f[3])),
                ("memsz", vb("Full32", "Full64", f[4])),
                ("flags32", if wide { No } else { s(N(fl)) }),
                ("align", vb("Full32", "Full64", f[5])),
            ]));
        }
    }
    let mut sh = vec![];
    let mut types = vec![];
    if with_s {
        out.resize(shoff, 0xbb);
        for (ty, off, n) in &secs {
            let name = t.edgy(32);
            num(&mut out, name, 4);
            types.push(out.len());
            num(&mut out, *ty as u64, 4);
            let (fl, ad) = (clip(t.edgy(64)), clip(t.edgy(64)));
            num(&mut out, fl, w);
            num(&mut out, ad, w);
            num(&mut out, *off as u64, w);
            num(&mut out, *n as u64, w);
            let (li, inf) = (t.edgy(32), t.edgy(32));
            num(&mut out, li, 4);
            num(&mut out, inf, 4);
            let (al, en) = (clip(t.edgy(64)), clip(t.edgy(64)));
            num(&mut out, al, w);
            num(&mut out, en, w);
            sh.push(R(vec![
                ("name", N(name)),
                ("type", N(*ty as u64)),
                ("flags", vb("Full32", "Full64", fl)),
                ("addr", vb("Addr32", "Addr64", ad)),
                ("offset", vb("Off32", "Off64", *off as u64)),
                ("size", vb("Full32", "Full64", *n as u64)),
                ("link", N(li)),
                ("info", N(inf)),
                ("addralign", vb("Full32", "Full64", al)),
                ("entsize", vb("Full32", "Full64", en)),
            ]));
        }
    }
    out.resize(body, 0xcc);
    let tail = at - body;
    out.extend(t.bytes(tail));
    let sections = secs.iter().map(|(ty, off, n)| if *ty == 0 || *ty == 8 { No } else { s(Y(out[*off..*off + *n].to_vec())) }).collect();
    let mut bad = vec![];
    let hit = |bad: &mut Vec<(String, Vec<u8>)>, what: &str, at: usize, b: &[u8]| {
        let mut o = out.clone();
        o[at..at + b.len()].copy_from_slice(b);
        bad.push((what.to_string(), o));
    };
    hit(&mut bad, "magic", t.below(4), &[0]);
    hit(&mut bad, "class", 4, &[3 + t.below(200) as u8]);
    hit(&mut bad, "class none", 4, &[0]);
    hit(&mut bad, "data encoding", 5, &[3 + t.below(200) as u8]);
    hit(&mut bad, "version", 6, &[2 + t.below(200) as u8]);
    let enc16 = |x: u16| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    let enc32 = |x: u32| if be { x.to_be_bytes() } else { x.to_le_bytes() };
    hit(&mut bad, "object type", 16, &enc16(*t.pick(&[5, 0xfdff, 0x1000])));
    hit(&mut bad, "object version", 20, &enc32(*t.pick(&[2, 0x100, 0x1000000])));
    if !types.is_empty() {
        let k = t.below(types.len());
        hit(&mut bad, "section type", types[k], &enc32(*t.pick(&[12, 13, 19, 0x5fffffff])));
    }
    let k = t.below(bad.len());
    let bad = vec![bad.swap_remove(k)];
    Doc {
        name: "elf.main",
        bytes: out,
        want: R(vec![("header", header), ("program_headers", if with_p { s(T(ph)) } else { No }), ("section_headers", if with_s { s(T(sh)) } else { No }), ("sections", if with_s { s(T(sections)) } else { No })]),
        bad,
        rich: np + ns > 0,
    }
}

pub fn jpeg(t: &mut Tape) -> Doc {
    let mut out = vec![0xff, 0xd8];
    let mut spots: Vec<(usize, u8, &'static str)> = vec![];
    fn seg(out: &mut Vec<u8>, id: u8, d: &[u8]) -> usize {
        out.extend([0xff, id]);
        out.extend((d.len() as u16 + 2).to_be_bytes());
        let at = out.len();
        out.extend(d);
        at
    }
    fn wrap(id: u8, d: &[u8], x: X) -> X {
        R(vec![("marker", R(vec![("marker", N(id as u64))])), ("length", N(d.len() as u64 + 2)), ("data", x)])
    }
    fn app0(t: &mut Tape, out: &mut Vec<u8>, spots: &mut Vec<(usize, u8, &'static str)>) -> X {
        if t.chance(70) {
            let mut d = b"JFIF\0".to_vec();
            let (a, b, u) = (t.byte(), t.byte(), t.below(3) as u8);
            let (x, y) = (1 + t.below(65535) as u16, 1 + t.below(65535) as u16);
            let (w, h) = (t.small(4) as u8, t.small(4) as u8);
            d.extend([a, b, u]);
            d.extend(x.to_be_bytes());
            d.extend(y.to_be_bytes());
            d.extend([w, h]);
            let mut rows = vec![];
            for _ in 0..h {
                let mut row = vec![];
                for _ in 0..w {
                    let p = t.bytes(3);
                    d.extend(&p);
                    row.push(R(vec![("r", N(p[0] as u64)), ("g", N(p[1] as u64)), ("b", N(p[2] as u64))]));
                }
                rows.push(T(row));
            }
            let at = seg(out, 0xe0, &d);
            spots.push((at + 7, 3, "density units"));
            wrap(
                0xe0,
                &d,
                R(vec![
                    ("identifier", Y(b"JFIF".to_vec())),
                    (
                        "data",
                        v(
                            "jfif",
                            R(vec![
                                ("version-major", N(a as u64)),
                                ("version-minor", N(b as u64)),
                                ("density-units", N(u as u64)),
                                ("density-x", N(x as u64)),
                                ("density-y", N(y as u64)),
                                ("thumbnail-width", N(w as u64)),
                                ("thumbnail-height", N(h as u64)),
                                ("thumbnail-pixels", T(rows)),
                            ]),
                        ),
                    ),
                ]),
            )
        } else {
            let id = letters(t, 0, 6);
            let n = t.small(9);
            let r = t.bytes(n);
            let mut d = id.clone();
            d.push(0);
            d.extend(&r);
            seg(out, 0xe0, &d);
            wrap(0xe0, &d, R(vec![("identifier", Y(id)), ("data", v("other", Y(r)))]))
        }
    }
    fn app1(t: &mut Tape, out: &mut Vec<u8>) -> X {
        let n = t.small(9);
        let r = t.bytes(n);
        let (id, x): (Vec<u8>, X) = if t.chance(50) { (b"http://ns.adobe.com/xap/1.0/".to_vec(), v("xmp", R(vec![("xmp", Y(r.clone()))]))) } else { (letters(t, 0, 6), v("other", Y(r.clone()))) };
        let mut d = id.clone();
        d.push(0);
        d.extend(&r);
        seg(out, 0xe1, &d);
        wrap(0xe1, &d, R(vec![("identifier", Y(id)), ("data", x)]))
    }
    fn table(t: &mut Tape, out: &mut Vec<u8>, spots: &mut Vec<(usize, u8, &'static str)>) -> X {
        match t.below(8) {
            0 => {
                let mut d = vec![];
                let mut ts = vec![];
                for _ in 0..1 + t.small(2) {
                    let (p, id) = (t.below(2) as u8, t.below(4) as u8);
                    d.push(p << 4 | id);
                    let n = 64 << p;
                    let b = t.bytes(n);
                    d.extend(&b);
                    let el = if p == 0 { v("Bytes", Y(b)) } else { v("Shorts", T(b.chunks(2).map(|c| N(c[0] as u64 * 256 + c[1] as u64)).collect())) };
                    ts.push(R(vec![("precision-table-id", R(vec![("precision", N(p as u64)), ("table-id", N(id as u64))])), ("elements", el)]));
                }
                let at = seg(out, 0xdb, &d);
                spots.push((at, 0x20, "table precision"));
                spots.push((at, 4, "quantization table"));
                v("dqt", wrap(0xdb, &d, T(ts)))
            }
            1 => {
                let (c, id) = (t.below(2) as u8, t.below(4) as u8);
                let mut d = vec![c << 4 | id];
                let n: Vec<u8> = (0..16).map(|_| t.small(3) as u8).collect();
                d.extend(&n);
                let mut vals = vec![];
                for k in &n {
                    let b = t.bytes(*k as usize);
                    d.extend(&b);
                    vals.push(Y(b));
                }
                let at = seg(out, 0xc4, &d);
                spots.push((at, 0x20, "table class"));
                v("dht", wrap(0xc4, &d, R(vec![("class-table-id", R(vec![("class", N(c as u64)), ("table-id", N(id as u64))])), ("num-codes", Y(n)), ("values", T(vals))])))
            }
            2 => {
                let (c, id, x) = (t.below(2) as u8, t.below(4) as u8, t.byte());
                let d = [c << 4 | id, x];
                let at = seg(out, 0xcc, &d);
                spots.push((at, 0x04, "table id"));
                v("dac", wrap(0xcc, &d, R(vec![("class-table-id", R(vec![("class", N(c as u64)), ("table-id", N(id as u64))])), ("value", N(x as u64))])))
            }
            3 => {
                let x = t.edgy(16) as u16;
                let d = x.to_be_bytes();
                seg(out, 0xdd, &d);
                v("dri", wrap(0xdd, &d, R(vec![("restart-interval", N(x as u64))])))
            }
            4 => {
                let n = t.small(20);
                let d = t.bytes(n);
                seg(out, 0xfe, &d);
                v("com", wrap(0xfe, &d, Y(d.clone())))
            }
            5 => v("app0", app0(t, out, spots)),
            6 => v("app1", app1(t, out)),
            _ => {
                const APP: [&str; 14] = ["app2", "app3", "app4", "app5", "app6", "app7", "app8", "app9", "app10", "app11", "app12", "app13", "app14", "app15"];
                let k = t.below(14);
                let n = t.small(20);
                let d = t.bytes(n);
                seg(out, 0xe2 + k as u8, &d);
                v(APP[k], wrap(0xe2 + k as u8, &d, Y(d.clone())))
            }
        }
    }
    let first = if t.chance(60) { v("app0", app0(t, &mut out, &mut spots)) } else { v("app1", app1(t, &mut out)) };
    let k = t.small(4);
    let segs: Vec<X> = (0..k).map(|_| table(t, &mut out, &mut spots)).collect();
    // frame header
    const SOF: [(u8, &str); 13] = [(0xc0, "sof0"), (0xc1, "sof1"), (0xc2, "sof2"), (0xc3, "sof3"), (0xc5, "sof5"), (0xc6, "sof6"), (0xc7, "sof7"), (0xc9, "sof9"), (0xca, "sof10"), (0xcb, "sof11"), (0xcd, "sof13"), (0xce, "sof14"), (0xcf, "sof15")];
    let (id, name) = *t.pick(&SOF);
    let prec = 2 + t.below(15) as u8;
    let lines = t.edgy(16) as u16;
    let samples = 1 + t.below(65535) as u16;
    let nc = 1 + t.small(4) as u8;
    let mut d = vec![prec];
    d.extend(lines.to_be_bytes());
    d.extend(samples.to_be_bytes());
    d.push(nc);
    let mut comps = vec![];
    for _ in 0..nc {
        let (i, f, q) = (t.byte(), t.byte(), t.below(4) as u8);
        d.extend([i, f, q]);
        comps.push(R(vec![("id", N(i as u64)), ("sampling-factor", R(vec![("horizontal", N((f >> 4) as u64)), ("vertical", N((f & 15) as u64))])), ("quantization-table-id", N(q as u64))]));
    }
    let at = seg(&mut out, id, &d);
    spots.push((at, *t.pick(&[0, 1, 17]), "sample precision"));
    spots.push((at + 8, 4, "quantization table id"));
    let header = v(name, wrap(id, &d, R(vec![("sample-precision", N(prec as u64)), ("num-lines", N(lines as u64)), ("num-samples-per-line", N(samples as u64)), ("num-image-components", N(nc as u64)), ("image-components", T(comps))])));
    let scan = |t: &mut Tape, out: &mut Vec<u8>, spots: &mut Vec<(usize, u8, &'static str)>| {
        let k = t.small(2);
        let segs: Vec<X> = (0..k).map(|_| table(t, out, spots)).collect();
        let nc = 1 + t.below(4) as u8;
        let mut d = vec![nc];
        let mut comps = vec![];
        for _ in 0..nc {
            let (sel, a, b) = (t.byte(), t.below(4) as u8, t.below(4) as u8);
            d.extend([sel, a << 4 | b]);
            comps.push(R(vec![("component-selector", N(sel as u64)), ("entropy-coding-table-ids", R(vec![("dc-entropy-coding-table-id", N(a as u64)), ("ac-entropy-coding-table-id", N(b as u64))]))]));
        }
        let (a, b, c) = (t.below(64) as u8, t.below(64) as u8, t.byte());
        d.extend([a, b, c]);
        let at = seg(out, 0xda, &d);
        spots.push((at, *t.pick(&[0, 5]), "scan components"));
        spots.push((at + 2, 0x40, "entropy table"));
        spots.push((at + d.len() - 3, 64, "spectral selection"));
        spots.push((at + d.len() - 2, 64, "spectral selection end"));
        let n = t.small(20);
        let mut stream = vec![];
        let mut ecs = vec![];
        const RST: [&str; 8] = ["rst0", "rst1", "rst2", "rst3", "rst4", "rst5", "rst6", "rst7"];
        for _ in 0..n {
            if t.chance(10) {
                let k = t.below(8);
                out.extend([0xff, 0xd0 + k as u8]);
                ecs.push(v(RST[k], R(vec![("marker", N(0xd0 + k as u64))])));
            } else {
                let b = if t.chance(15) { 0xff } else { t.byte() };
                out.push(b);
                if b == 0xff {
                    out.push(0);
                }
                stream.push(b);
                ecs.push(v("mcu", N(b as u64)));
            }
        }
        R(vec![
            ("segments", T(segs)),
            ("sos", wrap(0xda, &d, R(vec![("num-image-components", N(nc as u64)), ("image-components", T(comps)), ("start-spectral-selection", N(a as u64)), ("end-spectral-selection", N(b as u64)), ("approximation-bit-position", R(vec![("high", N((c >> 4) as u64)), ("low", N((c & 15) as u64))]))]))),
            ("data", R(vec![("scan-data", T(ecs)), ("scan-data-stream", Y(stream))])),
        ])
    };
    let sc = scan(t, &mut out, &mut spots);
    let dnl = if t.chance(30) {
        let x = 1 + t.below(65535) as u16;
        let d = x.to_be_bytes();
        seg(&mut out, 0xdc, &d);
        s(wrap(0xdc, &d, R(vec![("num-lines", N(x as u64))])))
    } else {
        No
    };
    let k = t.small(2);
    let scans: Vec<X> = (0..k).map(|_| scan(t, &mut out, &mut spots)).collect();
    let eoi = out.len();
    out.extend([0xff, 0xd9]);
    spots.push((1, 0xd9, "start marker"));
    spots.push((eoi + 1, 0xd8, "end marker"));
    let (at, x, what) = *t.pick(&spots);
    let mut o = out.clone();
    o[at] = x;
    let bad = vec![(what.to_string(), o), ("no end marker".to_string(), out[..eoi].to_vec())];
    Doc { name: "jpeg.main", bytes: out, want: R(vec![("frame", R(vec![("initial-segment", first), ("segments", T(segs)), ("header", header), ("scan", sc), ("dnl", dnl), ("scans", T(scans))]))]), bad, rich: true }
}

pub const KINDS: [fn(&mut Tape) -> Doc; 11] = [tar, png, gif, riff, rle, waldo, numbers, peano, tiff, elf, jpeg];
