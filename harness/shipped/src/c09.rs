//! C09: DEFLATE, zlib and gzip.
use vharness::dbg::{self, D};
use crate::exec::{bytes, field, interpret};
use crate::zip;
use doodle::prelude::*;
use vharness::ast::V;
use vharness::checks::c01::hex;
use vharness::runner::{Ctx, Fam, Outcome, guarded};
use vharness::tape::{Tape, hash_bytes};

/// Generated decoder: the inflated bytes and how many bytes are left.
fn generated(data: &[u8]) -> Result<(Vec<u8>, usize), String> {
    let r = guarded(|| {
        let mut p = Parser::new(data);
        p.enter_bits_mode().map_err(|e| format!("{e:?}"))?;
        let v = <doodle_gencode::deflate_main as CommonObject>::parse(&mut p, ()).map_err(|e| format!("{e:?}"))?;
        p.escape_bits_mode().map_err(|e| format!("{e:?}"))?;
        let d = dbg::parse(&format!("{v:?}"))?;
        let l = dbg::list(&d, "inflate").ok_or("no inflate field")?;
        let b: Option<Vec<u8>> = l.iter().map(|x| if let D::Num(n) = x { u8::try_from(*n).ok() } else { None }).collect();
        Ok((b.ok_or("not bytes")?, p.remaining()))
    });
    match r {
        Ok(x) => x,
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn size(t: &mut Tape) -> usize {
    match t.weighted(&[3, 12, 5, 1]) {
        0 => 0,
        1 => 1 + t.below(60),
        2 => 60 + t.below(600),
        _ => 30_000 + t.below(40_000),
    }
}

fn classes(s: &zip::Shape) -> Vec<&'static str> {
    let mut c = vec![];
    if s.stored > 0 {
        c.push("stored");
    }
    if s.fixed > 0 {
        c.push("fixed");
    }
    if s.dynamic > 0 {
        c.push("dynamic");
    }
    if s.overlap > 0 {
        c.push("overlap");
    }
    if s.far > 0 {
        c.push("far");
    }
    c
}

fn roundtrip(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let n = size(t);
    let (orig, mut z, sh) = zip::compress(t, n);
    let tail = t.small(5);
    let zl = z.len();
    z.extend(t.bytes(tail));
    if cx.want_text {
        cx.text = format!("{} bytes as {:?} in {}: {}", orig.len(), sh, zl, hex(&z[..z.len().min(80)]));
    }
    match interpret("bits:deflate.main", &z) {
        Ok((v, left)) => {
            let got = field(&v, &["inflate"]).and_then(bytes);
            if got.as_deref() != Some(&orig[..]) {
                return Outcome::fail("interpreter-data", format!("{} inflates to {:?}, not {}", hex(&z), got.map(|g| hex(&g)), hex(&orig)));
            }
            if left != tail {
                return Outcome::fail("interpreter-rest", format!("{left} bytes left, not {tail}: {}", hex(&z)));
            }
        }
        Err(e) => return Outcome::fail("interpreter-refuses", format!("{}: {e}", hex(&z))),
    }
    match generated(&z) {
        Ok((got, left)) => {
            if got != orig {
                return Outcome::fail("generated-data", format!("{} inflates to {}, not {}", hex(&z), hex(&got), hex(&orig)));
            }
            if left != tail {
                return Outcome::fail("generated-rest", format!("{left} bytes left, not {tail}: {}", hex(&z)));
            }
        }
        Err(e) => return Outcome::fail("generated-refuses", format!("{}: {e}", hex(&z))),
    }
    Outcome::Pass { nontrivial: sh.refs > 0 && sh.dynamic + sh.fixed > 0, key: hash_bytes(&z), classes: classes(&sh), sub: 2 }
}

fn corrupt(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let n = 1 + t.below(120);
    let (_, mut z, _) = zip::compress(t, n);
    for _ in 0..1 + t.small(3) {
        let n = z.len();
        match t.below(4) {
            0 => {
                let i = t.below(n);
                z[i] ^= 1 << t.below(8);
            }
            1 => {
                let i = t.below(n.min(12));
                z[i] ^= 1 << t.below(8);
            }
            2 => z.truncate(1 + t.below(n)),
            _ => {
                let i = t.below(n);
                z[i] = t.byte();
            }
        }
    }
    if cx.want_text {
        cx.text = hex(&z);
    }
    let want = zip::inflate(&z);
    let i = interpret("bits:deflate.main", &z);
    let g = generated(&z);
    let i = match i {
        Ok((v, left)) => Ok((field(&v, &["inflate"]).and_then(bytes).unwrap_or_default(), left)),
        Err(e) => Err(e),
    };
    for (who, r) in [("interpreter", &i), ("generated", &g)] {
        match (&want, r) {
            (Ok((w, used)), Ok((d, left))) => {
                if w != d || *left != z.len() - used {
                    return Outcome::fail(format!("{who}-differs"), format!("{} gives {} ({left} left), not {} ({} left)", hex(&z), hex(d), hex(w), z.len() - used));
                }
            }
            (Ok((w, _)), Err(e)) => return Outcome::fail(format!("{who}-refuses"), format!("{}, which is {}: {e}", hex(&z), hex(w))),
            (Err(zip::Bad::Invalid(why)), Ok((d, _))) => return Outcome::fail(format!("{who}-accepts-{why}"), format!("{} gives {}, but is invalid: {why}", hex(&z), hex(d))),
            (Err(zip::Bad::Short), Ok((d, _))) => return Outcome::fail(format!("{who}-accepts-cut"), format!("{} gives {}, but ends too early", hex(&z), hex(d))),
            (Err(zip::Bad::Odd(_)), Ok(_)) | (Err(_), Err(_)) => {}
        }
    }
    let c = match &want {
        Ok(_) => "still valid",
        Err(zip::Bad::Short) => "cut",
        Err(zip::Bad::Invalid(w)) => w,
        Err(zip::Bad::Odd(w)) => w,
    };
    Outcome::Pass { nontrivial: !matches!(want, Err(zip::Bad::Short)), key: hash_bytes(&z), classes: vec![c], sub: 2 }
}

fn num(v: &V, path: &[&str]) -> Option<u64> {
    match field(v, path)? {
        V::U(_, n) => Some(*n),
        V::Bool(b) => Some(*b as u64),
        _ => None,
    }
}

fn zlib(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let n = t.below(200);
    let (orig, z, sh) = zip::compress(t, n);
    let (mut out, dict, level) = zip::zlib(t, &orig, &z);
    let tail = t.small(4);
    out.extend(t.bytes(tail));
    if cx.want_text {
        cx.text = hex(&out);
    }
    match interpret("zlib.main", &out) {
        Ok((v, left)) => {
            let ok = field(&v, &["data", "inflate"]).and_then(bytes).as_deref() == Some(&orig[..])
                && left == tail
                && num(&v, &["adler32"]) == Some(zip::adler(&orig) as u64)
                && num(&v, &["flags", "flevel"]) == Some(level as u64)
                && num(&v, &["compression-method-flags", "compression-info"]) == Some((out[0] >> 4) as u64)
                && num(&v, &["dict-id", "?"]) == dict.map(|d| d as u64);
            if !ok {
                return Outcome::fail("zlib-fields", format!("{}: {v:?}", hex(&out)));
            }
        }
        Err(e) => return Outcome::fail("zlib-refuses", format!("{}: {e}", hex(&out))),
    }
    // a compression method other than 8 is refused
    let m = t.below(16) as u8;
    if m != 8 {
        out[0] = out[0] & 0xf0 | m;
        if let Ok((v, _)) = interpret("zlib.main", &out) {
            return Outcome::fail("zlib-method", format!("method {m} is accepted: {v:?}"));
        }
    }
    Outcome::Pass { nontrivial: !orig.is_empty(), key: hash_bytes(&out), classes: classes(&sh), sub: 2 }
}

fn gzip(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let k = 1 + t.small(3);
    let mut out = vec![];
    let mut want = vec![];
    let mut last_flags = 0;
    for _ in 0..k {
        let n = t.below(150);
        let (orig, z, _) = zip::compress(t, n);
        let flags = t.below(32) as u8;
        last_flags = out.len() + 3;
        let (mtime, xfl, os) = (t.edgy(32) as u32, t.byte(), t.byte());
        out.extend([0x1f, 0x8b, 8, flags]);
        out.extend(mtime.to_le_bytes());
        out.extend([xfl, os]);
        let mut extra = vec![];
        if flags & 4 != 0 {
            let mut b = vec![];
            for _ in 0..t.small(3) {
                let n = t.small(20);
                let d = t.bytes(n);
                let id = [b'A' + t.below(26) as u8, b'a' + t.below(26) as u8];
                b.extend(id);
                b.extend((n as u16).to_le_bytes());
                b.extend(&d);
                extra.push((id, d));
            }
            out.extend((b.len() as u16).to_le_bytes());
            out.extend(b);
        }
        let name: Vec<u8> = (0..t.small(12)).map(|_| 0x20 + t.below(0x5f) as u8).collect();
        if flags & 8 != 0 {
            out.extend(&name);
            out.push(0);
        }
        let comment: Vec<u8> = (0..t.small(12)).map(|_| 0x20 + t.below(0x5f) as u8).collect();
        if flags & 16 != 0 {
            out.extend(&comment);
            out.push(0);
        }
        let hcrc = t.edgy(16) as u16;
        if flags & 2 != 0 {
            out.extend(hcrc.to_le_bytes());
        }
        out.extend(z);
        out.extend(zip::crc(&orig).to_le_bytes());
        out.extend((orig.len() as u32).to_le_bytes());
        want.push((orig, flags, mtime, xfl, os, extra, name, comment, hcrc));
    }
    if cx.want_text {
        cx.text = hex(&out);
    }
    let check = |v: &V| -> Result<(), String> {
        let V::Seq(ms) = v else { return Err("not a sequence".into()) };
        if ms.len() != want.len() {
            return Err(format!("{} members, not {}", ms.len(), want.len()));
        }
        for (m, (orig, flags, mtime, xfl, os, extra, name, comment, hcrc)) in ms.iter().zip(&want) {
            let e = |what: &str, ok: bool| if ok { Ok(()) } else { Err(format!("{what}: {m:?}")) };
            e("data", field(m, &["data", "inflate"]).and_then(bytes).as_ref() == Some(orig))?;
            for (i, f) in ["ftext", "fhcrc", "fextra", "fname", "fcomment"].iter().enumerate() {
                e(f, num(m, &["header", "file-flags", f]) == Some((flags >> i & 1) as u64))?;
            }
            e("mtime", num(m, &["header", "timestamp"]) == Some(*mtime as u64))?;
            e("xfl", num(m, &["header", "compression-flags"]) == Some(*xfl as u64))?;
            e("os", num(m, &["header", "os-id"]) == Some(*os as u64))?;
            e("crc", num(m, &["footer", "crc"]) == Some(zip::crc(orig) as u64))?;
            e("length", num(m, &["footer", "length"]) == Some(orig.len() as u64))?;
            e("hcrc", num(m, &["fhcrc", "?", "crc"]) == (flags & 2 != 0).then_some(*hcrc as u64))?;
            let text = |x: Option<&V>| x.and_then(bytes);
            let strip = |v: &V| match v {
                V::Record(_) => field(v, &["string"]).cloned(),
                v => Some(v.clone()),
            };
            let fname = field(m, &["fname", "?"]).and_then(strip);
            e("fname", text(fname.as_ref()) == (flags & 8 != 0).then(|| name.clone()))?;
            let fc = field(m, &["fcomment", "?", "comment"]).and_then(strip);
            e("fcomment", text(fc.as_ref()) == (flags & 16 != 0).then(|| comment.clone()))?;
            if flags & 4 != 0 {
                let Some(V::Seq(xs)) = field(m, &["fextra", "?", "subfields"]) else { return Err("no subfields".into()) };
                e("subfields", xs.len() == extra.len())?;
                for (x, (_, d)) in xs.iter().zip(extra) {
                    e("subfield", field(x, &["data"]).and_then(bytes).as_ref() == Some(d))?;
                }
            }
        }
        Ok(())
    };
    match interpret("gzip.main", &out) {
        Ok((v, 0)) => {
            if let Err(e) = check(&v) {
                return Outcome::fail("gzip-fields", format!("{}: {e}", hex(&out)));
            }
        }
        Ok((_, n)) => return Outcome::fail("gzip-rest", format!("{n} bytes left of {}", hex(&out))),
        Err(e) => return Outcome::fail("gzip-refuses", format!("{}: {e}", hex(&out))),
    }
    Outcome::Pass { nontrivial: want.iter().any(|w| w.1 != 0), key: hash_bytes(&out), classes: vec!["gzip"], sub: 1 }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C09", sub: "deflate", rule: "a stream with at least one back-reference in a compressed block", quick: 8_000, thorough: 2_000_000, f: &roundtrip },
        Fam { prop: "C09", sub: "corrupt", rule: "a damaged stream that does not merely end too early", quick: 40_000, thorough: 8_000_000, f: &corrupt },
        Fam { prop: "C09", sub: "zlib", rule: "non-empty content", quick: 5_000, thorough: 1_000_000, f: &zlib },
        Fam { prop: "C09", sub: "gzip", rule: "some optional header field is present", quick: 6_000, thorough: 1_000_000, f: &gzip },
    ]
}
