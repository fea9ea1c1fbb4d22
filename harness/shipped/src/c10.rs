//! C10: the shipped generated decoders against the interpreted descriptions.
use crate::corpus;
use vharness::dbg;
use crate::docs::KINDS;
use crate::exec::interpret;
use crate::zip;
use doodle::prelude::*;
use vharness::ast::V;
use vharness::checks::c01::hex;
use vharness::runner::{Ctx, Fam, Outcome, guarded};
use vharness::tape::{Tape, hash_bytes};

pub fn generated(data: &[u8]) -> Result<(String, usize), String> {
    let r = guarded(|| {
        let mut p = Parser::new(data);
        let v = doodle_gencode::api_helper::verif_main(&mut p).map_err(|e| format!("{e:?}"))?;
        Ok((format!("{v:?}"), p.remaining()))
    });
    match r {
        Ok(x) => x,
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn top(v: &V) -> &'static str {
    const NAMES: [&str; 16] = ["elf", "gif", "gzip", "jpeg", "mpeg4", "numbers", "opentype", "peano", "png", "riff", "rle", "tar", "text", "tgz", "tiff", "waldo"];
    if let V::Record(fs) = v {
        if let Some((_, V::Variant(l, _))) = fs.iter().find(|f| &*f.0 == "data") {
            return NAMES.iter().find(|n| **n == &**l).unwrap_or(&"other");
        }
    }
    "other"
}

pub fn compare(data: &[u8], what: &'static str, nontrivial: bool) -> Outcome {
    let a = interpret("main", data);
    let b = generated(data);
    let short = |s: &str| s.chars().take(200).collect::<String>();
    // where an expression of the description overflows, interpretation aborts: nothing to compare with
    if a.as_ref().err().is_some_and(|e| e.starts_with("panic") && (e.contains("integer overflow") || e.contains("integer underflow") || e.contains("non-exhaustive patterns"))) {
        return Outcome::Pass { nontrivial: false, key: hash_bytes(data), classes: vec!["undefined arithmetic", what], sub: 0 };
    }
    for (side, e) in [("interpreter", a.as_ref().err()), ("generated", b.as_ref().err())] {
        if let Some(e) = e.filter(|e| e.starts_with("panic")) {
            return Outcome::fail(format!("{side}-{}", vharness::checks::c01::panic_sig(e)), format!("{side} decoder: {}; input {}", short(e), hex(data)));
        }
    }
    match (&a, &b) {
        (Ok((v, n)), Ok((s, m))) => {
            let d = match dbg::parse(s) {
                Ok(d) => d,
                Err(e) => return Outcome::fail("debug-text", format!("{e} in {}", short(s))),
            };
            if let Err(e) = dbg::agree(v, &d) {
                return Outcome::fail(format!("{}-value", top(v)), format!("{e}; input {}", hex(data)));
            }
            if n != m {
                return Outcome::fail(format!("{}-rest", top(v)), format!("{n} bytes left by the interpreter, {m} by the generated decoder; input {}", hex(data)));
            }
            Outcome::Pass { nontrivial, key: hash_bytes(data), classes: vec![top(v), what], sub: 1 }
        }
        (Err(_), Err(_)) => Outcome::Pass { nontrivial: false, key: hash_bytes(data), classes: vec!["refused", what], sub: 1 },
        (Ok((v, _)), Err(e)) => Outcome::fail(format!("{}-only-interpreted", top(v)), format!("the generated decoder refuses ({}) what the interpreter accepts: {}", short(e), hex(data))),
        (Err(e), Ok((s, _))) => {
            let k = dbg::parse(s).ok().map_or("other".into(), |d| format!("{d:?}").chars().skip(30).take(25).collect::<String>());
            Outcome::fail(format!("{k}-only-generated"), format!("the generated decoder accepts what the interpreter refuses ({}): {}", short(e), hex(data)))
        }
    }
}

pub fn document(t: &mut Tape) -> Vec<u8> {
    let k = t.weighted(&[2, 4, 3, 3, 2, 2, 2, 2, 2, 4, 4, 3, 2]);
    if k < KINDS.len() {
        return KINDS[k](t).bytes;
    }
    // a gzip file with plain content or an archive
    let n = t.below(200);
    let (orig, z, _) = zip::compress(t, n);
    let mut b = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 3];
    if k == KINDS.len() {
        b.extend(z);
        b.extend(zip::crc(&orig).to_le_bytes());
        b.extend((orig.len() as u32).to_le_bytes());
    } else {
        let tar = crate::docs::tar(t).bytes;
        for (i, c) in tar.chunks(60_000).enumerate() {
            b.push((i == tar.len().div_ceil(60_000) - 1) as u8);
            b.extend((c.len() as u16).to_le_bytes());
            b.extend((!(c.len() as u16)).to_le_bytes());
            b.extend(c);
        }
        b.extend(zip::crc(&tar).to_le_bytes());
        b.extend((tar.len() as u32).to_le_bytes());
    }
    b
}

fn documents(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let mut b = document(t);
    let hit = t.chance(50);
    if hit {
        corpus::damage(t, &mut b, 0);
    }
    if cx.want_text {
        cx.text = hex(&b);
    }
    compare(&b, if hit { "damaged" } else { "whole" }, true)
}

fn samples(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let all = corpus::samples();
    let s = &all[t.below(all.len())];
    let mut b = s.bytes.clone();
    if t.chance(95) {
        corpus::damage(t, &mut b, 0);
    }
    if cx.want_text {
        cx.text = format!("{}: {}", s.name, hex(&b));
    }
    compare(&b, "sample", b != s.bytes)
}

fn fonts(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let (mut tables, magic, name) = corpus::font(t);
    let hit = t.chance(60);
    if hit {
        for _ in 0..1 + t.below(2) {
            let i = t.below(tables.len());
            corpus::damage(t, &mut tables[i].1, 0);
        }
    }
    let b = corpus::assemble(&tables, magic);
    if cx.want_text {
        cx.text = format!("{name}: {}", hex(&b));
    }
    compare(&b, if hit { "damaged" } else { "whole" }, true)
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C10", sub: "documents", rule: "accepted by both with equal values", quick: 30_000, thorough: 3_000_000, f: &documents },
        Fam { prop: "C10", sub: "samples", rule: "a changed sample file accepted by both with equal values", quick: 10_000, thorough: 1_000_000, f: &samples },
        Fam { prop: "C10", sub: "fonts", rule: "a font accepted by both with equal values", quick: 6_000, thorough: 600_000, f: &fonts },
    ]
}
