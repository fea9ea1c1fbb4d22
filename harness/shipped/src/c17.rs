//! C17: the shipped generated decoders on anything at all.
use crate::c10::document;
use crate::corpus;
use doodle::prelude::*;
use doodle_gencode as g;
use vharness::checks::c01::{hex, panic_sig};
use vharness::runner::{Ctx, Fam, Outcome, guarded};
use vharness::tape::{Tape, hash_bytes};

type Dec = (&'static str, fn(&[u8]) -> Result<usize, ()>);

macro_rules! dec {
    ($($t:ident),*) => {
        [$((stringify!($t), (|d: &[u8]| {
            let mut p = Parser::new(d);
            <g::$t as CommonObject>::parse(&mut p, ()).map_err(|_| ())?;
            Ok(p.remaining())
        }) as fn(&[u8]) -> Result<usize, ()>)),*]
    };
}

fn everything(d: &[u8]) -> Result<usize, ()> {
    let mut p = Parser::new(d);
    g::api_helper::verif_main(&mut p).map_err(|_| ())?;
    Ok(p.remaining())
}

fn inflate(d: &[u8]) -> Result<usize, ()> {
    let mut p = Parser::new(d);
    p.enter_bits_mode().map_err(|_| ())?;
    <g::deflate_main as CommonObject>::parse(&mut p, ()).map_err(|_| ())?;
    p.escape_bits_mode().map_err(|_| ())?;
    Ok(p.remaining())
}

fn decoders() -> Vec<Dec> {
    let mut v: Vec<Dec> = vec![("main", everything), ("deflate", inflate)];
    v.extend(dec![elf_main, gif_main, tiff_main, jpeg_main, mpeg4_main, numbers_main, opentype_main, png_main, riff_main, rle_main, waldo_main]);
    v
}

const HEADS: [&[u8]; 22] = [
    b"\x7fELF\x02\x01\x01", b"\x7fELF\x01\x02\x01", b"GIF89a", b"II\0\x2a", b"II\0\0", b"MM\0\x2a", b"\xff\xd8\xff\xe0", b"\xff\xd8\xff\xe1", b"\0\0\0\x18ftypheic", b"\0\0\0\x10meta", b"NUMS",
    b"\0\x01\0\0\0\x04", b"OTTO\0\x08", b"ttcf\0\x01\0\0\0\0\0\x01\0\0\0\x0c", b"\x89PNG\r\n\x1a\n\0\0\0\x0dIHDR", b"RIFF\x20\0\0\0WEBP", b"\x1f\x8b\x08\0", b"\x1f\x8b\x08\x1e", b"SSZ", b"\0\0\0\0\0\0\0\x20\xff\0", b"\x05\xcb\xa1\x0d", b"ustar",
];

fn input(t: &mut Tape) -> (Vec<u8>, &'static str) {
    match t.weighted(&[5, 5, 4, 2, 1]) {
        0 => {
            let mut b = document(t);
            for _ in 0..1 + t.below(3) {
                corpus::damage(t, &mut b, 0);
            }
            (b, "document")
        }
        1 => {
            let (mut tables, magic, _) = corpus::font(t);
            for _ in 0..1 + t.below(4) {
                let i = t.below(tables.len());
                corpus::damage(t, &mut tables[i].1, 0);
            }
            let mut b = corpus::assemble(&tables, magic);
            if t.chance(30) {
                corpus::damage(t, &mut b, 0);
            }
            (b, "font")
        }
        2 => {
            let all = corpus::samples();
            let mut b = all[t.below(all.len())].bytes.clone();
            for _ in 0..1 + t.below(4) {
                corpus::damage(t, &mut b, 0);
            }
            (b, "sample")
        }
        3 => {
            let mut b = HEADS[t.below(HEADS.len())].to_vec();
            let n = t.below(120);
            let few = t.chance(60);
            for _ in 0..n {
                b.push(if few { [0, 0, 0, 1, 2, 4, 8, 16, 255][t.below(9)] } else { t.byte() });
            }
            (b, "head")
        }
        _ => {
            let n = t.below(64);
            (t.bytes(n), "noise")
        }
    }
}

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let (b, what) = input(t);
    let all = decoders();
    // the decoder for any file, and one decoder that may not be meant for it
    let other = match what {
        "font" => 8,
        _ => 1 + t.below(all.len() - 1),
    };
    if cx.want_text {
        cx.text = format!("{what}: {}", hex(&b));
    }
    let mut ok = 0;
    for (name, f) in [&all[0], &all[other]] {
        match guarded(|| f(&b)) {
            Ok(Ok(n)) if n <= b.len() => ok += 1,
            Ok(Ok(n)) => return Outcome::fail(format!("{name}-rest"), format!("{n} bytes left of {}", b.len())),
            Ok(Err(())) => {}
            Err(p) => return Outcome::fail(format!("{name}-{}", panic_sig(&p)), format!("{name} panics: {p}; input {}", hex(&b))),
        }
    }
    Outcome::Pass { nontrivial: what != "noise", key: hash_bytes(&b), classes: vec![what, if ok > 0 { "accepted" } else { "refused" }], sub: 2 }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C17", sub: "decoders", rule: "a damaged document, font or sample file, or bytes after a real file head", quick: 500_000, thorough: 20_000_000, f: &case }]
}
