//! C12: documents of the shipped container and record formats.
use crate::docs::{KINDS, matches};
use crate::exec::{field, interpret};
use vharness::checks::c01::hex;
use vharness::runner::{Ctx, Fam, Outcome};
use vharness::tape::hash_bytes;

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let k = t.weighted(&[2, 4, 3, 3, 2, 2, 2, 2, 2, 4, 4]);
    let d = KINDS[k](t);
    if cx.want_text {
        cx.text = format!("{}: {}", d.name, hex(&d.bytes));
    }
    // these two are read through offsets, the reading position stays behind their header
    let far = d.name == "tiff.main" || d.name == "elf.main";
    let prog = if far { d.name.to_string() } else { format!("{}$", d.name) };
    match interpret(&prog, &d.bytes) {
        Ok((v, n)) if far || n == 0 => {
            let v = if far { &v } else { field(&v, &["0"]).unwrap() };
            if let Err(e) = matches(v, &d.want) {
                return Outcome::fail(format!("{}-content", d.name), format!("{}{e}; {}", d.name, hex(&d.bytes)));
            }
        }
        Ok((_, n)) => return Outcome::fail(format!("{}-rest", d.name), format!("{n} bytes left of {}", hex(&d.bytes))),
        Err(e) => return Outcome::fail(format!("{}-refused", d.name), format!("{e}; {}", hex(&d.bytes))),
    }
    for (what, b) in &d.bad {
        if interpret(&prog, b).is_ok() {
            return Outcome::fail(format!("{}-accepts-{what}", d.name), format!("{} with a wrong {what} is accepted: {}", d.name, hex(b)));
        }
    }
    Outcome::Pass { nontrivial: d.rich, key: hash_bytes(&d.bytes), classes: vec![d.name], sub: 1 + d.bad.len() as u64 }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C12", sub: "documents", rule: "a document with several parts", quick: 40_000, thorough: 5_000_000, f: &case }]
}
