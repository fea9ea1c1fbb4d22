//! C18: code generation is a function of the description.
//!
//! The same description is generated again: at once, after other generations, from a rebuilt
//! module, in another thread, and in another process (where hash seeds differ).
use doodle::FormatModule;
use doodle::codegen::{ToFragment, generate_code};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use vharness::ast::build;
use vharness::checks::c01::show;
use vharness::checks::c03::{TOO_LONG, pruned, source};
use vharness::r#gen::{G, Prof};
use vharness::runner::{Ctx, Fam, Outcome, guarded};
use vharness::tape::{Tape, hash_bytes, mix};

const RULE: &str = "non-trivial: the description generated source with at least one type declaration or two decoder functions; distinct by source";
const SHIPPED: &str = "non-trivial: the whole shipped module was generated again and compared with its first generation; distinct by the histories generated before it";

fn prog(t: &mut Tape) -> vharness::ast::Prog {
    let prof = Prof { fuel: 16 + t.draw(30) as i32, ..Prof::codegen() };
    pruned(G::new(t, prof).prog())
}

fn weighty(s: &str) -> bool {
    s.contains("pub struct") || s.contains("pub enum") || s.matches("\nfn Decoder").count() > 1
}

fn diff(a: &Result<String, String>, b: &Result<String, String>) -> Option<String> {
    match (a, b) {
        (Ok(a), Ok(b)) if a != b => {
            let (x, y) = a.lines().zip(b.lines()).find(|(x, y)| x != y).unwrap_or(("", "(one is longer)"));
            Some(format!("`{x}` then `{y}`"))
        }
        (Ok(_), Err(e)) | (Err(e), Ok(_)) => Some(format!("once source, once {e}")),
        _ => None,
    }
}

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let p = prog(cx.tape);
    let others: Vec<_> = (0..cx.tape.below(4)).map(|_| prog(cx.tape)).collect();
    if cx.want_text {
        cx.text = show(&p);
    }
    let first = source(&p);
    if first.as_ref().is_err_and(|e| e == TOO_LONG) {
        return Outcome::Discard("prediction tables too large");
    }
    // twice from one module
    let twice = guarded(|| {
        let (mut m, f) = build(&p);
        let f = m.define_format("root", f).call();
        let a = generate_code(&m, &f).to_fragment().to_string();
        let b = generate_code(&m, &f).to_fragment().to_string();
        (a, b)
    });
    match twice {
        Ok((a, b)) => {
            if let Some(d) = diff(&first, &Ok(a.clone())) {
                return Outcome::fail("again", format!("generated again from a rebuilt module: {d}"));
            }
            if let Some(d) = diff(&Ok(a), &Ok(b)) {
                return Outcome::fail("again-same-module", format!("generated twice from one module: {d}"));
            }
        }
        Err(e) => {
            if let Some(d) = diff(&first, &Err(e)) {
                return Outcome::fail("again", d);
            }
        }
    }
    for o in &others {
        let _ = source(o);
    }
    if let Some(d) = diff(&first, &source(&p)) {
        return Outcome::fail("after-others", format!("generated after {} other descriptions: {d}", others.len()));
    }
    let Ok(s) = first else { return Outcome::Discard("the generator does not take this description") };
    Outcome::Pass { nontrivial: weighty(&s), key: hash_bytes(s.as_bytes()), classes: vec![if others.is_empty() { "no-history" } else { "history" }], sub: 3 + others.len() as u64 }
}

const N: u64 = 40;
fn hashes(seed: u64, backwards: bool) -> Vec<u64> {
    let mut out = vec![0; N as usize];
    let order: Vec<u64> = if backwards { (0..N).rev().collect() } else { (0..N).collect() };
    for i in order {
        let p = prog(&mut Tape::random(mix(&[seed, i])));
        out[i as usize] = match source(&p) {
            Ok(s) => hash_bytes(s.as_bytes()),
            Err(e) if e == TOO_LONG => 0,
            Err(_) => 1,
        };
    }
    out
}

/// answer a parent's question and leave
pub fn child() {
    if let Ok(s) = std::env::var("VERIF_C18_CHILD") {
        if let Ok(s) = s.parse() {
            std::panic::set_hook(Box::new(|_| {}));
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || hashes(s, true)).unwrap().join().unwrap();
            println!("{h:?}");
            std::process::exit(0);
        }
    }
}

fn processes(cx: &mut Ctx<'_>) -> Outcome {
    let seed = cx.tape.raw();
    let o = Command::new(std::env::current_exe().unwrap()).env("VERIF_C18_CHILD", seed.to_string()).stdin(Stdio::null()).stderr(Stdio::null()).output().unwrap();
    let theirs = String::from_utf8_lossy(&o.stdout).trim().to_string();
    if !o.status.success() || !theirs.starts_with('[') {
        return Outcome::Discard("the other process did not answer");
    }
    let ours = hashes(seed, false);
    if cx.want_text {
        cx.text = format!("{N} descriptions from seed {seed} in two processes, in opposite orders");
    }
    let theirs: Vec<u64> = theirs.trim_matches(|c| c == '[' || c == ']').split(", ").filter_map(|x| x.parse().ok()).collect();
    // 0: left out for its size
    if let Some(k) = ours.iter().zip(&theirs).position(|(a, b)| a != b && *a != 0 && *b != 0) {
        let p = prog(&mut Tape::random(mix(&[seed, k as u64])));
        return Outcome::fail("process", format!("another process generates different source for {}", show(&p)));
    }
    Outcome::Pass { nontrivial: ours.iter().any(|h| *h > 1), key: mix(&ours), classes: vec![], sub: N }
}

static FIRST: OnceLock<Result<String, String>> = OnceLock::new();
fn whole() -> Result<String, String> {
    guarded(|| {
        let mut m = FormatModule::new();
        let f = doodle_formats::format::main(&mut m).call();
        generate_code(&m, &f).to_fragment().to_string()
    })
}

fn shipped(cx: &mut Ctx<'_>) -> Outcome {
    let others: Vec<_> = (0..cx.tape.below(6)).map(|_| prog(cx.tape)).collect();
    let repeats = cx.tape.below(2);
    if cx.want_text {
        cx.text = format!("the shipped module after {} other generations and {repeats} of itself", others.len());
    }
    let want = FIRST.get_or_init(whole);
    for o in &others {
        let _ = source(o);
    }
    for _ in 0..=repeats {
        if let Some(d) = diff(want, &whole()) {
            return Outcome::fail("shipped", format!("the shipped descriptions generate different source: {d}"));
        }
    }
    Outcome::Pass { nontrivial: true, key: cx.tape.raw(), classes: vec![], sub: repeats as u64 + 1 }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C18", sub: "again", rule: RULE, quick: 40_000, thorough: 2_000_000, f: &case },
        Fam { prop: "C18", sub: "processes", rule: RULE, quick: 200, thorough: 10_000, f: &processes },
        Fam { prop: "C18", sub: "shipped", rule: SHIPPED, quick: 8, thorough: 200, f: &shipped },
    ]
}
