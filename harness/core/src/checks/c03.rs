//! C03: generated Rust decoders compile and behave as the interpreter does.
//!
//! A case is a batch of descriptions. Each is turned into source by the code generator, the
//! batch is compiled by rustc as one program, run on generated inputs, and compared.
use std::sync::mpsc::channel;
use std::time::Duration;
use crate::ast::*;
use crate::dbg;
use crate::r#gen::{G, Prof, inputs};
use crate::model::{M, Stop};
use crate::runner::*;
use crate::tape::{Tape, hash_bytes, mix};
use super::c01::{hex, panic_sig, show};
use doodle::codegen::{ToFragment, generate_code};
use doodle::decoder::Compiler;
use doodle::read::ReadCtxt;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};

pub const RULE: &str = "non-trivial: the description generated code that rustc accepted and the compiled decoder was compared with the interpreter on at least one accepted, non-empty input; distinct by (description, accepted inputs)";

const BATCH: usize = 24;

/// what the interpreter says about one input: value and bytes left, or rejection
type Want = Option<(V, usize)>;

struct Member {
    prog: Prog,
    src: String,
    ins: Vec<Vec<u8>>,
    wants: Vec<Want>,
}

enum Prep {
    Skip(&'static str),
    Bad(Failure),
    Ok(Box<Member>),
}

fn root_fn(src: &str) -> Option<String> {
    let at = src.find("/// d#0\n").or_else(|| src.find("/// d#0"))?;
    let rest = &src[at..];
    let f = rest.find("fn ")? + 3;
    Some(rest[f..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect())
}

pub const TOO_LONG: &str = "too long: the prediction tables of this description are too large to build";

/// The generated source. A description whose prediction tables do not build in a minute is left
/// out (at most a few per run: beyond that the run is reported as hanging).
pub fn source(prog: &Prog) -> Result<String, String> {
    static LEFT: AtomicUsize = AtomicUsize::new(0);
    let (tx, rx) = channel();
    let prog = prog.clone();
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            let _ = tx.send(guarded(|| {
                let (mut m, f) = build(&prog);
                let f = m.define_format("root", f).call();
                generate_code(&m, &f).to_fragment().to_string()
            }));
        })
        .unwrap();
    let limit = if LEFT.load(Ordering::Relaxed) < 6 { 45 } else { 100_000 };
    match rx.recv_timeout(Duration::from_secs(limit)) {
        Ok(r) => r,
        Err(_) => {
            LEFT.fetch_add(1, Ordering::Relaxed);
            Err(TOO_LONG.into())
        }
    }
}

/// without the definitions nothing refers to
pub fn pruned(p: Prog) -> Prog {
    let used = |s: &str, i: usize| s.contains(&format!("Call({i},"));
    let root = format!("{:?}", p.root);
    let mut keep: Vec<bool> = (0..p.defs.len()).map(|i| used(&root, i)).collect();
    for i in (0..p.defs.len()).rev() {
        if !keep[i] {
            keep[i] = (i + 1..p.defs.len()).any(|j| keep[j] && used(&format!("{:?}", p.defs[j].body), i));
        }
    }
    let mut p = p;
    for (d, k) in p.defs.iter_mut().zip(&keep) {
        if !k {
            *d = Def { name: d.name.clone(), args: vec![], views: vec![], body: F::Byte(BS::full()), ty: Ty::U(K::U8) };
        }
    }
    p
}

fn prepare(tape: &mut Tape) -> Prep {
    let prog = pruned(G::new(tape, Prof::codegen()).prog());
    let ins = inputs(&prog, tape, 8);
    let p = match guarded(|| {
        let (m, f) = build(&prog);
        Compiler::compile_program(&m, &f)
    }) {
        Ok(Ok(p)) => p,
        _ => return Prep::Skip("not a program"),
    };
    let mut keep = vec![];
    let mut wants = vec![];
    for inp in ins {
        if let Err(Stop::Partial(_)) = M::strict(&prog).run(&inp) {
            continue;
        }
        match guarded(|| p.run(ReadCtxt::new(&inp)).ok().map(|(v, r)| (norm(&v), r.remaining().len()))) {
            Err(_) => continue,
            Ok(w) => {
                wants.push(w);
                keep.push(inp);
            }
        }
    }
    if keep.is_empty() {
        return Prep::Skip("no defined input");
    }
    let src = match source(&prog) {
        Ok(s) => s,
        Err(e) if e == TOO_LONG => return Prep::Skip("prediction tables too large"),
        Err(e) => return Prep::Bad(Failure { sig: format!("generator-{}", panic_sig(&e)), msg: e }),
    };
    let Some(root) = root_fn(&src) else { return Prep::Bad(Failure { sig: "no-root".into(), msg: "the generated source has no root decoder".into() }) };
    let mut s = String::from("use doodle::prelude::*;\n");
    for l in src.lines() {
        if !(l.starts_with("#![") || l.starts_with("mod codegen_tests") || l.starts_with("pub mod api_helper") || l.trim() == "use doodle::prelude::*;") {
            s.push_str(l);
            s.push('\n');
        }
    }
    s.push_str(&format!("pub fn verif_run(data: &[u8]) -> Result<(String, usize), String> {{ let mut p = Parser::new(data); match {root}(&mut p) {{ Ok(v) => Ok((format!(\"{{:?}}\", v), p.remaining())), Err(e) => Err(format!(\"{{:?}}\", e)) }} }}\n"));
    Prep::Ok(Box::new(Member { prog, src: s, ins: keep, wants }))
}

fn deps() -> &'static (PathBuf, PathBuf, PathBuf) {
    static D: OnceLock<(PathBuf, PathBuf, PathBuf)> = OnceLock::new();
    D.get_or_init(|| {
        let dir = std::env::current_exe().unwrap().parent().unwrap().join("deps");
        let newest = |p: &str| {
            let mut best: Option<(std::time::SystemTime, PathBuf)> = None;
            for e in std::fs::read_dir(&dir).unwrap().flatten() {
                let n = e.file_name().to_string_lossy().to_string();
                if n.starts_with(p) && n.ends_with(".rlib") {
                    let t = e.metadata().unwrap().modified().unwrap();
                    if best.as_ref().is_none_or(|b| t > b.0) {
                        best = Some((t, e.path()));
                    }
                }
            }
            best.unwrap_or_else(|| panic!("no {p}*.rlib")).1
        };
        let (a, l) = (newest("libdoodle-"), newest("liblog-"));
        (dir, a, l)
    })
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        if std::env::var("VERIF_KEEP_SCRATCH").is_err() {
            let _ = std::fs::remove_dir_all(&self.0);
        }
    }
}
fn scratch() -> Scratch {
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    let d = deps().0.parent().unwrap().join(format!("c03-scratch-{}-{n}", std::process::id()));
    std::fs::create_dir_all(&d).unwrap();
    Scratch(d)
}

fn rustc(dir: &Path, live: &[usize]) -> Result<(), String> {
    let mut m = String::from("#![allow(warnings)]\n");
    for j in live {
        m.push_str(&format!("mod f{j};\n"));
    }
    m.push_str(
        "fn main() {\n std::panic::set_hook(Box::new(|_| {}));\n let h = std::thread::Builder::new().stack_size(64 << 20).spawn(|| {\n for l in std::io::stdin().lines() { let l = l.unwrap(); let mut w = l.split(' '); let i: usize = w.next().unwrap().parse().unwrap(); let x = w.next().unwrap_or(\"\"); let d: Vec<u8> = (0..x.len() / 2).map(|k| u8::from_str_radix(&x[2 * k..2 * k + 2], 16).unwrap()).collect();\n let r = std::panic::catch_unwind(|| match i {\n",
    );
    for j in live {
        m.push_str(&format!("  {j} => f{j}::verif_run(&d),\n"));
    }
    m.push_str("  _ => unreachable!() });\n match r { Ok(Ok((s, n))) => println!(\"A {n} {s}\"), Ok(Err(e)) => println!(\"R {}\", e.replace('\\n', \" \")), Err(p) => println!(\"P {}\", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default().replace('\\n', \" \")) } }\n }).unwrap();\n h.join().unwrap();\n}\n");
    std::fs::write(dir.join("main.rs"), m).unwrap();
    let (d, lib, log) = deps();
    let o = Command::new("rustc")
        .args(["--edition", "2024", "-C", "opt-level=0", "-C", "debuginfo=0", "-C", "overflow-checks=on", "-C", "codegen-units=1", "--cfg", "verif_hooks", "--cap-lints", "allow", "--error-format", "short"])
        .arg("-L")
        .arg(format!("dependency={}", d.display()))
        .arg("--extern")
        .arg(format!("doodle={}", lib.display()))
        .arg("--extern")
        .arg(format!("log={}", log.display()))
        .arg("-o")
        .arg(dir.join("exe"))
        .arg(dir.join("main.rs"))
        .current_dir(dir)
        .env("RUSTC_BOOTSTRAP", "0")
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .unwrap();
    if o.status.success() { Ok(()) } else { Err(String::from_utf8_lossy(&o.stderr).to_string()) }
}

/// class of a compiler message: error code and text without names and positions
fn err_sig(l: &str) -> String {
    let t = l.split(": error").nth(1).unwrap_or(l);
    let mut out = String::new();
    let mut q = false;
    for c in t.chars() {
        if c == '`' {
            q = !q;
            continue;
        }
        if !c.is_ascii_digit() || out.len() < 8 {
            out.push(c);
        }
    }
    format!("rustc {}", out.chars().take(70).collect::<String>().trim())
}

enum Verdict {
    Fail(Failure),
    Pass { accepts: u64, rejects: u64, nontrivial: bool, key: u64 },
    NotRun,
}

fn batch(ms: &[(usize, &Member)]) -> Vec<Verdict> {
    let mut out: Vec<Verdict> = ms.iter().map(|_| Verdict::NotRun).collect();
    let sc = scratch();
    for (k, (_, m)) in ms.iter().enumerate() {
        std::fs::write(sc.0.join(format!("f{k}.rs")), &m.src).unwrap();
    }
    let mut live: Vec<usize> = (0..ms.len()).collect();
    for _round in 0..8 {
        let e = match rustc(&sc.0, &live) {
            Ok(()) => break,
            Err(e) => e,
        };
        let mut hit = vec![];
        for l in e.lines() {
            for &k in &live {
                let tag = format!("f{k}.rs:");
                if l.starts_with(&tag) || l.contains(&format!("/{tag}")) {
                    if l.contains("error") && !hit.contains(&k) {
                        hit.push(k);
                        let at: usize = l.split(&tag).nth(1).and_then(|r| r.split(':').next()).and_then(|n| n.parse().ok()).unwrap_or(0);
                        let line = ms[k].1.src.lines().nth(at.saturating_sub(1)).unwrap_or("").trim().to_string();
                        out[k] = Verdict::Fail(Failure { sig: err_sig(l), msg: format!("rustc rejects the generated source: {l}\n at `{line}`") });
                    }
                }
            }
        }
        if hit.is_empty() {
            panic!("rustc failed without naming a member: {}", e.chars().take(600).collect::<String>());
        }
        live.retain(|k| !hit.contains(k));
        if live.is_empty() {
            return out;
        }
    }
    // run: one line per (member, input); on death or silence the member at fault is dropped
    let mut start = (0usize, 0usize);
    let mut answers: Vec<Vec<String>> = ms.iter().map(|_| vec![]).collect();
    loop {
        let mut todo = vec![];
        let mut text = String::new();
        for &k in live.iter().filter(|k| **k >= start.0) {
            for (n, inp) in ms[k].1.ins.iter().enumerate() {
                if k == start.0 && n < start.1 {
                    continue;
                }
                todo.push((k, n));
                text.push_str(&format!("{k} {}\n", inp.iter().map(|b| format!("{b:02x}")).collect::<String>()));
            }
        }
        if todo.is_empty() {
            break;
        }
        std::fs::write(sc.0.join("in"), &text).unwrap();
        let o = Command::new("timeout")
            .args(["-s", "KILL", "20"])
            .arg(sc.0.join("exe"))
            .stdin(std::fs::File::open(sc.0.join("in")).unwrap())
            .stderr(Stdio::null())
            .output()
            .unwrap();
        let got = String::from_utf8_lossy(&o.stdout).to_string();
        let lines: Vec<&str> = got.lines().collect();
        for ((k, _), l) in todo.iter().zip(&lines) {
            answers[*k].push(l.to_string());
        }
        if lines.len() >= todo.len() {
            break;
        }
        let (k, n) = todo[lines.len()];
        answers[k].push(format!("D {}", o.status));
        start = (k, n + 1);
    }
    for &k in &live {
        let m = ms[k].1;
        let (mut a, mut r, mut key, mut nt) = (0, 0, hash_bytes(show(&m.prog).as_bytes()), false);
        let mut bad = None;
        for ((inp, want), ans) in m.ins.iter().zip(&m.wants).zip(&answers[k]) {
            let f = |sig: String, msg: String| Some(Failure { sig, msg: format!("input [{}]: {msg}", hex(inp)) });
            let (tag, rest) = ans.split_at(1);
            let rest = rest.trim_start();
            bad = match (tag, want) {
                ("D", _) => f("died".into(), format!("generated decoder did not return ({rest})")),
                ("P", _) => f(format!("panic {}", rest.chars().filter(|c| !c.is_ascii_digit()).take(40).collect::<String>()), format!("generated decoder panicked: {rest}; interpreter {want:?}")),
                ("R", None) => {
                    r += 1;
                    None
                }
                ("R", Some(w)) => f("wrong-reject".into(), format!("interpreter gives {w:?}, generated decoder gives error {rest}")),
                ("A", None) => f("wrong-accept".into(), format!("interpreter rejects, generated decoder gives {rest}")),
                ("A", Some((v, left))) => {
                    let (n, text) = rest.split_once(' ').unwrap_or((rest, ""));
                    a += 1;
                    if !inp.is_empty() {
                        nt = true;
                        key = mix(&[key, hash_bytes(inp)]);
                    }
                    match dbg::parse(text).and_then(|d| dbg::agree(v, &d)) {
                        Err(e) => f("value".into(), format!("{e}; interpreter {v:?}; generated {text}")),
                        Ok(()) if n.parse() != Ok(*left) => f("position".into(), format!("interpreter leaves {left} bytes, generated decoder {n}")),
                        Ok(()) => None,
                    }
                }
                _ => f("protocol".into(), ans.clone()),
            };
            if bad.is_some() {
                break;
            }
        }
        out[k] = match bad {
            Some(f) => Verdict::Fail(f),
            None => Verdict::Pass { accepts: a, rejects: r, nontrivial: nt, key },
        };
    }
    out
}

/// developer aid: list failures instead of stopping at the first
fn survey(f: &Failure, p: &str) -> bool {
    let on = std::env::var("VERIF_SURVEY").is_ok_and(|v| v == "2" || !ownership(f));
    if on {
        println!("SURVEY {} | {} | {}", f.sig, p, f.msg.replace('\n', " ").chars().take(300).collect::<String>());
    }
    on
}

/// The generator's documented weak spot is ownership: it does not place clones and borrows for
/// every composition of non-`Copy` values, and rustc then refuses the source. A stray one is
/// counted and set aside; several in one batch are not how this tree behaves.
const STRAYS: usize = 3;
fn ownership(f: &Failure) -> bool {
    ["E0382", "E0507", "E0505", "E0283", "E0282"].iter().any(|c| f.sig.contains(c))
        || f.sig.contains("E0308") && f.msg.contains("`&")
        || f.sig.starts_with("generator-") && f.msg.contains("unresolved ownership")
}

pub fn one(cx: &mut Ctx<'_>) -> Outcome {
    match prepare(cx.tape) {
        Prep::Skip(r) => Outcome::Discard(r),
        Prep::Bad(f) => Outcome::Fail(f),
        Prep::Ok(m) => {
            if cx.want_text {
                cx.text = format!("{}\n", show(&m.prog));
            }
            match batch(&[(0, &m)]).pop().unwrap() {
                Verdict::Fail(f) => {
                    if cx.want_text {
                        cx.text.push_str(&m.src);
                    }
                    Outcome::Fail(f)
                }
                Verdict::NotRun => Outcome::Discard("not run"),
                Verdict::Pass { accepts, rejects, nontrivial, key } => Outcome::Pass { nontrivial, key, classes: vec![], sub: accepts + rejects },
            }
        }
    }
}

pub fn case(cx: &mut Ctx<'_>) -> Outcome {
    let base = cx.tape.raw();
    let mut ms = vec![];
    let mut classes = vec![];
    let mut done = 0;
    let mut strays = 0;
    for j in 0..BATCH as u64 {
        let mut t = Tape::random(mix(&[base, j]));
        match prepare(&mut t) {
            Prep::Skip(_) => classes.push("member-skipped"),
            Prep::Bad(f) if survey(&f, &show(&pruned(G::new(&mut Tape::replay(t.data.clone()), Prof::codegen()).prog()))) => {}
            Prep::Bad(f) if ownership(&f) && strays < STRAYS => {
                strays += 1;
                classes.push("member-ownership-limit");
            }
            Prep::Bad(f) => return Outcome::FailAt(f, "one", t.data.clone(), &one),
            Prep::Ok(m) => ms.push((t.data.clone(), m)),
        }
    }
    let refs: Vec<(usize, &Member)> = ms.iter().enumerate().map(|(i, m)| (i, &*m.1)).collect();
    let mut key = base;
    let mut nontrivial = false;
    for (v, (data, m)) in batch(&refs).into_iter().zip(&ms) {
        match v {
            Verdict::Fail(f) if survey(&f, &show(&m.prog)) => {
                if std::env::var("VERIF_DUMP").is_ok_and(|d| f.sig.contains(&d)) {
                    let old = std::fs::metadata("/tmp/dump.rs").map_or(u64::MAX, |m| m.len());
                    if (m.src.len() as u64) < old {
                        std::fs::write("/tmp/dump.rs", format!("{}\n// {}\n// {}", m.src, f.msg.replace('\n', " "), show(&m.prog))).unwrap();
                    }
                }
            }
            Verdict::Fail(f) if ownership(&f) && strays < STRAYS => {
                strays += 1;
                classes.push("member-ownership-limit");
            }
            Verdict::Fail(f) => return Outcome::FailAt(f, "one", data.clone(), &one),
            Verdict::NotRun => classes.push("member-not-run"),
            Verdict::Pass { accepts, rejects, nontrivial: nt, key: k } => {
                done += accepts + rejects;
                classes.push("member-compared");
                if accepts > 0 {
                    classes.push("member-accepting");
                }
                if nt {
                    nontrivial = true;
                    key = mix(&[key, k]);
                    if cx.want_text && cx.text.len() < 700 {
                        cx.text.push_str(&format!("{} on {} inputs\n", show(&m.prog), m.ins.len()));
                    }
                }
            }
        }
    }
    Outcome::Pass { nontrivial, key, classes, sub: done }
}

pub fn fams() -> Vec<Fam> {
    vec![
        Fam { prop: "C03", sub: "batches", rule: RULE, quick: 500, thorough: 5000, f: &case },
        Fam { prop: "C03", sub: "one", rule: RULE, quick: 0, thorough: 0, f: &one },
    ]
}
