//! Fixed-work case runner: N cases, each a pure function of (seed, property, index),
//! spread over worker threads; shrinking, replay files, known findings, evidence.

use crate::tape::{Tape, hash_bytes, mix};
use serde_json::{Value as J, json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone, Debug)]
pub struct Failure {
    /// stable classification of what disagreed; used while shrinking and for known findings
    pub sig: String,
    pub msg: String,
}

pub enum Outcome {
    /// case could not be judged (reason class)
    Discard(&'static str),
    Pass { nontrivial: bool, key: u64, classes: Vec<&'static str>, sub: u64 },
    Fail(Failure),
    /// one member of a batch failed: shrink and replay it as a case of another family
    FailAt(Failure, &'static str, Vec<u64>, &'static CaseFn),
}

impl Outcome {
    pub fn fail(sig: impl Into<String>, msg: impl Into<String>) -> Outcome {
        Outcome::Fail(Failure { sig: sig.into(), msg: msg.into() })
    }
}

pub struct Ctx<'a> {
    pub tape: &'a mut Tape,
    /// human-readable rendering of the case, filled lazily when wanted
    pub want_text: bool,
    pub text: String,
    pub thorough: bool,
    pub index: u64,
}

thread_local! {
    pub static QUIET: RefCell<bool> = const { RefCell::new(false) };
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    let def = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = info.payload();
        let m = p
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| p.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = format!("{loc}: {m}"));
        if !quiet {
            def(info)
        }
    }));
}

/// Run code under test; a panic comes back as Err(location: message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| LAST_PANIC.with(|l| l.borrow().clone()))
}

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".to_string())
}

pub fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<u64>().ok()).unwrap_or(1)
}
pub fn env_thorough() -> bool {
    std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
}

/// Known findings: lines of known_findings.jsonl {"property","sig_contains","msg_contains":[..],"what"}.
#[derive(Clone)]
pub struct Known {
    pub property: String,
    pub sig: String,
    pub must: Vec<String>,
    pub what: String,
}
pub fn load_known(prop: &str) -> Vec<Known> {
    let p = format!("{}/known_findings.jsonl", verif_dir());
    let Ok(s) = std::fs::read_to_string(p) else { return vec![] };
    let mut out = vec![];
    for l in s.lines().filter(|l| l.trim_start().starts_with('{')) {
        let j: J = serde_json::from_str(l).expect("known_findings.jsonl");
        if j["kind"] == "known" && j["property"] == prop {
            out.push(Known {
                property: prop.into(),
                sig: j["sig"].as_str().unwrap().into(),
                must: j["must"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default(),
                what: j["what"].as_str().unwrap().into(),
            });
        }
    }
    out
}
pub fn known_match<'a>(ks: &'a [Known], f: &Failure) -> Option<&'a Known> {
    ks.iter().find(|k| f.sig == k.sig && k.must.iter().all(|m| f.msg.contains(m.as_str())))
}

pub struct Summary {
    pub evals: u64,
    pub nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub classes: BTreeMap<String, u64>,
    pub discards: BTreeMap<String, u64>,
    pub sub: u64,
    pub samples: Vec<J>,
    pub known_hits: BTreeMap<String, u64>,
}

pub type CaseFn = dyn Fn(&mut Ctx<'_>) -> Outcome + Sync;

/// One family of generated cases of a property.
#[derive(Clone, Copy)]
pub struct Fam {
    pub prop: &'static str,
    pub sub: &'static str,
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub f: &'static CaseFn,
}

/// Where the worker notes the case it is on, so that a crash or hang can be attributed.
fn journal() -> Option<&'static std::fs::File> {
    static J: std::sync::OnceLock<Option<std::fs::File>> = std::sync::OnceLock::new();
    J.get_or_init(|| std::env::var("VERIF_JOURNAL").ok().and_then(|p| std::fs::OpenOptions::new().write(true).open(p).ok())).as_ref()
}
fn note(w: usize, sub: &str, i: u64) {
    use std::os::unix::fs::FileExt;
    if let Some(f) = journal() {
        let rec = format!("{:<62}|\n", format!("{sub} {i}"));
        let _ = f.write_at(rec.as_bytes(), w as u64 * 64);
    }
}

const HANG_S: u64 = 100;

fn wait_limited(c: &mut std::process::Child, secs: u64) -> Option<std::process::ExitStatus> {
    let t = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return Some(s);
        }
        if t.elapsed().as_secs() >= secs {
            let _ = c.kill();
            let _ = c.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

/// Command line of a harness binary: `PROP`, `replay FILE`, (internal) `one PROP SUB INDEX`.
/// The property runs in a child process; a crash or hang of the child is attributed to the
/// case it was on and reported only when that case, alone, crashes or hangs again.
pub fn main_with(fams: &[Fam]) -> i32 {
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let what = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let find = |p: &str, s: &str| fams.iter().find(|f| f.prop == p && f.sub == s).copied();
    let big = |f: Box<dyn FnOnce() -> i32 + Send>| std::thread::Builder::new().stack_size(512 << 20).spawn(f).unwrap().join().unwrap_or(3);
    match what {
        "replay" => {
            let (prop, sub, tape, index) = replay_file(&a[2]);
            let Some(f) = find(&prop, &sub) else {
                eprintln!("no such family {prop}/{sub}");
                return 2;
            };
            match tape {
                Some(t) => big(Box::new(move || replay_case(f.f, Tape::replay(t), index))),
                None => big(Box::new(move || replay_case(f.f, Tape::random(mix(&[env_seed(), mix(&[prop_num(f.prop), prop_num(f.sub)]), index])), index))),
            }
        }
        "one" => {
            let Some(f) = find(&a[2], &a[3]) else { return 2 };
            let i: u64 = a[4].parse().unwrap();
            big(Box::new(move || {
                let mut t = Tape::random(mix(&[env_seed(), mix(&[prop_num(f.prop), prop_num(f.sub)]), i]));
                run_once(f.f, &mut t, false, env_thorough(), i);
                0
            }))
        }
        p if fams.iter().any(|f| f.prop == p) => {
            let mine: Vec<Fam> = fams.iter().filter(|f| f.prop == p).copied().collect();
            if std::env::var("VERIF_CHILD").is_ok() {
                let mut r = Report::new(mine[0].prop);
                for f in mine {
                    r.family(f.sub, f.rule, f.quick, f.thorough, f.f);
                }
                return r.finish();
            }
            supervise(mine[0].prop)
        }
        _ => {
            eprintln!("usage: <property>|replay FILE");
            2
        }
    }
}

fn write_min_evidence(prop: &str, what: &str) {
    let ev = json!({"property":prop,"tier":if env_thorough(){"thorough"}else{"quick"},"seed":env_seed(),"level":"exploration",
        "coverage":{"evaluations":1,"distinct_nontrivial":1,"rule":"run stopped early; the failing case was confirmed","samples":[what]},"wall_s":0.0,"violations":1});
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif_dir()));
    let _ = std::fs::write(format!("{}/evidence/{prop}.json", verif_dir()), serde_json::to_string_pretty(&ev).unwrap());
}

fn supervise(prop: &'static str) -> i32 {
    let me = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir();
    let jp = dir.join(format!("vj-{}-{}", prop, std::process::id()));
    std::fs::write(&jp, vec![b' '; 64 * 64]).unwrap();
    let st = std::process::Command::new(&me).arg(prop).env("VERIF_CHILD", "1").env("VERIF_JOURNAL", &jp).status();
    let j = std::fs::read_to_string(&jp).unwrap_or_default();
    let pending_file = format!("{}.pending", jp.display());
    let pending = std::fs::read_to_string(&pending_file).ok();
    let _ = std::fs::remove_file(&pending_file);
    let _ = std::fs::remove_file(&jp);
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR property={prop} cannot start: {e}");
            return 3;
        }
    };
    let how = match st.code() {
        Some(HANG_CODE) => "hang",
        Some(c) => return c,
        None => "crash",
    };
    if let Some(p) = pending {
        write_min_evidence(prop, &format!("failing case found, shrinking stopped by a {how}: {p}"));
        println!("VIOLATION property={prop} replay={p}");
        return 1;
    }
    let mut cases: Vec<(String, u64)> = j
        .lines()
        .filter_map(|l| {
            let mut w = l.trim_end_matches('|').split_whitespace();
            Some((w.next()?.to_string(), w.next()?.parse::<u64>().ok()?))
        })
        .collect();
    cases.sort();
    cases.dedup();
    eprintln!("child ended by {how} ({st}); {} cases were under way", cases.len());
    // all candidates at once, each alone in its process
    let mut kids: Vec<_> = cases
        .iter()
        .map(|(s, i)| {
            std::process::Command::new(&me)
                .args(["one", prop, s, &i.to_string()])
                .stdout(std::process::Stdio::null())
                .stderr(std::process::Stdio::null())
                .spawn()
        })
        .collect();
    for ((s, i), k) in cases.iter().zip(kids.iter_mut()) {
        let Ok(k) = k else { continue };
        let why = match wait_limited(k, HANG_S) {
            None => "did not terminate".to_string(),
            Some(st) if st.code().is_none() => format!("process died: {st}"),
            _ => continue,
        };
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{dir}/{prop}-{how}-{s}-{i}.json");
        let jj = json!({"property":prop,"sub":s,"seed":env_seed(),"index":i,"tape":null,"sig":how,"message":why,"case":"run `replay` with the same VERIF_SEED and VERIF_TIER"});
        std::fs::write(&path, serde_json::to_string_pretty(&jj).unwrap()).unwrap();
        eprintln!("case {i} of {s}: {why} (twice)");
        write_min_evidence(prop, &format!("{s} case {i}: {why}"));
        println!("VIOLATION property={prop} replay={path}");
        return 1;
    }
    println!("ERROR property={prop} {how} not reproduced by any single case");
    3
}
pub const HANG_CODE: i32 = 90;

fn run_once(f: &CaseFn, tape: &mut Tape, want_text: bool, thorough: bool, index: u64) -> (Outcome, String) {
    let mut ctx = Ctx { tape, want_text, text: String::new(), thorough, index };
    let r = guarded(|| f(&mut ctx));
    let text = std::mem::take(&mut ctx.text);
    match r {
        Ok(o) => (o, text),
        Err(p) => (Outcome::Fail(Failure { sig: "HARNESS-PANIC".into(), msg: p }), text),
    }
}

fn fails_same(f: &CaseFn, data: &[u64], sig: &str, thorough: bool, index: u64) -> Option<(Vec<u64>, Failure)> {
    let mut t = Tape::replay(data.to_vec());
    match run_once(f, &mut t, false, thorough, index).0 {
        Outcome::Fail(x) if x.sig == sig => {
            let used = t.pos.min(t.data.len());
            Some((t.data[..used].to_vec(), x))
        }
        _ => None,
    }
}

/// Greedy tape shrinking: delete chunks, zero chunks, lower entries.
pub fn shrink(f: &CaseFn, data: Vec<u64>, fail: Failure, thorough: bool, index: u64, budget_s: u64) -> (Vec<u64>, Failure) {
    let start = Instant::now();
    let sig = fail.sig.clone();
    let mut best = data;
    let mut bf = fail;
    let out_of_time = || start.elapsed().as_secs() >= budget_s;
    if let Some((d, x)) = fails_same(f, &best, &sig, thorough, index) {
        best = d;
        bf = x;
    } else {
        return (best, bf);
    }
    loop {
        let before = best.clone();
        // deletions
        let mut k = (best.len() / 2).max(1);
        while k >= 1 {
            let mut i = 0;
            while i + k <= best.len() {
                if out_of_time() {
                    return (best, bf);
                }
                let mut c = best.clone();
                c.drain(i..i + k);
                if let Some((d, x)) = fails_same(f, &c, &sig, thorough, index) {
                    if d.len() < best.len() || d < best {
                        best = d;
                        bf = x;
                        continue;
                    }
                }
                i += k.max(1);
            }
            if k == 1 {
                break;
            }
            k /= 2;
        }
        // zero chunks
        let mut k = 8usize;
        while k >= 1 {
            let mut i = 0;
            while i < best.len() {
                if out_of_time() {
                    return (best, bf);
                }
                let e = (i + k).min(best.len());
                if best[i..e].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some((d, x)) = fails_same(f, &c, &sig, thorough, index) {
                        if d.len() <= best.len() {
                            best = d;
                            bf = x;
                        }
                    }
                }
                i += k;
            }
            k /= 2;
        }
        // lower entries
        let mut i = 0;
        while i < best.len() {
            let mut lo = 0u64;
            while i < best.len() && lo < best[i] {
                if out_of_time() {
                    return (best, bf);
                }
                let mid = lo + (best[i] - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                match fails_same(f, &c, &sig, thorough, index) {
                    Some((d, x)) if d.len() <= best.len() && d < best => {
                        best = d;
                        bf = x;
                    }
                    _ => lo = mid + 1,
                }
            }
            i += 1;
        }
        if best == before {
            return (best, bf);
        }
    }
}

pub fn prop_num(prop: &str) -> u64 {
    hash_bytes(prop.as_bytes())
}

pub fn write_replay(prop: &str, sub: &str, tape: &[u64], fail: &Failure, text: &str, seed: u64, index: u64) -> String {
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let h = hash_bytes(format!("{tape:?}{}", fail.sig).as_bytes());
    let path = format!("{dir}/{prop}-{h:016x}.json");
    let j = json!({"property":prop,"sub":sub,"seed":seed,"index":index,"tape":tape,"sig":fail.sig,"message":fail.msg,"case":text});
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    path
}

pub struct Report {
    pub prop: &'static str,
    pub rule: String,
    pub sum: Summary,
    pub violations: Vec<(Failure, String)>,
    pub start: Instant,
    pub extra: Vec<(String, J)>,
    pub error: Option<String>,
}

impl Report {
    pub fn new(prop: &'static str) -> Report {
        Report {
            prop,
            rule: String::new(),
            sum: Summary { evals: 0, nontrivial: 0, distinct: HashSet::new(), classes: BTreeMap::new(), discards: BTreeMap::new(), sub: 0, samples: vec![], known_hits: BTreeMap::new() },
            violations: vec![],
            start: Instant::now(),
            extra: vec![],
            error: None,
        }
    }

    /// Run a family of cases; several families may contribute to one property.
    pub fn family(&mut self, sub: &str, rule: &str, n_quick: u64, n_thorough: u64, f: &CaseFn) {
        let thorough = env_thorough();
        let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        let n = ((if thorough { n_thorough } else { n_quick }) as f64 * scale) as u64;
        let seed = env_seed();
        if !self.rule.is_empty() {
            self.rule.push_str(" || ");
        }
        self.rule.push_str(&format!("[{sub}] {rule}"));
        if let Ok(only) = std::env::var("VERIF_SUB") {
            if only != sub {
                return;
            }
        }
        let known = load_known(self.prop);
        let pn = mix(&[prop_num(self.prop), prop_num(sub)]);
        let next = AtomicU64::new(0);
        let stop = AtomicBool::new(false);
        let deadline: u64 = std::env::var("VERIF_DEADLINE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 700 });
        let merged = Mutex::new(Summary { evals: 0, nontrivial: 0, distinct: HashSet::new(), classes: BTreeMap::new(), discards: BTreeMap::new(), sub: 0, samples: vec![], known_hits: BTreeMap::new() });
        let fails: Mutex<Vec<(u64, Vec<u64>, Failure, &str, &CaseFn)>> = Mutex::new(vec![]);
        let workers: usize = std::env::var("VERIF_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
        let timed_out = AtomicBool::new(false);
        let t0 = Instant::now();
        // hang watchdog: a case that runs for very long is an error of the check, not a verdict
        let beats: Vec<(AtomicU64, AtomicU64)> = (0..workers).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let done_all = AtomicBool::new(false);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..workers)
                .map(|w| {
                    let (next, stop, merged, fails, known, beats, timed_out) = (&next, &stop, &merged, &fails, &known, &beats, &timed_out);
                    std::thread::Builder::new()
                        .stack_size(512 << 20)
                        .spawn_scoped(s, move || {
                            let mut loc = Summary { evals: 0, nontrivial: 0, distinct: HashSet::new(), classes: BTreeMap::new(), discards: BTreeMap::new(), sub: 0, samples: vec![], known_hits: BTreeMap::new() };
                            loop {
                                if stop.load(Ordering::Relaxed) {
                                    break;
                                }
                                let i = next.fetch_add(1, Ordering::Relaxed);
                                if i >= n {
                                    break;
                                }
                                if t0.elapsed().as_secs() > deadline {
                                    timed_out.store(true, Ordering::Relaxed);
                                    break;
                                }
                                beats[w].1.store(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
                                beats[w].0.store(i, Ordering::Relaxed);
                                note(w, sub, i);
                                let mut tape = Tape::random(mix(&[seed, pn, i]));
                                let want = i < 3 || (i % (n / 3 + 1) == 7);
                                let (o, text) = run_once(f, &mut tape, want, thorough, i);
                                beats[w].0.store(u64::MAX, Ordering::Relaxed);
                                loc.evals += 1;
                                match o {
                                    Outcome::Discard(r) => *loc.discards.entry(r.to_string()).or_default() += 1,
                                    Outcome::Pass { nontrivial, key, classes, sub } => {
                                        if nontrivial {
                                            loc.nontrivial += 1;
                                            loc.distinct.insert(key);
                                            if want && !text.is_empty() {
                                                let mut t = text;
                                                t.truncate(t.char_indices().nth(1500).map(|x| x.0).unwrap_or(t.len()));
                                                loc.samples.push(json!(t));
                                            }
                                        }
                                        loc.sub += sub;
                                        for c in classes {
                                            *loc.classes.entry(c.to_string()).or_default() += 1;
                                        }
                                    }
                                    o @ (Outcome::Fail(_) | Outcome::FailAt(..)) => {
                                        let (x, data, at, af): (Failure, Vec<u64>, &str, &CaseFn) = match o {
                                            Outcome::Fail(x) => (x, tape.data.clone(), sub, f),
                                            Outcome::FailAt(x, at, d, af) => (x, d, at, af),
                                            _ => unreachable!(),
                                        };
                                        if let Some(k) = known_match(known, &x) {
                                            *loc.known_hits.entry(k.what.clone()).or_default() += 1;
                                            continue;
                                        }
                                        let mut g = fails.lock().unwrap();
                                        let keep = std::env::var("VERIF_KEEP_GOING").is_ok();
                                        if keep && g.iter().any(|y| y.2.sig == x.sig) {
                                            continue;
                                        }
                                        g.push((i, data, x, at, af));
                                        if g.len() >= 40 || !keep {
                                            stop.store(true, Ordering::Relaxed);
                                        }
                                    }
                                }
                            }
                            let mut m = merged.lock().unwrap();
                            m.evals += loc.evals;
                            m.nontrivial += loc.nontrivial;
                            m.distinct.extend(loc.distinct);
                            m.sub += loc.sub;
                            for (k, v) in loc.classes {
                                *m.classes.entry(k).or_default() += v;
                            }
                            for (k, v) in loc.discards {
                                *m.discards.entry(k).or_default() += v;
                            }
                            for (k, v) in loc.known_hits {
                                *m.known_hits.entry(k).or_default() += v;
                            }
                            m.samples.extend(loc.samples);
                        })
                        .unwrap()
                })
                .collect();
            let (beats, done_all, prop) = (&beats, &done_all, self.prop);
            s.spawn(move || {
                while !done_all.load(Ordering::Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(50));
                    let now = t0.elapsed().as_millis() as u64;
                    for (c, b) in beats.iter() {
                        let i = c.load(Ordering::Relaxed);
                        if i != u64::MAX && now.saturating_sub(b.load(Ordering::Relaxed)) > HANG_S * 1000 {
                            eprintln!("property={prop} sub={sub}: case {i} still running after {HANG_S} s");
                            std::process::exit(HANG_CODE);
                        }
                    }
                }
            });
            for h in hs {
                let _ = h.join();
            }
            done_all.store(true, Ordering::Relaxed);
        });
        if timed_out.load(Ordering::Relaxed) {
            eprintln!("NOTE property={} sub={sub}: stopped at the time limit before all {n} cases", self.prop);
        }
        let m = merged.into_inner().unwrap();
        self.sum.evals += m.evals;
        self.sum.nontrivial += m.nontrivial;
        self.sum.distinct.extend(m.distinct.iter().map(|k| mix(&[*k, pn])));
        self.sum.sub += m.sub;
        for (k, v) in &m.classes {
            *self.sum.classes.entry(format!("{sub}:{k}")).or_default() += v;
        }
        for (k, v) in &m.discards {
            *self.sum.discards.entry(format!("{sub}:{k}")).or_default() += v;
        }
        for (k, v) in &m.known_hits {
            *self.sum.known_hits.entry(k.clone()).or_default() += v;
        }
        self.sum.samples.extend(m.samples);
        let mut fails = fails.into_inner().unwrap();
        fails.sort_by_key(|x| x.0);
        let mut seen = HashSet::new();
        for (i, data, fl, sub, f) in fails {
            if fl.sig == "HARNESS-PANIC" {
                eprintln!("ERROR property={} sub={sub} case {i}: harness panic: {}", self.prop, fl.msg);
                let p = write_replay(self.prop, sub, &data, &fl, "", seed, i);
                eprintln!("  replay {p}");
                self.error = Some(format!("harness panic in case {i}: {}", fl.msg));
                continue;
            }
            if !seen.insert(fl.sig.clone()) && std::env::var("VERIF_KEEP_GOING").is_err() {
                continue;
            }
            // should shrinking itself crash or hang, the supervisor reports the unshrunk case
            if known_match(&known, &fl).is_none() {
                if let Ok(jp) = std::env::var("VERIF_JOURNAL") {
                    let p = write_replay(self.prop, sub, &data, &fl, "", seed, i);
                    let _ = std::fs::write(format!("{jp}.pending"), p);
                }
            }
            let shrunk = std::sync::Arc::new(AtomicBool::new(false));
            {
                let shrunk = shrunk.clone();
                std::thread::spawn(move || {
                    let t = Instant::now();
                    while !shrunk.load(Ordering::Relaxed) {
                        std::thread::sleep(std::time::Duration::from_millis(50));
                        if t.elapsed().as_secs() > 90 {
                            std::process::exit(HANG_CODE);
                        }
                    }
                });
            }
            let (d, x) = {
                // shrink on a big stack
                std::thread::scope(|s| std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, || shrink(f, data, fl, thorough, i, 60)).unwrap().join().unwrap())
            };
            if let Some(k) = known_match(&known, &x) {
                *self.sum.known_hits.entry(k.what.clone()).or_default() += 1;
                shrunk.store(true, Ordering::Relaxed);
                continue;
            }
            let (_, text) = std::thread::scope(|s| {
                std::thread::Builder::new()
                    .stack_size(512 << 20)
                    .spawn_scoped(s, || {
                        let mut t = Tape::replay(d.clone());
                        run_once(f, &mut t, true, thorough, i)
                    })
                    .unwrap()
                    .join()
                    .unwrap()
            });
            shrunk.store(true, Ordering::Relaxed);
            if let Ok(jp) = std::env::var("VERIF_JOURNAL") {
                if let Ok(old) = std::fs::read_to_string(format!("{jp}.pending")) {
                    let _ = std::fs::remove_file(old);
                }
                let _ = std::fs::remove_file(format!("{jp}.pending"));
            }
            let p = write_replay(self.prop, sub, &d, &x, &text, seed, i);
            eprintln!("--- {} [{sub}] case {i} sig={}\n{}\n{}", self.prop, x.sig, x.msg, text);
            self.violations.push((x, p));
        }
    }

    pub fn finish(self) -> i32 {
        let seed = env_seed();
        let tier = if env_thorough() { "thorough" } else { "quick" };
        let mut samples = self.sum.samples.clone();
        samples.truncate(8);
        if samples.is_empty() {
            samples.push(json!("(no non-trivial sample drawn)"));
        }
        let mut cov = json!({
            "evaluations": self.sum.evals,
            "distinct_nontrivial": self.sum.distinct.len(),
            "rule": self.rule,
            "samples": samples,
            "checked_comparisons": self.sum.sub,
            "classes": self.sum.classes,
            "discarded": self.sum.discards,
            "known_finding_hits": self.sum.known_hits,
        });
        for (k, v) in &self.extra {
            cov[k] = v.clone();
        }
        let ev = json!({
            "property": self.prop, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": cov, "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations.len(),
        });
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(format!("{dir}/{}.json", self.prop), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        for k in load_known(self.prop) {
            println!("KNOWN-FINDING: property={} {}", self.prop, k.what);
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} comparisons, discards {:?}, {:.1}s",
            self.prop, self.sum.evals, self.sum.distinct.len(), self.sum.sub, self.sum.discards, self.start.elapsed().as_secs_f64()
        );
        if std::env::var("VERIF_VERBOSE").is_ok() {
            println!("classes {:#?}", self.sum.classes);
        }
        if !self.violations.is_empty() {
            for (_, p) in &self.violations {
                println!("VIOLATION property={} replay={}", self.prop, p);
            }
            return 1;
        }
        if let Some(e) = self.error {
            println!("ERROR property={} {}", self.prop, e);
            return 3;
        }
        if self.sum.distinct.is_empty() && std::env::var("VERIF_SUB").is_err() {
            println!("ERROR property={} no non-trivial case was generated", self.prop);
            return 3;
        }
        0
    }
}

pub fn replay_file(path: &str) -> (String, String, Option<Vec<u64>>, u64) {
    let j: J = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    (
        j["property"].as_str().unwrap().into(),
        j["sub"].as_str().unwrap().into(),
        j["tape"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap()).collect()),
        j["index"].as_u64().unwrap_or(0),
    )
}

pub fn replay_case(f: &CaseFn, mut t: Tape, index: u64) -> i32 {
    let (o, text) = run_once(f, &mut t, true, env_thorough(), index);
    println!("{text}");
    match o {
        Outcome::Fail(x) | Outcome::FailAt(x, ..) => {
            println!("REPRODUCED sig={} {}", x.sig, x.msg);
            1
        }
        Outcome::Pass { .. } => {
            println!("passes now");
            0
        }
        Outcome::Discard(r) => {
            println!("discarded: {r}");
            0
        }
    }
}
