//! C16 over the shipped descriptions: every decoded document can be rendered, and its JSON reads back.
use crate::corpus;
use std::sync::mpsc::{Sender, channel};
use std::sync::{Arc, Mutex, OnceLock};
use crate::docs::KINDS;
use crate::exec::{program, shipped};
use doodle::Format;
use doodle::output::{flat, tree::TreePrinter};
use doodle::read::ReadCtxt;
use vharness::ast::norm;
use vharness::checks::c01::{hex, panic_sig};
use vharness::checks::c16::{located, plain, same};
use vharness::runner::{Ctx, Fam, Outcome, guarded};
use vharness::tape::hash_bytes;

const RULE: &str = "non-trivial: the document was decoded and every renderer ran on its value; distinct by document";

fn case(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let (name, bytes) = if t.chance(94) {
        let k = t.weighted(&[2, 4, 3, 3, 2, 2, 2, 2, 2, 4, 4]);
        let d = KINDS[k](t);
        (if t.chance(50) { "main" } else { d.name }, d.bytes)
    } else {
        let (tables, magic, _) = corpus::font(t);
        ("main", corpus::assemble(&tables, magic))
    };
    if cx.want_text {
        cx.text = format!("{name}: {}", hex(&bytes));
    }
    if name == "main" { on_pool(bytes) } else { check(name, &bytes) }
}

type Job = (Vec<u8>, Sender<Outcome>);
/// the whole module takes more than a gigabyte once compiled, per thread: three threads hold it
fn on_pool(bytes: Vec<u8>) -> Outcome {
    static POOL: OnceLock<Mutex<Sender<Job>>> = OnceLock::new();
    let pool = POOL.get_or_init(|| {
        let (tx, rx) = channel::<Job>();
        let rx = Arc::new(Mutex::new(rx));
        for _ in 0..3 {
            let rx = rx.clone();
            std::thread::Builder::new()
                .stack_size(512 << 20)
                .spawn(move || {
                    loop {
                        let next = rx.lock().unwrap().recv();
                        let Ok((bytes, back)) = next else { return };
                        let _ = back.send(check("main", &bytes));
                    }
                })
                .unwrap();
        }
        Mutex::new(tx)
    });
    let (tx, rx) = channel();
    pool.lock().unwrap().send((bytes, tx)).unwrap();
    rx.recv().unwrap_or(Outcome::Discard("not decoded"))
}

fn check(name: &'static str, bytes: &[u8]) -> Outcome {
    let s = shipped();
    let f = if name == "main" { s.main.clone() } else { Format::ItemVar(s.by_name[name], vec![], vec![]) };
    let p = program(name);
    let (v, lv) = match guarded(|| (p.run(ReadCtxt::new(bytes)), p.run_with_loc(ReadCtxt::new(bytes)))) {
        Ok((Ok((v, _)), Ok((lv, _)))) => (v, lv),
        _ => return Outcome::Discard("not decoded"),
    };
    let r = guarded(|| {
        for (k, js) in [serde_json::to_string(&v), serde_json::to_string(&lv)].into_iter().enumerate() {
            let js = js.map_err(|e| e.to_string())?;
            let j = serde_json::from_str(&js).map_err(|e| e.to_string())?;
            let (got, want) = if k == 0 { (plain(&j)?.0, norm(&v)) } else { (located(&j)?.0, norm(&lv.into_cow_value())) };
            if !same(&got, &want) {
                return Err("the JSON reads back as another value".to_string());
            }
        }
        Ok(())
    });
    match r {
        Ok(Ok(())) => {}
        Ok(Err(e)) => return Outcome::fail(format!("{name}-json"), e),
        Err(e) => return Outcome::fail(format!("{name}-json-{}", panic_sig(&e)), e),
    }
    let tree = guarded(|| TreePrinter::new(&s.module).compile_decoded_value(&v, &f).to_string());
    let ltree = guarded(|| TreePrinter::new(&s.module).compile_parsed_decoded_value(&lv, &f).to_string());
    let list = guarded(|| {
        let mut b = vec![];
        flat::Context::new(&mut b, &s.module).write_flat(&v, &f).unwrap();
        String::from_utf8(b).unwrap()
    });
    for (what, r) in [("tree", &tree), ("located-tree", &ltree), ("flat", &list)] {
        match r {
            Err(e) => return Outcome::fail(format!("{what}-{}", panic_sig(e)), format!("rendering the {what} of a decoded {name} panics: {e}")),
            Ok(s) if s.is_empty() && what != "flat" => return Outcome::fail(format!("{what}-empty"), format!("the {what} of a decoded {name} is empty")),
            Ok(_) => {}
        }
    }
    Outcome::Pass { nontrivial: true, key: hash_bytes(bytes), classes: vec![name], sub: 5 }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C16", sub: "documents", rule: RULE, quick: 1_500, thorough: 60_000, f: &case }]
}
