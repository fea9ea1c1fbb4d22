//! The shipped descriptions, interpreted, and the shipped generated decoders.
use doodle::decoder::{Compiler, Program};
use doodle::read::ReadCtxt;
use doodle::{Format, FormatModule};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use vharness::ast::{V, norm};
use vharness::runner::guarded;

pub struct Shipped {
    pub module: FormatModule,
    pub main: Format,
    pub by_name: HashMap<String, usize>,
}

fn load() -> Shipped {
    let mut module = FormatModule::new();
    let main = doodle_formats::format::main(&mut module).call();
    let mut by_name = HashMap::new();
    let mut i = 0;
    while let Ok(n) = guarded(|| module.get_name(i).to_string()) {
        by_name.insert(n, i);
        i += 1;
    }
    Shipped { module, main, by_name }
}

thread_local! {
    static SHIPPED: Rc<Shipped> = Rc::new(load());
    static PROGS: RefCell<HashMap<String, Rc<Program>>> = RefCell::new(HashMap::new());
}

pub fn shipped() -> Rc<Shipped> {
    SHIPPED.with(|s| s.clone())
}

/// The compiled program of a named description (`bits:` prefix: read bit by bit), or of what `make` builds.
pub fn program(name: &str) -> Rc<Program> {
    PROGS.with(|ps| {
        if let Some(p) = ps.borrow().get(name) {
            return p.clone();
        }
        let s = shipped();
        let (bits, base) = match name.strip_prefix("bits:") {
            Some(b) => (true, b),
            None => (false, name),
        };
        let (closed, base) = match base.strip_suffix("$") {
            Some(b) => (true, b),
            None => (false, base),
        };
        let mut f = if base == "main" { s.main.clone() } else { Format::ItemVar(s.by_name[base], vec![], vec![]) };
        if bits {
            f = Format::Bits(Box::new(f));
        }
        if closed {
            f = Format::Tuple(vec![f, Format::EndOfInput]);
        }
        let p = Rc::new(Compiler::compile_program(&s.module, &f).expect("the shipped description compiles"));
        ps.borrow_mut().insert(name.to_string(), p.clone());
        p
    })
}

/// The compiled program of a format made of helpers and shipped descriptions.
pub fn custom(key: &str, make: fn(&Shipped) -> Format) -> Rc<Program> {
    PROGS.with(|ps| {
        if let Some(p) = ps.borrow().get(key) {
            return p.clone();
        }
        let s = shipped();
        let p = Rc::new(Compiler::compile_program(&s.module, &make(&s)).expect("the description compiles"));
        ps.borrow_mut().insert(key.to_string(), p.clone());
        p
    })
}

/// Decodes with the interpreter: value and number of bytes left, or the error; a panic comes back as `Err("panic ..")`.
pub fn interpret(name: &str, data: &[u8]) -> Result<(V, usize), String> {
    run(&program(name), data)
}

pub fn run(p: &Program, data: &[u8]) -> Result<(V, usize), String> {
    match guarded(|| p.run(ReadCtxt::new(data)).map(|(v, r)| (norm(&v), r.remaining().len())).map_err(|e| format!("{e:?}"))) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

/// Walks into a value: record fields, variant names, `?` for the content of an option, indices.
pub fn field<'a>(v: &'a V, path: &[&str]) -> Option<&'a V> {
    match path.split_first() {
        None => Some(v),
        Some((h, rest)) => match v {
            V::Record(fs) => fs.iter().find(|(l, _)| AsRef::<str>::as_ref(l) == *h).and_then(|(_, x)| field(x, rest)),
            V::Variant(l, x) if AsRef::<str>::as_ref(l) == *h => field(x, rest),
            V::Opt(Some(x)) if *h == "?" => field(x, rest),
            V::Seq(xs) | V::Tuple(xs) => h.parse::<usize>().ok().and_then(|i| xs.get(i)).and_then(|x| field(x, rest)),
            _ => None,
        },
    }
}

pub fn bytes(v: &V) -> Option<Vec<u8>> {
    match v {
        V::Seq(xs) | V::Tuple(xs) => xs
            .iter()
            .map(|x| match x {
                V::U(_, b) => u8::try_from(*b).ok(),
                V::Char(c) => u8::try_from(*c as u32).ok(),
                _ => None,
            })
            .collect(),
        _ => None,
    }
}
