//! C13: ByteSet vs the mathematical set (a 256-entry table).
use crate::runner::*;
use crate::tape::{Tape, hash_bytes};
use doodle::byte_set::ByteSet;

#[derive(Clone, PartialEq)]
struct S([bool; 256]);
impl S {
    fn elems(&self) -> Vec<u8> {
        (0..=255u8).filter(|b| self.0[*b as usize]).collect()
    }
    fn of(f: impl Fn(u8) -> bool) -> S {
        let mut s = S([false; 256]);
        for b in 0..=255u8 {
            s.0[b as usize] = f(b);
        }
        s
    }
    fn zip(&self, o: &S, f: impl Fn(bool, bool) -> bool) -> S {
        S::of(|b| f(self.0[b as usize], o.0[b as usize]))
    }
}

fn leaf(t: &mut Tape, log: &mut String) -> (ByteSet, S) {
    let r = match t.below(9) {
        0 => {
            log.push_str("empty");
            (ByteSet::empty(), S::of(|_| false))
        }
        1 => {
            log.push_str("full");
            (ByteSet::full(), S::of(|_| true))
        }
        2 => {
            let x = t.byte();
            log.push_str(&format!("singleton({x})"));
            (ByteSet::singleton(x), S::of(|b| b == x))
        }
        3 => {
            let (x, y) = (t.byte(), t.byte());
            log.push_str(&format!("({x}..={y})"));
            (ByteSet::from(x..=y), S::of(|b| b >= x && b <= y))
        }
        4 => {
            let (x, y) = (t.byte(), t.byte());
            log.push_str(&format!("({x}..{y})"));
            (ByteSet::from(x..y), S::of(|b| b >= x && b < y))
        }
        5 => {
            // range near quadrant edges
            let q = (t.draw(5) * 64) as i32;
            let x = (q + t.draw(7) as i32 - 3).clamp(0, 255) as u8;
            let q2 = (t.draw(5) * 64) as i32;
            let y = (q2 + t.draw(7) as i32 - 3).clamp(0, 255) as u8;
            log.push_str(&format!("({x}..={y})"));
            (ByteSet::from(x..=y), S::of(|b| b >= x && b <= y))
        }
        6 => {
            let n = t.below(12);
            let v = t.bytes(n);
            log.push_str(&format!("bytes{v:?}"));
            (ByteSet::from(&v[..]), S::of(|b| v.contains(&b)))
        }
        7 => {
            let v = [t.byte(), t.byte(), t.byte()];
            log.push_str(&format!("array{v:?}"));
            (ByteSet::from(v), S::of(|b| v.contains(&b)))
        }
        _ => {
            let w = [t.edgy(64), t.edgy(64), t.edgy(64), t.edgy(64)];
            log.push_str(&format!("bits{w:x?}"));
            (ByteSet::from_bits(w), S::of(|b| w[b as usize / 64] >> (b % 64) & 1 == 1))
        }
    };
    r
}

/// independent reader of the printed form
fn parse_token(tok: &str) -> Option<S> {
    let num = |s: &str| s.trim().parse::<u8>().ok();
    Some(match tok {
        "∅" => S::of(|_| false),
        "U8" => S::of(|_| true),
        "ASCII" => S::of(|b| b < 128),
        "ASCII.Strict" => S::of(|b| (32..128).contains(&b) || b == 9 || b == 10 || b == 13),
        "ASCII.Decimal" => S::of(|b| b.is_ascii_digit()),
        "ASCII.Octal" => S::of(|b| (b'0'..=b'7').contains(&b)),
        "ASCII.Hex" => S::of(|b| b.is_ascii_hexdigit()),
        "ASCII.HexLower" => S::of(|b| b.is_ascii_digit() || (b'a'..=b'f').contains(&b)),
        "ASCII.HexUpper" => S::of(|b| b.is_ascii_digit() || (b'A'..=b'F').contains(&b)),
        _ => {
            if let Some(r) = tok.strip_prefix("[= ").and_then(|r| r.strip_suffix(']')) {
                let n = num(r)?;
                S::of(|b| b == n)
            } else if let Some(r) = tok.strip_prefix("[!= ").and_then(|r| r.strip_suffix(']')) {
                let n = num(r)?;
                S::of(|b| b != n)
            } else if let Some(r) = tok.strip_prefix('⟦').and_then(|r| r.strip_suffix('⟧')) {
                let (a, c) = r.split_once(',')?;
                let (a, c) = (num(a)?, num(c)?);
                if a > c {
                    return None;
                }
                S::of(|b| b >= a && b <= c)
            } else if let Some(r) = tok.strip_prefix("∁({").and_then(|r| r.strip_suffix("})")) {
                let v: Option<Vec<u8>> = r.split(", ").map(num).collect();
                let v = v?;
                S::of(|b| !v.contains(&b))
            } else {
                let r = tok.strip_prefix('{')?.strip_suffix('}')?;
                let v: Option<Vec<u8>> = r.split(", ").map(num).collect();
                let v = v?;
                S::of(|b| v.contains(&b))
            }
        }
    })
}

fn parse_display(s: &str) -> Option<S> {
    let mut acc = S::of(|_| false);
    for t in s.split(" ∪ ") {
        acc = acc.zip(&parse_token(t)?, |a, b| a || b);
    }
    Some(acc)
}

fn parse_debug(s: &str) -> Option<S> {
    let (neg, r) = match s.strip_prefix('!') {
        Some(r) => (true, r),
        None => (false, s),
    };
    let r = r.strip_prefix('{')?.strip_suffix('}')?;
    let v: Option<Vec<u8>> = if r.is_empty() { Some(vec![]) } else { r.split(", ").map(|x| x.parse().ok()).collect() };
    let v = v?;
    Some(S::of(|b| v.contains(&b) != neg))
}

pub fn case(cx: &mut Ctx<'_>) -> Outcome {
    let t = &mut *cx.tape;
    let mut log = String::new();
    let mut st: Vec<(ByteSet, S)> = vec![];
    let steps = t.range(1, 12);
    let mut ops = 0;
    for k in 0..steps {
        log.push_str(&format!("; s{k} = "));
        let op = if st.is_empty() { 0 } else { t.below(9) };
        let n = match op {
            0 | 1 => leaf(t, &mut log),
            2..=4 => {
                let (i, j) = (t.below(st.len()), t.below(st.len()));
                let (a, b) = (st[i].clone(), st[j].clone());
                ops += 1;
                match op {
                    2 => {
                        log.push_str(&format!("union(s{i},s{j})"));
                        (a.0.union(&b.0), a.1.zip(&b.1, |x, y| x || y))
                    }
                    3 => {
                        log.push_str(&format!("intersection(s{i},s{j})"));
                        (a.0.intersection(&b.0), a.1.zip(&b.1, |x, y| x && y))
                    }
                    _ => {
                        log.push_str(&format!("difference(s{i},s{j})"));
                        (a.0.difference(&b.0), a.1.zip(&b.1, |x, y| x && !y))
                    }
                }
            }
            5 => {
                let i = t.below(st.len());
                ops += 1;
                log.push_str(&format!("complement(s{i})"));
                let a = &st[i];
                let c = if t.chance(50) { !a.0 } else { a.0.complement() };
                (c, S::of(|b| !a.1.0[b as usize]))
            }
            6 | 7 => {
                let i = t.below(st.len());
                let b = t.byte();
                let mut a = st[i].clone();
                ops += 1;
                if op == 6 {
                    log.push_str(&format!("insert(s{i},{b})"));
                    a.0.insert(b);
                    a.1.0[b as usize] = true;
                } else {
                    log.push_str(&format!("remove(s{i},{b})"));
                    a.0.remove(b);
                    a.1.0[b as usize] = false;
                }
                a
            }
            _ => {
                let i = t.below(st.len());
                log.push_str(&format!("rebuild(s{i})"));
                (st[i].0.iter().collect::<ByteSet>(), st[i].1.clone())
            }
        };
        st.push(n);
    }
    if cx.want_text {
        cx.text = log.clone();
    }
    let mut sub = 0;
    let bad = |what: &str, s: &S, got: String| Outcome::fail(format!("byteset-{what}"), format!("{what} of {:?}: got {got}; built by {log}", s.elems()));
    let mut rich = false;
    for (bs, s) in &st {
        let el = s.elems();
        rich |= !el.is_empty() && el.len() < 256;
        sub += 14;
        if bs.iter().collect::<Vec<u8>>() != el {
            return bad("iter", s, format!("{:?}", bs.iter().collect::<Vec<u8>>()));
        }
        for b in 0..=255u8 {
            if bs.contains(b) != s.0[b as usize] {
                return bad("contains", s, format!("{b} -> {}", bs.contains(b)));
            }
        }
        if bs.len() as usize != el.len() {
            return bad("len", s, bs.len().to_string());
        }
        if bs.is_empty() != el.is_empty() || bs.is_full() != (el.len() == 256) {
            return bad("is_empty/is_full", s, format!("{} {}", bs.is_empty(), bs.is_full()));
        }
        if bs.min_elem() != el.first().copied() {
            return bad("min_elem", s, format!("{:?}", bs.min_elem()));
        }
        if bs.max_elem() != el.last().copied() {
            return bad("max_elem", s, format!("{:?}", bs.max_elem()));
        }
        let bits = bs.to_bits();
        for b in 0..=255u8 {
            if (bits[b as usize / 64] >> (b % 64) & 1 == 1) != s.0[b as usize] {
                return bad("to_bits", s, format!("{bits:x?}"));
            }
        }
        match guarded(|| bs.bounds()) {
            Ok(x) if x == el.first().copied().zip(el.last().copied()) => {}
            x => return bad("bounds", s, format!("{x:?}")),
        }
        let span = if el.is_empty() { 0 } else { *el.last().unwrap() as u32 - el[0] as u32 + 1 };
        match guarded(|| (bs.span(), bs.is_contiguous())) {
            Ok(x) if x == (span, span as usize == el.len()) => {}
            x => return bad("span", s, format!("{x:?}")),
        }
        let (x, y) = (el.first().copied().unwrap_or(3), el.get(el.len() / 2).copied().unwrap_or(200));
        if x <= y && bs.contains_range(x..=y) != (x..=y).all(|b| s.0[b as usize]) {
            return bad("contains_range", s, format!("{x}..={y} -> {}", bs.contains_range(x..=y)));
        }
        for b in [x, y, 0, 255] {
            let want = s.0[b as usize].then(|| {
                let mut lo = b;
                while lo > 0 && s.0[lo as usize - 1] {
                    lo -= 1
                }
                let mut hi = b;
                while hi < 255 && s.0[hi as usize + 1] {
                    hi += 1
                }
                (lo, hi)
            });
            if bs.find_enclosing_range(b) != want {
                return bad("find_enclosing_range", s, format!("{b} -> {:?}", bs.find_enclosing_range(b)));
            }
        }
        match guarded(|| bs.to_string()) {
            Ok(d) if parse_display(&d).as_ref() == Some(s) => {}
            d => return bad("display", s, format!("{d:?}")),
        }
        match guarded(|| format!("{bs:?}")) {
            Ok(d) if parse_debug(&d).as_ref() == Some(s) => {}
            d => return bad("debug", s, format!("{d:?}")),
        }
        let j = serde_json::to_value(bs).unwrap();
        let data: Vec<u8> = j["data"].as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap() as u8).collect()).unwrap_or_default();
        let back = match j["tag"].as_str() {
            Some("includes") => S::of(|b| data.contains(&b)),
            Some("excludes") => S::of(|b| !data.contains(&b)),
            _ => return bad("serialize", s, j.to_string()),
        };
        if back != *s {
            return bad("serialize", s, j.to_string());
        }
    }
    for i in 0..st.len() {
        for j in 0..st.len() {
            sub += 2;
            let want = !(0..256).any(|b| st[i].1.0[b] && st[j].1.0[b]);
            if st[i].0.is_disjoint(&st[j].0) != want {
                return bad("is_disjoint", &st[i].1, format!("with {:?}: {}", st[j].1.elems(), !want));
            }
            if (st[i].0 == st[j].0) != (st[i].1 == st[j].1) {
                return bad("eq", &st[i].1, format!("with {:?}", st[j].1.elems()));
            }
        }
    }
    Outcome::Pass { nontrivial: ops >= 1 && rich, key: hash_bytes(log.as_bytes()), classes: vec![], sub }
}

pub fn fams() -> Vec<Fam> {
    vec![Fam { prop: "C13", sub: "ops", rule: "non-trivial: at least one set operation was applied and some resulting set is neither empty nor full; distinct by the operation history", quick: 150_000, thorough: 10_000_000, f: &case }]
}
