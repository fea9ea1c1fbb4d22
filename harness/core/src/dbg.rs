//! Reads the `Debug` text of a generated value back into a tree and compares it with an interpreted value.
use crate::ast::V;

#[derive(Debug, Clone, PartialEq)]
pub enum D {
    Num(i128),
    Bool(bool),
    Char(char),
    Str(String),
    List(Vec<D>),
    Tuple(Vec<D>),
    Named(String, Vec<D>),
    Struct(String, Vec<(String, D)>),
}

struct P<'a> {
    s: &'a [u8],
    i: usize,
}

type R<T> = Result<T, String>;

impl P<'_> {
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        self.s.get(self.i).copied().unwrap_or(0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn need(&mut self, c: u8) -> R<()> {
        if self.eat(c) { Ok(()) } else { Err(format!("expected {:?} at {} in debug text", c as char, self.i)) }
    }
    fn list(&mut self, end: u8) -> R<Vec<D>> {
        let mut v = vec![];
        while !self.eat(end) {
            v.push(self.val()?);
            if !self.eat(b',') {
                self.need(end)?;
                break;
            }
        }
        Ok(v)
    }
    fn ident(&mut self) -> String {
        self.ws();
        let a = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'_' || self.s[self.i] == b'#') {
            self.i += 1;
        }
        String::from_utf8_lossy(&self.s[a..self.i]).trim_start_matches("r#").to_string()
    }
    fn ch(&mut self) -> R<char> {
        let txt = std::str::from_utf8(&self.s[self.i..self.s.len().min(self.i + 12)]).or_else(|e| std::str::from_utf8(&self.s[self.i..self.i + e.valid_up_to()])).map_err(|e| e.to_string())?;
        let mut it = txt.chars();
        let c = it.next().ok_or("end")?;
        self.i += c.len_utf8();
        if c != '\\' {
            return Ok(c);
        }
        let e = it.next().ok_or("end")?;
        self.i += e.len_utf8();
        Ok(match e {
            'n' => '\n',
            't' => '\t',
            'r' => '\r',
            '0' => '\0',
            'u' => {
                self.need(b'{')?;
                let h = self.ident();
                self.need(b'}')?;
                char::from_u32(u32::from_str_radix(&h, 16).map_err(|e| e.to_string())?).ok_or("char")?
            }
            x => x,
        })
    }
    fn val(&mut self) -> R<D> {
        match self.peek() {
            b'[' => {
                self.i += 1;
                Ok(D::List(self.list(b']')?))
            }
            b'(' => {
                self.i += 1;
                Ok(D::Tuple(self.list(b')')?))
            }
            b'\'' => {
                self.i += 1;
                let c = self.ch()?;
                self.need(b'\'')?;
                Ok(D::Char(c))
            }
            b'"' => {
                self.i += 1;
                let mut s = String::new();
                while self.s.get(self.i) != Some(&b'"') {
                    s.push(self.ch()?);
                }
                self.i += 1;
                Ok(D::Str(s))
            }
            c if c == b'-' || c.is_ascii_digit() => {
                let a = self.i;
                self.i += 1;
                while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                    self.i += 1;
                }
                let t = std::str::from_utf8(&self.s[a..self.i]).unwrap();
                Ok(D::Num(t.parse().map_err(|_| format!("number {t}"))?))
            }
            _ => {
                let n = self.ident();
                if n.is_empty() {
                    return Err(format!("unexpected {:?} at {} in debug text", self.peek() as char, self.i));
                }
                if n == "PhantomData" {
                    let mut depth = 0;
                    while self.i < self.s.len() {
                        match self.s[self.i] {
                            b'<' => depth += 1,
                            b'>' => depth -= 1,
                            _ => {}
                        }
                        if depth == 0 && self.s[self.i] != b'>' {
                            break;
                        }
                        self.i += 1;
                        if depth == 0 {
                            break;
                        }
                    }
                    return Ok(D::Named(n, vec![]));
                }
                match n.as_str() {
                    "true" => return Ok(D::Bool(true)),
                    "false" => return Ok(D::Bool(false)),
                    _ => {}
                }
                if n == "View" && self.eat(b'@') {
                    let D::Num(o) = self.val()? else { return Err("view".into()) };
                    return Ok(D::Struct(n, vec![("start_offset".into(), D::Num(o))]));
                }
                if self.eat(b'(') {
                    return Ok(D::Named(n, self.list(b')')?));
                }
                if self.eat(b'{') {
                    let mut fs = vec![];
                    while !self.eat(b'}') {
                        let f = self.ident();
                        self.need(b':')?;
                        fs.push((f, self.val()?));
                        if !self.eat(b',') {
                            self.need(b'}')?;
                            break;
                        }
                    }
                    return Ok(D::Struct(n, fs));
                }
                Ok(D::Named(n, vec![]))
            }
        }
    }
}

pub fn parse(s: &str) -> R<D> {
    let mut p = P { s: s.as_bytes(), i: 0 };
    let v = p.val()?;
    p.ws();
    if p.i != s.len() {
        return Err(format!("trailing debug text at {}", p.i));
    }
    Ok(v)
}

fn plain(s: &str) -> String {
    s.trim_start_matches("r#").chars().map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }).collect::<String>().trim_end_matches('_').to_string()
}

fn cut<T: std::fmt::Debug>(x: &T) -> String {
    format!("{x:?}").chars().take(90).collect()
}

/// The same content, allowing for what the generator does to names and payloads.
pub fn agree(v: &V, d: &D) -> R<()> {
    let no = || Err(format!("interpreted {} against generated {}", cut(v), cut(d)));
    match (v, d) {
        (V::U(_, a), D::Num(b)) if *a as i128 == *b => Ok(()),
        (V::Num(a), D::Num(b)) if a.find(['i', 'u']).map_or(&a[..], |i| &a[..i]).parse() == Ok(*b) => Ok(()),
        (V::Bool(a), D::Bool(b)) if a == b => Ok(()),
        (V::Char(a), D::Char(b)) if a == b => Ok(()),
        (V::Phantom, D::Named(n, _)) if n == "PhantomData" => Ok(()),
        (V::View(o), D::Struct(n, fs)) if n == "View" => match fs.iter().find(|f| f.0 == "start_offset") {
            Some((_, D::Num(x))) if *x == *o as i128 => Ok(()),
            _ => no(),
        },
        (V::Opt(None), D::Named(n, a)) if n == "None" && a.is_empty() => Ok(()),
        (V::Opt(Some(x)), D::Named(n, a)) if n == "Some" && a.len() == 1 => agree(x, &a[0]),
        (V::Seq(xs), D::List(ys)) | (V::Tuple(xs), D::Tuple(ys)) => {
            if xs.len() != ys.len() {
                return Err(format!("{} elements against {}: {} / {}", xs.len(), ys.len(), cut(v), cut(d)));
            }
            for (i, (x, y)) in xs.iter().zip(ys).enumerate() {
                agree(x, y).map_err(|e| format!("[{i}]{e}"))?;
            }
            Ok(())
        }
        (V::Record(_), D::Struct(_, fs)) => fields(v, fs),
        (V::Variant(l, x), D::Named(n, a)) if plain(l) == plain(n) => match (&**x, a.len()) {
            (V::Tuple(u), 0) if u.is_empty() => Ok(()),
            (V::Tuple(u), k) if k > 1 && u.len() == k => {
                for (x, y) in u.iter().zip(a) {
                    agree(x, y)?;
                }
                Ok(())
            }
            (x, 1) => agree(x, &a[0]).map_err(|e| format!(".{l}{e}")),
            _ => no(),
        },
        (V::Variant(l, x), D::Struct(n, fs)) if plain(l) == plain(n) => fields(x, fs),
        _ => no(),
    }
}

fn fields(v: &V, fs: &[(String, D)]) -> R<()> {
    let V::Record(xs) = v else { return Err(format!("interpreted {} against a struct", cut(v))) };
    if xs.len() != fs.len() {
        return Err(format!("fields {:?} against {:?}", xs.iter().map(|x| &x.0).collect::<Vec<_>>(), fs.iter().map(|x| &x.0).collect::<Vec<_>>()));
    }
    for ((l, x), (n, y)) in xs.iter().zip(fs) {
        if plain(l) != plain(n) {
            return Err(format!("field {l} against {n}"));
        }
        agree(x, y).map_err(|e| format!(".{l}{e}"))?;
    }
    Ok(())
}

/// The numbers in the named list field of a generated struct.
pub fn list<'a>(d: &'a D, name: &str) -> Option<&'a Vec<D>> {
    match d {
        D::Struct(_, fs) => match &fs.iter().find(|f| f.0 == name)?.1 {
            D::List(v) => Some(v),
            _ => None,
        },
        _ => None,
    }
}
