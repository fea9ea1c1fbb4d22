//! The repository's sample files, cut down fonts made from its sample fonts, and damage.
use std::sync::OnceLock;
use vharness::tape::Tape;

pub struct Sample {
    pub name: String,
    pub bytes: Vec<u8>,
}

fn repo() -> std::path::PathBuf {
    std::env::var_os("VERIF_REPO").map(Into::into).unwrap_or_else(|| "/repo".into())
}

fn files(dir: &str, exts: &[&str], max: u64) -> Vec<Sample> {
    let mut v = vec![];
    if let Ok(rd) = std::fs::read_dir(repo().join(dir)) {
        for e in rd.flatten() {
            let p = e.path();
            let x = p.extension().and_then(|x| x.to_str()).unwrap_or("").to_string();
            if exts.contains(&x.as_str()) && e.metadata().is_ok_and(|m| m.is_file() && m.len() <= max) {
                if let Ok(bytes) = std::fs::read(&p) {
                    v.push(Sample { name: p.file_name().unwrap().to_string_lossy().into_owned(), bytes });
                }
            }
        }
    }
    v.sort_by(|a, b| a.name.cmp(&b.name));
    v
}

/// Sample files of at most 16 KB.
pub fn samples() -> &'static Vec<Sample> {
    static S: OnceLock<Vec<Sample>> = OnceLock::new();
    S.get_or_init(|| {
        let exts = ["png", "gif", "tif", "jpg", "webp", "gz", "tgz", "tar", "elf", "rle", "numbers", "waldo", "peano", "txt", "utf8"];
        let mut v = files("", &exts, 16_000);
        v.extend(files("test-images", &exts, 13_000));
        v
    })
}

pub struct Font {
    pub name: String,
    pub magic: [u8; 4],
    pub tables: Vec<([u8; 4], Vec<u8>)>,
}

fn be(b: &[u8], at: usize, n: usize) -> usize {
    b.get(at..at + n).map_or(0, |s| s.iter().fold(0, |a, x| a << 8 | *x as usize))
}

fn put(b: &mut [u8], at: usize, n: usize, v: usize) {
    for i in 0..n {
        if let Some(x) = b.get_mut(at + i) {
            *x = (v >> (8 * (n - 1 - i))) as u8;
        }
    }
}

fn split(name: &str, b: &[u8]) -> Option<Font> {
    let base = if b.starts_with(b"ttcf") { be(b, 12, 4) } else { 0 };
    let n = be(b, base + 4, 2);
    let mut tables = vec![];
    for i in 0..n {
        let r = base + 12 + 16 * i;
        let tag = b.get(r..r + 4)?.try_into().ok()?;
        let (o, l) = (be(b, r + 8, 4), be(b, r + 12, 4));
        tables.push((tag, b.get(o..o + l)?.to_vec()));
    }
    let magic = b.get(base..base + 4)?.try_into().ok()?;
    (n > 0).then(|| Font { name: name.to_string(), magic, tables })
}

pub fn fonts() -> &'static Vec<Font> {
    static S: OnceLock<Vec<Font>> = OnceLock::new();
    S.get_or_init(|| files("test-fonts", &["ttf", "otf", "ttc"], 1 << 20).iter().filter_map(|s| split(&s.name, &s.bytes)).collect())
}

pub const REQUIRED: [&[u8; 4]; 8] = [b"cmap", b"head", b"hhea", b"maxp", b"hmtx", b"name", b"OS/2", b"post"];

/// A font with few glyphs and a few of the tables of one of the sample fonts.
pub fn font(t: &mut Tape) -> (Vec<([u8; 4], Vec<u8>)>, [u8; 4], String) {
    let f = &fonts()[t.below(fonts().len())];
    let get = |tag: &[u8; 4]| f.tables.iter().find(|x| &x.0 == tag).map(|x| x.1.clone());
    let glyphs = get(b"maxp").map_or(1, |m| be(&m, 4, 2)).max(1);
    let n = 1 + t.small(30.min(glyphs));
    let n = n.min(glyphs);
    let mut out: Vec<([u8; 4], Vec<u8>)> = vec![];
    let long = get(b"head").map_or(0, |h| be(&h, 50, 2)) == 1;
    let mut budget = 24_000usize;
    for (tag, data) in &f.tables {
        let req = REQUIRED.contains(&tag);
        let mut d = data.clone();
        match tag {
            b"maxp" => put(&mut d, 4, 2, n),
            b"hhea" | b"vhea" => {
                let k = be(&d, 34, 2).min(n);
                put(&mut d, 34, 2, k);
            }
            b"hmtx" | b"vmtx" => d.truncate(4 * n),
            b"loca" => d.truncate((n + 1) * if long { 4 } else { 2 }),
            b"glyf" => {
                if let Some(l) = get(b"loca") {
                    let end = if long { be(&l, 4 * n, 4) } else { 2 * be(&l, 2 * n, 2) };
                    d.truncate(end);
                }
            }
            b"cmap" => {
                // keep one or two of the encodings
                let k = be(&d, 2, 2);
                if k > 1 && t.chance(60) {
                    let keep = 1 + t.below(2.min(k));
                    let mut nd = d[..4].to_vec();
                    put(&mut nd, 2, 2, keep);
                    let mut subs = vec![];
                    let mut at = 4 + 8 * keep;
                    for _ in 0..keep {
                        let i = t.below(k);
                        let o = be(&d, 4 + 8 * i + 4, 4);
                        let len = match be(&d, o, 2) {
                            0..=6 => be(&d, o + 2, 2),
                            8..=13 => be(&d, o + 4, 4),
                            _ => be(&d, o + 2, 4),
                        };
                        nd.extend(&d[4 + 8 * i..4 + 8 * i + 4]);
                        nd.extend((at as u32).to_be_bytes());
                        let sub = d.get(o..(o + len).min(d.len())).unwrap_or(&[]).to_vec();
                        at += sub.len();
                        subs.push(sub);
                    }
                    for s in subs {
                        nd.extend(s);
                    }
                    d = nd;
                }
            }
            _ => {}
        }
        if req || (d.len() <= budget && t.chance(if d.len() < 400 { 70 } else { 35 })) {
            budget = budget.saturating_sub(d.len());
            out.push((*tag, d));
        }
    }
    (out, f.magic, f.name.clone())
}

pub fn assemble(tables: &[([u8; 4], Vec<u8>)], magic: [u8; 4]) -> Vec<u8> {
    let n = tables.len();
    let mut b = magic.to_vec();
    let lg = (usize::BITS - 1 - n.max(1).leading_zeros()) as u16;
    for x in [n as u16, 16 << lg, lg, 16 * n as u16 - (16 << lg).min(16 * n as u16)] {
        b.extend(x.to_be_bytes());
    }
    let mut at = 12 + 16 * n;
    for (tag, d) in tables {
        b.extend(tag);
        b.extend([0; 4]);
        b.extend((at as u32).to_be_bytes());
        b.extend((d.len() as u32).to_be_bytes());
        at += d.len().div_ceil(4) * 4;
    }
    for (_, d) in tables {
        b.extend(d);
        b.resize(b.len().div_ceil(4) * 4, 0);
    }
    b
}

/// One to a few local changes.
pub fn damage(t: &mut Tape, b: &mut Vec<u8>, lo: usize) {
    let k = 1 + t.small(3);
    for _ in 0..k {
        if b.len() <= lo {
            return;
        }
        let span = b.len() - lo;
        // the head of a file is where its structure is
        let at = lo + if t.chance(40) { t.below(span.min(64)) } else { t.below(span) };
        match t.weighted(&[6, 4, 3, 3, 2, 2, 2]) {
            0 => b[at] = t.byte(),
            1 => b[at] ^= 1 << t.below(8),
            2 => b[at] = [0, 1, 0x7f, 0x80, 0xff][t.below(5)],
            3 => {
                let v = t.edgy(16) as u16;
                let w = if t.chance(50) { v.to_be_bytes() } else { v.to_le_bytes() };
                for (i, x) in w.iter().enumerate() {
                    if at + i < b.len() {
                        b[at + i] = *x;
                    }
                }
            }
            4 => b.truncate(at),
            5 => {
                let n = 1 + t.small(8);
                let x = t.bytes(n);
                b.splice(at..at, x);
            }
            _ => {
                let n = (1 + t.small(8)).min(b.len() - at);
                b.drain(at..at + n);
            }
        }
    }
}
