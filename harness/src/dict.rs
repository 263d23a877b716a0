//! A dictionary for the generators, as fuzzers use one: the integer and text literals of the code
//! under test (read from the source directories of the path dependencies), so that sizes, instants and texts
//! at which the code might behave specially are generated more often than chance would have it.
//! Literals that the pinned commit did not have are preferred. The dictionary only biases
//! what is generated; no oracle knows it, and a missing source directory merely empties it.
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::path::{Path, PathBuf};
use std::sync::OnceLock;

#[derive(Default, Clone)]
pub struct Literals {
    pub nums: BTreeSet<u64>,
    pub texts: BTreeSet<String>,
}

enum Tok {
    Num(u64),
    Op(char),
    Shl,
    Text(String),
    Other,
}

fn lex(src: &str) -> Vec<Tok> {
    let c: Vec<char> = src.chars().collect();
    let mut out = vec![];
    let mut i = 0;
    let at = |i: usize| c.get(i).copied().unwrap_or('\0');
    while i < c.len() {
        match c[i] {
            '/' if at(i + 1) == '/' => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if at(i + 1) == '*' => {
                i += 2;
                while i < c.len() && !(c[i] == '*' && at(i + 1) == '/') {
                    i += 1;
                }
                i += 2;
            }
            'r' if at(i + 1) == '"' || (at(i + 1) == '#' && (at(i + 2) == '"' || at(i + 2) == '#')) => {
                let mut n = 0;
                while at(i + 1 + n) == '#' {
                    n += 1;
                }
                if at(i + 1 + n) != '"' {
                    i += 1;
                    continue;
                }
                i += 2 + n;
                let mut s = String::new();
                while i < c.len() && !(c[i] == '"' && (0..n).all(|k| at(i + 1 + k) == '#')) {
                    s.push(c[i]);
                    i += 1;
                }
                i += 1 + n;
                out.push(Tok::Text(s));
            }
            '"' => {
                i += 1;
                let mut s = String::new();
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        match at(i) {
                            'n' => s.push('\n'),
                            't' => s.push('\t'),
                            'r' => s.push('\r'),
                            '0' => s.push('\0'),
                            'x' => {
                                let h: String = [at(i + 1), at(i + 2)].iter().collect();
                                if let Ok(n) = u8::from_str_radix(&h, 16) {
                                    s.push(n as char);
                                }
                                i += 2;
                            }
                            'u' => {
                                let mut h = String::new();
                                i += 2;
                                while i < c.len() && c[i] != '}' {
                                    h.push(c[i]);
                                    i += 1;
                                }
                                if let Some(x) = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32) {
                                    s.push(x);
                                }
                            }
                            '\n' => {
                                while at(i + 1).is_whitespace() {
                                    i += 1;
                                }
                            }
                            x => s.push(x),
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                out.push(Tok::Text(s));
            }
            '\'' if at(i + 1) != '\\' && at(i + 2) == '\'' => {
                out.push(Tok::Text(c[i + 1].to_string()));
                out.push(Tok::Num(c[i + 1] as u64));
                i += 3;
            }
            '\'' if at(i + 1) == '\\' => {
                i += 2;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            }
            d if d.is_ascii_digit() => {
                let start = i;
                while at(i).is_ascii_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
                let t: String = c[start..i].iter().filter(|x| **x != '_').collect();
                let (radix, digits) = match t.get(..2) {
                    Some("0x") => (16, t[2..].to_string()),
                    Some("0b") => (2, t[2..].to_string()),
                    Some("0o") => (8, t[2..].to_string()),
                    _ => (10, t.clone()),
                };
                // without a type suffix
                let digits = digits.find(|x: char| x == 'u' || x == 'i').map(|k| digits[..k].to_string()).unwrap_or(digits);
                if let Ok(n) = u64::from_str_radix(&digits, radix) {
                    out.push(Tok::Num(n));
                }
            }
            x if x.is_alphabetic() || x == '_' => {
                while at(i).is_alphanumeric() || at(i) == '_' {
                    i += 1;
                }
                out.push(Tok::Other);
            }
            '<' if at(i + 1) == '<' => {
                out.push(Tok::Shl);
                i += 2;
            }
            x @ ('*' | '+' | '-') => {
                out.push(Tok::Op(x));
                i += 1;
            }
            x => {
                if !x.is_whitespace() {
                    out.push(Tok::Other);
                }
                i += 1;
            }
        }
    }
    out
}

fn collect(src: &str, l: &mut Literals) {
    let toks = lex(src);
    for t in &toks {
        match t {
            Tok::Num(n) => {
                l.nums.insert(*n);
            }
            // messages are no dictionary
            Tok::Text(s) if s.chars().count() <= 40 && s.matches(' ').count() < 2 => {
                l.texts.insert(s.clone());
            }
            _ => {}
        }
    }
    // constant expressions such as 60 * 60 * 24 and 1 << 20
    let mut i = 0;
    while i + 2 < toks.len() {
        if let Tok::Num(mut n) = toks[i] {
            let mut k = i;
            while let (Some(op), Some(Tok::Num(m))) = (toks.get(k + 1), toks.get(k + 2)) {
                n = match op {
                    Tok::Op('*') => n.wrapping_mul(*m),
                    Tok::Op('+') => n.wrapping_add(*m),
                    Tok::Op('-') => n.wrapping_sub(*m),
                    Tok::Shl if *m < 64 => n << m,
                    _ => break,
                };
                l.nums.insert(n);
                k += 2;
            }
            i = k;
        }
        i += 1;
    }
}

fn walk(dir: &Path, l: &mut Literals) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<PathBuf> = entries.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        let name = p.file_name().unwrap_or_default().to_string_lossy().into_owned();
        if p.is_dir() {
            if name != "tests" && name != "fixtures" {
                walk(&p, l);
            }
        } else if name.ends_with(".rs") {
            if let Ok(s) = std::fs::read_to_string(&p) {
                collect(&s, l);
            }
        }
    }
}

/// Those of the code under test
fn current() -> Literals {
    let manifest = include_str!("../Cargo.toml");
    let mut l = Literals::default();
    for line in manifest.lines() {
        if let Some((_, rest)) = line.split_once("path = \"") {
            if let Some((p, _)) = rest.split_once('"') {
                walk(&Path::new(env!("CARGO_MANIFEST_DIR")).join(p).join("src"), &mut l);
            }
        }
    }
    l
}

fn base() -> Literals {
    serde_json::from_str::<(BTreeSet<u64>, BTreeSet<String>)>(include_str!("../dict_base.json"))
        .map(|(nums, texts)| Literals { nums, texts })
        .unwrap_or_default()
}

pub struct Dict {
    nums: Vec<u64>,
    texts: Vec<String>,
    /// There are literals the pinned commit did not have
    pub fresh_nums: bool,
    pub fresh_texts: bool,
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (now, old) = (current(), base());
        let nums: Vec<u64> = now.nums.difference(&old.nums).copied().collect();
        let texts: Vec<String> = now.texts.difference(&old.texts).cloned().collect();
        let mut d = Dict { fresh_nums: !nums.is_empty(), fresh_texts: !texts.is_empty(), nums, texts };
        if !d.fresh_nums {
            d.nums = old.nums.into_iter().collect();
        }
        if !d.fresh_texts {
            d.texts = old.texts.into_iter().collect();
        }
        // generators need something to choose from
        d.nums.push(1);
        d.texts.push("a".into());
        d
    })
}

/// For `ucanpbt dict`: what there is, in the form of dict_base.json
pub fn dump() -> String {
    let l = current();
    serde_json::to_string(&(l.nums, l.texts)).unwrap()
}

/// How often to draw a number from the dictionary, where 1 is rare
pub fn w_num(rare: u32) -> u32 {
    if dict().fresh_nums { rare * 4 } else { rare }
}

pub fn w_text(rare: u32) -> u32 {
    if dict().fresh_texts { rare * 4 } else { rare }
}

/// A number at or next to one of the dictionary
pub fn num() -> BoxedStrategy<u64> {
    (prop::sample::select(dict().nums.clone()), -1i64..2).prop_map(|(n, d)| n.saturating_add_signed(d)).boxed()
}

/// A size in min..=max at or next to a number of the dictionary
pub fn size(min: usize, max: usize) -> BoxedStrategy<usize> {
    let mut v: Vec<usize> = dict()
        .nums
        .iter()
        .flat_map(|n| [n.saturating_sub(1), *n, n.saturating_add(1), n.saturating_add(2)])
        .filter(|n| *n >= min as u64 && *n <= max as u64)
        .map(|n| n as usize)
        .collect();
    if v.is_empty() {
        v.push(min);
    }
    prop::sample::select(v).boxed()
}

/// A text of the dictionary, alone or with something next to it
pub fn text() -> BoxedStrategy<String> {
    (prop::sample::select(dict().texts.clone()), 0u8..8, "[a-z0-9]{0,4}", prop::sample::select(dict().texts.clone()))
        .prop_map(|(t, how, x, u)| match how {
            0 => format!("{t}{x}"),
            1 => format!("{x}{t}"),
            2 => format!("{x}{t}{x}"),
            3 => format!("{t}{u}"),
            4 => t.to_uppercase(),
            _ => t,
        })
        .boxed()
}
