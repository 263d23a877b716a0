//! An independent implementation of the token's text form: JSON reader and writer that keep
//! layout under control, base64, content identifiers.
use crate::keys::Actor;
use base64::Engine;
use serde_json::{Map, Value};
use sha2::Digest;

pub fn b64(b: &[u8]) -> String {
    base64::engine::general_purpose::URL_SAFE_NO_PAD.encode(b)
}

const ALPHABET: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";

/// Strict base64url without padding, written out independently
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut acc = 0u32;
    let mut bits = 0;
    for c in s.bytes() {
        let v = ALPHABET.iter().position(|a| *a == c)? as u32;
        acc = (acc << 6) | v;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    if bits >= 6 || acc != 0 {
        return None;
    }
    Some(out)
}

/// JSON with its layout: objects keep order and duplicates, numbers keep their text
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

impl J {
    pub fn from_value(v: &Value) -> J {
        match v {
            Value::Null => J::Null,
            Value::Bool(b) => J::Bool(*b),
            Value::Number(n) => J::Num(n.to_string()),
            Value::String(s) => J::Str(s.clone()),
            Value::Array(a) => J::Arr(a.iter().map(J::from_value).collect()),
            Value::Object(o) => {
                J::Obj(o.iter().map(|(k, v)| (k.clone(), J::from_value(v))).collect())
            }
        }
    }
    pub fn to_value(&self) -> Value {
        match self {
            J::Null => Value::Null,
            J::Bool(b) => Value::Bool(*b),
            J::Num(n) => serde_json::from_str(n).expect("number"),
            J::Str(s) => Value::String(s.clone()),
            J::Arr(a) => Value::Array(a.iter().map(J::to_value).collect()),
            J::Obj(o) => {
                let mut m = Map::new();
                for (k, v) in o {
                    m.insert(k.clone(), v.to_value());
                }
                Value::Object(m)
            }
        }
    }
    pub fn get(&self, key: &str) -> Option<&J> {
        match self {
            J::Obj(o) => o.iter().find(|(k, _)| k == key).map(|(_, v)| v),
            _ => None,
        }
    }
    pub fn keys(&self) -> Vec<&str> {
        match self {
            J::Obj(o) => o.iter().map(|(k, _)| k.as_str()).collect(),
            _ => vec![],
        }
    }
    /// Every object in it has strictly ascending keys
    pub fn sorted(&self) -> bool {
        match self {
            J::Arr(a) => a.iter().all(J::sorted),
            J::Obj(o) => {
                o.windows(2).all(|w| w[0].0.as_bytes() < w[1].0.as_bytes())
                    && o.iter().all(|(_, v)| v.sorted())
            }
            _ => true,
        }
    }
    pub fn compact(&self) -> String {
        self.write(&mut Tape::new(&[]))
    }
    pub fn write(&self, t: &mut Tape) -> String {
        let mut out = String::new();
        t.ws(&mut out);
        self.w(t, &mut out);
        t.ws(&mut out);
        out
    }
    fn w(&self, t: &mut Tape, out: &mut String) {
        match self {
            J::Null => out.push_str("null"),
            J::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => out.push_str(n),
            J::Str(s) => wstr(s, t, out),
            J::Arr(a) => {
                out.push('[');
                t.ws(out);
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                        t.ws(out);
                    }
                    v.w(t, out);
                    t.ws(out);
                }
                out.push(']');
            }
            J::Obj(o) => {
                out.push('{');
                t.ws(out);
                let mut order: Vec<usize> = (0..o.len()).collect();
                for i in 0..order.len() {
                    let j = i + t.next() as usize % (order.len() - i);
                    order.swap(i, j);
                }
                for (n, i) in order.into_iter().enumerate() {
                    if n > 0 {
                        out.push(',');
                        t.ws(out);
                    }
                    wstr(&o[i].0, t, out);
                    t.ws(out);
                    out.push(':');
                    t.ws(out);
                    o[i].1.w(t, out);
                    t.ws(out);
                }
                out.push('}');
            }
        }
    }
}

fn wstr(s: &str, t: &mut Tape, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        let choice = t.next();
        let short = match c {
            '"' => Some("\\\""),
            '\\' => Some("\\\\"),
            '\n' => Some("\\n"),
            '\r' => Some("\\r"),
            '\t' => Some("\\t"),
            '\u{8}' => Some("\\b"),
            '\u{c}' => Some("\\f"),
            '/' if choice % 4 == 1 => Some("\\/"),
            _ => None,
        };
        let must = c < '\u{20}' || c == '"' || c == '\\';
        if choice % 8 == 7 || (must && short.is_none()) {
            let mut buf = [0u16; 2];
            for u in c.encode_utf16(&mut buf) {
                if choice & 8 == 0 {
                    out.push_str(&format!("\\u{u:04x}"));
                } else {
                    out.push_str(&format!("\\u{u:04X}"));
                }
            }
        } else if let Some(e) = short {
            out.push_str(e);
        } else {
            out.push(c);
        }
    }
    out.push('"');
}

/// The layout choices; an empty tape is the compact canonical layout
pub struct Tape<'a> {
    bytes: &'a [u8],
    at: usize,
}

impl<'a> Tape<'a> {
    pub fn new(bytes: &'a [u8]) -> Self {
        Tape { bytes, at: 0 }
    }
    fn next(&mut self) -> u8 {
        if self.bytes.is_empty() {
            return 0;
        }
        let b = self.bytes[self.at % self.bytes.len()];
        // do not repeat exactly after wrapping around
        let b = b.wrapping_add((self.at / self.bytes.len()) as u8);
        self.at += 1;
        b
    }
    fn ws(&mut self, out: &mut String) {
        match self.next() % 16 {
            11 => out.push(' '),
            12 => out.push('\n'),
            13 => out.push('\t'),
            14 => out.push_str("\r\n"),
            15 => out.push_str("    "),
            _ => {}
        }
    }
}

/// A strict JSON reader. Returns the value and whether there was any whitespace between tokens.
pub fn parse(bytes: &[u8]) -> Result<(J, bool), String> {
    let text = std::str::from_utf8(bytes).map_err(|e| e.to_string())?;
    let mut p = P { s: text, at: 0, ws: false };
    p.skip();
    let v = p.value()?;
    p.skip();
    if p.at != text.len() {
        return Err(format!("trailing text at {}", p.at));
    }
    Ok((v, p.ws))
}

struct P<'a> {
    s: &'a str,
    at: usize,
    ws: bool,
}

impl P<'_> {
    fn rest(&self) -> &str {
        &self.s[self.at..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn skip(&mut self) {
        while matches!(self.peek(), Some(' ' | '\n' | '\r' | '\t')) {
            self.at += 1;
            self.ws = true;
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        if self.rest().starts_with(t) {
            self.at += t.len();
            true
        } else {
            false
        }
    }
    fn value(&mut self) -> Result<J, String> {
        match self.peek() {
            Some('{') => {
                self.at += 1;
                let mut o = vec![];
                self.skip();
                if self.eat("}") {
                    return Ok(J::Obj(o));
                }
                loop {
                    self.skip();
                    let k = self.string()?;
                    self.skip();
                    if !self.eat(":") {
                        return Err(format!("expected ':' at {}", self.at));
                    }
                    self.skip();
                    o.push((k, self.value()?));
                    self.skip();
                    if self.eat("}") {
                        return Ok(J::Obj(o));
                    }
                    if !self.eat(",") {
                        return Err(format!("expected ',' at {}", self.at));
                    }
                }
            }
            Some('[') => {
                self.at += 1;
                let mut a = vec![];
                self.skip();
                if self.eat("]") {
                    return Ok(J::Arr(a));
                }
                loop {
                    self.skip();
                    a.push(self.value()?);
                    self.skip();
                    if self.eat("]") {
                        return Ok(J::Arr(a));
                    }
                    if !self.eat(",") {
                        return Err(format!("expected ',' at {}", self.at));
                    }
                }
            }
            Some('"') => Ok(J::Str(self.string()?)),
            Some('t') if self.eat("true") => Ok(J::Bool(true)),
            Some('f') if self.eat("false") => Ok(J::Bool(false)),
            Some('n') if self.eat("null") => Ok(J::Null),
            Some(c) if c == '-' || c.is_ascii_digit() => {
                let n = self
                    .rest()
                    .find(|c: char| !(c.is_ascii_digit() || "+-.eE".contains(c)))
                    .unwrap_or(self.rest().len());
                let t = self.rest()[..n].to_string();
                serde_json::from_str::<serde_json::Number>(&t).map_err(|e| e.to_string())?;
                self.at += n;
                Ok(J::Num(t))
            }
            c => Err(format!("unexpected {c:?} at {}", self.at)),
        }
    }
    fn string(&mut self) -> Result<String, String> {
        if !self.eat("\"") {
            return Err(format!("expected string at {}", self.at));
        }
        let mut out = String::new();
        loop {
            let c = self.peek().ok_or("unterminated string")?;
            self.at += c.len_utf8();
            match c {
                '"' => return Ok(out),
                '\\' => {
                    let e = self.peek().ok_or("unterminated escape")?;
                    self.at += e.len_utf8();
                    out.push(match e {
                        '"' | '\\' | '/' => e,
                        'n' => '\n',
                        'r' => '\r',
                        't' => '\t',
                        'b' => '\u{8}',
                        'f' => '\u{c}',
                        'u' => {
                            let mut u = self.hex4()? as u32;
                            if (0xd800..0xdc00).contains(&u) {
                                if !self.eat("\\u") {
                                    return Err("lone surrogate".into());
                                }
                                let l = self.hex4()? as u32;
                                if !(0xdc00..0xe000).contains(&l) {
                                    return Err("bad surrogate pair".into());
                                }
                                u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                            }
                            char::from_u32(u).ok_or("bad escape")?
                        }
                        _ => return Err("unknown escape".into()),
                    });
                }
                c if c < '\u{20}' => return Err("control character in string".into()),
                c => out.push(c),
            }
        }
    }
    fn hex4(&mut self) -> Result<u16, String> {
        let t = self.rest().get(..4).ok_or("short escape")?;
        let u = u16::from_str_radix(t, 16).map_err(|e| e.to_string())?;
        self.at += 4;
        Ok(u)
    }
}

/// Signs header and payload text with the actor's key
pub fn assemble(actor: &Actor, header: &str, payload: &str) -> String {
    let data = format!("{}.{}", b64(header.as_bytes()), b64(payload.as_bytes()));
    let sig = actor.raw.sign(data.as_bytes());
    format!("{data}.{}", b64(&sig))
}

pub fn header_json(actor: &Actor) -> Value {
    serde_json::json!({"alg": actor.raw.alg(), "typ": "JWT"})
}

/// A token in canonical layout
pub fn token(actor: &Actor, payload: &Value) -> String {
    assemble(
        actor,
        &J::from_value(&header_json(actor)).compact(),
        &J::from_value(payload).compact(),
    )
}

/// The decoded header, payload and signature of a token text, read independently
pub fn open(text: &str) -> Result<(J, J, Vec<u8>), String> {
    let seg: Vec<&str> = text.split('.').collect();
    if seg.len() != 3 {
        return Err(format!("{} segments", seg.len()));
    }
    let h = unb64(seg[0]).ok_or("header base64")?;
    let p = unb64(seg[1]).ok_or("payload base64")?;
    let s = unb64(seg[2]).ok_or("signature base64")?;
    Ok((parse(&h)?.0, parse(&p)?.0, s))
}

fn varint(mut n: u64, out: &mut Vec<u8>) {
    while n >= 0x80 {
        out.push((n as u8) | 0x80);
        n >>= 7;
    }
    out.push(n as u8);
}

pub fn uvarint(n: u64) -> Vec<u8> {
    let mut v = vec![];
    varint(n, &mut v);
    v
}

pub fn base32(b: &[u8]) -> String {
    const A: &[u8] = b"abcdefghijklmnopqrstuvwxyz234567";
    let mut out = String::new();
    let mut acc = 0u32;
    let mut bits = 0;
    for x in b {
        acc = (acc << 8) | *x as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(A[((acc >> bits) & 31) as usize] as char);
            acc &= (1 << bits) - 1;
        }
    }
    if bits > 0 {
        out.push(A[((acc << (5 - bits)) & 31) as usize] as char);
    }
    out
}

/// Hash functions a proof can be cited by; the digest is computed without the multihash crate
/// where another implementation is at hand
pub const HASHES: [(&str, u64); 15] = [
    ("blake3-256", 0x1e),
    ("sha2-256", 0x12),
    ("sha2-512", 0x13),
    ("sha3-256", 0x16),
    ("sha3-512", 0x14),
    ("keccak-256", 0x1b),
    ("blake2b-256", 0xb220),
    ("blake2s-256", 0xb260),
    ("sha3-224", 0x17),
    ("sha3-384", 0x15),
    ("keccak-224", 0x1a),
    ("keccak-384", 0x1c),
    ("keccak-512", 0x1d),
    ("blake2b-512", 0xb240),
    ("blake2s-128", 0xb250),
];

pub fn hash_code(i: usize) -> cid::multihash::Code {
    use cid::multihash::Code::*;
    match i % HASHES.len() {
        0 => Blake3_256,
        1 => Sha2_256,
        2 => Sha2_512,
        3 => Sha3_256,
        4 => Sha3_512,
        5 => Keccak256,
        6 => Blake2b256,
        7 => Blake2s256,
        8 => Sha3_224,
        9 => Sha3_384,
        10 => Keccak224,
        11 => Keccak384,
        12 => Keccak512,
        13 => Blake2b512,
        _ => Blake2s128,
    }
}

pub fn digest(i: usize, data: &[u8]) -> Vec<u8> {
    use cid::multihash::MultihashDigest;
    match i % HASHES.len() {
        0 => blake3::hash(data).as_bytes().to_vec(),
        1 => sha2::Sha256::digest(data).to_vec(),
        2 => sha2::Sha512::digest(data).to_vec(),
        k => hash_code(k).digest(data).digest().to_vec(),
    }
}

/// The text of the version-1 raw content identifier of `data`
pub fn cid_bytes(i: usize, data: &[u8]) -> Vec<u8> {
    let d = digest(i, data);
    let mut b = vec![1u8, 0x55];
    varint(HASHES[i % HASHES.len()].1, &mut b);
    varint(d.len() as u64, &mut b);
    b.extend(d);
    b
}

pub fn cid_text(i: usize, data: &[u8]) -> String {
    format!("b{}", base32(&cid_bytes(i, data)))
}

pub fn multihash(i: usize, data: &[u8]) -> cid::multihash::Multihash {
    use cid::multihash::MultihashDigest;
    hash_code(i).digest(data)
}
