//! Generators of token contents, and building them with the library
use crate::dict;
use crate::keys::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use ucan::builder::{Signable, UcanBuilder};
use ucan::capability::Capability;
use ucan::crypto::KeyMaterial;
use ucan::Ucan;

pub fn block<F: std::future::Future>(f: F) -> F::Output {
    futures::executor::block_on(f)
}

/// An actor index; mostly Ed25519 (fast), sometimes P-256, rarely RSA
pub fn any_actor() -> BoxedStrategy<usize> {
    prop_oneof![
        20 => 0..N_ED,
        4 => N_ED..N_ED + N_P256,
        1 => N_ED + N_P256..N_ACTORS,
    ]
    .boxed()
}

/// Every key type with the same weight
pub fn even_actor() -> BoxedStrategy<usize> {
    prop_oneof![0..N_ED, N_ED..N_ED + N_P256, N_ED + N_P256..N_ACTORS].boxed()
}

pub fn text() -> BoxedStrategy<String> {
    prop_oneof![
        3 => prop::sample::select(vec![
            "", "a", "b", "ab", "A", "x", "é", "e\u{301}", "😀", "\u{ffff}", "\u{0}", "\n", "\t", "\"", "\\", "\\u0041",
            "a b", " a", "a ", "a.b", "a/b", "..", "0", "-1", "null", "true", "{}", "[]", "iss", "aud", "cap", "prf", "nbf",
            "exp", "fct", "nnc", "ucv", "\u{7f}", "\u{1f}", "\u{2028}", "<script>", "a:b", "did:key:z", "%20", "+", "=", "~", "ß",
            "İ", "\u{feff}", "日本語", "caveat", "caveats", "nb", "with", "can", "ability", "resource", "*", "proof", "did", "key", "data", "bytes",
            "alg", "typ", "sig", "signature", "header", "payload", "iat", "jti", "sub", "version", "delegate",
        ]).prop_map(String::from),
        3 => "[a-z]{1,6}",
        1 => "[ -~]{0,40}",
        1 => any::<String>(),
        1 => prop::collection::vec(any::<char>(), 0..6).prop_map(|v| v.into_iter().collect()),
        1 => prop_oneof![20 => Just(0usize), 1 => 1..LONG.len()].prop_flat_map(|i| ("[a-zé]?", "[a-zA-Zé日😀]", Just(LONG[i]))).prop_map(|(p, c, n)| p + &c.repeat(n)),
        dict::w_text(1) => prop_oneof![1 => dict::text(), dict::w_num(1) => long_text(5000)],
    ]
    .boxed()
}

/// What may stand around a token that is passed on
pub fn around() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec![
            "ucan:", "Bearer ", "bearer ", "jwt:", "\"", "'", " ", "\n", "\r\n", "\t", "\u{feff}", "\u{0}", "=", "==", "<", ">", "data:,", "urn:ucan:",
            "ucan://", "/", "?", "#", ";", ",", ".", "..", "~", "%20", "JWT ", "token=",
        ]).prop_map(String::from),
        dict::w_text(1) => dict::text(),
    ]
    .boxed()
}

/// A text about as long as a number of the dictionary, of characters of one or more bytes
pub fn long_text(max: usize) -> BoxedStrategy<String> {
    (dict::size(0, max), "[a-zé]?", "[a-zA-Z0-9]|[é日😀]").prop_map(|(n, p, c)| p + &c.repeat(n)).boxed()
}

/// A long text, about evenly by magnitude
pub fn big() -> BoxedStrategy<String> {
    let size = prop_oneof![
        2 => (10u32..18, 0usize..1 << 17, -2i64..3).prop_map(|(b, x, d)| ((1usize << b) + x % (1 << b)).saturating_add_signed(d as isize)),
        2 => (10u32..19, -2i64..3).prop_map(|(b, d)| (1usize << b).saturating_add_signed(d as isize)),
        dict::w_num(1) => dict::size(1000, 3_000_000),
    ];
    (size, "[a-zA-Z0-9]").prop_map(|(n, c)| c.repeat(n)).boxed()
}

/// Lengths around those at which representations change
const LONG: [usize; 14] = [1, 23, 24, 31, 32, 33, 64, 127, 128, 255, 256, 257, 1025, 4097];

/// Mostly a few, now and then many
pub fn few(max: usize) -> BoxedStrategy<std::ops::Range<usize>> {
    prop_oneof![
        30 => Just(0..max + 1),
        2 => Just(max..28),
        dict::w_num(1) => dict::size(0, 70).prop_map(|n| n..n + 1),
    ]
    .boxed()
}

/// As many as usual, now and then as many as the dictionary suggests, to a limit
pub fn sized<S>(s: S, usual: std::ops::Range<usize>, max: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
{
    let t = s.clone();
    let least = usual.start;
    prop_oneof![
        40 => prop::collection::vec(s, usual),
        dict::w_num(1) => dict::size(least, max).prop_flat_map(move |n| prop::collection::vec(t.clone(), n)),
    ]
    .boxed()
}

/// Text that is no reserved key
pub fn key() -> BoxedStrategy<String> {
    text().prop_map(|t| if t == "/" { "//".into() } else { t }).boxed()
}

pub fn number() -> BoxedStrategy<Value> {
    prop_oneof![
        2 => (-5i64..100).prop_map(|n| json!(n)),
        2 => prop::sample::select(vec![
            json!(0), json!(-1), json!(i64::MIN), json!(i64::MAX), json!(i64::MAX as u64 + 1), json!(u64::MAX), json!(u32::MAX),
            json!(9007199254740991u64), json!(9007199254740993u64), json!(-9007199254740993i64), json!(0.0), json!(1.0),
            json!(-1.0), json!(0.1), json!(1e300), json!(-1e300), json!(5e-324), json!(1.5), json!(123456789.125), json!(1e21), json!(1e-7),
            json!(f64::MAX), json!(f64::MIN_POSITIVE), json!(1.7976931348623157e308), json!(4503599627370497.5),
        ]),
        1 => any::<i64>().prop_map(|n| json!(n)),
        1 => any::<u64>().prop_map(|n| json!(n)),
        dict::w_num(1) => prop_oneof![3 => dict::num().prop_map(|n| json!(n)), 1 => dict::num().prop_map(|n| json!((n as i64).wrapping_neg()))],
        1 => any::<f64>().prop_filter_map("finite", |f| if f.is_finite() && !(f == 0.0 && f.is_sign_negative()) { Some(json!(f)) } else { None }),
    ]
    .boxed()
}

/// Any JSON value; `slash` allows objects with the key "/", which DAG-JSON reserves
pub fn json(slash: bool) -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        1 => Just(Value::Null),
        2 => any::<bool>().prop_map(Value::Bool),
        4 => number(),
        4 => text().prop_map(Value::String),
    ];
    leaf.prop_recursive(3, 24, 5, move |inner| {
        let key = if slash {
            prop_oneof![4 => key(), 1 => Just("/".to_string()), 1 => Just("bytes".to_string())].boxed()
        } else {
            key()
        };
        prop_oneof![
            20 => prop::collection::vec(inner.clone(), 0..4).prop_map(Value::Array),
            30 => prop::collection::vec((key, inner.clone()), 0..4).prop_map(|kv| Value::Object(kv.into_iter().collect())),
            1 => (inner.clone(), 1usize..12, any::<bool>()).prop_map(|(v, n, a)| nested(v, n, a)),
            dict::w_num(1) => (inner.clone(), dict::size(1, 40), any::<bool>()).prop_map(|(v, n, a)| nested(v, n, a)),
            1 => (inner, prop_oneof![1 => 1usize..40, dict::w_num(1) => dict::size(1, 300)], any::<bool>()).prop_map(|(v, n, a)| if a {
                Value::Array(vec![v; n])
            } else {
                Value::Object((0..n).map(|i| (format!("k{i}"), v.clone())).collect())
            }),
        ]
    })
    .boxed()
}

fn nested(v: Value, n: usize, array: bool) -> Value {
    (0..n).fold(v, |v, _| if array { json!([v]) } else { json!({ "d": v }) })
}

pub fn object(slash: bool) -> BoxedStrategy<Value> {
    prop_oneof![
        2 => Just(json!({})),
        3 => few(3).prop_flat_map(move |n| prop::collection::vec((key(), json(slash)), n))
            .prop_map(|kv| Value::Object(kv.into_iter().collect::<Map<_, _>>())),
    ]
    .boxed()
}

/// An object somewhere in v has the key "/"
pub fn has_slash(v: &Value) -> bool {
    match v {
        Value::Array(a) => a.iter().any(has_slash),
        Value::Object(o) => o.contains_key("/") || o.values().any(has_slash),
        _ => false,
    }
}

pub fn resource_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec![
            "mailto:a@example.com", "mailto:b@example.com", "mailto:*", "my:*", "my:mailto:a@x.com", "as:did:key:z6Mk:*",
            "prf:0", "prf:*", "wnfs://a.example/public/x", "wnfs://a.example/public/x?q=1#f", "example://example.com/private/84MZ",
            "https://example.com", "HTTPS://Example.COM:443/a/../b/./c?x#", "http://u:p@[::1]:80/%7Efoo/", "example://x/%7efoo", "Mailto:A@EXAMPLE.com", "my:*/", " my:*", "as:did:key:z6Mk:my:*", "file:///c:/x",
        ]).prop_map(String::from),
        2 => "[a-z]{1,4}:[a-z/@.]{0,8}",
        1 => key(),
        dict::w_text(1) => ("[a-z]{1,4}", dict::text()).prop_map(|(s, t)| format!("{s}:{t}")),
    ]
    .boxed()
}

pub fn ability_text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec!["msg/send", "msg/receive", "wnfs/append", "*", "ucan/DELEGATE", "MSG/SEND", "crud/update", "msg/*", "*/*", "msg//send", "/msg/send", "msg/send/"]).prop_map(String::from),
        1 => key(),
        dict::w_text(1) => dict::text().prop_map(|t| if t == "/" { "//".into() } else { t }),
    ]
    .boxed()
}

/// Capabilities whose resources and abilities repeat now and then
pub fn caps(slash: bool, max: usize) -> BoxedStrategy<Vec<(String, String, Value)>> {
    few(max).prop_flat_map(move |n| (prop::collection::vec((resource_text(), ability_text(), object(slash)), n), bunch())).prop_map(bunched).boxed()
}

/// Whether capabilities are all about one resource, or even one ability of it
pub fn bunch() -> BoxedStrategy<u8> {
    prop_oneof![10 => Just(0u8), 1 => Just(1u8), 2 => Just(2u8)].boxed()
}

pub fn bunched((mut v, how): (Vec<(String, String, Value)>, u8)) -> Vec<(String, String, Value)> {
    if let Some((r, a, _)) = v.first().cloned() {
        for c in v.iter_mut() {
            if how > 0 {
                c.0 = r.clone();
            }
            if how > 1 {
                c.1 = a.clone();
            }
        }
    }
    v
}

pub fn did_text() -> BoxedStrategy<String> {
    prop_oneof![
        6 => (0..N_ACTORS).prop_map(|i| actor(i).did.clone()),
        1 => prop::sample::select(vec!["did:web:example.com", "did:web:localhost%3A8080", "did:web:a%2Fb:c%20d", "did:plc:abc#k%23", "did:plc:abc", "did:ion:EiA", "did:key:zabc", "did:key:f00", "did:key:zabc?v=1&x=%3a", "mailto:x", ""]).prop_map(String::from),
        1 => text(),
    ]
    .boxed()
}

/// A time bound: small values collide, extremes occur
pub fn bound() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => 0u64..8,
        3 => 1_700_000_000u64..1_700_000_008,
        2 => prop::sample::select(vec![u64::MAX, u64::MAX - 1, i64::MAX as u64, i64::MAX as u64 + 1, i64::MAX as u64 - 1, u32::MAX as u64, u32::MAX as u64 + 1, 1 << 53, (1 << 53) + 1, 1 << 32]),
        2 => any::<u64>(),
        1 => (0u32..64).prop_map(|b| 1u64 << b),
        dict::w_num(1) => prop_oneof![3 => dict::num(), 1 => dict::num().prop_map(|n| 1_700_000_000u64.saturating_add(n))],
    ]
    .boxed()
}

/// How far apart two instants are: a moment, a usual span, one of the dictionary
pub fn distance() -> BoxedStrategy<i64> {
    (
        prop_oneof![
            2 => 0u64..10,
            2 => 0u64..100_000,
            1 => prop::sample::select(vec![30u64, 59, 60, 61, 300, 3600, 86_400, 604_800, 31_536_000, 1 << 31, 1 << 32]),
            1 => 0u64..1 << 40,
            dict::w_num(1) => dict::num().prop_map(|n| n.min(i64::MAX as u64)),
        ],
        any::<bool>(),
    )
        .prop_map(|(d, neg)| if neg { -(d as i64) } else { d as i64 })
        .boxed()
}

/// What a token says beside what a property is about
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Extras {
    pub aud: usize,
    pub caps: Vec<(String, String, Value)>,
    pub facts: Vec<(String, Value)>,
    pub nonce: Option<String>,
}

/// (nothing that selects proofs)
pub fn extras() -> BoxedStrategy<Extras> {
    let some = (
        0..N_ACTORS,
        prop::collection::vec(("(x[a-z]{0,3}|my|as:did:key:z6Mk):[a-z/@.]{0,8}", ability_text(), object(false)), 0..3),
        prop::collection::vec((key(), json(false)), 0..3),
        prop::option::of(text()),
    )
        .prop_map(|(aud, caps, facts, nonce)| Extras { aud, caps, facts, nonce });
    prop_oneof![1 => (0..N_ACTORS).prop_map(|aud| Extras { aud, ..Default::default() }), 1 => some].boxed()
}

impl Extras {
    /// Adds them to a payload
    pub fn add_to(&self, p: &mut Value) {
        p["aud"] = json!(actor(self.aud).did);
        p["cap"] = json!(group(&self.caps));
        if !self.facts.is_empty() {
            p["fct"] = json!(self.facts.iter().cloned().collect::<BTreeMap<_, _>>());
        }
        if let Some(n) = &self.nonce {
            p["nnc"] = json!(n);
        }
    }
}

/// Everything a token is built from
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Spec {
    pub iss: usize,
    pub aud: String,
    pub caps: Vec<(String, String, Value)>,
    pub facts: Vec<(String, Value)>,
    pub proofs: Vec<String>,
    pub exp: Option<u64>,
    pub nbf: Option<u64>,
    pub nonce: bool,
}

pub fn cid_like() -> BoxedStrategy<String> {
    prop::collection::vec(any::<u8>(), 0..8)
        .prop_flat_map(|d| (Just(d), 0usize..8))
        .prop_map(|(d, h)| crate::jwt::cid_text(h, &d))
        .boxed()
}

pub fn spec_with(iss: BoxedStrategy<usize>, slash: bool, proofs: BoxedStrategy<Vec<String>>) -> BoxedStrategy<Spec> {
    (
        iss,
        did_text(),
        caps(slash, 5),
        (
            few(3).prop_flat_map(move |n| prop::collection::vec((key(), json(slash)), n)),
            prop_oneof![300 => Just(None), 1 => big().prop_map(Some)],
        )
            .prop_map(|(mut f, b)| {
                f.extend(b.map(|b| ("big".to_string(), json!(b))));
                f
            }),
        proofs,
        prop::option::of(bound()),
        prop::option::of(bound()),
        any::<bool>(),
    )
        .prop_map(|(iss, aud, caps, facts, proofs, exp, nbf, nonce)| Spec { iss, aud, caps, facts, proofs, exp, nbf, nonce })
        .boxed()
}

/// A spec with DIDs that have a binary form, for the IPLD checks
pub fn spec_ipld(iss: BoxedStrategy<usize>) -> BoxedStrategy<Spec> {
    (
        spec_with(iss, false, few(3).prop_flat_map(|n| prop::collection::vec(cid_like(), n)).boxed()),
        prop_oneof![
            4 => (0..N_ACTORS).prop_map(|i| actor(i).did.clone()),
            1 => prop::sample::select(vec!["did:web:example.com", "did:plc:abc", "did:ion:EiA_x-y.z", "did:x:", "did:", "did:web:é", "did:web:localhost%3A8080", "did:web:a%2Fb%20c#k%23"]).prop_map(String::from),
            // any other identity of a method that needs no key
            1 => (prop::sample::select(vec!["did:web:", "did:plc:", "did:", "did:Key:", "did:keyz"]), text()).prop_map(|(m, t)| format!("{m}{t}")).prop_filter("method key", |d| !d.starts_with("did:key:")),
        ],
    )
        .prop_map(|(mut s, aud)| {
            s.aud = aud;
            s
        })
        .boxed()
}

impl Spec {
    pub fn signable(&self) -> Signable<'static, Box<dyn KeyMaterial>> {
        Signable {
            issuer: &actor(self.iss).km,
            audience: self.aud.clone(),
            capabilities: self
                .caps
                .iter()
                .map(|(r, a, c)| Capability::new(r.clone(), a.clone(), c.clone()))
                .collect(),
            expiration: self.exp,
            not_before: self.nbf,
            facts: self.fact_map(),
            proofs: self.proofs.clone(),
            add_nonce: self.nonce,
        }
    }

    pub fn fact_map(&self) -> BTreeMap<String, Value> {
        self.facts.iter().cloned().collect()
    }

    /// With the builder (which has no way to give proofs by identifier: those are added after)
    pub fn build(&self) -> anyhow::Result<Ucan> {
        let mut b = UcanBuilder::default()
            .issued_by(&actor(self.iss).km)
            .for_audience(&self.aud);
        for (r, a, c) in &self.caps {
            b = b.claiming_capability(Capability::new(r.clone(), a.clone(), c.clone()));
        }
        for (k, v) in &self.facts {
            b = b.with_fact(k, v.clone());
        }
        if let Some(e) = self.exp {
            b = b.with_expiration(e);
        }
        if let Some(n) = self.nbf {
            b = b.not_before(n);
        }
        if self.nonce {
            b = b.with_nonce();
        }
        let mut s = b.build()?;
        s.proofs = self.proofs.clone();
        block(s.sign())
    }

    pub fn grouped(&self) -> BTreeMap<String, BTreeMap<String, Vec<Value>>> {
        group(&self.caps)
    }

    /// The payload as the specification writes it, for a given nonce
    pub fn payload(&self, nonce: Option<&str>) -> Value {
        let mut p = Map::new();
        p.insert("ucv".into(), json!("0.10.0-canary"));
        p.insert("iss".into(), json!(actor(self.iss).did));
        p.insert("aud".into(), json!(self.aud));
        p.insert("exp".into(), json!(self.exp));
        if let Some(n) = self.nbf {
            p.insert("nbf".into(), json!(n));
        }
        if let Some(n) = nonce {
            p.insert("nnc".into(), json!(n));
        }
        p.insert("cap".into(), json!(self.grouped()));
        if !self.facts.is_empty() {
            p.insert("fct".into(), json!(self.fact_map()));
        }
        if !self.proofs.is_empty() {
            p.insert("prf".into(), json!(self.proofs));
        }
        Value::Object(p)
    }
    pub fn any_slash(&self) -> bool {
        self.facts.iter().any(|(k, v)| k == "/" || has_slash(v))
            || self.caps.iter().any(|(r, a, c)| r == "/" || a == "/" || has_slash(c))
    }
}

pub fn group(caps: &[(String, String, Value)]) -> BTreeMap<String, BTreeMap<String, Vec<Value>>> {
    let mut m: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
    for (r, a, c) in caps {
        m.entry(r.clone()).or_default().entry(a.clone()).or_default().push(c.clone());
    }
    m
}

/// An in-bounds instant for these bounds, if there is one
pub fn instant_within(nbf: Option<u64>, exp: Option<u64>) -> Option<u64> {
    let lo = nbf.unwrap_or(0);
    let hi = exp.unwrap_or(u64::MAX);
    (lo <= hi).then_some(lo)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)+) => {
        if !$c {
            return Err(format!($($f)+));
        }
    };
}

#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($f:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($f)+), a, b));
        }
    }};
}

/// A resource text that a capability may select proofs with (schemes are written in any case)
pub fn selects_proofs(resource: &str) -> bool {
    url::Url::parse(resource).map(|u| u.scheme() == "prf").unwrap_or(false)
}
