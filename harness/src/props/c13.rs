//! C13: hostile input is refused cleanly. Panics are caught per case, aborts and stack overflows by
//! the supervisor, hangs by its clock; the work that a chain causes is counted.
use super::c12::FullSem;
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::model::SetSem;
use crate::run::no_panic;
use crate::store::TestStore;
use crate::{dict, ensure, jwt};
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use libipld_core::ipld::Ipld;
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Map, Value};
use std::cell::Cell;
use std::str::FromStr;
use ucan::builder::UcanBuilder;
use ucan::capability::proof::ProofDelegationSemantics;
use ucan::capability::{Ability, Capabilities, Capability, CapabilitySemantics, CapabilityView, Caveat, Scope};
use ucan::chain::ProofChain;
use ucan::crypto::JwtSignatureAlgorithm;
use ucan::ipld::{Principle, Signature, UcanIpld, VarsigPrefix};
use ucan::serde::DagJson;
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};
use ucan::ucan::{Ucan, UcanHeader, UcanPayload};
use url::Url;

/// A semantics that understands everything
#[derive(Clone, PartialEq, Eq, Debug)]
struct Any(String);
impl Scope for Any {
    fn contains(&self, other: &Self) -> bool {
        CONTAINS.with(|c| c.set(c.get() + 1));
        self.0 == other.0
    }
}
thread_local! {
    static CONTAINS: Cell<u64> = const { Cell::new(0) };
}
#[allow(clippy::to_string_trait_impl)]
impl ToString for Any {
    fn to_string(&self) -> String {
        self.0.clone()
    }
}
impl TryFrom<Url> for Any {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, Self::Error> {
        Ok(Any(u.to_string()))
    }
}
#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
struct AnyWord(String);
impl Ability for AnyWord {}
impl TryFrom<String> for AnyWord {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        Ok(AnyWord(s))
    }
}
#[allow(clippy::to_string_trait_impl)]
impl ToString for AnyWord {
    fn to_string(&self) -> String {
        self.0.clone()
    }
}
struct AnySem;
impl CapabilitySemantics<Any, AnyWord> for AnySem {}

fn reduce<Sem, S, A>(c: &ProofChain, sem: &Sem)
where
    Sem: CapabilitySemantics<S, A>,
    S: Scope,
    A: Ability,
{
    let infos = c.reduce_capabilities(sem);
    for i in &infos {
        let _ = format!("{} {:?} {:?}", i.capability.resource().to_string(), i.originators, i.expires_at);
        let _ = Capability::from(&i.capability);
        for j in &infos {
            let _ = i.capability.enables(&j.capability);
        }
    }
}

const TIMES: [Option<u64>; 4] = [None, Some(0), Some(1_000_000), Some(u64::MAX)];

/// Everything one can do with a chain
fn poke_chain(c: &ProofChain) {
    let _ = c.proofs().len();
    let _ = c.ucan().issuer();
    let _ = format!("{c:?}").len();
    reduce(c, &SetSem);
    reduce(c, &FullSem);
    reduce(c, &AnySem);
    reduce(c, &ProofDelegationSemantics {});
}

/// Everything one can do with a token; true: it is valid
fn poke(u: &Ucan, store: &TestStore) -> bool {
    let mut p = parser();
    let mut good = false;
    for t in TIMES {
        let _ = u.is_expired(t);
        good |= block(u.validate(t, &mut p)).is_ok();
    }
    let _ = (u.is_too_early(), block(u.check_signature(&mut p)).is_ok());
    let _ = (u.signed_data().len(), u.signature().len(), u.algorithm(), u.issuer(), u.audience(), u.version());
    let _ = (u.proofs(), u.expires_at(), u.not_before(), u.nonce(), u.facts());
    let _ = (u.lifetime_begins_before(u), u.lifetime_ends_after(u), u.lifetime_encompasses(u));
    let text = u.encode().ok();
    for h in 0..jwt::HASHES.len() {
        let _ = u.to_cid(jwt::hash_code(h));
    }
    let _ = u.capabilities().iter().count();
    for c in u.capabilities().iter() {
        poke_capability(&c);
    }
    // other forms
    let _ = format!("{u:?}").len();
    if let Ok(b) = u.to_dag_json() {
        let _ = Ucan::from_dag_json(&b);
    }
    if let Ok(b) = serde_ipld_dagcbor::to_vec(u) {
        let _ = serde_ipld_dagcbor::from_slice::<Ucan>(&b);
    }
    if let Ok(i) = UcanIpld::try_from(u) {
        poke_ipld(&i, None);
    }
    // as a proof of another
    let a = actor(0);
    for delegating in [false, true] {
        let b = UcanBuilder::default().issued_by(&a.km).for_audience(u.issuer()).with_lifetime(60);
        let b = if delegating { b.delegating_from(u, None) } else { b.witnessed_by(u, Some(Code::Sha2_256)) };
        if let Ok(s) = b.build() {
            let _ = block(s.sign()).map(|u| u.encode());
        }
    }
    let mut mem = MemoryStore::default();
    if let Some(t) = &text {
        if let Ok(cid) = block(mem.write_token(t)) {
            let _ = block(mem.read_token(&cid));
        }
    }
    for t in TIMES {
        if let Ok(c) = block(ProofChain::from_ucan(u.clone(), t, &mut p, store)) {
            good = true;
            poke_chain(&c);
        }
    }
    let _ = block(ProofChain::from_ucan(u.clone(), Some(1_000_000), &mut p, &mem));
    good
}

fn poke_ipld(i: &UcanIpld, store: Option<&TestStore>) {
    let _ = (i.iss.to_string(), i.aud.to_string(), format!("{i:?}").len(), i.s.decode());
    let _ = i.cap.iter().count();
    if let Ok(b) = serde_ipld_dagcbor::to_vec(i) {
        let _ = serde_ipld_dagcbor::from_slice::<UcanIpld>(&b);
    }
    if let Ok(b) = i.to_dag_json() {
        let _ = UcanIpld::from_dag_json(&b);
    }
    if let Ok(u) = Ucan::try_from(i) {
        if let Some(s) = store {
            poke(&u, s);
        }
    }
}

fn poke_capability(c: &Capability) {
    fn with<S: Scope, A: Ability>(c: &Capability, sem: &impl CapabilitySemantics<S, A>) {
        let v: Option<CapabilityView<S, A>> = sem.parse_capability(c);
        if let Some(v) = v {
            let _ = (v.resource().to_string(), v.ability().to_string(), v.caveat(), v.enables(&v));
            let _ = sem.parse(&v.resource().to_string(), &v.ability().to_string(), Some(v.caveat()));
        }
    }
    with(c, &SetSem);
    with(c, &FullSem);
    with(c, &AnySem);
    with(c, &ProofDelegationSemantics {});
    let _ = Caveat::try_from(&c.caveat).map(|k| k.enables(&k));
}

fn clean(what: &str, input: &dyn std::fmt::Debug, f: impl FnOnce()) -> Verdict {
    no_panic(f).map_err(|p| format!("{what}: {p}; input: {input:?}").chars().take(2000).collect())
}

// ---------------------------------------------------------------------------------------------
// Token text

/// JSON text meant to hurt
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hurt {
    Ok,
    Text(String),
    /// The value at this field (of the payload or header) replaced
    Field(u8, String),
    /// The same, of the type that belongs there
    Suited(u8, Value),
    Drop(u8),
    Twice(u8, String),
    Cut(u8),
    Byte(u8, u8),
    Deep(u16, u8),
    Bytes(Vec<u8>),
}

const FIELDS: [&str; 12] = ["ucv", "iss", "aud", "exp", "nbf", "nnc", "cap", "fct", "prf", "alg", "typ", "/"];

fn fragment() -> BoxedStrategy<String> {
    prop_oneof![
        4 => prop::sample::select(vec![
            "null", "true", "0", "-0", "-1", "1.5", "1e400", "-1e400", "1e-400", "18446744073709551615", "18446744073709551616", "-9223372036854775808", "-9223372036854775809",
            "99999999999999999999999999999999999999999999", "0.1e1", "\"\"", "\"\\ud800\"", "\"\\u0000\"", "[]", "{}", "[[]]", "[null]", "[\"\"]", "{\"\":{}}", "{\"/\":\"\"}", "{\"/\":{}}", "{\"/\":{\"bytes\":\"!\"}}",
            "{\"/\":{\"bytes\":\"AAAA\"}}", "{\"/\":\"bafkr4ib6r3tjrx2z2jwcgsmtrzaxkgljpxm5f5zyxyvvzrbzgwcgyxjkyq\"}", "{\"/\":null}", "{\"/\":{\"bytes\":null}}", "{\"/\":[\"a\"]}", "{\"a\":1,\"a\":2}",
            "{\"prf:18446744073709551616\":{\"ucan/DELEGATE\":[{}]}}", "{\"prf:99999999999999999999\":{\"ucan/DELEGATE\":[{}]}}", "{\"prf:-1\":{\"ucan/DELEGATE\":[{}]}}",
            "{\"prf:\":{\"ucan/DELEGATE\":[{}]}}", "{\"prf:*\":{\"ucan/DELEGATE\":[{}]}}", "{\"prf:0\":{\"ucan/DELEGATE\":[{}]}}", "{\"prf:18446744073709551615\":{\"ucan/DELEGATE\":[{}]}}",
            "{\"as:\":{\"a\":[{}]}}", "{\"as:did:key:\":{\"a\":[{}]}}", "{\"my:\":{\"a\":[{}]}}", "{\"my:*\":{\"a\":[{}]}}", "{\"as:did:key:z:*\":{\"a\":[{}]}}", "{\"as:x:set:a\":{\"lvl/1\":[{}]}}",
            "{\"://\":{\"\":[{}]}}", "{\"a:\":{\"\":[{\"\":null}]}}", "{\"a\":null}", "{\"a\":[]}", "{\"a\":{\"b\":null}}", "{\"a\":{\"b\":[null]}}", "{\"a\":{\"b\":[[]]}}", "{\"a\":{}}",
            "\"EdDSA\"", "\"RS256\"", "\"ES256\"", "\"did:key:z\"", "\"did:key:\"", "\"did:\"", "\"did:key:z6Mk\"", "\"did:key:z1\"", "\"did:key:z11\"", "\"did:key:z111111\"",
            "[\"bafy\"]", "[\"Qm\"]", "[\"\",\"\"]", "[\"z\"]", "[\"b\"]", "[\"f01\"]", "[\"f0155\"]",
        ]).prop_map(String::from),
        2 => json(true).prop_map(|v| v.to_string()),
        1 => did_text().prop_map(|d| Value::String(d).to_string()),
        1 => (0..N_ACTORS, 0usize..60, any::<u8>()).prop_map(|(i, at, b)| {
            // a DID with altered bytes
            let mut v = bs58::decode(&actor(i).did[9..]).into_vec().unwrap();
            let at = at % v.len();
            if b % 3 == 0 { v.truncate(at) } else { v[at] = b }
            json!(format!("did:key:z{}", bs58::encode(v).into_string())).to_string()
        }),
        1 => "[ -~]{0,12}",
    ]
    .boxed()
}

fn suited() -> BoxedStrategy<Hurt> {
    let of = |i: u8, s: BoxedStrategy<Value>| s.prop_map(move |v| Hurt::Suited(i, v)).boxed();
    prop_oneof![
        of(0, text().prop_map(Value::String).boxed()),
        of(1, prop_oneof![did_text(), text(), any::<u8>().prop_map(|i| actor(i as usize).did.clone())].prop_map(Value::String).boxed()),
        of(2, prop_oneof![did_text(), text()].prop_map(Value::String).boxed()),
        of(3, prop::option::of(crate::gens::bound()).prop_map(|x| json!(x)).boxed()),
        of(4, prop::option::of(crate::gens::bound()).prop_map(|x| json!(x)).boxed()),
        of(5, prop::option::of(text()).prop_map(|x| json!(x)).boxed()),
        of(6, prop::collection::btree_map(evil_resource(), prop::collection::btree_map(evil_ability(), prop::collection::vec(object(true), 0..3), 0..3), 0..4).prop_map(|m| json!(m)).boxed()),
        of(7, object(true)),
        of(8, prop::collection::vec(prop_oneof![cid_like(), text(), "[a-zA-Z0-9]{1,60}"], 0..4).prop_map(|l| json!(l)).boxed()),
    ]
    .boxed()
}

fn hurt(ok: u32) -> BoxedStrategy<Hurt> {
    prop_oneof![
        ok => Just(Hurt::Ok),
        12 => suited(),
        8 => (any::<u8>(), fragment()).prop_map(|(i, f)| Hurt::Field(i, f)),
        1 => any::<u8>().prop_map(Hurt::Drop),
        1 => (any::<u8>(), fragment()).prop_map(|(i, f)| Hurt::Twice(i, f)),
        1 => fragment().prop_map(Hurt::Text),
        1 => any::<u8>().prop_map(Hurt::Cut),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(i, b)| Hurt::Byte(i, b)),
        1 => (0u16..400, 0u8..4).prop_map(|(n, k)| Hurt::Deep(n, k)),
        1 => prop::collection::vec(any::<u8>(), 0..20).prop_map(Hurt::Bytes),
    ]
    .boxed()
}

fn deep(n: usize, kind: u8) -> String {
    match kind % 4 {
        0 => "[".repeat(n) + &"]".repeat(n),
        1 => "{\"a\":".repeat(n) + "1" + &"}".repeat(n),
        2 => "[".repeat(n),
        _ => "{\"/\":".repeat(n) + "1" + &"}".repeat(n),
    }
}

impl Hurt {
    fn apply(&self, v: &Value) -> Vec<u8> {
        let text = v.to_string();
        let obj = |drop: &str, add: &[(String, String)]| {
            let mut parts: Vec<String> = v.as_object().unwrap().iter().filter(|(k, _)| *k != drop).map(|(k, v)| format!("{}:{v}", json!(k))).collect();
            parts.extend(add.iter().map(|(k, v)| format!("{}:{v}", json!(k))));
            format!("{{{}}}", parts.join(","))
        };
        let field = |i: &u8| FIELDS[*i as usize % FIELDS.len()];
        match self {
            Hurt::Ok => text.into_bytes(),
            Hurt::Text(t) => t.clone().into_bytes(),
            Hurt::Field(i, f) => obj(field(i), &[(field(i).into(), f.clone())]).into_bytes(),
            Hurt::Suited(i, v) => obj(field(i), &[(field(i).into(), v.to_string())]).into_bytes(),
            Hurt::Drop(i) => obj(field(i), &[]).into_bytes(),
            Hurt::Twice(i, f) => obj("", &[(field(i).into(), f.clone())]).into_bytes(),
            Hurt::Cut(i) => text.as_bytes()[..*i as usize % (text.len() + 1)].to_vec(),
            Hurt::Byte(i, b) => {
                let mut t = text.into_bytes();
                let i = *i as usize % t.len();
                t[i] = *b;
                t
            }
            Hurt::Deep(n, k) => obj("fct", &[("fct".into(), format!("{{\"x\":{}}}", deep(*n as usize, *k)))]).into_bytes(),
            Hurt::Bytes(b) => b.clone(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TokenText {
    Any(String),
    /// Random characters of the token alphabet
    Alphabet(String),
    /// Header, payload, signature (None: a right one)
    Parts { iss: u8, header: Hurt, payload: Hurt, sig: Option<Vec<u8>>, sloppy: u8 },
    /// A valid token's text with edits (position, what)
    Edited(u8, Vec<(u16, u8)>),
}

fn token_text() -> BoxedStrategy<TokenText> {
    prop_oneof![
        1 => text().prop_map(TokenText::Any),
        1 => any::<String>().prop_map(TokenText::Any),
        dict::w_num(1) => (prop_oneof![2 => Just(String::new()), 1 => "[A-Za-z0-9_-]{0,9}[.]"], long_text(20_000)).prop_map(|(a, b)| TokenText::Any(a + &b)),
        1 => (prop_oneof![2 => Just(String::new()), 1 => "[A-Za-z0-9_-]{0,9}[.]"], "[a-zé]?", "[A-Z]|[é日😀]", 0u32..14).prop_map(|(a, p, c, n)| TokenText::Any(a + &p + &c.repeat(1 << n))),
        1 => "[A-Za-z0-9_.=-]{0,60}".prop_map(TokenText::Alphabet),
        8 => (any::<u8>(), hurt(150), hurt(4), prop::option::weighted(0.2, prop::collection::vec(any::<u8>(), 0..80)), 0u8..100)
            .prop_map(|(iss, header, payload, sig, sloppy)| TokenText::Parts { iss, header, payload, sig, sloppy }),
        3 => (any::<u8>(), prop::collection::vec((any::<u16>(), any::<u8>()), 1..4)).prop_map(|(i, e)| TokenText::Edited(i, e)),
    ]
    .boxed()
}

fn plain_payload(a: &Actor) -> Value {
    json!({"ucv": "0.10.0-canary", "iss": a.did, "aud": actor(1).did, "exp": null, "nbf": 0, "nnc": "n", "cap": {"set:ab": {"lvl/1": [{}]}}, "fct": {"a": [1, null]}, "prf": []})
}

impl TokenText {
    fn text(&self) -> String {
        match self {
            TokenText::Any(s) | TokenText::Alphabet(s) => s.clone(),
            TokenText::Parts { iss, header, payload, sig, sloppy } => {
                let a = actor(*iss as usize);
                let h = header.apply(&jwt::header_json(a));
                let p = payload.apply(&plain_payload(a));
                let data = format!("{}.{}", jwt::b64(&h), jwt::b64(&p));
                let sig = sig.clone().unwrap_or_else(|| a.raw.sign(data.as_bytes()));
                let s = jwt::b64(&sig);
                match sloppy {
                    0 => format!("{data}={s}"),
                    1 => format!("{data}"),
                    2 => format!("{data}."),
                    3 => format!("{data}.{s}.{s}"),
                    4 => format!(".{data}.{s}"),
                    5 => format!("{data}.{s}=="),
                    6 => format!("\u{feff}{data}.{s}"),
                    7 => format!("{data}.{s}\n"),
                    8 => format!("{}..{s}", data.replace('.', "")),
                    _ => format!("{data}.{s}"),
                }
            }
            TokenText::Edited(i, edits) => {
                let a = actor(*i as usize);
                let mut t: Vec<char> = jwt::token(a, &plain_payload(a)).chars().collect();
                for (at, e) in edits {
                    if t.is_empty() {
                        break;
                    }
                    let at = *at as usize % t.len();
                    match e % 8 {
                        0 => t.truncate(at),
                        1 => {
                            t.remove(at);
                        }
                        2 => t.insert(at, '.'),
                        3 => t[at] = ['é', '\0', '😀', '=', '+', '/'][at % 6],
                        4 => t.insert(at, (e % 128) as char),
                        5 => t.swap(at, 0),
                        _ => t[at] = b"ABCDEFGHabcdefgh0123_-"[*e as usize % 22] as char,
                    }
                }
                t.into_iter().collect()
            }
        }
    }
}

fn check_token(c: &TokenText, o: &mut Obs) -> Verdict {
    let text = c.text();
    let mut decoded = false;
    let mut good = false;
    clean("token text", &text, || {
        let store = TestStore::default();
        let mut p = parser();
        let _ = block(ProofChain::try_from_token_string(&text, Some(1_000_000), &mut p, &store));
        let _ = Ucan::from_str(&text);
        if let Ok(u) = Ucan::try_from(text.clone()) {
            decoded = true;
            good = poke(&u, &store);
        }
        for part in text.split('.').take(4) {
            if let Some(b) = jwt::unb64(part) {
                let _ = UcanHeader::from_dag_json(&b).map(|h| h.to_dag_json());
                let _ = UcanPayload::from_dag_json(&b).map(|h| h.to_dag_json());
                let _ = Ucan::from_dag_json(&b).map(|u| poke(&u, &store));
                let _ = UcanIpld::from_dag_json(&b).map(|i| poke_ipld(&i, Some(&store)));
                let _ = Capabilities::from_dag_json(&b);
            }
        }
        // stored under its hash
        let mut store = TestStore::default();
        let cid = store.put(&text, Code::Blake3_256);
        let _ = block(ProofChain::from_cid(&cid, None, &mut p, &store));
        let mut mem = MemoryStore::default();
        let _ = block(mem.write_token(&text)).map(|cid| block(mem.require_token(&cid)));
    })?;
    o.label_if(decoded, "decodes");
    o.label_if(good, "valid");
    if decoded {
        o.hit();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Hostile but validly signed

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Evil {
    iss: u8,
    payload: Vec<(u8, String)>,
    caps: Vec<(String, String, String)>,
    cites: Vec<u8>,
    odd_cite: Option<String>,
    hash: u8,
    /// Addressed to this rather than the next issuer
    #[serde(default)]
    aud: Option<String>,
    #[serde(default)]
    bounds: (Option<u64>, Option<u64>),
}

fn evil_resource() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec![
            "prf:0", "prf:1", "prf:2", "prf:*", "prf:", "prf:-1", "prf:18446744073709551615", "prf:18446744073709551616", "prf:00", "prf:+1", "prf:0?x", "prf:0#x", "prf://0", "prf:/0", "my:prf:0", "prf:1.0", "prf: 0",
            "as:did:key:z6Mk:prf:0", "as:did:key:z:prf:*", "my:prf:*", "my:*", "my:", "my", "my::", "my:my:set:a", "as:", "as::", "as:did", "as:did:", "as:did:key", "as:did:key:", "as:did:key::", "as:did:key:z", "as:did:key:z:", "as:did:key:z:*",
            "as:did:key:z:set:a", "as:did:key:z:set:*", "set:*", "set:", "set:abcde", "set:ab", "set:ba", "full:*", "full:", "full://", "full://[::1]", "full://[::", "full:%zz", "full:é", "*", "**", ":", "://", "", " ", "\0",
            "data:,", "http://", "http://a:99999", "http://xn--", "file:///", "file://c|/", "javascript:0", "a:b:c:d:e:f", "mailto:a@b", "set:a?*", "set:a#*", "blob:blob:blob:x", "http://%00/", "http://[1::1::1]/", "http://999.999.999.999/",
        ]).prop_map(String::from),
        1 => resource_text(),
        1 => any::<String>(),
        1 => "(my|as|did|key|prf|set|full|z6Mk|[:*/?#%\\[\\]@. é0-9-]){1,8}",
    ]
    .boxed()
}

fn evil_ability() -> BoxedStrategy<String> {
    prop_oneof![4 => Just("ucan/DELEGATE".to_string()), 2 => (0u8..4).prop_map(|i| format!("lvl/{i}")), 1 => ability_text()].boxed()
}

fn evil() -> BoxedStrategy<Evil> {
    (
        prop_oneof![8 => 0u8..4, 1 => 0u8..N_ACTORS as u8],
        prop_oneof![3 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), fragment()), 1..3)],
        prop::collection::vec((evil_resource(), evil_ability(), prop_oneof![3 => Just("{}".to_string()), 1 => object(true).prop_map(|v| v.to_string())]), 0..4),
        prop::collection::vec(any::<u8>(), 0..4),
        prop::option::weighted(0.15, prop_oneof![cid_like(), text(), "[a-zA-Z0-9]{1,60}"]),
        0u8..jwt::HASHES.len() as u8,
        prop::option::weighted(0.2, prop_oneof![text(), did_text(), "[did:key]{0,9}", (0..N_ACTORS, 0usize..60).prop_map(|(i, n)| actor(i).did.chars().take(n).collect::<String>())]),
        prop_oneof![4 => Just((None, None)), 1 => (prop::option::of(bound()), prop::option::of(bound()))],
    )
        .prop_map(|(iss, payload, caps, cites, odd_cite, hash, aud, bounds)| Evil { iss, payload, caps, cites, odd_cite, hash, aud, bounds })
        .boxed()
}

fn evils() -> BoxedStrategy<Vec<Evil>> {
    prop::collection::vec(evil(), 1..6).boxed()
}

fn check_evil(c: &Vec<Evil>, o: &mut Obs) -> Verdict {
    let mut store = TestStore::default();
    let mut made: Vec<(String, String)> = vec![];
    let mut good = 0;
    for (i, e) in c.iter().enumerate() {
        let a = actor(e.iss as usize);
        let mut cap: Map<String, Value> = Map::new();
        for (r, ab, k) in &e.caps {
            let entry = cap.entry(r.clone()).or_insert_with(|| json!({}));
            let list = entry.as_object_mut().unwrap().entry(ab.clone()).or_insert_with(|| json!([]));
            list.as_array_mut().unwrap().push(serde_json::from_str(k).unwrap_or(json!({})));
        }
        // addressed to the issuer of the next
        let next = || c.get(i + 1).map(|n| actor(n.iss as usize).did.clone()).unwrap_or_else(|| actor(9).did.clone());
        let aud = e.aud.clone().unwrap_or_else(next);
        let mut prf: Vec<String> = vec![];
        if let Some((_, last)) = made.last() {
            for k in &e.cites {
                // mostly the previous one
                prf.push(if k % 4 < 3 { last.clone() } else { made[*k as usize % made.len()].1.clone() });
            }
        }
        prf.extend(e.odd_cite.clone());
        let v = json!({"ucv": "0.10.0-canary", "iss": a.did, "aud": aud, "nbf": e.bounds.0, "exp": e.bounds.1, "cap": cap, "prf": prf, "nnc": format!("{i}")});
        let mut bytes = v.to_string().into_bytes();
        for (f, t) in &e.payload {
            let Ok(v) = serde_json::from_slice::<Value>(&bytes) else { break };
            if !v.is_object() {
                break;
            }
            bytes = Hurt::Field(*f, t.clone()).apply(&v);
        }
        let data = format!("{}.{}", jwt::b64(jwt::header_json(a).to_string().as_bytes()), jwt::b64(&bytes));
        let text = format!("{data}.{}", jwt::b64(&a.raw.sign(data.as_bytes())));
        store.put(&text, jwt::hash_code(e.hash as usize));
        let cid = jwt::cid_text(e.hash as usize, text.as_bytes());
        let mut ok = false;
        clean("signed token", &text, || {
            if let Ok(u) = Ucan::try_from(text.as_str()) {
                ok = poke(&u, &store);
            }
            if let Ok(cid) = Cid::try_from(cid.as_str()) {
                let _ = block(ProofChain::from_cid(&cid, Some(1_000_000), &mut parser(), &store)).map(|c| poke_chain(&c));
            }
        })
        .map_err(|m| format!("{m}; payload {}", String::from_utf8_lossy(&bytes)))?;
        if ok {
            good += 1;
        }
        made.push((text, cid));
    }
    o.label(format!("{good} of {} valid", c.len()));
    if good > 0 {
        o.hit();
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Small texts

fn check_texts(c: &String, o: &mut Obs) -> Verdict {
    let mut some = false;
    clean("text", c, || {
        let mut p = parser();
        let mut none = ucan::crypto::did::DidParser::new(&[]);
        for t in [c.clone(), format!("did:{c}"), format!("did:key:{c}"), format!("did:key:z{c}")] {
            for q in [&mut p, &mut none] {
                if let Ok(k) = q.parse(&t) {
                    some = true;
                    let _ = block(k.verify(b"x", t.as_bytes()));
                    let _ = block(k.verify(b"x", &[0; 64]));
                    let _ = block(k.get_did());
                    let _ = block(k.sign(b"x"));
                }
            }
            if let Ok(x) = Principle::from_str(&t) {
                some |= t == *c;
                let _ = (x.to_string(), format!("{x:?}"), x.to_dag_json());
            }
        }
        if let Ok(a) = JwtSignatureAlgorithm::from_str(c) {
            let _ = (a.to_string(), VarsigPrefix::try_from(a));
        }
        if let Ok(v) = VarsigPrefix::from_str(c) {
            let _ = JwtSignatureAlgorithm::try_from(v).map(|a| a.to_string());
            let _ = VarsigPrefix::from_str(c).map(u64::from);
        }
        for r in [c.clone(), format!("my:{c}"), format!("as:{c}"), format!("as:did:key:{c}"), format!("as:did:key:z6Mk:{c}"), format!("prf:{c}"), format!("set:{c}"), format!("full:{c}"), format!("full://{c}")] {
            for a in ["ucan/DELEGATE", "lvl/1", "do/x", c.as_str()] {
                poke_capability(&Capability::new(r.clone(), a.to_string(), json!({})));
                some |= r == *c && a != "ucan/DELEGATE" && SetSem.parse(&r, a, None).is_some();
                some |= r == *c && ProofDelegationSemantics {}.parse(&r, a, None).is_some();
            }
            let _ = AnySem.extract_did(&r);
            let _ = AnySem.parse_resource(&Url::parse("a:b").unwrap()).is_some();
        }
        let _ = Capabilities::from_dag_json(c.as_bytes());
        let _ = serde_json::from_str::<Capabilities>(c);
        if let Ok(v) = serde_json::from_str::<Value>(c) {
            let _ = Capabilities::try_from(&v);
            let _ = Caveat::try_from(&v);
            let _ = Capabilities::try_from(vec![Capability::new(c.clone(), c.clone(), v)]);
        }
        let a = actor(0);
        let b = UcanBuilder::default()
            .issued_by(&a.km)
            .for_audience(c)
            .with_fact(c, c.clone())
            .claiming_capability(Capability::new(c.clone(), c.clone(), json!({ c.as_str(): c })));
        if let Ok(s) = b.build() {
            let _ = block(s.sign()).map(|u| poke(&u, &TestStore::default()));
        }
    })?;
    if some {
        o.hit();
        o.label("understood as something");
    }
    Ok(())
}

fn small_text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => text(),
        2 => evil_resource(),
        1 => did_text(),
        1 => did_text().prop_map(|d| d.trim_start_matches("did:key:").to_string()),
        2 => sized(any::<u8>(), 0..40, 2000).prop_map(|b| format!("z{}", bs58::encode(b).into_string())),
        3 => (0..N_ACTORS, prop::collection::vec((any::<u16>(), any::<u8>()), 0..3), any::<u8>()).prop_map(|(i, edits, cut)| {
            let mut v = bs58::decode(&actor(i).did[9..]).into_vec().unwrap();
            for (at, b) in edits {
                let at = at as usize % v.len();
                v[at] = b;
            }
            if cut < 80 {
                v.truncate(cut as usize % (v.len() + 1));
            }
            format!("z{}", bs58::encode(v).into_string())
        }),
        1 => fragment(),
        1 => prop::sample::select(vec!["EdDSA", "RS256", "ES256", "ES384", "ES512", "none", "HS256", "eddsa", "ES256K", "EdDSA\0"]).prop_map(String::from),
        1 => prop::collection::vec(any::<u8>(), 0..3).prop_map(|b| format!("z{}", bs58::encode(b).into_string())),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------------------------
// Bytes

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bin {
    Any(Vec<u8>),
    /// The binary form of a token with edited bytes
    Edited(Spec, Vec<(u16, u8, u8)>),
    /// The binary form of a token with this field's value replaced
    Field(Spec, u8, Junk),
    /// The same, by a value of the type that belongs there
    Suited(Spec, Vec<(String, Junk)>),
    Varsig(Vec<u8>, u64, u64, Vec<u8>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Junk {
    Null,
    Bool(bool),
    Int(i128),
    Float(f64),
    Text(String),
    Bytes(Vec<u8>),
    /// A list of these numbers
    Ints(Vec<u8>),
    List(Vec<Junk>),
    Map(Vec<(String, Junk)>),
    Link(Vec<u8>),
    /// This many nested lists or maps
    Deep(u16, bool),
}

impl Junk {
    fn ipld(&self) -> Ipld {
        match self {
            Junk::Null => Ipld::Null,
            Junk::Bool(b) => Ipld::Bool(*b),
            Junk::Int(i) => Ipld::Integer(*i),
            Junk::Float(f) => Ipld::Float(*f),
            Junk::Text(s) => Ipld::String(s.clone()),
            Junk::Bytes(b) => Ipld::Bytes(b.clone()),
            Junk::Ints(b) => Ipld::List(b.iter().map(|x| Ipld::Integer((*x).into())).collect()),
            Junk::List(l) => Ipld::List(l.iter().map(Junk::ipld).collect()),
            Junk::Map(m) => Ipld::Map(m.iter().map(|(k, v)| (k.clone(), v.ipld())).collect()),
            Junk::Link(b) => Ipld::Link(Cid::new_v1(0x55, Code::Sha2_256.digest(b))),
            Junk::Deep(n, list) => (0..*n).fold(Ipld::Null, |x, _| if *list { Ipld::List(vec![x]) } else { Ipld::Map([("a".to_string(), x)].into()) }),
        }
    }
}

fn junk() -> BoxedStrategy<Junk> {
    let leaf = prop_oneof![
        Just(Junk::Null),
        any::<bool>().prop_map(Junk::Bool),
        prop_oneof![any::<i64>().prop_map(i128::from), any::<u64>().prop_map(i128::from), Just(-(1i128 << 64))].prop_map(Junk::Int),
        prop::num::f64::NORMAL.prop_map(Junk::Float),
        text().prop_map(Junk::Text),
        prop::collection::vec(any::<u8>(), 0..40).prop_map(Junk::Bytes),
        prop::collection::vec(any::<u8>(), 0..4).prop_map(Junk::Link),
        (0u16..300, any::<bool>()).prop_map(|(n, l)| Junk::Deep(n, l)),
        (0..N_ACTORS, any::<u8>(), any::<u8>()).prop_map(|(i, at, x)| {
            let mut v = actor(i).raw.magic().to_vec();
            v.extend(actor(i).raw.public_bytes());
            let at = at as usize % v.len();
            if x & 1 == 0 { v[at] ^= x } else { v.truncate(at) }
            Junk::Bytes(v)
        }),
    ];
    leaf.prop_recursive(3, 12, 4, |inner| {
        prop_oneof![
            prop::collection::vec(inner.clone(), 0..4).prop_map(Junk::List),
            prop::collection::vec((text(), inner), 0..4).prop_map(Junk::Map),
        ]
    })
    .boxed()
}

fn from_json(v: &Value) -> Junk {
    match v {
        Value::Null => Junk::Null,
        Value::Bool(b) => Junk::Bool(*b),
        Value::Number(n) => n.as_i64().map(|i| Junk::Int(i.into())).or(n.as_u64().map(|i| Junk::Int(i.into()))).unwrap_or_else(|| Junk::Float(n.as_f64().unwrap_or(0.5))),
        Value::String(s) => Junk::Text(s.clone()),
        Value::Array(a) => Junk::List(a.iter().map(from_json).collect()),
        Value::Object(o) => Junk::Map(o.iter().map(|(k, v)| (k.clone(), from_json(v))).collect()),
    }
}

fn suited_junk() -> BoxedStrategy<(String, Junk)> {
    let bytes = || {
        prop_oneof![
            prop::collection::vec(any::<u8>(), 0..40),
            text().prop_map(|t| [&[0x9d, 0x1a], t.as_bytes()].concat()),
            prop::collection::vec(any::<u8>(), 0..6).prop_map(|t| [&[0x9d, 0x1a], t.as_slice()].concat()),
            (0..N_ACTORS, any::<u16>(), any::<u8>()).prop_map(|(i, at, x)| {
                let mut v = actor(i).raw.magic().to_vec();
                v.extend(actor(i).raw.public_bytes());
                let at = at as usize % v.len();
                if x & 1 == 0 { v[at] ^= x } else { v.truncate(at) }
                v
            }),
        ]
    };
    let varsig = (
        prop::sample::select(vec![0xd0edu64, 0xd01205, 0xd01200, 0xd01201, 0xd01202, 0xd000, 0]),
        0u64..70,
        prop::collection::vec(any::<u8>(), 0..70),
        any::<u8>(),
    )
        .prop_map(|(code, len, sig, honest)| [jwt::uvarint(code), jwt::uvarint(if honest < 128 { sig.len() as u64 } else { len }), sig].concat());
    prop_oneof![
        2 => bytes().prop_map(|b| ("iss".into(), Junk::Ints(b))),
        1 => bytes().prop_map(|b| ("aud".into(), Junk::Ints(b))),
        3 => varsig.prop_map(|b| ("s".into(), Junk::Ints(b))),
        1 => text().prop_map(|t| ("v".into(), Junk::Text(t))),
        1 => text().prop_map(|t| ("nnc".into(), Junk::Text(t))),
        1 => bound().prop_map(|x| ("exp".into(), Junk::Int(x.into()))),
        1 => bound().prop_map(|x| ("nbf".into(), Junk::Int(x.into()))),
        2 => prop::collection::btree_map(evil_resource(), prop::collection::btree_map(evil_ability(), prop::collection::vec(object(true), 0..3), 0..3), 0..4)
            .prop_map(|m| ("cap".into(), from_json(&json!(m)))),
        1 => object(true).prop_map(|v| ("fct".into(), from_json(&v))),
        1 => prop::collection::vec(prop::collection::vec(any::<u8>(), 0..3), 0..4).prop_map(|l| ("prf".into(), Junk::List(l.into_iter().map(Junk::Link).collect()))),
    ]
    .boxed()
}

fn bins() -> BoxedStrategy<Bin> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..60).prop_map(Bin::Any),
        2 => prop::collection::vec(prop::sample::select(vec![0u8, 0x7f, 0x80, 0xff, 0xed, 0x01, 0xd0, 0x85, 0x24, 0x34, 0x41, 0x5f, 0x9f, 0xa1, 0xbf, 0xd8, 0x2a]), 0..30).prop_map(Bin::Any),
        4 => (spec_ipld(any_actor()), prop::collection::vec((any::<u16>(), any::<u8>(), 0u8..4), 1..4)).prop_map(|(s, e)| Bin::Edited(s, e)),
        2 => (spec_ipld(any_actor()), any::<u8>(), junk()).prop_map(|(s, f, j)| Bin::Field(s, f, j)),
        5 => (spec_ipld(any_actor()), prop::collection::vec(suited_junk(), 1..3)).prop_map(|(s, f)| Bin::Suited(s, f)),
        2 => (
            prop_oneof![6 => Just(vec![]), 1 => Just(vec![0x34]), 1 => prop::collection::vec(any::<u8>(), 0..3)],
            prop_oneof![
                prop::sample::select(vec![0xd0edu64, 0xd01205, 0xd01200, 0xd01201, 0xd01202, 0xd000, 0xd0e7, 0xd191, 0, u64::MAX]),
                any::<u64>()
            ],
            prop_oneof![0u64..70, any::<u64>(), Just(u64::MAX), Just(1 << 63), Just(1 << 32)],
            prop::collection::vec(any::<u8>(), 0..70),
        ).prop_map(|(a, b, c, d)| Bin::Varsig(a, b, c, d)),
    ]
    .boxed()
}

fn check_bytes(c: &Bin, o: &mut Obs) -> Verdict {
    let cbor_of = |s: &Spec| {
        let u = block(s.signable().sign()).ok()?;
        let i = UcanIpld::try_from(&u).ok()?;
        serde_ipld_dagcbor::to_vec(&i).ok()
    };
    let mut some = false;
    let bytes = match c {
        Bin::Any(b) => b.clone(),
        Bin::Edited(s, edits) => {
            let Some(mut b) = cbor_of(s) else { return Ok(()) };
            for (at, x, how) in edits {
                if b.is_empty() {
                    break;
                }
                let at = *at as usize % b.len();
                match how {
                    0 => b[at] = *x,
                    1 => b[at] = b[at].wrapping_add(1),
                    2 => {
                        b.remove(at);
                    }
                    _ => b.insert(at, *x),
                }
            }
            b
        }
        Bin::Field(s, ..) | Bin::Suited(s, _) => {
            let Some(b) = cbor_of(s) else { return Ok(()) };
            let mut tree: Ipld = serde_ipld_dagcbor::from_slice(&b).map_err(|e| format!("{e:?}"))?;
            let Ipld::Map(m) = &mut tree else { return Err("the binary form is no map".into()) };
            let keys: Vec<String> = m.keys().cloned().collect();
            match c {
                Bin::Field(_, f, j) => {
                    m.insert(keys[*f as usize % keys.len()].clone(), j.ipld());
                }
                Bin::Suited(_, l) => m.extend(l.iter().map(|(k, j)| (k.clone(), j.ipld()))),
                _ => {}
            }
            o.label("a field replaced");
            let direct = tree.clone();
            clean("IPLD tree", c, || {
                if let Ok(i) = libipld_core::serde::from_ipld::<UcanIpld>(direct) {
                    some = true;
                    poke_ipld(&i, Some(&TestStore::default()));
                }
            })?;
            match serde_ipld_dagcbor::to_vec(&tree) {
                Ok(b) => b,
                Err(_) => return Ok(()),
            }
        }
        Bin::Varsig(tag, code, len, sig) => {
            let mut b = tag.clone();
            b.extend(jwt::uvarint(*code));
            b.extend(jwt::uvarint(*len));
            b.extend(sig);
            b
        }
    };
    clean("bytes", c, || {
        let s = Signature(bytes.clone());
        some |= s.decode().is_ok();
        let _ = format!("{s:?}");
        // (base58 takes quadratic time, a known finding)
        if let Ok(p) = Principle::try_from(bytes[..bytes.len().min(BASE58)].to_vec()) {
            let _ = (p.to_string(), format!("{p:?}"));
        }
        let _ = serde_ipld_dagcbor::from_slice::<Principle>(&bytes).map(|p| p.to_string());
        let _ = serde_ipld_dagcbor::from_slice::<Signature>(&bytes).map(|s| s.decode());
        let _ = serde_ipld_dagcbor::from_slice::<Capabilities>(&bytes);
        let _ = serde_ipld_dagcbor::from_slice::<UcanPayload>(&bytes);
        let _ = serde_ipld_dagcbor::from_slice::<Ucan>(&bytes).map(|u| poke(&u, &TestStore::default()));
        if let Ok(i) = serde_ipld_dagcbor::from_slice::<UcanIpld>(&bytes) {
            some = true;
            poke_ipld(&i, Some(&TestStore::default()));
        }
        for ctor in ALL_KEYS.iter().map(|(_, f)| f) {
            let _ = ctor(bytes.clone()).map(|k| block(k.verify(b"x", &bytes)).is_ok());
        }
        let a = actor(bytes.len());
        let _ = block(a.km.verify(b"x", &bytes));
        let mut store = TestStore::default();
        let cid = Cid::new_v1(0x55, Code::Blake3_256.digest(&bytes));
        store.blocks.insert(cid, bytes.clone());
        let _ = block(ProofChain::from_cid(&cid, None, &mut parser(), &store));
        let mut mem = MemoryStore::default();
        if let Ok(cid) = block(mem.write(Raw8(bytes.clone()))) {
            let _ = block(mem.require_token(&cid));
            let _ = block(ProofChain::from_cid(&cid, None, &mut parser(), &mem));
        }
        if let Ok(cid) = Cid::try_from(bytes.as_slice()) {
            let _ = block(mem.read_token(&cid));
            let _ = block(mem.require_token(&cid));
        }
    })?;
    if some {
        o.hit();
        o.label("understood");
    }
    Ok(())
}

#[derive(Debug, Clone)]
struct Raw8(Vec<u8>);
impl libipld_core::codec::Encode<libipld_core::raw::RawCodec> for Raw8 {
    fn encode<W: std::io::Write>(&self, _: libipld_core::raw::RawCodec, w: &mut W) -> anyhow::Result<()> {
        w.write_all(&self.0)?;
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Work: what a chain of n tokens costs

thread_local! {
    static VERIFIED: Cell<u64> = const { Cell::new(0) };
}

struct Lenient(Vec<u8>);

#[async_trait::async_trait]
impl ucan::crypto::KeyMaterial for Lenient {
    fn get_jwt_algorithm_name(&self) -> String {
        "EdDSA".into()
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        Ok(format!("did:key:z{}", bs58::encode(&self.0).into_string()))
    }
    async fn sign(&self, _: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok(vec![1])
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> anyhow::Result<()> {
        VERIFIED.with(|v| v.set(v.get() + 1));
        Ok(())
    }
}

/// A parser whose keys accept everything and count
fn lenient() -> ucan::crypto::did::DidParser {
    ucan::crypto::did::DidParser::new(&[(ED_MAGIC, |b| Ok(Box::new(Lenient(b))))])
}

/// A token which the lenient keys accept
fn unsigned(payload: &Value) -> String {
    format!("{}.{}.AQ", jwt::b64(br#"{"alg":"EdDSA","typ":"JWT"}"#), jwt::b64(payload.to_string().as_bytes()))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Work {
    /// For each token after the first, which earlier one cites it (0: the latest)
    parents: Vec<u8>,
    caps: u8,
    redelegate: Vec<u8>,
    hash: u8,
}

fn work() -> BoxedStrategy<Work> {
    (
        prop_oneof![
            2 => (1usize..60).prop_map(|n| vec![0; n]),
            2 => prop::collection::vec(prop_oneof![3 => Just(0u8), 1 => any::<u8>()], 1..40),
            1 => prop::collection::vec(any::<u8>(), 1..40),
        ],
        0u8..12,
        prop::collection::vec(0u8..4, 1..10),
        0u8..2,
    )
        .prop_map(|(parents, caps, redelegate, hash)| Work { parents, caps, redelegate, hash })
        .boxed()
}

fn check_work(c: &Work, o: &mut Obs) -> Verdict {
    let n = c.parents.len() + 1;
    let mut cites = vec![vec![]; n];
    for (i, p) in c.parents.iter().enumerate() {
        let i = i + 1;
        cites[i - 1 - *p as usize % i].push(i);
    }
    let mut store = TestStore::default();
    let mut ids: Vec<String> = vec![String::new(); n];
    let mut root = String::new();
    let did = &actor(0).did;
    for i in (0..n).rev() {
        let mut cap = Map::new();
        for k in 0..c.caps {
            cap.insert(format!("any:{k}"), json!({"x/y": [{}]}));
        }
        let p: Vec<&String> = cites[i].iter().map(|k| &ids[*k]).collect();
        match c.redelegate[i % c.redelegate.len()] {
            0 if !p.is_empty() => {
                cap.insert("prf:0".into(), json!({"ucan/DELEGATE": [{}]}));
            }
            1 => {
                cap.insert("prf:*".into(), json!({"ucan/DELEGATE": [{}]}));
            }
            _ => {}
        }
        root = unsigned(&json!({"ucv": "0.10.0-canary", "iss": did, "aud": did, "exp": null, "nnc": i.to_string(), "cap": cap, "prf": p}));
        store.put(&root, jwt::hash_code(c.hash as usize));
        ids[i] = jwt::cid_text(c.hash as usize, root.as_bytes());
    }
    let n = n as u64;
    VERIFIED.with(|v| v.set(0));
    CONTAINS.with(|v| v.set(0));
    let chain = block(ProofChain::try_from_token_string(&root, Some(0), &mut lenient(), &store)).map_err(|e| format!("refused: {e:?}"))?;
    let reads = store.reads.load(std::sync::atomic::Ordering::Relaxed);
    let verified = VERIFIED.with(Cell::get);
    ensure!(verified <= 4 * n, "{verified} signature checks for {n} tokens");
    ensure!(reads <= 4 * n, "{reads} reads for {n} tokens");
    let infos = chain.reduce_capabilities(&AnySem).len() as u64;
    let calls = CONTAINS.with(Cell::get);
    // every capability against every one below and beside it
    let k = c.caps as u64 + 2;
    let bound = 100 + 40 * n * n * k * k;
    ensure!(calls <= bound, "{calls} comparisons for {n} tokens of {} capabilities", c.caps);
    o.label_if(n > 30, "more than 30 tokens");
    o.label_if(infos > 0, "something granted");
    if n > 4 {
        o.hit();
    }
    Ok(())
}

/// Every token cites the next one twice: 2^depth paths
/// More than this is not read or written as base58 (see the finding base58-quadratic)
const BASE58: usize = 8_000;

fn thread_cpu() -> f64 {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    t.tv_sec as f64 + t.tv_nsec as f64 / 1e9
}

/// The time that it takes to refuse a DID of no known kind, for one of n and one of 4n characters
fn probe_base58() -> Option<String> {
    let time = |n: usize| {
        let did = format!("did:key:z{}", "5".repeat(n));
        (0..3)
            .map(|_| {
                let t = thread_cpu();
                let _ = lenient().parse(&did).is_ok();
                thread_cpu() - t
            })
            .fold(f64::MAX, f64::min)
    };
    let (short, long) = (time(8_000), time(32_000));
    (long > 0.05 && long > 8.0 * short).then(|| format!("{short:.3} s for a DID of 8,000 characters, {long:.3} s for one of 32,000"))
}

fn probe_diamond() -> Option<String> {
    const DEPTH: u32 = 12;
    let mut store = TestStore::default();
    let did = &actor(0).did;
    let mut cited: Vec<String> = vec![];
    let mut root = String::new();
    for i in 0..=DEPTH {
        root = unsigned(&json!({"ucv": "0.10.0-canary", "iss": did, "aud": did, "exp": null, "nnc": i.to_string(), "cap": {}, "prf": cited}));
        store.put(&root, jwt::hash_code(0));
        let id = jwt::cid_text(0, root.as_bytes());
        cited = vec![id.clone(), id];
    }
    VERIFIED.with(|v| v.set(0));
    let r = block(ProofChain::try_from_token_string(&root, Some(0), &mut lenient(), &store));
    let n = VERIFIED.with(Cell::get);
    (r.is_ok() && n >= 1 << DEPTH).then(|| format!("{n} signature checks for a chain of {} tokens, each citing the previous one twice", DEPTH + 1))
}

// ---------------------------------------------------------------------------------------------
// Token values that no text stands behind

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Loose {
    iss: u8,
    header: Hurt,
    payload: Hurt,
    /// None: what would be signed
    data: Option<Vec<u8>>,
    /// None: a right one
    sig: Option<Vec<u8>>,
    /// 0 JSON, 1 DAG-JSON, 2 DAG-CBOR, 3 from parts
    via: u8,
}

fn loose() -> BoxedStrategy<Loose> {
    let bytes = || {
        prop_oneof![
            1 => prop::collection::vec(any::<u8>(), 0..70),
            1 => text().prop_map(String::into_bytes),
            1 => (text(), text()).prop_map(|(a, b)| format!("{}.{}", jwt::b64(a.as_bytes()), jwt::b64(b.as_bytes())).into_bytes()),
            1 => "[A-Za-z0-9_.-]{0,20}".prop_map(String::into_bytes),
            1 => prop::sample::select(vec![31usize, 32, 33, 48, 63, 64, 65, 96, 128, 255, 256, 257, 512]).prop_flat_map(|n| prop::collection::vec(any::<u8>(), n..=n)),
        ]
    };
    (
        prop_oneof![4 => 0u8..4, 2 => 0u8..N_ACTORS as u8, 1 => (N_ED as u8)..(N_ACTORS as u8)],
        hurt(60),
        hurt(20),
        prop::option::weighted(0.6, bytes()),
        prop::option::weighted(0.5, bytes()),
        0u8..4,
    )
        .prop_map(|(iss, header, payload, data, sig, via)| Loose { iss, header, payload, data, sig, via })
        .boxed()
}

fn check_loose(c: &Loose, o: &mut Obs) -> Verdict {
    let a = actor(c.iss as usize);
    let h = c.header.apply(&jwt::header_json(a));
    let p = c.payload.apply(&plain_payload(a));
    let data = c.data.clone().unwrap_or_else(|| format!("{}.{}", jwt::b64(&h), jwt::b64(&p)).into_bytes());
    let sig = c.sig.clone().unwrap_or_else(|| a.raw.sign(&data));
    let mut made = false;
    clean("token value", c, || {
        let json = |b: &[u8]| serde_json::from_slice::<Value>(b).ok();
        let form = || Some(json!({"header": json(&h)?, "payload": json(&p)?, "signed_data": data, "signature": sig}));
        let u: Option<Ucan> = match c.via {
            0 => form().and_then(|v| serde_json::from_value(v).ok()),
            1 => form().and_then(|v| Ucan::from_dag_json(v.to_string().as_bytes()).ok()),
            2 => form().and_then(|v| serde_ipld_dagcbor::to_vec(&v).ok()).and_then(|b| serde_ipld_dagcbor::from_slice(&b).ok()),
            _ => match (UcanHeader::from_dag_json(&h), UcanPayload::from_dag_json(&p)) {
                (Ok(h), Ok(p)) => Some(Ucan::new(h, p, data.clone(), sig.clone())),
                _ => None,
            },
        };
        if let Some(u) = u {
            made = true;
            poke(&u, &TestStore::default());
        }
        // and the key on its own
        let mut parser = parser();
        if let Ok(k) = parser.parse(&a.did) {
            let _ = block(k.verify(&data, &sig));
            let _ = block(a.km.verify(&data, &sig));
        }
    })?;
    o.label_if(made, "a token");
    if made {
        o.hit();
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C13",
        vec![
            part(
                "token-text",
                "text presented as token: arbitrary, of the token alphabet, header and payload with hurtful JSON (wrong types, huge numbers, duplicates, nesting to 400, \"/\" forms, altered DIDs) mostly \
                 signed rightly, and edited valid tokens; everything that the API offers is then done with whatever decodes. Non-trivial: it decodes",
                30_000, 1_000_000, token_text, check_token,
            ),
            part(
                "signed",
                "up to 5 validly signed hostile tokens citing earlier ones, with odd resources (prf:, my:, as:, URL corner cases), odd identifiers and hurtful fields; validated, converted, chained, reduced \
                 with four semantics. Non-trivial: one of them is valid",
                8_000, 300_000, evils, check_evil,
            ),
            part(
                "texts",
                "a text presented as DID, principal, algorithm, prefix, resource, ability, capability map, fact key and audience. Non-trivial: some entry point takes it",
                8_000, 300_000, small_text, check_texts,
            ),
            part(
                "bytes",
                "bytes presented as signature envelope, principal, binary token, key, raw block and identifier: arbitrary, an edited or field-replaced binary token, odd envelopes. Non-trivial: taken as an envelope or as a binary token",
                12_000, 500_000, bins, check_bytes,
            ),
            part(
                "values",
                "token values (from JSON, DAG-JSON, DAG-CBOR or parts) whose header, payload, signed data and signature need not belong together, nor the signed data be text, for every kind of key; \
                 everything that the API offers is done with them. Non-trivial: there is such a value",
                8_000, 300_000, loose, check_loose,
            ),
            part(
                "work",
                "chains and trees of up to 60 tokens with up to 12 capabilities and redelegations; signature checks and reads stay linear, comparisons quadratic in the content. Non-trivial: more than 4 tokens",
                1_600, 30_000, work, check_work,
            ),
        ],
        vec![Probe { id: "diamond-exponential", probe: probe_diamond }, Probe { id: "base58-quadratic", probe: probe_base58 }],
        vec!["nesting up to 400 levels and chains up to 60 tokens; deeper input is not explored"],
    )
}
