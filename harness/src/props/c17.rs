//! C17: signature envelopes and binary principals are lossless and unambiguous
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::{ensure, jwt, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::json;
use std::str::FromStr;
use ucan::crypto::JwtSignatureAlgorithm;
use ucan::ipld::{Principle, Signature, VarsigPrefix};
use ucan::serde::DagJson;

/// Name, prefix code
const NAMED: [(&str, u64); 5] = [
    ("EdDSA", 0xd0ed),
    ("RS256", 0xd01205),
    ("ES256", 0xd01200),
    ("ES384", 0xd01201),
    ("ES512", 0xd01202),
];
const NAMELESS: [u64; 5] = [0xd000, 0xd0e7, 0xd0ea, 0xd0eb, 0xd191];

fn alg(i: u8) -> JwtSignatureAlgorithm {
    match i % 5 {
        0 => JwtSignatureAlgorithm::EdDSA,
        1 => JwtSignatureAlgorithm::RS256,
        2 => JwtSignatureAlgorithm::ES256,
        3 => JwtSignatureAlgorithm::ES384,
        _ => JwtSignatureAlgorithm::ES512,
    }
}

fn prefix(i: u8) -> VarsigPrefix {
    match i % 5 {
        0 => VarsigPrefix::EdDSA,
        1 => VarsigPrefix::RS256,
        2 => VarsigPrefix::ES256,
        3 => VarsigPrefix::ES384,
        _ => VarsigPrefix::ES512,
    }
}

fn bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..20),
        2 => prop::sample::select(vec![0usize, 1, 63, 64, 65, 96, 127, 128, 129, 255, 256, 257, 384, 512, 16383, 16384, 16385])
            .prop_flat_map(|n| (Just(n), any::<u8>()))
            .prop_map(|(n, b)| (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(b)).collect()),
        1 => prop::collection::vec(prop::sample::select(vec![0u8, 0x7f, 0x80, 0xff, 0xed, 0xd0]), 0..140),
        1 => sized(any::<u8>(), 0..300, 20_000),
    ]
    .boxed()
}

fn check_wrap(c: &(u8, Vec<u8>), o: &mut Obs) -> Verdict {
    let (a, sig) = c;
    let (name, code) = NAMED[*a as usize % 5];
    o.hit();
    o.label(name);
    let s = Signature::try_from((alg(*a), sig)).map_err(|e| format!("cannot wrap: {e:?}"))?;
    let mut expect = jwt::uvarint(code);
    expect.extend(jwt::uvarint(sig.len() as u64));
    expect.extend(sig);
    same!(s.0, expect, "envelope");
    for how in 0..4 {
        let t: Signature = match how {
            0 => Signature(s.0.clone()),
            1 => {
                let b = serde_ipld_dagcbor::to_vec(&s).map_err(|e| format!("{e:?}"))?;
                serde_ipld_dagcbor::from_slice(&b).map_err(|e| format!("{e:?}"))?
            }
            2 => serde_json::from_value(serde_json::to_value(&s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
            _ => Signature::from_dag_json(&s.to_dag_json().map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?,
        };
        let (got, raw) = t.decode().map_err(|e| format!("cannot unwrap: {e:?}"))?;
        same!(got, alg(*a), "algorithm");
        same!(raw, *sig, "signature bytes");
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Env {
    code: u64,
    announced: u64,
    sig: Vec<u8>,
    /// Varints written longer than needed
    pad: u8,
    cut: Option<u8>,
}

fn envelopes() -> BoxedStrategy<Env> {
    let code = prop_oneof![
        6 => prop::sample::select(NAMED.to_vec()).prop_map(|x| x.1),
        2 => prop::sample::select(NAMELESS.to_vec()),
        1 => prop::sample::select(NAMED.to_vec()).prop_flat_map(|x| (Just(x.1), 0u32..24)).prop_map(|(c, b)| c ^ (1 << b)),
        1 => any::<u64>(),
        1 => 0xd000u64..0xd200,
        1 => 0xd01200u64..0xd01210,
    ];
    (code, prop::collection::vec(any::<u8>(), 0..70), prop_oneof![
        5 => Just(None),
        4 => (-3i64..4).prop_map(Some),
        1 => prop::sample::select(vec![1i64 << 20, 1 << 31, 1 << 40, i64::MAX - 100]).prop_map(Some),
        1 => Just(Some(-1000)),
    ], prop_oneof![6 => Just(0u8), 1 => 1u8..3], prop::option::weighted(0.1, any::<u8>()))
        .prop_map(|(code, sig, d, pad, cut)| {
            let announced = match d {
                None => sig.len() as u64,
                Some(-1000) => u64::MAX,
                Some(d) => (sig.len() as i64).saturating_add(d).max(0) as u64,
            };
            Env { code, announced, sig, pad, cut }
        })
        .boxed()
}

/// Minimal unsigned varint of at most 9 bytes, read independently
fn read_varint(b: &[u8]) -> Option<(u64, &[u8])> {
    let mut n: u64 = 0;
    for (i, x) in b.iter().enumerate().take(10) {
        let v = (*x & 0x7f) as u64;
        if i == 9 && v > 1 {
            return None;
        }
        n |= v.checked_shl(7 * i as u32)?;
        if x & 0x80 == 0 {
            if *x == 0 && i > 0 {
                return None;
            }
            return Some((n, &b[i + 1..]));
        }
    }
    None
}

fn check_env(c: &Env, o: &mut Obs) -> Verdict {
    let mut b = jwt::uvarint(c.code);
    if c.pad == 1 {
        let l = b.len() - 1;
        b[l] |= 0x80;
        b.push(0);
    }
    let mut n = jwt::uvarint(c.announced);
    if c.pad == 2 {
        let l = n.len() - 1;
        n[l] |= 0x80;
        n.push(0);
    }
    b.extend(n);
    b.extend(&c.sig);
    if let Some(k) = c.cut {
        b.truncate(k as usize % (b.len() + 1));
    }
    // the reference
    let expect = (|| {
        let (code, rest) = read_varint(&b)?;
        let (len, rest) = read_varint(rest)?;
        let i = NAMED.iter().position(|x| x.1 == code)?;
        (len == rest.len() as u64).then(|| (i as u8, rest.to_vec()))
    })();
    o.label(if expect.is_some() { "well-formed" } else { "malformed" });
    o.hit();
    match (Signature(b.clone()).decode(), &expect) {
        (Ok((a, s)), Some((i, t))) => {
            same!(a, alg(*i), "algorithm");
            same!(s, *t, "signature");
        }
        (Ok((a, s)), None) => return Err(format!("the envelope {b:02x?} is taken as {a:?} {s:02x?}")),
        (Err(e), Some(_)) => return Err(format!("the envelope {b:02x?} is refused: {e:?}")),
        (Err(_), None) => {}
    }
    Ok(())
}

// --- names, algorithms and codes ---------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Name {
    Text(String),
    Code(u64),
    Listed(u8),
}

fn names() -> BoxedStrategy<Name> {
    prop_oneof![
        4 => prop::sample::select(NAMED.to_vec()).prop_flat_map(|n| (Just(n.0.to_string()), 0u8..8, any::<u8>())).prop_map(|(mut t, k, x)| {
            match k {
                0 => {}
                1 => t = t.to_lowercase(),
                2 => t = t.to_uppercase(),
                3 => t.push(x as char),
                4 => t.insert(0, x as char),
                5 => { t.pop(); }
                6 => t = t.replace("256", "512"),
                _ => t = t.replace('S', "s"),
            }
            Name::Text(t)
        }),
        2 => text().prop_map(Name::Text),
        1 => prop::sample::select(vec!["ES256K", "HS256", "none", "EIP191", "RS512", "RS384", "PS256", "NonStandard", "EDDSA", "Ed25519"]).prop_map(|t| Name::Text(t.to_string())),
        3 => any::<u64>().prop_map(Name::Code),
        3 => (0xd000u64..0xd200).prop_map(Name::Code),
        3 => (0xd01000u64..0xd01400).prop_map(Name::Code),
        2 => (0u8..10).prop_map(Name::Listed),
    ]
    .boxed()
}

fn all_prefix(i: u8) -> (VarsigPrefix, u64) {
    match i {
        0..=4 => (prefix(i), NAMED[i as usize].1),
        5 => (VarsigPrefix::NonStandard, NAMELESS[0]),
        6 => (VarsigPrefix::ES256K, NAMELESS[1]),
        7 => (VarsigPrefix::BLS12381G1, NAMELESS[2]),
        8 => (VarsigPrefix::BLS12381G2, NAMELESS[3]),
        _ => (VarsigPrefix::EIP191, NAMELESS[4]),
    }
}

fn check_name(c: &Name, o: &mut Obs) -> Verdict {
    o.hit();
    match c {
        Name::Text(t) => {
            let expect = NAMED.iter().position(|n| n.0 == t).map(|i| i as u8);
            o.label(if expect.is_some() { "name" } else { "not a name" });
            same!(JwtSignatureAlgorithm::from_str(t).ok(), expect.map(alg), "algorithm of the name {t:?}");
            same!(VarsigPrefix::from_str(t).ok(), expect.map(prefix), "prefix of the name {t:?}");
        }
        Name::Code(n) => {
            let expect = (0..10).map(all_prefix).find(|p| p.1 == *n).map(|p| p.0);
            o.label(if expect.is_some() { "code" } else { "not a code" });
            same!(VarsigPrefix::try_from(*n).ok(), expect, "prefix of the code {n:#x}");
            let named = NAMED.iter().position(|x| x.1 == *n).map(|i| alg(i as u8));
            let got = VarsigPrefix::try_from(*n).ok().and_then(|p| JwtSignatureAlgorithm::try_from(p).ok());
            same!(got, named, "algorithm of the code {n:#x}");
        }
        Name::Listed(i) => {
            let (p, code) = all_prefix(*i);
            let n: u64 = p.into();
            same!(n, code, "code of {:?}", all_prefix(*i).0);
            same!(VarsigPrefix::try_from(n).ok(), Some(all_prefix(*i).0), "prefix of the code {n:#x}");
            if *i < 5 {
                same!(alg(*i).to_string(), NAMED[*i as usize].0, "name");
                same!(VarsigPrefix::try_from(alg(*i)).ok(), Some(prefix(*i)), "prefix");
                same!(JwtSignatureAlgorithm::try_from(prefix(*i)).ok(), Some(alg(*i)), "algorithm");
            } else {
                ensure!(JwtSignatureAlgorithm::try_from(all_prefix(*i).0).is_err(), "a nameless prefix has an algorithm");
            }
        }
    }
    Ok(())
}

// --- principals --------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Did {
    KeyBytes(Vec<u8>),
    Actor(u8),
    Method(String),
    Raw(String),
}

impl Did {
    fn text(&self) -> String {
        match self {
            Did::KeyBytes(b) => format!("did:key:z{}", bs58::encode(b).into_string()),
            Did::Actor(i) => actor(*i as usize).did.clone(),
            Did::Method(t) => format!("did:{t}"),
            Did::Raw(t) => t.clone(),
        }
    }
}

fn did() -> BoxedStrategy<Did> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 2..40).prop_map(Did::KeyBytes),
        1 => prop::collection::vec(any::<u8>(), 0..3).prop_map(Did::KeyBytes),
        1 => (prop::sample::select(vec![vec![0x9du8, 0x1a], vec![0x9d], vec![0, 0x9d, 0x1a], vec![0x9d, 0x1b], vec![0xed, 1], vec![0, 0]]), text())
            .prop_map(|(p, t)| Did::KeyBytes([p, t.into_bytes()].concat())),
        2 => (0u8..N_ACTORS as u8).prop_map(Did::Actor),
        3 => ("(web|plc|ion|ethr|peer|x)", "[a-zA-Z0-9.:_%-]{0,30}").prop_map(|(m, t)| Did::Method(format!("{m}:{t}"))),
        1 => text().prop_map(Did::Method),
        1 => ("(key:|key:m|key:Z|key|key:z|KEY:z)", "[a-zA-Z0-9]{0,12}").prop_map(|(m, t)| Did::Method(format!("{m}{t}"))),
        1 => prop::sample::select(vec!["", "did", "did:", "DID:web:x", " did:web:x", "mailto:x", "key:z6Mk", "did:key:z", "did:key:z0", "did:key:zIl", "did:web:é", "did:web:\u{0}", "did:🦀", "xdid:web:y"]).prop_map(|t| Did::Raw(t.into())),
        1 => text().prop_map(Did::Raw),
    ]
    .boxed()
}

/// The binary form by the specification: the multicodec key bytes of a did:key, or a code and the
/// text after "did:"; None where the text has none
fn binary(text: &str) -> Option<Vec<u8>> {
    let rest = text.strip_prefix("did:")?;
    match rest.strip_prefix("key:z") {
        Some(k) => {
            let b = bs58::decode(k).into_vec().ok()?;
            // key bytes start with a two byte code, which is not the one of other methods
            (b.len() >= 2 && b[..2] != [0x9d, 0x1a]).then_some(b)
        }
        None => Some([&[0x9d, 0x1a], rest.as_bytes()].concat()),
    }
}

fn dids() -> BoxedStrategy<(Did, Did, u8)> {
    (did(), did(), 0u8..4).boxed()
}

fn check_did(c: &(Did, Did, u8), o: &mut Obs) -> Verdict {
    let (a, b) = (c.0.text(), c.1.text());
    o.hit();
    let p = match (Principle::from_str(&a), binary(&a)) {
        (Ok(_), None) => return Err(format!("{a:?} is taken as a DID")),
        (Err(e), Some(_)) => return Err(format!("the DID {a:?} is refused: {e:?}")),
        (Err(_), None) => {
            o.label("not a DID");
            return Ok(());
        }
        (Ok(p), Some(b)) => {
            o.label(if a.starts_with("did:key:z") { "did:key" } else { "other method" });
            let seen = serde_json::to_value(&p).map_err(|e| e.to_string())?;
            same!(seen, json!(b), "binary form of {a}");
            p
        }
    };
    let q: Principle = match c.2 {
        0 => p.clone(),
        1 => {
            let b = serde_ipld_dagcbor::to_vec(&p).map_err(|e| format!("{e:?}"))?;
            serde_ipld_dagcbor::from_slice(&b).map_err(|e| format!("cannot decode {a}: {e:?}"))?
        }
        2 => serde_json::from_str(&serde_json::to_string(&p).map_err(|e| e.to_string())?).map_err(|e| e.to_string())?,
        _ => Principle::from_dag_json(&p.to_dag_json().map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?,
    };
    same!(q.to_string(), a, "DID back");
    ensure!(q == p, "the binary form of {a} changes on the way");
    same!(Principle::from_str(&q.to_string()).ok(), Some(p.clone()), "binary form of what came back");
    if let Ok(r) = Principle::from_str(&b) {
        ensure!((r == p) == (a == b), "{a} and {b} share a binary form: {p:?}");
    }
    Ok(())
}

/// Bytes presented as a principal: at most one DID each, and one byte string per DID
fn check_bytes(b: &Vec<u8>, o: &mut Obs) -> Verdict {
    let p: Principle = match serde_json::from_value(json!(b)) {
        Ok(p) => p,
        Err(_) => {
            o.label("refused");
            if let Some(t) = spelled(b) {
                ensure!(binary(&t).as_ref() != Some(b), "the binary form {b:02x?} of {t} is refused");
            }
            o.hit();
            return Ok(());
        }
    };
    let text = p.to_string();
    o.label("read");
    o.hit();
    same!(binary(&text), Some(b.clone()), "the binary form of {text:?}, which {b:02x?} is read as,");
    same!(Principle::from_str(&text).ok(), Some(p), "{text:?}");
    Ok(())
}

fn spelled(b: &[u8]) -> Option<String> {
    if b.len() < 2 {
        return None;
    }
    if b[..2] == [0x9d, 0x1a] {
        return String::from_utf8(b[2..].to_vec()).ok().map(|t| format!("did:{t}"));
    }
    Some(format!("did:key:z{}", bs58::encode(b).into_string()))
}

fn principal_bytes() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => prop::collection::vec(any::<u8>(), 0..40),
        2 => prop::collection::vec(any::<u8>(), 0..10).prop_map(|b| [vec![0x9d, 0x1a], b].concat()),
        3 => text().prop_map(|t| [vec![0x9d, 0x1a], t.into_bytes()].concat()),
        2 => "key:z?[a-zA-Z0-9]{0,20}".prop_map(|t| [vec![0x9d, 0x1a], t.into_bytes()].concat()),
        1 => (0..N_ACTORS).prop_map(|i| [vec![0x9d, 0x1a], actor(i).did[4..].as_bytes().to_vec()].concat()),
        1 => (0..N_ACTORS).prop_map(|i| [actor(i).raw.magic(), &actor(i).raw.public_bytes()].concat()),
    ]
    .boxed()
}

fn wraps() -> BoxedStrategy<(u8, Vec<u8>)> {
    (0u8..5, bytes()).boxed()
}

pub fn property() -> Property {
    super::property(
        "C17",
        vec![
            part(
                "wrap",
                "an algorithm and signature bytes (lengths around every varint boundary up to 16385) wrapped, carried through DAG-CBOR/JSON, and \
                 unwrapped; the envelope compared with an independent encoding. Non-trivial: all.",
                60_000,
                600_000,
                wraps,
                check_wrap,
            ),
            part(
                "envelopes",
                "envelopes with any code, announced length, padding and truncation; unwrapped exactly when an independent reader says it names an algorithm and \
                 announces exactly what follows. Non-trivial: all.",
                180_000,
                2_000_000,
                envelopes,
                check_env,
            ),
            part(
                "names",
                "algorithm names and near misses, every code in the neighbourhood of the assigned ones and random ones, all listed \
                 prefixes. Non-trivial: all.",
                180_000,
                1_000_000,
                names,
                check_name,
            ),
            part(
                "principals",
                "pairs of DID texts (did:key of any bytes, other methods, near misses, text that is no DID) to binary form and back, also through DAG-CBOR/JSON; \
                 compared with an independent encoding and with each other. Non-trivial: all.",
                240_000,
                2_000_000,
                dids,
                check_did,
            ),
            part(
                "principal-bytes",
                "bytes presented as a principal: refused, or the one binary form of the DID they are rendered as. Non-trivial: all.",
                180_000,
                2_000_000,
                principal_bytes,
                check_bytes,
            ),
        ],
        vec![],
        vec![],
    )
}
