//! C14: keys, DIDs and signatures correspond
use super::*;
use crate::gens::block;
use crate::keys::*;
use crate::ensure;
use proptest::prelude::*;
use serde::Deserialize;
use std::sync::Arc;
use ucan::crypto::did::{DidParser, KeyConstructorSlice};
use ucan::crypto::KeyMaterial;
use ucan_key_support::{ed25519::bytes_to_ed25519_key, p256::bytes_to_p256_key, rsa::bytes_to_rsa_key};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Key {
    Ed([u8; 32]),
    P256([u8; 32]),
    Rsa(u8),
}

impl Key {
    fn raw(&self) -> Raw {
        match self {
            Key::Ed(s) => Raw::ed(*s),
            Key::P256(s) => Raw::p256(*s),
            Key::Rsa(i) => actor(N_ED + N_P256 + *i as usize % N_RSA).raw.clone(),
        }
    }
    fn label(&self) -> &'static str {
        match self {
            Key::Ed(_) => "ed25519",
            Key::P256(_) => "p256",
            Key::Rsa(_) => "rsa",
        }
    }
}

fn key() -> BoxedStrategy<Key> {
    prop_oneof![
        5 => any::<[u8; 32]>().prop_map(Key::Ed),
        1 => any::<u8>().prop_map(|b| Key::Ed([b; 32])),
        4 => any::<[u8; 32]>().prop_map(Key::P256),
        1 => any::<u8>().prop_map(|b| Key::P256([b; 32])),
        1 => any::<u8>().prop_map(Key::Rsa),
    ]
    .boxed()
}

const ED_ONLY: &KeyConstructorSlice = &[(ED_MAGIC, bytes_to_ed25519_key)];
const P256_ONLY: &KeyConstructorSlice = &[(P256_MAGIC, bytes_to_p256_key)];
const RSA_ONLY: &KeyConstructorSlice = &[(RSA_MAGIC, bytes_to_rsa_key)];
const REVERSED: &KeyConstructorSlice = &[
    (RSA_MAGIC, bytes_to_rsa_key),
    (P256_MAGIC, bytes_to_p256_key),
    (ED_MAGIC, bytes_to_ed25519_key),
];

fn only(raw: &Raw) -> DidParser {
    DidParser::new(match raw {
        Raw::Ed(_) => ED_ONLY,
        Raw::P256(_) => P256_ONLY,
        Raw::Rsa(_) => RSA_ONLY,
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Flip(u16, u8),
    Cut(u16),
    Extend(Vec<u8>),
    Prepend(u8),
    Random(Vec<u8>),
    Swap,
    Zero,
    Der,
    Empty,
    /// Leading zero bytes left out, of a signature that has some
    Strip,
    /// Other bytes for the same numbers
    Twin,
}

fn damage() -> BoxedStrategy<Damage> {
    prop_oneof![
        4 => (any::<u16>(), 0u8..8).prop_map(|(i, b)| Damage::Flip(i, b)),
        1 => any::<u16>().prop_map(Damage::Cut),
        1 => prop::collection::vec(any::<u8>(), 1..4).prop_map(Damage::Extend),
        1 => prop_oneof![Just(0u8), any::<u8>()].prop_map(Damage::Prepend),
        1 => Just(Damage::Strip),
        1 => Just(Damage::Twin),
        1 => prop::collection::vec(any::<u8>(), 0..80).prop_map(Damage::Random),
        1 => Just(Damage::Swap),
        1 => Just(Damage::Zero),
        1 => Just(Damage::Der),
        1 => Just(Damage::Empty),
    ]
    .boxed()
}

fn damaged(raw: &Raw, sig: &[u8], d: &Damage) -> Vec<u8> {
    let mut s = sig.to_vec();
    match d {
        Damage::Flip(i, b) => {
            let i = *i as usize % s.len();
            s[i] ^= 1 << b;
        }
        Damage::Cut(n) => s.truncate(*n as usize % sig.len()),
        Damage::Extend(t) => s.extend(t),
        Damage::Prepend(b) => s.insert(0, *b),
        Damage::Random(r) => s = r.clone(),
        Damage::Swap => {
            let h = s.len() / 2;
            s.rotate_left(h);
        }
        Damage::Zero => s.iter_mut().for_each(|b| *b = 0),
        Damage::Der => {
            if let Ok(x) = p256::ecdsa::Signature::try_from(sig) {
                s = x.to_der().as_bytes().to_vec();
            } else {
                s.reverse();
            }
        }
        Damage::Empty => s.clear(),
        Damage::Strip => s = sig.iter().copied().skip_while(|b| *b == 0).collect(),
        Damage::Twin => s = raw.twin(sig),
    }
    s
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    key: Key,
    other: Key,
    msg: Vec<u8>,
    msg2: Vec<u8>,
    damage: Damage,
    wrap: u8,
}

fn cases() -> BoxedStrategy<Case> {
    let msg = || prop_oneof![1 => Just(vec![]), 4 => prop::collection::vec(any::<u8>(), 0..80), 1 => prop::collection::vec(any::<u8>(), 200..600), 1 => crate::gens::sized(any::<u8>(), 0..80, 5000), crate::dict::w_num(1) => crate::dict::size(0, 8000).prop_flat_map(|n| prop::collection::vec(any::<u8>(), n))];
    (key(), key(), msg(), msg(), damage(), 0u8..4)
        .prop_map(|(key, other, msg, msg2, damage, wrap)| Case { key, other, msg, msg2, damage, wrap })
        .boxed()
}

/// A message whose signature by this RSA key begins with a zero byte
fn zero_led(i: usize) -> Vec<u8> {
    static FOUND: [std::sync::OnceLock<Vec<u8>>; N_RSA] = [const { std::sync::OnceLock::new() }; N_RSA];
    FOUND[i]
        .get_or_init(|| {
            let data = |n: u32| n.to_le_bytes().to_vec();
            data(actor(N_ED + N_P256 + i).raw.zero_led(data))
        })
        .clone()
}

fn verify(k: &dyn KeyMaterial, m: &[u8], s: &[u8]) -> bool {
    block(k.verify(m, s)).is_ok()
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let raw = c.key.raw();
    let other = c.other.raw();
    o.label(c.key.label());
    o.hit();
    // the key as it is, boxed, or shared
    let km: Box<dyn KeyMaterial> = match c.wrap {
        0 => raw.material(true),
        1 => Box::new(raw.material(true)),
        2 => Box::new(Arc::new(raw.material(true))),
        _ => Box::new(Arc::new(Arc::new(raw.material(true)))),
    };
    let did = raw.did();
    let got = block(km.get_did()).map_err(|e| format!("no DID: {e:?}"))?;
    ensure!(got == did, "the DID of the key is {got}, expected {did}");
    ensure!(km.get_jwt_algorithm_name() == raw.alg(), "algorithm {}", km.get_jwt_algorithm_name());
    let mut c = c.clone();
    if matches!(c.damage, Damage::Strip) {
        c.msg = match &c.key {
            Key::Rsa(i) => zero_led(*i as usize % N_RSA),
            _ => {
                let n = raw.zero_led(|i| [&i.to_le_bytes()[..], &c.msg].concat());
                [&n.to_le_bytes()[..], &c.msg].concat()
            }
        };
    }
    let sig = block(km.sign(&c.msg)).map_err(|e| format!("cannot sign: {e:?}"))?;
    ensure!(raw.verify(&c.msg, &sig), "the signature made is not valid for the algorithm");
    let theirs = raw.sign(&c.msg);
    let bad = damaged(&raw, &sig, &c.damage);
    for (how, mut p) in [("all", parser()), ("this type", only(&raw)), ("reversed", DidParser::new(REVERSED))] {
        for again in [false, true] {
            let k = p.parse(&did).map_err(|e| format!("{did} not resolved ({how}, again {again}): {e:?}"))?;
            let back = block(k.get_did()).map_err(|e| format!("{e:?}"))?;
            ensure!(back == did, "{did} leads to the key {back}");
            ensure!(k.get_jwt_algorithm_name() == raw.alg(), "{did} leads to a key with {}", k.get_jwt_algorithm_name());
            for (who, k) in [("original", &*km as &dyn KeyMaterial), ("resolved", &**k as &dyn KeyMaterial)] {
                ensure!(verify(k, &c.msg, &sig), "the {who} key refuses the key's signature");
                ensure!(verify(k, &c.msg, &theirs), "the {who} key refuses a signature made by another implementation");
                if c.msg2 != c.msg {
                    ensure!(!verify(k, &c.msg2, &sig), "the {who} key accepts the signature for another message");
                }
                // (r, n - s) is as good an ECDSA signature as (r, s)
                if matches!((&c.damage, &raw), (Damage::Twin, Raw::P256(_))) {
                    ensure!(verify(k, &c.msg, &bad), "the {who} key refuses a signature with the other s");
                } else if bad != sig && bad != theirs {
                    ensure!(!verify(k, &c.msg, &bad), "the {who} key accepts an altered signature ({:?})", c.damage);
                }
                if other.did() != did {
                    let s = other.sign(&c.msg);
                    ensure!(!verify(k, &c.msg, &s), "the {who} key accepts the signature of another key");
                }
            }
            // the resolved key has no private half
            ensure!(block(k.sign(&c.msg)).is_err(), "a key without its private half signs");
            if how == "this type" {
                break;
            }
        }
        if other.did() != did && how == "all" {
            let k = p.parse(&other.did()).map_err(|e| format!("{e:?}"))?;
            ensure!(!verify(&**k, &c.msg, &sig), "another DID's key accepts the signature");
        }
    }
    ensure!(block(raw.material(false).sign(&c.msg)).is_err(), "a key without its private half signs");
    ensure!(
        block(raw.material(false).get_did()).ok() == Some(did.clone()),
        "a key without its private half has another DID"
    );
    if other.magic() != raw.magic() {
        o.label("key of another type");
        ensure!(only(&raw).parse(&other.did()).is_err(), "a parser resolves a key type it is not configured for");
        ensure!(DidParser::new(&[]).parse(&did).is_err(), "a parser without key types resolves a DID");
    }
    Ok(())
}

// --- DIDs that are not those of supported keys -----------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    /// Key bytes of this key, changed, under its own prefix
    Bytes(Key, Damage),
    /// Key bytes of one type under the prefix of another
    Magic(Key, u8),
    /// An unsupported prefix
    Prefix(Vec<u8>, Vec<u8>),
    /// Text that is not a did:key
    Text(u8, String),
    /// Random key bytes of the right length
    Random(u8, Vec<u8>),
}

/// (the DID, DIDs parsed before, the key types configured; 0: all)
type BadCase = (Bad, Vec<u8>, u8);

fn bads() -> BoxedStrategy<BadCase> {
    (
        prop_oneof![
            3 => (key(), damage()).prop_map(|(k, d)| Bad::Bytes(k, d)),
            2 => (key(), 0u8..3).prop_map(|(k, m)| Bad::Magic(k, m)),
            2 => (key(), other_prefix()).prop_map(|(k, p)| Bad::Prefix(p, k.raw().public_bytes())),
            2 => (
                other_prefix(),
                prop::collection::vec(any::<u8>(), 0..40)
            ).prop_map(|(p, b)| Bad::Prefix(p, b)),
            2 => (0u8..12, "[ -~]{0,12}").prop_map(|(k, t)| Bad::Text(k, t)),
            2 => (0u8..3, prop::collection::vec(any::<u8>(), 32..34)).prop_map(|(k, b)| Bad::Random(k, b)),
        ],
        prop::collection::vec(0u8..N_ACTORS as u8, 0..3),
        prop_oneof![1 => Just(0u8), 1 => 1u8..7],
    )
        .boxed()
}

fn other_prefix() -> BoxedStrategy<Vec<u8>> {
    prop::sample::select(vec![vec![0xeau8, 1], vec![0xeb, 1], vec![0xe7, 1], vec![0xed], vec![0xed, 2], vec![0xec, 1], vec![1, 0xed], vec![0x24, 0x80], vec![0x81, 0x24], vec![0x12, 0], vec![], vec![0, 0xed, 1], vec![0xed, 0x81, 0]]).boxed()
}

const MAGICS: [&[u8]; 3] = [ED_MAGIC, P256_MAGIC, RSA_MAGIC];

/// These are the bytes of a key of that type
fn well_formed(magic: &[u8], b: &[u8]) -> bool {
    use rsa::pkcs1::DecodeRsaPublicKey;
    if magic == ED_MAGIC {
        b.len() == 32 && ed25519_zebra::VerificationKey::try_from(b).is_ok()
    } else if magic == P256_MAGIC {
        p256::ecdsa::VerifyingKey::from_sec1_bytes(b).is_ok()
    } else {
        rsa::RsaPublicKey::from_pkcs1_der(b).is_ok()
    }
}

fn check_bad(c: &BadCase, o: &mut Obs) -> Verdict {
    let (bad, warm, config) = c;
    let enc = |m: &[u8], b: &[u8]| format!("did:key:z{}", bs58::encode([m, b].concat()).into_string());
    let text = match bad {
        Bad::Bytes(k, d) => enc(k.raw().magic(), &damaged(&k.raw(), &k.raw().public_bytes(), d)),
        Bad::Magic(k, m) => enc(MAGICS[*m as usize % 3], &k.raw().public_bytes()),
        Bad::Prefix(p, b) => enc(p, b),
        Bad::Random(m, b) => enc(MAGICS[*m as usize % 3], b),
        Bad::Text(kind, t) => {
            let did = &actor(0).did;
            match kind {
                0 => t.clone(),
                1 => did.replace("did:key:z", "did:key:m"),
                2 => did.replace("did:key", "did:web"),
                3 => did.to_uppercase(),
                4 => did.replace("did:key:z", "did:key:Z"),
                5 => format!("{did}{t}"),
                6 => format!("{t}{did}"),
                7 => did["did:key:z".len()..].to_string(),
                8 => format!("did:key:z{t}"),
                9 => format!("{did}#{}", &did["did:key:".len()..]),
                10 => did.to_lowercase(),
                _ => format!("did:key:z{}", jwt_b64(&[ED_MAGIC, &actor(0).raw.public_bytes()].concat())),
            }
        }
    };
    o.label(format!("{bad:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string());
    // what it is, read independently
    let bytes = text
        .strip_prefix("did:key:z")
        .and_then(|t| bs58::decode(t).into_vec().ok())
        .unwrap_or_default();
    let all: [ucan::crypto::did::BytesToKey; 3] = [bytes_to_ed25519_key, bytes_to_p256_key, bytes_to_rsa_key];
    let types: Vec<usize> = (0..3).filter(|i| *config == 0 || config & 1 << i != 0).collect();
    let known = types.iter().map(|i| MAGICS[*i]).find(|m| bytes.starts_with(m));
    let good = known.map(|m| well_formed(m, &bytes[2..])).unwrap_or(false);
    let config: Vec<(&'static [u8], ucan::crypto::did::BytesToKey)> = types.iter().map(|i| (MAGICS[*i], all[*i])).collect();
    let mut p = DidParser::new(&config);
    for w in warm {
        let _ = p.parse(&actor(*w as usize).did);
    }
    o.label_if(types.len() < 3, "not every key type configured");
    for attempt in 0..2 {
        match p.parse(&text) {
            Ok(k) => {
                ensure!(good, "{text:?} leads to a key (attempt {attempt})");
                let did = block(k.get_did()).map_err(|e| format!("{e:?}"))?;
                // (a P-256 key has other spellings: uncompressed, or without the sign of y)
                if !bytes.starts_with(P256_MAGIC) || matches!(bytes[2], 2 | 3) {
                    ensure!(did == text, "{text} leads to the key {did}");
                }
            }
            Err(e) => ensure!(!good, "{text} is refused: {e:?}"),
        }
    }
    if !good {
        o.hit();
        for w in warm {
            let d = &actor(*w as usize).did;
            if !types.iter().any(|i| MAGICS[*i] == actor(*w as usize).raw.magic()) {
                ensure!(p.parse(d).is_err(), "a parser resolves a key type it is not configured for");
                continue;
            }
            let k = p.parse(d).map_err(|e| format!("after {text:?}, {d} is refused: {e:?}"))?;
            ensure!(block(k.get_did()).ok().as_ref() == Some(d), "after {text:?}, {d} leads elsewhere");
        }
    } else {
        o.label("a key after all");
    }
    Ok(())
}

fn jwt_b64(b: &[u8]) -> String {
    crate::jwt::b64(b)
}

pub fn property() -> Property {
    super::property(
        "C14",
        vec![
            part(
                "keys",
                "a key (Ed25519/P-256 from random seeds, RSA from a pool), another key, two messages and a damage to a signature; DID, algorithm and \
                 signatures compared with the crypto crates used directly, through parsers for all types, one type, other order, and \
                 through Box/Arc. Non-trivial: all.",
                4_000,
                120_000,
                cases,
                check,
            ),
            part(
                "bad-dids",
                "DID texts made from changed key bytes, bytes under another type's prefix, unsupported prefixes, other methods and spellings; \
                 resolved exactly when the bytes are a key of the type named. Non-trivial: text that is not the DID of a key.",
                40_000,
                1_000_000,
                bads,
                check_bad,
            ),
        ],
        vec![],
        vec![
            "the crypto crates (ed25519-zebra, p256, rsa) used directly are the reference for what a valid key and signature is",
            "ECDSA's (r, n-s) is as valid as (r, s); P-256 key bytes in the uncompressed or x-only form are accepted without a claim about their DID",
        ],
    )
}
