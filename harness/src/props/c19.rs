//! C19: the builder honours what it is told and fails cleanly when it cannot
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::run::no_panic;
use crate::{clock, ensure, jwt, same};
use async_trait::async_trait;
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::sync::{Arc, Mutex};
use ucan::builder::{Signable, UcanBuilder};
use ucan::capability::Capability;
use ucan::crypto::KeyMaterial;
use ucan::Ucan;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Issuer(usize),
    Audience(String),
    Lifetime(u64),
    Expiration(u64),
    NotBefore(u64),
    Fact(String, Value),
    Nonce,
    Claim(String, String, Value),
    Claims(Vec<(String, String, Value)>),
    Witness(u8, Option<u8>),
    Delegate(u8, Option<u8>),
    /// Continue with a clone of the builder, and check that the original is not affected
    Fork,
    /// The machine clock moves
    Clock(u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    start: u64,
    ops: Vec<Op>,
    /// How far the clock moves between building and signing
    later: u64,
}

fn small() -> BoxedStrategy<u64> {
    prop_oneof![3 => 0u64..100, 2 => bound()].boxed()
}

fn clock_value() -> BoxedStrategy<u64> {
    prop_oneof![4 => 1_600_000_000u64..1_900_000_000, 1 => 0u64..10, 1 => Just(i64::MAX as u64 / 2), 1 => Just(u32::MAX as u64)].boxed()
}

fn op(bad: u32) -> BoxedStrategy<Op> {
    let caveat = move || prop_oneof![30 => object(false), bad => prop_oneof![json(false), Just(json!([])), Just(json!([{}])), Just(json!("x")), Just(Value::Null), Just(json!(1))]];
    prop_oneof![
        4 => any_actor().prop_map(Op::Issuer),
        4 => did_text().prop_map(Op::Audience),
        2 => small().prop_map(Op::Lifetime),
        2 => small().prop_map(Op::Expiration),
        2 => small().prop_map(Op::NotBefore),
        3 => (key(), json(false)).prop_map(|(k, v)| Op::Fact(k, v)),
        1 => Just(Op::Nonce),
        3 => (resource_text(), ability_text(), caveat()).prop_map(|(r, a, c)| Op::Claim(r, a, c)),
        1 => prop::collection::vec((resource_text(), ability_text(), caveat()), 0..4).prop_map(Op::Claims),
        1 => (0u8..3, prop::option::of(0u8..jwt::HASHES.len() as u8)).prop_map(|(i, h)| Op::Witness(i, h)),
        1 => (0u8..3, prop::option::of(0u8..jwt::HASHES.len() as u8)).prop_map(|(i, h)| Op::Delegate(i, h)),
        1 => Just(Op::Fork),
        1 => clock_value().prop_map(Op::Clock),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    let end = prop_oneof![
        6 => (any_actor(), did_text()).prop_map(|(i, a)| vec![Op::Issuer(i), Op::Audience(a)]),
        1 => Just(vec![]),
        1 => any_actor().prop_map(|i| vec![Op::Issuer(i)]),
        1 => did_text().prop_map(|a| vec![Op::Audience(a)]),
    ];
    (
        clock_value(),
        prop_oneof![4 => sized(op(0), 0..14, 70), 1 => prop::collection::vec(op(6), 0..10)],
        end,
        any::<u32>(),
        prop_oneof![Just(0u64), 1u64..1000],
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), any::<u8>(), 0u8..4), 1..4)],
    )
        .prop_map(|(start, mut ops, end, seed, later, again)| {
            // the same once more, or much the same
            for (from, to, how) in again {
                if ops.is_empty() {
                    break;
                }
                let claims = |o: &Op| match o {
                    Op::Claim(r, a, v) => vec![(r.clone(), a.clone(), v.clone())],
                    Op::Claims(v) => v.clone(),
                    _ => vec![],
                };
                let all: Vec<_> = ops.iter().flat_map(claims).collect();
                let op = match how {
                    1 if !all.is_empty() => Op::Claims(all),
                    2 if !all.is_empty() => Op::Claims(vec![all[from as usize % all.len()].clone(), all[to as usize % all.len()].clone()]),
                    3 if !all.is_empty() => {
                        let (r, a, v) = all[from as usize % all.len()].clone();
                        Op::Claim(r, a, v)
                    }
                    _ => ops[from as usize % ops.len()].clone(),
                };
                let to = to as usize % (ops.len() + 1);
                ops.insert(to, op);
            }
            // the settings without which nothing is built go to random places
            for (i, e) in end.into_iter().enumerate() {
                let at = (seed >> (8 * i)) as usize % (ops.len() + 1);
                ops.insert(at, e);
            }
            Case { start, ops, later }
        })
        .boxed()
}

/// Three tokens to use as proofs
fn proofs() -> &'static Vec<(Ucan, String)> {
    static P: std::sync::OnceLock<Vec<(Ucan, String)>> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        (0..3)
            .map(|i| {
                let a = ed(i);
                let t = jwt::token(a, &json!({"ucv": "0.10.0-canary", "iss": a.did, "aud": ed(5).did, "exp": null, "cap": {}, "nnc": format!("{i}")}));
                (Ucan::try_from(t.as_str()).expect("proof"), t)
            })
            .collect()
    })
}

#[derive(Clone, Default, Debug, PartialEq)]
struct Model {
    issuer: Option<usize>,
    audience: Option<String>,
    lifetime: Option<u64>,
    expiration: Option<u64>,
    nbf: Option<u64>,
    facts: BTreeMap<String, Value>,
    caps: Vec<(String, String, Value)>,
    proofs: Vec<String>,
    nonce: bool,
}

type Shared = Arc<Box<dyn KeyMaterial>>;
type Builder = UcanBuilder<'static, Shared>;

/// The actors' keys in a form that can be cloned, which cloning a builder requires
fn shared(i: usize) -> &'static Shared {
    static KEYS: std::sync::OnceLock<Vec<Shared>> = std::sync::OnceLock::new();
    &KEYS.get_or_init(|| (0..N_ACTORS).map(|i| Arc::new(actor(i).raw.material(true))).collect())[i % N_ACTORS]
}

static NONCES: Mutex<Option<HashSet<String>>> = Mutex::new(None);

fn check_built(b: Builder, m: &Model, later: u64, o: &mut Obs) -> Verdict {
    let at = clock::real_now();
    let built = no_panic(|| b.build())?;
    let after = clock::real_now();
    let (Some(iss), Some(aud)) = (m.issuer, m.audience.as_ref()) else {
        ensure!(built.is_err(), "built without {}", if m.issuer.is_none() { "an issuer" } else { "an audience" });
        o.label("incomplete");
        return Ok(());
    };
    let s: Signable<_> = built.map_err(|e| format!("cannot be built: {e:?}"))?;
    let a = actor(iss);
    same!(s.audience, *aud, "audience");
    same!(s.not_before, m.nbf, "not-before");
    same!(s.add_nonce, m.nonce, "nonce asked for");
    same!(s.facts, m.facts, "facts");
    same!(s.proofs, m.proofs, "proofs");
    let caps: Vec<(String, String, Value)> = s.capabilities.iter().map(|c| (c.resource.clone(), c.ability.clone(), c.caveat.clone())).collect();
    same!(caps, m.caps, "capabilities");
    match (m.expiration, m.lifetime) {
        (Some(e), _) => same!(s.expiration, Some(e), "expiry"),
        (None, Some(l)) => {
            o.label("lifetime");
            let e = s.expiration.ok_or("a lifetime gives no expiry")?;
            ensure!(
                at.saturating_add(l) <= e && e <= after.saturating_add(l),
                "a lifetime of {l} at {at} gives the expiry {e}"
            );
        }
        (None, None) => same!(s.expiration, None, "expiry"),
    }
    let expiration = s.expiration;
    if clock::works() && later > 0 {
        clock::set(at + later);
    }
    let representable = m.caps.iter().all(|(_, _, c)| c.is_object());
    let first = no_panic(|| block(s.sign()))?;
    if !representable {
        o.label("unrepresentable claim");
        ensure!(first.is_err(), "a claim whose caveat is not an object is signed");
        return Ok(());
    }
    let first = first.map_err(|e| format!("cannot be signed: {e:?}"))?;
    let second = no_panic(|| block(s.sign()))?.map_err(|e| format!("cannot be signed again: {e:?}"))?;
    o.label("signed");
    for u in [&first, &second] {
        same!(u.issuer(), a.did, "issuer");
        same!(u.audience(), aud, "audience");
        same!(u.algorithm(), a.raw.alg(), "algorithm");
        same!(u.version(), "0.10.0-canary", "version");
        same!(*u.expires_at(), expiration, "expiry");
        same!(*u.not_before(), m.nbf, "not-before");
        same!(u.facts().clone().unwrap_or_default(), m.facts, "facts");
        same!(u.proofs().clone().unwrap_or_default(), m.proofs, "proofs");
        same!(serde_json::to_value(u.capabilities()).map_err(|e| e.to_string())?, json!(group(&m.caps)), "capabilities");
        let data = std::str::from_utf8(u.signed_data()).map_err(|e| e.to_string())?;
        ensure!(a.raw.verify(data.as_bytes(), u.signature()), "the signature is not the issuer's");
        let (_, p, _) = jwt::open(&u.encode().map_err(|e| format!("{e:?}"))?)?;
        let mut want = json!({"ucv": "0.10.0-canary", "iss": a.did, "aud": aud, "exp": expiration, "cap": group(&m.caps)});
        if let Some(n) = m.nbf {
            want["nbf"] = json!(n);
        }
        if !m.facts.is_empty() {
            want["fct"] = json!(m.facts);
        }
        if !m.proofs.is_empty() {
            want["prf"] = json!(m.proofs);
        }
        match u.nonce() {
            Some(n) => {
                ensure!(m.nonce, "a nonce nobody asked for");
                want["nnc"] = json!(n);
                let raw = jwt::unb64(n).ok_or_else(|| format!("the nonce {n:?} is not base64"))?;
                ensure!(raw.len() >= 12, "the nonce {n:?} has {} bytes", raw.len());
                let fresh = NONCES.lock().unwrap().get_or_insert_with(HashSet::new).insert(n.clone());
                ensure!(fresh, "the nonce {n:?} was used before");
                o.label("nonce");
            }
            None => ensure!(!m.nonce, "no nonce, although asked for"),
        }
        same!(p.to_value(), want, "payload of the token text");
    }
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let fake = clock::works();
    if fake {
        clock::set(c.start);
    }
    let mut b: Builder = UcanBuilder::default();
    let mut m = Model::default();
    let mut forks: Vec<(Builder, Model)> = vec![];
    let cap = |(r, a, v): &(String, String, Value)| Capability::new(r.clone(), a.clone(), v.clone());
    for op in &c.ops {
        match op.clone() {
            Op::Issuer(i) => {
                b = b.issued_by(shared(i));
                m.issuer = Some(i);
            }
            Op::Audience(t) => {
                b = b.for_audience(&t);
                m.audience = Some(t);
            }
            Op::Lifetime(n) => {
                b = b.with_lifetime(n);
                m.lifetime = Some(n);
            }
            Op::Expiration(n) => {
                b = b.with_expiration(n);
                m.expiration = Some(n);
            }
            Op::NotBefore(n) => {
                b = b.not_before(n);
                m.nbf = Some(n);
            }
            Op::Fact(k, v) => {
                b = b.with_fact(&k, v.clone());
                m.facts.insert(k, v);
            }
            Op::Nonce => {
                b = b.with_nonce();
                m.nonce = true;
            }
            Op::Claim(r, a, v) => {
                b = b.claiming_capability(cap(&(r.clone(), a.clone(), v.clone())));
                m.caps.push((r, a, v));
            }
            Op::Claims(v) => {
                let list: Vec<Capability> = v.iter().map(cap).collect();
                b = b.claiming_capabilities(&list);
                m.caps.extend(v);
            }
            Op::Witness(i, h) => {
                let (u, t) = &proofs()[i as usize % 3];
                b = b.witnessed_by(u, h.map(|h| jwt::hash_code(h as usize)));
                m.proofs.push(jwt::cid_text(h.unwrap_or(0) as usize, t.as_bytes()));
            }
            Op::Delegate(i, h) => {
                let (u, t) = &proofs()[i as usize % 3];
                b = b.delegating_from(u, h.map(|h| jwt::hash_code(h as usize)));
                m.caps.push((format!("prf:{}", m.proofs.len()), "ucan/DELEGATE".into(), json!({})));
                m.proofs.push(jwt::cid_text(h.unwrap_or(0) as usize, t.as_bytes()));
            }
            Op::Fork => {
                if forks.len() < 2 {
                    forks.push((b.clone(), m.clone()));
                }
            }
            Op::Clock(t) => {
                if fake {
                    clock::set(t);
                }
            }
        }
    }
    if c.ops.len() > 2 {
        o.hit();
    }
    check_built(b, &m, c.later, o)?;
    for (b, m) in forks {
        o.label("forked");
        check_built(b, &m, c.later, o)?;
    }
    Ok(())
}

// --- the order of calls for different settings ---------------------------------------------------------

fn kind(op: &Op) -> u8 {
    match op {
        Op::Issuer(_) => 0,
        Op::Audience(_) => 1,
        Op::Lifetime(_) => 2,
        Op::Expiration(_) => 3,
        Op::NotBefore(_) => 4,
        Op::Fact(..) => 5,
        Op::Nonce => 6,
        // these all touch capabilities or proofs
        _ => 7,
    }
}

/// Permutes the calls, keeping the order among calls for the same setting
fn check_order(c: &(Vec<Op>, Vec<u32>), o: &mut Obs) -> Verdict {
    let (ops, keys) = c;
    if clock::works() {
        clock::set(1_700_000_000);
    }
    let mut ops: Vec<Op> = ops.iter().filter(|x| !matches!(x, Op::Clock(_) | Op::Fork | Op::Nonce)).cloned().collect();
    ops.insert(0, Op::Issuer(0));
    ops.insert(1, Op::Audience("did:web:x".into()));
    if !clock::works() {
        ops.retain(|x| !matches!(x, Op::Lifetime(_)));
    }
    // stable merge of the per-setting queues in an order given by the keys
    let mut queues: Vec<Vec<Op>> = vec![vec![]; 8];
    for x in &ops {
        queues[kind(x) as usize].push(x.clone());
    }
    let mut shuffled = vec![];
    let mut heads = [0usize; 8];
    for i in 0..ops.len() {
        let open: Vec<usize> = (0..8).filter(|q| heads[*q] < queues[*q].len()).collect();
        let q = open[keys.get(i).copied().unwrap_or(i as u32) as usize % open.len()];
        shuffled.push(queues[q][heads[q]].clone());
        heads[q] += 1;
    }
    let run = |ops: &[Op]| -> Result<Option<String>, String> {
        let mut b: Builder = UcanBuilder::default();
        for op in ops {
            b = match op.clone() {
                Op::Issuer(i) => b.issued_by(shared(i)),
                Op::Audience(t) => b.for_audience(&t),
                Op::Lifetime(n) => b.with_lifetime(n),
                Op::Expiration(n) => b.with_expiration(n),
                Op::NotBefore(n) => b.not_before(n),
                Op::Fact(k, v) => b.with_fact(&k, v),
                Op::Claim(r, a, v) => b.claiming_capability(Capability::new(r, a, v)),
                Op::Claims(v) => {
                    let l: Vec<Capability> = v.into_iter().map(Capability::from).collect();
                    b.claiming_capabilities(&l)
                }
                Op::Witness(i, h) => b.witnessed_by(&proofs()[i as usize % 3].0, h.map(|h| jwt::hash_code(h as usize))),
                Op::Delegate(i, h) => b.delegating_from(&proofs()[i as usize % 3].0, h.map(|h| jwt::hash_code(h as usize))),
                _ => b,
            };
        }
        let s = b.build().map_err(|e| format!("{e:?}"))?;
        Ok(block(s.sign()).ok().map(|u| u.encode().unwrap_or_default()))
    };
    let a = run(&ops)?;
    let b = run(&shuffled)?;
    o.hit();
    same!(b, a, "token after reordering calls to {:?}", shuffled.iter().map(kind).collect::<Vec<_>>());
    Ok(())
}

fn orders() -> BoxedStrategy<(Vec<Op>, Vec<u32>)> {
    (sized(op(0), 1..12, 40), prop::collection::vec(any::<u32>(), 42)).boxed()
}

// --- keys that fail --------------------------------------------------------------------------------------

struct Flaky {
    alg: String,
    did: Option<String>,
    sig: Option<Vec<u8>>,
}

#[async_trait]
impl KeyMaterial for Flaky {
    fn get_jwt_algorithm_name(&self) -> String {
        self.alg.clone()
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        self.did.clone().ok_or_else(|| anyhow::anyhow!("no name"))
    }
    async fn sign(&self, _: &[u8]) -> anyhow::Result<Vec<u8>> {
        self.sig.clone().ok_or_else(|| anyhow::anyhow!("cannot sign"))
    }
    async fn verify(&self, _: &[u8], _: &[u8]) -> anyhow::Result<()> {
        Err(anyhow::anyhow!("cannot verify"))
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FlakyCase {
    alg: String,
    did: Option<String>,
    sig: Option<Vec<u8>>,
    caps: Vec<(String, String, Value)>,
    facts: Vec<(String, Value)>,
    nonce: bool,
}

fn flaky() -> BoxedStrategy<FlakyCase> {
    (
        prop_oneof![Just("EdDSA".to_string()), text()],
        prop::option::weighted(0.7, did_text()),
        prop::option::weighted(0.7, prop::collection::vec(any::<u8>(), 0..70)),
        prop_oneof![
            3 => caps(false, 3),
            1 => prop::collection::vec((resource_text(), ability_text(), json(true)), 1..4),
        ],
        prop::collection::vec((key(), json(true)), 0..3),
        any::<bool>(),
    )
        .prop_map(|(alg, did, sig, caps, facts, nonce)| FlakyCase { alg, did, sig, caps, facts, nonce })
        .boxed()
}

fn check_flaky(c: &FlakyCase, o: &mut Obs) -> Verdict {
    let key = Flaky { alg: c.alg.clone(), did: c.did.clone(), sig: c.sig.clone() };
    let mut b = UcanBuilder::default().issued_by(&key).for_audience("did:web:x");
    for (r, a, v) in &c.caps {
        b = b.claiming_capability(Capability::new(r.clone(), a.clone(), v.clone()));
    }
    for (k, v) in &c.facts {
        b = b.with_fact(k, v.clone());
    }
    if c.nonce {
        b = b.with_nonce();
    }
    let s = no_panic(|| b.build())?.map_err(|e| format!("{e:?}"))?;
    let r = no_panic(|| block(s.sign()))?;
    let bad_caps = c.caps.iter().any(|(_, _, v)| !v.is_object());
    let reserved = c.caps.iter().any(|(r, a, v)| r == "/" || a == "/" || has_slash(v)) || c.facts.iter().any(|(k, v)| k == "/" || has_slash(v));
    let fails = c.did.is_none() || c.sig.is_none() || bad_caps;
    o.label_if(c.did.is_none(), "no DID");
    o.label_if(c.sig.is_none(), "cannot sign");
    o.label_if(bad_caps, "caveat not an object");
    o.label_if(reserved, "reserved key");
    if fails || reserved {
        o.hit();
    }
    match r {
        Ok(u) => {
            ensure!(!fails, "a token is signed although {}", if bad_caps { "a caveat is not an object" } else { "the key fails" });
            // whatever is signed can be read again, and means the same
            let t = u.encode().map_err(|e| format!("signed, but cannot be encoded: {e:?}"))?;
            let v = Ucan::try_from(t.as_str()).map_err(|e| format!("signed, but its text {t} cannot be read: {e:?}"))?;
            same!(v.issuer(), c.did.as_deref().unwrap_or_default(), "issuer");
            same!(v.facts().clone().unwrap_or_default(), c.facts.iter().cloned().collect::<BTreeMap<_, _>>(), "facts");
            same!(serde_json::to_value(v.capabilities()).map_err(|e| e.to_string())?, json!(group(&c.caps)), "capabilities");
            same!(v.algorithm(), c.alg, "algorithm");
            same!(Some(v.signature()), c.sig.as_deref(), "signature");
        }
        Err(e) => ensure!(fails || reserved, "cannot be signed: {e:?}"),
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C19",
        vec![
            part(
                "calls",
                "sequences of up to 16 builder calls (every setting, repeated, clones, a machine clock set to chosen values that moves between building and signing, extreme \
                 lifetimes and bounds) against a record of what was said; the token text is compared field by field. Non-trivial: more than two calls.",
                24_000,
                600_000,
                cases,
                check,
            ),
            part(
                "order",
                "a sequence of calls and a random reordering that keeps the order among calls for the same setting give the same token text. Non-trivial: all.",
                10_000,
                200_000,
                orders,
                check_order,
            ),
            part(
                "failing-keys",
                "a key whose name, algorithm or signature is arbitrary or fails, with claims and facts that may not be representable (caveats that are no objects, keys that DAG-JSON \
                 reserves): an error or a token that reads back the same. Non-trivial: something fails or is reserved.",
                24_000,
                600_000,
                flaky,
                check_flaky,
            ),
        ],
        vec![],
        vec!["freshness of nonces is checked among all nonces made during a run"],
    )
}
