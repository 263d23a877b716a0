//! C22: verdicts do not depend on what a verifier checked before
use super::*;
use crate::gens::block;
use crate::keys::*;
use crate::model::*;
use crate::store::TestStore;
use crate::{dict, ensure, jwt, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex, OnceLock};
use ucan::chain::ProofChain;
use ucan::crypto::did::{DidParser, KeyConstructorSlice};
use ucan::crypto::KeyMaterial;
use ucan::store::{MemoryStore, UcanJwtStore};
use ucan::Ucan;
use ucan_key_support::{ed25519::bytes_to_ed25519_key, p256::bytes_to_p256_key, rsa::bytes_to_rsa_key};

const REVERSED: &KeyConstructorSlice = &[
    (RSA_MAGIC, bytes_to_rsa_key),
    (P256_MAGIC, bytes_to_p256_key),
    (ED_MAGIC, bytes_to_ed25519_key),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Spelling {
    Exact,
    Lower,
    Upper,
    Suffix(char),
    Cut,
    /// The same key bytes announced as another type of key
    OtherType(u8),
    /// One byte of the key changed
    Byte(u8, u8),
    Prefix(u8),
    Space,
}

fn spell(did: &str, s: &Spelling) -> String {
    let bytes = || bs58::decode(&did["did:key:z".len()..]).into_vec().unwrap();
    let text = |b: &[u8]| format!("did:key:z{}", bs58::encode(b).into_string());
    match s {
        Spelling::Exact => did.into(),
        Spelling::Lower => did.to_lowercase(),
        Spelling::Upper => did.to_uppercase(),
        Spelling::Suffix(c) => format!("{did}{c}"),
        Spelling::Cut => did[..did.len() - 1].into(),
        Spelling::OtherType(k) => {
            let mut b = bytes();
            let magic = [ED_MAGIC, P256_MAGIC, RSA_MAGIC, &[0xea, 0x01], &[0xed, 0x02]][*k as usize % 5];
            b[..2].copy_from_slice(magic);
            text(&b)
        }
        Spelling::Byte(i, x) => {
            let mut b = bytes();
            let i = 2 + *i as usize % (b.len() - 2);
            b[i] ^= *x;
            text(&b)
        }
        Spelling::Prefix(k) => did.replacen("did:key:z", ["did:key:Z", "did:key:", "did:kez:z", "DID:key:z", "did:key:z1"][*k as usize % 5], 1),
        Spelling::Space => format!(" {did}"),
    }
}

fn spelling() -> BoxedStrategy<Spelling> {
    prop_oneof![
        6 => Just(Spelling::Exact),
        1 => Just(Spelling::Lower),
        1 => Just(Spelling::Upper),
        1 => prop::sample::select(vec!['1', '0', 'a', ' ', 'z']).prop_map(Spelling::Suffix),
        1 => Just(Spelling::Cut),
        2 => (0u8..5).prop_map(Spelling::OtherType),
        1 => (any::<u8>(), 1u8..).prop_map(|(i, x)| Spelling::Byte(i, x)),
        1 => (0u8..5).prop_map(Spelling::Prefix),
        1 => Just(Spelling::Space),
    ]
    .boxed()
}

/// Who a question is about: an actor, or one of many more Ed25519 keys
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Who {
    Actor(u8),
    More(u16),
}

/// (made once: a flood asks about thousands)
fn more(i: u16) -> Raw {
    static KEYS: OnceLock<Mutex<HashMap<u16, Raw>>> = OnceLock::new();
    let mut keys = KEYS.get_or_init(Default::default).lock().unwrap();
    keys.entry(i)
        .or_insert_with(|| {
            let mut seed = [i as u8; 32];
            seed[1] = 0xaa;
            seed[2] = (i >> 8) as u8;
            seed[31] = 9;
            Raw::ed(seed)
        })
        .clone()
}

impl Who {
    fn raw(self) -> Raw {
        match self {
            Who::Actor(i) => actor(i as usize).raw.clone(),
            Who::More(i) => more(i),
        }
    }
}

fn who() -> BoxedStrategy<Who> {
    prop_oneof![4 => (0u8..4).prop_map(Who::Actor), 2 => (0u8..N_ACTORS as u8).prop_map(Who::Actor), 1 => (0u16..100).prop_map(Who::More)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Parse(Who, Spelling),
    /// Many keys at once
    Flood(u16),
    Validate(u8, i8),
    CheckSignature(u8),
    Chain(u8, i8),
    FromCid(u8, i8),
    /// A token naming `0` as issuer (so spelled), signed by `2`
    Forged(Who, Spelling, Who),
    /// The token at this position with the signature of the one at that position
    Spliced(u8, u8),
    Break(u8),
    Mend(u8),
    /// Only with a MemoryStore: the token becomes available
    Write(u8),
}

fn op(mem: bool) -> BoxedStrategy<Op> {
    let t = || prop_oneof![6 => Just(0i8), 1 => -30i8..30];
    // mostly the presented token and the ones close to it
    let n = || prop_oneof![3 => Just(0u8), 3 => 0u8..8];
    prop_oneof![
        3 => (who(), spelling()).prop_map(|(w, s)| Op::Parse(w, s)),
        1 => prop_oneof![6 => 0u16..60, 4 => 60u16..300, 1 => 300u16..1100, dict::w_num(1) => dict::size(0, 2000).prop_map(|n| n as u16)].prop_map(Op::Flood),
        3 => (n(), t()).prop_map(|(i, t)| Op::Validate(i, t)),
        1 => n().prop_map(Op::CheckSignature),
        6 => (n(), t()).prop_map(|(i, t)| Op::Chain(i, t)),
        3 => (n(), t()).prop_map(|(i, t)| Op::FromCid(i, t)),
        3 => (who(), spelling(), who()).prop_map(|(a, s, b)| Op::Forged(a, s, b)),
        1 => (n(), n()).prop_map(|(a, b)| Op::Spliced(a, b)),
        (if mem { 8 } else { 4 }) => (n(), any::<bool>()).prop_map(move |(i, broken)| match (mem, broken) {
            (true, _) => Op::Write(i),
            (_, true) => Op::Break(i),
            (_, false) => Op::Mend(i),
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Vec<Node>,
    faults: Vec<(u8, Fault)>,
    reversed: bool,
    ops: Vec<Op>,
}

fn ops(mem: bool) -> BoxedStrategy<Vec<Op>> {
    prop_oneof![
        12 => Just(2..30usize),
        dict::w_num(1) => dict::size(2, 100).prop_map(|n| n..n + 1),
    ]
    .prop_flat_map(move |n| prop::collection::vec(op(mem), n))
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    (
        prop_oneof![5 => tree(1, 1, 6, 2), 1 => shaped(1, 1, 1, 20)],
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec((any::<u8>(), fault()), 0..3)],
        any::<bool>(),
        ops(false),
    )
        .prop_map(|(tree, faults, reversed, ops)| Case { tree, faults, reversed, ops })
        .boxed()
}

fn cases_mem() -> BoxedStrategy<Case> {
    (tree(1, 1, 6, 2), any::<bool>(), ops(true))
        .prop_map(|(mut tree, reversed, ops)| {
            // a MemoryStore knows tokens by their BLAKE3 hash only
            tree.iter_mut().for_each(|n| n.hash = 0);
            Case { tree, faults: vec![], reversed, ops }
        })
        .boxed()
}

fn new_parser(c: &Case) -> DidParser {
    if c.reversed {
        DidParser::new(REVERSED)
    } else {
        parser()
    }
}

pub type Report = BTreeMap<Cap, (BTreeSet<usize>, Option<u64>, Option<u64>)>;

fn texts(c: &ProofChain, out: &mut Vec<String>) -> Result<(), String> {
    out.push(c.ucan().encode().map_err(|e| format!("{e:?}"))?);
    out.push(format!("{}(", c.proofs().len()));
    for p in c.proofs() {
        texts(p, out)?;
    }
    Ok(())
}

/// Everything a verifier learns about a chain; None: refused
pub fn learn(c: anyhow::Result<ProofChain>) -> Result<Option<(Vec<String>, Report)>, String> {
    let Ok(c) = c else { return Ok(None) };
    let mut t = vec![];
    texts(&c, &mut t)?;
    let mut r = Report::new();
    for i in read_infos(&c.reduce_capabilities(&SetSem))? {
        r.insert(i.cap, (i.originators, i.nbf, i.exp));
    }
    Ok(Some((t, r)))
}

type KeyArc = Arc<Box<dyn KeyMaterial>>;

fn about(k: &KeyArc) -> Result<(String, String), String> {
    Ok((block(k.get_did()).map_err(|e| format!("no DID: {e:?}"))?, k.get_jwt_algorithm_name()))
}

/// A key got for this spelling of this DID must be that key
fn right_key(k: &KeyArc, raw: &Raw, exact: bool) -> Verdict {
    let (did, alg) = about(k)?;
    if exact {
        same!(did, raw.did(), "the DID of the key got for a DID");
        same!(alg, raw.alg(), "its algorithm");
        let sig = raw.sign(b"question");
        ensure!(block(k.verify(b"question", &sig)).is_ok(), "the key got for {} does not accept its own signature", raw.did());
        let other = Who::More(200).raw().sign(b"question");
        ensure!(block(k.verify(b"question", &other)).is_err(), "the key got for {} accepts a stranger's signature", raw.did());
    } else {
        let sig = raw.sign(b"question");
        ensure!(
            did == raw.did() || block(k.verify(b"question", &sig)).is_err(),
            "the key got for {did} accepts the signature of {}", raw.did()
        );
    }
    Ok(())
}

fn run<S: UcanJwtStore>(c: &Case, o: &mut Obs, b: &mut Built, long: &mut S, fresh_store: fn(&S, &[String]) -> S, mend: fn(&mut S, &BuiltNode, bool), mem: bool) -> Verdict {
    let mut verifier = new_parser(c);
    let originally: Vec<(bool, bool)> = b.nodes.iter().map(|n| n.unbroken).collect();
    let mut written: Vec<String> = vec![];
    if mem {
        b.nodes.iter_mut().for_each(|n| {
            n.readable = false;
            n.stored = false;
        });
    }
    let n = b.nodes.len();
    let at = |t: &i8| Some(t0_and((*t).into()));
    let mut kept: Vec<(KeyArc, Raw)> = vec![];
    let (mut yes, mut no) = (0, 0);
    for (step, op) in c.ops.iter().enumerate() {
        let ctx = format!("step {step} ({op:?})");
        let mut verdict = |v: bool| if v { yes += 1 } else { no += 1 };
        match op {
            Op::Parse(w, s) => {
                let raw = w.raw();
                let text = spell(&raw.did(), s);
                let a = verifier.parse(&text);
                let f = new_parser(c).parse(&text);
                same!(a.is_ok(), f.is_ok(), "{ctx}: whether {text:?} is resolved, by the old verifier,");
                let exact = text == raw.did();
                ensure!(!exact || f.is_ok(), "{ctx}: {text} is not resolved");
                if let (Ok(a), Ok(f)) = (a, f) {
                    same!(about(&a)?, about(&f)?, "{ctx}: the key for {text:?}");
                    right_key(&a, &raw, exact).map_err(|e| format!("{ctx}: {e}"))?;
                    if exact {
                        kept.push((a, raw));
                    }
                    verdict(true);
                } else {
                    verdict(false);
                }
            }
            Op::Flood(k) => {
                for i in 0..*k {
                    let raw = Who::More(i).raw();
                    let key = verifier.parse(&raw.did()).map_err(|e| format!("{ctx}: {} is not resolved: {e:?}", raw.did()))?;
                    same!(about(&key)?.0, raw.did(), "{ctx}: the key's DID");
                }
                o.label_if(*k > 40, "more than 40 keys");
                o.label_if(*k > 256, "more than 256 keys");
            }
            Op::Validate(i, t) => {
                let node = &b.nodes[*i as usize % n];
                let Ok(u) = Ucan::try_from(node.text.as_str()) else { return Err(format!("{ctx}: {} cannot be parsed", node.text)) };
                let a = block(u.validate(at(t), &mut verifier)).is_ok();
                let f = block(u.validate(at(t), &mut new_parser(c))).is_ok();
                same!(a, f, "{ctx}: the old verifier's answer");
                same!(a, node.signed && node.in_time(at(t).unwrap()), "{ctx}: whether the token is valid");
                verdict(a);
            }
            Op::CheckSignature(i) => {
                let node = &b.nodes[*i as usize % n];
                let u = Ucan::try_from(node.text.as_str()).map_err(|e| format!("{ctx}: {e:?}"))?;
                let a = block(u.check_signature(&mut verifier)).is_ok();
                same!(a, node.signed, "{ctx}: whether the signature is right");
                verdict(a);
            }
            Op::Chain(i, t) => {
                let i = *i as usize % n;
                let text = &b.nodes[i].text;
                let a = learn(block(ProofChain::try_from_token_string(text, at(t), &mut verifier, &*long)))?;
                let f = learn(block(ProofChain::try_from_token_string(text, at(t), &mut new_parser(c), &fresh_store(long, &written))))?;
                ensure!(a == f, "{ctx}: the old verifier says {a:?}, a new one {f:?}");
                let want = b.valid(i, at(t).unwrap());
                ensure!(a.is_some() == want.is_ok(), "{ctx}: accepted: {}, but {want:?}", a.is_some());
                verdict(a.is_some());
            }
            Op::FromCid(i, t) => {
                let i = *i as usize % n;
                let cid = &b.nodes[i].cid;
                let a = learn(block(ProofChain::from_cid(cid, at(t), &mut verifier, &*long)))?;
                let f = learn(block(ProofChain::from_cid(cid, at(t), &mut new_parser(c), &fresh_store(long, &written))))?;
                ensure!(a == f, "{ctx}: the old verifier says {a:?}, a new one {f:?}");
                let want = b.nodes[i].stored && b.valid(i, at(t).unwrap()).is_ok();
                same!(a.is_some(), want, "{ctx}: accepted");
                verdict(a.is_some());
            }
            Op::Forged(victim, s, forger) => {
                let victim = victim.raw();
                let forger = forger.raw();
                let iss = spell(&victim.did(), s);
                let header = json!({"alg": victim.alg(), "typ": "JWT"}).to_string();
                let payload = json!({"ucv": "0.10.0-canary", "iss": iss, "aud": "did:web:x", "exp": null, "cap": {}, "nnc": format!("{step}")}).to_string();
                let data = format!("{}.{}", jwt::b64(header.as_bytes()), jwt::b64(payload.as_bytes()));
                let text = format!("{data}.{}", jwt::b64(&forger.sign(data.as_bytes())));
                let u = Ucan::try_from(text.as_str()).map_err(|e| format!("{ctx}: {e:?}"))?;
                let a = block(u.validate(at(&0), &mut verifier)).is_ok();
                let f = block(u.validate(at(&0), &mut new_parser(c))).is_ok();
                same!(a, f, "{ctx}: the old verifier's answer");
                same!(a, iss == forger.did(), "{ctx}: whether a token naming {iss:?}, signed by {}, is valid", forger.did());
                verdict(a);
            }
            Op::Spliced(i, j) => {
                let (i, j) = (*i as usize % n, *j as usize % n);
                let (data, _) = b.nodes[i].text.rsplit_once('.').unwrap();
                let (_, sig) = b.nodes[j].text.rsplit_once('.').unwrap();
                let u = Ucan::try_from(format!("{data}.{sig}")).map_err(|e| format!("{ctx}: {e:?}"))?;
                let a = block(u.check_signature(&mut verifier)).is_ok();
                same!(a, i == j && b.nodes[i].signed, "{ctx}: whether a token with the signature of another is valid");
                verdict(a);
            }
            Op::Break(i) | Op::Mend(i) => {
                let i = *i as usize % n;
                let works = matches!(op, Op::Mend(_));
                mend(long, &b.nodes[i], works);
                b.nodes[i].readable = works && originally[i].0;
                b.nodes[i].stored = works && originally[i].1;
            }
            Op::Write(i) => {
                let i = *i as usize % n;
                let text = b.nodes[i].text.clone();
                let cid = block(long.write_token(&text)).map_err(|e| format!("{ctx}: {e:?}"))?;
                same!(cid, b.nodes[i].cid, "{ctx}: identifier");
                b.nodes[i].readable = true;
                b.nodes[i].stored = true;
                written.push(text);
            }
        }
    }
    for (k, raw) in &kept {
        right_key(k, raw, true).map_err(|e| format!("a key got earlier: {e}"))?;
    }
    o.label_if(yes > 0 && no > 0, "accepted and refused something");
    if yes > 0 && no > 0 {
        o.hit();
    }
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let mut b = build_with(&c.tree, &c.faults);
    let mut long = b.store.clone();
    fn fresh(s: &TestStore, _: &[String]) -> TestStore {
        s.clone()
    }
    fn mend(s: &mut TestStore, n: &BuiltNode, works: bool) {
        if works {
            s.broken.remove(&n.cid);
        } else {
            s.broken.insert(n.cid);
        }
    }
    run(c, o, &mut b, &mut long, fresh, mend, false)
}

fn check_mem(c: &Case, o: &mut Obs) -> Verdict {
    let mut b = build(&c.tree);
    let mut long = MemoryStore::default();
    fn fresh(_: &MemoryStore, written: &[String]) -> MemoryStore {
        let mut s = MemoryStore::default();
        for t in written {
            block(s.write_token(t)).expect("write");
        }
        s
    }
    fn mend(_: &mut MemoryStore, _: &BuiltNode, _: bool) {}
    run(c, o, &mut b, &mut long, fresh, mend, true)
}

pub fn property() -> Property {
    super::property(
        "C22",
        vec![
            part(
                "verifier",
                "2-100 operations (mostly up to 30; resolve DIDs rightly or wrongly spelled, many keys, validate, chain by text or identifier, forged and spliced tokens, storage failing and \
                 recovering) on one parser and store, over a delegation tree with 0-2 faults; each answer is compared with a new parser's and with what the tree says. \
                 Non-trivial: something was accepted and something refused.",
                8_000,
                400_000,
                cases,
                check,
            ),
            part(
                "memory-store",
                "the same with a MemoryStore to which the tokens are written in between, compared with a new store to which the same was written. Non-trivial: as above.",
                4_000,
                200_000,
                cases_mem,
                check_mem,
            ),
        ],
        vec![],
        vec![],
    )
}
