//! C15: the token store returns exactly what was written under its content hash
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::store::TestStore;
use crate::{ensure, jwt};
use cid::multihash::Multihash;
use cid::Cid;
use libipld_core::ipld::Ipld;
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::json;
use std::collections::BTreeMap;
use ucan::chain::ProofChain;
use ucan::store::{MemoryStore, UcanJwtStore, UcanStore};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Write(u8, u8),
    WriteNew(u8, String),
    WriteBytes(u8, Vec<u8>),
    /// A value that has no raw encoding
    WriteOdd(u8, u8),
    Clone(u8),
    Drop(u8),
    Read(u8, u8),
    /// Text never written
    ReadUnknown(u8, String),
    /// A near miss of the identifier of something written
    ReadNear(u8, u8, u8),
    /// Use a stored token as a proof
    Chain(u8, u8),
    /// Fresh store, independent of the others
    New,
    /// So many more different tokens
    WriteMany(u8, u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pool: Vec<String>,
    ops: Vec<Op>,
}

fn content() -> BoxedStrategy<String> {
    prop_oneof![
        3 => text(),
        2 => "[a-zA-Z0-9_-]{1,60}\\.[a-zA-Z0-9_-]{1,200}\\.[a-zA-Z0-9_-]{1,90}",
        1 => (0..N_ED, 0..N_ED, "[a-z]{0,5}").prop_map(|(i, a, n)| {
            jwt::token(actor(i), &json!({"ucv": "0.10.0-canary", "iss": actor(i).did, "aud": actor(a).did, "exp": null, "cap": {}, "nnc": n}))
        }),
        1 => prop_oneof![40 => (1usize..40).prop_map(|n| "x".repeat(n * 173)), 1 => big()],
    ]
    .boxed()
}

fn op() -> BoxedStrategy<Op> {
    let h = || 0u8..6;
    prop_oneof![
        6 => (h(), any::<u8>()).prop_map(|(h, i)| Op::Write(h, i)),
        1 => (h(), content()).prop_map(|(h, t)| Op::WriteNew(h, t)),
        1 => (h(), prop::collection::vec(any::<u8>(), 0..12)).prop_map(|(h, b)| Op::WriteBytes(h, b)),
        1 => (h(), 0u8..5).prop_map(|(h, k)| Op::WriteOdd(h, k)),
        2 => h().prop_map(Op::Clone),
        1 => h().prop_map(Op::Drop),
        6 => (h(), any::<u8>()).prop_map(|(h, i)| Op::Read(h, i)),
        1 => (h(), content()).prop_map(|(h, t)| Op::ReadUnknown(h, t)),
        3 => (h(), any::<u8>(), 0u8..11).prop_map(|(h, i, k)| Op::ReadNear(h, i, k)),
        1 => (h(), any::<u8>()).prop_map(|(h, i)| Op::Chain(h, i)),
        1 => Just(Op::New),
        1 => prop_oneof![30 => Just(0u16), 1 => 40u16..1200, crate::dict::w_num(1) => crate::dict::size(1, 5000).prop_map(|n| n as u16)].prop_flat_map(move |n| h().prop_map(move |h| Op::WriteMany(h, n))),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    (sized(content(), 1..8, 40), sized(op(), 1..40, 300))
        .prop_map(|(pool, ops)| Case { pool, ops })
        .boxed()
}

type Model = BTreeMap<String, Vec<u8>>;

fn cid_of(b: &[u8]) -> Cid {
    Cid::try_from(jwt::cid_bytes(0, b).as_slice()).expect("identifier")
}

/// Everything that reading an identifier can show
fn check_read(s: &MemoryStore, m: &Model, cid: &Cid) -> Verdict {
    let raw = block(s.read::<Ipld>(cid));
    let token = block(s.read_token(cid));
    let need = block(s.require_token(cid));
    let key = cid.to_string();
    let written = if cid.codec() == 0x55 { m.get(&key) } else { None };
    match written {
        Some(b) => {
            match raw {
                Ok(Some(Ipld::Bytes(x))) => ensure!(&x == b, "{key} reads {x:?}, but {b:?} was written"),
                r => return Err(format!("{key} was written, but reads {r:?}")),
            }
            match std::str::from_utf8(b) {
                Ok(t) => {
                    match token {
                        Ok(Some(x)) => ensure!(x == t, "{key} reads {x:?}, but {t:?} was written"),
                        r => return Err(format!("{key} holds {t:?}, but reads {r:?}")),
                    }
                    match need {
                        Ok(x) => ensure!(x == t, "requiring {key} gives {x:?}, but {t:?} was written"),
                        Err(e) => return Err(format!("{key} was written, but requiring it fails: {e:?}")),
                    }
                }
                Err(_) => {
                    ensure!(token.is_err(), "content that is not text is read as the token {token:?}");
                    ensure!(need.is_err(), "content that is not text is given as the token {need:?}");
                }
            }
        }
        None => {
            ensure!(!matches!(raw, Ok(Some(_))), "{key} was never written, but reads {raw:?}");
            ensure!(!matches!(token, Ok(Some(_))), "{key} was never written, but is read as the token {token:?}");
            ensure!(need.is_err(), "requiring {key}, which was never written, gives {need:?}");
            if cid.codec() != 0x55 {
                ensure!(token.is_err(), "an identifier of codec {:#x} is not refused", cid.codec());
            }
        }
    }
    Ok(())
}

fn near(b: &[u8], kind: u8) -> Cid {
    let hash = |i: usize| jwt::multihash(i, b);
    match kind {
        0 => Cid::new_v1(0x71, hash(0)),
        1 => Cid::new_v1(0x70, hash(0)),
        2 => Cid::new_v1(0x0129, hash(0)),
        3 => Cid::new_v1(0x56, hash(0)),
        4 => Cid::new_v1(0x55, hash(1)),
        5 => Cid::new_v0(hash(1)).expect("v0"),
        6 => {
            let mut d = jwt::digest(0, b);
            d[31] ^= 1;
            Cid::new_v1(0x55, Multihash::wrap(0x1e, &d).expect("mh"))
        }
        7 => {
            let d = jwt::digest(0, b);
            Cid::new_v1(0x55, Multihash::wrap(0x1e, &d[..20]).expect("mh"))
        }
        8 => Cid::new_v1(0x55, Multihash::wrap(0, &b[..b.len().min(32)]).expect("mh")),
        9 => {
            let d = jwt::digest(0, b);
            Cid::new_v1(0x55, Multihash::wrap(0x12, &d).expect("mh"))
        }
        _ => Cid::new_v1(0x55, hash(6)),
    }
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    // handles: (store, index of the model it shares)
    let mut stores = vec![(MemoryStore::default(), 0usize)];
    let mut models: Vec<Model> = vec![Model::new()];
    let mut pool = c.pool.clone();
    let mut writes = 0;
    let mut reads = 0;
    for op in &c.ops {
        let n = stores.len();
        let pick = |h: &u8| *h as usize % n;
        let mut write = |h: usize, b: &[u8]| -> Verdict {
            let (s, m) = &mut stores[h];
            let cid = match std::str::from_utf8(b) {
                Ok(t) => block(s.write_token(t)),
                Err(_) => block(s.write(Ipld::Bytes(b.to_vec()))),
            }
            .map_err(|e| format!("write fails: {e:?}"))?;
            let expect = cid_of(b);
            ensure!(cid == expect, "writing gives the identifier {cid}, expected {expect}");
            models[*m].insert(expect.to_string(), b.to_vec());
            Ok(())
        };
        match op {
            Op::Write(h, i) => {
                writes += 1;
                let t = pool[*i as usize % pool.len()].clone();
                write(pick(h), t.as_bytes())?;
            }
            Op::WriteNew(h, t) => {
                writes += 1;
                write(pick(h), t.as_bytes())?;
                pool.push(t.clone());
            }
            Op::WriteBytes(h, b) => {
                writes += 1;
                write(pick(h), b)?;
                let (s, m) = &stores[pick(h)];
                check_read(s, &models[*m], &cid_of(b))?;
            }
            Op::WriteOdd(h, k) => {
                let v = match k {
                    0 => Ipld::Null,
                    1 => Ipld::String("a.b.c".into()),
                    2 => Ipld::Integer(7),
                    3 => Ipld::List(vec![Ipld::Bytes(vec![1])]),
                    _ => Ipld::Map(Default::default()),
                };
                let h = pick(h);
                let r = block(stores[h].0.write(v));
                ensure!(r.is_err(), "a value without raw form is stored as {r:?}");
            }
            Op::WriteMany(h, n) => {
                writes += 1;
                for i in 0..*n {
                    let t = format!("many {i}");
                    write(pick(h), t.as_bytes())?;
                }
                if *n > 0 {
                    o.label("hundreds of tokens");
                }
            }
            Op::Clone(h) => {
                if n < 6 {
                    let x = stores[pick(h)].clone();
                    stores.push(x);
                }
            }
            Op::Drop(h) => {
                if n > 1 {
                    stores.remove(pick(h));
                }
            }
            Op::New => {
                if n < 6 {
                    models.push(Model::new());
                    stores.push((MemoryStore::default(), models.len() - 1));
                }
            }
            Op::Read(h, i) => {
                reads += 1;
                let (s, m) = &stores[pick(h)];
                let t = &pool[*i as usize % pool.len()];
                check_read(s, &models[*m], &cid_of(t.as_bytes()))?;
            }
            Op::ReadUnknown(h, t) => {
                let (s, m) = &stores[pick(h)];
                check_read(s, &models[*m], &cid_of(t.as_bytes()))?;
            }
            Op::ReadNear(h, i, k) => {
                let (s, m) = &stores[pick(h)];
                let t = &pool[*i as usize % pool.len()];
                check_read(s, &models[*m], &near(t.as_bytes(), *k))?;
            }
            Op::Chain(h, i) => {
                let (s, m) = &stores[pick(h)];
                let t = pool[*i as usize % pool.len()].clone();
                let Ok(u) = ucan::Ucan::try_from(t.as_str()) else { continue };
                let Some(who) = actors().iter().find(|a| a.did == u.audience()) else { continue };
                let has = models[*m].contains_key(&cid_of(t.as_bytes()).to_string());
                let root = jwt::token(
                    who,
                    &json!({"ucv": "0.10.0-canary", "iss": who.did, "aud": "did:x:y", "exp": null, "cap": {}, "prf": [jwt::cid_text(0, t.as_bytes())]}),
                );
                let signed = block(u.check_signature(&mut parser())).is_ok();
                let r = block(ProofChain::try_from_token_string(&root, Some(5), &mut parser(), s));
                o.label("used as a proof");
                ensure!(r.is_ok() == (has && signed), "a proof that {} resolves as {:?}", if has { "was written" } else { "was not written" }, r.map(|_| ()));
            }
        }
    }
    // at the end every handle shows exactly what was written
    for (s, m) in &stores {
        for b in models[*m].values() {
            check_read(s, &models[*m], &cid_of(b))?;
        }
        for t in &pool {
            check_read(s, &models[*m], &cid_of(t.as_bytes()))?;
        }
    }
    if writes > 0 && reads > 0 {
        o.hit();
    }
    o.label_if(stores.len() > 1, "several handles");
    Ok(())
}

// --- several threads ---------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Threads {
    pool: Vec<String>,
    /// Per thread: (write or read, which)
    work: Vec<Vec<(bool, u8)>>,
    rounds: u8,
}

fn threads() -> BoxedStrategy<Threads> {
    (
        prop::collection::vec(content(), 1..6),
        prop::collection::vec(prop::collection::vec((any::<bool>(), any::<u8>()), 1..20), 2..6),
        1u8..6,
    )
        .prop_map(|(pool, work, rounds)| Threads { pool, work, rounds })
        .boxed()
}

fn check_threads(c: &Threads, o: &mut Obs) -> Verdict {
    o.hit();
    let store = MemoryStore::default();
    let barrier = std::sync::Barrier::new(c.work.len());
    let answers: Vec<Verdict> = std::thread::scope(|scope| {
        let handles: Vec<_> = c
            .work
            .iter()
            .map(|w| {
                let mut s = store.clone();
                let barrier = &barrier;
                scope.spawn(move || -> Verdict {
                    barrier.wait();
                    let mut mine = Model::new();
                    for _ in 0..c.rounds {
                        for (write, i) in w {
                            let t = &c.pool[*i as usize % c.pool.len()];
                            let cid = cid_of(t.as_bytes());
                            if *write {
                                let got = block(s.write_token(t)).map_err(|e| format!("write fails: {e:?}"))?;
                                ensure!(got == cid, "writing gives the identifier {got}, expected {cid}");
                                mine.insert(cid.to_string(), t.clone().into_bytes());
                            } else if mine.contains_key(&cid.to_string()) {
                                check_read(&s, &mine, &cid)?;
                            } else if let Ok(Some(x)) = block(s.read_token(&cid)) {
                                // another thread may have written it
                                ensure!(&x == t, "{cid} reads {x:?}, expected {t:?}");
                            }
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        handles
            .into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into())))
            .collect()
    });
    for a in answers {
        a?;
    }
    let mut all = Model::new();
    for w in &c.work {
        for (write, i) in w {
            if *write {
                let t = &c.pool[*i as usize % c.pool.len()];
                all.insert(cid_of(t.as_bytes()).to_string(), t.clone().into_bytes());
            }
        }
    }
    for t in &c.pool {
        check_read(&store, &all, &cid_of(t.as_bytes()))?;
    }
    o.label(format!("{} threads", c.work.len()));
    Ok(())
}

// --- stores of others ----------------------------------------------------------------------------------

/// What a store of someone else's holds: (content, codec, hash, cannot be read)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Foreign {
    held: Vec<(Vec<u8>, u64, u8, bool)>,
}

fn foreign() -> BoxedStrategy<Foreign> {
    let codec = prop_oneof![3 => Just(0x55u64), 1 => Just(0x70u64), 3 => prop::sample::select(vec![0x71u64, 0x70, 0x0129, 0x0200, 0x51, 0x00, 0x54, 0x56, 0x72, 0x155, 0x5500]), 1 => any::<u32>().prop_map(u64::from)];
    let content = prop_oneof![3 => content().prop_map(String::into_bytes), 1 => prop::collection::vec(any::<u8>(), 0..20)];
    prop::collection::vec((content, codec, 0u8..8, prop::bool::weighted(0.1)), 1..6).prop_map(|held| Foreign { held }).boxed()
}

fn check_foreign(c: &Foreign, o: &mut Obs) -> Verdict {
    let mut s = TestStore::default();
    let mut at: BTreeMap<String, (Cid, &(Vec<u8>, u64, u8, bool))> = BTreeMap::new();
    for h in &c.held {
        let cid = match (h.1, h.2 % 2) {
            (0x70, 0) => Cid::new_v0(jwt::multihash(1, &h.0)).unwrap(),
            _ => Cid::new_v1(h.1, jwt::multihash(h.2 as usize, &h.0)),
        };
        if h.3 {
            s.broken.insert(cid);
        } else {
            s.broken.remove(&cid);
        }
        s.blocks.insert(cid, h.0.clone());
        at.insert(cid.to_string(), (cid, h));
    }
    for (cid, (bytes, codec, _, broken)) in at.values() {
        let token = block(s.read_token(cid));
        let need = block(s.require_token(cid));
        let text = std::str::from_utf8(bytes).ok();
        if *codec == 0x55 && !broken && text.is_some() {
            ensure!(token.as_ref().ok().and_then(|t| t.as_deref()) == text, "{cid} holds {text:?}, but is read as {token:?}");
            ensure!(need.as_deref().ok() == text, "{cid} holds {text:?}, but requiring it gives {need:?}");
            continue;
        }
        o.hit();
        o.label(if *codec != 0x55 {
            "another codec"
        } else if *broken {
            "storage failure"
        } else {
            "not text"
        });
        ensure!(token.is_err(), "{cid} (codec {codec:#x}, cannot be read: {broken}, text: {}) is read as {token:?}", text.is_some());
        ensure!(need.is_err(), "{cid} (codec {codec:#x}, cannot be read: {broken}, text: {}) is given as {need:?}", text.is_some());
    }
    for h in &c.held {
        if let Ok(t) = std::str::from_utf8(&h.0) {
            let cid = block(s.write_token(t)).map_err(|e| format!("write fails: {e:?}"))?;
            ensure!(s.blocks.get(&cid).map(|b| b.as_slice()) == Some(t.as_bytes()), "writing {t:?} hands the store something else");
        }
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C15",
        vec![
            part(
                "histories",
                "up to 40 operations over up to 6 handles (clones and separate stores): write tokens, other text, bytes that are not text, values without raw \
                 form; read, require, near misses of identifiers (other codec, hash function, digest, truncated, version 0), use as a proof; against a map from \
                 independently computed identifiers to bytes. Non-trivial: at least one write and one read.",
                60_000,
                800_000,
                cases,
                check,
            ),
            part(
                "threads",
                "2-5 threads, each with its own clone, write and read tokens of a shared pool; each sees its own writes at once and all \
                 writes are there at the end. Non-trivial: all.",
                6_000,
                60_000,
                threads,
                check_threads,
            ),
            part(
                "other-stores",
                "a store of another make (the token interface is the library's) that holds text or other bytes under identifiers of any codec and hash \
                 function, some of which it fails to read: only text under the raw codec is given, unchanged; anything else is an error. \
                 Non-trivial: something is to be refused.",
                40_000,
                400_000,
                foreign,
                check_foreign,
            ),
        ],
        vec![],
        vec!["the thread interleavings are those the machine happens to produce"],
    )
}
