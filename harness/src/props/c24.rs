//! C24: answers do not depend on how long storage and keys take, on what else is going on, or on
//! what was abandoned
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::model::*;
use crate::sim::{self, Job, Outcome, SlowKey, SlowStore};
use crate::{clock, ensure, same};
use futures::lock::Mutex;
use futures::FutureExt;
use proptest::prelude::*;
use serde::Deserialize;
use std::sync::Arc;
use ucan::builder::Signable;
use ucan::capability::Capability;
use ucan::chain::ProofChain;
use ucan::Ucan;

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum How {
    Text,
    Token,
    Identifier,
    /// The token alone
    Validate,
    Signature,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ask {
    how: How,
    /// Mostly the presented token
    node: u8,
    /// Relative to the epoch; none: the machine clock's
    at: Option<i8>,
    /// Which of the verifier's key parsers
    parser: u8,
    abandon: Option<u8>,
    start: u8,
}

fn ask() -> BoxedStrategy<Ask> {
    (
        prop_oneof![
            4 => Just(How::Text),
            2 => Just(How::Token),
            2 => Just(How::Identifier),
            1 => Just(How::Validate),
            1 => Just(How::Signature)
        ],
        prop_oneof![3 => Just(0u8), 1 => any::<u8>()],
        prop_oneof![3 => Just(Some(0i8)), 1 => (-30i8..30).prop_map(Some), 1 => Just(None)],
        0u8..3,
        prop::option::weighted(0.25, 0u8..12),
        prop_oneof![2 => Just(0u8), 1 => 0u8..40],
    )
        .prop_map(|(how, node, at, parser, abandon, start)| Ask { how, node, at, parser, abandon, start })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Vec<Node>,
    faults: Vec<(u8, Fault)>,
    asks: Vec<Ask>,
    delays: Vec<u8>,
    schedule: Vec<u8>,
    /// The machine clock at first, relative to the epoch, and its speed
    clock: (i8, u8),
}

fn delays() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![1 => prop::collection::vec(0u8..2, 1..8), 4 => prop::collection::vec(0u8..20, 1..24)].boxed()
}

fn cases() -> BoxedStrategy<Case> {
    (
        prop_oneof![3 => tree(2, 0, 7, 2), 1 => prop::collection::vec(node(1, 0, 1), 8..12), 1 => wide(), 1 => shaped(1, 0, 1, 24)],
        prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), fault()), 1..3)],
        prop::collection::vec(ask(), 1..5),
        delays(),
        prop::collection::vec(any::<u8>(), 1..40),
        (prop_oneof![3 => Just(0i8), 1 => -40i8..40], prop_oneof![2 => Just(0u8), 1 => Just(1u8)]),
    )
        .prop_map(|(tree, faults, asks, delays, schedule, clock)| Case { tree, faults, asks, delays, schedule, clock })
        .boxed()
}

/// Many proofs of one token
fn wide() -> BoxedStrategy<Vec<Node>> {
    prop::collection::vec(node(2, 0, 2), 3..9)
        .prop_map(|mut t| {
            t.iter_mut().for_each(|n| {
                n.parent = 0;
                n.chain = false;
            });
            t
        })
        .boxed()
}

enum Answer {
    Chain(anyhow::Result<ProofChain>),
    Plain(anyhow::Result<()>),
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let b = build_with(&c.tree, &c.faults);
    let n = b.nodes.len();
    let clocked = clock::works() && t0() < 1 << 62;
    let store = SlowStore(b.store.clone());
    let parsers: Vec<_> = (0..3).map(|_| Arc::new(Mutex::new(sim::slow_parser()))).collect();
    let at = |a: &Ask| match a.at {
        None if clocked => None,
        t => Some(t0_and(t.unwrap_or(0).into())),
    };
    sim::begin(&c.delays, clocked.then_some((t0_and(c.clock.0.into()), c.clock.1 as u64)));
    let mut jobs = vec![];
    for a in &c.asks {
        let node = &b.nodes[a.node as usize % n];
        let u = Ucan::try_from(node.text.as_str()).map_err(|e| format!("{e:?}"))?;
        let (p, s, t, how) = (parsers[a.parser as usize % 3].clone(), store.clone(), at(a), a.how);
        let future = async move {
            let mut p = p.lock().await;
            match how {
                How::Text => Answer::Chain(ProofChain::try_from_token_string(&node.text, t, &mut p, &s).await),
                How::Token => Answer::Chain(ProofChain::from_ucan(u, t, &mut p, &s).await),
                How::Identifier => Answer::Chain(ProofChain::from_cid(&node.cid, t, &mut p, &s).await),
                How::Validate => Answer::Plain(u.validate(t, &mut p).await),
                How::Signature => Answer::Plain(u.check_signature(&mut p).await),
            }
        }
        .boxed_local();
        jobs.push(Job { future, abandon: a.abandon, start: a.start });
    }
    let outcomes = sim::run(jobs, &c.schedule);
    let (mut done, mut abandoned) = (0, 0);
    for (k, ((outcome, from, to), a)) in outcomes.into_iter().zip(&c.asks).enumerate() {
        let i = a.node as usize % n;
        let node = &b.nodes[i];
        // the instants that the answer can be about
        let (from, to) = match at(a) {
            Some(t) => (t, t),
            None => {
                o.label_if(to > from, "the clock moved during the check");
                (from, to)
            }
        };
        let right = |t: u64| match a.how {
            How::Text | How::Token => b.valid(i, t).is_ok(),
            How::Identifier => node.stored && b.valid(i, t).is_ok(),
            How::Validate => node.signed && node.in_time(t),
            How::Signature => node.signed,
        };
        let ctx = format!("question {k} ({a:?})");
        match outcome {
            Outcome::Stuck => return Err(format!("{ctx} is never answered")),
            Outcome::Abandoned => abandoned += 1,
            Outcome::Done(r) => {
                done += 1;
                let (accepted, why) = match &r {
                    Answer::Chain(r) => (r.is_ok(), r.as_ref().err().map(|e| format!("{e:?}"))),
                    Answer::Plain(r) => (r.is_ok(), r.as_ref().err().map(|e| format!("{e:?}"))),
                };
                let mut all = (from..=to).map(right);
                let any = (from..=to).any(right);
                ensure!(!accepted || any, "{ctx}: accepted, although {:?}", b.valid(i, from));
                ensure!(accepted || !all.all(|x| x), "{ctx}: refused: {why:?}");
                o.label(if accepted { "accepted" } else { "refused" });
                if let Answer::Chain(Ok(chain)) = r {
                    super::c06::mirror(&chain, &b, i).map_err(|e| format!("{ctx}: {e}"))?;
                    let t = (from..=to).find(|t| right(*t)).unwrap();
                    let plain = block(ProofChain::try_from_token_string(&node.text, Some(t), &mut parser(), &b.store));
                    let plain = super::c22::learn(plain).map_err(|e| format!("{ctx}: {e}"))?;
                    let slow = super::c22::learn(Ok(chain)).map_err(|e| format!("{ctx}: {e}"))?;
                    ensure!(slow == plain, "{ctx}: found {slow:?}, and {plain:?} with prompt storage and keys");
                    o.label_if(!node.redelegated.is_empty() && node.cites.len() > 1, "redelegation by a token with several proofs");
                }
            }
        }
    }
    o.label_if(abandoned > 0 && done > 0, "something abandoned, something answered");
    o.label_if(done > 1, "several questions at once");
    if done > 0 && n > 1 {
        o.hit();
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Signing {
    spec: Spec,
    /// How often at once
    times: u8,
    abandon: Vec<Option<u8>>,
    start: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SignCase {
    what: Vec<Signing>,
    delays: Vec<u8>,
    schedule: Vec<u8>,
}

fn sign_cases() -> BoxedStrategy<SignCase> {
    let signing = (
        spec_with(any_actor(), false, prop::collection::vec(cid_like(), 0..3).boxed()),
        1u8..4,
        prop::collection::vec(prop::option::weighted(0.2, 0u8..4), 1..4),
        0u8..20,
    )
        .prop_map(|(spec, times, abandon, start)| Signing { spec, times, abandon, start });
    (prop::collection::vec(signing, 1..4), delays(), prop::collection::vec(any::<u8>(), 1..30))
        .prop_map(|(what, delays, schedule)| SignCase { what, delays, schedule })
        .boxed()
}

fn check_sign(c: &SignCase, o: &mut Obs) -> Verdict {
    sim::begin(&c.delays, None);
    let keys: Vec<SlowKey> = c.what.iter().map(|s| SlowKey(actor(s.spec.iss).raw.material(true))).collect();
    let mut signables = vec![];
    for (s, key) in c.what.iter().zip(&keys) {
        signables.push(Signable {
            issuer: key,
            audience: s.spec.aud.clone(),
            capabilities: s.spec.caps.iter().map(|(r, a, v)| Capability::new(r.clone(), a.clone(), v.clone())).collect(),
            expiration: s.spec.exp,
            not_before: s.spec.nbf,
            facts: s.spec.fact_map(),
            proofs: s.spec.proofs.clone(),
            add_nonce: s.spec.nonce,
        });
    }
    let mut jobs = vec![];
    let mut of = vec![];
    for (k, s) in c.what.iter().enumerate() {
        for t in 0..s.times {
            let signable = &signables[k];
            let abandon = s.abandon[t as usize % s.abandon.len().max(1)];
            jobs.push(Job { future: signable.sign().boxed_local(), abandon, start: s.start });
            of.push(k);
        }
    }
    let outcomes = sim::run(jobs, &c.schedule);
    let (mut done, mut abandoned) = (0, 0);
    let mut nonces = std::collections::BTreeSet::new();
    for ((outcome, _, _), k) in outcomes.into_iter().zip(of) {
        let s = &c.what[k].spec;
        match outcome {
            Outcome::Stuck => return Err(format!("signing {k} never ends")),
            Outcome::Abandoned => abandoned += 1,
            Outcome::Done(r) => {
                done += 1;
                let u = r.map_err(|e| format!("signing {k}: {e:?}"))?;
                let what = format!("signing {k}");
                super::c02::check_reads(&u, s, &what)?;
                block(u.check_signature(&mut parser())).map_err(|e| format!("{what}: the token is not valid: {e:?}"))?;
                match u.nonce() {
                    Some(n) => ensure!(nonces.insert(n.clone()), "{what}: a nonce used twice"),
                    None => {
                        let prompt = block(s.signable().sign()).map_err(|e| format!("{e:?}"))?;
                        same!(u, prompt, "{what}: the token");
                    }
                }
            }
        }
    }
    o.label_if(abandoned > 0, "something abandoned");
    if done > 1 {
        o.hit();
    }
    Ok(())
}

/// What one thread does: questions about the tree, and signings
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Deed {
    Ask { how: How, node: u8, at: i8, parser: u8 },
    Sign(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ThreadCase {
    tree: Vec<Node>,
    faults: Vec<(u8, Fault)>,
    specs: Vec<Spec>,
    threads: Vec<Vec<Deed>>,
    /// How long the next answers take
    delays: Vec<u8>,
    /// How often all of it is done
    rounds: u8,
}

fn deed() -> BoxedStrategy<Deed> {
    let how = prop_oneof![4 => Just(How::Text), 2 => Just(How::Token), 2 => Just(How::Identifier), 1 => Just(How::Validate), 1 => Just(How::Signature)];
    let at = prop_oneof![3 => Just(0i8), 1 => -30i8..30];
    prop_oneof![
        3 => (how, prop_oneof![2 => Just(0u8), 1 => any::<u8>()], at, prop_oneof![2 => Just(0u8), 1 => 1u8..3])
            .prop_map(|(how, node, at, parser)| Deed::Ask { how, node, at, parser }),
        1 => any::<u8>().prop_map(Deed::Sign),
    ]
    .boxed()
}

fn thread_cases() -> BoxedStrategy<ThreadCase> {
    (
        prop_oneof![4 => tree(2, 0, 6, 2), 1 => prop::collection::vec(node(1, 0, 1), 5..9), 1 => wide()],
        prop_oneof![1 => Just(vec![]), 1 => prop::collection::vec((any::<u8>(), fault()), 1..3)],
        prop::collection::vec(spec_with(any_actor(), false, prop::collection::vec(cid_like(), 0..3).boxed()), 1..3),
        prop::collection::vec(prop::collection::vec(deed(), 1..5), 2..7),
        prop_oneof![1 => Just(vec![]), 2 => prop::collection::vec(0u8..64, 1..12)],
    )
        .prop_map(|(tree, faults, specs, threads, delays)| ThreadCase { tree, faults, specs, threads, delays, rounds: 2 })
        .boxed()
}

fn check_threads(c: &ThreadCase, o: &mut Obs) -> Verdict {
    let b = build_with(&c.tree, &c.faults);
    let n = b.nodes.len();
    let now = t0();
    let clocked = clock::works() && now < 1 << 62;
    let shared: Vec<_> = (0..2).map(|_| Mutex::new(sim::busy_parser())).collect();
    let mut tokens = vec![];
    for node in &b.nodes {
        tokens.push(Ucan::try_from(node.text.as_str()).map_err(|e| format!("{e:?}"))?);
    }
    let keys: Vec<_> = c.specs.iter().map(|s| sim::BusyKey(actor(s.iss).raw.material(true))).collect();
    let mut signables = vec![];
    for (s, key) in c.specs.iter().zip(&keys) {
        signables.push(Signable {
            issuer: key,
            audience: s.aud.clone(),
            capabilities: s.caps.iter().map(|(r, a, v)| Capability::new(r.clone(), a.clone(), v.clone())).collect(),
            expiration: s.exp,
            not_before: s.nbf,
            facts: s.fact_map(),
            proofs: s.proofs.clone(),
            add_nonce: s.nonce,
        });
    }
    // what the answers are when nothing else is going on
    let mut plain: std::collections::HashMap<(usize, u64), _> = Default::default();
    for deed in c.threads.iter().flatten() {
        if let Deed::Ask { how: How::Text | How::Token | How::Identifier, node, at, .. } = deed {
            let (i, t) = (*node as usize % n, t0_and((*at).into()));
            if b.valid(i, t).is_ok() && !plain.contains_key(&(i, t)) {
                let r = block(ProofChain::try_from_token_string(&b.nodes[i].text, Some(t), &mut parser(), &b.store));
                plain.insert((i, t), super::c22::learn(r)?);
            }
        }
    }
    let one = |k: usize, deed: &Deed, own: &Mutex<ucan::crypto::did::DidParser>, nonces: &std::sync::Mutex<std::collections::BTreeSet<String>>| -> Verdict {
        match deed {
            Deed::Ask { how, node, at, parser } => {
                let i = *node as usize % n;
                let (node, t) = (&b.nodes[i], t0_and((*at).into()));
                let p = if *parser == 0 { own } else { &shared[*parser as usize % 2] };
                let ctx = format!("thread {k}, {deed:?}");
                let store = sim::BusyStore(b.store.clone());
                let valid = b.valid(i, t).is_ok();
                let (right, answer) = match how {
                    How::Text => (valid, Answer::Chain(block(async { ProofChain::try_from_token_string(&node.text, Some(t), &mut *p.lock().await, &store).await }))),
                    How::Token => (valid, Answer::Chain(block(async { ProofChain::from_ucan(tokens[i].clone(), Some(t), &mut *p.lock().await, &store).await }))),
                    How::Identifier => (
                        node.stored && valid,
                        Answer::Chain(block(async { ProofChain::from_cid(&node.cid, Some(t), &mut *p.lock().await, &store).await })),
                    ),
                    How::Validate if *at == 0 && clocked => {
                        // the machine clock stands at this instant for every thread
                        (node.signed && node.in_time(t), Answer::Plain(block(async { tokens[i].validate(None, &mut *p.lock().await).await })))
                    }
                    How::Validate => (node.signed && node.in_time(t), Answer::Plain(block(async { tokens[i].validate(Some(t), &mut *p.lock().await).await }))),
                    How::Signature => (node.signed, Answer::Plain(block(async { tokens[i].check_signature(&mut *p.lock().await).await }))),
                };
                let (accepted, why) = match &answer {
                    Answer::Chain(r) => (r.is_ok(), r.as_ref().err().map(|e| format!("{e:?}"))),
                    Answer::Plain(r) => (r.is_ok(), r.as_ref().err().map(|e| format!("{e:?}"))),
                };
                ensure!(!accepted || right, "{ctx}: accepted, although {:?}", b.valid(i, t));
                ensure!(accepted || !right, "{ctx}: refused: {why:?}");
                if let Answer::Chain(Ok(chain)) = answer {
                    super::c06::mirror(&chain, &b, i).map_err(|e| format!("{ctx}: {e}"))?;
                    let found = super::c22::learn(Ok(chain)).map_err(|e| format!("{ctx}: {e}"))?;
                    let alone = &plain[&(i, t)];
                    ensure!(&found == alone, "{ctx}: found {found:?}, and {alone:?} when nothing else was going on");
                }
            }
            Deed::Sign(k) => {
                let k = *k as usize % signables.len();
                let (s, what) = (&c.specs[k], format!("signing {k}"));
                let u = block(signables[k].sign()).map_err(|e| format!("{what}: {e:?}"))?;
                super::c02::check_reads(&u, s, &what)?;
                block(u.check_signature(&mut parser())).map_err(|e| format!("{what}: the token is not valid: {e:?}"))?;
                if let Some(n) = u.nonce() {
                    ensure!(nonces.lock().unwrap().insert(n.clone()), "{what}: a nonce used twice");
                }
            }
        }
        Ok(())
    };
    let epoch = c.tree[0].epoch;
    let rounds = if crate::run::replaying() { 100 * c.rounds as usize } else { c.rounds as usize };
    let nonces = Default::default();
    for _ in 0..rounds {
        let barrier = std::sync::Barrier::new(c.threads.len());
        let verdicts: Vec<Verdict> = std::thread::scope(|scope| {
            let handles: Vec<_> = (c.threads.iter().enumerate())
                .map(|(k, deeds)| {
                    let (one, barrier, nonces, delays) = (&one, &barrier, &nonces, &c.delays);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(scope, move || {
                            set_epoch(epoch);
                            if clocked {
                                clock::set(now);
                            }
                            sim::busy(delays, k);
                            let own = Mutex::new(sim::busy_parser());
                            barrier.wait();
                            deeds.iter().try_for_each(|d| crate::run::no_panic(|| one(k, d, &own, nonces)).and_then(|v| v))
                        })
                        .expect("thread")
                })
                .collect();
            handles.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread died".into()))).collect()
        });
        verdicts.into_iter().collect::<Verdict>()?;
    }
    let asks = c.threads.iter().filter(|d| d.iter().any(|d| matches!(d, Deed::Ask { .. }))).count();
    o.label_if(c.threads.iter().flatten().any(|d| matches!(d, Deed::Ask { parser, .. } if *parser > 0)), "a shared key parser");
    o.label_if(c.threads.iter().flatten().any(|d| matches!(d, Deed::Sign(_))), "signings");
    o.label_if(!plain.is_empty(), "some accepted");
    if asks > 1 && n > 1 {
        o.hit();
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C24",
        vec![
            part(
                "slow-verifiers",
                "1-4 questions (chains by text, token or identifier, single tokens) about a tree of 1-24 tokens with 0-2 faults, asked at once in a simulated world: every storage read and key \
                 operation takes a generated number of ticks, a generated schedule decides who goes on, questions share key parsers, some are abandoned midway, and the machine clock may run \
                 meanwhile; each answer is what the reference predicate says, the chain mirrors the tokens, and its capabilities are those found with prompt storage and keys. \
                 Non-trivial: a tree with proofs and at least one answer.",
                12_000,
                500_000,
                cases,
                check,
            ),
            part(
                "slow-signers",
                "1-9 signings of 1-3 contents at once with keys that take a generated number of ticks, some abandoned; each gives the token that a prompt key gives, nonces apart. \
                 Non-trivial: at least two tokens.",
                8_000,
                300_000,
                sign_cases,
                check_sign,
            ),
            part(
                "threads",
                "2-6 threads that run at the same time, each with 1-4 questions about one tree of 1-9 tokens with 0-2 faults or signings of 1-2 contents; tokens, storage, signing keys and some of \
                 the key parsers are shared, and storage and keys spin and yield for generated times; all of it twice. Each answer is the reference predicate's, chains and their capabilities are \
                 those found alone, each signing gives its own token, nonces apart. Non-trivial: a tree with proofs and at least two threads that ask.",
                6_000,
                150_000,
                thread_cases,
                check_threads,
            ),
        ],
        vec![],
        vec!["without a supplied instant, any instant between the start and the end of a check may be the one it is about"],
    )
}
