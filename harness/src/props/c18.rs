//! C18: proofs are cited by the hash of exactly the proof's text
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::store::TestStore;
use crate::{ensure, jwt, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use ucan::builder::UcanBuilder;
use ucan::capability::Capability;
use ucan::chain::ProofChain;
use ucan::store::{MemoryStore, UcanJwtStore};
use ucan::Ucan;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Proof {
    iss: usize,
    /// JSON layout of a token received from elsewhere; None: made by this library
    layout: Option<Vec<u8>>,
    caps: Vec<(String, String, Value)>,
    facts: Vec<(String, Value)>,
    addressed: bool,
    /// Proofs may end and begin, but not within the lifetime of the token that cites them
    #[serde(default)]
    bounds: (Option<u64>, Option<u64>),
    #[serde(default)]
    nonce: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Witness(u8, Option<u8>),
    Delegate(u8, Option<u8>),
    Claim(String, String, Value),
    Reissue(u8),
    /// to the issuer of one of the proofs, to oneself, to anyone
    Address(u8),
    Until(u64),
    Fact(String, Value),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    iss: usize,
    proofs: Vec<Proof>,
    ops: Vec<Op>,
    /// Which of the tokens went through text before being cited
    reread: bool,
}

fn proof() -> BoxedStrategy<Proof> {
    (
        any_actor(),
        prop::option::weighted(0.5, prop::collection::vec(any::<u8>(), 0..30)),
        caps(false, 2),
        prop::collection::vec((key(), json(false)), 0..2),
        prop::bool::weighted(0.9),
        (prop::option::weighted(0.2, 1000u64..1003), prop::option::weighted(0.1, 0u64..2)),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(iss, layout, caps, facts, addressed, bounds, nonce)| Proof { iss, layout, caps, facts, addressed, bounds, nonce })
        .boxed()
}

fn op() -> BoxedStrategy<Op> {
    let hash = || prop::option::of(0u8..jwt::HASHES.len() as u8);
    prop_oneof![
        4 => (any::<u8>(), hash()).prop_map(|(i, h)| Op::Witness(i, h)),
        4 => (any::<u8>(), hash()).prop_map(|(i, h)| Op::Delegate(i, h)),
        2 => ("set:[a-e]", "lvl/[0-3]", object(false)).prop_map(|(r, a, c)| Op::Claim(r, a, c)),
        1 => any_actor().prop_map(|a| Op::Reissue(a as u8)),
        1 => any::<u8>().prop_map(Op::Address),
        1 => (1u64..1002).prop_map(Op::Until),
        1 => (key(), json(false)).prop_map(|(k, v)| Op::Fact(k, v)),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    (any_actor(), prop::collection::vec(proof(), 1..4), sized(op(), 1..14, 70), any::<bool>())
        .prop_map(|(iss, proofs, ops, reread)| Case { iss, proofs, ops, reread })
        .boxed()
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let me = actor(c.iss);
    let mut tokens: Vec<(Ucan, String)> = vec![];
    for (i, p) in c.proofs.iter().enumerate() {
        let spec = Spec {
            iss: p.iss,
            aud: if p.addressed { me.did.clone() } else { "did:web:elsewhere".into() },
            caps: p.caps.iter().filter(|(r, _, _)| !selects_proofs(r)).cloned().collect(),
            facts: [p.facts.clone(), vec![("n".into(), json!(i))]].concat(),
            proofs: vec![],
            exp: p.bounds.0,
            nbf: p.bounds.1,
            nonce: p.nonce && p.layout.is_none(),
        };
        let (u, text) = match &p.layout {
            None => {
                let u = spec.build().map_err(|e| format!("{e:?}"))?;
                let text = u.encode().map_err(|e| format!("{e:?}"))?;
                (if c.reread { Ucan::try_from(text.as_str()).map_err(|e| format!("{e:?}"))? } else { u }, text)
            }
            Some(l) => {
                let mut tape = jwt::Tape::new(l);
                let h = jwt::J::from_value(&jwt::header_json(actor(p.iss))).write(&mut tape);
                let b = jwt::J::from_value(&spec.payload(None)).write(&mut tape);
                let text = jwt::assemble(actor(p.iss), &h, &b);
                o.label("proof in another layout");
                (Ucan::try_from(text.as_str()).map_err(|e| format!("{e:?}"))?, text)
            }
        };
        // its identifier under every hash function
        for h in 0..jwt::HASHES.len() {
            let cid = u.to_cid(jwt::hash_code(h)).map_err(|e| format!("{e:?}"))?;
            ensure!(
                cid.to_bytes() == jwt::cid_bytes(h, text.as_bytes()),
                "the {} identifier of {text} is {cid}, expected {}",
                jwt::HASHES[h].0,
                jwt::cid_text(h, text.as_bytes())
            );
        }
        tokens.push((u, text));
    }
    let mut b = UcanBuilder::default().issued_by(&me.km).for_audience("did:web:x");
    let mut cites: Vec<String> = vec![];
    let mut order: Vec<usize> = vec![];
    let mut caps: Vec<(String, String, Value)> = vec![];
    let mut signer = c.iss;
    let mut store = TestStore::default();
    let mut memory = MemoryStore::default();
    let mut memory_enough = true;
    let mut redelegated = vec![];
    let mut until = None;
    for op in &c.ops {
        match op {
            Op::Witness(i, h) | Op::Delegate(i, h) => {
                let i = *i as usize % tokens.len();
                let (u, text) = &tokens[i];
                let hash = h.map(|h| h as usize).unwrap_or(0);
                let code = h.map(|h| jwt::hash_code(h as usize));
                o.label(h.map(|h| jwt::HASHES[h as usize].0).unwrap_or("default hash"));
                let cite = jwt::cid_text(hash, text.as_bytes());
                store.put(text, jwt::hash_code(hash));
                if hash == 0 {
                    let cid = block(memory.write_token(text)).map_err(|e| format!("{e:?}"))?;
                    same!(cid.to_string(), cite, "identifier by the store");
                } else {
                    memory_enough = false;
                }
                if matches!(op, Op::Delegate(..)) {
                    b = b.delegating_from(u, code);
                    caps.push((format!("prf:{}", cites.len()), "ucan/DELEGATE".into(), json!({})));
                    redelegated.push(cites.len());
                } else {
                    b = b.witnessed_by(u, code);
                }
                cites.push(cite);
                order.push(i);
            }
            Op::Claim(r, a, v) => {
                b = b.claiming_capability(Capability::new(r.clone(), a.clone(), v.clone()));
                caps.push((r.clone(), a.clone(), v.clone()));
            }
            Op::Reissue(a) => {
                // settings that do not concern the proofs
                signer = *a as usize;
                b = b.issued_by(&actor(*a as usize).km);
            }
            Op::Address(a) => {
                let a = *a as usize;
                let to = match a % 3 {
                    0 => actor(c.proofs[a / 3 % c.proofs.len()].iss).did.clone(),
                    1 => me.did.clone(),
                    _ => actor(a / 3 % N_ACTORS).did.clone(),
                };
                b = b.for_audience(&to);
            }
            Op::Until(t) => {
                until = Some(*t);
                b = b.with_expiration(*t);
            }
            Op::Fact(k, v) => b = b.with_fact(k, v.clone()),
        }
    }
    b = b.issued_by(&me.km);
    let _ = signer;
    let u = block(b.build().map_err(|e| format!("{e:?}"))?.sign()).map_err(|e| format!("{e:?}"))?;
    same!(u.proofs().clone().unwrap_or_default(), cites, "proofs");
    ensure!(u.proofs().is_some() == !cites.is_empty(), "proofs {:?}", u.proofs());
    same!(
        serde_json::to_value(u.capabilities()).map_err(|e| e.to_string())?,
        json!(group(&caps)),
        "capabilities"
    );
    if cites.is_empty() {
        return Ok(());
    }
    o.hit();
    o.label_if(!redelegated.is_empty(), "wholesale delegation");
    o.label_if(cites.len() > 1, "several proofs");
    // a store that holds them resolves the chain
    let good = order.iter().all(|i| {
        let p = &c.proofs[*i];
        let ends = match (p.bounds.0, until) {
            (Some(e), Some(t)) => e >= t,
            (Some(_), None) => false,
            _ => true,
        };
        p.addressed && ends && p.bounds.1.is_none()
    });
    let text = u.encode().map_err(|e| format!("{e:?}"))?;
    let mut answers = vec![block(ProofChain::try_from_token_string(&text, Some(1), &mut parser(), &store))];
    if memory_enough {
        answers.push(block(ProofChain::try_from_token_string(&text, Some(1), &mut parser(), &memory)));
    }
    for r in answers {
        match r {
            Ok(chain) => {
                ensure!(good, "a proof addressed to someone else, or shorter, is accepted");
                let got: Vec<String> = chain
                    .proofs()
                    .iter()
                    .map(|p| p.ucan().encode().map_err(|e| format!("{e:?}")))
                    .collect::<Result<_, _>>()?;
                let want: Vec<String> = order.iter().map(|i| tokens[*i].1.clone()).collect();
                same!(got, want, "the proofs resolved");
            }
            Err(e) => ensure!(!good, "the chain does not resolve: {e:?}"),
        }
    }
    // ... and without one of them it does not
    let mut less = store.clone();
    let gone = cid::Cid::try_from(cites[cites.len() / 2].as_str()).map_err(|e| e.to_string())?;
    less.blocks.remove(&gone);
    ensure!(
        block(ProofChain::try_from_token_string(&text, Some(1), &mut parser(), &less)).is_err(),
        "the chain resolves without one of its proofs"
    );
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C18",
        vec![part(
            "citing",
            "1-3 proofs (made by this library, or received in another JSON layout) added by up to 13 calls of witnessed_by and delegating_from with any of 15 hash functions or \
             none, between claims and other settings; citations, order and positions compared with independently computed identifiers; the chain resolves from \
             stores filled by identifier. Non-trivial: at least one proof cited.",
            16_000,
            400_000,
            cases,
            check,
        )],
        vec![],
        vec!["hash functions other than BLAKE3 and SHA-2 are taken from the multihash crate"],
    )
}
