//! C06: a proof chain is accepted exactly when every link in it is valid
use super::*;
use crate::gens::{block, distance};
use crate::keys::*;
use crate::model::*;
use crate::{clock, ensure};
use proptest::prelude::*;
use serde::Deserialize;
use ucan::chain::ProofChain;
use ucan::Ucan;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Vec<Node>,
    faults: Vec<(u8, Fault)>,
    /// The instant: the epoch, or next to a bound of some node
    at: Option<(u8, bool, i64)>,
    warm: Vec<u8>,
    clock: u8,
}

fn with(faults: std::ops::Range<usize>) -> BoxedStrategy<Case> {
    (
        prop_oneof![
            3 => tree(1, 0, 7, 2),
            1 => tree(2, 3, 5, 2),
            1 => prop::collection::vec(node(1, 0, 1), 8..14),
            1 => shaped(1, 0, 1, 34),
        ],
        prop::collection::vec((any::<u8>(), fault()), faults),
        prop::option::weighted(0.5, (any::<u8>(), any::<bool>(), prop_oneof![4 => -2i64..3, 1 => distance()])),
        prop::collection::vec(0u8..N_ACTORS as u8, 0..2),
        0u8..4,
    )
        .prop_map(|(tree, faults, at, warm, clock)| Case { tree, faults, at, warm, clock })
        .boxed()
}

/// One token with very many proofs, or a line of very many
fn many() -> BoxedStrategy<Case> {
    ((any::<bool>(), 101usize..300), prop::collection::vec((any::<u8>(), fault()), 0..2))
        .prop_flat_map(|((line, n), faults)| (Just(line), prop::collection::vec(node(1, 0, 0), if line { n / 2 } else { n }), Just(faults)))
        .prop_map(|(line, mut tree, faults)| {
            for n in tree.iter_mut() {
                n.chain = line;
                n.parent = 0;
                n.dup = false;
                n.iss %= 8;
            }
            Case { tree, faults, at: None, warm: vec![], clock: 0 }
        })
        .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    prop_oneof![200 => with(0..1), 300 => with(1..2), 100 => with(2..4), 5 => many()].boxed()
}

pub fn mirror(chain: &ProofChain, b: &Built, i: usize) -> Verdict {
    let n = &b.nodes[i];
    let text = chain.ucan().encode().map_err(|e| format!("{e:?}"))?;
    ensure!(text == n.text, "the chain holds another token in the place of node {i}: {text} instead of {}", n.text);
    ensure!(
        chain.proofs().len() == n.cites.len(),
        "node {i} has {} proofs in the chain, and cites {}",
        chain.proofs().len(),
        n.cites.len()
    );
    for (k, c) in n.cites.iter().enumerate() {
        mirror(&chain.proofs()[k], b, *c)?;
    }
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let b = build_with(&c.tree, &c.faults);
    let t = match c.at {
        None => t0(),
        Some((k, end, d)) => {
            let n = &b.nodes[k as usize % b.nodes.len()];
            let at = if end { n.exp.or(n.nbf) } else { n.nbf.or(n.exp) };
            at.unwrap_or(t0()).saturating_add_signed(d)
        }
    };
    // the machine clock has no say
    if clock::works() && c.clock > 0 {
        clock::set([0, 1, 1_000_000, u32::MAX as u64 * 7][c.clock as usize % 4]);
    }
    let expect = b.valid(0, t);
    let root = &b.nodes[0];
    o.label(match &expect {
        Ok(()) => "acceptable".to_string(),
        Err(e) => format!("unacceptable: {}", e.split(": ").nth(1).unwrap_or("")),
    });
    o.label(format!("{} tokens", b.nodes.len().min(8)));
    if let Err(e) = &expect {
        o.label_if(!e.starts_with("node 0"), "fault below the presented token");
    }
    if b.nodes.len() > 1 {
        o.hit();
    }
    let mut p = parser();
    for w in &c.warm {
        let _ = p.parse(&actor(*w as usize).did);
    }
    let mut answers = vec![];
    let r = block(ProofChain::try_from_token_string(&root.text, Some(t), &mut p, &b.store));
    answers.push(("text", r));
    let u = Ucan::try_from(root.text.as_str()).map_err(|e| format!("{e:?}"))?;
    answers.push(("token", block(ProofChain::from_ucan(u, Some(t), &mut p, &b.store))));
    let stored = root.stored;
    if stored {
        answers.push(("identifier", block(ProofChain::from_cid(&root.cid, Some(t), &mut p, &b.store))));
    } else {
        let r = block(ProofChain::from_cid(&root.cid, Some(t), &mut p, &b.store));
        ensure!(r.is_err(), "a chain is made from an identifier that cannot be read");
    }
    // with the clock at the instant and none given
    if clock::works() && t <= i64::MAX as u64 {
        clock::set(t);
        let r = block(ProofChain::try_from_token_string(&root.text, None, &mut parser(), &b.store));
        answers.push(("text, at the clock's instant", r));
    }
    for (how, r) in &answers {
        match (r, &expect) {
            (Ok(_), Err(e)) => return Err(format!("accepted by {how} at {t}, although {e}")),
            (Err(e), Ok(())) => return Err(format!("refused by {how} at {t}: {e:?}")),
            (Ok(chain), Ok(())) => mirror(chain, &b, 0)?,
            _ => {}
        }
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C06",
        vec![part(
            "trees",
            "trees of 1-34 signed tokens (lines and stars of up to 34, sometimes of hundreds, tokens cited twice, every key type, 15 hash functions, at any epoch) valid by construction, then 0-3 faults (audience, signature, \
             bounds, unreadable or misfiled proofs, identifier texts, issuers) and an instant at or next to some bound; accepted exactly when the reference predicate over \
             the tree holds, from text, token and identifier; accepted chains mirror the tokens. Non-trivial: at least one proof.",
            24_000,
            800_000,
            cases,
            check,
        )],
        vec![],
        vec!["the store is trusted to return what was stored under an identifier"],
    )
}
