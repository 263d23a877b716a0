//! C07, C08, C09: what a chain reports it grants, and from whom
use super::*;
use crate::gens::block;
use crate::keys::*;
use crate::model::*;
use crate::{dict, ensure, same};
use proptest::prelude::*;
use serde::Deserialize;
use std::collections::BTreeSet;
use ucan::chain::ProofChain;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    tree: Vec<Node>,
}

fn chain(b: &Built, i: usize) -> Result<ProofChain, String> {
    block(ProofChain::try_from_token_string(&b.nodes[i].text, Some(t0()), &mut parser(), &b.store))
        .map_err(|e| format!("a valid chain is refused: {e:?}"))
}

fn reported(b: &Built, i: usize) -> Result<Vec<Reported>, String> {
    read_infos(&chain(b, i)?.reduce_capabilities(&SetSem))
}

fn describe(b: &Built, rep: &[Reported]) -> String {
    let mut s = String::new();
    for (i, n) in b.nodes.iter().enumerate() {
        s.push_str(&format!("\n  node {i}: issued by actor {}, cites {:?}, redelegates {:?}, claims {:?}", n.iss, n.cites, n.redelegated, n.caps.iter().map(show).collect::<Vec<_>>()));
    }
    for r in rep {
        s.push_str(&format!("\n  reported: {} from {:?}", show(&r.cap), r.originators));
    }
    s
}

fn labels(b: &Built, c: &Closure, o: &mut Obs) {
    o.label(format!("{} tokens", b.nodes.len().min(10)));
    o.label_if(b.nodes.iter().any(|n| !n.redelegated.is_empty()), "redelegation");
    let root = b.nodes[0].iss;
    let foreign: BTreeSet<usize> = c.max.iter().map(|(_, o)| *o).filter(|o| *o != root).collect();
    o.label_if(!foreign.is_empty(), "originates elsewhere");
    o.label_if(foreign.len() > 1, "several originators");
    let most = c.max.iter().map(|(k, _)| c.max.iter().filter(|(l, _)| l == k).count()).max().unwrap_or(0);
    o.label_if(most > 2, "three or more originators of one capability");
    o.label_if(!c.max.is_empty() && c.max.iter().any(|(k, _)| c.max.iter().any(|(l, _)| k != l && k.enables(l))), "nested capabilities");
}

fn t7() -> BoxedStrategy<Case> {
    prop_oneof![
        3 => tree(1, 0, 6, 4),
        1 => tree(0, 0, 4, 6),
        1 => prop::collection::vec(node(1, 0, 3), 5..9),
        1 => wide(),
        1 => shaped(1, 0, 2, 30),
        1 => t9().prop_map(|c| c.tree),
    ]
    .prop_map(|tree| Case { tree })
    .boxed()
}

/// Many proofs by different issuers, all over two or three capabilities
fn wide() -> BoxedStrategy<Vec<Node>> {
    (
        prop::collection::vec(cap(), 1..3),
        prop::collection::vec((node(1, 0, 1), prop::collection::vec((any::<u8>(), prop_oneof![2 => Just(vec![]), 1 => prop::collection::vec(edit(), 1..3)]), 1..4), 0u8..4), 4..10),
        // every token claims the first, the presented one so many times more, and passes on these
        (any::<bool>(), 0usize..4, prop::collection::vec(0u8..6, 0..3)),
    )
        .prop_map(|(caps, nodes, (shared, more, pass))| {
            let mut tree = vec![];
            for (i, (mut n, claims, at)) in nodes.into_iter().enumerate() {
                n.iss = if i > 2 { n.iss.wrapping_add(i as u8) % N_ED as u8 } else { n.iss };
                n.chain = false;
                n.parent = if at > 1 && i > 2 { 1 + at % 2 } else { 0 };
                for (k, e) in claims {
                    let c = caps[k as usize % caps.len()].clone();
                    n.claims.push(Claim::Fresh(e.iter().fold(c, |c, e| e.apply(&c))));
                }
                if shared {
                    n.claims.push(Claim::Fresh(caps[0].clone()));
                }
                tree.push(n);
            }
            for _ in 0..more {
                tree[0].claims.push(Claim::Fresh(caps[0].clone()));
            }
            tree[0].claims.extend(pass.into_iter().map(Claim::Redelegate));
            tree
        })
        .boxed()
}

fn check7(c: &Case, o: &mut Obs) -> Verdict {
    let b = build(&c.tree);
    let rep = reported(&b, 0)?;
    let cl = closure(&b, 0);
    labels(&b, &cl, o);
    if b.nodes.len() > 1 && !rep.is_empty() {
        o.hit();
    }
    check_sound(&rep, &cl.max).map_err(|e| format!("{e}{}", describe(&b, &rep)))?;
    // a claim that nothing cited enables is its issuer's: the fallback must be there and alone
    let n = &b.nodes[0];
    let below: Vec<Closure> = n.cites.iter().map(|i| closure(&b, *i)).collect();
    for k in &n.caps {
        if below.iter().all(|s| !s.max.iter().any(|(a, _)| a.enables(k))) {
            o.label("claimed without support");
            ensure!(
                rep.iter().any(|r| r.cap.enables(k) && r.originators.contains(&n.iss)),
                "{} is not attributed to its issuer{}", show(k), describe(&b, &rep)
            );
            for r in &rep {
                if r.cap == *k {
                    ensure!(r.originators.iter().all(|x| *x == n.iss), "{} is attributed to {:?}{}", show(k), r.originators, describe(&b, &rep));
                }
            }
        }
    }
    Ok(())
}

fn check8(c: &Case, o: &mut Obs) -> Verdict {
    let b = build(&c.tree);
    let ch = chain(&b, 0)?;
    let infos = ch.reduce_capabilities(&SetSem);
    let rep = read_infos(&infos)?;
    let cl = closure(&b, 0);
    labels(&b, &cl, o);
    if !cl.min.is_empty() {
        o.hit();
    }
    check_complete(&rep, &cl.min).map_err(|e| format!("{e}{}", describe(&b, &rep)))?;
    let root = &b.nodes[0];
    for k in &root.caps {
        ensure!(rep.iter().any(|r| r.cap.enables(k)), "the claim {} is not covered{}", show(k), describe(&b, &rep));
    }
    for r in &rep {
        same!(r.nbf, root.nbf, "not-before of {}", show(&r.cap));
        same!(r.exp, root.exp, "expiry of {}", show(&r.cap));
    }
    for i in 0..rep.len() {
        for j in 0..i {
            ensure!(rep[i].cap != rep[j].cap, "{} is reported twice{}", show(&rep[i].cap), describe(&b, &rep));
        }
    }
    let again = read_infos(&ch.reduce_capabilities(&SetSem))?;
    let key = |r: &[Reported]| r.iter().map(|r| (r.cap.clone(), r.originators.clone())).collect::<BTreeSet<_>>();
    same!(key(&again), key(&rep), "asking again");
    let fresh = reported(&b, 0)?;
    same!(key(&fresh), key(&rep), "asking a new chain");
    Ok(())
}

fn t9() -> BoxedStrategy<Case> {
    let many = prop_oneof![
        12 => 6usize..40,
        3 => 90usize..140,
        dict::w_num(4) => dict::size(2, 40),
    ];
    prop_oneof![
        16 => t9_of(prop::collection::vec(node(2, 0, 3), 1..6).boxed()),
        1 => t9_of(prop::collection::vec(node(1, 0, 1), 6..20).boxed()),
        dict::w_num(1) => t9_of(many.prop_flat_map(|n| prop::collection::vec(node(2, 0, 1), n)).boxed()),
    ]
    .boxed()
}

/// The presented token redelegates and possibly claims something itself
fn t9_of(rest: BoxedStrategy<Vec<Node>>) -> BoxedStrategy<Case> {
    (
        node(0, 0, 2),
        prop::collection::vec(
            prop_oneof![
                2 => (0u8..4).prop_map(Claim::Redelegate),
                1 => any::<u8>().prop_map(Claim::Redelegate),
                dict::w_num(1) => dict::size(0, 255).prop_map(|n| Claim::Redelegate(n as u8)),
                2 => Just(Claim::RedelegateAll),
                1 => (0u8..3, any::<bool>()).prop_map(|(i, a)| Claim::RedelegateNothing(i, a)),
                2 => (0u8..DECOYS.len() as u8).prop_map(Claim::Decoy),
                1 => (0u8..FOREIGN.len() as u8).prop_map(Claim::Foreign),
            ],
            1..3,
        ),
        rest,
    )
        .prop_map(|(mut root, sel, rest)| {
            root.claims.extend(sel);
            let mut tree = vec![root];
            tree.extend(rest);
            // most of the others are proofs of the presented token
            for (i, n) in tree.iter_mut().enumerate().skip(1) {
                if n.parent % 3 != 0 {
                    n.chain = i == 1;
                    n.parent = 0;
                }
            }
            Case { tree }
        })
        .boxed()
}

fn check9(c: &Case, o: &mut Obs) -> Verdict {
    let b = build(&c.tree);
    let root = &b.nodes[0];
    let rep = reported(&b, 0)?;
    let cl = closure(&b, 0);
    labels(&b, &cl, o);
    o.label_if(!root.redelegated.is_empty() && root.redelegated.len() < root.cites.len(), "some proofs selected");
    o.label_if(root.redelegated.len() == root.cites.len() && root.cites.len() > 1, "all of several proofs selected");
    o.label_if(root.redelegated.is_empty(), "no proof selected");
    o.label_if(root.redelegated.iter().any(|p| *p > 9), "a position beyond 9");
    o.label_if(root.redelegated.iter().any(|p| *p > 99), "a position beyond 99");
    check_sound(&rep, &cl.max).map_err(|e| format!("{e}{}", describe(&b, &rep)))?;
    check_complete(&rep, &cl.min).map_err(|e| format!("{e}{}", describe(&b, &rep)))?;
    for r in &rep {
        same!(r.nbf, root.nbf, "not-before of {}", show(&r.cap));
        same!(r.exp, root.exp, "expiry of {}", show(&r.cap));
    }
    // by the library's own account of the proofs: exactly what the selected ones report
    let mut passed: Grants = Grants::new();
    for p in &root.redelegated {
        for r in reported(&b, root.cites[*p])? {
            for x in &r.originators {
                passed.insert((r.cap.clone(), *x));
            }
        }
    }
    if !passed.is_empty() {
        o.hit();
        o.label("something is passed on");
    }
    check_complete(&rep, &passed).map_err(|e| format!("redelegated, but {e}{}", describe(&b, &rep)))?;
    if root.caps.is_empty() {
        check_sound(&rep, &passed).map_err(|e| format!("redelegated only, but {e}{}", describe(&b, &rep)))?;
        if root.redelegated.is_empty() {
            ensure!(rep.is_empty(), "nothing is claimed or redelegated, but reported{}", describe(&b, &rep));
            o.hit();
        }
    }
    Ok(())
}

/// Selecting a position that is not there
fn t9bad() -> BoxedStrategy<Case> {
    (node(0, 0, 2), out_of_range(), prop::collection::vec(node(1, 0, 2), 0..4), 0u8..4)
        .prop_map(|(mut root, k, rest, at)| {
            let mut tree = vec![];
            let mut rest = rest;
            // at the presented token, or below it
            if rest.is_empty() || at < 2 {
                root.claims.push(Claim::OutOfRange(k));
            } else {
                let i = at as usize % rest.len();
                rest[i].claims.push(Claim::OutOfRange(k));
            }
            tree.push(root);
            tree.extend(rest);
            Case { tree }
        })
        .boxed()
}

fn check9bad(c: &Case, o: &mut Obs) -> Verdict {
    let b = build(&c.tree);
    o.hit();
    let r = block(ProofChain::try_from_token_string(&b.nodes[0].text, Some(t0()), &mut parser(), &b.store));
    ensure!(r.is_err(), "a chain that redelegates a proof it does not cite is accepted{}", describe(&b, &[]));
    // without the bad selections, the same tree is accepted
    let mut t = c.tree.clone();
    for n in &mut t {
        n.claims.retain(|c| !matches!(c, Claim::OutOfRange(_)));
    }
    chain(&build(&t), 0)?;
    Ok(())
}

pub fn c07() -> Property {
    super::property(
        "C07",
        vec![part(
            "attribution",
            "trees of 1-30 tokens over a small colliding domain of capabilities (sets of letters, own/other identity, levels, caveats), claims fresh or derived from what the proofs \
             grant (narrowed, widened, moved), foreign claims, redelegations; every reported (capability, originator) must be in the reference closure. Non-trivial: at least \
             one proof and one reported capability.",
            40_000,
            2_000_000,
            t7,
            check7,
        )],
        vec![],
        vec!["when only a redelegated proof enables an explicit claim, crediting the claim to its issuer too is allowed"],
    )
}

pub fn c08() -> Property {
    super::property(
        "C08",
        vec![part(
            "coverage",
            "as C07; every (capability, originator) of the reference closure must be covered, with the presented token's bounds, nothing twice, the same when asked again. Non-trivial: \
             the closure is not empty.",
            40_000,
            2_000_000,
            t7,
            check8,
        )],
        vec![],
        vec![],
    )
}

pub fn c09() -> Property {
    super::property(
        "C09",
        vec![
            part(
                "selection",
                "presented tokens with redelegation entries (by position, of all, with empty caveat lists, look-alikes) over several proofs that redelegate themselves; reported equals \
                 what the selected proofs report, plus explicit claims. Non-trivial: something is passed on, or nothing is claimed at all.",
                32_000,
                1_500_000,
                t9,
                check9,
            ),
            part(
                "missing-position",
                "a tree in which some token redelegates a position it has no proof at; never accepted, and accepted without that entry. Non-trivial: all.",
                8_000,
                200_000,
                t9bad,
                check9bad,
            ),
        ],
        vec![],
        vec![],
    )
}
