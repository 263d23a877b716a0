//! C05: comparing lifetimes is interval containment
use super::*;
use crate::gens::*;
use crate::jwt;
use crate::keys::*;
use crate::{ensure, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::json;
use ucan::Ucan;

type Bounds = (Option<u64>, Option<u64>);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    bounds: Vec<Bounds>,
    at: u64,
    /// The issuer of each token, and what else it says
    #[serde(default)]
    rest: Vec<(usize, Extras)>,
}

fn cases() -> BoxedStrategy<Case> {
    let b = || {
        prop_oneof![
            3 => prop::option::weighted(0.75, 0u64..5),
            1 => prop::option::weighted(0.75, prop_oneof![Just(0u64), Just(u64::MAX), Just(u64::MAX - 1), Just(i64::MAX as u64), Just(1 << 63)]),
            1 => prop::option::weighted(0.75, bound()),
        ]
    };
    let edit = || prop_oneof![4 => Just(None), 1 => distance().prop_map(Some)];
    // sometimes a bound is some distance from that of the token before
    (prop::collection::vec((b(), b()), 3), prop::collection::vec((edit(), edit()), 2), prop_oneof![0u64..6, bound()], prop::collection::vec((any_actor(), extras()), 3))
        .prop_map(|(mut bounds, edits, at, rest)| {
            for (i, (n, e)) in edits.into_iter().enumerate() {
                if let (Some(d), Some(x)) = (n, bounds[i].0) {
                    bounds[i + 1].0 = Some(x.saturating_add_signed(d));
                }
                if let (Some(d), Some(x)) = (e, bounds[i].1) {
                    bounds[i + 1].1 = Some(x.saturating_add_signed(d));
                }
            }
            Case { bounds, at, rest }
        })
        .boxed()
}

fn token(b: Bounds, rest: Option<&(usize, Extras)>) -> Result<Ucan, String> {
    let iss = rest.map(|r| actor(r.0)).unwrap_or(ed(0));
    let mut payload = json!({"ucv": "0.10.0-canary", "iss": iss.did, "aud": ed(1).did, "exp": b.1, "cap": {}});
    if let Some((_, x)) = rest {
        x.add_to(&mut payload);
    }
    if let Some(n) = b.0 {
        payload["nbf"] = json!(n);
    }
    Ucan::try_from(jwt::token(iss, &payload)).map_err(|e| format!("{e:?}"))
}

/// Bounds as points on an extended line
fn start(b: Bounds) -> i128 {
    b.0.map(|x| x as i128).unwrap_or(i128::MIN)
}
fn end(b: Bounds) -> i128 {
    b.1.map(|x| x as i128).unwrap_or(i128::MAX)
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let tokens: Vec<Ucan> = c.bounds.iter().enumerate().map(|(i, b)| token(*b, c.rest.get(i))).collect::<Result<_, _>>()?;
    o.hit();
    let n = tokens.len();
    let mut enc = vec![vec![false; n]; n];
    for i in 0..n {
        for j in 0..n {
            let (a, b) = (c.bounds[i], c.bounds[j]);
            let begins = start(a) <= start(b);
            let ends = end(a) >= end(b);
            same!(tokens[i].lifetime_begins_before(&tokens[j]), begins, "begins before: {a:?} / {b:?}");
            same!(tokens[i].lifetime_ends_after(&tokens[j]), ends, "ends after: {a:?} / {b:?}");
            same!(tokens[i].lifetime_encompasses(&tokens[j]), begins && ends, "encompasses: {a:?} / {b:?}");
            enc[i][j] = tokens[i].lifetime_encompasses(&tokens[j]);
            o.label_if(i != j && enc[i][j], "one encompasses another");
            o.label_if(i != j && begins && !ends, "begins earlier but ends earlier");
        }
        ensure!(enc[i][i], "not reflexive: {:?}", c.bounds[i]);
    }
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                ensure!(!(enc[i][j] && enc[j][k]) || enc[i][k], "not transitive: {:?}", c.bounds);
            }
            // whenever the second is in time, so is the first
            if enc[i][j] {
                let mut p = parser();
                for t in [c.at, c.bounds[j].0.unwrap_or(c.at), c.bounds[j].1.unwrap_or(c.at)] {
                    if block(tokens[j].validate(Some(t), &mut p)).is_ok() {
                        let r = block(tokens[i].validate(Some(t), &mut p));
                        ensure!(r.is_ok(), "{:?} encompasses {:?}, but only the second is in time at {t}", c.bounds[i], c.bounds[j]);
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C05",
        vec![part(
            "triples",
            "three tokens with bounds from small, extreme and arbitrary values or none; all nine comparisons against intervals on an extended line, the order laws, and the \
             consequence for validation. Non-trivial: all.",
            24_000,
            1_000_000,
            cases,
            check,
        )],
        vec![],
        vec![],
    )
}
