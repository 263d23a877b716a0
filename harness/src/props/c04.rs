//! C04: a token is usable exactly within its time bounds, at the instant asked about
use super::*;
use crate::gens::*;
use crate::jwt;
use crate::keys::*;
use crate::store::TestStore;
use crate::{clock, ensure, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::json;
use ucan::capability::Capability;
use ucan::chain::ProofChain;
use ucan::Ucan;

/// An instant relative to the bounds
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum At {
    Abs(u64),
    Nbf(i64),
    Exp(i64),
}

fn at() -> BoxedStrategy<At> {
    prop_oneof![
        4 => bound().prop_map(At::Abs),
        6 => (-2i64..3).prop_map(At::Nbf),
        6 => (-2i64..3).prop_map(At::Exp),
        2 => (distance(), any::<bool>()).prop_map(|(d, n)| if n { At::Nbf(d) } else { At::Exp(d) }),
    ]
    .boxed()
}

impl At {
    fn resolve(&self, nbf: Option<u64>, exp: Option<u64>) -> u64 {
        let off = |b: u64, d: i64| b.saturating_add_signed(d);
        match self {
            At::Abs(t) => *t,
            At::Nbf(d) => off(nbf.or(exp).unwrap_or(5), *d),
            At::Exp(d) => off(exp.or(nbf).unwrap_or(5), *d),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    iss: usize,
    nbf: Option<u64>,
    exp: Option<u64>,
    at: At,
    clock: At,
    bad_signature: bool,
    proof: bool,
    foreign: bool,
    #[serde(default)]
    rest: Extras,
}

fn cases() -> BoxedStrategy<Case> {
    (
        any_actor(),
        prop::option::weighted(0.7, bound()),
        prop::option::weighted(0.7, bound()),
        at(),
        at(),
        prop::bool::weighted(0.1),
        prop::bool::weighted(0.3),
        any::<bool>(),
        extras(),
    )
        .prop_map(|(iss, nbf, exp, at, clock, bad_signature, proof, foreign, rest)| Case { iss, nbf, exp, at, clock, bad_signature, proof, foreign, rest })
        .boxed()
}

fn within(nbf: Option<u64>, exp: Option<u64>, t: u64) -> bool {
    nbf.map(|n| n <= t).unwrap_or(true) && exp.map(|e| t <= e).unwrap_or(true)
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let a = actor(c.iss);
    let mut payload = json!({"ucv": "0.10.0-canary", "iss": a.did, "aud": ed(0).did, "exp": c.exp, "cap": {}});
    c.rest.add_to(&mut payload);
    if let Some(n) = c.nbf {
        payload["nbf"] = json!(n);
    }
    let mut text = if c.foreign {
        jwt::token(a, &payload)
    } else {
        let mut b = ucan::builder::UcanBuilder::default().issued_by(&a.km).for_audience(&actor(c.rest.aud).did);
        for (r, k, v) in &c.rest.caps {
            b = b.claiming_capability(Capability::new(r.clone(), k.clone(), v.clone()));
        }
        for (k, v) in &c.rest.facts {
            b = b.with_fact(k, v.clone());
        }
        if let Some(n) = c.nbf {
            b = b.not_before(n);
        }
        if let Some(e) = c.exp {
            b = b.with_expiration(e);
        }
        block(b.build().unwrap().sign()).and_then(|u| u.encode()).map_err(|e| format!("{e:?}"))?
    };
    if c.bad_signature {
        let other = a.raw.sign(b"something else");
        text = format!("{}.{}", &text[..text.rfind('.').unwrap()], jwt::b64(&other));
    }
    let u = Ucan::try_from(text.as_str()).map_err(|e| format!("{e:?}"))?;
    let t = c.at.resolve(c.nbf, c.exp);
    // the machine clock: something unrelated
    let works = clock::works();
    let wall = c.clock.resolve(c.nbf, c.exp).min(i64::MAX as u64);
    if works {
        clock::set(wall);
    }
    let mut p = parser();
    let expect = within(c.nbf, c.exp, t) && !c.bad_signature;
    o.label(if within(c.nbf, c.exp, t) { "in time" } else { "out of time" });
    o.label_if(Some(t) == c.exp, "at expiry");
    o.label_if(Some(t) == c.nbf, "at not-before");
    o.label_if(within(c.nbf, c.exp, t) != within(c.nbf, c.exp, wall), "clock disagrees with the instant");
    if c.nbf.is_some() || c.exp.is_some() {
        o.hit();
    }
    let describe = format!("bounds {:?}..{:?}, instant {t}, machine clock {wall}", c.nbf, c.exp);
    let r = block(u.validate(Some(t), &mut p));
    ensure!(r.is_ok() == expect, "validate at the instant: {r:?}, expected {expect} ({describe})");
    let expired = c.exp.map(|e| e < t).unwrap_or(false);
    same!(u.is_expired(Some(t)), expired, "is_expired at the instant ({describe})");
    // without an instant, the current time
    if works {
        let now = wall;
        let expect_now = within(c.nbf, c.exp, now) && !c.bad_signature;
        let r = block(u.validate(None, &mut p));
        ensure!(r.is_ok() == expect_now, "validate without an instant: {r:?}, expected {expect_now} ({describe})");
        same!(u.is_expired(None), c.exp.map(|e| e < now).unwrap_or(false), "is_expired without an instant ({describe})");
        same!(u.is_too_early(), c.nbf.map(|n| n > now).unwrap_or(false), "is_too_early ({describe})");
        // the same instant, asked for both ways
        clock::set(t.min(i64::MAX as u64));
        if t <= i64::MAX as u64 {
            let r = block(u.validate(None, &mut p));
            ensure!(r.is_ok() == expect, "validate with the clock at the instant: {r:?}, expected {expect} ({describe})");
        }
        clock::set(wall);
    } else {
        let before = clock::real_now();
        let r = block(u.validate(None, &mut p)).is_ok();
        let after = clock::real_now();
        if before == after {
            same!(r, within(c.nbf, c.exp, before) && !c.bad_signature, "validate without an instant ({describe})");
        }
    }
    // chains judge it the same way, also as a proof of a token with the same bounds
    let mut store = TestStore::default();
    let cid = store.put(&text, jwt::hash_code(0));
    let r = block(ProofChain::from_cid(&cid, Some(t), &mut p, &store));
    ensure!(r.is_ok() == expect, "chain at the instant: {}, expected {expect} ({describe})", r.is_ok());
    let r = block(ProofChain::try_from_token_string(&text, Some(t), &mut p, &store));
    ensure!(r.is_ok() == expect, "chain from text at the instant: {}, expected {expect} ({describe})", r.is_ok());
    if works && t <= i64::MAX as u64 {
        clock::set(t);
        let r = block(ProofChain::from_ucan(u.clone(), None, &mut p, &store));
        ensure!(r.is_ok() == expect, "chain with the clock at the instant: {}, expected {expect} ({describe})", r.is_ok());
        clock::set(wall);
    }
    if c.proof {
        let outer_by = actor(c.rest.aud);
        let mut payload = json!({"ucv": "0.10.0-canary", "iss": outer_by.did, "aud": ed(1).did, "exp": c.exp, "cap": {}, "prf": [cid.to_string()]});
        if let Some(n) = c.nbf {
            payload["nbf"] = json!(n);
        }
        let outer = jwt::token(outer_by, &payload);
        let r = block(ProofChain::try_from_token_string(&outer, Some(t), &mut p, &store));
        ensure!(r.is_ok() == expect, "as a proof at the instant: {}, expected {expect} ({describe})", r.is_ok());
        if works && t <= i64::MAX as u64 {
            clock::set(t);
            let r = block(ProofChain::try_from_token_string(&outer, None, &mut p, &store));
            ensure!(r.is_ok() == expect, "as a proof with the clock at the instant: {}, expected {expect} ({describe})", r.is_ok());
        }
        o.label("as a proof");
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C04",
        vec![part(
            "instants",
            "bounds over the whole u64 range (small, realistic, extreme, absent), an instant and a machine clock at, next to or far from them, sometimes a bad \
             signature, sometimes as a proof; validation, queries and chains agree with interval membership. The machine clock is replaced per thread. Non-trivial: at least one bound.",
            40_000,
            1_500_000,
            cases,
            check,
        )],
        vec![],
        vec!["instants after year 292 billion are only asked about explicitly (the machine clock cannot show them)"],
    )
}
