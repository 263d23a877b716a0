//! C02: what is put into a token is exactly what is read out of it
use super::*;
use crate::gens::*;
use crate::jwt;
use crate::keys::*;
use crate::{ensure, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use ucan::serde::DagJson;
use ucan::Ucan;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    spec: Spec,
    signable: bool,
}

fn cases(slash: bool) -> BoxedStrategy<Case> {
    let proofs = prop_oneof![
        3 => few(3).prop_flat_map(|n| prop::collection::vec(cid_like(), n)),
        1 => prop::collection::vec(text(), 0..3),
    ];
    (spec_with(any_actor(), slash, proofs.boxed()), any::<bool>())
        .prop_map(|(spec, signable)| Case { spec, signable })
        .boxed()
}

/// Compares all accessors with what the token was built from
pub fn check_reads(u: &Ucan, s: &Spec, what: &str) -> Verdict {
    let a = actor(s.iss);
    same!(u.issuer(), a.did.as_str(), "{what}: issuer");
    same!(u.audience(), s.aud.as_str(), "{what}: audience");
    same!(u.algorithm(), a.raw.alg(), "{what}: algorithm");
    same!(u.version(), "0.10.0-canary", "{what}: version");
    same!(*u.expires_at(), s.exp, "{what}: expiry");
    same!(*u.not_before(), s.nbf, "{what}: not before");
    let facts = s.fact_map();
    same!(u.facts().clone().unwrap_or_default(), facts, "{what}: facts");
    ensure!(u.facts().is_some() != facts.is_empty(), "{what}: facts presence");
    same!(u.proofs().clone().unwrap_or_default(), s.proofs, "{what}: proofs");
    ensure!(u.proofs().is_some() != s.proofs.is_empty(), "{what}: proofs presence");
    let got: std::collections::BTreeMap<String, std::collections::BTreeMap<String, Vec<Value>>> =
        (**u.capabilities()).clone();
    same!(got, s.grouped(), "{what}: capabilities");
    ensure!(u.nonce().is_some() == s.nonce, "{what}: nonce presence");
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let s = &c.spec;
    let built = if c.signable {
        block(s.signable().sign())
    } else {
        s.build()
    };
    o.label(kind_label(s.iss));
    o.label_if(!s.facts.is_empty(), "facts");
    o.label_if(!s.caps.is_empty(), "capabilities");
    o.label_if(s.grouped().values().any(|a| a.values().any(|c| c.len() > 1)), "several caveats for one ability");
    o.label_if(s.grouped().values().any(|a| a.len() > 1), "several abilities for one resource");
    o.label_if(s.any_slash(), "reserved key");
    o.label_if(s.exp.is_none(), "no expiry");
    let u = match built {
        Ok(u) => u,
        Err(e) => {
            o.label("refused to sign");
            ensure!(s.any_slash(), "cannot be signed: {e:?}");
            return Ok(());
        }
    };
    if !s.facts.is_empty() || !s.caps.is_empty() || !s.proofs.is_empty() {
        o.hit();
    }
    check_reads(&u, s, "as signed")?;
    let text = u.encode().map_err(|e| format!("cannot encode: {e:?}"))?;
    let d = Ucan::try_from(text.as_str()).map_err(|e| format!("cannot decode its own text {text}: {e:?}"))?;
    same!(d, u, "decoded text");
    check_reads(&d, s, "decoded text")?;
    let d2: Ucan = text.parse().map_err(|e| format!("{e:?}"))?;
    let d3 = Ucan::try_from(text.clone()).map_err(|e| format!("{e:?}"))?;
    ensure!(d2 == u && d3 == u, "the ways to parse text disagree");
    let j = serde_json::to_string(&u).map_err(|e| format!("cannot write JSON: {e:?}"))?;
    let d: Ucan = serde_json::from_str(&j).map_err(|e| format!("cannot read its own JSON: {e:?}"))?;
    same!(d, u, "JSON form");
    check_reads(&d, s, "JSON form")?;
    let j = u.to_dag_json().map_err(|e| format!("cannot write DAG-JSON: {e:?}"))?;
    let d = Ucan::from_dag_json(&j).map_err(|e| format!("cannot read its own DAG-JSON: {e:?}"))?;
    same!(d, u, "DAG-JSON form");
    check_reads(&d, s, "DAG-JSON form")?;
    // it validates
    let mut p = parser();
    block(d.check_signature(&mut p)).map_err(|e| format!("its signature is refused: {e:?}"))?;
    if let Some(t) = instant_within(s.nbf, s.exp) {
        block(d.validate(Some(t), &mut p)).map_err(|e| format!("refused at {t}: {e:?}"))?;
    }
    // an outside reader
    let (h, p, sig) = jwt::open(&text).map_err(|e| format!("an outside reader cannot read {text}: {e}"))?;
    same!(h.to_value(), json!({"alg": actor(s.iss).raw.alg(), "typ": "JWT"}), "header");
    let expected = s.payload(u.nonce().as_deref());
    same!(p.to_value(), expected, "payload for an outside reader");
    ensure!(actor(s.iss).raw.verify(u.signed_data(), &sig), "the outside reader's signature check fails");
    if let Some(n) = u.nonce() {
        ensure!(!n.is_empty(), "empty nonce");
    }
    Ok(())
}

fn plain() -> BoxedStrategy<Case> {
    cases(false)
}

fn slashed() -> BoxedStrategy<Case> {
    cases(true)
}

pub fn property() -> Property {
    super::property(
        "C02",
        vec![
            part(
                "roundtrip",
                "contents of a token (any JSON in facts and caveats, odd texts, extreme numbers, every key type), built by the builder or as a Signable; read \
                 back by accessors, from text, JSON, DAG-JSON and by an independent reader. Non-trivial: with facts, capabilities or proofs.",
                24_000,
                600_000,
                plain,
                check,
            ),
            part(
                "reserved-keys",
                "as roundtrip, with the key \"/\" (reserved by DAG-JSON) in facts and caveats: refused when signing, or read back exactly. Non-trivial: as roundtrip.",
                12_000,
                200_000,
                slashed,
                check,
            ),
        ],
        vec![],
        vec!["negative zero and non-finite numbers are not generated (JSON does not distinguish or have them)"],
    )
}
