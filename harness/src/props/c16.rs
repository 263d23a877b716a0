//! C16: the binary (IPLD) form carries the whole token
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::{clock, ensure, jwt, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use std::str::FromStr;
use ucan::capability::{Capabilities, Capability};
use ucan::crypto::JwtSignatureAlgorithm;
use ucan::ipld::{Principle, UcanIpld};
use ucan::serde::DagJson;
use ucan::Ucan;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    spec: Spec,
    /// Made by the library, or by another implementation in the same canonical layout with this version
    foreign: Option<(String, Option<String>)>,
    form: u8,
}

fn cases() -> BoxedStrategy<Case> {
    (
        spec_ipld(prop_oneof![3 => any_actor(), 1 => even_actor()].boxed()),
        prop::option::weighted(
            0.3,
            (
                prop_oneof![3 => Just("0.10.0-canary".to_string()), 1 => Just("0.9.0".to_string()), 1 => Just("0.10.0".to_string()), 1 => text()],
                prop::option::of(text()),
            ),
        ),
        0u8..4,
    )
        .prop_map(|(spec, foreign, form)| Case { spec, foreign, form })
        .boxed()
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let u = match &c.foreign {
        None => c.spec.build().map_err(|e| format!("cannot build: {e:?}"))?,
        Some((v, nonce)) => {
            let mut p = c.spec.payload(nonce.as_deref());
            p["ucv"] = json!(v);
            if let Some(Value::Array(prf)) = p.get_mut("prf") {
                // other implementations may cite by other codecs
                for (i, x) in prf.iter_mut().enumerate() {
                    let Some(cid) = x.as_str().and_then(|t| cid::Cid::try_from(t).ok()) else { continue };
                    let codec = [0x55, 0x71, 0x0129, 0x70][(c.form as usize + i) % 4];
                    *x = json!(cid::Cid::new_v1(codec, *cid.hash()).to_string());
                }
            }
            let t = jwt::token(actor(c.spec.iss), &p);
            Ucan::try_from(t.as_str()).map_err(|e| format!("cannot read: {e:?}"))?
        }
    };
    let text = u.encode().map_err(|e| format!("{e:?}"))?;
    let x = UcanIpld::try_from(&u).map_err(|e| format!("cannot convert: {e:?}"))?;
    o.hit();
    o.label(kind_label(c.spec.iss));
    o.label(if c.foreign.is_some() { "another implementation's" } else { "our own" });
    o.label_if(u.proofs().is_some(), "proofs");
    o.label_if(u.facts().is_some(), "facts");
    o.label_if(u.nonce().is_some(), "nonce");
    // it reports the same fields
    same!(x.v, u.version(), "version");
    same!(x.iss.to_string(), u.issuer(), "issuer");
    same!(x.aud.to_string(), u.audience(), "audience");
    let (alg, sig) = x.s.decode().map_err(|e| format!("signature: {e:?}"))?;
    same!(alg.to_string(), u.algorithm(), "algorithm");
    same!(sig.as_slice(), u.signature(), "signature");
    same!(x.cap, *u.capabilities(), "capabilities");
    same!(
        x.prf.as_ref().map(|p| p.iter().map(|c| c.to_string()).collect::<Vec<_>>()),
        *u.proofs(),
        "proofs"
    );
    same!(x.exp, *u.expires_at(), "expiry");
    same!(x.nbf, *u.not_before(), "not-before");
    same!(x.nnc, *u.nonce(), "nonce");
    same!(x.fct, *u.facts(), "facts");
    // through bytes and back
    let y: UcanIpld = match c.form {
        0 => UcanIpld::try_from(&u).map_err(|e| format!("{e:?}"))?,
        1 => {
            let b = serde_ipld_dagcbor::to_vec(&x).map_err(|e| format!("cannot encode: {e:?}"))?;
            o.label("DAG-CBOR");
            let again = serde_ipld_dagcbor::to_vec(&x).map_err(|e| format!("{e:?}"))?;
            ensure!(b == again, "two encodings of one token differ");
            serde_ipld_dagcbor::from_slice(&b).map_err(|e| format!("cannot decode: {e:?}"))?
        }
        2 => {
            let b = serde_ipld_dagcbor::to_vec(&x).map_err(|e| format!("cannot encode: {e:?}"))?;
            let y: UcanIpld = serde_ipld_dagcbor::from_slice(&b).map_err(|e| format!("cannot decode: {e:?}"))?;
            let b2 = serde_ipld_dagcbor::to_vec(&y).map_err(|e| format!("{e:?}"))?;
            ensure!(b == b2, "encoding what was decoded gives other bytes");
            y
        }
        _ => {
            let b = x.to_dag_json().map_err(|e| format!("cannot encode as DAG-JSON: {e:?}"))?;
            UcanIpld::from_dag_json(&b).map_err(|e| format!("cannot decode from DAG-JSON: {e:?}"))?
        }
    };
    ensure!(x == y, "bytes and back: {y:?} instead of {x:?}");
    let v = Ucan::try_from(&y).map_err(|e| format!("cannot convert back: {e:?}"))?;
    let back = v.encode().map_err(|e| format!("{e:?}"))?;
    ensure!(back == text, "comes back as\n  {back}\ninstead of\n  {text}");
    ensure!(v == u, "comes back as a different token value");
    if let Some(t) = instant_within(c.spec.nbf, c.spec.exp) {
        if clock::works() {
            clock::set(t.min(i64::MAX as u64));
        }
        block(v.validate(Some(t), &mut parser())).map_err(|e| format!("no longer validates: {e:?}"))?;
    }
    Ok(())
}

// --- fields without a binary form --------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Odd {
    spec: Spec,
    kind: u8,
    text: String,
}

fn odds() -> BoxedStrategy<Odd> {
    (spec_ipld(any_actor()), 0u8..6, text()).prop_map(|(spec, kind, text)| Odd { spec, kind, text }).boxed()
}

/// A token that cannot be carried faithfully is refused, rather than turned into another
fn check_odd(c: &Odd, o: &mut Obs) -> Verdict {
    let mut p = c.spec.payload(None);
    let a = actor(c.spec.iss);
    let mut h = jwt::header_json(a);
    match c.kind {
        0 => p["aud"] = json!(c.text),
        1 => p["prf"] = json!([c.text]),
        2 => h["alg"] = json!(c.text),
        3 => h["typ"] = json!(c.text),
        4 => p["aud"] = json!(format!("did:key:z{}", c.text)),
        _ => {
            let cid = cid::Cid::try_from(jwt::cid_text(0, c.text.as_bytes())).map_err(|e| e.to_string())?;
            p["prf"] = json!([cid.to_string_of_base(cid::multibase::Base::Base58Btc).map_err(|e| e.to_string())?]);
        }
    }
    let t = jwt::assemble(a, &jwt::J::from_value(&h).compact(), &jwt::J::from_value(&p).compact());
    let Ok(u) = Ucan::try_from(t.as_str()) else { return Ok(()) };
    o.hit();
    let Ok(x) = UcanIpld::try_from(&u) else {
        o.label("refused");
        return Ok(());
    };
    let b = serde_ipld_dagcbor::to_vec(&x).map_err(|e| format!("cannot encode: {e:?}"))?;
    let y: UcanIpld = serde_ipld_dagcbor::from_slice(&b).map_err(|e| format!("cannot decode what was encoded: {e:?}"))?;
    let Ok(v) = Ucan::try_from(&y) else {
        o.label("refused on the way back");
        return Ok(());
    };
    if v.encode().ok().as_ref() == Some(&t) {
        o.label("carried");
        return Ok(());
    }
    o.label("differs, does not validate");
    ensure!(
        block(v.check_signature(&mut parser())).is_err(),
        "the token {t} comes back as {:?}, which validates",
        v.encode()
    );
    // nothing but what has a second spelling may differ
    same!(v.issuer(), u.issuer(), "issuer");
    same!(v.audience(), u.audience(), "audience");
    same!(v.capabilities(), u.capabilities(), "capabilities");
    same!(v.expires_at(), u.expires_at(), "expiry");
    Ok(())
}

// --- binary forms written independently --------------------------------------------------------------

fn principal(did: &str) -> Option<Vec<u8>> {
    match did.strip_prefix("did:key:z") {
        Some(t) => bs58::decode(t).into_vec().ok(),
        None => did.strip_prefix("did:").map(|t| [&[0x9d, 0x1a], t.as_bytes()].concat()),
    }
}

fn alg_code(alg: &str) -> u64 {
    match alg {
        "EdDSA" => 0xd0ed,
        "RS256" => 0xd01205,
        _ => 0xd01200,
    }
}

/// A UcanIpld put together field by field, from the specification, converts to the very token
fn check_parts(spec: &Spec, o: &mut Obs) -> Verdict {
    let a = actor(spec.iss);
    let nonce = spec.nonce.then_some("some nonce");
    let t = jwt::token(a, &spec.payload(nonce));
    let (_, _, sig) = jwt::open(&t)?;
    let mut s = jwt::uvarint(alg_code(a.raw.alg()));
    s.extend(jwt::uvarint(sig.len() as u64));
    s.extend(&sig);
    let iss = principal(&a.did).ok_or("did")?;
    let aud = principal(&spec.aud).ok_or("aud")?;
    o.hit();
    let caps: Vec<Capability> = spec.caps.iter().map(|(r, a, c)| Capability::new(r.clone(), a.clone(), c.clone())).collect();
    let x = UcanIpld {
        v: "0.10.0-canary".into(),
        iss: Principle::from_str(&a.did).map_err(|e| format!("{e:?}"))?,
        aud: Principle::from_str(&spec.aud).map_err(|e| format!("{e:?}"))?,
        s: ucan::ipld::Signature(s),
        cap: Capabilities::try_from(caps).map_err(|e| format!("{e:?}"))?,
        prf: (!spec.proofs.is_empty()).then(|| spec.proofs.iter().map(|p| cid::Cid::try_from(p.as_str()).expect("cid")).collect()),
        exp: spec.exp,
        fct: (!spec.facts.is_empty()).then(|| spec.fact_map()),
        nnc: nonce.map(String::from),
        nbf: spec.nbf,
    };
    // the principals are the bytes of the specification
    let seen: Value = serde_json::to_value(&x.iss).map_err(|e| e.to_string())?;
    same!(seen, json!(iss), "issuer bytes");
    let seen: Value = serde_json::to_value(&x.aud).map_err(|e| e.to_string())?;
    same!(seen, json!(aud), "audience bytes");
    let u = Ucan::try_from(t.as_str()).map_err(|e| format!("{e:?}"))?;
    same!(UcanIpld::try_from(&u).map_err(|e| format!("{e:?}"))?, x, "converted token");
    let v = Ucan::try_from(&x).map_err(|e| format!("cannot convert: {e:?}"))?;
    same!(v.encode().map_err(|e| format!("{e:?}"))?, t, "token text");
    block(v.check_signature(&mut parser())).map_err(|e| format!("does not validate: {e:?}"))?;
    let _ = JwtSignatureAlgorithm::from_str(v.algorithm()).map_err(|e| format!("{e:?}"))?;
    Ok(())
}

fn parts_cases() -> BoxedStrategy<Spec> {
    spec_ipld(any_actor())
}

pub fn property() -> Property {
    super::property(
        "C16",
        vec![
            part(
                "there-and-back",
                "tokens signed by this library (or in the same canonical layout by another implementation, with other versions and nonces) with any \
                 capabilities, facts, bounds, proofs, of every key type; converted, through DAG-CBOR or DAG-JSON bytes and back: equal fields, equal text, still \
                 valid. Non-trivial: all.",
                20_000,
                600_000,
                cases,
                check,
            ),
            part(
                "field-by-field",
                "a binary form put together independently from the specification (principal and signature bytes included) equals the converted token and \
                 converts to its text. Non-trivial: all.",
                10_000,
                300_000,
                parts_cases,
                check_parts,
            ),
            super::c01::bin_part(12_000, 300_000),
            part(
                "no-binary-form",
                "tokens with an audience, proof, algorithm or type that has no binary form or a second spelling: refused, or carried, or no longer valid. \
                 Non-trivial: readable tokens.",
                10_000,
                200_000,
                odds,
                check_odd,
            ),
        ],
        vec![],
        vec![],
    )
}
