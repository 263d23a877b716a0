//! C03: a received token is re-emitted and identified unchanged
use super::*;
use crate::gens::*;
use crate::jwt::{self, Tape, J};
use crate::keys::*;
use crate::store::TestStore;
use crate::{ensure, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::json;
use ucan::builder::UcanBuilder;
use ucan::chain::ProofChain;
use ucan::ucan::Ucan;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    spec: Spec,
    nonce: Option<String>,
    /// explicit nulls / empty values for absent optional fields, by field
    explicit: Vec<u8>,
    /// fields this library does not know
    extra: Vec<(String, serde_json::Value)>,
    typ: String,
    tape: Vec<u8>,
    hash: usize,
    /// other bytes in place of the signature: what is received need not be valid
    sig: Option<Vec<u8>>,
}

fn cases() -> BoxedStrategy<Case> {
    (
        super::c01::timed_spec(any_actor()),
        prop::option::of(text()),
        prop::collection::vec(0u8..3, 4),
        prop_oneof![
            4 => Just(vec![]),
            1 => prop::collection::vec((prop_oneof![Just("iat".to_string()), Just("jti".to_string()), text()], json(false)), 1..3),
        ],
        prop_oneof![4 => Just("JWT".to_string()), 1 => prop_oneof![Just("jwt".to_string()), Just("ucan/1".to_string()), text()]],
        prop_oneof![1 => Just(vec![]), 6 => prop::collection::vec(any::<u8>(), 1..60)],
        0usize..jwt::HASHES.len(),
        prop_oneof![4 => Just(None), 1 => prop_oneof![Just(vec![]), prop::collection::vec(any::<u8>(), 0..70)].prop_map(Some)],
    )
        .prop_map(|(spec, nonce, explicit, extra, typ, tape, hash, sig)| Case { spec, nonce, explicit, extra, typ, tape, hash, sig })
        .boxed()
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let a = actor(c.spec.iss);
    let mut payload = J::from_value(&c.spec.payload(c.nonce.as_deref()));
    let mut extra = false;
    if let J::Obj(fields) = &mut payload {
        for (i, (k, empty)) in [("nbf", J::Null), ("nnc", J::Null), ("fct", J::Obj(vec![])), ("prf", J::Arr(vec![]))].into_iter().enumerate() {
            if fields.iter().any(|(f, _)| f == k) {
                continue;
            }
            match c.explicit[i % c.explicit.len().max(1)] {
                0 => {}
                1 => {
                    fields.push((k.into(), J::Null));
                    o.label("explicit null");
                }
                _ => {
                    fields.push((k.into(), empty));
                    o.label("explicit empty value");
                }
            }
        }
        const KNOWN: [&str; 9] = ["ucv", "iss", "aud", "exp", "nbf", "nnc", "cap", "fct", "prf"];
        for (k, v) in &c.extra {
            if !KNOWN.contains(&k.as_str()) && !fields.iter().any(|(f, _)| f == k) {
                fields.push((k.clone(), J::from_value(v)));
                extra = true;
            }
        }
    }
    let header = J::from_value(&json!({"alg": a.raw.alg(), "typ": c.typ}));
    let mut tape = Tape::new(&c.tape);
    let h = header.write(&mut tape);
    let p = payload.write(&mut tape);
    let mut text = jwt::assemble(a, &h, &p);
    if let Some(sig) = &c.sig {
        text.truncate(text.rfind('.').unwrap() + 1);
        text += &jwt::b64(sig);
        o.label(if sig.is_empty() { "no signature" } else { "wrong signature" });
    }
    o.label(kind_label(c.spec.iss));
    o.label_if(extra, "unknown fields");
    let u = match super::read(&text)? {
        Ok(u) => u,
        Err(e) => {
            ensure!(extra, "a valid token with layout {p} is refused: {e:?}");
            return Ok(());
        }
    };
    if h != header.compact() || p != J::from_value(&c.spec.payload(c.nonce.as_deref())).compact() {
        o.hit();
        o.label("non-canonical layout");
    }
    let again = u.encode().map_err(|e| format!("cannot encode: {e:?}"))?;
    ensure!(again == text, "re-encoding changes the text\n  from {text}\n  to   {again}");
    same!(u.signed_data(), text[..text.rfind('.').unwrap()].as_bytes(), "signed data");
    // the same after a copy, and after travelling in JSON form
    same!(u.clone().encode().map_err(|e| format!("{e:?}"))?, text, "text of a clone");
    let j = serde_json::to_string(&u).map_err(|e| format!("{e:?}"))?;
    let v: Ucan = serde_json::from_str(&j).map_err(|e| format!("{e:?}"))?;
    same!(v.encode().map_err(|e| format!("{e:?}"))?, text, "text after the JSON form");
    let w = Ucan::try_from(again.as_str()).map_err(|e| format!("the re-emitted text cannot be parsed: {e:?}"))?;
    ensure!(w == u, "the re-emitted text is a different token");
    // it still validates
    let t = instant_within(c.spec.nbf, c.spec.exp).unwrap_or(0);
    let mut p = parser();
    if c.sig.is_none() {
        block(w.validate(Some(t), &mut p)).map_err(|e| format!("the re-emitted token is refused: {e:?}"))?;
    }
    // content identifiers
    for k in [c.hash, 0, 1, c.hash + 3] {
        let cid = u.to_cid(jwt::hash_code(k)).map_err(|e| format!("no content identifier: {e:?}"))?;
        same!(cid.to_bytes(), jwt::cid_bytes(k, text.as_bytes()), "identifier under {}", jwt::HASHES[k % jwt::HASHES.len()].0);
    }
    // and a chain that cites the token by it resolves from the received text
    if c.hash % 3 == 0 && c.sig.is_none() {
        if let Some(issuer) = actors().iter().find(|x| x.did == c.spec.aud) {
            let mut store = TestStore::default();
            store.put(&text, jwt::hash_code(c.hash));
            let mut b = UcanBuilder::default()
                .issued_by(&issuer.km)
                .for_audience("did:web:x")
                .witnessed_by(&u, Some(jwt::hash_code(c.hash)));
            if let Some(e) = c.spec.exp {
                b = b.with_expiration(e);
            }
            if let Some(n) = c.spec.nbf {
                b = b.not_before(n);
            }
            let child = block(b.build().unwrap().sign()).map_err(|e| format!("{e:?}"))?;
            let has_proofs = !c.spec.proofs.is_empty()
                // (selecting a proof that is not there is an error)
                || c.spec.caps.iter().any(|(r, a, _)| selects_proofs(r) && a == "ucan/DELEGATE");
            let r = block(ProofChain::from_ucan(child, Some(t), &mut p, &store));
            o.label("cited by another token");
            if !has_proofs {
                r.map_err(|e| format!("citing the received token: {e:?}"))?;
            }
        }
    }
    Ok(())
}

/// A valid token with something around its parts
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Within {
    spec: Spec,
    /// before the token and after it, after its header and after its payload
    around: [String; 4],
    /// another last character of the header, the payload or the signature
    #[serde(default)]
    last: Option<(u8, char)>,
}

fn within() -> BoxedStrategy<Within> {
    let piece = |n| prop_oneof![6 - n => Just(String::new()), n => around()];
    (
        super::c01::timed_spec(any_actor()),
        prop_oneof![
            4 => [around().boxed(), Just(String::new()).boxed(), Just(String::new()).boxed(), Just(String::new()).boxed()].prop_shuffle(),
            1 => [piece(2).boxed(), piece(2).boxed(), piece(1).boxed(), piece(1).boxed()].boxed(),
            2 => Just([const { String::new() }; 4]),
        ],
        prop::option::weighted(
            0.3,
            (0u8..3, prop::sample::select("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_+/".chars().collect::<Vec<_>>())),
        ),
    )
        .prop_map(|(spec, around, last)| Within { spec, around, last })
        .boxed()
}

fn check_within(c: &Within, o: &mut Obs) -> Verdict {
    let a = actor(c.spec.iss);
    let h = J::from_value(&jwt::header_json(a)).compact();
    let p = J::from_value(&c.spec.payload(None)).compact();
    let token = jwt::assemble(a, &h, &p);
    let mut s: Vec<String> = token.split('.').map(String::from).collect();
    if let Some((k, ch)) = c.last {
        s[k as usize % 3].pop();
        s[k as usize % 3].push(ch);
    }
    let [before, after, x, y] = &c.around;
    let text = format!("{before}{}{x}.{}{y}.{}{after}", s[0], s[1], s[2]);
    if text != token {
        o.hit();
    }
    // refused, or kept as it is: by its text, by its identifier, as a part of JSON
    let Ok(u) = super::read(&text)? else {
        ensure!(text != token, "a valid token is refused");
        return Ok(());
    };
    o.label("read");
    same!(u.encode().map_err(|e| format!("{e:?}"))?, text, "the text");
    for k in [0, 1] {
        let cid = u.to_cid(jwt::hash_code(k)).map_err(|e| format!("no content identifier: {e:?}"))?;
        same!(cid.to_bytes(), jwt::cid_bytes(k, text.as_bytes()), "the identifier of the text");
    }
    let j = serde_json::to_string(&u).map_err(|e| format!("{e:?}"))?;
    let v: Ucan = serde_json::from_str(&j).map_err(|e| format!("{e:?}"))?;
    same!(v.encode().map_err(|e| format!("{e:?}"))?, text, "text after the JSON form");
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C03",
        vec![part(
            "foreign-layout",
            "a token written and signed independently with random JSON layout (field order, whitespace, escapes, explicit nulls and empty values, sometimes \
             unknown fields, other typ); parsed and re-emitted, identified under several of 15 hash functions, cited as a proof. Non-trivial: the layout is not the canonical one.",
            24_000,
            800_000,
            cases,
            check,
        ),
        part(
            "surroundings",
            "a valid token with a scheme, blanks, padding, quotes or a text of the code before it, after it or after its header or payload; it is refused, or re-emitted and identified \
             as the text that was received. Non-trivial: there is something around it.",
            24_000,
            800_000,
            within,
            check_within,
        )],
        vec![],
        vec!["a token with fields unknown to the library may be refused; if it is parsed, it must be re-emitted unchanged"],
    )
}
