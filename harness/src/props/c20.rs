//! C20: equal content has one encoding
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::{ensure, jwt, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Map, Value};
use ucan::builder::UcanBuilder;
use ucan::capability::{Capabilities, Capability};
use ucan::ucan::{UcanHeader, UcanPayload};
use ucan::serde::Base64Encode;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    spec: Spec,
    order: Vec<u32>,
    change: Change,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Aud(String),
    Exp(Option<u64>),
    Nbf(Option<u64>),
    Fact(String, Value),
    DropFact(u8),
    Cap(String, String, Value),
    DropCap(u8),
    Caveat(u8, Value),
    /// The caveats of one ability in another order
    SwapCaps(u8, u8),
    Proof(String),
    SwapProofs(u8, u8),
    Issuer(usize),
    Move(u8),
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        did_text().prop_map(Change::Aud),
        prop::option::of(bound()).prop_map(Change::Exp),
        prop::option::of(bound()).prop_map(Change::Nbf),
        (key(), json(false)).prop_map(|(k, v)| Change::Fact(k, v)),
        any::<u8>().prop_map(Change::DropFact),
        (resource_text(), ability_text(), object(false)).prop_map(|(r, a, c)| Change::Cap(r, a, c)),
        any::<u8>().prop_map(Change::DropCap),
        (any::<u8>(), object(false)).prop_map(|(i, v)| Change::Caveat(i, v)),
        (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Change::SwapCaps(i, j)),
        cid_like().prop_map(Change::Proof),
        (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Change::SwapProofs(i, j)),
        any_actor().prop_map(Change::Issuer),
        any::<u8>().prop_map(Change::Move),
    ]
    .boxed()
}

fn cases() -> BoxedStrategy<Case> {
    let spec = spec_with(
        prop_oneof![6 => any_actor(), 1 => even_actor()].boxed(),
        false,
        few(3).prop_flat_map(|n| prop::collection::vec(cid_like(), n)).boxed(),
    );
    (spec, prop::collection::vec(any::<u32>(), 24), change())
        .prop_map(|(mut spec, order, change)| {
            spec.nonce = false;
            // one value per fact name
            let facts: std::collections::BTreeMap<_, _> = spec.facts.into_iter().collect();
            spec.facts = facts.into_iter().collect();
            Case { spec, order, change }
        })
        .boxed()
}

struct Dice<'a>(&'a [u32], usize);

impl Dice<'_> {
    fn roll(&mut self, n: usize) -> usize {
        self.1 += 1;
        let x = self.0[self.1 % self.0.len()].wrapping_add((self.1 / self.0.len()) as u32 * 7919);
        x as usize % n.max(1)
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.roll(i + 1);
            v.swap(i, j);
        }
    }
}

/// The same JSON value with object entries inserted in another order
fn reinsert(v: &Value, d: &mut Dice) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|x| reinsert(x, d)).collect()),
        Value::Object(o) => {
            let mut kv: Vec<_> = o.iter().collect();
            d.shuffle(&mut kv);
            let mut m = Map::new();
            for (k, x) in kv {
                m.insert(k.clone(), reinsert(x, d));
            }
            Value::Object(m)
        }
        v => v.clone(),
    }
}

/// Signs the content with its parts supplied in another order
fn shuffled(s: &Spec, order: &[u32]) -> Result<String, String> {
    let mut d = Dice(order, 0);
    // capabilities of different (resource, ability) in any order; of the same one in theirs
    let mut groups: Vec<Vec<(String, String, Value)>> = vec![];
    for c in &s.caps {
        match groups.iter_mut().find(|g| g[0].0 == c.0 && g[0].1 == c.1) {
            Some(g) => g.push(c.clone()),
            None => groups.push(vec![c.clone()]),
        }
    }
    let mut heads = vec![0; groups.len()];
    let mut caps = vec![];
    for _ in 0..s.caps.len() {
        let open: Vec<usize> = (0..groups.len()).filter(|g| heads[*g] < groups[*g].len()).collect();
        let g = open[d.roll(open.len())];
        caps.push(groups[g][heads[g]].clone());
        heads[g] += 1;
    }
    let mut facts = s.facts.clone();
    d.shuffle(&mut facts);
    let mut steps: Vec<u8> = vec![0, 1, 2, 3, 4, 5];
    d.shuffle(&mut steps);
    let mut b = UcanBuilder::default();
    for step in steps {
        match step {
            0 => b = b.issued_by(&actor(s.iss).km),
            1 => b = b.for_audience(&s.aud),
            2 => {
                if let Some(e) = s.exp {
                    b = b.with_expiration(e)
                }
            }
            3 => {
                if let Some(e) = s.nbf {
                    b = b.not_before(e)
                }
            }
            4 => {
                for (k, v) in &facts {
                    b = b.with_fact(k, reinsert(v, &mut d));
                }
            }
            _ => {
                if d.roll(2) == 0 {
                    for (r, a, v) in &caps {
                        b = b.claiming_capability(Capability::new(r.clone(), a.clone(), reinsert(v, &mut d)));
                    }
                } else {
                    let list: Vec<Capability> =
                        caps.iter().map(|(r, a, v)| Capability::new(r.clone(), a.clone(), reinsert(v, &mut d))).collect();
                    b = b.claiming_capabilities(&list);
                }
            }
        }
    }
    let mut signable = b.build().map_err(|e| format!("{e:?}"))?;
    signable.proofs = s.proofs.clone();
    let u = block(signable.sign()).map_err(|e| format!("cannot be signed: {e:?}"))?;
    u.encode().map_err(|e| format!("{e:?}"))
}

fn changed(s: &Spec, c: &Change) -> Spec {
    let mut s = s.clone();
    let nc = s.caps.len();
    let np = s.proofs.len();
    match c.clone() {
        Change::Aud(a) => s.aud = a,
        Change::Exp(e) => s.exp = e,
        Change::Nbf(e) => s.nbf = e,
        Change::Fact(k, v) => {
            s.facts.retain(|f| f.0 != k);
            s.facts.push((k, v));
        }
        Change::DropFact(i) => {
            if !s.facts.is_empty() {
                let i = i as usize % s.facts.len();
                s.facts.remove(i);
            }
        }
        Change::Cap(r, a, v) => s.caps.push((r, a, v)),
        Change::DropCap(i) => {
            if nc > 0 {
                s.caps.remove(i as usize % nc);
            }
        }
        Change::Caveat(i, v) => {
            if nc > 0 {
                s.caps[i as usize % nc].2 = v;
            }
        }
        Change::SwapCaps(i, j) => {
            if nc > 0 {
                s.caps.swap(i as usize % nc, j as usize % nc);
            }
        }
        Change::Proof(p) => s.proofs.push(p),
        Change::SwapProofs(i, j) => {
            if np > 0 {
                s.proofs.swap(i as usize % np, j as usize % np);
            }
        }
        Change::Issuer(i) => s.iss = i,
        Change::Move(k) => {
            // text moves between neighbouring fields
            match k % 3 {
                0 if nc > 0 => {
                    let a = s.caps[0].1.clone();
                    s.caps[0].0.push_str(&a);
                    s.caps[0].1.clear();
                }
                1 => {
                    std::mem::swap(&mut s.exp, &mut s.nbf);
                }
                _ => {
                    // the key "/" alone is reserved in DAG-JSON
                    let k = if s.aud == "/" { "//".to_string() } else { s.aud.clone() };
                    s.facts.push((k, json!(s.aud)));
                }
            }
        }
    }
    s
}

fn canonical(text: &str) -> Verdict {
    let seg: Vec<&str> = text.split('.').collect();
    ensure!(seg.len() == 3, "{} segments", seg.len());
    for (i, s) in seg.iter().enumerate() {
        let raw = jwt::unb64(s).ok_or_else(|| format!("segment {i} is not unpadded URL-safe base64"))?;
        if i < 2 {
            let (j, ws) = jwt::parse(&raw)?;
            ensure!(!ws, "insignificant whitespace in segment {i}");
            ensure!(j.sorted(), "segment {i} has keys out of order, or twice: {}", String::from_utf8_lossy(&raw));
            ensure!(
                j.keys().len() >= 2,
                "segment {i} holds {}",
                String::from_utf8_lossy(&raw)
            );
        }
    }
    Ok(())
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let u = c.spec.build().map_err(|e| format!("cannot be built: {e:?}"))?;
    let text = u.encode().map_err(|e| format!("{e:?}"))?;
    o.label(kind_label(c.spec.iss));
    if c.spec.caps.len() + c.spec.facts.len() > 1 {
        o.hit();
    }
    canonical(&text)?;
    same!(u.encode().map_err(|e| format!("{e:?}"))?, text, "encoding again");
    // the same again, and in another order
    let again = c.spec.build().map_err(|e| format!("{e:?}"))?.encode().map_err(|e| format!("{e:?}"))?;
    same!(again, text, "signing the same content again");
    let other = shuffled(&c.spec, &c.order)?;
    same!(other, text, "the same content supplied in another order");
    // the text of another implementation that follows the canonical form
    if c.spec.payload(None).to_string().is_ascii() {
        let (h, p, _) = jwt::open(&text)?;
        same!(p.to_value(), c.spec.payload(None), "payload");
        same!(h.to_value(), jwt::header_json(actor(c.spec.iss)), "header");
    }
    // through a payload value
    let seg: Vec<&str> = text.split('.').collect();
    let p: UcanPayload = serde_json::from_value(c.spec.payload(None)).map_err(|e| e.to_string())?;
    same!(p.jwt_base64_encode().map_err(|e| format!("{e:?}"))?, seg[1], "payload encoded");
    let h: UcanHeader = serde_json::from_value(jwt::header_json(actor(c.spec.iss))).map_err(|e| e.to_string())?;
    same!(h.jwt_base64_encode().map_err(|e| format!("{e:?}"))?, seg[0], "header encoded");
    let caps = Capabilities::try_from(&json!(c.spec.grouped())).map_err(|e| format!("{e:?}"))?;
    same!(caps, *u.capabilities(), "capabilities from JSON");
    // other content, other text
    let d = changed(&c.spec, &c.change);
    let v = d.build().map_err(|e| format!("cannot be built: {e:?}"))?;
    let t = v.encode().map_err(|e| format!("{e:?}"))?;
    canonical(&t)?;
    let equal = d.payload(None) == c.spec.payload(None);
    o.label(if equal { "change without effect" } else { "changed" });
    ensure!((t == text) == equal, "contents {} and {} have the texts\n  {text}\n  {t}", c.spec.payload(None), d.payload(None));
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C20",
        vec![part(
            "one-text",
            "token contents (any capabilities, facts, bounds, proofs; deterministic signatures of every key type) signed again, and with settings, facts, object entries and \
             capabilities in another order: one text, canonical by an independent JSON reader; and changed content: another text. Non-trivial: more than one fact or capability.",
            24_000,
            600_000,
            cases,
            check,
        )],
        vec![],
        vec!["all supported signature schemes are deterministic as implemented (Ed25519, RFC 6979 ECDSA, PKCS#1 v1.5)"],
    )
}
