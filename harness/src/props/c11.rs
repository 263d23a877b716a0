//! C11: capability sets are well formed and convert without loss, on every way in
use super::*;
use crate::gens::*;
use crate::jwt;
use crate::keys::*;
use crate::{ensure, same};
use libipld_core::ipld::Ipld;
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use ucan::capability::{Capabilities, Capability};
use ucan::ipld::UcanIpld;
use ucan::serde::DagJson;
use ucan::Ucan;

type Flat = Vec<(String, String, Value)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ListCase {
    caps: Flat,
    bad: Option<(u8, Value)>,
}

fn lists() -> BoxedStrategy<ListCase> {
    let r = prop_oneof![3 => prop::sample::select(vec!["a:1", "a:2", "b:1", ""]).prop_map(String::from), 1 => text()];
    let a = prop_oneof![3 => prop::sample::select(vec!["x/1", "x/2", "*", ""]).prop_map(String::from), 1 => text()];
    (
        (sized((r, a, object(true)), 0..9, 70), bunch()).prop_map(bunched),
        prop::option::weighted(0.25, (any::<u8>(), json(true))),
    )
        .prop_map(|(caps, bad)| ListCase { caps, bad })
        .boxed()
}

fn flat(c: &Capabilities) -> Flat {
    c.iter().map(|c| (c.resource, c.ability, c.caveat)).collect()
}

fn flatten(m: &BTreeMap<String, BTreeMap<String, Vec<Value>>>) -> Flat {
    let mut out = vec![];
    for (r, ab) in m {
        for (a, cs) in ab {
            for c in cs {
                out.push((r.clone(), a.clone(), c.clone()));
            }
        }
    }
    out
}

fn check_list(c: &ListCase, o: &mut Obs) -> Verdict {
    let mut caps = c.caps.clone();
    if let Some((i, v)) = &c.bad {
        if !caps.is_empty() {
            let n = *i as usize % caps.len();
            caps[n].2 = v.clone();
        }
    }
    let good = caps.iter().all(|(_, _, v)| v.is_object());
    let list: Vec<Capability> = caps.iter().map(|(r, a, v)| Capability::new(r.clone(), a.clone(), v.clone())).collect();
    let alt: Vec<Capability> = caps.iter().map(|(r, a, v)| Capability::from((r.as_str(), a.as_str(), v))).collect();
    ensure!(list == alt, "the ways to make a capability disagree");
    let back: Flat = list.iter().cloned().map(<(String, String, Value)>::from).collect();
    ensure!(back == caps, "a capability's parts change");
    o.label(if good { "well formed" } else { "bad caveat" });
    let r = Capabilities::try_from(list.clone());
    ensure!(r.is_ok() == good, "a list with caveats {:?} gives {:?}", caps, r.is_ok());
    if let Ok(m) = r {
        let model = group(&caps);
        ensure!(*m == model, "grouping {caps:?} gives {:?}", *m);
        ensure!(flat(&m) == flatten(&model), "listing again gives {:?}", flat(&m));
        // nothing lost or invented
        let mut a = flat(&m);
        let mut b = caps.clone();
        let key = |x: &(String, String, Value)| format!("{x:?}");
        a.sort_by_key(key);
        b.sort_by_key(key);
        ensure!(a == b, "capabilities lost or invented: {caps:?}");
        let again = Capabilities::try_from(m.iter().collect::<Vec<_>>()).map_err(|e| format!("{e:?}"))?;
        ensure!(again == m, "not stable under listing and grouping");
        o.label_if(model.values().any(|a| a.values().any(|c| c.len() > 1)), "grouped");
        if caps.len() > 1 {
            o.hit();
        }
    } else {
        o.hit();
    }
    Ok(())
}

// --- all the ways in ---

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    None,
    EmptyAbilities(u8),
    Abilities(u8, Value),
    Caveats(u8, Value),
    Caveat(u8, u8, Value),
    Top(Value),
    AddEmptyResource(String),
    EmptyCaveats(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WayCase {
    caps: Flat,
    bad: Vec<Bad>,
}

fn ways() -> BoxedStrategy<WayCase> {
    let not_obj = || {
        prop_oneof![
            Just(json!(null)), Just(json!([])), Just(json!("x")), Just(json!(1)), Just(json!(true)), Just(json!([{}])), Just(json!([[]])), Just(json!(1.5)), Just(json!("")),
        ]
    };
    let not_list = || prop_oneof![Just(json!(null)), Just(json!({})), Just(json!("x")), Just(json!(1)), Just(json!(false)), Just(json!({"0": {}}))];
    let bad = prop_oneof![
        2 => Just(Bad::None),
        2 => any::<u8>().prop_map(Bad::EmptyAbilities),
        2 => (any::<u8>(), not_obj()).prop_map(|(i, v)| Bad::Abilities(i, v)),
        2 => (any::<u8>(), not_list()).prop_map(|(i, v)| Bad::Caveats(i, v)),
        3 => (any::<u8>(), any::<u8>(), not_obj()).prop_map(|(i, j, v)| Bad::Caveat(i, j, v)),
        1 => not_obj().prop_map(Bad::Top),
        1 => text().prop_map(Bad::AddEmptyResource),
        2 => any::<u8>().prop_map(Bad::EmptyCaveats),
    ];
    (
        prop_oneof![1 => Just(vec![]), 5 => caps(false, 4)],
        prop::collection::vec(bad, 0..3),
    )
        .prop_map(|(caps, bad)| WayCase { caps, bad })
        .boxed()
}

fn well_formed(v: &Value) -> bool {
    v.as_object()
        .map(|m| {
            m.values().all(|ab| {
                ab.as_object()
                    .map(|ab| !ab.is_empty() && ab.values().all(|cs| cs.as_array().map(|cs| cs.iter().all(Value::is_object)).unwrap_or(false)))
                    .unwrap_or(false)
            })
        })
        .unwrap_or(false)
}

pub fn to_ipld(v: &Value) -> Ipld {
    match v {
        Value::Null => Ipld::Null,
        Value::Bool(b) => Ipld::Bool(*b),
        Value::Number(n) => {
            if let Some(i) = n.as_i64() {
                Ipld::Integer(i as i128)
            } else if let Some(u) = n.as_u64() {
                Ipld::Integer(u as i128)
            } else {
                Ipld::Float(n.as_f64().unwrap())
            }
        }
        Value::String(s) => Ipld::String(s.clone()),
        Value::Array(a) => Ipld::List(a.iter().map(to_ipld).collect()),
        Value::Object(m) => Ipld::Map(m.iter().map(|(k, v)| (k.clone(), to_ipld(v))).collect()),
    }
}

fn check_way(c: &WayCase, o: &mut Obs) -> Verdict {
    let mut v = json!(group(&c.caps));
    for b in &c.bad {
        let nth = |v: &Value, i: u8| v.as_object().and_then(|m| m.keys().nth(i as usize % m.len().max(1)).cloned());
        match b {
            Bad::None => {}
            Bad::EmptyAbilities(i) => {
                if let Some(k) = nth(&v, *i) {
                    v[k] = json!({});
                }
            }
            Bad::Abilities(i, x) => {
                if let Some(k) = nth(&v, *i) {
                    v[k] = x.clone();
                }
            }
            Bad::Caveats(i, x) => {
                if let Some(k) = nth(&v, *i) {
                    if let Some(a) = nth(&v[&k], *i) {
                        v[k][a] = x.clone();
                    }
                }
            }
            Bad::Caveat(i, j, x) => {
                if let Some(k) = nth(&v, *i) {
                    if let Some(a) = nth(&v[&k], *j) {
                        if let Some(l) = v[k][a].as_array_mut() {
                            let at = *j as usize % (l.len() + 1);
                            l.insert(at, x.clone());
                        }
                    }
                }
            }
            Bad::Top(x) => v = x.clone(),
            Bad::AddEmptyResource(r) => {
                if let Some(m) = v.as_object_mut() {
                    m.insert(r.clone(), json!({}));
                }
            }
            Bad::EmptyCaveats(i) => {
                if let Some(k) = nth(&v, *i) {
                    if let Some(a) = nth(&v[&k], *i) {
                        v[k][a] = json!([]);
                    }
                }
            }
        }
    }
    let good = well_formed(&v);
    o.label(if good { "well formed" } else { "malformed" });
    if !c.bad.is_empty() || !c.caps.is_empty() {
        o.hit();
    }
    let text = serde_json::to_string(&v).unwrap();
    let mut ways: Vec<(&str, Option<Capabilities>)> = vec![];
    ways.push(("from a JSON value", Capabilities::try_from(&v).ok()));
    ways.push(("deserialised from a JSON value", serde_json::from_value(v.clone()).ok()));
    ways.push(("deserialised from JSON text", serde_json::from_str(&text).ok()));
    ways.push(("from DAG-JSON", Capabilities::from_dag_json(text.as_bytes()).ok()));
    // a signed token
    let a = ed(0);
    let t = jwt::token(a, &json!({"ucv": "0.10.0-canary", "iss": a.did, "aud": a.did, "exp": null, "cap": v}));
    let u = Ucan::try_from(t.as_str()).ok();
    ways.push(("in a token", u.as_ref().map(|u| u.capabilities().clone())));
    // the JSON form of a token
    let clean = Ucan::try_from(jwt::token(a, &json!({"ucv": "0.10.0-canary", "iss": a.did, "aud": a.did, "exp": null, "cap": {}})))
        .map_err(|e| format!("{e:?}"))?;
    let mut j = serde_json::to_value(&clean).map_err(|e| e.to_string())?;
    j["payload"]["cap"] = v.clone();
    ways.push(("in a token's JSON form", serde_json::from_value::<Ucan>(j).ok().map(|u| u.capabilities().clone())));
    // the binary form
    let x = UcanIpld::try_from(&clean).map_err(|e| format!("{e:?}"))?;
    let bytes = serde_ipld_dagcbor::to_vec(&x).map_err(|e| format!("{e:?}"))?;
    let mut tree: Ipld = serde_ipld_dagcbor::from_slice(&bytes).map_err(|e| format!("{e:?}"))?;
    match &mut tree {
        Ipld::Map(m) => {
            m.insert("cap".into(), to_ipld(&v));
        }
        _ => return Err("the binary form is not a map".into()),
    }
    let bytes = serde_ipld_dagcbor::to_vec(&tree).map_err(|e| format!("{e:?}"))?;
    let x: Option<UcanIpld> = libipld_core::serde::from_ipld(tree).ok();
    if serde_json::from_value::<BTreeMap<String, BTreeMap<String, Vec<Value>>>>(v.clone()).is_ok() {
        // (the CBOR decoder itself takes an empty list for an empty map)
        ways.push(("in DAG-CBOR", serde_ipld_dagcbor::from_slice::<UcanIpld>(&bytes).ok().map(|x| x.cap)));
    }
    ways.push(("in the binary form", x.as_ref().map(|x| x.cap.clone())));
    if let Some(x) = &x {
        if let Ok(u) = Ucan::try_from(x) {
            ways.push(("in a token from the binary form", Some(u.capabilities().clone())));
        }
    }
    // from typed parts, where the types admit it
    let typed: Result<BTreeMap<String, BTreeMap<String, Vec<Value>>>, _> = serde_json::from_value(v.clone());
    if let Ok(m) = typed {
        ways.push(("from a map", Capabilities::try_from(m).ok()));
    }
    for (way, got) in &ways {
        match got {
            None => ensure!(!good, "{way}: the well formed {text} is refused"),
            Some(caps) => {
                ensure!(good, "{way}: the malformed {text} is taken as {:?}", **caps);
                let model: BTreeMap<String, BTreeMap<String, Vec<Value>>> = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
                ensure!(**caps == model, "{way}: {text} is read as {:?}", **caps);
                // an empty caveat list lists nothing
                same!(flat(caps), flatten(&model), "{way}: listing {text}");
                let j = serde_json::to_value(caps).map_err(|e| e.to_string())?;
                same!(j, v, "{way}: written again");
            }
        }
    }
    if good {
        if let Some(u) = &u {
            let mut p = parser();
            block(u.validate(Some(5), &mut p)).map_err(|e| format!("{e:?}"))?;
        }
        o.label_if(text.contains("[]"), "empty caveat list");
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C11",
        vec![
            part(
                "lists",
                "lists of capabilities with colliding resources and abilities, a quarter with one arbitrary caveat; grouped and listed again. Non-trivial: two or more, or a bad caveat.",
                40_000,
                1_000_000,
                lists,
                check_list,
            ),
            part(
                "ways-in",
                "capability maps as JSON, well formed or with up to two malformations (no abilities, wrong kinds at any level, empty caveat lists), presented to ten entry points, which must \
                 all agree with the definition. Non-trivial: not the plain empty map.",
                24_000,
                600_000,
                ways,
                check_way,
            ),
        ],
        vec![],
        vec![],
    )
}
