//! C10: one capability enables another exactly when it is at least as broad
use super::c12::{Full, Word};
use super::*;
use crate::gens::*;
use crate::model::*;
use crate::{ensure, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Map, Value};
use ucan::capability::{CapabilitySemantics, CapabilityView, Caveat, Resource, ResourceUri};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    a: Cap,
    ab: Vec<Edit>,
    bc: Vec<Edit>,
    fresh: Option<Cap>,
}

fn cases() -> BoxedStrategy<Case> {
    (
        cap(),
        prop::collection::vec(edit(), 0..4),
        prop::collection::vec(edit(), 0..4),
        prop::option::weighted(0.2, cap()),
    )
        .prop_map(|(a, ab, bc, fresh)| Case { a, ab, bc, fresh })
        .boxed()
}

fn parsed(c: &Cap) -> Result<CapabilityView<Sc, Lv>, String> {
    SetSem
        .parse(&c.resource_text(), &c.ability_text(), Some(&c.caveat()))
        .ok_or_else(|| format!("{} does not parse", show(c)))
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let a = c.a.clone();
    let b = c.ab.iter().fold(a.clone(), |x, e| e.apply(&x));
    let d = c.fresh.clone().unwrap_or_else(|| c.bc.iter().fold(b.clone(), |x, e| e.apply(&x)));
    let caps = [a, b, d];
    let built: Vec<_> = caps.iter().map(Cap::view).collect();
    let parsed: Vec<_> = caps.iter().map(parsed).collect::<Result<_, _>>()?;
    o.hit();
    let mut en = [[false; 3]; 3];
    for i in 0..3 {
        ensure!(built[i] == parsed[i], "{} parses to {:?}", show(&caps[i]), parsed[i]);
        for j in 0..3 {
            let expect = caps[i].enables(&caps[j]);
            same!(built[i].enables(&built[j]), expect, "{} enables {}", show(&caps[i]), show(&caps[j]));
            same!(parsed[i].enables(&parsed[j]), expect, "parsed: {} enables {}", show(&caps[i]), show(&caps[j]));
            same!(
                built[i].resource().contains(built[j].resource()),
                caps[i].own == caps[j].own && caps[i].sel.contains(caps[j].sel),
                "resource of {} contains that of {}", show(&caps[i]), show(&caps[j])
            );
            en[i][j] = parsed[i].enables(&parsed[j]);
            if i != j {
                o.label_if(en[i][j] && !en[j][i], "strictly broader");
                o.label_if(!en[i][j] && !en[j][i], "unrelated");
                let one_off = caps[i].own == caps[j].own && caps[i].sel.contains(caps[j].sel) && caps[i].lvl >= caps[j].lvl;
                o.label_if(!en[i][j] && one_off, "only the caveat forbids");
                o.label_if(!en[i][j] && caps[i].own != caps[j].own && Cap { own: caps[j].own, ..caps[i].clone() }.enables(&caps[j]), "only the owner forbids");
                o.label_if(!en[i][j] && caps[i].lvl < caps[j].lvl && Cap { lvl: 3, ..caps[i].clone() }.enables(&caps[j]), "only the ability forbids");
            }
        }
        ensure!(en[i][i], "not reflexive: {}", show(&caps[i]));
    }
    for i in 0..3 {
        for j in 0..3 {
            for k in 0..3 {
                ensure!(!(en[i][j] && en[j][k]) || en[i][k], "not transitive: {} / {} / {}", show(&caps[i]), show(&caps[j]), show(&caps[k]));
            }
            if en[i][j] && en[j][i] {
                ensure!(
                    parsed[i].resource() == parsed[j].resource() && parsed[i].ability() == parsed[j].ability() && parsed[i].caveat() == parsed[j].caveat(),
                    "mutually enabling but different: {} / {}", show(&caps[i]), show(&caps[j])
                );
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ObjEdit {
    Put(String, Value),
    Remove(u8),
    Replace(u8, Value),
    /// Change inside the value
    Nest(u8, Value),
    Reorder(u8),
    /// A look-alike in the place of a value (at some depth) or of its key
    Tweak(u8, u8, u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CavCase {
    a: Value,
    ab: Vec<ObjEdit>,
    bc: Vec<ObjEdit>,
    other: Option<Value>,
}

fn cav_cases() -> BoxedStrategy<CavCase> {
    let obj = || {
        prop_oneof![
            1 => Just(json!({})),
            4 => sized((prop_oneof![prop::sample::select(vec!["x", "y", "z", ""]).prop_map(String::from), text()], prop_oneof![
                3 => prop::sample::select(vec![json!(true), json!(false), json!(null), json!(1), json!(1.0), json!("1"), json!([1, 2]), json!({"n": 1}), json!({}), json!([])]),
                2 => prop::sample::select(vec![json!("Alpha"), json!("/a/b"), json!("a,b"), json!(""), json!("1.50"), json!("é"), json!(-1), json!(0), json!(1e3), json!(1u64 << 53), json!(["a", "B"]), json!([["a"]]), json!({"n": {"m": "Text"}})]),
                1 => json(true),
            ]), 0..4, 40).prop_map(|kv| Value::Object(kv.into_iter().collect::<Map<_, _>>())),
        ]
    };
    let e = || {
        prop_oneof![
            3 => (prop_oneof![prop::sample::select(vec!["x", "y", "z"]).prop_map(String::from), text()], json(false)).prop_map(|(k, v)| ObjEdit::Put(k, v)),
            2 => any::<u8>().prop_map(ObjEdit::Remove),
            1 => (any::<u8>(), prop::sample::select(vec![json!(true), json!(null), json!(1), json!("1"), json!({}), json!([])])).prop_map(|(i, v)| ObjEdit::Replace(i, v)),
            1 => (any::<u8>(), json(false)).prop_map(|(i, v)| ObjEdit::Nest(i, v)),
            1 => any::<u8>().prop_map(ObjEdit::Reorder),
            3 => (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(i, d, how)| ObjEdit::Tweak(i, d, how)),
        ]
    };
    (
        obj(),
        sized(e(), 0..3, 20),
        sized(e(), 0..3, 20),
        prop::option::weighted(0.25, json(true)),
    )
        .prop_map(|(a, ab, bc, other)| CavCase { a, ab, bc, other })
        .boxed()
}

fn edit_obj(v: &Value, e: &ObjEdit) -> Value {
    let mut m = v.as_object().cloned().unwrap_or_default();
    let key = |m: &Map<String, Value>, i: u8| m.keys().nth(i as usize % m.len().max(1)).cloned();
    match e {
        ObjEdit::Put(k, v) => {
            m.insert(k.clone(), v.clone());
        }
        ObjEdit::Remove(i) => {
            if let Some(k) = key(&m, *i) {
                m.remove(&k);
            }
        }
        ObjEdit::Replace(i, v) => {
            if let Some(k) = key(&m, *i) {
                m.insert(k, v.clone());
            }
        }
        ObjEdit::Nest(i, x) => {
            if let Some(k) = key(&m, *i) {
                match m.get_mut(&k) {
                    Some(Value::Array(a)) => a.push(x.clone()),
                    Some(Value::Object(o)) => {
                        o.insert("nested".into(), x.clone());
                    }
                    Some(other) => *other = json!([other.clone(), x]),
                    None => {}
                }
            }
        }
        ObjEdit::Tweak(i, deep, how) => {
            if let Some(k) = key(&m, *i) {
                let mut v = m.remove(&k).unwrap();
                let k = match (deep, how % 3) {
                    (0..16, 0) => k.to_uppercase(),
                    (0..16, 1) => format!("{k} "),
                    (0..16, _) => k.chars().skip(1).collect(),
                    _ => {
                        tweak(&mut v, deep & 15, *how);
                        k
                    }
                };
                m.insert(k, v);
            }
        }
        ObjEdit::Reorder(i) => {
            if let Some(k) = key(&m, *i) {
                if let Some(Value::Array(a)) = m.get_mut(&k) {
                    a.reverse();
                }
            }
        }
    }
    Value::Object(m)
}

/// Some other value that is easily taken for this one
fn tweak(v: &mut Value, deep: u8, how: u8) {
    match v {
        Value::Array(a) if deep & 1 == 1 && !a.is_empty() => {
            let i = how as usize % a.len();
            return tweak(&mut a[i], deep >> 1, how);
        }
        Value::Object(o) if deep & 1 == 1 && !o.is_empty() => {
            let i = how as usize % o.len();
            return tweak(o.values_mut().nth(i).unwrap(), deep >> 1, how);
        }
        _ => {}
    }
    *v = match v.clone() {
        Value::String(s) => match how % 12 {
            0 => json!(s.to_lowercase()),
            1 => json!(s.to_uppercase()),
            2 => json!(format!("{s} ")),
            3 => json!(format!(" {s}")),
            4 => json!(s.trim()),
            5 => json!(s.chars().skip(1).collect::<String>()),
            6 => json!(format!("{s}{}", s.chars().next_back().unwrap_or('a'))),
            7 => s.parse::<f64>().map(|x| json!(x)).unwrap_or(json!([s])),
            8 => json!(s.replace('é', "e\u{301}")),
            9 => json!(format!("{s}/")),
            10 => json!(s.split([',', ' ']).collect::<Vec<_>>()),
            _ => json!(s.chars().rev().collect::<String>()),
        },
        Value::Number(n) => match (how % 6, n.as_i64(), n.as_f64()) {
            (0, Some(i), _) => json!(i.wrapping_add(1)),
            (1, Some(i), _) => json!(i.wrapping_neg()),
            (2, _, Some(f)) if f.is_finite() => json!(f),
            (3, _, Some(f)) if f.is_finite() => json!(f64::from_bits(f.to_bits() ^ 1)),
            (4, _, Some(f)) => json!(f != 0.0),
            _ => json!(n.to_string()),
        },
        Value::Bool(b) => match how % 4 {
            0 => json!(b as u8),
            1 => json!(b.to_string()),
            2 => Value::Null,
            _ => json!(!b),
        },
        Value::Null => [json!(""), json!(0), json!(false), json!({}), json!([]), json!("null")][how as usize % 6].clone(),
        Value::Array(mut a) => {
            match (how % 6, a.len()) {
                (0, _) => a.push(Value::Null),
                (1, _) => drop(a.pop()),
                (2, n) if n > 0 => a.push(a[0].clone()),
                (3, 1) => return *v = a.remove(0),
                (4, _) => a.reverse(),
                (5, _) => return *v = Value::Object(a.into_iter().enumerate().map(|(k, v)| (k.to_string(), v)).collect()),
                _ => return *v = json!([a]),
            }
            Value::Array(a)
        }
        Value::Object(mut o) => {
            match (how % 4, o.keys().next().cloned()) {
                (0, Some(k)) => drop(o.remove(&k)),
                (1, _) => drop(o.insert("more".into(), Value::Null)),
                (2, Some(k)) => {
                    let v = o.remove(&k).unwrap();
                    o.insert(k.to_uppercase(), v);
                }
                _ => return *v = json!([o]),
            }
            Value::Object(o)
        }
    };
}

/// The same JSON value, decided without serde_json's own comparison
fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Null, Value::Null) => true,
        (Value::Bool(a), Value::Bool(b)) => a == b,
        (Value::String(a), Value::String(b)) => a == b,
        (Value::Number(a), Value::Number(b)) => a.to_string() == b.to_string() || a.is_f64() && b.is_f64() && a.as_f64() == b.as_f64(),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (Value::Object(a), Value::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).map(|w| equal(v, w)).unwrap_or(false)),
        _ => false,
    }
}

fn cav_enables(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Object(a), Value::Object(b)) => a.iter().all(|(k, v)| b.get(k).map(|w| equal(v, w)).unwrap_or(false)),
        _ => false,
    }
}

fn check_cav(c: &CavCase, o: &mut Obs) -> Verdict {
    let b = c.ab.iter().fold(c.a.clone(), |x, e| edit_obj(&x, e));
    let d = c.other.clone().unwrap_or_else(|| c.bc.iter().fold(b.clone(), |x, e| edit_obj(&x, e)));
    let vals = [c.a.clone(), b, d];
    let views: Vec<CapabilityView<Sc, Lv>> = vals
        .iter()
        .map(|v| SetSem.parse("set:ab", "lvl/1", Some(v)).ok_or_else(|| format!("caveat {v} does not parse")))
        .collect::<Result<_, _>>()?;
    o.hit();
    for i in 0..3 {
        same!(*views[i].caveat(), vals[i], "caveat kept by parsing");
        for j in 0..3 {
            let expect = cav_enables(&vals[i], &vals[j]);
            o.label_if(expect && i != j, "enables");
            o.label_if(!vals[i].is_object(), "not an object");
            same!(views[i].enables(&views[j]), expect, "capability with caveat {} enables one with {}", vals[i], vals[j]);
            match (Caveat::try_from(&vals[i]), Caveat::try_from(vals[j].clone())) {
                (Ok(x), Ok(y)) => {
                    same!(x.enables(&y), expect, "caveat {} enables {}", vals[i], vals[j]);
                    same!(x == y, equal(&vals[i], &vals[j]), "caveats {} and {} are equal", vals[i], vals[j]);
                    ensure!(vals[i].is_object() && vals[j].is_object(), "a caveat that is not an object is taken");
                }
                _ => ensure!(!(vals[i].is_object() && vals[j].is_object()), "an object is refused as a caveat: {} / {}", vals[i], vals[j]),
            }
        }
    }
    Ok(())
}

// --- resources, identities and abilities that are arbitrary text ---

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCap {
    /// 0 plain, 1 own, 2 of another
    own: u8,
    did: String,
    scope: Option<String>,
    ability: String,
    caveat: Value,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCase {
    a: TextCap,
    b: TextCap,
    /// What of the first the second shares: owner kind, identity, scope, ability, caveat
    shares: u8,
    /// What is done to the texts of the second: (which, how)
    edits: Vec<(u8, u8, String)>,
}

fn text_caps() -> BoxedStrategy<TextCap> {
    let did = prop_oneof![
        2 => any_actor().prop_map(|i| crate::keys::actor(i).did.clone()),
        1 => Just("did:key:z6Mk".to_string()),
        1 => "did:key:z[1-9A-HJ-NP-Za-km-z]{0,4}",
        1 => text(),
    ];
    let scope = prop_oneof![
        3 => "full:[a-c*/:]{0,4}",
        1 => "full://[a-c]{1,2}/[a-c*]{0,2}[*]",
        1 => text(),
    ];
    let ability = prop_oneof![2 => "do/[a-c*]{0,3}", 1 => Just("do/*".to_string()), 1 => Just("*".to_string()), 1 => text()];
    (0u8..3, did, prop::option::weighted(0.8, scope), ability, prop_oneof![3 => Just(json!({})), 2 => "[xy]".prop_map(|k| json!({k: 1})), 1 => json(true)])
        .prop_map(|(own, did, scope, ability, caveat)| TextCap { own, did, scope, ability, caveat })
        .boxed()
}

fn text_cases() -> BoxedStrategy<TextCase> {
    (text_caps(), text_caps(), prop_oneof![1 => any::<u8>(), 2 => Just(255u8)], prop::collection::vec((0u8..3, 0u8..8, "[a-zA-Z0-9*/:. ]"), 0..3))
        .prop_map(|(a, b, shares, edits)| TextCase { a, b, shares, edits })
        .boxed()
}

fn edit_text(s: &mut String, how: u8, x: &str) {
    match how {
        0 => s.push_str(x),
        1 => *s = format!("{x}{s}"),
        2 => {
            s.pop();
        }
        3 => *s = s.chars().skip(1).collect(),
        4 => *s = s.to_uppercase(),
        5 => *s = s.to_lowercase(),
        6 => s.push('*'),
        _ => *s = s.trim_end_matches(|c: char| !matches!(c, ':' | '/')).to_string(),
    }
}

impl TextCap {
    fn view(&self) -> CapabilityView<Full, Word> {
        let kind = match &self.scope {
            None => ResourceUri::Unscoped,
            Some(s) => ResourceUri::Scoped(Full(s.clone())),
        };
        let r = match self.own {
            0 => Resource::Resource { kind },
            1 => Resource::My { kind },
            _ => Resource::As { did: self.did.clone(), kind },
        };
        CapabilityView::new_with_caveat(r, Word(self.ability.clone()), self.caveat.clone())
    }
    fn contains(&self, o: &TextCap) -> bool {
        self.own == o.own
            && (self.own != 2 || self.did == o.did)
            && match (&self.scope, &o.scope) {
                (None, _) => true,
                (Some(_), None) => false,
                (Some(a), Some(b)) => b.as_bytes().get(..a.len()) == Some(a.as_bytes()),
            }
    }
}

fn check_text(c: &TextCase, o: &mut Obs) -> Verdict {
    let a = c.a.clone();
    let mut b = c.b.clone();
    if c.shares & 1 != 0 {
        b.own = a.own;
    }
    if c.shares & 2 != 0 {
        b.did = a.did.clone();
    }
    if c.shares & 4 != 0 {
        b.scope = a.scope.clone();
    }
    if c.shares & 8 != 0 {
        b.ability = a.ability.clone();
    }
    if c.shares & 16 != 0 {
        b.caveat = a.caveat.clone();
    }
    for (which, how, x) in &c.edits {
        match which {
            0 => edit_text(&mut b.did, *how, x),
            1 => match &mut b.scope {
                Some(s) if *how != 7 => edit_text(s, *how, x),
                _ => b.scope = None,
            },
            _ => edit_text(&mut b.ability, *how, x),
        }
    }
    o.hit();
    for (x, y) in [(&a, &b), (&b, &a), (&a, &a), (&b, &b)] {
        let (v, w) = (x.view(), y.view());
        let contains = x.contains(y);
        let expect = contains && x.ability.as_bytes() >= y.ability.as_bytes() && cav_enables(&x.caveat, &y.caveat);
        o.label_if(expect && x.own == 2, "enables, of another");
        o.label_if(!contains && TextCap { did: y.did.clone(), ..x.clone() }.contains(y), "only the identity forbids");
        o.label_if(contains && !expect && cav_enables(&x.caveat, &y.caveat), "only the ability forbids");
        o.label_if(!contains && x.scope.is_some() && y.scope.is_none(), "a scope and a wildcard");
        same!(v.resource().contains(w.resource()), contains, "resource of {x:?} contains that of {y:?}");
        same!(v.enables(&w), expect, "{x:?} enables {y:?}");
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C10",
        vec![
            part(
                "capabilities",
                "triples of capabilities, each derived from the previous by narrowing, widening and moving (or fresh); built and parsed; all nine comparisons against an independent \
                 definition, and the order laws. Non-trivial: all.",
                240_000,
                4_000_000,
                cases,
                check,
            ),
            part(
                "caveats",
                "triples of caveats (arbitrary JSON objects, each an edit of the previous; sometimes not objects); comparisons of caveats and of capabilities carrying them. Non-trivial: all.",
                180_000,
                2_000_000,
                cav_cases,
                check_cav,
            ),
            part(
                "texts",
                "pairs of capabilities over arbitrary text (prefix-containment scopes, identities that are prefixes or case variants of each other, abilities ordered as text, wildcards and \
                 texts with '*', caveats that are sometimes no objects), the second sharing most parts of the first; comparisons against an independent definition. Non-trivial: all.",
                180_000,
                2_000_000,
                text_cases,
                check_text,
            ),
        ],
        vec![],
        vec![],
    )
}
