//! C26: an application's own semantics is what counts
use super::*;
use crate::gens::block;
use crate::keys::*;
use crate::model::*;
use crate::{ensure, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use ucan::capability::{Capability, CapabilitySemantics, CapabilityView, Resource, ResourceUri};
use ucan::chain::ProofChain;
use url::Url;

/// What an application makes of the texts: each part overrides one step of parsing, or does not
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Own26 {
    /// Abilities by rank; None: not one of this application's
    ranks: Option<[Option<u8>; 4]>,
    /// Letters stand for letters, in each set or in what it leaves out
    letters: Option<([u8; 5], bool)>,
    /// This set is another way to write the wildcard
    wild: Option<u8>,
    /// Identities stand for identities; None: unknown
    people: Option<[Option<u8>; 2]>,
    /// This caveat is not looked at, and is there when none is given
    ignored: Option<u8>,
    /// Identities are written by name, and are of another method
    #[serde(default)]
    names: bool,
    /// Capabilities of this rank in the text are refused as a whole
    refused: Option<u8>,
}

fn own26() -> BoxedStrategy<Own26> {
    let rank = || prop_oneof![1 => Just(None), 9 => (0u8..4).prop_map(Some)];
    let person = || prop_oneof![1 => Just(None), 4 => (0u8..2).prop_map(Some)];
    (
        prop::option::of([rank(), rank(), rank(), rank()]),
        prop::option::of((prop_oneof![2 => Just([0u8, 1, 2, 3, 4]).prop_shuffle(), 1 => [0u8..5, 0u8..5, 0u8..5, 0u8..5, 0u8..5]], prop::bool::weighted(0.3))),
        prop::option::weighted(0.3, prop_oneof![(1u8..8), (1u8..32)]),
        prop::option::weighted(0.4, [person(), person()]),
        prop::option::weighted(0.4, 0u8..3),
        prop::option::weighted(0.3, 0u8..4),
    )
        .prop_map(|(ranks, letters, wild, people, ignored, refused)| Own26 { ranks, letters, wild, people, ignored, names: false, refused })
        .boxed()
}

/// How an application with names of its own writes them, and whom it means
const NAMES: [(&str, &str); 4] =
    [("@alice", "did:web:alice.example"), ("@bob:b", "did:plc:bob"), ("did:key:carol", "carol"), ("", "")];

impl Own26 {
    /// What else it could override, it does not
    fn scopes_only(&self) -> bool {
        self.wild.is_none() && self.people.is_none() && self.ignored.is_none() && !self.names
    }
    fn level(&self, l: u8) -> Option<u8> {
        match &self.ranks {
            Some(r) => r[l as usize % 4],
            None => Some(l),
        }
    }
    fn set(&self, bits: u8) -> Option<u8> {
        let Some((to, rest)) = &self.letters else { return Some(bits) };
        let mut out = 0;
        for i in 0..5 {
            if bits & (1 << i) != 0 {
                out |= 1 << to[i];
            }
        }
        if *rest {
            out = !out & 31;
        }
        (out != 0).then_some(out)
    }
    fn person(&self, d: u8) -> Option<u8> {
        match &self.people {
            Some(p) if d < 2 => p[d as usize],
            Some(_) => None,
            None => Some(d),
        }
    }
    /// The definition: what the capability written like this means to the application
    fn meaning(&self, c: &Cap) -> Option<Cap> {
        if self.refused == Some(c.lvl) {
            return None;
        }
        let own = match c.own {
            Own::As(d) => Own::As(self.person(d)?),
            o => o,
        };
        let sel = match c.sel {
            Sel::All => Sel::All,
            Sel::Set(b) if self.wild == Some(b) => Sel::All,
            Sel::Set(b) => Sel::Set(self.set(b)?),
        };
        let mut cav = c.cav.clone();
        if let Some(k) = self.ignored {
            cav.remove(&k);
        }
        Some(Cap { own, sel, lvl: self.level(c.lvl)?, cav })
    }
}

macro_rules! scopes {
    () => {
        fn parse_scope(&self, scope: &Url) -> Option<Sc> {
            let Sc(bits) = Sc::try_from(scope.clone()).ok()?;
            self.set(bits).map(Sc)
        }
        fn parse_action(&self, ability: &str) -> Option<Lv> {
            let Lv(l) = Lv::try_from(ability.to_string()).ok()?;
            self.level(l).map(Lv)
        }
    };
}
macro_rules! steps {
    () => {
        scopes!();
        fn extract_did(&self, path: &str) -> Option<(String, String)> {
            for d in 0..N_ED {
                if self.names {
                    if let Some(rest) = path.strip_prefix(&format!("{}/", NAMES[d % NAMES.len()].0)) {
                        return Some((NAMES[self.person(d as u8)? as usize].1.to_string(), rest.to_string()));
                    }
                } else if let Some(rest) = path.strip_prefix(&format!("{}:", ed(d).did)) {
                    return Some((ed(self.person(d as u8)? as usize).did.clone(), rest.to_string()));
                }
            }
            None
        }
        fn parse_resource(&self, resource: &Url) -> Option<ResourceUri<Sc>> {
            if resource.scheme() == "set" && resource.path() == "*" {
                return Some(ResourceUri::Unscoped);
            }
            if let Some(w) = self.wild {
                if resource.as_str() == format!("set:{}", letters(w)) {
                    return Some(ResourceUri::Unscoped);
                }
            }
            self.parse_scope(resource).map(ResourceUri::Scoped)
        }
        fn parse_caveat(&self, caveat: Option<&Value>) -> Value {
            match (caveat, self.ignored) {
                (Some(v), Some(k)) => {
                    let mut v = v.clone();
                    if let Some(o) = v.as_object_mut() {
                        o.remove(CAV_KEYS[k as usize % 3]);
                    }
                    v
                }
                (Some(v), None) => v.clone(),
                (None, Some(k)) => json!({ CAV_KEYS[k as usize % 3]: true }),
                (None, None) => json!({}),
            }
        }
    };
}

/// The application overrides the steps, and what is done with a whole capability
struct Whole<'a>(&'a Own26);
impl std::ops::Deref for Whole<'_> {
    type Target = Own26;
    fn deref(&self) -> &Own26 {
        self.0
    }
}
impl CapabilitySemantics<Sc, Lv> for Whole<'_> {
    steps!();
    fn parse_capability(&self, value: &Capability) -> Option<CapabilityView<Sc, Lv>> {
        if let Some(l) = self.refused {
            if value.ability == format!("lvl/{l}") {
                return None;
            }
        }
        self.parse(&value.resource, &value.ability, Some(&value.caveat))
    }
}

/// The application overrides the steps only
struct Steps<'a>(&'a Own26);
impl std::ops::Deref for Steps<'_> {
    type Target = Own26;
    fn deref(&self) -> &Own26 {
        self.0
    }
}
impl CapabilitySemantics<Sc, Lv> for Steps<'_> {
    steps!();
}

/// The application says which sets and abilities there are, and leaves the rest
struct Scopes<'a>(&'a Own26);
impl std::ops::Deref for Scopes<'_> {
    type Target = Own26;
    fn deref(&self) -> &Own26 {
        self.0
    }
}
impl CapabilitySemantics<Sc, Lv> for Scopes<'_> {
    scopes!();
}

/// The application parses texts by way of another semantics
struct Around<'a>(&'a Own26);
impl CapabilitySemantics<Sc, Lv> for Around<'_> {
    fn parse(&self, resource: &str, ability: &str, caveat: Option<&Value>) -> Option<CapabilityView<Sc, Lv>> {
        if let Some(l) = self.0.refused {
            if ability == format!("lvl/{l}") {
                return None;
            }
        }
        Steps(self.0).parse(resource, ability, caveat)
    }
}

// --- texts ------------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCase {
    own: Own26,
    what: What,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum What {
    Known(Cap, bool),
    Foreign(u8),
}

fn texts() -> BoxedStrategy<TextCase> {
    (
        own26(),
        prop_oneof![
            8 => (cap(), prop::bool::weighted(0.2)).prop_map(|(c, n)| What::Known(c, n)),
            1 => (0u8..FOREIGN.len() as u8).prop_map(What::Foreign),
        ],
    )
        .prop_flat_map(|(own, what)| {
            let named = matches!(&what, What::Known(Cap { own: Own::As(_), .. }, _));
            (Just(own), Just(what), prop::bool::weighted(if named { 0.4 } else { 0.1 }))
        })
        .prop_map(|(mut own, what, names)| {
            own.names = names;
            TextCase { own, what }
        })
        .boxed()
}

fn check_texts(c: &TextCase, o: &mut Obs) -> Verdict {
    let mut own = c.own.clone();
    let (r, a, v, expect) = match &c.what {
        What::Foreign(k) => {
            let (r, a) = FOREIGN[*k as usize % FOREIGN.len()];
            o.label("foreign");
            (r.to_string(), a.to_string(), Some(json!({})), [None, None])
        }
        What::Known(k, no_caveat) => {
            let mut k = k.clone();
            if *no_caveat {
                k.cav.clear();
                o.label("no caveat given");
            }
            let v = (!no_caveat).then(|| k.caveat());
            let fix = |own: &Own26| {
                own.meaning(&k).map(|mut m| {
                    if let (true, Some(i)) = (no_caveat, own.ignored) {
                        m.cav.insert(i, 0);
                    }
                    m
                })
            };
            let whole = fix(&own);
            let refused = own.refused.take();
            let steps = fix(&own);
            own.refused = refused;
            let mut text = k.resource_text();
            if let (true, Own::As(d)) = (own.names, k.own) {
                o.label("by name");
                text = text.replacen(&format!("{}:", ed(d as usize).did), &format!("{}/", NAMES[d as usize % NAMES.len()].0), 1);
            }
            (text, k.ability_text(), v, [whole, steps])
        }
    };
    let [whole, steps] = expect.map(|e| {
        e.map(|k| {
            let mut v = k.view();
            if let (true, Own::As(d), Resource::As { did, .. }) = (own.names, k.own, &mut v.resource) {
                *did = NAMES[d as usize % NAMES.len()].1.to_string();
            }
            v
        })
    });
    o.hit();
    o.label(if whole.is_some() { "understood" } else { "not understood" });
    same!(Steps(&own).parse(&r, &a, v.as_ref()), steps, "{r} {a} {v:?} by {own:?}");
    same!(Around(&own).parse(&r, &a, v.as_ref()), whole, "{r} {a} {v:?} around {own:?}");
    if let Some(v) = v {
        let k = Capability::new(r.clone(), a.clone(), v);
        same!(Whole(&own).parse_capability(&k), whole, "{k:?} as a whole by {own:?}");
        same!(Steps(&own).parse_capability(&k), steps, "{k:?} by {own:?}");
        same!(Around(&own).parse_capability(&k), whole, "{k:?} around {own:?}");
        if own.scopes_only() && matches!(c.what, What::Known(..)) {
            o.label("the rest is left");
            same!(Scopes(&own).parse(&r, &a, Some(&k.caveat)), steps, "{k:?} by the sets and abilities of {own:?}");
            same!(Scopes(&own).parse_capability(&k), steps, "{k:?} by the sets and abilities of {own:?}");
        }
    }
    Ok(())
}

// --- chains -----------------------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ChainCase {
    tree: Vec<Node>,
    /// Asked one after another, each in one of three ways
    asked: Vec<(Own26, u8)>,
}

fn chains() -> BoxedStrategy<ChainCase> {
    (
        prop_oneof![3 => tree(1, 0, 5, 4), 1 => tree(0, 0, 4, 6), 1 => shaped(1, 0, 2, 12)],
        prop::collection::vec((own26(), 0u8..3), 1..4),
    )
        .prop_map(|(tree, asked)| ChainCase { tree, asked })
        .boxed()
}

fn check_chains(c: &ChainCase, o: &mut Obs) -> Verdict {
    let mut b = build(&c.tree);
    let chain = block(ProofChain::try_from_token_string(&b.nodes[0].text, Some(t0()), &mut parser(), &b.store))
        .map_err(|e| format!("a valid chain is refused: {e:?}"))?;
    let written: Vec<Vec<Cap>> = b.nodes.iter().map(|n| n.caps.clone()).collect();
    let key = |r: &[Reported]| r.iter().map(|r| (r.cap.clone(), r.originators.clone())).collect::<BTreeSet<_>>();
    let plain = key(&read_infos(&chain.reduce_capabilities(&SetSem))?);
    for (own, how) in &c.asked {
        let mut means = own.clone();
        if *how == 0 {
            means.refused = None;
        }
        for (n, w) in b.nodes.iter_mut().zip(&written) {
            n.caps = w.iter().filter_map(|k| means.meaning(k)).collect();
        }
        let infos = match how {
            0 if own.scopes_only() => chain.reduce_capabilities(&Scopes(own)),
            0 => chain.reduce_capabilities(&Steps(own)),
            1 => chain.reduce_capabilities(&Whole(own)),
            _ => chain.reduce_capabilities(&Around(own)),
        };
        let rep = read_infos(&infos)?;
        let cl = closure(&b, 0);
        if !cl.max.is_empty() {
            o.hit();
        }
        o.label_if(written.iter().zip(&b.nodes).any(|(w, n)| w != &n.caps), "means something else");
        o.label_if(cl.max.iter().any(|(_, x)| *x != b.nodes[0].iss), "originates elsewhere");
        check_sound(&rep, &cl.max).map_err(|e| format!("{e} (by {own:?}, {how})"))?;
        check_complete(&rep, &cl.min).map_err(|e| format!("{e} (by {own:?}, {how})"))?;
        for k in &b.nodes[0].caps {
            ensure!(rep.iter().any(|r| r.cap.enables(k)), "the claim {} is not covered (by {own:?}, {how})", show(k));
        }
        for r in &rep {
            same!(r.nbf, b.nodes[0].nbf, "not-before of {}", show(&r.cap));
            same!(r.exp, b.nodes[0].exp, "expiry of {}", show(&r.cap));
        }
    }
    // what was asked does not stay
    same!(key(&read_infos(&chain.reduce_capabilities(&SetSem))?), plain, "asking by the first semantics again");
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C26",
        vec![
            part(
                "texts",
                "a generated application semantics (its own reading of abilities, sets, wildcards, identities, caveats, or of capabilities as a whole; each overridden or not) parses a capability text; \
                 the view is the one that its definition says. Non-trivial: all.",
                500_000,
                8_000_000,
                texts,
                check_texts,
            ),
            part(
                "chains",
                "a valid delegation tree is reduced by 1-3 generated application semantics one after another, and by the standard one before and after; each answer is sound and complete \
                 by the meaning which that semantics gives the claims. Non-trivial: something is granted by that meaning.",
                40_000,
                1_000_000,
                chains,
                check_chains,
            ),
        ],
        vec![],
        vec!["semantics override parsing in the ways the trait offers; they are deterministic"],
    )
}
