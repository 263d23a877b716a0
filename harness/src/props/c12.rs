//! C12: capability text and its parsed view correspond
use super::*;
use crate::dict;
use crate::gens::*;
use crate::keys::*;
use crate::model::DECOYS;
use crate::{ensure, same};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use ucan::capability::proof::{ProofAction, ProofDelegationSemantics, ProofSelection};
use ucan::capability::{Ability, Capability, CapabilitySemantics, CapabilityView, Resource, ResourceUri, Scope};
use url::Url;

/// A scope that keeps its complete text
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Full(pub String);

impl Scope for Full {
    fn contains(&self, other: &Self) -> bool {
        other.0.starts_with(&self.0)
    }
}

#[allow(clippy::to_string_trait_impl)]
impl ToString for Full {
    fn to_string(&self) -> String {
        self.0.clone()
    }
}

impl TryFrom<Url> for Full {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, Self::Error> {
        if u.scheme() == "full" {
            Ok(Full(u.to_string()))
        } else {
            anyhow::bail!("foreign scheme")
        }
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Word(pub String);
impl Ability for Word {}
impl TryFrom<String> for Word {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        if s.starts_with("do/") || ["*", "*/*", "do", "ucan/*", "ucan/DELEGATE"].contains(&s.as_str()) {
            Ok(Word(s))
        } else {
            anyhow::bail!("foreign ability")
        }
    }
}
#[allow(clippy::to_string_trait_impl)]
impl ToString for Word {
    fn to_string(&self) -> String {
        self.0.clone()
    }
}

pub struct FullSem;
impl CapabilitySemantics<Full, Word> for FullSem {}

type View = CapabilityView<Full, Word>;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Plain,
    My,
    As(String),
}

fn did() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (0..N_ACTORS).prop_map(|i| actor(i).did.clone()),
        1 => "z[1-9A-HJ-NP-Za-km-z]{1,12}".prop_map(|s| format!("did:key:{s}")),
        1 => ("z6Mk[1-9A-H]{0,3}([#?;/@.~_%!$&'()+,=-][a-z0-9]{0,3}){1,2}").prop_map(|s| format!("did:key:{s}")),
        dict::w_text(1) => word().prop_map(|s| format!("did:key:{s}")),
    ]
    .boxed()
}

fn kind() -> BoxedStrategy<Kind> {
    prop_oneof![Just(Kind::Plain), Just(Kind::My), did().prop_map(Kind::As)].boxed()
}

/// Letters and digits of the dictionary
fn word() -> BoxedStrategy<String> {
    dict::text()
        .prop_map(|t| t.chars().filter(char::is_ascii_alphanumeric).collect::<String>())
        .prop_map(|t| if t.is_empty() { "z6Mk".into() } else { t })
        .boxed()
}

/// Resource texts around one of the dictionary
fn odd_scope() -> BoxedStrategy<String> {
    let part = || prop_oneof![3 => dict::text(), 1 => word(), dict::w_num(1) => dict::size(0, 3000).prop_map(|n| "a".repeat(n))];
    (part(), "[a-z]{1,3}", 0u8..9)
        .prop_map(|(t, a, how)| match how {
            0 => format!("full:{t}:{a}"),
            1 => format!("full:{a}:{t}"),
            2 => format!("full://{a}/{t}"),
            3 => format!("full://{t}/{a}"),
            4 => format!("full:{a}?{t}"),
            5 => format!("full:{a}#{t}"),
            6 => format!("full:{a}{t}"),
            _ => format!("full:{t}"),
        })
        .prop_filter("left as it is", |s| {
            s != "full:*" && ["", "my:", "as:did:key:z6Mk:"].iter().all(|p| Url::parse(&format!("{p}{s}")).map(|u| u.as_str() == format!("{p}{s}")).unwrap_or(false))
        })
        .boxed()
}

/// Resource texts that URL parsing leaves as they are
fn scope() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "full:[a-zA-Z0-9@.:_~+,;=!$&()-]{1,12}",
        2 => "full://[a-z]{1,5}(\\.[a-z]{1,3})?(:[1-9][0-9]{2,3})?(/[a-zA-Z0-9:@_~-]{1,6}){0,3}/?",
        1 => "full://[a-z]{1,5}(/[a-zA-Z0-9:@_~-]{1,6}){0,2}[?][a-z0-9=&:/?*]{1,8}",
        1 => "full:[a-z0-9:]{1,6}([?][a-z0-9=&:/*]{1,6})?(#[a-z0-9:/?*]{1,6})?",
        1 => "full:[a-z]{1,4}/[a-z*:]{1,4}(#[a-z]{1,3})?",
        1 => "full:[*][a-z*]{1,3}",
        1 => "full:[a-z]{0,3}:[*]",
        1 => "full:(//[a-z]{1,3})?(/[a-z]{1,3}){0,2}/[*]([?][a-z]{1,2}|#[a-z]{1,2})?",
        1 => "full:[*]/[a-z]{0,2}",
        1 => "full:([*]([?][a-z*=]{0,3}|#[a-z*]{0,3})|[*]%2[aA]|%2[aA]|[?][*]|#[*])",
        dict::w_text(1) => odd_scope(),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kind: Kind,
    /// None: the wildcard
    scope: Option<String>,
    ability: String,
    caveat: Option<Value>,
}

fn cases() -> BoxedStrategy<Case> {
    (
        kind(),
        prop::option::weighted(0.8, scope()),
        prop_oneof![
            3 => "do/[a-zA-Z*/]{0,6}",
            3 => Just("do/it".to_string()),
            3 => text().prop_map(|t| format!("do/{t}")),
            2 => prop::sample::select(vec!["*", "*/*", "do", "do/*", "ucan/*", "ucan/DELEGATE"]).prop_map(String::from)
        ],
        prop_oneof![1 => Just(None), 4 => object(true).prop_map(Some), 1 => json(true).prop_map(Some)],
    )
        .prop_map(|(kind, scope, ability, caveat)| Case { kind, scope, ability, caveat })
        .prop_filter("left as it is", |c| match (&c.kind, &c.scope) {
            (Kind::As(d), Some(s)) => {
                let t = format!("as:{d}:{s}");
                Url::parse(&t).map(|u| u.as_str() == t).unwrap_or(false)
            }
            _ => true,
        })
        .boxed()
}

fn expected(c: &Case) -> View {
    let kind = match &c.scope {
        None => ResourceUri::Unscoped,
        Some(s) => ResourceUri::Scoped(Full(s.clone())),
    };
    let r = match &c.kind {
        Kind::Plain => Resource::Resource { kind },
        Kind::My => Resource::My { kind },
        Kind::As(did) => Resource::As { did: did.clone(), kind },
    };
    CapabilityView::new_with_caveat(r, Word(c.ability.clone()), c.caveat.clone().unwrap_or_else(|| json!({})))
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    let inner = match (&c.kind, &c.scope) {
        (Kind::Plain, None) => "full:*".to_string(),
        (_, None) => "*".to_string(),
        (_, Some(s)) => s.clone(),
    };
    let text = match &c.kind {
        Kind::Plain => inner,
        Kind::My => format!("my:{inner}"),
        Kind::As(d) => format!("as:{d}:{inner}"),
    };
    let want = expected(c);
    o.hit();
    o.label(match c.kind {
        Kind::Plain => "plain",
        Kind::My => "own",
        Kind::As(_) => "other identity",
    });
    o.label_if(c.scope.is_none(), "wildcard");
    o.label_if(text.contains('?'), "query");
    o.label_if(text.contains('#'), "fragment");
    let got = FullSem
        .parse(&text, &c.ability, c.caveat.as_ref())
        .ok_or_else(|| format!("{text:?} {:?} is not understood", c.ability))?;
    ensure!(got == want, "{text:?} is parsed as {got:?}, expected {want:?}");
    // and the parts one by one
    same!(got.ability().to_string(), c.ability, "ability");
    same!(*got.caveat(), c.caveat.clone().unwrap_or_else(|| json!({})), "caveat");
    // rendering
    let plain_wild = matches!(c.kind, Kind::Plain) && c.scope.is_none();
    let cap = Capability::from(&got);
    let cap2 = Capability::from(got.clone());
    ensure!(cap == cap2, "the two ways to render disagree");
    if !plain_wild {
        same!(cap.resource, text, "rendered resource");
    }
    same!(cap.ability, c.ability, "rendered ability");
    same!(cap.caveat, want.caveat, "rendered caveat");
    if !plain_wild {
        let back = FullSem.parse_capability(&cap).ok_or_else(|| format!("the rendered {cap:?} is not understood"))?;
        ensure!(back == got, "{cap:?} is parsed as {back:?}, rendered from {got:?}");
        // from a view made without parsing
        let cap = Capability::from(&want);
        let back = FullSem.parse_capability(&cap).ok_or_else(|| format!("the rendered {cap:?} is not understood"))?;
        ensure!(back == want, "{cap:?} is parsed as {back:?}, rendered from {want:?}");
        ensure!(back.enables(&want) == want.caveat.is_object(), "a capability does not enable what it was rendered and parsed to");
    }
    Ok(())
}

// --- what is not understood ---

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadCase {
    resource: String,
    ability: String,
    why: String,
}

fn bad_cases() -> BoxedStrategy<BadCase> {
    let foreign = || "(other|ful|fulll|http|mailto|prf|wnfs)(://h/)?[a-z]{1,4}".prop_map(|s: String| if s.contains(':') { s } else { format!("{s}x:x") });
    let ok = || "full:[a-z]{1,4}";
    let mk = |why: &'static str| move |resource: String| BadCase { resource, ability: "do/it".into(), why: why.into() };
    prop_oneof![
        2 => foreign().prop_map(mk("foreign scheme")),
        1 => foreign().prop_map(|s| format!("my:{s}")).prop_map(mk("foreign scheme of an own resource")),
        1 => (did(), foreign()).prop_map(|(d, s)| format!("as:{d}:{s}")).prop_map(mk("foreign scheme of another's resource")),
        2 => ok().prop_map(|s| BadCase { resource: s, ability: "undo/it".into(), why: "foreign ability".into() }),
        1 => text().prop_map(|s| BadCase { resource: "full:a".into(), ability: format!("-{s}"), why: "foreign ability".into() }),
        2 => (prop::sample::select(vec![
                "as:", "as:did", "as:did:", "as:did:key", "as:did:key:", "as:key:z6Mk:", "as:did:web:example.com:", "as:did:plc:abc:", "as::did:key:z6:",
                "as:DID:key:z6:", "as:did:KEY:z6:", "as:did:key::", "as:z6Mk:", "as:my:", "as:did:keys:z6:", "as:dod:key:z6:",
            ]), ok()).prop_map(|(p, s)| format!("{p}{s}")).prop_map(mk("malformed ownership prefix")),
        1 => (prop::sample::select(vec!["as:", "as:did", "as:did:", "as:did:key", "as:did:key:", "as:*", "as:did:*", "as:did:key:*", "my:", "my:my", "my:full", "my:ab", "my::", "my:?full:a", "my:#full:a"])).prop_map(String::from).prop_map(mk("incomplete")),
        1 => did().prop_map(|d| format!("as:{d}")).prop_map(mk("identity without resource")),
        dict::w_text(1) => (word(), 0u8..5).prop_filter_map("foreign", |(w, how)| {
            let w = w.to_lowercase();
            let scheme = w.starts_with(|c: char| c.is_ascii_alphabetic()) && !["my", "as", "full"].contains(&w.as_str());
            match how {
                0 if scheme => Some(format!("{w}:full:a")),
                1 if scheme => Some(format!("{w}:did:key:z6Mk:full:a")),
                2 if w != "key" => Some(format!("as:did:{w}:z6Mk:full:a")),
                3 if w != "did" => Some(format!("as:{w}:key:z6Mk:full:a")),
                4 if scheme => Some(format!("my:{w}:a")),
                _ => None,
            }
        }).prop_map(mk("a foreign word")),
        1 => did().prop_map(|d| format!("as:{d}:")).prop_map(mk("identity with empty resource")),
        1 => (did(), "[a-z]{1,5}").prop_map(|(d, s)| format!("as:{d}:{s}")).prop_map(mk("identity with something that is no resource")),
        1 => ok().prop_map(|s| format!("my:my:{s}")).prop_map(mk("own of own")),
        1 => (did(), ok()).prop_map(|(d, s)| format!("my:as:{d}:{s}")).prop_map(mk("own of another's")),
        1 => (did(), ok()).prop_map(|(d, s)| format!("as:{d}:my:{s}")).prop_map(mk("another's own")),
        2 => prop::sample::select(vec!["", "*", "full", ":", "full a", "/full:a", "#full:a", "?full:a", "//full:a", "1full:a", "a b:c"]).prop_map(String::from).prop_map(mk("not a resource")),
    ]
    .boxed()
}

fn check_bad(c: &BadCase, o: &mut Obs) -> Verdict {
    o.hit();
    o.label(c.why.clone());
    for cav in [None, Some(json!({})), Some(json!({"x": 1}))] {
        if let Some(v) = FullSem.parse(&c.resource, &c.ability, cav.as_ref()) {
            return Err(format!("{:?} {:?} ({}) is understood as {v:?}", c.resource, c.ability, c.why));
        }
    }
    let cap = Capability::new(c.resource.clone(), c.ability.clone(), json!({}));
    ensure!(FullSem.parse_capability(&cap).is_none(), "{cap:?} ({}) is understood", c.why);
    Ok(())
}

// --- any text ---

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AnyCase {
    resource: String,
    ability: String,
    caveat: Value,
}

fn any_cases() -> BoxedStrategy<AnyCase> {
    let piece = || prop_oneof![
        6 => prop::sample::select(vec![
            "my:", "as:", "did:", "key:", "z6Mk", "full:", "full://", "h", "/", "?", "#", "*", ":", "a", "b", "%20", "..", ".", " ", "@", "é", "\\", "\n", "[", "]", "|", "^", "%", "<", "full",
        ]).prop_map(String::from),
        1 => text(),
        1 => did(),
        dict::w_text(1) => dict::text(),
    ];
    (
        prop_oneof![
            1 => sized(piece(), 0..7, 40).prop_map(|v| v.concat()),
            // mostly right
            3 => (
                prop_oneof![3 => Just(String::new()), 3 => Just("my:".to_string()), 4 => did().prop_map(|d| format!("as:{d}:")), 1 => piece()],
                prop_oneof![8 => Just("full:".to_string()), 1 => Just("FULL:".to_string()), 1 => piece()],
                sized(piece(), 0..5, 40).prop_map(|v| v.concat()),
            ).prop_map(|(a, b, c)| format!("{a}{b}{c}")),
        ],
        prop_oneof![8 => Just("do/it".to_string()), 2 => text().prop_map(|t| format!("do/{t}")), 1 => text()],
        json(false),
    )
        .prop_map(|(resource, ability, caveat)| AnyCase { resource, ability, caveat })
        .boxed()
}

fn check_any(c: &AnyCase, o: &mut Obs) -> Verdict {
    let Some(v) = FullSem.parse(&c.resource, &c.ability, Some(&c.caveat)) else {
        o.label("not understood");
        return Ok(());
    };
    o.hit();
    o.label(match v.resource() {
        Resource::Resource { .. } => "plain",
        Resource::My { .. } => "own",
        Resource::As { .. } => "other identity",
    });
    same!(v.ability().0, c.ability, "ability of {c:?}");
    same!(*v.caveat(), c.caveat, "caveat of {c:?}");
    if matches!(v.resource(), Resource::Resource { kind: ResourceUri::Unscoped }) {
        return Ok(());
    }
    let cap = Capability::from(&v);
    let back = FullSem.parse_capability(&cap).ok_or_else(|| format!("{c:?} is understood as {v:?}, whose text {:?} is not", cap.resource))?;
    ensure!(back == v, "{c:?} is understood as {v:?}, whose text {:?} is understood as {back:?}", cap.resource);
    Ok(())
}

// --- redelegation resources ---

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PrfCase {
    index: Option<u64>,
    ability: String,
    caveat: Option<Value>,
}

fn prf_cases() -> BoxedStrategy<PrfCase> {
    (
        prop::option::weighted(0.8, prop_oneof![0u64..5, any::<u64>()]),
        prop_oneof![
            5 => Just("ucan/DELEGATE".to_string()),
            1 => (0..DECOYS.len()).prop_map(|k| DECOYS[k].1.to_string()),
            1 => ability_text(),
        ],
        prop::option::of(object(true)),
    )
        .prop_map(|(index, ability, caveat)| PrfCase { index, ability, caveat })
        .boxed()
}

fn check_prf(c: &PrfCase, o: &mut Obs) -> Verdict {
    let sem = ProofDelegationSemantics {};
    let text = match c.index {
        Some(i) => format!("prf:{i}"),
        None => "prf:*".into(),
    };
    o.hit();
    let ability = c.ability.as_str();
    let got = sem.parse(&text, ability, c.caveat.as_ref());
    if ability != "ucan/DELEGATE" {
        ensure!(got.is_none(), "{text} {ability:?} is understood");
        return Ok(());
    }
    let got = got.ok_or_else(|| format!("{text} is not understood"))?;
    let want = match c.index {
        Some(i) => ProofSelection::Index(i as usize),
        None => ProofSelection::All,
    };
    ensure!(
        *got.resource() == Resource::Resource { kind: ResourceUri::Scoped(want.clone()) },
        "{text} is parsed as {got:?}"
    );
    ensure!(*got.ability() == ProofAction::Delegate, "ability");
    let cap = Capability::from(&got);
    same!(cap.resource, text, "rendered");
    same!(cap.ability, ability, "rendered ability");
    let back = sem.parse_capability(&cap).ok_or("the rendered text is not understood")?;
    ensure!(back == got, "{cap:?} is parsed as {back:?}");
    // selecting all contains every selection, and only that does
    ensure!(ProofSelection::All.contains(&want) && want.contains(&want), "containment of selections");
    ensure!(want.contains(&ProofSelection::All) == (want == ProofSelection::All), "containment of selections");
    Ok(())
}

fn probe_plain_wildcard() -> Option<String> {
    let v = FullSem.parse("full:*", "do/it", None)?;
    let cap = Capability::from(&v);
    if cap.resource == "*" && FullSem.parse_capability(&cap).is_none() {
        Some("the wildcard \"full:*\" renders as \"*\", which does not parse".into())
    } else {
        None
    }
}

fn probe_foreign_wildcard() -> Option<String> {
    let v = FullSem.parse("bogus:*", "do/it", None)?;
    if *v.resource() == (Resource::Resource { kind: ResourceUri::Unscoped }) {
        Some("\"bogus:*\" is taken as the wildcard of a semantics for another scheme".into())
    } else {
        None
    }
}

pub fn property() -> Property {
    super::property(
        "C12",
        vec![
            part(
                "views",
                "plain, own and other-identity resources over URL-shaped texts (authority, path, query, fragment, colons, stars) and wildcards, any ability and caveat; the parsed view is \
                 compared part by part with the expected one, rendered and parsed again. Non-trivial: all.",
                120_000,
                1_000_000,
                cases,
                check,
            ),
            part(
                "not-understood",
                "foreign schemes and abilities, malformed and incomplete ownership prefixes, nested prefixes, texts that are no resource; none may give a capability. Non-trivial: all.",
                48_000,
                300_000,
                bad_cases,
                check_bad,
            ),
            part(
                "any-text",
                "texts composed of prefixes, delimiters and odd characters; whatever is understood must render to a text understood equally. Non-trivial: understood.",
                120_000,
                2_000_000,
                any_cases,
                check_any,
            ),
            part(
                "proof-selections",
                "redelegation resources by position and for all; parsed, rendered, compared. Non-trivial: all.",
                24_000,
                100_000,
                prf_cases,
                check_prf,
            ),
        ],
        vec![
            Probe { id: "plain-wildcard-renders-star", probe: probe_plain_wildcard },
            Probe { id: "foreign-scheme-wildcard", probe: probe_foreign_wildcard },
        ],
        vec!["generated own and other-identity texts hold characters that URL parsing does not rewrite; wildcards of a foreign scheme are a known finding and not generated"],
    )
}
