//! The capability model used by the chain properties: a small domain of capabilities with its own
//! definition of "at least as broad", the matching semantics for the library, delegation trees, and
//! the reference answer to "what does this chain grant, from whom".
use crate::dict;
use crate::jwt;
use crate::keys::*;
use crate::store::TestStore;
use cid::Cid;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use ucan::capability::{Ability, CapabilitySemantics, CapabilityView, Resource, ResourceUri, Scope};
use ucan::chain::CapabilityInfo;
use url::Url;

pub const LETTERS: &[u8] = b"abcde";

/// A set of letters; the library's side of the model
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Sc(pub u8);

impl Scope for Sc {
    fn contains(&self, other: &Self) -> bool {
        self.0 & other.0 == other.0
    }
}

#[allow(clippy::to_string_trait_impl)]
impl ToString for Sc {
    fn to_string(&self) -> String {
        format!("set:{}", letters(self.0))
    }
}

pub fn letters(bits: u8) -> String {
    LETTERS
        .iter()
        .enumerate()
        .filter(|(i, _)| bits & (1 << i) != 0)
        .map(|(_, c)| *c as char)
        .collect()
}

impl TryFrom<Url> for Sc {
    type Error = anyhow::Error;
    fn try_from(u: Url) -> Result<Self, Self::Error> {
        if u.scheme() != "set" || u.query().is_some() || u.fragment().is_some() {
            anyhow::bail!("not a set: {u}");
        }
        let mut bits = 0u8;
        let mut last = 0;
        for c in u.path().bytes() {
            if c <= last {
                anyhow::bail!("not ascending: {u}");
            }
            last = c;
            match LETTERS.iter().position(|l| *l == c) {
                Some(i) => bits |= 1 << i,
                None => anyhow::bail!("unknown letter: {u}"),
            }
        }
        if bits == 0 {
            anyhow::bail!("empty set");
        }
        Ok(Sc(bits))
    }
}

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Lv(pub u8);

impl Ability for Lv {}

impl TryFrom<String> for Lv {
    type Error = anyhow::Error;
    fn try_from(s: String) -> Result<Self, Self::Error> {
        match s.as_str() {
            "lvl/0" => Ok(Lv(0)),
            "lvl/1" => Ok(Lv(1)),
            "lvl/2" => Ok(Lv(2)),
            "lvl/3" => Ok(Lv(3)),
            _ => anyhow::bail!("unknown ability {s}"),
        }
    }
}

#[allow(clippy::to_string_trait_impl)]
impl ToString for Lv {
    fn to_string(&self) -> String {
        format!("lvl/{}", self.0)
    }
}

pub struct SetSem;
impl CapabilitySemantics<Sc, Lv> for SetSem {}

// ---------------------------------------------------------------------------------------------
// The model side

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Serialize, Deserialize)]
pub enum Sel {
    All,
    Set(u8),
}

impl Sel {
    pub fn contains(self, o: Sel) -> bool {
        match (self, o) {
            (Sel::All, _) => true,
            (Sel::Set(_), Sel::All) => false,
            (Sel::Set(a), Sel::Set(b)) => (0..8).all(|i| b & (1 << i) == 0 || a & (1 << i) != 0),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Serialize, Deserialize)]
pub enum Own {
    Plain,
    My,
    As(u8),
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug, Serialize, Deserialize)]
pub struct Cap {
    pub own: Own,
    pub sel: Sel,
    pub lvl: u8,
    /// caveat key -> index of its value
    pub cav: BTreeMap<u8, u8>,
}

pub const CAV_KEYS: [&str; 3] = ["x", "y", "_"];

pub fn cav_value(i: u8) -> Value {
    match i % 10 {
        0 => json!(true),
        1 => json!(false),
        2 => json!(1),
        3 => json!({"n": 1}),
        4 => json!({"n": 1, "m": 2}),
        5 => json!([1, 2]),
        6 => json!([2, 1]),
        7 => json!([1]),
        8 => json!("1"),
        _ => json!({}),
    }
}

pub const N_CAV: u8 = 10;

impl Cap {
    pub fn caveat(&self) -> Value {
        let mut m = Map::new();
        for (k, v) in &self.cav {
            m.insert(CAV_KEYS[*k as usize % 3].into(), cav_value(*v));
        }
        Value::Object(m)
    }
    pub fn enables(&self, o: &Cap) -> bool {
        self.own == o.own
            && self.sel.contains(o.sel)
            && self.lvl >= o.lvl
            && self.cav.iter().all(|(k, v)| o.cav.get(k) == Some(v))
    }
    pub fn resource_text(&self) -> String {
        let inner = match self.sel {
            Sel::All => "*".to_string(),
            Sel::Set(b) => format!("set:{}", letters(b)),
        };
        match self.own {
            Own::Plain => match self.sel {
                Sel::All => "set:*".into(),
                _ => inner,
            },
            Own::My => format!("my:{inner}"),
            Own::As(d) => format!("as:{}:{inner}", ed(d as usize).did),
        }
    }
    pub fn ability_text(&self) -> String {
        format!("lvl/{}", self.lvl)
    }
    /// The library's value for this capability, made without parsing
    pub fn view(&self) -> CapabilityView<Sc, Lv> {
        let kind = match self.sel {
            Sel::All => ResourceUri::Unscoped,
            Sel::Set(b) => ResourceUri::Scoped(Sc(b)),
        };
        let r = match self.own {
            Own::Plain => Resource::Resource { kind },
            Own::My => Resource::My { kind },
            Own::As(d) => Resource::As { did: ed(d as usize).did.clone(), kind },
        };
        CapabilityView::new_with_caveat(r, Lv(self.lvl), self.caveat())
    }
    pub fn from_view(v: &CapabilityView<Sc, Lv>) -> Result<Cap, String> {
        let kind = |k: &ResourceUri<Sc>| match k {
            ResourceUri::Unscoped => Sel::All,
            ResourceUri::Scoped(Sc(b)) => Sel::Set(*b),
        };
        let (own, sel) = match v.resource() {
            Resource::Resource { kind: k } => (Own::Plain, kind(k)),
            Resource::My { kind: k } => (Own::My, kind(k)),
            Resource::As { did, kind: k } => {
                let d = (0..N_ACTORS)
                    .find(|i| actor(*i).did == *did)
                    .ok_or_else(|| format!("a capability of an unknown identity {did}"))?;
                (Own::As(d as u8), kind(k))
            }
        };
        let mut cav = BTreeMap::new();
        let obj = v.caveat().as_object().ok_or("caveat is not an object")?;
        for (k, x) in obj {
            let ki = CAV_KEYS.iter().position(|c| c == k).ok_or_else(|| format!("invented caveat {k}"))?;
            let xi = (0..N_CAV).find(|i| cav_value(*i) == *x).ok_or_else(|| format!("invented caveat value {x}"))?;
            cav.insert(ki as u8, xi);
        }
        Ok(Cap { own, sel, lvl: v.ability().0, cav })
    }
}

pub fn cap() -> BoxedStrategy<Cap> {
    (
        prop_oneof![6 => Just(Own::Plain), 2 => Just(Own::My), 2 => (0u8..2).prop_map(Own::As)],
        prop_oneof![1 => Just(Sel::All), 6 => (1u8..8).prop_map(Sel::Set), 1 => (1u8..32).prop_map(Sel::Set)],
        prop_oneof![3 => Just(1u8), 2 => 0u8..4],
        prop_oneof![
            4 => Just(BTreeMap::new()),
            3 => prop::collection::btree_map(0u8..2, 0u8..2, 0..3),
            1 => prop::collection::btree_map(0u8..3, 0u8..N_CAV, 0..3),
        ],
    )
        .prop_map(|(own, sel, lvl, cav)| Cap { own, sel, lvl, cav })
        .boxed()
}

/// A change of a capability: narrower, broader or sideways
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edit {
    Same,
    DropLetters(u8),
    AddLetters(u8),
    Wild,
    Lower(u8),
    Higher(u8),
    AddCaveat(u8, u8),
    DropCaveat(u8),
    Owner(Own),
}

pub fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        4 => Just(Edit::Same),
        3 => (0u8..32).prop_map(Edit::DropLetters),
        2 => (0u8..32).prop_map(Edit::AddLetters),
        1 => Just(Edit::Wild),
        2 => (0u8..4).prop_map(Edit::Lower),
        2 => (0u8..4).prop_map(Edit::Higher),
        3 => (0u8..3, 0u8..3).prop_map(|(k, v)| Edit::AddCaveat(k, v)),
        2 => (0u8..3).prop_map(Edit::DropCaveat),
        1 => prop_oneof![Just(Own::Plain), Just(Own::My), (0u8..2).prop_map(Own::As)].prop_map(Edit::Owner),
    ]
    .boxed()
}

impl Edit {
    pub fn apply(&self, c: &Cap) -> Cap {
        let mut c = c.clone();
        match self {
            Edit::Same => {}
            Edit::DropLetters(m) => {
                let b = match c.sel {
                    Sel::All => 31,
                    Sel::Set(b) => b,
                };
                let n = b & !m;
                c.sel = Sel::Set(if n == 0 { b & b.wrapping_neg() } else { n });
            }
            Edit::AddLetters(m) => {
                if let Sel::Set(b) = c.sel {
                    c.sel = Sel::Set(b | m)
                }
            }
            Edit::Wild => c.sel = Sel::All,
            Edit::Lower(n) => c.lvl = c.lvl.min(*n),
            Edit::Higher(n) => c.lvl = c.lvl.max(*n),
            Edit::AddCaveat(k, v) => {
                c.cav.entry(*k).or_insert(*v);
            }
            Edit::DropCaveat(k) => {
                c.cav.remove(k);
            }
            Edit::Owner(o) => c.own = *o,
        }
        c
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Claim {
    Fresh(Cap),
    /// From the n-th capability any cited proof grants, changed
    Derived(u8, Vec<Edit>),
    /// Something the semantics does not understand
    Foreign(u8),
    /// Ability with an empty caveat list: no claim at all
    Empty(Cap),
    /// Redelegate the proof at this position (modulo the number of proofs)
    Redelegate(u8),
    RedelegateAll,
    /// Redelegation of a position with an empty caveat list: selects nothing
    RedelegateNothing(u8, bool),
    /// Redelegate position (number of proofs + n)
    OutOfRange(u8),
    /// Looks like a redelegation, but is not
    Decoy(u8),
    /// A text of the dictionary as (part of) something the semantics does not understand
    Odd(u8, String),
}

pub const FOREIGN: [(&str, &str); 12] = [
    ("other:ab", "lvl/1"),
    ("set:ab", "unknown/op"),
    ("not a url", "lvl/0"),
    ("set:zz", "lvl/1"),
    ("aaa:ab", "lvl/2"),
    ("zzz:ab", "lvl/2"),
    ("", "lvl/1"),
    ("as:nonsense:set:ab", "lvl/1"),
    ("my:other:ab", "lvl/3"),
    ("set:ba", "lvl/3"),
    ("as:did:web:x:set:ab", "lvl/3"),
    ("set:a", "LVL/3"),
];

pub const DECOYS: [(&str, &str); 60] = [
    ("prf:0", "/ucan/DELEGATE"),
    ("prf:0", "ucan/DELEGATE/"),
    ("prf:0", "ucan/DELEGATE "),
    ("prf:0", "UCAN/DELEGATE"),
    ("prf:0", "ucan/Delegate"),
    ("prf:0", "ucan/DELEGATE/all"),
    ("prf:0", "ucan/DELEGATED"),
    ("prf:0", "ucan/*"),
    ("prf:0", "*"),
    ("prf:0", ""),
    ("prf:0", "delegate"),
    ("prf:0", "DELEGATE"),
    ("prf:0", "ucan:DELEGATE"),
    ("prf:0", "ucan/"),
    ("prf:0", "ucan\u{2f}delegate"),
    ("prf:0", "ucan/DELEGATE\u{0}"),
    ("prf:0", "can/DELEGATE"),
    ("prf:0", " ucan/DELEGATE"),
    ("prf:*", "/ucan/DELEGATE"),
    ("prf:*", "UCAN/DELEGATE"),
    ("prf:*", "*"),
    ("prf:*", "ucan/delegate"),
    ("prf:*", "ucan/DELEGATE/"),
    ("prf:0,1", "ucan/DELEGATE"),
    ("prf:0/1", "ucan/DELEGATE"),
    ("prf:0.0", "ucan/DELEGATE"),
    ("prf:0x0", "ucan/DELEGATE"),
    ("prf:**", "ucan/DELEGATE"),
    ("prf:0-1", "ucan/DELEGATE"),
    ("prf:0..1", "ucan/DELEGATE"),
    ("prf:all", "ucan/DELEGATE"),
    ("prf:ALL", "ucan/DELEGATE"),
    ("prf:", "ucan/DELEGATE"),
    ("prf", "ucan/DELEGATE"),
    ("*", "ucan/DELEGATE"),
    ("0", "ucan/DELEGATE"),
    ("prfs:0", "ucan/DELEGATE"),
    ("prf-0:0", "ucan/DELEGATE"),
    ("my:prf:*", "ucan/DELEGATE"),
    ("prf:prf:0", "ucan/DELEGATE"),
    ("set:0", "ucan/DELEGATE"),
    ("urn:prf:0", "ucan/DELEGATE"),
    ("prf:0:0", "ucan/DELEGATE"),
    ("prf:%30", "ucan/DELEGATE"),
    ("ucan:*", "ucan/DELEGATE"),
    ("ucan:0", "ucan/DELEGATE"),
    ("prf:1e0", "ucan/DELEGATE"),
    ("prf:\u{ff10}", "ucan/DELEGATE"),
    ("prf:\u{661}", "ucan/DELEGATE"),
    ("prf:9", "ucan/delegate"),
    ("prf:99", "*"),
    ("my:prf:7", "ucan/DELEGATE"),
    ("my:prf:*", "*"),
    ("prf:0", "ucan/OTHER"),
    ("prf:x", "ucan/DELEGATE"),
    ("my:prf:0", "ucan/DELEGATE"),
    ("proof:0", "ucan/DELEGATE"),
    ("prf:0", "ucan/delegate"),
    ("prf:*", "lvl/1x"),
    ("prf:-1", "ucan/DELEGATE"),
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Node {
    pub iss: u8,
    /// Which earlier node cites this one (ignored for the first, which is the presented token)
    pub parent: u8,
    /// Cited right after the latest node, to make chains likely
    pub chain: bool,
    /// Cited twice
    pub dup: bool,
    pub claims: Vec<Claim>,
    pub hash: u8,
    /// How much later/earlier than its parent this token ends/begins: 0 = same bound, 1.. = that much more,
    /// 200.. = 2^(n - 200) more, 255 = unbounded
    pub nbf: u8,
    pub exp: u8,
    /// What else it says: facts, another nonce
    #[serde(default)]
    pub extra: u8,
    /// In the first node: the instant around which everything takes place (0: the usual one)
    #[serde(default)]
    pub epoch: u64,
    /// A text of the dictionary as its nonce, or as the key or value of a fact
    #[serde(default)]
    pub odd: Option<(u8, String)>,
}

pub fn claim(redelegate: u32, bad: u32) -> BoxedStrategy<Claim> {
    prop_oneof![
        4 => cap().prop_map(Claim::Fresh),
        8 => (any::<u8>(), prop::collection::vec(edit(), 0..3)).prop_map(|(n, e)| Claim::Derived(n, e)),
        2 => (0u8..FOREIGN.len() as u8).prop_map(Claim::Foreign),
        1 => cap().prop_map(Claim::Empty),
        redelegate => (0u8..4).prop_map(Claim::Redelegate),
        redelegate => Just(Claim::RedelegateAll),
        1 => (0u8..3, any::<bool>()).prop_map(|(i, a)| Claim::RedelegateNothing(i, a)),
        bad => out_of_range().prop_map(Claim::OutOfRange),
        2 => (0u8..DECOYS.len() as u8).prop_map(Claim::Decoy),
        dict::w_text(1) => odd_claim(),
    ]
    .boxed()
}

pub fn odd_claim() -> BoxedStrategy<Claim> {
    (0u8..3, dict::text())
        // (what begins like an ability of the semantics may be one; wildcards of other schemes are a known finding)
        .prop_filter_map("not understood", |(how, t)| (!t.starts_with("lvl") && !t.contains('*')).then_some(Claim::Odd(how, t)))
        .boxed()
}

/// For Claim::OutOfRange: just beyond the end, or far beyond
pub fn out_of_range() -> BoxedStrategy<u8> {
    prop_oneof![2 => 0u8..3, 1 => 8u8..255].boxed()
}

fn slack() -> BoxedStrategy<u8> {
    prop_oneof![9 => Just(0u8), 6 => 1u8..20, 1 => 200u8..255, 3 => Just(255u8)].boxed()
}

fn more(slack: u8) -> u64 {
    if slack < 200 { slack as u64 } else { 1 << (slack - 200) }
}

pub fn epoch() -> BoxedStrategy<u64> {
    prop_oneof![
        12 => Just(0u64),
        2 => prop::sample::select(vec![1u64, 100, 1 << 16, 1_700_000_000, 1 << 31, 1 << 32, (1 << 32) + 1_000_000, 1 << 53, i64::MAX as u64 - 20, i64::MAX as u64, u64::MAX - 5000, u64::MAX]),
        1 => (0u32..64, any::<u64>()).prop_map(|(b, x)| x >> b),
        dict::w_num(1) => dict::num(),
    ]
    .boxed()
}

thread_local! {
    static EPOCH: std::cell::Cell<u64> = const { std::cell::Cell::new(1_000_000) };
}

/// The instant around which everything takes place in the case at hand
pub fn t0() -> u64 {
    EPOCH.with(|e| e.get())
}

pub fn set_epoch(e: u64) {
    EPOCH.with(|c| c.set(if e == 0 { 1_000_000 } else { e }));
}

pub fn t0_and(d: i64) -> u64 {
    t0().saturating_add_signed(d)
}

pub fn node(redelegate: u32, bad: u32, max_claims: usize) -> BoxedStrategy<Node> {
    (
        prop_oneof![60 => 0u8..4, 12 => 0u8..N_ED as u8, 2 => 8u8..11, 1 => 11u8..13],
        any::<u8>(),
        any::<bool>(),
        prop::bool::weighted(0.1),
        prop_oneof![
            200 => prop::collection::vec(claim(redelegate, bad), 0..=max_claims),
            1 => prop::collection::vec(claim(redelegate, bad), max_claims..50),
            dict::w_num(3) => dict::size(max_claims, 70).prop_flat_map(move |n| prop::collection::vec(claim(redelegate, bad), n..=(3 * n).min(90))),
        ],
        prop_oneof![3 => Just(0u8), 1 => 0u8..jwt::HASHES.len() as u8],
        slack(),
        slack(),
        (
            prop_oneof![3 => Just(0u8), 1 => any::<u8>()],
            epoch(),
            odd(),
        ),
    )
        .prop_map(|(iss, parent, chain, dup, claims, hash, nbf, exp, (extra, epoch, odd))| Node { iss, parent, chain, dup, claims, hash, nbf, exp, extra, epoch, odd })
        .boxed()
}

pub fn tree(redelegate: u32, bad: u32, nodes: usize, claims: usize) -> BoxedStrategy<Vec<Node>> {
    prop::collection::vec(node(redelegate, bad, claims), 1..=nodes).boxed()
}

/// Trees of one shape and some size: a line, a star, or a line that ends in a star
pub fn shaped(redelegate: u32, bad: u32, claims: usize, max: usize) -> BoxedStrategy<Vec<Node>> {
    (0u8..4, prop_oneof![1 => 2..=max, dict::w_num(1) => dict::size(2, max)])
        .prop_flat_map(move |(shape, n)| (Just(shape), 0..n, prop::collection::vec(node(redelegate, bad, claims), n)))
        .prop_map(|(shape, turn, mut t)| {
            for (i, n) in t.iter_mut().enumerate().skip(1) {
                n.dup &= n.parent < 40;
                let line = match shape {
                    0 => true,
                    1 => false,
                    _ => i <= turn,
                };
                n.chain = line;
                n.parent = if shape == 1 { 0 } else { turn as u8 };
            }
            // (a token cited twice in a line is two lines)
            if shape != 1 {
                t.iter_mut().for_each(|n| n.dup = false);
            }
            t
        })
        .boxed()
}

/// Something wrong with one node of a tree
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fault {
    /// Addressed to someone else
    Aud(u8),
    /// Addressed to a text that is almost the right DID
    AudText(u8),
    /// Addressed to a text of the dictionary
    AudOdd(String),
    /// Signature by another key / over something else / altered / absent
    Sig(u8),
    /// Bounds replaced: offset from the epoch, or none
    Exp(Option<i8>),
    Nbf(Option<i8>),
    /// Not in the store / reading fails / stored text is not this token's
    Missing,
    Broken,
    Garbage(u8),
    /// How its identifier is written by the citing token
    CidText(u8),
    /// Issuer is no key
    Issuer(u8),
}

pub fn fault() -> BoxedStrategy<Fault> {
    prop_oneof![
        2 => (0u8..N_ED as u8).prop_map(Fault::Aud),
        3 => (0u8..24).prop_map(Fault::AudText),
        dict::w_text(1) => dict::text().prop_filter_map("nobody's", |t| (!t.starts_with("did:key:z6") && !t.starts_with("did:key:zD")).then_some(Fault::AudOdd(t))),
        3 => (0u8..6).prop_map(Fault::Sig),
        3 => prop::option::weighted(0.8, -30i8..30).prop_map(Fault::Exp),
        3 => prop::option::weighted(0.8, -30i8..30).prop_map(Fault::Nbf),
        1 => Just(Fault::Missing),
        1 => Just(Fault::Broken),
        1 => (0u8..5).prop_map(Fault::Garbage),
        2 => (0u8..8).prop_map(Fault::CidText),
        1 => (0u8..3).prop_map(Fault::Issuer),
    ]
    .boxed()
}

/// A text that is easily taken for this DID (`k` from 4 to 23)
pub fn lookalike(aud: &str, k: u8) -> String {
    let id = aud.trim_start_matches("did:key:").to_string();
    match k {
        4 => format!("{aud}#{id}"),
        5 => format!("{aud}#0"),
        6 => format!("{aud}#"),
        7 => format!("{aud}?a=b"),
        8 => format!("{aud}/"),
        9 => format!("{aud}/a"),
        10 => format!("{aud};a=b"),
        11 => format!(" {aud}"),
        12 => format!("{aud}\n"),
        13 => format!("{aud}{}", id.chars().next_back().unwrap_or('1')),
        14 => format!("DID:KEY:{id}"),
        15 => format!("did:KEY:{id}"),
        16 => id.clone(),
        17 => format!("did:{id}"),
        18 => format!("did:web:{id}"),
        19 => "*".into(),
        20 => "did:key:*".into(),
        21 => format!("did:key:{}", id.chars().skip(1).collect::<String>()),
        22 => format!("{}:", aud),
        _ => format!("{aud},{aud}"),
    }
}

#[derive(Clone, Debug)]
pub struct BuiltNode {
    pub iss: usize,
    pub aud: String,
    pub nbf: Option<u64>,
    pub exp: Option<u64>,
    /// For each citation, the node it cites
    pub cites: Vec<usize>,
    /// The capabilities that the set semantics understands, in the order of the token
    pub caps: Vec<Cap>,
    /// Positions redelegated
    pub redelegated: BTreeSet<usize>,
    pub out_of_range: bool,
    pub text: String,
    pub cid: Cid,
    /// Its issuer signed it
    pub signed: bool,
    /// It can be read from the store, by the identifier that citing tokens use
    pub readable: bool,
    /// It can be read from the store, by its identifier
    pub stored: bool,
    /// The same two, if the store did not fail
    pub unbroken: (bool, bool),
    pub cite_text: String,
}

impl BuiltNode {
    pub fn in_time(&self, t: u64) -> bool {
        self.nbf.map(|n| n <= t).unwrap_or(true) && self.exp.map(|e| t <= e).unwrap_or(true)
    }
    pub fn encompasses(&self, o: &BuiltNode) -> bool {
        let begins = match (self.nbf, o.nbf) {
            (None, _) => true,
            (Some(_), None) => false,
            (Some(a), Some(b)) => a <= b,
        };
        let ends = match (self.exp, o.exp) {
            (None, _) => true,
            (Some(_), None) => false,
            (Some(a), Some(b)) => a >= b,
        };
        begins && ends
    }
}

impl Built {
    /// The definition of an acceptable chain at an instant; Err says what is wrong
    pub fn valid(&self, i: usize, t: u64) -> Result<(), String> {
        let n = &self.nodes[i];
        if !n.signed {
            return Err(format!("node {i}: signature"));
        }
        if !n.in_time(t) {
            return Err(format!("node {i}: time"));
        }
        for c in &n.cites {
            let p = &self.nodes[*c];
            if !p.readable {
                return Err(format!("node {c}: cannot be read"));
            }
            if p.aud != actor(n.iss).did {
                return Err(format!("node {c}: audience"));
            }
            if !p.encompasses(n) {
                return Err(format!("node {c}: lifetime"));
            }
            self.valid(*c, t)?;
        }
        if n.out_of_range {
            return Err(format!("node {i}: redelegates a proof it does not cite"));
        }
        Ok(())
    }
}

pub struct Built {
    pub nodes: Vec<BuiltNode>,
    pub store: TestStore,
}

/// Builds the tokens of a tree, proofs first. Audiences and bounds make every link valid at the epoch.
pub fn build(tree: &[Node]) -> Built {
    build_with(tree, &[])
}

/// As build, with faults at some nodes
pub fn build_with(tree: &[Node], faults: &[(u8, Fault)]) -> Built {
    set_epoch(tree[0].epoch);
    let n = tree.len();
    let faults_of = |i: usize| faults.iter().filter(move |(k, _)| *k as usize % n == i).map(|(_, f)| f);
    let mut cites: Vec<Vec<usize>> = vec![vec![]; n];
    let mut parent = vec![0usize; n];
    for i in 1..n {
        let p = if tree[i].chain { i - 1 } else { tree[i].parent as usize % i };
        parent[i] = p;
        cites[p].push(i);
        if tree[i].dup {
            cites[p].push(i);
        }
    }
    // bounds from the root outwards
    let mut nbf = vec![None; n];
    let mut exp = vec![None; n];
    for i in 0..n {
        let (pn, pe) = if i == 0 { (Some(t0()), Some(t0())) } else { (nbf[parent[i]], exp[parent[i]]) };
        nbf[i] = match (pn, tree[i].nbf) {
            (None, _) | (_, 255) => None,
            (Some(x), s) => Some(x.saturating_sub(more(s))),
        };
        exp[i] = match (pe, tree[i].exp) {
            (None, _) | (_, 255) => None,
            (Some(x), s) => Some(x.saturating_add(more(s))),
        };
    }
    let mut store = TestStore::default();
    let mut nodes: Vec<Option<BuiltNode>> = vec![None; n];
    for i in (0..n).rev() {
        let spec = &tree[i];
        let iss = spec.iss as usize % N_ACTORS;
        let mut aud = if i == 0 { actor(9).did.clone() } else { actor(tree[parent[i]].iss as usize).did.clone() };
        let mut iss_text = actor(iss).did.clone();
        let mut signed = true;
        for f in faults_of(i) {
            match f {
                Fault::Aud(k) => aud = ed(*k as usize).did.clone(),
                Fault::AudText(0) => aud = aud.to_lowercase(),
                Fault::AudText(1) => aud.push(' '),
                Fault::AudText(2) => {
                    aud.pop();
                }
                Fault::AudText(3) => aud.clear(),
                Fault::AudText(k) => aud = lookalike(&aud, *k),
                Fault::AudOdd(t) => aud = t.clone(),
                Fault::Exp(x) => exp[i] = x.map(|x| t0_and(x.into())),
                Fault::Nbf(x) => nbf[i] = x.map(|x| t0_and(x.into())),
                Fault::Issuer(0) => {
                    iss_text = format!("{iss_text}1");
                    signed = false;
                }
                Fault::Issuer(1) => {
                    iss_text = "did:web:example.com".into();
                    signed = false;
                }
                Fault::Issuer(_) => {
                    iss_text = "".into();
                    signed = false;
                }
                _ => {}
            }
        }
        let np = cites[i].len();
        let mut sources: Vec<Cap> = vec![];
        for c in &cites[i] {
            collect_caps(&nodes, *c, &mut sources, 0);
        }
        let Expanded { map, caps, redelegated, out_of_range } = expand(&spec.claims, &sources, np);
        let mut payload = Map::new();
        payload.insert("ucv".into(), json!("0.10.0-canary"));
        payload.insert("iss".into(), json!(iss_text));
        payload.insert("aud".into(), json!(aud));
        payload.insert("exp".into(), json!(exp[i]));
        if let Some(x) = nbf[i] {
            payload.insert("nbf".into(), json!(x));
        }
        payload.insert("cap".into(), json!(map));
        // tokens of equal content must still be distinct nodes
        let (nonce, facts) = more_to_say(spec.extra, &spec.odd, i);
        payload.insert("nnc".into(), json!(nonce));
        if let Some(f) = facts {
            payload.insert("fct".into(), f);
        }
        if np > 0 {
            let prf: Vec<String> = cites[i].iter().map(|c| nodes[*c].as_ref().unwrap().cite_text.clone()).collect();
            payload.insert("prf".into(), json!(prf));
        }
        let mut text = jwt::token(actor(iss), &Value::Object(payload.clone()));
        let original = text.clone();
        for f in faults_of(i) {
            if let Fault::Sig(k) = f {
                let (data, sig) = original.rsplit_once('.').unwrap();
                let mut s = jwt::unb64(sig).unwrap();
                let new = match k {
                    0 => {
                        s[0] ^= 1;
                        format!("{data}.{}", jwt::b64(&s))
                    }
                    1 => {
                        let l = s.len() - 1;
                        s[l] ^= 0x80;
                        format!("{data}.{}", jwt::b64(&s))
                    }
                    2 => format!("{data}.{}", jwt::b64(&actor(iss + 1).raw.sign(data.as_bytes()))),
                    3 => format!("{data}."),
                    4 => {
                        // the issuer signed another payload
                        let mut p = payload.clone();
                        p.insert("nnc".into(), json!("other"));
                        let other = jwt::token(actor(iss), &Value::Object(p));
                        format!("{data}.{}", other.rsplit_once('.').unwrap().1)
                    }
                    _ => format!("{data}.{}", jwt::b64(&actor(iss).raw.sign(b""))),
                };
                text = new;
            }
        }
        signed &= text == original;
        let hash = spec.hash as usize;
        let mut cid = store.put(&text, jwt::hash_code(hash));
        let mut cite_text = jwt::cid_text(hash, text.as_bytes());
        let mut readable = true;
        let mut broken = false;
        for f in faults_of(i) {
            match f {
                Fault::Missing => {
                    store.blocks.remove(&cid);
                    readable = false;
                }
                Fault::Broken => {
                    store.broken.insert(cid);
                    broken = true;
                }
                Fault::Garbage(k) => {
                    let block = match k {
                        0 => b"hello".to_vec(),
                        1 => vec![0xff, 0xfe, 0x2e],
                        2 => vec![],
                        3 => format!("{text}\n").into_bytes(),
                        _ => text.as_bytes()[..text.len() / 2].to_vec(),
                    };
                    if store.blocks.contains_key(&cid) {
                        store.blocks.insert(cid, block);
                    }
                    readable = false;
                }
                _ => {}
            }
        }
        let mut stored = readable;
        // one of these is enough
        if let Some(Fault::CidText(k)) = faults_of(i).find(|f| matches!(f, Fault::CidText(_))) {
            {
                use cid::multibase::Base;
                let block = store.blocks.get(&cid).cloned();
                match k {
                    0 => cite_text = cid.to_string_of_base(Base::Base58Btc).unwrap(),
                    1 => cite_text = cid.to_string_of_base(Base::Base16Lower).unwrap(),
                    2 => cite_text = cid.to_string_of_base(Base::Base64Url).unwrap(),
                    3 => {
                        cite_text = "".into();
                        readable = false;
                    }
                    4 => {
                        cite_text = "not an identifier".into();
                        readable = false;
                    }
                    5 => {
                        stored = false;
                        // a version-0 identifier (which means another codec), with the block there
                        cid = Cid::new_v0(jwt::multihash(1, text.as_bytes())).unwrap();
                        cite_text = cid.to_string();
                        readable = false;
                    }
                    6 => {
                        stored = false;
                        // another codec, with the block there
                        cid = Cid::new_v1(0x71, jwt::multihash(hash, text.as_bytes()));
                        cite_text = cid.to_string();
                        readable = false;
                    }
                    _ => {
                        cite_text.push('?');
                        readable = false;
                    }
                }
                if let Some(b) = block {
                    store.blocks.insert(cid, b);
                }
            }
        }
        nodes[i] = Some(BuiltNode {
            signed,
            readable: readable && !broken,
            stored: stored && !broken,
            unbroken: (readable, stored),
            cite_text,
            iss,
            aud,
            nbf: nbf[i],
            exp: exp[i],
            cites: cites[i].clone(),
            caps,
            redelegated,
            out_of_range,
            text,
            cid,
        });
    }
    Built { nodes: nodes.into_iter().map(|n| n.unwrap()).collect(), store }
}

/// Nonce and facts, of which at least one is only this node's
pub fn more_to_say(extra: u8, odd: &Option<(u8, String)>, i: usize) -> (String, Option<Value>) {
    let (nonce, facts) = extras(extra, i);
    let Some((how, t)) = odd else { return (nonce, facts) };
    let t = if t == "/" { "//".to_string() } else { t.clone() };
    match how {
        0 => (t, Some(json!({ "node": i }))),
        1 => (nonce, Some(Value::Object([(t, json!(i))].into_iter().collect()))),
        _ => (nonce, Some(json!({ "text": t }))),
    }
}

pub fn odd() -> BoxedStrategy<Option<(u8, String)>> {
    prop_oneof![12 => Just(None), dict::w_text(1) => (0u8..3, dict::text()).prop_map(Some)].boxed()
}

/// A nonce that no other node has, and facts
fn extras(how: u8, i: usize) -> (String, Option<Value>) {
    let n = how as usize;
    let nonce = match n % 4 {
        0 => format!("n{i}"),
        1 => format!("{i}{}", "=".repeat(n / 4)),
        2 => format!("{}{i}", "ab/+é ".repeat(n / 8)),
        _ => format!("{i}.{n}"),
    };
    let facts = match n / 4 % 8 {
        0 => None,
        1 => Some(json!({})),
        2 => Some(json!({ "iss": "x", "aud": null, "prf": ["a"], "exp": 1, "nbf": 2 })),
        3 => Some(json!({ "a": { "b": [1, -2, 3.5, "x", null, {}] } })),
        4 => Some(json!({ "challenge": "abcdef" })),
        5 => Some(json!({ "é": "\u{0}", "": [] })),
        6 => Some((0..n % 40).map(|k| (format!("k{k}"), json!(k))).collect::<Map<_, _>>().into()),
        _ => Some(json!({ "long": "x".repeat(n * 8) })),
    };
    (nonce, facts)
}

/// The claims of one token
pub struct Expanded {
    /// As written in the token
    pub map: BTreeMap<String, BTreeMap<String, Vec<Value>>>,
    /// Those which the set semantics understands, in the order of the token
    pub caps: Vec<Cap>,
    pub redelegated: BTreeSet<usize>,
    pub out_of_range: bool,
}

/// What a token that cites `np` proofs says, `sources` being what those grant
pub fn expand(claims: &[Claim], sources: &[Cap], np: usize) -> Expanded {
    let mut map: BTreeMap<String, BTreeMap<String, Vec<Value>>> = BTreeMap::new();
    let mut model: BTreeMap<(String, String), Vec<Cap>> = BTreeMap::new();
    let mut redelegated = BTreeSet::new();
    let mut out_of_range = false;
    for c in claims {
        let cap = match c {
            Claim::Fresh(c) => c.clone(),
            Claim::Derived(k, edits) => {
                let mut c = if sources.is_empty() {
                    Cap { own: Own::Plain, sel: Sel::Set(1 + k % 7), lvl: 1, cav: BTreeMap::new() }
                } else {
                    sources[*k as usize % sources.len()].clone()
                };
                for e in edits {
                    c = e.apply(&c);
                }
                c
            }
            Claim::Foreign(k) => {
                let (r, a) = FOREIGN[*k as usize % FOREIGN.len()];
                map.entry(r.into()).or_default().entry(a.into()).or_default().push(json!({}));
                continue;
            }
            Claim::Odd(how, t) => {
                let (r, a) = match how {
                    0 => ("set:ab".to_string(), t.clone()),
                    1 => (format!("other:{t}"), "lvl/1".to_string()),
                    _ => (format!("other:{t}"), t.clone()),
                };
                map.entry(r).or_default().entry(a).or_default().push(json!({}));
                continue;
            }
            Claim::Decoy(k) => {
                let (r, a) = DECOYS[*k as usize % DECOYS.len()];
                map.entry(r.into()).or_default().entry(a.into()).or_default().push(json!({}));
                continue;
            }
            Claim::Empty(c) => {
                map.entry(c.resource_text()).or_default().entry(c.ability_text()).or_default();
                continue;
            }
            Claim::Redelegate(k) => {
                if np > 0 {
                    let at = *k as usize % np;
                    redelegated.insert(at);
                    map.entry(format!("prf:{at}")).or_default().entry("ucan/DELEGATE".into()).or_default().push(json!({}));
                }
                continue;
            }
            Claim::RedelegateAll => {
                redelegated.extend(0..np);
                map.entry("prf:*".into()).or_default().entry("ucan/DELEGATE".into()).or_default().push(json!({}));
                continue;
            }
            Claim::RedelegateNothing(k, all) => {
                let r = if *all { "prf:*".to_string() } else { format!("prf:{k}") };
                map.entry(r).or_default().entry("ucan/DELEGATE".into()).or_default();
                continue;
            }
            Claim::OutOfRange(k) => {
                out_of_range = true;
                // (positions are small, so far beyond the end is far beyond the end of any token here)
                const FAR: [u64; 8] = [1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 48, 1 << 63, u64::MAX - 300, 1000];
                let at = if *k < 8 { (np + *k as usize) as u64 } else { FAR[*k as usize % 8] + *k as u64 / 8 };
                map.entry(format!("prf:{at}")).or_default().entry("ucan/DELEGATE".into()).or_default().push(json!({}));
                continue;
            }
        };
        map.entry(cap.resource_text()).or_default().entry(cap.ability_text()).or_default().push(cap.caveat());
        model.entry((cap.resource_text(), cap.ability_text())).or_default().push(cap);
    }
    Expanded { map, caps: model.into_values().flatten().collect(), redelegated, out_of_range }
}

fn collect_caps(nodes: &[Option<BuiltNode>], i: usize, out: &mut Vec<Cap>, depth: usize) {
    let n = nodes[i].as_ref().unwrap();
    out.extend(n.caps.iter().cloned());
    if depth < 8 {
        for r in &n.redelegated {
            collect_caps(nodes, n.cites[*r], out, depth + 1);
        }
    }
}

pub type Grants = BTreeSet<(Cap, usize)>;

#[derive(Clone, Default)]
pub struct Closure {
    /// What must be reported
    pub min: Grants,
    /// What may be reported
    pub max: Grants,
}

/// Who grants what, by the definition: a claim originates from whoever the enabling claims of the
/// cited, not redelegated proofs originate from, or else from its issuer; a redelegated proof
/// passes on what it grants. (When only a redelegated proof enables an explicit claim, the claim may
/// or may not be credited to its issuer as well; the property does not say.)
pub fn closure(b: &Built, i: usize) -> Closure {
    let n = &b.nodes[i];
    let subs: Vec<Closure> = n.cites.iter().map(|c| closure(b, *c)).collect();
    let mut out = Closure::default();
    for (p, sub) in subs.iter().enumerate() {
        if n.redelegated.contains(&p) {
            out.min.extend(sub.min.iter().cloned());
            out.max.extend(sub.max.iter().cloned());
        }
    }
    for k in &n.caps {
        let mut min = BTreeSet::new();
        let mut max = BTreeSet::new();
        let mut redelegated_enables = false;
        for (p, sub) in subs.iter().enumerate() {
            if n.redelegated.contains(&p) {
                redelegated_enables |= sub.max.iter().any(|(a, _)| a.enables(k));
                continue;
            }
            min.extend(sub.min.iter().filter(|(a, _)| a.enables(k)).map(|(_, o)| *o));
            max.extend(sub.max.iter().filter(|(a, _)| a.enables(k)).map(|(_, o)| *o));
        }
        if max.is_empty() {
            max.insert(n.iss);
            if !redelegated_enables {
                min.insert(n.iss);
            }
        }
        out.min.extend(min.into_iter().map(|o| (k.clone(), o)));
        out.max.extend(max.into_iter().map(|o| (k.clone(), o)));
    }
    out
}

pub struct Reported {
    pub cap: Cap,
    pub originators: BTreeSet<usize>,
    pub nbf: Option<u64>,
    pub exp: Option<u64>,
}

pub fn read_infos(infos: &[CapabilityInfo<Sc, Lv>]) -> Result<Vec<Reported>, String> {
    infos
        .iter()
        .map(|i| {
            let mut originators = BTreeSet::new();
            for o in &i.originators {
                let a = (0..N_ACTORS)
                    .find(|a| actor(*a).did == *o)
                    .ok_or_else(|| format!("unknown originator {o}"))?;
                originators.insert(a);
            }
            if originators.is_empty() {
                return Err("a capability without originator".into());
            }
            Ok(Reported {
                cap: Cap::from_view(&i.capability)?,
                originators,
                nbf: i.not_before,
                exp: i.expires_at,
            })
        })
        .collect()
}

pub fn show(c: &Cap) -> String {
    format!("{} {} {}", c.resource_text(), c.ability_text(), c.caveat())
}

/// Every (capability, originator) reported is granted
pub fn check_sound(rep: &[Reported], max: &Grants) -> Result<(), String> {
    for r in rep {
        for o in &r.originators {
            if !max.iter().any(|(k, ko)| ko == o && k.enables(&r.cap)) {
                return Err(format!("{} is attributed to actor {o}, who did not delegate it", show(&r.cap)));
            }
        }
    }
    Ok(())
}

/// Every (capability, originator) granted is reported
pub fn check_complete(rep: &[Reported], min: &Grants) -> Result<(), String> {
    for (k, o) in min {
        if !rep.iter().any(|r| r.cap.enables(k) && r.originators.contains(o)) {
            return Err(format!("{} from actor {o} is not reported", show(k)));
        }
    }
    Ok(())
}
