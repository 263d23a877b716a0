//! C21: whatever the parties do with their own keys, a verifier is convinced only of what the owner
//! delegated
use super::*;
use crate::gens::block;
use crate::keys::*;
use crate::model::*;
use crate::store::TestStore;
use crate::{clock, dict, ensure, jwt};
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Map, Value};
use std::collections::BTreeSet;
use ucan::chain::ProofChain;
use ucan::ucan::Ucan;

/// The parties: Ed25519 mostly, one P-256
const PARTIES: [usize; 5] = [0, 1, 2, 3, 8];

fn party(i: u8) -> usize {
    PARTIES[i as usize % PARTIES.len()]
}

/// A bound of a token relative to those of the tokens it cites
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Bound {
    /// The tightest one of the cited
    Inherit,
    /// That much inside of it
    Within(u8),
    /// That much beyond it
    Beyond(u8),
    /// From the epoch
    At(i8),
    None,
}

fn bound() -> BoxedStrategy<Bound> {
    prop_oneof![
        6 => Just(Bound::Inherit),
        3 => (0u8..5).prop_map(Bound::Within),
        1 => (1u8..5).prop_map(Bound::Beyond),
        2 => (-20i8..20).prop_map(Bound::At),
        1 => Just(Bound::None),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    Iss(u8),
    Aud(u8),
    Exp(Option<i8>),
    Nbf(Option<i8>),
    AddCap(Cap),
    DropCaps,
    /// All resources of one kind of ownership turned to another
    Widen,
    DropProofs,
    /// Cites what another token cites
    ProofsOf(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Issue {
        /// Issued by the audience of this token (or else by party `who`)
        follow: Option<u8>,
        who: u8,
        aud: u8,
        /// (20 and more: to a look-alike)
        /// (only tokens addressed to the issuer?, which)
        cites: Vec<(bool, u8)>,
        claims: Vec<Claim>,
        nbf: Bound,
        exp: Bound,
        /// Names this party as issuer, but is signed by the issuer
        pose: Option<u8>,
        #[serde(default)]
        extra: u8,
        #[serde(default)]
        odd: Option<(u8, String)>,
    },
    /// The payload changed, the signature kept
    Tamper(u8, Change),
    /// Header and payload of one, signature of another
    Splice(u8, u8),
    /// The payload changed and signed anew by this party
    Resign(u8, Change, u8),
}

fn change() -> BoxedStrategy<Change> {
    prop_oneof![
        2 => any::<u8>().prop_map(Change::Iss),
        2 => any::<u8>().prop_map(Change::Aud),
        1 => prop::option::of(-20i8..20).prop_map(Change::Exp),
        1 => prop::option::of(-20i8..20).prop_map(Change::Nbf),
        2 => cap().prop_map(Change::AddCap),
        1 => Just(Change::DropCaps),
        1 => Just(Change::Widen),
        1 => Just(Change::DropProofs),
        1 => any::<u8>().prop_map(Change::ProofsOf),
    ]
    .boxed()
}

fn issue() -> BoxedStrategy<Op> {
    (
        prop::option::weighted(0.8, any::<u8>()),
        0u8..5,
        prop_oneof![24 => 0u8..5, 1 => 20u8..120],
        prop_oneof![
            2 => Just(vec![]),
            8 => prop::collection::vec((prop::bool::weighted(0.94), any::<u8>()), 1..4),
        ],
        prop::collection::vec(claim(3, 0), 0..4),
        bound(),
        bound(),
        prop::option::weighted(0.06, 0u8..5),
        (prop_oneof![3 => Just(0u8), 1 => any::<u8>()], odd()),
    )
        .prop_map(|(follow, who, aud, cites, claims, nbf, exp, pose, (extra, odd))| Op::Issue { follow, who, aud, cites, claims, nbf, exp, pose, extra, odd })
        .boxed()
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        12 => issue(),
        1 => (any::<u8>(), change()).prop_map(|(i, c)| Op::Tamper(i, c)),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| Op::Splice(i, j)),
        1 => (any::<u8>(), change(), 0u8..5).prop_map(|(i, c, s)| Op::Resign(i, c, s)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    ops: Vec<Op>,
    times: Vec<i8>,
    #[serde(default)]
    epoch: u64,
}

/// Far enough from the ends of time
fn inner_epoch() -> BoxedStrategy<u64> {
    epoch().prop_map(|e| if e == 0 { 0 } else { e.clamp(10_000, u64::MAX - 10_000) }).boxed()
}

fn cases() -> BoxedStrategy<Case> {
    (prop_oneof![3 => prop::collection::vec(op(), 1..6), 9 => prop::collection::vec(op(), 5..14), dict::w_num(1) => dict::size(2, 24).prop_flat_map(|n| prop::collection::vec(op(), n))], prop::collection::vec(-20i8..20, 0..2), inner_epoch())
        .prop_map(|(ops, times, epoch)| Case { ops, times, epoch })
        .boxed()
}

/// One token of a history
#[derive(Clone)]
struct Tok {
    /// Who it names as issuer
    iss: usize,
    aud: usize,
    /// Addressed to a text that only looks like that party's DID
    near: bool,
    nbf: Option<u64>,
    exp: Option<u64>,
    cites: Vec<usize>,
    caps: Vec<Cap>,
    redelegated: BTreeSet<usize>,
    /// The named issuer signed exactly this
    genuine: bool,
    payload: Map<String, Value>,
    text: String,
}

impl Tok {
    fn in_time(&self, t: u64) -> bool {
        self.nbf.is_none_or(|n| n <= t) && self.exp.is_none_or(|e| t <= e)
    }
}

struct History {
    toks: Vec<Tok>,
    store: TestStore,
    /// Every text that the issuer it names has signed
    genuine: BTreeSet<String>,
}

fn at(x: i64) -> u64 {
    t0_and(x)
}

impl History {
    fn run(ops: &[Op]) -> History {
        let mut h = History { toks: vec![], store: TestStore::default(), genuine: BTreeSet::new() };
        for op in ops {
            h.step(op)
        }
        h
    }

    fn step(&mut self, op: &Op) {
        let n = self.toks.len();
        match op {
            Op::Issue { follow, who, aud, cites, claims, nbf, exp, pose, extra, odd } => {
                let signer = match follow {
                    Some(i) if n > 0 => self.toks[n - 1 - *i as usize % n].aud,
                    _ => party(*who),
                };
                let mine: Vec<usize> = (0..n).filter(|i| self.toks[*i].aud == signer).collect();
                let mut cited = vec![];
                for (only_mine, k) in cites {
                    if *only_mine {
                        if !mine.is_empty() {
                            cited.push(mine[mine.len() - 1 - *k as usize % mine.len()]);
                        }
                    } else if n > 0 {
                        cited.push(n - 1 - *k as usize % n);
                    }
                }
                let latest = cited.iter().filter_map(|c| self.toks[*c].nbf).max();
                let earliest = cited.iter().filter_map(|c| self.toks[*c].exp).min();
                let nbf = match nbf {
                    Bound::Inherit => latest,
                    Bound::Within(k) => latest.map(|x| x + *k as u64),
                    Bound::Beyond(k) => latest.map(|x| x - *k as u64),
                    Bound::At(k) => Some(at((*k).into())),
                    Bound::None => None,
                };
                let exp = match exp {
                    Bound::Inherit => earliest,
                    Bound::Within(k) => earliest.map(|x| x - *k as u64),
                    Bound::Beyond(k) => earliest.map(|x| x + *k as u64),
                    Bound::At(k) => Some(at((*k).into())),
                    Bound::None => None,
                };
                let mut sources = vec![];
                for c in &cited {
                    self.granted(*c, &mut sources, 0);
                }
                let e = expand(claims, &sources, cited.len());
                let iss = pose.map(party).unwrap_or(signer);
                let mut p = Map::new();
                p.insert("ucv".into(), json!("0.10.0-canary"));
                p.insert("iss".into(), json!(actor(iss).did));
                let (kind, near) = (*aud / 5, *aud >= 20);
                let aud = party(*aud % 5);
                p.insert("aud".into(), json!(if near { lookalike(&actor(aud).did, kind) } else { actor(aud).did.clone() }));
                p.insert("exp".into(), json!(exp));
                if let Some(x) = nbf {
                    p.insert("nbf".into(), json!(x));
                }
                p.insert("cap".into(), json!(e.map));
                let (nonce, facts) = more_to_say(*extra, odd, n);
                p.insert("nnc".into(), json!(nonce));
                if let Some(f) = facts {
                    p.insert("fct".into(), f);
                }
                if !cited.is_empty() {
                    p.insert("prf".into(), json!(cited.iter().map(|c| jwt::cid_text(0, self.toks[*c].text.as_bytes())).collect::<Vec<_>>()));
                }
                let text = jwt::token(actor(signer), &Value::Object(p.clone()));
                self.add(Tok { iss, aud, near, nbf, exp, cites: cited, caps: e.caps, redelegated: e.redelegated, genuine: iss == signer, payload: p, text });
            }
            Op::Tamper(i, c) if n > 0 => {
                let i = n - 1 - *i as usize % n;
                let mut t = self.change(i, c);
                let (_, sig) = self.toks[i].text.rsplit_once('.').unwrap();
                let header = self.toks[i].text.split('.').next().unwrap();
                t.text = format!("{header}.{}.{sig}", jwt::b64(Value::Object(t.payload.clone()).to_string().as_bytes()));
                t.genuine = false;
                self.add(t);
            }
            Op::Splice(i, j) if n > 0 => {
                let (i, j) = (n - 1 - *i as usize % n, n - 1 - *j as usize % n);
                let mut t = self.toks[i].clone();
                let (data, _) = t.text.rsplit_once('.').unwrap();
                let (_, sig) = self.toks[j].text.rsplit_once('.').unwrap();
                t.text = format!("{data}.{sig}");
                t.genuine = false;
                self.add(t);
            }
            Op::Resign(i, c, signer) if n > 0 => {
                let i = n - 1 - *i as usize % n;
                let signer = party(*signer);
                let mut t = self.change(i, c);
                t.text = jwt::token(actor(signer), &Value::Object(t.payload.clone()));
                t.genuine = t.iss == signer;
                self.add(t);
            }
            _ => {}
        }
    }

    fn add(&mut self, mut t: Tok) {
        if t.genuine {
            self.genuine.insert(t.text.clone());
        }
        // undoing a change brings the genuine token back
        t.genuine = self.genuine.contains(&t.text);
        self.store.put(&t.text, jwt::hash_code(0));
        self.toks.push(t);
    }

    fn granted(&self, i: usize, out: &mut Vec<Cap>, depth: usize) {
        out.extend(self.toks[i].caps.iter().cloned());
        if depth < 6 {
            for p in &self.toks[i].redelegated {
                if let Some(c) = self.toks[i].cites.get(*p) {
                    self.granted(*c, out, depth + 1);
                }
            }
        }
    }

    fn change(&self, i: usize, c: &Change) -> Tok {
        let mut t = self.toks[i].clone();
        match c {
            Change::Iss(k) => {
                t.iss = party(*k);
                t.payload.insert("iss".into(), json!(actor(t.iss).did));
            }
            Change::Aud(k) => {
                t.aud = party(*k);
                t.near = *k >= 20 && *k < 120;
                let did = actor(t.aud).did.clone();
                t.payload.insert("aud".into(), json!(if t.near { lookalike(&did, *k / 5) } else { did }));
            }
            Change::Exp(x) => {
                t.exp = x.map(|x| at(x.into()));
                t.payload.insert("exp".into(), json!(t.exp));
            }
            Change::Nbf(x) => {
                t.nbf = x.map(|x| at(x.into()));
                match t.nbf {
                    Some(x) => t.payload.insert("nbf".into(), json!(x)),
                    None => t.payload.remove("nbf"),
                };
            }
            Change::AddCap(c) => {
                let list = &mut t.payload["cap"][c.resource_text()][c.ability_text()];
                match list {
                    Value::Array(a) => a.push(c.caveat()),
                    other => *other = json!([c.caveat()]),
                }
                t.caps.push(c.clone());
            }
            Change::DropCaps => {
                t.payload.insert("cap".into(), json!({}));
                t.caps.clear();
                t.redelegated.clear();
            }
            Change::Widen => {
                let Value::Object(old) = t.payload["cap"].clone() else { return t };
                let mut new = Map::new();
                let mut caps = vec![];
                for c in &t.caps {
                    let mut w = c.clone();
                    w.sel = Sel::All;
                    w.cav.clear();
                    caps.push(w);
                }
                for (r, a) in old {
                    if r.starts_with("prf:") {
                        new.insert(r, a);
                    }
                }
                let mut map = Value::Object(new);
                for c in &caps {
                    map[c.resource_text()][c.ability_text()] = json!([{}]);
                }
                t.payload.insert("cap".into(), map);
                t.caps = caps;
            }
            Change::DropProofs => {
                t.payload.remove("prf");
                t.cites.clear();
            }
            Change::ProofsOf(k) => {
                let o = &self.toks[*k as usize % self.toks.len()];
                t.cites = o.cites.clone();
                match o.payload.get("prf") {
                    Some(p) => t.payload.insert("prf".into(), p.clone()),
                    None => t.payload.remove("prf"),
                };
            }
        }
        t
    }

    /// The owner issued a token covering the capability, and an unbroken succession leads to token i
    fn authority(&self, i: usize, owner: usize, cap: &Cap, t: u64) -> bool {
        let tok = &self.toks[i];
        if !tok.genuine || !tok.in_time(t) {
            return false;
        }
        let claims = tok.caps.iter().any(|c| c.enables(cap));
        if tok.iss == owner && claims {
            return true;
        }
        tok.cites.iter().enumerate().any(|(p, c)| {
            let prev = &self.toks[*c];
            (claims || tok.redelegated.contains(&p))
                && prev.aud == tok.iss
                && !prev.near
                && contains((prev.nbf, prev.exp), (tok.nbf, tok.exp))
                && self.authority(*c, owner, cap, t)
        })
    }
}

fn contains(a: (Option<u64>, Option<u64>), b: (Option<u64>, Option<u64>)) -> bool {
    a.0.unwrap_or(0) <= b.0.unwrap_or(0) && a.1.unwrap_or(u64::MAX) >= b.1.unwrap_or(u64::MAX)
}

/// Presents token i; None: refused
fn present(h: &History, i: usize, t: u64, way: u8) -> Result<Option<Vec<Reported>>, String> {
    let text = &h.toks[i].text;
    let mut p = parser();
    let now = if way & 4 == 0 || t > i64::MAX as u64 {
        Some(t)
    } else {
        clock::set(t);
        None
    };
    let now = if clock::works() { now } else { Some(t) };
    let r = match way % 3 {
        0 => block(ProofChain::try_from_token_string(text, now, &mut p, &h.store)),
        1 => block(ProofChain::from_cid(&h.store.clone().put(text, jwt::hash_code(0)), now, &mut p, &h.store)),
        _ => match Ucan::try_from(text.as_str()) {
            Ok(u) => block(ProofChain::from_ucan(u, now, &mut p, &h.store)),
            Err(e) => Err(e),
        },
    };
    clock::reset();
    match r {
        Err(_) => Ok(None),
        Ok(c) => read_infos(&c.reduce_capabilities(&SetSem)).map(Some),
    }
}

fn describe(h: &History) -> String {
    let mut s = String::new();
    for (i, t) in h.toks.iter().enumerate() {
        s.push_str(&format!(
            "\n  token {i}: {} issued by actor {} for actor {}, {:?} to {:?}, cites {:?}, redelegates {:?}, claims {:?}",
            if t.genuine { "genuine," } else { "forged," },
            t.iss, if t.near { format!("almost {}", t.aud) } else { t.aud.to_string() }, t.nbf, t.exp, t.cites, t.redelegated, t.caps.iter().map(show).collect::<Vec<_>>()
        ));
    }
    s
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    set_epoch(c.epoch);
    let h = History::run(&c.ops);
    let mut times: BTreeSet<u64> = c.times.iter().map(|x| at((*x).into())).collect();
    times.insert(t0());
    o.label_if(h.toks.iter().any(|t| !t.genuine), "a forgery");
    for (i, tok) in h.toks.iter().enumerate() {
        // next to its own bounds too
        let mut all = times.clone();
        all.extend(tok.exp.into_iter().flat_map(|x| [x, x + 1]));
        all.extend(tok.nbf.into_iter().flat_map(|x| [x, x - 1]));
        for (k, t) in all.into_iter().enumerate() {
            let Some(rep) = present(&h, i, t, (k + i) as u8)? else { continue };
            o.label("accepted");
            ensure!(tok.genuine, "token {i} is accepted, although its issuer never signed it{}", describe(&h));
            ensure!(tok.in_time(t), "token {i} is accepted at {t}{}", describe(&h));
            for r in &rep {
                for owner in &r.originators {
                    ensure!(
                        h.authority(i, *owner, &r.cap, t),
                        "presenting token {i} at {t} shows {} to originate from actor {owner}, who did not delegate it{}", show(&r.cap), describe(&h)
                    );
                    if *owner != tok.iss {
                        o.label("authority from another party");
                        o.hit();
                        o.label_if(tok.cites.iter().any(|c| h.toks[*c].iss != *owner), "over more than one hop");
                    }
                }
                ensure!(
                    (r.nbf, r.exp) == (tok.nbf, tok.exp),
                    "token {i} is valid {:?} to {:?}, its capability {:?} to {:?}", tok.nbf, tok.exp, r.nbf, r.exp
                );
            }
            if tok.cites.is_empty() {
                // its own authority
                for k in &tok.caps {
                    ensure!(
                        rep.iter().any(|r| r.cap.enables(k) && r.originators.contains(&tok.iss)),
                        "token {i} claims {} of its issuer's own, which is not shown{}", show(k), describe(&h)
                    );
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// An honest succession always convinces

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hop {
    /// Who holds it next
    to: u8,
    /// Passed on by redelegation, of all proofs or of the one
    how: u8,
    /// Narrowed in these ways otherwise
    edits: Vec<Edit>,
    nbf: u8,
    exp: u8,
    /// Other tokens for the same holder, cited before / after
    others: Vec<(bool, u8, Vec<Claim>)>,
    /// Claimed besides
    besides: Vec<Claim>,
    hash: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Honest {
    owner: u8,
    first: Cap,
    nbf: Option<i8>,
    exp: Option<i8>,
    besides: Vec<Claim>,
    hops: Vec<Hop>,
    #[serde(default)]
    epoch: u64,
}

fn narrowing() -> BoxedStrategy<Edit> {
    prop_oneof![
        2 => Just(Edit::Same),
        2 => (0u8..32).prop_map(Edit::DropLetters),
        1 => (0u8..4).prop_map(Edit::Lower),
        1 => (0u8..3, 0u8..N_CAV).prop_map(|(k, v)| Edit::AddCaveat(k, v)),
    ]
    .boxed()
}

fn honest() -> BoxedStrategy<Honest> {
    let hop = (
        0u8..5,
        0u8..4,
        prop::collection::vec(narrowing(), 0..3),
        prop_oneof![2 => Just(0u8), 1 => 0u8..6, 1 => Just(255)],
        prop_oneof![2 => Just(0u8), 1 => 0u8..6, 1 => Just(255)],
        prop::collection::vec((any::<bool>(), 0u8..5, prop::collection::vec(claim(0, 0), 0..3)), 0..3),
        prop::collection::vec(claim(1, 0), 0..2),
        0u8..jwt::HASHES.len() as u8,
    )
        .prop_map(|(to, how, edits, nbf, exp, others, besides, hash)| Hop { to, how, edits, nbf, exp, others, besides, hash });
    (
        0u8..5,
        cap(),
        prop::option::of(-20i8..0),
        prop::option::of(1i8..60),
        prop::collection::vec(claim(0, 0), 0..2),
        prop_oneof![
            12 => prop::collection::vec(hop.clone(), 1..6),
            1 => prop::collection::vec(hop.clone(), 6..24),
            dict::w_num(1) => dict::size(1, 40).prop_flat_map(move |n| prop::collection::vec(hop.clone(), n)),
        ],
        inner_epoch(),
    )
        .prop_map(|(owner, first, nbf, exp, besides, hops, epoch)| Honest { owner, first, nbf, exp, besides, hops, epoch })
        .boxed()
}

fn check_honest(c: &Honest, o: &mut Obs) -> Verdict {
    set_epoch(c.epoch);
    let mut store = TestStore::default();
    let mut n = 0;
    let mut make = |iss: usize, aud: usize, nbf: Option<u64>, exp: Option<u64>, map: Value, prf: Vec<String>, hash: usize| {
        let mut p = Map::new();
        p.insert("ucv".into(), json!("0.10.0-canary"));
        p.insert("iss".into(), json!(actor(iss).did));
        p.insert("aud".into(), json!(actor(aud).did));
        p.insert("exp".into(), json!(exp));
        if let Some(x) = nbf {
            p.insert("nbf".into(), json!(x));
        }
        p.insert("cap".into(), map);
        p.insert("nnc".into(), json!(format!("n{n}")));
        n += 1;
        if !prf.is_empty() {
            p.insert("prf".into(), json!(prf));
        }
        let text = jwt::token(actor(iss), &Value::Object(p));
        store.put(&text, jwt::hash_code(hash));
        let cid = jwt::cid_text(hash, text.as_bytes());
        (text, cid)
    };
    let owner = party(c.owner);
    let mut nbf = c.nbf.map(|x| at(x.into()));
    let mut exp = c.exp.map(|x| at(x.into()));
    let mut claims = vec![Claim::Fresh(c.first.clone())];
    claims.extend(c.besides.iter().cloned());
    let mut holder = party(c.hops[0].to);
    let mut k = c.first.clone();
    let (mut text, mut cid) = make(owner, holder, nbf, exp, json!(expand(&claims, &[], 0).map), vec![], 0);
    let mut redelegations = 0;
    for (i, hop) in c.hops.iter().enumerate() {
        let next = match c.hops.get(i + 1) {
            Some(h) => party(h.to),
            None => 9,
        };
        let hash = hop.hash as usize;
        let mut before = vec![];
        let mut after = vec![];
        for (first, who, claims) in &hop.others {
            let (_, id) = make(party(*who), holder, nbf, exp, json!(expand(claims, &[], 0).map), vec![], hash);
            if *first { &mut before } else { &mut after }.push(id);
        }
        let pos = before.len();
        let prf: Vec<String> = before.into_iter().chain([cid.clone()]).chain(after).collect();
        let mut claims = hop.besides.clone();
        match hop.how {
            0 => {
                claims.push(Claim::Redelegate(pos as u8));
                redelegations += 1;
            }
            1 => {
                claims.push(Claim::RedelegateAll);
                redelegations += 1;
            }
            _ => {
                for e in &hop.edits {
                    k = e.apply(&k);
                }
                claims.push(Claim::Fresh(k.clone()));
            }
        }
        nbf = match (nbf, hop.nbf) {
            (None, 255) => None,
            (x, 255) => x,
            (None, s) => Some(at(-(s as i64))),
            (Some(x), s) => Some((x + s as u64).min(t0())),
        };
        exp = match (exp, hop.exp) {
            (None, 255) => None,
            (x, 255) => x,
            (None, s) => Some(at(40 + s as i64)),
            (Some(x), s) => Some((x - s as u64).max(t0())),
        };
        let sources: Vec<Cap> = vec![k.clone()];
        let map = json!(expand(&claims, &sources, prf.len()).map);
        (text, cid) = make(holder, next, nbf, exp, map, prf, hash);
        holder = next;
    }
    o.label(format!("{} hops", c.hops.len().min(10)));
    o.label_if(redelegations > 0, "redelegated");
    o.label_if(redelegations == c.hops.len(), "redelegated all the way");
    o.hit();
    let mut times: Vec<(u64, bool)> = vec![(t0(), true)];
    if let Some(x) = nbf {
        times.extend([(x, true), (x - 1, false), (0, false)]);
    }
    if let Some(x) = exp {
        times.extend([(x, true), (x + 1, false), (u64::MAX, false)]);
    }
    if nbf.is_none() && exp.is_none() {
        times.extend([(0, true), (u64::MAX, true)]);
    }
    for (t, within) in times {
        let r = block(ProofChain::try_from_token_string(&text, Some(t), &mut parser(), &store));
        match r {
            Ok(chain) => {
                ensure!(within, "accepted at {t}, beyond {nbf:?} to {exp:?}");
                let rep = read_infos(&chain.reduce_capabilities(&SetSem))?;
                ensure!(
                    rep.iter().any(|r| r.cap.enables(&k) && r.originators.contains(&owner)),
                    "{} is not shown to originate from actor {owner}, but: {:?}", show(&k),
                    rep.iter().map(|r| (show(&r.cap), &r.originators)).collect::<Vec<_>>()
                );
                for r in &rep {
                    ensure!(
                        (r.nbf, r.exp) == (nbf, exp),
                        "valid {nbf:?} to {exp:?}, but shown as {:?} to {:?}", r.nbf, r.exp
                    );
                }
            }
            Err(e) => ensure!(!within, "an honest chain is refused at {t}: {e:?}"),
        }
    }
    Ok(())
}

pub fn property() -> Property {
    property_(
        vec![
            part(
                "histories",
                "up to 24 (mostly up to 13) steps in which five parties issue tokens with their own keys (citing any earlier tokens, mostly those addressed to them; claiming fresh, derived, broadened or \
                 unrelated capabilities; redelegating; inheriting, narrowing or exceeding bounds; posing as others), tamper with tokens, splice signatures and re-sign others' tokens; every token \
                 is presented as a chain at several instants; whatever originator an accepted chain shows must have issued a covering capability from which an unbroken succession of genuine, \
                 timely tokens leads to the presenter. Non-trivial: authority of another party was shown",
                6000, 200_000, cases, check,
            ),
            part(
                "honest",
                "a capability passed over 1 to 40 (mostly up to 5) hops, narrowed or redelegated (prf:i, prf:*) at each, with nested bounds and unrelated tokens cited besides; the verifier must be convinced at every \
                 instant within the last token's bounds and at none beyond. Non-trivial: all",
                8000, 200_000, honest, check_honest,
            ),
        ],
        vec![],
        vec!["the store is trusted to return what was stored under an identifier"],
    )
}

fn property_(parts: Vec<Box<dyn AnyPart>>, probes: Vec<Probe>, a: Vec<&'static str>) -> Property {
    super::property("C21", parts, probes, a)
}
