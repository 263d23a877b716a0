//! C01: a token validates only if its issuer signed exactly what it says
use super::*;
use crate::gens::*;
use crate::jwt::{self, J};
use crate::keys::*;
use crate::ensure;
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::{json, Value};
use crate::store::TestStore;
use ucan::chain::ProofChain;
use ucan::ipld::{Principle, Signature, UcanIpld};
use ucan::ucan::{UcanHeader, UcanPayload};
use ucan::Ucan;

/// The reference verdict: three segments that decode, and a signature by the key of the DID in
/// `iss` over exactly the text of the first two
pub fn reference(text: &str) -> bool {
    let Ok((_, payload, sig)) = jwt::open(text) else { return false };
    let Some(J::Str(iss)) = payload.get("iss") else { return false };
    let Some(a) = actors().iter().find(|a| a.did == *iss) else { return false };
    let data = &text[..text.rfind('.').unwrap()];
    a.raw.verify(data.as_bytes(), &sig)
}

fn tidy(mut s: Spec) -> Spec {
    s.nonce = false;
    if let (Some(n), Some(e)) = (s.nbf, s.exp) {
        s.nbf = Some(n.min(e));
        s.exp = Some(n.max(e));
    }
    s
}

pub fn timed_spec(iss: BoxedStrategy<usize>) -> BoxedStrategy<Spec> {
    spec_with(iss, false, few(2).prop_flat_map(|n| prop::collection::vec(cid_like(), n)).boxed())
        .prop_map(tidy)
        .boxed()
}

/// Whether the library accepts it at an instant within the bounds that it states itself
fn accepts(u: &Ucan, warm: &[usize], before: Option<&Ucan>) -> bool {
    let t = instant_within(*u.not_before(), *u.expires_at());
    let mut p = parser();
    // (what was found about another token says nothing about this one)
    if let Some(g) = before {
        let _ = block(g.check_signature(&mut p));
    }
    for w in warm {
        let _ = p.parse(&actor(*w).did);
    }
    let sig = block(u.check_signature(&mut p)).is_ok();
    let val = match t {
        Some(t) => block(u.validate(Some(t), &mut p)).is_ok(),
        None => sig,
    };
    sig || val
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SigEdit {
    Flip(u16),
    Truncate(u8),
    Extend(Vec<u8>),
    Prepend(Vec<u8>),
    Zero,
    Empty,
    Reverse,
    SwapHalves,
    Random(Vec<u8>),
    /// The two halves as an ASN.1 sequence of integers, as other ECDSA implementations write it
    Der,
    Twice,
    /// The signature's bytes as hexadecimal or base64 text
    AsText(bool),
    /// Leading zero bytes left out (of a signature that has some)
    Strip,
    /// Other bytes for the same numbers
    Twin,
}

fn sig_edit() -> BoxedStrategy<SigEdit> {
    prop_oneof![
        4 => any::<u16>().prop_map(SigEdit::Flip),
        1 => (1u8..64).prop_map(SigEdit::Truncate),
        1 => prop::collection::vec(any::<u8>(), 1..4).prop_map(SigEdit::Extend),
        1 => prop::collection::vec(prop_oneof![Just(0u8), any::<u8>()], 1..4).prop_map(SigEdit::Prepend),
        1 => Just(SigEdit::Zero),
        1 => Just(SigEdit::Empty),
        1 => Just(SigEdit::Reverse),
        1 => Just(SigEdit::SwapHalves),
        1 => prop::collection::vec(any::<u8>(), 64).prop_map(SigEdit::Random),
        2 => Just(SigEdit::Der),
        1 => Just(SigEdit::Twice),
        1 => any::<bool>().prop_map(SigEdit::AsText),
        1 => Just(SigEdit::Strip),
        1 => Just(SigEdit::Twin),
    ]
    .boxed()
}

fn der(sig: &[u8]) -> Vec<u8> {
    let int = |b: &[u8]| {
        let mut v: Vec<u8> = b.iter().copied().skip_while(|b| *b == 0).collect();
        if v.first().map_or(true, |b| b & 0x80 != 0) {
            v.insert(0, 0);
        }
        [&[2u8, v.len() as u8], v.as_slice()].concat()
    };
    let (r, s) = sig.split_at(sig.len() / 2);
    let body = [int(r), int(s)].concat();
    [&[0x30, body.len() as u8], body.as_slice()].concat()
}

/// (r, n - s) is as good an ECDSA signature as (r, s): where only the unaltered is to be accepted, this is none
fn other_numbers(iss: usize, e: &SigEdit) -> &SigEdit {
    match (e, &actor(iss).raw) {
        (SigEdit::Twin, Raw::P256(_)) => &SigEdit::Reverse,
        _ => e,
    }
}

fn edit_sig(raw: &Raw, sig: &[u8], e: &SigEdit) -> Vec<u8> {
    let mut s = sig.to_vec();
    match e {
        SigEdit::Flip(n) => {
            if !s.is_empty() {
                let bit = *n as usize % (s.len() * 8);
                s[bit / 8] ^= 1 << (bit % 8);
            }
        }
        SigEdit::Truncate(n) => s.truncate(s.len().saturating_sub(*n as usize)),
        SigEdit::Extend(x) => s.extend(x),
        SigEdit::Prepend(x) => s = [x.as_slice(), &s].concat(),
        SigEdit::Zero => s.iter_mut().for_each(|b| *b = 0),
        SigEdit::Empty => s.clear(),
        SigEdit::Reverse => s.reverse(),
        SigEdit::SwapHalves => {
            let h = s.len() / 2;
            s.rotate_left(h)
        }
        SigEdit::Random(x) => s = x.clone(),
        SigEdit::Der => s = der(sig),
        SigEdit::Twice => s.extend(sig),
        SigEdit::Strip => s = sig.iter().copied().skip_while(|b| *b == 0).collect(),
        SigEdit::Twin => s = raw.twin(sig),
        SigEdit::AsText(true) => s = sig.iter().map(|b| format!("{b:02x}")).collect::<String>().into_bytes(),
        SigEdit::AsText(false) => s = jwt::b64(sig).into_bytes(),
    }
    s
}

/// A change of one field of the payload or header
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FieldEdit {
    Iss(usize),
    Aud(String),
    Exp(Option<u64>),
    Nbf(Option<u64>),
    Nnc(Option<String>),
    Ucv(String),
    AddCap(String, String, Value),
    DropCap,
    ReplaceCaps(Vec<(String, String, Value)>),
    Facts(Vec<(String, Value)>),
    DropFacts,
    Prf(Vec<String>),
    DropPrf,
    Alg(String),
    Typ(String),
}

fn field_edit() -> BoxedStrategy<FieldEdit> {
    prop_oneof![
        2 => any_actor().prop_map(FieldEdit::Iss),
        2 => did_text().prop_map(FieldEdit::Aud),
        2 => prop::option::of(bound()).prop_map(FieldEdit::Exp),
        2 => prop::option::of(bound()).prop_map(FieldEdit::Nbf),
        1 => prop::option::of(text()).prop_map(FieldEdit::Nnc),
        1 => prop_oneof![Just("0.10.0".to_string()), Just("0.9.1".to_string()), text()].prop_map(FieldEdit::Ucv),
        2 => (resource_text(), ability_text(), object(false)).prop_map(|(r, a, c)| FieldEdit::AddCap(r, a, c)),
        1 => Just(FieldEdit::DropCap),
        1 => caps(false, 3).prop_map(FieldEdit::ReplaceCaps),
        1 => prop::collection::vec((key(), json(false)), 0..3).prop_map(FieldEdit::Facts),
        1 => Just(FieldEdit::DropFacts),
        1 => prop::collection::vec(cid_like(), 0..3).prop_map(FieldEdit::Prf),
        1 => Just(FieldEdit::DropPrf),
        2 => prop_oneof![
            prop::sample::select(vec!["EdDSA", "ES256", "RS256", "none", "eddsa", "HS256", "ES384"]).prop_map(String::from),
            text()
        ].prop_map(FieldEdit::Alg),
        1 => prop_oneof![Just("jwt".to_string()), Just("ucan".to_string()), text()].prop_map(FieldEdit::Typ),
    ]
    .boxed()
}

fn edit_json(header: &mut Value, payload: &mut Value, e: &FieldEdit) {
    match e {
        FieldEdit::Iss(a) => payload["iss"] = json!(actor(*a).did),
        FieldEdit::Aud(a) => payload["aud"] = json!(a),
        FieldEdit::Exp(x) => payload["exp"] = json!(x),
        FieldEdit::Nbf(Some(x)) => payload["nbf"] = json!(x),
        FieldEdit::Nbf(None) => {
            payload.as_object_mut().unwrap().remove("nbf");
        }
        FieldEdit::Nnc(Some(x)) => payload["nnc"] = json!(x),
        FieldEdit::Nnc(None) => {
            payload.as_object_mut().unwrap().remove("nnc");
        }
        FieldEdit::Ucv(v) => payload["ucv"] = json!(v),
        FieldEdit::AddCap(r, a, c) => {
            let caps = payload["cap"].as_object_mut().unwrap();
            let ab = caps.entry(r.clone()).or_insert(json!({})).as_object_mut().unwrap();
            ab.entry(a.clone()).or_insert(json!([])).as_array_mut().unwrap().push(c.clone());
        }
        FieldEdit::DropCap => {
            let caps = payload["cap"].as_object_mut().unwrap();
            if let Some(k) = caps.keys().next().cloned() {
                caps.remove(&k);
            }
        }
        FieldEdit::ReplaceCaps(c) => payload["cap"] = json!(group(c)),
        FieldEdit::Facts(f) => {
            payload["fct"] = Value::Object(f.iter().cloned().collect());
        }
        FieldEdit::DropFacts => {
            payload.as_object_mut().unwrap().remove("fct");
        }
        FieldEdit::Prf(p) => payload["prf"] = json!(p),
        FieldEdit::DropPrf => {
            payload.as_object_mut().unwrap().remove("prf");
        }
        FieldEdit::Alg(a) => header["alg"] = json!(a),
        FieldEdit::Typ(a) => header["typ"] = json!(a),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Change {
    None,
    /// Replace the character at a position of a segment
    Char(u8, u16, char),
    /// Replace the last character of a segment (its low bits may be unused)
    LastChar(u8, char),
    Insert(u16, char),
    Delete(u16),
    SwapCase(u16),
    DropSegment(u8),
    RepeatSegment(u8),
    Append(String),
    Prefix(String),
    Splice(Box<Spec>, u8),
    Field(FieldEdit),
    Layout(Vec<u8>),
    Resign(usize),
    ResignWithHeader(usize),
    Signature(SigEdit),
    FieldAndSignature(FieldEdit, SigEdit),
    Fields(FieldEdit, FieldEdit),
    SignedOver(u8),
    Reissue(usize),
    /// A header that announces no signature, and none, or some bytes
    Unsigned(String, Vec<u8>),
    /// The signature is that of another text by the same issuer
    OtherSignature(Box<Spec>),
}

fn change() -> BoxedStrategy<Change> {
    let ch = || {
        prop_oneof![
            8 => prop::sample::select("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_".chars().collect::<Vec<_>>()),
            1 => prop::sample::select(vec!['+', '/', '=', '.', ' ', '\n', '\u{0}', 'é', '%']),
        ]
    };
    prop_oneof![
        2 => Just(Change::None),
        6 => (0u8..3, any::<u16>(), ch()).prop_map(|(s, p, c)| Change::Char(s, p, c)),
        3 => (0u8..3, ch()).prop_map(|(s, c)| Change::LastChar(s, c)),
        2 => (any::<u16>(), ch()).prop_map(|(p, c)| Change::Insert(p, c)),
        2 => any::<u16>().prop_map(Change::Delete),
        1 => any::<u16>().prop_map(Change::SwapCase),
        1 => (0u8..3).prop_map(Change::DropSegment),
        1 => (0u8..3).prop_map(Change::RepeatSegment),
        3 => prop_oneof![Just(".".to_string()), Just("=".to_string()), Just("\n".to_string()), Just(" ".to_string()),
             "[.][A-Za-z0-9_-]{0,8}", "[A-Za-z0-9_-]{1,3}", "[.]{1,3}", crate::gens::around()].prop_map(Change::Append),
        1 => prop_oneof![Just(".".to_string()), Just(" ".to_string()), Just("\u{feff}".to_string()), "[A-Za-z0-9_-]{1,3}[.]?", around()].prop_map(Change::Prefix),
        3 => (timed_spec(any_actor()), 1u8..7).prop_map(|(s, m)| Change::Splice(Box::new(s), m)),
        8 => field_edit().prop_map(Change::Field),
        1 => prop::collection::vec(any::<u8>(), 4..40).prop_map(Change::Layout),
        3 => any_actor().prop_map(Change::Resign),
        1 => any_actor().prop_map(Change::ResignWithHeader),
        4 => sig_edit().prop_map(Change::Signature),
        3 => (field_edit(), sig_edit()).prop_map(|(f, s)| Change::FieldAndSignature(f, s)),
        1 => (field_edit(), field_edit()).prop_map(|(f, s)| Change::Fields(f, s)),
        2 => (0u8..8).prop_map(Change::SignedOver),
        2 => any_actor().prop_map(Change::Reissue),
        1 => (
            prop_oneof![
                3 => prop::sample::select(vec!["none", "None", "NONE", "", "HS256", "null"]).prop_map(String::from),
                crate::dict::w_text(1) => crate::dict::text(),
            ],
            prop_oneof![4 => Just(vec![]), 1 => prop::collection::vec(any::<u8>(), 1..4)],
        ).prop_map(|(alg, sig)| Change::Unsigned(alg, sig)),
        1 => timed_spec(any_actor()).prop_map(|s| Change::OtherSignature(Box::new(s))),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TextCase {
    spec: Spec,
    builder: bool,
    layout: Vec<u8>,
    warm: Vec<usize>,
    change: Change,
    /// The unaltered token is checked first
    #[serde(default)]
    first: bool,
}

fn make(spec: &Spec, layout: &[u8], builder: bool) -> Result<String, String> {
    if builder {
        spec.build()
            .and_then(|u| u.encode())
            .map_err(|e| format!("cannot build: {e:?}"))
    } else {
        let a = actor(spec.iss);
        let h = J::from_value(&jwt::header_json(a)).write(&mut jwt::Tape::new(layout));
        let p = J::from_value(&spec.payload(None)).write(&mut jwt::Tape::new(layout));
        Ok(jwt::assemble(a, &h, &p))
    }
}

fn alter(text: &str, spec: &Spec, change: &Change) -> Result<String, String> {
    let seg: Vec<&str> = text.split('.').collect();
    let at = |n: u16| {
        let mut i = n as usize % (text.len() + 1);
        while !text.is_char_boundary(i) {
            i -= 1;
        }
        i
    };
    let a = actor(spec.iss);
    Ok(match change {
        Change::None => text.to_string(),
        Change::Char(s, p, c) => {
            let mut v: Vec<String> = seg.iter().map(|s| s.to_string()).collect();
            let s = *s as usize;
            if !v[s].is_empty() {
                let mut cs: Vec<char> = v[s].chars().collect();
                let i = *p as usize % cs.len();
                cs[i] = *c;
                v[s] = cs.into_iter().collect();
            }
            v.join(".")
        }
        Change::LastChar(s, c) => {
            let mut v: Vec<String> = seg.iter().map(|s| s.to_string()).collect();
            let s = *s as usize;
            v[s].pop();
            v[s].push(*c);
            v.join(".")
        }
        Change::Insert(p, c) => {
            let mut t = text.to_string();
            t.insert(at(*p), *c);
            t
        }
        Change::Delete(p) => {
            let mut t = text.to_string();
            let i = at(*p).min(text.len() - 1);
            t.remove(i);
            t
        }
        Change::SwapCase(p) => {
            let mut b = text.as_bytes().to_vec();
            let i = *p as usize % b.len();
            b[i] = if b[i].is_ascii_uppercase() { b[i].to_ascii_lowercase() } else { b[i].to_ascii_uppercase() };
            String::from_utf8(b).map_err(|e| e.to_string())?
        }
        Change::DropSegment(s) => {
            let mut v = seg.clone();
            v.remove(*s as usize);
            v.join(".")
        }
        Change::RepeatSegment(s) => {
            let mut v = seg.clone();
            v.insert(*s as usize, seg[*s as usize]);
            v.join(".")
        }
        Change::Append(x) => format!("{text}{x}"),
        Change::Prefix(x) => format!("{x}{text}"),
        Change::Splice(other, mask) => {
            let o = make(other, &[], false)?;
            let os: Vec<&str> = o.split('.').collect();
            (0..3)
                .map(|i| if mask & (1 << i) != 0 { os[i] } else { seg[i] })
                .collect::<Vec<_>>()
                .join(".")
        }
        Change::Field(e) => {
            let (h, p, _) = jwt::open(text)?;
            let (mut h, mut p) = (h.to_value(), p.to_value());
            edit_json(&mut h, &mut p, e);
            let h = jwt::b64(J::from_value(&h).compact().as_bytes());
            let p = jwt::b64(J::from_value(&p).compact().as_bytes());
            format!("{h}.{p}.{}", seg[2])
        }
        Change::Layout(tape) => {
            let (h, p, _) = jwt::open(text)?;
            let h = jwt::b64(h.write(&mut jwt::Tape::new(tape)).as_bytes());
            let p = jwt::b64(p.write(&mut jwt::Tape::new(tape)).as_bytes());
            format!("{h}.{p}.{}", seg[2])
        }
        Change::Resign(k) => {
            let data = format!("{}.{}", seg[0], seg[1]);
            format!("{data}.{}", jwt::b64(&actor(*k).raw.sign(data.as_bytes())))
        }
        Change::ResignWithHeader(k) => {
            let h = jwt::b64(J::from_value(&jwt::header_json(actor(*k))).compact().as_bytes());
            let data = format!("{h}.{}", seg[1]);
            format!("{data}.{}", jwt::b64(&actor(*k).raw.sign(data.as_bytes())))
        }
        Change::Signature(e) => {
            let sig = jwt::unb64(seg[2]).ok_or("signature")?;
            format!("{}.{}.{}", seg[0], seg[1], jwt::b64(&edit_sig(&a.raw, &sig, e)))
        }
        Change::FieldAndSignature(f, e) => {
            let m = alter(text, spec, &Change::Field(f.clone()))?;
            alter(&m, spec, &Change::Signature(e.clone()))?
        }
        Change::Fields(f, g) => {
            let m = alter(text, spec, &Change::Field(f.clone()))?;
            alter(&m, spec, &Change::Field(g.clone()))?
        }
        Change::SignedOver(k) => {
            let data = format!("{}.{}", seg[0], seg[1]);
            let over: Vec<u8> = match k {
                0 => seg[1].as_bytes().to_vec(),
                1 => seg[0].as_bytes().to_vec(),
                2 => format!("{}{}", seg[0], seg[1]).into_bytes(),
                3 => format!("{data}.").into_bytes(),
                4 => jwt::unb64(seg[1]).ok_or("payload")?,
                5 => {
                    use sha2::Digest;
                    sha2::Sha256::digest(data.as_bytes()).to_vec()
                }
                6 => vec![],
                _ => data.to_lowercase().into_bytes(),
            };
            format!("{data}.{}", jwt::b64(&a.raw.sign(&over)))
        }
        Change::Unsigned(alg, sig) => {
            let h = jwt::b64(J::from_value(&json!({"alg": alg, "typ": "JWT"})).compact().as_bytes());
            format!("{h}.{}.{}", seg[1], jwt::b64(sig))
        }
        Change::OtherSignature(other) => {
            let mut other = (**other).clone();
            other.iss = spec.iss;
            let o = make(&other, &[], false)?;
            format!("{}.{}.{}", seg[0], seg[1], o.split('.').nth(2).unwrap())
        }
        // someone else signs the whole token, naming the original issuer or themselves
        Change::Reissue(k) => {
            let mut s = spec.clone();
            s.iss = *k;
            let mut p = s.payload(None);
            p["iss"] = json!(a.did);
            jwt::assemble(
                actor(*k),
                &J::from_value(&jwt::header_json(actor(*k))).compact(),
                &J::from_value(&p).compact(),
            )
        }
    })
}

/// A token by this issuer whose signature begins with a zero byte
fn zero_led(iss: usize) -> String {
    static FOUND: [std::sync::OnceLock<String>; N_ACTORS] = [const { std::sync::OnceLock::new() }; N_ACTORS];
    let a = actor(iss);
    FOUND[iss % N_ACTORS]
        .get_or_init(|| {
            let parts = |n: u32| {
                let payload = json!({"ucv": "0.10.0-canary", "iss": a.did, "aud": "did:web:x", "exp": null, "cap": {"set:a": {"lvl/1": [{}]}}, "fct": {"n": n}});
                let h = J::from_value(&jwt::header_json(a)).compact();
                (h, J::from_value(&payload).compact())
            };
            let n = a.raw.zero_led(|n| {
                let (h, p) = parts(n);
                format!("{}.{}", jwt::b64(h.as_bytes()), jwt::b64(p.as_bytes())).into_bytes()
            });
            let (h, p) = parts(n);
            jwt::assemble(a, &h, &p)
        })
        .clone()
}

fn check_text(c: &TextCase, o: &mut Obs) -> Verdict {
    let text = match &c.change {
        Change::Signature(SigEdit::Strip) => zero_led(c.spec.iss),
        _ => make(&c.spec, &c.layout, c.builder)?,
    };
    let m = alter(&text, &c.spec, &c.change)?;
    let expect = reference(&m);
    let kind = format!("{:?}", c.change);
    let kind = kind.split(['(', ' ']).next().unwrap_or_default().to_string();
    o.label(format!("change {kind}"));
    o.label(kind_label(c.spec.iss));
    if m != text {
        o.hit();
    }
    let read = super::read(&m)?;
    // the same by way of a chain
    let (cites, t) = match &read {
        Ok(u) => (
            u.proofs().as_ref().is_some_and(|p| !p.is_empty()) || u.capabilities().iter().any(|k| selects_proofs(&k.resource)),
            instant_within(*u.not_before(), *u.expires_at()),
        ),
        Err(_) => (false, Some(0)),
    };
    if let (false, Some(t)) = (cites, t) {
        let mut store = TestStore::default();
        let got = block(ProofChain::try_from_token_string(&m, Some(t), &mut parser(), &store));
        ensure!(got.is_ok() == expect, "as a chain: {:?}, signed by its issuer: {expect}: {m} (was {text})", got.map(|_| ()));
        let cid = store.put(&m, jwt::hash_code(c.warm.len()));
        let got = block(ProofChain::from_cid(&cid, Some(t), &mut parser(), &store));
        ensure!(got.is_ok() == expect, "as a stored chain: {:?}, signed by its issuer: {expect}: {m} (was {text})", got.map(|_| ()));
        o.label("as a chain");
    }
    match read {
        Err(e) => {
            o.label("refused by parsing");
            // a text that the issuer did sign must be read
            ensure!(!expect, "a token signed by its issuer is refused: {e:?}");
        }
        Ok(u) => {
            let genuine = if c.first { Ucan::try_from(text.as_str()).ok() } else { None };
            let got = accepts(&u, &c.warm, genuine.as_ref());
            o.label(if got { "accepted" } else { "refused by validation" });
            if got && !expect {
                return Err(format!("accepted, but not signed by its issuer: {m} (was {text})"));
            }
            ensure!(got == expect, "refused, but signed by its issuer: {m}");
            if m == text {
                o.hit();
            }
            // what is accepted says what was signed
            if got {
                let (h, p, s) = jwt::open(&m)?;
                let (h, p) = (h.to_value(), p.to_value());
                ensure!(Some(u.algorithm()) == h["alg"].as_str(), "algorithm differs from the signed text");
                ensure!(Some(u.issuer()) == p["iss"].as_str(), "issuer differs from the signed text");
                ensure!(Some(u.audience()) == p["aud"].as_str(), "audience differs from the signed text");
                ensure!(*u.expires_at() == p["exp"].as_u64(), "expiry differs from the signed text");
                ensure!(*u.not_before() == p["nbf"].as_u64(), "not-before differs from the signed text");
                ensure!(json!(u.capabilities()) == p["cap"], "capabilities differ from the signed text");
                ensure!(json!(u.facts()) == p["fct"], "facts differ from the signed text");
                ensure!(json!(u.proofs()) == p["prf"], "proofs differ from the signed text");
                ensure!(u.signature() == s, "signature differs from the text");
                let data = &m[..m.rfind('.').unwrap()];
                ensure!(u.signed_data() == data.as_bytes(), "signed data differs from the text");
            }
        }
    }
    Ok(())
}

fn text_cases() -> BoxedStrategy<TextCase> {
    (
        timed_spec(any_actor()),
        any::<bool>(),
        prop_oneof![Just(vec![]), prop::collection::vec(any::<u8>(), 1..20)],
        prop::collection::vec(any_actor(), 0..3),
        change(),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(spec, builder, layout, warm, change, first)| TextCase { spec, builder, layout, warm, change, first })
        .boxed()
}

// --- the JSON form, and values put together from parts -----------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ValueChange {
    None,
    Field(FieldEdit),
    Signature(SigEdit),
    SignedData(u16, u8),
    /// Take header / payload / signed data / signature from another token
    Mix(Box<Spec>, u8),
    Resign(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ValueCase {
    spec: Spec,
    /// 0: serde_json, 1: DAG-JSON bytes, 2: Ucan::new
    via: u8,
    layout: Vec<u8>,
    warm: Vec<usize>,
    changes: Vec<ValueChange>,
    #[serde(default)]
    first: bool,
}

fn value_cases() -> BoxedStrategy<ValueCase> {
    let change = prop_oneof![
        1 => Just(ValueChange::None),
        6 => field_edit().prop_map(ValueChange::Field),
        2 => sig_edit().prop_map(ValueChange::Signature),
        2 => (any::<u16>(), 1u8..255).prop_map(|(p, x)| ValueChange::SignedData(p, x)),
        3 => (timed_spec(any_actor()), 1u8..15).prop_map(|(s, m)| ValueChange::Mix(Box::new(s), m)),
        1 => any_actor().prop_map(ValueChange::Resign),
    ];
    (
        timed_spec(any_actor()),
        0u8..3,
        prop_oneof![Just(vec![]), prop::collection::vec(any::<u8>(), 1..20)],
        prop::collection::vec(any_actor(), 0..2),
        prop::collection::vec(change, 1..3),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(spec, via, layout, warm, changes, first)| ValueCase { spec, via, layout, warm, changes, first })
        .boxed()
}

fn check_value(c: &ValueCase, o: &mut Obs) -> Verdict {
    use ucan::serde::DagJson;
    let text = make(&c.spec, &c.layout, false)?;
    let u = Ucan::try_from(text.as_str()).map_err(|e| format!("{e:?}"))?;
    let original = serde_json::to_value(&u).map_err(|e| e.to_string())?;
    let mut v = original.clone();
    let mut others = vec![];
    for ch in &c.changes {
        match ch {
            ValueChange::None => {}
            ValueChange::Field(e) => {
                let mut h = v["header"].clone();
                let mut p = v["payload"].clone();
                edit_json(&mut h, &mut p, e);
                v["header"] = h;
                v["payload"] = p;
            }
            ValueChange::Signature(e) => {
                v["signature"] = json!(edit_sig(&actor(c.spec.iss).raw, u.signature(), other_numbers(c.spec.iss, e)));
            }
            ValueChange::SignedData(p, x) => {
                let mut d = u.signed_data().to_vec();
                let i = *p as usize % d.len();
                d[i] ^= x;
                v["signed_data"] = json!(d);
            }
            ValueChange::Mix(s, m) => {
                let t = make(s, &[], false)?;
                let other = Ucan::try_from(t.as_str()).map_err(|e| format!("{e:?}"))?;
                let w = serde_json::to_value(&other).map_err(|e| e.to_string())?;
                for (i, k) in ["header", "payload", "signed_data", "signature"].iter().enumerate() {
                    if m & (1 << i) != 0 {
                        v[*k] = w[*k].clone();
                    }
                }
                others.push(other);
            }
            ValueChange::Resign(k) => {
                v["signature"] = json!(actor(*k).raw.sign(u.signed_data()));
            }
        }
    }
    let got: Option<Ucan> = match c.via {
        0 => {
            // through text, as it would travel
            let t = serde_json::to_string(&v).map_err(|e| e.to_string())?;
            serde_json::from_str(&t).ok()
        }
        1 => Ucan::from_dag_json(serde_json::to_string(&v).unwrap().as_bytes()).ok(),
        _ => {
            let h: Option<UcanHeader> = serde_json::from_value(v["header"].clone()).ok();
            let p: Option<UcanPayload> = serde_json::from_value(v["payload"].clone()).ok();
            let d: Vec<u8> = serde_json::from_value(v["signed_data"].clone()).unwrap();
            let s: Vec<u8> = serde_json::from_value(v["signature"].clone()).unwrap();
            match (h, p) {
                (Some(h), Some(p)) => Some(Ucan::new(h, p, d, s)),
                _ => None,
            }
        }
    };
    o.label(["via JSON", "via DAG-JSON", "via new"][c.via as usize % 3]);
    o.label(kind_label(c.spec.iss));
    let Some(got) = got else {
        o.label("refused by reading");
        ensure!(v != original, "an unaltered token cannot be read from its JSON form");
        o.hit();
        return Ok(());
    };
    let accepted = accepts(&got, &c.warm, c.first.then_some(&u));
    let genuine = got == u || others.iter().any(|x| *x == got);
    o.label(if accepted { "accepted" } else { "refused by validation" });
    o.hit();
    ensure!(accepted || got != u, "the unaltered token is refused");
    if accepted && !genuine {
        return Err(format!(
            "a token value altered from {original} to {v} is accepted (issuer {})",
            got.issuer()
        ));
    }
    Ok(())
}

// --- the binary form ----------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BinChange {
    None,
    V(String),
    Iss(usize),
    Aud(String),
    Cap(String, String, Value),
    DropCaps,
    Exp(Option<u64>),
    Nbf(Option<u64>),
    Nnc(Option<String>),
    Fct(Option<Vec<(String, Value)>>),
    Prf(Option<Vec<String>>),
    Sig(SigEdit),
    SigAlg(u8),
    SigTrailing(Vec<u8>),
    SigFrom(usize),
    IssRaw(Vec<u8>),
    /// The generic ("did:" method) binary form of the same DID text
    IssGeneric,
    AudGeneric,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BinCase {
    spec: Spec,
    nonce: Option<String>,
    cbor: bool,
    changes: Vec<BinChange>,
    #[serde(default)]
    first: bool,
}

fn bin_cases() -> BoxedStrategy<BinCase> {
    let change = prop_oneof![
        2 => Just(BinChange::None),
        1 => prop_oneof![Just("0.9.0".to_string()), Just("0.10.0".to_string()), text()].prop_map(BinChange::V),
        2 => any_actor().prop_map(BinChange::Iss),
        2 => prop_oneof![any_actor().prop_map(|a| actor(a).did.clone()), Just("did:web:x".to_string())].prop_map(BinChange::Aud),
        2 => (resource_text(), ability_text(), object(false)).prop_map(|(r, a, c)| BinChange::Cap(r, a, c)),
        1 => Just(BinChange::DropCaps),
        2 => prop::option::of(bound()).prop_map(BinChange::Exp),
        2 => prop::option::of(bound()).prop_map(BinChange::Nbf),
        1 => prop::option::of(text()).prop_map(BinChange::Nnc),
        1 => prop::option::of(prop::collection::vec((key(), json(false)), 0..3)).prop_map(BinChange::Fct),
        2 => prop::option::of(prop::collection::vec(cid_like(), 0..3)).prop_map(BinChange::Prf),
        2 => sig_edit().prop_map(BinChange::Sig),
        1 => any::<u8>().prop_map(BinChange::SigAlg),
        1 => prop::collection::vec(any::<u8>(), 1..4).prop_map(BinChange::SigTrailing),
        1 => any_actor().prop_map(BinChange::SigFrom),
        1 => prop::collection::vec(any::<u8>(), 0..40).prop_map(BinChange::IssRaw),
        1 => Just(BinChange::IssGeneric),
        1 => Just(BinChange::AudGeneric),
    ];
    (
        spec_ipld(any_actor()).prop_map(tidy),
        prop::option::of(text()),
        any::<bool>(),
        prop::collection::vec(change, 1..3),
        prop::bool::weighted(0.3),
    )
        .prop_map(|(spec, nonce, cbor, changes, first)| BinCase { spec, nonce, cbor, changes, first })
        .boxed()
}

fn raw_principle(b: &[u8]) -> Option<Principle> {
    serde_json::from_value(json!(b)).ok()
}

pub fn check_bin(c: &BinCase, o: &mut Obs) -> Verdict {
    let text = jwt::token(actor(c.spec.iss), &c.spec.payload(c.nonce.as_deref()));
    let u = Ucan::try_from(text.as_str()).map_err(|e| format!("{e:?}"))?;
    let original = UcanIpld::try_from(&u).map_err(|e| format!("{e:?}"))?;
    let mut x = UcanIpld::try_from(&u).map_err(|e| format!("{e:?}"))?;
    for ch in &c.changes {
        match ch {
            BinChange::None => {}
            BinChange::V(v) => x.v = v.clone(),
            BinChange::Iss(a) => x.iss = actor(*a).did.parse().map_err(|e| format!("{e:?}"))?,
            BinChange::Aud(a) => x.aud = a.parse().map_err(|e| format!("{e:?}"))?,
            BinChange::Cap(r, a, cv) => {
                let mut caps: Vec<ucan::capability::Capability> = x.cap.iter().collect();
                caps.push(ucan::capability::Capability::new(r.clone(), a.clone(), cv.clone()));
                x.cap = caps.try_into().map_err(|e| format!("{e:?}"))?;
            }
            BinChange::DropCaps => {
                x.cap = vec![].try_into().map_err(|e| format!("{e:?}"))?;
            }
            BinChange::Exp(e) => x.exp = *e,
            BinChange::Nbf(e) => x.nbf = *e,
            BinChange::Nnc(n) => x.nnc = n.clone(),
            BinChange::Fct(f) => x.fct = f.as_ref().map(|f| f.iter().cloned().collect()),
            BinChange::Prf(p) => {
                x.prf = p.as_ref().map(|p| p.iter().map(|c| cid::Cid::try_from(c.as_str()).unwrap()).collect())
            }
            BinChange::Sig(e) => {
                let s = edit_sig(&actor(c.spec.iss).raw, u.signature(), other_numbers(c.spec.iss, e));
                let alg = std::str::FromStr::from_str(u.algorithm()).map_err(|_| "alg")?;
                x.s = Signature::try_from((alg, s)).map_err(|e| format!("{e:?}"))?;
            }
            BinChange::SigAlg(n) => {
                let codes = [0xd0edu64, 0xd01200, 0xd01201, 0xd01202, 0xd01205, 0xd000, 0xd0e7, 0xd0ea, 0xd191, 0x12];
                let mut b = jwt::uvarint(codes[*n as usize % codes.len()]);
                b.extend(jwt::uvarint(u.signature().len() as u64));
                b.extend(u.signature());
                x.s = Signature(b);
            }
            BinChange::SigTrailing(t) => x.s.0.extend(t),
            BinChange::SigFrom(k) => {
                let alg = std::str::FromStr::from_str(u.algorithm()).map_err(|_| "alg")?;
                x.s = Signature::try_from((alg, actor(*k).raw.sign(u.signed_data()))).map_err(|e| format!("{e:?}"))?;
            }
            BinChange::IssRaw(b) => {
                if let Some(p) = raw_principle(b) {
                    x.iss = p;
                }
            }
            BinChange::IssGeneric => {
                let b = [&[0x9d, 0x1a], &u.issuer().as_bytes()[4..]].concat();
                if let Some(p) = raw_principle(&b) {
                    x.iss = p;
                }
            }
            BinChange::AudGeneric => {
                let b = [&[0x9d, 0x1a], &u.audience().as_bytes()[4..]].concat();
                if let Some(p) = raw_principle(&b) {
                    x.aud = p;
                }
            }
        }
    }
    let changed = x != original;
    o.label(kind_label(c.spec.iss));
    o.label(if changed { "altered" } else { "unaltered" });
    o.hit();
    if c.cbor {
        let bytes = serde_ipld_dagcbor::to_vec(&x).map_err(|e| format!("cannot encode: {e:?}"))?;
        x = match serde_ipld_dagcbor::from_slice(&bytes) {
            Ok(x) => x,
            Err(e) => {
                ensure!(changed, "cannot decode the unaltered binary form: {e:?}");
                return Ok(());
            }
        };
    }
    match Ucan::try_from(&x) {
        Err(e) => {
            o.label("refused by converting");
            ensure!(changed, "cannot convert the unaltered binary form: {e:?}");
        }
        Ok(v) => {
            let ok = accepts(&v, &[], c.first.then_some(&u));
            o.label(if ok { "accepted" } else { "refused by validation" });
            if changed {
                ensure!(!ok, "an altered binary form ({:?}) is accepted", c.changes);
            } else {
                ensure!(ok, "the unaltered binary form is refused");
                ensure!(v == u, "the unaltered binary form gives a different token");
            }
        }
    }
    Ok(())
}

pub fn bin_part(quick: u32, thorough: u32) -> Box<dyn AnyPart> {
    part(
        "altered-binary",
        "a signed token in IPLD form (half of the time through DAG-CBOR bytes) with 1-2 fields altered (each field, signature bytes, algorithm, \
         trailing bytes, principals rewritten); accepted exactly when unaltered. Non-trivial: all.",
        quick,
        thorough,
        bin_cases,
        check_bin,
    )
}

// --- tokens naming issuers that are not plain keys -----------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IssCase {
    signer: usize,
    named: usize,
    kind: u8,
    extra: String,
}

fn iss_cases() -> BoxedStrategy<IssCase> {
    (
        even_actor(),
        prop_oneof![Just(None), even_actor().prop_map(Some)],
        0u8..13,
        prop_oneof!["[1-9A-HJ-NP-Za-km-z#?.:/ ]{1,4}", "[#?.:/; \\t\\n=,@*]{1,2}", Just("\u{a0}".to_string())],
    )
        .prop_map(|(signer, named, kind, extra)| IssCase { signer, named: named.unwrap_or(signer), kind, extra })
        .boxed()
}

fn check_iss(c: &IssCase, o: &mut Obs) -> Verdict {
    let a = actor(c.signer);
    let b = actor(c.named);
    let tail = &b.did["did:key:z".len()..];
    let iss = match c.kind {
        0 => format!("{}{}", b.did, c.extra),
        1 => format!("{}#{}", b.did, tail),
        2 => format!("did:key:{tail}"),
        3 => b.did.to_uppercase(),
        4 => format!(" {}", b.did),
        5 => format!("did:web:{tail}"),
        6 => b.did["did:key:".len()..].to_string(),
        7 => String::new(),
        8 => format!("did:key:z1{tail}"),
        9 => format!("DID:key:z{tail}"),
        10 => format!("{}\u{0}", b.did),
        11 => format!("{}{}", c.extra, b.did),
        // the right magic bytes in front of the wrong key bytes
        _ => {
            let mut bytes = b.raw.magic().to_vec();
            bytes.extend(a.raw.public_bytes());
            format!("did:key:z{}", bs58::encode(bytes).into_string())
        }
    };
    if iss == a.did {
        return Ok(());
    }
    o.hit();
    o.label(format!("kind {}", c.kind));
    let payload = json!({"ucv": "0.10.0-canary", "iss": iss, "aud": b.did, "exp": null, "cap": {}});
    let t = jwt::token(a, &payload);
    if let Ok(u) = Ucan::try_from(t.as_str()) {
        for warm in [vec![], vec![c.signer, c.named]] {
            ensure!(!accepts(&u, &warm, None), "a token naming issuer {iss:?} is accepted, signed by {}", a.did);
        }
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C01",
        vec![
            part(
                "altered-text",
                "a signed token text (built by the library, or written independently with random JSON layout) and one alteration of it: characters, \
                 segments, fields, layout, signature bytes, what was signed, who signed; accepted exactly when the independent reference (three \
                 segments, signature by the named issuer over the text) says so. Non-trivial: altered text, or an unaltered one that is accepted.",
                40_000,
                1_500_000,
                text_cases,
                check_text,
            ),
            part(
                "altered-value",
                "a token value altered in its JSON form (text, DAG-JSON) or put together from parts: fields, signature, signed data, parts of another \
                 token; accepted only if it is one of the original tokens. Non-trivial: all that are read or refused after alteration.",
                30_000,
                800_000,
                value_cases,
                check_value,
            ),
            bin_part(20_000, 500_000),
            part(
                "odd-issuer",
                "a token signed by one actor naming an issuer text that is close to an actor's DID but not it (suffixes, case, other method, wrong magic \
                 bytes); never accepted. Non-trivial: the text is not the signer's DID.",
                4_000,
                100_000,
                iss_cases,
                check_iss,
            ),
        ],
        vec![],
        vec![
            "the signature schemes themselves (ed25519-zebra, p256, rsa crates) are unforgeable; ECDSA's (r, n-s) twin of a signature is not generated",
        ],
    )
}
