//! C25: key types that the library does not know can be plugged in
use super::*;
use crate::gens::*;
use crate::keys::*;
use crate::model::*;
use crate::{ensure, jwt, same};
use async_trait::async_trait;
use proptest::prelude::*;
use serde::Deserialize;
use serde_json::json;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::Arc;
use ucan::builder::UcanBuilder;
use ucan::capability::Capability;
use ucan::chain::ProofChain;
use ucan::crypto::did::{BytesToKey, DidParser};
use ucan::crypto::KeyMaterial;
use ucan::store::{MemoryStore, UcanJwtStore};
use ucan::Ucan;
use ucan_key_support::{ed25519::bytes_to_ed25519_key, p256::bytes_to_p256_key, rsa::bytes_to_rsa_key};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Kind {
    magic: (u8, u8),
    alg: String,
    /// How long its signatures are
    sig: u16,
    /// How long its public keys are; others are refused
    public: u16,
}

thread_local! {
    static KINDS: RefCell<Vec<Kind>> = const { RefCell::new(vec![]) };
}

/// A toy: whoever knows the public key can sign. What matters here is who is asked, and about what
#[derive(Clone)]
struct Toy {
    kind: usize,
    public: Vec<u8>,
}

impl Toy {
    fn is(&self) -> Kind {
        KINDS.with(|k| k.borrow()[self.kind].clone())
    }
    fn new(kind: usize, seed: u8) -> Toy {
        let n = KINDS.with(|k| k.borrow()[kind].public);
        let mut public = vec![0; n as usize];
        blake3::Hasher::new().update(&[kind as u8, seed]).finalize_xof().fill(&mut public);
        Toy { kind, public }
    }
    fn did(&self) -> String {
        let k = self.is();
        let mut b = vec![k.magic.0, k.magic.1];
        b.extend(&self.public);
        format!("did:key:z{}", bs58::encode(b).into_string())
    }
    fn signature(&self, payload: &[u8]) -> Vec<u8> {
        let mut s = vec![0; self.is().sig as usize];
        blake3::Hasher::new().update(&[self.kind as u8]).update(&self.public).update(payload).finalize_xof().fill(&mut s);
        s
    }
}

#[async_trait]
impl KeyMaterial for Toy {
    fn get_jwt_algorithm_name(&self) -> String {
        self.is().alg
    }
    async fn get_did(&self) -> anyhow::Result<String> {
        Ok(self.did())
    }
    async fn sign(&self, payload: &[u8]) -> anyhow::Result<Vec<u8>> {
        Ok(self.signature(payload))
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> anyhow::Result<()> {
        match signature == self.signature(payload) {
            true => Ok(()),
            false => Err(anyhow::anyhow!("not its signature")),
        }
    }
}

fn ctor<const K: usize>(bytes: Vec<u8>) -> anyhow::Result<Box<dyn KeyMaterial>> {
    let toy = Toy { kind: K, public: bytes };
    if toy.public.len() != toy.is().public as usize {
        return Err(anyhow::anyhow!("not such a key"));
    }
    Ok(Box::new(toy))
}

const CTORS: [BytesToKey; 4] = [ctor::<0>, ctor::<1>, ctor::<2>, ctor::<3>];

fn kind() -> BoxedStrategy<Kind> {
    let magic = prop_oneof![
        // other types' registered prefixes
        3 => prop::sample::select(vec![(0xe7u8, 0x01u8), (0xea, 0x01), (0xeb, 0x01), (0x81, 0x24), (0x82, 0x24), (0xd1, 0xd6)]),
        1 => prop::sample::select(vec![(0xedu8, 0x01u8), (0x80, 0x24), (0x85, 0x24)]),
        2 => (any::<u8>(), any::<u8>()),
        1 => prop::sample::select(vec![(0u8, 0u8), (0, 1), (0xed, 0), (0xed, 0x02), (0x01, 0xed)]),
    ];
    let alg = prop_oneof![
        3 => prop::sample::select(vec!["ES256K", "EdDSA", "ES256", "RS256", "none", "", "eddsa", "Bls12381G1", "HS256"]).prop_map(String::from),
        1 => text(),
    ];
    let sig = prop_oneof![2 => Just(64u16), 3 => prop::sample::select(vec![1u16, 32, 48, 63, 65, 96, 256, 512, 4096]), 1 => 4u16..2000, crate::dict::w_num(1) => crate::dict::size(8, 9000).prop_map(|n| n as u16)];
    let public = prop_oneof![3 => Just(33u16), 1 => Just(32), 2 => prop::sample::select(vec![48u16, 65, 96, 1, 270, 1300]), 1 => 1u16..300, crate::dict::w_num(1) => crate::dict::size(1, 2000).prop_map(|n| n as u16)];
    // (a signature of one byte is right one time in 256: leave those to longer ones)
    (magic, alg, sig.prop_map(|s| s.max(8)), public).prop_map(|(magic, alg, sig, public)| Kind { magic, alg, sig, public }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    kinds: Vec<Kind>,
    /// In which order they are registered; 4, 5, 6 are the built-in types
    registered: Vec<u8>,
    /// Owner first: kind (or built-in actor) and seed of each successive issuer
    issuers: Vec<(u8, u8)>,
    spec: Spec,
    hurt: Option<(u8, u16, u8)>,
    wrap: u8,
    /// A DID with nearly the prefix of some issuer: which issuer, which byte, what is put there
    #[serde(default)]
    stray: Vec<(u8, bool, u8)>,
}

fn cases() -> BoxedStrategy<Case> {
    (
        prop::collection::vec(kind(), 1..5),
        Just((0u8..7).collect::<Vec<_>>()).prop_shuffle(),
        prop_oneof![4 => Just(7usize), 1 => 0usize..7],
        sized((prop_oneof![4 => 0u8..4, 1 => 4u8..7], 0u8..3), 1..5, 20),
        spec_with(Just(0usize).boxed(), false, Just(vec![]).boxed()),
        prop::option::weighted(0.3, (any::<u8>(), any::<u16>(), any::<u8>())),
        0u8..3,
        prop::collection::vec((any::<u8>(), any::<bool>(), prop_oneof![any::<u8>(), 0u8..3]), 0..3),
    )
        .prop_map(|(kinds, mut registered, n, issuers, spec, hurt, wrap, stray)| {
            registered.truncate(n);
            Case { kinds, registered, issuers, spec, hurt, wrap, stray }
        })
        .boxed()
}

/// An issuer of the case
enum Who {
    Toy(Toy),
    Actor(usize),
}

impl Who {
    fn did(&self) -> String {
        match self {
            Who::Toy(t) => t.did(),
            Who::Actor(a) => actor(*a).did.clone(),
        }
    }
    fn alg(&self) -> String {
        match self {
            Who::Toy(t) => t.is().alg,
            Who::Actor(a) => actor(*a).raw.alg().into(),
        }
    }
    fn material(&self) -> Box<dyn KeyMaterial> {
        match self {
            Who::Toy(t) => Box::new(t.clone()),
            Who::Actor(a) => actor(*a).raw.material(true),
        }
    }
}

fn check(c: &Case, o: &mut Obs) -> Verdict {
    KINDS.with(|k| *k.borrow_mut() = c.kinds.clone());
    let nk = c.kinds.len();
    let builtin: [(&'static [u8], BytesToKey); 3] = [(ED_MAGIC, bytes_to_ed25519_key), (P256_MAGIC, bytes_to_p256_key), (RSA_MAGIC, bytes_to_rsa_key)];
    // prefixes are 'static in the library's interface: keep one copy of each
    fn magic(m: (u8, u8)) -> &'static [u8] {
        use std::sync::OnceLock;
        static ALL: OnceLock<Vec<[u8; 2]>> = OnceLock::new();
        &ALL.get_or_init(|| (0..=u16::MAX).map(|m| m.to_be_bytes()).collect())[u16::from_be_bytes([m.0, m.1]) as usize]
    }
    let mut pairs: Vec<(&'static [u8], BytesToKey)> = vec![];
    // which type answers to a prefix: the one registered last
    let mut answers: BTreeMap<Vec<u8>, usize> = BTreeMap::new();
    for r in &c.registered {
        let r = *r as usize;
        match r {
            0..=3 if r < nk => {
                pairs.push((magic(c.kinds[r].magic), CTORS[r]));
                answers.insert(magic(c.kinds[r].magic).to_vec(), r);
            }
            0..=3 => {}
            _ => {
                pairs.push(builtin[r - 4]);
                answers.insert(builtin[r - 4].0.to_vec(), r);
            }
        }
    }
    let parser = || DidParser::new(&pairs);
    let issuers: Vec<Who> = c
        .issuers
        .iter()
        .map(|(k, seed)| match *k as usize {
            k @ 0..=3 => Who::Toy(Toy::new(k % nk, *seed)),
            4 => Who::Actor(*seed as usize),
            5 => Who::Actor(N_ED + *seed as usize % N_P256),
            _ => Who::Actor(N_ED + N_P256 + *seed as usize % N_RSA),
        })
        .collect();
    // whether the type registered for its prefix is the issuer's own
    let known = |w: &Who| match w {
        Who::Toy(t) => answers.get(magic(t.is().magic)) == Some(&t.kind),
        Who::Actor(a) => answers.get(actor(*a).raw.magic()) == Some(&match &actor(*a).raw {
            Raw::Ed(_) => 4,
            Raw::P256(_) => 5,
            Raw::Rsa(_) => 6,
        }),
    };
    let t = 1_000u64;
    let mut store = MemoryStore::default();
    let mut previous: Option<Ucan> = None;
    let mut all_known = true;
    let owner = issuers[0].did();
    let last = issuers.len() - 1;
    for (k, w) in issuers.iter().enumerate() {
        let me: Box<dyn KeyMaterial> = w.material();
        // as it comes, or wrapped as the parser gives it out
        let wrapped: Arc<Box<dyn KeyMaterial>> = Arc::new(w.material());
        let aud = issuers.get(k + 1).map(|w| w.did()).unwrap_or_else(|| c.spec.aud.clone());
        let cap = Cap { own: Own::Plain, sel: Sel::Set(1), lvl: 1, cav: BTreeMap::new() };
        let cap = Capability::new(cap.resource_text(), cap.ability_text(), cap.caveat());
        macro_rules! build {
            ($key:expr) => {{
                let mut b = UcanBuilder::default().issued_by($key).for_audience(&aud).with_expiration(t + 10);
                if k == 0 {
                    b = b.claiming_capability(cap.clone());
                }
                if k == last {
                    for (key, v) in &c.spec.facts {
                        b = b.with_fact(key, v.clone());
                    }
                }
                if let Some(p) = &previous {
                    b = b.delegating_from(p, None);
                }
                block(b.build().unwrap().sign())
            }};
        }
        let u = if c.wrap == 1 { build!(&wrapped) } else { build!(&me) }.map_err(|e| format!("token {k} is not signed: {e:?}"))?;
        same!(u.issuer().to_string(), w.did(), "issuer of token {k}");
        same!(u.algorithm().to_string(), w.alg(), "algorithm of token {k}");
        if let Who::Toy(toy) = w {
            same!(u.signature().to_vec(), toy.signature(u.signed_data()), "signature of token {k}");
        }
        let text = u.encode().map_err(|e| format!("{e:?}"))?;
        let d = Ucan::try_from(text.as_str()).map_err(|e| format!("token {k} cannot be read again: {e:?}"))?;
        same!(d, u, "token {k} read again");
        same!(d.encode().map_err(|e| format!("{e:?}"))?, text, "its text");
        all_known &= known(w);
        // each token alone
        let ok = block(d.validate(Some(t), &mut parser())).is_ok();
        same!(ok, known(w), "whether token {k}, by {} ({}), is valid", w.did(), w.alg());
        // the key, by its DID
        match parser().parse(&w.did()) {
            Ok(key) => {
                if known(w) {
                    same!(block(key.get_did()).map_err(|e| format!("{e:?}"))?, w.did(), "DID of the key got for a DID");
                    same!(key.get_jwt_algorithm_name(), w.alg(), "its algorithm");
                    ensure!(block(key.verify(u.signed_data(), u.signature())).is_ok(), "it does not accept the signature of token {k}");
                }
            }
            Err(e) => ensure!(!known(w), "{} is not resolved: {e:?}", w.did()),
        }
        // whoever is asked, it is the type registered for the prefix of the DID, and nobody if there is none
        let bytes = bs58::decode(&w.did()["did:key:z".len()..]).into_vec().unwrap();
        let mut asked = vec![bytes.clone()];
        for (_, second, x) in c.stray.iter().filter(|s| s.0 as usize % issuers.len() == k) {
            let mut b = bytes.clone();
            b[*second as usize] = *x;
            asked.push(b);
        }
        let mut p = parser();
        for b in asked {
            let did = format!("did:key:z{}", bs58::encode(&b).into_string());
            if let Ok(key) = p.parse(&did) {
                match answers.get(&b[..2]) {
                    None => return Err(format!("{did} is resolved although no type is registered for its prefix")),
                    Some(r) if *r < 4 => {
                        same!(key.get_jwt_algorithm_name(), c.kinds[*r].alg, "algorithm of the key got for {did}");
                        same!(block(key.get_did()).map_err(|e| format!("{e:?}"))?, did, "DID of the key got for it");
                    }
                    Some(r) => same!(key.get_jwt_algorithm_name(), ["EdDSA", "ES256", "RS256"][*r - 4].to_string(), "algorithm of the key got for {did}"),
                }
            }
        }
        block(store.write_token(&text)).map_err(|e| format!("{e:?}"))?;
        previous = Some(d);
    }
    let top = previous.unwrap();
    let text = top.encode().unwrap();
    o.label_if(issuers.len() > 1, "a chain");
    o.label_if(all_known, "all types registered");
    o.label_if(answers.len() < pairs.len(), "two types under one prefix");
    let mut p = parser();
    let r = block(ProofChain::try_from_token_string(&text, Some(t), &mut p, &store));
    match (r, all_known) {
        (Ok(chain), true) => {
            if issuers.iter().any(|w| matches!(w, Who::Toy(_))) {
                o.hit();
            }
            let infos = chain.reduce_capabilities(&SetSem);
            same!(infos.len(), 1, "capabilities of the chain");
            same!(infos[0].originators.iter().cloned().collect::<Vec<_>>(), vec![owner], "originator");
        }
        (Err(_), false) => {}
        (Ok(_), false) => return Err("a chain with a token whose issuer cannot be checked is accepted".into()),
        (Err(e), true) => return Err(format!("the chain is refused: {e:?}")),
    }
    // altered: by the parser that has seen the original
    if let Some((what, at, x)) = c.hurt {
        let mut parts: Vec<String> = text.split('.').map(String::from).collect();
        let altered = match what % 4 {
            0 => {
                let mut s = jwt::unb64(&parts[2]).unwrap();
                let at = at as usize % s.len();
                s[at] ^= x.max(1);
                parts[2] = jwt::b64(&s);
                "a changed signature"
            }
            1 => {
                let mut s = jwt::unb64(&parts[2]).unwrap();
                s.truncate(at as usize % s.len());
                parts[2] = jwt::b64(&s);
                "a cut signature"
            }
            2 => {
                let mut s = jwt::unb64(&parts[2]).unwrap();
                s.push(x);
                parts[2] = jwt::b64(&s);
                "a longer signature"
            }
            _ => {
                let mut v: serde_json::Value = serde_json::from_slice(&jwt::unb64(&parts[1]).unwrap()).unwrap();
                v["exp"] = json!(t + 11 + at as u64);
                parts[1] = jwt::b64(v.to_string().as_bytes());
                "a changed payload"
            }
        };
        o.label(altered);
        if let Ok(u) = Ucan::try_from(parts.join(".")) {
            ensure!(block(u.validate(Some(t), &mut p)).is_err(), "{altered} is accepted");
            ensure!(block(u.validate(Some(t), &mut parser())).is_err(), "{altered} is accepted");
        }
    }
    Ok(())
}

pub fn property() -> Property {
    super::property(
        "C25",
        vec![part(
            "plugged-in",
            "1-4 key types that the library does not know (any two-byte prefix, also those of built-in types, any algorithm name, signatures of 8-4096 and keys of 1-1300 bytes), registered \
             with a parser in any order among the built-in ones or not at all; a chain of 1-4 tokens by keys of these and built-in types, every token signed, read again, validated alone and as \
             a chain, then altered; DIDs with nearly the same prefix; valid exactly when the type registered last for the prefix of each issuer is the issuer's own. Non-trivial: an accepted chain with such a type.",
            16_000,
            600_000,
            cases,
            check,
        )],
        vec![],
        vec!["the plugged-in types are toys whose signatures are hashes: what is decided is whether the right key is asked about the right bytes"],
    )
}
