//! Actors: key pairs of every supported type, with signing and verification done directly by the
//! crypto crates (independently of the library under test).
use p256::ecdsa::signature::{Signer, Verifier};
use rsa::pkcs1::EncodeRsaPublicKey;
use rsa::pkcs8::DecodePrivateKey;
use sha2::{Digest, Sha256};
use std::sync::OnceLock;
use ucan::crypto::did::{DidParser, KeyConstructorSlice};
use ucan::crypto::KeyMaterial;
use ucan_key_support::{
    ed25519::{bytes_to_ed25519_key, Ed25519KeyMaterial},
    p256::{bytes_to_p256_key, P256KeyMaterial},
    rsa::{bytes_to_rsa_key, RsaKeyMaterial},
};

pub const ED_MAGIC: &[u8] = &[0xed, 0x01];
pub const P256_MAGIC: &[u8] = &[0x80, 0x24];
pub const RSA_MAGIC: &[u8] = &[0x85, 0x24];

pub const ALL_KEYS: &KeyConstructorSlice = &[
    (ED_MAGIC, bytes_to_ed25519_key),
    (P256_MAGIC, bytes_to_p256_key),
    (RSA_MAGIC, bytes_to_rsa_key),
];

pub fn parser() -> DidParser {
    DidParser::new(ALL_KEYS)
}

#[derive(Clone)]
pub enum Raw {
    Ed(ed25519_zebra::SigningKey),
    P256(p256::ecdsa::SigningKey),
    Rsa(rsa::RsaPrivateKey),
}

impl Raw {
    pub fn alg(&self) -> &'static str {
        match self {
            Raw::Ed(_) => "EdDSA",
            Raw::P256(_) => "ES256",
            Raw::Rsa(_) => "RS256",
        }
    }
    pub fn magic(&self) -> &'static [u8] {
        match self {
            Raw::Ed(_) => ED_MAGIC,
            Raw::P256(_) => P256_MAGIC,
            Raw::Rsa(_) => RSA_MAGIC,
        }
    }
    pub fn public_bytes(&self) -> Vec<u8> {
        match self {
            Raw::Ed(k) => {
                let v = ed25519_zebra::VerificationKey::from(k);
                <[u8; 32]>::from(v).to_vec()
            }
            Raw::P256(k) => k.verifying_key().to_encoded_point(true).as_bytes().to_vec(),
            Raw::Rsa(k) => k.to_public_key().to_pkcs1_der().unwrap().as_bytes().to_vec(),
        }
    }
    pub fn did(&self) -> String {
        let mut b = self.magic().to_vec();
        b.extend(self.public_bytes());
        format!("did:key:z{}", bs58::encode(b).into_string())
    }
    pub fn sign(&self, data: &[u8]) -> Vec<u8> {
        match self {
            Raw::Ed(k) => <[u8; 64]>::from(k.sign(data)).to_vec(),
            Raw::P256(k) => {
                let s: p256::ecdsa::Signature = k.sign(data);
                s.to_bytes().to_vec()
            }
            Raw::Rsa(k) => k
                .sign(rsa::Pkcs1v15Sign::new::<Sha256>(), &Sha256::digest(data))
                .unwrap(),
        }
    }
    pub fn verify(&self, data: &[u8], sig: &[u8]) -> bool {
        match self {
            Raw::Ed(k) => match ed25519_zebra::Signature::try_from(sig) {
                Ok(s) => ed25519_zebra::VerificationKey::from(k).verify(&s, data).is_ok(),
                Err(_) => false,
            },
            Raw::P256(k) => match p256::ecdsa::Signature::try_from(sig) {
                Ok(s) => k.verifying_key().verify(data, &s).is_ok(),
                Err(_) => false,
            },
            Raw::Rsa(k) => k
                .to_public_key()
                .verify(rsa::Pkcs1v15Sign::new::<Sha256>(), &Sha256::digest(data), sig)
                .is_ok(),
        }
    }
    /// The key support crate's key material for this key
    pub fn material(&self, with_private: bool) -> Box<dyn KeyMaterial> {
        match self {
            Raw::Ed(k) => Box::new(Ed25519KeyMaterial(k.into(), with_private.then_some(*k))),
            Raw::P256(k) => Box::new(P256KeyMaterial(
                *k.verifying_key(),
                with_private.then(|| k.clone()),
            )),
            Raw::Rsa(k) => Box::new(RsaKeyMaterial(
                k.to_public_key(),
                with_private.then(|| k.clone()),
            )),
        }
    }
    /// Other bytes that stand for the same numbers: s + L, r and n - s, s + n
    pub fn twin(&self, sig: &[u8]) -> Vec<u8> {
        let add = |a: &[u8], b: &[u8]| -> Option<Vec<u8>> {
            // big-endian, of equal length
            let mut carry = 0u16;
            let mut sum: Vec<u8> = a
                .iter()
                .rev()
                .zip(b.iter().rev())
                .map(|(x, y)| {
                    let t = *x as u16 + *y as u16 + carry;
                    carry = t >> 8;
                    t as u8
                })
                .collect();
            sum.reverse();
            (carry == 0 && a.len() == b.len()).then_some(sum)
        };
        match self {
            Raw::Ed(_) if sig.len() == 64 => {
                let mut l = [0u8; 32];
                l[0] = 0x10;
                l[16..].copy_from_slice(&[0x14, 0xde, 0xf9, 0xde, 0xa2, 0xf7, 0x9c, 0xd6, 0x58, 0x12, 0x63, 0x1a, 0x5c, 0xf5, 0xd3, 0xed]);
                let s: Vec<u8> = sig[32..].iter().rev().copied().collect();
                match add(&s, &l) {
                    Some(mut s) => {
                        s.reverse();
                        [&sig[..32], &s].concat()
                    }
                    None => sig.to_vec(),
                }
            }
            Raw::P256(_) => match p256::ecdsa::Signature::try_from(sig) {
                Ok(x) => {
                    let (r, s) = x.split_scalars();
                    p256::ecdsa::Signature::from_scalars(r, -s).map(|x| x.to_bytes().to_vec()).unwrap_or(sig.to_vec())
                }
                Err(_) => sig.to_vec(),
            },
            Raw::Rsa(k) => {
                use rsa::traits::PublicKeyParts;
                add(sig, &k.n().to_bytes_be()).unwrap_or(sig.to_vec())
            }
            _ => sig.to_vec(),
        }
    }
    /// The first of some data whose signature begins with a zero byte
    pub fn zero_led(&self, data: impl Fn(u32) -> Vec<u8>) -> u32 {
        (0..20_000).find(|i| self.sign(&data(*i))[0] == 0).unwrap_or(0)
    }
    pub fn ed(seed: [u8; 32]) -> Raw {
        Raw::Ed(ed25519_zebra::SigningKey::from(seed))
    }
    pub fn p256(mut seed: [u8; 32]) -> Raw {
        seed[0] &= 0x7f; // below the group order
        seed[31] |= 1; // not zero
        Raw::P256(p256::ecdsa::SigningKey::from_bytes(&seed.into()).unwrap())
    }
}

pub struct Actor {
    pub raw: Raw,
    pub km: Box<dyn KeyMaterial>,
    pub did: String,
}

pub const N_ED: usize = 8;
pub const N_P256: usize = 3;
pub const N_RSA: usize = 3;
pub const N_ACTORS: usize = N_ED + N_P256 + N_RSA;

/// A fixed pool of actors: the first N_ED have Ed25519 keys, then P-256, then RSA
pub fn actors() -> &'static Vec<Actor> {
    static POOL: OnceLock<Vec<Actor>> = OnceLock::new();
    POOL.get_or_init(|| {
        let mut raws = Vec::new();
        for i in 0..N_ED {
            raws.push(Raw::ed([i as u8 + 1; 32]));
        }
        for i in 0..N_P256 {
            raws.push(Raw::p256([i as u8 + 101; 32]));
        }
        for der in [
            include_bytes!("../keys/rsa0.pk8").as_slice(),
            include_bytes!("../keys/rsa1.pk8").as_slice(),
            include_bytes!("../keys/rsa2.pk8").as_slice(),
        ] {
            raws.push(Raw::Rsa(rsa::RsaPrivateKey::from_pkcs8_der(der).unwrap()));
        }
        raws.into_iter()
            .map(|raw| Actor {
                km: raw.material(true),
                did: raw.did(),
                raw,
            })
            .collect()
    })
}

pub fn actor(i: usize) -> &'static Actor {
    &actors()[i % N_ACTORS]
}

/// An Ed25519 actor
pub fn ed(i: usize) -> &'static Actor {
    &actors()[i % N_ED]
}

pub fn kind_label(i: usize) -> &'static str {
    match i % N_ACTORS {
        i if i < N_ED => "ed25519",
        i if i < N_ED + N_P256 => "p256",
        _ => "rsa",
    }
}
