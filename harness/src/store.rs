//! A store that keeps token text under whatever content identifier the case says
use anyhow::{anyhow, Result};
use async_trait::async_trait;
use cid::multihash::{Code, MultihashDigest};
use cid::Cid;
use libipld_core::codec::{Decode, Encode};
use libipld_core::raw::RawCodec;
use std::collections::{HashMap, HashSet};
use std::io::Cursor;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use ucan::store::{UcanStore, UcanStoreConditionalSend};

#[derive(Clone, Default, Debug)]
pub struct TestStore {
    pub blocks: HashMap<Cid, Vec<u8>>,
    /// Reading these fails
    pub broken: HashSet<Cid>,
    /// How many times it was read
    pub reads: Arc<AtomicU64>,
}

impl TestStore {
    pub fn put(&mut self, text: &str, code: Code) -> Cid {
        let cid = Cid::new_v1(0x55, code.digest(text.as_bytes()));
        self.blocks.insert(cid, text.as_bytes().to_vec());
        cid
    }

    pub fn get<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        self.reads.fetch_add(1, Ordering::Relaxed);
        if self.broken.contains(cid) {
            return Err(anyhow!("storage failure"));
        }
        Ok(match self.blocks.get(cid) {
            Some(b) => Some(T::decode(RawCodec, &mut Cursor::new(b))?),
            None => None,
        })
    }
}

#[async_trait]
impl UcanStore<RawCodec> for TestStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        self.get(cid)
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(
        &mut self,
        token: T,
    ) -> Result<Cid> {
        let mut block = vec![];
        token.encode(RawCodec, &mut block)?;
        let cid = Cid::new_v1(0x55, Code::Blake3_256.digest(&block));
        self.blocks.insert(cid, block);
        Ok(cid)
    }
}
