//! A simulated world in which storage and keys take their time: futures wait for ticks of a
//! simulated time, and a schedule says which of the woken jobs goes on next
use crate::clock;
use crate::keys::*;
use crate::store::TestStore;
use anyhow::Result;
use async_trait::async_trait;
use cid::Cid;
use futures::future::LocalBoxFuture;
use libipld_core::codec::{Decode, Encode};
use libipld_core::raw::RawCodec;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use ucan::crypto::did::{DidParser, KeyConstructorSlice};
use ucan::crypto::KeyMaterial;
use ucan::store::{UcanStore, UcanStoreConditionalSend};
use ucan_key_support::{ed25519::bytes_to_ed25519_key, p256::bytes_to_p256_key, rsa::bytes_to_rsa_key};

#[derive(Default)]
struct World {
    tick: u64,
    /// How long the next answers take
    delays: Vec<u8>,
    next: usize,
    waiting: Vec<(u64, Waker)>,
    /// The machine clock: at tick 0, and its speed
    clock: Option<(u64, u64)>,
}

thread_local! {
    static WORLD: RefCell<World> = RefCell::default();
}

pub fn begin(delays: &[u8], clock: Option<(u64, u64)>) {
    WORLD.with(|w| {
        *w.borrow_mut() = World { delays: delays.to_vec(), clock, ..World::default() };
    });
    set_clock();
}

fn set_clock() {
    WORLD.with(|w| {
        let w = w.borrow();
        if let Some((start, speed)) = w.clock {
            clock::set(start + w.tick * speed);
        }
    });
}

pub fn clock_now() -> u64 {
    WORLD.with(|w| {
        let w = w.borrow();
        let (start, speed) = w.clock.unwrap_or_default();
        start + w.tick * speed
    })
}

/// Ready as many ticks from now as the world's next delay says
pub fn wait() -> Wait {
    WORLD.with(|w| {
        let mut w = w.borrow_mut();
        let d = if w.delays.is_empty() { 0 } else { w.delays[w.next % w.delays.len()] };
        w.next += 1;
        Wait(w.tick + d as u64)
    })
}

pub struct Wait(u64);

impl Future for Wait {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        WORLD.with(|w| {
            let mut w = w.borrow_mut();
            if w.tick >= self.0 {
                return Poll::Ready(());
            }
            w.waiting.push((self.0, cx.waker().clone()));
            Poll::Pending
        })
    }
}

struct Flag(AtomicBool);

impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub struct Job<'a, T> {
    pub future: LocalBoxFuture<'a, T>,
    /// Dropped after so many polls
    pub abandon: Option<u8>,
    /// Does not start before this tick
    pub start: u8,
}

pub enum Outcome<T> {
    Done(T),
    Abandoned,
    /// Nothing will ever wake it up
    Stuck,
}

/// Runs all jobs; also gives the ticks' clock readings between which each ran
pub fn run<T>(jobs: Vec<Job<'_, T>>, schedule: &[u8]) -> Vec<(Outcome<T>, u64, u64)> {
    struct Slot<'a, T> {
        job: Option<Job<'a, T>>,
        flag: Arc<Flag>,
        polls: u32,
        result: Option<(Outcome<T>, u64, u64)>,
        began: Option<u64>,
    }
    let mut slots: Vec<Slot<T>> = jobs
        .into_iter()
        .map(|job| Slot { job: Some(job), flag: Arc::new(Flag(AtomicBool::new(true))), polls: 0, result: None, began: None })
        .collect();
    let mut step = 0;
    let mut idled = false;
    loop {
        let tick = WORLD.with(|w| w.borrow().tick);
        let ready: Vec<usize> = (0..slots.len())
            .filter(|i| {
                let s = &slots[*i];
                s.job.as_ref().is_some_and(|j| j.start as u64 <= tick) && s.flag.0.load(Ordering::SeqCst)
            })
            .collect();
        let b = if schedule.is_empty() { 0 } else { schedule[step % schedule.len()] };
        step += 1;
        // time passes when nobody can go on, and sometimes otherwise
        if ready.is_empty() || (b >= 200 && !idled) {
            idled = true;
            let pending = slots.iter().any(|s| s.job.is_some());
            if !pending {
                break;
            }
            let due = WORLD.with(|w| {
                let mut w = w.borrow_mut();
                let later = slots.iter().filter_map(|s| s.job.as_ref()).map(|j| j.start as u64).filter(|s| *s > tick);
                let next = w.waiting.iter().map(|(t, _)| *t).chain(later).min();
                if next.is_none() && ready.is_empty() {
                    return None;
                }
                w.tick = if ready.is_empty() { next.unwrap().max(tick + 1) } else { tick + 1 };
                let now = w.tick;
                let (due, rest): (Vec<_>, Vec<_>) = std::mem::take(&mut w.waiting).into_iter().partition(|(t, _)| *t <= now);
                w.waiting = rest;
                Some(due)
            });
            set_clock();
            match due {
                Some(due) => due.into_iter().for_each(|(_, k)| k.wake()),
                None => {
                    for s in slots.iter_mut().filter(|s| s.job.is_some()) {
                        s.job = None;
                        s.result = Some((Outcome::Stuck, 0, 0));
                    }
                    break;
                }
            }
            continue;
        }
        idled = false;
        let i = ready[b as usize % ready.len()];
        let s = &mut slots[i];
        s.flag.0.store(false, Ordering::SeqCst);
        let began = *s.began.get_or_insert(clock_now());
        let waker = Waker::from(s.flag.clone());
        let job = s.job.as_mut().unwrap();
        s.polls += 1;
        match job.future.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(r) => {
                s.job = None;
                s.result = Some((Outcome::Done(r), began, clock_now()));
            }
            Poll::Pending => {
                if job.abandon.is_some_and(|a| s.polls > a as u32) {
                    s.job = None;
                    s.result = Some((Outcome::Abandoned, began, clock_now()));
                }
            }
        }
    }
    slots.into_iter().map(|s| s.result.unwrap()).collect()
}

/// A store whose answers take time
#[derive(Clone)]
pub struct SlowStore(pub TestStore);

#[async_trait]
impl UcanStore<RawCodec> for SlowStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        wait().await;
        // (not held across an await: `T` need not be Send)
        self.0.get(cid)
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(&mut self, token: T) -> Result<Cid> {
        wait().await;
        self.0.write(token).await
    }
}

/// A key whose answers take time
pub struct SlowKey(pub Box<dyn KeyMaterial>);

#[async_trait]
impl KeyMaterial for SlowKey {
    fn get_jwt_algorithm_name(&self) -> String {
        self.0.get_jwt_algorithm_name()
    }
    async fn get_did(&self) -> Result<String> {
        wait().await;
        self.0.get_did().await
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        wait().await;
        let r = self.0.sign(payload).await;
        wait().await;
        r
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        wait().await;
        let r = self.0.verify(payload, signature).await;
        wait().await;
        r
    }
}

fn slow_ed(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(SlowKey(bytes_to_ed25519_key(b)?)))
}
fn slow_p256(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(SlowKey(bytes_to_p256_key(b)?)))
}
fn slow_rsa(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(SlowKey(bytes_to_rsa_key(b)?)))
}

const SLOW_KEYS: &KeyConstructorSlice = &[(ED_MAGIC, slow_ed), (P256_MAGIC, slow_p256), (RSA_MAGIC, slow_rsa)];

pub fn slow_parser() -> DidParser {
    DidParser::new(SLOW_KEYS)
}

thread_local! {
    static BUSY: RefCell<(Vec<u8>, usize)> = RefCell::default();
}

/// For real threads: the delays of this thread's storage and keys
pub fn busy(delays: &[u8], from: usize) {
    BUSY.with(|b| *b.borrow_mut() = (delays.to_vec(), from));
}

fn dawdle() {
    let d = BUSY.with(|b| {
        let mut b = b.borrow_mut();
        if b.0.is_empty() {
            return 0;
        }
        let d = b.0[b.1 % b.0.len()];
        b.1 += 1;
        d
    });
    match d {
        0..16 => {}
        16..40 => (0..(d as u32 - 15) * 40).for_each(|_| std::hint::spin_loop()),
        40..60 => std::thread::yield_now(),
        _ => std::thread::sleep(std::time::Duration::from_micros(20)),
    }
}

#[derive(Clone)]
pub struct BusyStore(pub TestStore);

#[async_trait]
impl UcanStore<RawCodec> for BusyStore {
    async fn read<T: Decode<RawCodec>>(&self, cid: &Cid) -> Result<Option<T>> {
        dawdle();
        self.0.get(cid)
    }
    async fn write<T: Encode<RawCodec> + UcanStoreConditionalSend + core::fmt::Debug>(&mut self, token: T) -> Result<Cid> {
        dawdle();
        self.0.write(token).await
    }
}

pub struct BusyKey(pub Box<dyn KeyMaterial>);

#[async_trait]
impl KeyMaterial for BusyKey {
    fn get_jwt_algorithm_name(&self) -> String {
        self.0.get_jwt_algorithm_name()
    }
    async fn get_did(&self) -> Result<String> {
        dawdle();
        self.0.get_did().await
    }
    async fn sign(&self, payload: &[u8]) -> Result<Vec<u8>> {
        dawdle();
        let r = self.0.sign(payload).await;
        dawdle();
        r
    }
    async fn verify(&self, payload: &[u8], signature: &[u8]) -> Result<()> {
        dawdle();
        let r = self.0.verify(payload, signature).await;
        dawdle();
        r
    }
}

fn busy_ed(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(BusyKey(bytes_to_ed25519_key(b)?)))
}
fn busy_p256(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(BusyKey(bytes_to_p256_key(b)?)))
}
fn busy_rsa(b: Vec<u8>) -> Result<Box<dyn KeyMaterial>> {
    Ok(Box::new(BusyKey(bytes_to_rsa_key(b)?)))
}

const BUSY_KEYS: &KeyConstructorSlice = &[(ED_MAGIC, busy_ed), (P256_MAGIC, busy_p256), (RSA_MAGIC, busy_rsa)];

pub fn busy_parser() -> DidParser {
    DidParser::new(BUSY_KEYS)
}
