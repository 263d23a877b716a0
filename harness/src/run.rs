//! The runner: executes the parts of a property over generated cases, shrinks failures, writes
//! replay files and the evidence.
use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

pub const SHARDS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
}

/// What a check tells about the case it has seen
#[derive(Default)]
pub struct Obs {
    labels: Vec<String>,
    nontrivial: bool,
}

impl Obs {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.labels.push(l.into());
        }
    }
    /// This case exercised what the part is about
    pub fn hit(&mut self) {
        self.nontrivial = true;
    }
}

pub type Verdict = Result<(), String>;

pub struct Part<C> {
    pub name: &'static str,
    /// How cases are made, and what makes one non-trivial
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: fn() -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Obs) -> Verdict,
}

pub struct Failure {
    pub part: String,
    pub case: Value,
    pub message: String,
}

#[derive(Default)]
pub struct PartReport {
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<Failure>,
    pub wall_s: f64,
}

pub trait AnyPart: Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn run(&self, id: &str, seed: u64, tier: Tier, scale: f64) -> PartReport;
    fn replay(&self, case: &Value) -> Verdict;
}

/// The smallest violation so far and its length, for when time runs out before shrinking ends
pub static SMALLEST: Mutex<Option<(usize, Failure)>> = Mutex::new(None);

static REPLAYING: AtomicBool = AtomicBool::new(false);

/// What depends on the scheduling of real threads is then tried many times
pub fn replaying() -> bool {
    REPLAYING.load(Ordering::Relaxed)
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let at = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panic at {at}: {msg}"));
        if std::env::var_os("UCANPBT_VERBOSE").is_some() {
            eprintln!("panic at {at}: {msg}");
        }
    }));
}

/// Runs f; a panic becomes an Err that names it
pub fn no_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

/// When each shard started on its case, in milliseconds of `uptime` plus one (0: idle)
pub static STARTED: [AtomicU64; SHARDS + 1] = [const { AtomicU64::new(0) }; SHARDS + 1];

thread_local! {
    static SLOT: Cell<Option<usize>> = const { Cell::new(None) };
}

pub fn uptime() -> u64 {
    static T: OnceLock<Instant> = OnceLock::new();
    T.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}

/// The shard, if any, that has been on one case for longer than this
pub fn stuck(limit_ms: u64) -> Option<usize> {
    let now = uptime();
    (0..=SHARDS).find(|i| {
        let s = STARTED[*i].load(Ordering::Relaxed);
        s != 0 && now.saturating_sub(s) > limit_ms
    })
}

fn run_check<C>(check: fn(&C, &mut Obs) -> Verdict, case: &C, obs: &mut Obs) -> Verdict {
    crate::clock::reset();
    let slot = SLOT.with(|s| s.get());
    if let Some(i) = slot {
        STARTED[i].store(uptime(), Ordering::Relaxed);
    }
    let answer = no_panic(|| check(case, obs));
    if let Some(i) = slot {
        STARTED[i].store(0, Ordering::Relaxed);
    }
    match answer {
        Ok(v) => v,
        Err(p) => Err(p),
    }
}

fn hash_of(s: &str) -> u64 {
    let mut h = DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

/// The case each shard is working on, in shared memory, so that the supervisor can tell which one
/// killed the process (a stack overflow or an abort cannot be caught).
pub struct Inflight {
    ptr: *mut u8,
    cap: usize,
}
unsafe impl Send for Inflight {}

const INFLIGHT_CAP: usize = 1 << 22;

impl Inflight {
    fn open(shard: usize) -> Option<Inflight> {
        let dir = std::env::var_os("UCANPBT_INFLIGHT")?;
        let path = Path::new(&dir).join(format!("{shard}"));
        let file = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .ok()?;
        file.set_len(INFLIGHT_CAP as u64).ok()?;
        use std::os::fd::AsRawFd;
        let ptr = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                INFLIGHT_CAP,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                file.as_raw_fd(),
                0,
            )
        };
        if ptr == libc::MAP_FAILED {
            return None;
        }
        Some(Inflight {
            ptr: ptr as *mut u8,
            cap: INFLIGHT_CAP,
        })
    }
    fn set(&mut self, part: &str, case: &str) {
        let text = format!("{part}\n{case}");
        let n = text.len().min(self.cap - 8);
        unsafe {
            std::ptr::copy_nonoverlapping(text.as_ptr(), self.ptr.add(8), n);
            std::ptr::write_volatile(self.ptr as *mut u64, n as u64);
        }
    }
    fn clear(&mut self) {
        unsafe { std::ptr::write_volatile(self.ptr as *mut u64, 0) }
    }
}

impl Drop for Inflight {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.ptr as *mut _, self.cap);
        }
    }
}

thread_local! {
    static MAIN: RefCell<Option<Inflight>> = const { RefCell::new(None) };
}

/// The same for cases outside of the shards
pub fn in_flight(part: &str, case: &Value) {
    MAIN.with(|m| {
        let mut m = m.borrow_mut();
        if m.is_none() {
            *m = Inflight::open(SHARDS);
        }
        if let Some(f) = m.as_mut() {
            f.set(part, &case.to_string());
        }
    });
    STARTED[SHARDS].store(uptime(), Ordering::Relaxed);
}

pub fn in_flight_done() {
    MAIN.with(|m| m.borrow_mut().iter_mut().for_each(Inflight::clear));
    STARTED[SHARDS].store(0, Ordering::Relaxed);
}

/// Reads what was in flight: (shard, part, case JSON)
pub fn read_inflight(dir: &Path) -> Vec<(usize, String, String)> {
    let mut out = vec![];
    for shard in 0..=SHARDS {
        if let Ok(bytes) = std::fs::read(dir.join(format!("{shard}"))) {
            if bytes.len() < 8 {
                continue;
            }
            let n = u64::from_ne_bytes(bytes[..8].try_into().unwrap()) as usize;
            if n == 0 || n + 8 > bytes.len() {
                continue;
            }
            if let Ok(text) = std::str::from_utf8(&bytes[8..8 + n]) {
                if let Some((p, c)) = text.split_once('\n') {
                    out.push((shard, p.to_string(), c.to_string()));
                }
            }
        }
    }
    out
}

fn trim_sample(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let mut end = 1500;
        while !s.is_char_boundary(end) {
            end -= 1;
        }
        Value::String(format!("{}… ({} bytes of JSON)", &s[..end], s.len()))
    }
}

impl<C> AnyPart for Part<C>
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }

    fn replay(&self, case: &Value) -> Verdict {
        let case: C = serde_json::from_value(case.clone())
            .map_err(|e| format!("unreadable replay case: {e}"))?;
        REPLAYING.store(true, Ordering::Relaxed);
        let verdict = run_check(self.check, &case, &mut Obs::default());
        REPLAYING.store(false, Ordering::Relaxed);
        verdict
    }

    fn run(&self, id: &str, seed: u64, tier: Tier, scale: f64) -> PartReport {
        let started = std::time::Instant::now();
        let total = match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let total = ((total as f64) * scale).ceil().max(SHARDS as f64) as u32;
        struct Shard {
            evals: u64,
            distinct: HashSet<u64>,
            labels: BTreeMap<String, u64>,
            samples: Vec<Value>,
            failure: Option<Failure>,
        }
        let results: Mutex<Vec<(usize, Shard)>> = Mutex::new(vec![]);
        // some shard has found a violation, and the others need not go on
        let found = AtomicBool::new(false);
        std::thread::scope(|scope| {
            for shard in 0..SHARDS {
                let (results, found) = (&results, &found);
                let part = self;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(scope, move || {
                        SLOT.with(|s| s.set(Some(shard)));
                        let mut seed_bytes = [0u8; 32];
                        let key = format!("{id}/{}/{shard}/{seed}", part.name);
                        seed_bytes.copy_from_slice(blake3::hash(key.as_bytes()).as_bytes());
                        let cases = (total + SHARDS as u32 - 1) / SHARDS as u32;
                        let config = Config {
                            cases,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 40_000,
                            max_global_rejects: 1_000_000,
                            max_local_rejects: 1_000_000,
                            ..Config::default()
                        };
                        let mut runner = TestRunner::new_with_rng(
                            config,
                            TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes),
                        );
                        let strategy = (part.strategy)();
                        let state = RefCell::new(Shard {
                            evals: 0,
                            distinct: HashSet::new(),
                            labels: BTreeMap::new(),
                            samples: vec![],
                            failure: None,
                        });
                        let failed = RefCell::new(false);
                        let inflight = RefCell::new(Inflight::open(shard));
                        let outcome = runner.run(&strategy, |case: C| {
                            if !*failed.borrow() && found.load(Ordering::Relaxed) {
                                return Ok(());
                            }
                            let text = serde_json::to_string(&case).expect("case serialises");
                            if let Some(f) = inflight.borrow_mut().as_mut() {
                                f.set(part.name, &text);
                            }
                            let mut obs = Obs::default();
                            let verdict = run_check(part.check, &case, &mut obs);
                            if let Some(f) = inflight.borrow_mut().as_mut() {
                                f.clear();
                            }
                            if !*failed.borrow() {
                                let mut st = state.borrow_mut();
                                st.evals += 1;
                                if obs.nontrivial
                                    && st.distinct.insert(hash_of(&text))
                                    && st.samples.len() < 2
                                    && (st.evals > 5 || cases < 20)
                                {
                                    let v = serde_json::to_value(&case).unwrap();
                                    st.samples.push(trim_sample(v));
                                }
                                obs.labels.sort();
                                obs.labels.dedup();
                                for l in obs.labels {
                                    *st.labels.entry(l).or_default() += 1;
                                }
                            }
                            verdict.map_err(|m| {
                                *failed.borrow_mut() = true;
                                found.store(true, Ordering::Relaxed);
                                let mut smallest = SMALLEST.lock().unwrap();
                                if smallest.as_ref().is_none_or(|f| text.len() < f.0) {
                                    let case = serde_json::from_str(&text).unwrap();
                                    *smallest = Some((text.len(), Failure { part: part.name.into(), case, message: m.clone() }));
                                }
                                TestCaseError::fail(m)
                            })
                        });
                        let mut st = state.into_inner();
                        match outcome {
                            Ok(()) => {}
                            Err(TestError::Fail(reason, case)) => {
                                st.failure = Some(Failure {
                                    part: part.name.into(),
                                    case: serde_json::to_value(&case).unwrap(),
                                    message: reason.to_string(),
                                });
                            }
                            Err(TestError::Abort(reason)) => {
                                crate::die(&format!(
                                    "generator of {id}/{} aborted: {reason}",
                                    part.name
                                ));
                            }
                        }
                        results.lock().unwrap().push((shard, st));
                    })
                    .expect("thread");
            }
        });
        let mut shards = results.into_inner().unwrap();
        if shards.len() != SHARDS {
            crate::die(&format!("a shard of {id}/{} died", self.name));
        }
        shards.sort_by_key(|(i, _)| *i);
        let mut report = PartReport::default();
        let mut distinct = HashSet::new();
        for (_, s) in shards {
            report.evaluations += s.evals;
            distinct.extend(s.distinct);
            for (l, n) in s.labels {
                *report.labels.entry(l).or_default() += n;
            }
            if report.samples.len() < 2 {
                report.samples.extend(s.samples);
                report.samples.truncate(2);
            }
            // the smallest counterexample of all shards
            if let Some(f) = s.failure {
                let better = match &report.failure {
                    None => true,
                    Some(old) => f.case.to_string().len() < old.case.to_string().len(),
                };
                if better {
                    report.failure = Some(f);
                }
            }
        }
        report.distinct_nontrivial = distinct.len() as u64;
        report.wall_s = started.elapsed().as_secs_f64();
        report
    }
}

/// A known defect of the code under test: a fixed input with its exact wrong outcome. `probe`
/// returns Some(description) while the defect is present.
pub struct Probe {
    pub id: &'static str,
    pub probe: fn() -> Option<String>,
}

pub struct Property {
    pub id: &'static str,
    pub parts: Vec<Box<dyn AnyPart>>,
    pub probes: Vec<Probe>,
    pub assumptions: Vec<&'static str>,
}

pub fn write_replay(verif: &Path, id: &str, f: &Failure, seed: u64) -> PathBuf {
    let dir = verif.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({
        "property": id, "part": f.part, "seed": seed, "message": f.message, "case": f.case,
    });
    let h = hash_of(&format!("{}{}", f.part, f.case));
    let path = dir.join(format!("{id}-{}-{h:016x}.json", f.part));
    std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()).expect("write replay");
    path
}
