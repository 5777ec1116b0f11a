//! Search engine: deterministic sharded proptest runs and exhaustive sweeps,
//! shrinking, replay files, panic capture and coverage counters.

use crate::clock::scope;
use proptest::{
    strategy::{BoxedStrategy, Strategy, ValueTree},
    test_runner::{Config, RngAlgorithm, TestRng, TestRunner},
};
use serde::{Serialize, de::DeserializeOwned};
use serde_json::{Value, json};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{DefaultHasher, Hash, Hasher},
    panic::{AssertUnwindSafe, catch_unwind},
    sync::{
        Mutex,
        atomic::{AtomicU64, AtomicUsize, Ordering},
    },
};

/// Fixed number of shards: the set of generated cases does not depend on the machine.
pub const SHARDS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Copy)]
pub struct Ctx {
    pub tier: Tier,
    pub seed: u64,
}

impl Ctx {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
}

/// What a violation found outside the normal flow needs to be reported.
pub struct Report {
    pub prop: String,
    /// name of the replay file
    pub file: String,
    pub root: std::path::PathBuf,
    pub seed: u64,
}

pub static REPORT: std::sync::OnceLock<Report> = std::sync::OnceLock::new();

/// Writes the replay file of a failure.
pub fn write_replay(f: &Failure) -> std::path::PathBuf {
    let r = REPORT.get().unwrap_or_else(|| harness_error("not initialised"));
    let dir = r.root.join("replays");
    let path = dir.join(format!("{}.json", r.file));
    let body = json!({
        "property": r.prop, "sub": f.sub, "seed": r.seed,
        "message": f.message, "input": f.input,
    });
    if let Err(e) = std::fs::create_dir_all(&dir)
        .and_then(|()| std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap()))
    {
        harness_error(&format!("cannot write the replay file: {e}"));
    }
    println!("{}: {}", f.sub, f.message);
    path
}

/// A case that does not return within this processor time (or this time on the
/// clock, if it sleeps) or lets the memory grow beyond the limit is a failure
/// (normal cases take less than a second).
const CASE_CPU_SECS: f64 = 60.0;
const CASE_SECS: u64 = 400;
const MAX_RSS_PAGES: u64 = (12 << 30) / 4096;

fn rss_pages() -> u64 {
    std::fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1)?.parse().ok())
        .unwrap_or(0)
}

#[derive(Clone)]
struct Running<T> {
    since: std::time::Instant,
    cpu: Option<(crate::clock::ThreadClock, f64)>,
    case: T,
}

/// Cases in progress, one per shard.
struct Monitor<T> {
    current: Vec<Mutex<Option<Running<T>>>>,
    done: std::sync::atomic::AtomicBool,
}

impl<T: Clone> Monitor<T> {
    fn new() -> Self {
        Monitor {
            current: (0..SHARDS).map(|_| Mutex::new(None)).collect(),
            done: std::sync::atomic::AtomicBool::new(false),
        }
    }
    fn begin(&self, shard: usize, t: &T) {
        *self.current[shard].lock().unwrap() = Some(Running {
            since: std::time::Instant::now(),
            cpu: crate::clock::ThreadClock::current().and_then(|c| Some((c, c.secs()?))),
            case: t.clone(),
        });
    }
    fn end(&self, shard: usize) {
        *self.current[shard].lock().unwrap() = None;
    }
    /// Runs beside the shards; does not return normally on a violation.
    fn watch(&self, sub: &str, show: impl Fn(&T) -> Value) {
        let mut n = 0u32;
        while !self.done.load(Ordering::Relaxed) {
            std::thread::sleep(std::time::Duration::from_millis(10));
            n += 1;
            if n % 20 != 0 {
                continue;
            }
            let full = rss_pages() > MAX_RSS_PAGES;
            for c in &self.current {
                let Some(r) = c.lock().unwrap().clone() else {
                    continue;
                };
                let secs = r.since.elapsed().as_secs();
                // the lock is released: the thread may be gone
                let cpu = r.cpu.and_then(|(c, t)| Some(c.secs()? - t)).unwrap_or(0.0);
                if cpu >= CASE_CPU_SECS || secs >= CASE_SECS || (full && secs >= 1) {
                    let path = write_replay(&Failure {
                        sub: sub.into(),
                        input: show(&r.case),
                        message: format!("does not return ({secs} s, {} MB)", rss_pages() / 256),
                    });
                    let prop = &REPORT.get().unwrap().prop;
                    println!("VIOLATION property={prop} replay={}", path.display());
                    std::process::exit(1);
                }
            }
        }
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}

/// Runs `f`; a panic becomes an error message.
pub fn guarded<R>(f: impl FnOnce() -> Result<R, String>) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!(
            "panicked: {}",
            LAST_PANIC.with(|p| p.borrow().clone())
        )),
    }
}

/// Per-case and per-run coverage counters.
#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    /// distinct by construction (exhaustive sweeps)
    pub exhaustive_nontrivial: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    counting: bool,
    nontrivial: bool,
}

impl Stats {
    /// Count one occurrence of an interesting class within the current case.
    pub fn label(&mut self, l: &'static str) {
        if self.counting {
            *self.labels.entry(l).or_insert(0) += 1;
        }
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.label(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.exhaustive_nontrivial += o.exhaustive_nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        self.samples.extend(o.samples);
    }
}

pub struct Failure {
    pub sub: String,
    pub input: Value,
    pub message: String,
}

/// Result of running one sub-check.
pub struct SubResult {
    pub name: &'static str,
    pub rule: &'static str,
    pub exhaustive: bool,
    pub stats: Stats,
    pub failure: Option<Failure>,
}

pub trait Sub: Sync {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> SubResult;
    fn replay(&self, input: &Value) -> Result<(), String>;
    /// Coverage-guided search by one worker process.
    fn guided(&self, _ctx: &Ctx, _worker: usize, _secs: f64) -> (Value, Option<Failure>) {
        (Value::Null, None)
    }
    fn can_be_guided(&self) -> bool {
        false
    }
}

pub trait Input: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + 'static {}
impl<T: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + 'static> Input for T {}

/// Generated (proptest) sub-check.
pub struct Gen<T: Input> {
    pub name: &'static str,
    pub rule: &'static str,
    /// total cases of the quick / thorough tier
    pub cases: (u64, u64),
    pub strategy: fn() -> BoxedStrategy<T>,
    pub test: fn(&T, &mut Stats) -> Result<(), String>,
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn rng_for(seed: u64, name: &str, shard: usize) -> TestRng {
    let base = mix(seed ^ mix(hash_of(&name) ^ mix(shard as u64)));
    let mut bytes = [0u8; 32];
    for i in 0..4 {
        bytes[i * 8..][..8].copy_from_slice(&mix(base.wrapping_add(i as u64 * 77)).to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

const MAX_SHRINK_STEPS: usize = 20_000;
const MAX_SHRINK_SECS: u64 = 40;

impl<T: Input> Gen<T> {
    fn shrink(&self, tree: &mut dyn ValueTree<Value = T>, mut best: (T, String), mon: &Monitor<T>, shard: usize) -> Failure {
        let start = std::time::Instant::now();
        let mut steps = 0;
        let mut progress = tree.simplify();
        while progress && steps < MAX_SHRINK_STEPS && start.elapsed().as_secs() < MAX_SHRINK_SECS {
            steps += 1;
            let cur = tree.current();
            let mut scratch = Stats::default();
            mon.begin(shard, &cur);
            let r = guarded(|| scope(|| (self.test)(&cur, &mut scratch)));
            mon.end(shard);
            match r {
                Err(m) => {
                    best = (cur, m);
                    progress = tree.simplify();
                }
                Ok(()) => progress = tree.complicate(),
            }
        }
        Failure {
            sub: self.name.into(),
            input: serde_json::to_value(&best.0).unwrap_or(Value::Null),
            message: best.1,
        }
    }

    /// Searches for `secs`, in this thread.
    fn guided_worker(&self, ctx: &Ctx, worker: usize, secs: f64, mon: &Monitor<T>) -> (Value, Option<Failure>) {
        use crate::guided::{Corpus, Coverage, Rng};
        let start = std::time::Instant::now();
        let strategy = (self.strategy)();
        let mut r = Rng(mix(ctx.seed ^ mix(hash_of(&self.name) ^ mix(worker as u64 + 1000))));
        let (mut cov, mut corpus) = (Coverage::new(), Corpus::new());
        let mut stats = Stats::default();
        let mut failure = None;
        while start.elapsed().as_secs_f64() < secs {
            let data = corpus.next(&mut r);
            let mut runner = TestRunner::new_with_rng(
                Config {
                    failure_persistence: None,
                    ..Config::default()
                },
                TestRng::from_seed(RngAlgorithm::PassThrough, &data),
            );
            let Ok(mut tree) = strategy.new_tree(&mut runner) else {
                continue;
            };
            let used = runner.rng().pass_through_offset();
            let input = tree.current();
            stats.nontrivial = false;
            stats.evaluations += 1;
            mon.begin(0, &input);
            cov.begin();
            let res = guarded(|| scope(|| (self.test)(&input, &mut stats)));
            let new = cov.end();
            mon.end(0);
            if stats.nontrivial {
                stats.distinct.insert(hash_of(&input));
            }
            if let Err(msg) = res {
                failure = Some(self.shrink(&mut tree, (input, msg), mon, 0));
                break;
            }
            if new {
                let content = data.len() - 8;
                corpus.add(data, used.min(content));
            }
        }
        (
            json!({"sub": self.name, "cases": stats.evaluations, "nontrivial": stats.distinct.len(),
                "corpus": corpus.len(), "features": cov.features}),
            failure,
        )
    }

    fn shard(&self, ctx: &Ctx, shard: usize, cases: u64, first_failing: &AtomicUsize, mon: &Monitor<T>) -> (Stats, Option<Failure>) {
        let mut stats = Stats::default();
        let mut runner = TestRunner::new_with_rng(
            Config {
                failure_persistence: None,
                ..Config::default()
            },
            rng_for(ctx.seed, self.name, shard),
        );
        let strategy = (self.strategy)();
        for _ in 0..cases {
            if first_failing.load(Ordering::Relaxed) < shard {
                break;
            }
            let mut tree = match strategy.new_tree(&mut runner) {
                Ok(t) => t,
                Err(e) => harness_error(&format!("generator of {} failed: {e}", self.name)),
            };
            let input = tree.current();
            stats.counting = true;
            stats.nontrivial = false;
            stats.evaluations += 1;
            mon.begin(shard, &input);
            let r = guarded(|| scope(|| (self.test)(&input, &mut stats)));
            mon.end(shard);
            stats.counting = false;
            if stats.nontrivial {
                let fresh = stats.distinct.insert(hash_of(&input));
                if fresh && (stats.samples.len() < 1) {
                    let v = serde_json::to_value(&input).unwrap_or(Value::Null);
                    if v.to_string().len() < 1200 || stats.evaluations > cases / 2 {
                        stats.samples.push(clip(v));
                    }
                }
            }
            if let Err(msg) = r {
                first_failing.fetch_min(shard, Ordering::Relaxed);
                let f = self.shrink(&mut tree, (input, msg), mon, shard);
                return (stats, Some(f));
            }
        }
        (stats, None)
    }
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 3000 {
        v
    } else {
        let cut: String = s.chars().take(2900).collect();
        Value::String(format!("{cut} ... ({} characters)", s.len()))
    }
}

impl<T: Input> Sub for Gen<T> {
    // a search needs many short cases
    fn can_be_guided(&self) -> bool {
        self.cases.0 >= 1000
    }
    fn guided(&self, ctx: &Ctx, worker: usize, secs: f64) -> (Value, Option<Failure>) {
        let mon = Monitor::<T>::new();
        std::thread::scope(|s| {
            s.spawn(|| mon.watch(self.name, |t| serde_json::to_value(t).unwrap_or(Value::Null)));
            let r = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, || self.guided_worker(ctx, worker, secs, &mon))
                .unwrap()
                .join();
            mon.done.store(true, Ordering::Relaxed);
            match r {
                Ok(r) => r,
                Err(_) => harness_error("a worker thread died"),
            }
        })
    }
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ctx: &Ctx) -> SubResult {
        let total = ctx.n(self.cases.0, self.cases.1);
        let per = total.div_ceil(SHARDS as u64);
        let first_failing = AtomicUsize::new(usize::MAX);
        let mut res: Vec<(Stats, Option<Failure>)> = vec![];
        let mon = Monitor::<T>::new();
        std::thread::scope(|s| {
            s.spawn(|| mon.watch(self.name, |t| serde_json::to_value(t).unwrap_or(Value::Null)));
            let hs: Vec<_> = (0..SHARDS)
                .map(|i| {
                    let (ff, mon) = (&first_failing, &mon);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || self.shard(ctx, i, per, ff, mon))
                        .unwrap()
                })
                .collect();
            for h in hs {
                match h.join() {
                    Ok(r) => res.push(r),
                    Err(_) => harness_error("a worker thread died"),
                }
            }
            mon.done.store(true, Ordering::Relaxed);
        });
        let mut stats = Stats::default();
        let mut failure = None;
        for (st, f) in res {
            stats.merge(st);
            if failure.is_none() {
                failure = f;
            }
        }
        stats.samples.truncate(3);
        SubResult {
            name: self.name,
            rule: self.rule,
            exhaustive: false,
            stats,
            failure,
        }
    }
    fn replay(&self, input: &Value) -> Result<(), String> {
        let t: T = match serde_json::from_value(input.clone()) {
            Ok(t) => t,
            Err(e) => harness_error(&format!("replay input does not parse: {e}")),
        };
        let mut st = Stats::default();
        guarded(|| scope(|| (self.test)(&t, &mut st)))
    }
}

/// Exhaustive sweep over the indices `0..size`; each index is one case.
pub struct Sweep {
    pub name: &'static str,
    pub rule: &'static str,
    pub size: fn(&Ctx) -> u64,
    /// Checks one case; `Ok(true)` if non-trivial.
    pub test: fn(u64) -> Result<bool, String>,
    /// Describe a case for samples and replay readers.
    pub describe: fn(u64) -> Value,
}

impl Sub for Sweep {
    fn name(&self) -> &'static str {
        self.name
    }
    fn run(&self, ctx: &Ctx) -> SubResult {
        let size = (self.size)(ctx);
        let first = AtomicU64::new(u64::MAX);
        let message = Mutex::new(BTreeMap::<u64, String>::new());
        let block = (size / 512).clamp(1, 1 << 20);
        let next = AtomicU64::new(0);
        let (evals, nontriv) = (AtomicU64::new(0), AtomicU64::new(0));
        let mon = Monitor::<u64>::new();
        let running = AtomicUsize::new(SHARDS);
        let (mon, running, evals, nontriv, next, first, message) =
            (&mon, &running, &evals, &nontriv, &next, &first, &message);
        let describe = |i: u64| json!({"index": i, "case": (self.describe)(i)});
        std::thread::scope(|s| {
            s.spawn(|| mon.watch(self.name, |i| describe(*i)));
            for shard in 0..SHARDS {
                s.spawn(move || {
                    let (mut e, mut nt) = (0u64, 0u64);
                    'outer: loop {
                        let start = next.fetch_add(block, Ordering::Relaxed);
                        if start >= size || start > first.load(Ordering::Relaxed) {
                            break;
                        }
                        let end = (start + block).min(size);
                        let mut i = start;
                        // One unwind guard per block, not per case.
                        while i < end {
                            let r = guarded(|| {
                                while i < end {
                                    if i % 64 == 0 || i == start {
                                        mon.begin(shard, &i);
                                    }
                                    e += 1;
                                    if scope(|| (self.test)(i))? {
                                        nt += 1;
                                    }
                                    i += 1;
                                }
                                Ok(())
                            });
                            mon.end(shard);
                            if let Err(m) = r {
                                first.fetch_min(i, Ordering::Relaxed);
                                message.lock().unwrap().insert(i, m);
                                break 'outer;
                            }
                        }
                    }
                    evals.fetch_add(e, Ordering::Relaxed);
                    nontriv.fetch_add(nt, Ordering::Relaxed);
                    if running.fetch_sub(1, Ordering::Relaxed) == 1 {
                        mon.done.store(true, Ordering::Relaxed);
                    }
                });
            }
        });
        let failure = message.lock().unwrap().pop_first().map(|(i, m)| Failure {
            sub: self.name.into(),
            input: describe(i),
            message: m,
        });
        let mut stats = Stats {
            evaluations: evals.load(Ordering::Relaxed),
            exhaustive_nontrivial: nontriv.load(Ordering::Relaxed),
            ..Stats::default()
        };
        for k in [size / 3, size - 1 - size / 5] {
            stats.samples.push((self.describe)(k));
        }
        SubResult {
            name: self.name,
            rule: self.rule,
            exhaustive: failure.is_none(),
            stats,
            failure,
        }
    }
    fn replay(&self, input: &Value) -> Result<(), String> {
        let Some(i) = input["index"].as_u64() else {
            harness_error("replay input has no index");
        };
        guarded(|| scope(|| (self.test)(i)).map(|_| ()))
    }
}

/// An error of the check itself: neither "holds" nor "violated".
pub fn harness_error(msg: &str) -> ! {
    eprintln!("CHECK ERROR: {msg}");
    std::process::exit(3)
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !($c) {
            return Err(format!($($a)*));
        }
    };
}
