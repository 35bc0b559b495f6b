//! Runner: proptest-driven and exhaustively enumerated sub-checks, sharded over threads,
//! deterministic in VERIF_SEED, with shrinking, replay files and evidence counters.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::Value;

use crate::supervise;

/// Stack size of the threads that run cases: what a program's main thread has by default.
pub const STACK: usize = 8 << 20;

#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
}

pub type CheckResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($fmt:tt)+) => {
        if !($cond) {
            return Err(format!($($fmt)+));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}: got {:?}, expected {:?}", format!($($fmt)+), a, b));
        }
    }};
}

pub trait Input: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + 'static {}
impl<T: Debug + Clone + Hash + Serialize + DeserializeOwned + Send + 'static> Input for T {}

#[derive(Default)]
pub struct Report {
    pub evals: u64,
    pub distinct_nontrivial: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(String, Value)>,
    pub stopped_early: bool,
}

impl Report {
    fn merge(&mut self, o: Report) {
        self.evals += o.evals;
        self.distinct_nontrivial.extend(o.distinct_nontrivial);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        if self.samples.len() < 2 {
            self.samples.extend(o.samples.into_iter().take(1));
        }
        if self.failure.is_none() {
            self.failure = o.failure;
        }
        self.stopped_early |= o.stopped_early;
    }
}

pub struct Ctx {
    pub seed: u64,
    pub thorough: bool,
    pub deadline: Option<Instant>,
    pub stop: AtomicBool,
}

impl Ctx {
    fn over(&self) -> bool {
        self.stop.load(Ordering::Relaxed) || self.deadline.map_or(false, |d| Instant::now() > d)
    }
}

pub trait Sub: Send + Sync {
    fn name(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn shards(&self) -> usize;
    fn exhaustive(&self) -> bool;
    fn run_shard(&self, property: &str, shard: usize, ctx: &Ctx) -> Report;
    fn replay(&self, input: &Value) -> Result<CheckResult, String>;
    fn from_bytes(&self, bytes: &[u8]) -> Option<(CheckResult, Value)>;
}

pub type Check<I> = fn(&I, &mut Obs) -> CheckResult;

/// Random (proptest) sub-check.
pub struct Rand<I: Input> {
    pub name: &'static str,
    pub rule: &'static str,
    pub strat: fn() -> BoxedStrategy<I>,
    pub check: Check<I>,
    pub quick: u32,
    pub thorough: u32,
    pub shards: usize,
}

/// Exhaustively enumerated sub-check.
pub struct Exh<I: Input> {
    pub name: &'static str,
    pub rule: &'static str,
    pub iter: fn(bool) -> Box<dyn Iterator<Item = I>>,
    pub check: Check<I>,
}

/// How many times the listed number of cases the quick tier runs.
const QUICK: u32 = 12;
/// The same for cases that run processes.
const QUICK_PROC: u32 = 2;

/// As `rand`, for cases that run processes.
pub fn rand_proc<I: Input>(
    name: &'static str,
    rule: &'static str,
    strat: fn() -> BoxedStrategy<I>,
    check: Check<I>,
    quick: u32,
    thorough: u32,
) -> Box<dyn Sub> {
    let quick = quick * QUICK_PROC;
    Box::new(Rand { name, rule, strat, check, quick, thorough, shards: 16 })
}

/// As `rand`, for costly cases: exactly the listed number in the quick tier.
pub fn rand_few<I: Input>(
    name: &'static str,
    rule: &'static str,
    strat: fn() -> BoxedStrategy<I>,
    check: Check<I>,
    quick: u32,
    thorough: u32,
) -> Box<dyn Sub> {
    Box::new(Rand { name, rule, strat, check, quick, thorough, shards: 16 })
}

pub fn rand<I: Input>(
    name: &'static str,
    rule: &'static str,
    strat: fn() -> BoxedStrategy<I>,
    check: Check<I>,
    quick: u32,
    thorough: u32,
) -> Box<dyn Sub> {
    Box::new(Rand {
        name,
        rule,
        strat,
        check,
        quick: quick * QUICK,
        thorough,
        shards: 16,
    })
}

pub fn exh<I: Input>(
    name: &'static str,
    rule: &'static str,
    iter: fn(bool) -> Box<dyn Iterator<Item = I>>,
    check: Check<I>,
) -> Box<dyn Sub> {
    Box::new(Exh {
        name,
        rule,
        iter,
        check,
    })
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".to_string());
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let text = format!("panic at {loc}: {msg}");
        // outside of cases (the main thread runs none) the machinery itself is broken
        static LAST: Mutex<String> = Mutex::new(String::new());
        if let Ok(mut last) = LAST.lock() {
            if std::thread::current().name() == Some("main") {
                eprintln!("{text} (before: {last})");
            }
            last.clone_from(&text);
        }
        PANIC.with(|p| *p.borrow_mut() = Some(text));
        if std::env::var_os("PBT_BT").is_some() {
            eprintln!("{info}\n{}", std::backtrace::Backtrace::force_capture());
        }
    }));
}

pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".to_string())),
    }
}

pub fn run_check<I: Input>(check: Check<I>, input: &I, obs: &mut Obs) -> CheckResult {
    let entered = supervise::enter(input);
    let result = guarded(|| check(input, obs));
    drop(entered);
    match result {
        Ok(r) => r,
        Err(p) => Err(p),
    }
}

fn hash_of<I: Hash>(i: &I) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

pub fn mix(seed: u64, parts: &[&str], n: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut s: u64 = 0xcbf29ce484222325 ^ seed.wrapping_mul(0x9E3779B97F4A7C15);
    for p in parts {
        for b in p.bytes() {
            s = (s ^ b as u64).wrapping_mul(0x100000001b3);
        }
        s = (s ^ 0xff).wrapping_mul(0x100000001b3);
    }
    s ^= n.wrapping_mul(0xD1B54A32D192ED03);
    for c in out.chunks_mut(8) {
        s = s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        c.copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}

fn record<I: Input>(rep: &mut Report, input: &I, obs: &Obs) {
    rep.evals += 1;
    for l in &obs.labels {
        *rep.labels.entry(l).or_default() += 1;
    }
    if obs.nontrivial {
        rep.distinct_nontrivial.insert(hash_of(input));
        // keep a mid-run sample rather than the very first case
        if rep.samples.is_empty() || (rep.evals == 40) {
            rep.samples = vec![sample(input)];
        }
    }
}

fn sample<I: Input>(input: &I) -> Value {
    let v = serde_json::to_value(input).unwrap_or(Value::Null);
    let s = v.to_string();
    if s.len() > 1500 {
        let mut cut = 1500;
        while !s.is_char_boundary(cut) {
            cut -= 1;
        }
        Value::String(format!("{}... ({} chars)", &s[..cut], s.len()))
    } else {
        v
    }
}

impl<I: Input> Sub for Rand<I> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn shards(&self) -> usize {
        self.shards
    }
    fn exhaustive(&self) -> bool {
        false
    }
    fn run_shard(&self, property: &str, shard: usize, ctx: &Ctx) -> Report {
        let total = if ctx.thorough {
            self.thorough
        } else {
            // (development only: a part of the quick tier)
            let percent = crate::env_u64("PBT_QUICK_PERCENT", 100);
            (u64::from(self.quick) * percent / 100) as u32
        };
        let per = (total as usize).div_ceil(self.shards) as u32;
        let rep = RefCell::new(Report::default());
        // The thorough tier runs in rounds so that the time cap is honoured between rounds.
        let rounds: Vec<u32> = if ctx.thorough {
            let r = 50u32.min(per.max(1));
            (0..r).map(|i| per / r + u32::from(i < per % r)).collect()
        } else {
            vec![per]
        };
        let strategy = (self.strat)();
        for (round, cases) in rounds.into_iter().enumerate() {
            if cases == 0 {
                continue;
            }
            if ctx.over() {
                rep.borrow_mut().stopped_early = true;
                break;
            }
            let seed = mix(
                ctx.seed,
                &[property, self.name],
                (shard as u64) << 32 | round as u64,
            );
            let config = Config {
                cases,
                failure_persistence: None,
                max_shrink_iters: 30_000,
                max_shrink_time: 60_000,
                max_global_rejects: 0,
                ..Config::default()
            };
            let mut runner = TestRunner::new_with_rng(
                config,
                TestRng::from_seed(RngAlgorithm::ChaCha, &seed),
            );
            let failed = Cell::new(false);
            let result = runner.run(&strategy, |input| {
                if !failed.get() && ctx.over() {
                    return Ok(());
                }
                let mut obs = Obs::default();
                let r = run_check(self.check, &input, &mut obs);
                if !failed.get() {
                    record(&mut rep.borrow_mut(), &input, &obs);
                }
                r.map_err(|m| {
                    failed.set(true);
                    TestCaseError::fail(m)
                })
            });
            match result {
                Ok(()) => {}
                Err(TestError::Fail(_, value)) => {
                    let mut obs = Obs::default();
                    let msg = run_check(self.check, &value, &mut obs)
                        .err()
                        .unwrap_or_else(|| "failure did not reproduce".to_string());
                    rep.borrow_mut().failure =
                        Some((msg, serde_json::to_value(&value).unwrap_or(Value::Null)));
                    ctx.stop.store(true, Ordering::Relaxed);
                    break;
                }
                Err(TestError::Abort(r)) => {
                    eprintln!("generator error in {property}/{}: {r}", self.name);
                    std::process::exit(2);
                }
            }
        }
        rep.into_inner()
    }
    fn replay(&self, input: &Value) -> Result<CheckResult, String> {
        let i: I = serde_json::from_value(input.clone()).map_err(|e| e.to_string())?;
        Ok(run_check(self.check, &i, &mut Obs::default()))
    }
    fn from_bytes(&self, bytes: &[u8]) -> Option<(CheckResult, Value)> {
        use proptest::strategy::{Strategy, ValueTree};
        let mut runner = TestRunner::new_with_rng(
            Config {
                failure_persistence: None,
                ..Config::default()
            },
            TestRng::from_seed(RngAlgorithm::PassThrough, bytes),
        );
        let tree = (self.strat)().new_tree(&mut runner).ok()?;
        let input = tree.current();
        let r = run_check(self.check, &input, &mut Obs::default());
        let v = if r.is_err() {
            serde_json::to_value(&input).unwrap_or(Value::Null)
        } else {
            Value::Null
        };
        Some((r, v))
    }
}

impl<I: Input> Sub for Exh<I> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn rule(&self) -> &'static str {
        self.rule
    }
    fn shards(&self) -> usize {
        16
    }
    fn exhaustive(&self) -> bool {
        true
    }
    fn run_shard(&self, _property: &str, shard: usize, ctx: &Ctx) -> Report {
        let mut rep = Report::default();
        for (n, input) in (self.iter)(ctx.thorough).enumerate() {
            if n % 16 != shard {
                continue;
            }
            if n % 1024 == shard && ctx.over() {
                rep.stopped_early = true;
                break;
            }
            let mut obs = Obs::default();
            let r = run_check(self.check, &input, &mut obs);
            record(&mut rep, &input, &obs);
            if let Err(m) = r {
                rep.failure = Some((m, serde_json::to_value(&input).unwrap_or(Value::Null)));
                ctx.stop.store(true, Ordering::Relaxed);
                break;
            }
        }
        rep
    }
    fn replay(&self, input: &Value) -> Result<CheckResult, String> {
        let i: I = serde_json::from_value(input.clone()).map_err(|e| e.to_string())?;
        Ok(run_check(self.check, &i, &mut Obs::default()))
    }
    fn from_bytes(&self, _bytes: &[u8]) -> Option<(CheckResult, Value)> {
        None
    }
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn Sub>>,
}

pub struct Outcome {
    pub violation: Option<(String, String, Value)>,
    pub evidence: Value,
}

pub fn run_property(prop: &Property, seed: u64, thorough: bool, cap_s: u64) -> Outcome {
    let start = Instant::now();
    let ctx = Ctx {
        seed,
        thorough,
        deadline: thorough.then(|| start + Duration::from_secs(cap_s)),
        stop: AtomicBool::new(false),
    };
    let mut jobs = vec![];
    // interleave: shard 0 of every sub-check first
    let max = prop.subs.iter().map(|s| s.shards()).max().unwrap_or(0);
    for shard in 0..max {
        for (i, s) in prop.subs.iter().enumerate() {
            if shard < s.shards() {
                jobs.push((i, shard));
            }
        }
    }
    let next = AtomicUsize::new(0);
    let results: Mutex<Vec<(usize, usize, Report)>> = Mutex::new(vec![]);
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get());
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(STACK)
                .spawn_scoped(sc, || {
                    supervise::register();
                    loop {
                    let n = next.fetch_add(1, Ordering::Relaxed);
                    let Some(&(i, shard)) = jobs.get(n) else { break };
                    if ctx.stop.load(Ordering::Relaxed) {
                        break;
                    }
                    supervise::set_sub(prop.subs[i].name());
                    let rep = prop.subs[i].run_shard(prop.id, shard, &ctx);
                    results.lock().unwrap().push((i, shard, rep));
                    }
                })
                .unwrap();
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|(i, s, _)| (*i, *s));
    let mut per: Vec<Report> = prop.subs.iter().map(|_| Report::default()).collect();
    for (i, _, rep) in results {
        per[i].merge(rep);
    }
    let mut evals = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut subs = serde_json::Map::new();
    let mut violation = None;
    let mut stopped = false;
    for (s, r) in prop.subs.iter().zip(per) {
        evals += r.evals;
        distinct += r.distinct_nontrivial.len();
        stopped |= r.stopped_early;
        for x in &r.samples {
            samples.push(serde_json::json!({"sub_check": s.name(), "case": x}));
        }
        subs.insert(
            s.name().to_string(),
            serde_json::json!({
                "rule": s.rule(), "evaluations": r.evals,
                "distinct_nontrivial": r.distinct_nontrivial.len(),
                "classes": r.labels, "enumerated_completely": s.exhaustive() && !r.stopped_early && r.failure.is_none(),
            }),
        );
        if let Some((m, v)) = r.failure {
            violation.get_or_insert((s.name().to_string(), m, v));
        }
    }
    let evidence = serde_json::json!({
        "property": prop.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed,
        "level": prop.level,
        "coverage": {
            "evaluations": evals, "distinct_nontrivial": distinct, "rule": prop.rule,
            "samples": samples, "sub_checks": subs, "time_cap_reached": stopped,
            "max_case_cpu_s": supervise::longest_case_s(),
        },
        "assumptions": prop.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": u32::from(violation.is_some()),
    });
    Outcome {
        violation,
        evidence,
    }
}
