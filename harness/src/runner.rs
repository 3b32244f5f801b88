//! Sharded, seeded property runner: generation and shrinking by proptest, evidence, replay files,
//! known findings.

use std::any::Any;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use proptest::prelude::*;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};

pub const VERIF: &str = "/verif";

thread_local! {
    static PANICS: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
    static SINK: Cell<bool> = const { Cell::new(false) };
}

/// Panics on threads other than a shard (event threads, recorder threads, ...)
pub static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let text = format!("panic: {msg} at {loc}");
        if SINK.with(|s| s.get()) {
            PANICS.with(|p| p.borrow_mut().push(text));
        } else {
            if std::env::var_os("VERIF_SHOW_PANICS").is_some() {
                eprintln!("[{:?}] {text}", std::thread::current().name());
            }
            FOREIGN_PANICS
                .lock()
                .unwrap_or_else(|e| e.into_inner())
                .push(text);
        }
    }));
}

/// Run `f` on a helper thread without reporting its panics
pub fn quietly<R>(f: impl FnOnce() -> R) -> R {
    SINK.with(|s| s.set(true));
    f()
}

/// Panics recorded on this thread since the last call
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Run `f`, which may be rejected by panicking on this thread. Returns whether it returned.
pub fn accepts<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    let before = PANICS.with(|p| p.borrow().len());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => {
            let msg = PANICS.with(|p| {
                let mut p = p.borrow_mut();
                let last = p.last().cloned().unwrap_or_default();
                p.truncate(before);
                last
            });
            Err(msg)
        }
    }
}

pub fn payload(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        (*s).to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "non-string panic".into()
    }
}

/// What a single case observed
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// contained panics (on the render side of this thread) are part of this case
    pub allow_panics: bool,
    /// number of oracle comparisons made (samples compared, calls judged)
    pub comparisons: u64,
}

impl Obs {
    pub fn nontrivial_if(&mut self, b: bool) {
        self.nontrivial |= b;
    }
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, b: bool, l: &'static str) {
        if b {
            self.labels.push(l);
        }
    }
}

pub type CaseResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond { return Err(format!($($arg)*)); }
    };
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    nontrivial: u64,
    comparisons: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<Value>,
}

impl Stats {
    fn merge(&mut self, o: Stats) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.comparisons += o.comparisons;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
    }
}

pub struct Runner {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    pub rule: String,
    pub assumptions: Vec<String>,
    scale: f64,
    start: Instant,
    replay: Option<(String, Value)>,
    only: Option<String>,
    suites: Vec<(String, Stats)>,
    violations: Vec<(PathBuf, String)>,
    findings: Vec<(String, Value, String)>,
    replay_seen: bool,
}

fn hash_str(s: &str) -> u64 {
    // FNV-1a, stable across runs and platforms
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

fn splitmix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

fn run_case<C>(check: &(dyn Fn(&C, &mut Obs) -> CaseResult + Sync), case: &C) -> (Obs, CaseResult) {
    SINK.with(|s| s.set(true));
    let _ = take_panics();
    let mut obs = Obs::default();
    let r = catch_unwind(AssertUnwindSafe(|| check(case, &mut obs)));
    let panics = take_panics();
    SINK.with(|s| s.set(false));
    let r = match r {
        Ok(Ok(())) => {
            if !panics.is_empty() && !obs.allow_panics {
                Err(format!("contained {}", panics[0]))
            } else {
                Ok(())
            }
        }
        Ok(Err(e)) => {
            if panics.is_empty() {
                Err(e)
            } else {
                Err(format!("{e} (also: {})", panics[0]))
            }
        }
        Err(e) => Err(panics.last().cloned().unwrap_or_else(|| payload(&*e))),
    };
    (obs, r)
}

impl Runner {
    pub fn new(id: &str) -> Self {
        let args: Vec<String> = std::env::args().collect();
        let get = |flag: &str| {
            args.iter()
                .position(|a| a == flag)
                .and_then(|i| args.get(i + 1).cloned())
        };
        let thorough = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => true,
            Ok(_) => false,
            Err(_) => false,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let replay = get("--replay").map(|p| {
            let text = std::fs::read_to_string(&p).unwrap_or_else(|e| {
                eprintln!("cannot read {p}: {e}");
                std::process::exit(2)
            });
            let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| {
                eprintln!("cannot parse {p}: {e}");
                std::process::exit(2)
            });
            (
                v["suite"].as_str().unwrap_or("").to_string(),
                v["case"].clone(),
            )
        });
        let scale = std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(1.);
        let mut findings = vec![];
        if let Ok(text) = std::fs::read_to_string(format!("{VERIF}/known_findings.json")) {
            let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| {
                eprintln!("known_findings.json: {e}");
                std::process::exit(2)
            });
            for f in v["findings"].as_array().cloned().unwrap_or_default() {
                if f["property"] == id {
                    findings.push((
                        f["suite"].as_str().unwrap_or("").to_string(),
                        f["case"].clone(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    ));
                }
            }
        }
        install_panic_hook();
        let limit: u64 = std::env::var("VERIF_WATCHDOG_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if thorough { 6 * 3600 } else { 780 });
        std::thread::Builder::new()
            .name("watchdog".into())
            .spawn(move || {
                std::thread::sleep(Duration::from_secs(limit));
                eprintln!("watchdog: no answer after {limit} s (inconclusive)");
                std::process::exit(3);
            })
            .unwrap();
        Self {
            id: id.to_string(),
            thorough,
            seed,
            rule: String::new(),
            assumptions: vec![],
            scale,
            start: Instant::now(),
            replay,
            only: get("--suite"),
            suites: vec![],
            violations: vec![],
            findings,
            replay_seen: false,
        }
    }

    /// Generate, run and shrink `quick` (or `thorough`) cases of one kind
    pub fn suite<C>(
        &mut self,
        name: &str,
        quick: u32,
        thorough: u32,
        strategy: fn() -> BoxedStrategy<C>,
        check: impl Fn(&C, &mut Obs) -> CaseResult + Sync,
    ) where
        C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    {
        self.suite_n(name, quick, thorough, 8, strategy, check)
    }

    /// As `suite`, with an explicit number of parallel shards
    pub fn suite_n<C>(
        &mut self,
        name: &str,
        quick: u32,
        thorough: u32,
        shards: u32,
        strategy: fn() -> BoxedStrategy<C>,
        check: impl Fn(&C, &mut Obs) -> CaseResult + Sync,
    ) where
        C: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
    {
        let check: &(dyn Fn(&C, &mut Obs) -> CaseResult + Sync) = &check;

        if let Some((suite, case)) = &self.replay {
            if suite == name {
                self.replay_seen = true;
                let case: C = match serde_json::from_value(case.clone()) {
                    Ok(c) => c,
                    Err(e) => {
                        eprintln!("replay case does not parse: {e}");
                        std::process::exit(2);
                    }
                };
                eprintln!("replaying {case:#?}");
                let (obs, r) = run_case(check, &case);
                eprintln!("labels {:?} nontrivial {}", obs.labels, obs.nontrivial);
                match r {
                    Ok(()) => println!("replay: property held"),
                    Err(e) => {
                        println!("replay: {e}");
                        let path = std::env::args()
                            .skip_while(|a| a != "--replay")
                            .nth(1)
                            .unwrap();
                        self.violations.push((path.into(), e));
                    }
                }
            }
            return;
        }
        if let Some(only) = &self.only {
            if only != name {
                return;
            }
        }

        // listed findings: exactly these cases, reported but not alarming
        for (suite, case, what) in &self.findings {
            if suite == name {
                match serde_json::from_value::<C>(case.clone()) {
                    Ok(c) => {
                        if let (_, Err(_)) = run_case(check, &c) {
                            println!("KNOWN-FINDING: property={} {}", self.id, what);
                        }
                    }
                    Err(e) => {
                        eprintln!("known finding does not parse: {e}");
                        std::process::exit(2);
                    }
                }
            }
        }

        let total =
            ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u32;
        let shards = shards.min(total).max(1);
        let stop = AtomicBool::new(false);
        let results: Mutex<Vec<(u32, Stats, Option<(C, String)>)>> = Mutex::new(vec![]);

        std::thread::scope(|s| {
            for shard in 0..shards {
                let n = total / shards + u32::from(shard < total % shards);
                let (stop, results) = (&stop, &results);
                let mut h = splitmix(self.seed ^ hash_str(&self.id));
                h = splitmix(h ^ hash_str(name));
                h = splitmix(h ^ shard as u64);
                std::thread::Builder::new()
                    .name(format!("shard-{shard}"))
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut seed = [0u8; 32];
                        let mut z = h;
                        for c in seed.chunks_mut(8) {
                            z = splitmix(z);
                            c.copy_from_slice(&z.to_le_bytes());
                        }
                        let config = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: 3000,
                            max_shrink_time: 60_000,
                            max_global_rejects: 100_000,
                            max_local_rejects: 100_000,
                            ..Config::default()
                        };
                        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed);
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let stats = RefCell::new(Stats::default());
                        let failed = Cell::new(false);
                        let outcome = runner.run(&strategy(), |case: C| {
                            if stop.load(Ordering::Relaxed) && !failed.get() {
                                return Ok(());
                            }
                            let (obs, r) = run_case(check, &case);
                            if !failed.get() {
                                let mut st = stats.borrow_mut();
                                st.evaluations += 1;
                                st.comparisons += obs.comparisons;
                                for l in obs.labels {
                                    *st.labels.entry(l).or_default() += 1;
                                }
                                if obs.nontrivial {
                                    st.nontrivial += 1;
                                    let text = serde_json::to_string(&case).unwrap();
                                    let mut hs = std::collections::hash_map::DefaultHasher::new();
                                    text.hash(&mut hs);
                                    st.distinct.insert(hs.finish());
                                    if shard == 0 && st.samples.len() < 3 && text.len() < 3000 {
                                        st.samples.push(serde_json::from_str(&text).unwrap());
                                    }
                                }
                            }
                            r.map_err(|e| {
                                failed.set(true);
                                stop.store(true, Ordering::Relaxed);
                                TestCaseError::fail(e)
                            })
                        });
                        let failure = match outcome {
                            Ok(()) => None,
                            Err(TestError::Fail(reason, case)) => {
                                Some((case, reason.message().to_string()))
                            }
                            Err(TestError::Abort(reason)) => {
                                eprintln!("generator of suite aborted: {reason}");
                                std::process::exit(3);
                            }
                        };
                        results
                            .lock()
                            .unwrap()
                            .push((shard, stats.into_inner(), failure));
                    })
                    .unwrap();
            }
        });

        let mut results = results.into_inner().unwrap();
        results.sort_by_key(|r| r.0);
        let mut stats = Stats::default();
        let mut first: Option<(C, String)> = None;
        for (_, s, f) in results {
            stats.merge(s);
            if first.is_none() {
                first = f;
            }
        }
        if std::env::var_os("VERIF_VERBOSE").is_some() {
            eprintln!(
                "{}/{name}: {} cases, {} non-trivial ({} distinct), {} comparisons, {:.1} s so far; labels {:?}",
                self.id,
                stats.evaluations,
                stats.nontrivial,
                stats.distinct.len(),
                stats.comparisons,
                self.start.elapsed().as_secs_f64(),
                stats.labels
            );
        }
        if let Some((case, seen)) = first {
            // the shrunk case, run again outside of the library (several times: the failure may
            // depend on something the case does not control, such as map iteration order)
            let msg = (0..50)
                .find_map(|_| run_case(check, &case).1.err())
                .unwrap_or_else(|| format!("{seen} (seen once, not on immediate replay)"));
            let body = json!({"property": self.id, "suite": name, "case": case, "message": msg});
            let text = serde_json::to_string_pretty(&body).unwrap();
            let dir = PathBuf::from(format!("{VERIF}/replays"));
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-{:016x}.json", self.id, hash_str(&text)));
            std::fs::write(&path, text).unwrap();
            self.violations.push((path, msg));
        }
        self.suites.push((name.to_string(), stats));
    }

    pub fn finish(self) -> i32 {
        if self.replay.is_some() {
            if !self.replay_seen {
                eprintln!("no such suite in the replay file");
                return 2;
            }
        } else {
            let mut evaluations = 0;
            let mut distinct = 0;
            let mut comparisons = 0;
            let mut samples = vec![];
            let mut suites = serde_json::Map::new();
            for (name, s) in &self.suites {
                evaluations += s.evaluations;
                distinct += s.distinct.len() as u64;
                comparisons += s.comparisons;
                for c in &s.samples {
                    samples.push(json!({"suite": name, "case": c}));
                }
                suites.insert(
                    name.clone(),
                    json!({
                        "evaluations": s.evaluations,
                        "nontrivial": s.nontrivial,
                        "distinct_nontrivial": s.distinct.len(),
                        "oracle_comparisons": s.comparisons,
                        "classes": s.labels,
                    }),
                );
            }
            let ev = json!({
                "property": self.id,
                "tier": if self.thorough { "thorough" } else { "quick" },
                "seed": self.seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": evaluations,
                    "distinct_nontrivial": distinct,
                    "oracle_comparisons": comparisons,
                    "rule": self.rule,
                    "samples": samples,
                    "suites": suites,
                },
                "assumptions": self.assumptions,
                "wall_s": self.start.elapsed().as_secs_f64(),
                "violations": self.violations.len(),
            });
            let dir = PathBuf::from(format!("{VERIF}/evidence"));
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(
                dir.join(format!("{}.json", self.id)),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .unwrap();
        }
        for (path, msg) in &self.violations {
            println!("{msg}");
            println!("VIOLATION property={} replay={}", self.id, path.display());
        }
        i32::from(!self.violations.is_empty())
    }
}
