//! Small driver around proptest: seeded workers, case statistics, shrinking, replay files.

use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    fs,
    hash::{Hash, Hasher},
    panic::{self, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

use proptest::{
    strategy::BoxedStrategy,
    test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRunner},
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};

pub const PROFILE: &str = if cfg!(debug_assertions) { "checked" } else { "release" };

pub struct Ctx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay_dir: PathBuf,
    /// where to leave the result if the program has to be ended early
    pub out: Option<PathBuf>,
}

/// no case takes nearly as long
const CASE_LIMIT: Duration = Duration::from_secs(240);
const SHRINK_LIMIT: Duration = Duration::from_secs(60);
const REPLAY_LIMIT: Duration = Duration::from_secs(90);
/// in bytes, far above what is used
const MEMORY_LIMIT: usize = 12 << 30;

/// Ends the program if it uses too much memory; check.py looks for the case.
fn check_memory() {
    let pages = fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split(' ').nth(1)?.parse::<usize>().ok())
        .unwrap_or(0);
    if pages * 4096 > MEMORY_LIMIT {
        eprintln!("uses too much memory");
        std::process::abort();
    }
}

impl Ctx {
    /// quick or thorough value; the checked profile gets a third of the cases
    pub fn cases(&self, quick: u32, thorough: u32) -> u32 {
        let c = if self.thorough { thorough } else { quick };
        // when trying many changes: part of the cases (check.py does not pass it on)
        let percent = std::env::var("VH_PERCENT").ok().and_then(|s| s.parse().ok());
        let c = percent.map_or(c, |p: u32| (c as u64 * p as u64 / 100) as u32).max(1);
        if PROFILE == "checked" {
            (c / 3).max(1)
        } else {
            c
        }
    }
}

#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
}

impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Self { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, on: bool, l: &'static str) -> Self {
        if on {
            self.labels.push(l);
        }
        self
    }
}

pub type CheckResult = Result<Info, String>;

#[derive(Default)]
pub struct Stats {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<(String, String)>, // (message, replay path)
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static GLOBAL_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(msg.clone()));
        if let Ok(mut g) = GLOBAL_PANIC.lock() {
            *g = Some(msg);
        }
    }));
}

/// Runs `f`; a panic becomes an `Err` with its message.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    panic::catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let local = LAST_PANIC.with(|p| p.borrow_mut().take());
        let global = GLOBAL_PANIC.lock().ok().and_then(|mut g| g.take());
        format!(
            "panicked: {}{}",
            local.clone().unwrap_or_default(),
            match global {
                Some(g) if Some(&g) != local.as_ref() => format!(" | {g}"),
                _ => String::new(),
            }
        )
    })
}

pub fn hash64(v: &impl Hash) -> u64 {
    // fixed keys
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    v.hash(&mut h);
    h.finish()
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub trait Sub: Sync + Send {
    fn name(&self) -> &'static str;
    fn run(&self, ctx: &Ctx) -> Stats;
    fn replay(&self, v: Value) -> Result<(), String>;
}

pub struct PropSub<T: Debug> {
    pub name: &'static str,
    pub cases: (u32, u32),
    pub workers: u32,
    pub shrink_iters: u32,
    pub strat: fn() -> BoxedStrategy<T>,
    pub check: fn(&T) -> CheckResult,
}

/// quick cases, thorough cases; 8 workers
pub fn sub<T>(
    name: &'static str,
    cases: (u32, u32),
    strat: fn() -> BoxedStrategy<T>,
    check: fn(&T) -> CheckResult,
) -> Box<dyn Sub>
where
    T: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    sub_w(name, cases, 8, strat, check)
}

pub fn sub_w<T>(
    name: &'static str,
    cases: (u32, u32),
    workers: u32,
    strat: fn() -> BoxedStrategy<T>,
    check: fn(&T) -> CheckResult,
) -> Box<dyn Sub>
where
    T: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    Box::new(PropSub { name, cases, workers, shrink_iters: 4000, strat, check })
}

/// what a worker is doing
struct Slot<T> {
    current: Option<(Instant, T)>,
    /// the last failure, if one is being made smaller
    failed: Option<(T, String)>,
}

impl<T> Default for Slot<T> {
    fn default() -> Self {
        Self { current: None, failed: None }
    }
}

impl<T> Slot<T> {
    /// the case to report if the current one does not come to an end
    fn stuck(&self) -> Option<(&T, String)> {
        let (since, v) = self.current.as_ref()?;
        match &self.failed {
            Some((v, msg)) if since.elapsed() > SHRINK_LIMIT => Some((v, msg.clone())),
            None if since.elapsed() > CASE_LIMIT => {
                Some((v, format!("does not finish within {CASE_LIMIT:?}")))
            },
            _ => None,
        }
    }
}

impl<T: Debug + Serialize> PropSub<T> {
    /// reports a case and ends the program (threads cannot be ended)
    fn leave(&self, ctx: &Ctx, v: &T, msg: &str, stats: &Mutex<Stats>) -> ! {
        let path = write_replay(ctx, self.name, &serde_json::to_value(v).unwrap(), msg);
        eprintln!("[{PROFILE}] {}/{}: VIOLATED: {msg}\n   replay {path}", ctx.property, self.name);
        let (evaluations, distinct) =
            stats.lock().map(|s| (s.evaluations, s.distinct.len())).unwrap_or_default();
        if let Some(out) = &ctx.out {
            let doc = json!([{
                "sub": self.name, "profile": PROFILE, "evaluations": evaluations,
                "distinct_nontrivial": distinct, "labels": {}, "samples": [], "wall_s": 0.,
                "violations": [{"message": msg, "replay": path}],
            }]);
            fs::write(out, doc.to_string()).unwrap();
        }
        std::process::exit(1)
    }
}

impl<T> Sub for PropSub<T>
where
    T: Debug + Clone + Serialize + DeserializeOwned + Send + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn replay(&self, v: Value) -> Result<(), String> {
        let v: T = serde_json::from_value(v).map_err(|e| format!("bad replay: {e}"))?;
        std::thread::spawn(|| {
            let start = Instant::now();
            while start.elapsed() < REPLAY_LIMIT {
                check_memory();
                std::thread::sleep(Duration::from_millis(200));
            }
            println!("violated: does not finish within {REPLAY_LIMIT:?}");
            std::process::exit(1);
        });
        // some failures depend on the operating system's schedule
        let start = Instant::now();
        for _ in 0..50 {
            no_panic(|| (self.check)(&v)).and_then(|r| r)?;
            if start.elapsed().as_secs() >= 3 {
                break;
            }
        }
        Ok(())
    }

    fn run(&self, ctx: &Ctx) -> Stats {
        let total = ctx.cases(self.cases.0, self.cases.1);
        let workers = self.workers.min(total).max(1);
        let stats = Mutex::new(Stats::default());
        let stop = AtomicBool::new(false);
        let check = self.check;
        let strat_fn = self.strat;
        let slots: Vec<_> = (0..workers).map(|_| Mutex::new(Slot::default())).collect();
        let running = std::sync::atomic::AtomicU32::new(workers);
        // to find the case that ends the program
        let trace = std::env::var("VH_TRACE").ok();
        std::thread::scope(|s| {
            s.spawn(|| {
                while running.load(Ordering::Relaxed) != 0 {
                    std::thread::sleep(Duration::from_millis(50));
                    check_memory();
                    for slot in &slots {
                        if let Some((v, msg)) = slot.lock().unwrap().stuck() {
                            self.leave(ctx, v, &msg, &stats);
                        }
                    }
                }
            });
            for w in 0..workers {
                let stats = &stats;
                let stop = &stop;
                let slot = &slots[w as usize];
                let running = &running;
                let trace = trace.as_deref();
                std::thread::Builder::new()
                    .stack_size(32 << 20)
                    .spawn_scoped(s, move || {
                    let n = total / workers + u32::from(w < total % workers);
                    let seed = hash64(&(ctx.seed, PROFILE, &ctx.property, self.name, w));
                    let config = Config {
                        cases: n,
                        failure_persistence: None,
                        max_shrink_iters: self.shrink_iters,
                        max_shrink_time: 90_000,
                        max_global_rejects: 1 << 20,
                        rng_algorithm: RngAlgorithm::ChaCha,
                        rng_seed: RngSeed::Fixed(seed),
                        ..Config::default()
                    };
                    let mut runner = TestRunner::new(config);
                    let failing = AtomicBool::new(false);
                    let res = runner.run(&strat_fn(), |v| {
                        let shrinking = failing.load(Ordering::Relaxed);
                        if !shrinking && stop.load(Ordering::Relaxed) {
                            return Ok(()); // another worker has a failure already
                        }
                        slot.lock().unwrap().current = Some((Instant::now(), v.clone()));
                        if let Some(dir) = trace {
                            let js = serde_json::to_value(&v).unwrap();
                            let file = format!("{dir}/{}-{w}.json", self.name.replace(' ', "-"));
                            fs::write(file, replay_doc(ctx, self.name, &js, "")).unwrap();
                        }
                        let r = no_panic(|| check(&v)).and_then(|r| r);
                        {
                            let mut slot = slot.lock().unwrap();
                            slot.current = None;
                            if let Err(e) = &r {
                                slot.failed = Some((v.clone(), e.clone()));
                            }
                        }
                        match r {
                            Ok(info) => {
                                if !shrinking {
                                    let js = serde_json::to_value(&v).unwrap();
                                    let mut st = stats.lock().unwrap();
                                    st.evaluations += 1;
                                    for l in info.labels {
                                        *st.labels.entry(l).or_default() += 1;
                                    }
                                    if info.nontrivial {
                                        let text = js.to_string();
                                        let new = st.distinct.insert(hash64(&text));
                                        let k = st.distinct.len();
                                        if new
                                            && (k == 1 || k == 17 || k == 211)
                                            && text.len() < 4000
                                        {
                                            st.samples.push(js);
                                        }
                                    }
                                }
                                Ok(())
                            },
                            Err(e) => {
                                failing.store(true, Ordering::Relaxed);
                                stop.store(true, Ordering::Relaxed);
                                Err(TestCaseError::fail(e))
                            },
                        }
                    });
                    running.fetch_sub(1, Ordering::Relaxed);
                    match res {
                        Ok(()) => {},
                        Err(TestError::Fail(reason, value)) => {
                            let js = serde_json::to_value(&value).unwrap();
                            let msg = reason.message().to_string();
                            let path = write_replay(ctx, self.name, &js, &msg);
                            stats.lock().unwrap().violations.push((msg, path));
                        },
                        Err(TestError::Abort(r)) => {
                            eprintln!("generator aborted in {}: {r}", self.name);
                            std::process::exit(2);
                        },
                    }
                }).unwrap();
            }
        });
        stats.into_inner().unwrap()
    }
}

fn replay_doc(ctx: &Ctx, sub: &str, value: &Value, msg: &str) -> String {
    let doc = json!({
        "property": ctx.property, "sub": sub, "profile": PROFILE, "seed": ctx.seed,
        "message": msg, "value": value,
    });
    serde_json::to_string_pretty(&doc).unwrap()
}

pub fn write_replay(ctx: &Ctx, sub: &str, value: &Value, msg: &str) -> String {
    let text = replay_doc(ctx, sub, value, msg);
    fs::create_dir_all(&ctx.replay_dir).unwrap();
    let path = ctx.replay_dir.join(format!(
        "{}-{}-{:016x}.json",
        ctx.property,
        sub.replace(' ', "-"),
        hash64(&value.to_string())
    ));
    fs::write(&path, text).unwrap();
    path.display().to_string()
}
