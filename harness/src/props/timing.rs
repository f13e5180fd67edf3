//! C10, C11: timeouts.
//!
//! Real time cannot be replaced here (the timer is made inside of the search). The checks
//! therefore only use one-sided comparisons with margins of seconds where milliseconds are
//! expected, or make the search wait for the timer themselves, through the accept function.

use std::{
    fs,
    io::Read,
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        mpsc, Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::{
    interface::{run, Path},
    probabilistic::AcceptFunc,
    timer::Timer,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::config::{self, Acc, Cfg};
use crate::{
    core::{hash64, no_panic, sub_w, CheckResult, Info, Sub},
    gen,
    model::{costs, execute, show, Problem},
};

fn custom(f: impl Fn([f64; 7]) -> f64 + Send + Sync + 'static) -> AcceptFunc {
    AcceptFunc::Custom(Box::new(move |a, b, c, d, e, g, h| f([a, b, c, d, e, g, h])))
}

pub fn valid(p: &Problem, res: &[Path]) -> Result<(), String> {
    for path in res {
        match execute(p, &path.steps) {
            Ok(s) if s == path.space && path.steps.len() == path.time => {},
            r => return Err(format!("invalid path ({r:?}) in {}", show(res))),
        }
    }
    for w in res.windows(2) {
        if !(w[0].time < w[1].time && w[0].space > w[1].space) {
            return Err(format!("not a strict trade-off list: {:?}", costs(res)));
        }
    }
    Ok(())
}

// ------------------------------------------------------------- C10: endless searches stop

/// how long a search with a timeout of milliseconds may take
pub const PATIENCE: Duration = Duration::from_secs(15);

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Endless {
    pub p: Problem,
    pub cfg: Cfg,
}

fn endless() -> BoxedStrategy<Endless> {
    (
        prop_oneof![
            2 => gen::wide_problem(18, 36, f64::INFINITY),
            1 => gen::problem(18, 36, f64::INFINITY),
            1 => gen::large_problem(120),
        ],
        config::any_threads(),
        prop_oneof![
            2 => Just(None),
            2 => (0u32..10).prop_map(Some),
            1 => (10u32..3000).prop_map(Some),
            2 => Just(Some(u32::MAX)),
        ],
        prop_oneof![
            3 => Just(None),
            1 => prop_oneof![
                Just(Acc::Const(1000)), (1u32..1000).prop_map(Acc::Const), Just(Acc::Builtin)
            ].prop_map(|a| Some((a, Some(1)))),
        ],
        prop_oneof![1 => Just(0u64), 4 => 1u64..60_000],
    )
        .prop_map(|(p, nthreads, task_bound, prob, timeout)| Endless {
            p,
            cfg: Cfg { search: true, nthreads, task_bound, prob, timeout: Some(timeout) },
        })
        .boxed()
}

/// the case in a process of its own (with limited memory), as it cannot be stopped otherwise
pub fn child(kind: &str, file: &str) {
    assert!(["endless", "known"].contains(&kind));
    let c: Endless = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let res = no_panic(|| c.cfg.run(&c.p)).and_then(|r| valid(&c.p, &r).map(|_| costs(&r)));
    println!("{}", json!(res));
}

/// the costs; or, in the inner result, how it did not end
#[allow(clippy::type_complexity)]
pub fn in_child(kind: &str, c: &Endless) -> Result<Result<Vec<(usize, usize)>, String>, String> {
    let dir = std::env::temp_dir().join(format!("vh-c10-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let file = dir.join(format!("{:?}.json", thread::current().id()));
    fs::write(&file, serde_json::to_string(c).unwrap()).unwrap();
    let start = Instant::now();
    let mut child = Command::new("/bin/sh")
        .args(["-c", "ulimit -v 6000000; exec \"$0\" child \"$1\" \"$2\""])
        .arg(std::env::current_exe().unwrap())
        .arg(kind)
        .arg(&file)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start the child");
    let status = loop {
        if let Some(s) = child.try_wait().unwrap() {
            break Some(s);
        }
        if start.elapsed() > PATIENCE {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        thread::sleep(Duration::from_millis(2));
    };
    let _ = fs::remove_file(&file);
    let ms = c.cfg.timeout.unwrap() as f64 / 1000.;
    match status {
        None => {
            return Ok(Err(format!("still running after {PATIENCE:?}, the timeout was {ms} ms")))
        },
        Some(s) if !s.success() => {
            return Ok(Err(format!("used up its memory or crashed ({s}), the timeout was {ms} ms")))
        },
        Some(_) => {},
    }
    let mut out = String::new();
    child.stdout.take().unwrap().read_to_string(&mut out).unwrap();
    let res: Result<Vec<(usize, usize)>, String> = serde_json::from_str(&out)
        .map_err(|e| format!("bad output of the child: {e}: {out}"))?;
    res.map(Ok)
}

fn check_endless(c: &Endless) -> CheckResult {
    let mut last = String::new();
    for _ in 0..3 {
        match in_child("endless", c)? {
            Err(e) => last = e,
            Ok(found) => {
                return Ok(Info::new(c.p.num_ordered() >= 18)
                    .label(found.is_empty(), "nothing found")
                    .label(found.len() >= 2, "trade-off")
                    .label(c.cfg.nthreads > 1, "threaded")
                    .label(c.cfg.prob.is_some(), "probabilistic")
                    .label(c.cfg.task_bound == Some(u32::MAX), "tasks unlimited"))
            },
        }
    }
    Err(format!("{last} (three times)"))
}

// ------------------------------------------ C10: what exhaustive searches have found is kept

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Known {
    p: Problem,
    nthreads: u16,
    task_bound: Option<u32>,
    steps: u64,
}

fn known() -> BoxedStrategy<Known> {
    (
        prop_oneof![
            2 => gen::wide_problem(16, 32, f64::INFINITY),
            1 => gen::problem(16, 32, f64::INFINITY),
            1 => gen::large_problem(60),
        ],
        prop_oneof![1 => 0u16..=1, 2 => 2u16..=4],
        prop_oneof![1 => Just(None), 4 => (0u32..4).prop_map(Some), 1 => (4u32..300).prop_map(Some)],
        100u64..3000,
    )
        .prop_map(|(p, nthreads, task_bound, steps)| Known { p, nthreads, task_bound, steps })
        .boxed()
}

/// An exhaustive search that is stopped long after its first few steps has to return what these
/// steps find. What they find is told by a probabilistic search that accepts them all.
fn check_known(c: &Known) -> CheckResult {
    let begin = Instant::now();
    let timeout = Duration::from_millis(100);
    let calls = AtomicU64::new(0);
    let steps = c.steps;
    let accept = custom(move |_| {
        if calls.fetch_add(1, Ordering::Relaxed) < steps {
            return 1.;
        }
        let end = timeout + Duration::from_millis(80);
        thread::sleep(end.saturating_sub(begin.elapsed()));
        0.
    });
    let (g, o) = (&c.p.graph, &c.p.order);
    let prob = Some((accept, Some(3)));
    let first = no_panic(|| run(g, o, true, Some(timeout), c.nthreads, c.task_bound, prob))?;
    let first = costs(&first);
    let mut last = (vec![], 0);
    for ms in [400u64, 1500, 6000] {
        let e = Endless {
            p: c.p.clone(),
            cfg: Cfg {
                search: true,
                nthreads: c.nthreads,
                task_bound: c.task_bound,
                prob: None,
                timeout: Some(ms * 1000),
            },
        };
        let Ok(found) = in_child("known", &e)? else {
            // the matter of check_endless
            return Ok(Info::new(false).label(true, "did not end"));
        };
        if first.iter().all(|a| found.iter().any(|b| b.0 <= a.0 && b.1 <= a.1)) {
            return Ok(Info::new(!first.is_empty())
                .label(first.len() > 1, "several paths")
                .label(c.nthreads > 1, "threaded")
                .label(ms > 400, "repeated"));
        }
        last = (found, ms);
    }
    Err(format!(
        "the first {} steps of the search find {:?} (time, space), but {:?} is returned when the \
         timeout stops it after {} ms (and after less)",
        c.steps, first, last.0, last.1
    ))
}

// -------------------------------------------------------- C10: many short tasks are dropped

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pending {
    p: Problem,
    nthreads: u16,
    task_bound: Option<u32>,
    timeout: u64,
    /// accept every step with this probability in 1/1000
    prob: u32,
}

fn pending() -> BoxedStrategy<Pending> {
    (
        (9usize..=11, any::<u64>()).prop_map(|(n, seed)| {
            // no dependencies: 3^n calls even if everything is refused
            let mut rng = seed;
            let mut graph = vec![vec![]; n];
            for j in 1..n {
                for i in 0..j {
                    if crate::core::splitmix(&mut rng) % 3 == 0 {
                        graph[i].push(j);
                        graph[j].push(i);
                    }
                }
            }
            Problem { graph, order: vec![(0..n).map(|i| (i, vec![])).collect()] }
        }),
        2u16..=4,
        prop_oneof![2 => Just(None), 1 => (300u32..1000).prop_map(Some)],
        0u64..40,
        prop_oneof![2 => Just(0u32), 1 => 1u32..100],
    )
        .prop_map(|(p, nthreads, task_bound, timeout, prob)| Pending {
            p,
            nthreads,
            task_bound,
            timeout,
            prob,
        })
        .boxed()
}

/// Every step takes a millisecond, so that the timer gets its time even on a busy machine;
/// the steps made long after the timeout are counted.
fn check_pending(c: &Pending) -> CheckResult {
    let start = Instant::now();
    let late_from = Duration::from_millis(c.timeout + 400);
    // each worker may go on for 1000 steps, and a bit
    let allowed = c.nthreads as u64 * 1100 + 100;
    let late = Arc::new(AtomicU64::new(0));
    let l = late.clone();
    let prob = c.prob as f64 / 1000.;
    let accept = custom(move |_| {
        if start.elapsed() > late_from && l.fetch_add(1, Ordering::Relaxed) > allowed {
            return 0.; // enough is known
        }
        thread::sleep(Duration::from_millis(1));
        prob
    });
    let res = no_panic(|| {
        run(
            &c.p.graph,
            &c.p.order,
            true,
            Some(Duration::from_millis(c.timeout)),
            c.nthreads,
            c.task_bound,
            Some((accept, Some(5))),
        )
    })?;
    let late = late.load(Ordering::Relaxed);
    if late > allowed {
        return Err(format!(
            "more than {allowed} steps were taken later than {late_from:?} after the start, the \
             timeout was {} ms; {} threads",
            c.timeout, c.nthreads
        ));
    }
    valid(&c.p, &res)?;
    Ok(Info::new(true).label(late > 0, "late steps").label(!res.is_empty(), "results"))
}

// ----------------------------------------------------- C10: results found before are kept

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Kept {
    p: Problem,
    /// pseudo-random 0/1 acceptance, in n/256
    key: u64,
    n: u32,
    /// the call (relative to all calls, in 1/1000) at which the time is up
    at: u32,
    nthreads: u16,
    /// only the remaining task, i.e., sequentially in a worker; else many tasks
    split: bool,
}

fn kept() -> BoxedStrategy<Kept> {
    (
        prop_oneof![
            2 => gen::problem(4, 9, 1e5),
            2 => gen::wide_problem(5, 9, 1e6),
            1 => gen::long_problem(4, 40, 1e5)
        ],
        any::<u64>(),
        prop_oneof![1 => Just(256u32), 1 => 200u32..=254],
        0u32..=1000,
        prop_oneof![1 => Just(1u16), 1 => 2u16..=4],
        any::<bool>(),
    )
        .prop_map(|(p, key, n, at, nthreads, split)| Kept { p, key, n, at, nthreads, split })
        .boxed()
}

struct Stop {
    calls: u64,
    after: u64,
    minimal: f64,
    result: Vec<Path>,
}

fn run_kept(c: &Kept, at: u64, timeout: Option<Duration>) -> Result<Stop, String> {
    let state = Arc::new(Mutex::new((0u64, 0u64, f64::INFINITY)));
    let s = state.clone();
    let (key, n) = (c.key, c.n);
    let begin = Instant::now();
    let accept = custom(move |a: [f64; 7]| {
        let call = {
            let mut s = s.lock().unwrap();
            s.0 += 1;
            s.2 = s.2.min(a[1]);
            if s.0 > at + 1 {
                s.1 += 1;
            }
            s.0 - 1
        };
        if call >= at {
            if let Some(t) = timeout {
                // by now the timer has certainly told that the time is up
                let end = t + Duration::from_millis(80);
                if begin.elapsed() < end {
                    thread::sleep(end.saturating_sub(begin.elapsed()));
                }
            }
            return 0.;
        }
        let tree_args = [a[2], a[3], a[4], a[5], a[6]].map(f64::to_bits);
        f64::from(u8::from(hash64(&(key, tree_args)) % 256 < n as u64))
    });
    let result = no_panic(|| {
        run(
            &c.p.graph,
            &c.p.order,
            true,
            timeout,
            c.nthreads,
            Some(if c.split { 1000 } else { 0 }),
            Some((accept, Some(7))),
        )
    })?;
    let s = state.lock().unwrap();
    Ok(Stop { calls: s.0, after: s.1, minimal: s.2, result })
}

fn check_kept(c: &Kept) -> CheckResult {
    let all = run_kept(c, u64::MAX - 1, None)?;
    let at = all.calls * c.at as u64 / 1000;
    // refusing everything from then on: what is known by then is the result
    let reference = run_kept(c, at, None)?;
    let timed = run_kept(c, at, Some(Duration::from_millis(120)))?;
    valid(&c.p, &timed.result)?;
    // a busy machine might not have come that far in time
    let reached = timed.calls > at;
    let sequential = c.nthreads < 2 || !c.split;
    if reached && sequential && show(&timed.result) != show(&reference.result) {
        return Err(format!(
            "the time was up at step {at} of {}, when {} was known; returned {}",
            all.calls,
            show(&reference.result),
            show(&timed.result)
        ));
    }
    let best = timed.result.last().map_or(f64::INFINITY, |p| p.space as f64);
    if timed.minimal < usize::MAX as f64 && best > timed.minimal {
        return Err(format!(
            "a path with space {} was known, returned {}",
            timed.minimal,
            show(&timed.result)
        ));
    }
    Ok(Info::new(reached && !timed.result.is_empty() && all.calls >= 10)
        .label(!reached, "too slow to tell")
        .label(timed.after > 0, "steps after the stop")
        .label(c.nthreads > 1, "threaded")
        .label(costs(&timed.result) != costs(&all.result), "stop matters"))
}

// ------------------------------------------------------------ C10: enough time changes nothing

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Enough {
    p: Problem,
    cfg: Cfg,
    timeout: Long,
}

/// a duration of at least 20 s
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub enum Long {
    Seconds(u64),
    /// 2 to that power, in units of 1000 to the minus that power seconds (what a conversion to a
    /// smaller type would turn into nothing)
    Power { k: u32, unit: u32 },
    Longest,
}

impl Long {
    fn get(self) -> Duration {
        match self {
            Long::Seconds(s) => Duration::from_secs(s),
            Long::Power { k, unit } => {
                let n = 1u128 << k;
                let per_second = 1000u128.pow(unit);
                let nanos = n % per_second * (1_000_000_000 / per_second);
                let secs = u64::try_from(n / per_second).unwrap_or(u64::MAX);
                Duration::new(secs, nanos as u32)
            },
            Long::Longest => Duration::MAX,
        }
    }
}

fn long() -> BoxedStrategy<Long> {
    prop_oneof![
        4 => (20u64..100).prop_map(Long::Seconds),
        2 => (100u64..1_000_000).prop_map(Long::Seconds),
        4 => (0u32..=3, 0u32..63).prop_map(|(unit, j)| {
            // the least power of two that is 20 s or more has this exponent
            let least = [5, 15, 25, 35][unit as usize];
            Long::Power { k: least + j.min(58), unit }
        }),
        // where it matters most: the powers at which a count of 32 or 64 bits starts anew
        2 => (0u32..=3, any::<bool>()).prop_map(|(unit, wide)| {
            Long::Power { k: match (wide, unit) {
                (true, 0) => 63,
                (true, _) => 64,
                (false, 3) => 35,
                (false, _) => 32,
            }, unit }
        }),
        1 => Just(Long::Seconds(u64::MAX)),
        1 => Just(Long::Longest),
    ]
    .boxed()
}

/// `None` if it does not return for six seconds
fn patiently<R: Send + 'static>(f: impl FnOnce() -> R + Send + 'static) -> Option<R> {
    let (tx, rx) = mpsc::channel();
    thread::spawn(move || {
        let _ = tx.send(f());
    });
    rx.recv_timeout(Duration::from_secs(6)).ok()
}

fn check_enough(c: &Enough) -> CheckResult {
    let go = |timeout: Option<Duration>| {
        let c = c.clone();
        move || {
            no_panic(|| {
                run(
                    &c.p.graph,
                    &c.p.order,
                    true,
                    timeout,
                    c.cfg.nthreads,
                    c.cfg.task_bound,
                    c.cfg.prob.as_ref().map(|(a, s)| (a.func(), *s)),
                )
            })
        }
    };
    let timeout = c.timeout.get();
    let want = go(None)()?;
    let mut got = patiently(go(Some(timeout)));
    for _ in 0..2 {
        if got.is_none() {
            got = patiently(go(Some(timeout)));
        }
    }
    let Some(got) = got else {
        return Err(format!(
            "does not return for 6 s with a timeout of {timeout:?}, but at once without (three \
             times)"
        ));
    };
    let got = got?;
    valid(&c.p, &got)?;
    let deterministic = c.cfg.nthreads < 2;
    if deterministic && show(&got) != show(&want) {
        return Err(format!(
            "with a timeout of {timeout:?}: {}; without: {}",
            show(&got),
            show(&want)
        ));
    }
    if c.cfg.prob.is_none() && costs(&got) != costs(&want) {
        return Err(format!(
            "with a timeout of {timeout:?}: {:?}; without: {:?}",
            costs(&got),
            costs(&want)
        ));
    }
    Ok(Info::new(c.p.interesting())
        .label(c.cfg.nthreads > 1, "threaded")
        .label(c.cfg.prob.is_some(), "probabilistic"))
}

fn enough() -> BoxedStrategy<Enough> {
    (
        gen::mixed(8e3),
        config::any_threads(),
        config::task_bound(),
        prop::option::of((config::acc(), config::seed())),
        long(),
    )
        .prop_map(|(p, nthreads, task_bound, prob, timeout)| Enough {
            p,
            cfg: Cfg {
                search: true,
                nthreads,
                task_bound,
                prob: prob.map(|(a, s)| (a, Some(s))),
                timeout: None,
            },
            timeout,
        })
        .boxed()
}

pub fn c10() -> Vec<Box<dyn Sub>> {
    vec![
        sub_w("enough", (12_000, 240_000), 8, enough, check_enough),
        sub_w("kept", (2_400, 48_000), 48, kept, check_kept),
        sub_w("pending", (1_200, 24_000), 24, pending, check_pending),
        sub_w("known", (240, 4_800), 8, known, check_known),
        sub_w("endless", (1_200, 24_000), 6, endless, check_endless),
    ]
}

// ------------------------------------------------------------------------------------ C11

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Timing {
    /// ms (fractions count)
    duration: f64,
    start: bool,
    before: u32,
    /// per thread: pauses between queries in 0.1 ms
    queries: Vec<Vec<u16>>,
    /// wait until it says so, or drop it after the queries
    wait: bool,
}

fn timing() -> BoxedStrategy<Timing> {
    (
        prop_oneof![1 => Just(0.), 2 => 0f64..2., 3 => 2f64..60.],
        prop::bool::weighted(0.85),
        0u32..4,
        vec(vec(0u16..120, 0..12), 0..4),
        any::<bool>(),
    )
        .prop_map(|(duration, start, before, queries, wait)| Timing {
            duration,
            start,
            before,
            queries,
            wait,
        })
        .boxed()
}

fn check_timing(c: &Timing) -> CheckResult {
    let mut timer = if c.before % 2 == 0 { Timer::new() } else { Timer::default() };
    for _ in 0..c.before {
        if timer.finished() {
            return Err("finished before it was started".into());
        }
    }
    let duration = Duration::from_secs_f64(c.duration / 1000.);
    let begin = Instant::now();
    if c.start {
        timer.start(duration);
    }
    let seen = AtomicBool::new(false);
    let query = |timer: &Timer| -> Result<bool, String> {
        let seen_before = seen.load(Ordering::SeqCst);
        let f = timer.finished();
        let elapsed = begin.elapsed();
        if f && !c.start {
            return Err("finished without having been started".into());
        }
        if f && elapsed < duration {
            return Err(format!("finished after {elapsed:?} already, started with {duration:?}"));
        }
        if seen_before && !f {
            return Err("no longer finished".into());
        }
        if f {
            seen.store(true, Ordering::SeqCst);
        }
        Ok(f)
    };
    let results: Vec<Result<u32, String>> = thread::scope(|s| {
        let hs: Vec<_> = c
            .queries
            .iter()
            .map(|pauses| {
                let (timer, query) = (&timer, &query);
                s.spawn(move || {
                    let mut n = 0;
                    for p in pauses {
                        thread::sleep(Duration::from_micros(*p as u64 * 100));
                        n += u32::from(query(timer)?);
                    }
                    Ok(n)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut positive = 0;
    for r in results {
        positive += r?;
    }
    if c.wait && c.start {
        let late = begin + duration + Duration::from_secs(20);
        while !query(&timer)? {
            if Instant::now() > late {
                return Err(format!("not finished 20 s after {duration:?} were over"));
            }
            thread::sleep(Duration::from_micros(300));
        }
        for _ in 0..3 {
            query(&timer)?;
        }
    }
    if patiently(move || drop(timer)).is_none() {
        return Err("dropping it takes more than 6 s".into());
    }
    Ok(Info::new(c.start && (c.wait || !c.queries.is_empty()))
        .label(!c.start, "never started")
        .label(positive > 0, "seen finished by a thread")
        .label(c.start && !c.wait && positive == 0, "dropped while running"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Dropping {
    duration: Long,
    /// 0.1 ms
    after: u16,
    queries: u8,
}

fn check_dropping(c: &Dropping) -> CheckResult {
    let mut timer = Timer::new();
    timer.start(c.duration.get());
    for _ in 0..c.queries {
        if timer.finished() {
            return Err("finished at once".into());
        }
    }
    thread::sleep(Duration::from_micros(c.after as u64 * 100));
    if timer.finished() {
        return Err("finished too early".into());
    }
    if patiently(move || drop(timer)).is_none() {
        return Err(format!("dropping a timer of {:?} takes more than 6 s", c.duration.get()));
    }
    Ok(Info::new(true).label(c.after == 0, "dropped at once"))
}

pub fn c11() -> Vec<Box<dyn Sub>> {
    vec![
        sub_w("history", (8_000, 160_000), 32, timing, check_timing),
        sub_w(
            "dropping",
            (3000, 60_000),
            16,
            || {
                (
                    long(),
                    prop_oneof![2 => Just(0u16), 1 => 0u16..40],
                    0u8..4,
                )
                    .prop_map(|(duration, after, queries)| Dropping { duration, after, queries })
                    .boxed()
            },
            check_dropping,
        ),
    ]
}
