//! Property-based checks for the results program (C20). Driven by /verif/check.py.
//!
//! The program is the repository's own; the library it calls records the problems it gets and
//! answers with generated results (shim/).

#[path = "../../harness/src/core.rs"]
#[allow(dead_code)]
mod core;
#[path = "../../harness/src/driver.rs"]
mod driver;
#[path = "../../harness/src/model.rs"]
#[allow(dead_code)]
mod model;

use std::{
    collections::BTreeMap,
    env, fs,
    process::{exit, Command, Stdio},
    sync::{Arc, Mutex},
    time::{Duration, Instant},
};

use mbqc_scheduling::interface::{Call, Path, HOOK};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

use crate::{
    core::{hash64, install_panic_hook, no_panic, splitmix, sub, CheckResult, Info, Sub},
    model::Problem,
};

fn main() {
    install_panic_hook();
    if env::var("VH_RESULTS_CHILD").is_ok() {
        return child();
    }
    let args: Vec<String> = env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "run" => driver::run(subs, arg(2), arg(3), arg(4)),
        "replay" => driver::replay(subs, arg(2)),
        _ => exit(2),
    }
}

fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C20" => vec![
            sub("density", (64, 1_280), density, check_case),
            sub("node", (16, 320), node, check_case),
        ],
        _ => vec![],
    }
}

// ---------------------------------------------------------------------------------- cases

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Type {
    Constant,
    Linear,
    Root,
}

impl Type {
    fn name(self) -> &'static str {
        match self {
            Type::Constant => "constant",
            Type::Linear => "reziprocal_linear",
            Type::Root => "reziprocal_square_root",
        }
    }
    fn at(self, factor: f64, n: usize) -> f64 {
        let n = n as f64;
        match self {
            Type::Constant => factor,
            Type::Linear => factor / (n - 1.),
            Type::Root => factor / (n - 1.).sqrt(),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mode {
    Node { edge: (Type, f64), correction: (Type, f64) },
    Density { nodes: usize, multiplier: f64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    mode: Mode,
    /// of the generated results
    key: u64,
    /// in 1/1000: how often a probabilistic (or full) search finds nothing
    missing: u32,
    /// costs are below this
    range: usize,
}

fn with_answers(mode: BoxedStrategy<Mode>) -> BoxedStrategy<Case> {
    (
        mode,
        any::<u64>(),
        prop_oneof![1 => Just(0u32), 2 => 1u32..200, 1 => 200u32..900],
        prop_oneof![1 => 2usize..6, 2 => 6usize..60, 1 => 60usize..100_000],
    )
        .prop_map(|(mode, key, missing, range)| Case { mode, key, missing, range })
        .boxed()
}

fn factor() -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.),
        1 => Just(1.),
        4 => (1u32..1000).prop_map(|f| f as f64 / 1000.),
        2 => (0u32..1_000_000).prop_map(|f| f as f64 / 1e6),
    ]
    .boxed()
}

fn node() -> BoxedStrategy<Case> {
    let ty = || prop_oneof![Just(Type::Root), Just(Type::Linear), Just(Type::Constant)];
    with_answers(
        ((ty(), factor()), (ty(), factor()))
            .prop_map(|(edge, correction)| Mode::Node { edge, correction })
            .boxed(),
    )
}

fn density() -> BoxedStrategy<Case> {
    let mult = prop_oneof![
        3 => (1u32..=21).prop_map(|m| m as f64),
        1 => (0u32..=220).prop_map(|m| m as f64 / 10.),
    ];
    with_answers(
        (prop_oneof![5 => 1usize..=24, 1 => 25usize..=40], mult)
            .prop_map(|(nodes, multiplier)| Mode::Density { nodes, multiplier })
            .boxed(),
    )
}

impl Case {
    fn args(&self) -> Vec<String> {
        match &self.mode {
            Mode::Node { edge, correction } => vec![
                "node".into(),
                format!("{}", edge.1),
                format!("{}", correction.1),
                edge.0.name().into(),
                correction.0.name().into(),
            ],
            Mode::Density { nodes, multiplier } => {
                vec!["density".into(), format!("{nodes}"), format!("{multiplier}")]
            },
        }
    }
}

fn check_case(c: &Case) -> CheckResult {
    let dir = env::temp_dir().join(format!(
        "vh-c20-{}-{:016x}-{:?}",
        std::process::id(),
        hash64(&serde_json::to_string(c).unwrap()),
        std::thread::current().id()
    ));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    fs::write(dir.join("case.json"), serde_json::to_string(c).unwrap()).unwrap();
    let ended = Command::new(env::current_exe().unwrap())
        .args(c.args())
        .env("VH_RESULTS_CHILD", "1")
        .current_dir(&dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .status()
        .expect("cannot start the child");
    let answer = fs::read_to_string(dir.join("answer.json"));
    fs::remove_dir_all(&dir).unwrap();
    let answer = answer.map_err(|_| format!("the program ended with {ended}, without results"))?;
    let labels: Result<Vec<String>, String> = serde_json::from_str(&answer).unwrap();
    let labels = labels?;
    let has = |l: &str| labels.iter().any(|x| x == l);
    Ok(Info::new(has("edges") && has("dependencies"))
        .label(has("missing"), "some searches find nothing")
        .label(has("full"), "with full searches"))
}

// ------------------------------------------------------------------------- one run, recorded

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
enum Kind {
    TimeOptimal,
    Approximated,
    Full,
}

struct Rec {
    n: usize,
    problem: u64,
    timeout: Duration,
    took: Duration,
    nthreads: u16,
    first: Option<(usize, usize)>,
    last: Option<(usize, usize)>,
    /// of the first kind of call only
    details: Option<Details>,
}

struct Details {
    edges: [u64; 16],
    graph: u64,
    sources: u64,
    sinks: u64,
    closure: u64,
    layers: u64,
}

#[derive(Default)]
struct Log {
    calls: BTreeMap<Kind, Vec<Rec>>,
    error: Option<String>,
}

fn pair(i: usize, j: usize) -> usize {
    j * (j - 1) / 2 + i
}

fn details(p: &Problem) -> Details {
    let n = p.n();
    let mut edges = [0u64; 16];
    for (j, ns) in p.graph.iter().enumerate() {
        for &i in ns.iter().filter(|&&i| i < j) {
            edges[pair(i, j) / 64] |= 1 << (pair(i, j) % 64);
        }
    }
    let mut below = vec![0u64; n];
    let mut used = 0u64;
    for (b, deps) in p.order.iter().flatten() {
        for &d in deps {
            below[*b] |= below[d] | 1 << d;
            used |= 1 << d;
        }
    }
    let all = if n == 64 { u64::MAX } else { (1 << n) - 1 };
    Details {
        edges,
        graph: hash64(&edges),
        sources: p.order[0].iter().fold(0, |s, (b, _)| s | 1 << b),
        sinks: all & !used,
        closure: below.iter().map(|b| b.count_ones() as u64).sum(),
        layers: p.order.len() as u64,
    }
}

/// a valid problem in which every node is ordered (quickly; at most 64 nodes)
fn valid(p: &Problem) -> Result<(), String> {
    let n = p.n();
    if n == 0 || n > 64 {
        return Err(format!("{n} nodes"));
    }
    let mut sets = vec![0u64; n];
    for (i, ns) in p.graph.iter().enumerate() {
        for &j in ns {
            if j >= n || j == i {
                return Err(format!("bad edge {i}-{j}"));
            }
            if sets[i] >> j & 1 == 1 {
                return Err(format!("repeated edge {i}-{j}"));
            }
            sets[i] |= 1 << j;
        }
    }
    for i in 0..n {
        for j in 0..i {
            if sets[i] >> j & 1 != sets[j] >> i & 1 {
                return Err(format!("edge {i}-{j} is in one list only"));
            }
        }
    }
    let mut before = 0u64;
    let mut last = 0u64; // the previous layer
    for (l, layer) in p.order.iter().enumerate() {
        let mut here = 0u64;
        if layer.is_empty() {
            return Err("empty layer".into());
        }
        for (b, deps) in layer {
            let mut set = 0u64;
            for &d in deps {
                if d >= n || before >> d & 1 == 0 {
                    return Err(format!("{b} depends on {d}, which is not in an earlier layer"));
                }
                if set >> d & 1 == 1 {
                    return Err(format!("{b} depends on {d} twice"));
                }
                set |= 1 << d;
            }
            if (l == 0) != deps.is_empty() || (l > 0 && set & last == 0) {
                return Err(format!("{b} is in the wrong layer"));
            }
            if *b >= n || (before | here) >> b & 1 == 1 {
                return Err(format!("{b} is ordered twice, or is no node"));
            }
            here |= 1 << b;
        }
        before |= here;
        last = here;
    }
    if before.count_ones() as usize != n {
        return Err("not all nodes are ordered".into());
    }
    Ok(())
}

fn record(c: &Case, log: &Arc<Mutex<Log>>, call: Call<'_>, count: &mut u64) -> Vec<Path> {
    let start = Instant::now();
    let kind = match (call.do_search, &call.probabilistic) {
        (false, _) => Kind::TimeOptimal,
        (true, Some(_)) => Kind::Approximated,
        (true, None) => Kind::Full,
    };
    let p = Problem { graph: call.graph.to_vec(), order: call.order.to_vec() };
    let mut log = log.lock().unwrap();
    if kind == Kind::TimeOptimal {
        if let Err(e) = valid(&p) {
            log.error.get_or_insert(format!(
                "invalid problem ({e}): {}",
                serde_json::to_string(&p).unwrap()
            ));
            panic!("stop here");
        }
    }
    // the answer
    *count += 1;
    let mut rng = c.key ^ *count;
    let mut draw = |k: usize| (splitmix(&mut rng) % k as u64) as usize;
    let empty = kind != Kind::TimeOptimal && draw(1000) < c.missing as usize;
    let number = match (empty, kind) {
        (true, _) => 0,
        (_, Kind::TimeOptimal) => 1,
        _ => 1 + draw(4),
    };
    let mut time = 1 + draw(c.range);
    let mut space = number + draw(c.range);
    let mut res = vec![];
    for _ in 0..number {
        res.push(Path { time, space, steps: vec![] });
        time += 1 + draw(3);
        space -= 1;
    }
    let costs = |p: &Path| (p.time, p.space);
    let rec = Rec {
        n: p.n(),
        problem: hash64(&(&p.graph, &p.order)),
        timeout: call.timeout.unwrap_or_default(),
        nthreads: call.nthreads,
        first: res.first().map(costs),
        last: res.last().map(costs),
        details: (kind == Kind::TimeOptimal).then(|| details(&p)),
        took: Duration::default(),
    };
    if kind == Kind::Full && call.timeout.is_some() {
        log.error.get_or_insert("a full search has a timeout".into());
    }
    if kind == Kind::Approximated && call.timeout.is_none() {
        log.error.get_or_insert("an approximated search has no timeout".into());
    }
    let calls = log.calls.entry(kind).or_default();
    calls.push(rec);
    calls.last_mut().unwrap().took = start.elapsed();
    res
}

fn child() {
    let c: Case = serde_json::from_str(&fs::read_to_string("case.json").unwrap()).unwrap();
    let log = Arc::new(Mutex::new(Log::default()));
    let (c_, l) = (c.clone(), log.clone());
    let mut count = 0;
    *HOOK.lock().unwrap() = Some(Box::new(move |call| record(&c_, &l, call, &mut count)));
    let run = no_panic(|| results::run(results::cli::parse()));
    let log = match log.lock() {
        Ok(l) => l,
        Err(l) => l.into_inner(),
    };
    let res = match (&log.error, run) {
        (Some(e), _) => Err(e.clone()),
        (None, Err(e)) => Err(e),
        (None, Ok(())) => no_panic(|| judge(&c, &log)).and_then(|r| r),
    };
    let res = res.map_err(|e| format!("{}: {e}", c.args().join(" ")));
    fs::write("answer.json", serde_json::to_string(&res).unwrap()).unwrap();
}

// ------------------------------------------------------------------------------ the oracle

/// Is `k` out of `n` too far from the mean `p`? Chernoff's bound, which also holds for sums of
/// independent indicators with different means of average `p`; wrong once in e^45.
fn far(k: u64, n: u64, p: f64) -> bool {
    if n == 0 {
        return false;
    }
    let q = k as f64 / n as f64;
    let term = |a: f64, b: f64| if a == 0. { 0. } else { a * (a / b).ln() };
    // rounding errors of p
    let (lo, hi) = ((p - 1e-9).max(0.), (p + 1e-9).min(1.));
    let p = q.clamp(lo, hi);
    let kl = term(q, p) + term(1. - q, 1. - p);
    (q > 0. && p == 0.) || (q < 1. && p == 1.) || n as f64 * kl > 45.
}

/// closures and layers of random dependencies, independently made: means and variances
fn reference(n: usize, d: f64, samples: u64) -> [(f64, f64); 2] {
    let mut rng = 12345 + n as u64;
    let mut uniform = || (splitmix(&mut rng) >> 11) as f64 / (1u64 << 53) as f64;
    let (mut s, mut s2) = ([0.; 2], [0.; 2]);
    for _ in 0..samples {
        let mut below = vec![0u64; n];
        let mut level = vec![0; n];
        for j in 0..n {
            for i in 0..j {
                if uniform() < d {
                    below[j] |= below[i] | 1 << i;
                    level[j] = level[j].max(level[i] + 1);
                }
            }
        }
        let closure: u32 = below.iter().map(|b| b.count_ones()).sum();
        for (k, v) in [closure as f64, 1. + *level.iter().max().unwrap() as f64].iter().enumerate() {
            s[k] += v;
            s2[k] += v * v;
        }
    }
    let m = samples as f64;
    [0, 1].map(|k| (s[k] / m, (s2[k] / m - (s[k] / m).powi(2)).max(0.)))
}

fn point_distribution(recs: &[Rec], n: usize, edge: f64, correction: f64) -> Result<(), String> {
    let m = recs.len() as u64;
    let det: Vec<&Details> = recs.iter().map(|r| r.details.as_ref().unwrap()).collect();
    let at = format!("with {n} nodes, edge density {edge}, correction density {correction}");
    // edges
    let pairs = n * (n - 1) / 2;
    let mut count = vec![0u64; pairs];
    for d in &det {
        for (k, c) in count.iter_mut().enumerate() {
            *c += d.edges[k / 64] >> (k % 64) & 1;
        }
    }
    let total: u64 = count.iter().sum();
    if far(total, m * pairs as u64, edge) {
        return Err(format!(
            "{at}: the edge density is {}",
            total as f64 / (m * pairs as u64) as f64
        ));
    }
    for j in 1..n {
        for i in 0..j {
            let k = count[pair(i, j)];
            if far(k, m, edge) {
                return Err(format!("{at}: the edge {i}-{j} is in {k} of {m} graphs"));
            }
        }
    }
    // every graph is a new one
    let equal = (edge * edge + (1. - edge).powi(2)).powi(pairs as i32);
    for shift in [0, 1] {
        let same = det[shift..]
            .chunks_exact(2)
            .filter(|p| p[0].graph == p[1].graph)
            .count() as u64;
        let of = (m - shift as u64) / 2;
        if same as f64 > of as f64 * equal && far(same, of, equal) {
            return Err(format!("{at}: {same} of {of} graphs are like the one before"));
        }
    }
    // nodes without dependencies, and without dependents
    let alone: f64 = (0..n).map(|k| (1. - correction).powi(k as i32)).sum::<f64>() / n as f64;
    for (what, get) in [
        ("are independent", (|d: &Details| d.sources) as fn(&Details) -> u64),
        ("have no dependents", |d| d.sinks),
    ] {
        let total: u64 = det.iter().map(|d| get(d).count_ones() as u64).sum();
        if far(total, m * n as u64, alone) {
            return Err(format!(
                "{at}: {} of the nodes {what}, {alone} are expected",
                total as f64 / (m * n as u64) as f64
            ));
        }
        for b in 0..n {
            let k = det.iter().filter(|d| get(d) >> b & 1 == 1).count() as u64;
            if far(k, m, alone) {
                return Err(format!("{at}: node {b} is in {k} of {m} cases among those that {what}"));
            }
        }
    }
    // depth, and all dependencies, direct or not
    let samples = 1000u64;
    let want = reference(n, correction, samples);
    for (k, what) in ["dependencies (direct or not)", "layers"].iter().enumerate() {
        let vals = det.iter().map(|d| if k == 0 { d.closure } else { d.layers });
        let mean = vals.sum::<u64>() as f64 / m as f64;
        let (exp, var) = want[k];
        let tol = 9. * (var / samples as f64 + var / m as f64).sqrt() + 60. / samples as f64;
        if (mean - exp).abs() > tol {
            return Err(format!("{at}: on average {mean} {what}, {exp} are expected (+- {tol})"));
        }
    }
    Ok(())
}

fn statistics(vals: &[f64]) -> (f64, f64) {
    let n = vals.len() as f64;
    let mean = vals.iter().sum::<f64>() / n;
    (mean, (vals.iter().map(|v| (v - mean).powi(2)).sum::<f64>() / n).sqrt())
}

fn judge(c: &Case, log: &Log) -> Result<Vec<String>, String> {
    let files: Vec<_> = fs::read_dir("output")
        .map_err(|_| "no output directory")?
        .map(|f| f.unwrap().file_name().into_string().unwrap())
        .collect();
    if files.len() != 1 {
        return Err(format!("{} output files: {files:?}", files.len()));
    }
    let text = fs::read_to_string(format!("output/{}", files[0])).unwrap();
    let out: Value = serde_json::from_str(&text).map_err(|e| format!("bad output: {e}"))?;
    let number = |k: &str| {
        out[k].as_u64().map(|x| x as usize).ok_or_else(|| format!("output without {k}: {}", out[k]))
    };
    let num_average = number("num_average")?;
    let results: Vec<Vec<Option<f64>>> = serde_json::from_value(out["results"].clone())
        .map_err(|e| format!("output without results: {e}"))?;
    let none = vec![];
    let optimal = log.calls.get(&Kind::TimeOptimal).unwrap_or(&none);
    let approximated = log.calls.get(&Kind::Approximated).unwrap_or(&none);
    let full = log.calls.get(&Kind::Full).unwrap_or(&none);

    // what is written about the parameters
    let (name, points): (String, Vec<(usize, f64, f64)>) = match &c.mode {
        Mode::Node { edge, correction } => {
            let max = number("max_size")?;
            for (k, (ty, factor)) in [("edge_density", edge), ("correction_density", correction)] {
                let want = serde_json::json!({ ty.name(): factor });
                if out[k] != want {
                    return Err(format!("{k} is written as {}, it is {want}", out[k]));
                }
            }
            (
                format!(
                    "node-{}:{:?}_{}:{:?}.json",
                    edge.0.name(),
                    edge.1,
                    correction.0.name(),
                    correction.1
                ),
                (2..=max)
                    .map(|n| (n, edge.0.at(edge.1, n), correction.0.at(correction.1, n)))
                    .collect(),
            )
        },
        Mode::Density { nodes, multiplier } => {
            let num = number("num_density")?;
            if number("size")? != *nodes || out["edge_density_multiplier"].as_f64() != Some(*multiplier) {
                return Err(format!(
                    "parameters written: {}, {}",
                    out["size"], out["edge_density_multiplier"]
                ));
            }
            let unit = num as f64 + 1.;
            (
                format!("density-numnodes:{nodes}_numdensities:{num}_density:{multiplier}.json"),
                (1..=num).map(|k| (*nodes, multiplier / unit, k as f64 / unit)).collect(),
            )
        },
    };
    if !matches!(&c.mode, Mode::Node { edge, correction } if edge.1 < 1e-4 || correction.1 < 1e-4)
        && files[0] != name
    {
        return Err(format!("the output is in {}, not in {name}", files[0]));
    }

    // as many searches as it says, on the same problems
    for (kind, calls) in &log.calls {
        if calls.len() % num_average != 0 {
            return Err(format!("{} searches ({kind:?}), {num_average} are averaged", calls.len()));
        }
    }
    if optimal.len() != points.len() * num_average || approximated.len() != optimal.len() {
        return Err(format!(
            "{} time optimal and {} approximated searches for {} points with {num_average} each",
            optimal.len(),
            approximated.len(),
            points.len()
        ));
    }
    if full.len() > optimal.len() {
        return Err(format!("{} full searches", full.len()));
    }
    for (kind, calls) in &log.calls {
        for (i, (a, b)) in calls.iter().zip(optimal).enumerate() {
            if a.problem != b.problem {
                return Err(format!("search {i} ({kind:?}) is on another problem"));
            }
        }
        if let Some(a) = calls.iter().find(|a| a.nthreads as usize > number("ncpus").unwrap_or(0)) {
            return Err(format!("{} threads, {} processors", a.nthreads, out["ncpus"]));
        }
    }
    let total: Duration = approximated.iter().map(|a| a.timeout).sum();
    let hours = number("walltime")? as f64;
    if total.as_secs_f64() > hours * 3600. {
        return Err(format!("the timeouts sum up to {total:?}, the walltime is {hours} h"));
    }

    // the problems
    for (k, (n, edge, correction)) in points.iter().enumerate() {
        let recs = &optimal[k * num_average..(k + 1) * num_average];
        if let Some(r) = recs.iter().find(|r| r.n != *n) {
            return Err(format!("a problem with {} instead of {n} nodes", r.n));
        }
        point_distribution(recs, *n, *edge, *correction)?;
    }

    // means and deviations
    type Get = fn(&Rec) -> Option<(usize, usize)>;
    let mut columns: Vec<(&str, &Vec<Rec>, Get)> = vec![
        ("time optimal", optimal, |r| r.first),
        ("approximated space optimal", approximated, |r| r.last),
    ];
    if matches!(c.mode, Mode::Node { .. }) {
        columns.push(("full, time optimal", full, |r| r.first));
        columns.push(("full, space optimal", full, |r| r.last));
    }
    if results.len() != 4 * columns.len() {
        return Err(format!("{} columns", results.len()));
    }
    for (i, (what, calls, get)) in columns.iter().enumerate() {
        let len = calls.len() / num_average;
        for column in &results[4 * i..4 * i + 4] {
            if column.len() != len {
                return Err(format!("{what}: {} entries, {len} points", column.len()));
            }
        }
        for k in 0..len {
            let found: Vec<(usize, usize)> =
                calls[k * num_average..(k + 1) * num_average].iter().filter_map(get).collect();
            if found.is_empty() {
                continue;
            }
            for (j, cost) in ["time", "space"].iter().enumerate() {
                let vals: Vec<f64> =
                    found.iter().map(|c| if j == 0 { c.0 } else { c.1 } as f64).collect();
                let (mean, dev) = statistics(&vals);
                for (l, name, want) in [(0, "mean", mean), (1, "deviation", dev)] {
                    let got = results[4 * i + 2 * j + l][k];
                    if !got.is_some_and(|g| (g - want).abs() <= 1e-7 * (1. + mean)) {
                        return Err(format!(
                            "{what}, point {k}: the {name} of the {cost} costs is {want}, {got:?} \
                             is written"
                        ));
                    }
                }
            }
        }
    }

    // durations: at least those seen from inside
    let times = out["time_results"].as_array().ok_or("no time_results")?;
    if times.len() != points.len() {
        return Err(format!("{} time results, {} points", times.len(), points.len()));
    }
    for (k, t) in times.iter().enumerate() {
        for (name, calls) in [
            ("time_optimal", optimal),
            ("space_optimal_approximated", approximated),
            ("full", full),
        ] {
            if calls.len() < (k + 1) * num_average {
                continue;
            }
            let d: Duration = serde_json::from_value(t[name].clone())
                .map_err(|e| format!("time result {name}: {e}"))?;
            let own: Duration =
                calls[k * num_average..(k + 1) * num_average].iter().map(|r| r.took).sum();
            if d + Duration::from_nanos(2) < own / num_average as u32 {
                return Err(format!(
                    "{name}, point {k}: {d:?} on average, the calls alone took {:?}",
                    own / num_average as u32
                ));
            }
        }
    }

    let mut labels = vec![];
    if approximated.iter().chain(full).any(|r| r.first.is_none()) {
        labels.push("missing".to_string());
    }
    if !full.is_empty() {
        labels.push("full".into());
    }
    if optimal.iter().any(|r| r.details.as_ref().unwrap().edges != [0; 16]) {
        labels.push("edges".into());
    }
    if optimal.iter().any(|r| r.details.as_ref().unwrap().layers > 1) {
        labels.push("dependencies".into());
    }
    Ok(labels)
}
