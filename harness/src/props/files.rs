//! C16, C17: the file interface and the command line tool.
//!
//! Everything is written into a scratch directory, which is removed again.

use std::{
    collections::{BTreeMap, HashSet},
    env, fs,
    path::PathBuf,
    process::{Child, Command, ExitStatus, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    thread,
    time::{Duration, Instant},
};

use mbqc_scheduling::{
    interface::{run, run_serialized, Path},
    probabilistic::AcceptFunc,
};
use proptest::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};

use super::{
    config::{self, exhaustive, Acc, Cfg},
    timing::{valid, PATIENCE},
};
use crate::{
    core::{no_panic, sub, sub_w, CheckResult, Info, Sub},
    gen,
    model::{costs, dominated_by, show, Problem},
};

// ---------------------------------------------------------------------------- scratch files

pub struct Scratch(PathBuf);

impl Scratch {
    pub fn new() -> Self {
        static COUNTER: AtomicU64 = AtomicU64::new(0);
        let dir = env::temp_dir().join(format!(
            "vh-files-{}-{}",
            std::process::id(),
            COUNTER.fetch_add(1, Ordering::Relaxed)
        ));
        fs::create_dir_all(&dir).expect("cannot make a scratch directory");
        Scratch(dir)
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.0.join(name)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum Fmt {
    Json,
    Bincode,
}
use Fmt::*;

impl Fmt {
    fn name(self) -> &'static str {
        match self {
            Json => "serde_json",
            Bincode => "bincode",
        }
    }
    fn other(self) -> Fmt {
        match self {
            Json => Bincode,
            Bincode => Json,
        }
    }
    fn bytes<T: Serialize>(self, v: &T) -> Vec<u8> {
        match self {
            Json => serde_json::to_vec(v).unwrap(),
            Bincode => bincode::serialize(v).unwrap(),
        }
    }
    fn parse<T: DeserializeOwned + Serialize>(self, b: &[u8]) -> Result<T, String> {
        match self {
            Json => serde_json::from_slice(b).map_err(|e| e.to_string()),
            Bincode => {
                let v: T = bincode::deserialize(b).map_err(|e| e.to_string())?;
                match bincode::serialized_size(&v) {
                    Ok(n) if n == b.len() as u64 => Ok(v),
                    _ => Err("there is something after the value".into()),
                }
            },
        }
    }
}

fn fmt() -> impl Strategy<Value = Fmt> {
    prop_oneof![Just(Json), Just(Bincode)]
}

/// Files and formats of a run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Layout {
    fmts: [Fmt; 3],
    /// directories above the output that do not exist
    nested: u8,
    /// length of an older output file
    old: Option<u32>,
}

fn layout() -> impl Strategy<Value = Layout> {
    (
        [fmt(), fmt(), fmt()],
        prop_oneof![2 => Just(0u8), 1 => 1u8..4],
        prop_oneof![2 => Just(None), 1 => (0u32..20_000).prop_map(Some)],
    )
        .prop_map(|(fmts, nested, old)| Layout { fmts, nested, old })
}

struct Files {
    scratch: Scratch,
    input: [PathBuf; 2],
    output: PathBuf,
    old: Option<Vec<u8>>,
}

impl Files {
    fn new(p: &Problem, l: &Layout) -> Self {
        let scratch = Scratch::new();
        let input = [scratch.path("graph"), scratch.path("order")];
        fs::write(&input[0], l.fmts[0].bytes(&p.graph)).unwrap();
        fs::write(&input[1], l.fmts[1].bytes(&p.order)).unwrap();
        let mut output = scratch.path("out");
        for i in 0..l.nested {
            output = output.join(format!("d{i}"));
        }
        let output = output.join("paths");
        let old = l.old.map(|n| {
            fs::create_dir_all(output.parent().unwrap()).unwrap();
            let old: Vec<u8> = (0..n).map(|i| b'[' + (i % 3) as u8).collect();
            fs::write(&output, &old).unwrap();
            old
        });
        if l.nested == 0 {
            fs::create_dir_all(output.parent().unwrap()).unwrap();
        }
        Files { scratch, input, output, old }
    }

    fn run(&self, f: [&str; 3], cfg: &Cfg, acc: Option<AcceptFunc>) -> Result<(), String> {
        no_panic(|| {
            run_serialized(
                (&self.input[0], f[0]),
                (&self.input[1], f[1]),
                cfg.search,
                cfg.timeout.map(Duration::from_micros),
                cfg.nthreads,
                cfg.task_bound,
                acc,
                (&self.output, f[2]),
            )
            .map_err(|e| format!("error: {e}"))
        })?
    }

    fn result(&self, f: Fmt) -> Result<Vec<Path>, String> {
        let b = fs::read(&self.output).map_err(|e| format!("no output file: {e}"))?;
        f.parse(&b).map_err(|e| format!("the output file cannot be read: {e}"))
    }

    /// no output, or the older one as it was
    fn untouched(&self) -> Result<(), String> {
        match (&self.old, fs::read(&self.output)) {
            (None, Ok(b)) => Err(format!("there is an output file: {:?}", lossy(&b))),
            (Some(_), Err(e)) => Err(format!("the older output file is gone: {e}")),
            (Some(o), Ok(b)) if *o != b => {
                Err(format!("the older output file is changed: {:?}", lossy(&b)))
            },
            _ => Ok(()),
        }
    }
}

fn lossy(b: &[u8]) -> String {
    String::from_utf8_lossy(&b[..b.len().min(300)]).into_owned()
}

fn same(a: &[Path], b: &[Path]) -> bool {
    show(a) == show(b)
}

fn names(l: &Layout) -> [&'static str; 3] {
    l.fmts.map(Fmt::name)
}

/// How the result of a run is determined by its parameters
enum Determined {
    Exactly,
    /// up to the representatives
    Costs,
    Valid,
}

fn determined(cfg: &Cfg) -> Determined {
    if !cfg.search {
        return Determined::Exactly;
    }
    if cfg.timeout.is_some_and(|t| t < 600_000_000) {
        return Determined::Valid;
    }
    match (&cfg.prob, cfg.nthreads < 2) {
        (None, true) => Determined::Exactly,
        (None, false) => Determined::Costs,
        // probabilities 0 and 1
        (Some((Acc::Const(c), _)), true) if *c == 0 || *c >= 1000 => Determined::Exactly,
        (Some((Acc::Hash { .. }, _)), true) => Determined::Exactly,
        _ => Determined::Valid,
    }
}

/// compares a result that came out of a file
fn compare(p: &Problem, cfg: &Cfg, got: &[Path]) -> Result<&'static str, String> {
    valid(p, got)?;
    let want = match determined(cfg) {
        Determined::Valid => {
            let best = no_panic(|| exhaustive(p, 1))?;
            if !dominated_by(&costs(got), &costs(&best)) {
                return Err(format!("{} is better than {}", show(got), show(&best)));
            }
            return Ok("compared by validity");
        },
        _ => no_panic(|| cfg.run(p))?,
    };
    match determined(cfg) {
        Determined::Exactly if !same(got, &want) => {
            Err(format!("in memory: {}, with files: {}", show(&want), show(got)))
        },
        Determined::Costs if costs(got) != costs(&want) => {
            Err(format!("in memory: {:?}, with files: {:?}", costs(&want), costs(got)))
        },
        Determined::Exactly => Ok("compared exactly"),
        _ => Ok("compared by costs"),
    }
}

// ------------------------------------------------------------------------ C16: round trips

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Round {
    p: Problem,
    cfg: Cfg,
    layout: Layout,
}

fn round_problem() -> BoxedStrategy<Problem> {
    prop_oneof![8 => gen::mixed(3e3), 1 => gen::problem(60, 140, f64::INFINITY)].boxed()
}

fn round() -> BoxedStrategy<Round> {
    (round_problem(), config::cfg(), layout())
        .prop_map(|(p, mut cfg, layout)| {
            if p.n() >= 60 {
                cfg.search = false;
            }
            Round { p, cfg, layout }
        })
        .boxed()
}

/// hundreds or thousands of nodes (and files to match), time-optimal schedule or a short search
fn large_round(p: BoxedStrategy<Problem>) -> BoxedStrategy<Round> {
    let old = prop_oneof![2 => Just(None), 1 => (0u32..3_000_000).prop_map(Some)];
    (p, config::cfg(), layout(), old)
        .prop_map(|(p, mut cfg, mut layout, old)| {
            cfg.search = false;
            layout.old = old;
            Round { p, cfg, layout }
        })
        .boxed()
}

fn large_problem() -> BoxedStrategy<Problem> {
    prop_oneof![gen::large_problem(3_000), gen::heavy_problem(700)].boxed()
}

fn check_round(c: &Round) -> CheckResult {
    let files = Files::new(&c.p, &c.layout);
    let acc = c.cfg.prob.as_ref().map(|(a, _)| a.func());
    files.run(names(&c.layout), &c.cfg, acc)?;
    let got = files.result(c.layout.fmts[2])?;
    let how = compare(&c.p, &c.cfg, &got)?;
    let left = fs::read_dir(&files.scratch.0).unwrap().count();
    if left != 3 {
        return Err(format!("{left} directory entries instead of two inputs and the output"));
    }
    let mut info = Info::new(c.p.interesting() && !got.is_empty())
        .label(c.layout.nested > 0 && c.layout.old.is_none(), "new directories")
        .label(c.layout.old.is_some(), "older output")
        .label(c.layout.fmts[0] != c.layout.fmts[1], "mixed formats")
        .label(c.cfg.nthreads > 1, "threaded")
        .label(c.p.n() > 1000, "n > 1000")
        .label(got.len() > 1, "trade-off");
    info.labels.push(how);
    Ok(info)
}

// ------------------------------------------------------------- C16: parameters are passed on

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Params {
    p: Problem,
    nthreads: u16,
    task_bound: Option<u32>,
    layout: Layout,
}

fn params() -> BoxedStrategy<Params> {
    (
        gen::full_problem(3, 8, 1e4),
        config::any_threads(),
        prop_oneof![
            2 => Just(None),
            6 => (0u32..=20).prop_map(Some),
            2 => (20u32..=200).prop_map(Some),
            1 => prop_oneof![Just(Some(u32::MAX)), Just(Some(65_536))],
        ],
        layout(),
    )
        .prop_map(|(p, nthreads, task_bound, layout)| Params { p, nthreads, task_bound, layout })
        .boxed()
}

/// the calls (with their multiplicities) and calling threads, if everything is refused
type Calls = (BTreeMap<[u64; 7], usize>, HashSet<thread::ThreadId>);

fn refuse() -> (AcceptFunc, Arc<Mutex<Calls>>) {
    let log: Arc<Mutex<Calls>> = Arc::default();
    let l = log.clone();
    let f = AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
        let mut l = l.lock().unwrap();
        *l.0.entry([a, b, c, d, e, f, g].map(f64::to_bits)).or_default() += 1;
        l.1.insert(thread::current().id());
        0.
    }));
    (f, log)
}

/// If everything is refused (and not everything can be measured at once), then the calls of the
/// accept function depend on the problem and on how it is split into tasks, on nothing else.
fn check_params(c: &Params) -> CheckResult {
    let files = Files::new(&c.p, &c.layout);
    let cfg = Cfg {
        search: true,
        nthreads: c.nthreads,
        task_bound: c.task_bound,
        prob: None,
        timeout: None,
    };
    let (f, calls) = refuse();
    files.run(names(&c.layout), &cfg, Some(f))?;
    let (f, want) = refuse();
    let res = no_panic(|| {
        run(&c.p.graph, &c.p.order, true, None, c.nthreads, c.task_bound, Some((f, Some(1))))
    })?;
    let (calls, want) = (calls.lock().unwrap(), want.lock().unwrap());
    let me = thread::current().id();
    if !want.1.is_empty() && want.1.contains(&me) != calls.1.contains(&me) {
        return Err(format!(
            "with {} threads the accept function is called by {:?} in memory and {:?} with files",
            c.nthreads, want.1, calls.1
        ));
    }
    let got = files.result(c.layout.fmts[2])?;
    if c.p.order.len() > 1 {
        if !same(&got, &res) {
            return Err(format!("in memory: {}, with files: {}", show(&res), show(&got)));
        }
        if calls.0 != want.0 {
            return Err(format!(
                "the accept function is called {} times in memory and {} times with files, for \
                 {} threads and task bound {:?}",
                want.0.values().sum::<usize>(),
                calls.0.values().sum::<usize>(),
                c.nthreads,
                c.task_bound,
            ));
        }
    }
    Ok(Info::new(c.p.order.len() > 1 && c.p.interesting() && c.nthreads > 1)
        .label(c.nthreads < 2, "sequential")
        .label(c.task_bound.is_some(), "task bound"))
}

// ------------------------------------------------------------------------- processes

pub struct Watched {
    pub status: Option<ExitStatus>,
    pub elapsed: Duration,
    pub threads: usize,
    pub cpu: Duration,
}

fn look(pid: u32, w: &mut Watched) {
    if let Ok(s) = fs::read_to_string(format!("/proc/{pid}/stat")) {
        // after the name, which is in brackets
        let rest: Vec<&str> =
            s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let num = |i: usize| rest.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
        w.cpu = w.cpu.max(Duration::from_millis((num(11) + num(12)) * 10));
        w.threads = w.threads.max(num(17) as usize);
    }
}

/// waits for a process of ours, and looks at its threads
fn watch(child: &mut Child, patience: Duration, pause: Duration) -> Watched {
    let start = Instant::now();
    let mut w = Watched { status: None, elapsed: start.elapsed(), threads: 0, cpu: start - start };
    let pid = child.id();
    loop {
        if let Some(s) = child.try_wait().unwrap() {
            w.status = Some(s);
            break;
        }
        look(pid, &mut w);
        if start.elapsed() > patience {
            let _ = child.kill();
            let _ = child.wait();
            break;
        }
        thread::sleep(pause);
    }
    w.elapsed = start.elapsed();
    w
}

/// a command with limited memory
fn limited(program: PathBuf) -> Command {
    let mut c = Command::new("/bin/sh");
    c.args(["-c", "ulimit -v 6000000; ulimit -c 0; exec \"$0\" \"$@\""]).arg(program);
    c.env("RUST_BACKTRACE", "0").env_remove("RUST_LOG");
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c
}

/// a command that cannot make files longer than so many times 512 bytes
fn confined(program: PathBuf, blocks: u32) -> Command {
    let mut c = Command::new("/bin/sh");
    // without its signal, the limit is an error of the write
    c.args(["-c", "trap '' 25; ulimit -c 0; ulimit -f \"$1\"; shift; exec \"$0\" \"$@\""]);
    c.arg(program).arg(blocks.to_string());
    c.env("RUST_BACKTRACE", "0").env_remove("RUST_LOG");
    c.stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
    c
}

/// A run whose result is determined, in a place that has not much space.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Confined {
    p: Problem,
    search: bool,
    fmt: Fmt,
    blocks: u32,
}

fn confined_case() -> BoxedStrategy<Confined> {
    (
        prop_oneof![1 => gen::problem(1, 9, 1e3), 2 => gen::large_problem(500)],
        any::<bool>(),
        fmt(),
        prop_oneof![1 => Just(0u32), 3 => 1u32..4, 1 => Just(10_000)],
    )
        .prop_map(|(p, search, fmt, blocks)| {
            let search = search && p.n() < 10;
            Confined { p, search, fmt, blocks }
        })
        .boxed()
}

#[derive(Serialize, Deserialize)]
struct ConfinedJob {
    search: bool,
    fmt: Fmt,
    files: [PathBuf; 3],
}

/// `vh child confined JOB`: exits with 0, 1 (error) or 2 (panic)
pub fn confined_child(job: &str) {
    let j: ConfinedJob = serde_json::from_str(&fs::read_to_string(job).unwrap()).unwrap();
    let r = no_panic(|| {
        run_serialized(
            (&j.files[0], "serde_json"),
            (&j.files[1], "serde_json"),
            j.search,
            None,
            1,
            None,
            None,
            (&j.files[2], j.fmt.name()),
        )
        .is_ok()
    });
    std::process::exit(match r {
        Ok(true) => 0,
        Ok(false) => 1,
        Err(_) => 2,
    });
}

/// Success is reported exactly if the result fits (into a file of limited length).
fn check_confined(c: &Confined, tool: bool) -> CheckResult {
    let files = Files::new(&c.p, &JSON);
    let want = no_panic(|| run(&c.p.graph, &c.p.order, c.search, None, 1, None, None))?;
    let size = c.fmt.bytes(&want).len();
    let fits = size <= c.blocks as usize * 512;
    let mut child = if tool {
        let opts = Opts {
            search: c.search,
            timeout: None,
            nthreads: 1,
            prob: false,
            task_bound: None,
        };
        let style = Style { flags: [1; 5], at: [6; 5], relative: false, default_threads: true };
        let f = [Json.name(), Json.name(), c.fmt.name()];
        let w = words(&style, &opts, &positional(&files, f, false));
        confined(cli(), c.blocks).args(w).spawn()
    } else {
        let job = files.scratch.path("job");
        let doc = ConfinedJob {
            search: c.search,
            fmt: c.fmt,
            files: [files.input[0].clone(), files.input[1].clone(), files.output.clone()],
        };
        fs::write(&job, serde_json::to_string(&doc).unwrap()).unwrap();
        let mut cmd = confined(env::current_exe().unwrap(), c.blocks);
        cmd.args(["child", "confined"]).arg(&job).spawn()
    }
    .expect("cannot start the child");
    let patience = 4 * PATIENCE;
    let Some(status) = watch(&mut child, patience, Duration::from_millis(1)).status else {
        return Err(format!("is still running after {patience:?}"));
    };
    match (status.code(), fits) {
        (Some(0), true) => {
            if !same(&files.result(c.fmt)?, &want) {
                return Err("the output file is not the result".into());
            }
        },
        (Some(0), false) => {
            return Err(format!(
                "reports success, but of the {size} bytes of the result only {} could be written",
                c.blocks * 512
            ));
        },
        (Some(1), false) => {},
        // the tool may say it with another code
        (Some(c), false) if c > 0 && tool => {},
        (code, _) => return Err(format!("ends with {code:?} ({status}), does it fit: {fits}")),
    }
    Ok(Info::new(!fits)
        .label(c.blocks == 0, "no space at all")
        .label(c.blocks > 0 && !fits, "too long")
        .label(fits, "fits"))
}

/// the last moments of a run: the accept function (if there is one) accepts everything
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Endless {
    p: Problem,
    nthreads: u16,
    task_bound: Option<u32>,
    prob: bool,
    /// milliseconds
    timeout: u32,
}

#[derive(Serialize, Deserialize)]
struct ChildJob {
    c: Endless,
    graph: PathBuf,
    order: PathBuf,
    output: PathBuf,
    report: PathBuf,
}

/// `vh child files JOB`: the run through files, in a process of its own
pub fn child(job: &str) {
    let j: ChildJob = serde_json::from_str(&fs::read_to_string(job).unwrap()).unwrap();
    let start = Instant::now();
    let res = no_panic(|| {
        run_serialized(
            (&j.graph, "serde_json"),
            (&j.order, "serde_json"),
            true,
            Some(Duration::from_millis(j.c.timeout.into())),
            j.c.nthreads,
            j.c.task_bound,
            j.c.prob.then_some(AcceptFunc::BuiltinHeavyside),
            (&j.output, "serde_json"),
        )
        .map_err(|e| e.to_string())
    })
    .and_then(|r| r);
    let ms = start.elapsed().as_millis() as u64;
    fs::write(&j.report, json!([ms, res]).to_string()).unwrap();
}

const JSON: Layout = Layout { fmts: [Json; 3], nested: 0, old: None };

/// runs the library in a child: what was seen, milliseconds of the run, result
fn in_child(c: &Endless) -> Result<(Watched, u64, Vec<Path>), String> {
    let files = Files::new(&c.p, &JSON);
    let report = files.scratch.path("report");
    let job = files.scratch.path("job");
    let doc = ChildJob {
        c: c.clone(),
        graph: files.input[0].clone(),
        order: files.input[1].clone(),
        output: files.output.clone(),
        report: report.clone(),
    };
    fs::write(&job, serde_json::to_string(&doc).unwrap()).unwrap();
    let mut child = limited(env::current_exe().unwrap())
        .args(["child", "files"])
        .arg(&job)
        .spawn()
        .expect("cannot start the child");
    let w = watch(
        &mut child,
        PATIENCE + Duration::from_millis(c.timeout.into()),
        Duration::from_millis(5),
    );
    match w.status {
        None => return Err("does not stop".into()),
        Some(s) if !s.success() => return Err(format!("runs out of memory or crashes ({s})")),
        _ => {},
    }
    let doc: (u64, Value) =
        serde_json::from_str(&fs::read_to_string(&report).map_err(|e| e.to_string())?).unwrap();
    if let Some(e) = doc.1.get("Err") {
        return Err(format!("fails: {e}"));
    }
    let res = files.result(Json)?;
    valid(&c.p, &res)?;
    Ok((w, doc.0, res))
}

fn endless_problem() -> BoxedStrategy<Problem> {
    prop_oneof![
        3 => gen::wide_problem(24, 40, f64::INFINITY),
        1 => gen::problem(30, 50, f64::INFINITY),
        1 => gen::large_problem(100),
    ]
    .boxed()
}

fn endless() -> BoxedStrategy<Endless> {
    (
        endless_problem(),
        config::any_threads(),
        prop_oneof![Just(None), (0u32..200).prop_map(Some)],
        prop::bool::weighted(0.2),
        0u32..400,
    )
        .prop_map(|(p, nthreads, task_bound, prob, timeout)| Endless {
            p,
            nthreads,
            task_bound,
            prob,
            timeout,
        })
        .boxed()
}

fn check_endless(c: &Endless) -> CheckResult {
    let mut last = String::new();
    for _ in 0..3 {
        match in_child(c) {
            Ok((_, ms, res)) => {
                // the timeout must not be shortened either; it is if a much longer one is not
                if ms + 20 < c.timeout as u64 {
                    let mut long = c.clone();
                    long.timeout = 5 * c.timeout + 1000;
                    let (_, ms2, _) = in_child(&long)?;
                    if ms2 > 3 * c.timeout as u64 + 500 {
                        last = format!(
                            "with timeout {} ms it runs {ms} ms, with {} ms {ms2} ms",
                            c.timeout, long.timeout
                        );
                        continue;
                    }
                }
                return Ok(Info::new(ms >= c.timeout as u64)
                    .label(res.is_empty(), "nothing found")
                    .label(c.nthreads > 1, "threaded")
                    .label(ms < c.timeout as u64, "done before the timeout"));
            },
            Err(e) => last = e,
        }
    }
    Err(format!("{last} (three times)"))
}

// ------------------------------------------------------------------------------ C16: errors

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Bad {
    Format { which: usize, name: String },
    Missing { which: usize },
    Truncated { which: usize, at: u16 },
    /// a byte (json) or the length (bincode) is replaced
    Garbage { which: usize, at: u16 },
    /// written in the other format
    Crossed { which: usize },
    WrongType { which: usize, text: String },
    OutputIsDirectory,
    ParentIsFile,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Broken {
    p: Problem,
    cfg: Cfg,
    layout: Layout,
    bad: Bad,
}

fn unknown_format() -> impl Strategy<Value = String> {
    prop_oneof![
        3 => proptest::sample::select(vec![
            "", "json", "JSON", "serde-json", "serde_json ", " serde_json", "Serde_json",
            "SERDE_JSON", "serde_jso", "serde_jsonn", "bincod", "bincode2", "Bincode", "BINCODE",
            "bincode\n", "none", "0", "default", "yaml", "toml", "serde",
        ])
        .prop_map(str::to_string),
        1 => "[a-z_]{1,12}",
    ]
    .prop_filter("known", |s| s != "serde_json" && s != "bincode")
}

fn bad() -> impl Strategy<Value = Bad> {
    prop_oneof![
        3 => (0usize..3, unknown_format()).prop_map(|(which, name)| Bad::Format { which, name }),
        2 => (0usize..2).prop_map(|which| Bad::Missing { which }),
        3 => (0usize..2, any::<u16>()).prop_map(|(which, at)| Bad::Truncated { which, at }),
        3 => (0usize..2, any::<u16>()).prop_map(|(which, at)| Bad::Garbage { which, at }),
        2 => (0usize..2).prop_map(|which| Bad::Crossed { which }),
        2 => (
            0usize..2,
            proptest::sample::select(vec![
                "{}", "null", "7", "\"\"", "[[-1]]", "[[0.5]]", "[[\"0\"]]", "[0]", "[null]",
                "[[[0]]]", "[[[0,[0],0]]]", "[[1e3]]", "[[]]]", "[[],[],]", "[[18446744073709551616]]",
                "[[[-1,[]]]]", "[[[0,0]]]", "[[{}]]", "true",
            ]),
        )
            .prop_map(|(which, t)| Bad::WrongType { which, text: t.to_string() }),
        1 => Just(Bad::OutputIsDirectory),
        1 => Just(Bad::ParentIsFile),
    ]
}

impl Bad {
    /// breaks the files, returns the formats to use and whether there can be an output at all
    fn apply(&self, p: &Problem, layout: &Layout, files: &Files) -> ([String; 3], bool) {
        let mut f = names(layout).map(str::to_string);
        match self {
            Bad::Format { which, name } => f[*which] = name.clone(),
            Bad::Missing { which } => fs::remove_file(&files.input[*which]).unwrap(),
            Bad::Truncated { which, at } => {
                let mut b = fs::read(&files.input[*which]).unwrap();
                b.truncate(*at as usize % b.len());
                fs::write(&files.input[*which], b).unwrap();
            },
            Bad::Garbage { which, at } => {
                let mut b = fs::read(&files.input[*which]).unwrap();
                match layout.fmts[*which] {
                    Json => {
                        let i = *at as usize % b.len();
                        b[i] = b'x';
                    },
                    Bincode => {
                        let len = u64::MAX >> (*at % 24);
                        b[..8].copy_from_slice(&len.to_le_bytes());
                    },
                }
                fs::write(&files.input[*which], b).unwrap();
            },
            Bad::Crossed { which } => {
                let o = layout.fmts[*which].other();
                let b = if *which == 0 { o.bytes(&p.graph) } else { o.bytes(&p.order) };
                fs::write(&files.input[*which], b).unwrap();
            },
            Bad::WrongType { which, text } => {
                f[*which] = "serde_json".into();
                fs::write(&files.input[*which], text).unwrap();
            },
            Bad::OutputIsDirectory => {
                let _ = fs::remove_file(&files.output);
                fs::create_dir_all(&files.output).unwrap();
                return (f, false);
            },
            Bad::ParentIsFile => {
                let parent = files.output.parent().unwrap();
                let _ = fs::remove_dir_all(parent);
                fs::create_dir_all(parent.parent().unwrap()).unwrap();
                fs::write(parent, "x").unwrap();
                return (f, false);
            },
        }
        (f, true)
    }
}

fn broken() -> BoxedStrategy<Broken> {
    (gen::mixed(500.), config::cfg(), layout(), bad())
        .prop_map(|(p, cfg, layout, bad)| Broken { p, cfg, layout, bad })
        .boxed()
}

fn really_bad(b: &Bad) -> bool {
    // "[[[0,[0],0]]]" and the like are bad for either input; nothing here is valid
    !matches!(b, Bad::WrongType { which: 0, text } if serde_json::from_str::<Vec<Vec<usize>>>(text).is_ok())
        && !matches!(b, Bad::WrongType { which: 1, text }
            if serde_json::from_str::<Vec<Vec<(usize, Vec<usize>)>>>(text).is_ok())
}

fn check_broken(c: &Broken) -> CheckResult {
    if !really_bad(&c.bad) {
        return Ok(Info::new(false));
    }
    let files = Files::new(&c.p, &c.layout);
    let (f, file_possible) = c.bad.apply(&c.p, &c.layout, &files);
    let acc = c.cfg.prob.as_ref().map(|(a, _)| a.func());
    match files.run([&f[0], &f[1], &f[2]], &c.cfg, acc) {
        Ok(()) => return Err(format!("no error; formats {f:?}")),
        Err(e) if !e.starts_with("error") => return Err(e),
        Err(_) => {},
    }
    if file_possible {
        files.untouched()?;
    }
    Ok(bad_info(&c.bad, &c.layout))
}

fn bad_info(b: &Bad, l: &Layout) -> Info {
    Info::new(true)
        .label(l.old.is_some(), "older output")
        .label(matches!(b, Bad::Format { .. }), "unknown format")
        .label(matches!(b, Bad::Missing { .. }), "missing input")
        .label(matches!(b, Bad::Truncated { .. }), "truncated input")
        .label(matches!(b, Bad::Garbage { .. }), "garbage")
        .label(matches!(b, Bad::Crossed { .. }), "other format")
        .label(matches!(b, Bad::WrongType { .. }), "wrong type")
        .label(matches!(b, Bad::OutputIsDirectory | Bad::ParentIsFile), "no place for the output")
}

pub fn c16() -> Vec<Box<dyn Sub>> {
    vec![
        sub("roundtrip", (24_000, 480_000), round, check_round),
        sub("parameters", (18_000, 360_000), params, check_params),
        sub("errors", (24_000, 480_000), broken, check_broken),
        sub("large", (600, 12_000), || large_round(large_problem()), check_round),
        sub_w("huge", (4, 40), 2, || large_round(gen::huge_problem()), check_round),
        sub("no space", (1_500, 30_000), confined_case, |c| check_confined(c, false)),
        sub_w("timeout", (72, 1_440), 3, endless, check_endless),
    ]
}

// ------------------------------------------------------------------------------- C17: the CLI

fn cli() -> PathBuf {
    let exe = env::current_exe().unwrap().with_file_name("mbqc_cli");
    assert!(exe.exists(), "{} is missing", exe.display());
    exe
}

/// how the command line is written
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Style {
    /// per option: short, long, long with =, short with =, short without space
    flags: [u8; 5],
    /// position of the options between the six positional arguments
    at: [u8; 5],
    relative: bool,
    /// -n is left out if it is 1
    default_threads: bool,
}

fn style() -> impl Strategy<Value = Style> {
    (any::<[u8; 5]>(), any::<[u8; 5]>(), any::<bool>(), any::<bool>()).prop_map(
        |(flags, at, relative, default_threads)| Style { flags, at, relative, default_threads },
    )
}

/// options of the command line tool
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Opts {
    search: bool,
    /// seconds
    timeout: Option<u32>,
    nthreads: u16,
    prob: bool,
    task_bound: Option<u32>,
}

impl Opts {
    fn cfg(&self) -> Cfg {
        Cfg {
            search: self.search,
            nthreads: self.nthreads,
            task_bound: self.task_bound,
            prob: self.prob.then_some((Acc::Builtin, None)),
            timeout: self.timeout.map(|t| t as u64 * 1_000_000),
        }
    }
}

fn opts() -> impl Strategy<Value = Opts> {
    (
        prop::bool::weighted(0.85),
        prop_oneof![
            4 => Just(None),
            1 => Just(Some(0)),
            3 => (600u32..100_000).prop_map(Some),
            1 => proptest::sample::select(vec![65_536u32, 86_400, 4_294_967, u32::MAX])
                .prop_map(Some),
            // what a conversion to a smaller unit of 32 bits would turn into nothing
            1 => (10u32..32).prop_map(|k| Some(1 << k)),
            1 => (29u32..32).prop_map(|k| Some(1 << k)),
        ],
        config::any_threads(),
        prop::bool::weighted(0.3),
        config::task_bound(),
    )
        .prop_map(|(search, timeout, nthreads, prob, task_bound)| Opts {
            search,
            timeout,
            nthreads,
            prob,
            task_bound,
        })
}

fn words(style: &Style, o: &Opts, positional: &[String]) -> Vec<String> {
    let value = |i: usize, short: &str, long: &str, v: String| -> Vec<String> {
        match style.flags[i] % 5 {
            0 => vec![format!("-{short}"), v],
            1 => vec![format!("--{long}"), v],
            2 => vec![format!("--{long}={v}")],
            3 => vec![format!("-{short}={v}")],
            _ => vec![format!("-{short}{v}")],
        }
    };
    let flag = |i: usize, short: &str, long: &str| -> Vec<String> {
        vec![if style.flags[i] % 2 == 0 { format!("-{short}") } else { format!("--{long}") }]
    };
    let mut at: Vec<Vec<String>> = vec![vec![]; positional.len() + 1];
    let mut put = |i: usize, w: Vec<String>| {
        at[style.at[i] as usize % (positional.len() + 1)].extend(w);
    };
    if o.search {
        put(0, flag(0, "s", "search"));
    }
    if let Some(t) = o.timeout {
        put(1, value(1, "t", "timeout", t.to_string()));
    }
    if o.nthreads != 1 || !style.default_threads {
        put(2, value(2, "n", "nthreads", o.nthreads.to_string()));
    }
    if o.prob {
        // sic
        put(3, flag(3, "p", "probablistic"));
    }
    if let Some(b) = o.task_bound {
        put(4, value(4, "b", "task-bound", b.to_string()));
    }
    let mut res = vec![];
    for (i, w) in at.into_iter().enumerate() {
        res.extend(w);
        if let Some(p) = positional.get(i) {
            res.push(p.clone());
        }
    }
    res
}

fn positional(files: &Files, f: [&str; 3], relative: bool) -> Vec<String> {
    let paths = [&files.input[0], &files.input[1], &files.output];
    let mut res = vec![];
    for (p, f) in paths.iter().zip(f) {
        let p = if relative { p.strip_prefix(&files.scratch.0).unwrap() } else { p };
        res.push(p.to_str().unwrap().to_string());
        res.push(f.to_string());
    }
    res
}

fn call(files: &Files, words: &[String], patience: Duration) -> Watched {
    let mut child = limited(cli())
        .args(words)
        .current_dir(&files.scratch.0)
        .spawn()
        .expect("cannot start the command line tool");
    watch(&mut child, patience, Duration::from_millis(1))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Called {
    p: Problem,
    opts: Opts,
    layout: Layout,
    style: Style,
}

fn called() -> BoxedStrategy<Called> {
    (round_problem(), opts(), layout(), style())
        .prop_map(|(p, mut opts, layout, style)| {
            if p.n() >= 60 {
                opts.search = false;
            }
            Called { p, opts, layout, style }
        })
        .boxed()
}

fn large_called(p: BoxedStrategy<Problem>) -> BoxedStrategy<Called> {
    (large_round(p), opts(), style())
        .prop_map(|(r, mut opts, style)| {
            opts.search = false;
            Called { p: r.p, opts, layout: r.layout, style }
        })
        .boxed()
}

fn check_called(c: &Called) -> CheckResult {
    let files = Files::new(&c.p, &c.layout);
    let w = words(&c.style, &c.opts, &positional(&files, names(&c.layout), c.style.relative));
    let patience = 4 * PATIENCE;
    match call(&files, &w, patience).status {
        None => return Err(format!("{w:?} is still running after {patience:?}")),
        Some(s) if !s.success() => return Err(format!("{w:?} fails: {s}")),
        _ => {},
    }
    let got = files.result(c.layout.fmts[2]).map_err(|e| format!("{w:?}: {e}"))?;
    let cfg = c.opts.cfg();
    let how = compare(&c.p, &cfg, &got).map_err(|e| format!("{w:?}: {e}"))?;
    let mut info = Info::new(c.p.interesting() && !got.is_empty())
        .label(c.opts.search, "search")
        .label(c.opts.nthreads > 1, "threaded")
        .label(c.opts.prob, "probabilistic")
        .label(c.opts.task_bound.is_some(), "task bound")
        .label(c.opts.timeout.is_some(), "timeout")
        .label(got.len() > 1, "trade-off");
    info.labels.push(how);
    Ok(info)
}

// ------------------------------------------------------------------- C17: -p makes a difference

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Filtered {
    p: Problem,
    nthreads: u16,
}

fn filtered() -> BoxedStrategy<Filtered> {
    (gen::problem(6, 10, 2e4), prop_oneof![2 => Just(1u16), 1 => 2u16..4])
        .prop_map(|(p, nthreads)| Filtered { p, nthreads })
        .boxed()
}

/// If none of 200 probabilistic runs finds all the best paths, then four more that do so are
/// not probabilistic. (If a run finds them with probability q, this is wrong with probability
/// (1-q)^200 q^4 < 1e-8.)
fn check_filtered(c: &Filtered) -> CheckResult {
    let best = costs(&no_panic(|| exhaustive(&c.p, 1))?);
    let run_one = |seed| {
        let r = no_panic(|| {
            let f = Some((AcceptFunc::BuiltinHeavyside, Some(seed)));
            run(&c.p.graph, &c.p.order, true, None, c.nthreads, None, f)
        });
        r.map(|r| costs(&r))
    };
    for seed in 0..200 {
        if run_one(seed)? == best {
            return Ok(Info::new(false));
        }
    }
    let opts = Opts {
        search: true,
        timeout: None,
        nthreads: c.nthreads,
        prob: true,
        task_bound: None,
    };
    let style = Style { flags: [0; 5], at: [0; 5], relative: false, default_threads: true };
    for _ in 0..4 {
        let files = Files::new(&c.p, &JSON);
        let w = words(&style, &opts, &positional(&files, names(&JSON), false));
        match call(&files, &w, 4 * PATIENCE).status {
            Some(s) if s.success() => {},
            s => return Err(format!("{w:?} fails: {s:?}")),
        }
        if costs(&files.result(Json)?) != best {
            return Ok(Info::new(true).label(c.nthreads > 1, "threaded"));
        }
    }
    Err("-p is not probabilistic: it always finds all the best paths".into())
}

// --------------------------------------------------------------- C17: -t, -n and -b take effect

fn effects() -> BoxedStrategy<Endless> {
    (
        endless_problem(),
        prop_oneof![2 => Just(1u16), 4 => 2u16..=6],
        prop_oneof![2 => Just(None), 3 => Just(Some(0)), 1 => Just(Some(1)), 1 => Just(Some(3000))],
        prop_oneof![3 => Just(1000u32), 1 => Just(2000), 2 => Just(0)],
    )
        .prop_map(|(p, nthreads, task_bound, timeout)| Endless {
            p,
            nthreads,
            task_bound,
            prob: false,
            timeout,
        })
        .boxed()
}

/// An endless search has to take as long, with as many threads, as it does in the library, and
/// has to use (about) as much time of the processors.
fn check_effects(c: &Endless) -> CheckResult {
    let opts = Opts {
        search: true,
        timeout: Some(c.timeout / 1000),
        nthreads: c.nthreads,
        prob: c.prob,
        task_bound: c.task_bound,
    };
    let style = Style { flags: [1; 5], at: [6; 5], relative: true, default_threads: true };
    let mut last = String::new();
    for _ in 0..4 {
        let (lib, ms, _) = in_child(c)?;
        if ms + 20 < c.timeout as u64 {
            return Ok(Info::new(false).label(true, "done before the timeout"));
        }
        let files = Files::new(&c.p, &JSON);
        let w = words(&style, &opts, &positional(&files, names(&JSON), true));
        let tool = call(&files, &w, PATIENCE + Duration::from_millis(c.timeout.into()));
        match tool.status {
            Some(s) if s.success() => {},
            Some(s) => {
                last = format!("{w:?} fails: {s}");
                continue;
            },
            None => {
                last = format!("{w:?} does not stop");
                continue;
            },
        }
        valid(&c.p, &files.result(Json)?)?;
        if c.timeout == 0 {
            // over at once, in both
            return Ok(Info::new(true).label(true, "no time at all"));
        }
        if tool.elapsed + Duration::from_millis(50) < Duration::from_millis(c.timeout.into()) {
            last = format!("{w:?} runs only {:?}", tool.elapsed);
            continue;
        }
        if tool.threads != lib.threads {
            last = format!(
                "{w:?} has {} threads, the library call {}",
                tool.threads, lib.threads
            );
            continue;
        }
        let t = Duration::from_millis(c.timeout.into());
        let (a, b) = (tool.cpu.min(lib.cpu), tool.cpu.max(lib.cpu));
        if a < t.mul_f64(1.3) && b > t.mul_f64(1.75) {
            last = format!(
                "{w:?} uses the processors for {:?}, the library call for {:?}",
                tool.cpu, lib.cpu
            );
            continue;
        }
        return Ok(Info::new(true)
            .label(c.nthreads > 1, "threaded")
            .label(lib.cpu < t.mul_f64(1.3) && c.nthreads > 2, "one busy thread")
            .label(lib.cpu > t.mul_f64(1.75), "several busy threads"));
    }
    Err(format!("{last} (four times)"))
}

// ----------------------------------------------------------------------------- C17: failures

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Wrong {
    Input(Bad),
    /// not an option
    Word { at: u8, words: Vec<String> },
    /// fewer positional arguments
    Short { n: u8 },
    Nothing,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Failing {
    p: Problem,
    opts: Opts,
    layout: Layout,
    style: Style,
    wrong: Wrong,
}

fn failing() -> BoxedStrategy<Failing> {
    let wrong = prop_oneof![
        6 => bad().prop_map(Wrong::Input),
        4 => (
            0u8..7,
            proptest::sample::select(vec![
                "-n abc", "-n 65536", "--nthreads=-1", "-n 1.5", "-n=", "--nthreads=0x2",
                "-t x", "-t 4294967296", "--timeout=-1", "-t 0.5", "-t 1s", "--timeout=",
                "-b x", "-b 4294967296", "--task-bound=-1", "--task-bound=1e3",
                "--unknown", "-x", "--search=maybe", "extra", "--seed=1", "--task=1 extra extra",
            ]),
        )
            .prop_map(|(at, w)| Wrong::Word {
                at,
                words: w.split(' ').map(str::to_string).collect(),
            }),
        2 => (1u8..6).prop_map(|n| Wrong::Short { n }),
        1 => Just(Wrong::Nothing),
    ];
    (gen::mixed(500.), opts(), layout(), style(), wrong)
        .prop_map(|(p, opts, layout, style, wrong)| Failing { p, opts, layout, style, wrong })
        .boxed()
}

fn check_failing(c: &Failing) -> CheckResult {
    let files = Files::new(&c.p, &c.layout);
    let mut f = names(&c.layout).map(str::to_string);
    let mut opts = c.opts.clone();
    let mut file_possible = true;
    if let Wrong::Input(b) = &c.wrong {
        if !really_bad(b) {
            return Ok(Info::new(false));
        }
        (f, file_possible) = b.apply(&c.p, &c.layout, &files);
    }
    if let Wrong::Word { words, .. } = &c.wrong {
        // an option that is given twice would be an error in itself
        opts.nthreads = 1;
        opts.timeout = None;
        opts.task_bound = None;
        opts.search &= !words[0].starts_with("--search");
    }
    let style = Style {
        default_threads: c.style.default_threads || matches!(c.wrong, Wrong::Word { .. }),
        ..c.style.clone()
    };
    let pos = positional(&files, [&f[0], &f[1], &f[2]], style.relative);
    let w = match &c.wrong {
        Wrong::Input(_) => words(&style, &opts, &pos),
        Wrong::Word { at, words: extra } => {
            let mut pos = pos;
            let i = (*at as usize).min(pos.len());
            pos.splice(i..i, extra.iter().cloned());
            let s = Style { at: [0; 5], ..style };
            words(&s, &opts, &pos)
        },
        Wrong::Short { n } => words(&style, &opts, &pos[..*n as usize]),
        Wrong::Nothing => vec![],
    };
    let patience = 4 * PATIENCE;
    match call(&files, &w, patience).status {
        None => return Err(format!("{w:?} is still running after {patience:?}")),
        Some(s) if s.success() => return Err(format!("{w:?} reports success")),
        _ => {},
    }
    if file_possible {
        files.untouched().map_err(|e| format!("{w:?} fails, but {e}"))?;
    }
    Ok(match &c.wrong {
        Wrong::Input(b) => bad_info(b, &c.layout),
        _ => Info::new(true).label(true, "bad arguments"),
    })
}

pub fn c17() -> Vec<Box<dyn Sub>> {
    vec![
        sub("results", (12_000, 240_000), called, check_called),
        sub("failures", (9_000, 180_000), failing, check_failing),
        sub("large", (400, 8_000), || large_called(large_problem()), check_called),
        sub_w("huge", (3, 30), 2, || large_called(gen::huge_problem()), check_called),
        sub("no space", (1_500, 30_000), confined_case, |c| check_confined(c, true)),
        sub("probabilistic", (2_000, 40_000), filtered, check_filtered),
        sub_w("effects", (24, 400), 2, effects, check_effects),
    ]
}
