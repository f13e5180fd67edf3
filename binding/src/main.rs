//! Property-based checks for the Python binding (C19). Driven by /verif/check.py.
//!
//! The binding's sources are the repository's own, compiled against stand-ins for pyo3 (pyo3/,
//! macros/), which make its classes and functions callable by name on dynamic values, and against
//! the real library, whose run function can be observed (../results/shim).

extern crate lib as mbqc_scheduling;

#[path = "../../harness/src/props/config.rs"]
#[allow(dead_code)]
mod config;
#[path = "../../harness/src/core.rs"]
#[allow(dead_code)]
mod core;
#[path = "../../harness/src/driver.rs"]
mod driver;
#[path = "../../harness/src/gen.rs"]
#[allow(dead_code)]
mod gen;
#[path = "../../harness/src/model.rs"]
#[allow(dead_code)]
mod model;

use std::{
    cell::RefCell,
    collections::BTreeMap,
    env,
    process::{exit, Command, Stdio},
    rc::Rc,
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex, OnceLock,
    },
    time::Duration,
};

use lib::{
    interface::{self, LOCAL_HOOK},
    probabilistic::AcceptFunc,
};
use proptest::{collection::vec, prelude::*};
use pyo3::{types::PyModule, Args, Foreign, IntoPyAny, PyAny, PyErr, PyResult, Python};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{
    config::{Acc, Cfg},
    core::{hash64, install_panic_hook, no_panic, sub, sub_w, CheckResult, Info, Sub},
    model::{Graph, Order, Problem},
};

fn main() {
    install_panic_hook();
    let args: Vec<String> = env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "run" => driver::run(subs, arg(2), arg(3), arg(4)),
        "replay" => driver::replay(subs, arg(2)),
        _ => exit(2),
    }
}

fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C19" => vec![
            sub_w("package", (16, 320), 4, package, check_package),
            sub("objects", (60_000, 1_200_000), objects, check_objects),
            sub("calls", (240_000, 4_800_000), calls, check_calls),
            sub("refused", (60_000, 1_200_000), refused, check_refused),
            sub("accept", (120_000, 2_400_000), accept, check_accept),
            sub("failing", (40_000, 800_000), failing, check_failing),
            sub("results", (40_000, 800_000), results, check_results),
        ],
        _ => vec![],
    }
}

// ---------------------------------------------------------------------------- the Python side

fn module() -> &'static PyModule {
    static MODULE: OnceLock<&'static PyModule> = OnceLock::new();
    MODULE.get_or_init(|| {
        let m = PyModule::new_leaked("_lib");
        _lib::_lib(Python::assume(), m).expect("the module cannot be made");
        m
    })
}

fn submodule(path: &str) -> Result<&'static PyModule, String> {
    module();
    let modules = pauli_tracker_pyo3::MODULES.lock().unwrap();
    let found = modules.iter().find(|m| m.0 == path).map(|m| m.1);
    found.ok_or_else(|| format!("there is no module {path}"))
}

fn top(name: &str) -> Result<PyAny, String> {
    module().item(name).map_err(|e| e.to_string())
}

fn probabilistic(name: &str) -> Result<PyAny, String> {
    submodule("mbqc_scheduling._lib.probabilistic")?.item(name).map_err(|e| e.to_string())
}

fn apply(f: &PyAny, args: Args) -> Result<PyResult<PyAny>, String> {
    no_panic(|| f.apply(args))
}

fn method(ob: &PyAny, name: &str) -> Result<PyAny, String> {
    no_panic(|| ob.invoke(name, Args::default()))?.map_err(|e| e.to_string())
}

fn py_graph(g: &Graph) -> PyAny {
    g.clone().into_any()
}
fn py_order(o: &Order) -> PyAny {
    o.clone().into_any()
}
fn text(a: &PyAny) -> String {
    format!("{a:?}")
}

/// positional up to `k`, the rest (in the order given by `key`) by keyword
fn arguments(list: Vec<(&str, Option<PyAny>)>, k: usize, key: u64) -> Args {
    let mut args = Args::default();
    let mut open = true;
    let mut i = 0;
    for (name, v) in list {
        let Some(v) = v else {
            open = false;
            continue;
        };
        if open && i < k {
            args.positional.push(v);
            i += 1;
        } else {
            open = false;
            args.keywords.push((name.to_string(), v));
        }
    }
    let mut rng = key;
    gen::shuffle(&mut args.keywords, &mut rng);
    args
}

// ------------------------------------------------------------------------------ accept funcs

#[derive(Clone, Debug, Serialize, Deserialize)]
struct PyAcc {
    acc: Acc,
    /// leave out what is the default
    short: bool,
    /// arguments that the kind does not need are given all the same
    extra: bool,
    positional: usize,
    key: u64,
}

fn py_acc(acc: impl Strategy<Value = Acc>) -> impl Strategy<Value = PyAcc> {
    (acc, any::<bool>(), any::<bool>(), 0usize..4, any::<u64>()).prop_map(
        |(acc, short, extra, positional, key)| PyAcc { acc, short, extra, positional, key },
    )
}

type Seen = Arc<Mutex<Vec<Vec<u64>>>>;

/// a Python function that decides like `acc`, and notes what it gets
fn callable(acc: &Acc, seen: &Seen) -> PyAny {
    let f = Mutex::new(acc.func().get_accept_func());
    let seen = seen.clone();
    PyAny::Function(Arc::new(move |args: Args| {
        if !args.keywords.is_empty() || args.positional.len() != 7 {
            return Err(PyErr::of("TypeError", "the callable gets 7 values"));
        }
        let mut x = [0.; 7];
        for (x, a) in x.iter_mut().zip(&args.positional) {
            *x = a.extract()?;
        }
        let mut seen = seen.lock().unwrap();
        if seen.len() < 1000 {
            seen.push(x.iter().map(|v| v.to_bits()).collect());
        }
        let f = f.lock().unwrap();
        Ok(f(x[0], x[1], x[2], x[3], x[4], x[5], x[6]).into_any())
    }))
}

fn parameters(cutoff: f64, e: &[i32; 5], positional: usize, key: u64) -> Result<PyAny, String> {
    let list = vec![
        ("cutoff", Some(cutoff.into_any())),
        ("lin_num_total_nodes_exp", Some(e[0].into_any())),
        ("exp_num_total_nodes_exp", Some(e[1].into_any())),
        ("exp_num_remaining_nodes_exp", Some(e[2].into_any())),
        ("exp_diff_exp", Some(e[3].into_any())),
        ("exp_num_measured_nodes_exp", Some(e[4].into_any())),
    ];
    apply(&probabilistic("HeavysideParameters")?, arguments(list, positional * 2, key))?
        .map_err(|e| e.to_string())
}

impl PyAcc {
    fn is_custom(&self) -> bool {
        matches!(self.acc, Acc::Const(_) | Acc::Hash { .. })
    }
    fn make(&self, seen: &Seen) -> Result<PyAny, String> {
        let some_params = parameters(1., &[1, 1, 1, 1, 1], 0, 1)?;
        let extra = |v: PyAny| if self.extra { Some(v) } else { None };
        let (kind, params, func) = match &self.acc {
            Acc::Builtin => {
                ("BuiltinHeavyside", extra(some_params), extra(callable(&Acc::Const(1000), seen)))
            },
            Acc::Param { cutoff, e } => (
                "ParametrizedHeavyside",
                Some(parameters(*cutoff, e, self.positional, self.key)?),
                extra(callable(&Acc::Const(1000), seen)),
            ),
            _ => ("Custom", extra(some_params), Some(callable(&self.acc, seen))),
        };
        let kind = (!self.short || kind != "BuiltinHeavyside").then(|| kind.into_any());
        let list =
            vec![("kind", kind), ("heavyside_parameters", params), ("custom_func", func)];
        apply(&probabilistic("AcceptFunc")?, arguments(list, self.positional, self.key))?
            .map_err(|e| format!("{self:?}: {e}"))
    }
}

// ---------------------------------------------------------------------------------- orderings

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Form {
    Own,
    Foreign,
}

struct Tracker {
    order: Order,
    asked: AtomicUsize,
}
impl Foreign for Tracker {
    fn call_method(&self, name: &str, args: Args) -> Option<PyResult<PyAny>> {
        (name == "into_py_graph").then(|| {
            if !args.positional.is_empty() || !args.keywords.is_empty() {
                return Err(PyErr::of("TypeError", "into_py_graph has no arguments"));
            }
            self.asked.fetch_add(1, Ordering::Relaxed);
            Ok(py_order(&self.order))
        })
    }
}

fn make_order(order: &Order, form: Form) -> Result<PyAny, String> {
    Ok(match form {
        Form::Own => apply(&top("PartialOrderGraph")?, Args::of(vec![py_order(order)]))?
            .map_err(|e| e.to_string())?,
        Form::Foreign => PyAny::Foreign(Arc::new(Tracker {
            order: order.clone(),
            asked: AtomicUsize::new(0),
        })),
    })
}

fn make_graph(graph: &Graph) -> Result<PyAny, String> {
    apply(&top("SpacialGraph")?, Args::of(vec![py_graph(graph)]))?.map_err(|e| e.to_string())
}

type Plain = (usize, usize, Vec<Vec<usize>>);

/// a list of Path objects, read through their attributes
fn read_paths(list: &PyAny) -> Result<Vec<Plain>, String> {
    let PyAny::List(list) = list else {
        return Err(format!("{list:?} instead of a list of paths"));
    };
    list.iter()
        .map(|p| {
            let get = |n: &str| no_panic(|| p.attribute(n))?.map_err(|e: PyErr| e.to_string());
            let e = |e: PyErr| e.to_string();
            Ok((
                get("time")?.extract().map_err(e)?,
                get("space")?.extract().map_err(e)?,
                get("steps")?.extract().map_err(e)?,
            ))
        })
        .collect()
}

// -------------------------------------------------------------------------------------- calls

/// an optional argument of run
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Given<T> {
    Not,
    None,
    Some(T),
}

impl<T> Given<T> {
    fn py(&self, f: impl FnOnce(&T) -> PyAny) -> Option<PyAny> {
        match self {
            Given::Not => None,
            Given::None => Some(PyAny::None),
            Given::Some(t) => Some(f(t)),
        }
    }
    fn value(&self) -> Option<&T> {
        match self {
            Given::Some(t) => Some(t),
            _ => None,
        }
    }
}

fn given<T: Clone + std::fmt::Debug + 'static>(
    s: impl Strategy<Value = T> + 'static,
) -> BoxedStrategy<Given<T>> {
    prop_oneof![1 => Just(Given::Not), 1 => Just(Given::None), 4 => s.prop_map(Given::Some)].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RunArgs {
    form: Form,
    do_search: Option<bool>,
    timeout: Given<u32>,
    nthreads: Option<u16>,
    prob: Given<(PyAcc, Option<u64>)>,
    task_bound: Given<u32>,
    positional: usize,
    key: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CallCase {
    graph: Graph,
    order: Order,
    args: RunArgs,
    answer: Vec<Plain>,
    values: [i32; 7],
}

fn big() -> BoxedStrategy<u32> {
    prop_oneof![
        2 => any::<u32>(),
        2 => 0u32..100_000,
        1 => prop_oneof![Just(0), Just(1), Just(u32::MAX)],
    ]
    .boxed()
}

fn plain() -> BoxedStrategy<Vec<Plain>> {
    let size = || prop_oneof![4 => 0usize..50, 1 => any::<u32>().prop_map(|x| x as usize)];
    vec((size(), size(), vec(vec(size(), 0..4), 0..4)), 0..5).boxed()
}

fn run_args(
    threads: BoxedStrategy<u16>,
    acc: BoxedStrategy<Acc>,
    timeout: BoxedStrategy<u32>,
) -> BoxedStrategy<RunArgs> {
    (
        prop_oneof![Just(Form::Own), Just(Form::Foreign)],
        prop_oneof![1 => Just(None), 5 => any::<bool>().prop_map(Some)],
        given(timeout),
        prop_oneof![1 => Just(None), 4 => threads.prop_map(Some)],
        given((py_acc(acc), prop_oneof![1 => Just(None), 3 => config::seed().prop_map(Some)])),
        given(big()),
        0usize..8,
        any::<u64>(),
    )
        .prop_map(|(form, do_search, timeout, nthreads, prob, task_bound, positional, key)| {
            RunArgs { form, do_search, timeout, nthreads, prob, task_bound, positional, key }
        })
        .boxed()
}

fn any_graph() -> BoxedStrategy<(Graph, Order)> {
    (
        vec(vec(0usize..100, 0..5), 0..6),
        vec(vec((0usize..100, vec(0usize..100, 0..3)), 0..4), 0..4),
    )
        .boxed()
}

fn calls() -> BoxedStrategy<CallCase> {
    let threads = prop_oneof![4 => Just(1u16), 2 => Just(0), 3 => 2u16..12, 1 => any::<u16>()];
    (
        any_graph(),
        run_args(threads.boxed(), config::acc().boxed(), big()),
        plain(),
        any::<[i32; 7]>(),
    )
        .prop_map(|((graph, order), args, answer, values)| CallCase {
            graph,
            order,
            args,
            answer,
            values,
        })
        .boxed()
}

struct Called {
    graph: Graph,
    order: Order,
    do_search: bool,
    timeout: Option<Duration>,
    nthreads: u16,
    task_bound: Option<u32>,
    prob: Option<(AcceptFunc, Option<u64>)>,
}

/// answers the library's runs with `answer` and notes them
fn observed<R>(answer: &[Plain], f: impl FnOnce() -> R) -> (R, Vec<Called>) {
    let log = Rc::new(RefCell::new(vec![]));
    // runs stay in this thread, the hook is taken away below
    struct Local<T>(T);
    unsafe impl<T> Send for Local<T> {}
    let l = Local(log.clone());
    let answer = answer.to_vec();
    LOCAL_HOOK.with(|h| {
        *h.borrow_mut() = Some(Box::new(move |c| {
            let l = &l;
            l.0.borrow_mut().push(Called {
                graph: c.graph.to_vec(),
                order: c.order.to_vec(),
                do_search: c.do_search,
                timeout: c.timeout,
                nthreads: c.nthreads,
                task_bound: c.task_bound,
                prob: c.probabilistic,
            });
            answer
                .iter()
                .cloned()
                .map(|(time, space, steps)| interface::Path { time, space, steps })
                .collect()
        }))
    });
    let r = f();
    LOCAL_HOOK.with(|h| *h.borrow_mut() = None);
    let calls = log.borrow_mut().drain(..).collect();
    (r, calls)
}

impl RunArgs {
    fn run(
        &self,
        graph: &PyAny,
        order: &PyAny,
        seen: &Seen,
    ) -> Result<PyResult<PyAny>, String> {
        let prob = match &self.prob {
            Given::Some((acc, seed)) => {
                let acc = acc.make(seen)?;
                let seed = seed.map_or(PyAny::None, IntoPyAny::into_any);
                Some(PyAny::Tuple(vec![acc, seed]))
            },
            p => p.py(|_| PyAny::None),
        };
        let list = vec![
            ("spacial_graph", Some(graph.clone())),
            ("time_order", Some(order.clone())),
            ("do_search", self.do_search.map(IntoPyAny::into_any)),
            ("timeout", self.timeout.py(|t| t.into_any())),
            ("nthreads", self.nthreads.map(IntoPyAny::into_any)),
            ("probabilistic", prob),
            ("task_bound", self.task_bound.py(|t| t.into_any())),
        ];
        let run = top("run")?;
        apply(&run, arguments(list, self.positional, self.key))
    }
    fn unsupported(&self) -> bool {
        self.nthreads.is_some_and(|n| n > 1)
            && self.prob.value().is_some_and(|(a, _)| a.is_custom())
    }
}

fn same_value(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}

/// as the library's own accept function of the kind
fn like(acc: &Acc, func: AcceptFunc, seen: &Seen, values: &[i32; 7]) -> Result<(), String> {
    let custom = matches!(func, AcceptFunc::Custom(_));
    let f = func.get_accept_func();
    let want = acc.func().get_accept_func();
    for shift in 0..3 {
        // small numbers with fractions, all different
        let v: Vec<f64> = (0..7)
            .map(|i| (values[(i + shift) % 7] % 40) as f64 / 2. + i as f64 / 16.)
            .collect();
        seen.lock().unwrap().clear();
        let got = no_panic(|| f(v[0], v[1], v[2], v[3], v[4], v[5], v[6]))?;
        let exp = want(v[0], v[1], v[2], v[3], v[4], v[5], v[6]);
        if !same_value(got, exp) {
            return Err(format!("{acc:?}: {got} instead of {exp} for {v:?}"));
        }
        if custom {
            let bits: Vec<u64> = v.iter().map(|x| x.to_bits()).collect();
            let seen = seen.lock().unwrap();
            if *seen != [bits] {
                return Err(format!(
                    "the callable got {:?} instead of {v:?}",
                    seen.iter()
                        .map(|s| s.iter().map(|b| f64::from_bits(*b)).collect::<Vec<_>>())
                        .collect::<Vec<_>>()
                ));
            }
        }
    }
    Ok(())
}

fn check_calls(c: &CallCase) -> CheckResult {
    let seen = Seen::default();
    let graph = make_graph(&c.graph)?;
    let order = make_order(&c.order, c.args.form)?;
    let (res, mut calls) = observed(&c.answer, || c.args.run(&graph, &order, &seen));
    let res = res?;
    let a = &c.args;
    if a.unsupported() {
        return match res {
            Err(e) if e.kind == "ValueError" && calls.is_empty() => {
                Ok(Info::new(true).label(true, "custom callable with threads"))
            },
            r => Err(format!(
                "a custom callable with {:?} threads: {r:?}, {} calls",
                a.nthreads,
                calls.len()
            )),
        };
    }
    let paths = res.map_err(|e| format!("run raised {e}"))?;
    if calls.len() != 1 {
        return Err(format!("{} calls of the library", calls.len()));
    }
    let got = calls.remove(0);
    let timeout = a.timeout.value().map(|t| Duration::from_secs(*t as u64));
    let wrong = |what: &str, got: String, want: String| {
        Err(format!("{what} is passed on as {got}, it is {want}"))
    };
    macro_rules! same {
        ($what:literal, $got:expr, $want:expr) => {
            if $got != $want {
                return wrong($what, format!("{:?}", $got), format!("{:?}", $want));
            }
        };
    }
    same!("spacial_graph", got.graph, c.graph);
    same!("time_order", got.order, c.order);
    same!("do_search", got.do_search, a.do_search.unwrap_or(false));
    same!("timeout", got.timeout, timeout);
    same!("nthreads", got.nthreads, a.nthreads.unwrap_or(1));
    same!("task_bound", got.task_bound, a.task_bound.value().copied());
    match (got.prob, a.prob.value()) {
        (None, None) => {},
        (Some((func, seed)), Some((acc, want))) => {
            same!("the seed", seed, *want);
            like(&acc.acc, func, &seen, &c.values)?;
        },
        (g, w) => {
            return wrong("probabilistic", format!("{}", g.is_some()), format!("{}", w.is_some()))
        },
    }
    // the result
    for _ in 0..2 {
        let list = read_paths(&method(&paths, "into_py_paths")?)?;
        same!("the result", list, c.answer);
    }
    // the arguments are as before
    same!("the graph afterwards", text(&method(&graph, "into_py_graph")?), text(&py_graph(&c.graph)));
    same!("the order afterwards", text(&method(&order, "into_py_graph")?), text(&py_order(&c.order)));
    Ok(Info::new(!c.answer.is_empty() && !c.graph.is_empty() && !c.order.is_empty())
        .label(a.form == Form::Foreign, "foreign ordering")
        .label(matches!(a.prob, Given::Some(_)), "probabilistic")
        .label(a.positional > 2, "positional options")
        .label(timeout.is_some(), "timeout"))
}

// --------------------------------------------------------------- inconsistent accept functions

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refused {
    /// None: the default
    kind: Option<String>,
    parameters: Given<()>,
    function: Given<()>,
    positional: usize,
    key: u64,
}

const KINDS: [&str; 3] = ["BuiltinHeavyside", "ParametrizedHeavyside", "Custom"];

fn refused() -> BoxedStrategy<Refused> {
    let kind = prop_oneof![
        3 => prop::sample::select(KINDS.to_vec()).prop_map(|k| Some(k.to_string())),
        1 => Just(None),
        1 => prop::sample::select(vec![
            "", "custom", "builtinheavyside", "BuiltinHeavyside ", "Parametrized", "BuiltinBasic",
            "ParametrizedBasic", "ParamBuiltinHeavyside", "CUSTOM", "Customm", "Custo",
            "BuiltinLinearSpace",
        ]).prop_map(|k| Some(k.to_string())),
        // a known kind, slightly changed
        2 => (prop::sample::select(KINDS.to_vec()), any::<u8>(), any::<char>()).prop_map(|(k, at, c)| {
            let mut k: Vec<char> = k.chars().collect();
            let n = k.len();
            match at % 3 {
                0 => { k.remove(at as usize % n); },
                1 => k.insert(at as usize % (n + 1), c),
                _ => k[at as usize % n] = c,
            }
            Some(k.into_iter().collect())
        }),
        1 => any::<String>().prop_map(Some),
    ];
    (kind, given(Just(())), given(Just(())), 0usize..4, any::<u64>())
        .prop_map(|(kind, parameters, function, positional, key)| Refused {
            kind,
            parameters,
            function,
            positional,
            key,
        })
        .boxed()
}

fn check_refused(c: &Refused) -> CheckResult {
    let seen = Seen::default();
    let params = parameters(1., &[1, 1, 1, 1, 1], 0, 1)?;
    let list = vec![
        ("kind", c.kind.as_ref().map(|k| k.clone().into_any())),
        ("heavyside_parameters", c.parameters.py(|_| params)),
        ("custom_func", c.function.py(|_| callable(&Acc::Const(5), &seen))),
    ];
    let res = apply(&probabilistic("AcceptFunc")?, arguments(list, c.positional, c.key))?;
    let fine = match c.kind.as_deref() {
        None | Some("BuiltinHeavyside") => true,
        Some("ParametrizedHeavyside") => c.parameters.value().is_some(),
        Some("Custom") => c.function.value().is_some(),
        _ => false,
    };
    match res {
        Ok(_) if fine => {},
        Err(e) if !fine && e.kind == "ValueError" => {},
        r => return Err(format!("{c:?} gives {r:?}")),
    }
    Ok(Info::new(!fine)
        .label(c.kind.as_deref().is_some_and(|k| !KINDS.contains(&k)), "unknown kind"))
}

// ---------------------------------------------------------------------------- accept functions

#[derive(Clone, Debug, Serialize, Deserialize)]
struct AcceptCase {
    acc: PyAcc,
    /// used for several runs
    runs: u8,
    values: [i32; 7],
}

fn accept() -> BoxedStrategy<AcceptCase> {
    (py_acc(config::acc()), 1u8..4, any::<[i32; 7]>())
        .prop_map(|(acc, runs, values)| AcceptCase { acc, runs, values })
        .boxed()
}

fn check_accept(c: &AcceptCase) -> CheckResult {
    let seen = Seen::default();
    let func = c.acc.make(&seen)?;
    let run = top("run")?;
    let graph = make_graph(&vec![vec![]])?;
    let order = make_order(&vec![vec![(0, vec![])]], Form::Own)?;
    for k in 0..c.runs {
        let prob = PyAny::Tuple(vec![func.clone(), PyAny::None]);
        let args = Args {
            positional: vec![graph.clone(), order.clone()],
            keywords: vec![
                ("do_search".into(), true.into_any()),
                ("probabilistic".into(), prob),
            ],
        };
        let (res, mut calls) = observed(&[], || apply(&run, args));
        res?.map_err(|e| e.to_string())?;
        let (real, seed) =
            calls.pop().and_then(|c| c.prob).ok_or("no accept function is passed on")?;
        if seed.is_some() {
            return Err("a seed is passed on".into());
        }
        let mut values = c.values;
        values.rotate_left(k as usize);
        like(&c.acc.acc, real, &seen, &values)?;
    }
    Ok(Info::new(true)
        .label(c.acc.is_custom(), "custom")
        .label(matches!(c.acc.acc, Acc::Param { .. }), "parametrized"))
}

// --------------------------------------------------------------------------- failing callables

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Failure {
    Raises(String),
    Returns(Option<String>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FailingCase {
    p: Problem,
    /// the call that fails
    at: usize,
    failure: Failure,
    seed: u64,
}

fn failing() -> BoxedStrategy<FailingCase> {
    let kinds = ["ValueError", "KeyError", "StopIteration", "ZeroDivisionError", "TypeError"];
    let failure = prop_oneof![
        prop::sample::select(kinds.to_vec()).prop_map(|k| Failure::Raises(k.to_string())),
        Just(Failure::Returns(None)),
        Just(Failure::Returns(Some("1".to_string()))),
    ];
    (gen::mixed(300.), 0usize..30, failure, any::<u64>())
        .prop_map(|(p, at, failure, seed)| FailingCase { p, at, failure, seed })
        .boxed()
}

/// an error of the callable is not an answer of it
fn check_failing(c: &FailingCase) -> CheckResult {
    let count = Arc::new(AtomicUsize::new(0));
    let func = {
        let (count, at, failure) = (count.clone(), c.at, c.failure.clone());
        PyAny::Function(Arc::new(move |_| {
            if count.fetch_add(1, Ordering::Relaxed) != at {
                return Ok(1f64.into_any());
            }
            match &failure {
                Failure::Raises(k) => {
                    let kinds = ["ValueError", "KeyError", "StopIteration", "ZeroDivisionError"];
                    let kind = kinds.iter().find(|n| *n == k).unwrap_or(&"TypeError");
                    Err(PyErr::of(kind, "raised by the callable"))
                },
                Failure::Returns(None) => Ok(PyAny::None),
                Failure::Returns(Some(s)) => Ok(s.clone().into_any()),
            }
        }))
    };
    let args = Args {
        positional: vec!["Custom".into_any()],
        keywords: vec![("custom_func".into(), func)],
    };
    let func =
        apply(&probabilistic("AcceptFunc")?, args)?.map_err(|e| format!("AcceptFunc: {e}"))?;
    let args = Args {
        positional: vec![make_graph(&c.p.graph)?, make_order(&c.p.order, Form::Own)?],
        keywords: vec![
            ("do_search".into(), true.into_any()),
            ("probabilistic".into(), PyAny::Tuple(vec![func, c.seed.into_any()])),
        ],
    };
    let run = top("run")?;
    let res = apply(&run, args);
    let failed = count.load(Ordering::Relaxed) > c.at;
    match res {
        Ok(Ok(_)) if failed => {
            Err(format!("the callable fails ({:?}) at call {}, run returns paths", c.failure, c.at))
        },
        Err(e) if !failed => Err(format!("run panics: {e}")),
        Ok(Err(e)) if !failed => Err(format!("run raises: {e}")),
        _ => Ok(Info::new(failed)),
    }
}

// -------------------------------------------------------------------------------- with the library

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ResultCase {
    p: Problem,
    args: RunArgs,
}

fn results() -> BoxedStrategy<ResultCase> {
    let threads = prop_oneof![5 => Just(1u16), 1 => Just(0), 2 => 2u16..5];
    (
        gen::mixed(3e3),
        run_args(threads.boxed(), config::acc().boxed(), (100u32..10_000).boxed()),
    )
        .prop_map(|(p, args)| ResultCase { p, args })
        .boxed()
}

fn check_results(c: &ResultCase) -> CheckResult {
    let a = &c.args;
    let seen = Seen::default();
    let graph = make_graph(&c.p.graph)?;
    let order = make_order(&c.p.order, a.form)?;
    let res = a.run(&graph, &order, &seen)?;
    if a.unsupported() {
        return match res {
            Err(e) if e.kind == "ValueError" => Ok(Info::new(false)),
            r => Err(format!("a custom callable with threads: {r:?}")),
        };
    }
    let paths = res.map_err(|e| format!("run raised {e}"))?;
    let got = read_paths(&method(&paths, "into_py_paths")?)?;
    let cfg = Cfg {
        search: a.do_search.unwrap_or(false),
        nthreads: a.nthreads.unwrap_or(1),
        task_bound: a.task_bound.value().copied(),
        prob: a.prob.value().map(|(f, s)| (f.acc.clone(), *s)),
        timeout: a.timeout.value().map(|t| *t as u64 * 1_000_000),
    };
    let want: Vec<Plain> = no_panic(|| cfg.run(&c.p))?
        .into_iter()
        .map(|p| (p.time, p.space, p.steps))
        .collect();
    let seeded = cfg.prob.as_ref().is_none_or(|(_, s)| s.is_some());
    let same = if !cfg.search || (cfg.nthreads < 2 && seeded) {
        got == want
    } else if cfg.prob.is_none() {
        let costs = |v: &[Plain]| v.iter().map(|p| (p.0, p.1)).collect::<Vec<_>>();
        costs(&got) == costs(&want)
    } else {
        true
    };
    if !same {
        return Err(format!("{got:?} through the binding, {want:?} directly"));
    }
    for (time, _, steps) in &got {
        model::execute(&c.p, steps).map_err(|e| format!("invalid path {steps:?}: {e}"))?;
        if *time != steps.len() {
            return Err(format!("time {time} of {steps:?}"));
        }
    }
    Ok(Info::new(c.p.interesting() && !got.is_empty())
        .label(got.len() > 1, "several paths")
        .label(cfg.prob.is_some(), "probabilistic")
        .label(cfg.nthreads > 1, "threaded")
        .label(a.form == Form::Foreign, "foreign ordering"))
}

// ------------------------------------------------------------------------------------- objects

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Into,
    Take,
    /// make a new object of the result of Into
    Rebuild,
    /// write it down, in the format of the Rust interface (and of its files), and read it
    Text,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Content {
    Graph(Graph),
    Paths(Vec<Plain>),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Objects {
    content: Content,
    ops: Vec<Op>,
    keywords: bool,
}

fn objects() -> BoxedStrategy<Objects> {
    (
        prop_oneof![
            any_graph().prop_map(|g| Content::Graph(g.0)),
            plain().prop_map(Content::Paths)
        ],
        vec(prop_oneof![3 => Just(Op::Into), 1 => Just(Op::Take), 2 => Just(Op::Rebuild),
            1 => Just(Op::Text)], 1..8),
        any::<bool>(),
    )
        .prop_map(|(content, ops, keywords)| Objects { content, ops, keywords })
        .boxed()
}

fn check_objects(c: &Objects) -> CheckResult {
    let build = |class: &str, list: Vec<(&str, PyAny)>| {
        let list: Vec<_> = list.into_iter().map(|(n, v)| (n, Some(v))).collect();
        let k = if c.keywords { 0 } else { list.len() };
        apply(&top(class)?, arguments(list, k, 7))?.map_err(|e| format!("{class}: {e}"))
    };
    let (class, arg, into, take) = match &c.content {
        Content::Graph(_) => ("SpacialGraph", "graph", "into_py_graph", "take_into_py_graph"),
        Content::Paths(_) => ("Paths", "paths", "into_py_paths", "take_into_py_paths"),
    };
    let mut content = c.content.clone();
    let value = match &content {
        Content::Graph(g) => py_graph(g),
        Content::Paths(p) => {
            let mut list = vec![];
            for (time, space, steps) in p {
                list.push(build("Path", vec![
                    ("time", time.into_any()),
                    ("space", space.into_any()),
                    ("steps", steps.clone().into_any()),
                ])?);
            }
            PyAny::List(list)
        },
    };
    let compare = |got: &PyAny, content: &Content, what: &str| -> Result<(), String> {
        let fine = match content {
            Content::Graph(g) => text(got) == text(&py_graph(g)),
            Content::Paths(p) => read_paths(got)? == *p,
        };
        if fine {
            Ok(())
        } else {
            Err(format!("{what} gives {got:?}, the content is {content:?}"))
        }
    };
    let mut ob = build(class, vec![(arg, value)])?;
    let (mut taken, mut texts) = (0, 0);
    for op in &c.ops {
        match op {
            Op::Into => compare(&method(&ob, into)?, &content, into)?,
            Op::Take => {
                compare(&method(&ob, take)?, &content, take)?;
                taken += 1;
                content = match content {
                    Content::Graph(_) => Content::Graph(vec![]),
                    Content::Paths(_) => Content::Paths(vec![]),
                };
            },
            Op::Rebuild => ob = build(class, vec![(arg, method(&ob, into)?)])?,
            Op::Text => {
                texts += 1;
                let plain = |(time, space, steps): &Plain| interface::Path {
                    time: *time,
                    space: *space,
                    steps: steps.clone(),
                };
                let want = match &content {
                    Content::Graph(g) => json!(g),
                    Content::Paths(p) => json!(p.iter().map(plain).collect::<Vec<_>>()),
                };
                ob = written(&ob, &want)?;
                if let Content::Paths(p) = &content {
                    let PyAny::List(list) = method(&ob, into)? else {
                        return Err(format!("{into} gives no list"));
                    };
                    let again: Result<Vec<_>, _> =
                        list.iter().zip(p).map(|(l, p)| written(l, &json!(plain(p)))).collect();
                    compare(&PyAny::List(again?), &content, "a text of each path")?;
                }
            },
        }
    }
    Ok(Info::new(c.ops.len() > 1).label(taken > 0, "taken").label(taken > 1, "taken twice").label(texts > 0, "texts"))
}

/// the object that is read from the object's text
fn written(ob: &PyAny, want: &Value) -> Result<PyAny, String> {
    let text = method(ob, "serialize_to_string")?;
    let PyAny::Str(s) = &text else {
        return Err(format!("serialize_to_string gives {text:?}"));
    };
    if serde_json::from_str::<Value>(s).ok().as_ref() != Some(want) {
        return Err(format!("serialize_to_string gives {s}, the Rust interface has {want}"));
    }
    let args = Args::of(vec![PyAny::Str(want.to_string())]);
    no_panic(|| ob.invoke("deserialize_from_string", args))?
        .map_err(|e| format!("deserialize_from_string of {want}: {e}"))
}

// -------------------------------------------------------------------------------- the package

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Package {
    imports: Vec<String>,
}

fn package() -> BoxedStrategy<Package> {
    let top = ["SpacialGraph", "PartialOrderGraph", "Paths", "Path", "run"];
    let prob = ["AcceptFunc", "HeavysideParameters"];
    let one = prop_oneof![
        Just("import mbqc_scheduling".to_string()),
        Just("import mbqc_scheduling.probabilistic".to_string()),
        Just("import mbqc_scheduling.probabilistic as prob".to_string()),
        Just("from mbqc_scheduling import probabilistic".to_string()),
        prop::sample::subsequence(top.to_vec(), 1..=5)
            .prop_map(|v| format!("from mbqc_scheduling import {}", v.join(", "))),
        prop::sample::subsequence(prob.to_vec(), 1..=2)
            .prop_map(|v| format!("from mbqc_scheduling.probabilistic import {}", v.join(", "))),
    ];
    vec(one, 1..6).prop_map(|imports| Package { imports }).boxed()
}

/// the Python part of the package, on modules with the names that the binding registers
const SCRIPT: &str = r#"
import sys, types, json
tree = json.loads(sys.argv[1])
imports = json.loads(sys.argv[2])
for path, names in tree.items():
    m = types.ModuleType(path)
    for n in names:
        setattr(m, n, path + ":" + n)
    sys.modules[path] = m
sys.path.insert(0, "/repo/python_lib/python")
space = {}
for line in imports:
    exec(line, space)
import mbqc_scheduling
import mbqc_scheduling.probabilistic
want = [
    (mbqc_scheduling, "mbqc_scheduling._lib", ["SpacialGraph", "PartialOrderGraph", "Paths", "Path", "run"]),
    (mbqc_scheduling.probabilistic, "mbqc_scheduling._lib.probabilistic", ["AcceptFunc", "HeavysideParameters"]),
]
for m, path, names in want:
    for n in names:
        assert getattr(m, n) == path + ":" + n, (m.__name__, n, getattr(m, n))
        if n in space:
            assert space[n] == path + ":" + n, (n, space[n])
print("fine")
"#;

fn check_package(c: &Package) -> CheckResult {
    module();
    let names = |m: &PyModule| -> Vec<String> {
        m.items.lock().unwrap().iter().map(|i| i.0.clone()).collect()
    };
    let mut tree = BTreeMap::from([("mbqc_scheduling._lib".to_string(), names(module()))]);
    for (path, m) in pauli_tracker_pyo3::MODULES.lock().unwrap().iter() {
        tree.insert(path.clone(), names(m));
    }
    let out = Command::new("python3")
        .args(["-B", "-I", "-c", SCRIPT])
        .arg(serde_json::to_string(&tree).unwrap())
        .arg(serde_json::to_string(&c.imports).unwrap())
        .stdin(Stdio::null())
        .output()
        .expect("cannot start python3");
    if String::from_utf8_lossy(&out.stdout).trim() != "fine" {
        return Err(format!(
            "{:?}: {}",
            c.imports,
            String::from_utf8_lossy(&out.stderr).lines().last().unwrap_or("no output")
        ));
    }
    Ok(Info::new(hash64(&c.imports) != 0))
}
