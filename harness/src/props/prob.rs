//! C07-C09, C21: the probabilistic search.

use std::{
    collections::{BTreeMap, BTreeSet, HashMap, HashSet},
    fs,
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    thread,
};

use mbqc_scheduling::{
    interface::{run, Path},
    probabilistic::{AcceptBox, AcceptFunc, HeavysideParameters},
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::config::{self, exhaustive, Acc};
use crate::{
    core::{hash64, no_panic, sub, sub_w, CheckResult, Info, Sub},
    gen,
    model::{all_paths, costs, dominated_by, execute, front, pareto, show, Bits, Problem},
};

/// arguments of the accept function, in order
type Args = [f64; 7];

const MAX: f64 = usize::MAX as f64;

fn custom(f: impl Fn(Args) -> f64 + Send + Sync + 'static) -> AcceptFunc {
    AcceptFunc::Custom(Box::new(move |a, b, c, d, e, g, h| f([a, b, c, d, e, g, h])))
}

fn search(p: &Problem, nthreads: u16, task_bound: Option<u32>, a: AcceptFunc, seed: u64) -> Vec<Path> {
    run(&p.graph, &p.order, true, None, nthreads, task_bound, Some((a, Some(seed))))
}

// ------------------------------------------------------------------------- C07: filtering

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Filter {
    p: Problem,
    key: u64,
    /// accepted in `n`/256
    n: u32,
    /// which of last_max, last_cur, cur, remaining, total decide
    mask: u8,
    seed: u64,
    nthreads: u16,
    task_bound: Option<u32>,
}

fn decide(f: &Filter, tree_args: [u64; 5]) -> bool {
    let mut a = tree_args;
    for (i, x) in a.iter_mut().enumerate() {
        if f.mask >> i & 1 == 0 {
            *x = 0;
        }
    }
    hash64(&(f.key, a)) % 256 < f.n as u64
}

fn filter() -> BoxedStrategy<Filter> {
    (
        prop_oneof![5 => gen::problem(1, 8, 8e3), 1 => gen::long_problem(2, 40, 8e3)],
        any::<u64>(),
        prop_oneof![1 => Just(0u32), 1 => Just(256u32), 6 => 100u32..=250],
        prop_oneof![2 => Just(31u8), 1 => 1u8..32],
        config::seed(),
        prop_oneof![2 => 0u16..=1, 1 => config::threads()],
        config::task_bound(),
    )
        .prop_map(|(p, key, n, mask, seed, nthreads, task_bound)| Filter {
            p,
            key,
            n,
            mask,
            seed,
            nthreads,
            task_bound,
        })
        .boxed()
}

/// front of the paths all of whose steps (from step `skip` on) are accepted
fn filtered_front(f: &Filter, b: &Bits, skip: usize) -> Vec<(usize, usize)> {
    let total = b.all.count_ones();
    let mut res = BTreeSet::new();
    'paths: for path in all_paths(b) {
        let (mut m, mut peak) = (0u64, 0);
        for (i, s) in path.iter().enumerate() {
            let m2 = m | s;
            let new_peak = peak.max(b.step_mem(m, m2));
            let args = [
                peak as u64,
                b.occupied(m) as u64,
                b.occupied(m2) as u64,
                (total - m2.count_ones()) as u64,
                f.p.n() as u64,
            ];
            if i >= skip && !decide(f, args) {
                continue 'paths;
            }
            m = m2;
            peak = new_peak;
        }
        res.insert((path.len(), peak));
    }
    front(res.into_iter())
}

fn check_filter(f: &Filter) -> CheckResult {
    let b = Bits::new(&f.p);
    let g = f.clone();
    let accept = custom(move |[_, _, last_max, last_cur, cur, remaining, total]| {
        let a = [last_max, last_cur, cur, remaining, total].map(|x| x as u64);
        f64::from(u8::from(decide(&g, a)))
    });
    let res = no_panic(|| search(&f.p, f.nthreads, f.task_bound, accept, f.seed))?;
    let got = costs(&res);
    let want = filtered_front(f, &b, 0);
    if f.nthreads < 2 {
        if got != want {
            return Err(format!(
                "the best paths whose steps are all accepted have (time, space) {want:?}, the \
                 search returned {}",
                show(&res)
            ));
        }
    } else {
        // the first step of a task is taken anyway
        let free = filtered_front(f, &b, 1);
        if f.task_bound.is_none_or(|t| t > 1_000) && b.subset_count() <= 1_000 && got != free {
            return Err(format!(
                "the best paths whose steps after the first are all accepted have (time, space) \
                 {free:?}, the parallel search returned {}",
                show(&res)
            ));
        }
        if !dominated_by(&got, &free) || !dominated_by(&want, &got) {
            return Err(format!(
                "parallel search: accepted {want:?}, accepted apart from the first step {free:?},\
                 found {}",
                show(&res)
            ));
        }
    }
    Ok(Info::new(f.p.interesting() && f.n > 0 && f.n < 256)
        .label(want.is_empty(), "nothing accepted")
        .label(want != pareto(&f.p), "filter matters")
        .label(f.nthreads > 1, "threaded"))
}

// ------------------------------------------------------------------- C07: exact arguments

/// A problem in which the occupied memory identifies what has been measured: every ordered
/// node has private neighbours that are never measured.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Traced {
    p: Problem,
    acc: Acc,
    seed: u64,
    nthreads: u16,
    task_bound: Option<u32>,
}

pub fn with_pendants(p: &Problem, weights: &[usize]) -> Problem {
    let mut q = p.clone();
    for b in p.nodes() {
        for _ in 0..weights[b] {
            let x = q.graph.len();
            q.graph.push(vec![b]);
            q.graph[b].push(x);
        }
    }
    q
}

fn traced() -> BoxedStrategy<Traced> {
    (
        gen::full_problem(1, 6, 2e4),
        any::<u64>(),
        prop_oneof![
            2 => Just(Acc::Const(1000)),
            2 => (200u32..990).prop_map(Acc::Const),
            1 => Just(Acc::Builtin),
            2 => (any::<u64>(), 120u32..=250).prop_map(|(key, n)| Acc::Hash { key, n }),
        ],
        config::seed(),
        prop_oneof![3 => 0u16..=1, 1 => 2u16..5],
        config::task_bound(),
    )
        .prop_map(|(p, order, acc, seed, nthreads, task_bound)| {
            // distinguishable weights: at most 6 other nodes can be in memory as well
            let n = p.n();
            let mut w: Vec<usize> = (0..n).map(|i| (n + 1) << i).collect();
            let mut rng = order;
            gen::shuffle(&mut w, &mut rng);
            Traced { p: with_pendants(&p, &w), acc, seed, nthreads, task_bound }
        })
        .boxed()
}

/// like [Bits] but for problems with more than 64 nodes of which few are ordered
pub(super) struct Small {
    pub nodes: Vec<usize>,
    pub bits: Bits,
    /// private neighbours of each ordered node
    weight: Vec<usize>,
    pub by_occupied: HashMap<u64, u64>,
}

impl Small {
    pub fn new(p: &Problem) -> Self {
        let nodes = p.nodes();
        let k = nodes.len();
        assert_eq!(nodes, (0..k).collect::<Vec<_>>());
        let core = Problem {
            graph: p.graph[..k]
                .iter()
                .map(|ns| ns.iter().copied().filter(|x| *x < k).collect())
                .collect(),
            order: p.order.clone(),
        };
        let weight = p.graph[..k].iter().map(|ns| ns.iter().filter(|x| **x >= k).count()).collect();
        let mut s =
            Small { nodes, bits: Bits::new(&core), weight, by_occupied: HashMap::new() };
        for m in s.bits.ideals() {
            let old = s.by_occupied.insert(s.occupied(m) as u64, m);
            assert!(old.is_none(), "not distinguishable");
        }
        s
    }
    fn pend(&self, m: u64) -> usize {
        self.nodes.iter().filter(|i| m >> **i & 1 == 1).map(|i| self.weight[*i]).sum()
    }
    fn occupied(&self, m: u64) -> usize {
        self.bits.occupied(m) + self.pend(m)
    }
    fn step_mem(&self, m: u64, m2: u64) -> usize {
        self.bits.step_mem(m, m2) + self.pend(m2)
    }
    /// number of further steps needed at least
    fn chain(&self, m: u64) -> usize {
        let (mut m, mut c) = (m, 0);
        while m != self.bits.all {
            m |= self.bits.available(m);
            c += 1;
        }
        c
    }
}

impl Bits {
    pub fn subset_count(&self) -> u64 {
        1 << self.available(0).count_ones()
    }
}

fn check_traced(c: &Traced) -> CheckResult {
    let s = Small::new(&c.p);
    let n = c.p.n();
    let k = s.nodes.len();
    let log: Arc<Mutex<Vec<(Args, f64)>>> = Arc::default();
    let l = log.clone();
    let inner = c.acc.func().get_accept_func();
    let accept = custom(move |a: Args| {
        let r = inner(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
        l.lock().unwrap().push((a, r));
        r
    });
    let res = no_panic(|| search(&c.p, c.nthreads, c.task_bound, accept, c.seed))?;
    let log = log.lock().unwrap();
    let sequential = c.nthreads < 2;
    // what a sequential search has found so far: best space per time
    let mut best: Vec<f64> = vec![MAX; n + 2];
    let known = |best: &[f64], t: usize| best[..=t.min(n)].iter().copied().fold(MAX, f64::min);
    // measured set after each step of the current path, with the peak
    let mut path: Vec<(u64, usize)> = vec![(0, 0)];
    let mut definite = true;
    let peaks: HashMap<u64, BTreeSet<usize>> = reachable_peaks(&s);
    for (i, (a, r)) in log.iter().enumerate() {
        let [bound, minimal, last_max, last_cur, cur, remaining, total] = *a;
        let bad = |what: String| {
            Err(format!("accept call {i} with arguments {a:?} (previous: {:?}): {what}", i
                .checked_sub(1)
                .map(|j| log[j])))
        };
        if total != n as f64 {
            return bad(format!("total number of nodes is {n}"));
        }
        let Some(&m) = s.by_occupied.get(&(last_cur as u64)) else {
            return bad("no state of the search occupies that memory after the last step".into());
        };
        let Some(&m2) = s.by_occupied.get(&(cur as u64)) else {
            return bad("no state of the search occupies that memory after this step".into());
        };
        let step = m2 & !m;
        if m & !m2 != 0 || step == 0 || step & !s.bits.available(m) != 0 {
            return bad(format!("going from {m:b} to {m2:b} is no admissible step"));
        }
        let left = k - m2.count_ones() as usize;
        if remaining != left as f64 {
            return bad(format!("{left} nodes are left to measure after this step"));
        }
        if !peaks[&m].contains(&(last_max as usize)) {
            return bad(format!("peak before the step can only be one of {:?}", peaks[&m]));
        }
        if minimal > bound {
            return bad("the overall best is worse than the bounded one".into());
        }
        if let (false, Some(last)) = (minimal == MAX, res.last()) {
            if (last.space as f64) > minimal {
                return bad(format!("result {} misses the space known", show(&res)));
            }
        }
        if minimal != MAX && res.is_empty() {
            return bad("a path was known, but none is returned".into());
        }
        if !sequential || !definite {
            continue;
        }
        // the current path is a prefix of the last one
        while path.last().unwrap().0 != m {
            path.pop();
            if path.is_empty() {
                return bad(format!("{m:b} is not on the current path of a depth-first search"));
            }
        }
        let (_, peak) = *path.last().unwrap();
        if last_max != peak as f64 {
            return bad(format!("the peak before this step is {peak}"));
        }
        let min = known(&best, n);
        if minimal != min {
            return bad(format!("the best space found so far is {min}"));
        }
        let depth = path.len(); // steps including this one
        let (lo, hi) = (known(&best, depth + s.chain(m2)), known(&best, depth));
        if !(lo <= bound && bound <= hi) {
            return bad(format!(
                "best space found within the bound is between {lo} (any completion) and {hi} \
                 (the steps taken): {best:?}"
            ));
        }
        if *r >= 1. || *r > 0. && m2 != s.bits.all {
            // taken for sure, or decided by a coin and visible later
            let peak2 = peak.max(s.step_mem(m, m2));
            path.push((m2, peak2));
            if m2 == s.bits.all {
                best[depth] = best[depth].min(peak2 as f64);
            }
        } else if *r > 0. {
            // a coin decides about a complete path, whose outcome is not visible here
            definite = false;
        }
    }
    if sequential && definite {
        let want = front((0..=n).filter(|t| best[*t] < MAX).map(|t| (t, best[t] as usize)));
        if costs(&res) != want {
            return Err(format!("accepted paths cost {want:?}, returned {}", show(&res)));
        }
    }
    Ok(Info::new(log.len() >= 10)
        .label(log.iter().any(|(a, _)| a[1] != MAX), "bound known")
        .label(sequential && definite, "fully traced")
        .label(!sequential, "threaded"))
}

fn reachable_peaks(s: &Small) -> HashMap<u64, BTreeSet<usize>> {
    let mut peaks: HashMap<u64, BTreeSet<usize>> = HashMap::new();
    peaks.entry(0).or_default().insert(0);
    for m in s.bits.ideals() {
        let here = peaks[&m].clone();
        for st in Bits::subsets(s.bits.available(m)) {
            let mem = s.step_mem(m, m | st);
            let e = peaks.entry(m | st).or_default();
            e.extend(here.iter().map(|x| x.max(&mem)));
        }
    }
    peaks
}

// ------------------------------------------------------------------------ C07: frequencies

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Freq {
    /// acceptance probability by the number of remaining nodes, in 1/1000
    probs: Vec<u32>,
    seed: u64,
    threaded: bool,
}

fn freq() -> BoxedStrategy<Freq> {
    (
        vec(prop_oneof![1 => Just(0u32), 2 => Just(1000u32), 1 => 1000u32..3000, 6 => 1u32..1000], 1..=4),
        any::<u64>(),
        any::<bool>(),
    )
        .prop_map(|(probs, seed, threaded)| Freq { probs, seed, threaded })
        .boxed()
}

/// On a totally ordered problem there is one path; it is found with the product of the
/// acceptance probabilities.
fn check_freq(f: &Freq) -> CheckResult {
    const N: u64 = 1500;
    let l = f.probs.len();
    let mut probs = f.probs.clone();
    if f.threaded {
        // the first step of a parallel task is taken anyway
        probs[l - 1] = 1000;
    }
    let p = Problem {
        graph: (0..l)
            .map(|i| {
                let mut v = vec![];
                if i > 0 {
                    v.push(i - 1);
                }
                if i + 1 < l {
                    v.push(i + 1);
                }
                v
            })
            .collect(),
        order: (0..l).map(|i| vec![(i, if i == 0 { vec![] } else { vec![i - 1] })]).collect(),
    };
    let n = if f.threaded { 200 } else { N };
    let mut hits = 0u64;
    for i in 0..n {
        let pr = probs.clone();
        let accept = custom(move |a: Args| pr.get(a[5] as usize).map_or(f64::NAN, |x| *x as f64 / 1000.));
        let res = no_panic(|| {
            search(&p, if f.threaded { 2 } else { 1 }, None, accept, f.seed.wrapping_add(i * 7919))
        })?;
        hits += u64::from(!res.is_empty());
    }
    let q: f64 = probs.iter().map(|x| (*x as f64 / 1000.).min(1.)).product();
    let mean = n as f64 * q;
    let dev = if q == 0. || q == 1. { 0. } else { 6.5 * (mean * (1. - q)).sqrt() + 6. };
    if (hits as f64 - mean).abs() > dev {
        return Err(format!(
            "with acceptance probabilities {probs:?} (in 1/1000, by remaining nodes) the only \
             path was found {hits} times in {n} runs; expected {mean:.1} +- {dev:.1}"
        ));
    }
    Ok(Info::new(q > 0. && q < 1.).label(f.threaded, "threaded").label(l >= 3, "3+ steps"))
}

// --------------------------------------------------------------- C07: all or nothing

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct All {
    p: Problem,
    value: f64,
    seed: Option<u64>,
    nthreads: u16,
    task_bound: Option<u32>,
}

fn all() -> BoxedStrategy<All> {
    (
        gen::mixed(8e3),
        prop_oneof![
            2 => Just(1.),
            2 => Just(0.),
            1 => 1f64..1e6,
            1 => Just(f64::INFINITY),
            1 => Just(1.5),
        ],
        prop::option::weighted(0.8, config::seed()),
        config::any_threads(),
        config::task_bound(),
    )
        .prop_map(|(p, value, seed, nthreads, task_bound)| All { p, value, seed, nthreads, task_bound })
        .boxed()
}

fn check_all(c: &All) -> CheckResult {
    let v = c.value;
    let res = no_panic(|| {
        run(
            &c.p.graph,
            &c.p.order,
            true,
            None,
            c.nthreads,
            c.task_bound,
            Some((custom(move |_| v), c.seed)),
        )
    })?;
    if v >= 1. {
        let want = costs(&no_panic(|| exhaustive(&c.p, 1))?);
        if costs(&res) != want {
            return Err(format!(
                "accepting everything finds {:?}, the exhaustive search {want:?}",
                costs(&res)
            ));
        }
    } else if res.iter().any(|p| c.nthreads < 2 || p.time > 1) {
        return Err(format!("accepting nothing finds {}", show(&res)));
    }
    Ok(Info::new(c.p.interesting())
        .label(v >= 1., "everything")
        .label(v < 1., "nothing")
        .label(c.nthreads > 1, "threaded"))
}

pub fn c07() -> Vec<Box<dyn Sub>> {
    vec![
        sub("filter", (20_000, 400_000), filter, check_filter),
        sub("trace", (32_000, 640_000), traced, check_traced),
        sub("frequency", (720, 14_400), freq, check_freq),
        sub("all-or-nothing", (16_000, 320_000), all, check_all),
    ]
}

// ------------------------------------------------------------------------------------ C08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Formula {
    /// None: the built-in function
    param: Option<(f64, [i32; 5])>,
    args: Vec<f64>,
}

/// The formula as documented.
fn documented((cutoff, e): (f64, [i32; 5]), a: [f64; 7]) -> f64 {
    let [_, minimal_mem, last_max_mem, _, cur_mem, num_remaining_nodes, num_total_nodes] = a;
    let peak = if cur_mem > last_max_mem { cur_mem } else { last_max_mem };
    let diff = minimal_mem - peak;
    if diff < cutoff {
        return 0.;
    }
    let measured = num_total_nodes - num_remaining_nodes;
    let exponent = num_total_nodes.powi(e[1]) * num_remaining_nodes.powi(e[2])
        / diff.powi(e[3])
        / measured.powi(e[4]);
    num_total_nodes.powi(e[0]) * f64::exp(-exponent)
}

const BUILTIN: (f64, [i32; 5]) = (0., [2, 1, 1, 3, 1]);

fn heavyside((cutoff, e): (f64, [i32; 5])) -> AcceptFunc {
    AcceptFunc::ParametrizedHeavyside {
        param: HeavysideParameters {
            cutoff,
            lin_num_total_nodes_exp: e[0],
            exp_num_total_nodes_exp: e[1],
            exp_num_remaining_nodes_exp: e[2],
            exp_diff_exp: e[3],
            exp_num_measured_nodes_exp: e[4],
        },
    }
}

fn param() -> impl Strategy<Value = (f64, [i32; 5])> {
    (
        prop_oneof![Just(0.), Just(1.), Just(-1.), -5f64..5., 0f64..100.],
        [-2i32..=4, -2i32..=3, -2i32..=3, -2i32..=5, -2i32..=3],
    )
}

fn formula() -> BoxedStrategy<Formula> {
    let mem = || prop_oneof![4 => (0u32..40).prop_map(f64::from), 1 => (0u32..5000).prop_map(f64::from), 1 => 0f64..50.];
    let args = (
        prop_oneof![1 => Just(MAX), 4 => mem()],
        prop_oneof![1 => Just(MAX), 6 => mem()],
        mem(),
        mem(),
        mem(),
        // remaining, measured
        prop_oneof![4 => (0u32..60).prop_map(f64::from), 1 => (0u32..5000).prop_map(f64::from)],
        prop_oneof![4 => (1u32..60).prop_map(f64::from), 1 => (1u32..5000).prop_map(f64::from)],
        // how far above/below the peak the best known is
        prop::option::of((-6i32..12, prop_oneof![3 => Just(0.), 1 => 0f64..1.])),
    )
        .prop_map(|(bound, minimal, last_max, last_cur, cur, remaining, measured, d)| {
            let minimal = match d {
                Some((i, f)) => f64::max(cur, last_max) + i as f64 + f,
                None => minimal,
            };
            vec![bound, minimal, last_max, last_cur, cur, remaining, remaining + measured]
        });
    (prop::option::of(param()), args).prop_map(|(param, args)| Formula { param, args }).boxed()
}

fn check_formula(f: &Formula) -> CheckResult {
    let a: [f64; 7] = f.args.clone().try_into().unwrap();
    let (func, param): (AcceptBox, _) = match f.param {
        None => (AcceptFunc::BuiltinHeavyside.get_accept_func(), BUILTIN),
        Some(p) => (heavyside(p).get_accept_func(), p),
    };
    let want = documented(param, a);
    let got = no_panic(|| func(a[0], a[1], a[2], a[3], a[4], a[5], a[6]))?;
    // 0/0 and the like: the formula has no value
    let defined = !want.is_nan();
    let same = |x: f64, y: f64| {
        x == y || (x - y).abs() <= 1e-9 * x.abs().max(y.abs()) + 1e-300 || x.min(y) > 1e300
    };
    // exp blows the rounding errors of its argument up
    let sensitive = {
        let e = (want / a[6].powi(param.1[0])).ln();
        e.is_finite() && e.abs() > 1e4
    };
    if defined && !sensitive && !same(want, got) {
        return Err(format!("arguments {a:?}: got {got}, the documented formula gives {want}"));
    }
    if defined && got.is_nan() != want.is_nan() {
        return Err(format!("arguments {a:?}: got {got}, the documented formula gives {want}"));
    }
    if f.param.is_none() {
        for (name, g) in [
            ("default", AcceptFunc::default().get_accept_func()),
            ("parametrised (0, 2, 1, 1, 3, 1)", heavyside(BUILTIN).get_accept_func()),
        ] {
            let x = no_panic(|| g(a[0], a[1], a[2], a[3], a[4], a[5], a[6]))?;
            if defined && !same(want, x) {
                return Err(format!("arguments {a:?}: {name} gives {x}, the built-in {got}"));
            }
        }
    }
    Ok(Info::new(defined && want != 0.)
        .label(!defined, "undefined")
        .label(want == 0., "rejected")
        .label(want >= 1., "accepted")
        .label(want > 0. && want < 1., "in between")
        .label(a[1] == MAX, "nothing known"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Same {
    p: Problem,
    param: (f64, [i32; 5]),
    seed: u64,
}

/// in a seeded search, the functions are interchangeable with their documented formulas
fn check_same(c: &Same) -> CheckResult {
    let go = |a: AcceptFunc| no_panic(|| show(&search(&c.p, 1, None, a, c.seed)));
    let builtin = go(AcceptFunc::BuiltinHeavyside)?;
    for (name, a) in [
        ("the default function", AcceptFunc::default()),
        ("the parametrised function with (0, 2, 1, 1, 3, 1)", heavyside(BUILTIN)),
        ("its documented formula", custom(|a| documented(BUILTIN, a))),
    ] {
        let r = go(a)?;
        if r != builtin {
            return Err(format!("built-in function: {builtin}; {name}: {r}"));
        }
    }
    let (x, p) = (go(heavyside(c.param))?, c.param);
    let y = go(custom(move |a| documented(p, a)))?;
    if x != y {
        return Err(format!("parametrised function: {x}; its documented formula: {y}"));
    }
    Ok(Info::new(c.p.interesting()))
}

pub fn c08() -> Vec<Box<dyn Sub>> {
    vec![
        sub("formula", (1_600_000, 32_000_000), formula, check_formula),
        sub(
            "search",
            (4000, 80_000),
            || {
                (gen::mixed(6e3), param(), config::seed())
                    .prop_map(|(p, param, seed)| Same { p, param, seed })
                    .boxed()
            },
            check_same,
        ),
    ]
}

// ------------------------------------------------------------------------------------ C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Repro {
    p: Problem,
    acc: Acc,
    seed: u64,
    nthreads: [u16; 2],
    task_bound: Option<u32>,
}

fn repro() -> BoxedStrategy<Repro> {
    (gen::mixed(3e4), config::acc(), config::seed(), [0u16..=1, 0u16..=1], config::task_bound())
        .prop_map(|(p, acc, seed, nthreads, task_bound)| Repro { p, acc, seed, nthreads, task_bound })
        .boxed()
}

/// paths and a digest of what was explored
fn explore(p: &Problem, nthreads: u16, tb: Option<u32>, acc: &Acc, seed: u64) -> Result<(String, u64, u64), String> {
    let digest = Arc::new((AtomicU64::new(0), AtomicU64::new(0)));
    let d = digest.clone();
    let inner = acc.func().get_accept_func();
    let accept = custom(move |a: Args| {
        let old = d.0.load(Ordering::Relaxed);
        d.0.store(hash64(&(old, a.map(f64::to_bits))), Ordering::Relaxed);
        let r = inner(a[0], a[1], a[2], a[3], a[4], a[5], a[6]);
        if r > 0. && r < 1. {
            d.1.fetch_add(1, Ordering::Relaxed);
        }
        r
    });
    let res = no_panic(|| search(p, nthreads, tb, accept, seed))?;
    Ok((show(&res), digest.0.load(Ordering::Relaxed), digest.1.load(Ordering::Relaxed)))
}

fn check_repro(c: &Repro) -> CheckResult {
    let a = explore(&c.p, c.nthreads[0], c.task_bound, &c.acc, c.seed)?;
    let b = explore(&c.p, c.nthreads[1], c.task_bound, &c.acc, c.seed)?;
    if a.0 != b.0 {
        return Err(format!("same seed, different paths: {} and {}", a.0, b.0));
    }
    // without recording
    let plain = no_panic(|| show(&search(&c.p, c.nthreads[0], None, c.acc.func(), c.seed)))?;
    if plain != a.0 {
        return Err(format!("same seed, different paths: {plain} and {}", a.0));
    }
    Ok(Info::new(c.p.interesting() && a.2 >= 3)
        .label(a.2 >= 3, "3+ random decisions")
        .label(a.2 >= 100, "100+ random decisions"))
}

/// with the calls' digest, in this process or in another one
pub fn repro_child(file: &str) {
    let c: Repro = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let res = explore(&c.p, c.nthreads[1], c.task_bound, &c.acc, c.seed);
    println!("{}", serde_json::to_string(&res).unwrap());
}

fn check_process(c: &Repro) -> CheckResult {
    let a = explore(&c.p, c.nthreads[0], c.task_bound, &c.acc, c.seed)?;
    let name = format!("vh-c09-{}-{:?}.json", std::process::id(), thread::current().id());
    let file = std::env::temp_dir().join(name);
    fs::write(&file, serde_json::to_string(c).unwrap()).unwrap();
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["child", "repro"])
        .arg(&file)
        .stdin(Stdio::null())
        .output()
        .expect("cannot start the child");
    let _ = fs::remove_file(&file);
    let text = String::from_utf8_lossy(&out.stdout);
    let b: Result<(String, u64, u64), String> =
        serde_json::from_str(&text).map_err(|e| format!("child ({}): {e}: {text}", out.status))?;
    let b = b?;
    if a != b {
        return Err(format!("same seed, but in another process: {b:?} instead of {a:?}"));
    }
    Ok(Info::new(c.p.interesting() && a.2 >= 3).label(a.2 >= 100, "100+ random decisions"))
}

/// without random decisions, nothing differs between two runs
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Plain {
    p: Problem,
    search: bool,
    nthreads: [u16; 2],
    task_bound: Option<u32>,
}

fn check_plain(c: &Plain) -> CheckResult {
    let run = |nthreads| {
        no_panic(|| {
            show(&run(&c.p.graph, &c.p.order, c.search, None, nthreads, c.task_bound, None))
        })
    };
    let a = run(c.nthreads[0])?;
    for nthreads in [c.nthreads[1], c.nthreads[0]] {
        let b = run(nthreads)?;
        if a != b {
            return Err(format!("the same run gives different paths: {a} and {b}"));
        }
    }
    Ok(Info::new(c.p.interesting()).label(c.search, "search"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Seeds {
    p: Problem,
    prob: u32,
    seed: u64,
    /// how the seeds differ
    stride: u64,
}

fn check_seeds(c: &Seeds) -> CheckResult {
    const N: u64 = 40;
    let acc = Acc::Const(c.prob);
    let mut digests = HashSet::new();
    let mut decisions = 0;
    for i in 0..N {
        let (_, d, k) = explore(&c.p, 1, None, &acc, c.seed.wrapping_add(i.wrapping_mul(c.stride)))?;
        digests.insert(d);
        decisions += k;
    }
    // each seed makes at least so many coin flips on average; all explorations being the same
    // is then out of the question
    let nontrivial = c.p.num_ordered() >= 4 && decisions >= 8 * N;
    if nontrivial && digests.len() < 3 {
        return Err(format!(
            "{N} different seeds made only {} different explorations ({decisions} random \
             decisions)",
            digests.len()
        ));
    }
    Ok(Info::new(nontrivial).label(digests.len() as u64 > N / 2, "mostly different"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeedBits {
    p: Problem,
    prob: u32,
    seed: u64,
}

/// every bit of the seed counts
fn check_bits(c: &SeedBits) -> CheckResult {
    let acc = Acc::Const(c.prob);
    let (_, first, decisions) = explore(&c.p, 1, None, &acc, c.seed)?;
    // at most 0.82 for the same outcome of a decision: less than 1e-12 for all of them
    if decisions < 150 {
        return Ok(Info::new(false));
    }
    for k in 0..64 {
        let seed = c.seed ^ (1 << k);
        if explore(&c.p, 1, None, &acc, seed)?.1 == first {
            return Err(format!(
                "the seeds {} and {seed} make the same {decisions} random decisions",
                c.seed
            ));
        }
    }
    Ok(Info::new(true))
}

pub fn c09() -> Vec<Box<dyn Sub>> {
    vec![
        sub(
            "every bit",
            (1_600, 32_000),
            || {
                (gen::wide_problem(7, 12, 1e6), 500u32..=900, config::seed())
                    .prop_map(|(p, prob, seed)| SeedBits { p, prob, seed })
                    .boxed()
            },
            check_bits,
        ),
        sub("same seed", (32_000, 640_000), repro, check_repro),
        sub("other process", (2_000, 40_000), repro, check_process),
        sub(
            "not random",
            (16_000, 320_000),
            || {
                (
                    gen::mixed(3e4),
                    any::<bool>(),
                    [0u16..=1, 0u16..=1],
                    config::task_bound(),
                )
                    .prop_map(|(p, search, nthreads, task_bound)| Plain {
                        p,
                        search,
                        nthreads,
                        task_bound,
                    })
                    .boxed()
            },
            check_plain,
        ),
        sub(
            "other seed",
            (4_000, 80_000),
            || {
                (
                    gen::full_problem(4, 8, 3e3),
                    300u32..=700,
                    config::seed(),
                    prop_oneof![
                        2 => Just(1u64),
                        1 => Just(1u64 << 8),
                        1 => Just(1u64 << 16),
                        1 => Just(1u64 << 32),
                        1 => Just(1u64 << 40),
                        1 => Just(1u64 << 56),
                        1 => any::<u64>().prop_map(|x| x | 1)
                    ],
                )
                    .prop_map(|(p, prob, seed, stride)| Seeds { p, prob, seed, stride })
                    .boxed()
            },
            check_seeds,
        ),
    ]
}

// ------------------------------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Tasks {
    p: Problem,
    nthreads: u16,
    task_bound: Option<u32>,
    seed: Option<u64>,
}

fn tasks() -> BoxedStrategy<Tasks> {
    (
        gen::full_problem(1, 7, 1e5),
        config::threads(),
        prop_oneof![
            1 => Just(None),
            2 => Just(Some(0u32)),
            6 => (1u32..=20).prop_map(Some),
            3 => (20u32..=140).prop_map(Some),
            1 => prop_oneof![Just(Some(u32::MAX)), Just(Some(1 << 31)), Just(Some(100_000))],
        ],
        prop::option::of(config::seed()),
        any::<u64>(),
    )
        .prop_map(|(p, nthreads, task_bound, seed, order)| {
            let n = p.n();
            let mut w: Vec<usize> = (0..n).map(|i| (n + 1) << i).collect();
            let mut rng = order;
            gen::shuffle(&mut w, &mut rng);
            Tasks { p: with_pendants(&p, &w), nthreads, task_bound, seed }
        })
        .boxed()
}

/// With an accept function that refuses everything, every task only looks at the children of
/// its own first step, so that the calls tell which tasks there are.
fn check_tasks(c: &Tasks) -> CheckResult {
    let s = Small::new(&c.p);
    let log: Arc<Mutex<Vec<Args>>> = Arc::default();
    let l = log.clone();
    let res = no_panic(|| {
        run(
            &c.p.graph,
            &c.p.order,
            true,
            None,
            c.nthreads,
            c.task_bound,
            Some((
                custom(move |a| {
                    l.lock().unwrap().push(a);
                    0.
                }),
                c.seed,
            )),
        )
    })?;
    let log = log.lock().unwrap();
    let state = |x: f64| {
        s.by_occupied.get(&(x as u64)).copied().ok_or(format!("unknown state (memory {x})"))
    };
    // first sets looked at by the remaining task; children looked at by the others
    let mut rest: BTreeMap<u64, usize> = BTreeMap::new();
    let mut split: BTreeMap<u64, BTreeMap<u64, usize>> = BTreeMap::new();
    for a in log.iter() {
        let (m, m2) = (state(a[3])?, state(a[4])?);
        if m == 0 {
            *rest.entry(m2).or_default() += 1;
        } else {
            *split.entry(m).or_default().entry(m2).or_default() += 1;
        }
    }
    let all = s.bits.all;
    let firsts: BTreeSet<u64> = Bits::subsets(s.bits.available(0)).collect();
    // measuring everything at once has no children, but is a result if it is a task
    if !res.is_empty() {
        if costs(&res) != [(1, s.step_mem(0, all))] {
            return Err(format!("refusing everything finds {}", show(&res)));
        }
        split.insert(all, BTreeMap::new());
    }
    let mut seen: Vec<u64> = rest.keys().chain(split.keys()).copied().collect();
    seen.sort();
    let want: Vec<u64> = firsts.iter().copied().collect();
    // a path that measures everything at once may be found first and bound the others
    if seen != want {
        return Err(format!(
            "first sets of the tasks {:?} and of the remaining task {:?} are not a partition of \
             the possible first sets {want:?} (as bit masks)",
            split.keys().collect::<Vec<_>>(),
            rest
        ));
    }
    if let Some((m, k)) = rest.iter().find(|(_, k)| **k != 1) {
        return Err(format!("the remaining task looked at the first set {m:b} {k} times"));
    }
    for (m, kids) in &split {
        let want: BTreeSet<u64> = Bits::subsets(s.bits.available(*m)).map(|x| x | m).collect();
        let got: BTreeSet<u64> = kids.keys().copied().collect();
        if got != want || kids.values().any(|k| *k != 1) {
            return Err(format!(
                "task with first set {m:b}: looked at {kids:?}, possible are {want:?}"
            ));
        }
    }
    let bound = c.task_bound.map_or(DEFAULT_BOUND, u64::from);
    if split.len() as u64 > bound {
        return Err(format!("{} tasks were split off, the bound is {bound}", split.len()));
    }
    Ok(Info::new(firsts.len() >= 3)
        .label(bound == 0, "bound 0")
        .label(bound > 0 && bound < firsts.len() as u64, "bound in range")
        .label(bound == firsts.len() as u64, "bound equals number")
        .label(bound > firsts.len() as u64, "bound above number"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DetTasks {
    p: Problem,
    nthreads: u16,
    task_bound: Option<u32>,
}

/// the bound never changes what is found
fn check_bound_result(c: &DetTasks) -> CheckResult {
    let want = costs(&no_panic(|| exhaustive(&c.p, 1))?);
    let res =
        no_panic(|| run(&c.p.graph, &c.p.order, true, None, c.nthreads, c.task_bound, None))?;
    if costs(&res) != want {
        return Err(format!("found {:?} instead of {want:?}", costs(&res)));
    }
    for path in &res {
        if execute(&c.p, &path.steps) != Ok(path.space) {
            return Err(format!("invalid path {path:?}"));
        }
    }
    Ok(Info::new(c.p.interesting()).label(c.task_bound == Some(0), "bound 0"))
}

/// how many tasks are split off if nothing is said about it
const DEFAULT_BOUND: u64 = 100_000;

/// Very many first sets: `n` nodes without dependencies, each with a neighbour of its own that is
/// never measured (which tells how many nodes have been measured).
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    n: usize,
    order: u64,
    nthreads: u16,
    task_bound: Option<u32>,
}

fn many(lo: usize, hi: usize) -> BoxedStrategy<Many> {
    (lo..=hi)
        .prop_flat_map(|n| {
            let sets = (1u32 << n) - 1;
            let bound = prop_oneof![
                2 => (1..=sets).prop_map(Some),
                1 => (sets - 3..=sets + 3).prop_map(Some),
                1 => (1..=2000u32).prop_map(Some),
                1 => Just(None),
                1 => prop_oneof![Just(Some(0)), Just(Some(u32::MAX)), Just(Some(1 << 31))],
            ];
            (Just(n), any::<u64>(), config::threads(), bound)
        })
        .prop_map(|(n, order, nthreads, task_bound)| Many { n, order, nthreads, task_bound })
        .boxed()
}

/// counts, for each size of sets, tasks and first sets of the remaining task
fn check_many(c: &Many) -> CheckResult {
    let n = c.n;
    let mut label: Vec<usize> = (0..2 * n).collect();
    let mut rng = c.order;
    gen::shuffle(&mut label, &mut rng);
    let mut graph = vec![vec![]; 2 * n];
    let mut first = vec![];
    for i in 0..n {
        graph[label[i]].push(label[n + i]);
        graph[label[n + i]].push(label[i]);
        first.push((label[i], vec![]));
    }
    let p = Problem { graph, order: vec![first] };
    let calls: Arc<Vec<AtomicU64>> = Arc::new((0..(n + 1) * (n + 1)).map(|_| 0.into()).collect());
    let l = calls.clone();
    let res = no_panic(|| {
        run(
            &p.graph,
            &p.order,
            true,
            None,
            c.nthreads,
            c.task_bound,
            Some((
                custom(move |[_, _, _, last, _, remaining, _]| {
                    let (m, m2) = (last as usize, n.saturating_sub(remaining as usize));
                    l[m.min(n) * (n + 1) + m2].fetch_add(1, Ordering::Relaxed);
                    0.
                }),
                Some(1),
            )),
        )
    })?;
    let get = |m: usize, m2: usize| calls[m * (n + 1) + m2].load(Ordering::Relaxed);
    let binomial = |n: usize, k: usize| (0..k).fold(1, |x, i| x * (n - i) as u64 / (i + 1) as u64);
    let mut split = 0;
    for k in 1..=n {
        // those with k nodes in their first set; a task looks at its children once
        let kids: u64 = (k..=n).map(|m2| get(k, m2)).sum();
        let tasks = if k == n {
            u64::from(!res.is_empty())
        } else {
            let each = (1u64 << (n - k)) - 1;
            if kids % each != 0 {
                return Err(format!(
                    "tasks with {k} nodes in their first set looked at {kids} children, each has \
                     {each}"
                ));
            }
            kids / each
        };
        if tasks + get(0, k) != binomial(n, k) {
            return Err(format!(
                "of the {} first sets with {k} of {n} nodes, {tasks} are tasks and {} are left to \
                 the remaining task",
                binomial(n, k),
                get(0, k)
            ));
        }
        split += tasks;
    }
    let bound = c.task_bound.map_or(DEFAULT_BOUND, u64::from);
    if split > bound {
        return Err(format!("{split} tasks were split off, the bound is {bound}"));
    }
    Ok(Info::new(split > 0)
        .label(split > 255, "256+ tasks")
        .label(split > 10_000, "10000+ tasks")
        .label(bound < (1 << n) - 1, "bound in range"))
}

pub fn c21() -> Vec<Box<dyn Sub>> {
    vec![
        sub("tasks", (30_000, 600_000), tasks, check_tasks),
        sub_w("many", (240, 4_800), 4, || many(9, 13), check_many),
        sub_w("most", (2, 24), 2, || many(16, 16), check_many),
        sub_w(
            "default",
            (1, 6),
            1,
            || {
                (any::<u64>(), 4u16..=8)
                    .prop_map(|(order, nthreads)| Many { n: 17, order, nthreads, task_bound: None })
                    .boxed()
            },
            check_many,
        ),
        sub(
            "coverage",
            (4000, 80_000),
            || {
                (gen::problem(1, 8, 6e3), config::threads(), config::task_bound())
                    .prop_map(|(p, nthreads, task_bound)| DetTasks { p, nthreads, task_bound })
                    .boxed()
            },
            check_bound_result,
        ),
    ]
}
