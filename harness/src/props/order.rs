//! C24: the more time-optimal patterns are tried first.

use std::{
    collections::{HashMap, HashSet},
    sync::{Arc, Mutex},
};

use mbqc_scheduling::{
    interface::run,
    probabilistic::AcceptFunc,
    scheduler::{
        space::Graph,
        time::{DependencyBuffer, Partitioner, PathGenerator},
        tree::{FocusIterator, Step, Sweep},
        Scheduler,
    },
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use super::{
    config::{self, Acc, Cfg},
    prob::{with_pendants, Small},
    timing::{in_child, Endless},
};
use crate::{
    core::{hash64, no_panic, sub, sub_w, CheckResult, Info, Sub},
    gen,
    model::{levels, show, Problem},
};

fn chain(p: &Problem) -> usize {
    levels(p).values().max().map_or(0, |l| l + 1)
}

fn greedy(p: &Problem) -> Vec<Vec<usize>> {
    let levels = levels(p);
    let mut steps = vec![vec![]; chain(p)];
    for (b, l) in levels {
        steps[l].push(b);
    }
    steps.iter_mut().for_each(|s| s.sort());
    steps
}

fn sorted(steps: &[Vec<usize>]) -> Vec<Vec<usize>> {
    let mut steps = steps.to_vec();
    steps.iter_mut().for_each(|s| s.sort());
    steps
}

// -------------------------------------------------------------------------------- sweeps

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Walk {
    p: Problem,
    key: u64,
    /// after the first complete path: about that many steps are kept at each node
    keep: u32,
    time_only: bool,
}

fn walk() -> BoxedStrategy<Walk> {
    (
        prop_oneof![
            3 => gen::problem(1, 12, f64::INFINITY),
            2 => gen::wide_problem(4, 14, f64::INFINITY),
            2 => gen::long_problem(8, 60, f64::INFINITY),
            1 => gen::large_problem(200),
        ],
        any::<u64>(),
        0u32..5,
        any::<bool>(),
    )
        .prop_map(|(p, key, keep, time_only)| Walk { p, key, keep, time_only })
        .boxed()
}

struct Node {
    free: usize,
    /// nodes in the last step
    size: usize,
    steps: u64,
    /// the steps of that size
    of_size: HashSet<u64>,
}

/// (saturating, for large results)
fn choose(n: usize, k: usize) -> u64 {
    let k = k.min(n - k) as u128;
    let mut res = 1u128;
    for i in 0..k {
        res = res * (n as u128 - i) / (i + 1);
        if res > u64::MAX as u128 {
            return u64::MAX;
        }
    }
    res as u64
}

struct Seen {
    steps: u64,
    /// most steps seen at one node
    widest: u64,
    complete: bool,
}

fn walk_through<T: FocusIterator<IterItem = Vec<usize>>>(
    c: &Walk,
    root: T,
    measurable: impl Fn(&T) -> usize,
) -> Result<Seen, String> {
    let want = greedy(&c.p);
    let mut sweep = Sweep::new(root);
    let node = |t: &T| {
        let free = measurable(t);
        Node { free, size: free, steps: 0, of_size: HashSet::new() }
    };
    // the nodes of the current path
    let mut stack = vec![node(sweep.current())];
    let mut path: Vec<Vec<usize>> = vec![];
    let mut seen = Seen { steps: 0, widest: 0, complete: false };
    while seen.steps < 20_000 {
        match sweep.next() {
            None => break,
            Some(Step::Forward(set)) => {
                let top = stack.last_mut().ok_or("more steps back than forward")?;
                if top.steps == 0 && set.len() != top.size {
                    return Err(format!(
                        "after {path:?}, {set:?} is tried first, but {} nodes can be measured",
                        top.free
                    ));
                }
                if set.len() > top.size {
                    return Err(format!(
                        "after {path:?}, {set:?} is tried after a step with {} nodes",
                        top.size
                    ));
                }
                if set.len() < top.size {
                    let tried = top.of_size.len() as u64;
                    let all = choose(top.free, top.size);
                    if set.len() + 1 < top.size || tried < all {
                        return Err(format!(
                            "after {path:?}, {set:?} is tried when only {tried} of {all} steps \
                             with {} nodes have been, {} nodes can be measured",
                            top.size, top.free
                        ));
                    }
                    top.size = set.len();
                    top.of_size.clear();
                }
                let mut key = set.clone();
                key.sort();
                top.of_size.insert(hash64(&key));
                top.steps += 1;
                seen.steps += 1;
                seen.widest = seen.widest.max(top.steps);
                let drop = hash64(&(c.key, seen.steps)) % top.steps.max(4) >= u64::from(c.keep);
                if seen.complete && drop {
                    sweep.skip_current().map_err(|e| format!("skip: {e}"))?;
                } else {
                    path.push(set);
                    stack.push(node(sweep.current()));
                }
            },
            Some(Step::Backward(leaf)) => {
                if leaf.is_some() && !seen.complete {
                    seen.complete = true;
                    if sorted(&path) != want {
                        return Err(format!(
                            "the first complete path is {path:?}, measuring as early as possible \
                             is {want:?}"
                        ));
                    }
                }
                path.pop();
                stack.pop();
            },
        }
    }
    Ok(seen)
}

fn check_walk(c: &Walk) -> CheckResult {
    let mut buffer = DependencyBuffer::new(c.p.n());
    let time =
        PathGenerator::<Partitioner>::from_dependency_graph(&c.p.order, &mut buffer, None);
    let seen = no_panic(|| {
        if c.time_only {
            walk_through(c, time.clone(), |t| t.measurable().set.len())
        } else {
            let s = Scheduler::new(time.clone(), Graph::new(&c.p.graph));
            walk_through(c, s, |s| s.time().measurable().set.len())
        }
    })??;
    if !seen.complete {
        return Err(format!("no complete path within {} steps", seen.steps));
    }
    Ok(Info::new(seen.widest >= 3)
        .label(seen.widest >= 63, "63+ steps at a node")
        .label(c.p.n() > 64, "65+ nodes"))
}

// ------------------------------------------------------------------------------ searches

fn custom(f: impl Fn([f64; 7]) -> f64 + Send + Sync + 'static) -> AcceptFunc {
    AcceptFunc::Custom(Box::new(move |a, b, c, d, e, g, h| f([a, b, c, d, e, g, h])))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct First {
    p: Problem,
    nthreads: u16,
    seed: u64,
}

fn one_task() -> BoxedStrategy<u16> {
    prop_oneof![2 => 0u16..=1, 1 => 2u16..5].boxed()
}

/// a search that is not split up
fn bound(nthreads: u16) -> Option<u32> {
    (nthreads > 1).then_some(0)
}

fn first() -> BoxedStrategy<First> {
    (
        prop_oneof![
            3 => gen::problem(1, 20, f64::INFINITY),
            2 => gen::wide_problem(4, 20, f64::INFINITY),
            2 => gen::long_problem(8, 60, f64::INFINITY),
            1 => gen::large_problem(200),
        ],
        one_task(),
        config::seed(),
    )
        .prop_map(|(p, nthreads, seed)| First { p, nthreads, seed })
        .boxed()
}

/// the search accepts everything until a path is complete, and nothing from then on: it returns
/// the first path
fn check_first(c: &First) -> CheckResult {
    let done = Arc::new(Mutex::new(false));
    let accept = custom(move |a| {
        let mut done = done.lock().unwrap();
        if *done {
            return 0.;
        }
        *done = a[5] == 0.;
        1.
    });
    // refusing is quick, but there may be very many steps to refuse
    let timeout = Some(std::time::Duration::from_millis(300));
    let res = no_panic(|| {
        let prob = Some((accept, Some(c.seed)));
        run(&c.p.graph, &c.p.order, true, timeout, c.nthreads, bound(c.nthreads), prob)
    })?;
    let want = greedy(&c.p);
    match &res[..] {
        [path] if sorted(&path.steps) == want => {},
        // the timer was faster (on a busy machine)
        [] => return Ok(Info::new(false).label(true, "nothing found")),
        _ => {
            return Err(format!(
                "the first path found is {}, measuring as early as possible is {want:?}",
                show(&res)
            ))
        },
    }
    Ok(Info::new(c.p.interesting())
        .label(c.nthreads > 1, "threaded")
        .label(c.p.n() > 64, "65+ nodes"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Traced {
    p: Problem,
    acc: Acc,
    nthreads: u16,
    task_bound: Option<u32>,
    seed: u64,
}

fn weighted() -> impl Strategy<Value = Problem> {
    (gen::full_problem(1, 7, 1e5), any::<u64>()).prop_map(|(p, order)| {
        let n = p.n();
        let mut w: Vec<usize> = (0..n).map(|i| (n + 1) << i).collect();
        let mut rng = order;
        gen::shuffle(&mut w, &mut rng);
        with_pendants(&p, &w)
    })
}

fn traced() -> BoxedStrategy<Traced> {
    (
        weighted(),
        prop_oneof![
            1 => Just(Acc::Const(1000)),
            2 => (200u32..990).prop_map(Acc::Const),
            2 => (any::<u64>(), 120u32..=250).prop_map(|(key, n)| Acc::Hash { key, n }),
        ],
        one_task(),
        config::seed(),
    )
        .prop_map(|(p, acc, nthreads, seed)| Traced {
            p,
            acc,
            nthreads,
            task_bound: bound(nthreads),
            seed,
        })
        .boxed()
}

/// The accept function is called for the steps in the order in which they are tried. The memory
/// tells which nodes have been measured.
fn check_traced(c: &Traced) -> CheckResult {
    let s = Small::new(&c.p);
    let log: Arc<Mutex<Vec<(u64, u64)>>> = Arc::default();
    let l = log.clone();
    let inner = c.acc.func().get_accept_func();
    let accept = custom(move |a| {
        l.lock().unwrap().push((a[3] as u64, a[4] as u64));
        inner(a[0], a[1], a[2], a[3], a[4], a[5], a[6])
    });
    no_panic(|| {
        let prob = Some((accept, Some(c.seed)));
        run(&c.p.graph, &c.p.order, true, None, c.nthreads, c.task_bound, prob)
    })?;
    let log = log.lock().unwrap();
    let state = |x: u64| {
        s.by_occupied.get(&x).copied().ok_or(format!("unknown state (memory {x})"))
    };
    // nodes on the current path, each with the last step tried there
    let mut path: Vec<(u64, Option<u64>)> = vec![(0, None)];
    let mut most = 0;
    let mut count: HashMap<usize, u32> = HashMap::new();
    for (i, (from, to)) in log.iter().enumerate() {
        let (from, to) = (state(*from)?, state(*to)?);
        let step = to & !from;
        if path.last().unwrap().1.is_some_and(|s| s | path.last().unwrap().0 == from) {
            // the step tried before was accepted
            path.push((from, None));
            count.insert(path.len(), 0);
        }
        while path.last().unwrap().0 != from {
            path.pop();
            if path.is_empty() {
                return Err(format!("call {i}: {from:b} is not on the current path"));
            }
        }
        let depth = path.len();
        let top = path.last_mut().unwrap();
        if let Some(last) = top.1 {
            if step.count_ones() > last.count_ones() {
                return Err(format!(
                    "call {i}: with {from:b} measured, {step:b} is tried after {last:b} (as bit \
                     masks)"
                ));
            }
        }
        top.1 = Some(step);
        let k = count.entry(depth).or_default();
        *k += 1;
        most = most.max(*k);
    }
    Ok(Info::new(most >= 3)
        .label(most >= 20, "20+ steps at a node")
        .label(c.nthreads > 1, "threaded"))
}

fn tasks() -> BoxedStrategy<Traced> {
    (
        weighted(),
        prop_oneof![1 => config::threads(), 2 => 2u16..=3],
        prop_oneof![4 => 1u32..=8, 3 => 8u32..=60],
        config::seed(),
    )
        .prop_map(|(p, nthreads, b, seed)| Traced {
            p,
            acc: Acc::Const(0),
            nthreads,
            task_bound: Some(b),
            seed,
        })
        .boxed()
}

/// the tasks that are split off have the largest first sets; the calls tell which these are
fn check_tasks(c: &Traced) -> CheckResult {
    let s = Small::new(&c.p);
    let log: Arc<Mutex<Vec<(u64, u64)>>> = Arc::default();
    let l = log.clone();
    let accept = custom(move |a| {
        l.lock().unwrap().push((a[3] as u64, a[4] as u64));
        0.
    });
    let res = no_panic(|| {
        let prob = Some((accept, Some(c.seed)));
        run(&c.p.graph, &c.p.order, true, None, c.nthreads, c.task_bound, prob)
    })?;
    let state = |x: u64| {
        s.by_occupied.get(&x).copied().ok_or(format!("unknown state (memory {x})"))
    };
    // in the order of their first calls
    let (mut split, mut rest) = (vec![], vec![]);
    let mut starts: Vec<u64> = vec![];
    for (from, to) in log.lock().unwrap().iter() {
        let (from, to) = (state(*from)?, state(*to)?);
        if !starts.contains(&from) {
            starts.push(from);
        }
        if from == 0 { &mut rest } else { &mut split }.push(if from == 0 { to } else { from });
    }
    let least = split.iter().min_by_key(|m| m.count_ones()).copied();
    let most = rest.iter().max_by_key(|m| m.count_ones()).copied();
    if let (Some(a), Some(b)) = (least, most) {
        if a.count_ones() < b.count_ones() {
            return Err(format!(
                "a task with first set {a:b} was split off, while {b:b} was left to the remaining \
                 task (as bit masks)"
            ));
        }
    }
    // each of the other workers may have taken up a task and not have come to its first call
    for (i, a) in starts.iter().enumerate() {
        let late: Vec<_> =
            starts[i..].iter().filter(|b| b.count_ones() > a.count_ones()).collect();
        if late.len() >= c.nthreads as usize {
            return Err(format!(
                "{} workers did the task with first set {a:b} (0: the remaining task) before those \
                 with {late:?} (as numbers, in order: {starts:?})",
                c.nthreads
            ));
        }
    }
    if s.bits.available(0) == s.bits.all && res.len() != 1 {
        return Err("measuring everything at once was not a task".into());
    }
    Ok(Info::new(least.is_some() && most.is_some())
        .label(starts.len() > 2 * c.nthreads as usize, "more tasks than twice the workers"))
}

// ------------------------------------------------------------------- stopped searches

fn stopped() -> BoxedStrategy<Endless> {
    (
        prop_oneof![
            2 => gen::wide_problem(16, 36, f64::INFINITY),
            1 => gen::problem(16, 36, f64::INFINITY),
            1 => gen::large_problem(120),
        ],
        one_task(),
        prop_oneof![1 => 0u64..2_000, 2 => 2_000u64..40_000],
    )
        .prop_map(|(p, nthreads, timeout)| Endless {
            p,
            cfg: Cfg {
                search: true,
                nthreads,
                task_bound: bound(nthreads),
                prob: None,
                timeout: Some(timeout),
            },
        })
        .boxed()
}

/// what a stopped exhaustive search has found includes a path of the least possible time
fn check_stopped(c: &Endless) -> CheckResult {
    let Ok(found) = in_child("known", c)? else {
        // the matter of C10
        return Ok(Info::new(false).label(true, "did not end"));
    };
    let chain = chain(&c.p);
    if found.first().is_some_and(|f| f.0 != chain) {
        return Err(format!(
            "stopped after {} µs, the search has found {found:?} (time, space), but nothing with \
             the least time, {chain}",
            c.cfg.timeout.unwrap()
        ));
    }
    Ok(Info::new(!found.is_empty())
        .label(found.is_empty(), "nothing found")
        .label(found.len() > 1, "several paths")
        .label(c.cfg.nthreads > 1, "threaded"))
}

pub fn c24() -> Vec<Box<dyn Sub>> {
    vec![
        sub("sweep", (30_000, 600_000), walk, check_walk),
        sub("first", (1_600, 32_000), first, check_first),
        sub("trace", (24_000, 480_000), traced, check_traced),
        sub("tasks", (20_000, 400_000), tasks, check_tasks),
        sub_w("stopped", (2_400, 48_000), 8, stopped, check_stopped),
    ]
}
