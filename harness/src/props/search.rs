//! C01-C06, C18: what the search returns.

use std::{
    collections::{BTreeSet, HashMap},
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Condvar, Mutex,
    },
    thread::ThreadId,
    time::Duration,
};

use mbqc_scheduling::{
    interface::{run, Path},
    probabilistic::AcceptFunc,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use super::config::{self, exhaustive, Cfg};
use crate::{
    core::{no_panic, splitmix, sub, sub_w, CheckResult, Info, Sub},
    gen,
    model::{self, costs, execute, levels, pareto, show, Problem},
};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub p: Problem,
    pub cfg: Cfg,
}

fn case(limit: f64) -> BoxedStrategy<Case> {
    (gen::mixed(limit), config::cfg()).prop_map(|(p, cfg)| Case { p, cfg }).boxed()
}

fn case_large(p: BoxedStrategy<Problem>) -> BoxedStrategy<Case> {
    // large inputs: only feasible directly, or with a timeout
    (
        p,
        prop_oneof![
            1 => Just(None),
            1 => (config::any_threads(), 0u64..3000, prop::option::of(config::prob()))
                .prop_map(Some)
        ],
    )
        .prop_map(|(p, s)| Case {
            cfg: match s {
                None => Cfg {
                    search: false,
                    nthreads: 1,
                    task_bound: None,
                    prob: None,
                    timeout: None,
                },
                Some((nthreads, t, prob)) => Cfg {
                    search: true,
                    nthreads,
                    // the spawning of tasks alone takes long otherwise
                    task_bound: Some(2000),
                    prob,
                    timeout: Some(t),
                },
            },
            p,
        })
        .boxed()
}

fn info(c: &Case, res: &[Path]) -> Info {
    Info::new(c.p.interesting() && !res.is_empty())
        .label(!c.cfg.search, "direct")
        .label(c.cfg.search && c.cfg.prob.is_none(), "exhaustive")
        .label(c.cfg.prob.is_some() && c.cfg.search, "probabilistic")
        .label(c.cfg.nthreads > 1 && c.cfg.search, "threaded")
        .label(c.cfg.timeout.is_some_and(|t| t < 1_000_000), "short timeout")
        .label(res.is_empty(), "no result")
        .label(res.len() >= 2, "trade-off")
        .label(res.len() >= 3, "3+ paths")
        .label(c.p.num_ordered() < c.p.n(), "partially ordered")
        .label(c.p.n() > 12, "n > 12")
}

/// C01: every path is a valid complete schedule
fn check_c01(c: &Case) -> CheckResult {
    let res = no_panic(|| c.cfg.run(&c.p))?;
    for path in &res {
        execute(&c.p, &path.steps)
            .map_err(|e| format!("not executable: {e}; result {}", show(&res)))?;
    }
    Ok(info(c, &res))
}

/// C02: costs are true
fn check_c02(c: &Case) -> CheckResult {
    let res = no_panic(|| c.cfg.run(&c.p))?;
    for path in &res {
        if path.time != path.steps.len() {
            return Err(format!(
                "time {} but {} steps; result {}",
                path.time,
                path.steps.len(),
                show(&res)
            ));
        }
        // invalid schedules are C01's business
        if let Ok(space) = execute(&c.p, &path.steps) {
            if space != path.space {
                return Err(format!(
                    "space {} but executing takes {space}; result {}",
                    path.space,
                    show(&res)
                ));
            }
        }
    }
    Ok(info(c, &res))
}

/// C06: strictly increasing time, strictly decreasing space
fn check_c06(c: &Case) -> CheckResult {
    let res = no_panic(|| c.cfg.run(&c.p))?;
    for w in res.windows(2) {
        if !(w[0].time < w[1].time && w[0].space > w[1].space) {
            return Err(format!("not a strict trade-off list: {:?}", costs(&res)));
        }
    }
    let nontrivial = res.len() >= 2;
    let mut i = info(c, &res);
    i.nontrivial = nontrivial;
    Ok(i)
}

pub fn c01() -> Vec<Box<dyn Sub>> {
    vec![
        sub("mixed", (60_000, 1_200_000), || case(6e3), check_c01),
        sub("deep", (6_000, 120_000), || case(2e5), check_c01),
        sub("large", (12_000, 240_000), || case_large(gen::large_problem(220)), check_c01),
        sub("heavy", (800, 16_000), || case_large(gen::heavy_problem(600)), check_c01),
        sub_w("huge", (9, 90), 3, || case_large(gen::huge_problem()), check_c01),
    ]
}

pub fn c02() -> Vec<Box<dyn Sub>> {
    vec![
        sub("mixed", (60_000, 1_200_000), || case(6e3), check_c02),
        sub("deep", (6_000, 120_000), || case(2e5), check_c02),
        sub("large", (12_000, 240_000), || case_large(gen::large_problem(220)), check_c02),
        sub("heavy", (800, 16_000), || case_large(gen::heavy_problem(600)), check_c02),
        sub_w("huge", (9, 90), 3, || case_large(gen::huge_problem()), check_c02),
    ]
}

pub fn c06() -> Vec<Box<dyn Sub>> {
    fn search_case(limit: f64) -> BoxedStrategy<Case> {
        case(limit)
            .prop_map(|mut c| {
                c.cfg.search = true;
                c
            })
            .boxed()
    }
    vec![
        sub("mixed", (48_000, 960_000), || search_case(6e3), check_c06),
        sub("deep", (3_000, 60_000), || search_case(2e5), check_c06),
    ]
}

// ------------------------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Direct {
    p: Problem,
    /// the other parameters do not matter
    nthreads: u16,
    task_bound: Option<u32>,
    timeout: Option<u64>,
    prob: bool,
}

fn direct(p: BoxedStrategy<Problem>) -> BoxedStrategy<Direct> {
    (
        p,
        prop_oneof![2 => Just(1u16), 1 => 0u16..5],
        prop::option::of(0u32..4),
        prop::option::weighted(0.2, 0u64..2000),
        any::<bool>(),
    )
        .prop_map(|(p, nthreads, task_bound, timeout, prob)| Direct {
            p,
            nthreads,
            task_bound,
            timeout,
            prob,
        })
        .boxed()
}

fn check_c03(d: &Direct) -> CheckResult {
    let p = &d.p;
    let res = no_panic(|| {
        run(
            &p.graph,
            &p.order,
            false,
            d.timeout.map(Duration::from_micros),
            d.nthreads,
            d.task_bound,
            d.prob.then_some((AcceptFunc::BuiltinHeavyside, None)),
        )
    })?;
    let [path] = res.as_slice() else {
        return Err(format!("{} paths instead of one", res.len()));
    };
    let level = levels(p);
    let depth = level.values().max().map_or(0, |l| l + 1);
    if path.steps.len() != depth || path.time != depth {
        return Err(format!(
            "{} steps (time {}), but the longest dependency chain has {depth} nodes: {}",
            path.steps.len(),
            path.time,
            show(&res)
        ));
    }
    let mut count = 0;
    for (t, step) in path.steps.iter().enumerate() {
        for b in step {
            count += 1;
            if level.get(b) != Some(&t) {
                return Err(format!(
                    "node {b} is measured in step {t}, its earliest step is {:?}: {}",
                    level.get(b),
                    show(&res)
                ));
            }
        }
    }
    if count != level.len() {
        return Err(format!("{count} measurements for {} nodes", level.len()));
    }
    Ok(Info::new(level.len() >= 3 && depth >= 2)
        .label(p.n() > 50, "n > 50")
        .label(depth > 10, "depth > 10")
        .label(p.num_ordered() < p.n(), "partially ordered"))
}

pub fn c03() -> Vec<Box<dyn Sub>> {
    vec![
        sub("small", (300_000, 6_000_000), || direct(gen::problem(1, 16, f64::INFINITY)), check_c03),
        sub("long", (60_000, 1_200_000), || direct(gen::long_problem(2, 60, f64::INFINITY)), check_c03),
        sub("large", (60_000, 1_200_000), || direct(gen::large_problem(400)), check_c03),
        sub("heavy", (2_400, 48_000), || direct(gen::heavy_problem(600)), check_c03),
        sub_w("huge", (9, 90), 3, || direct(gen::huge_problem()), check_c03),
    ]
}

// ------------------------------------------------------------------------------------ C04

fn check_c04(p: &Problem) -> CheckResult {
    let want = pareto(p);
    for nthreads in [1, 0] {
        let res = no_panic(|| exhaustive(p, nthreads))?;
        if costs(&res) != want {
            return Err(format!(
                "search found (time, space) {:?}, the Pareto front is {want:?}; paths {}",
                costs(&res),
                show(&res)
            ));
        }
        // the costs have to be backed by real schedules
        for path in &res {
            match execute(p, &path.steps) {
                Ok(s) if s == path.space && path.steps.len() == path.time => {},
                r => return Err(format!("path does not realise its cost ({r:?}): {}", show(&res))),
            }
        }
        if p.n() > 9 {
            break;
        }
    }
    Ok(Info::new(p.interesting() && want.len() >= 2)
        .label(want.len() >= 2, "trade-off")
        .label(want.len() >= 3, "3+ points")
        .label(want.len() >= 5, "5+ points")
        .label(p.num_ordered() < p.n(), "partially ordered")
        .label(p.n() > 12, "n > 12"))
}

/// Problems that are too wide to count paths, as far as the search gets through them (it leaves
/// most of the tree out).
fn check_c04_wide(p: &Problem) -> CheckResult {
    const LIMIT: u64 = 400_000;
    if steps(p, LIMIT)? >= LIMIT {
        return Ok(Info::new(false).label(true, "too long"));
    }
    check_c04(p).map(|i| {
        i.label(p.order[0].len() >= 10, "10+ free nodes")
            .label(p.order.iter().any(|l| l.len() >= 12), "12+ nodes in a layer")
    })
}

/// up to a work limit for the dynamic program
fn wide() -> BoxedStrategy<Problem> {
    prop_oneof![
        2 => gen::wide_problem(9, 13, 1e300),
        2 => gen::problem(9, 16, 1e300),
        1 => gen::long_problem(30, 60, 1e300),
    ]
    .boxed()
}

pub fn c04() -> Vec<Box<dyn Sub>> {
    vec![
        sub("wide", (500, 20_000), wide, check_c04_wide),
        sub("small", (160_000, 3_200_000), || gen::problem(1, 8, 2e4), check_c04),
        sub("mixed", (32_000, 640_000), || gen::mixed(2e4), check_c04),
        sub("deep", (3_600, 72_000), || gen::mixed(4e5), check_c04),
    ]
}

// ------------------------------------------------------------------------------------ C05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Par {
    p: Problem,
    nthreads: u16,
    task_bound: Option<u32>,
}

fn par(p: BoxedStrategy<Problem>) -> BoxedStrategy<Par> {
    (p, config::threads(), config::task_bound())
        .prop_map(|(p, nthreads, task_bound)| Par { p, nthreads, task_bound })
        .boxed()
}

fn compare(what: &str, p: &Problem, res: &[Path], want: &[(usize, usize)]) -> Result<(), String> {
    if costs(res) != want {
        return Err(format!(
            "{what} found {:?}, the sequential search {want:?}; paths {}",
            costs(res),
            show(res)
        ));
    }
    for path in res {
        match execute(p, &path.steps) {
            Ok(s) if s == path.space => {},
            r => return Err(format!("{what}: path does not realise its cost ({r:?}): {path:?}")),
        }
    }
    Ok(())
}

fn check_c05(c: &Par) -> CheckResult {
    let want = no_panic(|| costs(&exhaustive(&c.p, 1)))?;
    let res =
        no_panic(|| run(&c.p.graph, &c.p.order, true, None, c.nthreads, c.task_bound, None))?;
    compare("parallel search", &c.p, &res, &want)?;
    Ok(Info::new(c.p.interesting() && want.len() >= 2)
        .label(c.nthreads >= 5, "5+ threads")
        .label(c.task_bound.is_some_and(|b| b < 7), "few tasks")
        .label(want.len() >= 3, "3+ points")
        .label(c.p.n() > 12, "n > 12"))
}

fn check_c05_broad(c: &Par) -> CheckResult {
    const LIMIT: u64 = 200_000;
    if steps(&c.p, LIMIT)? >= LIMIT {
        return Ok(Info::new(false).label(true, "too long"));
    }
    check_c05(c).map(|i| i.label(c.p.order[0].len() >= 10, "10+ free nodes"))
}

/// Owns the schedule: the accept function is called by the workers on every step they take.
struct Turns {
    state: Mutex<TurnState>,
    cv: Condvar,
}
struct TurnState {
    ids: HashMap<ThreadId, usize>,
    /// (worker, steps)
    phases: Vec<(u8, u32)>,
    phase: usize,
    used: u32,
    switches: u32,
    calls: u64,
}

impl Turns {
    fn new(phases: Vec<(u8, u32)>) -> Self {
        Self {
            state: Mutex::new(TurnState {
                ids: HashMap::new(),
                phases,
                phase: 0,
                used: 0,
                switches: 0,
                calls: 0,
            }),
            cv: Condvar::new(),
        }
    }
    fn step(&self) {
        let mut s = self.state.lock().unwrap();
        s.calls += 1;
        let k = s.ids.len();
        let me = *s.ids.entry(std::thread::current().id()).or_insert(k);
        loop {
            let Some(&(who, steps)) = s.phases.get(s.phase) else {
                return;
            };
            if who as usize == me {
                s.used += 1;
                if s.used >= steps {
                    s.phase += 1;
                    s.used = 0;
                    s.switches += 1;
                    self.cv.notify_all();
                }
                return;
            }
            let (phase, used) = (s.phase, s.used);
            let (g, t) = self.cv.wait_timeout(s, Duration::from_millis(4)).unwrap();
            s = g;
            // whose turn it is may be idle or done; go on without it
            if t.timed_out() && s.phase == phase && s.used == used {
                s.phase += 1;
                s.used = 0;
                self.cv.notify_all();
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sched {
    p: Problem,
    nthreads: u16,
    task_bound: Option<u32>,
    phases: Vec<(u8, u32)>,
}

fn sched(p: BoxedStrategy<Problem>) -> BoxedStrategy<Sched> {
    let steps = prop_oneof![3 => 1u32..15, 3 => 15u32..120, 1 => 120u32..1500];
    (
        p,
        2u16..=4,
        prop_oneof![4 => (1u32..=8).prop_map(Some), 1 => Just(None)],
        vec((0u8..4, steps), 0..14),
    )
        .prop_map(|(p, nthreads, task_bound, phases)| {
            let phases = phases.into_iter().map(|(w, s)| (w % nthreads as u8, s)).collect();
            Sched { p, nthreads, task_bound, phases }
        })
        .boxed()
}

/// steps of the sequential search, up to `limit`
fn steps(p: &Problem, limit: u64) -> Result<u64, String> {
    let count = Arc::new(AtomicU64::new(0));
    let n = count.clone();
    let accept = AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
        if n.fetch_add(1, Ordering::Relaxed) < limit {
            1.
        } else {
            0.
        }
    }));
    no_panic(|| run(&p.graph, &p.order, true, None, 1, None, Some((accept, Some(1)))))?;
    Ok(count.load(Ordering::Relaxed))
}

fn check_c05_sched(c: &Sched) -> CheckResult {
    const LIMIT: u64 = 60_000;
    if steps(&c.p, LIMIT)? >= LIMIT {
        return Ok(Info::new(false).label(true, "too long"));
    }
    let want = no_panic(|| costs(&exhaustive(&c.p, 1)))?;
    let turns = Arc::new(Turns::new(c.phases.clone()));
    let t = turns.clone();
    let accept = AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| {
        t.step();
        1.
    }));
    let res = no_panic(|| {
        run(
            &c.p.graph,
            &c.p.order,
            true,
            None,
            c.nthreads,
            c.task_bound,
            Some((accept, Some(3))),
        )
    })?;
    compare("parallel search under a controlled schedule", &c.p, &res, &want)?;
    let s = turns.state.lock().unwrap();
    Ok(Info::new(s.switches >= 2 && want.len() >= 2)
        .label(s.switches >= 2, "2+ switches")
        .label(s.switches >= 6, "6+ switches")
        .label(s.calls >= 1000, "1000+ steps")
        .label(s.calls >= 10000, "10000+ steps")
        .label(s.ids.len() >= 3, "3+ workers"))
}

pub fn c05() -> Vec<Box<dyn Sub>> {
    vec![
        sub_w("small", (24_000, 480_000), 4, || par(gen::mixed(6e3)), check_c05),
        sub_w("wide", (4_800, 96_000), 2, || par(gen::wide_problem(6, 11, 3e6)), check_c05),
        sub_w("broad", (250, 16_000), 2, || par(wide()), check_c05_broad),
        sub("schedule", (1500, 30_000), || sched(gen::wide_problem(8, 13, 1e10)), check_c05_sched),
    ]
}

// ------------------------------------------------------------------------------------ C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Meta {
    p: Problem,
    seed: u64,
    nthreads: u16,
}

fn meta(p: BoxedStrategy<Problem>) -> BoxedStrategy<Meta> {
    (p, any::<u64>(), prop_oneof![4 => Just(1u16), 1 => Just(2u16), 1 => Just(4)])
        .prop_map(|(p, seed, nthreads)| Meta { p, seed, nthreads })
        .boxed()
}

fn relabel(p: &Problem, perm: &[usize]) -> Problem {
    let mut graph = vec![vec![]; p.n()];
    for (i, ns) in p.graph.iter().enumerate() {
        graph[perm[i]] = ns.iter().map(|x| perm[*x]).collect();
    }
    let order = p
        .order
        .iter()
        .map(|l| {
            l.iter()
                .map(|(b, d)| (perm[*b], d.iter().map(|x| perm[*x]).collect()))
                .collect()
        })
        .collect();
    Problem { graph, order }
}

fn reorder(p: &Problem, rng: &mut u64) -> Problem {
    let mut q = p.clone();
    for ns in q.graph.iter_mut() {
        gen::shuffle(ns, rng);
    }
    for l in q.order.iter_mut() {
        gen::shuffle(l, rng);
        for (_, d) in l.iter_mut() {
            gen::shuffle(d, rng);
        }
    }
    q
}

fn ancestors(p: &Problem) -> HashMap<usize, BTreeSet<usize>> {
    let mut anc: HashMap<usize, BTreeSet<usize>> = HashMap::new();
    for (b, d) in p.order.iter().flatten() {
        let mut s: BTreeSet<usize> = d.iter().copied().collect();
        for x in d {
            s.extend(anc[x].iter().copied());
        }
        anc.insert(*b, s);
    }
    anc
}

/// adds (some of) or removes the implied dependencies
fn redundant(p: &Problem, add: bool, rng: &mut u64) -> Problem {
    let anc = ancestors(p);
    let mut q = p.clone();
    for (b, d) in q.order.iter_mut().flatten() {
        if add {
            for x in &anc[b] {
                if !d.contains(x) && splitmix(rng) % 3 != 0 {
                    d.push(*x);
                }
            }
        } else {
            let old = d.clone();
            d.retain(|x| !old.iter().any(|y| anc[y].contains(x)));
        }
    }
    q
}

/// one more edge, or one more dependency, where possible
fn tighten(p: &Problem, rng: &mut u64) -> Option<Problem> {
    let n = p.n();
    let nodes = p.nodes();
    for _ in 0..20 {
        let mut q = p.clone();
        if splitmix(rng) % 2 == 0 {
            let (a, b) = ((splitmix(rng) % n as u64) as usize, (splitmix(rng) % n as u64) as usize);
            if a != b && !q.graph[a].contains(&b) {
                q.graph[a].push(b);
                q.graph[b].push(a);
                return Some(q);
            }
        } else {
            let a = nodes[(splitmix(rng) % nodes.len() as u64) as usize];
            let b = nodes[(splitmix(rng) % nodes.len() as u64) as usize];
            let anc = ancestors(p);
            // b after a
            if a != b && !anc[&a].contains(&b) && !anc[&b].contains(&a) {
                let mut deps = p.deps();
                deps.get_mut(&b).unwrap().push(a);
                q.order = gen::layered(&nodes, &deps);
                return Some(q);
            }
        }
    }
    None
}

fn found(p: &Problem, search: bool, nthreads: u16) -> Result<Vec<(usize, usize)>, String> {
    debug_assert_eq!(p.validate(), Ok(()));
    no_panic(|| costs(&run(&p.graph, &p.order, search, None, nthreads, None, None)))
}

fn check_c18(c: &Meta, search: bool) -> CheckResult {
    let p = &c.p;
    let mut rng = c.seed;
    let base = found(p, search, c.nthreads)?;
    let mut perm: Vec<usize> = (0..p.n()).collect();
    gen::shuffle(&mut perm, &mut rng);
    let variants = [
        ("renaming the nodes", relabel(p, &perm)),
        ("reordering the lists", reorder(p, &mut rng)),
        ("adding implied dependencies", redundant(p, true, &mut rng)),
        ("removing implied dependencies", redundant(p, false, &mut rng)),
        (
            "renaming, reordering and adding implied dependencies",
            reorder(&relabel(&redundant(p, true, &mut rng), &perm), &mut rng),
        ),
    ];
    for (what, q) in &variants {
        let f = found(q, search, c.nthreads)?;
        if f != base {
            return Err(format!(
                "{what} changed the trade-offs from {base:?} to {f:?}; other problem {}",
                serde_json::to_string(q).unwrap()
            ));
        }
    }
    let mut tightened = 0;
    for _ in 0..2 {
        let Some(q) = tighten(p, &mut rng) else { break };
        tightened += 1;
        let f = found(&q, search, c.nthreads)?;
        // without search, only the time of the time-optimal path is comparable
        let ok = if search {
            model::dominated_by(&f, &base)
        } else {
            f.len() == 1 && base.len() == 1 && f[0].0 >= base[0].0
        };
        if !ok {
            return Err(format!(
                "one more edge or dependency improved the trade-offs from {base:?} to {f:?}; \
                 other problem {}",
                serde_json::to_string(&q).unwrap()
            ));
        }
    }
    Ok(Info::new(p.interesting() && (base.len() >= 2 || !search))
        .label(tightened > 0, "tightened")
        .label(variants[2].1 != *p, "redundant added")
        .label(base.len() >= 2, "trade-off")
        .label(p.n() > 10, "n > 10"))
}

pub fn c18() -> Vec<Box<dyn Sub>> {
    vec![
        sub("mixed", (12_000, 240_000), || meta(gen::mixed(6e3)), |c| check_c18(c, true)),
        sub("deep", (240, 4_800), || meta(gen::mixed(3e5)), |c| check_c18(c, true)),
        sub("direct", (20_000, 400_000), || meta(gen::large_problem(150)), |c| check_c18(c, false)),
    ]
}
