//! C12-C15: path generation, manual scheduling, memory accounting, construction.

use std::collections::{BTreeSet, HashMap as StdMap, HashSet};

use hashbrown::HashMap;
use mbqc_scheduling::scheduler::{
    space::{AlreadyMeasured, Graph, GraphBuffer, State},
    time::{DependencyBuffer, MeasurableSet, NotMeasurable, Partitioner, PathGenerator},
    tree::{Focus, FocusIterator, Step, Sweep},
    InstructionError, Partition, Scheduler,
};
use proptest::{collection::vec, prelude::*};
use serde::{Deserialize, Serialize};

use crate::{
    core::{hash64, splitmix, sub, CheckResult, Info, Sub},
    gen,
    model::{Bits, Problem},
};

fn mask(set: &[usize]) -> Result<u64, String> {
    let mut m = 0u64;
    for b in set {
        if *b >= 64 || m >> b & 1 == 1 {
            return Err(format!("{set:?} is no set of nodes"));
        }
        m |= 1 << b;
    }
    Ok(m)
}

fn list(m: u64) -> Vec<usize> {
    (0..64).filter(|i| m >> i & 1 == 1).collect()
}

// ------------------------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SweepCase {
    p: Problem,
    /// a node of the tree is skipped in `rate`/256, depending on the path to it
    key: u64,
    rate: u32,
    /// also skip after stepping back to a node
    late: bool,
    /// sweep over time only
    time_only: bool,
    /// start somewhere in the tree: masks for the steps taken before
    start: Vec<u64>,
    /// instead of `rate`: about that many steps are kept at each node, and the sweep is left
    /// after a while
    #[serde(default)]
    keep: Option<u32>,
}

/// wide problems: too many paths for all of them, but at each node that is visited, all steps
fn broad_case() -> BoxedStrategy<SweepCase> {
    (
        sweep_case(
            prop_oneof![
                2 => gen::wide_problem(4, 12, f64::INFINITY),
                2 => gen::problem(4, 12, f64::INFINITY),
                1 => gen::long_problem(8, 40, f64::INFINITY),
            ]
            .boxed(),
        ),
        1u32..6,
    )
        .prop_map(|(c, keep)| SweepCase { rate: 0, keep: Some(keep), ..c })
        .boxed()
}

/// all the steps at one node, of which there are very many
fn wide_case() -> BoxedStrategy<SweepCase> {
    (
        sweep_case(
            prop_oneof![
                gen::wide_problem(13, 18, f64::INFINITY),
                gen::problem(13, 18, f64::INFINITY),
            ]
            .boxed(),
        ),
        vec(any::<u64>(), 0..3),
    )
        .prop_map(|(c, start)| SweepCase { rate: 0, keep: Some(0), start, ..c })
        .boxed()
}

fn sweep_case(p: BoxedStrategy<Problem>) -> BoxedStrategy<SweepCase> {
    (
        p,
        any::<u64>(),
        prop_oneof![2 => Just(0u32), 1 => 1u32..20, 1 => 20u32..140],
        any::<bool>(),
        any::<bool>(),
        prop_oneof![3 => Just(vec![]), 1 => vec(any::<u64>(), 1..4)],
    )
        .prop_map(|(p, key, rate, late, time_only, start)| SweepCase {
            p,
            key,
            rate,
            late,
            time_only,
            start,
            keep: None,
        })
        .boxed()
}

/// what a sweep shows of its current state
trait View: FocusIterator<IterItem = Vec<usize>> {
    fn time(&self) -> &dyn TimeView;
    fn memory(&self) -> Option<(usize, usize)>;
    fn leaf(item: Self::LeafItem) -> Option<usize>;
}

trait TimeView {
    fn set(&self) -> Vec<usize>;
    fn remaining(&self) -> usize;
    fn blocked(&self) -> bool;
}

impl<T: MeasurableSet> TimeView for PathGenerator<'_, T> {
    fn set(&self) -> Vec<usize> {
        self.measurable().set().to_vec()
    }
    fn remaining(&self) -> usize {
        self.num_remaining_nodes()
    }
    fn blocked(&self) -> bool {
        self.has_unmeasureable()
    }
}

impl View for PathGenerator<'_, Partitioner> {
    fn time(&self) -> &dyn TimeView {
        self
    }
    fn memory(&self) -> Option<(usize, usize)> {
        None
    }
    fn leaf(_: ()) -> Option<usize> {
        None
    }
}

impl View for Scheduler<'_, Partitioner> {
    fn time(&self) -> &dyn TimeView {
        Scheduler::time(self)
    }
    fn memory(&self) -> Option<(usize, usize)> {
        Some((self.space().current_memory(), self.space().max_memory()))
    }
    fn leaf(item: usize) -> Option<usize> {
        Some(item)
    }
}

fn check_time(t: &dyn TimeView, b: &Bits, m: u64) -> Result<(), String> {
    let set = mask(&t.set())?;
    let avail = b.available(m);
    if set != avail {
        return Err(format!(
            "after measuring {:?}, {:?} are measurable, but it says {:?}",
            list(m),
            list(avail),
            list(set)
        ));
    }
    let left = (b.all & !m).count_ones() as usize;
    if t.remaining() != left {
        return Err(format!(
            "after measuring {:?}, {left} nodes are left, but it says {}",
            list(m),
            t.remaining()
        ));
    }
    let blocked = b.all & !m & !avail != 0;
    if t.blocked() != blocked {
        return Err(format!("after measuring {:?}: unmeasurable nodes left is {blocked}", list(m)));
    }
    Ok(())
}

struct Tree {
    measured: u64,
    peak: usize,
    seen: HashSet<u64>,
}

struct SweepStats {
    leaves: u64,
    skipped: u64,
    late: u64,
    nodes: u64,
    /// most steps at a node all of whose steps were seen
    widest: u64,
}

fn check_sweep<T: View>(c: &SweepCase, b: &Bits, root: T, m0: u64, peak0: usize) -> Result<SweepStats, String> {
    let mut sweep = Sweep::new(root);
    let mut stack = vec![Tree { measured: m0, peak: peak0, seen: HashSet::new() }];
    let mut path: Vec<u64> = vec![];
    let mut st = SweepStats { leaves: 0, skipped: 0, late: 0, nodes: 0, widest: 0 };
    let skip = |path: &[u64], k: u64, steps: u64| match c.keep {
        None => hash64(&(c.key, path, k)) % 256 < c.rate as u64,
        Some(keep) => hash64(&(c.key, path, k)) % steps.max(1) >= keep as u64,
    };
    let steps = |m: u64| (1u64 << b.available(m).count_ones()) - 1;
    let err = |path: &[u64], what: String| {
        Err(format!("at {:?}: {what}", path.iter().map(|m| list(*m)).collect::<Vec<_>>()))
    };
    loop {
        let depth = stack.len();
        let top = stack.last().unwrap();
        if sweep.stack().len() != depth - 1 {
            return err(&path, format!("stack has {} states", sweep.stack().len()));
        }
        {
            let cur = sweep.current();
            check_time(cur.time(), b, top.measured)
                .map_err(|e| format!("at {path:?}: {e}"))?;
            if let Some((c, m)) = cur.memory() {
                if (c, m) != (b.occupied(top.measured), top.peak) {
                    return err(&path, format!(
                        "memory (current, peak) is ({c}, {m}), should be ({}, {})",
                        b.occupied(top.measured), top.peak
                    ));
                }
            }
            let leaf = cur.at_leaf();
            if leaf.is_some() != (top.measured == b.all) {
                return err(&path, "at_leaf is wrong".into());
            }
            if let Some(Some(mem)) = leaf.map(T::leaf) {
                if mem != top.peak {
                    return err(&path, format!("at_leaf says {mem} instead of {}", top.peak));
                }
            }
        }
        let before = top.seen.len() as u64;
        match sweep.next() {
            Some(Step::Forward(set)) => {
                let s = mask(&set).map_err(|e| format!("at {path:?}: {e}"))?;
                if s == 0 || s & !b.available(top.measured) != 0 {
                    return err(&path, format!("goes on with {set:?}, which is not admissible"));
                }
                if !stack.last_mut().unwrap().seen.insert(s) {
                    return err(&path, format!("goes on with {set:?} a second time"));
                }
                let top = stack.last().unwrap();
                st.nodes += 1;
                let (m, m2) = (top.measured, top.measured | s);
                let peak = top.peak.max(b.step_mem(m, m2));
                path.push(s);
                if skip(&path, u64::MAX, steps(m)) {
                    sweep.skip_current().map_err(|e| format!("skip: {e}"))?;
                    path.pop();
                    st.skipped += 1;
                } else {
                    stack.push(Tree { measured: m2, peak, seen: HashSet::new() });
                }
            },
            back => {
                let top = stack.last().unwrap();
                let want = steps(top.measured);
                st.widest = st.widest.max(want);
                if before != want {
                    return err(&path, format!("only {before} of {want} steps were tried"));
                }
                match back {
                    None => {
                        if depth != 1 {
                            return err(&path, "ended early".into());
                        }
                        break;
                    },
                    Some(Step::Backward(leaf)) => {
                        if depth == 1 {
                            return err(&path, "stepped back from the root".into());
                        }
                        let complete = top.measured == b.all;
                        st.leaves += u64::from(complete);
                        if leaf.is_some() != complete {
                            return err(&path, format!(
                                "complete: {complete}, marked as leaf: {}", leaf.is_some()
                            ));
                        }
                        if let Some(Some(mem)) = leaf.map(T::leaf) {
                            if mem != top.peak {
                                return err(&path, format!(
                                    "leaf memory {mem} instead of {}", top.peak
                                ));
                            }
                        }
                        stack.pop();
                        path.pop();
                        // late skips: the parent is dropped with what is left of it
                        let k = stack.last().unwrap().seen.len() as u64;
                        if c.late && stack.len() > 1 && skip(&path, k, 64) {
                            sweep.skip_current().map_err(|e| format!("skip: {e}"))?;
                            stack.pop();
                            path.pop();
                            st.late += 1;
                        } else if c.late && stack.len() == 1 && skip(&path, k, 64) {
                            // nothing to go back to: refused, and nothing changes
                            if sweep.skip_current().is_ok() {
                                return err(&path, "the root was skipped".into());
                            }
                        }
                    },
                    Some(Step::Forward(_)) => unreachable!(),
                }
            },
        }
        if c.keep.is_some_and(|k| k > 0) && st.nodes > 30_000 {
            break;
        }
        if st.nodes > 3_000_000 {
            return Err("sweeps through more nodes than there are".into());
        }
    }
    Ok(st)
}

fn check_c12(c: &SweepCase) -> CheckResult {
    let b = Bits::new(&c.p);
    let mut buffer = DependencyBuffer::new(c.p.n());
    let mut time =
        PathGenerator::<Partitioner>::from_dependency_graph(&c.p.order, &mut buffer, None);
    let mut scheduler = Scheduler::new(time.clone(), Graph::new(&c.p.graph));
    let (mut m, mut peak) = (0, 0);
    for s in &c.start {
        let avail = b.available(m);
        let set = s & avail;
        if set == avail || set == 0 {
            continue;
        }
        time.focus_inplace(&list(set)).map_err(|e| format!("focus: {e}"))?;
        scheduler.focus_inplace(&list(set)).map_err(|e| format!("focus: {e}"))?;
        peak = peak.max(b.step_mem(m, m | set));
        m |= set;
    }
    let st = if c.time_only {
        check_sweep(c, &b, time, m, 0)?
    } else {
        check_sweep(c, &b, scheduler, m, peak)?
    };
    Ok(Info::new(st.nodes >= 8)
        .label(st.widest >= 127, "127+ steps at a node")
        .label(st.widest >= 16_383, "16383+ steps at a node")
        .label(st.skipped > 0, "skips")
        .label(st.late > 0, "late skips")
        .label(st.leaves >= 100, "100+ complete paths")
        .label(m != 0, "from an inner node")
        .label(c.p.num_ordered() < c.p.n(), "partially ordered"))
}

/// into_iter gives the same as Sweep::new; all paths are produced
fn check_into_iter(p: &Problem) -> CheckResult {
    let b = Bits::new(p);
    let mut want: Vec<Vec<u64>> = crate::model::all_paths(&b);
    want.sort();
    let mut buffer = DependencyBuffer::new(p.n());
    let time = PathGenerator::<Partitioner>::from_dependency_graph(&p.order, &mut buffer, None);
    let sched = Scheduler::<Partitioner>::new(time.clone(), Graph::new(&p.graph));
    fn collect<L>(
        it: impl Iterator<Item = Step<Vec<usize>, Option<L>>>,
    ) -> Result<Vec<Vec<u64>>, String> {
        let (mut cur, mut out) = (vec![], vec![]);
        for s in it {
            match s {
                Step::Forward(set) => cur.push(mask(&set)?),
                Step::Backward(leaf) => {
                    if leaf.is_some() {
                        out.push(cur.clone());
                    }
                    cur.pop().ok_or("more steps back than forward")?;
                },
            }
        }
        if !cur.is_empty() {
            return Err("fewer steps back than forward".into());
        }
        out.sort();
        Ok(out)
    }
    let a = collect(time.into_iter())?;
    let s = collect(sched.into_iter())?;
    if a != want || s != want {
        return Err(format!(
            "{} and {} paths (time, scheduler), there are {}",
            a.len(),
            s.len(),
            want.len()
        ));
    }
    Ok(Info::new(want.len() >= 5).label(want.len() >= 100, "100+ paths"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Parts {
    set: Vec<u32>,
}

/// each way of splitting the set in two comes exactly once
fn check_partition(c: &Parts) -> CheckResult {
    let n = c.set.len();
    let mut seen = HashSet::new();
    let mut count = 0u64;
    // positions tell equal elements apart
    let set: Vec<(usize, u32)> = c.set.iter().copied().enumerate().collect();
    for (l, r) in Partition::new(set.clone(), n) {
        count += 1;
        let (lm, rm) = (
            mask(&l.iter().map(|x| x.0).collect::<Vec<_>>())?,
            mask(&r.iter().map(|x| x.0).collect::<Vec<_>>())?,
        );
        if lm & rm != 0 || (lm | rm) != (1 << n) - 1 {
            return Err(format!("{l:?}, {r:?} is no partition of {set:?}"));
        }
        if l.iter().chain(&r).any(|x| c.set[x.0] != x.1) {
            return Err(format!("elements changed: {l:?}, {r:?}"));
        }
        if !seen.insert(lm) {
            return Err(format!("{l:?}, {r:?} comes twice"));
        }
    }
    if count != 1 << n {
        return Err(format!("{count} partitions of a set of {n}"));
    }
    Ok(Info::new(n >= 2))
}

pub fn c12() -> Vec<Box<dyn Sub>> {
    vec![
        sub("sweep", (60_000, 1_200_000), || sweep_case(gen::problem(1, 8, 6e3)), check_c12),
        sub("long", (6_400, 128_000), || sweep_case(gen::long_problem(2, 60, 6e3)), check_c12),
        sub("broad", (20_000, 400_000), broad_case, check_c12),
        sub("wide", (160, 3_200), wide_case, check_c12),
        sub("paths", (24_000, 480_000), || gen::problem(1, 8, 6e3), check_into_iter),
        sub(
            "partition",
            (3_000, 40_000),
            || vec(any::<u32>(), 0..=12).prop_map(|set| Parts { set }).boxed(),
            check_partition,
        ),
    ]
}

// ------------------------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// a subset of what is measurable (by bits)
    Valid(u64, u64),
    Everything(u64),
    Nothing,
    /// a valid part, and nodes that cannot be measured now (by kind)
    Invalid { part: u64, bad: Vec<(u8, u16)>, order: u64 },
    /// repeated nodes
    Repeated { part: u64, times: u8, order: u64 },
    /// next set of the iterator; false: ignore the new state
    Next(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    p: Problem,
    /// op, in place, keep the new state if not
    ops: Vec<(Op, bool, bool)>,
    /// 0: Scheduler<Vec>, 1: Scheduler<Partitioner>, 2: PathGenerator<Vec>, 3: .. <Partitioner>
    kind: u8,
}

fn history() -> BoxedStrategy<History> {
    let op = prop_oneof![
        8 => (any::<u64>(), any::<u64>()).prop_map(|(a, b)| Op::Valid(a, b)),
        1 => any::<u64>().prop_map(Op::Everything),
        1 => Just(Op::Nothing),
        4 => (any::<u64>(), vec((0u8..5, any::<u16>()), 1..4), any::<u64>())
            .prop_map(|(part, bad, order)| Op::Invalid { part, bad, order }),
        2 => (any::<u64>(), 2u8..5, any::<u64>())
            .prop_map(|(part, times, order)| Op::Repeated { part, times, order }),
        2 => any::<bool>().prop_map(Op::Next),
    ];
    (
        prop_oneof![
            4 => gen::problem(1, 10, f64::INFINITY),
            1 => gen::long_problem(1, 50, f64::INFINITY),
            1 => gen::problem(1, 20, f64::INFINITY)
        ],
        vec((op, any::<bool>(), any::<bool>()), 1..30),
        0u8..4,
    )
        .prop_map(|(p, ops, kind)| History { p, ops, kind })
        .boxed()
}

/// the common interface of the four machines
trait Machine: Clone {
    fn inplace(&mut self, s: &[usize]) -> Result<(), InstructionError>;
    fn copying(&mut self, s: &[usize]) -> Result<Self, InstructionError>;
    fn time(&self) -> &dyn TimeView;
    fn space(&self) -> Option<&Graph<'_>>;
    fn next(&mut self) -> Option<Option<(Self, Vec<usize>)>> {
        None
    }
}

impl Machine for Scheduler<'_, Vec<usize>> {
    fn inplace(&mut self, s: &[usize]) -> Result<(), InstructionError> {
        self.focus_inplace(s)
    }
    fn copying(&mut self, s: &[usize]) -> Result<Self, InstructionError> {
        self.focus(s)
    }
    fn time(&self) -> &dyn TimeView {
        Scheduler::time(self)
    }
    fn space(&self) -> Option<&Graph<'_>> {
        Some(Scheduler::space(self))
    }
}
impl Machine for Scheduler<'_, Partitioner> {
    fn inplace(&mut self, s: &[usize]) -> Result<(), InstructionError> {
        self.focus_inplace(s)
    }
    fn copying(&mut self, s: &[usize]) -> Result<Self, InstructionError> {
        self.focus(s)
    }
    fn time(&self) -> &dyn TimeView {
        Scheduler::time(self)
    }
    fn space(&self) -> Option<&Graph<'_>> {
        Some(Scheduler::space(self))
    }
    fn next(&mut self) -> Option<Option<(Self, Vec<usize>)>> {
        Some(self.next_and_focus())
    }
}
impl Machine for PathGenerator<'_, Vec<usize>> {
    fn inplace(&mut self, s: &[usize]) -> Result<(), InstructionError> {
        self.focus_inplace(s).map_err(Into::into)
    }
    fn copying(&mut self, s: &[usize]) -> Result<Self, InstructionError> {
        self.focus(s).map_err(Into::into)
    }
    fn time(&self) -> &dyn TimeView {
        self
    }
    fn space(&self) -> Option<&Graph<'_>> {
        None
    }
}
impl Machine for PathGenerator<'_, Partitioner> {
    fn inplace(&mut self, s: &[usize]) -> Result<(), InstructionError> {
        self.focus_inplace(s).map_err(Into::into)
    }
    fn copying(&mut self, s: &[usize]) -> Result<Self, InstructionError> {
        self.focus(s).map_err(Into::into)
    }
    fn time(&self) -> &dyn TimeView {
        self
    }
    fn space(&self) -> Option<&Graph<'_>> {
        None
    }
    fn next(&mut self) -> Option<Option<(Self, Vec<usize>)>> {
        Some(self.next_and_focus())
    }
}

fn check_space(g: &Graph, b: &Bits, m: u64, peak: usize) -> Result<(), String> {
    if g.current_memory() != b.occupied(m) || g.max_memory() != peak {
        return Err(format!(
            "after measuring {:?}: memory (current, peak) is ({}, {}), should be ({}, {peak})",
            list(m),
            g.current_memory(),
            g.max_memory(),
            b.occupied(m)
        ));
    }
    let touched = b.touched(m);
    for (i, (s, _)) in g.nodes().iter().enumerate() {
        let want = if m >> i & 1 == 1 {
            State::Measured
        } else if touched >> i & 1 == 1 {
            State::InMemory
        } else {
            State::Sleeping
        };
        if *s != want {
            return Err(format!("node {i} is {s:?} after measuring {:?}", list(m)));
        }
    }
    Ok(())
}

fn check_machine<M: Machine>(h: &History, b: &Bits, mut x: M) -> Result<[usize; 4], String> {
    let n = h.p.n();
    let (mut m, mut peak) = (0u64, 0usize);
    // [accepted, refused, repeated, too long]
    let mut counts = [0; 4];
    // what next_and_focus has produced for the current state
    let mut produced: HashSet<u64> = HashSet::new();
    // whether doing nothing in place restarts the iteration is left open
    let mut known = true;
    let consistent = |x: &M, m: u64, peak: usize| -> Result<(), String> {
        check_time(x.time(), b, m)?;
        if let Some(g) = x.space() {
            check_space(g, b, m, peak)?;
        }
        Ok(())
    };
    consistent(&x, m, peak)?;
    for (i, (op, inplace, keep)) in h.ops.iter().enumerate() {
        let at = |e: String| format!("op {i} {op:?} (in place: {inplace}): {e}");
        let avail = b.available(m);
        let arrange = |mut v: Vec<usize>, order: u64| {
            let mut rng = order;
            gen::shuffle(&mut v, &mut rng);
            v
        };
        let some = |bits: u64, upto: u64| -> u64 {
            let r = bits & upto;
            if r == 0 && upto != 0 {
                upto & upto.wrapping_neg()
            } else {
                r
            }
        };
        let instruction: Vec<usize> = match op {
            Op::Valid(a, o) => arrange(list(some(*a, avail)), *o),
            Op::Everything(o) => arrange(list(avail), *o),
            Op::Nothing => vec![],
            Op::Repeated { part, times, order } => {
                let s = list(some(*part, avail));
                let mut v = s.clone();
                if let Some(f) = s.first() {
                    for _ in 1..*times {
                        v.push(*f);
                    }
                }
                arrange(v, *order)
            },
            Op::Invalid { part, bad, order } => {
                let mut v = list(part & avail);
                for (kind, pick) in bad {
                    let pool = match kind {
                        0 => list(m),
                        1 => list(b.all & !m & !avail),
                        2 => list(!b.all & ((1u64 << n) - 1)),
                        3 => vec![n, n + 1 + *pick as usize, usize::MAX],
                        _ => list(!avail & ((1u64 << n) - 1)),
                    };
                    if !pool.is_empty() {
                        v.push(pool[*pick as usize % pool.len()]);
                    }
                }
                arrange(v, *order)
            },
            Op::Next(k) => {
                match x.next() {
                    None => {},
                    Some(None) => {
                        let want = (1u64 << avail.count_ones()) - 1;
                        if known && (produced.len() as u64) < want {
                            return Err(at(format!("ended after {} sets", produced.len())));
                        }
                    },
                    Some(Some((new, set))) => {
                        let s = mask(&set).map_err(at)?;
                        if s == 0 || s & !avail != 0 || !produced.insert(s) && known {
                            return Err(at(format!("produced {set:?}")));
                        }
                        let peak2 = peak.max(b.step_mem(m, m | s));
                        consistent(&new, m | s, peak2).map_err(at)?;
                        consistent(&x, m, peak).map_err(at)?;
                        if *k {
                            x = new;
                            m |= s;
                            peak = peak2;
                            produced.clear();
                            known = true;
                        }
                    },
                }
                continue;
            },
        };
        // multiset difference
        let mut rest = avail;
        let mut offending = vec![];
        for e in &instruction {
            if *e < 64 && rest >> e & 1 == 1 {
                rest &= !(1 << e);
            } else {
                offending.push(*e);
            }
        }
        let ok = offending.is_empty();
        let set = avail & !rest;
        counts[usize::from(!ok)] += 1;
        counts[2] += usize::from(matches!(op, Op::Repeated { .. }) && !ok);
        counts[3] += usize::from(instruction.len() > avail.count_ones() as usize);
        let peak2 = if ok { peak.max(b.step_mem(m, m | set)) } else { peak };
        let refused = |e: InstructionError| -> Result<(), String> {
            if ok {
                return Err(at(format!("{instruction:?} refused with {e:?}")));
            }
            let InstructionError::NotMeasurable(NotMeasurable(named)) = &e else {
                return Err(at(format!("{instruction:?} refused with {e:?}")));
            };
            let named: BTreeSet<_> = named.iter().collect();
            let want: BTreeSet<_> = offending.iter().collect();
            if named != want {
                return Err(at(format!(
                    "{instruction:?}: the offending nodes are {want:?}, it names {named:?}"
                )));
            }
            if !e.to_string().contains(&offending[0].to_string()) {
                return Err(at(format!("message does not name the nodes: {e}")));
            }
            Ok(())
        };
        let accepted = || {
            if ok {
                Ok(())
            } else {
                Err(at(format!("{instruction:?} accepted")))
            }
        };
        let step = if *inplace {
            let r = match x.inplace(&instruction) {
                Ok(()) => accepted().map(|_| true),
                Err(e) => refused(e).map(|_| false),
            };
            r?
        } else {
            let before = x.clone();
            match x.copying(&instruction) {
                Ok(new) => {
                    accepted()?;
                    consistent(&x, m, peak).map_err(|e| at(format!("original: {e}")))?;
                    consistent(&new, m | set, peak2).map_err(at)?;
                    // both ways agree
                    let mut other = before;
                    other.inplace(&instruction).map_err(|e| at(format!("in place: {e}")))?;
                    consistent(&other, m | set, peak2)
                        .map_err(|e| at(format!("in place: {e}")))?;
                    if *keep {
                        x = new;
                    }
                    *keep
                },
                Err(e) => {
                    refused(e)?;
                    false
                },
            }
        };
        if step {
            m |= set;
            peak = peak2;
            if set != 0 {
                produced.clear();
                known = true;
            } else {
                known = false;
            }
        }
        consistent(&x, m, peak).map_err(at)?;
    }
    Ok(counts)
}

fn check_c13(h: &History) -> CheckResult {
    let b = Bits::new(&h.p);
    let mut buffer = DependencyBuffer::new(h.p.n());
    let o = &h.p.order;
    let g = || Graph::new(&h.p.graph);
    let c = match h.kind {
        0 => {
            let t = PathGenerator::<Vec<usize>>::from_dependency_graph(o, &mut buffer, None);
            check_machine(h, &b, Scheduler::new(t, g()))?
        },
        1 => {
            let t = PathGenerator::<Partitioner>::from_dependency_graph(o, &mut buffer, None);
            check_machine(h, &b, Scheduler::new(t, g()))?
        },
        2 => check_machine(
            h,
            &b,
            PathGenerator::<Vec<usize>>::from_dependency_graph(o, &mut buffer, None),
        )?,
        _ => check_machine(
            h,
            &b,
            PathGenerator::<Partitioner>::from_dependency_graph(o, &mut buffer, None),
        )?,
    };
    Ok(Info::new(c[0] >= 2 && c[1] >= 1)
        .label(c[1] >= 3, "3+ refused")
        .label(c[2] >= 1, "repeated nodes")
        .label(c[3] >= 1, "longer than the measurable set")
        .label(c[0] >= 8, "8+ accepted"))
}

/// histories on hundreds of nodes
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LargeHistory {
    p: Problem,
    /// kind of instruction, random numbers for it, in place, keep the new state if not
    ops: Vec<(u8, u64, bool, bool)>,
    kind: u8,
    /// before the history, as many times everything is measured
    lead: usize,
    /// measure everything that is left afterwards
    finish: bool,
}

fn large_history() -> BoxedStrategy<LargeHistory> {
    (
        prop_oneof![3 => gen::large_problem(300), 1 => gen::heavy_problem(400)],
        vec((0u8..10, any::<u64>(), any::<bool>(), any::<bool>()), 1..60),
        0u8..4,
        prop_oneof![5 => Just(0usize), 1 => 1usize..200],
        prop::bool::weighted(0.2),
    )
        .prop_map(|(p, ops, kind, lead, finish)| LargeHistory { p, ops, kind, lead, finish })
        .boxed()
}

struct LargeModel<'l> {
    p: &'l Problem,
    deps: StdMap<usize, Vec<usize>>,
    measured: BTreeSet<usize>,
    touched: BTreeSet<usize>,
    peak: usize,
}

impl LargeModel<'_> {
    fn available(&self) -> BTreeSet<usize> {
        self.deps
            .iter()
            .filter(|(b, d)| {
                !self.measured.contains(b) && d.iter().all(|d| self.measured.contains(d))
            })
            .map(|(b, _)| *b)
            .collect()
    }
    fn apply(&self, set: &[usize]) -> Self {
        let mut touched = self.touched.clone();
        for b in set {
            touched.insert(*b);
            touched.extend(self.p.graph[*b].iter().copied());
        }
        let peak = self.peak.max(touched.difference(&self.measured).count());
        let mut measured = self.measured.clone();
        measured.extend(set.iter().copied());
        LargeModel { p: self.p, deps: self.deps.clone(), measured, touched, peak }
    }
    fn check<M: Machine>(&self, x: &M) -> Result<(), String> {
        let t = x.time();
        let (set, want) = (t.set(), self.available());
        if set.len() != want.len() || set.iter().any(|b| !want.contains(b)) {
            return Err(format!("measurable are {want:?}, but it says {set:?}"));
        }
        let left = self.deps.len() - self.measured.len();
        if t.remaining() != left || t.blocked() != (left > want.len()) {
            return Err(format!(
                "{left} nodes are left, {} of them measurable, but it says {}, {}",
                want.len(),
                t.remaining(),
                t.blocked()
            ));
        }
        if let Some(g) = x.space() {
            check_graph(g, &self.p.graph, &self.measured, &self.touched, self.peak)?;
        }
        Ok(())
    }
}

fn check_large_machine<M: Machine>(h: &LargeHistory, mut x: M) -> Result<[usize; 2], String> {
    let n = h.p.n();
    let mut model = LargeModel {
        p: &h.p,
        deps: h.p.deps(),
        measured: BTreeSet::new(),
        touched: BTreeSet::new(),
        peak: 0,
    };
    model.check(&x)?;
    let mut counts = [0; 2];
    let everything = |x: &mut M, model: &mut LargeModel, most: usize| {
        for _ in 0..most {
            let v: Vec<usize> = model.available().into_iter().collect();
            if v.is_empty() {
                break;
            }
            x.inplace(&v).map_err(|e| format!("measuring {v:?}: {e:?}"))?;
            *model = model.apply(&v);
            model.check(x)?;
        }
        Ok::<_, String>(())
    };
    everything(&mut x, &mut model, h.lead)?;
    for (i, (what, seed, inplace, keep)) in h.ops.iter().enumerate() {
        let mut rng = *seed;
        let mut draw = |k: usize| (splitmix(&mut rng) % k.max(1) as u64) as usize;
        let avail = model.available();
        let mut v: Vec<usize> = avail.iter().copied().collect();
        match what {
            0..=2 => v.retain(|_| draw(2) == 0),
            3 => v.retain(|_| draw(8) == 0),
            // all
            4..=6 => {},
            // all but one
            7 if !v.is_empty() => drop(v.remove(draw(v.len()))),
            // some of them repeated
            8 if !v.is_empty() => {
                for _ in 0..1 + draw(300) {
                    v.push(v[draw(v.len())]);
                }
            },
            // others as well
            _ => {
                for _ in 0..1 + draw(4) {
                    v.push(draw(n + n / 8 + 2));
                }
            },
        }
        gen::shuffle(&mut v, &mut rng);
        let mut rest = avail.clone();
        let offending: Vec<usize> = v.iter().copied().filter(|b| !rest.remove(b)).collect();
        let ok = offending.is_empty();
        counts[usize::from(!ok)] += 1;
        let at = |e: String| format!("op {i}, measuring {v:?} (in place: {inplace}): {e}");
        let judge = |e: Option<InstructionError>| match e {
            None if ok => Ok(()),
            None => Err(at(format!("accepted, although {offending:?} are not measurable"))),
            Some(InstructionError::NotMeasurable(NotMeasurable(named)))
                if !ok
                    && named.iter().collect::<BTreeSet<_>>()
                        == offending.iter().collect::<BTreeSet<_>>() =>
            {
                Ok(())
            },
            Some(e) => Err(at(format!("{offending:?} are not measurable, but got {e:?}"))),
        };
        let next = ok.then(|| model.apply(&v));
        if *inplace {
            judge(x.inplace(&v).err())?;
            model = next.unwrap_or(model);
        } else {
            let new = x.copying(&v);
            model.check(&x).map_err(|e| at(format!("original: {e}")))?;
            match new {
                Err(e) => judge(Some(e))?,
                Ok(new) => {
                    judge(None)?;
                    let next = next.unwrap();
                    next.check(&new).map_err(at)?;
                    if *keep {
                        x = new;
                        model = next;
                    }
                },
            }
        }
        model.check(&x).map_err(at)?;
    }
    if h.finish {
        everything(&mut x, &mut model, usize::MAX).map_err(|e| format!("at the end: {e}"))?;
    }
    Ok(counts)
}

fn check_c13_large(h: &LargeHistory) -> CheckResult {
    let mut buffer = DependencyBuffer::new(h.p.n());
    let o = &h.p.order;
    let g = || Graph::new(&h.p.graph);
    let c = match h.kind {
        0 => {
            let t = PathGenerator::<Vec<usize>>::from_dependency_graph(o, &mut buffer, None);
            check_large_machine(h, Scheduler::new(t, g()))?
        },
        1 => {
            let t = PathGenerator::<Partitioner>::from_dependency_graph(o, &mut buffer, None);
            check_large_machine(h, Scheduler::new(t, g()))?
        },
        2 => check_large_machine(
            h,
            PathGenerator::<Vec<usize>>::from_dependency_graph(o, &mut buffer, None),
        )?,
        _ => check_large_machine(
            h,
            PathGenerator::<Partitioner>::from_dependency_graph(o, &mut buffer, None),
        )?,
    };
    Ok(Info::new(c[0] >= 2 && c[1] >= 1).label(h.p.n() > 256, "n > 256")
        .label(h.finish && h.p.order.len() > 64, "65+ layers, to the end"))
}

pub fn c13() -> Vec<Box<dyn Sub>> {
    vec![
        sub("histories", (600_000, 12_000_000), history, check_c13),
        sub("large", (8_000, 160_000), large_history, check_c13_large),
    ]
}

// ------------------------------------------------------------------------------------ C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Measures {
    graph: Vec<Vec<usize>>,
    /// nodes, in place
    sets: Vec<(Vec<usize>, bool)>,
}

fn measures() -> BoxedStrategy<Measures> {
    measures_of(
        prop_oneof![
            4 => gen::problem(1, 12, f64::INFINITY),
            1 => gen::problem(12, 24, f64::INFINITY),
        ]
        .boxed(),
        6,
    )
}

fn measures_of(p: BoxedStrategy<Problem>, size: usize) -> BoxedStrategy<Measures> {
    (p.prop_map(|p| p.graph), any::<bool>(), prop::bool::weighted(0.1))
        .prop_flat_map(move |(graph, fresh, twice)| {
            let n = graph.len();
            (
                Just(graph),
                vec((vec(0..n, 0..=n.min(size)), prop::bool::weighted(0.7)), 1..12),
                Just((fresh, twice)),
            )
        })
        .prop_map(|(graph, mut sets, (fresh, twice))| {
            for (s, _) in sets.iter_mut() {
                let mut seen = HashSet::new();
                // also twice in one set
                s.retain(|x| seen.insert(*x) || (twice && x % 2 == 0));
            }
            if fresh {
                // only nodes that have not been measured before
                let mut seen = HashSet::new();
                for (s, _) in sets.iter_mut() {
                    s.retain(|x| seen.insert(*x));
                }
            }
            Measures { graph, sets }
        })
        .boxed()
}

fn check_graph(g: &Graph, graph: &[Vec<usize>], measured: &BTreeSet<usize>, touched: &BTreeSet<usize>, peak: usize) -> Result<(), String> {
    let occupied = touched.difference(measured).count();
    if g.current_memory() != occupied || g.max_memory() != peak {
        return Err(format!(
            "memory (current, peak) is ({}, {}), should be ({occupied}, {peak})",
            g.current_memory(),
            g.max_memory()
        ));
    }
    if g.nodes().len() != graph.len() {
        return Err("number of nodes changed".into());
    }
    for (i, (s, ns)) in g.nodes().iter().enumerate() {
        let want = if measured.contains(&i) {
            State::Measured
        } else if touched.contains(&i) {
            State::InMemory
        } else {
            State::Sleeping
        };
        if *s != want {
            return Err(format!("node {i} is {s:?}, should be {want:?}"));
        }
        if **ns != graph[i] {
            return Err(format!("neighbours of {i} changed"));
        }
    }
    Ok(())
}

fn check_c14(c: &Measures) -> CheckResult {
    let mut g = Graph::new(&c.graph);
    let (mut measured, mut touched, mut peak) = (BTreeSet::new(), BTreeSet::new(), 0);
    check_graph(&g, &c.graph, &measured, &touched, peak)?;
    let (mut good, mut again) = (0, 0);
    for (i, (set, inplace)) in c.sets.iter().enumerate() {
        let at = |e: String| format!("set {i} {set:?} (in place: {inplace}): {e}");
        let mut seen = HashSet::new();
        let repeated: Vec<_> =
            set.iter().filter(|x| measured.contains(*x) | !seen.insert(**x)).collect();
        if !repeated.is_empty() {
            again += 1;
            let e = g.focus(set).map(|_| ());
            match e {
                Err(AlreadyMeasured(b)) if repeated.contains(&&b) => {
                    if !AlreadyMeasured(b).to_string().contains(&b.to_string()) {
                        return Err(at("message does not name the node".into()));
                    }
                },
                r => {
                    return Err(at(format!(
                        "{repeated:?} have been measured already, but got {r:?}"
                    )))
                },
            }
            check_graph(&g, &c.graph, &measured, &touched, peak).map_err(at)?;
            continue;
        }
        good += 1;
        let old = (measured.clone(), touched.clone(), peak);
        for b in set {
            touched.insert(*b);
            touched.extend(c.graph[*b].iter().copied());
        }
        peak = peak.max(touched.difference(&measured).count());
        measured.extend(set.iter().copied());
        if *inplace {
            let copy = g.focus(set).map_err(|e| at(e.to_string()))?;
            check_graph(&g, &c.graph, &old.0, &old.1, old.2)
                .map_err(|e| at(format!("original after copying: {e}")))?;
            g.focus_inplace(set).map_err(|e| at(e.to_string()))?;
            if copy != g {
                return Err(at("copying and in-place measurement differ".into()));
            }
        } else {
            let new = g.focus(set).map_err(|e| at(e.to_string()))?;
            check_graph(&g, &c.graph, &old.0, &old.1, old.2)
                .map_err(|e| at(format!("original after copying: {e}")))?;
            g = new;
        }
        check_graph(&g, &c.graph, &measured, &touched, peak).map_err(at)?;
    }
    let edges = c.graph.iter().any(|n| !n.is_empty());
    Ok(Info::new(good >= 2 && edges)
        .label(again > 0, "measured again")
        .label(good >= 5, "5+ sets")
        .label(c.graph.len() > 12, "n > 12"))
}

/// more nodes than 16 bits can count
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HugeMeasures {
    n: usize,
    hubs: usize,
    degree: usize,
    seed: u64,
    /// sizes of the measured sets in per mille of all nodes, in place
    sets: Vec<(u16, bool)>,
}

fn huge_measures() -> BoxedStrategy<HugeMeasures> {
    (
        65_600usize..68_000,
        0usize..3,
        0usize..3,
        any::<u64>(),
        vec((prop_oneof![2 => 0u16..30, 1 => 30u16..1000], any::<bool>()), 1..5),
    )
        .prop_map(|(n, hubs, degree, seed, sets)| HugeMeasures { n, hubs, degree, seed, sets })
        .boxed()
}

fn check_c14_huge(c: &HugeMeasures) -> CheckResult {
    let mut rng = c.seed;
    let mut graph = vec![vec![]; c.n];
    let mut nodes: Vec<usize> = (0..c.n).collect();
    gen::shuffle(&mut nodes, &mut rng);
    for (i, a) in nodes.iter().enumerate() {
        let hubs = c.hubs.min(i);
        let mut others: Vec<usize> = nodes[..hubs].to_vec();
        for _ in 0..c.degree.min(i) {
            let b = nodes[(splitmix(&mut rng) % i as u64) as usize];
            if !others.contains(&b) {
                others.push(b);
            }
        }
        for b in others {
            graph[*a].push(b);
            graph[b].push(*a);
        }
    }
    // hubs first or somewhere
    if c.seed % 2 == 0 {
        gen::shuffle(&mut nodes, &mut rng);
    }
    let mut sets = vec![];
    let mut rest = &nodes[..];
    for (size, inplace) in &c.sets {
        let (set, next) = rest.split_at((c.n * *size as usize / 1000 + 1).min(rest.len()));
        sets.push((set.to_vec(), *inplace));
        rest = next;
    }
    check_c14(&Measures { graph, sets }).map_err(|e| {
        let start: String = e.chars().take(300).collect();
        let end: String = e.chars().skip(e.chars().count().max(300) - 300).collect();
        format!("{start} ... {end}")
    })
}

pub fn c14() -> Vec<Box<dyn Sub>> {
    vec![
        sub("huge", (32, 640), huge_measures, check_c14_huge),
        sub("histories", (900_000, 18_000_000), measures, check_c14),
        sub(
            "large",
            (1_200, 24_000),
            || {
                let p = prop_oneof![gen::large_problem(300), gen::heavy_problem(500)];
                measures_of(p.boxed(), 120)
            },
            check_c14,
        ),
    ]
}

// ------------------------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Edges {
    n: usize,
    /// ids of the nodes in the edge list
    ids: Vec<usize>,
    mapped: bool,
    check: bool,
    edges: Vec<(usize, usize)>,
}

/// `n` different ids for nodes
fn ids(n: usize, spread: bool, rng: &mut u64) -> Vec<usize> {
    // an id may coincide with the new id of another node, or with its own
    let mut ids: Vec<usize> = (0..2 * n + 3).collect();
    gen::shuffle(&mut ids, rng);
    ids.truncate(n);
    if spread {
        // any number is an id
        let mut seen: HashSet<usize> = ids.iter().copied().collect();
        for id in ids.iter_mut() {
            let new = match crate::core::splitmix(rng) % 4 {
                0 => *id,
                1 => usize::MAX - (crate::core::splitmix(rng) % 50) as usize,
                2 => (crate::core::splitmix(rng) % 1000) as usize,
                _ => crate::core::splitmix(rng) as usize,
            };
            if seen.insert(new) {
                *id = new;
            }
        }
    }
    ids
}

fn edges() -> BoxedStrategy<Edges> {
    edges_of(10, 30)
}

fn edges_of(n: usize, k: usize) -> BoxedStrategy<Edges> {
    (1..=n, any::<bool>(), any::<bool>(), any::<u64>(), 0..k)
        .prop_flat_map(|(n, mapped, check, seed, k)| {
            (Just((n, mapped, check, seed)), vec((0..n, 0..n), 0..=k))
        })
        .prop_map(|((n, mapped, check, seed), mut edges)| {
            let mut rng = seed;
            let mut ids = ids(n, seed % 3 == 0, &mut rng);
            if !check {
                // "Loops and Multi-edges are not allowed"
                let mut seen = HashSet::new();
                edges.retain(|(a, b)| a != b && seen.insert((*a.min(b), *a.max(b))));
            }
            if !mapped {
                ids = (0..n).collect();
            }
            Edges { n, ids, mapped, check, edges }
        })
        .boxed()
}

fn check_edges(c: &Edges) -> CheckResult {
    let mut map: HashMap<usize, usize> = HashMap::new();
    for (new, id) in c.ids.iter().enumerate() {
        // nodes that keep their id may be left out
        if *id != new || new % 2 == 0 {
            map.insert(*id, new);
        }
    }
    let raw: Vec<(usize, usize)> = c.edges.iter().map(|(a, b)| (c.ids[*a], c.ids[*b])).collect();
    let buffer = GraphBuffer::new(&raw, c.n, c.mapped.then_some(&map), c.check);
    let mut want: Vec<BTreeSet<usize>> = vec![BTreeSet::new(); c.n];
    let (mut loops, mut multi) = (0, 0);
    for (a, b) in &c.edges {
        if a == b {
            loops += 1;
            continue;
        }
        multi += usize::from(!want[*a].insert(*b));
        want[*b].insert(*a);
    }
    let got = buffer.as_buffer();
    if got.len() != c.n {
        return Err(format!("{} nodes instead of {}", got.len(), c.n));
    }
    for (i, ns) in got.iter().enumerate() {
        let set: BTreeSet<usize> = ns.iter().copied().collect();
        if set != want[i] || set.len() != ns.len() {
            return Err(format!("node {i} has neighbours {ns:?}, should have {:?}", want[i]));
        }
    }
    let sparse: Vec<Vec<usize>> = want.iter().map(|s| s.iter().copied().collect()).collect();
    let other = GraphBuffer::from_sparse(sparse.clone());
    if other.as_buffer() != sparse {
        return Err(format!("from_sparse({sparse:?}) gives {:?}", other.as_buffer()));
    }
    // a fresh graph: everything sleeps, with these edges
    let g = Graph::new(got);
    for (i, (s, ns)) in g.nodes().iter().enumerate() {
        if *s != State::Sleeping || **ns != got[i] {
            return Err(format!("graph node {i} is ({s:?}, {ns:?})"));
        }
    }
    if g.nodes().len() != c.n || g.current_memory() != 0 || g.max_memory() != 0 {
        return Err("the fresh graph is not empty".into());
    }
    Ok(Info::new(c.edges.len() >= 2)
        .label(loops > 0, "loops")
        .label(multi > 0, "repeated edges")
        .label(c.mapped, "mapped"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Mapped {
    p: Problem,
    /// ids used in the ordering
    seed: u64,
    mapped: bool,
    /// orderings the buffer was used for before
    before: Vec<Problem>,
    extra: usize,
    walk: Vec<u64>,
}

fn mapped(p: BoxedStrategy<Problem>) -> BoxedStrategy<Mapped> {
    (
        p,
        any::<u64>(),
        prop::bool::weighted(0.7),
        vec(prop_oneof![8 => gen::problem(1, 7, 1e4), 1 => gen::long_problem(2, 60, 1e3)], 0..=2),
        0usize..4,
        vec(any::<u64>(), 0..8),
    )
        .prop_map(|(p, seed, mapped, before, extra, walk)| Mapped {
            p,
            seed,
            mapped,
            before,
            extra,
            walk,
        })
        .boxed()
}

fn walk_and_sweep(mut t: PathGenerator<Partitioner>, b: &Bits, walk: &[u64]) -> Result<(), String> {
    let mut m = 0;
    let mut sweep = t.clone().into_iter();
    let (mut cur, mut out) = (vec![], vec![]);
    for s in &mut sweep {
        match s {
            Step::Forward(set) => cur.push(mask(&set)?),
            Step::Backward(leaf) => {
                if leaf.is_some() {
                    out.push(cur.clone());
                }
                cur.pop();
            },
        }
    }
    out.sort();
    let mut want = crate::model::all_paths(b);
    want.sort();
    if out != want {
        return Err(format!("{} paths instead of {} (or different ones)", out.len(), want.len()));
    }
    check_time(&t, b, m)?;
    for w in walk {
        let set = w & b.available(m);
        t.focus_inplace(&list(set)).map_err(|e| e.to_string())?;
        m |= set;
        check_time(&t, b, m)?;
    }
    Ok(())
}

fn check_mapped(c: &Mapped) -> CheckResult {
    let n = c.p.n();
    let b = Bits::new(&c.p);
    let len = c.before.iter().map(|p| p.n()).chain([n]).max().unwrap() + c.extra;
    let mut buffer = DependencyBuffer::new(len);
    if buffer.num_bits() != len {
        return Err(format!("buffer for {len} bits has {}", buffer.num_bits()));
    }
    for q in &c.before {
        let t = PathGenerator::<Partitioner>::from_dependency_graph(&q.order, &mut buffer, None);
        drop(t);
    }
    let mut order = c.p.order.clone();
    let mut map: HashMap<usize, usize> = HashMap::new();
    if c.mapped {
        let mut rng = c.seed;
        let ids = ids(n, c.seed % 3 == 0, &mut rng);
        let ids: StdMap<usize, usize> = (0..n).map(|i| (i, ids[i])).collect();
        for (b, d) in order.iter_mut().flatten() {
            *b = ids[b];
            for x in d {
                *x = ids[x];
            }
        }
        for (new, id) in ids {
            if new != id || new % 2 == 0 {
                map.insert(id, new);
            }
        }
    }
    let t = PathGenerator::<Partitioner>::from_dependency_graph(
        &order,
        &mut buffer,
        c.mapped.then_some(&map),
    );
    walk_and_sweep(t, &b, &c.walk)?;
    // and once more with the same buffer
    let t = PathGenerator::<Partitioner>::from_dependency_graph(&c.p.order, &mut buffer, None);
    walk_and_sweep(t, &b, &c.walk)?;
    Ok(Info::new(c.p.num_ordered() >= 3 && (c.mapped || !c.before.is_empty()))
        .label(c.mapped, "mapped")
        .label(!c.before.is_empty(), "reused buffer"))
}

pub fn c15() -> Vec<Box<dyn Sub>> {
    vec![
        sub("edges", (900_000, 18_000_000), edges, check_edges),
        sub("many edges", (1_600, 32_000), || edges_of(300, 3_000), check_edges),
        sub("orderings", (144_000, 2_880_000), || mapped(gen::problem(1, 7, 1e3)), check_mapped),
        sub(
            "long orderings",
            (16_000, 320_000),
            || mapped(prop_oneof![gen::long_problem(2, 60, 1e3), gen::problem(4, 16, 1e3)].boxed()),
            check_mapped,
        ),
    ]
}
