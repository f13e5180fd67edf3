//! Reference model: problems, their independent semantics and brute-force solutions.

use std::collections::{BTreeSet, HashMap};

use mbqc_scheduling::interface::Path;
use serde::{Deserialize, Serialize};

pub type Graph = Vec<Vec<usize>>;
pub type Order = Vec<Vec<(usize, Vec<usize>)>>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Problem {
    pub graph: Graph,
    pub order: Order,
}

impl Problem {
    pub fn n(&self) -> usize {
        self.graph.len()
    }
    pub fn num_ordered(&self) -> usize {
        self.order.iter().map(|l| l.len()).sum()
    }
    pub fn num_edges(&self) -> usize {
        self.graph.iter().map(|e| e.len()).sum::<usize>() / 2
    }
    pub fn deps(&self) -> HashMap<usize, Vec<usize>> {
        self.order.iter().flatten().cloned().collect()
    }
    pub fn nodes(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.order.iter().flatten().map(|(b, _)| *b).collect();
        v.sort();
        v
    }
    /// Something to decide: at least 3 nodes, an edge, and not forced.
    pub fn interesting(&self) -> bool {
        self.num_ordered() >= 3 && self.num_edges() >= 1 && self.order.len() < self.num_ordered()
    }
    /// a problem must be a valid input; guards against generator mistakes
    pub fn validate(&self) -> Result<(), String> {
        let n = self.n();
        for (i, ns) in self.graph.iter().enumerate() {
            let set: BTreeSet<_> = ns.iter().collect();
            if set.len() != ns.len() {
                return Err("multi edge".into());
            }
            for &j in ns {
                if j >= n || j == i || !self.graph[j].contains(&i) {
                    return Err(format!("bad edge {i} {j}"));
                }
            }
        }
        let mut level = HashMap::new();
        for (l, layer) in self.order.iter().enumerate() {
            if layer.is_empty() {
                return Err("empty layer".into());
            }
            for (b, deps) in layer {
                if *b >= n {
                    return Err("node out of range".into());
                }
                let mut max = None;
                let set: BTreeSet<_> = deps.iter().collect();
                if set.len() != deps.len() {
                    return Err("duplicate dep".into());
                }
                for d in deps {
                    let dl: usize = *level.get(d).ok_or("dep not in a lower layer")?;
                    max = max.max(Some(dl + 1));
                }
                if max.unwrap_or(0) != l {
                    return Err("layering".into());
                }
            }
            for (b, _) in layer {
                if level.insert(*b, l).is_some() {
                    return Err("node twice".into());
                }
            }
        }
        Ok(())
    }
}

/// Executes `steps` by the rules of the README, independently of the library; returns the
/// peak memory, or why the schedule is invalid.
pub fn execute(p: &Problem, steps: &[Vec<usize>]) -> Result<usize, String> {
    let n = p.n();
    let deps = p.deps();
    let mut measured_at: Vec<Option<usize>> = vec![None; n];
    let mut initialised = vec![false; n];
    let mut peak = 0;
    for (t, step) in steps.iter().enumerate() {
        if step.is_empty() {
            return Err(format!("step {t} is empty"));
        }
        for &b in step {
            let d = deps
                .get(&b)
                .ok_or_else(|| format!("step {t}: node {b} is not in the time ordering"))?;
            if measured_at[b].is_some() {
                return Err(format!("step {t}: node {b} is measured twice"));
            }
            for x in d {
                match measured_at[*x] {
                    Some(tx) if tx < t => {},
                    _ => return Err(format!("step {t}: node {b} needs {x} before it")),
                }
            }
            measured_at[b] = Some(t);
            initialised[b] = true;
            for &x in &p.graph[b] {
                initialised[x] = true;
            }
        }
        let mem = (0..n)
            .filter(|&i| initialised[i] && measured_at[i].is_none_or(|ti| ti == t))
            .count();
        peak = peak.max(mem);
    }
    let missing: Vec<_> = deps.keys().filter(|b| measured_at[**b].is_none()).collect();
    if !missing.is_empty() {
        return Err(format!("nodes {missing:?} are never measured"));
    }
    Ok(peak)
}

/// ASAP level of each ordered node, from the dependency lists only
pub fn levels(p: &Problem) -> HashMap<usize, usize> {
    let deps = p.deps();
    let mut dependents: HashMap<usize, Vec<usize>> = HashMap::new();
    let mut open: HashMap<usize, usize> = HashMap::new();
    let mut level: HashMap<usize, usize> = HashMap::new();
    let mut ready = vec![];
    for (b, d) in &deps {
        open.insert(*b, d.len());
        if d.is_empty() {
            ready.push(*b);
        }
        for x in d {
            dependents.entry(*x).or_default().push(*b);
        }
    }
    while let Some(b) = ready.pop() {
        let l = deps[&b].iter().map(|d| level[d] + 1).max().unwrap_or(0);
        level.insert(b, l);
        for o in dependents.get(&b).into_iter().flatten() {
            let k = open.get_mut(o).unwrap();
            *k -= 1;
            if *k == 0 {
                ready.push(*o);
            }
        }
    }
    assert_eq!(level.len(), deps.len());
    level
}

pub struct Bits {
    pub all: u64,
    /// node and neighbours
    pub closed: Vec<u64>,
    pub preds: Vec<u64>,
}

impl Bits {
    pub fn new(p: &Problem) -> Self {
        assert!(p.n() <= 64);
        let mut preds = vec![0u64; p.n()];
        let mut all = 0;
        for (b, d) in p.order.iter().flatten() {
            all |= 1 << b;
            for x in d {
                preds[*b] |= 1 << x;
            }
        }
        let closed = p
            .graph
            .iter()
            .enumerate()
            .map(|(i, ns)| ns.iter().fold(1u64 << i, |a, x| a | 1 << x))
            .collect();
        Bits { all, closed, preds }
    }
    pub fn available(&self, measured: u64) -> u64 {
        let mut rest = self.all & !measured;
        let mut res = 0;
        while rest != 0 {
            let b = rest.trailing_zeros() as usize;
            rest &= rest - 1;
            if self.preds[b] & !measured == 0 {
                res |= 1 << b;
            }
        }
        res
    }
    /// initialised at or before the step after which `m` is measured
    pub fn touched(&self, m: u64) -> u64 {
        let mut res = 0;
        let mut rest = m;
        while rest != 0 {
            let b = rest.trailing_zeros() as usize;
            rest &= rest - 1;
            res |= self.closed[b];
        }
        res
    }
    /// memory needed while going from `m` to `m2`
    pub fn step_mem(&self, m: u64, m2: u64) -> usize {
        (self.touched(m2) & !m).count_ones() as usize
    }
    /// memory still occupied once `m` is measured
    pub fn occupied(&self, m: u64) -> usize {
        (self.touched(m) & !m).count_ones() as usize
    }
    pub fn subsets(set: u64) -> impl Iterator<Item = u64> {
        // all non-empty subsets
        let mut cur = set;
        let mut done = set == 0;
        std::iter::from_fn(move || {
            if done {
                return None;
            }
            let r = cur;
            cur = cur.wrapping_sub(1) & set;
            done = cur == 0;
            Some(r)
        })
    }
    /// down-closed sets by size
    pub fn ideals(&self) -> Vec<u64> {
        let mut seen: BTreeSet<u64> = BTreeSet::from([0]);
        let mut todo = vec![0u64];
        while let Some(m) = todo.pop() {
            let mut a = self.available(m);
            while a != 0 {
                let b = a & a.wrapping_neg();
                a &= a - 1;
                if seen.insert(m | b) {
                    todo.push(m | b);
                }
            }
        }
        let mut v: Vec<u64> = seen.into_iter().collect();
        v.sort_by_key(|m| (m.count_ones(), *m));
        v
    }
}

/// Whether there are at most `limit` complete admissible paths.
pub fn few_paths(p: &Problem, limit: f64) -> bool {
    if limit.is_infinite() {
        return true;
    }
    let b = Bits::new(p);
    // every subset is the first step of some path
    let wide = |m: u64| (b.available(m).count_ones() as f64).exp2() - 1. > limit;
    if wide(0) {
        return false;
    }
    // by size; every down-closed set occurs in some path
    let mut layers: Vec<HashMap<u64, f64>> =
        vec![HashMap::new(); b.all.count_ones() as usize + 1];
    layers[0].insert(0, 1.);
    let (mut work, mut sets) = (0f64, 0f64);
    for k in 0..layers.len() {
        let layer = std::mem::take(&mut layers[k]);
        if k + 1 == layers.len() {
            return layer[&b.all] <= limit;
        }
        sets += layer.len() as f64;
        for (m, c) in layer {
            if wide(m) || c > limit {
                return false;
            }
            let avail = b.available(m);
            work += (avail.count_ones() as f64).exp2();
            if work > 2e6 || sets > 1e5 {
                return false;
            }
            for s in Bits::subsets(avail) {
                *layers[(m | s).count_ones() as usize].entry(m | s).or_default() += c;
            }
        }
    }
    unreachable!()
}

/// Exact Pareto front [(time, space)] by dynamic programming over down-closed sets.
pub fn pareto(p: &Problem) -> Vec<(usize, usize)> {
    let b = Bits::new(p);
    let k = b.all.count_ones() as usize;
    let ideals = b.ideals();
    let index: HashMap<u64, usize> = ideals.iter().enumerate().map(|(i, m)| (*m, i)).collect();
    let mut best = vec![vec![usize::MAX; k + 1]; ideals.len()];
    best[0][0] = 0;
    for (i, m) in ideals.iter().enumerate() {
        let row = best[i].clone();
        for s in Bits::subsets(b.available(*m)) {
            let j = index[&(m | s)];
            let mem = b.step_mem(*m, m | s);
            for t in 0..k {
                if row[t] != usize::MAX {
                    let v = row[t].max(mem);
                    if v < best[j][t + 1] {
                        best[j][t + 1] = v;
                    }
                }
            }
        }
    }
    let row = &best[index[&b.all]];
    front(row.iter().enumerate().filter(|(_, s)| **s != usize::MAX).map(|(t, s)| (t, *s)))
}

pub fn front(pairs: impl Iterator<Item = (usize, usize)>) -> Vec<(usize, usize)> {
    let mut v: Vec<_> = pairs.collect();
    v.sort();
    let mut res: Vec<(usize, usize)> = vec![];
    for (t, s) in v {
        if res.last().is_none_or(|l| s < l.1) {
            res.push((t, s));
        }
    }
    res
}

pub fn costs(paths: &[Path]) -> Vec<(usize, usize)> {
    paths.iter().map(|p| (p.time, p.space)).collect()
}

pub fn show(paths: &[Path]) -> String {
    serde_json::to_string(paths).unwrap()
}

/// is every pair of `a` weakly dominated by (no better than) something in `b`
pub fn dominated_by(a: &[(usize, usize)], b: &[(usize, usize)]) -> bool {
    a.iter().all(|(t, s)| b.iter().any(|(bt, bs)| bt <= t && bs <= s))
}

/// All complete admissible paths, each step as a bit mask (order of the enumeration is
/// unspecified).
pub fn all_paths(b: &Bits) -> Vec<Vec<u64>> {
    fn go(b: &Bits, m: u64, cur: &mut Vec<u64>, out: &mut Vec<Vec<u64>>) {
        if m == b.all {
            out.push(cur.clone());
            return;
        }
        for s in Bits::subsets(b.available(m)) {
            cur.push(s);
            go(b, m | s, cur, out);
            cur.pop();
        }
    }
    let mut out = vec![];
    go(b, 0, &mut vec![], &mut out);
    out
}
