//! Generators for problems.

use std::collections::HashMap;

use proptest::{collection::vec, prelude::*};

use crate::{
    core::splitmix,
    model::{few_paths, Graph, Order, Problem},
};

#[derive(Clone, Debug)]
pub struct Raw {
    n: usize,
    style: u8,
    width: usize,
    edge_density: u8,
    dep_density: u8,
    edges: Vec<u8>,
    deps: Vec<u8>,
    keys: Vec<u8>,
    shuffle: u64,
    redundant: u8,
    partial: u8,
}

fn raw(lo: usize, hi: usize) -> impl Strategy<Value = Raw> {
    let pairs = hi * (hi - 1) / 2;
    (
        (
            lo..=hi,
            prop_oneof![5 => Just(0u8), 2 => Just(1u8), 2 => Just(2u8), 1 => Just(3u8), 1 => Just(4u8)],
            1usize..=4,
            prop_oneof![Just(20u8), Just(60), Just(110), Just(180), Just(245)],
            prop_oneof![Just(0u8), Just(12), Just(40), Just(90), Just(160)],
        ),
        vec(any::<u8>(), pairs),
        vec(any::<u8>(), pairs),
        vec(any::<u8>(), hi),
        prop_oneof![1 => Just(0u64), 4 => any::<u64>()],
        prop_oneof![2 => Just(0u8), 1 => any::<u8>()],
        prop_oneof![7 => Just(0u8), 1 => any::<u8>()],
    )
        .prop_map(
            |(
                (n, style, width, edge_density, dep_density),
                edges,
                deps,
                keys,
                shuffle,
                redundant,
                partial,
            )| Raw {
                n,
                style,
                width,
                edge_density,
                dep_density,
                edges,
                deps,
                keys,
                shuffle,
                redundant,
                partial,
            },
        )
}

fn pair(i: usize, j: usize) -> usize {
    debug_assert!(i < j);
    j * (j - 1) / 2 + i
}

pub fn shuffle<T>(v: &mut [T], rng: &mut u64) {
    for i in (1..v.len()).rev() {
        let j = (splitmix(rng) % (i as u64 + 1)) as usize;
        v.swap(i, j);
    }
}

/// Layers the dependency relation `deps` (acyclic) as documented: a node is in the layer
/// after its latest dependency.
pub fn layered(nodes: &[usize], deps: &HashMap<usize, Vec<usize>>) -> Order {
    let mut level: HashMap<usize, usize> = HashMap::new();
    let mut remaining: Vec<usize> = nodes.to_vec();
    while !remaining.is_empty() {
        let before = remaining.len();
        remaining.retain(|b| {
            if deps[b].iter().all(|d| level.contains_key(d)) {
                let l = deps[b].iter().map(|d| level[d] + 1).max().unwrap_or(0);
                level.insert(*b, l);
                false
            } else {
                true
            }
        });
        assert!(remaining.len() < before, "cycle");
    }
    let depth = level.values().max().map_or(0, |m| m + 1);
    let mut order: Order = vec![vec![]; depth];
    for b in nodes {
        order[level[b]].push((*b, deps[b].clone()));
    }
    order
}

fn build(r: &Raw, n: usize) -> Problem {
    // topological position -> node
    let mut perm: Vec<usize> = (0..n).collect();
    perm.sort_by_key(|i| (r.keys[*i], *i));

    let mut graph: Graph = vec![vec![]; n];
    for j in 1..n {
        for i in 0..j {
            if r.edges[pair(i, j)] as u16 >= 256 - r.edge_density as u16 {
                graph[i].push(j);
                graph[j].push(i);
            }
        }
    }

    // reach[j] = positions that have to come before position j
    let mut reach: Vec<Vec<bool>> = vec![vec![false; n]; n];
    let dep_byte = |i: usize, j: usize| r.deps[pair(i, j)] as u16;
    let hit = |i: usize, j: usize| {
        r.dep_density != 0 && dep_byte(i, j) >= 256 - r.dep_density as u16
    };
    for j in 1..n {
        for i in 0..j {
            let dep = match r.style {
                0 => hit(i, j),
                // `width` chains with some cross dependencies
                1 => i + r.width == j || (hit(i, j) && dep_byte(i, j) >= 240),
                // layers of `width` nodes, depending on some in the layer before
                2 => {
                    let (li, lj) = (i / r.width, j / r.width);
                    li + 1 == lj && (i % r.width == j % r.width || hit(i, j))
                },
                // total order
                3 => i + 1 == j,
                // no order at all
                _ => false,
            };
            if dep {
                reach[j][i] = true;
                for k in 0..i {
                    if reach[i][k] {
                        reach[j][k] = true;
                    }
                }
            }
        }
    }
    let mut rng = r.shuffle;
    let mut deps: HashMap<usize, Vec<usize>> = HashMap::new();
    for j in 0..n {
        let mut d = vec![];
        for i in 0..j {
            if !reach[j][i] {
                continue;
            }
            let implied = (i + 1..j).any(|k| reach[j][k] && reach[k][i]);
            if !implied || (r.redundant > 0 && dep_byte(i, j) % 256 < r.redundant as u16 / 2) {
                d.push(perm[i]);
            }
        }
        deps.insert(perm[j], d);
    }
    // some nodes (maximal ones, so that no dependency is lost) may not be in the order
    let mut nodes: Vec<usize> = perm.clone();
    if r.partial > 0 && n >= 2 {
        let mut keep = nodes.clone();
        for (pos, b) in perm.iter().enumerate().rev() {
            let used = keep.iter().any(|o| deps[o].contains(b));
            if !used && keep.len() > 1 && (r.partial as usize >> (pos % 8)) & 1 == 1 {
                keep.retain(|o| o != b);
            }
        }
        nodes = keep;
    }
    if r.shuffle != 0 {
        for ns in graph.iter_mut() {
            shuffle(ns, &mut rng);
        }
        shuffle(&mut nodes, &mut rng);
        for b in &nodes {
            shuffle(deps.get_mut(b).unwrap(), &mut rng);
        }
    }
    let order = layered(&nodes, &deps);
    Problem { graph, order }
}

fn limited(r: &Raw, limit: f64) -> Problem {
    let mut n = r.n;
    loop {
        let p = build(r, n);
        if n <= 1 || few_paths(&p, limit) {
            debug_assert_eq!(p.validate(), Ok(()));
            return p;
        }
        n -= 1;
    }
}

/// Problems with `lo..=hi` nodes; nodes are dropped until there are at most `limit`
/// admissible paths.
pub fn problem(lo: usize, hi: usize, limit: f64) -> BoxedStrategy<Problem> {
    raw(lo, hi).prop_map(move |r| limited(&r, limit)).boxed()
}

/// like [problem] but every node is in the time ordering
pub fn full_problem(lo: usize, hi: usize, limit: f64) -> BoxedStrategy<Problem> {
    raw(lo, hi)
        .prop_map(move |mut r| {
            r.partial = 0;
            limited(&r, limit)
        })
        .boxed()
}

/// Problems with a wide first layer and few dependencies: long searches, many tasks.
pub fn wide_problem(lo: usize, hi: usize, limit: f64) -> BoxedStrategy<Problem> {
    raw(lo, hi)
        .prop_map(move |mut r| {
            r.partial = 0;
            if r.style == 3 {
                r.style = 0;
            }
            r.dep_density = r.dep_density.min(12);
            r.width = r.width.max(3);
            limited(&r, limit)
        })
        .boxed()
}

#[derive(Clone, Debug)]
struct Large {
    n: usize,
    seed: u64,
    degree: u8,
    deps: u8,
    window: usize,
    /// dependencies go back at least that far (which bounds the depth)
    back: usize,
    /// how many dependencies of a node may be on any node before it
    far: u8,
    /// 1, 3: some nodes with very many neighbours; 2, 3: with very many dependencies;
    /// 4: everything is connected to everything
    heavy: u8,
}

/// Large problems (up to `hi` nodes), for which only the time-optimal run is feasible.
pub fn large_problem(hi: usize) -> BoxedStrategy<Problem> {
    let heavy = prop_oneof![40 => Just(0u8), 1 => 1u8..=4];
    let far = prop_oneof![3 => Just(0u8), 2 => 1u8..=2];
    (1..=hi, any::<u64>(), 0u8..6, 0u8..5, 1usize..40, far, heavy)
        .prop_map(|(n, seed, degree, deps, window, far, heavy)| Large {
            n,
            seed,
            degree,
            deps,
            window,
            back: 1,
            far,
            heavy,
        })
        .prop_map(|l| build_large(&l))
        .boxed()
}

/// Nodes with hundreds of neighbours and dependencies.
pub fn heavy_problem(hi: usize) -> BoxedStrategy<Problem> {
    (hi / 2..=hi, any::<u64>(), 0u8..6, 0u8..3, 1usize..400, 1usize..200, 1u8..=4)
        .prop_map(|(n, seed, degree, deps, window, back, heavy)| Large {
            n,
            seed,
            degree,
            deps,
            window,
            back,
            far: 0,
            heavy,
        })
        .prop_map(|l| build_large(&l))
        .boxed()
}

/// More nodes than fit into 16 bits, of small depth.
pub fn huge_problem() -> BoxedStrategy<Problem> {
    (65_500usize..66_500, any::<u64>(), 0u8..3, 0u8..3, 4_000usize..30_000)
        .prop_map(|(n, seed, degree, deps, back)| Large {
            n,
            seed,
            degree,
            deps,
            window: 5_000,
            back,
            far: 0,
            heavy: 0,
        })
        .prop_map(|l| build_large(&l))
        .boxed()
}

fn build_large(l: &Large) -> Problem {
    let mut rng = l.seed;
    let n = l.n;
    let mut graph: Graph = vec![vec![]; n];
    let mut add = |i: usize, j: usize| {
        if i != j && !graph[i].contains(&j) {
            graph[i].push(j);
            graph[j].push(i);
        }
    };
    for i in 1..n {
        for _ in 0..l.degree {
            if splitmix(&mut rng) % 3 == 0 {
                continue;
            }
            let j = (splitmix(&mut rng) % i as u64) as usize;
            add(i, j);
        }
    }
    if l.heavy == 1 || l.heavy == 3 {
        for _ in 0..3 {
            let i = (splitmix(&mut rng) % n as u64) as usize;
            let sparse = splitmix(&mut rng) % 3;
            for j in 0..n {
                if sparse == 0 || splitmix(&mut rng) % 8 != 0 {
                    add(i, j);
                }
            }
        }
    }
    if l.heavy == 4 {
        graph = (0..n).map(|i| (0..n).filter(|j| *j != i).collect()).collect();
    }
    let mut perm: Vec<usize> = (0..n).collect();
    shuffle(&mut perm, &mut rng);
    let mut deps: HashMap<usize, Vec<usize>> = HashMap::new();
    for (j, b) in perm.iter().enumerate() {
        let mut d: Vec<usize> = vec![];
        if j > 0 {
            for _ in 0..l.deps {
                if splitmix(&mut rng) % 2 == 0 {
                    continue;
                }
                let back = l.back + (splitmix(&mut rng) % l.window as u64) as usize;
                if back <= j && !d.contains(&perm[j - back]) {
                    d.push(perm[j - back]);
                }
            }
        }
        for _ in 0..l.far {
            if j > 0 && splitmix(&mut rng) % 2 == 0 {
                let i = (splitmix(&mut rng) % j as u64) as usize;
                if !d.contains(&perm[i]) {
                    d.push(perm[i]);
                }
            }
        }
        if (2..=3).contains(&l.heavy) && splitmix(&mut rng) % (n as u64 / 4 + 1) == 0 {
            let sparse = splitmix(&mut rng) % 3;
            for b in &perm[..j] {
                if !d.contains(b) && (sparse == 0 || splitmix(&mut rng) % 8 != 0) {
                    d.push(*b);
                }
            }
        }
        deps.insert(*b, d);
    }
    let mut nodes = perm;
    shuffle(&mut nodes, &mut rng);
    let order = layered(&nodes, &deps);
    let p = Problem { graph, order };
    debug_assert_eq!(p.validate(), Ok(()));
    p
}

#[derive(Clone, Debug)]
struct Long {
    n: usize,
    loose: usize,
    seed: u64,
    window: usize,
    far: u8,
    dens: u8,
}

/// Long, thin problems: a chain of measurements plus a few loose nodes, up to 60 nodes.
pub fn long_problem(lo: usize, hi: usize, limit: f64) -> BoxedStrategy<Problem> {
    assert!(hi <= 64);
    (lo..=hi, 0usize..=4, any::<u64>(), 1usize..=6, 0u8..4, 0u8..=100)
        .prop_map(|(n, loose, seed, window, far, dens)| Long { n, loose, seed, window, far, dens })
        .prop_map(move |l| {
            let mut n = l.n;
            loop {
                let p = build_long(&l, n);
                if n <= 1 || few_paths(&p, limit) {
                    debug_assert_eq!(p.validate(), Ok(()));
                    return p;
                }
                n -= 1 + n / 8;
            }
        })
        .boxed()
}

fn build_long(l: &Long, n: usize) -> Problem {
    let mut rng = l.seed;
    let loose = l.loose.min(n - 1);
    let chain = n - loose;
    let mut perm: Vec<usize> = (0..n).collect();
    shuffle(&mut perm, &mut rng);
    let mut graph: Graph = vec![vec![]; n];
    let mut add = |a: usize, b: usize| {
        if a != b && !graph[a].contains(&b) {
            graph[a].push(b);
            graph[b].push(a);
        }
    };
    for i in 0..n {
        for j in i + 1..(i + 1 + l.window).min(n) {
            if splitmix(&mut rng) % 100 < l.dens as u64 {
                add(perm[i], perm[j]);
            }
        }
        for _ in 0..l.far {
            if splitmix(&mut rng) % 4 == 0 {
                add(perm[i], (splitmix(&mut rng) % n as u64) as usize);
            }
        }
    }
    let mut deps: HashMap<usize, Vec<usize>> = HashMap::new();
    for i in 0..chain {
        deps.insert(perm[i], if i == 0 { vec![] } else { vec![perm[i - 1]] });
    }
    for k in chain..n {
        // somewhere next to the chain: after position `a`, before position `b`
        let a = (splitmix(&mut rng) % (chain as u64 + 1)) as usize;
        let d = if a == 0 { vec![] } else { vec![perm[a - 1]] };
        deps.insert(perm[k], d);
        let range = if splitmix(&mut rng) % 3 == 0 { chain as u64 } else { 12 };
        let b = a + 1 + (splitmix(&mut rng) % range) as usize;
        if b < chain && splitmix(&mut rng) % 4 != 0 {
            deps.get_mut(&perm[b]).unwrap().push(perm[k]);
        }
    }
    let mut nodes = perm;
    shuffle(&mut nodes, &mut rng);
    let order = layered(&nodes, &deps);
    Problem { graph, order }
}

/// the usual mix for checks of search results
pub fn mixed(limit: f64) -> BoxedStrategy<Problem> {
    prop_oneof![
        6 => problem(1, 9, limit),
        2 => wide_problem(3, 9, limit),
        2 => long_problem(2, 60, limit),
        1 => problem(1, 3, limit),
        1 => problem(8, 16, limit),
    ]
    .boxed()
}
