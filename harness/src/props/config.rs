//! Run configurations.

use std::time::Duration;

use mbqc_scheduling::{
    interface::{run, Path},
    probabilistic::{AcceptFunc, HeavysideParameters},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

use crate::{core::hash64, model::Problem};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Acc {
    Builtin,
    Param { cutoff: f64, e: [i32; 5] },
    /// constant probability in 1/1000
    Const(u32),
    /// pseudo-random 0/1 decision from the arguments, accepted in n/256
    Hash { key: u64, n: u32 },
}

impl Acc {
    pub fn func(&self) -> AcceptFunc {
        match self.clone() {
            Acc::Builtin => AcceptFunc::BuiltinHeavyside,
            Acc::Param { cutoff, e } => AcceptFunc::ParametrizedHeavyside {
                param: HeavysideParameters {
                    cutoff,
                    lin_num_total_nodes_exp: e[0],
                    exp_num_total_nodes_exp: e[1],
                    exp_num_remaining_nodes_exp: e[2],
                    exp_diff_exp: e[3],
                    exp_num_measured_nodes_exp: e[4],
                },
            },
            Acc::Const(c) => {
                AcceptFunc::Custom(Box::new(move |_, _, _, _, _, _, _| c as f64 / 1000.))
            },
            Acc::Hash { key, n } => AcceptFunc::Custom(Box::new(move |a, b, c, d, e, f, g| {
                let h = hash64(&(key, [a, b, c, d, e, f, g].map(f64::to_bits)));
                f64::from(u8::from(h % 256 < n as u64))
            })),
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cfg {
    pub search: bool,
    pub nthreads: u16,
    pub task_bound: Option<u32>,
    pub prob: Option<(Acc, Option<u64>)>,
    /// microseconds
    pub timeout: Option<u64>,
}

impl Cfg {
    pub fn run(&self, p: &Problem) -> Vec<Path> {
        run(
            &p.graph,
            &p.order,
            self.search,
            self.timeout.map(Duration::from_micros),
            self.nthreads,
            self.task_bound,
            self.prob.as_ref().map(|(a, s)| (a.func(), *s)),
        )
    }
}

pub fn exhaustive(p: &Problem, nthreads: u16) -> Vec<Path> {
    run(&p.graph, &p.order, true, None, nthreads, None, None)
}

pub fn seed() -> impl Strategy<Value = u64> {
    prop_oneof![
        6 => any::<u64>(),
        2 => 0u64..5,
        1 => Just(u64::MAX),
        1 => Just(1u64 << 32),
    ]
}

pub fn threads() -> impl Strategy<Value = u16> {
    prop_oneof![
        80 => 2u16..=4,
        40 => 5u16..=9,
        20 => prop_oneof![Just(16u16), Just(33u16)],
        1 => prop_oneof![Just(65u16), Just(256u16), Just(257u16)],
    ]
}

pub fn any_threads() -> impl Strategy<Value = u16> {
    prop_oneof![2 => 0u16..=1, 3 => threads()]
}

pub fn task_bound() -> impl Strategy<Value = Option<u32>> {
    prop_oneof![
        3 => Just(None),
        3 => (0u32..=6).prop_map(Some),
        2 => (7u32..=600).prop_map(Some),
        1 => prop_oneof![Just(Some(100_000)), Just(Some(u32::MAX)), Just(Some(1 << 31))],
    ]
}

pub fn acc() -> impl Strategy<Value = Acc> {
    prop_oneof![
        2 => Just(Acc::Builtin),
        2 => (
            prop_oneof![Just(0.), Just(1.), Just(2.), -2f64..4.],
            [-1i32..=3, -1i32..=2, -1i32..=2, 0i32..=4, -1i32..=2]
        )
            .prop_map(|(cutoff, e)| Acc::Param { cutoff, e }),
        1 => prop_oneof![Just(0u32), Just(1000), Just(1500)].prop_map(Acc::Const),
        3 => (1u32..1000).prop_map(Acc::Const),
        2 => (any::<u64>(), 60u32..=250).prop_map(|(key, n)| Acc::Hash { key, n }),
    ]
}

pub fn prob() -> impl Strategy<Value = (Acc, Option<u64>)> {
    (acc(), prop_oneof![1 => Just(None), 4 => seed().prop_map(Some)])
}

pub fn timeout() -> impl Strategy<Value = Option<u64>> {
    prop_oneof![
        8 => Just(None),
        1 => prop_oneof![Just(Some(0u64)), (1u64..3000).prop_map(Some)],
        1 => Just(Some(3_600_000_000)),
    ]
}

/// any mode
pub fn cfg() -> impl Strategy<Value = Cfg> {
    let search = (
        any_threads(),
        task_bound(),
        prop_oneof![2 => Just(None), 3 => prob().prop_map(Some)],
        timeout(),
    )
        .prop_map(|(nthreads, task_bound, prob, timeout)| Cfg {
            search: true,
            nthreads,
            task_bound,
            prob,
            timeout,
        });
    let direct = (any_threads(), task_bound(), prop::option::of(prob()), timeout()).prop_map(
        |(nthreads, task_bound, prob, timeout)| Cfg {
            search: false,
            nthreads,
            task_bound,
            prob,
            timeout,
        },
    );
    prop_oneof![9 => search, 1 => direct]
}
