//! Property-based checks for mbqc_scheduling. Driven by /verif/check.py.
//!
//! vh run ID --out FILE      runs all sub-checks of a property (VERIF_SEED, VERIF_TIER)
//! vh replay FILE            runs one recorded case again
//! vh child KIND FILE        one case in a process of its own (used by the checks)

mod core;
mod driver;
mod gen;
mod model;
mod props;

use std::{env, process::exit};

use crate::core::install_panic_hook;

fn main() {
    install_panic_hook();
    let args: Vec<String> = env::args().collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    match arg(1) {
        "run" => driver::run(props::subs, arg(2), arg(3), arg(4)),
        "replay" => driver::replay(props::subs, arg(2)),
        "child" => props::child(arg(2), arg(3)),
        _ => {
            eprintln!("usage: vh run ID --out FILE | vh replay FILE");
            exit(2)
        },
    }
}

