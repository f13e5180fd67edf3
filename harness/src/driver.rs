//! The two commands that all harness programs share.

use std::{env, fs, path::PathBuf, process::exit, time::Instant};

use serde_json::{json, Value};

use crate::core::{Ctx, Sub, PROFILE};

pub type Subs = fn(&str) -> Vec<Box<dyn Sub>>;

pub fn run(subs: Subs, id: &str, flag: &str, out: &str) {
    assert_eq!(flag, "--out");
    let seed = env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
    let only = env::var("VH_ONLY").ok();
    let replay_dir = PathBuf::from(env::var("VH_REPLAYS").unwrap_or("replays".into()));
    let ctx = Ctx { property: id.into(), thorough, seed, replay_dir, out: Some(out.into()) };
    let subs = subs(id);
    if subs.is_empty() {
        eprintln!("unknown property {id}");
        exit(2);
    }
    let mut res = vec![];
    let mut violated = false;
    for s in subs {
        if only.as_deref().is_some_and(|o| o != s.name()) {
            continue;
        }
        let start = Instant::now();
        let st = s.run(&ctx);
        violated |= !st.violations.is_empty();
        let wall = start.elapsed().as_secs_f64();
        eprintln!(
            "[{PROFILE}] {id}/{}: {} cases, {} distinct non-trivial, {wall:.1}s {:?}",
            s.name(),
            st.evaluations,
            st.distinct.len(),
            st.labels
        );
        for (m, p) in &st.violations {
            eprintln!("[{PROFILE}] {id}/{}: VIOLATED: {m}\n   replay {p}", s.name());
        }
        res.push(json!({
            "sub": s.name(),
            "profile": PROFILE,
            "evaluations": st.evaluations,
            "distinct_nontrivial": st.distinct.len(),
            "labels": st.labels,
            "samples": st.samples.into_iter().take(3).collect::<Vec<_>>(),
            "wall_s": wall,
            "violations": st.violations.iter()
                .map(|(m, p)| json!({"message": m, "replay": p})).collect::<Vec<_>>(),
        }));
        if violated {
            break;
        }
    }
    fs::write(out, serde_json::to_string_pretty(&res).unwrap()).unwrap();
    exit(i32::from(violated));
}

pub fn replay(subs: Subs, file: &str) {
    let doc: Value = serde_json::from_str(&fs::read_to_string(file).unwrap()).unwrap();
    let id = doc["property"].as_str().unwrap();
    let name = doc["sub"].as_str().unwrap();
    let s = subs(id).into_iter().find(|s| s.name() == name).expect("unknown sub");
    match s.replay(doc["value"].clone()) {
        Ok(()) => println!("holds: {id}/{name}"),
        Err(e) => {
            println!("violated: {id}/{name}: {e}");
            exit(1)
        },
    }
}
