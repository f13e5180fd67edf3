use crate::core::Sub;

pub mod config;
pub mod files;
pub mod order;
pub mod prob;
pub mod sched;
pub mod search;
pub mod timing;

pub fn subs(id: &str) -> Vec<Box<dyn Sub>> {
    match id {
        "C01" => search::c01(),
        "C02" => search::c02(),
        "C03" => search::c03(),
        "C04" => search::c04(),
        "C05" => search::c05(),
        "C06" => search::c06(),
        "C07" => prob::c07(),
        "C08" => prob::c08(),
        "C09" => prob::c09(),
        "C10" => timing::c10(),
        "C11" => timing::c11(),
        "C12" => sched::c12(),
        "C13" => sched::c13(),
        "C14" => sched::c14(),
        "C15" => sched::c15(),
        "C16" => files::c16(),
        "C17" => files::c17(),
        "C18" => search::c18(),
        "C21" => prob::c21(),
        "C24" => order::c24(),
        _ => vec![],
    }
}

/// one case in a process of its own; see timing.rs
pub fn child(kind: &str, file: &str) {
    match kind {
        "files" => files::child(file),
        "repro" => prob::repro_child(file),
        "confined" => files::confined_child(file),
        _ => timing::child(kind, file),
    }
}
