//! Stands in for mbqc_scheduling when the results program is built: everything is the real
//! library's, except that `interface::run` passes its arguments to a hook, whose answer it returns.

pub use real::*;

pub mod search {
    pub use real::search::*;
    // where the results program expects it (it is pinned to an earlier version of the library)
    pub use real::scheduler::space::SpacialGraph;
}

pub mod interface {
    use std::{cell::RefCell, sync::Mutex, time::Duration};

    use super::probabilistic::AcceptFunc;
    pub use real::interface::*;
    // where the Python binding expects it
    pub use real::scheduler::space::SpacialGraph;

    pub struct Call<'l> {
        pub graph: RefSpacialGraph<'l>,
        pub order: RefPartialOrderGraph<'l>,
        pub do_search: bool,
        pub timeout: Option<Duration>,
        pub nthreads: u16,
        pub task_bound: Option<u32>,
        pub probabilistic: Option<(AcceptFunc, Option<u64>)>,
    }

    pub type Hook = Box<dyn FnMut(Call<'_>) -> Vec<Path> + Send>;

    pub static HOOK: Mutex<Option<Hook>> = Mutex::new(None);
    thread_local! {
        /// goes before the global one
        pub static LOCAL_HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    }

    pub fn run(
        graph: RefSpacialGraph,
        order: RefPartialOrderGraph,
        do_search: bool,
        timeout: Option<Duration>,
        nthreads: u16,
        task_bound: Option<u32>,
        probabilistic: Option<(AcceptFunc, Option<u64>)>,
    ) -> Vec<Path> {
        let call = Call { graph, order, do_search, timeout, nthreads, task_bound, probabilistic };
        if let Some(f) = LOCAL_HOOK.with(|h| h.borrow_mut().take()) {
            let mut f = f;
            let res = f(call);
            LOCAL_HOOK.with(|h| *h.borrow_mut() = Some(f));
            return res;
        }
        if let Some(f) = HOOK.lock().unwrap().as_mut() {
            return f(call);
        }
        // without holding the lock
        let func = call.probabilistic;
        real::interface::run(graph, order, do_search, timeout, nthreads, task_bound, func)
    }
}
