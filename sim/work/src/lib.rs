//! Workloads: everything that calls the library under test. Instrumented together with it.
pub mod codec;
pub mod conc;
pub mod damage;
pub mod hist;
pub mod iter;
pub mod leak;
pub mod oom;
pub mod rules;
pub mod util;
pub use rules::AnyRule;
pub mod refs;
pub mod store;
pub mod tape;

use model::{Body, Plan, Refs};

pub fn max_steps(_: &Plan) -> u64 {
    1_500_000_000
}

/// Executes a plan inside the child process of one simulated run.
pub fn run(plan: &'static Plan, refs: &'static Refs, trace: Option<Vec<simrt::shm::Dec>>) {
    util::begin(plan, trace, max_steps(plan));
    match &plan.body {
        Body::Conc(c) => conc::run(c, refs),
        Body::Iter(t) => iter::run(t),
        Body::Hist(h) => hist::run(h, refs),
        Body::Store(s) => store::run(s),
        Body::Damaged(d) => damage::run(d),
        Body::Oom(o) => oom::run(o, refs),
        Body::Leak(l) => leak::run(l),
    }
}
