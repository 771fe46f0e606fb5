use model::{classes, Plan, SchedParams};
use std::any::Any;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::OnceLock;

static CHECK: OnceLock<String> = OnceLock::new();

/// Reports a violation if the running check is about this class; otherwise does nothing.
pub fn fail(class: &str, msg: &str) {
    let c = CHECK.get().map(|s| s.as_str()).unwrap_or("");
    if classes(c).contains(&class) {
        simrt::violation(class, msg);
    }
}

pub fn attempt<T>(f: impl FnOnce() -> T) -> Result<T, Box<dyn Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "(other payload)".into()
    }
}

pub fn begin(plan: &Plan, trace: Option<Vec<simrt::shm::Dec>>, max_steps: u64) {
    let _ = CHECK.set(plan.check.clone());
    let s: &SchedParams = &plan.sched;
    simrt::start(simrt::SchedCfg {
        seed: s.seed,
        pct: s.pct,
        fine_mean: s.fine_mean,
        shared_p: s.shared_p,
        hot_p: s.hot_p,
        conf_p: s.conf_p,
        coarse_p: s.coarse_p,
        stall_p: s.stall_p,
        stall_len: s.stall_len,
        spurious_p: s.spurious_p,
        max_steps,
        cpus: if s.cpus == 0 { 4 } else { s.cpus },
        replay: trace,
        ..Default::default()
    });
}

/// A worker that waits within an integrand takes other work meanwhile, and so on: with hundreds of integrands that
/// make calls of their own, that is deeper than rayon's default stack allows.
#[cfg(feature = "full")]
pub const STACK: usize = 64 << 20;
