//! Runs one plan in a forked child and reads back what happened.
use model::{Body, Outcome, Plan, RefJob, Refs};
use simrt::shm::{self, Dec, Stats};
use std::sync::OnceLock;

pub struct RunResult {
    pub outcome: Outcome,
    pub hash: u64,
    pub inter: u64,
    pub stats: Stats,
    pub trace: Vec<Dec>,
    pub overflow: bool,
}

const CPU_LIMIT_S: u64 = 60;
const WALL_LIMIT_S: u32 = 400;

static READY: OnceLock<()> = OnceLock::new();

/// Once per process, before the first child.
pub fn init() {
    READY.get_or_init(|| {
        std::panic::set_hook(Box::new(|_| {}));
        shm::map();
    });
}

enum End {
    Exit(i32),
    Signal(i32),
}

fn fork_run(f: impl FnOnce()) -> End {
    shm::reset();
    unsafe {
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: CPU_LIMIT_S, rlim_max: CPU_LIMIT_S + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            libc::alarm(WALL_LIMIT_S);
            if std::env::var_os("GQSIM_STDERR").is_none() {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                if n >= 0 {
                    libc::dup2(n, 2);
                }
            }
            f();
            libc::_exit(0);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        if libc::WIFSIGNALED(st) {
            End::Signal(libc::WTERMSIG(st))
        } else {
            End::Exit(libc::WEXITSTATUS(st))
        }
    }
}

/// Computes a reference in a process of its own. None: it failed (and how is not this run's concern).
pub fn run_ref(job: &RefJob) -> Option<Vec<u64>> {
    let end = fork_run(|| {
        let v = work::refs::compute(job);
        let mut b = Vec::with_capacity(v.len() * 8);
        for x in v {
            b.extend_from_slice(&x.to_le_bytes());
        }
        shm::put_blob(&b);
        shm::set_result(shm::ST_OK, "", "");
    });
    if !matches!(end, End::Exit(0)) {
        return None;
    }
    unsafe {
        let s = &*shm::get();
        if s.status != shm::ST_OK {
            return None;
        }
        let n = s.blob_len as usize;
        Some(s.blob[..n].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap_or([0; 8]))).collect())
    }
}

pub fn run(plan: &Plan, refs: &Refs, trace: Option<Vec<Dec>>) -> RunResult {
    let end = fork_run(|| {
        let refs: &'static Refs = unsafe { &*(refs as *const Refs) };
        let plan: &'static Plan = unsafe { &*(plan as *const Plan) };
        work::run(plan, refs, trace);
        simrt::finish()
    });
    unsafe {
        let s = &*shm::get();
        let text = |b: &[u8], n: u32| String::from_utf8_lossy(&b[..n as usize]).into_owned();
        let class = text(&s.class, s.class_len);
        let msg = text(&s.msg, s.msg_len);
        let v = |c: &str, m: String| {
            if model::classes(&plan.check).contains(&c) {
                Outcome::Violation { class: c.into(), msg: m }
            } else {
                Outcome::Nothing(format!("{c}: {m}"))
            }
        };
        let no_heap = matches!(&plan.body, Body::Oom(o) if model::heap_free(o));
        let oom_fault = matches!(plan.body, Body::Oom(_)) && s.stats.f_alloc_fail > 0 && !no_heap;
        let mut stats = s.stats;
        let outcome = match (end, s.status) {
            (End::Signal(libc::SIGXCPU), _) => v("no-progress", format!("used {CPU_LIMIT_S} s of processor time without finishing")),
            (End::Signal(libc::SIGALRM), _) | (End::Signal(libc::SIGKILL), _) => Outcome::Nothing("watchdog or memory limit".into()),
            (End::Signal(libc::SIGABRT), shm::ST_RUNNING) if oom_fault => {
                stats.p_aborted_oom += 1;
                Outcome::Ok
            }
            (End::Signal(libc::SIGABRT), shm::ST_RUNNING) if no_heap => {
                v("oom-heap", "the process was stopped by a failed allocation in an operation that needs no heap".into())
            }
            (End::Signal(n), shm::ST_RUNNING) => v("abort", format!("the process died with signal {n}")),
            (_, shm::ST_VIOLATION) => v(&class, msg),
            (_, shm::ST_OK) => Outcome::Ok,
            (_, shm::ST_HARNESS) => Outcome::Nothing(format!("harness: {msg}")),
            (End::Exit(c), _) => Outcome::Nothing(format!("exit code {c}")),
            (End::Signal(n), _) => Outcome::Nothing(format!("signal {n}")),
        };
        let n = s.trace_len as usize;
        RunResult {
            outcome,
            hash: s.hash,
            inter: s.inter,
            stats,
            trace: s.trace[..n].to_vec(),
            overflow: s.trace_overflow > 0,
        }
    }
}
