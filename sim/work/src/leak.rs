//! Cycles of operations, many of them failing or abandoned: live memory must come back to where it was.
use crate::codec::{self, Obj, What};
use crate::rules::AnyRule;
use crate::tape::Ctl;
use crate::util::{attempt, fail};
use crate::{each, each_gn};
use model::*;
use simrt::rng::mix;
use simrt::{alloc, shm};

fn value(x: f64, vseed: u64) -> f64 {
    simrt::point();
    (mix(x.to_bits() ^ mix(vseed)) >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}

struct Ctx {
    rules: Vec<AnyRule>,
    specs: Vec<RuleSpec>,
    #[cfg(feature = "full")]
    pool: Option<rayon::ThreadPool>,
}

#[cfg(feature = "full")]
fn install<R: Send>(s: &Ctx, f: impl FnOnce() -> R + Send) -> R {
    match &s.pool {
        Some(p) => p.install(f),
        None => f(),
    }
}
#[cfg(not(feature = "full"))]
fn install<R: Send>(_: &Ctx, f: impl FnOnce() -> R + Send) -> R {
    f()
}

fn is_par(specs: &[RuleSpec], (k, op): &(usize, LeakOp)) -> bool {
    match op {
        LeakOp::Integ { par, .. } => *par,
        LeakOp::Build => specs[*k].ctor == Ctor::ParNew,
        _ => false,
    }
}

fn step(c: &Ctx, k: usize, op: &LeakOp) {
    let st = shm::stats();
    st.ops += 1;
    let r = &c.rules[k];
    match op {
        LeakOp::Integ { par, a, b, vseed, panic } => {
            let n = std::sync::atomic::AtomicU64::new(0);
            // something the integrand owns
            let owned = vec![*vseed; 3];
            let f = |x: f64| {
                let i = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if Some(i) == *panic {
                    st_panic();
                    std::panic::panic_any(owned.clone());
                }
                value(x, owned[0])
            };
            let _ = attempt(|| if *par { install(c, || r.par_integrate(*a, *b, &f)) } else { r.integrate(*a, *b, &f) });
            let own = owned.clone();
            let k = std::cell::Cell::new(0u64);
            if !*par {
                // by value, with a capture of its own
                let _ = attempt(|| {
                    r.integrate(*a, *b, move |x| {
                        k.set(k.get() + 1);
                        if Some(k.get()) == *panic {
                            std::panic::panic_any(1u8);
                        }
                        value(x, own[1])
                    })
                });
            }
        }
        LeakOp::Build => drop(attempt(|| install(c, || AnyRule::build(&c.specs[k])))),
        LeakOp::Clone => drop(r.clone()),
        LeakOp::Convert => drop(r.clone().to_jacobi()),
        LeakOp::IntoPairs => each_gn!(r.clone(), q => drop(q.into_node_weight_pairs()), q => { let _ = q; }),
        LeakOp::IntoIter(n) => {
            st.f_early_drop += 1;
            each_gn!(r.clone(), q => {
                let mut it = q.into_iter();
                for i in 0..*n { if i % 3 == 2 { it.next_back(); } else { it.next(); } }
                let more = it.clone();
                drop(it);
                let _ = more.skip(1).step_by(2).count();
            }, q => {
                let mut it = q.into_iter();
                for i in 0..*n { if i % 3 == 2 { it.next_back(); } else { it.next(); } }
            })
        }
        LeakOp::Iter(n) => {
            st.f_early_drop += 1;
            each_gn!(r, q => {
                let mut it = q.iter();
                for i in 0..*n { if i % 3 == 2 { it.next_back(); } else { it.next(); } }
                let _ = (q.nodes().take(*n as usize).count(), q.weights().rev().take(*n as usize).count());
            }, q => {
                let mut it = q.iter();
                for i in 0..*n { if i % 3 == 2 { it.next_back(); } else { it.next(); } }
            })
        }
        LeakOp::SaveLoad(f) => {
            if let Ok(Ok(b)) = attempt(|| codec::record(&Obj::Rule(r.clone()), *f, 0)) {
                let _ = attempt(|| codec::load(What::Rule(r.kind()), *f, &Ctl::new(0, None), &mut &b[..]));
            }
        }
        LeakOp::BadLoad(f, k) => {
            if let Ok(Ok(b)) = attempt(|| codec::record(&Obj::Rule(r.clone()), *f, 0)) {
                st.f_truncate += 1;
                let n = b.len() * (*k).min(1000) as usize / 1000;
                let _ = attempt(|| codec::load(What::Rule(r.kind()), *f, &Ctl::new(0, None), &mut &b[..n]));
            }
        }
        LeakOp::Change(d) => {
            let mut q = r.clone();
            q.change_degree(*d);
            let _ = q.integrate(0.0, 1.0, |x| value(x, 1));
        }
        LeakOp::Debug => drop(each!(r, q => format!("{q:?} {q:#?}"))),
    }
}
fn st_panic() {
    shm::stats().f_panic += 1;
}

pub fn run(l: &'static Leak) {
    let par = l.cycle.iter().any(|s| is_par(&l.rules, s));
    let mut rules = vec![];
    for s in &l.rules {
        match attempt(|| AnyRule::build(&s.with_ctor(if s.ctor == Ctor::ParNew { Ctor::New } else { s.ctor }))) {
            Ok(r) => rules.push(r),
            Err(_) => return,
        }
    }
    let ctx = Ctx {
        rules,
        specs: l.rules.clone(),
        #[cfg(feature = "full")]
        pool: if par { rayon::ThreadPoolBuilder::new().stack_size(crate::util::STACK).num_threads(l.pool.max(1) as usize).build().ok() } else { None },
    };
    let reps = l.reps.max(4) as usize;
    let mut live = Vec::with_capacity(reps);
    alloc::count_start();
    for _ in 0..reps {
        for (k, op) in &l.cycle {
            step(&ctx, *k % ctx.rules.len(), op);
            simrt::event(11);
        }
        live.push(alloc::live());
    }
    alloc::count_stop();
    let cycle = || format!("{:?} on {:?}", l.cycle, l.rules.iter().map(|r| r.key()).collect::<Vec<_>>());
    if std::env::var_os("GQSIM_LIVE").is_some() {
        eprintln!("{live:?}");
    }
    if !par {
        for (i, x) in live.iter().enumerate().skip(2) {
            if *x != live[1] {
                fail(
                    "leak",
                    &format!("after repetition {} live memory is {} bytes in {} blocks, {} in {} before: {}", i + 1, x.0, x.1, live[1].0, live[1].1, cycle()),
                );
            }
        }
    } else {
        // rayon's queues hold on to some memory for a while: only steady growth counts
        let q = reps / 4;
        let low = |r: std::ops::Range<usize>| live[r].iter().map(|x| x.1).min().unwrap_or(0);
        let (a, b) = (low(q..2 * q), low(3 * q..reps));
        if b - a >= (3 * q - 2 * q) as i64 && q >= 4 {
            fail("leak", &format!("{} blocks live in repetitions {q}..{}, {} at the end: {}", a, 2 * q, b, cycle()));
        }
    }
}
