//! One operation with memory requests failing from a chosen one on.
use crate::codec::{self, CErr, Obj, What};
use crate::rules::AnyRule;
use crate::tape::Ctl;
use crate::util::{attempt, fail};
use crate::{each, each_gn};
use model::*;
use simrt::rng::mix;
use simrt::{alloc, shm};
use std::io::Write;

/// Takes bytes without needing memory.
struct Hash(u64, u64);
impl Write for Hash {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100_0000_01b3);
        }
        self.1 += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::fmt::Write for Hash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let _ = Write::write(self, s.as_bytes());
        Ok(())
    }
}

/// What an operation gave; turned into numbers outside the window in which requests fail.
enum Got {
    Rule(AnyRule),
    Pairs(Box<[(f64, f64)]>),
    Num([u64; 2]),
    Err,
}
impl Got {
    fn bits(&self) -> Vec<u64> {
        match self {
            Got::Rule(r) => r.bits(),
            Got::Pairs(p) => p.iter().flat_map(|x| [x.0.to_bits(), x.1.to_bits()]).collect(),
            Got::Num(x) => x.to_vec(),
            Got::Err => vec![],
        }
    }
}

struct Setup {
    rule: Option<AnyRule>,
    bytes: Vec<u8>,
    #[cfg(feature = "full")]
    pool: Option<rayon::ThreadPool>,
}

fn value(x: f64, vseed: u64) -> f64 {
    simrt::point();
    (mix(x.to_bits() ^ mix(vseed)) >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}

fn parallel(rule: &RuleSpec, op: &OomOp) -> bool {
    matches!(op, OomOp::Integrate { par: true, .. }) || (rule.ctor == Ctor::ParNew && matches!(op, OomOp::Build))
}

fn setup(spec: &RuleSpec, op: &OomOp, pool: u32) -> Option<Setup> {
    let _ = pool;
    let rule = if matches!(op, OomOp::Build) { None } else { Some(AnyRule::build(&spec.with_ctor(calm(spec.ctor)))) };
    let mut bytes = vec![];
    if let (OomOp::Load(f), Some(r)) = (op, &rule) {
        bytes = codec::record(&Obj::Rule(r.clone()), *f, 0).ok()?;
    }
    Some(Setup {
        rule,
        bytes,
        #[cfg(feature = "full")]
        pool: if parallel(spec, op) { rayon::ThreadPoolBuilder::new().stack_size(crate::util::STACK).num_threads(pool.max(1) as usize).build().ok() } else { None },
    })
}
fn calm(c: Ctor) -> Ctor {
    if c == Ctor::ParNew {
        Ctor::New
    } else {
        c
    }
}

#[cfg(feature = "full")]
fn install<R: Send>(s: &Setup, f: impl FnOnce() -> R + Send) -> R {
    match &s.pool {
        Some(p) => p.install(f),
        None => f(),
    }
}
#[cfg(not(feature = "full"))]
fn install<R: Send>(_: &Setup, f: impl FnOnce() -> R + Send) -> R {
    f()
}

/// The operation itself; `take` is a copy it may consume, made beforehand.
fn act(spec: &RuleSpec, op: &OomOp, s: &Setup, take: Option<AnyRule>) -> Got {
    if matches!(op, OomOp::Build) {
        return Got::Rule(install(s, || AnyRule::build(spec)));
    }
    let (Some(r), Some(mut take)) = (&s.rule, take) else { return Got::Err };
    match op {
        OomOp::Build => Got::Err,
        OomOp::Clone => Got::Rule(r.clone()),
        OomOp::Convert => Got::Rule(take.to_jacobi()),
        OomOp::IntoPairs => each_gn!(take, q => Got::Pairs(q.into_node_weight_pairs()), q => Got::Num([q.degree().get() as u64, 0])),
        OomOp::IntoIter => {
            let (mut h, mut n) = (0u64, 0);
            each_gn!(take, q => q.into_iter().for_each(|x| { h = mix(h ^ x.0.to_bits() ^ x.1.to_bits().rotate_left(7)); n += 1 }),
                q => q.into_iter().take(3000).for_each(|x| { h = mix(h ^ x.to_bits()); n += 1 }));
            Got::Num([h, n])
        }
        OomOp::Iterate => {
            let (mut h, mut n) = (0u64, 0);
            each_gn!(r, q => {
                q.iter().for_each(|x| { h = mix(h ^ x.0.to_bits() ^ x.1.to_bits().rotate_left(7)); n += 1 });
                q.nodes().rev().for_each(|x| h = mix(h ^ x.to_bits()));
                q.weights().rev().for_each(|x| h = mix(h ^ x.to_bits()));
            }, q => {
                q.iter().take(3000).for_each(|x| { h = mix(h ^ x.to_bits()); n += 1 });
                q.iter().rev().take(3000).for_each(|x| { h = mix(h ^ x.to_bits()); n += 1 });
            });
            Got::Num([h, n])
        }
        OomOp::Integrate { a, b, vseed, par: false } => Got::Num([r.integrate(*a, *b, |x| value(x, *vseed)).to_bits(), 1]),
        OomOp::Integrate { a, b, vseed, par: true } => {
            Got::Num([install(s, || r.par_integrate(*a, *b, |x| value(x, *vseed))).to_bits(), 2])
        }
        OomOp::Save(f) => {
            let mut h = Hash(7, 0);
            let o = Obj::Rule(take);
            match codec::save(&o, *f, &Ctl::new(0, None), &mut h) {
                Ok(()) => Got::Num([h.0, h.1]),
                Err(_) => Got::Err,
            }
        }
        OomOp::Load(f) => match codec::load(What::Rule(r.kind()), *f, &Ctl::new(0, None), &mut &s.bytes[..]) {
            Ok(Obj::Rule(q)) => Got::Rule(q),
            Ok(_) => Got::Err,
            Err(CErr::NoImpl) => Got::Num([0, 0]),
            Err(_) => Got::Err,
        },
        OomOp::Debug => {
            let mut h = Hash(7, 0);
            match each!(r, q => std::fmt::Write::write_fmt(&mut h, format_args!("{q:?}"))) {
                Ok(()) => Got::Num([h.0, h.1]),
                Err(_) => Got::Err,
            }
        }
        OomOp::Change { deg, a, b, vseed } => {
            take.change_degree(*deg);
            Got::Num([take.integrate(*a, *b, |x| value(x, *vseed)).to_bits(), take.degree()])
        }
    }
}

/// Requests the operation makes when memory is available, then its outcome.
pub fn alone(spec: &RuleSpec, op: &OomOp) -> Vec<u64> {
    let Some(s) = setup(spec, op, 1) else { return vec![] };
    let take = s.rule.clone();
    alloc::count_start();
    let g = act(spec, op, &s, take);
    alloc::count_stop();
    let mut v = vec![alloc::requests()];
    v.extend(g.bits());
    v
}

pub fn key(spec: &RuleSpec, op: &OomOp) -> String {
    format!("o/{}/{op:?}", spec.key())
}

pub fn run(o: &Oom, refs: &'static Refs) {
    let Some(want) = look(refs, &key(&o.rule, &o.op)) else { return };
    let Some((n, want)) = want.split_first() else { return };
    let Some(s) = setup(&o.rule, &o.op, o.pool) else { return };
    let par = parallel(&o.rule, &o.op);
    let before = s.rule.as_ref().map(|r| r.bits());
    let take = s.rule.clone();
    let st = shm::stats();
    st.ops += 1;
    let at = if *n == 0 { 0 } else { o.at % n };
    let id = key(&o.rule, &o.op).bytes().fold(o.len, |h, b| mix(h ^ b as u64));
    simrt::event(mix(id ^ at));
    alloc::fail_start(at, o.len);
    let r = attempt(|| act(&o.rule, &o.op, &s, take));
    let (_, failed) = alloc::fail_stop();
    let what = || format!("{:?} on {} with requests {at}.. (of {n}, {} of them) refused", o.op, o.rule.key(), o.len);
    let same = |g: &Got| {
        let b = g.bits();
        if par && matches!(g, Got::Num(_)) {
            // the summation order depends on the schedule
            let (x, y) = (f64::from_bits(b[0]), f64::from_bits(want.first().copied().unwrap_or(0)));
            (x - y).abs() <= 1e-9 * (1.0 + y.abs()) || x.to_bits() == y.to_bits()
        } else {
            b == want
        }
    };
    match &r {
        Ok(Got::Err) => {
            simrt::event(1);
            if heap_free(o) {
                fail("oom-heap", &format!("{}: reported an error although it needs no heap", what()));
            }
        }
        Ok(g) => {
            simrt::event(2 ^ g.bits().iter().fold(3, |h: u64, x| (h ^ x).wrapping_mul(0x100_0000_01b3)));
            if !same(g) {
                fail("oom", &format!("{}: gave {} instead of {}", what(), brief(&g.bits()), brief(want)));
            }
        }
        Err(_) => {
            simrt::event(3);
            if heap_free(o) {
                fail("oom-heap", &format!("{}: panicked although it needs no heap", what()));
            }
        }
    }
    simrt::event(mix(failed ^ at << 32) ^ *n);
    if s.rule.as_ref().map(|r| r.bits()) != before {
        fail("oom", &format!("{}: the rule is altered", what()));
    }
    // and with memory back it works as ever
    let take = s.rule.clone();
    if let Ok(g) = attempt(|| act(&o.rule, &o.op, &s, take)) {
        if !same(&g) {
            fail("oom", &format!("{}: repeated with memory available it gave {} instead of {}", what(), brief(&g.bits()), brief(want)));
        }
        st.p_recovered += 1;
    } else {
        fail("oom", &format!("{}: repeated with memory available it panicked", what()));
    }
}

fn brief(b: &[u64]) -> String {
    let mut s = format!("[{} words", b.len());
    for x in b.iter().take(6) {
        s += &format!(" {x:x}");
    }
    s + "]"
}
