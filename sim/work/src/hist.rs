//! Histories of operations by several threads; each outcome must be the one the operation has alone.
use crate::codec::{self, Obj, What};
use crate::rules::{param, AnyRule};
use crate::tape::Ctl;
use crate::util::{attempt, fail, panic_text};
use crate::{each, each_gn};
use gauss_quad::FiniteAboveNegOneF64;
use model::*;
use simrt::rng::mix;
use simrt::shm;
use std::collections::BTreeMap;

const PANICKED: u64 = 0x7061_6e69_6321;

fn text(s: &str) -> u64 {
    s.bytes().fold(s.len() as u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3))
}
fn opt(x: Option<FiniteAboveNegOneF64>) -> u64 {
    x.map(|v| v.get().to_bits()).unwrap_or(u64::MAX - 1)
}
fn pair(v: &mut Vec<u64>, p: &(f64, f64)) {
    v.push(p.0.to_bits());
    v.push(p.1.to_bits());
}

/// The integrand: some value in [-1, 1] for each argument. Adds each argument to `seen`.
fn value(x: f64, vseed: u64, seen: &mut u64) -> f64 {
    simrt::point();
    let h = mix(x.to_bits() ^ mix(vseed));
    *seen = seen.wrapping_add(h);
    (h >> 11) as f64 / (1u64 << 52) as f64 - 1.0
}

fn act(rule: &AnyRule, what: &HWhat) -> Vec<u64> {
    match what {
        HWhat::Build => rule.bits(),
        HWhat::Clone => {
            let c = rule.clone();
            let mut v = c.bits();
            v.push((c == *rule) as u64);
            v
        }
        HWhat::Convert => rule.clone().to_jacobi().bits(),
        HWhat::Views => {
            let mut v = vec![];
            each_gn!(rule, r => {
                v.push(r.nodes().len() as u64);
                r.nodes().for_each(|x| v.push(x.to_bits()));
                r.weights().for_each(|x| v.push(x.to_bits()));
                r.iter().for_each(|x| pair(&mut v, x));
                r.iter().rev().for_each(|x| pair(&mut v, x));
                r.as_node_weight_pairs().iter().for_each(|x| pair(&mut v, x));
                r.clone().into_iter().for_each(|x| pair(&mut v, &x));
                r.clone().into_node_weight_pairs().iter().for_each(|x| pair(&mut v, x));
            }, q => {
                let n = q.iter().len();
                v.push(n as u64);
                q.iter().take(200).for_each(|x| v.push(x.to_bits()));
                q.iter().rev().take(200).for_each(|x| v.push(x.to_bits()));
            });
            v
        }
        HWhat::Debug => vec![text(&each!(rule, r => format!("{r:?}")))],
        HWhat::Json => match codec::record(&Obj::Rule(rule.clone()), Format::Json, 0) {
            Ok(b) => vec![1, b.iter().fold(b.len() as u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3))],
            Err(_) => vec![0],
        },
        HWhat::Stored(f, style) => match codec::record(&Obj::Rule(rule.clone()), *f, *style) {
            Ok(b) => {
                let mut v = vec![1, b.len() as u64];
                if *f != Format::Rkyv {
                    v.push(b.iter().fold(0, |h: u64, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3)));
                }
                match codec::load(What::Rule(rule.kind()), *f, &Ctl::new(*style, None), &mut &b[..]) {
                    Ok(o) => v.extend(o.bits()),
                    Err(_) => v.push(2),
                }
                v
            }
            Err(_) => vec![0],
        },
        HWhat::BadLoad(k) => match codec::record(&Obj::Rule(rule.clone()), Format::Json, 0) {
            Ok(b) => {
                let n = b.len() * (*k as usize).min(1000) / 1000;
                match codec::load(What::Rule(rule.kind()), Format::Json, &Ctl::new(0, None), &mut &b[..n]) {
                    Ok(o) => {
                        let mut v = vec![1];
                        v.extend(o.bits());
                        v
                    }
                    Err(_) => vec![2],
                }
            }
            Err(_) => vec![0],
        },
        HWhat::Eq(other) => {
            let o = AnyRule::build(other);
            vec![(*rule == o) as u64, (o == *rule) as u64]
        }
        HWhat::Params(x) => {
            let v = f64::from_bits(*x);
            let p = FiniteAboveNegOneF64::new(v);
            let q = param(0.75);
            let mut out = vec![opt(p), opt(FiniteAboveNegOneF64::try_from(v).ok())];
            out.push(opt(format!("{v:?}").parse::<FiniteAboveNegOneF64>().ok()));
            if let Some(p) = p {
                out.push(opt(p.checked_add(q.get())));
                out.push(opt(q.checked_sub(p.get())));
                out.push(opt(p.checked_mul(q.get())));
                out.push(opt(q.checked_div(p.get())));
                out.push(opt(p.checked_pow(1.5)));
                out.push(text(&format!("{p} {p:e} {p:?}")));
            }
            out
        }
        HWhat::Walk(k) => {
            let mut out = vec![];
            let mut h = *k;
            each_gn!(rule, r => {
                let mut it = r.iter();
                for _ in 0..8 {
                    h = mix(h);
                    let j = (h >> 8) as usize % 5;
                    let x = match h % 4 { 0 => it.next(), 1 => it.next_back(), 2 => it.nth(j), _ => it.nth_back(j) };
                    match x { Some(x) => pair(&mut out, x), None => out.push(7) }
                    out.push(it.len() as u64);
                }
            }, q => {
                let mut it = q.iter();
                for _ in 0..8 {
                    h = mix(h);
                    let j = (h >> 8) as usize % 5;
                    let x = match h % 4 { 0 => it.next(), 1 => it.next_back(), 2 => it.nth(j), _ => it.nth_back(j) };
                    match x { Some(x) => out.push(x.to_bits()), None => out.push(7) }
                    out.push(it.len() as u64);
                }
            });
            out
        }
        HWhat::Integ { a, b, vseed, panic } => {
            let (mut seen, mut k) = (0u64, 0u64);
            let r = attempt(|| {
                rule.integrate(*a, *b, |x| {
                    if Some(k) == *panic {
                        shm::stats().f_panic += 1;
                        std::panic::panic_any(4711u32);
                    }
                    k += 1;
                    value(x, *vseed, &mut seen)
                })
            });
            match r {
                Ok(v) => vec![v.to_bits(), seen, k],
                Err(e) => vec![PANICKED, e.downcast_ref::<u32>().copied().unwrap_or(0) as u64, k],
            }
        }
        HWhat::SelfNest { a, b, vseed } => {
            let (mut seen, mut k) = (0u64, 0u64);
            let v = rule.integrate(*a, *b, |x| {
                k += 1;
                let outer = value(x, *vseed, &mut seen);
                let inner = rule.integrate(*a, *b, |y| value(y, *vseed ^ x.to_bits(), &mut seen));
                outer * inner
            });
            vec![v.to_bits(), seen, k]
        }
    }
}

/// What the operation gives when it is the only thing the process does.
pub fn alone(op: &HOp) -> Vec<u64> {
    on(&op.rule, &op.what, None)
}

fn on(spec: &RuleSpec, what: &HWhat, rule: Option<&AnyRule>) -> Vec<u64> {
    let r = attempt(|| match rule {
        Some(r) => act(r, what),
        None => act(&AnyRule::build(spec), what),
    });
    match r {
        Ok(v) => v,
        Err(e) => vec![PANICKED, 1, text(&panic_text(&*e))],
    }
}

fn own_op(own: &(Kind, u32), what: &HWhat) -> HOp {
    let rule = RuleSpec { kind: own.0, deg: own.1 as u64, alpha: 0.0, beta: 0.0, ctor: Ctor::New };
    HOp { rule, what: what.clone(), shared: false }
}

/// Every operation whose outcome will be judged.
pub fn needed(h: &Hist) -> Vec<HOp> {
    let mut v = vec![];
    for steps in &h.clients {
        let mut own = h.own.clone();
        for _ in 0..h.repeat.min(2) {
            for s in steps {
                match s {
                    HStep::Op(o) => v.push(HOp { shared: false, ..o.clone() }),
                    HStep::SetDegree(k, d) => {
                        if let Some(o) = own.get_mut(*k) {
                            o.1 = *d;
                        }
                    }
                    HStep::Own(k, w) => {
                        if let Some(o) = own.get(*k) {
                            v.push(own_op(o, w));
                        }
                    }
                    HStep::Noise { .. } | HStep::Sweep { .. } => {}
                }
            }
        }
    }
    v
}

struct Ctx {
    shared: BTreeMap<String, AnyRule>,
    #[cfg(feature = "full")]
    pool: Option<rayon::ThreadPool>,
    refs: &'static Refs,
}

pub fn run(h: &'static Hist, refs: &'static Refs) {
    let noisy = h.clients.iter().flatten().any(|s| matches!(s, HStep::Noise { .. }));
    #[cfg(feature = "full")]
    let pool = if noisy {
        match rayon::ThreadPoolBuilder::new().stack_size(crate::util::STACK).num_threads(h.pool.max(1) as usize).build() {
            Ok(p) => Some(p),
            Err(_) => simrt::harness_error("pool"),
        }
    } else {
        None
    };
    let _ = noisy;
    let mut shared = BTreeMap::new();
    for s in h.clients.iter().flatten() {
        if let HStep::Op(HOp { rule, shared: true, .. }) = s {
            if let Ok(r) = attempt(|| AnyRule::build(rule)) {
                shared.insert(rule.key(), r);
            }
        }
    }
    let ctx: &'static Ctx = Box::leak(Box::new(Ctx {
        shared,
        #[cfg(feature = "full")]
        pool,
        refs,
    }));
    let before: Vec<Vec<u64>> = ctx.shared.values().map(|r| r.bits()).collect();
    let mut hs = vec![];
    for c in &h.clients[h.clients.len().min(1)..] {
        hs.push(std::thread::spawn(move || client(ctx, h, c)));
    }
    if let Some(c) = h.clients.first() {
        client(ctx, h, c);
    }
    for t in hs {
        if let Err(e) = t.join() {
            fail("history", &format!("a client panicked: {}", panic_text(&*e)));
        }
    }
    for (r, b) in ctx.shared.values().zip(&before) {
        if r.bits() != *b {
            fail("history", "a shared rule changed while it was only read");
        }
    }
}

fn client(ctx: &'static Ctx, h: &'static Hist, steps: &'static [HStep]) {
    let mut own: Vec<((Kind, u32), AnyRule)> = h
        .own
        .iter()
        .map(|o| (*o, AnyRule::build(&RuleSpec { kind: o.0, deg: o.1 as u64, alpha: 0.0, beta: 0.0, ctor: Ctor::New })))
        .collect();
    for round in 0..h.repeat.max(1) {
        for s in steps {
            shm::stats().ops += 1;
            match s {
                HStep::Op(o) => {
                    let rule = if o.shared { ctx.shared.get(&o.rule.key()) } else { None };
                    let got = on(&o.rule, &o.what, rule);
                    judge(ctx, &HOp { shared: false, ..o.clone() }, &got, round);
                }
                HStep::SetDegree(k, d) => {
                    if let Some(o) = own.get_mut(*k) {
                        o.0 .1 = *d;
                        o.1.change_degree(*d);
                    }
                }
                HStep::Own(k, w) => {
                    if let Some(o) = own.get(*k) {
                        let op = own_op(&o.0, w);
                        let got = on(&op.rule, w, Some(&o.1));
                        judge(ctx, &op, &got, round);
                    }
                }
                HStep::Noise { rule, a, b, vseed, panic } => noise(ctx, rule, *a, *b, *vseed, *panic),
                HStep::Sweep { kind, from, n, spread } => sweep(*kind, *from, *n, *spread),
            }
        }
    }
}

fn judge(ctx: &Ctx, op: &HOp, got: &[u64], round: u32) {
    simrt::event(got.iter().fold(3, |h: u64, x| (h ^ x).wrapping_mul(0x100_0000_01b3)));
    let Some(want) = look(ctx.refs, &op.key()) else { return };
    if got != &want[..] {
        let i = got.iter().zip(want.iter()).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
        let g = got.get(i).copied();
        let w = want.get(i).copied();
        fail(
            "history",
            &format!(
                "{:?} on {} (round {round}) gave {} values instead of {} or differs at {i}: {g:x?} instead of {w:x?} in a fresh process",
                op.what,
                op.rule.key(),
                got.len(),
                want.len()
            ),
        );
    }
}

fn sweep(kind: Kind, from: u64, n: u64, spread: u64) {
    for i in 0..n {
        let step = (i % 37) as f64 / 64.0 * spread as f64;
        let rule = RuleSpec {
            kind,
            deg: if kind.is_gw() { 1 + (from + i) % 12 } else { from + i },
            alpha: if matches!(kind, Kind::Jac | Kind::Lag) { -0.5 + step } else { 0.0 },
            beta: if kind == Kind::Jac { 0.25 * (i % 5) as f64 } else { 0.0 },
            ctor: Ctor::New,
        };
        let _ = attempt(|| {
            let r = AnyRule::build(&rule);
            let mut k = 0;
            r.integrate(0.0, 1.0, |x| {
                k += 1;
                if k == 7 && i % 9 == 8 {
                    std::panic::panic_any(1u8);
                }
                value(x, 5, &mut 0)
            })
        });
    }
}

#[cfg(feature = "full")]
fn noise(ctx: &'static Ctx, spec: &RuleSpec, a: f64, b: f64, vseed: u64, panic: Option<u64>) {
    let Some(pool) = &ctx.pool else { return };
    let n = std::sync::atomic::AtomicU64::new(0);
    let _ = attempt(|| {
        pool.install(|| {
            let r = AnyRule::build(spec);
            r.par_integrate(a, b, |x| {
                let k = n.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if Some(k) == panic {
                    shm::stats().f_panic += 1;
                    std::panic::panic_any(1u8);
                }
                value(x, vseed, &mut 0)
            })
        })
    });
}
#[cfg(not(feature = "full"))]
fn noise(_: &'static Ctx, _: &RuleSpec, _: f64, _: f64, _: u64, _: Option<u64>) {}
