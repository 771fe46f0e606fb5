//! Threads sharing rules and a pool: parallel and sequential integration, construction, nesting.
use crate::rules::AnyRule;
use crate::util::{attempt, fail, panic_text};
use model::huge::{Huge, HugeStop};
use model::probe::{Done, Probe};
use model::table::Table;
use model::*;
use simrt::shm;
use std::sync::atomic::{AtomicU32, Ordering::Relaxed};

pub struct Ctx {
    pub rules: Vec<AnyRule>,
    pub specs: Vec<RuleSpec>,
    #[cfg(feature = "full")]
    pub pool: Option<rayon::ThreadPool>,
    #[cfg(feature = "full")]
    pub pool2: Option<rayon::ThreadPool>,
    pub refs: &'static Refs,
    pub next_id: AtomicU32,
}

impl Ctx {
    /// Calls `f` in the client's pool, if it is not in one already.
    #[cfg(feature = "full")]
    fn install<R: Send>(&self, second: bool, f: impl FnOnce() -> R + Send) -> R {
        let pool = if second && self.pool2.is_some() { &self.pool2 } else { &self.pool };
        match pool {
            Some(p) if rayon::current_thread_index().is_none() => p.install(f),
            _ => f(),
        }
    }
    #[cfg(not(feature = "full"))]
    fn install<R: Send>(&self, _: bool, f: impl FnOnce() -> R + Send) -> R {
        f()
    }
    /// Calls `f` in the first or second pool, from wherever this is.
    #[cfg(feature = "full")]
    fn across<R: Send>(&self, to: u8, f: impl FnOnce() -> R + Send) -> R {
        let pool = match to {
            1 => &self.pool,
            2 => &self.pool2,
            _ => &None,
        };
        match pool {
            Some(p) => {
                shm::stats().p_across_pools += 1;
                p.install(f)
            }
            None => f(),
        }
    }
    #[cfg(not(feature = "full"))]
    fn across<R: Send>(&self, _: u8, f: impl FnOnce() -> R + Send) -> R {
        f()
    }
    fn id(&self) -> u32 {
        self.next_id.fetch_add(1, Relaxed)
    }
}

/// Counts how often a captured value is dropped.
pub struct Tok<'a>(pub &'a AtomicU32);
impl Drop for Tok<'_> {
    fn drop(&mut self) {
        self.0.fetch_add(1, Relaxed);
    }
}

pub fn run(c: &Conc, refs: &'static Refs) {
    #[cfg(feature = "full")]
    let pool = {
        let b = rayon::ThreadPoolBuilder::new().stack_size(crate::util::STACK).num_threads(c.pool.max(1) as usize);
        if c.global {
            if b.build_global().is_err() {
                simrt::harness_error("global pool");
            }
            None
        } else {
            match b.build() {
                Ok(p) => Some(p),
                Err(_) => simrt::harness_error("pool"),
            }
        }
    };
    #[cfg(feature = "full")]
    let pool2 = match c.pool2 {
        0 => None,
        n => match rayon::ThreadPoolBuilder::new().stack_size(crate::util::STACK).num_threads(n as usize).build() {
            Ok(p) => Some(p),
            Err(_) => simrt::harness_error("second pool"),
        },
    };
    let st = shm::stats();
    if c.pool2 > 0 {
        st.p_two_pools += 1;
    }
    if c.pool <= 1 {
        st.p_single_pool += 1;
    }
    let mut ctx = Ctx {
        rules: vec![],
        specs: c.rules.clone(),
        #[cfg(feature = "full")]
        pool,
        #[cfg(feature = "full")]
        pool2,
        refs,
        next_id: AtomicU32::new(1),
    };
    for s in &c.rules {
        let r = match attempt(|| ctx.install(false, || AnyRule::build(s))) {
            Ok(r) => r,
            Err(e) => {
                fail("ctor-panic", &format!("constructing {} panicked: {}", s.key(), panic_text(&*e)));
                simrt::finish()
            }
        };
        st.constructs += 1;
        if s.deg >= 1000 {
            st.p_degree_ge_1000 += 1;
        } else if s.deg >= 100 {
            st.p_degree_ge_100 += 1;
        }
        ctx.rules.push(r);
    }
    let before: Vec<Vec<u64>> = ctx.rules.iter().map(|r| r.bits()).collect();
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    let clients: &'static Vec<Client> = Box::leak(Box::new(c.clients.clone()));

    let outside: Vec<usize> = (0..clients.len()).filter(|&i| !clients[i].inside).collect();
    let inside = |second: bool| -> Vec<usize> {
        (0..clients.len()).filter(|&i| clients[i].inside && clients[i].second == second).collect()
    };
    let mut hs = vec![];
    for &i in &outside[outside.len().min(1)..] {
        hs.push(std::thread::spawn(move || client(ctx, &clients[i])));
    }
    for second in [false, true] {
        let list = inside(second);
        if !list.is_empty() {
            st.p_from_inside_pool += 1;
            let entry = c.entry;
            hs.push(std::thread::spawn(move || run_inside(ctx, clients, second, entry, &list)));
        }
    }
    if let Some(&i) = outside.first() {
        client(ctx, &clients[i]);
    }
    for h in hs {
        if let Err(e) = h.join() {
            fail("panic", &format!("client thread panicked: {}", panic_text(&*e)));
        }
    }
    for (i, r) in ctx.rules.iter().enumerate() {
        if r.bits() != before[i] {
            fail("rule-changed", &format!("rule {} changed while it was only read", c.rules[i].key()));
        }
    }
    // let whatever is still running (a library that left work behind) go on until nothing can
    simrt::sleep_ns(1_000_000_000_000);
}

#[cfg(feature = "full")]
fn run_inside(ctx: &'static Ctx, clients: &'static [Client], second: bool, entry: u8, inside: &[usize]) {
    fn join(ctx: &'static Ctx, clients: &'static [Client], list: &[usize]) {
        match list {
            [] => (),
            [i] => client(ctx, &clients[*i]),
            _ => {
                let (l, r) = list.split_at(list.len() / 2);
                rayon::join(|| join(ctx, clients, l), || join(ctx, clients, r));
            }
        }
    }
    ctx.install(second, || match entry {
        1 => join(ctx, clients, inside),
        2 => {
            rayon::broadcast(|_| client(ctx, &clients[inside[0]]));
            join(ctx, clients, &inside[1..]);
        }
        _ => rayon::scope(|s| {
            for &i in inside {
                s.spawn(move |_| client(ctx, &clients[i]));
            }
        }),
    });
}
#[cfg(not(feature = "full"))]
fn run_inside(ctx: &'static Ctx, clients: &'static [Client], _: bool, _: u8, inside: &[usize]) {
    for &i in inside {
        client(ctx, &clients[i]);
    }
}

fn client(ctx: &'static Ctx, c: &'static Client) {
    for op in &c.ops {
        shm::stats().ops += 1;
        match op {
            Op::Integ(g) => {
                integ(ctx, g, c.second);
            }
            Op::Build(s) => build(ctx, s, c.second),
            Op::Busy(ns) => busy(ctx, *ns, c.second),
            Op::Sleep(ns) => simrt::sleep_ns(*ns),
            Op::Huge { kind, deg, par, a, b, vseed, stop } => huge(ctx, *kind, *deg, *par, (*a, *b), *vseed, *stop, c.second),
        }
        simrt::event(0x0b5);
    }
}

#[cfg(feature = "full")]
fn busy(ctx: &'static Ctx, ns: u64, second: bool) {
    shm::stats().p_busy_pool += 1;
    let f = move || simrt::sleep_ns(ns);
    let pool = if second && ctx.pool2.is_some() { &ctx.pool2 } else { &ctx.pool };
    match pool {
        Some(p) => p.spawn(f),
        None => rayon::spawn(f),
    }
}
#[cfg(not(feature = "full"))]
fn busy(_: &'static Ctx, ns: u64, _: bool) {
    simrt::sleep_ns(ns)
}

fn huge(ctx: &'static Ctx, kind: Kind, deg: u64, par: bool, (a, b): (f64, f64), vseed: u64, stop: u64, second: bool) {
    let rule = AnyRule::build(&RuleSpec { kind, deg, alpha: 0.0, beta: 0.0, ctor: Ctor::New });
    let m: &'static Huge = Box::leak(Box::new(Huge::new(kind, deg, a, b, vseed, stop, par)));
    let f = |x: f64| m.eval(x);
    let r = attempt(|| if par { ctx.install(second, || rule.par_integrate(a, b, f)) } else { rule.integrate(a, b, f) });
    m.close();
    let _g = simrt::no_preempt();
    let what = || format!("{} of {} over [{a:e}, {b:e}]", if par { "par_integrate" } else { "integrate" }, rule_name(&rule));
    match r {
        Err(e) if stop > 0 && e.is::<HugeStop>() => {
            if let Err(e) = m.check_counts() {
                fail("count", &format!("{}, cut short by a panic: {e}", what()));
            }
        }
        Err(e) if stop > 0 => fail("panic-foreign", &format!("{} unwound with a panic its integrand did not raise: {}", what(), panic_text(&*e))),
        Ok(v) if stop > 0 => fail("panic-lost", &format!("{} returned {v:e} although its integrand panicked", what())),
        Err(e) => fail("panic", &format!("{} panicked although its integrand did not: {}", what(), panic_text(&*e))),
        Ok(v) => {
            simrt::event(v.to_bits());
            if let Err(e) = m.check_counts() {
                fail("count", &format!("{}: {e}", what()));
            }
            if let Err(e) = m.check_sum(v) {
                fail("sum", &format!("{}: {e}", what()));
            }
        }
    }
}

fn build(ctx: &'static Ctx, s: &RuleSpec, second: bool) {
    shm::stats().constructs += 1;
    match attempt(|| ctx.install(second, || AnyRule::build(s))) {
        Ok(r) => {
            let want = match look(ctx.refs, &ref_key(s)) {
                Some(w) => w,
                None => simrt::harness_error("missing reference"),
            };
            let got = r.bits();
            if got != *want {
                fail("ctor", &format!("{} differs from the rule built alone: {}", s.key(), first_diff(&got, want)));
            }
        }
        Err(e) => fail("ctor-panic", &format!("constructing {} panicked: {}", s.key(), panic_text(&*e))),
    }
}

pub fn first_diff(got: &[u64], want: &[u64]) -> String {
    if got.len() != want.len() {
        return format!("{} values instead of {}", got.len(), want.len());
    }
    for i in 0..got.len() {
        if got[i] != want[i] {
            if i < 4 {
                return format!("header {i}: {} instead of {}", got[i], want[i]);
            }
            return format!(
                "{} {}: {:e} instead of {:e}",
                if i % 2 == 0 { "node" } else { "weight" },
                (i - 4) / 2,
                f64::from_bits(got[i]),
                f64::from_bits(want[i])
            );
        }
    }
    "equal".into()
}

/// Sequentially constructed in a process of its own, whatever constructor the run used.
pub fn ref_key(s: &RuleSpec) -> String {
    let c = match s.ctor {
        Ctor::ParNew => Ctor::New,
        c => c,
    };
    s.with_ctor(c).key()
}

pub fn point_param(c: usize, n: usize) -> f64 {
    (2 * c + 1) as f64 / n as f64 - 1.0
}

fn integ(ctx: &'static Ctx, g: &'static Integ, second: bool) {
    let rule = &ctx.rules[g.rule];
    let table = rule.table(g.a, g.b);
    let n = table.len();
    let values = table.values(g.values, g.vseed);
    let nest = g.nest.as_deref();
    let probe: &'static Probe = Box::leak(Box::new(Probe::new(ctx.id(), table, values, &g.faults).with_calls(nest.is_some())));
    let drops: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let tok = Tok(drops);
    probe.open();
    let done = {
        let f = move |x: f64| {
            let _keep = &tok;
            match nest {
                None => probe.eval(x),
                Some(ns) => probe.eval_with(x, |c, v| v * nested(ctx, ns, probe, c, n)),
            }
        };
        let r = attempt(|| if g.par { ctx.install(second, || rule.par_integrate(g.a, g.b, f)) } else { rule.integrate(g.a, g.b, f) });
        match r {
            Ok(v) => Done::Value(v),
            Err(e) => Done::Panicked(e),
        }
    };
    probe.close();
    let dropped = drops.load(Relaxed);
    let _g = simrt::no_preempt();
    let what = || {
        format!(
            "{} of {} over [{:e}, {:e}]",
            if g.par { "par_integrate" } else { "integrate" },
            rule_name(rule),
            g.a,
            g.b
        )
    };
    if dropped != 1 {
        fail("drop", &format!("{}: the integrand's captures were dropped {dropped} times by the time the call was over", what()));
    }
    match done {
        Done::Panicked(e) => {
            if probe.thrown() == 0 {
                fail("panic", &format!("{} panicked although its integrand did not: {}", what(), panic_text(&*e)));
            } else if !probe.owns(&*e) {
                fail("panic-foreign", &format!("{} unwound with a panic its integrand did not raise: {}", what(), panic_text(&*e)));
            }
            if let Err(m) = probe.check_counts(false) {
                fail("count", &format!("{}: {m}", what()));
            }
        }
        Done::Value(v) => {
            simrt::event(v.to_bits());
            if probe.thrown() > 0 {
                fail("panic-lost", &format!("{}: the integrand panicked {} times but the call returned {v:e}", what(), probe.thrown()));
                return;
            }
            if let Err(m) = probe.check_counts(true) {
                fail(if nest.is_some() { "nested-count" } else { "count" }, &format!("{}: {m}", what()));
            }
            if probe.saw_nonfinite()
                || probe.nested_nan()
                || probe.nested_wild()
                || g.faults.iter().any(|f| matches!(f.what, What::Nan | What::Inf | What::NegInf))
            {
                if g.a != g.b || rule.kind().infinite() {
                    if let Err(m) = probe.check_nonfinite(v) {
                        fail("nonfinite", &format!("{}: {m}", what()));
                    }
                }
            } else if let Some(ns) = nest {
                let (want, bound) = expect_outer(ctx, &probe.table, &probe.values, ns);
                if (v - want).abs() > bound {
                    fail("nested", &format!("{}: nested result {v:e}, expected {want:e} (rounding allows {bound:e})", what()));
                }
            } else if g.values == Values::Wild {
                // no value is claimed
            } else if let Err(m) = probe.check_sum(v) {
                fail("sum", &format!("{}: {m}", what()));
            }
        }
    }
}

pub fn rule_name(r: &AnyRule) -> String {
    let (a, b) = r.params();
    match r.kind() {
        Kind::Jac => format!("Jac({}, {a}, {b})", r.degree()),
        Kind::Lag => format!("Lag({}, {a})", r.degree()),
        k => format!("{k:?}({})", r.degree()),
    }
}

/// The inner integral for one outer point (of `n` outer points the `c`-th); checks itself and returns
/// what the library returned, or passes its panic on.
fn nested(ctx: &'static Ctx, ns: &'static Nest, outer: &Probe, c: usize, n: usize) -> f64 {
    shm::stats().nested_evals += 1;
    let t = point_param(c, n);
    let made;
    let mut rule = &ctx.rules[ns.rule];
    if ns.fresh > 0 {
        let mut s = ctx.specs[ns.rule];
        if ns.fresh == 2 && s.kind.has_par_new() {
            s.ctor = Ctor::ParNew;
        }
        shm::stats().constructs += 1;
        match attempt(|| ctx.across(ns.across, || AnyRule::build(&s))) {
            Ok(r) => {
                let (got, want) = (r.bits(), rule.bits());
                if got != want {
                    fail("ctor", &format!("{} constructed in an integrand differs: {}", s.key(), first_diff(&got, &want)));
                }
                made = r;
                rule = &made;
            }
            Err(e) => fail("ctor-panic", &format!("constructing {} in an integrand panicked: {}", s.key(), panic_text(&*e))),
        }
    }
    let (a, b) = (ns.a + ns.da * t, ns.b + ns.db * t);
    let table = rule.table(a, b);
    let m = table.len();
    let values = table.values(Values::Uniform, ns.vseed);
    let faults: &[EvalFault] = if ns.on % n as u64 == c as u64 { &ns.faults } else { &[] };
    let probe = Probe::new(ctx.id(), table, values, faults).inside(outer).with_calls(ns.nest.is_some());
    let drops = AtomicU32::new(0);
    probe.open();
    let inner = ns.nest.as_deref();
    let done = {
        let tok = Tok(&drops);
        let p = &probe;
        let f = move |x: f64| {
            let _keep = &tok;
            match inner {
                None => p.eval(x),
                Some(i) => p.eval_with(x, |d, v| v * nested(ctx, i, p, d, m)),
            }
        };
        attempt(|| ctx.across(ns.across, || if ns.par { rule.par_integrate(a, b, f) } else { rule.integrate(a, b, f) }))
    };
    probe.close();
    let guard = simrt::no_preempt();
    let what = || format!("nested {} of {} over [{a:e}, {b:e}]", if ns.par { "par_integrate" } else { "integrate" }, rule_name(rule));
    let dropped = drops.load(Relaxed);
    if dropped != 1 {
        fail("drop", &format!("{}: the integrand's captures were dropped {dropped} times by the time the call was over", what()));
    }
    let v = match done {
        Err(e) => {
            if probe.thrown() == 0 {
                fail("panic", &format!("{} panicked although its integrand did not: {}", what(), panic_text(&*e)));
            } else if !probe.owns(&*e) {
                fail("panic-foreign", &format!("{} unwound with a panic its integrand did not raise: {}", what(), panic_text(&*e)));
            }
            if let Err(m) = probe.check_counts(false) {
                fail("nested-count", &format!("{}: {m}", what()));
            }
            if ns.contain {
                shm::stats().p_panic_contained += 1;
                probe.contained();
                drop(e);
                return 0.0;
            }
            drop(guard);
            std::panic::resume_unwind(e)
        }
        Ok(v) => v,
    };
    if probe.thrown() > 0 {
        fail("panic-lost", &format!("{}: the integrand panicked {} times but the call returned {v:e}", what(), probe.thrown()));
    }
    if let Err(m) = probe.check_counts(true) {
        fail("nested-count", &format!("{}: {m}", what()));
    }
    if probe.saw_nonfinite() || probe.nested_nan() || probe.nested_wild() {
        let judged = a != b || rule.kind().infinite();
        match probe.check_nonfinite(v) {
            Err(m) if judged => fail("nonfinite", &format!("{}: {m}", what())),
            _ => {}
        }
        let nan = judged && probe.must_be_nan();
        probe.pass_on(nan, !nan);
    } else if inner.is_none() {
        if let Err(m) = probe.check_sum(v) {
            fail("nested", &format!("{}: {m}", what()));
        }
    }
    v
}

fn expect_outer(ctx: &Ctx, table: &Table, values: &[f64], ns: &Nest) -> (f64, f64) {
    let n = table.len();
    let mut v = Vec::with_capacity(n);
    let mut extra = 0.0;
    for c in 0..n {
        let t = point_param(c, n);
        let rule = &ctx.rules[ns.rule];
        let (a, b) = (ns.a + ns.da * t, ns.b + ns.db * t);
        if ns.contain && ns.panics(c, n) {
            v.push(0.0);
            continue;
        }
        let tb = rule.table(a, b);
        let vals = tb.values(Values::Uniform, ns.vseed);
        let (e, bd) = match &ns.nest {
            None => tb.expect(&vals),
            Some(i) => expect_outer(ctx, &tb, &vals, i),
        };
        v.push(values[c] * e);
        extra += table.wabs[c] * values[c].abs() * (bd + 4.0 * f64::EPSILON * e.abs());
    }
    let (s, b) = table.expect(&v);
    (s, b + 2.0 * extra)
}
