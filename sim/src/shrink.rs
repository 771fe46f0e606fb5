//! Makes a failing plan and its schedule smaller while the same class of violation remains.
use crate::exec::{self, RunResult};
use crate::refs_for;
use model::*;
use simrt::shm::Dec;
use simrt::Rng;
use std::time::Instant;

pub struct Found {
    pub plan: Plan,
    pub class: String,
    pub msg: String,
    pub hash: u64,
    /// None: the plan's own seed drives the schedule
    pub trace: Option<Vec<Dec>>,
}

fn class_of(r: &RunResult) -> Option<&str> {
    match &r.outcome {
        Outcome::Violation { class, .. } => Some(class),
        _ => None,
    }
}

pub struct Shrinker {
    pub cache: Refs,
    pub deadline: Instant,
    pub runs: u64,
}

impl Shrinker {
    fn run(&mut self, p: &Plan, t: Option<Vec<Dec>>) -> RunResult {
        self.runs += 1;
        refs_for(p, &mut self.cache);
        exec::run(p, &self.cache, t)
    }
    fn late(&self) -> bool {
        Instant::now() > self.deadline
    }
    /// The plan fails with `class` under its own schedule seed or one of a few others.
    fn fails(&mut self, p: &Plan, class: &str, tries: u64) -> Option<Plan> {
        let mut r = Rng::new(p.sched.seed ^ 0x7111);
        for k in 0..tries {
            let mut q = p.clone();
            if k > 0 {
                q.sched.seed = r.u64();
            }
            if class_of(&self.run(&q, None)) == Some(class) {
                return Some(q);
            }
            if self.late() {
                return None;
            }
        }
        None
    }

    /// Whether the failure is still there without the faults this property is about.
    pub fn without_faults(&mut self, p: &Plan) -> bool {
        let mut q = p.clone();
        strip_faults(&mut q);
        if q == *p {
            return false;
        }
        let mut r = Rng::new(p.sched.seed ^ 0x3333);
        for k in 0..40 {
            if k > 0 {
                q.sched.seed = r.u64();
            }
            if class_of(&self.run(&q, None)).is_some() {
                return true;
            }
        }
        false
    }

    pub fn shrink(&mut self, first: &Plan, class: &str) -> Option<Found> {
        let mut best = self.fails(first, class, 1)?;
        let tries = 5;
        // the calmest schedule that still fails
        let calm = SchedParams { seed: best.sched.seed, ..Default::default() };
        let coarse = SchedParams { seed: best.sched.seed, coarse_p: 8000, ..Default::default() };
        for s in [calm, coarse] {
            let mut q = best.clone();
            q.sched = s;
            if let Some(q) = self.fails(&q, class, 3) {
                best = q;
                break;
            }
        }
        'outer: loop {
            if self.late() {
                break;
            }
            for cand in candidates(&best) {
                if self.late() {
                    break 'outer;
                }
                if let Some(q) = self.fails(&cand, class, tries) {
                    best = q;
                    continue 'outer;
                }
            }
            break;
        }
        // the schedule
        let base = self.run(&best, None);
        let mut found = Found {
            class: class.into(),
            msg: match &base.outcome {
                Outcome::Violation { msg, .. } => msg.clone(),
                _ => return None,
            },
            hash: base.hash,
            plan: best,
            trace: None,
        };
        if !base.overflow {
            let full = self.run(&found.plan, Some(base.trace.clone()));
            if class_of(&full) == Some(class) {
                let mut cur = base.trace.clone();
                let mut chunk = cur.len().div_ceil(2).max(1);
                while !self.late() && !cur.is_empty() {
                    let mut i = 0;
                    let mut any = false;
                    while i < cur.len() && !self.late() {
                        let mut t = cur.clone();
                        t.drain(i..(i + chunk).min(cur.len()));
                        let r = self.run(&found.plan, Some(t.clone()));
                        if class_of(&r) == Some(class) {
                            cur = t;
                            any = true;
                        } else {
                            i += chunk;
                        }
                    }
                    if chunk == 1 {
                        if !any {
                            break;
                        }
                    } else {
                        chunk = (chunk / 2).max(1);
                    }
                    if cur.len() > 600 && chunk < cur.len() / 64 {
                        break;
                    }
                }
                let r = self.run(&found.plan, Some(cur.clone()));
                if class_of(&r) == Some(class) {
                    if let Outcome::Violation { msg, .. } = &r.outcome {
                        found.msg = msg.clone();
                    }
                    found.hash = r.hash;
                    found.trace = Some(cur);
                }
            }
        }
        Some(found)
    }
}

fn strip_faults(p: &mut Plan) {
    if let Body::Conc(c) = &mut p.body {
        for cl in &mut c.clients {
            for op in &mut cl.ops {
                if let Op::Integ(g) = op {
                    g.faults.retain(|f| !matches!(f.what, What::Panic(_)));
                    let mut n = &mut g.nest;
                    while let Some(x) = n {
                        x.faults.retain(|f| !matches!(f.what, What::Panic(_)));
                        n = &mut x.nest;
                    }
                }
            }
        }
    }
}

fn less(d: u64) -> Vec<u64> {
    let mut v = vec![];
    for x in [1, 2, 3, d / 4, d / 2, d.saturating_sub(d / 8), d.saturating_sub(1)] {
        if x >= 1 && x < d && !v.contains(&x) {
            v.push(x);
        }
    }
    v
}

fn smaller_rules(rules: &[RuleSpec]) -> Vec<Vec<RuleSpec>> {
    let mut out = vec![];
    for i in 0..rules.len() {
        for d in less(rules[i].deg) {
            let mut v = rules.to_vec();
            v[i].deg = d;
            out.push(v);
        }
        if rules[i].ctor != Ctor::New {
            let mut v = rules.to_vec();
            v[i].ctor = Ctor::New;
            out.push(v);
        }
    }
    out
}

fn smaller_rule(r: &RuleSpec) -> Vec<RuleSpec> {
    smaller_rules(std::slice::from_ref(r)).into_iter().map(|v| v[0]).collect()
}

/// Vectors with parts removed: halves first, then single elements.
fn fewer<T: Clone>(v: &[T], min: usize) -> Vec<Vec<T>> {
    let mut out = vec![];
    let n = v.len();
    if n <= min {
        return out;
    }
    if n >= 4 {
        for (a, b) in [(0, n / 2), (n / 2, n)] {
            if n - (b - a) >= min {
                let mut w = v.to_vec();
                w.drain(a..b);
                out.push(w);
            }
        }
    }
    if n >= 16 {
        let q = n / 8;
        for k in 0..8 {
            let mut w = v.to_vec();
            w.drain(k * q..(k + 1) * q);
            out.push(w);
        }
    }
    if n <= 64 {
        for i in 0..n {
            let mut w = v.to_vec();
            w.remove(i);
            out.push(w);
        }
    }
    out
}

fn candidates(p: &Plan) -> Vec<Plan> {
    let mut out = vec![];
    let mut add = |b: Body| {
        let mut q = p.clone();
        q.body = b;
        if q.body != p.body {
            out.push(q);
        }
    };
    match &p.body {
        Body::Conc(c) => {
            for v in fewer(&c.clients, 1) {
                add(Body::Conc(Conc { clients: v, ..c.clone() }));
            }
            for i in 0..c.clients.len() {
                for ops in fewer(&c.clients[i].ops, 0) {
                    let mut d = c.clone();
                    d.clients[i].ops = ops;
                    add(Body::Conc(d));
                }
                if c.clients[i].inside {
                    let mut d = c.clone();
                    d.clients[i].inside = false;
                    add(Body::Conc(d));
                }
            }
            for v in smaller_rules(&c.rules) {
                add(Body::Conc(Conc { rules: v, ..c.clone() }));
            }
            for n in less(c.pool as u64) {
                add(Body::Conc(Conc { pool: n as u32, ..c.clone() }));
            }
            if c.global {
                add(Body::Conc(Conc { global: false, ..c.clone() }));
            }
            if c.entry != 0 {
                add(Body::Conc(Conc { entry: 0, ..c.clone() }));
            }
            for n in less(c.pool2 as u64) {
                add(Body::Conc(Conc { pool2: n as u32, ..c.clone() }));
            }
            if c.pool2 > 0 {
                add(Body::Conc(Conc { pool2: 0, ..c.clone() }));
            }
            for i in 0..c.clients.len() {
                if c.clients[i].second {
                    let mut d = c.clone();
                    d.clients[i].second = false;
                    add(Body::Conc(d));
                }
            }
            for i in 0..c.clients.len() {
                for j in 0..c.clients[i].ops.len() {
                    let mut edit = |op: Op| {
                        let mut d = c.clone();
                        d.clients[i].ops[j] = op;
                        add(Body::Conc(d));
                    };
                    match &c.clients[i].ops[j] {
                        Op::Integ(g) => {
                            if g.nest.is_some() {
                                edit(Op::Integ(Integ { nest: None, ..g.clone() }));
                            }
                            if let Some(n) = &g.nest {
                                if let Some(m) = &n.nest {
                                    edit(Op::Integ(Integ { nest: Some(m.clone()), ..g.clone() }));
                                }
                                if n.across != 0 {
                                    edit(Op::Integ(Integ { nest: Some(Box::new(Nest { across: 0, ..(**n).clone() })), ..g.clone() }));
                                }
                                if n.fresh != 0 {
                                    edit(Op::Integ(Integ { nest: Some(Box::new(Nest { fresh: 0, ..(**n).clone() })), ..g.clone() }));
                                }
                                for f in fewer(&n.faults, 0) {
                                    edit(Op::Integ(Integ { nest: Some(Box::new(Nest { faults: f, ..(**n).clone() })), ..g.clone() }));
                                }
                                let flat = Nest { da: 0.0, db: 0.0, a: 0.0, b: 1.0, ..(**n).clone() };
                                edit(Op::Integ(Integ { nest: Some(Box::new(flat)), ..g.clone() }));
                            }
                            for f in fewer(&g.faults, 0) {
                                edit(Op::Integ(Integ { faults: f, ..g.clone() }));
                            }
                            for (a, b) in [(-1.0, 1.0), (0.0, 1.0), (0.0, 2.0)] {
                                if (g.a, g.b) == (-1.0, 1.0) {
                                    break;
                                }
                                edit(Op::Integ(Integ { a, b, ..g.clone() }));
                            }
                            if g.values != Values::Wild && g.values != Values::One && g.values != Values::Uniform {
                                edit(Op::Integ(Integ { values: Values::Uniform, ..g.clone() }));
                            }
                        }
                        Op::Build(s) => {
                            for r in smaller_rule(s) {
                                if r.ctor == s.ctor {
                                    edit(Op::Build(r));
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        Body::Hist(h) => {
            for v in fewer(&h.clients, 1) {
                add(Body::Hist(Hist { clients: v, ..h.clone() }));
            }
            for i in 0..h.clients.len() {
                for v in fewer(&h.clients[i], 0) {
                    let mut d = h.clone();
                    d.clients[i] = v;
                    add(Body::Hist(d));
                }
            }
            if h.repeat > 1 {
                for n in less(h.repeat as u64) {
                    add(Body::Hist(Hist { repeat: n as u32, ..h.clone() }));
                }
            }
        }
        Body::Store(s) => {
            for v in fewer(&s.ops, 1) {
                add(Body::Store(Store { ops: v, ..s.clone() }));
            }
            for i in 0..s.ops.len() {
                if let SOp::Save { slot, rule, param, fmt, io } = &s.ops[i] {
                    for r in smaller_rule(rule) {
                        let mut d = s.clone();
                        d.ops[i] = SOp::Save { slot: *slot, rule: r, param: *param, fmt: *fmt, io: *io };
                        add(Body::Store(d));
                    }
                    for io2 in calmer_io(io) {
                        let mut d = s.clone();
                        d.ops[i] = SOp::Save { slot: *slot, rule: *rule, param: *param, fmt: *fmt, io: io2 };
                        add(Body::Store(d));
                    }
                }
                if let SOp::Load { slot, io } = &s.ops[i] {
                    for io2 in calmer_io(io) {
                        let mut d = s.clone();
                        d.ops[i] = SOp::Load { slot: *slot, io: io2 };
                        add(Body::Store(d));
                    }
                }
            }
        }
        Body::Damaged(d) => {
            if d.sweep > 1 {
                let h = d.sweep / 2;
                add(Body::Damaged(Damaged { sweep: h, ..d.clone() }));
                let mut e = Damaged { sweep: d.sweep - h, ..d.clone() };
                if let Some(l) = e.damage.last_mut() {
                    *l = l.clone().moved(h as u64);
                }
                add(Body::Damaged(e));
            }
            for v in fewer(&d.damage, 0) {
                add(Body::Damaged(Damaged { damage: v, ..d.clone() }));
            }
            for r in smaller_rule(&d.rule) {
                add(Body::Damaged(Damaged { rule: r, ..d.clone() }));
            }
            for r in smaller_rule(&d.other) {
                add(Body::Damaged(Damaged { other: r, ..d.clone() }));
            }
        }
        Body::Oom(o) => {
            for r in smaller_rule(&o.rule) {
                add(Body::Oom(Oom { rule: r, ..o.clone() }));
            }
            if o.len > 1 {
                add(Body::Oom(Oom { len: 1, ..o.clone() }));
            }
            for k in less(o.at) {
                add(Body::Oom(Oom { at: k, ..o.clone() }));
            }
        }
        Body::Leak(l) => {
            for v in fewer(&l.cycle, 1) {
                add(Body::Leak(Leak { cycle: v, ..l.clone() }));
            }
            for v in smaller_rules(&l.rules) {
                add(Body::Leak(Leak { rules: v, ..l.clone() }));
            }
        }
        Body::Iter(t) => {
            for v in fewer(&t.workers, 1) {
                add(Body::Iter(Iter { workers: v, ..t.clone() }));
            }
            for i in 0..t.workers.len() {
                for v in fewer(&t.workers[i], 0) {
                    let mut d = t.clone();
                    d.workers[i] = v;
                    add(Body::Iter(d));
                }
            }
            for r in smaller_rule(&t.rule) {
                add(Body::Iter(Iter { rule: r, ..t.clone() }));
            }
        }
    }
    out
}

fn calmer_io(io: &IoFaults) -> Vec<IoFaults> {
    let mut v = vec![];
    let mut push = |f: IoFaults| {
        if f != *io {
            v.push(f)
        }
    };
    push(IoFaults { chunk: 0, ..*io });
    push(IoFaults { eintr_pct: 0, ..*io });
    push(IoFaults { fail_at: 0, ..*io });
    push(IoFaults { codec_at: 0, ..*io });
    push(IoFaults { style: 0, ..*io });
    v
}
