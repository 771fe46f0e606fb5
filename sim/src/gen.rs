//! Seed -> plan.
use model::*;
use simrt::Rng;

pub fn plan(check: &str, thorough: bool, seed: u64, index: u64) -> Plan {
    let salt = check.bytes().fold(0u64, |h, b| simrt::rng::mix(h ^ b as u64));
    let mut r = Rng::new(simrt::rng::mix(seed ^ salt).wrapping_add(index.wrapping_mul(0x9e37_79b9_7f4a_7c15)));
    let g = &mut G { r: &mut r, i: index, thorough };
    let (flavour, body) = match check {
        "C01" => ("full", g.conc(Profile::Sum)),
        "C02" => ("full", g.conc(Profile::Count)),
        "C03" => ("full", g.conc_build()),
        "C04" => ("full", g.conc(Profile::Panic)),
        "C06" => ("full", g.conc_nested()),
        "C07" => ("full", g.conc_progress()),
        "C10" => ("full", g.conc(Profile::NonFinite)),
        "C05" => (g.flavour(), g.hist()),
        "C08" => (g.flavour(), g.store()),
        "C09" => (g.flavour(), g.damaged()),
        "C11" => (g.flavour(), g.oom()),
        "C12" if index % 3 == 0 => ("full", g.conc(Profile::Panic)),
        "C12" => (g.flavour(), g.leak()),
        "C13" => (g.flavour(), g.iter()),
        _ => panic!("unknown check {check}"),
    };
    // the build without the standard library's arithmetic has no parallel calls, but the same promises otherwise
    let (flavour, body) = match body {
        Body::Conc(c) if matches!(check, "C02" | "C04" | "C06" | "C07" | "C10") && index % 7 == 6 => ("libm", Body::Conc(sequential(c))),
        b => (flavour, b),
    };
    let progress = check == "C07";
    let mut sched = g.sched(progress);
    if matches!(&body, Body::Conc(c) if c.rules.iter().any(|r| r.deg > 30_000) || c.clients.iter().flat_map(|c| &c.ops).any(|o| matches!(o, Op::Huge { stop: 0, .. }))) {
        // a switch at every other evaluation would take these forever
        sched.coarse_p /= 200;
        sched.hot_p /= 50;
        sched.conf_p /= 50;
        sched.shared_p = 0;
        if sched.fine_mean > 0 {
            sched.fine_mean = sched.fine_mean.max(20_000);
        }
    }
    Plan { check: check.into(), flavour: flavour.into(), index, sched, body }
}

fn sequential(mut c: Conc) -> Conc {
    fn calm(s: &mut RuleSpec) {
        if s.ctor == Ctor::ParNew {
            s.ctor = Ctor::New;
        }
    }
    fn flat(n: &mut Option<Box<Nest>>) {
        if let Some(n) = n {
            n.par = false;
            n.fresh = n.fresh.min(1);
            flat(&mut n.nest);
        }
    }
    c.rules.iter_mut().for_each(calm);
    for o in c.clients.iter_mut().flat_map(|c| &mut c.ops) {
        match o {
            Op::Build(s) => calm(s),
            Op::Huge { par, .. } => *par = false,
            Op::Integ(g) => {
                g.par = false;
                flat(&mut g.nest);
            }
            _ => {}
        }
    }
    c
}

#[derive(Clone, Copy, PartialEq)]
enum Profile {
    Sum,
    Count,
    Panic,
    NonFinite,
}

struct G<'a> {
    r: &'a mut Rng,
    i: u64,
    thorough: bool,
}

impl G<'_> {
    fn pct(&mut self, p: u64) -> bool {
        self.r.chance(p, 100)
    }

    fn sched(&mut self, progress: bool) -> SchedParams {
        let mut s = SchedParams { seed: self.r.u64(), ..Default::default() };
        s.hot_p = *self.r.pick(&[0, 2000, 16000, 40000]);
        s.cpus = *self.r.pick(&[4, 4, 4, 1, 2, 3, 6, 8]);
        s.conf_p = *self.r.pick(&[0, 0, 3000, 20000]);
        match self.r.below(10) {
            0 | 1 => s.coarse_p = *self.r.pick(&[1000, 8000, 30000]),
            2 | 3 => {
                s.fine_mean = *self.r.pick(&[40, 200, 1000, 6000, 50000]);
                s.coarse_p = *self.r.pick(&[0, 4000]);
            }
            4 | 5 => {
                s.shared_p = *self.r.pick(&[40, 300, 2000]);
                s.coarse_p = *self.r.pick(&[0, 2000]);
            }
            6 | 7 => {
                s.pct = true;
                s.fine_mean = *self.r.pick(&[1000, 10_000, 100_000]);
            }
            8 => {
                s.coarse_p = 20000;
                s.fine_mean = 300;
                s.shared_p = 300;
            }
            _ => {}
        }
        if self.pct(if progress { 70 } else { 25 }) {
            s.stall_p = *self.r.pick(&[60, 600, 4000]);
            s.stall_len = *self.r.pick(&[500, 20_000, 1_000_000, 30_000_000]);
        }
        if self.pct(if progress { 50 } else { 20 }) {
            s.spurious_p = *self.r.pick(&[1000, 12000]);
        }
        s
    }

    /// One run in six uses the build without the standard library's arithmetic.
    fn flavour(&self) -> &'static str {
        if self.i % 6 == 5 {
            "libm"
        } else {
            "full"
        }
    }

    /// Small rules of every kind; the point is not their size.
    fn small_rule(&mut self) -> RuleSpec {
        let k = (self.i / 6) % 9;
        let kind = if self.pct(80) { KINDS[k as usize] } else { *self.r.pick(&KINDS) };
        let mut s = self.rule_of(kind, 400);
        if self.pct(55) {
            s.deg = 1 + (self.i / 54) % 14;
        } else if kind.is_gw() {
            s.deg = s.deg.min(40);
        }
        s
    }

    fn iter(&mut self) -> Body {
        let mut rule = self.small_rule();
        if rule.kind.is_nc() && self.pct(12) {
            rule.deg = *self.r.pick(&[4_294_967_295, 2_147_483_648, 2_147_483_647, 16_777_217, 65_536, 65_537, 1_000_000]);
        } else if rule.ctor == Ctor::New && !rule.kind.is_gw() && self.pct(10) {
            rule.deg = self.r.range(200, 3000);
        }
        let views = [View::Nodes, View::Weights, View::Iter, View::IntoIter, View::RefIntoIter];
        let view = views[((self.i / 9) % 5) as usize];
        let big = rule.deg > 3000;
        let skip = |r: &mut Rng, d: u64| match r.below(8) {
            0 => 0,
            1 => d.saturating_sub(1).min(3000),
            2 => d.min(3000),
            3 if !big => *r.pick(&[d + 1, d + 7, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, u64::MAX, u64::MAX - 1, i64::MAX as u64]),
            4 => r.below(d.min(3000) + 2),
            _ => r.below(6),
        };
        let calm = self.pct(35);
        let n = self.r.range(1, 3);
        let workers = (0..n)
            .map(|_| {
                let k = self.r.range(2, 18);
                (0..k)
                    .map(|_| {
                        let r = &mut *self.r;
                        match r.below(if calm { 7 } else { 26 }) {
                            0 | 1 => IOp::Next,
                            2 | 3 => IOp::Back,
                            4 => IOp::Nth(skip(r, rule.deg)),
                            5 => IOp::NthBack(skip(r, rule.deg)),
                            6 => *r.pick(&[IOp::Len, IOp::Hint, IOp::Slice]),
                            7 => IOp::CountClone,
                            8 => IOp::LastClone,
                            9 => IOp::CollectClone,
                            10 => IOp::RevClone,
                            11 => IOp::FoldClone,
                            12 => IOp::RFoldClone,
                            13 | 14 => IOp::StepClone(r.u64() >> 1),
                            15 => IOp::FindClone(r.u64() >> 1),
                            16 => IOp::FindShared(r.u64() >> 1),
                            17 => IOp::TakeShared(r.below(40)),
                            18 => IOp::Save,
                            19 => IOp::Resume,
                            20 => IOp::Crash,
                            21 => IOp::CrashIn(r.below(50)),
                            22 => IOp::Format,
                            23 => IOp::Slice,
                            _ => IOp::Fresh(*r.pick(&views), r.u64() >> 1),
                        }
                    })
                    .collect()
            })
            .collect();
        Body::Iter(Iter { rule, view, workers })
    }

    fn oom(&mut self) -> Body {
        let kind = KINDS[(self.i % 9) as usize];
        let q = self.i / 9;
        let (a, b) = *self.r.pick(&[(0.0, 1.0), (-2.0, 3.0), (1.0, -1.0)]);
        let vseed = self.r.below(2);
        let par = self.i % 6 != 5 && self.pct(40);
        let f = *self.r.pick(&FORMATS);
        let op = match q % 13 {
            0..=2 => OomOp::Build,
            3 => OomOp::Clone,
            4 => OomOp::Convert,
            5 => OomOp::IntoPairs,
            6 => OomOp::IntoIter,
            7 => OomOp::Iterate,
            8 => OomOp::Integrate { a, b, vseed, par },
            9 => OomOp::Save(f),
            10 => OomOp::Load(f),
            11 => OomOp::Debug,
            _ if kind.is_nc() => OomOp::Change { deg: *self.r.pick(&[1, 2, 3, 10, 100]), a, b, vseed },
            _ => OomOp::Build,
        };
        // few rules, so that every request of each is tried
        let deg = match self.r.below(8) {
            0 => 1,
            1 => 2,
            2 => *self.r.pick(&[3, 4, 5]),
            3 => *self.r.pick(&[10, 16, 17]),
            4 if !kind.is_gw() => *self.r.pick(&[64, 99, 101, 130, 500]),
            _ => *self.r.pick(&[2, 3, 6, 7, 12]),
        };
        let mut rule = RuleSpec { kind, deg, alpha: 0.0, beta: 0.0, ctor: Ctor::New };
        if kind == Kind::Jac || kind == Kind::Lag {
            rule.alpha = *self.r.pick(&[0.5, 1.0, -0.5, 0.25]);
        }
        if kind == Kind::Jac {
            rule.beta = *self.r.pick(&[0.5, 1.0, -0.5, 0.25]);
            if self.pct(30) {
                rule.alpha = *self.r.pick(&[0.0, 0.5, -0.5]);
                rule.beta = rule.alpha;
                rule.ctor = Ctor::From;
            }
        }
        if kind.has_par_new() && self.i % 6 != 5 && self.pct(15) {
            rule.ctor = Ctor::ParNew;
        }
        let len = *self.r.pick(&[1, 1, 2, u64::MAX, u64::MAX]);
        let at = if kind.is_nc() && self.pct(60) { 0 } else if self.pct(50) { self.r.below(12) } else { self.r.u64() >> 20 };
        let pool = *self.r.pick(&[1, 2, 3]);
        Body::Oom(Oom { rule, op, at, len, pool })
    }

    fn leak(&mut self) -> Body {
        let n = self.r.range(1, 3);
        let mut rules: Vec<RuleSpec> = (0..n)
            .map(|_| {
                let mut s = self.small_rule();
                if s.kind.is_gw() {
                    s.deg = s.deg.min(12);
                }
                s.deg = s.deg.min(150);
                if !s.kind.is_gw() && self.pct(4) {
                    s.deg = self.r.range(150, 3000);
                }
                s
            })
            .collect();
        let par = self.i % 6 != 5 && self.pct(35);
        if !par {
            for s in &mut rules {
                if s.ctor == Ctor::ParNew {
                    s.ctor = Ctor::New;
                }
            }
        }
        let (a, b) = *self.r.pick(&[(0.0, 1.0), (-2.0, 3.0), (1.0, -1.0)]);
        let k = self.r.range(1, 6);
        let cycle = (0..k)
            .map(|_| {
                let i = self.r.below(n) as usize;
                let f = *self.r.pick(&FORMATS);
                let d = rules[i].deg;
                let op = match self.r.below(16) {
                    0..=3 => {
                        let panic = if self.pct(60) { Some(self.r.below(d.min(40) + 1)) } else { None };
                        LeakOp::Integ { par: par && self.pct(60), a, b, vseed: self.r.below(4), panic }
                    }
                    4 | 5 => LeakOp::Build,
                    6 => LeakOp::Clone,
                    7 => LeakOp::Convert,
                    8 => LeakOp::IntoPairs,
                    9 | 10 => LeakOp::IntoIter(self.r.below(d.min(30) + 2)),
                    11 => LeakOp::Iter(self.r.below(d.min(30) + 2)),
                    12 => LeakOp::SaveLoad(f),
                    13 => LeakOp::BadLoad(f, *self.r.pick(&[0, 200, 500, 900, 980, 999])),
                    14 => LeakOp::Change(*self.r.pick(&[1, 2, 9, 40])),
                    _ => LeakOp::Debug,
                };
                (i, op)
            })
            .collect();
        let reps = if par { 48 } else { *self.r.pick(&[6, 8, 12, 30]) };
        Body::Leak(Leak { pool: *self.r.pick(&[1, 2, 3, 4]), rules, cycle, reps })
    }

    /// Rules that are easily taken for one another.
    fn lookalikes(&mut self) -> Vec<RuleSpec> {
        let kind = KINDS[(self.i / 2 % 9) as usize];
        let deg = match self.r.below(12) {
            0..=6 => self.r.range(1, 12),
            7 | 8 => self.r.range(12, 40),
            9 => *self.r.pick(&[99, 100, 101, 128, 255, 256, 257]),
            10 => *self.r.pick(&[63, 64, 65, 32, 33]),
            _ => 1 + self.i / 18 % 80,
        };
        let cut = |k: Kind, d: u64| if k.is_gw() { d.clamp(1, 40) } else { d.max(1) };
        let vals = [0.0, 0.5, -0.5, 1.0, 0.25, -0.25, 2.0, 0.5 + f64::EPSILON, 1e-9, 2.5, 3.0];
        let n = self.r.range(2, 4);
        let mut v = vec![];
        let (a, b) = (*self.r.pick(&vals), *self.r.pick(&vals));
        for k in 0..n {
            let kd = match self.r.below(6) {
                0 => *self.r.pick(&KINDS),
                1 => *self.r.pick(&[Kind::Leg, Kind::Jac, Kind::Ch1, Kind::Ch2]),
                _ => kind,
            };
            let d = match self.r.below(6) {
                0 if k > 0 => deg + 1,
                1 if k > 0 => deg.saturating_sub(1),
                2 if k > 0 => deg + *self.r.pick(&[8, 16, 32, 64]),
                3 if k > 0 => self.r.range(1, 12),
                _ => deg,
            };
            let mut s = RuleSpec { kind: kd, deg: cut(kd, d), alpha: 0.0, beta: 0.0, ctor: Ctor::New };
            if kd == Kind::Jac || kd == Kind::Lag {
                s.alpha = if self.pct(50) { a } else { *self.r.pick(&vals) };
            }
            if kd == Kind::Jac {
                s.beta = if self.pct(50) { b } else { *self.r.pick(&vals) };
                if k > 0 && self.pct(30) {
                    (s.alpha, s.beta) = (b, a);
                }
                if s.alpha == s.beta && [0.0, 0.5, -0.5].contains(&s.alpha) && self.pct(40) {
                    s.ctor = Ctor::From;
                }
            }
            if kd.is_nc() && self.pct(25) {
                s.ctor = Ctor::Changed(1 + self.r.below(9) as u32);
            }
            v.push(s);
        }
        v
    }

    fn hwhat(&mut self, rules: &[RuleSpec], n: u64) -> HWhat {
        const AB: [(f64, f64); 7] = [(0.0, 1.0), (-1.0, 1.0), (1.0, 0.0), (0.0, 0.0), (-2.0, 3.5), (0.0, 2.0), (1e6, 1e6 + 1.0)];
        let (a, b) = *self.r.pick(&AB);
        let vseed = self.r.below(3);
        match self.r.below(20) {
            0..=3 => HWhat::Build,
            4 => HWhat::Clone,
            5 => HWhat::Views,
            6 => HWhat::Debug,
            7 if self.pct(40) => HWhat::Json,
            7 => {
                let f = *self.r.pick(&FORMATS);
                HWhat::Stored(f, self.style())
            }
            8 => HWhat::BadLoad(*self.r.pick(&[100, 500, 900, 990])),
            9 => HWhat::Eq(*self.r.pick(rules)),
            10 => HWhat::Convert,
            11 => {
                let x = *self.r.pick(&[0.5, -0.5, 2.0, -1.0, f64::NAN, -0.75, 1e300, f64::INFINITY]);
                HWhat::Params(x.to_bits())
            }
            12 => HWhat::Walk(self.r.below(4)),
            13 if n <= 16 => HWhat::SelfNest { a, b, vseed },
            14 | 15 => HWhat::Integ { a, b, vseed, panic: Some(self.r.below(n.min(6))) },
            _ => HWhat::Integ { a, b, vseed, panic: None },
        }
    }

    fn hist(&mut self) -> Body {
        let rules = self.lookalikes();
        let ncs = [Kind::Mid, Kind::Trap, Kind::Simp];
        let own: Vec<(Kind, u32)> = (0..self.r.below(3)).map(|_| (*self.r.pick(&ncs), self.r.range(1, 20) as u32)).collect();
        let long = self.pct(3);
        let rules = if long { rules.into_iter().map(|r| RuleSpec { deg: r.deg.min(8), ..r }).collect() } else { rules };
        let clients = if long { 1 } else { *self.r.pick(&[1, 1, 2, 2, 3]) };
        let noisy = !long && self.pct(20);
        let swept = !long && self.pct(18);
        let clients = (0..clients)
            .map(|_| {
                let k = if long { self.r.range(1, 3) } else { self.r.range(2, 12) };
                (0..k)
                    .map(|_| {
                        if noisy && self.pct(20) {
                            let mut rule = *self.r.pick(&rules);
                            if rule.kind.has_par_new() {
                                rule.ctor = Ctor::ParNew;
                            }
                            let panic = if self.pct(40) { Some(self.r.below(5)) } else { None };
                            return HStep::Noise { rule, a: 0.0, b: 1.0, vseed: 0, panic };
                        }
                        if swept && self.pct(30) {
                            let kind = if self.pct(70) { rules[0].kind } else { *self.r.pick(&KINDS) };
                            let n = *self.r.pick(&[10, 20, 40, 70, 140, 300]);
                            return HStep::Sweep { kind, from: self.r.range(1, 30), n, spread: self.r.below(3) };
                        }
                        if !own.is_empty() && self.pct(25) {
                            let i = self.r.below(own.len() as u64) as usize;
                            if self.pct(50) {
                                return HStep::SetDegree(i, *self.r.pick(&[1, 2, 3, 5, 8, 16, 17, 40]));
                            }
                            let w = self.hwhat(&rules, 40);
                            return HStep::Own(i, w);
                        }
                        let rule = *self.r.pick(&rules);
                        let what = self.hwhat(&rules, rule.deg);
                        let shared = self.pct(50);
                        HStep::Op(HOp { rule, what, shared })
                    })
                    .collect()
            })
            .collect();
        let repeat = if long { *self.r.pick(&[20, 70, 140, 300]) } else { *self.r.pick(&[1, 1, 1, 2, 3]) };
        Body::Hist(Hist { pool: self.pool(), own, clients, repeat })
    }

    /// Rules worth storing: every kind, moderate size, parameters that are easy to tell apart.
    fn stored_rule(&mut self, fmt: Format) -> RuleSpec {
        let mut s = self.small_rule();
        let text = matches!(fmt, Format::Json | Format::Ron);
        if s.kind.is_nc() {
            if self.pct(30) {
                s.deg = *self.r.pick(&[4_294_967_295, 2_147_483_648, 65_535, 65_536, 300, 16_777_217, 127, 128, 255, 256]);
            }
        } else if !s.kind.is_gw() && self.pct(if text { 3 } else { 6 }) {
            s.deg = if text { self.r.range(50, 400) } else { *self.r.pick(&[500, 1000, 1023, 1024, 1025, 3000, 4097]) };
        } else if s.deg > 60 {
            s.deg = 1 + s.deg % 60;
        }
        match s.kind {
            Kind::Jac if s.ctor == Ctor::New => {
                let v = |r: &mut Rng| match r.below(4) {
                    0 => *r.pick(&[0.0, -0.5, 0.5, 1.0, 2.0]),
                    1 => r.frange(-0.99, 0.0),
                    _ => r.frange(-0.9, 6.0),
                };
                (s.alpha, s.beta) = (v(self.r), v(self.r));
                if s.deg > 12 {
                    s.deg = 1 + s.deg % 12;
                }
            }
            Kind::Lag => s.alpha = self.r.frange(-0.9, 6.0),
            _ => {}
        }
        if s.ctor == Ctor::ParNew {
            s.ctor = Ctor::New;
        }
        s
    }

    /// Enumerated over the run number: 0, 1, 2, ... for each rule kind and format in turn.
    fn nth_fault(&self) -> u64 {
        1 + self.i / 54
    }

    fn style(&mut self) -> u32 {
        (self.r.u64() as u32) & 0x3f7
    }

    fn store(&mut self) -> Body {
        let n = self.r.range(1, 6);
        let mut ops: Vec<SOp> = vec![];
        let mut formats = vec![];
        for k in 0..n {
            let fmt = if k == 0 { FORMATS[((self.i / 9) % 6) as usize] } else { *self.r.pick(&FORMATS) };
            let mut rule = self.stored_rule(fmt);
            if k == 0 {
                let kind = KINDS[(self.i % 9) as usize];
                if rule.kind != kind {
                    rule = RuleSpec { kind, deg: 1 + rule.deg % 10, alpha: 0.0, beta: 0.0, ctor: Ctor::New };
                    if kind == Kind::Jac || kind == Kind::Lag {
                        rule.alpha = self.r.frange(-0.9, 6.0);
                    }
                    if kind == Kind::Jac {
                        rule.beta = self.r.frange(-0.9, 6.0);
                    }
                }
            }
            let param = matches!(rule.kind, Kind::Jac | Kind::Lag) && self.pct(20);
            let mut io = self.io();
            if k == 0 && self.pct(60) {
                // the failing call is enumerated
                if fmt == Format::Tape && self.pct(65) {
                    io.codec_at = self.nth_fault();
                    io.fail_at = 0;
                } else {
                    io.fail_at = self.nth_fault();
                }
            }
            let slot = self.r.below(3) as u32;
            formats.push((slot, fmt));
            if self.pct(22) {
                let n = if self.pct(50) { 8 } else { 60 };
                ops.push(SOp::CrashIn { ops: self.r.below(n), seed: self.r.u64() });
            }
            ops.push(SOp::Save { slot, rule, param, fmt, io });
            if self.pct(55) {
                let (slot, fmt) = *self.r.pick(&formats);
                let mut io = self.io();
                if self.pct(60) {
                    if fmt == Format::Tape && self.pct(65) {
                        io.codec_at = self.nth_fault();
                        io.fail_at = 0;
                    } else {
                        io.fail_at = self.nth_fault();
                    }
                }
                ops.push(SOp::Load { slot, io });
            }
            if self.pct(25) {
                ops.push(SOp::Crash { seed: self.r.u64() });
            }
        }
        let capacity = if self.pct(15) { self.r.range(1, 4000) } else { 0 };
        Body::Store(Store { ops, capacity })
    }

    fn io(&mut self) -> IoFaults {
        IoFaults {
            chunk: *self.r.pick(&[0, 0, 1, 2, 3, 7, 8, 13, 64, 511]),
            eintr_pct: *self.r.pick(&[0, 0, 5, 30]),
            fail_at: if self.pct(12) { 1 + self.r.below(1 << 30) } else { 0 },
            fail_kind: self.r.below(2) as u8,
            codec_at: if self.pct(12) { 1 + self.r.below(1 << 30) } else { 0 },
            style: self.style(),
            seed: self.r.u64(),
        }
    }

    fn damaged(&mut self) -> Body {
        let fmts = [Format::Json, Format::Bincode, Format::Cbor, Format::Ron, Format::Tape];
        let kind = KINDS[(self.i % 9) as usize];
        let fmt = fmts[((self.i / 9) % 5) as usize];
        let q = self.i / 45;
        let mut rule = RuleSpec { kind, deg: 1, alpha: 0.0, beta: 0.0, ctor: Ctor::New };
        let text = matches!(fmt, Format::Json | Format::Ron);
        rule.deg = if kind.is_nc() {
            *self.r.pick(&[1, 2, 7, 10, 100, 255, 256, 65_536, 70_001, 1_000_003, 16_909_060, 4_294_967_295])
        } else {
            match self.r.below(10) {
                0 => 1,
                1 if !kind.is_gw() => self.r.range(20, if text { 120 } else { 600 }),
                _ => self.r.range(1, 7),
            }
        };
        if matches!(kind, Kind::Jac | Kind::Lag) {
            rule.alpha = self.r.frange(-0.95, 4.0);
        }
        if kind == Kind::Jac {
            rule.beta = self.r.frange(-0.95, 4.0);
        }
        let mut other = rule;
        match self.r.below(4) {
            0 => other = self.stored_rule(fmt),
            1 => other.deg = (rule.deg * 2).min(4_000_000_000),
            2 => other.deg = rule.deg.saturating_sub(1).max(1),
            _ => {
                if kind == Kind::Jac {
                    (other.alpha, other.beta) = (rule.beta, rule.alpha)
                } else {
                    other.deg += 1
                }
            }
        }
        other.deg = if other.kind.is_gw() { other.deg.min(20) } else if other.kind.is_nc() { other.deg.min(4_294_967_295) } else { other.deg.min(1200) };
        let param_only = matches!(kind, Kind::Jac | Kind::Lag) && self.pct(30);
        let fmt = if param_only && self.pct(10) { Format::Zc } else { fmt };
        let one = |g: &mut Self, at: u64| match g.r.below(16) {
            0..=4 => Damage::Truncate(at),
            5 | 6 => Damage::FlipBits(if g.pct(50) { at } else { g.r.u64() >> 20 }, *g.r.pick(&[1, 1, 1, 2, 3, 8])),
            7 => Damage::Splice(at),
            8 => Damage::Zero(at, *g.r.pick(&[1, 2, 4, 8, 16, 512])),
            9 => Damage::DropField(at),
            10 => Damage::DupField(at),
            11 | 12 => Damage::SetField(at, if g.pct(50) { at } else { g.r.below(1000) }),
            13 | 14 => Damage::DropLeaf(at),
            _ => Damage::OtherType(*g.r.pick(&KINDS)),
        };
        let sweep = *self.r.pick(&[1, 4, 16, 32]);
        let n = if self.pct(80) { 1 } else { self.r.range(2, 3) };
        let damage = (0..n)
            .map(|_| {
                let at = if self.pct(60) { q * sweep as u64 / 2 } else { self.r.u64() >> 30 };
                one(self, at)
            })
            .collect();
        let style = self.style() | if self.pct(15) { 8 } else { 0 };
        Body::Damaged(Damaged { rule, other, param_only, fmt, damage, style, sweep })
    }

    fn pool(&mut self) -> u32 {
        if self.pct(3) {
            return *self.r.pick(&[12, 16, 24]);
        }
        *self.r.pick(&[1, 2, 2, 3, 4, 4, 5, 7, 8])
    }

    /// Every kind and small degree comes up by rotation, larger ones by chance.
    fn degree(&mut self, kind: Kind, cap: u64) -> u64 {
        let d = if kind.is_gw() {
            match self.r.below(20) {
                0..=9 => 1 + (self.i / 9) % 40,
                10..=17 => self.r.range(1, 24),
                18 => self.r.range(24, 60),
                _ => self.r.range(60, if self.thorough { 160 } else { 100 }),
            }
        } else {
            match self.r.below(40) {
                0..=14 => 1 + (self.i / 9) % 130,
                15..=24 => self.r.range(1, 64),
                25..=28 => {
                    let k = self.r.range(1, 12);
                    ((1u64 << k) + self.r.below(3)).saturating_sub(1)
                }
                29..=34 => self.r.range(64, 1200),
                35..=37 => self.r.range(1200, 6000),
                38 => *self.r.pick(&[255, 256, 257, 1000, 1001, 1023, 1025, 2049, 4095, 4097, 8191, 8193, 10_000]),
                _ => match self.r.below(if self.thorough { 12 } else { 30 }) {
                    0 => *self.r.pick(&[65_535, 65_536, 65_537, 100_000, 131_073]),
                    _ => self.r.range(6000, 20_000),
                },
            }
        };
        d.clamp(1, cap)
    }

    fn jac_params(&mut self) -> (f64, f64) {
        let one = |r: &mut Rng| match r.below(6) {
            0 => *r.pick(&[0.0, 0.5, -0.5, 1.0, 2.0, -0.25]),
            1 => r.frange(-0.95, 0.0),
            _ => (r.frange(-0.9, 5.0) * 64.0).round() / 64.0,
        };
        match self.r.below(8) {
            0 => (0.0, 0.0),
            1 => (0.5, 0.5),
            2 => (-0.5, -0.5),
            3 => {
                let a = one(self.r);
                (a, a)
            }
            _ => (one(self.r), one(self.r)),
        }
    }

    fn rule_of(&mut self, kind: Kind, cap: u64) -> RuleSpec {
        let deg = self.degree(kind, cap);
        let (mut alpha, mut beta) = (0.0, 0.0);
        let mut ctor = Ctor::New;
        match kind {
            Kind::Jac => {
                (alpha, beta) = self.jac_params();
                if alpha == beta && [0.0, 0.5, -0.5].contains(&alpha) && self.pct(40) {
                    ctor = Ctor::From;
                }
            }
            Kind::Lag => alpha = self.jac_params().0,
            k if k.is_nc() => {
                ctor = match self.r.below(6) {
                    0 => Ctor::From,
                    1 => Ctor::Changed(self.r.range(1, 50) as u32),
                    _ => Ctor::New,
                }
            }
            _ => {
                if self.pct(20) {
                    ctor = Ctor::ParNew
                }
            }
        }
        RuleSpec { kind, deg, alpha, beta, ctor }
    }

    fn rule(&mut self, cap: u64) -> RuleSpec {
        let kind = if self.pct(70) { KINDS[(self.i % 9) as usize] } else { *self.r.pick(&KINDS) };
        self.rule_of(kind, cap)
    }

    fn interval(&mut self) -> (f64, f64) {
        let (a, b) = match self.r.below(14) {
            0 => (-1.0, 1.0),
            1 => (0.0, 1.0),
            2 | 3 => {
                let a = self.r.frange(-10.0, 10.0);
                (a, a + self.r.frange(0.1, 20.0))
            }
            4 => {
                let c = self.r.frange(-1.0, 1.0) * 10f64.powi(self.r.range(0, 7) as i32);
                (c, c + self.r.frange(0.5, 4.0))
            }
            5 => {
                let s = 10f64.powi(self.r.range(0, 24) as i32 - 12);
                (-s * self.r.f01(), s * self.r.f01())
            }
            6 => (self.r.frange(1e5, 1e9), -self.r.frange(1e5, 1e9)),
            7 => {
                let s = 10f64.powi(self.r.range(0, 160) as i32 - 80);
                (0.0, s)
            }
            8 => (-3.0, 0.0),
            _ => (self.r.frange(-5.0, 5.0), self.r.frange(-5.0, 5.0)),
        };
        if self.pct(3) {
            (a, a)
        } else if self.pct(25) {
            (b, a)
        } else {
            (a, b)
        }
    }

    fn values(&mut self) -> Values {
        match self.r.below(11) {
            0..=4 => Values::Inverse,
            5..=7 => Values::Uniform,
            10 => Values::Scaled(*self.r.pick(&[600, 320, 60, -60, -200, -400])),
            8 => Values::Single(self.r.u64() >> 20),
            _ => Values::One,
        }
    }

    fn at(&mut self) -> At {
        match self.r.below(8) {
            0 => At::Pt(0),
            1 => At::Pt(u64::MAX),
            2 => At::Ord(0),
            3 => At::Ord(u64::MAX),
            4 => At::Every(self.r.range(1, 9)),
            5 => At::Ord(self.r.u64() >> 20),
            _ => At::Pt(self.r.u64() >> 20),
        }
    }

    fn slow(&mut self) -> EvalFault {
        EvalFault { at: self.at(), what: What::Slow(*self.r.pick(&[1_000, 100_000, 50_000_000])) }
    }

    fn integ(&mut self, nrules: usize, p: Profile, par_pct: u64) -> Integ {
        let (mut a, mut b) = self.interval();
        let mut faults = vec![];
        if self.pct(12) {
            faults.push(self.slow());
        }
        match p {
            Profile::Panic => {
                if self.pct(70) {
                    for _ in 0..self.r.range(1, 3) {
                        faults.push(EvalFault { at: self.at(), what: What::Panic(self.r.below(3) as u8) });
                    }
                }
            }
            Profile::NonFinite => {
                if a == b {
                    (a, b) = (0.0, 2.0);
                }
                let what = match self.r.below(6) {
                    0..=2 => What::Nan,
                    3 | 4 => What::Inf,
                    _ => What::NegInf,
                };
                for _ in 0..if self.pct(75) { 1 } else { self.r.range(2, 4) } {
                    let at = match self.r.below(6) {
                        0 => At::Pt(0),
                        1 => At::Pt(u64::MAX),
                        2 => At::Every(self.r.range(1, 7)),
                        _ => At::Pt(self.r.u64() >> 20),
                    };
                    faults.push(EvalFault { at, what });
                }
            }
            _ => {}
        }
        if p == Profile::Count && self.pct(15) {
            let at = if self.pct(50) { At::Pt(self.r.u64() >> 20) } else { At::Every(self.r.range(1, 7)) };
            faults.push(EvalFault { at, what: *self.r.pick(&[What::Nan, What::Inf, What::NegInf]) });
        }
        let values = if p == Profile::Count && self.pct(25) {
            Values::Wild
        } else if p == Profile::NonFinite && self.pct(50) { Values::Uniform } else { self.values() };
        Integ { rule: self.r.below(nrules as u64) as usize, par: self.pct(par_pct), a, b, values, vseed: self.r.u64(), faults, nest: None }
    }

    /// Far more callers than usual, each with one call.
    fn crowd(&mut self, p: Profile) -> Body {
        let kind = KINDS[(self.i % 9) as usize];
        let cap = *self.r.pick(&[4, 10, 24]);
        let mut rules = vec![self.rule_of(kind, cap)];
        if self.pct(40) {
            rules.push(self.rule(cap));
        }
        let n = *self.r.pick(&[6, 9, 17, 33, 66]);
        let clients = (0..n)
            .map(|_| {
                let op = Op::Integ(self.integ(rules.len(), p, if p == Profile::Sum { 90 } else { 70 }));
                Client { inside: self.pct(20), second: false, ops: vec![op] }
            })
            .collect();
        self.conc_body(rules, clients)
    }

    /// Far more calls than usual.
    fn long(&mut self, p: Profile) -> Body {
        let kind = KINDS[(self.i % 9) as usize];
        let cap = *self.r.pick(&[2, 5, 12]);
        let mut rules = vec![self.rule_of(kind, cap)];
        if self.pct(40) {
            rules.push(self.rule(cap));
        }
        let n = *self.r.pick(&[35, 70, 140, 270]);
        let clients = (0..*self.r.pick(&[1, 1, 2]))
            .map(|_| {
                let ops = (0..n)
                    .map(|_| {
                        let mut g = self.integ(rules.len(), p, if p == Profile::Sum { 90 } else { 75 });
                        g.faults.retain(|f| !matches!(f.what, What::Slow(_)));
                        Op::Integ(g)
                    })
                    .collect();
                Client { inside: self.pct(30), second: false, ops }
            })
            .collect();
        self.conc_body(rules, clients)
    }

    fn conc(&mut self, p: Profile) -> Body {
        if matches!(p, Profile::Sum | Profile::Count) && self.i % 3500 == 1234 {
            // beyond the integers a single precision number holds
            let kind = [Kind::Mid, Kind::Trap, Kind::Simp][(self.i / 3500 % 3) as usize];
            let deg = (1 << 24) + self.r.range(1, if kind == Kind::Simp { 200_000 } else { 4_000_000 });
            let (a, b) = *self.r.pick(&[(0.0, 1.0), (-1.0, 3.0), (2.0, -1.0)]);
            let op = Op::Huge { kind, deg, par: p == Profile::Sum || self.pct(60), a, b, vseed: self.r.u64(), stop: 0 };
            let inside = self.pct(30);
            return self.conc_body(vec![], vec![Client { inside, second: false, ops: vec![op] }]);
        }
        if self.r.below(1000) < match p { Profile::Count => 25, Profile::Panic => 10, _ => 0 } {
            // every degree a rule can have, cut short by panics and in the end by a crash
            let n = self.r.range(1, 2);
            let ops = (0..n)
                .map(|k| {
                    let kind = *self.r.pick(&[Kind::Mid, Kind::Trap, Kind::Simp]);
                    let deg = match self.r.below(7) {
                        0 | 1 => u32::MAX as u64 - self.r.below(3),
                        // workers start at multiples of an eighth: where a counter of 31 bits ends
                        2 => (1 << 34) / self.r.range(5, 7) + self.r.below(9) - 4,
                        3 => (1 << 31) + self.r.below(5) - 2,
                        4 => (1 << 30) + self.r.below(5) - 2,
                        5 => self.r.range(1 << 31, u32::MAX as u64),
                        _ => self.r.range(1 << 24, u32::MAX as u64),
                    };
                    let (a, b) = *self.r.pick(&[(0.0, 1.0), (-1.0, 3.0), (2.0, -1.0)]);
                    let par = p == Profile::Count && k + 1 == n;
                    let stop = if par { *self.r.pick(&[30, 300, 2000, 10_000, 30_000]) } else { *self.r.pick(&[1, 2, 5, 30, 300, 2000]) };
                    Op::Huge { kind, deg, par, a, b, vseed: self.r.u64(), stop }
                })
                .collect();
            let inside = self.pct(30);
            let mut body = self.conc_body(vec![], vec![Client { inside, second: false, ops }]);
            if let Body::Conc(c) = &mut body {
                c.pool = self.r.range(1, 8) as _;
            }
            return body;
        }
        match self.r.below(1000) {
            0..=4 => return self.crowd(p),
            5..=14 => return self.long(p),
            _ => {}
        }
        let nrules = *self.r.pick(&[1, 1, 2, 3]);
        let cap = if self.pct(if p == Profile::Panic { 92 } else { 50 }) { 3000 } else { 200_000 };
        let mut rules: Vec<RuleSpec> = (0..nrules).map(|k| if k == 0 { self.rule_of(KINDS[(self.i % 9) as usize], cap) } else { self.rule(cap.min(500)) }).collect();
        if p == Profile::Sum && !rules[0].kind.is_gw() && self.pct(7) {
            // sizes at which an implementation would start to work in blocks
            rules[0].deg = match self.r.below(3) {
                0 => 1 << self.r.range(10, 14),
                1 => self.r.range(4000, 9000),
                _ => self.r.range(1000, 20_000),
            };
        }
        if matches!(p, Profile::Sum | Profile::Count) && !rules[0].kind.is_gw() && self.r.below(100) == 0 {
            // and sizes beyond the reach of small counters
            rules.truncate(1);
            let top = if rules[0].kind.is_nc() { 22.3 } else { 18.3 };
            rules[0].deg = match self.r.below(4) {
                0 => (1 << self.r.range(15, top as u64)) + self.r.below(3) - 1,
                _ => self.r.frange(15.0, top).exp2() as u64,
            };
        }
        let nrules = rules.len() as u64;
        let big = rules.iter().any(|r| r.deg > 5000);
        let nclients = if big { 1 } else { *self.r.pick(&[1, 1, 2, 2, 3]) };
        let par_pct = match p {
            Profile::Sum => 96,
            _ => 65,
        };
        let clients = (0..nclients)
            .map(|_| {
                let n = if big { 1 } else { self.r.range(1, 4) };
                let mut ops = vec![];
                for _ in 0..n {
                    if self.pct(6) {
                        ops.push(Op::Busy(self.r.range(1_000, 3_000_000)));
                    }
                    if p == Profile::Panic && self.pct(10) {
                        // a construction next to panicking calls
                        let s = self.rule(60);
                        ops.push(Op::Build(s));
                    }
                    let small = rules.iter().all(|r| r.deg <= 40);
                    if small && matches!(p, Profile::Panic | Profile::NonFinite) && self.pct(if p == Profile::Panic { 35 } else { 25 }) {
                        let g = self.nested(nrules as usize, 1, p);
                        ops.push(Op::Integ(g));
                        continue;
                    }
                    ops.push(Op::Integ(self.integ(nrules as usize, p, par_pct)));
                }
                Client { inside: self.pct(30), second: false, ops }
            })
            .collect();
        self.conc_body(rules, clients)
    }

    /// The pools around the clients: mostly one, sometimes two with clients and nested calls in both.
    fn conc_body(&mut self, rules: Vec<RuleSpec>, mut clients: Vec<Client>) -> Body {
        fn spread(r: &mut Rng, n: &mut Option<Box<Nest>>) {
            if let Some(n) = n {
                n.across = *r.pick(&[0, 1, 2, 2]);
                spread(r, &mut n.nest);
            }
        }
        let big = rules.iter().any(|r| r.deg > 1500);
        let mut pool2 = 0;
        if self.pct(14) {
            pool2 = *self.r.pick(&[1, 1, 2, 3, 4]);
            if clients.len() == 1 && !big {
                let mut again = clients[0].clone();
                again.inside = self.pct(50);
                clients.push(again);
            }
            let n = clients.len();
            for (i, c) in clients.iter_mut().enumerate() {
                c.second = if n > 1 && i < 2 { i == 1 } else { self.r.below(2) == 0 };
                for op in &mut c.ops {
                    if let Op::Integ(g) = op {
                        spread(self.r, &mut g.nest);
                    }
                }
            }
        }
        let entry = match self.r.below(10) {
            0..=2 => 1,
            3 if !big && clients.iter().all(|c| c.ops.len() <= 2) => 2,
            _ => 0,
        };
        let mut pool = self.pool();
        if entry == 2 {
            pool = pool.min(5);
        }
        Body::Conc(Conc { pool, global: self.pct(30), pool2, entry, rules, clients })
    }

    fn conc_build(&mut self) -> Body {
        let kinds = [Kind::Leg, Kind::Ch1, Kind::Ch2];
        let main = kinds[(self.i % 3) as usize];
        let nclients = *self.r.pick(&[1, 1, 2, 3]);
        let mut first = true;
        let clients = (0..nclients)
            .map(|_| {
                let n = self.r.range(1, 4);
                let mut ops = vec![];
                for _ in 0..n {
                    let kind = if first || self.pct(50) { main } else { *self.r.pick(&kinds) };
                    let deg = if first && self.pct(40) {
                        1 + (self.i / 3) % 1500
                    } else {
                        match self.r.below(20) {
                            0..=7 => self.r.range(1, 130),
                            8..=12 => self.r.range(100, 2000),
                            13 | 14 => {
                                let k = self.r.range(1, 14);
                                ((1u64 << k) + self.r.below(3)).saturating_sub(1).max(1)
                            }
                            15..=17 => self.r.range(2000, 30_000),
                            18 => *self.r.pick(&[65_535, 65_536, 65_537, 99_999, 131_073]),
                            _ => self.r.range(1, 12),
                        }
                    };
                    first = false;
                    if self.pct(6) {
                        ops.push(Op::Busy(self.r.range(1_000, 3_000_000)));
                    }
                    let ctor = if self.pct(85) { Ctor::ParNew } else { Ctor::New };
                    ops.push(Op::Build(RuleSpec { kind, deg, alpha: 0.0, beta: 0.0, ctor }));
                }
                Client { inside: self.pct(30), second: false, ops }
            })
            .collect();
        let mut clients: Vec<Client> = clients;
        let mut rules = vec![];
        if self.pct(12) {
            // one more client, whose integrands construct rules
            let s = self.rule_of(main, 60);
            let k = *self.r.pick(&kinds);
            let other = self.rule_of(k, 30);
            rules = vec![s, other];
            let mut g = self.nested(2, 1, Profile::Sum);
            if rules[g.rule].deg > 40 {
                g.rule = 1;
            }
            self.freshen(&mut g, &rules, 100);
            clients.push(Client { inside: self.pct(40), second: false, ops: vec![Op::Integ(g)] });
        }
        self.conc_body(rules, clients)
    }

    fn nest(&mut self, nrules: usize, depth: u64) -> Nest {
        let (a, b) = (self.r.frange(-2.0, 2.0), self.r.frange(-2.0, 2.0));
        let dep = self.pct(60);
        Nest {
            rule: self.r.below(nrules as u64) as usize,
            par: self.pct(55),
            a,
            b: if self.pct(4) { a } else { b },
            da: if dep { self.r.frange(-1.0, 1.0) } else { 0.0 },
            db: if dep { self.r.frange(-1.0, 1.0) } else { 0.0 },
            vseed: self.r.u64(),
            across: 0,
            fresh: 0,
            faults: vec![],
            on: self.r.u64() >> 20,
            contain: false,
            nest: if depth > 1 { Some(Box::new(self.nest(nrules, depth - 1))) } else { None },
        }
    }

    /// An integral whose integrand integrates, to that depth.
    fn nested(&mut self, nrules: usize, depth: u64, p: Profile) -> Integ {
        let mut g = self.integ(nrules, p, 60);
        let mut nst = self.nest(nrules, depth);
        if self.pct(25) {
            g.rule = nst.rule;
        }
        g.values = Values::Uniform;
        if matches!(p, Profile::Panic | Profile::NonFinite) && self.pct(70) {
            // the innermost call or one on the way fails, for one of the outer points
            let mut at = &mut nst;
            while at.nest.is_some() && self.pct(60) {
                at = at.nest.as_deref_mut().unwrap();
            }
            let what = match p {
                Profile::Panic => What::Panic(self.r.below(3) as u8),
                _ => *self.r.pick(&[What::Nan, What::Nan, What::Inf, What::NegInf]),
            };
            let f = EvalFault { at: self.at(), what };
            at.faults.push(match p {
                // which evaluation comes k-th is up to the schedule
                Profile::NonFinite if matches!(f.at, At::Ord(_)) => EvalFault { at: At::Pt(self.r.u64() >> 20), ..f },
                _ => f,
            });
            if self.pct(50) {
                g.faults.clear();
            }
            if p == Profile::Panic && self.pct(45) {
                at.contain = true;
            }
        }
        g.nest = Some(Box::new(nst));
        g
    }

    /// Some integrands construct the rule they use.
    fn freshen(&mut self, g: &mut Integ, rules: &[RuleSpec], pct: u64) {
        let mut n = &mut g.nest;
        while let Some(x) = n {
            let s = &rules[x.rule];
            if (!s.kind.is_gw() || s.deg <= 8) && s.deg <= 200 && self.pct(pct) {
                x.fresh = 1 + self.r.below(2) as u8;
            }
            n = &mut x.nest;
        }
    }

    fn conc_nested(&mut self) -> Body {
        let depth = match self.r.below(24) {
            0..=16 => 1,
            17..=21 => 2,
            22 => 3,
            _ => self.r.range(4, 6),
        };
        let mut nrules = self.r.range(1, 3) as usize;
        // at most some thousand evaluations
        let cap = [70, 70, 9, 5, 3, 2, 2][depth as usize];
        // or a large rule with a small one in it or around it
        let large = depth == 1 && self.pct(6);
        if large {
            nrules = 2;
        }
        let rules: Vec<RuleSpec> = (0..nrules)
            .map(|k| {
                let kind = if k == 0 { KINDS[(self.i % 9) as usize] } else { *self.r.pick(&KINDS) };
                let mut s = self.rule_of(kind, cap);
                s.deg = if self.pct(60) { self.r.range(1, cap.min(14)) } else { s.deg };
                if large {
                    s.deg = match k {
                        0 if kind.is_gw() => self.r.range(40, 100),
                        0 => *self.r.pick(&[100, 129, 257, 300, 513, 1000, 1025, 2000]) + self.r.below(30),
                        _ => self.r.range(1, 4),
                    };
                }
                s
            })
            .collect();
        let nclients = *self.r.pick(&[1, 1, 2]);
        let clients = (0..nclients)
            .map(|_| {
                let n = self.r.range(1, 2);
                let ops = (0..n)
                    .map(|_| {
                        let mut g = self.nested(nrules, depth, Profile::Sum);
                        if large && g.rule == 0 {
                            // not twice
                            if let Some(n) = &mut g.nest {
                                n.rule = 1;
                            }
                        }
                        self.freshen(&mut g, &rules, 10);
                        Op::Integ(g)
                    })
                    .collect();
                Client { inside: self.pct(30), second: false, ops }
            })
            .collect();
        self.conc_body(rules, clients)
    }

    fn conc_progress(&mut self) -> Body {
        let mut b = match self.r.below(4) {
            0 => self.conc(Profile::Panic),
            1 => self.conc(Profile::Sum),
            2 => self.conc_build(),
            _ => self.conc_nested(),
        };
        if let Body::Conc(c) = &mut b {
            if self.pct(35) {
                c.pool = 1;
            }
            // add another client mixing what the other did not have
            let n = c.rules.len();
            let mut ops = vec![];
            for _ in 0..self.r.range(1, 3) {
                match self.r.below(4) {
                    0 if n > 0 => ops.push(Op::Integ(self.integ(n, Profile::Panic, 70))),
                    1 => {
                        let k = *self.r.pick(&[Kind::Leg, Kind::Ch1, Kind::Ch2]);
                        let deg = self.r.range(1, 300);
                        ops.push(Op::Build(RuleSpec { kind: k, deg, alpha: 0.0, beta: 0.0, ctor: Ctor::ParNew }));
                    }
                    2 => ops.push(Op::Busy(self.r.range(1000, 10_000_000))),
                    _ => {
                        let s = self.rule(60);
                        ops.push(Op::Build(s));
                    }
                }
            }
            c.clients.push(Client { inside: self.pct(50), second: false, ops });
        }
        b
    }
}
