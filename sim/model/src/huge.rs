//! The model of one call with tens of millions of points: a Newton-Cotes rule over a short interval, where the
//! point an argument belongs to is computed instead of looked up.
use crate::plan::Kind;
use simrt::rng::mix;
use simrt::shm;
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicU64, AtomicU8, Ordering::Relaxed};
use std::sync::Mutex;

/// What a stopped call's integrand panics with.
pub struct HugeStop;

pub struct Huge {
    kind: Kind,
    n: u64,
    a: f64,
    b: f64,
    vseed: u64,
    /// the evaluation that panics, 0 for none
    stop: u64,
    /// the run ends there instead, as with a crash: a panic would not keep the other workers from billions of points
    crash: bool,
    /// evaluations per half cell: even numbers are edges, odd ones midpoints
    counts: Vec<AtomicU8>,
    /// with a stop: the half cells evaluated so far
    seen: Mutex<BTreeSet<u64>>,
    twice: AtomicU64,
    off: AtomicU64,
    off_x: AtomicU64,
    seq: AtomicU64,
    over: AtomicU64,
}

impl Huge {
    pub fn new(kind: Kind, n: u64, a: f64, b: f64, vseed: u64, stop: u64, crash: bool) -> Huge {
        Huge {
            kind,
            n,
            a,
            b,
            vseed,
            stop,
            crash,
            counts: (0..if stop > 0 { 0 } else { 2 * n + 1 }).map(|_| AtomicU8::new(0)).collect(),
            seen: Mutex::new(BTreeSet::new()),
            twice: AtomicU64::new(0),
            off: AtomicU64::new(0),
            off_x: AtomicU64::new(0),
            seq: AtomicU64::new(0),
            over: AtomicU64::new(0),
        }
    }
    fn value(&self, j: usize) -> f64 {
        (mix(self.vseed ^ (j as u64) << 8) >> 11) as f64 / (1u64 << 52) as f64 - 1.0
    }
    pub fn eval(&self, x: f64) -> f64 {
        let k = self.seq.fetch_add(1, Relaxed);
        if k.is_multiple_of(4096) || self.stop > 0 {
            simrt::event(k);
            simrt::point();
        }
        if self.over.load(Relaxed) != 0 {
            simrt::violation("late-eval", &format!("integrand evaluated at {x:e} after the call had ended"));
        }
        shm::stats().evals += 1;
        let t = (x - self.a) / (self.b - self.a) * (2 * self.n) as f64;
        let j = t.round();
        // 32 eps of the bounds, which are of the order of the width
        let ok = j >= 0.0 && j <= (2 * self.n) as f64 && (t - j).abs() < 1e-3 && self.mult(j as usize) > 0;
        if !ok {
            if self.off.fetch_add(1, Relaxed) == 0 {
                self.off_x.store(x.to_bits(), Relaxed);
            }
            return 0.0;
        }
        if self.stop > 0 {
            let g = simrt::no_preempt();
            let new = simrt::alloc::exempt(|| self.seen.lock().unwrap().insert(j as u64));
            if !new && self.twice.fetch_add(1, Relaxed) == 0 {
                self.off_x.store(x.to_bits(), Relaxed);
            }
            if k + 1 >= self.stop && self.crash {
                shm::stats().f_crash += 1;
                if let Err(e) = self.check_counts() {
                    simrt::violation("count", &format!("{:?} rule of degree {} over [{:e}, {:e}], in the middle of a call: {e}", self.kind, self.n, self.a, self.b));
                }
                simrt::finish();
            }
            if k + 1 >= self.stop {
                drop(g);
                shm::stats().f_panic += 1;
                std::panic::panic_any(HugeStop);
            }
            return self.value(j as usize);
        }
        let c = &self.counts[j as usize];
        if c.fetch_add(1, Relaxed) == 255 {
            c.store(255, Relaxed);
        }
        self.value(j as usize)
    }
    pub fn close(&self) {
        self.over.store(1, Relaxed);
        shm::stats().p_eval_ge_50k += 1;
    }
    fn mult(&self, j: usize) -> u8 {
        match self.kind {
            Kind::Mid => (j % 2) as u8,
            Kind::Trap => 1 - (j % 2) as u8,
            _ => 1,
        }
    }
    fn weight(&self, j: usize) -> f64 {
        let h = (self.b - self.a) / self.n as f64;
        let end = j == 0 || j == 2 * self.n as usize;
        match self.kind {
            Kind::Mid => h,
            Kind::Trap if end => h / 2.0,
            Kind::Trap => h,
            _ if end => h / 6.0,
            _ if j % 2 == 0 => h / 3.0,
            _ => 2.0 * h / 3.0,
        }
    }
    pub fn check_counts(&self) -> Result<(), String> {
        let off = self.off.load(Relaxed);
        if off > 0 {
            return Err(format!("{off} evaluations off the rule's points, the first at {:e}", f64::from_bits(self.off_x.load(Relaxed))));
        }
        let twice = self.twice.load(Relaxed);
        if twice > 0 {
            return Err(format!("{twice} points evaluated again, the first at {:e}", f64::from_bits(self.off_x.load(Relaxed))));
        }
        for j in 0..self.counts.len() {
            let (k, m) = (self.counts[j].load(Relaxed), self.mult(j));
            if k != m {
                return Err(format!("half cell {j} of {} evaluated {k} times instead of {m}", self.counts.len()));
            }
        }
        Ok(())
    }
    pub fn check_sum(&self, got: f64) -> Result<(), String> {
        let (mut s, mut c, mut m) = (0.0f64, 0.0f64, 0.0f64);
        for j in (0..self.counts.len()).filter(|&j| self.mult(j) > 0) {
            let t = self.weight(j) * self.value(j);
            m += t.abs();
            let y = s + t;
            c += if s.abs() >= t.abs() { (s - y) + t } else { (t - y) + s };
            s = y;
        }
        let bound = 2.0 * ((2 * self.n) as f64 + 24.0) * f64::EPSILON * m;
        if (got - (s + c)).abs() <= bound {
            Ok(())
        } else {
            Err(format!("returned {got:e}, the rule's weighted sum is {:e} (rounding allows {bound:e})", s + c))
        }
    }
}
