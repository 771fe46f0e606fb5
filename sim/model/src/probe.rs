//! The integrand the library is given: records every evaluation, injects faults, checks the call.
use crate::plan::*;
use crate::table::Table;
use simrt::shm;
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, Ordering::Relaxed};

/// Panic payload that names the call that raised it; counts its own drops.
pub struct Payload {
    /// the call that raised it and the calls around it
    pub chain: [u32; CHAIN],
    pub drops: &'static AtomicU64,
}
impl Drop for Payload {
    fn drop(&mut self) {
        self.drops.fetch_add(1, Relaxed);
    }
}
pub static PAYLOADS_MADE: AtomicU64 = AtomicU64::new(0);
pub static PAYLOADS_DROPPED: AtomicU64 = AtomicU64::new(0);
/// Longest chain of nested calls.
pub const CHAIN: usize = 8;
pub const STR_PAYLOAD: &str = "gqsim integrand panic";

pub struct Probe {
    pub id: u32,
    pub table: Table,
    pub values: Vec<f64>,
    counts: Vec<AtomicU32>,
    faults: Vec<(EvalFault, AtomicU64)>,
    phase: AtomicU32,
    seq: AtomicU64,
    off: AtomicU64,
    off_x: AtomicU64,
    pub panics: AtomicU64,
    nonfinite: AtomicBool,
    /// a nested call rightly returned NaN / something this call's result is not judged with
    inner_nan: AtomicBool,
    inner_wild: AtomicBool,
    /// the call whose integrand made this one
    parent: *const Probe,
    caller: AtomicU32,
    others: AtomicU64,
    late: bool,
    /// its integrand makes calls of its own
    calls: bool,
}

// the parent outlives the calls its integrand makes
unsafe impl Send for Probe {}
unsafe impl Sync for Probe {}

/// What became of an integration call.
pub enum Done {
    Value(f64),
    Panicked(Box<dyn std::any::Any + Send>),
}

impl Probe {
    pub fn new(id: u32, table: Table, values: Vec<f64>, faults: &[EvalFault]) -> Probe {
        let n = table.len();
        Probe {
            id,
            values,
            counts: (0..n).map(|_| AtomicU32::new(0)).collect(),
            faults: faults.iter().map(|f| (*f, AtomicU64::new(0))).collect(),
            phase: AtomicU32::new(0),
            seq: AtomicU64::new(0),
            off: AtomicU64::new(0),
            off_x: AtomicU64::new(0),
            panics: AtomicU64::new(0),
            nonfinite: AtomicBool::new(false),
            inner_nan: AtomicBool::new(false),
            inner_wild: AtomicBool::new(false),
            parent: std::ptr::null(),
            caller: AtomicU32::new(0),
            others: AtomicU64::new(0),
            late: true,
            calls: false,
            table,
        }
    }
    /// This call is made by the integrand of `p`'s call.
    pub fn inside(mut self, p: &Probe) -> Probe {
        self.parent = p;
        self
    }
    pub fn with_calls(mut self, c: bool) -> Probe {
        self.calls = c;
        self
    }
    fn up(&self) -> Option<&Probe> {
        unsafe { self.parent.as_ref() }
    }
    /// Tells the call around this one what a nested result of it may do to its own.
    pub fn pass_on(&self, nan: bool, wild: bool) {
        if let Some(p) = self.up() {
            if nan {
                p.inner_nan.store(true, Relaxed);
            }
            if wild {
                p.inner_wild.store(true, Relaxed);
            }
        }
    }
    /// The panics of this call were caught by the integrand that made it.
    pub fn contained(&self) {
        let k = self.thrown();
        let mut around = self.up();
        while let Some(q) = around {
            q.panics.fetch_sub(k, Relaxed);
            around = q.up();
        }
    }
    pub fn nested_nan(&self) -> bool {
        self.inner_nan.load(Relaxed)
    }
    pub fn nested_wild(&self) -> bool {
        self.inner_wild.load(Relaxed)
    }
    pub fn open(&self) {
        self.caller.store(simrt::cur() as u32, Relaxed);
        self.phase.store(1, Relaxed);
    }
    pub fn close(&self) {
        self.phase.store(2, Relaxed);
        let o = self.others.load(Relaxed);
        let st = shm::stats();
        st.max_threads_in_call = st.max_threads_in_call.max(1 + o.count_ones() as u64);
        if o != 0 {
            st.p_par_split += 1;
        }
        if self.table.points >= 50_000 {
            st.p_eval_ge_50k += 1;
        }
    }
    pub fn evals(&self) -> u64 {
        self.seq.load(Relaxed)
    }
    pub fn thrown(&self) -> u64 {
        self.panics.load(Relaxed)
    }

    /// The integrand. Does not allocate (except to build a panic payload).
    #[inline]
    pub fn eval(&self, x: f64) -> f64 {
        self.eval_with(x, |_, v| v)
    }

    /// As `eval`, with the value computed from the point's index by `f`.
    pub fn eval_with(&self, x: f64, f: impl FnOnce(usize, f64) -> f64) -> f64 {
        simrt::point();
        match self.phase.load(Relaxed) {
            1 => {}
            0 => simrt::violation("early-eval", &format!("integrand of call {} evaluated before the call", self.id)),
            _ => {
                if self.late {
                    simrt::violation("late-eval", &format!("integrand of call {} evaluated at {x:e} after the call had ended", self.id))
                }
            }
        }
        let seq = self.seq.fetch_add(1, Relaxed);
        let st = shm::stats();
        st.evals += 1;
        let me = simrt::cur() as u32;
        if me != self.caller.load(Relaxed) {
            st.evals_off_caller += 1;
            self.others.fetch_or(1 << (me % 64), Relaxed);
        }
        let c = match self.table.find(x) {
            Some(c) => c,
            None => {
                if self.off.fetch_add(1, Relaxed) == 0 {
                    self.off_x.store(x.to_bits(), Relaxed);
                }
                simrt::event(x.to_bits());
                return 0.0;
            }
        };
        simrt::event(((self.id as u64) << 40) ^ c as u64);
        self.counts[c].fetch_add(1, Relaxed);
        let n = self.table.len() as u64;
        let mut v = self.values[c];
        for (flt, fired) in &self.faults {
            let hit = match flt.at {
                At::Ord(k) => k % self.table.points.max(1) == seq,
                At::Pt(k) => k % n == c as u64,
                At::Every(k) => (c as u64).is_multiple_of(k.max(1)),
            };
            if !hit {
                continue;
            }
            fired.fetch_add(1, Relaxed);
            match flt.what {
                What::Slow(ns) => {
                    st.f_slow += 1;
                    simrt::sleep_ns(ns);
                }
                What::Nan => {
                    st.f_nan += 1;
                    self.nonfinite.store(true, Relaxed);
                    v = f64::NAN;
                }
                What::Inf => {
                    st.f_inf += 1;
                    self.nonfinite.store(true, Relaxed);
                    v = f64::INFINITY;
                }
                What::NegInf => {
                    st.f_inf += 1;
                    self.nonfinite.store(true, Relaxed);
                    v = f64::NEG_INFINITY;
                }
                What::Panic(p) => {
                    st.f_panic += 1;
                    if self.panics.fetch_add(1, Relaxed) == 1 {
                        st.p_panic_multi += 1;
                    }
                    let mut around = self.up();
                    while let Some(q) = around {
                        q.panics.fetch_add(1, Relaxed);
                        st.p_panic_nested += 1;
                        around = q.up();
                    }
                    if me != self.caller.load(Relaxed) {
                        st.p_panic_on_worker += 1;
                    }
                    self.throw(p)
                }
            }
        }
        f(c, v)
    }

    fn chain(&self) -> [u32; CHAIN] {
        let mut c = [0; CHAIN];
        let mut p = Some(self);
        for slot in &mut c {
            match p {
                Some(q) => {
                    *slot = q.id;
                    p = q.up();
                }
                None => break,
            }
        }
        c
    }

    fn throw(&self, p: u8) -> ! {
        match p {
            1 => std::panic::panic_any(STR_PAYLOAD),
            2 => std::panic::panic_any(simrt::alloc::exempt(|| format!("{STR_PAYLOAD} {:?}", self.chain()))),
            _ => {
                PAYLOADS_MADE.fetch_add(1, Relaxed);
                std::panic::panic_any(Payload { chain: self.chain(), drops: &PAYLOADS_DROPPED })
            }
        }
    }

    /// Whether a panic payload was raised by this probe.
    pub fn owns(&self, e: &(dyn std::any::Any + Send)) -> bool {
        if self.thrown() == 0 {
            return false;
        }
        if let Some(p) = e.downcast_ref::<Payload>() {
            return p.chain.contains(&self.id);
        }
        if let Some(s) = e.downcast_ref::<&'static str>() {
            return *s == STR_PAYLOAD;
        }
        if let Some(s) = e.downcast_ref::<String>() {
            // the ids of the chain, innermost first
            return s.strip_prefix(STR_PAYLOAD).is_some_and(|t| t.split(|c: char| !c.is_ascii_digit()).any(|n| n.parse() == Ok(self.id)));
        }
        false
    }

    /// Every point the right number of times (`complete`), or at most that often.
    pub fn check_counts(&self, complete: bool) -> Result<(), String> {
        let off = self.off.load(Relaxed);
        if off > 0 {
            return Err(format!(
                "{off} evaluations off the rule's points, the first at {:e}",
                f64::from_bits(self.off_x.load(Relaxed))
            ));
        }
        for c in 0..self.table.len() {
            let k = self.counts[c].load(Relaxed);
            let m = self.table.mult[c];
            if k > m || (complete && k < m) {
                return Err(format!(
                    "point {:e} (number {c} of {}) evaluated {k} times instead of {m}",
                    self.table.lo[c],
                    self.table.len()
                ));
            }
        }
        Ok(())
    }

    /// The values the integrand returned, by point.
    pub fn effective_values(&self) -> Vec<f64> {
        let mut v = self.values.clone();
        for (flt, _) in &self.faults {
            let nv = match flt.what {
                What::Nan => f64::NAN,
                What::Inf => f64::INFINITY,
                What::NegInf => f64::NEG_INFINITY,
                _ => continue,
            };
            let n = v.len() as u64;
            for (c, slot) in v.iter_mut().enumerate() {
                let hit = match flt.at {
                    At::Pt(k) => k % n == c as u64,
                    At::Every(k) => (c as u64).is_multiple_of(k.max(1)),
                    At::Ord(_) => false,
                };
                if hit {
                    *slot = nv;
                }
            }
        }
        v
    }
    /// Whether an evaluation was NaN, directly or through a nested call.
    pub fn must_be_nan(&self) -> bool {
        self.nested_nan() || (self.saw_nonfinite() && self.effective_values().iter().any(|x| x.is_nan()))
    }
    pub fn saw_nonfinite(&self) -> bool {
        self.nonfinite.load(Relaxed)
    }

    pub fn check_sum(&self, got: f64) -> Result<(), String> {
        let (want, bound) = self.table.expect(&self.values);
        if (got - want).abs() <= bound {
            Ok(())
        } else {
            Err(format!("returned {got:e}, the rule's weighted sum is {want:e} (rounding allows {bound:e})"))
        }
    }

    /// IEEE expectation when some evaluations returned NaN or an infinity. Ok if nothing is claimed.
    pub fn check_nonfinite(&self, got: f64) -> Result<(), String> {
        let v = self.effective_values();
        if self.must_be_nan() {
            return if got.is_nan() { Ok(()) } else { Err(format!("an evaluation was NaN but the call returned {got:e}")) };
        }
        if self.nested_wild() || self.calls {
            return Ok(());
        }
        let infs: Vec<usize> = (0..v.len()).filter(|&c| v[c].is_infinite()).collect();
        if infs.is_empty() {
            return self.check_sum(got);
        }
        let sign = |c: usize| v[c].signum() * self.table.w[c].signum();
        let clear = infs.iter().all(|&c| self.table.w[c] != 0.0 && self.table.mult[c] == 1 && sign(c) == sign(infs[0]));
        if !clear {
            return Ok(());
        }
        let want = sign(infs[0]) * f64::INFINITY;
        if got == want {
            Ok(())
        } else {
            Err(format!("an evaluation was infinite so the result must be {want}, but the call returned {got:e}"))
        }
    }
}
