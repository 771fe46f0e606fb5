//! A plan is everything one simulated run does: workload, faults and scheduler parameters.
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Leg,
    Jac,
    Lag,
    Her,
    Ch1,
    Ch2,
    Mid,
    Trap,
    Simp,
}
pub const KINDS: [Kind; 9] =
    [Kind::Leg, Kind::Jac, Kind::Lag, Kind::Her, Kind::Ch1, Kind::Ch2, Kind::Mid, Kind::Trap, Kind::Simp];

impl Kind {
    /// Newton-Cotes rules store only a degree.
    pub fn is_nc(self) -> bool {
        matches!(self, Kind::Mid | Kind::Trap | Kind::Simp)
    }
    /// Nodes come from an eigenvalue solve (cubic cost).
    pub fn is_gw(self) -> bool {
        matches!(self, Kind::Jac | Kind::Lag | Kind::Her)
    }
    pub fn infinite(self) -> bool {
        matches!(self, Kind::Lag | Kind::Her)
    }
    pub fn has_par_new(self) -> bool {
        matches!(self, Kind::Leg | Kind::Ch1 | Kind::Ch2)
    }
}

/// How a rule object is obtained.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ctor {
    New,
    ParNew,
    /// Jacobi from Legendre / Chebyshev; Newton-Cotes from its degree
    From,
    /// Newton-Cotes: built with another degree, then change_degree
    Changed(u32),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct RuleSpec {
    pub kind: Kind,
    pub deg: u64,
    pub alpha: f64,
    pub beta: f64,
    pub ctor: Ctor,
}
impl RuleSpec {
    pub fn key(&self) -> String {
        format!("{:?}/{}/{:x}/{:x}/{:?}", self.kind, self.deg, self.alpha.to_bits(), self.beta.to_bits(), self.ctor)
    }
    pub fn with_ctor(mut self, c: Ctor) -> Self {
        self.ctor = c;
        self
    }
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Default)]
pub struct SchedParams {
    pub seed: u64,
    pub pct: bool,
    pub fine_mean: u64,
    pub shared_p: u32,
    pub hot_p: u32,
    #[serde(default)]
    pub conf_p: u32,
    /// processors the operating system reports
    #[serde(default)]
    pub cpus: u32,
    pub coarse_p: u32,
    pub stall_p: u32,
    pub stall_len: u64,
    pub spurious_p: u32,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum At {
    /// the k-th evaluation of the call, in time
    Ord(u64),
    /// evaluation at the point with this index (modulo the number of points)
    Pt(u64),
    /// every evaluation whose point index is a multiple of k
    Every(u64),
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum What {
    /// payload: 0 tagged struct, 1 static str, 2 String
    Panic(u8),
    Nan,
    Inf,
    NegInf,
    /// holds the evaluation for that many simulated nanoseconds
    Slow(u64),
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct EvalFault {
    pub at: At,
    pub what: What,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Values {
    /// +-1/weight: every point counts the same in the sum
    Inverse,
    /// uniform in [-1, 1]
    Uniform,
    /// all ones
    One,
    /// any bits: zeros, huge and tiny values, infinities and NaN (where only evaluations are counted)
    Wild,
    /// uniform, times two to that power
    Scaled(i32),
    /// only one point is non-zero
    Single(u64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Nest {
    pub rule: usize,
    pub par: bool,
    /// bounds: a + da * t, b + db * t with t in [-1, 1] depending on the outer point
    pub a: f64,
    pub b: f64,
    pub da: f64,
    pub db: f64,
    pub vseed: u64,
    /// the call is installed into the first (1) or second (2) pool, whichever pool the caller is in
    #[serde(default)]
    pub across: u8,
    /// 1: the integrand constructs this rule anew for every call, 2: in parallel where the rule can be
    #[serde(default)]
    pub fresh: u8,
    /// injected into the calls whose outer point's index is `on` modulo the number of outer points
    #[serde(default)]
    pub faults: Vec<EvalFault>,
    #[serde(default)]
    pub on: u64,
    /// the integrand around these calls catches their panics and goes on with the value zero
    #[serde(default)]
    pub contain: bool,
    pub nest: Option<Box<Nest>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Integ {
    pub rule: usize,
    pub par: bool,
    pub a: f64,
    pub b: f64,
    pub values: Values,
    pub vseed: u64,
    pub faults: Vec<EvalFault>,
    pub nest: Option<Box<Nest>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    Integ(Integ),
    /// constructs a rule and compares it with the one an isolated process gets
    Build(RuleSpec),
    /// occupies a worker of the pool for some simulated time
    Busy(u64),
    Sleep(u64),
    /// integration with a Newton-Cotes rule of tens of millions of cells
    Huge { kind: Kind, deg: u64, par: bool, a: f64, b: f64, vseed: u64, stop: u64 },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Client {
    /// runs as a task inside the pool instead of on a thread of its own
    pub inside: bool,
    /// uses the second pool
    #[serde(default)]
    pub second: bool,
    pub ops: Vec<Op>,
}

/// Threads sharing rules and a pool.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Conc {
    pub pool: u32,
    pub global: bool,
    /// size of a second pool (0: none)
    #[serde(default)]
    pub pool2: u32,
    /// how clients inside a pool get there: 0 scope, 1 join, 2 broadcast to all workers
    #[serde(default)]
    pub entry: u8,
    pub rules: Vec<RuleSpec>,
    pub clients: Vec<Client>,
}

impl Nest {
    /// Whether the call for the `c`-th of `n` outer points panics.
    pub fn panics(&self, c: usize, n: usize) -> bool {
        (self.on % n as u64 == c as u64 && self.faults.iter().any(|f| matches!(f.what, What::Panic(_))))
            || self.nest.as_ref().is_some_and(|m| !m.contain && m.ever_panics())
    }
    fn ever_panics(&self) -> bool {
        self.faults.iter().any(|f| matches!(f.what, What::Panic(_))) || self.nest.as_ref().is_some_and(|m| !m.contain && m.ever_panics())
    }
}

/// One operation of a history; its outcome is compared with the same operation in a process of its own.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct HOp {
    pub rule: RuleSpec,
    pub what: HWhat,
    /// use the rule object all threads share (built once per spec), or one built for this operation
    pub shared: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum HWhat {
    Build,
    Clone,
    /// Jacobi rule made from this one
    Convert,
    Views,
    Debug,
    Json,
    /// stored in a format and style, and loaded again
    Stored(Format, u32),
    /// load of this rule's record cut after so many permille
    BadLoad(u64),
    Eq(RuleSpec),
    Params(u64),
    Walk(u64),
    /// sequential integration; `panic`: the integrand panics at that evaluation
    Integ { a: f64, b: f64, vseed: u64, panic: Option<u64> },
    /// integrates with the same rule inside the integrand
    SelfNest { a: f64, b: f64, vseed: u64 },
}
impl HOp {
    pub fn key(&self) -> String {
        format!("h/{}/{:?}/{}", self.rule.key(), self.what, self.shared)
    }
}
/// Settable-degree steps of one client-owned Newton-Cotes rule.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum HStep {
    Op(HOp),
    /// own rule number, new degree
    SetDegree(usize, u32),
    /// operation on own rule number
    Own(usize, HWhat),
    /// parallel integration / construction whose result is not judged here
    Noise { rule: RuleSpec, a: f64, b: f64, vseed: u64, panic: Option<u64> },
    /// many other rules constructed and used, results not judged: `n` of one kind from degree `from` on, the
    /// parameters spread
    Sweep { kind: Kind, from: u64, n: u64, spread: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Hist {
    pub pool: u32,
    /// (kind, first degree) of the rules each client owns
    pub own: Vec<(Kind, u32)>,
    pub clients: Vec<Vec<HStep>>,
    /// repeat the whole history this many times
    pub repeat: u32,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Format {
    Json,
    Bincode,
    Cbor,
    Ron,
    Tape,
    Rkyv,
    /// the in-memory bytes, through the zerocopy feature (parameters only)
    Zc,
}
pub const FORMATS: [Format; 6] =
    [Format::Json, Format::Bincode, Format::Cbor, Format::Ron, Format::Tape, Format::Rkyv];

/// What the storage path does to one transfer.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Default)]
pub struct IoFaults {
    /// longest transfer per call (0: no limit)
    pub chunk: u64,
    /// percent of calls that return Interrupted
    pub eintr_pct: u32,
    /// the k-th call fails for good: 0 none, else k+1
    pub fail_at: u64,
    /// kind of that failure: 0 EIO, 1 ENOSPC/UnexpectedEof
    pub fail_kind: u8,
    /// the k-th callback into the data format fails: 0 none, else k+1
    pub codec_at: u64,
    /// style bits of the Tape format
    pub style: u32,
    pub seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum SOp {
    /// `param`: only the rule's alpha is stored, as a value of its own
    Save { slot: u32, rule: RuleSpec, param: bool, fmt: Format, io: IoFaults },
    Load { slot: u32, io: IoFaults },
    /// power loss: only synced bytes, plus an arbitrary prefix of the unsynced ones, survive
    Crash { seed: u64 },
    /// stop in the middle of the next save after this many disk operations
    CrashIn { ops: u64, seed: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Store {
    pub ops: Vec<SOp>,
    /// size of the disk in bytes (0: unlimited)
    pub capacity: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Damage {
    Truncate(u64),
    FlipBits(u64, u32),
    /// head of the first record, tail of the second
    Splice(u64),
    /// part of the record replaced by zeros (a lost page)
    Zero(u64, u64),
    DropField(u64),
    DupField(u64),
    /// the field's value replaced by one of the adversary's values
    SetField(u64, u64),
    /// drop one number out of the record's pairs
    DropLeaf(u64),
    /// the record of a different rule type is loaded
    OtherType(Kind),
}
impl Damage {
    /// The same damage some positions further.
    pub fn moved(self, t: u64) -> Damage {
        match self {
            Damage::Truncate(k) => Damage::Truncate(k.wrapping_add(t)),
            Damage::FlipBits(k, n) => Damage::FlipBits(k.wrapping_add(t), n),
            Damage::Splice(k) => Damage::Splice(k.wrapping_add(t)),
            Damage::Zero(k, n) => Damage::Zero(k.wrapping_add(t), n),
            Damage::DropField(k) => Damage::DropField(k.wrapping_add(t)),
            Damage::DupField(k) => Damage::DupField(k.wrapping_add(t)),
            Damage::SetField(f, k) => Damage::SetField(f, k.wrapping_add(t)),
            Damage::DropLeaf(k) => Damage::DropLeaf(k.wrapping_add(t)),
            d @ Damage::OtherType(_) => d,
        }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Damaged {
    pub rule: RuleSpec,
    pub other: RuleSpec,
    /// load only the parameter type
    pub param_only: bool,
    pub fmt: Format,
    pub damage: Vec<Damage>,
    pub style: u32,
    /// that many trials, the position of the last damage one further each time
    pub sweep: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum OomOp {
    Build,
    Clone,
    Convert,
    IntoPairs,
    IntoIter,
    Iterate,
    Integrate { a: f64, b: f64, vseed: u64, par: bool },
    Save(Format),
    Load(Format),
    Debug,
    /// Newton-Cotes: change the degree, then integrate
    Change { deg: u32, a: f64, b: f64, vseed: u64 },
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Oom {
    pub rule: RuleSpec,
    pub op: OomOp,
    pub at: u64,
    pub len: u64,
    pub pool: u32,
}

/// Operations that must complete without any heap.
pub fn heap_free(o: &Oom) -> bool {
    o.rule.kind.is_nc()
        && matches!(
            o.op,
            OomOp::Build
                | OomOp::Clone
                | OomOp::Iterate
                | OomOp::IntoIter
                | OomOp::Integrate { par: false, .. }
                | OomOp::Change { .. }
        )
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum LeakOp {
    Integ { par: bool, a: f64, b: f64, vseed: u64, panic: Option<u64> },
    Build,
    Clone,
    Convert,
    IntoPairs,
    /// owning iterator dropped after k items
    IntoIter(u64),
    Iter(u64),
    SaveLoad(Format),
    /// load of a record cut after this many permille
    BadLoad(Format, u64),
    Change(u32),
    Debug,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Leak {
    pub pool: u32,
    pub rules: Vec<RuleSpec>,
    pub cycle: Vec<(usize, LeakOp)>,
    pub reps: u32,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum View {
    Nodes,
    Weights,
    Iter,
    IntoIter,
    RefIntoIter,
}
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum IOp {
    Next,
    Back,
    Nth(u64),
    NthBack(u64),
    Len,
    Hint,
    Slice,
    CountClone,
    LastClone,
    CollectClone,
    RevClone,
    FoldClone,
    RFoldClone,
    /// any of skip/step_by/chain adaptors over a copy
    StepClone(u64),
    FindClone(u64),
    /// a copy is stored
    Save,
    /// the shared iterator is replaced by the stored copy (a restarted worker resumes)
    Resume,
    /// the worker crashes while holding the iterator
    Crash,
    /// the worker crashes inside a loop over the shared iterator, after this many items
    CrashIn(u64),
    /// searches in the shared iterator (consumes what it passes)
    FindShared(u64),
    /// takes that many through an adaptor on the shared iterator
    TakeShared(u64),
    /// walks an iterator of its own over the shared rule, without the lock
    Fresh(View, u64),
    Format,
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Iter {
    pub rule: RuleSpec,
    pub view: View,
    pub workers: Vec<Vec<IOp>>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Body {
    Conc(Conc),
    Hist(Hist),
    Store(Store),
    Damaged(Damaged),
    Oom(Oom),
    Leak(Leak),
    Iter(Iter),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Plan {
    pub check: String,
    /// "full": std + rayon; "libm": no_std arithmetic without rayon
    pub flavour: String,
    pub index: u64,
    pub sched: SchedParams,
    pub body: Body,
}

/// What one run ended with.
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Ok,
    Violation { class: String, msg: String },
    /// the run gave no verdict (watchdog, resource limit): counted, never reported
    Nothing(String),
}

/// Which violation classes a check reports. A class seen in a run of another check is that other property's business.
pub fn classes(check: &str) -> &'static [&'static str] {
    match check {
        "C01" => &["sum", "panic", "abort", "deadlock", "no-progress"],
        "C02" => &["count", "early-eval", "late-eval", "panic", "abort"],
        "C03" => &["ctor", "ctor-panic", "abort", "deadlock", "no-progress"],
        "C04" => &[
            "panic-lost", "panic-foreign", "panic", "late-eval", "rule-changed", "sum", "count", "nested", "nested-count", "ctor", "abort", "deadlock",
            "no-progress",
        ],
        "C05" => &["history"],
        "C06" => &["nested", "nested-count", "panic", "abort", "deadlock", "no-progress"],
        "C07" => &["deadlock", "no-progress"],
        "C08" => &["store", "store-panic", "no-impl", "abort", "no-progress"],
        "C09" => &["damage", "damage-zerocopy", "damage-panic", "abort", "no-progress"],
        "C10" => &["nonfinite"],
        "C11" => &["oom", "oom-heap"],
        "C12" => &["leak", "drop"],
        "C13" => &["iter", "iter-panic", "abort", "deadlock", "no-progress"],
        _ => &[],
    }
}
pub type Refs = std::collections::BTreeMap<String, Vec<u64>>;

/// Lookup outside the instrumented crates: its cost depends on what else is in the map.
pub fn look<'a>(r: &'a Refs, k: &str) -> Option<&'a Vec<u64>> {
    r.get(k)
}

/// Something computed in a process of its own, before a run, to compare against.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum RefJob {
    Rule(RuleSpec),
    Hist(HOp),
    Oom(RuleSpec, OomOp),
}
