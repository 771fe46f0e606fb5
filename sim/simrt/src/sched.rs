//! Scheduler state and decisions. All statics here are touched only by the thread that holds the token.
use crate::rng::{mix, Rng};
use crate::shm::{self, *};
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAX_TH: usize = 192;

#[derive(Clone, Debug)]
pub struct SchedCfg {
    pub seed: u64,
    /// false: random walk, true: random priorities with change points (PCT)
    pub pct: bool,
    /// mean distance in instrumentation points between preemptions anywhere (0: never)
    pub fine_mean: u64,
    /// probability (per 65536) of a preemption at an access to memory that is neither own stack nor a static
    pub shared_p: u32,
    /// same for accesses to writable statics
    pub hot_p: u32,
    /// same for accesses to words that several threads use, one of them writing
    pub conf_p: u32,
    /// same for coarse points: integrand evaluations, wake-ups, thread creation
    pub coarse_p: u32,
    /// probability (per 65536) at a coarse point that some thread stalls
    pub stall_p: u32,
    /// how long a stall lasts, in steps
    pub stall_len: u64,
    /// probability (per 65536) that a futex wait returns spuriously
    pub spurious_p: u32,
    pub max_steps: u64,
    /// coarse decisions allowed without any progress event
    pub progress_cap: u64,
    /// what sched_getaffinity reports
    pub cpus: u32,
    /// replay these decisions instead of drawing new ones
    pub replay: Option<Vec<Dec>>,
}

impl Default for SchedCfg {
    fn default() -> Self {
        SchedCfg {
            seed: 0,
            pct: false,
            fine_mean: 0,
            shared_p: 0,
            hot_p: 0,
            conf_p: 0,
            coarse_p: 0,
            stall_p: 0,
            stall_len: 0,
            spurious_p: 0,
            max_steps: 3_000_000_000,
            progress_cap: 400_000,
            cpus: 4,
            replay: None,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub(crate) enum St {
    Free,
    Runnable,
    Futex { addr: usize, bits: u32, deadline: u64 },
    Join(usize),
    Sleep(u64),
    Done,
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub(crate) enum Why {
    Woken,
    Timeout,
}

pub(crate) struct Th {
    pub st: St,
    pub why: Why,
    pub sem: AtomicU32,
    pub prio: i64,
    pub stall_until: u64,
    pub lo: usize,
    pub hi: usize,
    pub pthread: libc::pthread_t,
    pub order: u64,
}

const TH0: Th = Th {
    st: St::Free,
    why: Why::Woken,
    sem: AtomicU32::new(0),
    prio: 0,
    stall_until: 0,
    lo: 0,
    hi: 0,
    pthread: 0,
    order: 0,
};
pub(crate) static mut TH: [Th; MAX_TH] = [TH0; MAX_TH];
pub(crate) static mut NTH: usize = 0;
pub(crate) static mut CUR: usize = 0;
pub(crate) static mut ACTIVE: bool = false;
pub(crate) static mut STEP: u64 = 0;
pub(crate) static mut NEXT: u64 = u64::MAX;
pub(crate) static mut MEM_ON: bool = false;
pub(crate) static mut LO: usize = 0;
pub(crate) static mut HI: usize = 0;
static mut DATA: (usize, usize) = (0, 0);
static mut HOT_P: u32 = 0;
static mut SHARED_P: u32 = 0;
static mut CONF_P: u32 = 0;
#[derive(Clone, Copy)]
struct Word {
    key: usize,
    writer: u8,
    /// 0: one thread only so far; then the number of preemptions made here, plus one
    heat: u16,
}
const WORDS: usize = 1 << 13;
static mut NWORDS: usize = 0;
static mut WORD: [Word; WORDS] = [Word { key: 0, writer: 0, heat: 0 }; WORDS];
/// A filter that lets accesses to the own stack pass quickly. Neither it nor the place of a word in the
/// table has any effect on a run: addresses differ from process to process.
pub(crate) static mut WATCH: [u8; 4096] = [0; 4096];
static mut FINE_NEXT: u64 = u64::MAX;
static mut RNG: Rng = Rng::new(0);
static mut CFG: Option<SchedCfg> = None;
static mut HASH: u64 = 0;
static mut INTER: u64 = 0;
static mut NOW: u64 = 0;
static mut IDLE: u64 = 0;
static mut ORDER: u64 = 0;
static mut LOWEST: i64 = 0;
static mut PREEMPTS: Vec<Dec> = Vec::new();
static mut PPOS: usize = 0;
static mut FORCED: Vec<Dec> = Vec::new();
static mut FPOS: usize = 0;
static mut REPLAY: bool = false;
static mut NOPREEMPT: u32 = 0;
static mut LAST_SWITCH: u64 = 0;
static mut LAST_EVENT: u64 = 0;
/// a thread that runs this long while others are ready is preempted (fairness, also for spinning waiters)
const FAIR: u64 = 2_000_000;
/// that many instrumented steps without any progress event are reported
const STUCK: u64 = 250_000_000;

extern "C" {
    static __data_start: u8;
    static _end: u8;
}

pub fn cur() -> usize {
    unsafe { CUR }
}
pub fn active() -> bool {
    unsafe { ACTIVE }
}
pub fn step() -> u64 {
    unsafe { STEP }
}
pub fn now_ns() -> u64 {
    unsafe { NOW + STEP * 10 }
}
pub fn event_hash() -> u64 {
    unsafe { HASH }
}

#[inline]
fn fold(h: u64, v: u64) -> u64 {
    mix(h ^ v.wrapping_mul(0x9e3779b97f4a7c15)).wrapping_add(v)
}

/// Mixes an application event into the run's event hash and marks progress.
pub fn event(v: u64) {
    unsafe {
        if ACTIVE {
            HASH = fold(HASH, v ^ ((CUR as u64) << 56) ^ STEP.rotate_left(20));
            INTER = fold(INTER, v.wrapping_mul(MAX_TH as u64) + CUR as u64);
            IDLE = 0;
            LAST_EVENT = STEP;
        }
    }
}

/// Starts the simulation in this (single-threaded) process; the caller becomes thread 0.
pub fn start(cfg: SchedCfg) {
    unsafe {
        assert!(!ACTIVE);
        let local = 0u8;
        let here = &local as *const u8 as usize;
        TH[0] = TH0;
        TH[0].st = St::Runnable;
        TH[0].lo = here - (8 << 20);
        TH[0].hi = here + (1 << 20);
        TH[0].pthread = libc::pthread_self();
        NTH = 1;
        CUR = 0;
        LO = TH[0].lo;
        HI = TH[0].hi;
        STEP = 0;
        NOW = 0;
        HASH = mix(cfg.seed);
        INTER = 0;
        RNG = Rng::new(cfg.seed ^ 0x5ced);
        DATA = (
            std::ptr::addr_of!(__data_start) as usize,
            std::ptr::addr_of!(_end) as usize,
        );
        HOT_P = cfg.hot_p;
        SHARED_P = cfg.shared_p;
        CONF_P = cfg.conf_p;
        REPLAY = cfg.replay.is_some();
        MEM_ON = !REPLAY && (HOT_P > 0 || SHARED_P > 0 || CONF_P > 0);
        if let Some(t) = &cfg.replay {
            PREEMPTS = t.iter().copied().filter(|d| d.kind == K_PREEMPT || d.kind == K_STALL).collect();
            FORCED = t.iter().copied().filter(|d| d.kind != K_PREEMPT && d.kind != K_STALL).collect();
            PPOS = 0;
            FPOS = 0;
        }
        TH[0].prio = RNG.below(1 << 20) as i64;
        CFG = Some(cfg);
        FINE_NEXT = u64::MAX;
        LAST_SWITCH = 0;
        LAST_EVENT = 0;
        plan_next();
        crate::hooks::prepare();
        ACTIVE = true;
    }
}

/// Ends the simulated run successfully: stores counters and leaves the process.
pub fn finish() -> ! {
    unsafe {
        if shm::get().is_null() {
            libc::_exit(0)
        }
        flush();
        if (*shm::get()).status == ST_RUNNING {
            (*shm::get()).status = ST_OK;
        }
        libc::_exit(0)
    }
}

/// The process is about to abort: stores the counters gathered so far.
pub unsafe fn aborting() {
    if ACTIVE && !shm::get().is_null() {
        event(0xab07);
        flush();
    }
}

unsafe fn flush() {
    ACTIVE = false;
    let s = &mut *shm::get();
    s.hash = HASH;
    s.inter = INTER;
    s.stats.steps = STEP;
    s.stats.sim_ns = now_ns();
    s.stats.threads = NTH as u64;
}

/// Reports a violation of class `class` and ends the run.
pub fn violation(class: &str, msg: &str) -> ! {
    unsafe {
        crate::alloc::fail_stop();
        crate::alloc::count_stop();
        if shm::get().is_null() {
            eprintln!("violation {class}: {msg}");
            libc::_exit(1)
        }
        event(0xdead);
        flush();
        if (*shm::get()).status == ST_RUNNING {
            shm::set_result(ST_VIOLATION, class, msg);
        }
        libc::_exit(0)
    }
}

/// A fault of the harness itself (not a verdict).
pub fn harness_error(msg: &str) -> ! {
    unsafe {
        if !shm::get().is_null() {
            flush();
            shm::set_result(ST_HARNESS, "harness", msg);
        } else {
            eprintln!("harness error: {msg}");
        }
        libc::_exit(4)
    }
}

/// While the returned guard lives the current thread is not preempted (oracle sections).
pub struct NoPreempt(());
pub fn no_preempt() -> NoPreempt {
    unsafe { NOPREEMPT += 1 }
    NoPreempt(())
}
impl Drop for NoPreempt {
    fn drop(&mut self) {
        unsafe { NOPREEMPT -= 1 }
    }
}

unsafe fn cfg() -> &'static SchedCfg {
    match &CFG {
        Some(c) => c,
        None => std::hint::unreachable_unchecked(),
    }
}

unsafe fn record(kind: u8, val: u32) {
    let s = &mut *shm::get();
    let n = s.trace_len as usize;
    if n < TRACE_CAP {
        s.trace[n] = Dec { step: STEP, kind, val };
        s.trace_len += 1;
    } else {
        s.trace_overflow += 1;
    }
    HASH = fold(HASH, STEP ^ ((kind as u64) << 40) ^ ((val as u64) << 50));
}

unsafe fn plan_next() {
    let c = cfg();
    if !REPLAY {
        FINE_NEXT = if c.fine_mean > 0 { STEP + RNG.gap(c.fine_mean) } else { u64::MAX };
    }
    plan_keep();
}

unsafe fn plan_keep() {
    let c = cfg();
    if REPLAY {
        NEXT = if PPOS < PREEMPTS.len() { PREEMPTS[PPOS].step } else { u64::MAX };
    } else {
        NEXT = FINE_NEXT;
    }
    let fair = LAST_SWITCH + FAIR;
    NEXT = NEXT.min(c.max_steps).min(if fair > STEP { fair } else { STEP + FAIR });
}

#[inline]
unsafe fn ready(i: usize) -> bool {
    TH[i].st == St::Runnable && TH[i].stall_until <= STEP
}

/// Chooses among ready threads other than `not`; usize::MAX if there is none.
unsafe fn choose(not: usize) -> usize {
    let mut n = 0;
    let mut best = usize::MAX;
    for i in 0..NTH {
        if i != not && ready(i) {
            n += 1;
            if best == usize::MAX || TH[i].prio > TH[best].prio {
                best = i;
            }
        }
    }
    if n == 0 {
        return usize::MAX;
    }
    if cfg().pct {
        return best;
    }
    let mut k = RNG.below(n);
    for i in 0..NTH {
        if i != not && ready(i) {
            if k == 0 {
                return i;
            }
            k -= 1;
        }
    }
    usize::MAX
}

/// The replayed choice for this step, or the next ready thread in round-robin order.
unsafe fn replay_choice(kind: u8, not: usize) -> usize {
    if let Some(v) = replay_value(kind) {
        let v = v as usize;
        if v < NTH && v != not && ready(v) {
            return v;
        }
    }
    for d in 1..=NTH {
        let i = (CUR + d) % NTH;
        if i != not && ready(i) {
            return i;
        }
    }
    usize::MAX
}

unsafe fn replay_value(kind: u8) -> Option<u32> {
    while FPOS < FORCED.len() && FORCED[FPOS].step < STEP {
        FPOS += 1;
    }
    let mut i = FPOS;
    while i < FORCED.len() && FORCED[i].step == STEP {
        if FORCED[i].kind == kind {
            return Some(FORCED[i].val);
        }
        i += 1;
    }
    None
}

pub(crate) unsafe fn post(i: usize) {
    TH[i].sem.store(1, Ordering::Release);
    crate::hooks::raw_syscall(
        libc::SYS_futex,
        &TH[i].sem as *const _ as i64,
        (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64,
        1,
        0,
        0,
        0,
    );
}

pub(crate) unsafe fn wait(i: usize) {
    loop {
        if TH[i].sem.swap(0, Ordering::Acquire) == 1 {
            return;
        }
        crate::hooks::raw_syscall(
            libc::SYS_futex,
            &TH[i].sem as *const _ as i64,
            (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64,
            0,
            0,
            0,
            0,
        );
    }
}

unsafe fn switch_to(next: usize) {
    let me = CUR;
    if next == me {
        return;
    }
    shm::stats().switches += 1;
    INTER = fold(INTER, 0x1000 + next as u64);
    CUR = next;
    LO = TH[next].lo;
    HI = TH[next].hi;
    LAST_SWITCH = STEP;
    post(next);
    wait(me);
}

unsafe fn do_preempt(which: u8) {
    if NOPREEMPT > 0 {
        return;
    }
    let next = choose(CUR);
    if cfg().pct && which != 1 && which != 3 {
        // change point: the current thread drops to the lowest priority
        LOWEST -= 1;
        TH[CUR].prio = LOWEST;
    }
    if next == usize::MAX {
        return;
    }
    let st = shm::stats();
    st.preemptions += 1;
    match which {
        1 => st.preempt_hot += 1,
        2 => st.preempt_shared += 1,
        3 => st.preempt_conflict += 1,
        _ => {}
    }
    record(K_PREEMPT, next as u32);
    switch_to(next);
}

#[cold]
#[inline(never)]
pub(crate) unsafe fn slow() {
    let c = cfg();
    if STEP >= c.max_steps {
        violation("no-progress", &format!("step limit {} reached", c.max_steps));
    }
    if STEP - LAST_EVENT > STUCK {
        violation("no-progress", &format!("{STUCK} steps without progress: {}", describe()));
    }
    if REPLAY {
        while PPOS < PREEMPTS.len() && PREEMPTS[PPOS].step <= STEP {
            let d = PREEMPTS[PPOS];
            PPOS += 1;
            if d.step == STEP {
                let v = d.val as usize;
                if d.kind == K_STALL {
                    apply_stall(v);
                } else if v < NTH && v != CUR && ready(v) && NOPREEMPT == 0 {
                    shm::stats().preemptions += 1;
                    record(K_PREEMPT, d.val);
                    LAST_SWITCH = STEP;
                    plan_next();
                    switch_to(v);
                    return;
                }
            }
        }
        if STEP - LAST_SWITCH >= FAIR && NOPREEMPT == 0 {
            let v = replay_choice(K_FAIR, CUR);
            LAST_SWITCH = STEP;
            plan_next();
            if v != usize::MAX {
                record(K_PREEMPT, v as u32);
                switch_to(v);
            }
            return;
        }
        plan_next();
    } else if STEP >= FINE_NEXT {
        plan_next();
        do_preempt(0);
    } else if STEP - LAST_SWITCH >= FAIR {
        LAST_SWITCH = STEP;
        plan_next();
        do_preempt(0);
    } else {
        plan_keep();
    }
}

/// Called by the instrumentation for every access to memory that is not on the thread's own stack,
/// and for accesses to words of the own stack that another thread may have written.
#[cold]
#[inline(never)]
pub(crate) unsafe fn mem_slow(addr: usize, write: bool) {
    let mut which = 0;
    if CONF_P > 0 && conflict(addr, write) {
        which = 3;
    } else if addr < LO || addr >= HI {
        let (p, w) = if addr >= DATA.0 && addr < DATA.1 { (HOT_P, 1) } else { (SHARED_P, 2) };
        if p > 0 && (RNG.u64() & 0xffff) < p as u64 {
            which = w;
        }
    }
    if which != 0 {
        do_preempt(which);
    }
}

/// Keeps the words that more than one thread uses with at least one of them writing; such an access is
/// where lost updates and torn sequences start, so it is preempted far more often than others.
unsafe fn conflict(addr: usize, write: bool) -> bool {
    let key = addr >> 3;
    let mut k = key.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 51;
    while WORD[k].key != key {
        if WORD[k].key == 0 {
            if write && (addr < LO || addr >= HI) {
                if NWORDS >= WORDS / 4 * 3 {
                    WORD = [Word { key: 0, writer: 0, heat: 0 }; WORDS];
                    WATCH = [0; 4096];
                    NWORDS = 0;
                    k = key.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 51;
                }
                NWORDS += 1;
                WORD[k] = Word { key, writer: CUR as u8, heat: 0 };
                WATCH[key % WATCH.len()] = 1;
            }
            return false;
        }
        k = (k + 1) % WORDS;
    }
    let w = &mut WORD[k];
    if w.writer != CUR as u8 && w.heat == 0 {
        w.heat = 1;
    }
    if write {
        w.writer = CUR as u8;
    }
    // words that stay busy cool down
    let p = CONF_P >> (w.heat / 64).min(16);
    if w.heat > 0 && (RNG.u64() & 0xffff) < p as u64 {
        w.heat = w.heat.saturating_add(1);
        return true;
    }
    false
}

/// The memory is given back: what is known about its words must not depend on where its next use is placed.
pub(crate) unsafe fn forget(from: usize, len: usize) {
    if !(ACTIVE && MEM_ON && CONF_P > 0 && NWORDS > 0) || len == 0 {
        return;
    }
    let (lo, hi) = (from >> 3, (from + len - 1) >> 3);
    if hi - lo >= WORDS {
        for w in &mut *std::ptr::addr_of_mut!(WORD) {
            if w.key >= lo && w.key <= hi {
                w.key = 1;
            }
        }
        return;
    }
    for key in lo..=hi {
        if WATCH[key % WATCH.len()] == 0 {
            continue;
        }
        let mut k = key.wrapping_mul(0x9e37_79b9_7f4a_7c15) >> 51;
        while WORD[k].key != 0 {
            if WORD[k].key == key {
                WORD[k].key = 1;
                break;
            }
            k = (k + 1) % WORDS;
        }
    }
}

unsafe fn apply_stall(v: usize) {
    if v < NTH && TH[v].st != St::Done {
        TH[v].stall_until = STEP + cfg().stall_len;
        shm::stats().f_stall += 1;
        record(K_STALL, v as u32);
    }
}

/// A coarse scheduling point (integrand evaluation, wake-up, thread start, storage operation).
pub fn point() {
    unsafe {
        if !ACTIVE || NOPREEMPT > 0 {
            return;
        }
        STEP += 1;
        if STEP >= NEXT {
            slow();
            return;
        }
        if REPLAY {
            return;
        }
        let c = cfg();
        if c.stall_p > 0 && (RNG.u64() & 0xffff) < c.stall_p as u64 {
            let v = RNG.below(NTH as u64) as usize;
            apply_stall(v);
        }
        if c.coarse_p > 0 && (RNG.u64() & 0xffff) < c.coarse_p as u64 {
            do_preempt(0);
        }
    }
}

unsafe fn idle_tick() {
    IDLE += 1;
    if IDLE > cfg().progress_cap {
        violation("no-progress", &format!("{IDLE} scheduling decisions without progress: {}", describe()));
    }
}

/// The current thread gives up the processor voluntarily.
pub(crate) unsafe fn do_yield() {
    STEP += 1;
    shm::stats().yields += 1;
    if STEP >= cfg().max_steps {
        slow();
    }
    idle_tick();
    if NOPREEMPT > 0 {
        return;
    }
    if cfg().pct && !REPLAY {
        LOWEST -= 1;
        TH[CUR].prio = LOWEST;
    }
    let me = CUR;
    let next = if REPLAY { replay_choice(K_YIELD, me) } else { choose(me) };
    if next == usize::MAX {
        // everyone else is blocked or stalled: let a stalled thread go on
        unstall();
        return;
    }
    record(K_YIELD, next as u32);
    switch_to(next);
}

unsafe fn unstall() -> bool {
    let mut best = usize::MAX;
    for i in 0..NTH {
        if TH[i].st == St::Runnable && TH[i].stall_until > STEP && (best == usize::MAX || TH[i].stall_until < TH[best].stall_until)
        {
            best = i;
        }
    }
    if best == usize::MAX {
        return false;
    }
    TH[best].stall_until = 0;
    true
}

/// Picks who runs when the current thread cannot; advances the clock if only timers are left.
unsafe fn pick_any() -> usize {
    loop {
        let next = if REPLAY { replay_choice(K_FORCED, usize::MAX) } else { choose(usize::MAX) };
        if next != usize::MAX {
            return next;
        }
        if unstall() {
            continue;
        }
        let mut best = u64::MAX;
        for i in 0..NTH {
            match TH[i].st {
                St::Futex { deadline, .. } if deadline > 0 => best = best.min(deadline),
                St::Sleep(d) => best = best.min(d),
                _ => {}
            }
        }
        if best == u64::MAX {
            violation("deadlock", &format!("every simulated thread is blocked: {}", describe()));
        }
        if best > now_ns() {
            NOW = best - STEP * 10;
            shm::stats().clock_jumps += 1;
        }
        for i in 0..NTH {
            let due = match TH[i].st {
                St::Futex { deadline, .. } => deadline > 0 && deadline <= now_ns(),
                St::Sleep(d) => d <= now_ns(),
                _ => false,
            };
            if due {
                TH[i].st = St::Runnable;
                TH[i].why = Why::Timeout;
            }
        }
    }
}

pub(crate) unsafe fn block(st: St) -> Why {
    STEP += 1;
    let me = CUR;
    if NOPREEMPT > 0 {
        harness_error("thread blocked inside an oracle section");
    }
    TH[me].st = st;
    TH[me].why = Why::Woken;
    idle_tick();
    ORDER += 1;
    TH[me].order = ORDER;
    let next = pick_any();
    shm::stats().forced += 1;
    record(K_FORCED, next as u32);
    switch_to(next);
    TH[me].why
}

pub(crate) unsafe fn exit_current() {
    STEP += 1;
    let me = CUR;
    TH[me].st = St::Done;
    forget(TH[me].lo, TH[me].hi - TH[me].lo);
    IDLE = 0;
    for i in 0..NTH {
        if TH[i].st == St::Join(me) {
            TH[i].st = St::Runnable;
        }
    }
    let next = pick_any();
    record(K_FORCED, next as u32);
    shm::stats().switches += 1;
    CUR = next;
    LO = TH[next].lo;
    HI = TH[next].hi;
    post(next);
}

pub(crate) unsafe fn futex_wait(addr: usize, expected: u32, bits: u32, deadline: u64) -> i32 {
    shm::stats().futex_waits += 1;
    point();
    if (*(addr as *const AtomicU32)).load(Ordering::SeqCst) != expected {
        return libc::EAGAIN;
    }
    let sp = if REPLAY {
        replay_value(K_SPURIOUS).is_some()
    } else {
        let p = cfg().spurious_p;
        p > 0 && (RNG.u64() & 0xffff) < p as u64
    };
    if sp {
        // legal for a futex: returns although nobody woke it
        shm::stats().f_spurious_wake += 1;
        record(K_SPURIOUS, 0);
        do_yield();
        return 0;
    }
    match block(St::Futex { addr, bits, deadline }) {
        Why::Woken => 0,
        Why::Timeout => libc::ETIMEDOUT,
    }
}

pub(crate) unsafe fn futex_wake(addr: usize, n: i32, bits: u32) -> i32 {
    STEP += 1;
    let mut woken = 0;
    while woken < n {
        // FIFO is what the kernel mostly does, but any order is legal
        let mut cand: [usize; MAX_TH] = [0; MAX_TH];
        let mut k = 0;
        for i in 0..NTH {
            if let St::Futex { addr: a, bits: b, .. } = TH[i].st {
                if a == addr && (b & bits) != 0 {
                    cand[k] = i;
                    k += 1;
                }
            }
        }
        if k == 0 {
            break;
        }
        let mut pick = cand[0];
        for &c in &cand[..k] {
            if TH[c].order < TH[pick].order {
                pick = c;
            }
        }
        if k > 1 {
            if REPLAY {
                if let Some(v) = replay_value(K_WAKE) {
                    if cand[..k].contains(&(v as usize)) {
                        pick = v as usize;
                    }
                }
            } else if RNG.chance(1, 2) {
                pick = cand[RNG.below(k as u64) as usize];
            }
            record(K_WAKE, pick as u32);
            STEP += 1;
        }
        TH[pick].st = St::Runnable;
        TH[pick].why = Why::Woken;
        woken += 1;
    }
    shm::stats().futex_wakes += woken as u64;
    if woken > 0 {
        point();
    }
    woken
}

pub(crate) unsafe fn new_thread() -> usize {
    if NTH >= MAX_TH {
        harness_error("too many simulated threads");
    }
    let i = NTH;
    TH[i] = TH0;
    TH[i].prio = RNG.below(1 << 20) as i64;
    TH[i].st = St::Runnable;
    NTH += 1;
    i
}

pub(crate) unsafe fn describe() -> String {
    let mut s = String::new();
    for i in 0..NTH {
        s.push_str(&format!("t{i}:{:?} ", TH[i].st));
    }
    s
}

/// Sleeps in simulated time.
pub fn sleep_ns(ns: u64) {
    unsafe {
        if ACTIVE {
            let d = now_ns() + ns;
            block(St::Sleep(d));
        }
    }
}

/// Where the simulated clock starts: anywhere in about thirty years.
pub(crate) fn base_ns() -> u64 {
    unsafe { 1_000_000_000_000 + mix(cfg().seed ^ 0xc10c) % 1_000_000_000_000_000_000 }
}
/// What the operating system's random numbers depend on.
pub(crate) fn random_seed() -> u64 {
    unsafe { mix(cfg().seed ^ 0x4a4d) }
}
pub fn cpus() -> u32 {
    unsafe { cfg().cpus }
}
