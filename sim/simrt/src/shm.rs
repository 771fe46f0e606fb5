//! Memory shared between a worker process and the forked child that executes one simulated run.
use std::sync::atomic::{AtomicPtr, Ordering};

pub const TRACE_CAP: usize = 1 << 16;
pub const BLOB_CAP: usize = 1 << 22;

/// One scheduling decision: at global step `step`, of kind `kind`, the value `val` was chosen.
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dec {
    pub step: u64,
    pub kind: u8,
    pub val: u32,
}

pub const K_PREEMPT: u8 = b'P';
pub const K_FORCED: u8 = b'F';
pub const K_YIELD: u8 = b'Y';
pub const K_WAKE: u8 = b'W';
pub const K_STALL: u8 = b'S';
pub const K_SPURIOUS: u8 = b'X';
pub const K_FAIR: u8 = b'R';

pub const ST_RUNNING: u32 = 0;
pub const ST_OK: u32 = 1;
pub const ST_VIOLATION: u32 = 2;
pub const ST_HARNESS: u32 = 3;

macro_rules! stats {
    ($($n:ident),* $(,)?) => {
        /// Counters of one run (all measured where the thing happens).
        #[repr(C)]
        #[derive(Clone, Copy, Debug, Default)]
        pub struct Stats { $(pub $n: u64),* }
        impl Stats {
            pub fn add(&mut self, o: &Stats) { $(self.$n += o.$n;)* }
            pub fn list(&self) -> Vec<(&'static str, u64)> { vec![$((stringify!($n), self.$n)),*] }
        }
    };
}
stats! {
    steps, switches, preemptions, preempt_hot, preempt_shared, preempt_conflict, yields, forced, futex_waits, futex_wakes,
    threads, clock_jumps, sim_ns,
    f_spurious_wake, f_stall, f_panic, f_nan, f_inf, f_slow, f_alloc_fail,
    f_short_io, f_eintr, f_enospc, f_eio, f_torn, f_bitflip, f_truncate, f_crash, f_splice, f_dropfield, f_codec_err,
    f_worker_crash, f_early_drop,
    evals, ops, evals_off_caller, evals_in_stolen, max_threads_in_call, nested_evals, constructs,
    p_par_split, p_panic_multi, p_panic_nested, p_panic_contained, p_eval_ge_50k, p_panic_on_worker, p_busy_pool, p_single_pool, p_from_inside_pool, p_two_pools, p_across_pools, p_degree_ge_100,
    p_degree_ge_1000, p_rejected_damage, p_accepted_damage, p_recovered, p_aborted_oom, p_resume,
}

#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub class_len: u32,
    pub class: [u8; 64],
    pub msg_len: u32,
    pub msg: [u8; 4096],
    pub hash: u64,
    pub inter: u64,
    pub stats: Stats,
    pub trace_len: u64,
    pub trace_overflow: u64,
    pub blob_len: u64,
    pub trace: [Dec; TRACE_CAP],
    pub blob: [u8; BLOB_CAP],
}

static PTR: AtomicPtr<Shm> = AtomicPtr::new(std::ptr::null_mut());

/// Maps a fresh shared region and makes it the current one of this process (and of its future children).
pub fn map() -> *mut Shm {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shm>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        PTR.store(p as *mut Shm, Ordering::Relaxed);
        p as *mut Shm
    }
}

pub fn get() -> *mut Shm {
    PTR.load(Ordering::Relaxed)
}

pub fn stats() -> &'static mut Stats {
    unsafe { &mut (*get()).stats }
}

pub fn reset() {
    unsafe {
        let s = get();
        (*s).status = ST_RUNNING;
        (*s).class_len = 0;
        (*s).msg_len = 0;
        (*s).hash = 0;
        (*s).inter = 0;
        (*s).stats = Stats::default();
        (*s).trace_len = 0;
        (*s).trace_overflow = 0;
        (*s).blob_len = 0;
    }
}

pub fn set_result(status: u32, class: &str, msg: &str) {
    unsafe {
        let s = &mut *get();
        let c = class.as_bytes();
        let n = c.len().min(s.class.len());
        s.class[..n].copy_from_slice(&c[..n]);
        s.class_len = n as u32;
        let m = msg.as_bytes();
        let n = m.len().min(s.msg.len());
        s.msg[..n].copy_from_slice(&m[..n]);
        s.msg_len = n as u32;
        s.status = status;
    }
}

pub fn put_blob(b: &[u8]) {
    unsafe {
        let s = &mut *get();
        assert!(b.len() <= BLOB_CAP, "blob too large");
        s.blob[..b.len()].copy_from_slice(b);
        s.blob_len = b.len() as u64;
    }
}
