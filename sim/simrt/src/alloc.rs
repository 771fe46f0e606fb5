//! The allocator seam: counts live memory and fails chosen requests.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

static mut COUNT_ON: bool = false;
static mut LIVE: i64 = 0;
static mut BLOCKS: i64 = 0;
static mut REQUESTS: u64 = 0;
static mut FAIL_ON: bool = false;
static mut FAIL_AT: u64 = 0;
static mut FAIL_LEN: u64 = 0;
static mut FAIL_SEEN: u64 = 0;
static mut FAILED: u64 = 0;
static mut FAIL_TID: usize = usize::MAX;

/// Starts counting live bytes/blocks (relative to now) and requests.
pub fn count_start() {
    unsafe {
        LIVE = 0;
        BLOCKS = 0;
        REQUESTS = 0;
        COUNT_ON = true;
    }
}
pub fn count_stop() {
    unsafe { COUNT_ON = false }
}
pub fn live() -> (i64, i64) {
    unsafe { (LIVE, BLOCKS) }
}
pub fn requests() -> u64 {
    unsafe { REQUESTS }
}
/// From now on the `at`-th request (0-based) and the `len`-1 following ones fail.
pub fn fail_start(at: u64, len: u64) {
    unsafe {
        FAIL_SEEN = 0;
        FAILED = 0;
        FAIL_AT = at;
        FAIL_LEN = len;
        FAIL_TID = crate::sched::cur();
        FAIL_ON = true;
    }
}
/// Ends failure injection; returns (requests seen, requests failed).
pub fn fail_stop() -> (u64, u64) {
    unsafe {
        FAIL_ON = false;
        (FAIL_SEEN, FAILED)
    }
}
pub fn failing() -> bool {
    unsafe { FAIL_ON }
}
/// Runs `f` with failure injection and counting suspended (harness bookkeeping inside a window).
pub fn exempt<T>(f: impl FnOnce() -> T) -> T {
    unsafe {
        let (a, b) = (FAIL_ON, COUNT_ON);
        FAIL_ON = false;
        COUNT_ON = false;
        let r = f();
        FAIL_ON = a;
        COUNT_ON = b;
        r
    }
}

#[inline]
unsafe fn deny() -> bool {
    if !FAIL_ON {
        return false;
    }
    let i = FAIL_SEEN;
    FAIL_SEEN += 1;
    if i >= FAIL_AT && i - FAIL_AT < FAIL_LEN {
        FAILED += 1;
        let s = crate::shm::get();
        if !s.is_null() {
            (*s).stats.f_alloc_fail += 1;
        }
        return true;
    }
    false
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if COUNT_ON {
            REQUESTS += 1;
        }
        if deny() {
            return std::ptr::null_mut();
        }
        let p = System.alloc(l);
        if COUNT_ON && !p.is_null() {
            LIVE += l.size() as i64;
            BLOCKS += 1;
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if COUNT_ON {
            LIVE -= l.size() as i64;
            BLOCKS -= 1;
        }
        crate::sched::forget(p as usize, l.size());
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if COUNT_ON {
            REQUESTS += 1;
        }
        if deny() {
            return std::ptr::null_mut();
        }
        let p = System.alloc_zeroed(l);
        if COUNT_ON && !p.is_null() {
            LIVE += l.size() as i64;
            BLOCKS += 1;
        }
        p
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if COUNT_ON {
            REQUESTS += 1;
        }
        if deny() {
            return std::ptr::null_mut();
        }
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            crate::sched::forget(p as usize, l.size());
        }
        if COUNT_ON && !q.is_null() {
            LIVE += n as i64 - l.size() as i64;
        }
        q
    }
}
