//! Symbols that take the place of libc's and LLVM SanitizerCoverage's.
use crate::sched::*;
use libc::{c_int, c_void, pthread_t};

#[inline]
pub(crate) unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = (-r) as i32;
        -1
    } else {
        r
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc() {
    if ACTIVE {
        STEP += 1;
        if STEP >= NEXT {
            slow();
        }
    }
}

#[inline(always)]
unsafe fn access(addr: usize, write: bool) {
    if ACTIVE {
        STEP += 1;
        if STEP >= NEXT {
            slow();
        } else if MEM_ON && (addr < LO || addr >= HI || WATCH[(addr >> 3) % WATCH.len()] != 0) {
            mem_slow(addr, write);
        }
    }
}

macro_rules! access_hooks { ($w:literal: $($n:ident)*) => { $(
    #[no_mangle] pub unsafe extern "C" fn $n(a: *const u8) { access(a as usize, $w) }
)* } }
access_hooks! { false:
    __sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
}
access_hooks! { true:
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16
}

const FUTEX_CMD_MASK: i64 = 0x7f;

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if !ACTIVE {
        return ret(raw_syscall(n, a, b, c, d, e, f));
    }
    match n {
        libc::SYS_futex => {
            let op = b & FUTEX_CMD_MASK;
            match op {
                0 | 9 => {
                    let bits = if op == 9 { f as u32 } else { u32::MAX };
                    let deadline = if d == 0 {
                        0
                    } else {
                        let ts = &*(d as *const libc::timespec);
                        let t = (ts.tv_sec as u64).saturating_mul(1_000_000_000).saturating_add(ts.tv_nsec as u64);
                        // BITSET waits take an absolute time on the simulated clock
                        if op == 9 { t.saturating_sub(base_ns()).max(1) } else { now_ns() + t }
                    };
                    let r = futex_wait(a as usize, c as u32, bits, deadline);
                    if r == 0 { 0 } else { ret(-(r as i64)) }
                }
                1 | 10 => {
                    let bits = if op == 10 { f as u32 } else { u32::MAX };
                    futex_wake(a as usize, c as i32, bits) as i64
                }
                _ => harness_error(&format!("unmodelled futex operation {op}")),
            }
        }
        libc::SYS_getrandom => getrandom(a as *mut c_void, b as usize, c as u32) as i64,
        _ => ret(raw_syscall(n, a, b, c, d, e, f)),
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: usize, flags: u32) -> isize {
    let _ = flags;
    // outside a run (harness, references) the stream is fixed; every run has its own
    let mut r = crate::Rng::new(0x72616e64 ^ len as u64 ^ if ACTIVE { random_seed() } else { 0 });
    for i in 0..len {
        *(buf as *mut u8).add(i) = r.u64() as u8;
    }
    len as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if ACTIVE {
        do_yield();
    } else {
        raw_syscall(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0);
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, set: *mut u8) -> c_int {
    if ACTIVE {
        std::ptr::write_bytes(set, 0, size);
        for i in 0..(cpus() as usize).min(size * 8) {
            *set.add(i / 8) |= 1 << (i % 8);
        }
        return 0;
    }
    let r = ret(raw_syscall(libc::SYS_sched_getaffinity, pid as i64, size as i64, set as i64, 0, 0, 0));
    if r >= 0 && (r as usize) < size {
        std::ptr::write_bytes(set.add(r as usize), 0, size - r as usize);
        return 0;
    }
    r.min(0) as c_int
}


#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> c_int {
    if !ACTIVE {
        return ret(raw_syscall(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as c_int;
    }
    let t = base_ns() + now_ns();
    (*ts).tv_sec = (t / 1_000_000_000) as i64;
    (*ts).tv_nsec = (t % 1_000_000_000) as i64;
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !ACTIVE {
        return ret(raw_syscall(libc::SYS_nanosleep, req as i64, rem as i64, 0, 0, 0, 0)) as c_int;
    }
    sleep_ns((*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64);
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(clk: c_int, flags: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    if !ACTIVE {
        return -raw_syscall(libc::SYS_clock_nanosleep, clk as i64, flags as i64, req as i64, rem as i64, 0, 0) as c_int;
    }
    let t = (*req).tv_sec as u64 * 1_000_000_000 + (*req).tv_nsec as u64;
    if flags & libc::TIMER_ABSTIME != 0 {
        sleep_ns(t.saturating_sub(base_ns() + now_ns()));
    } else {
        sleep_ns(t);
    }
    0
}

type Start = extern "C" fn(*mut c_void) -> *mut c_void;
struct Boot {
    f: Start,
    arg: *mut c_void,
    tid: usize,
}

type CreateFn = unsafe extern "C" fn(*mut pthread_t, *const libc::pthread_attr_t, Start, *mut c_void) -> c_int;
type JoinFn = unsafe extern "C" fn(pthread_t, *mut *mut c_void) -> c_int;
static mut REAL_CREATE: Option<CreateFn> = None;
static mut REAL_JOIN: Option<JoinFn> = None;
static mut KEY: libc::pthread_key_t = 0;

pub(crate) unsafe fn prepare() {
    resolve();
    if libc::pthread_key_create(&mut KEY, Some(at_exit)) != 0 {
        harness_error("pthread_key_create");
    }
}

unsafe fn resolve() {
    if REAL_CREATE.is_none() {
        REAL_CREATE = Some(std::mem::transmute::<*mut c_void, CreateFn>(libc::dlsym(libc::RTLD_NEXT, c"pthread_create".as_ptr())));
        REAL_JOIN = Some(std::mem::transmute::<*mut c_void, JoinFn>(libc::dlsym(libc::RTLD_NEXT, c"pthread_join".as_ptr())));
    }
}

/// Runs as a pthread key destructor, after the thread's own TLS destructors: the token is given up last.
unsafe extern "C" fn at_exit(v: *mut c_void) {
    let n = v as usize;
    if n > 1 {
        libc::pthread_setspecific(KEY, (n - 1) as *const c_void);
        return;
    }
    exit_current();
}

extern "C" fn trampoline(p: *mut c_void) -> *mut c_void {
    unsafe {
        let b = Box::from_raw(p as *mut Boot);
        wait(b.tid);
        libc::pthread_setspecific(KEY, 3usize as *const c_void);
        let (f, arg) = (b.f, b.arg);
        drop(b);
        f(arg)
    }
}

#[no_mangle]
pub unsafe extern "C" fn pthread_create(t: *mut pthread_t, attr: *const libc::pthread_attr_t, f: Start, arg: *mut c_void) -> c_int {
    resolve();
    let real = match REAL_CREATE {
        Some(r) => r,
        None => return libc::EAGAIN,
    };
    if !ACTIVE {
        return real(t, attr, f, arg);
    }
    let tid = new_thread();
    let b = Box::into_raw(Box::new(Boot { f, arg, tid }));
    let r = real(t, attr, trampoline, b as *mut c_void);
    if r != 0 {
        harness_error("real pthread_create failed");
    }
    TH[tid].pthread = *t;
    // glibc puts the thread descriptor (pthread_t) and static TLS at the top of the stack mapping
    // (the descriptor's 2304 bytes end on the mapping's last page)
    TH[tid].hi = (*t as usize + 2304 + 4095) & !4095;
    TH[tid].lo = (*t as usize).saturating_sub(8 << 20);
    if !attr.is_null() {
        let mut sz = 0usize;
        if libc::pthread_attr_getstacksize(attr, &mut sz) == 0 {
            TH[tid].lo = (*t as usize).saturating_sub(sz);
        }
    }
    point();
    0
}

#[no_mangle]
pub unsafe extern "C" fn pthread_join(t: pthread_t, out: *mut *mut c_void) -> c_int {
    resolve();
    let real = match REAL_JOIN {
        Some(r) => r,
        None => return libc::EINVAL,
    };
    if ACTIVE {
        // the latest thread with this id (ids are reused after a join)
        for i in (0..NTH).rev() {
            if TH[i].pthread == t {
                if TH[i].st != St::Done {
                    block(St::Join(i));
                }
                break;
            }
        }
    }
    real(t, out)
}

#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    aborting();
    libc::signal(libc::SIGABRT, libc::SIG_DFL);
    libc::raise(libc::SIGABRT);
    libc::_exit(134)
}

/// Keeps every interposed symbol in the executable.
#[used]
pub static KEEP: [unsafe extern "C" fn(*const u8); 10] = [
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16,
];
#[used]
pub static KEEP2: unsafe extern "C" fn() = __sanitizer_cov_trace_pc;
