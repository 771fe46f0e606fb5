mod check;
mod exec;
mod gen;
mod shrink;
mod text;
mod worker;

use model::{Plan, Refs};
use std::process::ExitCode;

#[global_allocator]
static ALLOC: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

/// Computes the references a plan needs, each in a process of its own.
pub fn refs_for(p: &Plan, cache: &mut Refs) {
    for (k, j) in work::refs::needed(p) {
        if !cache.contains_key(&k) {
            if let Some(v) = exec::run_ref(&j) {
                cache.insert(k, v);
            }
        }
    }
}

/// Same addresses in every process (where the system allows it): one source of nondeterminism less.
fn fixed_addresses() {
    const ADDR_NO_RANDOMIZE: libc::c_ulong = 0x0040000;
    unsafe {
        let old = libc::personality(0xffff_ffff);
        if old < 0 || old as libc::c_ulong & ADDR_NO_RANDOMIZE != 0 || std::env::var_os("GQSIM_FIXED").is_some() {
            return;
        }
        if libc::personality(old as libc::c_ulong | ADDR_NO_RANDOMIZE) < 0 {
            return;
        }
    }
    use std::os::unix::process::CommandExt;
    if let Ok(me) = std::env::current_exe() {
        let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("GQSIM_FIXED", "1").exec();
    }
}

fn main() -> ExitCode {
    // an out-of-memory report would otherwise symbolise the whole executable in every run
    unsafe { std::env::set_var("RUST_BACKTRACE", "0") };
    fixed_addresses();
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| -> u64 { a.get(i).and_then(|s| s.parse().ok()).unwrap_or(0) };
    match cmd {
        "check" if a.len() == 3 => check::check(&a[2]),
        "worker" if a.len() == 11 => {
            exec::init();
            pin(num(5));
            let rep = worker::work(&worker::Job {
                check: a[2].clone(),
                thorough: a[3] == "thorough",
                seed: num(4),
                first: num(5),
                stride: num(6),
                count: num(7),
                wall: a[8].parse().unwrap_or(60.0),
                stop_file: a[9].clone(),
                known: std::env::var("GQSIM_KNOWN").unwrap_or_default().split(',').map(|s| s.to_string()).collect(),
            });
            match serde_json::to_vec(&rep).map(|b| std::fs::write(&a[10], b)) {
                Ok(Ok(())) => ExitCode::SUCCESS,
                _ => ExitCode::from(2),
            }
        }
        "rehash" => {
            exec::init();
            let mut cache = Refs::new();
            for w in &a[5..] {
                if let Some((i, h)) = w.split_once(':') {
                    let p = gen::plan(&a[2], a[3] == "thorough", num(4), i.parse().unwrap_or(0));
                    refs_for(&p, &mut cache);
                    let r = exec::run(&p, &cache, None);
                    println!("{}", if r.hash.to_string() == h { "same" } else { "diff" });
                }
            }
            ExitCode::SUCCESS
        }
        "shrink" if a.len() == 8 => {
            exec::init();
            check::shrink_cmd(&a[2..])
        }
        "replay" if a.len() == 3 => {
            exec::init();
            check::replay(&a[2])
        }
        "show" => {
            println!("{}", serde_json::to_string_pretty(&gen::plan(&a[2], false, num(3), num(4))).unwrap_or_default());
            ExitCode::SUCCESS
        }
        // run one plan by number and print what happened
        "one" => {
            exec::init();
            let p = gen::plan(&a[2], false, num(3), num(4));
            let mut cache = Refs::new();
            refs_for(&p, &mut cache);
            let r = exec::run(&p, &cache, None);
            println!("{:?} hash {:016x} {:?}", r.outcome, r.hash, r.stats);
            ExitCode::SUCCESS
        }
        // run COUNT plans from START, three times each, and compare
        "selftest" => {
            exec::init();
            let mut cache = Refs::new();
            let (mut ok, mut bad) = (0, 0);
            let t = std::time::Instant::now();
            for i in num(4)..num(4) + num(5) {
                let p = gen::plan(&a[2], false, num(3), i);
                if p.flavour != worker::my_flavour() {
                    continue;
                }
                refs_for(&p, &mut cache);
                let t1 = std::time::Instant::now();
                let r = exec::run(&p, &cache, None);
                let el = t1.elapsed().as_secs_f64();
                let r2 = exec::run(&p, &cache, None);
                let r3 = exec::run(&p, &cache, Some(r.trace.clone()));
                let same = r.hash == r2.hash && r.outcome == r2.outcome && (r.overflow || (r3.hash == r.hash && r3.outcome == r.outcome));
                if same {
                    ok += 1
                } else {
                    bad += 1
                }
                if !same || r.outcome != model::Outcome::Ok || el > 1.0 {
                    println!("{i} {:?} same={same} steps {} switches {} {el:.2}s", r.outcome, r.stats.steps, r.stats.switches);
                }
            }
            println!("{ok} deterministic, {bad} not, {:.1} s", t.elapsed().as_secs_f64());
            ExitCode::SUCCESS
        }
        _ => {
            eprintln!("usage: gqsim check ID | replay FILE | show ID SEED INDEX | one ID SEED INDEX | selftest ID SEED START COUNT");
            ExitCode::from(2)
        }
    }
}

/// One processor per worker: handing the token over is much cheaper that way.
fn pin(n: u64) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        let size = std::mem::size_of::<libc::cpu_set_t>();
        if libc::sched_getaffinity(0, size, &mut set) == 0 {
            let cpus: Vec<usize> = (0..1024).filter(|&c| libc::CPU_ISSET(c, &set)).collect();
            if !cpus.is_empty() {
                let mut one: libc::cpu_set_t = std::mem::zeroed();
                libc::CPU_SET(cpus[n as usize % cpus.len()], &mut one);
                libc::sched_setaffinity(0, size, &one);
            }
        }
    }
}
