//! The check of one property: many simulated runs in worker processes, then shrinking, replay and evidence.
use crate::worker::{my_flavour, Report};
use crate::{exec, gen, refs_for, shrink};
use model::*;
use serde::{Deserialize, Serialize};
use simrt::shm::Dec;
use std::collections::{BTreeMap, HashSet};
use std::process::{Command, ExitCode};
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub class: String,
    pub message: String,
    /// event hash of the failing execution
    pub hash: String,
    pub seed: u64,
    pub index: u64,
    pub plan: Plan,
    /// decisions (step, kind, value); absent: the plan's schedule seed decides
    pub schedule: Option<Vec<(u64, char, u32)>>,
}

pub struct Budget {
    pub runs: u64,
    pub wall: f64,
}

/// Simulated runs per check. The wall time only guards against slow machines.
pub fn budget(check: &str, thorough: bool) -> Budget {
    let quick = match check {
        "C01" => 14_000,
        "C02" => 14_000,
        "C03" => 10_000,
        "C04" => 16_000,
        "C05" => 9000,
        "C06" => 12_000,
        "C07" => 13_000,
        "C08" => 50_000,
        "C09" => 120_000,
        "C10" => 15_000,
        "C11" => 100_000,
        "C12" => 30_000,
        "C13" => 60_000,
        _ => 1000,
    };
    if thorough {
        Budget { runs: quick * 40, wall: 720.0 }
    } else {
        Budget { runs: quick, wall: 110.0 }
    }
}

pub fn flavours(check: &str) -> &'static [&'static str] {
    match check {
        "C02" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" => &["full", "libm"],
        _ => &["full"],
    }
}

fn bin_for(flavour: &str) -> String {
    if flavour == my_flavour() {
        std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default()
    } else {
        let k = if flavour == "full" { "GQSIM_FULL" } else { "GQSIM_LIBM" };
        std::env::var(k).unwrap_or_default()
    }
}

/// Entries "known: property=ID class=CLASS what fails" of the findings file.
fn known(root: &str, id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(std::path::Path::new(root).join("known-findings.txt")).unwrap_or_default();
    let line = |l: &str| -> Option<(String, String)> {
        let l = l.strip_prefix("known: property=")?.strip_prefix(id)?.strip_prefix(" class=")?;
        let (class, what) = l.split_once(' ')?;
        Some((class.into(), what.into()))
    };
    text.lines().filter_map(line).collect()
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

pub fn check(id: &str) -> ExitCode {
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let root = std::env::var("GQSIM_VERIF").unwrap_or_else(|_| "/verif".into());
    let mut b = budget(id, thorough);
    b.runs = env_u64("GQSIM_RUNS", b.runs);
    b.wall = env_u64("GQSIM_WALL", b.wall as u64) as f64;
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(1, 16) as u64;
    let scratch = std::env::temp_dir().join(format!("gqsim-{}-{}", id, std::process::id()));
    let _ = std::fs::create_dir_all(&scratch);
    let stop = scratch.join("stop");

    let findings = known(&root, id);
    let listed: Vec<&str> = findings.iter().map(|f| f.0.as_str()).collect();
    let mut all = Report::default();
    let mut inter: HashSet<u64> = HashSet::new();
    let mut by_flavour = BTreeMap::new();
    let mut broken = vec![];
    let run_t0 = Instant::now();
    for fl in flavours(id) {
        let mut kids = vec![];
        for w in 0..workers {
            let out = scratch.join(format!("{fl}-{w}.json"));
            let left = (b.wall - run_t0.elapsed().as_secs_f64()).max(1.0);
            let share = if *fl == "full" && flavours(id).len() > 1 { left * 0.75 } else { left };
            let c = Command::new(bin_for(fl))
                .args(["worker", id, if thorough { "thorough" } else { "quick" }])
                .args([seed, w, workers, b.runs].map(|x| x.to_string()))
                .arg(format!("{share}"))
                .arg(&stop)
                .arg(&out)
                .env("GQSIM_KNOWN", listed.join(","))
                .spawn();
            match c {
                Ok(c) => kids.push((c, out)),
                Err(e) => broken.push(format!("worker: {e}")),
            }
        }
        let mut runs = 0;
        for (mut c, out) in kids {
            let ok = c.wait().map(|s| s.success()).unwrap_or(false);
            let rep: Option<Report> = std::fs::read(&out).ok().and_then(|x| serde_json::from_slice(&x).ok());
            match rep {
                Some(r) if ok => {
                    runs += r.runs;
                    inter.extend(r.inter.iter().copied());
                    merge(&mut all, r);
                }
                _ => broken.push(format!("a {fl} worker ended without a report")),
            }
        }
        by_flavour.insert(fl.to_string(), runs);
        if stop.exists() {
            break;
        }
    }
    let run_s = run_t0.elapsed().as_secs_f64();

    // the same seeds in another process
    let (mut same, mut diff) = (0u64, 0u64);
    for fl in flavours(id) {
        let list: Vec<String> = all
            .hashes
            .iter()
            .filter(|(i, _)| gen::plan(id, thorough, seed, *i).flavour == *fl)
            .take(if thorough { 200 } else { 24 })
            .map(|(i, h)| format!("{i}:{h}"))
            .collect();
        if list.is_empty() {
            continue;
        }
        let o = Command::new(bin_for(fl))
            .args(["rehash", id, if thorough { "thorough" } else { "quick" }, &seed.to_string()])
            .args(&list)
            .output();
        if let Ok(o) = o {
            for l in String::from_utf8_lossy(&o.stdout).lines() {
                match l {
                    "same" => same += 1,
                    "diff" => diff += 1,
                    _ => {}
                }
            }
        }
    }

    // violations: reproduce, shrink, replay in a fresh process
    all.violations.sort();
    let mut reported = None;
    let (mut unreproduced, mut elsewhere) = (0u64, 0u64);
    let dir = std::path::Path::new(&root).join("replays");
    let _ = std::fs::create_dir_all(&dir);
    for (i, class, _) in all.violations.iter().take(4) {
        let p = gen::plan(id, thorough, seed, *i);
        let file = dir.join(format!("{id}-{seed}-{i}.json"));
        let o = Command::new(bin_for(&p.flavour))
            .args(["shrink", id, if thorough { "thorough" } else { "quick" }])
            .args([seed.to_string(), i.to_string(), class.clone()])
            .arg(&file)
            .output();
        let code = o.ok().and_then(|o| o.status.code()).unwrap_or(9);
        if code == 3 {
            elsewhere += 1;
            continue;
        }
        let again = Command::new(bin_for(&p.flavour)).arg("replay").arg(&file).output();
        let ok = code == 0 && again.as_ref().ok().and_then(|o| o.status.code()) == Some(1);
        if ok {
            reported = Some(file);
            break;
        }
        unreproduced += 1;
    }

    let wall = t0.elapsed().as_secs_f64();
    let n_viol = if reported.is_some() { all.violations.len() } else { 0 };
    let ev = evidence(id, thorough, seed, &all, &inter, &by_flavour, run_s, wall, n_viol, unreproduced, elsewhere, same, diff);
    let evdir = std::path::Path::new(&root).join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    if std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap_or_default()).is_err() {
        broken.push("cannot write evidence".into());
    }
    let _ = std::fs::remove_dir_all(&scratch);
    println!(
        "{id}: {} simulated runs ({} non-trivial, {} distinct) in {run_s:.1} s, determinism {}/{} repeated runs identical",
        all.runs,
        all.nontrivial,
        inter.len(),
        same + all.rerun_same,
        same + diff + all.rerun_same + all.rerun_diff
    );
    for (w, n) in all.nothing.iter().take(5) {
        println!("{id}: {n} runs without a verdict: {w}");
    }
    if unreproduced + elsewhere > 0 {
        println!("{id}: {unreproduced} failures did not replay, {elsewhere} also occur without the faults of this property");
    }
    for (class, what) in &findings {
        if all.known.get(class).is_some_and(|n| *n > 0) {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    if let Some(f) = reported {
        if let Ok(r) = std::fs::read(&f).map_err(|_| ()).and_then(|b| serde_json::from_slice::<Replay>(&b).map_err(|_| ())) {
            println!("{id}: [{}] {}", r.class, r.message);
        }
        println!("VIOLATION property={id} replay={}", f.display());
        return ExitCode::from(1);
    }
    if !broken.is_empty() || all.runs == 0 {
        for m in broken {
            eprintln!("{id}: {m}");
        }
        return ExitCode::from(2);
    }
    ExitCode::SUCCESS
}

fn merge(a: &mut Report, r: Report) {
    a.runs += r.runs;
    a.nontrivial += r.nontrivial;
    a.rerun_same += r.rerun_same;
    a.rerun_diff += r.rerun_diff;
    a.refs += r.refs;
    a.cut_short |= r.cut_short;
    a.max_threads_in_call = a.max_threads_in_call.max(r.max_threads_in_call);
    for (k, v) in r.stats {
        *a.stats.entry(k).or_default() += v;
    }
    for (k, v) in r.known {
        *a.known.entry(k).or_default() += v;
    }
    for (k, v) in r.nothing {
        *a.nothing.entry(k).or_default() += v;
    }
    a.hashes.extend(r.hashes);
    a.violations.extend(r.violations);
    if a.samples.len() < 4 {
        a.samples.extend(r.samples);
    }
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    id: &str,
    thorough: bool,
    seed: u64,
    all: &Report,
    inter: &HashSet<u64>,
    by_flavour: &BTreeMap<String, u64>,
    run_s: f64,
    wall: f64,
    n_viol: usize,
    unreproduced: u64,
    elsewhere: u64,
    same: u64,
    diff: u64,
) -> serde_json::Value {
    let g = |k: &str| all.stats.get(k).copied().unwrap_or(0);
    let faults: BTreeMap<&str, u64> =
        all.stats.iter().filter(|(k, v)| k.starts_with("f_") && **v > 0).map(|(k, v)| (&k[2..], *v)).collect();
    let probes: BTreeMap<&str, u64> =
        all.stats.iter().filter(|(k, _)| k.starts_with("p_")).map(|(k, v)| (&k[2..], *v)).filter(|x| x.1 > 0).collect();
    serde_json::json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": crate::text::level(id),
        "wall_s": wall,
        "violations": n_viol,
        "coverage": {
            "evaluations": all.runs,
            "distinct_nontrivial": inter.len(),
            "rule": crate::text::rule(id),
            "samples": all.samples,
            "runs_per_hour": (all.runs as f64 / run_s * 3600.0) as u64,
            "seeds": format!("VERIF_SEED={seed}, run indices 0..{} (each index is one seed)", all.runs),
            "runs_by_build": by_flavour,
            "nontrivial_runs": all.nontrivial,
            "runs_ended_by_a_listed_finding": all.known,
            "simulated_seconds": g("sim_ns") as f64 / 1e9,
            "instrumented_steps": g("steps"),
            "context_switches": g("switches"),
            "preemptions": { "total": g("preemptions"), "at_writable_statics": g("preempt_hot"), "at_shared_memory": g("preempt_shared"), "at_words_written_by_several_threads": g("preempt_conflict") },
            "scheduler": { "yields": g("yields"), "futex_waits": g("futex_waits"), "futex_wakes": g("futex_wakes"), "clock_jumps": g("clock_jumps"), "threads": g("threads") },
            "faults_injected": faults,
            "situations_reached": probes,
            "integrand_evaluations": g("evals"),
            "evaluations_on_other_threads_than_the_caller": g("evals_off_caller"),
            "most_threads_in_one_call": all.max_threads_in_call,
            "nested_inner_integrals": g("nested_evals"),
            "rules_constructed": g("constructs"),
            "operations": g("ops"),
            "references_from_isolated_processes": all.refs,
            "determinism": { "repeated_runs_identical": same + all.rerun_same, "repeated_runs_different": diff + all.rerun_diff },
            "runs_without_verdict": all.nothing,
            "failures_not_reproduced": unreproduced,
            "failures_also_without_this_propertys_faults": elsewhere,
            "stopped_by_wall_limit_or_violation": all.cut_short,
            "real_components": crate::text::real(id),
            "stubs": crate::text::stubs(id),
        },
        "assumptions": crate::text::assumptions(id),
    })
}

pub fn load(path: &str) -> Option<Replay> {
    std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok())
}

/// Runs a replay file. Exit 1: the recorded violation occurs again, exactly.
pub fn replay(path: &str) -> ExitCode {
    let r = match load(path) {
        Some(r) => r,
        None => {
            eprintln!("cannot read {path}");
            return ExitCode::from(2);
        }
    };
    if r.plan.flavour != my_flavour() {
        let s = Command::new(bin_for(&r.plan.flavour)).arg("replay").arg(path).status();
        return ExitCode::from(s.ok().and_then(|s| s.code()).unwrap_or(2) as u8);
    }
    let mut cache = Refs::new();
    refs_for(&r.plan, &mut cache);
    let trace = r.schedule.as_ref().map(|t| t.iter().map(|d| Dec { step: d.0, kind: d.1 as u8, val: d.2 }).collect());
    let res = exec::run(&r.plan, &cache, trace);
    match &res.outcome {
        Outcome::Violation { class, msg } if *class == r.class => {
            let same = format!("{:016x}", res.hash) == r.hash;
            println!("[{class}] {msg}");
            println!("execution {}", if same { "identical to the recorded one" } else { "differs from the recorded one" });
            println!("VIOLATION property={} replay={path}", r.property);
            if same {
                ExitCode::from(1)
            } else {
                ExitCode::from(5)
            }
        }
        o => {
            println!("no such violation: {o:?}");
            ExitCode::SUCCESS
        }
    }
}

/// shrink CHECK TIER SEED INDEX CLASS FILE: 0 written, 2 not reproduced, 3 not due to this property's faults.
pub fn shrink_cmd(a: &[String]) -> ExitCode {
    let (id, thorough, class, file) = (&a[0], a[1] == "thorough", &a[4], &a[5]);
    let (seed, index): (u64, u64) = (a[2].parse().unwrap_or(1), a[3].parse().unwrap_or(0));
    let p = gen::plan(id, thorough, seed, index);
    let mut s =
        shrink::Shrinker { cache: Refs::new(), deadline: Instant::now() + Duration::from_secs(if thorough { 120 } else { 45 }), runs: 0 };
    let f = match s.shrink(&p, class) {
        Some(f) => f,
        None => return ExitCode::from(2),
    };
    if id == "C04" && s.without_faults(&f.plan) {
        return ExitCode::from(3);
    }
    let r = Replay {
        property: id.clone(),
        class: f.class,
        message: f.msg,
        hash: format!("{:016x}", f.hash),
        seed,
        index,
        plan: f.plan,
        schedule: f.trace.map(|t| t.iter().map(|d| (d.step, d.kind as char, d.val)).collect()),
    };
    match serde_json::to_vec_pretty(&r).map(|b| std::fs::write(file, b)) {
        Ok(Ok(())) => ExitCode::SUCCESS,
        _ => ExitCode::from(2),
    }
}
