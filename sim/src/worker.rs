//! Runs a share of a check's simulated runs and writes what it saw to a file.
use crate::{exec, gen, refs_for};
use model::*;
use serde::{Deserialize, Serialize};
use simrt::shm::Stats;
use std::collections::BTreeMap;
use std::time::{Duration, Instant};

#[derive(Serialize, Deserialize, Default)]
pub struct Report {
    pub runs: u64,
    pub nontrivial: u64,
    pub stats: BTreeMap<String, u64>,
    pub nothing: BTreeMap<String, u64>,
    /// occurrences of listed findings, by class
    pub known: BTreeMap<String, u64>,
    /// hashes of the interleavings/histories of the non-trivial runs
    pub inter: Vec<u64>,
    /// (index, event hash) of sampled runs, to be repeated elsewhere
    pub hashes: Vec<(u64, u64)>,
    pub samples: Vec<serde_json::Value>,
    pub shapes: Vec<u64>,
    pub rerun_same: u64,
    pub rerun_diff: u64,
    pub violations: Vec<(u64, String, String)>,
    pub refs: u64,
    pub max_threads_in_call: u64,
    pub cut_short: bool,
}

pub struct Job {
    pub check: String,
    pub thorough: bool,
    pub seed: u64,
    pub first: u64,
    pub stride: u64,
    pub count: u64,
    pub wall: f64,
    pub stop_file: String,
    pub known: Vec<String>,
}

pub fn my_flavour() -> &'static str {
    if cfg!(feature = "full") {
        "full"
    } else {
        "libm"
    }
}

pub fn nontrivial(check: &str, s: &Stats) -> bool {
    match check {
        "C04" => s.f_panic > 0,
        "C08" => s.f_short_io + s.f_eintr + s.f_enospc + s.f_eio + s.f_torn + s.f_crash + s.f_codec_err > 0,
        "C09" => s.f_truncate + s.f_bitflip + s.f_splice + s.f_dropfield + s.f_torn > 0,
        "C10" => s.f_nan + s.f_inf > 0,
        "C11" => s.f_alloc_fail > 0,
        "C12" => s.f_panic + s.f_early_drop + s.f_truncate > 0,
        "C13" | "C05" => s.ops >= 3,
        _ => s.threads >= 2 && s.switches >= 6,
    }
}

pub fn work(j: &Job) -> Report {
    let t0 = Instant::now();
    let wall = Duration::from_secs_f64(j.wall);
    let mut rep = Report::default();
    let mut total = Stats::default();
    let mut cache = Refs::new();
    let mut i = j.first;
    while i < j.count {
        if t0.elapsed() > wall {
            rep.cut_short = true;
            break;
        }
        if rep.runs % 16 == 0 && std::path::Path::new(&j.stop_file).exists() {
            rep.cut_short = true;
            break;
        }
        let p = gen::plan(&j.check, j.thorough, j.seed, i);
        if p.flavour != my_flavour() {
            i += j.stride;
            continue;
        }
        if cache.len() > 20_000 {
            cache.clear();
        }
        refs_for(&p, &mut cache);
        let r = exec::run(&p, &cache, None);
        rep.runs += 1;
        rep.max_threads_in_call = rep.max_threads_in_call.max(r.stats.max_threads_in_call);
        let mut st = r.stats;
        st.max_threads_in_call = 0;
        total.add(&st);
        if nontrivial(&j.check, &r.stats) {
            rep.nontrivial += 1;
            rep.inter.push(r.inter);
        }
        match &r.outcome {
            Outcome::Ok => {}
            Outcome::Nothing(w) => {
                let k: String = w.chars().take(160).collect();
                *rep.nothing.entry(k).or_default() += 1;
            }
            Outcome::Violation { class, .. } if j.known.contains(class) => *rep.known.entry(class.clone()).or_default() += 1,
            Outcome::Violation { class, msg } => {
                rep.violations.push((i, class.clone(), msg.clone()));
                let _ = std::fs::write(&j.stop_file, b"x");
                if rep.violations.len() >= 3 {
                    break;
                }
            }
        }
        let k = rep.runs;
        if k % 53 == 7 {
            let r2 = exec::run(&p, &cache, None);
            if r2.hash == r.hash && r2.outcome == r.outcome {
                rep.rerun_same += 1;
            } else {
                rep.rerun_diff += 1;
            }
            rep.hashes.push((i, r.hash));
        }
        if rep.samples.len() < 2 && (k == 3 || k == 40) {
            if let Ok(v) = serde_json::to_value(&p) {
                let mut text = v.to_string();
                text.truncate(1500);
                rep.samples.push(serde_json::json!({
                    "run": i, "plan": text, "steps": r.stats.steps, "switches": r.stats.switches,
                    "preemptions": r.stats.preemptions, "evaluations": r.stats.evals, "hash": format!("{:016x}", r.hash),
                    "outcome": format!("{:?}", r.outcome),
                }));
            }
        }
        i += j.stride;
    }
    for (n, v) in total.list() {
        rep.stats.insert(n.into(), v);
    }
    rep.refs = cache.len() as u64;
    rep
}
