#!/usr/bin/env python3
"""Writes MANIFEST.json. BUILT: the checks that are claimed."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
BUILT = sys.argv[1].split(",")
NA = {
    "C14": "pure function of its input: no schedule, clock, I/O or fault enters it, so there is nothing to simulate",
    "C15": "pure function of its input: no schedule, clock, I/O or fault enters it, so there is nothing to simulate",
    "C16": "pure function of its input: no schedule, clock, I/O or fault enters it, so there is nothing to simulate",
    "C17": "pure function of its input: no schedule, clock, I/O or fault enters it, so there is nothing to simulate",
}
LEVEL = {"C08": "fault_enumeration", "C09": "fault_enumeration", "C11": "fault_enumeration"}
CONC = "deterministic simulation: the real library and rayon on a simulated kernel and scheduler (SanitizerCoverage preemption points, interposed futex/thread/clock calls), seeded search over schedules"
TECH = {
    "C01": CONC + "; oracle: sequential compensated sum with a rigorous rounding bound, model of the rule's points",
    "C02": CONC + "; oracle: exact multiset of evaluation points against the model, nothing before the call or after its end",
    "C03": CONC + "; oracle: bitwise comparison with the same rule built alone in a fresh process",
    "C04": CONC + " with injected integrand panics; oracle: payload identity, nothing evaluated afterwards, other calls and rules unaffected",
    "C05": "deterministic simulation of multi-threaded call histories with injected panics; oracle: every outcome bitwise equal to the same call alone in a fresh process",
    "C06": CONC + " of nested integrals; oracle: per-level exact evaluation counts and a composed rounding bound",
    "C07": CONC + ", stalls, spurious wake-ups, panics and pool-blocking tasks; oracle: deadlock and no-progress detection by the simulated kernel",
    "C08": "deterministic simulation of a record store (simulated disk, short/interrupted/failing I/O, full disk, crashes with torn writes, data-format failures at the k-th callback, enumerated); oracle: acknowledged records load bit for bit, failures are reported",
    "C09": "deterministic simulation of storage corruption (truncation, bit flips, splices, lost pages, lost/duplicated/altered fields) of records read back by the real decoders; oracle: no panic, no invalid rule",
    "C10": CONC + " with NaN and infinities injected at chosen evaluations; oracle: IEEE propagation",
    "C11": "deterministic simulation of allocation failure: the k-th request of an operation fails, k enumerated; oracle: the isolated fault-free result, or a reported failure",
    "C12": "deterministic simulation of repeated operation cycles with injected panics, abandoned iterators and failing loads; oracle: live memory and drop counts",
    "C13": "deterministic simulation of workers sharing one iterator under random schedules, with crash/save/resume; oracle: a double-ended queue model",
}
NOTE = {
    "C08": "Fault positions are enumerated for the first records of every rule and format and drawn beyond that; trusts the harness's store protocol and disk model.",
    "C09": "Damage positions are enumerated over small records of every rule and format and drawn beyond that; rkyv is excluded (no checked access in this configuration).",
    "C11": "The failing request is enumerated over all requests of each sampled operation; aborting is accepted as a reported failure, as the property says.",
}
DEF_NOTE = "Seeded sampling of schedules and faults (no exhaustiveness); sequentially consistent memory; interleaving at basic blocks and memory accesses of the library, basic blocks of rayon/crossbeam. Every failure is replayed in a fresh process before it is reported."
checks = []
for p in props:
    i = p["id"]
    if i in BUILT:
        checks.append({
            "property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i}",
            "evidence_file": f"evidence/{i}.json", "technique": TECH[i],
            "level": LEVEL.get(i, "exploration"), "level_note": NOTE.get(i, DEF_NOTE),
        })
na = [{"property": p["id"], "reason": NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in BUILT]
json.dump({
    "version": 1, "setup_cmd": "./check.sh build",
    "hooks": {"guard": "none in /repo: RUSTC_WRAPPER=/verif/sim/rustc-wrap.sh adds compiler instrumentation, libc symbols are interposed at link time",
              "enable": "./check.sh build", "source_commits": []},
    "checks": checks, "not_applicable": na,
    "notes": "One command per property; VERIF_TIER selects quick or thorough. ./check.sh replay FILE repeats a reported violation.",
}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
