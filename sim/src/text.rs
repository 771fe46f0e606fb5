//! What the evidence says about each check.
pub fn level(id: &str) -> &'static str {
    match id {
        "C08" | "C09" | "C11" => "fault_enumeration",
        _ => "exploration",
    }
}

pub fn rule(id: &str) -> &'static str {
    match id {
        "C01" => "one run = one seed: rules (kind and small degrees by rotation, larger ones drawn, 1 % between 2^15 and 2^22), 1-4 clients inside, outside or in a second pool (1-24 workers; installed, global or entered from another pool), intervals, integrand values, stalls and one scheduling strategy. Non-trivial: at least two threads and six context switches; distinct by hash of the order of evaluations and switches",
        "C02" => "one run = one seed: as for C01, plus integrands returning NaN, infinities or arbitrary bit patterns, in sequential and parallel calls. Non-trivial: at least two threads and six context switches; distinct by hash of the order of evaluations and switches",
        "C03" => "one run = one seed: concurrent par_new/new of several rules on one or two pools of 1-24 workers; in 12 % a client's integrands construct rules too. Non-trivial: at least two threads and six context switches; distinct by hash of the order of switches and events",
        "C04" => "one run = one seed: clients integrate with integrands that panic at chosen points or ordinals, in the outer call or in calls the integrand makes (and may contain), next to healthy calls. Non-trivial: a panic was raised; distinct by hash of the order of evaluations and switches",
        "C05" => "one run = one seed: threads run histories of operations on shared and own rules. Non-trivial: at least three operations; distinct by hash of the order of operations and switches",
        "C06" => "one run = one seed: nests of 2-7 integrals in every sequential/parallel mix, across one or two pools, some integrands constructing the rule they use. Non-trivial: at least two threads and six context switches; distinct by hash of the order of evaluations and switches",
        "C07" => "one run = one seed: mixes of parallel integration, nesting, construction, panics and pool-blocking tasks under stalls and spurious wake-ups, a third on pools of one. Non-trivial: at least two threads and six context switches; distinct by hash of the order of evaluations and switches",
        "C08" => "one run = one seed: a history of saves, loads and crashes over a simulated disk; the failing I/O call or data-format callback is enumerated over all positions. Non-trivial: an I/O fault, data-format failure or crash occurred; distinct by hash of the history",
        "C09" => "one run = one seed: a stored record of some rule and format with one or more kinds of damage at enumerated or drawn positions. Non-trivial: the bytes or fields were really changed; distinct by hash of the damaged record and outcome",
        "C10" => "one run = one seed: integrands return NaN or an infinity at chosen points, sequential and parallel, in the outer call or in calls the integrand makes. Non-trivial: such a value was returned; distinct by hash of the order of evaluations and switches",
        "C11" => "one run = one operation with allocation requests failing from the k-th on (k enumerated over all requests for the operation, one or all later ones failing). Non-trivial: a request was failed; distinct by hash of operation, k and outcome",
        "C12" => "one run = one seed: a cycle of operations repeated, with panicking integrands, abandoned iterators and failing loads. Non-trivial: a panic, an early drop or a failed load occurred; distinct by hash of the events",
        "C13" => "one run = one seed: workers pull from one shared iterator from both ends with skips, crash, save and resume. Non-trivial: at least three operations; distinct by hash of the global order of operations and results",
        _ => "",
    }
}

pub fn real(id: &str) -> Vec<&'static str> {
    let mut v = vec!["gauss-quad (all of /repo/src, compiled from the working tree)", "nalgebra, alloc, std"];
    match id {
        "C08" | "C09" => v.push("serde, serde_json, bincode, ciborium, ron, rkyv"),
        "C13" => v.push("std threads and mutexes on the simulated scheduler"),
        _ => v.push("rayon, rayon-core, crossbeam, std threads, mutexes and condition variables on the simulated scheduler"),
    }
    v
}

pub fn stubs(id: &str) -> Vec<&'static str> {
    match id {
        "C08" | "C09" => vec!["disk and byte streams (simulated)", "Tape data format (the harness's own serde format)"],
        "C11" => vec!["futex, thread creation, clock, entropy (simulated)", "allocator front end that refuses chosen requests"],
        _ => vec!["futex, thread creation, yield, sleep, clock, entropy (simulated)", "integrands (the harness's)"],
    }
}

pub fn assumptions(id: &str) -> Vec<&'static str> {
    let mut v = vec![
        "seeded search, not exhaustive: a violation needing a schedule or input never drawn is missed",
        "threads interleave at basic blocks and memory accesses of gauss-quad and of the integrand call sites, at basic blocks of rayon and crossbeam; memory is sequentially consistent (weak-memory effects are not simulated)",
    ];
    match id {
        "C08" => v.push("the record store and its fsync/rename protocol are the harness's; the library contributes encoding and decoding"),
        "C09" => v.push("rkyv is left out: without its bytecheck feature the crate offers no checked access to untrusted bytes"),
        "C11" => v.push("stopping the program (abort) on a failed allocation is accepted, as the property says"),
        "C01" | "C04" | "C06" => v.push("the rounding bound 2(N+24) eps sum|w f| holds for any summation order"),
        _ => {}
    }
    v
}
