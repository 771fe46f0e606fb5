#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the committed text lives here, once)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=hook)))
PAR=["src/legendre/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/chebyshev/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs"]
p("C01","Parallel integration returns the rule's weighted sum under every schedule",
 "For every quadrature rule and every way the thread pool schedules the work, a parallel integration call returns the weighted sum the rule defines (the stored node-weight pairs mapped to the interval for a Gauss rule, the documented composite formula for a Newton-Cotes rule). It therefore equals the sequential call up to floating-point summation rounding, for any pool size, any interval and any number of callers at once.",
 ["schedules","inputs","configurations"],"Every rule type, degree, interval, integrand, pool size, number of concurrent callers and every interleaving/steal order of the pool's threads.",
 "The 11 rayon unit tests integrate one or two polynomials with tiny degrees (2 to 10, one doc test with 1e6) on whatever schedule the machine happens to give; splitting, stealing and preemption are never chosen.",
 PAR,[("par_integrate of every rule: par_iter/into_par_iter + map + sum, then one scale factor",f"{f}: par_integrate") for f in PAR],
 observe=["return value of par_integrate","return value of integrate","as_node_weight_pairs"])
p("C02","Each integration evaluates the integrand exactly once per point",
 "An integration call, sequential or parallel, evaluates the integrand exactly once at each point of the rule and nowhere else: the n mapped nodes of a Gauss rule, the n cell midpoints of a midpoint rule, the n+1 grid points of a trapezoid rule, the 2n+1 edges and midpoints of a Simpson rule. This holds on every schedule, and no evaluation happens before the call starts or after it has returned.",
 ["schedules","inputs","configurations"],"Every rule type, degree, interval, pool size and every interleaving of the pool's threads, including stalled workers and several simultaneous callers.",
 "No existing test counts evaluations or looks at the points; tests compare one final number with a tolerance that hides a dropped or doubled point of small weight.",
 PAR,[("iteration over the node-weight pairs / the degree range, edges handled separately in Simpson and Trapezoid","src/*/mod.rs: integrate, par_integrate"),("affine argument transformation","src/*/mod.rs: argument_transformation")],
 observe=["the sequence of arguments the integrand receives, with the thread and time of each call"])
p("C03","Parallel construction yields the same rule as sequential construction",
 "For Gauss-Legendre and both Gauss-Chebyshev rules, constructing in parallel yields a rule that is equal to the sequentially constructed one bit for bit and in the same order, for every degree. This holds for every pool size and schedule, and while other rules are being constructed at the same time.",
 ["schedules","inputs","configurations"],"Every degree, pool size, interleaving of the pool's threads, and any set of concurrent constructions.",
 "Tests only check that a few par_new rules are sorted (degrees 2,12,...,192) and integrate two polynomials; they never compare with the sequential constructor and never control the schedule.",
 ["src/legendre/mod.rs","src/chebyshev/mod.rs","src/legendre/bogaert/mod.rs"],
 [("indexed parallel map collected in order","src/legendre/mod.rs: GaussLegendre::par_new"),("indexed parallel map collected in order","src/chebyshev/mod.rs: GaussChebyshevFirstKind::par_new, GaussChebyshevSecondKind::par_new")],
 observe=["as_node_weight_pairs of both rules"])
p("C04","A panicking integrand is contained",
 "When the integrand panics at any evaluation or evaluations of a sequential or parallel integration, the call unwinds to its caller with a panic the integrand raised: it never returns a value and never aborts the process. Afterwards the rule is unchanged, no further evaluation from that call takes place, and every other call, concurrent or later, on the same rule and pool gives its normal result.",
 ["fault_sequences","schedules","inputs"],"Every evaluation (or set of evaluations) at which the integrand panics, every rule, pool size and schedule, every following or concurrent operation.",
 "No test passes a panicking integrand; the point of failure and the work in flight on other threads at that moment are exactly what a test cannot enumerate.",
 PAR,[("rules are immutable during integration (&self), no locks or shared scratch state","src/*/mod.rs: integrate, par_integrate"),("rayon propagates one panic after all in-flight branches finished","src/*/mod.rs: par_integrate")],
 observe=["panic payload seen by the caller","later results","as_node_weight_pairs before/after"])
p("C05","Results do not depend on history or on other threads",
 "The outcome of constructing, converting, copying, reading or sequentially integrating with a rule depends only on the operation's own arguments (and, for a rule with settable degree, the degree last set): it is bit for bit what the operation gives alone in a fresh process. This holds after any history of operations on the same or other rules, including failed ones, and under any interleaving with operations of other threads sharing the same rules.",
 ["histories","schedules"],"Every finite history of operations over a set of shared rules, executed by any number of threads under every interleaving down to single memory accesses.",
 "Unit tests run each operation once on a fresh rule in isolation; no test shares a rule between threads, repeats operations in varying orders, or uses a rule after change_degree.",
 PAR+["src/golub_welsch.rs","src/data_api.rs","src/math.rs","src/legendre/bogaert/mod.rs"],
 [("no mutable global or interior state anywhere; forbid(unsafe_code)","src/lib.rs"),("integrate takes &self and accumulates locally","src/*/mod.rs: integrate"),("change_degree only replaces the degree","src/midpoint/mod.rs, src/simpson/mod.rs, src/trapezoid/mod.rs")],
 state=[dict(name="node_weight_pairs / alpha / beta / degree",meaning="the only state of a rule, fixed after construction except degree of Newton-Cotes rules",where="struct definitions in src/*/mod.rs")],
 observe=["return values and stored pairs, compared with isolated execution"])
p("C06","Nested integration works for every mix of rules and schedules",
 "Using one integration as the integrand of another, to any depth and in any mix of rules and of sequential and parallel calls, including a rule nested in itself, returns the product sum of the rules involved. Every combination of points is evaluated exactly once, for any bounds that depend on the outer variable, any pool size and any schedule.",
 ["schedules","inputs","programs"],"Every nesting of rules up to the depth explored, every mix of sequential/parallel levels, every pool size and interleaving, inner bounds depending on outer points.",
 "One doc test nests two sequential Legendre rules; parallel nesting, which the README advertises, makes workers execute stolen outer work in the middle of inner calls and is not tested at all.",
 PAR,[("integrate/par_integrate keep all state on the stack and hold no lock while calling the integrand","src/*/mod.rs")],
 observe=["returned value, multiset of evaluated point combinations"])
p("C07","Parallel and shared use always makes progress",
 "Constructing and integrating, in parallel or from many threads at once, never deadlocks and finishes within a bounded number of steps once every thread is given time to run. This holds for every pool size including a single thread, whether called from inside or outside the pool, with nested calls, with stalled or busy workers, spurious wake-ups and panicking integrands.",
 ["schedules","fault_sequences","configurations"],"Every pool size, mix of callers inside/outside the pool, nesting, stall and panic pattern, under every fair schedule.",
 "Tests run one uncontended call at a time on an idle default pool; a deadlock that needs a particular steal or a saturated one-thread pool cannot appear there.",
 PAR,[("no locks, barriers or waiting in the crate; only fork-join through rayon","src/*/mod.rs: par_integrate, par_new"),("rayon::join of the two Simpson sums","src/simpson/mod.rs: par_integrate")],
 observe=["completion of every call, simulated threads all blocked"])
p("C08","Stored rules survive I/O faults and crashes unchanged",
 "Every rule type can be stored through each persistence feature the crate offers (serde in human-readable and binary formats, rkyv), and a store acknowledged as successful reads back, after a crash and restart and however its bytes were chunked, delayed or interrupted on the way, as a rule equal to the original bit for bit in nodes, weights, parameters and degree. A failure anywhere in the storing or loading path is reported as an error, never as success or as a panic, and leaves the rule usable so that a retry succeeds.",
 ["fault_sequences","crash_points","inputs"],"Every rule type, degree and parameters, every format, every position of a short write/read, interruption, error or crash in the stream of a sequence of stores and loads.",
 "There is not a single serialization test in the crate: the derives are only compiled.",
 ["src/legendre/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/chebyshev/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs","src/data_api.rs"],
 [("serde and rkyv implementations of rules and of the parameter type","derives on the structs in src/*/mod.rs and src/data_api.rs")],
 observe=["bytes written to the simulated disk, value read back, error returned"])
p("C09","Damaged records never yield an invalid rule or made-up values",
 "Loading a rule or a parameter with serde, or a parameter through zerocopy, from torn, truncated, mixed or bit-flipped bytes never panics and either reports an error or yields a value that satisfies the documented invariants of its type: alpha and beta finite and greater than -1, the degree of a Newton-Cotes rule non-zero. A stored rule that lost the tail of its record or one of its fields, or in which such a field is out of range, is always rejected, never completed with made-up values.",
 ["fault_sequences","crash_points","inputs"],"Every valid record of every type in every format, every truncation point, byte/bit corruption, dropped field, and splice of two records.",
 "No test deserializes anything; the space of damaged byte strings cannot be listed by hand.",
 ["src/data_api.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs"],
 [("deserialization of the parameter type must go through its validating constructor","src/data_api.rs: FiniteAboveNegOneF64"),("NonZeroU32 degree","src/midpoint/mod.rs, src/trapezoid/mod.rs, src/simpson/mod.rs")],
 state=[dict(name="FiniteAboveNegOneF64",meaning="a value that is finite and greater than -1",where="src/data_api.rs")],
 observe=["Result of deserialization; accessors alpha(), beta(), degree(), get()"])
p("C10","A non-finite evaluation is never masked",
 "If the integrand returns NaN at any evaluation of a sequential or parallel integration over an interval of non-zero finite length (or the rule's infinite domain), the result is NaN. If it returns an infinity at a point of positive weight and is finite elsewhere, the result is that infinity with the sign of the weight times the interval's orientation, whichever point it is and on every schedule.",
 ["fault_sequences","schedules","inputs"],"Every evaluation (or set of evaluations) at which the integrand fails numerically, every rule, degree, interval, pool size and schedule.",
 "No test returns NaN or infinity from an integrand; a masked bad evaluation (for instance skipped at one end point or in one parallel chunk) passes all of them.",
 PAR,[("plain summation of every weighted evaluation with no filtering","src/*/mod.rs: integrate, par_integrate")],
 observe=["return value"])
p("C11","Running out of memory never corrupts a result",
 "When memory allocation fails at an arbitrary request during construction, conversion, copying, storing, loading or integration, the operation either gives exactly the result it gives with memory available, or reports an error or stops the program; it never yields a truncated or altered rule, record or integral. Midpoint, trapezoid and Simpson rules need no heap: constructing them, changing their degree, iterating and integrating sequentially complete normally even if every allocation fails.",
 ["fault_sequences","inputs"],"Every allocation request of every operation as the first failing one, transient or permanent failure, every rule type.",
 "Tests run with a system allocator that never fails; that the Newton-Cotes rules do not allocate is only stated in the documentation and changelog.",
 ["src/golub_welsch.rs","src/legendre/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/chebyshev/mod.rs","src/midpoint/mod.rs","src/trapezoid/mod.rs","src/simpson/mod.rs","src/data_api.rs"],
 [("infallible collect into a boxed slice (abort on failure)","src/*/mod.rs: new; src/golub_welsch.rs"),("Newton-Cotes rules store only the degree and compute points on the fly","src/midpoint/mod.rs, src/trapezoid/mod.rs, src/simpson/mod.rs, src/data_api.rs: __impl_node_rule!")],
 observe=["result of the operation, process exit, allocator requests"])
p("C12","Failed and abandoned operations leak nothing",
 "Repeating the same operations on rules, including integrations whose integrand panics, iterators dropped half-way, conversions and failed loads, does not accumulate memory: each repetition leaves the amount of live memory where it was. Everything captured by an integrand passed to an integration call is released exactly once, by the time the call has returned or unwound, on every schedule.",
 ["histories","fault_sequences","schedules"],"Every cycle of operations with any pattern of panics, early drops and failures, repeated arbitrarily often; every schedule for the release of captures in parallel calls.",
 "Tests never measure live memory or count drops, and never take the failure paths on which leaks happen.",
 PAR+["src/data_api.rs","src/golub_welsch.rs"],
 [("ownership only; no caches, no forget/leak; owning iterators wrap the standard ones","src/data_api.rs, src/*/mod.rs")],
 observe=["allocator balance, drop counts"])
p("C13","Shared iteration hands out every node-weight pair exactly once, in order",
 "When any number of workers pull from one iterator over a rule's nodes, weights or pairs from both ends, with skips, in any interleaving, every element is handed out at most once and in order from each end, skipped elements excepted, and none is lost; reported lengths always equal what is left, and an exhausted iterator stays exhausted. A worker that crashes while using the iterator, or resumes from a copy made earlier, continues exactly where that copy stood, and all views of the same rule agree element by element.",
 ["histories","schedules","crash_points"],"Every history of next/next_back/nth/nth_back/last/count/len/size_hint/clone calls over every iterator type of every rule, by any number of workers, with crashes at any operation.",
 "A single mock rule of length 5 is exercised with one call per method; mixed two-ended histories, resumption after exhaustion and the other iterator types are untested.",
 ["src/data_api.rs"],
 [("delegation of every iterator method to the underlying slice/range iterator","src/data_api.rs: __impl_slice_iterator_newtype_traits!"),("views over one boxed slice","src/data_api.rs: __impl_node_weight_rule!"),("degree range mapped to nodes","src/data_api.rs: __impl_node_rule!")],
 observe=["items returned by each call, in global order"])
# --- pure properties, not simulation targets
p("C14","Gauss rules integrate polynomials up to degree 2n-1 exactly",
 "A Gauss rule of degree n, for all valid parameters, integrates every polynomial of degree at most 2n-1 against its weight function over its domain with an error of rounding size. Newton-Cotes rules of n cells converge at their documented order.",
 ["inputs"],"Every rule type, degree, parameter value and polynomial.",
 "Tests sample a handful of degrees, parameters and polynomials.",
 ["src/legendre/mod.rs","src/legendre/bogaert/mod.rs","src/legendre/bogaert/data.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/chebyshev/mod.rs","src/golub_welsch.rs","src/math.rs"],
 [("Bogaert expansion and tables","src/legendre/bogaert"),("Golub-Welsch eigenvalue method","src/golub_welsch.rs")],observe=["return value of integrate"])
p("C15","Nodes are sorted and inside the domain, weights positive and finite",
 "For every degree and all valid parameters of moderate size, a constructed Gauss rule stores exactly as many pairs as its degree, nodes in strictly ascending order inside the domain of the rule, and non-negative finite weights whose sum is the integral of the weight function.",
 ["inputs"],"Every rule type, degree and parameter value.",
 "Tests check sortedness for some 60 rules with non-strict comparison.",
 ["src/golub_welsch.rs","src/legendre/mod.rs","src/jacobi/mod.rs","src/laguerre/mod.rs","src/hermite/mod.rs","src/chebyshev/mod.rs"],
 [("sort by total_cmp after the eigenvalue solve; reversed index order elsewhere","src/golub_welsch.rs, src/*/mod.rs: new")],observe=["as_node_weight_pairs"])
p("C16","Both math backends give the same rules",
 "With the libm backend and with the standard-library backend, every rule has the same nodes and weights up to a few units in the last place relative to their size.",
 ["configurations","inputs"],"Both backends, every rule type, degree and parameter value.",
 "Tests run under each backend separately against the same loose constants.",
 ["src/math.rs"],[("cfg-selected sin/cos/pow/sqrt","src/math.rs")],observe=["as_node_weight_pairs under both feature sets"])
p("C17","Validated parameters are always finite and greater than -1",
 "Every value of the validated parameter type obtained by construction, conversion, parsing or checked arithmetic is finite and greater than -1, and each such operation fails exactly when its exact floating-point result is not.",
 ["inputs"],"Every f64, every string, every pair of operands.",
 "Tests try about twenty values.",
 ["src/data_api.rs"],[("single validating constructor","src/data_api.rs: FiniteAboveNegOneF64::new")],observe=["returned Option/Result, get()"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
