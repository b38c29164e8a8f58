#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the notes below.
import json, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
notes = {
 "C01": "creations, lookups by id and drops by several threads; ids checked for uniqueness, each history checked for linearizability against a set model, lookups for identity.",
 "C02": "each thread's tape is compared operation for operation and bit for bit with the tape of the same program recorded alone, while other threads create, record, look up, tape and drop.",
 "C03": "threads mark arguments in and record into one context; the tape is decomposed, matched to each thread's operations, checked for order, replayed at new points and differentiated against the reference model.",
 "C04": "snapshot requests are placed between and inside other threads' markings and recordings; every tape must equal the context's content at one instant of the request's interval and stay bit-identical afterwards.",
 "C05": "last handles are dropped under other threads' operations; every result is compared with the reference, strong counts and live heap blocks are measured after create-record-drop rounds.",
 "C06": "user functions panic at seeded operations, inputs and callbacks on whichever simulated worker runs them; payload, containment in concurrent and later calls, release of everything created and heap growth over failing rounds are checked.",
 "C07": "nested parallel calls, pools of 1-6 workers, stalled threads, failed calls before; deadlock is a state with no runnable thread, starvation a bound on steps under a fair scheduler.",
 "C08": "entries compared with an independent dual-number interpreter with a running error bound, both drivers, and bit for bit across pools, schedules and concurrent calls.",
 "C09": "the form is solved for seeded increments and compared with an independent piecewise linearization; products, rows and columns against the dense matrices; bit for bit across schedules.",
 "C10": "maps compared with an independent reference (selected piece, ties by sign bits, multiplicity), chains with the composition of their links for every budget, nested chains included; bit for bit across schedules.",
 "C11": "every state is tracked from creation to drop; failures injected at seeded calls of step, visit, copy and identity; order, values, alive count at every instant, exactly-once release, nested and concurrent reversals.",
 "C12": "every recorded value and first-order value compared bit for bit with the unrecorded computation under concurrent recordings; tapes replayed at other points, in f64, f32 and numbers nested in one another, recorded on both levels.",
 "C13": "several threads sweep one tape; each result compared with the reference model and bit for bit with the sweep alone, adjoint identity; repeated, constant and argument results.",
 "C14": "scripts of C++ construction, copy, move, (self-)assignment, swap, destruction and operators on several simulated threads, with operator new failing at the k-th allocation; value-semantics model in lockstep, recordings compared with Rust counterparts, every block and Rust object accounted for.",
 "C15": "24 kinds of invalid calls at seeded positions of histories with other threads working on the same contexts and tapes; each must panic in its caller only, contents must be bit-identical before and after and stay usable.",
 "C19": "histories of driver calls, re-evaluations, sweeps, failures and rejections on shared functions, chains and tapes by several threads; each result compared bit for bit with the same call made alone in a freshly forked process; repeated histories must not grow the heap.",
 "C20": "user code (functions, steps, methods of user-defined tapes, arithmetic and conversions of a user-defined number type) panics or uses the library at a seeded point, also the context being recorded into, while other threads use the same contexts; no thread may stay blocked, and the content of every context is compared with what was recorded.",
}
tech = {
 "C20": "deterministic simulation: seeded schedules with injected panics and re-entrant use of the library from user code",
 "C11": "deterministic simulation with seeded fault injection (failing callbacks) against a small reference model",
 "C14": "deterministic simulation with seeded schedules and injected allocation failures against a value-semantics model",
 "C06": "deterministic simulation: seeded schedules of threads and pool workers with injected user panics",
 "C07": "deterministic simulation: seeded fair schedules with stalls, pool sizes and injected panics; bounded-step liveness",
}
default = "deterministic simulation: seeded schedules of every lock, atomic, reference count and pool worker, checked against a reference model"
trust = " Trusted: the simulator (std facade, patched rayon-core deques), the reference model; schedules are sequentially consistent and sampled, not exhausted."
na = {
 "C16": "A pure function of (sequence length, budget): no schedule, clock, fault or interleaving enters the number of forward steps of an undisturbed reversal, so simulation has nothing to decide; generating inputs and counting would be ordinary property testing. (Correctness, budget and cleanup of the same code under failures are C11.)",
 "C17": "Single operations on plain values are pure functions of their operands; there is no schedule or fault for the property to depend on. (What does depend on shared recording state is decided by C12.)",
 "C18": "Dimensions and size assertions of a macro-generated function are fixed by its definition and its extra arguments; nothing nondeterministic enters. (Wrong-sized arguments at the drivers, under concurrency, are decided by C15.)",
}
props = [json.loads(l) for l in open("properties.jsonl")]
ids = [p["id"] for p in props]
assert sorted(list(notes) + list(na)) == sorted(ids)
m = {
 "version": 1,
 "setup_cmd": "./check.sh --build && ./sim/target/release/advsim selftest 10",
 "hooks": {
  "guard": "adv_sim",
  "enable": "cargo build in /verif/sim: RUSTFLAGS --cfg adv_sim (sim/.cargo/config.toml) makes /repo's crate take its std from the patched lazy_static (sim/simstd), and sim/Cargo.toml patches rayon-core (sim/rayon-core)",
  "source_commits": ["9340d473d27f509335015ee51dbf0825a7ac23a6"],
 },
 "checks": [
  {"property": i, "quick_cmd": "./check.sh " + i, "thorough_cmd": "./check.sh " + i, "technique": tech.get(i, default),
   "level": "exploration", "level_note": notes[i][0].upper() + notes[i][1:] + trust}
  for i in ids if i in notes],
 "not_applicable": [{"property": i, "reason": na[i]} for i in ids if i in na],
 "notes": "thorough: the same command with VERIF_TIER=thorough (10 minutes per property, larger plans). Findings: known-findings.txt. Replaying: ./sim/target/release/advsim replay FILE [--log].",
}
json.dump(m, open("MANIFEST.json", "w"), indent=1)
open("MANIFEST.json", "a").write("\n")
