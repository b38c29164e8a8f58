//! The scenarios, by property.
use crate::prog::*;
use crate::rng::Rng;
use crate::runner::{Fam, Prop, Tier};
use crate::sim::{plan, quiet, run_threads, Task};
use crate::{require, viol};
use advantage::*;
use lazy_static::rt;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

mod anf;
mod calls;
mod checkpoint;
mod cxx;
mod deriv;
mod history;
mod lifetime;
mod numbers;
mod record;
mod registry;
mod reject;
mod snapshot;

const REAL: &str = "all of /repo/src (library code unmodified, compiled with --cfg adv_sim)";
const STUB: &str = "std's Mutex/Arc/Weak/atomics/Once/threads and lazy_static run on the simulator's scheduler; rayon is real, rayon-core is real except for its deques (plain queues) and its victim choice (drawn by the simulator); clocks and OS randomness are simulated";

fn fam(name: &'static str, weight: u32, hint: u32, gen: fn(&mut Rng, Tier) -> Value, exec: fn(&Value)) -> Fam {
    Fam { name, weight, gen, exec, hint }
}

pub fn props() -> Vec<Prop> {
    let common = "seeded random plan (programs, thread roles, faults) and seeded schedule per run; a run counts if it was decided and had at least one preemption or injected fault; distinct by (plan, schedule) hash";
    let asm = vec![
        "schedules are sequentially consistent interleavings at the granularity of synchronisation operations (no weak memory reordering)",
        "rayon-core's work-stealing deques are replaced by sequentially consistent queues",
    ];
    let mk = |id: &'static str, quick_runs: u64, fams: Vec<Fam>| Prop {
        id,
        fams,
        quick_runs,
        rule: common,
        assumptions: asm.clone(),
        real: REAL,
        stub: STUB,
    };
    vec![mk("C01", 60000, vec![fam("registry", 1, 4, registry::gen, registry::exec)]),
        mk("C02", 60000, vec![fam("private_recordings", 1, 4, record::gen_private, record::exec_private)]),
        mk("C03", 60000, vec![fam("shared_recording", 1, 4, record::gen_shared, record::exec_shared)]),
        mk("C04", 60000, vec![fam("snapshots", 1, 4, snapshot::gen, snapshot::exec)]),
        mk("C05", 48000, vec![fam("drop_in_use", 3, 4, lifetime::gen_race, lifetime::exec_race), fam("rounds", 1, 4, lifetime::gen_rounds, lifetime::exec_rounds)]),
        mk("C06", 40000, vec![fam("user_panics", 4, 6, calls::gen_panic, calls::exec_panic), fam("failing_rounds", 1, 4, calls::gen_panic_rounds, calls::exec_panic_rounds)]),
        mk("C07", 28000, vec![fam("progress", 1, 6, calls::gen_progress, calls::exec_progress)]),
        mk("C08", 50000, vec![fam("jacobians", 1, 6, deriv::gen_jac, deriv::exec_jac)]),
        mk("C09", 40000, vec![fam("abs_normal_forms", 1, 6, anf::gen_anf, anf::exec_anf)]),
        mk("C10", 24000, vec![fam("generalized_jacobians", 1, 6, anf::gen_gj, anf::exec_gj)]),
        mk("C11", 60000, vec![fam("reversals", 6, 2, checkpoint::gen, checkpoint::exec), fam("reversal_rounds", 1, 2, checkpoint::gen_rounds, checkpoint::exec_rounds)]),
        mk("C13", 60000, vec![fam("shared_sweeps", 1, 4, deriv::gen_sweep, deriv::exec_sweep)]),
        mk("C14", 60000, vec![fam("interface", 5, 2, cxx::gen, cxx::exec), fam("interface_rounds", 1, 2, cxx::gen_rounds, cxx::exec_rounds)]),
        mk("C15", 48000, vec![fam("rejected_calls", 1, 4, reject::gen, reject::exec)]),
        mk("C19", 24000, vec![fam("histories", 25, 5, history::gen_history, history::exec_history), fam("history_rounds", 5, 4, history::gen_history_rounds, history::exec_history_rounds), fam("marathons", 1, 4, history::gen_marathon, history::exec_marathon)]),
        mk("C20", 40000, vec![fam("number_types", 1, 4, numbers::gen_numbers, numbers::exec_numbers), fam("callbacks", 1, 6, numbers::gen_callbacks, numbers::exec_callbacks)]),
        mk("C12", 60000, vec![fam("transparent_recording", 1, 4, record::gen_transparent, record::exec_transparent)]),
    ]
}

pub fn js<T: Serialize>(t: &T) -> Value {
    serde_json::to_value(t).unwrap()
}
