//! One simulated run: what the scenario code uses to talk to the harness.
use lazy_static::rt;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicI32, Ordering::*};
use std::sync::Mutex;

/// The schedule half of a run.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Env {
    pub seed: u64,
    pub strategy: Strat,
    pub parallelism: usize,
    pub spurious: u32,
    pub stalls: Vec<(u32, u64, u64)>,
    pub fair_after: u64,
    pub max_steps: u64,
    /// contexts that are alive all the time
    #[serde(default)]
    pub crowd: u32,
    /// the C++ front end can be interrupted at every access to memory
    #[serde(default)]
    pub mem: bool,
    /// freed memory is used again at once (otherwise it is kept aside for a while and watched)
    #[serde(default)]
    pub reuse: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Strat {
    Random { p: u32 },
    Pct { depth: u32, len: u32 },
    RoundRobin { quantum: u32 },
    Biased { mask: u32, p: u32 },
    Burst { mean: u32 },
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
    /// "ok", "skip", "violation", "error"
    pub status: String,
    pub class: String,
    pub msg: String,
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub decisions: u64,
    pub threads: usize,
    pub hash: u64,
    pub clock_ns: u64,
    pub kinds: BTreeMap<String, u64>,
    pub counters: BTreeMap<String, u64>,
    pub trace: Vec<(u64, u32)>,
    pub log: Vec<String>,
}

static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static WANT_LOG: AtomicI32 = AtomicI32::new(0);

pub fn set_out(fd: i32, log: bool) {
    OUT_FD.store(fd, SeqCst);
    WANT_LOG.store(log as i32, SeqCst);
}

fn outcome(status: &str, class: &str, msg: &str) -> Outcome {
    let s = rt::stats();
    Outcome {
        status: status.into(),
        class: class.into(),
        msg: msg.into(),
        steps: s.steps,
        switches: s.switches,
        preemptions: s.preemptions,
        decisions: s.decisions,
        threads: s.threads,
        hash: s.hash,
        clock_ns: s.clock_ns,
        kinds: s.kinds.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        counters: s.counters.iter().map(|(k, v)| (k.to_string(), *v)).collect(),
        trace: s.trace,
        log: if WANT_LOG.load(SeqCst) != 0 { rt::log_lines() } else { vec![] },
    }
}

/// Ends the run (the whole process) with the given outcome.
pub fn finish(status: &str, class: &str, msg: &str) -> ! {
    let _q = rt::Quiet::new();
    crate::alloc::ON.store(false, SeqCst);
    let o = outcome(status, class, msg);
    let b = serde_json::to_vec(&o).unwrap();
    crate::os::write_all(OUT_FD.load(SeqCst), &b);
    unsafe { libc::_exit(0) }
}

fn fail_hook(class: &str, msg: &str) {
    finish("violation", class, msg)
}

/// The property is violated.
pub fn violation(class: &str, msg: impl AsRef<str>) -> ! {
    finish("violation", class, msg.as_ref())
}
/// The run decides nothing (e.g. the input left the domain the property speaks about).
pub fn skip(why: &str) -> ! {
    finish("skip", why, "")
}

#[macro_export]
macro_rules! viol {
    ($class:expr, $($t:tt)*) => {{
        let _q = lazy_static::rt::Quiet::new();
        $crate::sim::violation($class, format!($($t)*))
    }};
}
#[macro_export]
macro_rules! require {
    ($cond:expr, $class:expr, $($t:tt)*) => {
        if !$cond {
            $crate::viol!($class, $($t)*)
        }
    };
}

static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _q = rt::Quiet::new();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !rt::in_sim() {
            eprintln!("panic: {} at {}", msg, loc);
        }
        if let Ok(mut l) = LAST_PANIC.lock() {
            *l = format!("{} at {}", msg, loc);
        }
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|l| l.clone()).unwrap_or_default()
}

/// Runs library code that may legitimately panic.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, Box<dyn std::any::Any + Send>> {
    catch_unwind(AssertUnwindSafe(f))
}
/// Runs library code that must not panic.
pub fn calm<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match catch(f) {
        Ok(r) => r,
        Err(_) => viol!("unexpected-panic", "{} panicked: {}", what, last_panic()),
    }
}

pub type Task<'a> = Box<dyn FnOnce() + Send + 'a>;
/// Runs the tasks as simulated threads and joins them; none of them may panic.
pub fn run_threads<'a>(tasks: Vec<Task<'a>>) {
    let hs: Vec<_> = tasks
        .into_iter()
        .enumerate()
        .map(|(i, t)| {
            let t: Task<'static> = unsafe { std::mem::transmute(t) };
            lazy_static::thread::Builder::new().name(quiet(|| format!("caller{}", i))).spawn(t).unwrap()
        })
        .collect();
    for (i, h) in hs.into_iter().enumerate() {
        if h.join().is_err() {
            viol!("unexpected-panic", "caller thread {} panicked: {}", i, last_panic());
        }
    }
}

pub fn config(env: &Env, trace: Option<Vec<(u64, u32)>>, log: bool) -> rt::Config {
    rt::Config {
        seed: env.seed,
        strategy: match env.strategy {
            Strat::Random { p } => rt::Strategy::Random { p },
            Strat::Pct { depth, len } => rt::Strategy::Pct { depth, len },
            Strat::RoundRobin { quantum } => rt::Strategy::RoundRobin { quantum },
            Strat::Biased { mask, p } => rt::Strategy::Biased { mask, p },
            Strat::Burst { mean } => rt::Strategy::Burst { mean },
        },
        stalls: env.stalls.clone(),
        fair_after: env.fair_after,
        max_steps: env.max_steps,
        trace,
        log,
        spurious: env.spurious,
        parallelism: env.parallelism,
    }
}

/// Body of the forked child: runs `exec` under the simulator and reports.
pub fn child(fd: i32, env: &Env, trace: Option<Vec<(u64, u32)>>, log: bool, exec: impl FnOnce()) -> ! {
    set_out(fd, log);
    crate::os::seed_os(env.seed);
    rt::set_fail_hook(fail_hook);
    rt::set_alloc_hook(crate::alloc::quiet_hook);
    install_panic_hook();
    let cfg = config(env, trace, log);
    // a thread of its own: fresh thread-locals (hash keys) whatever the parent did before
    std::thread::scope(|s| {
        let run = || {
            alloc_on();
            rt::run(cfg, || match catch(|| {
                crowd(env.crowd);
                crate::alloc::REUSE.store(env.reuse, SeqCst);
                if env.reuse {
                    rt::count("memory_reused_at_once");
                }
                crate::alloc::MEM.store(env.mem, SeqCst);
                exec()
            }) {
                Ok(()) => finish("ok", "", ""),
                Err(_) => {
                    let m = last_panic();
                    finish("violation", "unexpected-panic", &m)
                }
            })
        };
        let run: Box<dyn FnOnce() + '_> = Box::new(run);
        let run: Box<dyn FnOnce() + Send + '_> = unsafe { std::mem::transmute(run) };
        let _ = std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, run).map(|h| h.join());
    });
    unsafe { libc::_exit(70) }
}
static CROWD: Mutex<Vec<usize>> = Mutex::new(vec![]);
/// Is this the id of a context that is alive throughout the run?
pub fn in_crowd(cid: usize) -> bool {
    CROWD.lock().unwrap().contains(&cid)
}
fn crowd(n: u32) {
    if n == 0 {
        return;
    }
    rt::set_serial(true);
    for _ in 0..n {
        let c = advantage::AContext::new();
        quiet(|| CROWD.lock().unwrap().push(c.cid()));
        std::mem::forget(c);
    }
    rt::set_serial(false);
    rt::count("crowded_runs");
}
fn alloc_on() {
    crate::alloc::ON.store(true, SeqCst);
}

/// Runs `f` in a process of its own, forked off here, one thread at a time. Only to be called while this is the only
/// simulated thread. The run ends if the process finds a violation, or crashes.
pub fn fresh(f: impl FnOnce() -> Vec<u64>) -> Vec<u64> {
    let mut q = Some(rt::Quiet::new());
    let (out, exit) = crate::os::forked(150.0, 45, |fd| {
        q.take();
        set_out(fd, false);
        rt::set_serial(true);
        let r = calm("a call made alone", f);
        let mut b = vec![b'R'];
        r.iter().for_each(|v| b.extend_from_slice(&v.to_le_bytes()));
        crate::os::write_all(fd, &b);
        unsafe { libc::_exit(0) }
    });
    match exit {
        crate::os::Exit::Code(0) if out.first() == Some(&b'R') => {
            out[1..].chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
        }
        crate::os::Exit::Code(0) => match serde_json::from_slice::<Outcome>(&out) {
            Ok(o) => finish(&o.status, &o.class, &format!("in a process of its own: {}", o.msg)),
            Err(_) => finish("error", "no-report", "a process of its own ended without a report"),
        },
        crate::os::Exit::Signal(libc::SIGXCPU) => finish("violation", "hang", "a call made alone never comes back"),
        crate::os::Exit::Signal(libc::SIGKILL) | crate::os::Exit::WallTimeout => finish("inconclusive", "killed", ""),
        crate::os::Exit::Signal(s) => finish("violation", &format!("crash-signal-{}", s), "a call made alone crashes"),
        crate::os::Exit::Code(c) => finish("error", "exit", &format!("exit code {}", c)),
    }
}
/// Harness bookkeeping: allocations in here are not charged to the code under test.
pub fn quiet<R>(f: impl FnOnce() -> R) -> R {
    let _q = rt::Quiet::new();
    f()
}
/// The plan of this run.
pub fn plan<T: serde::de::DeserializeOwned>(v: &serde_json::Value) -> T {
    let r = quiet(|| serde_json::from_value::<T>(v.clone()));
    match r {
        Ok(p) => p,
        Err(_) => skip("bad-plan"),
    }
}
