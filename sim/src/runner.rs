//! Batches of simulated runs, shrinking, replay files, evidence.
use crate::os::{self, Exit};
use crate::rng::{mix, Rng};
use crate::sim::{self, Env, Outcome, Strat};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
pub struct Fam {
    pub name: &'static str,
    pub weight: u32,
    pub gen: fn(&mut Rng, Tier) -> Value,
    pub exec: fn(&Value),
    /// threads the schedule strategies may assume (0: the scenario is single-threaded)
    pub hint: u32,
}
pub struct Prop {
    pub id: &'static str,
    pub fams: Vec<Fam>,
    pub quick_runs: u64,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub real: &'static str,
    pub stub: &'static str,
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub family: String,
    pub seed: u64,
    pub run: u64,
    pub class: String,
    pub message: String,
    pub plan: Value,
    pub env: Env,
    /// the scheduling decisions that differ from "keep running the current thread": (index, choice)
    pub trace: Option<Vec<(u64, u32)>>,
    pub shrink: String,
    pub schedule: Vec<String>,
}

pub fn gen_env(r: &mut Rng, hint: u32) -> Env {
    let seed = r.next();
    let strategy = match r.weighted(&[6, 3, 1, 2, 2]) {
        0 => Strat::Random { p: *r.pick(&[8, 32, 100, 300, 700, 1024]) },
        1 => Strat::Pct { depth: r.range(1, 6) as u32, len: *r.pick(&[60, 250, 1000, 4000, 16000]) },
        2 => Strat::RoundRobin { quantum: *r.pick(&[1, 2, 3, 5, 9, 20]) },
        3 => {
            // only at some kinds of points
            let mut mask = 0;
            for _ in 0..r.range(1, 4) {
                mask |= 1 << r.below(24);
            }
            mask |= 1 << *r.pick(&[1u32, 2, 3, 9, 11, 13, 28]);
            Strat::Biased { mask, p: *r.pick(&[300, 700, 1024]) }
        }
        _ => Strat::Burst { mean: *r.pick(&[3, 10, 30, 100]) },
    };
    let mut stalls = vec![];
    if hint > 0 && r.chance(1, 4) {
        for _ in 0..r.range(1, 3) {
            stalls.push((r.below(hint as usize + 3) as u32, r.below(2000) as u64, r.range(50, 3000) as u64));
        }
    }
    Env {
        seed,
        strategy,
        parallelism: *r.pick(&[1, 2, 2, 3, 3, 4, 4, 6]),
        spurious: *r.pick(&[0, 0, 0, 40, 200]),
        stalls,
        fair_after: 200_000,
        max_steps: 3_000_000,
        crowd: if r.chance(1, 40) { *r.pick(&[1, 7, 16, 33, 64, 70, 130, 260]) } else { 0 },
        mem: r.chance(1, 3),
        reuse: r.chance(1, 3),
    }
}

pub struct Case {
    pub fam: usize,
    pub plan: Value,
    pub env: Env,
}
pub fn gen_case(p: &Prop, seed: u64, run: u64, tier: Tier) -> Case {
    let h = p.id.bytes().fold(7u64, |a, b| mix(a, b as u64));
    let mut r = Rng::new(mix(mix(seed, h), run));
    let w: Vec<u32> = p.fams.iter().map(|f| f.weight).collect();
    let fam = r.weighted(&w);
    let plan = (p.fams[fam].gen)(&mut r, tier);
    let mut env = gen_env(&mut r, p.fams[fam].hint);
    if p.fams[fam].name.ends_with("rounds") {
        // the library's maps may grow once when they are crowded
        env.crowd = 0;
    }
    Case { fam, plan, env }
}

/// One run in a fresh process.
pub fn execute(f: &Fam, plan: &Value, env: &Env, trace: Option<Vec<(u64, u32)>>, log: bool) -> Outcome {
    let (out, exit) = os::forked(150.0, 45, |fd| sim::child(fd, env, trace, log, || (f.exec)(plan)));
    let bad = |status: &str, class: &str, msg: &str| Outcome {
        status: status.into(),
        class: class.into(),
        msg: msg.into(),
        ..Default::default()
    };
    match exit {
        Exit::WallTimeout => bad("inconclusive", "wall-timeout", ""),
        Exit::Signal(libc::SIGXCPU) => bad("violation", "hang", "the run never comes back (45 s of processor time)"),
        Exit::Signal(libc::SIGKILL) => bad("inconclusive", "killed", ""),
        Exit::Signal(s) => bad("violation", &format!("crash-signal-{}", s), "the process crashed"),
        Exit::Code(0) => match serde_json::from_slice::<Outcome>(&out) {
            Ok(o) => o,
            Err(_) => bad("error", "no-report", "the run ended without a report"),
        },
        Exit::Code(c) => bad("error", "exit", &format!("exit code {}", c)),
    }
}

#[derive(Default, Serialize, Deserialize, Clone)]
struct Agg {
    runs: u64,
    ok: u64,
    skipped: BTreeMap<String, u64>,
    inconclusive: u64,
    steps: u64,
    switches: u64,
    preemptions: u64,
    decisions: u64,
    threads: u64,
    max_threads: u64,
    max_steps: u64,
    clock_ns: u64,
    kinds: BTreeMap<String, u64>,
    counters: BTreeMap<String, u64>,
    families: BTreeMap<String, u64>,
    strategies: BTreeMap<String, u64>,
    hashes: Vec<u64>,
    nontrivial: Vec<u64>,
    samples: Vec<Value>,
    violation: Option<(u64, String, String)>,
    error: Option<String>,
}

fn strat_name(s: &Strat) -> &'static str {
    match s {
        Strat::Random { .. } => "random",
        Strat::Pct { .. } => "pct",
        Strat::RoundRobin { .. } => "round_robin",
        Strat::Biased { .. } => "biased",
        Strat::Burst { .. } => "burst",
    }
}

fn worker(p: &Prop, seed: u64, tier: Tier, w: u64, nw: u64, runs: u64, until: f64) -> Agg {
    let mut a = Agg::default();
    let mut i = w;
    let mut seen: HashSet<u64> = HashSet::new();
    let mut seen_nt: HashSet<u64> = HashSet::new();
    while i < runs && os::now() < until {
        let c = gen_case(p, seed, i, tier);
        let f = &p.fams[c.fam];
        let o = execute(f, &c.plan, &c.env, None, false);
        a.runs += 1;
        *a.families.entry(f.name.into()).or_insert(0) += 1;
        *a.strategies.entry(strat_name(&c.env.strategy).into()).or_insert(0) += 1;
        a.steps += o.steps;
        a.switches += o.switches;
        a.preemptions += o.preemptions;
        a.decisions += o.decisions;
        a.threads += o.threads as u64;
        a.max_steps = a.max_steps.max(o.steps);
        a.max_threads = a.max_threads.max(o.threads as u64);
        a.clock_ns += o.clock_ns.saturating_sub(1_000_000_000);
        for (k, v) in &o.kinds {
            *a.kinds.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.counters {
            *a.counters.entry(k.clone()).or_insert(0) += v;
        }
        match o.status.as_str() {
            "ok" => {
                a.ok += 1;
                let h = mix(o.hash, plan_hash(&c.plan));
                seen.insert(o.hash);
                let faults = o.counters.iter().any(|(k, v)| k.starts_with("fault_") && *v > 0);
                if o.preemptions > 0 || faults {
                    seen_nt.insert(h);
                }
                if a.samples.len() < 1 && w < 3 {
                    a.samples.push(json!({"run": i, "family": f.name, "plan": c.plan, "env": c.env,
                        "steps": o.steps, "preemptions": o.preemptions, "counters": o.counters}));
                }
            }
            "skip" => *a.skipped.entry(o.class.clone()).or_insert(0) += 1,
            "inconclusive" => a.inconclusive += 1,
            "violation" => {
                a.violation = Some((i, o.class.clone(), o.msg.clone()));
                break;
            }
            _ => {
                a.error = Some(format!("run {}: {} {}", i, o.class, o.msg));
                break;
            }
        }
        i += nw;
    }
    a.hashes = seen.into_iter().collect();
    a.nontrivial = seen_nt.into_iter().collect();
    a
}
fn plan_hash(v: &Value) -> u64 {
    let s = serde_json::to_vec(v).unwrap();
    s.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x0000_0100_0000_01B3))
}

/// Forks the workers, collects what they report.
fn batch(p: &Prop, seed: u64, tier: Tier, runs: u64, secs: f64) -> Vec<Agg> {
    let nw = (os::ncpu() as u64).min(runs).max(1);
    let until = os::now() + secs;
    let mut kids = vec![];
    for w in 0..nw {
        let mut fds = [0i32; 2];
        unsafe {
            assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::close(fds[0]);
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                os::pin(w as usize);
                let a = worker(p, seed, tier, w, nw, runs, until);
                os::write_all(fds[1], &serde_json::to_vec(&a).unwrap());
                libc::_exit(0);
            }
            assert!(pid > 0);
            libc::close(fds[1]);
            kids.push((pid, fds[0], Vec::<u8>::new(), false));
        }
    }
    let mut out: Vec<Agg> = vec![];
    let mut stop_at = f64::INFINITY;
    loop {
        let mut pf: Vec<libc::pollfd> = kids
            .iter()
            .filter(|k| !k.3)
            .map(|k| libc::pollfd { fd: k.1, events: libc::POLLIN, revents: 0 })
            .collect();
        if pf.is_empty() {
            break;
        }
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as _, 500) };
        for f in pf.iter().filter(|f| f.revents != 0) {
            let k = kids.iter_mut().find(|k| k.1 == f.fd && !k.3).unwrap();
            let mut buf = vec![0u8; 1 << 16];
            let n = unsafe { libc::read(k.1, buf.as_mut_ptr() as *mut _, buf.len()) };
            if n > 0 {
                k.2.extend_from_slice(&buf[..n as usize]);
            } else if n == 0 {
                k.3 = true;
                unsafe {
                    libc::close(k.1);
                    libc::waitpid(k.0, std::ptr::null_mut(), 0);
                }
                match serde_json::from_slice::<Agg>(&k.2) {
                    Ok(a) => {
                        if a.violation.is_some() || a.error.is_some() {
                            stop_at = stop_at.min(os::now() + 2.0);
                        }
                        out.push(a)
                    }
                    Err(_) => {
                        if stop_at.is_infinite() {
                            out.push(Agg { error: Some("a worker died".into()), ..Default::default() })
                        }
                    }
                }
            }
        }
        if os::now() > stop_at {
            for k in kids.iter().filter(|k| !k.3) {
                unsafe { libc::kill(k.0, libc::SIGKILL) };
            }
            stop_at = f64::MAX;
        }
    }
    out
}

// ------------------------------------------------------------------------------------------------

fn paths(v: &Value, here: &mut Vec<Step>, out: &mut Vec<Vec<Step>>) {
    out.push(here.clone());
    match v {
        Value::Array(a) => {
            for (i, e) in a.iter().enumerate() {
                here.push(Step::I(i));
                paths(e, here, out);
                here.pop();
            }
        }
        Value::Object(m) => {
            for (k, e) in m {
                here.push(Step::K(k.clone()));
                paths(e, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}
#[derive(Clone)]
enum Step {
    I(usize),
    K(String),
}
fn at<'a>(v: &'a mut Value, p: &[Step]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Step::I(i) => v.get_mut(*i)?,
            Step::K(k) => v.get_mut(k.as_str())?,
        };
    }
    Some(v)
}

/// What identifies a violation while its plan is minimised: the class and, for a panic, where it happened.
fn signature(o: &Outcome) -> String {
    let at = if o.msg.contains("panicked: ") { o.msg.rsplit(" at ").next().unwrap_or("") } else { "" };
    format!("{} {}", o.class, at)
}

struct Shrinker<'a> {
    f: &'a Fam,
    class: String,
    tries: u64,
    deadline: f64,
}
impl<'a> Shrinker<'a> {
    fn fails(&mut self, plan: &Value, env: &Env, trace: Option<Vec<(u64, u32)>>) -> Option<Outcome> {
        self.tries += 1;
        let o = execute(self.f, plan, env, trace, false);
        if o.status == "violation" && signature(&o) == self.class {
            Some(o)
        } else {
            None
        }
    }
    fn time(&self) -> bool {
        os::now() < self.deadline
    }
    /// Tries a smaller plan: with the decisions of the failing run, without any, and with fresh schedules.
    fn attempt(&mut self, plan: &Value, env: &Env, trace: &[(u64, u32)]) -> Option<(Env, Vec<(u64, u32)>)> {
        if self.fails(plan, env, Some(vec![])).is_some() {
            return Some((env.clone(), vec![]));
        }
        if let Some(o) = self.fails(plan, env, Some(trace.to_vec())) {
            return Some((env.clone(), o.trace));
        }
        for k in 0..6 {
            let mut e = env.clone();
            e.seed = mix(e.seed, k);
            if k >= 3 {
                e.strategy = Strat::Random { p: [100, 400, 1024][k as usize - 3] };
            }
            if let Some(o) = self.fails(plan, &e, None) {
                if o.trace.is_empty() && o.decisions == 0 {
                    return Some((e, vec![]));
                }
                return Some((e, o.trace));
            }
        }
        None
    }
}

fn size(v: &Value) -> usize {
    serde_json::to_vec(v).unwrap().len()
}

fn shrink(f: &Fam, mut plan: Value, mut env: Env, mut trace: Vec<(u64, u32)>, class: &str, secs: f64) -> (Value, Env, Vec<(u64, u32)>, String) {
    let start = os::now();
    let mut s = Shrinker { f, class: class.into(), tries: 0, deadline: start + secs * 0.6 };
    let (p0, t0) = (size(&plan), trace.len());
    let mut progress = true;
    while progress && s.time() {
        progress = false;
        let mut ps = vec![];
        paths(&plan, &mut vec![], &mut ps);
        // arrays: drop runs of elements
        for path in &ps {
            let mut chunk = match at(&mut plan, path) {
                Some(Value::Array(a)) => a.len(),
                _ => continue,
            };
            while chunk > 0 && s.time() {
                let mut i = 0;
                loop {
                    let len = match at(&mut plan, path) {
                        Some(Value::Array(a)) => a.len(),
                        _ => 0,
                    };
                    if i >= len || !s.time() {
                        break;
                    }
                    let mut cand = plan.clone();
                    if let Some(Value::Array(a)) = at(&mut cand, path) {
                        let end = (i + chunk).min(a.len());
                        a.drain(i..end);
                    }
                    if let Some((e, t)) = s.attempt(&cand, &env, &trace) {
                        plan = cand;
                        env = e;
                        trace = t;
                        progress = true;
                    } else {
                        i += chunk;
                    }
                }
                chunk /= 2;
            }
        }
        // numbers: towards zero
        let mut ps = vec![];
        paths(&plan, &mut vec![], &mut ps);
        for path in &ps {
            if !s.time() {
                break;
            }
            let v = match at(&mut plan, path) {
                Some(v) => v.clone(),
                None => continue,
            };
            let cands: Vec<Value> = match &v {
                Value::Number(n) if n.is_u64() && n.as_u64().unwrap() > 0 => {
                    let x = n.as_u64().unwrap();
                    let mut c = vec![json!(0), json!(1), json!(x / 2), json!(x - 1)];
                    c.dedup();
                    c.retain(|y| y != &v);
                    c
                }
                Value::Number(n) if n.is_f64() => {
                    let x = n.as_f64().unwrap();
                    let mut c = vec![json!(1.0), json!(x.round()), json!((x * 4.0).round() / 4.0)];
                    c.retain(|y| y != &v);
                    c
                }
                Value::Bool(true) => vec![json!(false)],
                _ => vec![],
            };
            for c in cands {
                let mut cand = plan.clone();
                if let Some(x) = at(&mut cand, path) {
                    *x = c;
                }
                // a smaller number must not undo another simplification
                if size(&cand) > size(&plan) {
                    continue;
                }
                if let Some((e, t)) = s.attempt(&cand, &env, &trace) {
                    plan = cand;
                    env = e;
                    trace = t;
                    progress = true;
                    break;
                }
            }
        }
    }
    // environment
    s.deadline = start + secs * 0.7;
    for par in [1usize, 2, 3] {
        if par < env.parallelism && s.time() {
            let mut e = env.clone();
            e.parallelism = par;
            if let Some((e, t)) = s.attempt(&plan, &e, &trace) {
                env = e;
                trace = t;
                break;
            }
        }
    }
    for crowd in [0u32, 1, 16, 64] {
        if crowd < env.crowd && s.time() {
            let mut e = env.clone();
            e.crowd = crowd;
            if let Some((e, t)) = s.attempt(&plan, &e, &trace) {
                env = e;
                trace = t;
                break;
            }
        }
    }
    // decisions: delta debugging
    s.deadline = start + secs;
    let mut chunk = trace.len().max(1);
    while chunk > 0 && !trace.is_empty() && s.time() {
        let mut i = 0;
        while i < trace.len() && s.time() {
            let mut cand = trace.clone();
            let end = (i + chunk).min(cand.len());
            cand.drain(i..end);
            if let Some(o) = s.fails(&plan, &env, Some(cand.clone())) {
                trace = if o.trace.len() <= cand.len() { o.trace } else { cand };
            } else {
                i += chunk;
            }
        }
        chunk /= 2;
    }
    let note = format!(
        "plan {} -> {} bytes, schedule decisions {} -> {}, {} runs, {:.1} s",
        p0,
        size(&plan),
        t0,
        trace.len(),
        s.tries,
        os::now() - start
    );
    (plan, env, trace, note)
}

pub struct Report {
    pub path: String,
    pub replay: Replay,
}

/// Shrinks run `i` and writes its replay file. None: it does not reproduce.
fn report(p: &Prop, seed: u64, tier: Tier, i: u64, secs: f64) -> Result<Report, String> {
    let c = gen_case(p, seed, i, tier);
    let f = &p.fams[c.fam];
    let mut o = execute(f, &c.plan, &c.env, None, false);
    for _ in 0..4 {
        if o.status == "violation" {
            break;
        }
        o = execute(f, &c.plan, &c.env, None, false);
    }
    if o.status != "violation" {
        return Err(format!("run {} failed once and then gave {} {}", i, o.status, o.class));
    }
    let class = signature(&o);
    let crashed = o.steps == 0;
    let (mut plan, mut env, mut trace) = (c.plan.clone(), c.env.clone(), Some(o.trace.clone()));
    let mut note = String::from("not minimised");
    // crashes report no decisions: replay them from the seed
    if crashed {
        trace = None;
    } else {
        let t = execute(f, &plan, &env, trace.clone(), false);
        if t.status == "violation" && signature(&t) == class {
            let (p2, e2, t2, n) = shrink(f, plan.clone(), env.clone(), o.trace.clone(), &class, secs);
            let again = execute(f, &p2, &e2, Some(t2.clone()), false);
            if again.status == "violation" && signature(&again) == class {
                plan = p2;
                env = e2;
                trace = Some(t2);
                note = n;
            }
        } else {
            trace = None;
        }
    }
    let last = execute(f, &plan, &env, trace.clone(), true);
    if last.status != "violation" {
        return Err(format!("run {} does not replay: {} {}", i, last.status, last.class));
    }
    let mut schedule = last.log.clone();
    if schedule.len() > 3000 {
        schedule = schedule.split_off(schedule.len() - 3000);
    }
    let replay = Replay {
        property: p.id.into(),
        family: f.name.into(),
        seed,
        run: i,
        class: last.class.clone(),
        message: last.msg.clone(),
        plan,
        env,
        trace,
        shrink: note,
        schedule,
    };
    let dir = "out/replays";
    std::fs::create_dir_all(dir).map_err(|e| e.to_string())?;
    let path = std::env::current_dir().unwrap().join(dir).join(format!("{}-{}-{}.json", p.id, seed, i));
    std::fs::write(&path, serde_json::to_vec_pretty(&replay).unwrap()).map_err(|e| e.to_string())?;
    Ok(Report { path: path.display().to_string(), replay })
}

pub fn check(p: &Prop) -> i32 {
    let t0 = os::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let num = |k: &str, d: f64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let (runs, secs) = match tier {
        Tier::Quick => (num("ADVSIM_RUNS", p.quick_runs as f64) as u64, num("ADVSIM_SECONDS", 150.0)),
        Tier::Thorough => (num("ADVSIM_RUNS", 1e12) as u64, num("ADVSIM_SECONDS", 600.0)),
    };
    let aggs = batch(p, seed, tier, runs, secs);
    let mut t = Agg::default();
    let mut hs: HashSet<u64> = HashSet::new();
    let mut nt: HashSet<u64> = HashSet::new();
    for a in &aggs {
        t.runs += a.runs;
        t.ok += a.ok;
        t.inconclusive += a.inconclusive;
        t.steps += a.steps;
        t.switches += a.switches;
        t.preemptions += a.preemptions;
        t.decisions += a.decisions;
        t.threads += a.threads;
        t.max_steps = t.max_steps.max(a.max_steps);
        t.max_threads = t.max_threads.max(a.max_threads);
        t.clock_ns += a.clock_ns;
        for (x, y) in [
            (&mut t.skipped, &a.skipped),
            (&mut t.kinds, &a.kinds),
            (&mut t.counters, &a.counters),
            (&mut t.families, &a.families),
            (&mut t.strategies, &a.strategies),
        ] {
            for (k, v) in y {
                *x.entry(k.clone()).or_insert(0) += v;
            }
        }
        hs.extend(&a.hashes);
        nt.extend(&a.nontrivial);
        t.samples.extend(a.samples.iter().cloned());
        if let Some(e) = &a.error {
            t.error.get_or_insert(e.clone());
        }
        if let Some(v) = &a.violation {
            if t.violation.as_ref().map_or(true, |b| v.0 < b.0) {
                t.violation = Some(v.clone());
            }
        }
    }
    let search = os::now() - t0;
    let mut code = 0;
    let mut violation = Value::Null;
    let mut nviol = 0;
    let mut all: Vec<(u64, String, String)> = aggs.iter().filter_map(|a| a.violation.clone()).collect();
    all.sort();
    if !all.is_empty() {
        let mut why = String::new();
        code = 2;
        for (i, class, _) in all.iter().take(4) {
            match report(p, seed, tier, *i, num("ADVSIM_SHRINK", 60.0)) {
                Ok(r) => {
                    println!("{}: {} in scenario {}: {}", p.id, r.replay.class, r.replay.family, r.replay.message);
                    println!("{}: minimised: {}", p.id, r.replay.shrink);
                    println!("VIOLATION property={} replay={}", p.id, r.path);
                    violation = json!({"class": r.replay.class, "message": r.replay.message, "replay": r.path, "family": r.replay.family});
                    nviol = 1;
                    code = 1;
                    break;
                }
                Err(e) => why = format!("{} ({})", e, class),
            }
        }
        if code == 2 {
            println!("{}: error: not reproducible: {}", p.id, why);
        }
    } else if let Some(e) = &t.error {
        println!("{}: error: {}", p.id, e);
        code = 2;
    } else if t.ok == 0 || t.inconclusive * 20 > t.runs {
        println!("{}: error: {} runs, {} decided, {} inconclusive", p.id, t.runs, t.ok, t.inconclusive);
        code = 2;
    }
    let faults: BTreeMap<_, _> = t.counters.iter().filter(|(k, _)| k.starts_with("fault_") || k.as_str() == "spurious_wakeup" || k.as_str() == "stalled_steps").collect();
    let probes: BTreeMap<_, _> = t.counters.iter().filter(|(k, _)| !faults.contains_key(k)).collect();
    let ev = json!({
        "property": p.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": t.runs,
            "distinct_nontrivial": nt.len(),
            "rule": p.rule,
            "samples": t.samples,
            "decided_runs": t.ok,
            "undecided_runs": t.skipped,
            "inconclusive_runs": t.inconclusive,
            "seeds": t.runs,
            "runs_per_hour": (t.runs as f64 / search * 3600.0).round(),
            "simulated_time_s": t.clock_ns as f64 * 1e-9,
            "simulated_steps": t.steps,
            "context_switches": t.switches,
            "preemptions": t.preemptions,
            "scheduling_decisions": t.decisions,
            "simulated_threads": t.threads,
            "most_threads_in_a_run": t.max_threads,
            "most_steps_in_a_run": t.max_steps,
            "distinct_schedules": hs.len(),
            "schedule_measure": "hash of the sequence of (thread, kind of operation, object) of a run",
            "scheduling_points_by_kind": t.kinds,
            "faults_injected": faults,
            "situations_reached": probes,
            "scenario_families": t.families,
            "schedulers": t.strategies,
            "real_components": p.real,
            "stubbed_components": p.stub,
            "violation": violation,
        },
        "assumptions": p.assumptions,
        "wall_s": os::now() - t0,
        "violations": nviol,
    });
    let _ = std::fs::create_dir_all("evidence");
    if std::fs::write(format!("evidence/{}.json", p.id), serde_json::to_vec_pretty(&ev).unwrap()).is_err() {
        println!("{}: cannot write the evidence file", p.id);
        return 2;
    }
    if code == 0 {
        println!(
            "{}: held on {} simulated runs ({} decided, {} distinct non-trivial, {} distinct schedules) in {:.1} s",
            p.id,
            t.runs,
            t.ok,
            nt.len(),
            hs.len(),
            search
        );
    }
    code
}

pub fn replay(props: &[Prop], path: &str, log: bool) -> i32 {
    let r: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let Some(p) = props.iter().find(|p| p.id == r.property) else { return 2 };
    let Some(f) = p.fams.iter().find(|f| f.name == r.family) else { return 2 };
    let o = execute(f, &r.plan, &r.env, r.trace.clone(), log);
    if log {
        for l in &o.log {
            println!("{}", l);
        }
    }
    if o.status == "violation" {
        println!("{}: {}: {}", r.property, o.class, o.msg);
        println!("VIOLATION property={} replay={}", r.property, path);
        1
    } else {
        println!("{}: not reproduced: {} {} {}", r.property, o.status, o.class, o.msg);
        if o.status == "ok" {
            0
        } else {
            2
        }
    }
}

/// Every case twice from its seed and once from its recorded decisions: the same execution each time?
pub fn selftest(props: &[Prop], n: u64) -> i32 {
    let mut bad = 0;
    for p in props {
        let mut same = 0;
        for i in 0..n {
            let c = gen_case(p, 99, i, Tier::Quick);
            let f = &p.fams[c.fam];
            let a = execute(f, &c.plan, &c.env, None, false);
            let b = execute(f, &c.plan, &c.env, None, false);
            let d = execute(f, &c.plan, &c.env, Some(a.trace.clone()), false);
            let k = |o: &Outcome| (o.status.clone(), o.class.clone(), o.hash, o.steps, o.trace.clone());
            if k(&a) == k(&b) && k(&a) == k(&d) {
                same += 1;
            } else {
                bad += 1;
                println!("{} run {} ({}): {:?} {:?} / {:?} {:?} / {:?} {:?}", p.id, i, f.name, a.status, a.hash, b.status, b.hash, d.status, d.hash);
            }
        }
        println!("{}: {} of {} runs repeat exactly", p.id, same, n);
    }
    (bad > 0) as i32
}
