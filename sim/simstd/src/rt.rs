//! The simulator's scheduler: real OS threads, exactly one of which holds the baton at any time.
//! Every decision (which thread runs next, every `flip`/`choose`) comes from one seeded PRNG or, in a
//! replay, from an explicit list of the decisions that differ from the default.
use ::std::cell::{Cell, UnsafeCell};
use ::std::collections::BTreeMap;
use ::std::sync::atomic::{AtomicBool, AtomicU32, AtomicUsize, Ordering::*};
use ::std::sync::Arc;

pub const NONE: usize = usize::MAX;

thread_local! {
    static TID: Cell<usize> = const { Cell::new(NONE) };
    static SENTINEL: Sentinel = const { Sentinel };
}

struct Sentinel;
impl Drop for Sentinel {
    fn drop(&mut self) {
        finish_current();
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
#[repr(u8)]
pub enum Kind {
    Start = 0,
    Lock,
    Locked,
    Unlock,
    TryLock,
    Read,
    Write,
    CondWait,
    CondNotify,
    Atomic,
    ArcClone,
    ArcDrop,
    ArcOther,
    Upgrade,
    Once,
    Spawn,
    Join,
    Yield,
    Sleep,
    Chan,
    Push,
    Pop,
    Steal,
    User,
    Park,
    Block,
    Finish,
    Other,
    Memory,
}
pub const KINDS: usize = 29;
const KIND_NAMES: [&str; KINDS] = [
    "start", "lock", "locked", "unlock", "trylock", "read", "write", "condwait", "condnotify", "atomic",
    "arc_clone", "arc_drop", "arc_other", "weak_upgrade", "once", "spawn", "join", "yield", "sleep", "chan",
    "deque_push", "deque_pop", "deque_steal", "user", "park", "block", "finish", "other", "memory",
];

#[derive(Clone, Debug)]
pub enum Strategy {
    /// switch with probability p (per 1024) at every point, to a uniformly chosen runnable thread
    Random { p: u32 },
    /// probabilistic concurrency testing: random priorities, `depth` priority changes in `len` steps
    Pct { depth: u32, len: u32 },
    /// round robin with a fixed quantum
    RoundRobin { quantum: u32 },
    /// switch with probability p (per 1024) only at the kinds of points in the mask
    Biased { mask: u32, p: u32 },
    /// bursts of geometric length (mean `mean`)
    Burst { mean: u32 },
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub strategy: Strategy,
    /// stalls injected: (thread ordinal, from step, length)
    pub stalls: Vec<(u32, u64, u64)>,
    /// after this many steps scheduling becomes uniformly random (fair)
    pub fair_after: u64,
    /// more steps than this: livelock
    pub max_steps: u64,
    /// replay: decisions that differ from the default
    pub trace: Option<Vec<(u64, u32)>>,
    pub log: bool,
    /// probability (per 1024) of a spurious wake-up at a condition variable wait / weak CAS failure
    pub spurious: u32,
    /// what available_parallelism reports (the size of the default worker pool)
    pub parallelism: usize,
}

impl Default for Config {
    fn default() -> Self {
        Config {
            seed: 0,
            strategy: Strategy::Random { p: 100 },
            stalls: vec![],
            fair_after: 200_000,
            max_steps: 600_000,
            trace: None,
            log: false,
            spurious: 0,
            parallelism: 4,
        }
    }
}

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed ^ 0x9E37_79B9_7F4A_7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n <= 1 {
            0
        } else {
            (self.next() % n as u64) as usize
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Run,
    Blocked { obj: u64, deadline: u64 },
    Done,
}

struct Th {
    st: St,
    go: Arc<AtomicBool>,
    handle: Option<::std::thread::Thread>,
    name: String,
    woken: bool,
    park_token: bool,
    prio: u64,
    /// reason of the current/last block, for deadlock reports
    why: (Kind, u64),
}

#[derive(Clone, Debug)]
pub struct Event {
    pub step: u64,
    pub tid: u32,
    pub kind: Kind,
    pub obj: u32,
    pub note: Option<String>,
}

struct Rt {
    cfg: Config,
    threads: Vec<Th>,
    cur: usize,
    rng: Rng,
    step: u64,
    switches: u64,
    preemptions: u64,
    decisions: u64,
    trace_pos: usize,
    trace_out: Vec<(u64, u32)>,
    log: Vec<Event>,
    hash: u64,
    kinds: [u64; KINDS],
    counters: BTreeMap<&'static str, u64>,
    clock: u64,
    next_obj: u32,
    change_points: Vec<u64>,
    low_prio: u64,
    quantum: u32,
    burst: u32,
    serial: u32,
    seq: u64,
}

struct Cellule(UnsafeCell<Option<Rt>>);
unsafe impl Sync for Cellule {}
static RT: Cellule = Cellule(UnsafeCell::new(None));
static ACTIVE: AtomicBool = AtomicBool::new(false);
static SERIAL: AtomicUsize = AtomicUsize::new(0);

#[allow(clippy::mut_from_ref)]
fn rt() -> &'static mut Rt {
    // Only the thread that holds the baton gets here.
    unsafe { (*RT.0.get()).as_mut().unwrap() }
}

pub type FailHook = fn(class: &str, msg: &str);
static FAIL: ::std::sync::OnceLock<FailHook> = ::std::sync::OnceLock::new();
/// Called for the bracketed section in which the runtime itself allocates (the harness' allocator uses it
/// to keep the runtime's own memory out of the accounts of the code under test).
pub type AllocHook = fn(enter: bool);
static ALLOC: ::std::sync::OnceLock<AllocHook> = ::std::sync::OnceLock::new();

pub fn set_fail_hook(f: FailHook) {
    let _ = FAIL.set(f);
}
pub fn set_alloc_hook(f: AllocHook) {
    let _ = ALLOC.set(f);
}

pub struct Quiet;
impl Quiet {
    #[inline]
    pub fn new() -> Quiet {
        if let Some(h) = ALLOC.get() {
            h(true)
        }
        Quiet
    }
}
impl Drop for Quiet {
    #[inline]
    fn drop(&mut self) {
        if let Some(h) = ALLOC.get() {
            h(false)
        }
    }
}

/// Report a failure of the simulated system; does not return.
pub fn fail(class: &str, msg: &str) -> ! {
    let _q = Quiet::new();
    if let Some(h) = FAIL.get() {
        h(class, msg);
    }
    eprintln!("simulation failure: {}: {}", class, msg);
    ::std::process::abort()
}

#[inline]
pub fn tid() -> usize {
    TID.try_with(|t| t.get()).unwrap_or(NONE)
}
#[inline]
pub fn in_sim() -> bool {
    tid() != NONE
}
/// In serial sections there is no preemption and `flip`/`choose` return the default.
pub fn set_serial(on: bool) {
    if in_sim() {
        let r = rt();
        if on {
            r.serial += 1
        } else {
            r.serial -= 1
        }
        SERIAL.store(r.serial as usize, SeqCst);
    }
}
#[inline]
pub fn is_serial() -> bool {
    SERIAL.load(Relaxed) > 0
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub steps: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub decisions: u64,
    pub threads: usize,
    pub hash: u64,
    pub kinds: Vec<(&'static str, u64)>,
    pub counters: BTreeMap<&'static str, u64>,
    pub clock_ns: u64,
    pub trace: Vec<(u64, u32)>,
}

pub fn stats() -> Stats {
    let _q = Quiet::new();
    let r = rt();
    Stats {
        steps: r.step,
        switches: r.switches,
        preemptions: r.preemptions,
        decisions: r.decisions,
        threads: r.threads.len(),
        hash: r.hash,
        kinds: (0..KINDS).filter(|i| r.kinds[*i] > 0).map(|i| (KIND_NAMES[i], r.kinds[i])).collect(),
        counters: r.counters.clone(),
        clock_ns: r.clock,
        trace: r.trace_out.clone(),
    }
}

pub fn log_lines() -> Vec<String> {
    let _q = Quiet::new();
    let r = rt();
    r.log
        .iter()
        .map(|e| match &e.note {
            Some(n) => format!("{:6} t{} note {}", e.step, e.tid, n),
            None => format!("{:6} t{} {} #{}", e.step, e.tid, KIND_NAMES[e.kind as usize], e.obj),
        })
        .collect()
}

/// Count something worth reporting (faults fired, rare branches reached).
pub fn count(key: &'static str) {
    if in_sim() {
        let _q = Quiet::new();
        *rt().counters.entry(key).or_insert(0) += 1;
    }
}
pub fn count_n(key: &'static str, n: u64) {
    if in_sim() && n > 0 {
        let _q = Quiet::new();
        *rt().counters.entry(key).or_insert(0) += n;
    }
}

/// The run is about to do `n` steps of ordinary work that the limit on its length does not foresee.
pub fn long(n: u64) {
    if in_sim() && rt().cfg.max_steps < 30_000_000 {
        rt().cfg.max_steps += n * 40;
    }
}

/// Global event sequence number: totally orders what the harness records.
pub fn seq() -> u64 {
    if in_sim() {
        let r = rt();
        r.seq += 1;
        r.seq
    } else {
        0
    }
}

pub fn note(f: impl FnOnce() -> String) {
    if in_sim() {
        let _q = Quiet::new();
        let r = rt();
        if r.cfg.log {
            let e = Event { step: r.step, tid: r.cur as u32, kind: Kind::Other, obj: 0, note: Some(f()) };
            r.log.push(e);
        }
    }
}

fn mix(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23) ^ v
}

pub fn run<R>(cfg: Config, f: impl FnOnce() -> R) -> R {
    assert!(!ACTIVE.swap(true, SeqCst), "one simulation at a time");
    let mut rng = Rng::new(cfg.seed);
    let mut change_points = vec![];
    if let Strategy::Pct { depth, len } = cfg.strategy {
        for _ in 0..depth {
            change_points.push(rng.below(len.max(1) as usize) as u64);
        }
        change_points.sort();
    }
    let r = Rt {
        threads: vec![],
        cur: 0,
        rng,
        step: 0,
        switches: 0,
        preemptions: 0,
        decisions: 0,
        trace_pos: 0,
        trace_out: vec![],
        log: vec![],
        hash: 0xcbf2_9ce4_8422_2325,
        kinds: [0; KINDS],
        counters: BTreeMap::new(),
        clock: 1_000_000_000,
        next_obj: 1,
        change_points,
        low_prio: 1 << 20,
        quantum: 0,
        burst: 0,
        serial: 0,
        seq: 0,
        cfg,
    };
    unsafe {
        *RT.0.get() = Some(r);
    }
    SERIAL.store(0, SeqCst);
    let r = rt();
    let prio = new_prio(r);
    r.threads.push(Th {
        st: St::Run,
        go: Arc::new(AtomicBool::new(false)),
        handle: Some(::std::thread::current()),
        name: "main".into(),
        woken: false,
        park_token: false,
        prio,
        why: (Kind::Start, 0),
    });
    TID.with(|t| t.set(0));
    let out = f();
    TID.with(|t| t.set(NONE));
    out
}

fn new_prio(r: &mut Rt) -> u64 {
    (1 << 40) + (r.rng.next() >> 24)
}

pub struct ObjId(AtomicU32);
impl ObjId {
    pub const fn new() -> ObjId {
        ObjId(AtomicU32::new(0))
    }
    #[inline]
    pub fn get(&self) -> u64 {
        let v = self.0.load(Relaxed);
        if v != 0 {
            return v as u64;
        }
        if in_sim() {
            let r = rt();
            let id = r.next_obj;
            r.next_obj += 1;
            self.0.store(id, Relaxed);
            id as u64
        } else {
            0
        }
    }
}

fn record(r: &mut Rt, kind: Kind, obj: u64) {
    r.step += 1;
    if r.serial > 0 && r.step < 20_000_000 {
        // preparations do not count against the limits
        r.cfg.max_steps += 1;
        r.cfg.fair_after += 1;
    }
    r.clock += 1_000; // a microsecond of simulated time per step
    r.kinds[kind as usize] += 1;
    r.hash = mix(r.hash, (r.cur as u64) << 40 | (kind as u64) << 32 | obj);
    if r.cfg.log {
        let _q = Quiet::new();
        let e = Event { step: r.step, tid: r.cur as u32, kind, obj: obj as u32, note: None };
        r.log.push(e);
    }
    if r.step > r.cfg.max_steps {
        let msg = format!("no completion within {} steps: {}", r.cfg.max_steps, describe(r));
        fail("livelock", &msg);
    }
}

fn describe(r: &Rt) -> String {
    let mut s = String::new();
    for (i, t) in r.threads.iter().enumerate() {
        if t.st == St::Done {
            continue;
        }
        let d = match t.st {
            St::Run => "runnable".to_string(),
            St::Blocked { .. } => format!("blocked at {} #{}", KIND_NAMES[t.why.0 as usize], t.why.1),
            St::Done => unreachable!(),
        };
        s.push_str(&format!("[t{} {}: {}] ", i, t.name, d));
    }
    s
}

/// A scheduling point: the simulator may let any other runnable thread go first.
#[inline]
pub fn point(kind: Kind, obj: u64) {
    if !in_sim() {
        return;
    }
    let r = rt();
    record(r, kind, obj);
    let next = pick(r, kind, true);
    if next != r.cur {
        if kind != Kind::Yield {
            r.preemptions += 1;
        }
        hand_over(r, next, true);
    }
}

/// Choose one of n alternatives; 0 is the default.
pub fn choose(n: usize) -> usize {
    if !in_sim() || n <= 1 {
        return 0;
    }
    let r = rt();
    if r.serial > 0 {
        return 0;
    }
    let v = if r.cfg.trace.is_some() { from_trace(r).unwrap_or(0) as usize % n } else { r.rng.below(n) };
    emit(r, v as u32, 0);
    v
}

/// A coin that shows `true` with probability p/1024; default false.
pub fn flip(p: u32) -> bool {
    if !in_sim() || p == 0 {
        return false;
    }
    let r = rt();
    if r.serial > 0 {
        return false;
    }
    let v = if r.cfg.trace.is_some() {
        from_trace(r).unwrap_or(0) != 0
    } else {
        r.rng.below(1024) < p as usize
    };
    emit(r, v as u32, 0);
    v
}

pub fn flip_spurious() -> bool {
    if !in_sim() {
        return false;
    }
    let p = rt().cfg.spurious;
    if flip(p) {
        count("spurious_wakeup");
        true
    } else {
        false
    }
}

pub fn parallelism() -> usize {
    if in_sim() {
        rt().cfg.parallelism
    } else {
        1
    }
}

fn from_trace(r: &mut Rt) -> Option<u32> {
    let d = r.decisions;
    let t = r.cfg.trace.as_ref().unwrap();
    while r.trace_pos < t.len() && t[r.trace_pos].0 < d {
        r.trace_pos += 1;
    }
    if r.trace_pos < t.len() && t[r.trace_pos].0 == d {
        Some(t[r.trace_pos].1)
    } else {
        None
    }
}

fn emit(r: &mut Rt, v: u32, default: u32) {
    if v != default {
        let _q = Quiet::new();
        r.trace_out.push((r.decisions, v));
    }
    r.decisions += 1;
}

fn pick(r: &mut Rt, kind: Kind, me_runnable: bool) -> usize {
    let n = r.threads.len();
    let me = r.cur;
    loop {
        let mut runnable = [0u16; 256];
        let mut k = 0;
        for i in 0..n {
            let ok = match r.threads[i].st {
                St::Run => i != me || me_runnable,
                _ => false,
            };
            if ok && k < 256 {
                runnable[k] = i as u16;
                k += 1;
            }
        }
        // timeouts that are due
        if k == 0 {
            let mut best: Option<(u64, usize)> = None;
            for i in 0..n {
                if let St::Blocked { deadline, .. } = r.threads[i].st {
                    if deadline != u64::MAX && best.map_or(true, |b| deadline < b.0) {
                        best = Some((deadline, i));
                    }
                }
            }
            match best {
                Some((d, i)) => {
                    r.clock = r.clock.max(d);
                    r.threads[i].st = St::Run;
                    r.threads[i].woken = false;
                    if i == me {
                        return me;
                    }
                    continue;
                }
                None => {
                    let msg = format!("every thread is blocked: {}", describe(r));
                    fail("deadlock", &msg);
                }
            }
        }
        let c = &runnable[..k];
        if k == 1 {
            return c[0] as usize;
        }
        let yielding = kind == Kind::Yield || kind == Kind::Sleep;
        // in the end everybody gets their turn, also in a replay whose decisions are used up
        let turn = r.step > r.cfg.fair_after && r.step % 64 == 0;
        let default = if me_runnable && !yielding && !turn {
            me
        } else {
            *c.iter().find(|t| **t as usize > me).unwrap_or(&c[0]) as usize
        };
        if r.serial > 0 {
            return default;
        }
        let v = if r.cfg.trace.is_some() {
            match from_trace(r) {
                Some(t) if c.contains(&(t as u16)) => t as usize,
                _ => default,
            }
        } else {
            strategy_pick(r, kind, c, me_runnable, yielding, default)
        };
        emit(r, v as u32, default as u32);
        return v;
    }
}

fn strategy_pick(r: &mut Rt, kind: Kind, all: &[u16], me_runnable: bool, yielding: bool, default: usize) -> usize {
    let me = r.cur;
    if r.step > r.cfg.fair_after {
        let i = r.rng.below(all.len());
        return all[i] as usize;
    }
    // injected stalls: a stalled thread runs only if nothing else can
    let mut buf = [0u16; 256];
    let mut k = 0;
    let step = r.step;
    for t in all {
        let stalled = r.cfg.stalls.iter().any(|s| s.0 as u16 == *t && step >= s.1 && step < s.1 + s.2);
        if !stalled {
            buf[k] = *t;
            k += 1;
        }
    }
    if k > 0 && k < all.len() {
        *r.counters.entry("stalled_steps").or_insert(0) += 1;
    }
    let c = if k == 0 { all } else { &buf[..k] };
    let cont = me_runnable && !yielding && c.contains(&(me as u16));
    match r.cfg.strategy.clone() {
        Strategy::Random { p } => {
            if cont && r.rng.below(1024) >= p as usize {
                me
            } else {
                c[r.rng.below(c.len())] as usize
            }
        }
        Strategy::Biased { mask, p } => {
            let hot = mask & (1 << kind as u32) != 0;
            if cont && (!hot || r.rng.below(1024) >= p as usize) {
                me
            } else {
                c[r.rng.below(c.len())] as usize
            }
        }
        Strategy::RoundRobin { quantum } => {
            r.quantum += 1;
            if cont && r.quantum < quantum {
                me
            } else {
                r.quantum = 0;
                *c.iter().find(|t| **t as usize > me).unwrap_or(&c[0]) as usize
            }
        }
        Strategy::Burst { mean } => {
            if cont && r.burst > 0 {
                r.burst -= 1;
                me
            } else {
                r.burst = r.rng.below(2 * mean as usize + 1) as u32;
                c[r.rng.below(c.len())] as usize
            }
        }
        Strategy::Pct { .. } => {
            while !r.change_points.is_empty() && r.change_points[0] <= r.step {
                r.change_points.remove(0);
                r.low_prio -= 1;
                r.threads[me].prio = r.low_prio;
            }
            if yielding && me_runnable {
                r.low_prio -= 1;
                r.threads[me].prio = r.low_prio;
            }
            let mut best = default;
            let mut bp = 0;
            for t in c {
                let p = r.threads[*t as usize].prio;
                if p > bp {
                    bp = p;
                    best = *t as usize;
                }
            }
            best
        }
    }
}

fn hand_over(r: &mut Rt, next: usize, wait: bool) {
    let me = r.cur;
    r.switches += 1;
    r.cur = next;
    let mine = r.threads[me].go.clone();
    let t = &r.threads[next];
    let h = t.handle.clone();
    t.go.store(true, Release);
    // the baton is gone: nothing of `r` may be touched from here on
    if let Some(h) = h {
        h.unpark();
    }
    if wait {
        while !mine.swap(false, Acquire) {
            ::std::thread::park();
        }
    }
}

/// Block the current thread until `wake(obj)`; returns false if the timeout struck first.
pub fn block(kind: Kind, obj: u64, timeout_ns: Option<u64>) -> bool {
    let r = rt();
    record(r, Kind::Block, obj);
    let me = r.cur;
    let deadline = timeout_ns.map_or(u64::MAX, |t| r.clock.saturating_add(t));
    r.threads[me].st = St::Blocked { obj, deadline };
    r.threads[me].woken = false;
    r.threads[me].why = (kind, obj);
    let next = pick(r, Kind::Block, false);
    if next != me {
        hand_over(r, next, true);
    }
    let r = rt();
    r.threads[me].woken
}

pub fn wake_all(obj: u64) {
    if !in_sim() {
        return;
    }
    let r = rt();
    for t in r.threads.iter_mut() {
        if let St::Blocked { obj: o, .. } = t.st {
            if o == obj {
                t.st = St::Run;
                t.woken = true;
            }
        }
    }
}

pub fn wake_one(obj: u64) {
    if !in_sim() {
        return;
    }
    let q = Quiet::new();
    let waiting: Vec<usize> = {
        let r = rt();
        (0..r.threads.len())
            .filter(|i| matches!(r.threads[*i].st, St::Blocked { obj: o, .. } if o == obj))
            .collect()
    };
    if waiting.is_empty() {
        return;
    }
    let i = choose(waiting.len());
    let _q = q;
    let r = rt();
    r.threads[waiting[i]].st = St::Run;
    r.threads[waiting[i]].woken = true;
}

pub fn clock_ns() -> u64 {
    if in_sim() {
        rt().clock
    } else {
        0
    }
}

pub fn sleep_ns(ns: u64) {
    if !in_sim() {
        return;
    }
    point(Kind::Sleep, 0);
    block(Kind::Sleep, SLEEP_OBJ, Some(ns));
}

const SLEEP_OBJ: u64 = u64::MAX;
const JOIN_BASE: u64 = 1 << 40;
const PARK_BASE: u64 = 1 << 41;

pub fn spawn(name: Option<String>, f: Box<dyn FnOnce() + Send + 'static>) -> usize {
    let _q = Quiet::new();
    let r = rt();
    let tid = r.threads.len();
    assert!(tid < 2000, "too many simulated threads");
    let go = Arc::new(AtomicBool::new(false));
    let go2 = go.clone();
    let prio = new_prio(r);
    r.threads.push(Th {
        st: St::Run,
        go,
        handle: None,
        name: name.unwrap_or_else(|| format!("thread{}", tid)),
        woken: false,
        park_token: false,
        prio,
        why: (Kind::Start, 0),
    });
    let jh = ::std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            SENTINEL.with(|_| ());
            while !go2.swap(false, Acquire) {
                ::std::thread::park();
            }
            drop(go2);
            TID.with(|t| t.set(tid));
            record(rt(), Kind::Start, 0);
            f();
        })
        .unwrap_or_else(|e| {
            eprintln!("simulator: cannot create a thread: {}", e);
            ::std::process::exit(70)
        });
    r.threads[tid].handle = Some(jh.thread().clone());
    drop(jh);
    drop(_q);
    point(Kind::Spawn, tid as u64);
    tid
}

fn finish_current() {
    if !in_sim() {
        return;
    }
    let r = rt();
    let me = r.cur;
    record(r, Kind::Finish, me as u64);
    r.threads[me].st = St::Done;
    wake_all(JOIN_BASE + me as u64);
    let r = rt();
    let next = pick(r, Kind::Finish, false);
    TID.with(|t| t.set(NONE));
    hand_over(r, next, false);
}

pub fn is_done(tid: usize) -> bool {
    rt().threads[tid].st == St::Done
}

pub fn join(tid: usize) {
    point(Kind::Join, tid as u64);
    while !is_done(tid) {
        block(Kind::Join, JOIN_BASE + tid as u64, None);
    }
}

pub fn park(timeout_ns: Option<u64>) {
    point(Kind::Park, 0);
    let me = tid();
    if !rt().threads[me].park_token && !flip_spurious() {
        block(Kind::Park, PARK_BASE + me as u64, timeout_ns);
    }
    rt().threads[me].park_token = false;
}

pub fn unpark(tid: usize) {
    let r = rt();
    r.threads[tid].park_token = true;
    wake_all(PARK_BASE + tid as u64);
    point(Kind::Park, 0);
}
