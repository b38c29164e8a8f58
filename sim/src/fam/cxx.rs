//! C14: the C++ front end and the C interface, driven step by step against a model with value semantics.
use super::record::{diff, snap};
use super::*;
use crate::alloc::{block_id, CXX_FAILED, CXX_FAIL_AT, CXX_LIVE};
use crate::sim::calm;
use std::cell::Cell;
use std::os::raw::c_void;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Mutex as RealMutex;

// the symbols the C++ side needs
#[allow(unused_imports)]
use advantage::*;

extern "C" {
    fn advsim_env_new() -> *mut c_void;
    fn advsim_env_free(e: *mut c_void);
    fn advsim_step(e: *mut c_void, other: *mut c_void, op: i32, a: i32, b: i32, c: i32, f: i32, v: f64, out: *mut f64) -> i32;
}

static TRACKED: RealMutex<Vec<(usize, u64, bool)>> = RealMutex::new(Vec::new());
thread_local! {
    static LAST_CID: Cell<usize> = const { Cell::new(0) };
}
/// Every object the C interface hands out passes here.
#[no_mangle]
pub extern "C" fn advsim_track(p: *mut c_void, context: i32) -> *mut c_void {
    crate::alloc::point();
    if context != 0 {
        let cid = unsafe { (*(p as *mut AContext)).cid() };
        LAST_CID.with(|l| l.set(cid));
    }
    quiet(|| match block_id(p as *const u8) {
        Some(id) => TRACKED.lock().unwrap().push((p as usize, id, context != 0)),
        None => viol!("bad-object", "the C interface returns something that is no live object"),
    });
    p
}

const ND: usize = 6;
const NK: usize = 3;
/// used by the harness to look at values
const NR: usize = 4;
const NC: usize = 2;
const SHARED: usize = usize::MAX;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Step {
    op: u8,
    a: u8,
    b: u8,
    c: u8,
    f: u8,
    v: f64,
    /// the k-th C++ allocation of this step fails
    fail: u8,
    /// operand b is one of the objects all threads share
    shared: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanCxx {
    /// values of the shared objects; the first ones are variables of a shared context
    shared: Vec<f64>,
    threads: Vec<Vec<Step>>,
    /// objects are destroyed by the thread that made them (or by another one)
    own_cleanup: bool,
    /// the same once before, alone
    #[serde(default)]
    warm: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanCxxRounds {
    steps: Vec<Step>,
}

// ------------------------------------------------------------------------------------------------ generation

/// occupied slots, roughly
#[derive(Default, Clone)]
struct Occ {
    d: [bool; ND],
    k: [bool; NK],
    r: [bool; NR],
    c: [bool; NC],
    v: usize,
    arr: usize,
}
fn pick_where(r: &mut Rng, s: &[bool], want: bool) -> Option<usize> {
    let c: Vec<usize> = (0..s.len()).filter(|i| s[*i] == want).collect();
    if c.is_empty() {
        None
    } else {
        Some(c[r.below(c.len())])
    }
}
const W: [(u8, u32); 43] = [
    (0, 3), (1, 8), (2, 6), (3, 4), (4, 8), (5, 8), (6, 4), (7, 12), (8, 5), (9, 8), (10, 8), (11, 10), (12, 8), (13, 4),
    (14, 5), (15, 2), (16, 5), (17, 3), (18, 10), (19, 6), (20, 4), (21, 4), (22, 6), (23, 1), (24, 4), (25, 3), (26, 3),
    (27, 2), (28, 3), (29, 3), (30, 2), (31, 3), (40, 4), (50, 2), (51, 4), (52, 4), (53, 3), (54, 8), (55, 7), (56, 4),
    (57, 3), (58, 2), (59, 6),
];
fn gen_steps(r: &mut Rng, n: usize, faults: bool, shared: bool) -> Vec<Step> {
    let mut o = Occ::default();
    let mut out = vec![];
    let mut weights: Vec<u32> = W.iter().map(|w| w.1).collect();
    weights.push(4);
    let mut tries = 0;
    let odd: &[f64] = match r.below(10) {
        0 => &[0.0, -0.0],
        1 => &[0.0, -0.0, 1.0, -1.0],
        2 => &[0.0, -0.0, 1.0, 1.7e308, -1.7e308, 5e-324, -1e-310],
        3 => &[1.0, 1.0 + f64::EPSILON, 0.1, 0.3],
        _ => &[],
    };
    while out.len() < n && tries < n * 20 {
        tries += 1;
        let i = r.weighted(&weights);
        let op = if i == W.len() { 60 } else { W[i].0 };
        let f = match op {
            11 | 55 => r.below(6),
            40 => r.below(8),
            _ => r.below(4),
        } as u8;
        let v = match r.below(4) {
            0..=2 if !odd.is_empty() => *r.pick(odd),
            0 => r.range(0, 4) as f64 - 2.0,
            _ => r.float(-2.0, 2.0),
        };
        let live_d = pick_where(r, &o.d, true);
        let (mut a, mut b, mut c) = (0usize, live_d.unwrap_or(0), pick_where(r, &o.d, true).unwrap_or(0));
        let mut sh = shared && r.chance(1, 4);
        let self_too = r.chance(1, 4);
        let ok = match op {
            0 | 1 | 2 | 8 => match pick_where(r, &o.d, false) {
                Some(x) => {
                    a = x;
                    o.d[x] = true;
                    op < 2 || live_d.is_some()
                }
                None => false,
            },
            3 => match (pick_where(r, &o.d, false), live_d) {
                (Some(x), Some(_)) => {
                    a = x;
                    o.d[x] = true;
                    true
                }
                _ => false,
            },
            4 | 5 | 7 | 9 | 10 | 11 | 12 | 13 | 20 | 21 | 31 => match pick_where(r, &o.d, true) {
                Some(x) => {
                    a = if self_too { b } else { x };
                    true
                }
                None => false,
            },
            6 => match live_d {
                Some(x) => {
                    a = x;
                    o.d[x] = false;
                    true
                }
                None => false,
            },
            14 => match pick_where(r, &o.k, false) {
                Some(x) => {
                    a = x;
                    o.k[x] = true;
                    true
                }
                None => false,
            },
            15 => match (pick_where(r, &o.k, false), pick_where(r, &o.k, true)) {
                (Some(x), Some(y)) => {
                    a = x;
                    b = y;
                    o.k[x] = true;
                    true
                }
                _ => false,
            },
            16 => match (pick_where(r, &o.k, true), pick_where(r, &o.k, true)) {
                (Some(x), Some(y)) => {
                    a = x;
                    b = y;
                    true
                }
                _ => false,
            },
            17 => match pick_where(r, &o.k, true) {
                Some(x) => {
                    a = x;
                    o.k[x] = false;
                    true
                }
                None => false,
            },
            18 | 19 => match (pick_where(r, &o.d, true), pick_where(r, &o.k, true)) {
                (Some(x), Some(y)) => {
                    a = x;
                    b = y;
                    sh = false;
                    true
                }
                _ => false,
            },
            22 => {
                o.v += 1;
                live_d.is_some() && o.v < 9
            }
            23 => {
                o.v = 0;
                true
            }
            24 => {
                a = live_d.unwrap_or(0);
                b = r.below(o.v.max(1));
                live_d.is_some() && o.v > 0
            }
            25 | 30 => {
                a = r.below(o.v.max(1));
                let ok = live_d.is_some() && o.v > 0;
                if op == 30 && ok {
                    o.v -= 1;
                }
                ok
            }
            26 => {
                a = r.below(4);
                let ok = o.arr == 0;
                if ok {
                    o.arr = a + 1;
                }
                ok
            }
            27 => {
                let ok = o.arr > 0;
                o.arr = 0;
                ok
            }
            28 => {
                a = live_d.unwrap_or(0);
                b = r.below(o.arr.max(2) - 1);
                o.arr > 1 && live_d.is_some()
            }
            29 => {
                a = r.below(o.arr.max(2) - 1);
                o.arr > 1 && live_d.is_some()
            }
            40 => true,
            50 | 51 | 52 | 54 | 55 | 56 | 59 => {
                let src = pick_where(r, &o.r, true);
                let src2 = pick_where(r, &o.r, true);
                let ctx = pick_where(r, &o.c, true);
                match pick_where(r, &o.r, false) {
                    Some(x) if (op == 59 && ctx.is_some()) || (op != 59 && (op < 52 || src.is_some())) => {
                        a = x;
                        b = if op == 59 { ctx.unwrap() } else { src.unwrap_or(0) };
                        c = src2.unwrap_or(0);
                        o.r[x] = true;
                        true
                    }
                    _ => false,
                }
            }
            53 => match pick_where(r, &o.r, true) {
                Some(x) => {
                    a = x;
                    o.r[x] = false;
                    true
                }
                None => false,
            },
            57 => match pick_where(r, &o.c, false) {
                Some(x) => {
                    a = x;
                    o.c[x] = true;
                    true
                }
                None => false,
            },
            58 => match pick_where(r, &o.c, true) {
                Some(x) => {
                    a = x;
                    o.c[x] = false;
                    true
                }
                None => false,
            },
            _ => match (pick_where(r, &o.r, true), pick_where(r, &o.c, true)) {
                (Some(x), Some(y)) => {
                    a = x;
                    b = y;
                    true
                }
                _ => false,
            },
        };
        if !ok {
            continue;
        }
        let fail = if faults && op < 40 && r.chance(1, 5) { r.range(1, 5) as u8 } else { 0 };
        if matches!(op, 3 | 5 | 15..=19) {
            sh = false;
        }
        out.push(Step { op, a: a as u8, b: b as u8, c: c as u8, f, v, fail, shared: sh });
    }
    out
}
pub fn gen(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let shared: Vec<f64> = (0..r.below(4)).map(|_| r.float(-2.0, 2.0)).collect();
    let faults = r.chance(2, 3);
    let threads = (0..r.weighted(&[0, 3, 3, 2]))
        .map(|_| {
            let n = r.range(3, 30 + 40 * big);
            let n = rarely(r, 60, n, 90 + n);
            gen_steps(r, n, faults, !shared.is_empty())
        })
        .collect();
    js(&PlanCxx { shared, threads, own_cleanup: r.chance(1, 2), warm: r.chance(1, 4) })
}
pub fn gen_rounds(r: &mut Rng, _t: Tier) -> Value {
    let n = r.range(3, 25);
    let faults = r.chance(2, 3);
    js(&PlanCxxRounds { steps: gen_steps(r, n, faults, false) })
}

// ------------------------------------------------------------------------------------------------ model

#[derive(Clone, Copy)]
struct Val {
    x: ADouble,
    own: Option<usize>,
}
#[derive(Clone, Copy)]
enum Slot {
    Empty,
    /// valid, but nobody says which value (moved from, or the target of something that failed)
    Unknown,
    Known(Val),
}
#[derive(Clone, Copy, PartialEq)]
enum Ctx {
    Empty,
    Moved,
    Live(usize),
}
struct Model {
    cid: usize,
    ctx: Option<AContext>,
    /// an operation on it failed half way, or its order is unspecified: compare values only
    dirty: bool,
}
struct Env {
    p: *mut c_void,
    other: *mut c_void,
    shared: Vec<Val>,
    shared_alive: bool,
    d: [Slot; ND],
    k: [Ctx; NK],
    v: Vec<Slot>,
    arr: Option<Vec<Slot>>,
    r: [Option<Val>; NR],
    c: [Option<usize>; NC],
    ctxs: Vec<Model>,
}
unsafe impl Send for Env {}

impl Env {
    fn new(other: *mut c_void, shared: &[Val]) -> Env {
        let mut e = quiet(|| Env {
            p: std::ptr::null_mut(),
            other,
            shared: shared.to_vec(),
            shared_alive: true,
            d: [Slot::Empty; ND],
            k: [Ctx::Empty; NK],
            v: Vec::with_capacity(64),
            arr: None,
            r: [None; NR],
            c: [None; NC],
            ctxs: Vec::with_capacity(64),
        });
        e.p = unsafe { advsim_env_new() };
        e
    }
    fn alive(&self, i: usize) -> bool {
        if i == SHARED {
            self.shared_alive
        } else {
            self.ctxs[i].ctx.is_some()
        }
    }
    /// the context of what is computed from these; Err: contexts mixed
    fn join(&self, a: Val, b: Val) -> Result<Option<usize>, ()> {
        let o = match (a.own, b.own) {
            (Some(x), Some(y)) if x != y => return Err(()),
            (Some(x), _) | (_, Some(x)) => Some(x),
            _ => None,
        };
        Ok(o.filter(|i| self.alive(*i)))
    }
    fn keep(&self, a: Val) -> Option<usize> {
        a.own.filter(|i| self.alive(*i))
    }
    fn dirty(&mut self, v: &[Slot]) {
        for s in v {
            if let Slot::Known(Val { own: Some(i), .. }) = s {
                if *i != SHARED {
                    self.ctxs[*i].dirty = true;
                }
            }
        }
    }
    /// the real call; false: an allocation failed as injected
    fn call(&mut self, s: &Step, out: &mut f64) -> bool {
        lazy_static::thread::yield_now();
        let failed = CXX_FAILED.load(SeqCst);
        CXX_FAIL_AT.with(|c| c.set(s.fail as i64));
        let other = if s.shared { self.other } else { std::ptr::null_mut() };
        let rc = unsafe { advsim_step(self.p, other, s.op as i32, s.a as i32, s.b as i32, s.c as i32, s.f as i32, s.v, out) };
        let consumed = s.fail > 0 && CXX_FAIL_AT.with(|c| c.replace(0)) == 0;
        let _ = failed;
        match rc {
            0 => {
                if consumed {
                    rt::count("allocation_failure_absorbed");
                }
                true
            }
            1 => {
                require!(consumed, "exception", "step {:?}: std::bad_alloc without a failed allocation", s);
                rt::count("fault_bad_alloc");
                false
            }
            _ => viol!("exception", "step {:?}: an exception", s),
        }
    }
    fn context_made(&mut self) -> usize {
        let cid = LAST_CID.with(|l| l.get());
        let model = AContext::new();
        quiet(|| self.ctxs.push(Model { cid, ctx: Some(model), dirty: false }));
        self.ctxs.len() - 1
    }
    fn real(&self, i: usize) -> AContext {
        match AContext::from_cid(self.ctxs[i].cid) {
            Some(c) => c,
            None => viol!("freed-early", "a context is gone while its C or C++ owner exists"),
        }
    }
    fn compare(&self, i: usize) {
        if self.ctxs[i].dirty {
            return;
        }
        let (a, b) = (snap(&self.real(i).tape()), snap(&self.ctxs[i].ctx.as_ref().unwrap().tape()));
        rt::count("recordings_compared");
        require!(a == b, "recording-differs", "the recording made through the C/C++ interface differs from the one made in Rust: {}", quiet(|| diff(&a, &b)));
    }
    /// the owner of context i is about to go
    fn context_goes(&mut self, i: usize) {
        self.compare(i);
        let m = self.ctxs[i].ctx.take();
        drop(m);
    }
    fn context_gone(&self, i: usize) {
        require!(AContext::from_cid(self.ctxs[i].cid).is_none(), "leak", "a context outlives its C or C++ owner");
    }

    fn step(&mut self, s: &Step) {
        let (a, b, c) = (s.a as usize, s.b as usize, s.c as usize);
        let mut out = 0.0f64;
        let shared = s.shared && !self.shared.is_empty();
        let s = &Step { shared, b: if shared { (b % self.shared.len()) as u8 } else { s.b }, ..*s };
        let b = s.b as usize;
        // operand b
        let src = |e: &Env| -> Slot {
            if shared {
                Slot::Known(e.shared[b])
            } else {
                e.d.get(b).copied().unwrap_or(Slot::Empty)
            }
        };
        let dst = self.d.get(a).copied().unwrap_or(Slot::Empty);
        let second = self.d.get(c).copied().unwrap_or(Slot::Empty);
        let is = |s: Slot| !matches!(s, Slot::Empty);
        match s.op {
            0 | 1 => {
                if a >= ND || is(dst) {
                    return;
                }
                if self.call(s, &mut out) {
                    self.d[a] = Slot::Known(Val { x: ADouble::from(if s.op == 0 { 0.0 } else { s.v }), own: None });
                }
            }
            2 | 3 | 4 | 5 | 21 => {
                let from = src(self);
                let construct = s.op < 4;
                if a >= ND || !is(from) || is(dst) == construct || (shared && (s.op == 3 || s.op == 5)) {
                    return;
                }
                if self.call(s, &mut out) {
                    self.d[a] = from;
                    if s.op == 3 || (s.op == 5 && a != b) {
                        self.d[b] = Slot::Unknown;
                    }
                    if s.op == 4 && a == b && !shared {
                        rt::count("self_assignments");
                    }
                } else {
                    if !construct {
                        self.d[a] = Slot::Unknown;
                    }
                    if s.op == 3 || s.op == 5 {
                        self.d[b] = Slot::Unknown;
                    }
                }
            }
            6 => {
                if !is(dst) {
                    return;
                }
                self.call(s, &mut out);
                self.d[a] = Slot::Empty;
            }
            7 | 8 | 12 | 31 => {
                let (Slot::Known(x), Slot::Known(y)) = (src(self), second) else { return };
                let Ok(own) = self.join(x, y) else { return };
                if a >= ND || is(dst) != (s.op != 8) {
                    return;
                }
                let before = [src(self), second];
                if self.call(s, &mut out) {
                    let r = match s.op {
                        7 | 8 => apply(s.f & 3, x.x, y.x, 0.0),
                        12 if s.f & 1 == 1 => x.x.max(y.x),
                        12 => x.x.min(y.x),
                        _ => {
                            // C++ does not say in which order the operands are evaluated
                            self.dirty(&before);
                            (x.x + s.v) * y.x - x.x / (s.v + y.x.abs() * y.x) + x.x.max(y.x)
                        }
                    };
                    self.d[a] = Slot::Known(Val { x: r, own });
                } else {
                    self.dirty(&before);
                    if s.op != 8 {
                        self.d[a] = Slot::Unknown;
                    }
                }
            }
            9 | 10 | 11 => {
                let Slot::Known(x) = src(self) else { return };
                if a >= ND || !is(dst) {
                    return;
                }
                let own = self.keep(x);
                let before = [src(self)];
                if self.call(s, &mut out) {
                    let r = match s.op {
                        9 => apply(8 + (s.f & 3), x.x, x.x, s.v),
                        10 => apply(4 + (s.f & 3), x.x, x.x, s.v),
                        _ => apply([29, 30, 31, 32, 33, 34][s.f as usize % 6], x.x, x.x, 0.0),
                    };
                    self.d[a] = Slot::Known(Val { x: r, own });
                } else {
                    self.dirty(&before);
                    self.d[a] = Slot::Unknown;
                }
            }
            13 => {
                if !is(dst) {
                    return;
                }
                self.d[a] = if self.call(s, &mut out) { Slot::Known(Val { x: ADouble::from(s.v), own: None }) } else { Slot::Unknown };
            }
            14 => {
                if a >= NK || self.k[a] != Ctx::Empty {
                    return;
                }
                if self.call(s, &mut out) {
                    let i = self.context_made();
                    self.k[a] = Ctx::Live(i);
                }
            }
            15 | 16 => {
                if a >= NK || b >= NK || self.k[b] == Ctx::Empty || (self.k[a] == Ctx::Empty) != (s.op == 15) {
                    return;
                }
                let old = self.k[a];
                if let (Ctx::Live(i), true) = (old, a != b) {
                    self.compare(i);
                }
                if self.call(s, &mut out) {
                    if a != b {
                        self.k[a] = self.k[b];
                        self.k[b] = Ctx::Moved;
                        if let Ctx::Live(i) = old {
                            let m = self.ctxs[i].ctx.take();
                            drop(m);
                            self.context_gone(i);
                        }
                    }
                } else if s.op == 16 {
                    viol!("exception", "moving a context fails although it needs no memory");
                }
            }
            17 => {
                if a >= NK || self.k[a] == Ctx::Empty {
                    return;
                }
                if let Ctx::Live(i) = self.k[a] {
                    self.context_goes(i);
                }
                self.call(s, &mut out);
                if let Ctx::Live(i) = self.k[a] {
                    self.context_gone(i);
                }
                self.k[a] = Ctx::Empty;
            }
            18 => {
                let Some(Ctx::Live(i)) = self.k.get(b).copied() else { return };
                if !is(dst) || shared {
                    return;
                }
                if self.call(s, &mut out) {
                    let x = self.ctxs[i].ctx.as_mut().unwrap().new_indep(0.0f64);
                    self.d[a] = Slot::Known(Val { x, own: Some(i) });
                } else {
                    self.ctxs[i].dirty = true;
                    self.d[a] = Slot::Unknown;
                }
            }
            19 => {
                let Some(Ctx::Live(i)) = self.k.get(b).copied() else { return };
                let Slot::Known(x) = dst else { return };
                if shared || (x.own.is_some() && x.own != Some(i)) {
                    return;
                }
                if self.call(s, &mut out) {
                    self.ctxs[i].ctx.as_mut().unwrap().set_dep(&x.x);
                } else {
                    self.ctxs[i].dirty = true;
                }
            }
            20 => {
                let from = self.d.get(b).copied().unwrap_or(Slot::Empty);
                if !is(dst) || !is(from) {
                    return;
                }
                if self.call(s, &mut out) {
                    self.d[a] = from;
                    self.d[b] = dst;
                } else {
                    self.d[a] = Slot::Unknown;
                    self.d[b] = Slot::Unknown;
                }
            }
            22 => {
                let from = src(self);
                if !is(from) || self.v.len() >= 12 {
                    return;
                }
                if self.call(s, &mut out) {
                    quiet(|| self.v.push(from));
                }
            }
            23 => {
                self.call(s, &mut out);
                self.v.clear();
            }
            24 => {
                let Some(from) = self.v.get(b).copied() else { return };
                if !is(dst) || s.shared {
                    return;
                }
                self.d[a] = if self.call(s, &mut out) { from } else { Slot::Unknown };
            }
            25 => {
                let from = src(self);
                if a >= self.v.len() || !is(from) {
                    return;
                }
                self.v[a] = if self.call(s, &mut out) { from } else { Slot::Unknown };
            }
            26 => {
                if self.arr.is_some() || a > 8 {
                    return;
                }
                if self.call(s, &mut out) {
                    self.arr = quiet(|| Some(vec![Slot::Known(Val { x: ADouble::from(0.0), own: None }); a]));
                }
            }
            27 => {
                if self.arr.is_none() {
                    return;
                }
                self.call(s, &mut out);
                quiet(|| self.arr = None);
            }
            28 => {
                let Some(from) = self.arr.as_ref().and_then(|v| v.get(b)).copied() else { return };
                if !is(dst) || s.shared {
                    return;
                }
                self.d[a] = if self.call(s, &mut out) { from } else { Slot::Unknown };
            }
            29 => {
                let from = src(self);
                if !is(from) || self.arr.as_ref().map_or(true, |v| a >= v.len()) {
                    return;
                }
                let new = if self.call(s, &mut out) { from } else { Slot::Unknown };
                self.arr.as_mut().unwrap()[a] = new;
            }
            30 => {
                if a >= self.v.len() {
                    return;
                }
                if !self.call(s, &mut out) {
                    self.v[a..].iter_mut().for_each(|x| *x = Slot::Unknown);
                } else {
                    self.v.remove(a);
                }
            }
            40 => {
                out = s.b as f64 - 3.0;
                let w = out;
                if !self.call(s, &mut out) {
                    return;
                }
                let v = s.v;
                let (want, exact) = match s.f {
                    0 => (v.sin(), false),
                    1 => (v.cos(), false),
                    2 => (v.tan(), false),
                    3 => (v.abs(), true),
                    4 => (v.exp(), false),
                    5 => (v.ln(), false),
                    6 => (v.min(w), true),
                    _ => (v.max(w), true),
                };
                let good = (want.is_nan() && out.is_nan()) || if exact { out == want } else { out == want || (out - want).abs() <= 1e-13 * want.abs() };
                require!(good, "value-differs", "plain function {} of {} (and {}) is {}, expected {}", s.f, v, w, out, want);
            }
            // the C interface
            50 | 51 => {
                if a >= NR || self.r[a].is_some() {
                    return;
                }
                self.call(s, &mut out);
                self.r[a] = Some(Val { x: ADouble::from(if s.op == 50 { 0.0 } else { s.v }), own: None });
            }
            52 => {
                let Some(Some(x)) = self.r.get(b).copied() else { return };
                if a >= NR || self.r[a].is_some() {
                    return;
                }
                self.call(s, &mut out);
                self.r[a] = Some(x);
            }
            53 => {
                if a >= NR || self.r[a].is_none() {
                    return;
                }
                self.call(s, &mut out);
                self.r[a] = None;
            }
            54 | 56 => {
                let (Some(Some(x)), Some(Some(y))) = (self.r.get(b).copied(), self.r.get(c).copied()) else { return };
                let Ok(own) = self.join(x, y) else { return };
                if a >= NR || self.r[a].is_some() {
                    return;
                }
                self.call(s, &mut out);
                let r = match s.op {
                    54 => apply(s.f & 3, x.x, y.x, 0.0),
                    _ if s.f & 1 == 1 => x.x.max(y.x),
                    _ => x.x.min(y.x),
                };
                self.r[a] = Some(Val { x: r, own });
            }
            55 => {
                let Some(Some(x)) = self.r.get(b).copied() else { return };
                if a >= NR || self.r[a].is_some() {
                    return;
                }
                let own = self.keep(x);
                self.call(s, &mut out);
                self.r[a] = Some(Val { x: apply([29, 30, 31, 32, 33, 34][s.f as usize % 6], x.x, x.x, 0.0), own });
            }
            57 => {
                if a >= NC || self.c[a].is_some() {
                    return;
                }
                self.call(s, &mut out);
                self.c[a] = Some(self.context_made());
            }
            58 => {
                let Some(Some(i)) = self.c.get(a).copied() else { return };
                self.context_goes(i);
                self.call(s, &mut out);
                self.context_gone(i);
                self.c[a] = None;
            }
            59 => {
                let Some(Some(i)) = self.c.get(b).copied() else { return };
                if a >= NR || self.r[a].is_some() {
                    return;
                }
                self.call(s, &mut out);
                let x = self.ctxs[i].ctx.as_mut().unwrap().new_indep(0.0f64);
                self.r[a] = Some(Val { x, own: Some(i) });
            }
            60 => {
                let Some(Some(i)) = self.c.get(b).copied() else { return };
                let Some(Some(x)) = self.r.get(a).copied() else { return };
                if x.own.is_some() && x.own != Some(i) {
                    return;
                }
                self.call(s, &mut out);
                self.ctxs[i].ctx.as_mut().unwrap().set_dep(&x.x);
            }
            _ => {}
        }
        rt::count("interface_steps");
    }
    fn plain(&mut self, op: u8, a: usize, b: usize) {
        self.step(&Step { op, a: a as u8, b: b as u8, c: 0, f: 0, v: 0.0, fail: 0, shared: false })
    }

    /// Looks at the value of D[a] through the public interface: marks it as a result and reads the recording.
    fn probe(&mut self, a: usize, shared_ctx: Option<(usize, &mut Env)>) {
        let Slot::Known(mut x) = self.d[a] else { return };
        if let Some(i) = x.own {
            if !self.alive(i) {
                // its context is gone: go through a fresh constant
                self.step(&Step { op: 10, a: a as u8, b: a as u8, c: 0, f: 0, v: 0.0, fail: 0, shared: false });
                match self.d[a] {
                    Slot::Known(y) => x = y,
                    _ => return,
                }
            }
        }
        let cid;
        match x.own {
            Some(SHARED) => {
                let Some((scid, s)) = shared_ctx else { return };
                let mut out = 0.0;
                let rc = unsafe { advsim_step(self.p, s.p, 19, a as i32, 0, 0, 0, 0.0, &mut out) };
                require!(rc == 0, "exception", "marking a result fails");
                cid = scid;
            }
            Some(i) => {
                let Some(k) = self.k.iter().position(|k| *k == Ctx::Live(i)) else { return };
                self.plain(19, a, k);
                cid = self.ctxs[i].cid;
            }
            None => {
                let k = match self.k.iter().position(|k| matches!(k, Ctx::Live(_))) {
                    Some(k) => k,
                    None => {
                        let k = self.k.iter().position(|k| *k == Ctx::Empty).unwrap_or(0);
                        if self.k[k] == Ctx::Moved {
                            self.plain(17, k, 0);
                        }
                        self.plain(14, k, 0);
                        k
                    }
                };
                self.plain(19, a, k);
                let Ctx::Live(i) = self.k[k] else { return };
                cid = self.ctxs[i].cid;
            }
        }
        let Some(c) = AContext::from_cid(cid) else { viol!("freed-early", "a context is gone while its owner exists") };
        let (deps, vals) = (c.deps(), c.values());
        let got = vals[*deps.last().unwrap()];
        rt::count("values_compared");
        require!(same(got, x.x.value()), "value-differs", "a C++ number holds {:?}, expected {:?}", got, x.x.value());
    }
    fn probe_all(&mut self, shared: Option<(usize, *mut Env)>) {
        let sh = |s: Option<(usize, *mut Env)>| s.map(|(c, p)| (c, unsafe { &mut *p }));
        for a in 0..ND {
            self.probe(a, sh(shared));
        }
        let nv = self.v.len();
        let na = self.arr.as_ref().map_or(0, |v| v.len());
        if nv + na > 0 {
            if matches!(self.d[0], Slot::Empty) {
                self.plain(0, 0, 0);
            }
            for i in 0..nv {
                self.plain(24, 0, i);
                self.probe(0, sh(shared));
            }
            for i in 0..na {
                self.plain(28, 0, i);
                self.probe(0, sh(shared));
            }
        }
        for a in 0..NR {
            let Some(x) = self.r[a] else { continue };
            let (k, x) = match x.own.filter(|i| self.alive(*i)) {
                Some(i) => match self.c.iter().position(|c| *c == Some(i)) {
                    Some(k) => (k, x),
                    None => continue,
                },
                None if x.own.is_some() => continue,
                None => match self.c.iter().position(|c| c.is_some()) {
                    Some(k) => (k, x),
                    None => {
                        self.plain(57, 0, 0);
                        (0, x)
                    }
                },
            };
            self.plain(60, a, k);
            let i = self.c[k].unwrap();
            let c = self.real(i);
            let got = c.values()[*c.deps().last().unwrap()];
            rt::count("values_compared");
            require!(same(got, x.x.value()), "value-differs", "a number of the C interface holds {:?}, expected {:?}", got, x.x.value());
        }
    }
    fn destroy_all(&mut self) {
        // some before their contexts, some after
        for a in 0..ND / 2 {
            self.plain(6, a, 0);
        }
        for a in 0..NR {
            self.plain(53, a, 0);
        }
        for a in 0..NK {
            self.plain(17, a, 0);
        }
        for a in 0..NC {
            self.plain(58, a, 0);
        }
        for a in ND / 2..ND {
            self.plain(6, a, 0);
        }
        self.plain(27, 0, 0);
        self.plain(23, 0, 0);
        unsafe { advsim_env_free(self.p) };
        self.p = std::ptr::null_mut();
    }
}
/// What is alive although everything was destroyed: C++ objects, numbers, contexts.
fn leftover() -> [i64; 3] {
    quiet(|| {
        let mut n = [CXX_LIVE.load(SeqCst) as i64, 0, 0];
        let mut t = TRACKED.lock().unwrap();
        t.retain(|(p, id, _)| block_id(*p as *const u8) == Some(*id));
        for (_, _, context) in t.iter() {
            n[1 + *context as usize] += 1;
        }
        n
    })
}
fn no_more(before: [i64; 3], after: [i64; 3]) {
    const WHAT: [&str; 3] = ["C++ objects are never deleted", "numbers are never freed", "contexts are never freed"];
    for i in 0..3 {
        require!(after[i] <= before[i], "leak", "{} {}", after[i] - before[i], WHAT[i]);
    }
}

pub fn exec(v: &Value) {
    let p: PlanCxx = plan(v);
    quiet(|| TRACKED.lock().unwrap().reserve(1 << 14));
    let mut before = [0; 3];
    if p.warm {
        // what the implementation keeps for good (a static object, say) is there from now on
        rt::set_serial(true);
        once(&p);
        rt::set_serial(false);
        before = leftover();
    }
    once(&p);
    let mut after = leftover();
    if !p.warm && after != [0; 3] {
        rt::set_serial(true);
        before = after;
        for _ in 0..3 {
            once(&p);
        }
        rt::set_serial(false);
        after = leftover();
        rt::count("objects_kept");
    }
    no_more(before, after);
}
fn once(p: &PlanCxx) {
    // the shared objects: made through the C++ interface
    let mut s = Env::new(std::ptr::null_mut(), &[]);
    s.plain(14, 0, 0);
    let Ctx::Live(si) = s.k[0] else { viol!("exception", "no context") };
    let scid = s.ctxs[si].cid;
    let mut shared = vec![];
    for (i, x) in p.shared.iter().take(ND).enumerate() {
        s.plain(0, i, 0);
        if i == 0 || i == 2 {
            s.plain(18, i, 0);
            if i == 2 {
                s.step(&Step { op: 10, a: 2, b: 0, c: 0, f: 2, v: *x, fail: 0, shared: false });
            }
        } else {
            s.step(&Step { op: 13, a: i as u8, b: 0, c: 0, f: 0, v: *x, fail: 0, shared: false });
        }
        if let Slot::Known(x) = s.d[i] {
            quiet(|| shared.push(Val { x: x.x, own: x.own.map(|_| SHARED) }));
        }
    }
    let envs: Vec<RealMutex<Env>> = p.threads.iter().map(|_| Env::new(s.p, &shared)).map(|e| quiet(|| RealMutex::new(e))).collect();
    let mut tasks: Vec<Task> = vec![];
    for (steps, e) in p.threads.iter().zip(&envs) {
        let own = p.own_cleanup;
        tasks.push(Box::new(move || {
            let mut e = e.try_lock().unwrap();
            for s in steps {
                e.step(s);
            }
            if own {
                calm("looking at the objects", || e.probe_all(None));
                e.destroy_all();
            }
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    // the shared recording, in any order
    if !p.threads.iter().flatten().any(|s| s.fail > 0 || s.op == 31) {
        let key = |c: &AContext| {
            let t = snap(&c.tape());
            quiet(|| {
                let mut v: Vec<(u64, u64, u64, u64)> = t
                    .ops
                    .iter()
                    .map(|o| {
                        let val = |i: Option<usize>| i.map_or(0, |i| super::record::nan(f64::from_bits(t.vals[i])));
                        (o.opcode as u64, val(Some(o.vid)), val(o.arg1), val(o.arg2))
                    })
                    .collect();
                v.sort();
                v
            })
        };
        let (a, b) = (key(&s.real(si)), key(s.ctxs[si].ctx.as_ref().unwrap()));
        require!(a == b, "recording-differs", "the shared recording holds other operations ({} of them) than the one made in Rust ({})", a.len(), b.len());
    }
    s.ctxs[si].dirty = true;
    let sp: *mut Env = &mut s;
    for e in &envs {
        let mut e = e.lock().unwrap();
        if !p.own_cleanup {
            e.probe_all(Some((scid, sp)));
            e.destroy_all();
        }
    }
    s.destroy_all();
    rt::set_serial(false);
}

/// The same steps over and over: memory must not grow.
pub fn exec_rounds(v: &Value) {
    let p: PlanCxxRounds = plan(v);
    quiet(|| TRACKED.lock().unwrap().reserve(1 << 14));
    let mut sizes: Vec<i64> = quiet(|| Vec::with_capacity(64));
    let (warm, count) = (4, 12);
    let mut kept = [0; 3];
    for i in 0..warm + count {
        let mut e = Env::new(std::ptr::null_mut(), &[]);
        for s in &p.steps {
            e.step(s);
        }
        e.destroy_all();
        let now = leftover();
        if i >= warm {
            no_more(kept, now);
        }
        kept = now;
        quiet(|| drop(e));
        if i >= warm {
            sizes.push(crate::alloc::live().0);
        }
    }
    let grown = sizes[count - 1] - sizes[0];
    require!(grown < count as i64 - 1, "leak", "{} rounds of C and C++ calls left {} heap blocks behind", count - 1, grown);
}
