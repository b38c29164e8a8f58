//! Calls of the library's drivers as data; C06 (panics in user code) and C07 (no call hangs).
use super::record::{nan, snap};
use super::*;
use crate::alloc;
use crate::sim::{calm, catch, last_panic};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Arc as RealArc;
use std::sync::Mutex as RealMutex;

/// k: 0 taping, 1 forward Jacobian, 2 reverse Jacobian, 3 abs-normal form, 4 generalized Jacobian,
/// 5 generalized Jacobian of a chain, 6 checkpointed reversal, 7 plain evaluation, 8 products with the abs-normal matrices
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Call {
    pub k: u8,
    /// one function, or the links of a chain
    pub progs: Vec<Prog>,
    pub x: Vec<f64>,
    pub d: Vec<f64>,
    pub bits: Vec<u8>,
    pub budget: u32,
    /// 0: the global pool; otherwise a pool of its own with this many threads
    pub pool: u32,
    /// call made from inside the function, before this operation of it
    pub nested: Option<(u32, Box<Call>)>,
    /// the function is the chain of all programs (always for 5)
    #[serde(default)]
    pub chain: bool,
}
pub const KIND: [&str; 9] = [
    "Function::tape",
    "jacobian_forward",
    "jacobian_reverse",
    "abs_normal",
    "generalized_jacobian",
    "generalized_jacobian_chain",
    "reverse_sequence",
    "eval_float",
    "abs-normal products",
];

pub struct CallCfg {
    pub ops: usize,
    pub n: usize,
    pub pools: bool,
    pub depth: u32,
    pub kinds: [u32; 9],
}
pub fn gen_call(r: &mut Rng, c: &CallCfg) -> Call {
    let k = r.weighted(&c.kinds) as u8;
    let class = match k {
        3 | 4 | 5 | 8 => Class::Piecewise,
        2 => Class::Smooth,
        _ => *r.pick(&[Class::Smooth, Class::Piecewise]),
    };
    let chain = k == 5 || k != 6 && r.chance(1, 5);
    let links = if chain { r.range(1, 3) } else { 1 };
    let n = r.range(1, c.n);
    let x = gen_x(r, n, class);
    let mut at = x.clone();
    let mut progs = vec![];
    for _ in 0..links {
        let g = GenCfg { n: at.len(), m: r.range(1, c.n), ops: r.range(1, c.ops), class, odd_outs: true };
        let p = gen_prog(r, &g, &[at.clone()]);
        at = super::anf::values(&p, &at);
        progs.push(p);
    }
    let d = (0..n).map(|_| r.float(-1.0, 1.0)).collect();
    let nested = if c.depth > 0 && k != 6 && r.chance(1, 2) {
        let mut inner = CallCfg { kinds: c.kinds, ..*c };
        inner.depth -= 1;
        inner.n = c.n.min(2);
        inner.ops = c.ops.min(3);
        inner.pools = c.pools && r.chance(1, 3);
        Some((r.below(c.ops) as u32, Box::new(gen_call(r, &inner))))
    } else {
        None
    };
    Call {
        k,
        progs,
        x,
        d,
        bits: (0..r.below(3)).map(|_| r.below(256) as u8).collect(),
        budget: r.range(2, 5) as u32,
        pool: if c.pools && r.chance(1, 3) { r.range(1, 5) as u32 } else { 0 },
        nested,
        chain,
    }
}

/// A driver call whose parallel parts have many pieces
pub fn gen_wide(r: &mut Rng) -> Call {
    let k = *r.pick(&[3, 3, 3, 4, 4, 8, 5, 1, 0]);
    let n = if k < 2 { r.range(6, 30) } else { r.range(1, 10) };
    let m = r.range(1, 8);
    let mut p = gen_prog(r, &GenCfg { n, m, ops: 1, class: Class::Piecewise, odd_outs: true }, &[]);
    let s = r.range(4, 24);
    p.ops.clear();
    for i in 0..s {
        // sums and differences of what there is, every one with a switch
        let a = r.below(n + 2 * i) as u32;
        let b = r.below(n + 2 * i) as u32;
        p.ops.push(Op { k: r.chance(1, 2) as u8, a, b, c: 0.0 });
        p.ops.push(Op { k: ABS, a: (n + 2 * i) as u32, b: 0, c: 0.0 });
    }
    let all = n + p.ops.len();
    p.outs.iter_mut().filter(|o| o.c.is_none()).for_each(|o| o.a = r.below(all) as u32);
    Call { k, progs: vec![p], x: gen_x(r, n, Class::Piecewise), d: (0..n).map(|_| r.float(-1.0, 1.0)).collect(), bits: vec![], budget: 3, pool: r.range(2, 6) as u32, nested: None, chain: false }
}

pub type Hook = RealArc<dyn Fn(Where) + Send + Sync>;
pub fn no_hook() -> Hook {
    quiet(|| RealArc::new(|_| ()) as Hook)
}

pub fn put_m(out: &mut Vec<u64>, m: &DMatrix<f64>) {
    quiet(|| {
        out.push(m.nrows() as u64);
        out.push(m.ncols() as u64);
        out.extend(m.iter().map(|v| nan(*v)));
    })
}
pub fn put_v(out: &mut Vec<u64>, m: &DVector<f64>) {
    quiet(|| {
        out.push(m.nrows() as u64);
        out.extend(m.iter().map(|v| nan(*v)));
    })
}
pub fn put_gj(out: &mut Vec<u64>, g: &drivers::GeneralizedJacobian) {
    put_m(out, &g.homogenous);
    put_v(out, &g.inhomogenous);
    quiet(|| out.push(g.multiplicity as u64));
}
pub fn put_anf(out: &mut Vec<u64>, f: &drivers::AbsNormalForm) {
    put_v(out, &f.a);
    put_v(out, &f.b);
    for m in [&f.zmat, &f.lmat, &f.jmat, &f.ymat] {
        put_m(out, m);
    }
}
pub fn put_snap(out: &mut Vec<u64>, t: &dyn Tape) {
    let s = snap(t);
    quiet(|| {
        out.push(s.indeps.len() as u64);
        out.extend(s.indeps.iter().map(|v| *v as u64));
        out.push(s.deps.len() as u64);
        out.extend(s.deps.iter().map(|v| *v as u64));
        for o in &s.ops {
            out.push(o.opcode as u64);
            out.push(o.vid as u64);
            out.push(o.arg1.map_or(u64::MAX, |v| v as u64));
            out.push(o.arg2.map_or(u64::MAX, |v| v as u64));
        }
        out.extend(s.vals.iter().map(|v| nan(f64::from_bits(*v))));
        drop(s);
    })
}

/// What a call works on: made once, usable for many calls
pub struct Built {
    f: Option<Func>,
    hook: Hook,
    /// a tape made ahead
    tape: Option<Box<dyn Tape>>,
    abs: Option<drivers::AbsNormalTape>,
}
enum Func {
    One(ProgFn),
    Chain(FunctionChain),
}
impl Drop for Built {
    fn drop(&mut self) {
        let _q = rt::Quiet::new();
        self.f = None;
        self.tape = None;
        self.abs = None;
    }
}
/// for many calls: where user code runs in a tape of the function, the tape is made ahead
pub fn build_shared(c: &Call, hook: &Hook) -> Built {
    let mut b = build(c, hook);
    if matches!(c.k, 2 | 8) && !c.chain && c.progs[0].hand & 8 > 0 {
        rt::count("tapes_of_the_users_own_shared");
        let (f, x) = (b.func(), c.x());
        match c.k {
            2 => b.tape = Some(f.tape(&x)),
            _ => b.abs = Some(drivers::AbsNormalTape::new(f.tape(&x))),
        }
    }
    b
}
impl Built {
    fn func(&self) -> &dyn Function {
        match self.f.as_ref().unwrap() {
            Func::One(f) => f,
            Func::Chain(f) => f,
        }
    }
}
impl Call {
    fn x(&self) -> DVector<f64> {
        let n = self.progs[0].n();
        DVector::from_iterator(n, (0..n).map(|i| self.x.get(i).cloned().unwrap_or(1.0)))
    }
}
pub fn build(c: &Call, hook: &Hook) -> Built {
    // the functions of the call: after the hook, the nested call
    let mk = |p: &Prog| -> ProgFn {
        quiet(|| {
            let hook = hook.clone();
            let nested = c.nested.clone();
            ProgFn {
                p: p.clone(),
                hook: Some(RealArc::new(move |w: Where| {
                    if let (Where::Op(i) | Where::Tape(i), Some((at, inner))) = (&w, &nested) {
                        if *i == *at as usize {
                            let r = run_call(inner, &hook);
                            rt::count("nested_calls");
                            quiet(|| drop(r));
                        }
                    }
                    hook(w);
                })),
            }
        })
    };
    let p0 = match c.progs.first() {
        Some(p) => p,
        None => crate::sim::skip("no-function"),
    };
    let f = if c.k == 5 || c.chain {
        rt::count("chains");
        let mut chain = FunctionChain::new(mk(p0));
        for w in c.progs.windows(2) {
            if w[1].n() != w[0].m() {
                crate::sim::skip("chain-dims");
            }
            chain.append(mk(&w[1]));
        }
        Func::Chain(chain)
    } else {
        Func::One(mk(p0))
    };
    Built { f: Some(f), hook: quiet(|| hook.clone()), tape: None, abs: None }
}
/// The result of the call as bits. Panics if the call does.
pub fn run_call(c: &Call, hook: &Hook) -> Vec<u64> {
    // the object goes before a pool of the call's own does
    let run = || run_inner(c, &build(c, hook));
    if c.pool == 0 {
        return run();
    }
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build().unwrap();
    pool.install(run)
}
/// The call on an object that is used for other calls as well
pub fn run_on(c: &Call, b: &Built) -> Vec<u64> {
    if c.pool == 0 {
        return run_inner(c, b);
    }
    let pool = rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build().unwrap();
    pool.install(|| run_inner(c, b))
}
fn run_inner(c: &Call, b: &Built) -> Vec<u64> {
    let mut out: Vec<u64> = quiet(|| Vec::with_capacity(4096));
    let f = b.func();
    let n = c.progs[0].n();
    let x = c.x();
    let d = DVector::from_iterator(n, (0..n).map(|i| c.d.get(i).cloned().unwrap_or(0.5)));
    match c.k {
        0 => {
            let t = f.tape(&x);
            put_snap(&mut out, &*t);
        }
        1 => put_m(&mut out, &drivers::jacobian_forward(f, &x)),
        2 => {
            let made = match b.tape {
                Some(_) => None,
                None => Some(f.tape(&x)),
            };
            let t: &dyn Tape = made.as_ref().or(b.tape.as_ref()).map(|t| &**t).unwrap();
            if t.num_abs() > 0 {
                crate::sim::skip("reverse-over-abs");
            }
            put_m(&mut out, &drivers::jacobian_reverse(t));
        }
        3 => put_anf(&mut out, &drivers::abs_normal(f, &x)),
        4 => put_gj(&mut out, &drivers::generalized_jacobian(f, &x, &d, &c.bits, None)),
        5 => {
            let chain = f.chain().unwrap();
            put_gj(&mut out, &drivers::generalized_jacobian_chain(chain, x, d, if c.budget > 4 { None } else { Some(c.budget as usize) }));
        }
        6 => {
            // the checkpointed states are recorded points
            let steps = c.progs[0].ops.len() + 2;
            let hook = &b.hook;
            let r = drivers::reverse_sequence(
                x.clone(),
                steps,
                c.budget as usize,
                |mut v| {
                    hook(Where::Enter);
                    for e in v.iter_mut() {
                        *e = *e * 0.5 + 1.0;
                    }
                    v
                },
                |v, acc: DVector<f64>| {
                    hook(Where::Enter);
                    acc * 0.75 + v
                },
                |v| {
                    hook(Where::Enter);
                    v * 2.0
                },
            );
            put_v(&mut out, &r);
        }
        7 => put_v(&mut out, &f.eval_float(x)),
        _ => {
            let made = match b.abs {
                Some(_) => None,
                None => Some(drivers::AbsNormalTape::new(f.tape(&x))),
            };
            let t = made.as_ref().or(b.abs.as_ref()).unwrap();
            let (z, l, j, y) = (
                drivers::AbsNormalZ::new(t),
                drivers::AbsNormalL::new(t),
                drivers::AbsNormalJ::new(t),
                drivers::AbsNormalY::new(t),
            );
            let s = t.s();
            let fill = |r: usize, c: usize| DMatrix::from_fn(r, c, |i, j| ((i * 7 + j * 3) % 5) as f64 - 2.0);
            put_m(&mut out, &z.mul_right(&fill(n, 3)));
            put_m(&mut out, &l.mul_left(&fill(2, s)));
            put_m(&mut out, &j.mul_left(&fill(3, t.m())));
            put_m(&mut out, &y.mul_right(&fill(s, 2)));
        }
    }
    out
}
// ------------------------------------------------------------------------------------------------ C06

pub struct Injected(u64);

/// A hook that panics at its k-th invocation, and whether it did.
pub struct Bomb {
    pub hook: Hook,
    pub fired: RealArc<AtomicBool>,
    pub count: RealArc<AtomicU64>,
}
pub fn bomb(k: u64, id: u64, style: u8) -> Bomb {
    quiet(|| {
        let fired = RealArc::new(AtomicBool::new(false));
        let count = RealArc::new(AtomicU64::new(0));
        let (f, c) = (fired.clone(), count.clone());
        let hook: Hook = RealArc::new(move |_| {
            if c.fetch_add(1, SeqCst) == k {
                f.store(true, SeqCst);
                rt::count("fault_user_panic");
                match style {
                    0 => std::panic::panic_any(Injected(id)),
                    1 => std::panic::resume_unwind(Box::new(Injected(id))),
                    _ => panic!("injected {}", id),
                }
            }
        });
        Bomb { hook, fired, count }
    })
}
fn payload_is(e: &Box<dyn std::any::Any + Send>, id: u64) -> bool {
    if let Some(i) = e.downcast_ref::<Injected>() {
        return i.0 == id;
    }
    quiet(|| match e.downcast_ref::<String>() {
        Some(s) => *s == format!("injected {}", id),
        None => false,
    })
}
/// User code of an object that is used again and again: what it does can be changed.
#[derive(Clone)]
struct Switch(RealArc<RealMutex<Hook>>);
impl Switch {
    fn new() -> Switch {
        quiet(|| Switch(RealArc::new(RealMutex::new(no_hook()))))
    }
    fn set(&self, h: &Hook) {
        quiet(|| *self.0.lock().unwrap() = h.clone())
    }
    fn hook(&self) -> Hook {
        quiet(|| {
            let s = self.0.clone();
            RealArc::new(move |w| {
                let h = quiet(|| s.lock().unwrap().clone());
                h(w);
                quiet(|| drop(h));
            }) as Hook
        })
    }
}
/// Runs the call with a panic injected, on an object of its own or on the given one. Checks that it reached the caller.
fn blow(c: &Call, on: Option<(&Built, &Switch)>, k: u64, id: u64, style: u8) -> Option<Vec<u64>> {
    let b = bomb(k, id, style);
    let what = KIND[(c.k as usize).min(8)];
    let r = catch(|| match on {
        None => run_call(c, &b.hook),
        Some((o, s)) => {
            s.set(&b.hook);
            run_on(c, o)
        }
    });
    if let Some((_, s)) = on {
        s.set(&no_hook());
    }
    let fired = b.fired.load(SeqCst);
    let out = match r {
        Ok(v) => {
            require!(!fired, "swallowed", "the function given to {} panicked, the call returned a result", what);
            Some(v)
        }
        Err(e) => {
            if !fired {
                viol!("unexpected-panic", "{} panicked without reason: {}", what, last_panic());
            }
            require!(payload_is(&e, id), "wrong-panic", "{}: the caller gets another panic than the function's: {}", what, last_panic());
            drop(e);
            None
        }
    };
    quiet(|| drop(b));
    out
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Victim {
    call: Call,
    at: Vec<u32>,
    style: u8,
    /// every call on the same function object
    #[serde(default)]
    same: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanPanic {
    victims: Vec<Victim>,
    others: Vec<Vec<Call>>,
    record: Option<(Vec<f64>, Prog)>,
    /// compare with calls made in a process in which nothing has failed
    #[serde(default)]
    fresh: bool,
}
const ALL: [u32; 9] = [3, 4, 2, 4, 4, 5, 3, 1, 2];
/// calls in which user code runs
pub(super) const USER: [u32; 9] = [4, 5, 2, 3, 3, 6, 4, 1, 1];

fn victim(r: &mut Rng, c: &CallCfg) -> Victim {
    let call = gen_call(r, c);
    let ops: usize = call.progs.iter().map(|p| p.ops.len() + 1).sum();
    let reps = match call.k {
        1 => call.x.len(),
        5 => 3,
        6 => 5,
        _ => 1,
    };
    // a tape of the user's own is asked for its operations again and again
    let own = call.progs.iter().filter(|p| p.hand & 8 > 0).count() * if matches!(call.k, 2 | 3 | 4 | 5 | 8) { 16 } else { 0 };
    let total = (ops * reps + own).max(1);
    let at = (0..r.range(1, 2)).map(|_| r.below(total) as u32).collect();
    Victim { call, at, style: r.below(3) as u8, same: r.chance(1, 2) }
}
pub fn gen_panic(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let huge = r.chance(1, 60);
    let (ops, n) = if huge { (40, 24) } else { (4 + 3 * big, 3 + big) };
    let c = CallCfg { ops, n, pools: true, depth: r.chance(1, 6) as u32, kinds: USER };
    let victims = (0..r.weighted(&[0, 4, 1]).max(1)).map(|_| victim(r, &c)).collect();
    let (ops, n) = if huge { (20, 12) } else { (3, 2) };
    let o = CallCfg { ops, n, pools: true, depth: 0, kinds: ALL };
    let others = (0..r.below(3)).map(|_| (0..r.range(1, 2)).map(|_| gen_call(r, &o)).collect()).collect();
    let record = if r.chance(1, 2) {
        let n = r.range(1, 2);
        let x = gen_x(r, n, Class::Smooth);
        let g = GenCfg { n, m: 1, ops: r.range(1, 5), class: Class::Smooth, odd_outs: false };
        Some((x.clone(), gen_prog(r, &g, &[x])))
    } else {
        None
    };
    js(&PlanPanic { victims, others, record, fresh: r.chance(1, 3) })
}
pub fn exec_panic(v: &Value) {
    let p: PlanPanic = plan(v);
    let apart = |c: &Call| if p.fresh { Some(crate::sim::fresh(|| run_call(c, &no_hook()))) } else { None };
    let apart_v: Vec<Option<Vec<u64>>> = p.victims.iter().map(|v| apart(&v.call)).collect();
    let apart_o: Vec<Vec<Option<Vec<u64>>>> = p.others.iter().map(|o| o.iter().map(apart).collect()).collect();
    let first = AContext::new().cid();
    let bystander = AContext::new();
    let by = bystander.cid();
    // a long-lived context somebody records into while the others fail
    let mut ctx = AContext::new();
    let own = ctx.cid();
    let xs: Vec<ADouble> = match &p.record {
        Some((x, q)) => (0..q.n()).map(|i| ctx.new_indep(x.get(i).cloned().unwrap_or(1.0))).collect(),
        None => vec![],
    };
    let got: Vec<RealMutex<Vec<Vec<u64>>>> = quiet(|| p.others.iter().map(|_| RealMutex::new(vec![])).collect());
    let nodes: RealMutex<Vec<ADouble>> = RealMutex::new(vec![]);
    let after: Vec<RealMutex<Vec<Vec<u64>>>> = quiet(|| p.victims.iter().map(|_| RealMutex::new(vec![])).collect());
    let mut tasks: Vec<Task> = vec![];
    for (i, (v, a)) in p.victims.iter().zip(&after).enumerate() {
        tasks.push(Box::new(move || {
            let s = Switch::new();
            let o = if v.same { Some(build_shared(&v.call, &s.hook())) } else { None };
            for (k, at) in v.at.iter().enumerate() {
                if let Some(out) = blow(&v.call, o.as_ref().map(|o| (o, &s)), *at as u64, (i * 100 + k) as u64, v.style) {
                    quiet(|| a.lock().unwrap().push(out));
                }
            }
            // the same call again, without a panic
            let out = calm("a call after a failed one", || match &o {
                None => run_call(&v.call, &no_hook()),
                Some(o) => run_on(&v.call, o),
            });
            quiet(|| a.lock().unwrap().push(out));
        }));
    }
    for (o, g) in p.others.iter().zip(&got) {
        tasks.push(Box::new(move || {
            for c in o {
                let out = calm("a call next to a failing one", || run_call(c, &no_hook()));
                quiet(|| g.lock().unwrap().push(out));
            }
        }));
    }
    if let Some((_, q)) = &p.record {
        let (xs, nodes) = (&xs, &nodes);
        tasks.push(Box::new(move || {
            let v = calm("recording next to a failing call", || q.nodes(xs, &|_| ()));
            quiet(|| *nodes.lock().unwrap() = v.clone());
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    // everything the calls created is gone, everything else is there
    let last = calm("creating a context", || AContext::new().cid());
    for c in first..=last {
        let there = calm("looking up a context", || AContext::from_cid(c).is_some());
        let want = c == by || c == own;
        require!(there == want, if want { "died-early" } else { "kept-alive" }, "context {} is {} after the failed calls", c, if there { "still alive" } else { "gone" });
    }
    for (i, (v, a)) in p.victims.iter().zip(&after).enumerate() {
        let want = calm("a call after failed ones", || run_call(&v.call, &no_hook()));
        if let Some(apart) = &apart_v[i] {
            rt::count("results_compared_with_a_fresh_process");
            require!(want == *apart, "result-differs", "victim {} ({}): the result after the failed calls differs from the one in a process of its own", i, KIND[(v.call.k as usize).min(8)]);
        }
        for (k, got) in a.lock().unwrap().iter().enumerate() {
            require!(*got == want, "result-differs", "victim {} ({}): result {} differs from the one computed alone", i, KIND[(v.call.k as usize).min(8)], k);
        }
    }
    for (i, (o, g)) in p.others.iter().zip(&got).enumerate() {
        for (k, (c, out)) in o.iter().zip(g.lock().unwrap().iter()).enumerate() {
            let want = calm("a call after failed ones", || run_call(c, &no_hook()));
            require!(apart_o[i][k].as_ref().map_or(true, |a| *a == want), "result-differs", "bystander {} call {} ({}): the result after the failed calls differs from the one in a process of its own", i, k, KIND[(c.k as usize).min(8)]);
            require!(*out == want, "result-differs", "bystander {} call {} ({}): the result differs from the one computed alone", i, k, KIND[(c.k as usize).min(8)]);
        }
    }
    if let Some((x, q)) = &p.record {
        let v = nodes.lock().unwrap().clone();
        calm("marking results after failed calls", || ctx.set_dep_slice(&v));
        let mut got = vec![];
        put_snap(&mut got, &ctx.tape());
        let mut c2 = AContext::new();
        let xs2: Vec<ADouble> = (0..q.n()).map(|i| c2.new_indep(x.get(i).cloned().unwrap_or(1.0))).collect();
        let v2 = q.nodes(&xs2, &|_| ());
        c2.set_dep_slice(&v2);
        let mut want = vec![];
        put_snap(&mut want, &c2.tape());
        require!(got == want, "recording-differs", "a recording made next to failing calls differs from the same recording made alone");
    }
    drop(bystander);
    drop(ctx);
    require!(AContext::from_cid(by).is_none() && AContext::from_cid(own).is_none(), "kept-alive", "a context outlives its handles");
    rt::set_serial(false);
}

#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanPanicRounds {
    victim: Victim,
    #[serde(default)]
    rounds: u32,
}
pub fn gen_panic_rounds(r: &mut Rng, _t: Tier) -> Value {
    let c = CallCfg { ops: 3, n: 3, pools: false, depth: 0, kinds: USER };
    let rounds = rarely(r, 60, 16, 200) as u32;
    brief(js(&PlanPanicRounds { victim: victim(r, &c), rounds }))
}
pub fn exec_panic_rounds(v: &Value) {
    let p: PlanPanicRounds = plan(v);
    let v = &p.victim;
    let (warm, count) = (6, p.rounds.max(4) as usize);
    let mut sizes: Vec<(i64, i64)> = quiet(|| Vec::with_capacity(count));
    let s = Switch::new();
    let o = if v.same { Some(build_shared(&v.call, &s.hook())) } else { None };
    for i in 0..warm + count {
        for (k, at) in v.at.iter().enumerate() {
            let out = blow(&v.call, o.as_ref().map(|o| (o, &s)), *at as u64, k as u64, v.style);
            quiet(|| drop(out));
        }
        if i >= warm {
            sizes.push(alloc::live());
        }
    }
    let (a, b) = (sizes[0], sizes[count - 1]);
    require!(
        b.0 - a.0 < (count - 1) as i64,
        "leak",
        "{} failed calls of {} left {} heap blocks and {} bytes behind",
        (count - 1) * v.at.len(),
        KIND[(v.call.k as usize).min(8)],
        b.0 - a.0,
        b.1 - a.1
    );
}

// ------------------------------------------------------------------------------------------------ C07

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Job {
    call: Call,
    /// panic at this point of the user's code
    at: Option<u32>,
    /// what the user's code does besides: 1 record into the shared context, 2 create and drop a context,
    /// 4 take a tape of the shared context, 8 look contexts up
    mess: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanProgress {
    threads: Vec<Vec<Job>>,
    /// threads that create and drop contexts all the time: how many, how many of them alive at once
    #[serde(default)]
    storms: Vec<(u32, u32)>,
    /// contexts that are alive throughout
    #[serde(default)]
    pre: u32,
}
pub fn gen_progress(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    if r.chance(1, 8) {
        // wide: few calls with many columns or switching variables on a small pool, so that a worker which
        // waits for the parts of a piece takes over other pieces of the same call
        let threads = (0..r.weighted(&[5, 1]) + 1).map(|_| vec![Job { call: gen_wide(r), at: None, mess: 0 }]).collect();
        return js(&PlanProgress { threads, storms: vec![], pre: 0 });
    }
    if r.chance(1, 8) {
        // many contexts, and threads that do little else than create and drop some
        let c = CallCfg { ops: 2, n: 2, pools: false, depth: 0, kinds: [3, 1, 1, 0, 0, 0, 0, 0, 0] };
        let threads = (0..r.below(2)).map(|_| vec![Job { call: gen_call(r, &c), at: None, mess: 0 }]).collect();
        let storms = (0..r.range(2, 3)).map(|_| (r.range(3, 20) as u32, r.range(1, 2) as u32)).collect();
        let pre = *r.pick(&[0, 6, 15, 30, 63, 70, 140, 300]);
        return js(&PlanProgress { threads, storms, pre });
    }
    let nt = r.range(1, 4);
    let depth = r.weighted(&[3, 4, 2]) as u32;
    let huge = depth == 0 && r.chance(1, 20);
    let n = if huge { 24 } else if depth > 1 { 2 } else { 3 + big };
    let ops = if huge { 25 } else { 3 + big };
    let c = CallCfg { ops, n, pools: true, depth, kinds: ALL };
    let threads = (0..nt)
        .map(|_| {
            (0..r.range(1, 2))
                .map(|_| {
                    let call = gen_call(r, &c);
                    let at = if r.chance(1, 5) { Some(r.below(8) as u32) } else { None };
                    // taped functions may not use another context's variables
                    let mess = if r.chance(1, 2) { r.below(16) as u8 } else { 0 };
                    Job { call, at, mess }
                })
                .collect()
        })
        .collect();
    let storms = (0..r.weighted(&[7, 2, 1])).map(|_| (*r.pick(&[2, 5, 12, 30]), r.range(1, 4) as u32)).collect();
    js(&PlanProgress { threads, storms, pre: 0 })
}
pub fn exec_progress(v: &Value) {
    let p: PlanProgress = plan(v);
    rt::set_serial(true);
    let alive: Vec<AContext> = (0..p.pre).map(|_| AContext::new()).collect();
    rt::set_serial(false);
    let mut ctx = AContext::new();
    let cid = ctx.cid();
    let shared: ADouble = ctx.new_indep(2.0);
    let recorded = RealArc::new(AtomicU64::new(0));
    let got: Vec<RealMutex<Vec<Option<Vec<u64>>>>> = quiet(|| p.threads.iter().map(|_| RealMutex::new(vec![])).collect());
    let mut tasks: Vec<Task> = vec![];
    for (i, (jobs, g)) in p.threads.iter().zip(&got).enumerate() {
        let recorded = recorded.clone();
        tasks.push(Box::new(move || {
            for (k, j) in jobs.iter().enumerate() {
                let id = (i * 100 + k) as u64;
                let b = bomb(j.at.map_or(u64::MAX, |a| a as u64), id, 0);
                let (inner, mess, rec) = (b.hook.clone(), j.mess, recorded.clone());
                let hook: Hook = quiet(|| {
                    RealArc::new(move |w: Where| {
                        let n = rec.load(SeqCst);
                        if mess & 1 != 0 {
                            let y = shared * 3.0;
                            require!(y.value() == 6.0, "value-differs", "an operation on a shared variable gives {}", y.value());
                            rec.store(rec.load(SeqCst) + 1, SeqCst);
                        }
                        if mess & 2 != 0 && n % 3 == 0 {
                            let mut c = AContext::new();
                            let x: ADouble = c.new_indep(1.0);
                            let y = x + 1.0;
                            c.set_dep(&y);
                        }
                        if mess & 4 != 0 && n % 4 == 0 {
                            if let Some(c) = AContext::from_cid(cid) {
                                let t = c.tape();
                                let _ = t.values().len();
                            }
                        }
                        if mess & 8 != 0 {
                            drop(AContext::from_cid(cid + n as usize % 5));
                        }
                        inner(w)
                    }) as Hook
                });
                let r = catch(|| run_call(&j.call, &hook));
                let fired = b.fired.load(SeqCst);
                let out = match r {
                    Ok(v) => {
                        require!(!fired, "swallowed", "the function given to {} panicked, the call returned a result", KIND[(j.call.k as usize).min(8)]);
                        Some(v)
                    }
                    Err(e) => {
                        if !fired {
                            viol!("unexpected-panic", "{} panicked: {}", KIND[(j.call.k as usize).min(8)], last_panic());
                        }
                        require!(payload_is(&e, id), "wrong-panic", "the caller gets another panic than the function's: {}", last_panic());
                        None
                    }
                };
                quiet(|| g.lock().unwrap().push(out));
                quiet(|| drop(hook));
            }
        }));
    }
    for (count, window) in &p.storms {
        tasks.push(Box::new(move || {
            let mut live: Vec<AContext> = quiet(|| Vec::with_capacity(64));
            for i in 0..*count as usize {
                let mut c = AContext::new();
                let x: ADouble = c.new_indep(i as f64);
                let y = x * 2.0;
                c.set_dep(&y);
                if live.len() >= (*window).max(1) as usize {
                    drop(quiet(|| live.remove(0)));
                }
                quiet(|| live.push(c));
            }
            drop(live);
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    let ops = ctx.operations();
    let muls = ops.iter().filter(|o| o.opcode == OpCode::Mul).count() as u64;
    require!(muls == recorded.load(SeqCst), "count", "{} operations on the shared variable, {} recorded", recorded.load(SeqCst), muls);
    for (i, (jobs, g)) in p.threads.iter().zip(&got).enumerate() {
        for (k, (j, out)) in jobs.iter().zip(g.lock().unwrap().iter()).enumerate() {
            if let Some(out) = out {
                let want = calm("the same call made alone", || run_call(&j.call, &no_hook()));
                require!(*out == want, "result-differs", "thread {} call {} ({}): the result differs from the one computed alone", i, k, KIND[(j.call.k as usize).min(8)]);
            }
        }
    }
    drop(alive);
    rt::set_serial(false);
}
