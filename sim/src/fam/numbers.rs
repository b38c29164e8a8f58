//! C20: user code (functions, steps, methods of tapes, operations and conversions of number types) runs under no lock of the
//! library: it may use the library and may panic.
use super::calls::{build_shared, gen_call, no_hook, run_call, run_on, Built, Call, CallCfg, Hook, KIND, USER};
use super::record::nan;
use super::*;
use crate::own::{with_hook, Fussy};
use crate::sim::{calm, catch, last_panic};
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::atomic::{AtomicBool, AtomicUsize};
use std::sync::{Arc, Mutex as RealMutex};

/// A thread: records its program with numbers of the user's own. At the k-th operation of the numbers (or conversion)
/// user code does something, 0 nothing, 1 panics, 2 reads the context, 3 takes a tape of it, 4 records into it,
/// 5 creates and drops a context, 6 looks the context up, 7 marks a result
#[derive(Serialize, Deserialize, Clone, Debug)]
struct WN {
    prog: Prog,
    x: Vec<f64>,
    at: u32,
    act: u8,
    conv: bool,
    /// how arguments are marked: 0 new_indep, 1 set_indep, 2 new_indep_vec; 4 marks constants as results as well
    #[serde(default)]
    mark: u8,
}
impl WN {
    fn x(&self, i: usize) -> f64 {
        self.x.get(if self.mark & 3 == 2 { 0 } else { i }).cloned().unwrap_or(1.0)
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanNumbers {
    threads: Vec<WN>,
    /// all record into one context, or each into its own
    shared: bool,
}
pub fn gen_numbers(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let nt = r.weighted(&[0, 2, 4, 1]);
    let threads = (0..nt)
        .map(|i| {
            let n = r.range(1, 3);
            let x = gen_x(r, n, Class::Piecewise);
            let g = GenCfg { n, m: r.range(1, 3), ops: r.range(1, 5 + 5 * big), class: Class::Piecewise, odd_outs: true };
            let prog = gen_prog(r, &g, &[x.clone()]);
            let conv = r.chance(2, 3);
            let total = prog.ops.len() * if conv { 3 } else { 6 } + n;
            WN { prog, x, at: r.below(total) as u32, act: if i == 0 || r.chance(1, 3) { r.range(1, 7) as u8 } else { 0 }, conv, mark: r.below(3) as u8 + if r.chance(1, 3) { 4 } else { 0 } }
        })
        .collect();
    js(&PlanNumbers { threads, shared: r.chance(3, 4) })
}

struct Own;
type N = AFloat<Fussy>;
fn words(v: &[N]) -> Vec<(u64, u64)> {
    quiet(|| v.iter().map(|e| (nan(e.value().0), nan(e.dvalue().0))).collect())
}
fn run(w: &WN, cid: usize, fault: bool) -> Result<(Vec<N>, bool), Box<dyn std::any::Any + Send>> {
    let n = w.prog.n();
    let left = quiet(|| Rc::new(Cell::new(if fault && w.act > 0 { w.at as i64 } else { -1 })));
    let fired = quiet(|| Rc::new(Cell::new(false)));
    let (l, f, act, conv) = (left.clone(), fired.clone(), w.act, w.conv);
    let hook = quiet(|| {
        Rc::new(move |conversion: bool| {
            if conv && !conversion || l.get() < 0 {
                return;
            }
            l.set(l.get() - 1);
            if l.get() >= 0 {
                return;
            }
            f.set(true);
            rt::count("fault_number_type_acts");
            let mut ctx = AContext::from_cid(cid).expect("the context is alive");
            match act {
                1 => {
                    rt::count("fault_user_panic");
                    drop(ctx);
                    std::panic::panic_any(Own)
                }
                2 => quiet_drop(ctx.values()),
                3 => quiet_drop(ctx.tape()),
                4 => {
                    let x: ADouble = ctx.new_indep(2.0);
                    let _ = x * x;
                }
                5 => drop(AContext::new()),
                6 => assert!(AContext::from_cid(cid).is_some()),
                _ => ctx.set_dep(&ADouble::new(1.0, 0.0)),
            }
        }) as Rc<dyn Fn(bool)>
    });
    let r = catch(|| {
        with_hook(hook, || {
            let mut ctx = AContext::from_cid(cid).expect("the context is alive");
            let mut xs = quiet(|| QVec(Some(Vec::with_capacity(n))));
            let v = xs.0.as_mut().unwrap();
            match w.mark & 3 {
                0 => (0..n).for_each(|i| v.push(ctx.new_indep(Fussy(w.x(i))))),
                1 => {
                    v.extend((0..n).map(|i| N::new(Fussy(w.x(i)), Fussy(0.0))));
                    v.iter_mut().for_each(|x| ctx.set_indep(x));
                }
                _ => {
                    let made = ctx.new_indep_vec(n, Fussy(w.x(0)));
                    v.extend(made.iter().cloned());
                    quiet_drop(made);
                }
            }
            if w.mark & 4 > 0 {
                ctx.set_dep(&N::new(Fussy(1.5), Fussy(0.0)));
                ctx.set_dep(&N::new(Fussy(-2.0), Fussy(0.0)));
            }
            w.prog.nodes(v, &|_| ())
        })
    });
    let fired = fired.get();
    match r {
        Ok(v) => {
            require!(!(fired && w.act == 1), "swallowed", "the number type panicked, the recording went on");
            Ok((v, fired))
        }
        Err(e) => {
            require!(fired && w.act == 1 && e.is::<Own>(), "unexpected-panic", "recording with the user's number type panicked: {}", last_panic());
            Err(e)
        }
    }
}
fn quiet_drop<T>(t: T) {
    quiet(|| drop(t))
}

pub fn exec_numbers(v: &Value) {
    let p: PlanNumbers = plan(v);
    let first = AContext::new().cid();
    let ctxs: Vec<AContext> = (0..if p.shared { 1 } else { p.threads.len().max(1) }).map(|_| AContext::new()).collect();
    let cids: Vec<usize> = ctxs.iter().map(|c| c.cid()).collect();
    let own = |i: usize| if p.shared { 0 } else { i };
    let got: Vec<RealMutex<Vec<Vec<N>>>> = quiet(|| p.threads.iter().map(|_| RealMutex::new(vec![])).collect());
    let tasks: Vec<Task> = quiet(|| {
        let mut tasks: Vec<Task> = vec![];
        for (i, (w, g)) in p.threads.iter().zip(&got).enumerate() {
            let cid = cids[own(i)];
            tasks.push(Box::new(move || {
                for fault in [true, false] {
                    match run(w, cid, fault) {
                        Ok((v, _)) => quiet(|| g.lock().unwrap().push(v)),
                        Err(e) => quiet_drop(e),
                    }
                }
            }));
        }
        tasks
    });
    run_threads(tasks);
    rt::set_serial(true);
    let mut kept: Vec<Vec<N>> = vec![];
    let mut ctxs: Vec<Option<AContext>> = ctxs.into_iter().map(Some).collect();
    for (i, (w, g)) in p.threads.iter().zip(&got).enumerate() {
        // what the same numbers give without a context
        let xs: Vec<N> = (0..w.prog.n()).map(|k| N::new(Fussy(w.x(k)), Fussy(0.0))).collect();
        let want = words(&w.prog.nodes(&xs, &|_| ()));
        for v in g.lock().unwrap().iter() {
            require!(words(v) == want, "result-differs", "thread {}: values recorded next to user code that fails differ from unrecorded ones", i);
            let ctx = ctxs[own(i)].as_mut().unwrap();
            calm("marking results after a failure in user code", || ctx.set_dep_slice(v));
            kept.push(v.clone());
        }
    }
    // tapes are complete: every kept value is there, at any point and back
    for (k, c) in ctxs.iter().enumerate() {
        let mut t = calm("taking a tape after a failure in user code", || c.as_ref().unwrap().tape());
        let x = t.x();
        let kept: Vec<f64> = quiet(|| kept_of(&p, &got, k, &own));
        for round in 0..2 {
            let deps = t.deps().to_vec();
            let y = t.y();
            // other results may have been marked by user code
            let tail = deps.len() - kept.len().min(deps.len());
            require!(deps.len() >= kept.len(), "lost", "context {}: {} results marked, {} on the tape", k, kept.len(), deps.len());
            for (i, v) in kept.iter().enumerate() {
                require!(same(y[tail + i], *v), "replay-differs", "context {}: value {} of the recording is {:?}, on the tape {:?} (round {})", k, i, v, y[tail + i], round);
            }
            let mut other = x.clone();
            other.iter_mut().for_each(|e| *e = *e * 0.75 + 0.125);
            calm("re-evaluating a tape after a failure in user code", || {
                t.zero_order(&other);
                t.zero_order(&x);
            });
        }
    }
    ctxs.iter_mut().for_each(|c| *c = None);
    let last = AContext::new().cid();
    for c in first..=last {
        require!(calm("looking up a context", || AContext::from_cid(c).is_none()), "kept-alive", "context {} is still alive after the failed recordings", c);
    }
    rt::set_serial(false);
}
fn kept_of(p: &PlanNumbers, got: &[RealMutex<Vec<Vec<N>>>], k: usize, own: &dyn Fn(usize) -> usize) -> Vec<f64> {
    let mut out = vec![];
    for i in 0..p.threads.len() {
        if own(i) == k {
            got[i].lock().unwrap().iter().for_each(|v| out.extend(v.iter().map(|e| e.value().0)));
        }
    }
    out
}

// ------------------------------------------------------------------------------------------------ callbacks

/// A call and the object it works on; at the k-th time the user code of the object runs, that code uses the library:
/// 1 looks up the newest contexts and takes tapes of what it finds (the recording in progress among them), 2 records into a
/// context others use, 4 makes the same call, 8 makes another thread's call, 16 marks a result and creates and drops contexts
/// (32: the calls of 4 and 8 work on the threads' objects, not on objects of their own); at last it panics, or not
#[derive(Serialize, Deserialize, Clone, Debug)]
struct CB {
    call: Call,
    at: u32,
    acts: u8,
    panics: bool,
    /// calls that are made one after the other, on the object of the thread so many further
    #[serde(default)]
    then: Vec<u32>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanCallbacks {
    threads: Vec<CB>,
}
pub fn gen_callbacks(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let c = CallCfg { ops: 3 + 3 * big, n: 3, pools: true, depth: 0, kinds: USER };
    let threads = (0..r.range(1, 3))
        .map(|_| {
            let call = gen_call(r, &c);
            let ops: usize = call.progs.iter().map(|p| p.ops.len() + 1).sum();
            let more = if call.progs.iter().any(|p| p.hand & 8 > 0) { 12 } else { 0 };
            let at = r.below(ops + more) as u32;
            CB { at, call, acts: r.range(1, 63) as u8, panics: r.chance(1, 3), then: (0..r.range(1, 3)).map(|_| *r.pick(&[0, 0, 1])).collect() }
        })
        .collect();
    js(&PlanCallbacks { threads })
}
/// Results and objects by thread
struct Calls {
    plan: Vec<CB>,
    built: Vec<RealMutex<Option<Arc<Built>>>>,
    got: Vec<RealMutex<Vec<Vec<u64>>>>,
    thrown: Vec<AtomicUsize>,
    caught: Vec<AtomicUsize>,
    armed: AtomicBool,
}
struct Of(usize);
impl Calls {
    fn call(&self, i: usize, on_own: bool) -> Vec<u64> {
        let c = &self.plan[i].call;
        if !on_own {
            return run_call(c, &no_hook());
        }
        struct Held(Option<Arc<Built>>);
        impl Drop for Held {
            fn drop(&mut self) {
                quiet(|| self.0 = None)
            }
        }
        let b = quiet(|| Held(self.built[i].lock().unwrap().clone()));
        run_on(c, b.0.as_ref().unwrap())
    }
    fn keep(&self, i: usize, out: Vec<u64>) {
        quiet(|| self.got[i].lock().unwrap().push(out))
    }
}
pub fn exec_callbacks(v: &Value) {
    let p: PlanCallbacks = plan(v);
    if p.threads.is_empty() {
        crate::sim::skip("bad-plan");
    }
    let n = p.threads.len();
    let first = AContext::new().cid();
    let mut ctx = AContext::new();
    let cid = ctx.cid();
    let x: ADouble = ctx.new_indep(3.0);
    let made = quiet(|| Arc::new(AtomicUsize::new(0)));
    let all = quiet(|| {
        Arc::new(Calls {
            plan: p.threads.clone(),
            built: (0..n).map(|_| RealMutex::new(None)).collect(),
            got: (0..n).map(|_| RealMutex::new(vec![])).collect(),
            thrown: (0..n).map(|_| AtomicUsize::new(0)).collect(),
            caught: (0..n).map(|_| AtomicUsize::new(0)).collect(),
            armed: AtomicBool::new(false),
        })
    });
    for (i, w) in p.threads.iter().enumerate() {
        let hook = quiet(|| {
            let count = AtomicUsize::new(0);
            let (w, made, all) = (w.clone(), made.clone(), all.clone());
            Arc::new(move |_| {
                if !all.armed.load(SeqCst) || count.fetch_add(1, SeqCst) != w.at as usize {
                    return;
                }
                rt::count("callbacks");
                if w.acts & 1 > 0 {
                    let newest = AContext::new().cid();
                    for c in newest.saturating_sub(6)..=newest {
                        if let Some(h) = AContext::from_cid(c) {
                            quiet_drop(h.values());
                            quiet_drop(h.indeps());
                            quiet_drop(h.deps());
                            quiet_drop(h.operations());
                            quiet_drop(h.tape());
                            require!(h.cid() == c, "wrong-context", "the context found for {} is {}", c, h.cid());
                        }
                    }
                }
                if w.acts & 2 > 0 {
                    let _ = x * x;
                    made.fetch_add(1, SeqCst);
                }
                if w.acts & 4 > 0 {
                    all.keep(i, all.call(i, w.acts & 32 > 0));
                }
                if w.acts & 8 > 0 {
                    let other = (i + 1) % all.plan.len();
                    all.keep(other, all.call(other, w.acts & 32 > 0));
                }
                if w.acts & 16 > 0 {
                    AContext::from_cid(cid).expect("the context is alive").set_dep(&x);
                    drop([AContext::new(), AContext::new()]);
                }
                if w.panics {
                    rt::count("fault_user_panic");
                    all.thrown[i].fetch_add(1, SeqCst);
                    std::panic::panic_any(Of(i));
                }
            }) as Hook
        });
        let b = build_shared(&w.call, &hook);
        quiet(|| {
            *all.built[i].lock().unwrap() = Some(Arc::new(b));
            drop(hook);
        });
    }
    all.armed.store(true, SeqCst);
    let tasks: Vec<Task> = quiet(|| {
        let mut tasks: Vec<Task> = vec![];
        for (i, w) in p.threads.iter().enumerate() {
            let all = &all;
            tasks.push(Box::new(move || {
                for k in std::iter::once(&0).chain(&w.then) {
                    let j = (i + *k as usize) % n;
                    match catch(|| all.call(j, true)) {
                        Ok(out) => all.keep(j, out),
                        Err(e) => {
                            match e.downcast_ref::<Of>() {
                                Some(o) => all.caught[o.0].fetch_add(1, SeqCst),
                                None => viol!("unexpected-panic", "{} panicked: {}", KIND[(w.call.k as usize).min(8)], last_panic()),
                            };
                            quiet_drop(e);
                        }
                    }
                }
            }));
        }
        tasks
    });
    run_threads(tasks);
    all.armed.store(false, SeqCst);
    rt::set_serial(true);
    for (i, w) in p.threads.iter().enumerate() {
        let what = KIND[(w.call.k as usize).min(8)];
        let (thrown, caught) = (all.thrown[i].load(SeqCst), all.caught[i].load(SeqCst));
        require!(thrown == caught, "swallowed", "call {} ({}): user code panicked {} times, callers got {} panics", i, what, thrown, caught);
        let want = calm("a call made alone", || all.call(i, false));
        let again = calm("a call on an object after user code has used the library", || all.call(i, true));
        all.keep(i, again);
        for (k, out) in all.got[i].lock().unwrap().iter().enumerate() {
            require!(*out == want, "result-differs", "call {} ({}), result {}: differs from the one computed alone", i, what, k);
        }
    }
    for b in &all.built {
        quiet(|| drop(b.lock().unwrap().take()));
    }
    let ops = calm("reading a context", || ctx.operations());
    require!(ops.len() == made.load(SeqCst), "lost", "user code recorded {} operations, the context has {}", made.load(SeqCst), ops.len());
    let y = x * x;
    calm("marking a result", || ctx.set_dep(&y));
    require!(calm("taking a tape", || ctx.tape()).y().iter().last() == Some(&9.0), "replay-differs", "the context does not have the value recorded last");
    drop(ctx);
    let last = AContext::new().cid();
    for c in first..=last {
        require!(calm("looking up a context", || AContext::from_cid(c).is_none()), "kept-alive", "context {} is still alive after the calls", c);
    }
    rt::set_serial(false);
}
