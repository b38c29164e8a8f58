//! C19: calls have no memory. Results in a history of calls against the same call in a process of its own.
use super::calls::{bomb, put_anf, put_gj, put_m, put_snap, put_v, Hook};
use super::deriv::{point, vecd};
use super::*;
use crate::alloc;
use crate::sim::{calm, catch, fresh};
use std::sync::{Arc as RealArc, Mutex as RealMutex};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Fun {
    prog: Prog,
    smooth: bool,
    /// the points it is used at
    xs: Vec<Vec<f64>>,
}
/// k: driver calls on a shared function: 0 evaluation, 1 taping, 2 forward Jacobian, 3 reverse Jacobian, 4 abs-normal
/// form, 5 generalized Jacobian, 6 products with the abs-normal matrices, 7 generalized Jacobian of the shared chain,
/// 8 forward Jacobian of the shared chain;
/// own tapes: 10 make, 11 re-evaluate, 12 forward sweep, 13 reverse sweep, 14 reverse Jacobian, 15 content,
/// 16 generalized Jacobian consuming it, 17 drop;
/// the shared tape: 20 forward sweep, 21 reverse sweep, 22 reverse Jacobian;
/// noise: 30 a call whose function panics, 31 a rejected re-evaluation, 32 a context of its own, 33 a call with a pool
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Act {
    k: u8,
    f: u32,
    /// index of the point
    x: u32,
    d: Vec<f64>,
    bits: Vec<u8>,
    budget: u32,
    pool: u32,
    slot: u32,
    /// compared with the same call made in a process of its own
    check: bool,
    /// with a function object made for this call: 1 dropped afterwards, 2 one object that becomes the functions in turn
    #[serde(default)]
    own: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanHist {
    funs: Vec<Fun>,
    /// the links of the shared chain and its points
    chain: Vec<Prog>,
    chain_xs: Vec<Vec<f64>>,
    threads: Vec<Vec<Act>>,
    #[serde(default)]
    rounds: u32,
    /// many rounds one after the other, without any preemption
    #[serde(default)]
    long: bool,
    /// marathons: of the last two calls of the script the first one is made every so many rounds, the other one else
    #[serde(default)]
    every: u32,
}
const SLOTS: usize = 2;
fn gen_act(r: &mut Rng, n: usize) -> Act {
    let k = match r.weighted(&[9, 9, 4, 3]) {
        0 => *r.pick(&[0, 1, 2, 2, 3, 3, 4, 4, 5, 5, 6, 7, 7, 8]),
        1 => *r.pick(&[10, 10, 10, 11, 11, 12, 12, 13, 13, 14, 15, 16, 17]),
        2 => r.range(20, 22) as u8,
        _ => r.range(30, 33) as u8,
    };
    Act {
        k,
        f: r.below(4) as u32,
        x: r.below(4) as u32,
        d: (0..n).map(|_| if r.chance(1, 5) { 0.0 } else { r.float(-1.0, 1.0) }).collect(),
        bits: (0..r.below(3)).map(|_| r.below(256) as u8).collect(),
        budget: r.range(2, 5) as u32,
        pool: if r.chance(1, 8) { r.range(1, 4) as u32 } else { 0 },
        slot: r.below(SLOTS) as u32,
        check: r.chance(1, 2),
        own: r.weighted(&[6, 3, 2]) as u8,
    }
}
fn gen_with(r: &mut Rng, t: Tier, nt: usize, acts: usize, rounds: u32, long: bool) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let wide = r.chance(1, 12);
    // often the same dimensions, so that whatever is kept from one function fits another
    let same = r.chance(1, 2);
    let (n0, m0) = (r.range(1, 3), r.range(1, 3));
    let funs: Vec<Fun> = (0..r.range(1, 3))
        .map(|_| {
            let smooth = r.chance(1, 2);
            let class = if smooth { Class::Smooth } else { Class::Piecewise };
            let (n, m) = if wide {
                (r.range(1, 12), r.range(1, 12))
            } else if same {
                (n0, m0)
            } else {
                (r.range(1, 3 + big), r.range(1, 3 + big))
            };
            let mut xs: Vec<Vec<f64>> = (0..r.range(1, 3)).map(|_| gen_x(r, n, class)).collect();
            if r.chance(1, 6) {
                // points that differ in nothing but the sign of a zero, or by very little
                let i = r.below(n);
                let mut a = xs[0].clone();
                let mut b = xs[0].clone();
                if r.chance(2, 3) {
                    a[i] = 0.0;
                    b[i] = -0.0;
                } else {
                    b[i] = f64::from_bits(a[i].to_bits() + 1);
                }
                xs = vec![a, b];
            }
            let ops = if wide { r.range(1, 16) } else { r.range(1, 5 + 3 * big) };
            let prog = gen_prog(r, &GenCfg { n, m, ops, class, odd_outs: true }, &xs);
            Fun { prog, smooth, xs }
        })
        .collect();
    let mut funs = funs;
    if same && r.chance(1, 2) {
        // and the same points
        let xs = funs[0].xs.clone();
        for f in funs.iter_mut().skip(1) {
            if f.prog.n() == xs[0].len() {
                f.xs = xs.clone();
            }
        }
    }
    let n = r.range(1, 3);
    let chain_xs: Vec<Vec<f64>> = (0..r.range(1, 2)).map(|_| gen_x(r, n, Class::Piecewise)).collect();
    let mut at = chain_xs.clone();
    let mut chain = vec![];
    for _ in 0..r.range(1, 3) {
        let (n, m, ops) = (at[0].len(), r.range(1, 3), r.range(1, 4));
        let p = gen_prog(r, &GenCfg { n, m, ops, class: Class::Piecewise, odd_outs: true }, &at);
        for x in at.iter_mut() {
            *x = super::anf::values(&p, x);
        }
        chain.push(p);
    }
    let dn = funs.iter().map(|f| f.prog.n().max(f.prog.m())).max().unwrap().max(n);
    let threads = (0..nt).map(|_| (0..r.range(1, acts)).map(|_| gen_act(r, dn)).collect()).collect();
    js(&PlanHist { funs, chain, chain_xs, threads, rounds, long, every: 0 })
}
pub fn gen_history(r: &mut Rng, t: Tier) -> Value {
    let nt = r.weighted(&[3, 4, 2]) + 1;
    let acts = if r.chance(1, 40) { 40 } else if nt == 1 { 12 } else { 7 };
    gen_with(r, t, nt, acts, 0, false)
}
pub fn gen_history_rounds(r: &mut Rng, t: Tier) -> Value {
    let long = r.chance(1, 4);
    let nt = if long { 1 } else { r.weighted(&[3, 1]) + 1 };
    let rounds = rarely(r, 60, 14, 80) as u32;
    brief(gen_with(r, t, nt, if long { 3 } else { 4 }, rounds, long))
}
/// The same few calls thousands of times: whatever counts calls, or ages, has its effect.
pub fn gen_marathon(r: &mut Rng, t: Tier) -> Value {
    let mut v = gen_with(r, t, 1, 5, 0, true);
    let count = match r.weighted(&[6, 4, 2, 1]) {
        0 => r.range(257, 300),
        1 => r.range(1024, 1100),
        2 => r.range(4096, 4400),
        _ => r.range(65536, 66000),
    };
    v["rounds"] = json!(count);
    for a in v["threads"][0].as_array_mut().unwrap() {
        let k = if count > 60_000 {
            *r.pick(&[0, 10, 11, 11, 12, 13, 13, 15, 20, 21, 32])
        } else if count > 2000 && r.chance(3, 4) {
            *r.pick(&[0, 1, 3, 5, 10, 11, 12, 13, 15, 20, 21, 31, 32])
        } else {
            continue;
        };
        a["k"] = json!(k);
    }
    if r.chance(1, 3) {
        let every = match r.weighted(&[4, 1]) {
            _ if count > 65536 => 65536,
            0 => 256,
            _ => *r.pick(&[2, 16, 255, 1000, 1024]),
        };
        v["every"] = json!(every);
        let mut acts = vec![];
        for i in 0..SLOTS {
            let mut a = gen_act(r, 3);
            a.k = 10;
            a.slot = i as u32;
            a.f = i as u32;
            acts.push(a);
        }
        let cheap = count > 2000;
        let k = if cheap || r.chance(1, 2) { *r.pick(&[0, 11, 12, 13, 13]) } else { *r.pick(&[1, 2, 3, 4, 5, 6, 7, 8, 14, 20, 21, 22]) };
        for i in 0..2 {
            let mut a = gen_act(r, 3);
            a.k = k;
            a.slot = i;
            a.f = i;
            acts.push(a);
        }
        v["threads"][0] = js(&acts);
    }
    if count > 2000 {
        // contexts that are kept would grow and grow
        for a in v["threads"][0].as_array_mut().unwrap() {
            a["x"] = json!(a["x"].as_u64().unwrap() | (a["k"] == json!(32)) as u64);
        }
    }
    brief(v)
}
/// the workers of a pool end some time after it has been dropped: no such pools where memory is counted
fn without_pools(mut p: PlanHist) -> PlanHist {
    p.threads.iter_mut().flatten().for_each(|a| a.pool = 0);
    p
}

fn made(i: usize, f: &Fun) -> Box<dyn Function> {
    quiet(|| if i % 2 == 0 { Box::new(ProgFn::new(&f.prog)) as Box<dyn Function> } else { Box::new(simple(&f.prog)) })
}
/// A function that is another one each time it is told to.
struct Changing {
    fns: Vec<RealArc<dyn Function>>,
    now: std::sync::atomic::AtomicUsize,
}
impl Changing {
    fn cur(&self) -> &dyn Function {
        &*self.fns[self.now.load(std::sync::atomic::Ordering::SeqCst)]
    }
}
impl Function for Changing {
    fn n(&self) -> usize {
        self.cur().n()
    }
    fn m(&self) -> usize {
        self.cur().m()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        self.cur().eval(x)
    }
    fn tape(&self, x: &DVector<f64>) -> Box<dyn Tape> {
        self.cur().tape(x)
    }
}
/// the objects the threads share
struct Shared {
    fns: Vec<RealArc<dyn Function>>,
    chain: Option<FunctionChain>,
    /// of the first function without absolute values, at its first point
    tape: Option<(usize, Box<dyn Tape>)>,
}
fn chain_of(p: &PlanHist) -> Option<FunctionChain> {
    let mut chain: Option<FunctionChain> = None;
    let mut m = 0;
    for q in &p.chain {
        if chain.is_some() && q.n() != m {
            crate::sim::skip("chain-dims");
        }
        m = q.m();
        let g = quiet(|| ProgFn::new(q));
        match chain.as_mut() {
            None => chain = Some(FunctionChain::new(g)),
            Some(c) => c.append(g),
        }
    }
    chain
}
fn shared_tape(p: &PlanHist) -> Option<(usize, Box<dyn Tape>)> {
    let i = p.funs.iter().position(|f| f.smooth)?;
    let f = &p.funs[i];
    Some((i, ProgFn::new(&f.prog).tape(&at(f, 0))))
}
fn at(f: &Fun, i: u32) -> DVector<f64> {
    let x = f.xs.get(i as usize % f.xs.len().max(1)).cloned().unwrap_or_default();
    vecd(&point(&x, f.prog.n(), 1.0))
}
fn dir(a: &Act, n: usize) -> DVector<f64> {
    vecd(&point(&a.d, n, 0.5))
}
/// a call on a function that does not depend on anything but its arguments
fn on_function(a: &Act, f: &Fun, g: &dyn Function, out: &mut Vec<u64>) {
    let x = at(f, a.x);
    match a.k {
        0 => put_v(out, &g.eval_float(x)),
        1 => put_snap(out, &*g.tape(&x)),
        3 if f.smooth => put_m(out, &drivers::jacobian_reverse(&*g.tape(&x))),
        2 | 3 | 33 => put_m(out, &drivers::jacobian_forward(g, &x)),
        4 => put_anf(out, &drivers::abs_normal(g, &x)),
        5 => put_gj(out, &drivers::generalized_jacobian(g, &x, &dir(a, f.prog.n()), &a.bits, None)),
        _ => {
            let t = drivers::AbsNormalTape::new(g.tape(&x));
            let (z, l) = (drivers::AbsNormalZ::new(&t), drivers::AbsNormalL::new(&t));
            let (j, y) = (drivers::AbsNormalJ::new(&t), drivers::AbsNormalY::new(&t));
            let fill = |r: usize, c: usize| DMatrix::from_fn(r, c, |i, j| ((i * 5 + j * 3) % 7) as f64 - 3.0);
            put_m(out, &z.mul_right(&fill(t.n(), 2)));
            put_m(out, &l.mul_right(&fill(t.s(), 2)));
            put_m(out, &j.mul_left(&fill(2, t.m())));
            put_m(out, &y.mul_left(&fill(1, t.m())));
            put_v(out, &t.y());
            put_v(out, &t.z());
        }
    }
}
fn on_chain(a: &Act, p: &PlanHist, c: &FunctionChain, out: &mut Vec<u64>) {
    let n = c.n();
    let x = p.chain_xs.get(a.x as usize % p.chain_xs.len().max(1)).cloned().unwrap_or_default();
    let x = vecd(&point(&x, n, 1.0));
    if a.k == 7 {
        let b = if a.budget > 4 { None } else { Some(a.budget as usize) };
        put_gj(out, &drivers::generalized_jacobian_chain(c, x, dir(a, n), b));
    } else {
        put_m(out, &drivers::jacobian_forward(c, &x));
    }
}
fn on_tape(k: u8, a: &Act, smooth: bool, t: &dyn Tape, out: &mut Vec<u64>) {
    match k {
        13 if smooth => put_v(out, &t.first_order_reverse(&dir(a, t.num_deps()))),
        12 | 13 => put_v(out, &t.first_order_forward(&dir(a, t.num_indeps()))),
        14 if smooth => put_m(out, &drivers::jacobian_reverse(t)),
        _ => {
            put_snap(out, t);
            put_v(out, &t.x());
            put_v(out, &t.y());
        }
    }
}
fn in_pool(a: &Act, f: impl FnOnce() + Send) {
    if a.pool == 0 {
        f()
    } else {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(a.pool as usize).build().unwrap();
        pool.install(f)
    }
}
/// What the script knows about an own tape: its function, the point of its recording, the point it was moved to.
#[derive(Clone, Copy)]
struct Slot {
    f: usize,
    x: u32,
    to: Option<u32>,
}
fn track(p: &PlanHist, slots: &mut [Option<Slot>; SLOTS], a: &Act) {
    let s = &mut slots[a.slot as usize % SLOTS];
    match a.k {
        10 => *s = Some(Slot { f: a.f as usize % p.funs.len(), x: a.x, to: None }),
        11 => {
            if let Some(s) = s {
                s.to = Some(a.x)
            }
        }
        16 | 17 => *s = None,
        _ => (),
    }
}
/// The result of the act in a process in which nothing else has happened.
fn alone(p: &PlanHist, a: &Act, slot: Option<Slot>) -> Vec<u64> {
    fresh(|| {
        let mut out: Vec<u64> = vec![];
        match a.k {
            0..=6 | 33 => {
                let fi = a.f as usize % p.funs.len();
                let f = &p.funs[fi];
                on_function(a, f, &*made(fi, f), &mut out)
            }
            7 | 8 => {
                if let Some(c) = chain_of(p) {
                    on_chain(a, p, &c, &mut out)
                }
            }
            10..=16 => {
                if let Some(s) = slot {
                    let f = &p.funs[s.f];
                    let g = made(s.f, f);
                    let t = match s.to {
                        None => g.tape(&at(f, s.x)),
                        Some(to) => {
                            // wherever it has been before
                            let mut t = g.tape(&at(f, s.x).map(|v| v + 0.25));
                            t.zero_order(&at(f, to));
                            t
                        }
                    };
                    if a.k == 16 {
                        put_gj(&mut out, &drivers::generalized_jacobian_tape(t, &dir(a, f.prog.n()), &a.bits, None));
                    } else {
                        on_tape(a.k, a, f.smooth, &*t, &mut out)
                    }
                }
            }
            20..=22 => {
                if let Some((_, t)) = shared_tape(p) {
                    on_tape(a.k - 8, a, true, &*t, &mut out)
                }
            }
            _ => (),
        }
        out
    })
}
/// What a thread keeps from act to act.
#[derive(Default)]
struct Own {
    slots: [Option<(Slot, Box<dyn Tape>)>; SLOTS],
    ctx: Option<AContext>,
    changing: Option<Box<Changing>>,
}
fn act(p: &PlanHist, sh: &Shared, a: &Act, own: &mut Own) -> Vec<u64> {
    let Own { slots, ctx, changing } = own;
    let mut out: Vec<u64> = quiet(|| Vec::with_capacity(4096));
    let fi = a.f as usize % p.funs.len();
    let f = &p.funs[fi];
    let si = a.slot as usize % SLOTS;
    match a.k {
        0..=6 | 33 => {
            let o = &mut out;
            match a.own {
                1 => {
                    let g: Box<dyn Function> = made(fi, f);
                    in_pool(a, || on_function(a, f, &*g, o));
                    quiet(|| drop(g));
                }
                2 => {
                    let g = quiet(|| changing.get_or_insert_with(|| Box::new(Changing { fns: sh.fns.clone(), now: Default::default() })));
                    g.now.store(fi, std::sync::atomic::Ordering::SeqCst);
                    in_pool(a, || on_function(a, f, &**g, o))
                }
                _ => {
                    let g = &sh.fns[fi];
                    in_pool(a, || on_function(a, f, &**g, o))
                }
            }
        }
        7 | 8 => {
            if let Some(c) = &sh.chain {
                let o = &mut out;
                in_pool(a, || on_chain(a, p, c, o))
            }
        }
        10 => {
            drop(slots[si].take());
            let t = sh.fns[fi].tape(&at(f, a.x));
            on_tape(15, a, f.smooth, &*t, &mut out);
            slots[si] = Some((Slot { f: fi, x: a.x, to: None }, t));
        }
        11 => {
            if let Some((s, t)) = &mut slots[si] {
                t.zero_order(&at(&p.funs[s.f], a.x));
                on_tape(15, a, p.funs[s.f].smooth, &**t, &mut out);
            }
        }
        12..=15 => {
            if let Some((s, t)) = &slots[si] {
                let (t, o, sm) = (&**t, &mut out, p.funs[s.f].smooth);
                in_pool(a, || on_tape(a.k, a, sm, t, o))
            }
        }
        16 => {
            if let Some((s, t)) = slots[si].take() {
                put_gj(&mut out, &drivers::generalized_jacobian_tape(t, &dir(a, p.funs[s.f].prog.n()), &a.bits, None));
            }
        }
        17 => drop(slots[si].take()),
        20..=22 => {
            if let Some((_, t)) = &sh.tape {
                let (t, o) = (&**t, &mut out);
                in_pool(a, || on_tape(a.k - 8, a, true, t, o))
            }
        }
        30 => {
            // user code that fails at some point of the call
            let b = bomb(a.x as u64 + a.budget as u64, 7, (a.f % 3) as u8);
            let hook: Hook = quiet(|| b.hook.clone());
            let g = quiet(|| ProgFn { p: f.prog.clone(), hook: Some(std::sync::Arc::new(move |w| hook(w))) });
            let mut b2 = a.clone();
            b2.k = (a.slot * 2 + 1) as u8;
            let mut o: Vec<u64> = quiet(|| Vec::with_capacity(1024));
            let r = catch(|| on_function(&b2, f, &g, &mut o));
            quiet(|| {
                drop((r, o, g, b, b2));
            });
        }
        31 => {
            if let Some((s, t)) = &mut slots[si] {
                let n = p.funs[s.f].prog.n();
                let r = catch(|| t.zero_order(&DVector::from_element(n + 1, 0.25)));
                quiet(|| drop(r));
            }
        }
        _ => {
            // a context that is recorded into now and then, and dropped
            let mut c = ctx.take().unwrap_or_else(AContext::new);
            let x: ADouble = c.new_indep(a.budget as f64);
            let y = x * x + 1.0;
            c.set_dep(&y);
            let t = c.tape();
            let _ = t.first_order_reverse(&DVector::from_element(t.num_deps(), 1.0));
            if a.x % 2 == 0 {
                *ctx = Some(c);
            }
        }
    }
    out
}
fn share(p: &PlanHist) -> Shared {
    Shared {
        fns: quiet(|| p.funs.iter().enumerate().map(|(i, f)| RealArc::from(made(i, f))).collect()),
        chain: calm("building a chain", || chain_of(p)),
        tape: calm("taping", || shared_tape(p)),
    }
}
const NAMES: [&str; 34] = [
    "eval_float", "Function::tape", "jacobian_forward", "jacobian_reverse", "abs_normal", "generalized_jacobian", "abs-normal products",
    "generalized_jacobian_chain", "jacobian_forward of a chain", "", "Function::tape", "Tape::zero_order", "first_order_forward",
    "first_order_reverse", "jacobian_reverse", "a tape's content", "generalized_jacobian_tape", "", "", "", "first_order_forward (shared tape)",
    "first_order_reverse (shared tape)", "jacobian_reverse (shared tape)", "", "", "", "", "", "", "", "", "", "", "jacobian_forward in a pool",
];
pub fn exec_history(v: &Value) {
    let p: PlanHist = plan(v);
    if p.funs.is_empty() || p.threads.iter().flatten().any(|a| a.k as usize >= NAMES.len()) {
        crate::sim::skip("bad-plan");
    }
    // first, as long as nothing has happened in this process: what the calls give alone
    let mut wants: Vec<Vec<Option<Vec<u64>>>> = vec![];
    for t in &p.threads {
        let w = wanted(&p, t, &mut [None; SLOTS], false);
        quiet(|| wants.push(w));
    }
    let sh = share(&p);
    let got: Vec<RealMutex<Vec<Vec<u64>>>> = quiet(|| p.threads.iter().map(|_| RealMutex::new(vec![])).collect());
    let mut tasks: Vec<Task> = vec![];
    for (t, g) in p.threads.iter().zip(&got) {
        let (p, sh) = (&p, &sh);
        tasks.push(Box::new(move || {
            let mut own = Own::default();
            for a in t {
                let out = calm(NAMES[a.k as usize], || act(p, sh, a, &mut own));
                quiet(|| g.lock().unwrap().push(out));
            }
        }));
    }
    run_threads(tasks);
    for (i, (t, (w, g))) in p.threads.iter().zip(wants.iter().zip(&got)).enumerate() {
        for (k, (a, (w, g))) in t.iter().zip(w.iter().zip(g.lock().unwrap().iter())).enumerate() {
            if let Some(w) = w {
                rt::count("results_compared_with_a_fresh_process");
                require!(w == g, "remembers", "thread {} call {} ({}): the result after other calls differs from the one in a process of its own", i, k, NAMES[a.k as usize]);
            }
        }
    }
    drop(sh);
}
pub fn exec_history_rounds(v: &Value) {
    let p: PlanHist = without_pools(plan(v));
    if p.funs.is_empty() || p.threads.iter().flatten().any(|a| a.k as usize >= NAMES.len()) {
        crate::sim::skip("bad-plan");
    }
    let first = AContext::new().cid();
    let sh = share(&p);
    if p.long {
        return long(&p, &sh);
    }
    let (warm, count) = (6, p.rounds.max(4) as usize);
    let mut sizes: Vec<(i64, i64)> = quiet(|| Vec::with_capacity(count));
    for i in 0..warm + count {
        let mut tasks: Vec<Task> = quiet(Vec::new);
        for t in &p.threads {
            let (p, sh) = (&p, &sh);
            quiet(|| {
                tasks.push(Box::new(move || {
                    let mut own = Own::default();
                    for a in t {
                        let out = calm(NAMES[a.k as usize], || act(p, sh, a, &mut own));
                        quiet(|| drop(out));
                    }
                }))
            });
        }
        run_threads(tasks);
        if i >= warm {
            sizes.push(alloc::live());
        }
    }
    let last = AContext::new().cid();
    for c in first..=last {
        require!(AContext::from_cid(c).is_none(), "kept-alive", "context {} is alive after the calls", c);
    }
    let (a, b) = (sizes[0], sizes[count - 1]);
    require!(b.0 - a.0 < (count - 1) as i64, "leak", "{} rounds of the same calls left {} heap blocks and {} bytes behind", count - 1, b.0 - a.0, b.1 - a.1);
    // a block that only ever grows
    let half = sizes[sizes.len() / 2].1;
    require!(
        !(count > 12 && b.1 - half >= 64 && half - a.1 >= 64 && sizes.windows(2).all(|w| w[1].1 > w[0].1)),
        "leak",
        "every round of the same calls leaves more memory in use: {:?}",
        sizes.iter().map(|s| s.1).collect::<Vec<_>>()
    );
    drop(sh);
}
/// What the acts of a script give, each in a process of its own, given the tapes at hand when it begins.
fn wanted(p: &PlanHist, t: &[Act], slots: &mut [Option<Slot>; SLOTS], every: bool) -> Vec<Option<Vec<u64>>> {
    let mut w = vec![];
    for a in t {
        let before = slots[a.slot as usize % SLOTS];
        track(p, slots, a);
        let now = if a.k == 16 { before } else { slots[a.slot as usize % SLOTS] };
        let live = match a.k {
            10..=16 => now.is_some(),
            17 | 30..=32 => false,
            _ => true,
        };
        let want = if (every || a.check) && live { Some(alone(p, a, now)) } else { None };
        quiet(|| w.push(want));
    }
    w
}
pub fn exec_marathon(v: &Value) {
    let p: PlanHist = without_pools(plan(v));
    if p.funs.is_empty() || p.threads.len() != 1 || p.threads[0].iter().any(|a| a.k as usize >= NAMES.len()) {
        crate::sim::skip("bad-plan");
    }
    let t = &p.threads[0];
    let mut known = [None; SLOTS];
    let first = wanted(&p, t, &mut known, true);
    // from the second round on every round begins with the same tapes
    let later = wanted(&p, t, &mut known, true);
    let sh = share(&p);
    rt::long(2000 + p.rounds as u64 * t.len() as u64 * 20);
    rt::set_serial(true);
    let mut own = Own::default();
    for i in 0..p.rounds.max(2) {
        for (k, (a, w)) in t.iter().zip(if i == 0 { &first } else { &later }).enumerate() {
            if p.every > 0 {
                // the beginning of the script once; then one call many times, and another one now and then
                let rest = t.len().saturating_sub(2);
                let rare = i % p.every == 0;
                if (k < rest && i > 0) || (k >= rest && (k == rest) != rare) {
                    continue;
                }
            }
            let out = calm(NAMES[a.k as usize], || act(&p, &sh, a, &mut own));
            if let Some(w) = w {
                require!(*w == out, "remembers", "round {} call {} ({}): the result after all these calls differs from the one in a process of its own", i, k, NAMES[a.k as usize]);
            }
            quiet(|| drop(out));
        }
    }
    rt::count("marathons");
    rt::set_serial(false);
    drop((own, sh));
}
fn long(p: &PlanHist, sh: &Shared) {
    rt::set_serial(true);
    let mut at = (0, 0);
    let (warm, count) = (60, 300);
    for i in 0..warm + count {
        if i == warm {
            at = alloc::live();
        }
        for t in &p.threads {
            let mut own = Own::default();
            for a in t {
                let out = calm(NAMES[a.k as usize], || act(p, sh, a, &mut own));
                quiet(|| drop(out));
            }
        }
    }
    let now = alloc::live();
    require!(
        now.0 - at.0 < 16 && now.1 - at.1 < 1024,
        "leak",
        "{} rounds of the same calls left {} heap blocks and {} bytes behind",
        count,
        now.0 - at.0,
        now.1 - at.1
    );
    rt::set_serial(false);
}
