//! C08 (Jacobian drivers) and C13 (sweeps over a shared tape).
use super::calls::put_snap;
use super::record::{nan, snap};
use super::*;
use crate::sim::calm;
use std::sync::{Arc as RealArc, Mutex as RealMutex};

pub fn point(v: &[f64], n: usize, fill: f64) -> Vec<f64> {
    quiet(|| (0..n).map(|i| v.get(i).cloned().unwrap_or(fill)).collect())
}
pub fn vecd(v: &[f64]) -> DVector<f64> {
    DVector::from_iterator(v.len(), v.iter().cloned())
}
pub fn bits_m(m: &DMatrix<f64>) -> Vec<u64> {
    quiet(|| {
        let mut v = vec![m.nrows() as u64, m.ncols() as u64];
        v.extend(m.iter().map(|x| nan(*x)));
        v
    })
}
pub fn bits_v(m: &DVector<f64>) -> Vec<u64> {
    quiet(|| m.iter().map(|x| nan(*x)).collect())
}

// ------------------------------------------------------------------------------------------------ C08

/// one call: 0 forward, 1 reverse on the shared tape, 2 tape and reverse, 3 reverse on a tape moved to the point,
/// 4 forward through a chain of one function
#[derive(Serialize, Deserialize, Clone, Debug)]
struct JCall {
    k: u8,
    f: u32,
    pool: u32,
    /// the function itself makes this kind of call (minus one) while it is evaluated
    #[serde(default)]
    nest: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Fun {
    prog: Prog,
    x: Vec<f64>,
    x0: Vec<f64>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanJac {
    funs: Vec<Fun>,
    threads: Vec<Vec<JCall>>,
}
pub fn gen_jac(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let funs: Vec<Fun> = (0..r.range(1, 2))
        .map(|_| {
            let wide = r.chance(1, 10);
            let huge = r.chance(1, 100);
            let giant = r.chance(1, 1500);
            let (n, m) = match r.below(3) {
                0 if giant => (r.range(200, 300), r.range(1, 5)),
                1 if giant => (r.range(1, 5), r.range(200, 300)),
                0 if huge => (r.range(20, 140), r.range(1, 10)),
                1 if huge => (r.range(1, 10), r.range(20, 140)),
                _ if huge => (r.range(20, 70), r.range(20, 70)),
                _ if wide => (r.range(9, 24 + 24 * big), r.range(1, 20)),
                _ => (r.range(0, 6), r.range(0, 6)),
            };
            let ops = if r.chance(1, 2000) {
                r.range(300, 2000)
            } else if r.chance(1, 150) {
                r.range(30, 200)
            } else { r.range(1, 10 + 15 * big) };
            let x = gen_x(r, n, Class::Smooth);
            let x0 = gen_x(r, n, Class::Smooth);
            let g = GenCfg { n, m, ops, class: Class::Smooth, odd_outs: true };
            Fun { prog: gen_prog(r, &g, &[x.clone(), x0.clone()]), x, x0 }
        })
        .collect();
    let threads = (0..r.range(1, 3))
        .map(|_| {
            (0..r.range(1, 2))
                .map(|_| JCall { k: r.below(5) as u8, f: r.below(8) as u32, pool: if r.chance(1, 4) { r.range(1, 6) as u32 } else { 0 }, nest: if r.chance(1, 8) { r.range(1, 5) as u8 } else { 0 } })
                .collect()
        })
        .collect();
    js(&PlanJac { funs, threads })
}
/// the result of the call and of the call made inside it
fn jac(c: &JCall, funs: &[Fun], tape: Option<&dyn Tape>) -> (DMatrix<f64>, Option<DMatrix<f64>>) {
    let i = c.f as usize % funs.len();
    let f = &funs[i];
    let n = f.prog.n();
    let x = vecd(&point(&f.x, n, 1.0));
    let inside = quiet(|| RealArc::new(RealMutex::new(None)));
    let g = quiet(|| {
        let mut g = ProgFn::new(&f.prog);
        if c.nest > 0 {
            let at = c.f as usize / 2;
            let (c, funs, inside) = (inner(c), funs.to_vec(), inside.clone());
            g.hook = Some(RealArc::new(move |w| {
                // before the first operation or a later one
                let here = match w {
                    Where::Enter => at == 0,
                    Where::Op(i) => at == i + 1,
                    Where::Tape(i) => at == i + 1,
                };
                if here {
                    let m = jac(&c, &funs, None).0;
                    quiet(|| *inside.lock().unwrap() = Some(m));
                }
            }));
        }
        RealArc::new(g)
    });
    let run = || match (c.k, tape) {
        (0, _) => drivers::jacobian_forward(&*g, &x),
        (1, Some(t)) => drivers::jacobian_reverse(t),
        (3, _) => {
            let mut t = g.tape(&vecd(&point(&f.x0, n, 0.5)));
            t.zero_order(&x);
            drivers::jacobian_reverse(&*t)
        }
        (4, _) => {
            let ch = FunctionChain::new(Shared(quiet(|| g.clone())));
            let r = drivers::jacobian_forward(&ch, &x);
            quiet(|| drop(ch));
            r
        }
        _ => {
            let t = g.tape(&x);
            drivers::jacobian_reverse(&*t)
        }
    };
    let out = if c.pool == 0 {
        run()
    } else {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(c.pool as usize).build().unwrap();
        pool.install(run)
    };
    quiet(|| {
        drop(g);
        let m = inside.lock().unwrap().take();
        (out, m)
    })
}
struct Shared(RealArc<ProgFn>);
impl Function for Shared {
    fn n(&self) -> usize {
        self.0.n()
    }
    fn m(&self) -> usize {
        self.0.m()
    }
    fn eval(&self, x: DVector<ADouble>) -> DVector<ADouble> {
        self.0.call(x)
    }
}
fn inner(c: &JCall) -> JCall {
    JCall { k: c.nest - 1, f: c.f.wrapping_add(1), pool: 0, nest: 0 }
}
const NAMES: [&str; 5] = ["jacobian_forward", "jacobian_reverse", "jacobian_reverse", "jacobian_reverse", "jacobian_forward"];

pub fn exec_jac(v: &Value) {
    let p: PlanJac = plan(v);
    if p.funs.is_empty() {
        crate::sim::skip("no-function");
    }
    let tapes: Vec<Box<dyn Tape>> = p
        .funs
        .iter()
        .map(|f| quiet(|| ProgFn::new(&f.prog)).tape(&vecd(&point(&f.x, f.prog.n(), 1.0))))
        .collect();
    let got: Vec<RealMutex<Vec<(DMatrix<f64>, Option<DMatrix<f64>>)>>> = quiet(|| p.threads.iter().map(|_| RealMutex::new(vec![])).collect());
    let mut tasks: Vec<Task> = vec![];
    for (cs, g) in p.threads.iter().zip(&got) {
        let (funs, tapes) = (&p.funs, &tapes);
        tasks.push(Box::new(move || {
            for c in cs {
                let i = c.f as usize % funs.len();
                let m = jac(c, funs, Some(&*tapes[i]));
                quiet(|| g.lock().unwrap().push(m));
            }
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    let refs: Vec<Option<Vec<Vec<E>>>> = quiet(|| p.funs.iter().map(|f| ref_jacobian(&f.prog, &point(&f.x, f.prog.n(), 1.0))).collect());
    for (t, (cs, g)) in p.threads.iter().zip(&got).enumerate() {
        for (c, (m, within)) in cs.iter().zip(g.lock().unwrap().iter()) {
            let i = c.f as usize % p.funs.len();
            let f = &p.funs[i];
            let what = NAMES[(c.k as usize).min(4)];
            require!(m.nrows() == f.prog.m() && m.ncols() == f.prog.n(), "dims", "{}: {}x{} matrix for {} results and {} arguments", what, m.nrows(), m.ncols(), f.prog.m(), f.prog.n());
            if let Some(j) = &refs[i] {
                rt::count("jacobians_compared");
                for col in 0..f.prog.n() {
                    for row in 0..f.prog.m() {
                        let e = &j[col][row];
                        require!(close_d(m[(row, col)], e), "jacobian", "{}: entry ({}, {}) is {:?}, the partial derivative is {:?}", what, row, col, m[(row, col)], e.d);
                    }
                }
            }
            let plain = JCall { nest: 0, ..c.clone() };
            let alone = jac(&plain, &p.funs, Some(&*tapes[i])).0;
            if bits_m(&alone) != bits_m(m) {
                viol!("schedule-dependent", "thread {}: {} gives another matrix than the same call made alone", t, what);
            }
            if let Some(w) = within {
                rt::count("nested_calls");
                let alone = jac(&inner(c), &p.funs, None).0;
                if bits_m(&alone) != bits_m(w) {
                    viol!("schedule-dependent", "thread {}: {} called by the function of {} gives another matrix than alone", t, NAMES[(c.nest as usize - 1).min(4)], what);
                }
            }
        }
    }
    rt::set_serial(false);
}

// ------------------------------------------------------------------------------------------------ C13

/// k: 0 forward, 1 reverse, 2 forward on a part of the abs-normal form, 3 reverse on one,
/// 4 forward on a short-lived tape of another function, 5 reverse on one
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Sweep {
    k: u8,
    v: Vec<f64>,
    part: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanSweep {
    prog: Prog,
    x: Vec<f64>,
    x0: Vec<f64>,
    moved: bool,
    threads: Vec<Vec<Sweep>>,
    /// other threads re-evaluate tapes of their own meanwhile
    others: Vec<Vec<Vec<f64>>>,
    /// functions of the same shape for the short-lived tapes
    #[serde(default)]
    alts: Vec<Prog>,
}
pub fn gen_sweep(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let class = *r.pick(&[Class::Smooth, Class::Smooth, Class::Piecewise, Class::Exact]);
    let giant = r.chance(1, 1500);
    let huge = giant || r.chance(1, 50);
    let most = if giant { 300 } else { 70 };
    let n = if huge { r.range(1, most) } else { r.range(0, 5) };
    let m = if huge { r.range(1, most) } else { r.range(0, 6) };
    let x = gen_x(r, n, class);
    let x0 = gen_x(r, n, class);
    let ops = if giant {
        r.range(300, 3000)
    } else if huge {
        r.range(20, 300)
    } else { r.range(1, 10 + 15 * big) };
    let g = GenCfg { n, m, ops, class, odd_outs: true };
    let mut prog = gen_prog(r, &g, &[x.clone(), x0.clone()]);
    if r.chance(1, 300) {
        lengthen(r, &mut prog);
    }
    // odd results: repeated, arguments, constants
    for i in 0..prog.outs.len() {
        if r.chance(1, 5) {
            prog.outs[i] = match r.below(3) {
                0 if i > 0 => prog.outs[r.below(i)].clone(),
                1 if n > 0 => OutRef { a: r.below(n) as u32, c: None },
                _ => OutRef { a: 0, c: Some(1.5) },
            };
        }
    }
    let own = if r.chance(1, 4) { 3 } else { 0 };
    let threads = (0..r.range(1, 4))
        .map(|_| {
            (0..if own > 0 { r.range(2, 6) } else { r.range(1, 3) })
                .map(|_| {
                    let len = 12;
                    let style = r.below(4);
                    let v = (0..len)
                        .map(|_| match style {
                            0 => r.below(2) as f64,
                            1 => r.range(0, 4) as f64 - 2.0,
                            _ => r.float(-2.0, 2.0),
                        })
                        .collect();
                    Sweep { k: r.weighted(&[4, 4, 1, 1, own, own]) as u8, v, part: r.below(4) as u8 }
                })
                .collect()
        })
        .collect();
    let others = (0..r.below(2)).map(|_| (0..r.range(1, 3)).map(|_| gen_x(r, n, class)).collect()).collect();
    let alts = (0..if own > 0 { r.range(1, 3) } else { 0 }).map(|_| reshaped(r, &prog, class, &x)).collect();
    js(&PlanSweep { prog, x, x0, moved: r.chance(1, 2), threads, others, alts })
}
/// The same number of operations of the same kinds on other operands, or a function of its own.
fn reshaped(r: &mut Rng, p: &Prog, class: Class, x: &[f64]) -> Prog {
    let mut q = p.clone();
    if class == Class::Smooth && r.chance(1, 3) || p.ops.is_empty() {
        let g = GenCfg { n: p.n(), m: p.m(), ops: p.ops.len(), class, odd_outs: true };
        return gen_prog(r, &g, &[x.to_vec()]);
    }
    for (i, o) in q.ops.iter_mut().enumerate() {
        if r.chance(1, 2) {
            o.a = r.below(p.n() + i + 1) as u32;
        }
        if r.chance(1, 2) {
            o.b = r.below(p.n() + i + 1) as u32;
        }
    }
    for o in q.outs.iter_mut() {
        if r.chance(1, 2) {
            *o = OutRef { a: (p.n() + p.ops.len() - 1 - r.below(p.ops.len())) as u32, c: None };
        }
    }
    q
}
/// the function a short-lived tape is of
fn alt<'a>(s: &Sweep, p: &'a PlanSweep) -> &'a Prog {
    match p.alts.len() {
        0 => &p.prog,
        n => &p.alts[s.part as usize % n],
    }
}
fn sweep(s: &Sweep, p: &PlanSweep, tape: &dyn Tape, abs: &drivers::AbsNormalTape) -> (DVector<f64>, DVector<f64>) {
    let arg = |n: usize| vecd(&point(&s.v, n, 0.25));
    let on = |t: &dyn Tape, fwd: bool| {
        let a = arg(if fwd { t.num_indeps() } else { t.num_deps() });
        let r = if fwd { t.first_order_forward(&a) } else { t.first_order_reverse(&a) };
        (a, r)
    };
    match s.k {
        0 => on(tape, true),
        1 => on(tape, false),
        4 | 5 => {
            let f = quiet(|| ProgFn::new(alt(s, p)));
            let t = f.tape(&vecd(&point(&p.x, f.n(), 1.0)));
            let r = on(&*t, s.k == 4 || f.p.has_abs());
            drop(t);
            quiet(|| drop(f));
            r
        }
        k => match s.part {
            0 => on(&drivers::AbsNormalZ::new(abs), k == 2),
            1 => on(&drivers::AbsNormalL::new(abs), k == 2),
            2 => on(&drivers::AbsNormalJ::new(abs), k == 2),
            _ => on(&drivers::AbsNormalY::new(abs), k == 2),
        },
    }
}
pub fn exec_sweep(v: &Value) {
    let mut p: PlanSweep = plan(v);
    let n = p.prog.n();
    let x = point(&p.x, n, 1.0);
    let x0 = point(&p.x0, n, 0.5);
    let f = quiet(|| ProgFn::new(&p.prog));
    let mk = |a: &[f64]| f.tape(&vecd(a));
    let mut tape = mk(if p.moved { &x0 } else { &x });
    if p.moved {
        calm("zero_order", || tape.zero_order(&vecd(&x)));
    }
    let has_abs = tape.num_abs() > 0;
    let abs = drivers::AbsNormalTape::new(mk(&x));
    let before = snap(&*tape);
    // sweeps over absolute values exist only forward
    quiet(|| {
        for s in p.threads.iter_mut().flatten() {
            if has_abs && s.k == 1 {
                s.k = 0;
            }
        }
    });
    let p = &p;
    let got: Vec<RealMutex<Vec<(DVector<f64>, DVector<f64>)>>> = quiet(|| p.threads.iter().map(|_| RealMutex::new(vec![])).collect());
    let mut tasks: Vec<Task> = vec![];
    for (ss, g) in p.threads.iter().zip(&got) {
        let (tape, abs) = (&tape, &abs);
        tasks.push(Box::new(move || {
            for s in ss {
                let r = sweep(s, p, &**tape, abs);
                quiet(|| g.lock().unwrap().push(r));
            }
        }));
    }
    for o in &p.others {
        let mk = &mk;
        let x = &x;
        tasks.push(Box::new(move || {
            let mut t = mk(x);
            for y in o {
                t.zero_order(&vecd(&point(y, n, 1.0)));
                let d = t.first_order_forward(&DVector::from_element(n, 1.0));
                let _ = d.nrows();
            }
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    let after = snap(&*tape);
    require!(after == before, "changed", "derivative sweeps changed the tape");
    let jac = quiet(|| if p.prog.has_abs() { None } else { ref_jacobian(&p.prog, &x) });
    for (t, (ss, g)) in p.threads.iter().zip(&got).enumerate() {
        for (s, (a, r)) in ss.iter().zip(g.lock().unwrap().iter()) {
            let alone = sweep(s, p, &*tape, &abs);
            require!(bits_v(&alone.1) == bits_v(r), "schedule-dependent", "thread {}: a sweep (kind {}) gives {:?}, alone it gives {:?}", t, s.k, r.as_slice(), alone.1.as_slice());
            quiet(|| {
                let own = s.k >= 4;
                let prog = if own { alt(s, p) } else { &p.prog };
                let fwd = s.k == 0 || (own && (s.k == 4 || prog.has_abs()));
                if fwd {
                    require!(r.nrows() == prog.m(), "dims", "forward sweep gives {} numbers for {} results", r.nrows(), prog.m());
                    let mut rf = Ref::new(EPS, AbsMode::Increment);
                    let xs: Vec<E> = x.iter().zip(a.iter()).map(|(v, d)| rf.x(*v, *d)).collect();
                    let e = rf.eval(prog, &xs);
                    if rf.ok && e.iter().all(|e| e.ed <= 1e-3 * (1.0 + e.m)) {
                        rt::count("forward_compared");
                        for i in 0..e.len() {
                            require!(close_d(r[i], &e[i]), "forward", "forward sweep along {:?}: result {} is {:?}, expected {:?}", a.as_slice(), i, r[i], e[i].d);
                        }
                    }
                }
                if s.k == 1 || (own && !fwd) {
                    require!(r.nrows() == n, "dims", "reverse sweep gives {} numbers for {} arguments", r.nrows(), n);
                    let j = if own { &quiet(|| ref_jacobian(prog, &x)) } else { &jac };
                    if let Some(j) = j {
                        rt::count("reverse_compared");
                        for col in 0..n {
                            let (mut want, mut err) = (0.0, 1e-13);
                            for i in 0..prog.m() {
                                want += a[i] * j[col][i].d;
                                err += a[i].abs() * (8.0 * j[col][i].ed + 256.0 * EPS * (1.0 + j[col][i].m));
                            }
                            require!((r[col] - want).abs() <= err, "reverse", "reverse sweep with weights {:?}: argument {} gets {:?}, expected {:?}", a.as_slice(), col, r[col], want);
                        }
                        // adjoint identity with the all-ones direction
                        if own {
                            return;
                        }
                        let d = DVector::from_element(n, 1.0);
                        let dy = tape.first_order_forward(&d);
                        let lhs: f64 = (0..p.prog.m()).map(|i| a[i] * dy[i]).sum();
                        let rhs: f64 = r.iter().sum();
                        let mut err = 1e-13;
                        for col in 0..n {
                            for i in 0..p.prog.m() {
                                err += a[i].abs() * (16.0 * j[col][i].ed + 512.0 * EPS * (1.0 + j[col][i].m));
                            }
                        }
                        require!((lhs - rhs).abs() <= err, "adjoint", "weights times forward sweep is {:?}, reverse sweep times direction is {:?}", lhs, rhs);
                    }
                }
            });
        }
    }
    let mut b = vec![];
    put_snap(&mut b, &*tape);
    rt::set_serial(false);
    quiet(|| drop(f));
}
