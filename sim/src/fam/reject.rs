//! C15: rejected calls leave no trace.
use super::anf::values;
use super::deriv::{point, vecd};
use super::record::{diff, snap, Snap};
use super::*;
use crate::sim::{calm, catch};
use advantage::drivers::*;
use std::sync::Mutex as RealMutex;

/// One misuse; what the numbers mean depends on the kind.
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Bad {
    k: u8,
    a: u32,
    b: u32,
    c: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Act {
    Bad(Bad),
    /// record the program on the arguments of context 0, mark its results
    Record(u32),
    /// record one expression on context 0
    Op(u8),
    Sweep(bool),
    Snapshot,
    /// reverse a sequence, form a Jacobian: the worker pool still works
    Driver(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanReject {
    /// recorded in each of two contexts before anything is rejected
    rec: Vec<(Prog, Vec<f64>)>,
    /// smooth, and with absolute values
    smooth: (Prog, Vec<f64>),
    pw: (Prog, Vec<f64>),
    links: Vec<Prog>,
    threads: Vec<Vec<Act>>,
    pool: u32,
    /// somebody uses context 0 legitimately meanwhile
    busy: bool,
    /// contexts created and dropped between the two
    #[serde(default)]
    gap: u32,
}
const NBAD: u8 = 24;
/// operations with two arguments
const COMB: [u8; 15] = [0, 1, 2, 3, 20, 21, 22, 23, 38, 44, 47, 48, 49, 51, 52];

pub fn gen(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let mk = |r: &mut Rng, class: Class, n: usize, ops: usize| {
        let x = gen_x(r, n, class);
        let g = GenCfg { n, m: r.range(1, 3), ops, class, odd_outs: true };
        (gen_prog(r, &g, &[x.clone()]), x)
    };
    let rec = (0..2)
        .map(|_| {
            let (n, ops) = (r.range(1, 3), r.range(0, 4 + 4 * big));
            let (n, ops) = (rarely(r, 60, n, 20), rarely(r, 60, ops, 50));
            mk(r, Class::Smooth, n, ops)
        })
        .collect();
    let (n, ops) = (r.range(1, 3), r.range(1, 5 + 5 * big));
    let (n, ops) = (rarely(r, 60, n, 20), rarely(r, 60, ops, 40));
    let smooth = mk(r, Class::Smooth, n, ops);
    let mut pw = mk(r, Class::Piecewise, n, ops);
    // at least one recorded absolute value
    pw.0.ops.push(Op { k: ABS, a: 0, b: 0, c: 1.0 });
    let mut links = vec![pw.0.clone()];
    let mut at = values(&pw.0, &pw.1);
    for _ in 0..r.below(3) {
        let g = GenCfg { n: at.len(), m: r.range(1, 3), ops: r.range(1, 3), class: Class::Piecewise, odd_outs: true };
        let p = gen_prog(r, &g, &[at.clone()]);
        at = values(&p, &at);
        links.push(p);
    }
    let busy = r.chance(1, 2);
    let threads = (0..r.range(1, 4))
        .map(|_| {
            (0..r.range(1, 5))
                .map(|_| {
                    let (a, b, c) = (r.below(1 << 16) as u32, r.below(1 << 16) as u32, r.below(1 << 16) as u32);
                    if r.chance(2, 3) {
                        Act::Bad(Bad { k: r.below(NBAD as usize) as u8, a, b, c })
                    } else {
                        match r.below(5) {
                            0 if busy => Act::Record(a),
                            1 if busy => Act::Op(a as u8),
                            2 => Act::Snapshot,
                            3 => Act::Driver(a as u8),
                            _ => Act::Sweep(r.chance(1, 2)),
                        }
                    }
                })
                .collect()
        })
        .collect();
    js(&PlanReject { rec, smooth, pw, links, threads, pool: if r.chance(1, 3) { r.range(1, 4) as u32 } else { 0 }, busy, gap: super::record::gen_gap(r) })
}

struct World<'a> {
    p: &'a PlanReject,
    ctx: RealMutex<[AContext; 2]>,
    cids: [usize; 2],
    /// arguments and intermediate results of the two recordings
    vars: [Vec<ADouble>; 2],
    /// of a context that is gone
    dead: ADouble,
    tape: Box<dyn Tape>,
    pw: AbsNormalTape,
    plain_pw: Box<dyn Tape>,
    legit: RealMutex<Legit>,
}
#[derive(Default)]
struct Legit {
    ops: usize,
    deps: usize,
    indeps: usize,
}
fn wrong(n: usize, b: u32) -> usize {
    let w = match b % 4 {
        0 => n + 1,
        1 => n.saturating_sub(1),
        2 => 0,
        _ => n + 3,
    };
    if w == n {
        n + 1
    } else {
        w
    }
}
fn len_vec(n: usize) -> DVector<f64> {
    DVector::from_fn(n, |i, _| 0.5 + i as f64)
}
fn len_mat(r: usize, c: usize) -> DMatrix<f64> {
    DMatrix::from_fn(r, c, |i, j| 0.5 + i as f64 - j as f64)
}
const WHAT: [&str; NBAD as usize] = [
    "set_dep with a variable of another context",
    "set_dep_slice with a variable of another context",
    "combining variables of two contexts",
    "combining single precision variables of two contexts",
    "mul_add with a variable of another context",
    "taping a function that uses a variable of another context",
    "zero_order with a wrong-sized vector",
    "zero_order of a decomposed tape with a wrong-sized vector",
    "jacobian_forward with a wrong-sized vector",
    "generalized_jacobian with a wrong-sized point",
    "generalized_jacobian with a wrong-sized direction",
    "generalized_jacobian_tape with a wrong-sized direction",
    "generalized_jacobian_chain with a wrong-sized point",
    "generalized_jacobian_chain with a wrong-sized direction",
    "generalized_jacobian with a successor of another size",
    "mul_right with a wrong-sized matrix",
    "mul_left with a wrong-sized matrix",
    "append of a link that does not fit",
    "append_boxed of a link that does not fit",
    "reverse_sequence with a budget below two",
    "generalized_jacobian_chain with a budget below two",
    "first_order_reverse over absolute values",
    "jacobian_reverse over absolute values",
    "set_dep of a single precision variable of another context",
];

fn must_fail<R>(w: &World, b: &Bad, f: impl FnOnce() -> R) {
    rt::count("fault_rejected_call");
    rt::count(WHAT[(b.k % NBAD) as usize]);
    let run = || {
        if w.p.pool != 0 && b.c & 8 != 0 {
            struct Un<T>(T);
            unsafe impl<T> Send for Un<T> {}
            let g = Un(f);
            let p = rayon::ThreadPoolBuilder::new().num_threads(w.p.pool as usize).build().unwrap();
            p.install(move || {
                let g = g;
                drop((g.0)());
            })
        } else {
            drop(f())
        }
    };
    match catch(run) {
        Err(e) => drop(e),
        Ok(()) => viol!("accepted", "{} is accepted", WHAT[(b.k % NBAD) as usize]),
    }
}
fn handle(w: &World, i: usize) -> AContext {
    match calm("looking up a context", || AContext::from_cid(w.cids[i])) {
        Some(c) => c,
        None => viol!("context-lost", "a context is not found while a handle to it exists"),
    }
}
/// a variable that does not belong to context i
fn foreign(w: &World, i: usize, a: u32) -> ADouble {
    let o = &w.vars[1 - i];
    if a % 5 == 0 {
        w.dead
    } else {
        o[a as usize % o.len()]
    }
}
fn same_tape(t: &dyn Tape, before: &Snap, what: &str) {
    let after = snap(t);
    require!(after == *before, "tape-changed", "{}: the tape changed: {}", what, quiet(|| diff(before, &after)));
}
fn misuse(w: &World, b: &Bad) {
    let k = b.k % NBAD;
    let what = WHAT[k as usize];
    let i = (b.a & 1) as usize;
    let own = w.vars[i][b.b as usize % w.vars[i].len()];
    let alien = foreign(w, i, b.c);
    let prog_fn = |p: &Prog| quiet(|| ProgFn::new(p));
    let (sp, sx) = &w.p.smooth;
    let (pp, px) = &w.p.pw;
    let x = vecd(&point(px, pp.n(), 1.0));
    let d = len_vec(pp.n());
    match k {
        0 => {
            let mut c = handle(w, i);
            must_fail(w, b, || c.set_dep(&alien));
        }
        1 => {
            let mut c = handle(w, i);
            let mut s: Vec<ADouble> = quiet(|| (0..(b.b % 4) as usize).map(|j| if (b.a >> 4) & 1 == 1 && j == 0 { ADouble::from(1.5) } else { w.vars[i][j % w.vars[i].len()] }).collect());
            let at = (b.b >> 4) as usize % (s.len() + 1);
            s.insert(at, alien);
            must_fail(w, b, || c.set_dep_slice(&s));
        }
        2 => {
            let op = COMB[(b.b >> 3) as usize % COMB.len()];
            let (l, r) = if b.a & 2 != 0 { (own, alien) } else { (alien, own) };
            must_fail(w, b, || apply(op, l, r, 1.5).value());
        }
        3 => {
            let op = COMB[(b.b >> 3) as usize % COMB.len()];
            let (l, r) = (ASingle::cast(own), ASingle::cast(alien));
            must_fail(w, b, || apply(op, l, r, 1.5).value());
        }
        4 => {
            let konst = ADouble::from(0.5);
            must_fail(w, b, || match b.b % 6 {
                0 => own.mul_add(own, alien),
                1 => own.mul_add(alien, own),
                2 => alien.mul_add(own, own),
                3 => own.mul_add(konst, alien),
                4 => konst.mul_add(own, alien),
                _ => alien.mul_add(konst, own),
            });
        }
        5 => {
            let f = quiet(|| SimpleFunction::new(1, 1, move |x: DVector<ADouble>| {
                let y = x[0].sin();
                DVector::from_element(1, if b_even(y) { y * own } else { own - y })
            }));
            must_fail(w, b, || f.tape(&len_vec(1)));
        }
        6 => {
            let f = prog_fn(sp);
            let mut t = f.tape(&vecd(&point(sx, sp.n(), 1.0)));
            let before = snap(&*t);
            must_fail(w, b, || t.zero_order(&len_vec(wrong(sp.n(), b.b))));
            same_tape(&*t, &before, what);
            calm("zero_order after a rejected one", || t.zero_order(&vecd(&point(sx, sp.n(), 1.0))));
            same_tape(&*t, &before, what);
            quiet(|| drop(f));
        }
        7 => {
            let f = prog_fn(pp);
            let mut t = AbsNormalTape::new(f.tape(&x));
            let before = snap(&t);
            let n = t.num_indeps();
            must_fail(w, b, || t.zero_order(&len_vec(wrong(n, b.b))));
            same_tape(&t, &before, what);
            quiet(|| drop(f));
        }
        8 => {
            let f = prog_fn(sp);
            must_fail(w, b, || jacobian_forward(&f, &len_vec(wrong(sp.n(), b.b))));
            quiet(|| drop(f));
        }
        9 | 10 => {
            let f = prog_fn(pp);
            let n = wrong(pp.n(), b.b);
            // sometimes the direction is as wrong as the point
            let d = if b.a & 4 == 0 { d } else { len_vec(n) };
            must_fail(w, b, || if k == 9 { generalized_jacobian(&f, &len_vec(n), &d, &[0], None) } else { generalized_jacobian(&f, &x, &len_vec(n), &[0], None) });
            quiet(|| drop(f));
        }
        11 => {
            let f = prog_fn(pp);
            let t = f.tape(&x);
            must_fail(w, b, move || generalized_jacobian_tape(t, &len_vec(wrong(pp.n(), b.b)), &[1, 2], None));
            quiet(|| drop(f));
        }
        12 | 13 | 20 => {
            let c = chain(&w.p.links);
            let n = wrong(pp.n(), b.b);
            must_fail(w, b, || match k {
                12 => generalized_jacobian_chain(&c, len_vec(n), if b.a & 4 == 0 { d.clone() } else { len_vec(n) }, budget(b.a)),
                13 => generalized_jacobian_chain(&c, x.clone(), len_vec(n), budget(b.a)),
                _ => generalized_jacobian_chain(&c, x.clone(), d.clone(), Some((b.a & 1) as usize)),
            });
            quiet(|| drop(c));
        }
        14 => {
            let f = prog_fn(pp);
            let m = pp.m();
            let r = (b.a % 3) as usize;
            let next = if b.b & 16 == 0 {
                GeneralizedJacobian { homogenous: len_mat(r, wrong(m, b.b)), inhomogenous: len_vec(r), multiplicity: 1 }
            } else {
                GeneralizedJacobian { homogenous: len_mat(r, m), inhomogenous: len_vec(wrong(r, b.b)), multiplicity: 1 }
            };
            must_fail(w, b, move || generalized_jacobian(&f, &x, &d, &[0], Some(next)));
        }
        15 | 16 => {
            let t = &w.pw;
            let before = snap(t);
            macro_rules! on {
                ($m:expr) => {{
                    let m = $m;
                    if k == 15 {
                        let bad = len_mat(wrong(m.ncols(), b.b), (b.a % 4) as usize);
                        must_fail(w, b, || m.mul_right(&bad));
                    } else {
                        let bad = len_mat((b.a % 4) as usize, wrong(m.nrows(), b.b));
                        must_fail(w, b, || m.mul_left(&bad));
                    }
                }};
            }
            match (b.c >> 4) % 4 {
                0 => on!(AbsNormalZ::new(t)),
                1 => on!(AbsNormalL::new(t)),
                2 => on!(AbsNormalJ::new(t)),
                _ => on!(AbsNormalY::new(t)),
            }
            same_tape(t, &before, what);
        }
        17 | 18 => {
            let mut c = chain(&w.p.links);
            let y0 = c.eval_float(x.clone());
            let len = c.len();
            let n = wrong(c.m(), b.b);
            let q = quiet(|| Prog { n: n as u32, ops: vec![], outs: vec![OutRef { a: 0, c: Some(1.0) }], hand: 0 });
            let g = prog_fn(&q);
            if k == 17 {
                must_fail(w, b, || c.append(g));
            } else {
                let g = Box::new(g);
                must_fail(w, b, || c.append_boxed(g));
            }
            let y1 = calm("evaluating a chain after a rejected link", || c.eval_float(x.clone()));
            require!(c.len() == len && c.m() == y0.nrows(), "chain-changed", "a rejected link changed the chain: {} links, {} results", c.len(), c.m());
            require!(same_all(y0.as_slice(), y1.as_slice()), "chain-changed", "a rejected link changed what the chain computes");
            quiet(|| drop((q, c)));
        }
        19 => {
            let steps = (b.b % 5) as usize;
            must_fail(w, b, || reverse_sequence(1.0f64, steps, (b.a & 1) as usize, |x| x + 1.0, |x, r: f64| x + r, |x| x));
        }
        21 => {
            let t = &w.plain_pw;
            let before = snap(&**t);
            must_fail(w, b, || t.first_order_reverse(&len_vec(t.num_deps())));
            same_tape(&**t, &before, what);
        }
        22 => {
            let t = &w.plain_pw;
            if t.num_deps() > 0 {
                let before = snap(&**t);
                must_fail(w, b, || jacobian_reverse(&**t));
                same_tape(&**t, &before, what);
            }
        }
        _ => {
            let mut c = handle(w, i);
            let s = ASingle::cast(alien);
            must_fail(w, b, || {
                if b.b & 4 != 0 {
                    c.set_dep(&s)
                } else {
                    c.set_dep_slice(&[s])
                }
            });
        }
    }
}
fn b_even(y: ADouble) -> bool {
    y.value() > 0.5
}
fn budget(a: u32) -> Option<usize> {
    match a % 3 {
        0 => None,
        k => Some(1 + k as usize),
    }
}
fn chain(ps: &[Prog]) -> FunctionChain {
    quiet(|| {
        let mut c = FunctionChain::new(ProgFn::new(&ps[0]));
        for p in &ps[1..] {
            c.append(ProgFn::new(p));
        }
        c
    })
}

pub fn exec(v: &Value) {
    let p: PlanReject = plan(v);
    if p.rec.len() < 2 || p.links.is_empty() || p.links[0].n() != p.pw.0.n() || p.links.windows(2).any(|w| w[0].m() != w[1].n()) || p.rec.iter().any(|r| r.0.n() == 0) {
        crate::sim::skip("bad-plan");
    }
    let first = AContext::new().cid();
    let one = AContext::new();
    super::record::burn(p.gap);
    let mut ctx = [one, AContext::new()];
    let cids = [ctx[0].cid(), ctx[1].cid()];
    let mut vars: [Vec<ADouble>; 2] = [vec![], vec![]];
    for i in 0..2 {
        let (q, x) = &p.rec[i];
        let xs: Vec<ADouble> = point(x, q.n(), 1.0).iter().map(|v| ctx[i].new_indep(*v)).collect();
        // only variables of the context
        let all = q.nodes(&xs, &|_| ());
        let own: Vec<ADouble> = quiet(|| all.iter().zip(active(q)).filter(|(_, a)| *a).map(|(v, _)| *v).collect());
        ctx[i].set_dep(own.last().unwrap());
        vars[i] = own;
        quiet(|| drop(all));
    }
    let dead = {
        let mut c = AContext::new();
        let x: ADouble = c.new_indep(0.75);
        x * 2.0
    };
    let before: Vec<Snap> = ctx.iter().map(|c| snap(&c.tape())).collect();
    let mk = |f: &(Prog, Vec<f64>)| quiet(|| ProgFn::new(&f.0)).tape(&vecd(&point(&f.1, f.0.n(), 1.0)));
    let w = World {
        p: &p,
        ctx: RealMutex::new(ctx),
        cids,
        vars,
        dead,
        tape: mk(&p.smooth),
        pw: AbsNormalTape::new(mk(&p.pw)),
        plain_pw: mk(&p.pw),
        legit: RealMutex::new(Legit::default()),
    };
    if w.plain_pw.num_abs() == 0 {
        crate::sim::skip("no-abs");
    }
    let tape_before = snap(&*w.tape);
    let (sp, sx) = &p.smooth;
    let dir = len_vec(sp.n());
    let weights = len_vec(sp.m());
    let want_f = w.tape.first_order_forward(&dir);
    let want_r = w.tape.first_order_reverse(&weights);
    let x = vecd(&point(sx, sp.n(), 1.0));
    let f = quiet(|| ProgFn::new(sp));
    let want_j = jacobian_forward(&f, &x);
    let mut tasks: Vec<Task> = vec![];
    for acts in &p.threads {
        let (w, f, x, dir, weights, want_f, want_r, want_j) = (&w, &f, &x, &dir, &weights, &want_f, &want_r, &want_j);
        tasks.push(Box::new(move || {
            for a in acts {
                match a {
                    Act::Bad(b) => misuse(w, b),
                    Act::Record(_) if w.p.busy => {
                        let mut c = handle(w, 0);
                        let (q, x0) = &w.p.rec[1];
                        calm("recording next to rejected calls", || {
                            let xs: Vec<ADouble> = point(x0, q.n(), 1.0).iter().map(|v| c.new_indep(*v)).collect();
                            let all = q.nodes(&xs, &|_| ());
                            let want = quiet(|| q.nodes(&point(x0, q.n(), 1.0).iter().map(|v| ADouble::from(*v)).collect::<Vec<_>>(), &|_| ()));
                            for (a, b) in all.iter().zip(&want) {
                                require!(same(a.value(), b.value()), "value-differs", "next to rejected calls an operation gives {} instead of {}", a.value(), b.value());
                            }
                            let ys: Vec<ADouble> = quiet(|| all.iter().zip(active(q)).filter(|(_, a)| *a).map(|(v, _)| *v).collect());
                            c.set_dep_slice(&ys);
                            let rec = &before_len(q, x0);
                            let mut l = w.legit.lock().unwrap();
                            l.ops += rec;
                            l.deps += ys.len();
                            l.indeps += q.n();
                            quiet(|| drop((all, want, ys)));
                        });
                    }
                    Act::Op(k) if w.p.busy => {
                        let v = w.vars[0][*k as usize % w.vars[0].len()];
                        let y = calm("an operation next to rejected calls", || v * v);
                        require!(same(y.value(), v.value() * v.value()), "value-differs", "next to rejected calls an operation gives {}", y.value());
                        quiet(|| w.legit.lock().unwrap().ops += 1);
                    }
                    Act::Sweep(fwd) => {
                        let (r, want) = if *fwd { (calm("a sweep", || w.tape.first_order_forward(dir)), want_f) } else { (calm("a sweep", || w.tape.first_order_reverse(weights)), want_r) };
                        require!(same_all(r.as_slice(), want.as_slice()), "sweep-differs", "a sweep next to rejected calls gives another result");
                    }
                    Act::Driver(k) => {
                        if k % 2 == 0 {
                            let j = calm("jacobian_forward", || jacobian_forward(f, x));
                            require!(same_all(j.as_slice(), want_j.as_slice()), "jacobian-differs", "a Jacobian formed next to rejected calls differs");
                        } else {
                            let j = calm("abs_normal", || abs_normal(f, x));
                            require!(same_all(j.jmat.as_slice(), want_j.as_slice()) || j.jmat.iter().zip(want_j.iter()).all(|(a, b)| (a - b).abs() <= 1e-6 * (1.0 + a.abs()) || a.is_nan()), "jacobian-differs", "an abs-normal form computed next to rejected calls differs");
                        }
                    }
                    _ => {
                        let c = handle(w, 0);
                        let t = calm("taking a tape next to rejected calls", || c.tape());
                        let _ = t.num_deps();
                    }
                }
            }
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    // contents
    let l = w.legit.lock().unwrap();
    for i in 0..2 {
        let c = handle(&w, i);
        let after = snap(&calm("taking a tape after rejected calls", || c.tape()));
        let b = &before[i];
        if i == 1 || (l.ops == 0 && l.indeps == 0) {
            require!(after == *b, "context-changed", "rejected calls changed context {}: {}", i, quiet(|| diff(b, &after)));
        } else {
            let (no, ni, nd) = (after.ops.len() - b.ops.len(), after.indeps.len() - b.indeps.len(), after.deps.len() - b.deps.len());
            require!(no == l.ops, "context-changed", "{} operations were accepted, {} are recorded", l.ops, no);
            require!(ni == l.indeps && nd == l.deps, "context-changed", "{} arguments and {} results were marked, {} and {} are recorded", l.indeps, l.deps, ni, nd);
            require!(after.ops[..b.ops.len()] == b.ops[..] && after.vals[..b.vals.len()] == b.vals[..], "context-changed", "what had been recorded before changed");
            require!(after.vals.len() - b.vals.len() == no + ni, "context-changed", "{} new values for {} operations and {} arguments", after.vals.len() - b.vals.len(), no, ni);
        }
    }
    drop(l);
    same_tape(&*w.tape, &tape_before, "after all");
    rt::set_serial(false);
    // usable for every thread
    let mut tasks: Vec<Task> = vec![];
    for t in 0..2u32 {
        let w = &w;
        tasks.push(Box::new(move || {
            for i in 0..2 {
                let mut c = handle(w, i);
                calm("using a context after rejected calls", || {
                    let v = w.vars[i][0];
                    let y = v + v * (t as f64);
                    c.set_dep(&y);
                    let z: ADouble = c.new_indep(3.0);
                    let y = z * v;
                    c.set_dep_slice(&[y, z]);
                    let tp = c.tape();
                    require!(tp.num_deps() >= 3, "unusable", "a context lost its results");
                    let r = tp.first_order_forward(&DVector::zeros(tp.num_indeps()));
                    let _ = r.nrows();
                });
            }
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    // nothing the rejected calls created is left
    let last = calm("creating a context", || AContext::new().cid());
    let burnt = cids[0] + 1..cids[0].saturating_add(p.gap as usize);
    for c in first..=last {
        if burnt.contains(&c) && !cids.contains(&c) {
            continue;
        }
        let there = calm("looking up a context", || AContext::from_cid(c).is_some());
        let want = cids.contains(&c);
        require!(there == want, if want { "context-lost" } else { "kept-alive" }, "context {} is {} after rejected calls", c, if there { "still alive" } else { "gone" });
    }
    drop(w.ctx);
    rt::set_serial(false);
    quiet(|| drop(f));
}
/// which nodes are recorded
fn active(q: &Prog) -> Vec<bool> {
    let mut a = vec![true; q.n()];
    for i in 0..q.ops.len() {
        let k = q.ops[i].k;
        let e = match (k, q.refs(i)) {
            (CONST, _) | (_, (None, _)) | (_, (_, None)) => false,
            (_, (Some(x), Some(y))) => {
                let binary = COMB.contains(&k);
                a[x] || (binary && a[y])
            }
        };
        a.push(e);
    }
    a
}
/// number of operations the program records when alone
fn before_len(q: &Prog, x: &[f64]) -> usize {
    let mut c = AContext::new();
    let xs: Vec<ADouble> = point(x, q.n(), 1.0).iter().map(|v| c.new_indep(*v)).collect();
    let all = q.nodes(&xs, &|_| ());
    quiet(|| drop(all));
    c.operations().len()
}
