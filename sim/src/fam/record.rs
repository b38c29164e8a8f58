//! C02, C03, C12: recording while other threads record.
use super::*;
use crate::sim::calm;
use std::collections::HashMap;
use std::sync::Mutex as RealMutex;

#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub indeps: Vec<usize>,
    pub deps: Vec<usize>,
    pub ops: Vec<Operation>,
    pub vals: Vec<u64>,
}
pub fn snap(t: &dyn Tape) -> Snap {
    let ops: Vec<Operation> = t.ops_iter().collect();
    let said = (t.num_indeps(), t.num_deps(), t.num_abs(), t.max_id());
    quiet(|| {
        let is = (
            t.indeps().len(),
            t.deps().len(),
            ops.iter().filter(|o| o.opcode == OpCode::Abs).count(),
            t.indeps().iter().chain(t.deps()).cloned().chain(ops.iter().map(|o| o.vid)).max().unwrap_or(0),
        );
        require!(said == is, "inconsistent", "a tape says that its numbers of arguments, results and absolute values and its last index are {:?}, its content says {:?}", said, is);
    });
    quiet(|| Snap {
        indeps: t.indeps().to_vec(),
        deps: t.deps().to_vec(),
        ops: ops.clone(),
        vals: t.values().iter().map(|v| nan(*v)).collect(),
    })
}
pub fn diff(a: &Snap, b: &Snap) -> String {
    if a.indeps != b.indeps {
        return format!("arguments {:?} / {:?}", a.indeps, b.indeps);
    }
    if a.deps != b.deps {
        return format!("results {:?} / {:?}", a.deps, b.deps);
    }
    if a.ops.len() != b.ops.len() {
        return format!("{} / {} operations", a.ops.len(), b.ops.len());
    }
    for (i, (x, y)) in a.ops.iter().zip(&b.ops).enumerate() {
        if x != y {
            return format!("operation {}: {:?} / {:?}", i, x, y);
        }
    }
    if a.vals.len() != b.vals.len() {
        return format!("{} / {} values", a.vals.len(), b.vals.len());
    }
    for (i, (x, y)) in a.vals.iter().zip(&b.vals).enumerate() {
        if x != y {
            return format!("value {}: {:?} / {:?}", i, f64::from_bits(*x), f64::from_bits(*y));
        }
    }
    "none".into()
}

// ------------------------------------------------------------------------------------------------ C02

#[derive(Serialize, Deserialize, Clone, Debug)]
struct W {
    prog: Prog,
    x: Vec<f64>,
    mode: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Act {
    k: u8,
    a: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanPrivate {
    pre: u32,
    workers: Vec<W>,
    noise: Vec<Vec<Act>>,
    /// also compare with the same recordings made in a process in which nothing else has happened
    #[serde(default)]
    fresh: bool,
    /// this many contexts come and go just before a recording begins, so that numbers of contexts lie far apart
    #[serde(default)]
    gap: u32,
}
/// Distances between the numbers of two contexts
pub fn gen_gap(r: &mut Rng) -> u32 {
    if r.chance(1, 100) {
        *r.pick(&[254, 255, 256, 65534, 65535, 65536])
    } else { 0 }
}
/// Contexts that come and go, at once
pub fn burn(gap: u32) {
    if gap > 0 {
        rt::count("context_number_gaps");
        rt::set_serial(true);
        (0..gap).for_each(|_| drop(AContext::new()));
        rt::set_serial(false);
    }
}

pub fn gen_private(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let giant = r.chance(1, 1500);
    let huge = giant || r.chance(1, 40);
    let nw = if giant {
        1
    } else if huge { r.range(1, 6) } else { r.range(1, 3 + big) };
    let odd = r.chance(1, 6);
    let workers = (0..nw)
        .map(|_| {
            let n = if huge { r.range(1, 40) } else { r.range(0, 3) };
            let class = if r.chance(1, 3) { Class::Piecewise } else { Class::Smooth };
            let mut x = gen_x(r, n, class);
            let ops = match (giant, huge) {
                (true, _) => r.range(300, 3000),
                (_, true) => r.range(20, 160),
                _ => r.range(1, 7 + 10 * big),
            };
            let m = if huge { r.range(1, 40) } else { r.range(0, 3) };
            let g = GenCfg { n, m, ops, class, odd_outs: true };
            let mut prog = gen_prog(r, &g, &[x.clone()]);
            if odd {
                wild(r, &mut prog, &mut x);
            }
            W { prog, x, mode: r.below(6) as u8 }
        })
        .collect();
    let nn = r.range(if nw == 1 { 1 } else { 0 }, 2);
    let noise = (0..nn)
        .map(|_| (0..r.range(1, 8)).map(|_| Act { k: r.below(8) as u8, a: r.below(100) as u32 }).collect())
        .collect();
    let usual = r.below(3);
    js(&PlanPrivate { pre: rarely(r, 40, usual, 10 + 60 * usual) as u32, workers, noise, fresh: r.chance(1, 4), gap: if giant { 0 } else { gen_gap(r) } })
}

pub struct Recorded {
    pub snap: Snap,
    /// value and first-order value of every node, as bits
    pub nodes: Vec<(u64, u64)>,
}
pub fn bits(v: &[ADouble]) -> Vec<(u64, u64)> {
    quiet(|| v.iter().map(|a| (nan(a.value()), nan(a.dvalue()))).collect())
}
pub fn nan(v: f64) -> u64 {
    if v.is_nan() {
        f64::NAN.to_bits()
    } else {
        v.to_bits()
    }
}

/// Records the program once, in one of several ways.
fn record(w: &W, publish: &dyn Fn(usize)) -> Recorded {
    let n = w.prog.n();
    let x: Vec<f64> = quiet(|| (0..n).map(|i| w.x.get(i).cloned().unwrap_or(1.0)).collect());
    let dx = quiet(|| DVector::from_vec(x.clone()));
    match w.mode {
        0 | 1 | 5 => {
            let mut ctx = AContext::new();
            publish(ctx.cid());
            let xs: Vec<ADouble> = if w.mode == 1 {
                let mut v = ctx.new_indep_vec(n, 0.0);
                // new_indep_vec gives every argument the same value; use it and then overwrite nothing
                for (a, b) in v.iter_mut().zip(&x) {
                    if *b == 0.0 {
                        *a = ADouble::new(*b, 0.0);
                        ctx.set_indep(a);
                    }
                }
                v
            } else {
                x.iter().map(|v| ctx.new_indep(*v)).collect()
            };
            let nodes = w.prog.nodes(&xs, &|_| ());
            let outs = pick_outs(&w.prog, &nodes);
            if w.mode == 5 {
                ctx.set_dep_slice(&outs);
            } else {
                for o in &outs {
                    ctx.set_dep(o);
                }
            }
            let t = ctx.tape();
            let out = Recorded { snap: snap(&t), nodes: bits(&nodes) };
            drop(t);
            drop(ctx);
            out
        }
        2 => {
            let f = ProgFn::new(&w.prog);
            let t = f.tape(&dx);
            Recorded { snap: snap(&*t), nodes: vec![] }
        }
        3 => {
            let f = simple(&w.prog);
            let t = f.tape(&dx);
            Recorded { snap: snap(&*t), nodes: vec![] }
        }
        _ => {
            let mut ctx = AContext::new();
            publish(ctx.cid());
            let xs: Vec<AFloat<f32>> = x.iter().map(|v| ctx.new_indep(*v as f32)).collect();
            let nodes = w.prog.nodes(&xs, &|_| ());
            let outs = pick_outs(&w.prog, &nodes);
            for o in &outs {
                ctx.set_dep(o);
            }
            let t = ctx.tape();
            let nodes = quiet(|| nodes.iter().map(|a| (nan(a.value() as f64), nan(a.dvalue() as f64))).collect());
            Recorded { snap: snap(&t), nodes }
        }
    }
}
pub fn pick_outs<F: Num>(p: &Prog, nodes: &[F]) -> Vec<F> {
    quiet(|| {
        p.outs
            .iter()
            .map(|o| match p.out_node(o) {
                Some(i) => nodes[i],
                None => cst(p.out_const(o)),
            })
            .collect()
    })
}

pub fn noise(acts: &[(u8, u32)], known: &RealMutex<Vec<usize>>) {
    let mut mine: Vec<AContext> = vec![];
    let mut vars: Vec<ADouble> = vec![];
    for (k, a) in acts {
        let a = *a as usize;
        match k {
            0 => drop(AContext::new()),
            1 => {
                let mut c = AContext::new();
                vars.push(c.new_indep(a as f64));
                mine.push(c);
            }
            2 => {
                if !vars.is_empty() {
                    let x = vars[a % vars.len()];
                    let y = x * x + 1.0;
                    vars.push(y);
                }
            }
            3 => {
                if !mine.is_empty() {
                    let i = a % mine.len();
                    let t = mine[i].tape();
                    let _ = t.values().len();
                }
            }
            4 => {
                if !mine.is_empty() {
                    let i = a % mine.len();
                    mine.remove(i);
                }
            }
            5 => {
                // hold a handle to somebody's context for a moment, and look at it
                let cid = quiet(|| {
                    let k = known.lock().unwrap();
                    if k.is_empty() {
                        1
                    } else {
                        k[a % k.len()]
                    }
                });
                if let Some(c) = AContext::from_cid(cid) {
                    let _ = c.values().len() + c.operations().len() + c.indeps().len() + c.deps().len();
                }
            }
            6 => {
                let _ = AContext::from_cid(a);
            }
            _ => {
                if !vars.is_empty() && !mine.is_empty() {
                    let i = a % mine.len();
                    let mut v = ADouble::new(1.0, 0.0);
                    mine[i].set_indep(&mut v);
                    let y = v.sin();
                    mine[i].set_dep(&y);
                }
            }
        }
    }
}

pub fn exec_private(v: &Value) {
    let p: PlanPrivate = plan(v);
    let apart: Vec<Vec<u64>> =
        if p.fresh { p.workers.iter().map(|w| crate::sim::fresh(|| words(&record(w, &|_| ())))).collect() } else { vec![] };
    let known = RealMutex::new(vec![]);
    let pre: Vec<AContext> = (0..p.pre).map(|_| AContext::new()).collect();
    let results: Vec<RealMutex<Option<Recorded>>> = quiet(|| p.workers.iter().map(|_| RealMutex::new(None)).collect());
    let acts: Vec<Vec<(u8, u32)>> = quiet(|| p.noise.iter().map(|a| a.iter().map(|a| (a.k, a.a)).collect()).collect());
    let mut tasks: Vec<Task> = vec![];
    for (i, (w, r)) in p.workers.iter().zip(&results).enumerate() {
        let known = &known;
        let gap = if i > 0 { p.gap } else { 0 };
        tasks.push(Box::new(move || {
            burn(gap);
            let out = record(w, &|c| quiet(|| known.lock().unwrap().push(c)));
            quiet(|| *r.lock().unwrap() = Some(out));
        }));
    }
    for a in &acts {
        let known = &known;
        tasks.push(Box::new(move || noise(a, known)));
    }
    run_threads(tasks);
    drop(pre);
    rt::set_serial(true);
    for (i, (w, r)) in p.workers.iter().zip(&results).enumerate() {
        let alone = record(w, &|_| ());
        let got = r.lock().unwrap().take().unwrap();
        if got.snap != alone.snap {
            viol!("tape-differs", "recording {} (way {}) differs from the same recording made alone: {}", i, w.mode, diff(&got.snap, &alone.snap));
        }
        require!(got.nodes == alone.nodes, "value-differs", "a value of recording {} differs from the same recording made alone", i);
        if p.fresh {
            rt::count("recordings_compared_with_a_fresh_process");
            require!(words(&got) == apart[i], "tape-differs", "recording {} (way {}) differs from the same recording made in a process of its own", i, w.mode);
        }
    }
    rt::set_serial(false);
}
fn words(r: &Recorded) -> Vec<u64> {
    quiet(|| {
        let mut w: Vec<u64> = vec![r.snap.ops.len() as u64, r.snap.vals.len() as u64];
        w.extend(r.snap.vals.iter().chain(r.nodes.iter().flat_map(|(a, b)| [a, b])));
        let ids = r.snap.indeps.iter().chain(&r.snap.deps).map(|i| *i as u64);
        w.extend(ids.chain(r.snap.ops.iter().flat_map(|o| [o.opcode as u64, o.vid as u64, o.arg1.map_or(0, |a| a as u64 + 1), o.arg2.map_or(0, |a| a as u64 + 1)])));
        w
    })
}

// ------------------------------------------------------------------------------------------------ C12

#[derive(Serialize, Deserialize, Clone, Debug)]
struct WT {
    prog: Prog,
    x: Vec<f64>,
    d: Vec<f64>,
    xs: Vec<Vec<f64>>,
    /// 0 double, 1 single, 2 nested, 3 nested and recorded at both levels
    mode: u8,
    share: bool,
    /// both levels are recorded by one context
    #[serde(default)]
    both: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanTransparent {
    workers: Vec<WT>,
    noise: Vec<Vec<Act>>,
}
pub fn gen_transparent(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let giant = r.chance(1, 1500);
    let nw = if giant { 1 } else { r.range(1, 3) };
    let huge = giant || r.chance(1, 60);
    let workers = (0..nw)
        .map(|_| {
            let n = if huge { r.range(1, 30) } else { r.range(1, 4) };
            let class = *r.pick(&[Class::Smooth, Class::Smooth, Class::Piecewise, Class::Exact]);
            let x = gen_x(r, n, class);
            let xs: Vec<Vec<f64>> = (0..r.range(1, 3)).map(|_| gen_x(r, n, class)).collect();
            let mut pts = xs.clone();
            pts.push(x.clone());
            let ops = match (giant, huge) {
                (true, _) => r.range(300, 3000),
                (_, true) => r.range(20, 150),
                _ => r.range(1, 9 + 16 * big),
            };
            let g = GenCfg { n, m: r.range(1, 4), ops, class, odd_outs: true };
            let mut prog = gen_prog(r, &g, &pts);
            if r.chance(1, 600) {
                lengthen(r, &mut prog);
            }
            // positive difference: not part of the reference, but replaying it is
            if class != Class::Exact && !prog.ops.is_empty() && r.chance(1, 6) {
                let i = r.below(prog.ops.len());
                if prog.ops[i].k < 3 {
                    prog.ops[i].k = 49;
                }
            }
            let d = (0..n).map(|_| r.float(-1.0, 1.0)).map(|v| (v as f32) as f64).collect();
            let mut xs = xs;
            if r.chance(1, 3) {
                // wild points in between must not leave anything behind
                let mut wild = x.clone();
                let i = r.below(n);
                wild[i] = *r.pick(&[f64::NAN, f64::INFINITY, 0.0, -1.0e300]);
                if wild[i].is_finite() {
                    let at = r.below(xs.len() + 1);
                    xs.insert(at, wild);
                }
            }
            xs.push(x.clone());
            let mut x = x;
            if r.chance(1, 5) {
                wild(r, &mut prog, &mut x);
                xs.push(x.clone());
            }
            if r.chance(1, 12) {
                twins(r, &mut prog);
            }
            WT { prog, x, d, xs, mode: r.weighted(&[6, 2, 1, 2]) as u8, share: r.chance(1, 4), both: r.chance(1, 3) }
        })
        .collect();
    let noise = (0..r.range(0, 2))
        .map(|_| (0..r.range(1, 6)).map(|_| Act { k: r.below(8) as u8, a: r.below(100) as u32 }).collect())
        .collect();
    js(&PlanTransparent { workers, noise })
}

trait Wrap: Float + std::fmt::Debug {
    fn wrap(v: f64, d: f64) -> Self;
    fn flat(self) -> Vec<u64>;
    fn main(self) -> f64;
}
impl Wrap for f64 {
    fn wrap(v: f64, _d: f64) -> f64 {
        v
    }
    fn flat(self) -> Vec<u64> {
        vec![nan(self)]
    }
    fn main(self) -> f64 {
        self
    }
}
impl Wrap for f32 {
    fn wrap(v: f64, _d: f64) -> f32 {
        v as f32
    }
    fn flat(self) -> Vec<u64> {
        vec![nan(self as f64)]
    }
    fn main(self) -> f64 {
        self as f64
    }
}
impl Wrap for AFloat<f64> {
    fn wrap(v: f64, d: f64) -> Self {
        AFloat::new(v, d)
    }
    fn flat(self) -> Vec<u64> {
        vec![nan(self.value()), nan(self.dvalue())]
    }
    fn main(self) -> f64 {
        self.value()
    }
}

fn transparent<S: Wrap>(w: &WT, ctx: Option<&mut AContext>, eps: f64) {
    let n = w.prog.n();
    let get = |v: &Vec<f64>, i: usize| v.get(i).cloned().unwrap_or(1.0);
    let plain: Vec<AFloat<S>> = quiet(|| {
        (0..n).map(|i| AFloat::new(S::wrap(get(&w.x, i), get(&w.d, i)), S::wrap(get(&w.d, i), 0.5))).collect()
    });
    let mut own = None;
    let shared = ctx.is_some();
    let ctx = match ctx {
        Some(c) => c,
        None => own.insert(AContext::new()),
    };
    let mut vars = plain.clone();
    for v in vars.iter_mut() {
        ctx.set_indep(v);
    }
    if !shared && n % 2 == 0 {
        // arguments made by the context are the numbers given, without a direction
        let mut c = AContext::new();
        let v = S::wrap(get(&w.x, 0), get(&w.d, 0));
        let mut made: Vec<AFloat<S>> = c.new_indep_vec(n, v);
        made.push(c.new_indep(v));
        require!(made.len() == n + 1, "count", "new_indep_vec of length {} gives {} arguments", n, made.len() - 1);
        for a in &made {
            require!(a.value().flat() == v.flat() && a.dvalue().flat() == S::zero().flat(), "value-differs", "a new argument of value {:?} is {:?} with first-order value {:?}", v, a.value(), a.dvalue());
        }
        quiet(|| drop(made));
    }
    let nodes = w.prog.nodes(&vars, &|_| ());
    let bare = w.prog.nodes(&plain, &|_| ());
    quiet(|| {
        for (i, (a, b)) in nodes.iter().zip(&bare).enumerate() {
            let what = if i < n { "argument" } else { KINDS[(w.prog.ops[i - n].k as usize).min(NK - 1)] };
            require!(a.value().flat() == b.value().flat(), "value-differs", "node {} ({}): recorded value {:?}, without recording {:?}", i, what, a.value(), b.value());
            require!(a.dvalue().flat() == b.dvalue().flat(), "dvalue-differs", "node {} ({}): recorded first-order value {:?}, without recording {:?}", i, what, a.dvalue(), b.dvalue());
        }
    });
    quiet(|| {
        // and they are those of the function, and its derivative
        let mut r = Ref::new(eps, AbsMode::Smooth);
        let xs: Vec<E> = (0..n).map(|i| r.x(get(&w.x, i), get(&w.d, i))).collect();
        let odd = |v: f64| v != 0.0 && !(1e-3..1e3).contains(&v.abs());
        let single = eps > 1e-10 && (xs.iter().any(|v| odd(v.v)) || w.prog.ops.iter().any(|o| odd(o.c)));
        let want = r.nodes(&w.prog, &xs);
        if r.ok && !single && !want.iter().any(|e| e.ev > 1e-2 * (1.0 + e.v.abs()) || e.ed > 1e-2 * (1.0 + e.m)) {
            let smooth = !w.prog.has_abs();
            for (i, (a, e)) in bare.iter().zip(&want).enumerate() {
                let what = if i < n { "argument" } else { KINDS[(w.prog.ops[i - n].k as usize).min(NK - 1)] };
                require!(close_v(a.value().main(), e), "function", "node {} ({}) has the value {:?}, the function {:?}", i, what, a.value(), e.v);
                require!(!smooth || close_d(a.dvalue().main(), e), "function", "node {} ({}) has the first-order value {:?}, the function {:?}", i, what, a.dvalue(), e.d);
            }
            rt::count("compared_with_the_function");
        }
    });
    if shared {
        return;
    }
    let recorded = ctx.operations().len();
    for (i, a) in nodes.iter().enumerate().rev().take(24) {
        like(*a, nodes[(i * 7 + 1) % nodes.len()], i);
    }
    constants::<S>(nodes.len());
    require!(ctx.operations().len() == recorded, "count", "comparing, classifying and converting numbers recorded {} operations", ctx.operations().len() - recorded);
    let outs = pick_outs(&w.prog, &nodes);
    for o in &outs {
        ctx.set_dep(o);
    }
    let mut t = ctx.tape();
    drop(own);
    replay_check(w, &mut t, &|x| quiet(|| {
        let v: Vec<AFloat<S>> = (0..n).map(|i| AFloat::new(S::wrap(get(x, i), get(&w.d, i)), S::wrap(0.0, 0.0))).collect();
        let ns = w.prog.nodes(&v, &|_| ());
        pick_outs(&w.prog, &ns).iter().map(|a| a.value().main()).collect()
    }), eps);
}
/// A recorded number compares, classifies and converts like its value.
fn like<S: Wrap>(a: AFloat<S>, b: AFloat<S>, i: usize) {
    use num_traits::{One, ToPrimitive, Zero};
    let (x, y) = (a.value(), b.value());
    macro_rules! alike {
        ($($what:literal: $l:expr, $r:expr;)*) => {
            $({
                let (l, r) = ($l, $r);
                require!(l == r, "predicate", "node {} of value {:?} (other {:?}): {} is {:?}, of its value {:?}", i, a, b, $what, l, r);
            })*
        };
    }
    alike! {
        "==": a == b, x == y;
        "== itself": a.eq(&a), x.eq(&x);
        "!=": a != b, x != y;
        "<": a < b, x < y;
        "<=": a <= b, x <= y;
        ">": a > b, x > y;
        ">=": a >= b, x >= y;
        "partial_cmp": a.partial_cmp(&b), x.partial_cmp(&y);
        "is_zero": a.is_zero(), x.is_zero();
        "is_one": a.is_one(), x.is_one();
        "is_nan": a.is_nan(), x.is_nan();
        "is_infinite": a.is_infinite(), x.is_infinite();
        "is_finite": a.is_finite(), x.is_finite();
        "is_normal": a.is_normal(), x.is_normal();
        "is_sign_positive": a.is_sign_positive(), x.is_sign_positive();
        "is_sign_negative": a.is_sign_negative(), x.is_sign_negative();
        "classify": a.classify(), x.classify();
        "integer_decode": a.integer_decode(), x.integer_decode();
        "to_i64": a.to_i64(), x.to_i64();
        "to_u64": a.to_u64(), x.to_u64();
        "to_i32": a.to_i32(), x.to_i32();
        "to_u8": a.to_u8(), x.to_u8();
        "to_usize": a.to_usize(), x.to_usize();
        "to_f32": a.to_f32().map(|v| nan(v as f64)), x.to_f32().map(|v| nan(v as f64));
        "to_f64": a.to_f64().map(nan), x.to_f64().map(nan);
    }
}
/// Constants are those of the number type, without a direction.
fn constants<S: Wrap>(i: usize) {
    let strings = ["2.5", "-1", "0", "1e3", "110", "x", "", "-0.25"];
    let (s, radix) = (strings[i % strings.len()], [10, 10, 2][i % 3]);
    let v = [0.0, 1.0, -2.5, 1e300, f64::NAN, f64::INFINITY][i % 6];
    let read = <AFloat<S> as num_traits::Num>::from_str_radix(s, radix).ok();
    let want = S::from_str_radix(s, radix).ok();
    require!(read.is_some() == want.is_some(), "constant", "{:?} in base {} read as {:?} instead of {:?}", s, radix, read, want);
    let zero = S::zero().flat();
    macro_rules! alike {
        ($($what:expr, $l:expr, $r:expr;)*) => {
            $({
                let (l, r): (AFloat<S>, S) = ($l, $r);
                require!(l.value().flat() == r.flat(), "constant", "the constant {} is {:?} instead of {:?}", $what, l.value(), r);
                require!(l.dvalue().flat() == zero, "constant", "the constant {} has the first-order value {:?}", $what, l.dvalue());
            })*
        };
    }
    if let (Some(a), Some(b)) = (read, want) {
        alike! { s, a, b; }
    }
    alike! {
        "zero", num_traits::Zero::zero(), S::zero();
        "one", num_traits::One::one(), S::one();
        "nan", Float::nan(), S::nan();
        "infinity", Float::infinity(), S::infinity();
        "neg_infinity", Float::neg_infinity(), S::neg_infinity();
        "neg_zero", Float::neg_zero(), S::neg_zero();
        "min_value", Float::min_value(), S::min_value();
        "max_value", Float::max_value(), S::max_value();
        "min_positive_value", Float::min_positive_value(), S::min_positive_value();
        "epsilon", Float::epsilon(), S::epsilon();
        v, <AFloat<S> as From<S>>::from(S::wrap(v, 0.75)), S::wrap(v, 0.75);
        v, <AFloat<S> as num_traits::NumCast>::from(v).unwrap(), <S as num_traits::NumCast>::from(v).unwrap();
        i, <AFloat<S> as num_traits::NumCast>::from(i).unwrap(), <S as num_traits::NumCast>::from(i).unwrap();
    }
}
/// Numbers over recorded numbers: the derivative that the outer ones compute is recorded by the inner ones, whose tape is
/// the tangent program (x, dx) -> (y, dy); its sweeps are second derivatives.
fn recorded_derivative(w: &WT, outer: Option<AContext>) {
    type D = AFloat<f64>;
    let n = w.prog.n();
    let get = |v: &Vec<f64>, i: usize| v.get(i).cloned().unwrap_or(1.0);
    let eval = |x: &dyn Fn(usize) -> D, d: &dyn Fn(usize) -> D| -> Vec<AFloat<D>> {
        let v: Vec<AFloat<D>> = (0..n).map(|i| AFloat::new(x(i), d(i))).collect();
        w.prog.nodes(&v, &|_| ())
    };
    let shared = outer.is_some();
    let mut outer = outer.unwrap_or_else(AContext::new);
    let mut inner = if w.both { AContext::from_cid(outer.cid()).unwrap() } else { AContext::new() };
    let mut x: Vec<D> = (0..n).map(|i| AFloat::new(get(&w.x, i), 0.25)).collect();
    let mut dx: Vec<D> = (0..n).map(|i| AFloat::new(get(&w.d, i), 0.5)).collect();
    let (px, pdx) = (x.clone(), dx.clone());
    for v in x.iter_mut().chain(dx.iter_mut()) {
        inner.set_indep(v);
    }
    let mut vars: Vec<AFloat<D>> = (0..n).map(|i| AFloat::new(x[i], dx[i])).collect();
    for v in vars.iter_mut() {
        outer.set_indep(v);
    }
    let nodes = w.prog.nodes(&vars, &|_| ());
    let bare = eval(&|i| px[i], &|i| pdx[i]);
    quiet(|| {
        for (i, (a, b)) in nodes.iter().zip(&bare).enumerate() {
            let what = if i < n { "argument" } else { KINDS[(w.prog.ops[i - n].k as usize).min(NK - 1)] };
            require!(a.value().flat() == b.value().flat(), "value-differs", "nested node {} ({}): recorded value {:?}, without recording {:?}", i, what, a.value(), b.value());
            require!(a.dvalue().flat() == b.dvalue().flat(), "dvalue-differs", "nested node {} ({}): recorded first-order value {:?}, without recording {:?}", i, what, a.dvalue(), b.dvalue());
        }
    });
    if shared {
        return;
    }
    for o in pick_outs(&w.prog, &nodes) {
        inner.set_dep(&o.value());
        inner.set_dep(&o.dvalue());
    }
    let mut t = inner.tape();
    drop((inner, outer));
    let flat = |ns: &[AFloat<D>], f: &dyn Fn(&D) -> f64| -> Vec<f64> {
        pick_outs(&w.prog, ns).iter().flat_map(|o| vec![f(&o.value()), f(&o.dvalue())]).collect()
    };
    let first = flat(&bare, &|v| v.value());
    require!(same_all(t.y().as_slice(), &first), "replay", "the results of the recorded derivative are {:?} instead of {:?}", t.y().as_slice(), first);
    for (k, at) in w.xs.iter().enumerate() {
        let scale = [1.0, 0.5, -2.0][k % 3];
        let xv = |i: usize| get(at, i);
        let dv = |i: usize| get(&w.d, i) * scale;
        let dir = |i: usize| get(&w.d, (i * 7 + k) % (2 * n).max(1));
        let args: Vec<f64> = quiet(|| {
            let v: Vec<f64> = (0..n).map(xv).chain((0..n).map(dv)).collect();
            if w.both { v.iter().chain(&v[..n]).cloned().collect() } else { v }
        });
        calm("zero_order", || t.zero_order(&DVector::from_vec(args)));
        let want = quiet(|| eval(&|i| AFloat::new(xv(i), dir(i)), &|i| AFloat::new(dv(i), dir(n + i))));
        // powers take another way where a first-order value is zero
        let like = quiet(|| want.iter().zip(&bare).all(|(a, b)| (a.dvalue().value() == 0.0) == (b.dvalue().value() == 0.0)));
        if !like {
            continue;
        }
        let got = t.y();
        let ddir: Vec<f64> = quiet(|| (0..n).map(dir).chain((0..n).map(|i| dir(n + i))).chain((0..if w.both { n } else { 0 }).map(|_| 0.0)).collect());
        let dgot = calm("forward sweep", || t.first_order_forward(&DVector::from_vec(ddir)));
        quiet(|| {
            let mut r = Ref::new(EPS, AbsMode::Increment);
            let e: Vec<E> = (0..n).map(|i| r.x(xv(i), dv(i))).collect();
            let bounds = r.eval(&w.prog, &e);
            let tame = r.ok && bounds.iter().all(|e| e.v.abs() < 1e4 && e.m < 1e4 && e.ev < 1e-6 && e.ed < 1e-6);
            for (what, got, want) in [
                ("result", got.as_slice(), flat(&want, &|v| v.value())),
                ("derivative of result", dgot.as_slice(), flat(&want, &|v| v.dvalue())),
            ] {
                for i in 0..want.len() {
                    let ok = !tame || same(got[i], want[i]) || (got[i] - want[i]).abs() <= 1e-5 * (1.0 + want[i].abs() + got[i].abs()) || want[i].abs() > 1e6;
                    require!(ok, "replay", "recorded derivative replayed at {:?}: {} {} is {:?}; the function gives {:?}", at, what, i, got[i], want[i]);
                }
            }
        });
    }
}
fn replay_check(w: &WT, t: &mut dyn Tape, eval: &dyn Fn(&Vec<f64>) -> Vec<f64>, eps: f64) {
    let n = w.prog.n();
    require!(t.num_indeps() == n && t.num_deps() == w.prog.m(), "dims", "tape has {} arguments and {} results instead of {} and {}", t.num_indeps(), t.num_deps(), n, w.prog.m());
    let y0 = t.y();
    let e0 = eval(&w.x);
    require!(same_all(y0.as_slice(), &e0), "replay", "the fresh tape's results are {:?}, the function's {:?}", y0.as_slice(), e0);
    for x in &w.xs {
        let xv: Vec<f64> = quiet(|| (0..n).map(|i| x.get(i).cloned().unwrap_or(1.0)).collect());
        let dx = DVector::from_vec(xv);
        calm("zero_order", || t.zero_order(&dx));
        require!(same_all(t.x().as_slice(), dx.as_slice()), "replay", "arguments after replay are {:?} instead of {:?}", t.x().as_slice(), dx.as_slice());
        let got = t.y();
        let want = eval(x);
        // beyond the range of single precision there is nothing to compare
        let odd = |v: f64| v != 0.0 && !(1e-3..1e3).contains(&v.abs());
        if eps > 1e-10 && (dx.iter().any(|v| odd(*v)) || w.prog.ops.iter().any(|o| odd(o.c))) {
            continue;
        }
        quiet(|| {
            let bounds = ref_values(&w.prog, dx.as_slice(), eps);
            for i in 0..want.len() {
                let ok = same(got[i], want[i])
                    || match &bounds {
                        Some(b) => (got[i] - want[i]).abs() <= 32.0 * b[i].ev + 1e-13 * (1.0 + want[i].abs()),
                        // out of the domain of the bounds: only the kind of number is compared
                        None => eps > 1e-10 || got[i].is_finite() && want[i].is_finite() || got[i].is_nan() && want[i].is_nan() || got[i] == want[i],
                    };
                require!(ok, "replay", "replayed at {:?}, result {} is {:?}; the function gives {:?}", dx.as_slice(), i, got[i], want[i]);
            }
        });
    }
}

pub fn exec_transparent(v: &Value) {
    let p: PlanTransparent = plan(v);
    let known = RealMutex::new(vec![]);
    let acts: Vec<Vec<(u8, u32)>> = quiet(|| p.noise.iter().map(|a| a.iter().map(|a| (a.k, a.a)).collect()).collect());
    let common = AContext::new();
    let cid = common.cid();
    let mut tasks: Vec<Task> = vec![];
    for w in &p.workers {
        tasks.push(Box::new(move || {
            let mut c = if w.share { AContext::from_cid(cid) } else { None };
            match w.mode {
                1 => transparent::<f32>(w, c.as_mut(), EPS32),
                2 => transparent::<AFloat<f64>>(w, c.as_mut(), EPS),
                3 => recorded_derivative(w, c),
                _ => transparent::<f64>(w, c.as_mut(), EPS),
            }
        }));
    }
    for a in &acts {
        let known = &known;
        tasks.push(Box::new(move || noise(a, known)));
    }
    run_threads(tasks);
}

// ------------------------------------------------------------------------------------------------ C03

#[derive(Serialize, Deserialize, Clone, Debug)]
struct WS {
    prog: Prog,
    /// the thread marks an argument of its own first
    extra: bool,
    /// or this many at once
    #[serde(default)]
    vec: u8,
    /// works through a handle of its own, which it drops half way
    handle: bool,
}
impl WS {
    fn own(&self) -> usize {
        if self.extra { (self.vec as usize).max(1) } else { 0 }
    }
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanShared {
    x: Vec<f64>,
    x2: Vec<f64>,
    dir: Vec<f64>,
    threads: Vec<WS>,
    noise: Vec<Act>,
}
pub fn gen_shared(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let giant = r.chance(1, 1500);
    let huge = giant || r.chance(1, 50);
    let n = if huge { r.range(1, 30) } else { r.range(1, 3) };
    let class = if r.chance(1, 4) { Class::Piecewise } else { Class::Smooth };
    let x = gen_x(r, n, class);
    let x2 = gen_x(r, n, class);
    let odd = r.chance(1, 10);
    let nt = if huge && !giant { r.range(2, 7) } else { r.range(2, 3 + big) };
    let threads = (0..nt)
        .map(|_| {
            let extra = r.chance(1, 3);
            let vec = if r.chance(1, 2) { r.range(1, 4) as u8 } else { 0 };
            let own = if extra { (vec as usize).max(1) } else { 0 };
            let nn = n + own;
            let mut a = x.clone();
            let mut b = x2.clone();
            for _ in 0..own {
                a.push(1.5);
                b.push(0.75);
            }
            let ops = match (giant, huge) {
                (true, _) => r.range(200, 900),
                (_, true) => r.range(5, 80),
                _ => r.range(1, 6 + 6 * big),
            };
            let g = GenCfg { n: nn, m: 0, ops, class, odd_outs: false };
            let mut prog = gen_prog(r, &g, &[a, b]);
            if odd {
                wild(r, &mut prog, &mut []);
            }
            WS { prog, extra, vec, handle: r.chance(1, 4) }
        })
        .collect();
    let noise = if r.chance(1, 3) {
        (0..r.range(1, 5)).map(|_| Act { k: r.below(8) as u8, a: r.below(100) as u32 }).collect()
    } else {
        vec![]
    };
    let dir = (0..n + 4).map(|_| r.float(-1.0, 1.0)).collect();
    js(&PlanShared { x, x2, dir, threads, noise })
}
/// The program with every node as a result.
fn all_nodes(p: &Prog) -> Prog {
    let mut q = p.clone();
    q.outs = (0..p.n() + p.ops.len()).map(|i| OutRef { a: i as u32, c: None }).collect();
    q
}

pub fn exec_shared(v: &Value) {
    let mut p: PlanShared = plan(v);
    quiet(|| {
        for t in p.threads.iter_mut() {
            t.vec = t.vec.min(8);
            t.prog.n = (p.x.len() + t.own()) as u32;
            t.prog = all_nodes(&t.prog);
        }
        let n = p.x.len();
        p.x2.resize(n, 1.0);
        p.dir.resize(n + p.threads.len(), 0.5);
    });
    let p = &p;
    let n = p.x.len();
    let extra_val = |t: usize| 1.5 + 1e-3 * (t + 1) as f64;
    let mut ctx = AContext::new();
    let cid = ctx.cid();
    let xs: Vec<ADouble> = p.x.iter().map(|v| ctx.new_indep(*v)).collect();
    let results: Vec<RealMutex<Vec<ADouble>>> = quiet(|| p.threads.iter().map(|_| RealMutex::new(vec![])).collect());
    let known = RealMutex::new(vec![cid]);
    let acts: Vec<(u8, u32)> = quiet(|| p.noise.iter().map(|a| (a.k, a.a)).collect());
    {
        let mut tasks: Vec<Task> = vec![];
        for (t, (w, r)) in p.threads.iter().zip(&results).enumerate() {
            let xs = &xs;
            tasks.push(Box::new(move || {
                let mut h = if w.handle || w.extra { AContext::from_cid(cid) } else { None };
                let mut v = quiet(|| xs.clone());
                if w.extra {
                    match h.as_mut() {
                        Some(h) if w.vec > 0 => v.extend(h.new_indep_vec::<f64>(w.own(), extra_val(t))),
                        Some(h) => v.push(h.new_indep(extra_val(t))),
                        None => viol!("lookup", "a live context was not found"),
                    }
                    for a in &v[xs.len()..] {
                        require!(a.value() == extra_val(t) && a.dvalue() == 0.0, "argument", "a new argument of value {:?} is {:?} with first-order value {:?}", extra_val(t), a.value(), a.dvalue());
                    }
                }
                let h = RealMutex::new(h);
                let half = w.prog.ops.len() / 2;
                let nodes = w.prog.nodes(&v, &|i| {
                    if i == half {
                        let h = h.lock().unwrap().take();
                        drop(h);
                    }
                });
                quiet(|| *r.lock().unwrap() = nodes.clone());
            }));
        }
        if !acts.is_empty() {
            let (acts, known) = (&acts, &known);
            tasks.push(Box::new(move || noise(acts, known)));
        }
        run_threads(tasks);
    }
    // mark the results in a known order
    rt::set_serial(true);
    let results: Vec<Vec<ADouble>> = quiet(|| results.iter().map(|r| r.lock().unwrap().clone()).collect());
    for r in &results {
        ctx.set_dep_slice(r);
    }
    let mut tape = ctx.tape();
    let s = snap(&tape);
    // the same recordings, alone
    let alone: Vec<(Snap, Vec<ADouble>)> = p
        .threads
        .iter()
        .enumerate()
        .map(|(t, w)| {
            let mut c = AContext::new();
            let mut v: Vec<ADouble> = p.x.iter().map(|v| c.new_indep(*v)).collect();
            for _ in 0..w.own() {
                v.push(c.new_indep(extra_val(t)));
            }
            let nodes = w.prog.nodes(&v, &|_| ());
            c.set_dep_slice(&nodes);
            (snap(&c.tape()), nodes)
        })
        .collect();
    let order = quiet(|| structure(p, n, &s, &alone, &extra_val));
    // values
    let y = tape.y();
    let mut k = 0;
    for (t, r) in results.iter().enumerate() {
        for (i, a) in r.iter().enumerate() {
            require!(nan(a.value()) == nan(alone[t].1[i].value()), "value-differs", "thread {}: node {} is {} and {} alone", t, i, a.value(), alone[t].1[i].value());
            require!(same(y[k], a.value()), "value-differs", "the tape says {} for node {} of thread {}, the thread got {}", y[k], i, t, a.value());
            k += 1;
        }
    }
    // a new point, derivatives there
    let mut x2 = DVector::zeros(order.len());
    let mut dir = DVector::zeros(order.len());
    for (pos, who) in order.iter().enumerate() {
        x2[pos] = match who {
            Arg::Common(i) => p.x2[*i],
            Arg::Own(..) => 0.75,
        };
        dir[pos] = match who {
            Arg::Common(i) => p.dir[*i],
            Arg::Own(t, k) => p.dir[n + *t] * (1.0 + *k as f64),
        };
    }
    calm("zero_order", || tape.zero_order(&x2));
    let y = tape.y();
    let dy = calm("first_order_forward", || tape.first_order_forward(&dir));
    let smooth = !p.threads.iter().any(|w| w.prog.has_abs());
    // the weighted gradient, by the reference
    let mut k = 0;
    let mut want_bar = vec![0.0; order.len()];
    let mut err_bar = vec![0.0; order.len()];
    let mut ybar = DVector::zeros(y.nrows());
    let mut all_ok = true;
    for (t, w) in p.threads.iter().enumerate() {
        let xv: Vec<f64> = quiet(|| {
            let mut v = p.x2.clone();
            v.extend((0..w.own()).map(|_| 0.75));
            v
        });
        let dv: Vec<f64> = quiet(|| {
            let mut v = p.dir[..n].to_vec();
            v.extend((0..w.own()).map(|k| p.dir[n + t] * (1.0 + k as f64)));
            v
        });
        quiet(|| {
            let mut rf = Ref::new(EPS, AbsMode::Increment);
            let e: Vec<E> = xv.iter().zip(&dv).map(|(a, b)| rf.x(*a, *b)).collect();
            let e = rf.nodes(&w.prog, &e);
            let ok = rf.ok;
            let jac = if smooth { ref_jacobian(&w.prog, &xv) } else { None };
            for (i, e) in e.iter().enumerate() {
                if ok {
                    require!(close_v(y[k], e), "replay", "thread {} node {}: replay at the new point gives {}, expected {}", t, i, y[k], e.v);
                    require!(close_d(dy[k], e), "derivative", "thread {} node {}: forward sweep gives {}, expected {}", t, i, dy[k], e.d);
                }
                ybar[k] = ((k * 7 + 3) % 5) as f64 - 2.0;
                if let Some(j) = &jac {
                    for (pos, who) in order.iter().enumerate() {
                        let col = match who {
                            Arg::Common(c) => Some(*c),
                            Arg::Own(o, k) if *o == t => Some(n + *k),
                            _ => None,
                        };
                        if let Some(c) = col {
                            want_bar[pos] += ybar[k] * j[c][i].d;
                            err_bar[pos] += 3.0 * (j[c][i].ed + EPS * 64.0 * j[c][i].m);
                        }
                    }
                } else {
                    all_ok = false;
                }
                k += 1;
            }
        });
    }
    if smooth && all_ok {
        let xbar = calm("first_order_reverse", || tape.first_order_reverse(&ybar));
        for pos in 0..order.len() {
            require!((xbar[pos] - want_bar[pos]).abs() <= 4.0 * err_bar[pos] + 1e-12 * (1.0 + want_bar[pos].abs()), "derivative", "reverse sweep gives {} for argument {}, expected {}", xbar[pos], pos, want_bar[pos]);
        }
        rt::count("reverse_checked");
    }
}

enum Arg {
    Common(usize),
    /// of a thread, its how-manieth
    Own(usize, usize),
}

/// Is the shared tape the disjoint union of the tapes recorded alone, apart from the common arguments?
fn structure(p: &PlanShared, n: usize, s: &Snap, alone: &[(Snap, Vec<ADouble>)], extra: &dyn Fn(usize) -> f64) -> Vec<Arg> {
    // arguments
    let mut order = vec![];
    let nextra: usize = p.threads.iter().map(|w| w.own()).sum();
    require!(s.indeps.len() == n + nextra, "arguments", "{} arguments were marked, the tape has {}", n + nextra, s.indeps.len());
    let mut indep_pos: HashMap<usize, usize> = HashMap::new();
    let mut own: Vec<Vec<usize>> = vec![vec![]; p.threads.len()];
    for (pos, vid) in s.indeps.iter().enumerate() {
        require!(indep_pos.insert(*vid, pos).is_none(), "arguments", "two arguments share value {}", vid);
        require!(*vid < s.vals.len(), "arguments", "argument {} refers to value {} of {}", pos, vid, s.vals.len());
        if pos < n {
            require!(s.vals[*vid] == p.x[pos].to_bits(), "arguments", "argument {} has value {}", pos, f64::from_bits(s.vals[*vid]));
            order.push(Arg::Common(pos));
        } else {
            let t = (0..p.threads.len()).find(|t| p.threads[*t].extra && extra(*t).to_bits() == s.vals[*vid]);
            match t {
                Some(t) if own[t].len() < p.threads[t].own() => {
                    order.push(Arg::Own(t, own[t].len()));
                    own[t].push(pos);
                }
                _ => viol!("arguments", "argument {} has the value {} nobody marked", pos, f64::from_bits(s.vals[*vid])),
            }
        }
    }
    // every operation defines a fresh value from earlier ones
    let mut at: HashMap<usize, &Operation> = HashMap::new();
    for (i, op) in s.ops.iter().enumerate() {
        require!(!indep_pos.contains_key(&op.vid) && at.insert(op.vid, op).is_none(), "values", "operation {} overwrites value {}", i, op.vid);
        require!(op.vid < s.vals.len(), "values", "operation {} defines value {} of {}", i, op.vid, s.vals.len());
        for a in op.arg1.iter().chain(op.arg2.iter()) {
            require!(at.contains_key(a) && *a != op.vid || indep_pos.contains_key(a), "order", "operation {} {:?} uses value {} before it is recorded", i, op, a);
        }
    }
    let total: usize = alone.iter().map(|a| a.0.ops.len()).sum();
    require!(s.ops.len() == total, "count", "the threads performed {} operations, {} are recorded", total, s.ops.len());
    require!(s.vals.len() == s.ops.len() + s.indeps.len(), "count", "{} values for {} operations and {} arguments", s.vals.len(), s.ops.len(), s.indeps.len());
    let mut taken: HashMap<usize, usize> = HashMap::new();
    let mut d = 0;
    for (t, (a, _)) in alone.iter().enumerate() {
        let a_op: HashMap<usize, &Operation> = a.ops.iter().map(|o| (o.vid, o)).collect();
        let a_in: HashMap<usize, usize> = a.indeps.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        let mut map: HashMap<usize, usize> = HashMap::new();
        let mut todo: Vec<(usize, usize)> = vec![];
        for dep in &a.deps {
            require!(d < s.deps.len(), "results", "{} results marked, the tape has {}", d + 1, s.deps.len());
            todo.push((*dep, s.deps[d]));
            d += 1;
        }
        while let Some((x, y)) = todo.pop() {
            match map.get(&x) {
                Some(z) => {
                    require!(*z == y, "mixed", "thread {}: one value of its computation appears as {} and {}", t, z, y);
                    continue;
                }
                None => {
                    map.insert(x, y);
                }
            }
            require!(y < s.vals.len(), "mixed", "thread {}: value {} does not exist", t, y);
            if let Some(i) = a_in.get(&x) {
                let want = if *i < n { Some(*i) } else { own[t].get(*i - n).cloned() };
                require!(indep_pos.get(&y).cloned() == want, "mixed", "thread {}: uses argument {:?} where it should use {:?}", t, indep_pos.get(&y), want);
                continue;
            }
            require!(s.vals[y] == a.vals[x], "mixed", "thread {}: value {} recorded as {}, alone {}", t, y, f64::from_bits(s.vals[y]), f64::from_bits(a.vals[x]));
            let (o, q) = match (a_op.get(&x), at.get(&y)) {
                (Some(o), Some(q)) => (o, q),
                _ => viol!("mixed", "thread {}: value {} is not the result of an operation", t, y),
            };
            require!(o.opcode == q.opcode && o.arg1.is_some() == q.arg1.is_some() && o.arg2.is_some() == q.arg2.is_some(), "mixed", "thread {}: {:?} recorded as {:?}", t, o, q);
            if let Some(prev) = taken.insert(y, t) {
                viol!("mixed", "value {} belongs to the computations of threads {} and {}", y, prev, t);
            }
            if let (Some(u), Some(v)) = (o.arg1, q.arg1) {
                todo.push((u, v));
            }
            if let (Some(u), Some(v)) = (o.arg2, q.arg2) {
                todo.push((u, v));
            }
        }
    }
    require!(d == s.deps.len(), "results", "{} results marked, the tape has {}", d, s.deps.len());
    order
}
