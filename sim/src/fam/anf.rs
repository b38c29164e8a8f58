//! C09 (abs-normal forms) and C10 (generalized Jacobians).
use super::calls::{put_anf, put_gj};
use super::deriv::{bits_m, bits_v, point, vecd};
use super::*;
use crate::sim::calm;
use advantage::drivers::*;
use std::sync::Mutex as RealMutex;

fn pooled<R: Send>(pool: u32, f: impl FnOnce() -> R + Send) -> R {
    if pool == 0 {
        f()
    } else {
        let p = rayon::ThreadPoolBuilder::new().num_threads(pool as usize).build().unwrap();
        p.install(f)
    }
}

/// The piecewise-linear increment and the switching variables along it.
pub struct Pl {
    pub y: Vec<E>,
    pub z: Vec<(f64, f64, f64, f64)>,
}
pub fn pl(p: &Prog, x: &[f64], d: &[f64]) -> Option<Pl> {
    let mut r = Ref::new(EPS, AbsMode::Increment);
    let xs: Vec<E> = x.iter().zip(d).map(|(v, d)| r.x(*v, *d)).collect();
    let y = r.eval(p, &xs);
    if !r.ok || y.iter().any(|e| e.ed > 1e-6 * (1.0 + e.m)) || r.z.iter().any(|z| z.2 + z.3 > 1e-6 * (1.0 + z.0.abs() + z.1.abs())) {
        return None;
    }
    Some(Pl { y, z: r.z })
}

// ------------------------------------------------------------------------------------------------ C09

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Anf {
    prog: Prog,
    x: Vec<f64>,
    deltas: Vec<Vec<f64>>,
    fill: u32,
    cols: u32,
    pool: u32,
    /// before this operation (minus two; one: at once) the function computes the form of the next job, too
    #[serde(default)]
    nest: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanAnf {
    jobs: Vec<Anf>,
}
fn gen_pw(r: &mut Rng, n: usize, m: usize, ops: usize, class: Class) -> (Prog, Vec<f64>) {
    let x = gen_x(r, n, class);
    let g = GenCfg { n, m, ops, class, odd_outs: true };
    (gen_prog(r, &g, &[x.clone()]), x)
}
fn gen_delta(r: &mut Rng, n: usize, class: Class) -> Vec<f64> {
    let scale = *r.pick(&[0.0, 0.1, 1.0, 4.0]);
    (0..n)
        .map(|_| match class {
            Class::Exact => r.range(0, 8) as f64 - 4.0,
            _ => scale * r.float(-1.0, 1.0),
        })
        .collect()
}
pub fn gen_anf(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let jobs = (0..r.weighted(&[0, 3, 2, 1]))
        .map(|_| {
            let class = *r.pick(&[Class::Piecewise, Class::Piecewise, Class::Exact]);
            let wide = r.chance(1, 10);
            let huge = r.chance(1, 150);
            let giant = r.chance(1, 1500);
            let (n, m) = match (huge, wide) {
                _ if giant => *r.pick(&[(3, 140), (140, 3), (66, 66), (2, 270), (270, 2), (3, 3)]),
                (true, _) => (r.range(1, 70), r.range(1, 70)),
                (_, true) => (r.range(1, 12), r.range(1, 12)),
                _ => (r.range(0, 4), r.range(0, 4)),
            };
            let ops = if giant {
                r.range(150, 400)
            } else if huge || r.chance(1, 150) {
                r.range(10, 100)
            } else { r.range(1, 8 + 10 * big) };
            let (prog, x) = gen_pw(r, n, m, ops, class);
            Anf {
                prog,
                x,
                deltas: (0..r.range(1, 3)).map(|_| gen_delta(r, n, class)).collect(),
                fill: r.below(1000) as u32,
                cols: r.range(0, 4) as u32,
                pool: if r.chance(1, 4) { r.range(1, 5) as u32 } else { 0 },
                nest: if r.chance(1, 8) { r.range(1, 5) as u32 } else { 0 },
            }
        })
        .collect();
    js(&PlanAnf { jobs })
}
struct Products {
    form: AbsNormalForm,
    /// for Z, L, J, Y: B, M*B, C, C*M, M*I, I*M
    mats: Vec<[DMatrix<f64>; 6]>,
    rows: Vec<Vec<DMatrix<f64>>>,
    columns: Vec<Vec<DMatrix<f64>>>,
    z: DVector<f64>,
    inside: Option<Vec<u64>>,
}
/// The function, with a call inside it; what that gives goes to `inside`.
fn nesting(p: &Prog, at: u32, inside: &Inside, call: impl Fn() -> Vec<u64> + Send + Sync + 'static) -> ProgFn {
    quiet(|| {
        let mut f = ProgFn::new(p);
        if at > 0 {
            let inside = inside.clone();
            f.hook = Some(std::sync::Arc::new(move |w| {
                let here = match w {
                    Where::Enter => at == 1,
                    Where::Op(i) => at as usize == i + 2,
                    Where::Tape(i) => at as usize == i + 2,
                };
                if here && quiet(|| inside.lock().unwrap().is_none()) {
                    let r = call();
                    rt::count("nested_calls");
                    quiet(|| *inside.lock().unwrap() = Some(r));
                }
            }));
        }
        f
    })
}
type Inside = std::sync::Arc<RealMutex<Option<Vec<u64>>>>;
fn inside() -> Inside {
    quiet(|| std::sync::Arc::new(RealMutex::new(None)))
}
fn form_bits(p: &Prog, x: &[f64]) -> Vec<u64> {
    let f = quiet(|| ProgFn::new(p));
    let form = abs_normal(&f, &vecd(&point(x, p.n(), 1.0)));
    let mut v = vec![];
    put_anf(&mut v, &form);
    quiet(|| drop(f));
    v
}
fn anf(j: &Anf, other: &Anf) -> Products {
    let n = j.prog.n();
    let within = inside();
    let (p, q) = quiet(|| (other.prog.clone(), other.x.clone()));
    let f = nesting(&j.prog, j.nest, &within, move || form_bits(&p, &q));
    let x = vecd(&point(&j.x, n, 1.0));
    let out = pooled(j.pool, || {
        let form = abs_normal(&f, &x);
        let t = AbsNormalTape::new(f.tape(&x));
        let mut mats = vec![];
        let mut rows = vec![];
        let mut columns = vec![];
        macro_rules! part {
            ($ty:ident, $k:expr) => {{
                let a = $ty::new(&t);
                let (r, c) = (a.nrows(), a.ncols());
                let fill = |p: usize, q: usize| {
                    DMatrix::from_fn(p, q, |i, l| ((i * 7 + l * 5 + j.fill as usize + $k) % 9) as f64 * 0.5 - 2.0)
                };
                let b = fill(c, j.cols as usize);
                let l = fill(j.cols as usize, r);
                let mb = a.mul_right(&b);
                let cm = a.mul_left(&l);
                let mi = a.mul_right(&DMatrix::identity(c, c));
                let im = a.mul_left(&DMatrix::identity(r, r));
                mats.push([b, mb, l, cm, mi, im]);
                rows.push((0..r).map(|i| a.row(i)).collect::<Vec<_>>());
                columns.push((0..c).map(|i| a.column(i)).collect::<Vec<_>>());
            }};
        }
        part!(AbsNormalZ, 0);
        part!(AbsNormalL, 1);
        part!(AbsNormalJ, 2);
        part!(AbsNormalY, 3);
        let z = t.z();
        decomposed(&f, &x, t, j);
        Products { form, mats, rows, columns, z, inside: quiet(|| within.lock().unwrap().take()) }
    });
    quiet(|| drop(f));
    out
}
/// What the decomposed tape says about itself, and the same after it has been moved elsewhere
fn decomposed(f: &dyn Function, x: &DVector<f64>, mut t: AbsNormalTape, j: &Anf) {
    let abs_of = |t: &dyn Tape| -> (Vec<f64>, Vec<f64>) {
        let v = t.values();
        let ops: Vec<Operation> = t.ops_iter().filter(|o| o.opcode == OpCode::Abs).collect();
        quiet(|| (ops.iter().map(|o| v[o.arg1.unwrap()]).collect(), ops.iter().map(|o| v[o.vid]).collect()))
    };
    let mut plain = f.tape(x);
    let (z, _) = abs_of(&*plain);
    require!((t.n(), t.m(), t.s()) == (f.n(), f.m(), z.len()), "dims", "the decomposed tape has n {}, m {}, s {} instead of {}, {}, {}", t.n(), t.m(), t.s(), f.n(), f.m(), z.len());
    let same = |what: &str, a: &DVector<f64>, b: &DVector<f64>| {
        require!(bits_v(a) == bits_v(b), "decomposed", "{} of the decomposed tape: {:?} instead of {:?}", what, a.as_slice(), b.as_slice());
    };
    same("the point", &t.x(), x);
    same("the result", &t.y(), &plain.y());
    same("the switching variables", &t.z(), &vecd(&z));
    if j.cols % 2 == 0 {
        // somewhere else: the arguments and the absolute values there
        let d = point(j.deltas.first().map_or(&[][..], |d| d), f.n(), 0.25);
        let x2 = x + vecd(&d);
        plain.zero_order(&x2);
        let (z2, w2) = abs_of(&*plain);
        let at: Vec<f64> = quiet(|| x2.iter().cloned().chain(w2).collect());
        t.zero_order(&vecd(&at));
        same("the point, after a re-evaluation,", &t.x(), &x2);
        same("the result, after a re-evaluation,", &t.y(), &plain.y());
        same("the switching variables, after a re-evaluation,", &t.z(), &vecd(&z2));
        let there = AbsNormalTape::new(plain);
        let (n, s) = (t.n(), t.s());
        let all = |t: &AbsNormalTape| {
            let mut v = bits_m(&AbsNormalZ::new(t).mul_right(&DMatrix::identity(n, n)));
            v.extend(bits_m(&AbsNormalY::new(t).mul_right(&DMatrix::identity(s, s))));
            v
        };
        require!(all(&t) == all(&there), "decomposed", "products with the parts of a re-evaluated decomposed tape differ from those of a tape taken there");
    }
}
fn prod_bits(p: &Products) -> Vec<u64> {
    quiet(|| {
        let mut v = vec![];
        put_anf(&mut v, &p.form);
        for m in p.mats.iter().flatten().chain(p.rows.iter().flatten()).chain(p.columns.iter().flatten()) {
            v.extend(bits_m(m));
        }
        v
    })
}
const PARTS: [&str; 4] = ["Z", "L", "J", "Y"];

/// largest path sum of the program at x: bounds every matrix entry and its error
fn scale(p: &Prog, x: &[f64]) -> Option<f64> {
    let mut r = Ref::new(EPS, AbsMode::Smooth);
    let xs: Vec<E> = x.iter().map(|v| r.x(*v, 1.0)).collect();
    let e = r.nodes(p, &xs);
    // chains from a switching variable to a result may be longer than those from the arguments
    let mut s = 1.0;
    for e in &e {
        s += e.m;
        if e.ed > 1e-6 * (1.0 + e.m) || e.ev > 1e-6 * (1.0 + e.v.abs()) {
            return None;
        }
    }
    // the same with the absolute values as arguments of their own
    let q = seeded_m(p, x);
    if r.ok && q.is_finite() {
        Some(s + q)
    } else {
        None
    }
}
/// path sums starting at every absolute value with weight one
fn seeded_m(p: &Prog, x: &[f64]) -> f64 {
    let mut r = Ref::new(EPS, AbsMode::Smooth);
    let mut v: Vec<E> = x.iter().map(|v| r.x(*v, 1.0)).collect();
    let mut s = 0.0;
    for i in 0..p.ops.len() {
        let o = &p.ops[i];
        let mut e = match p.refs(i) {
            (Some(a), Some(b)) => r.op(o.k, v[a], v[b], o.c),
            _ => r.c(o.c),
        };
        if is_nonsmooth(o.k) {
            e.m += 1.0;
        }
        s += e.m;
        v.push(e);
    }
    s
}

pub fn exec_anf(v: &Value) {
    let p: PlanAnf = plan(v);
    let got: Vec<RealMutex<Option<Products>>> = quiet(|| p.jobs.iter().map(|_| RealMutex::new(None)).collect());
    let mut tasks: Vec<Task> = vec![];
    let next = |i: usize| &p.jobs[(i + 1) % p.jobs.len()];
    for (i, (j, g)) in p.jobs.iter().zip(&got).enumerate() {
        tasks.push(Box::new(move || {
            let r = anf(j, next(i));
            quiet(|| *g.lock().unwrap() = Some(r));
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    for (i, (j, g)) in p.jobs.iter().zip(&got).enumerate() {
        let plain = quiet(|| Anf { nest: 0, ..j.clone() });
        let alone = anf(&plain, next(i));
        let r = g.lock().unwrap().take().unwrap();
        if prod_bits(&alone) != prod_bits(&r) {
            viol!("schedule-dependent", "the abs-normal form or a product with it differs from the one computed alone");
        }
        if let Some(got) = &r.inside {
            let o = next(i);
            require!(*got == form_bits(&o.prog, &o.x), "schedule-dependent", "an abs-normal form computed inside a function differs from the one computed alone");
        }
        quiet(|| check_anf(j, &r));
    }
    rt::set_serial(false);
}
fn check_anf(j: &Anf, r: &Products) {
    let (n, m) = (j.prog.n(), j.prog.m());
    let x = point(&j.x, n, 1.0);
    let f = &r.form;
    let s = f.a.nrows();
    let dims = [(&f.zmat, s, n), (&f.lmat, s, s), (&f.jmat, m, n), (&f.ymat, m, s)];
    for (k, (mat, rr, cc)) in dims.iter().enumerate() {
        require!(mat.nrows() == *rr && mat.ncols() == *cc, "dims", "{} is {}x{} instead of {}x{}", PARTS[k], mat.nrows(), mat.ncols(), rr, cc);
    }
    require!(f.b.nrows() == m, "dims", "b has {} elements for {} results", f.b.nrows(), m);
    for i in 0..s {
        for k in i..s {
            require!(f.lmat[(i, k)] == 0.0, "triangular", "L({}, {}) is {}: switching variable {} depends on itself or a later one", i, k, f.lmat[(i, k)], i);
        }
    }
    // products
    let Some(sc) = scale(&j.prog, &x) else { return };
    if sc > 1e5 {
        rt::count("ill_conditioned");
        return;
    }
    let tol = |w: f64| 1e-9 * sc * (1.0 + w);
    for k in 0..4 {
        let (dense, rr, cc) = dims[k];
        let [b, mb, l, lm, mi, im] = &r.mats[k];
        let near = |a: &DMatrix<f64>, b: &DMatrix<f64>, what: &str, w: f64| {
            require!(a.nrows() == b.nrows() && a.ncols() == b.ncols(), "dims", "{} of {}: {}x{} instead of {}x{}", what, PARTS[k], a.nrows(), a.ncols(), b.nrows(), b.ncols());
            for i in 0..a.nrows() {
                for l in 0..a.ncols() {
                    require!((a[(i, l)] - b[(i, l)]).abs() <= tol(w), "product", "{} of {}: entry ({}, {}) is {:?}, by the dense matrix {:?}", what, PARTS[k], i, l, a[(i, l)], b[(i, l)]);
                }
            }
        };
        near(mi, dense, "product with the identity from the right", 1.0);
        near(im, dense, "product with the identity from the left", 1.0);
        near(mb, &(dense * b), "product from the right", 4.0 * cc as f64);
        near(lm, &(l * dense), "product from the left", 4.0 * rr as f64);
        for i in 0..rr {
            near(&r.rows[k][i], &dense.rows(i, 1).into_owned(), "single row", 1.0);
        }
        for i in 0..cc {
            near(&r.columns[k][i], &dense.columns(i, 1).into_owned(), "single column", 1.0);
        }
    }
    // the piecewise linearization
    for d in &j.deltas {
        let d = point(d, n, 0.0);
        let Some(want) = pl(&j.prog, &x, &d) else { continue };
        require!(want.z.len() == s, "switching", "{} absolute values were recorded, the form has {} switching variables", want.z.len(), s);
        let mut z: Vec<f64> = vec![];
        let mut ez: Vec<f64> = vec![];
        for i in 0..s {
            let mut v = f.a[i];
            let mut e = f.a[i].abs() + r.z[i].abs();
            for k in 0..n {
                v += f.zmat[(i, k)] * d[k];
                e += (f.zmat[(i, k)] * d[k]).abs() + sc * d[k].abs();
            }
            let mut prop = 0.0;
            for k in 0..i {
                v += f.lmat[(i, k)] * z[k].abs();
                e += (f.lmat[(i, k)].abs() + sc * 1e-3) * (z[k].abs() + r.z[k].abs());
                prop += f.lmat[(i, k)].abs() * ez[k];
            }
            z.push(v);
            ez.push(512.0 * EPS * e + prop + 4.0 * (want.z[i].2 + want.z[i].3) + 1e-12);
            let w = want.z[i].0 + want.z[i].1;
            require!((v - w).abs() <= ez[i], "switching", "increment {:?}: switching variable {} is {:?} by the form, {:?} by the function", d, i, v, w);
        }
        for i in 0..m {
            let mut v = f.b[i];
            let mut e = f.b[i].abs();
            let mut prop = 0.0;
            for k in 0..n {
                v += f.jmat[(i, k)] * d[k];
                e += (f.jmat[(i, k)] * d[k]).abs() + sc * d[k].abs();
            }
            for k in 0..s {
                v += f.ymat[(i, k)] * z[k].abs();
                e += (f.ymat[(i, k)].abs() + sc * 1e-3) * (z[k].abs() + r.z[k].abs());
                prop += f.ymat[(i, k)].abs() * ez[k];
            }
            let tol = 512.0 * EPS * e + prop + 8.0 * want.y[i].ed + 1e-12;
            require!((v - want.y[i].d).abs() <= tol, "increment", "increment {:?}: result {} changes by {:?} by the form, by {:?} by the piecewise linearization", d, i, v, want.y[i].d);
            rt::count("increments_compared");
        }
    }
}

// ------------------------------------------------------------------------------------------------ C10

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Next {
    rows: u32,
    fill: u32,
    mult: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Gj {
    /// one function, or the links of a chain
    progs: Vec<Prog>,
    x: Vec<f64>,
    d: Vec<f64>,
    bits: Vec<u8>,
    next: Option<Next>,
    /// as a tape moved to the point
    moved: bool,
    chain: bool,
    /// links with an index in here (pairs) are nested as a chain of their own
    nest: Option<(u32, u32)>,
    pool: u32,
    exact: bool,
    /// before this operation (minus two; one: at once) the first function computes a generalized Jacobian itself
    #[serde(default)]
    inner: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanGj {
    jobs: Vec<Gj>,
}
pub fn gen_gj(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let jobs = (0..r.weighted(&[0, 4, 2]))
        .map(|_| {
            let exact = r.chance(1, 2);
            let class = if exact { Class::Exact } else { Class::Piecewise };
            let chain = r.chance(1, 2);
            let ties = exact && !chain && r.chance(1, 40);
            let huge = r.chance(1, 80);
            let links = match (chain, huge) {
                (true, true) => r.range(6, 20),
                (true, _) => r.range(1, 6 + 4 * big),
                _ => 1,
            };
            let n = if huge { r.range(1, 20) } else { r.range(1, 4) };
            let x = gen_x(r, n, class);
            let mut at = x.clone();
            let mut progs = vec![];
            for _ in 0..links {
                let ops = match (chain, huge) {
                    (true, _) => r.range(1, 4 + 3 * big),
                    (_, true) => r.range(10, 80),
                    _ => r.range(1, 9 + 8 * big),
                };
                let g = GenCfg { n: at.len(), m: r.range(1, 3), ops, class, odd_outs: true };
                let p = gen_prog(r, &g, &[at.clone()]);
                at = values(&p, &at);
                progs.push(p);
            }
            let mut x = x;
            let mut d = gen_delta(r, n, class);
            if ties {
                // hardly anything but switching variables that are zero
                x = vec![0.0; n];
                d = vec![0.0; n];
                progs = vec![tie_prog(r, n)];
            } else if exact && !chain && r.chance(1, 8) {
                let g = GenCfg { n: r.range(1, 3), m: r.range(1, 3), ops: r.range(1, 6), class, odd_outs: true };
                let y = gen_x(r, g.n, class);
                let q = gen_prog(r, &g, &[y.clone()]);
                let e = gen_delta(r, g.n, class);
                let s = (*r.pick(&[-200i32, -60, -40, -30, -20, 20])) as f64;
                let s = s.exp2();
                progs = vec![beside(&progs[0], &q, s, r)];
                x.extend(y.iter().map(|v| v * s));
                d.extend(e.iter().map(|v| v * s));
            }
            let most = if ties {
                30
            } else if huge {
                7
            } else { 3 };
            Gj {
                progs,
                x,
                d,
                bits: (0..r.below(most)).map(|_| r.below(256) as u8).collect(),
                next: if !chain && r.chance(1, 3) {
                    Some(Next { rows: r.range(0, 3) as u32, fill: r.below(100) as u32, mult: r.below(4) as u32 })
                } else {
                    None
                },
                moved: r.chance(1, 4),
                chain,
                nest: if links >= 2 && r.chance(1, 2) {
                    let a = r.below(links) as u32;
                    Some((a, r.range(1, links - a as usize) as u32))
                } else {
                    None
                },
                pool: if r.chance(1, 4) { r.range(1, 5) as u32 } else { 0 },
                exact,
                inner: if r.chance(1, 8) { r.range(1, 4) as u32 } else { 0 },
            }
        })
        .collect();
    js(&PlanGj { jobs })
}
fn tie_prog(r: &mut Rng, n: usize) -> Prog {
    let ops = (0..r.range(40, 220))
        .map(|i| {
            let k = *r.pick(&[32, 32, 32, 32, 47, 48, 0, 1, 28]);
            let near = |r: &mut Rng| if r.chance(1, 2) { n + i - 1 - r.below((n + i).min(3)) } else { r.below(n + i) };
            Op { k, a: near(r) as u32, b: near(r) as u32, c: 0.0 }
        })
        .collect::<Vec<_>>();
    // differences keep the path sums small: every operation halves what it doubles
    let mut q: Vec<Op> = vec![];
    let mut map: Vec<u32> = (0..n as u32).collect();
    for o in ops {
        q.push(Op { a: map[o.a as usize], b: map[o.b as usize], ..o });
        let mut at = (n + q.len() - 1) as u32;
        if q[q.len() - 1].k != ABS && q[q.len() - 1].k != 28 {
            q.push(Op { k: 6, a: at, b: at, c: 0.5 });
            at += 1;
        }
        map.push(at);
    }
    let all = n + q.len();
    let outs = (0..r.range(1, 3)).map(|_| OutRef { a: (all - 1 - r.below(all.min(4))) as u32, c: None }).collect();
    Prog { n: n as u32, ops: q, outs, hand: if r.chance(1, 6) { r.range(1, 31) as u8 } else { 0 } }
}
/// Two functions side by side, the second (made of sums, multiples and absolute values) with everything scaled by `s`.
fn beside(p: &Prog, q: &Prog, s: f64, r: &mut Rng) -> Prog {
    let (n1, n2) = (p.n(), q.n());
    let n = n1 + n2;
    let mut out = Prog { n: n as u32, ops: vec![], outs: vec![], hand: p.hand };
    // where the nodes of both go
    let mut at: [Vec<u32>; 2] = [(0..n1 as u32).collect(), (n1 as u32..n as u32).collect()];
    let mut i = [0, 0];
    while i[0] < p.ops.len() || i[1] < q.ops.len() {
        let w = if i[0] == p.ops.len() {
            1
        } else if i[1] == q.ops.len() {
            0
        } else { r.below(2) };
        let src = [p, q][w];
        let o = &src.ops[i[w]];
        let additive = matches!(o.k, 4 | 5 | 8 | 9 | 12 | 13 | 16 | 17 | 24 | 25 | 55 | 56 | 57);
        let c = if w == 1 && additive { o.c * s } else { o.c };
        let op = match src.refs(i[w]) {
            (Some(a), Some(b)) => Op { k: o.k, a: at[w][a], b: at[w][b], c },
            _ => Op { k: CONST, a: 0, b: 0, c },
        };
        at[w].push((n + out.ops.len()) as u32);
        out.ops.push(op);
        i[w] += 1;
    }
    for (w, src) in [p, q].iter().enumerate() {
        for o in &src.outs {
            let c = src.out_const(o) * if w == 1 { s } else { 1.0 };
            out.outs.push(match src.out_node(o) {
                Some(k) => OutRef { a: at[w][k], c: None },
                None => OutRef { a: 0, c: Some(c) },
            });
        }
    }
    out
}
/// by the reference: the library's abs_sub is not the one of f64
pub fn values(p: &Prog, x: &[f64]) -> Vec<f64> {
    let mut r = Ref::new(EPS, AbsMode::Smooth);
    let xs: Vec<E> = x.iter().map(|v| r.x(*v, 0.0)).collect();
    r.eval(p, &xs).iter().map(|e| e.v).collect()
}
fn next_of(j: &Gj, m: usize) -> Option<GeneralizedJacobian> {
    j.next.as_ref().map(|x| GeneralizedJacobian {
        homogenous: DMatrix::from_fn(x.rows as usize, m, |i, k| ((i * 5 + k * 3 + x.fill as usize) % 7) as f64 * 0.5 - 1.5),
        inhomogenous: DVector::from_fn(x.rows as usize, |i, _| ((i + x.fill as usize) % 5) as f64 - 2.0),
        multiplicity: x.mult as usize,
    })
}
fn chain_of(progs: &[Prog], nest: Option<(u32, u32)>, mk: &dyn Fn(&Prog) -> ProgFn) -> FunctionChain {
    quiet(|| {
        let mut items: Vec<Box<dyn Function>> = vec![];
        let mut i = 0;
        while i < progs.len() {
            if let Some((a, len)) = nest {
                if i == a as usize && len > 0 {
                    let end = (i + len as usize).min(progs.len());
                    let mut inner = FunctionChain::new(mk(&progs[i]));
                    for p in &progs[i + 1..end] {
                        inner.append(mk(p));
                    }
                    items.push(Box::new(inner));
                    i = end;
                    continue;
                }
            }
            items.push(Box::new(mk(&progs[i])));
            i += 1;
        }
        let mut it = items.into_iter();
        let mut c = FunctionChain::from_boxed(it.next().unwrap());
        for f in it {
            c.append_boxed(f);
        }
        c
    })
}
/// all the ways of computing it, by name
fn gj(j: &Gj, other: &Gj, inside: &Inside) -> Vec<(String, GeneralizedJacobian)> {
    let n = j.progs[0].n();
    let mk = |p: &Prog| {
        let o = quiet(|| other.clone());
        nesting(p, j.inner, inside, move || inner_bits(&o))
    };
    let x = vecd(&point(&j.x, n, 1.0));
    let d = vecd(&point(&j.d, n, 0.0));
    pooled(j.pool, || {
        let mut out = vec![];
        if j.chain {
            let flat = chain_of(&j.progs, None, &mk);
            let nested = chain_of(&j.progs, j.nest, &mk);
            let len = j.progs.len();
            let mut name = |s: String, g: GeneralizedJacobian| out.push((s, g));
            require!(flat.len() == len && nested.len() == len, "chain", "a chain of {} functions says it has {} / {}", len, flat.len(), nested.len());
            name("default budget".into(), generalized_jacobian_chain(&flat, x.clone(), d.clone(), None));
            for b in (2..=len + 2).chain(Some(usize::MAX)) {
                name(format!("budget {}", b), generalized_jacobian_chain(&flat, x.clone(), d.clone(), Some(b)));
            }
            if j.nest.is_some() {
                name("nested chain".into(), generalized_jacobian_chain(&nested, x.clone(), d.clone(), None));
                name("nested chain, budget 2".into(), generalized_jacobian_chain(&nested, x.clone(), d.clone(), Some(2)));
            }
            quiet(|| drop((flat, nested)));
        } else {
            let f = mk(&j.progs[0]);
            let m = f.m();
            out.push(("generalized_jacobian".to_string(), generalized_jacobian(&f, &x, &d, &j.bits, next_of(j, m))));
            let mut t = f.tape(&x);
            if j.moved {
                let away = x.map(|v| v + 0.125);
                calm("zero_order", || t.zero_order(&away));
                calm("zero_order", || t.zero_order(&x));
            }
            out.push(("generalized_jacobian_tape".to_string(), generalized_jacobian_tape(t, &d, &j.bits, next_of(j, m))));
            quiet(|| drop(f));
        }
        out
    })
}
fn inner_bits(o: &Gj) -> Vec<u64> {
    let f = quiet(|| ProgFn::new(&o.progs[0]));
    let n = f.n();
    let g = generalized_jacobian(&f, &vecd(&point(&o.x, n, 1.0)), &vecd(&point(&o.d, n, 0.0)), &o.bits, None);
    quiet(|| drop(f));
    gj_bits(&g)
}
fn gj_bits(g: &GeneralizedJacobian) -> Vec<u64> {
    let mut v = vec![];
    put_gj(&mut v, g);
    v
}

/// Reference: linear part and offset of the piece selected at (x, d), the increment, and the multiplicity.
struct Affine {
    h: DMatrix<f64>,
    g: DVector<f64>,
    /// error scales
    eh: f64,
    inc: Vec<f64>,
    mult: usize,
}
fn reference(p: &Prog, x: &[f64], d: &[f64], bits: &[u8], exact: bool) -> Result<Affine, &'static str> {
    let want = pl(p, x, d).ok_or("ill-conditioned")?;
    let mut sig = vec![];
    let mut mult = 0;
    let mut at = 0;
    for z in &want.z {
        let t = z.0 + z.1;
        if exact {
            sig.push(if t < 0.0 {
                -1.0
            } else if t > 0.0 {
                1.0
            } else {
                mult += 1;
                let bit = bits.get(at / 8).map_or(false, |b| b >> (at % 8) & 1 == 1);
                at += 1;
                if bit {
                    1.0
                } else {
                    -1.0
                }
            });
        } else {
            if t.abs() <= 1e-6 * (1.0 + z.0.abs() + z.1.abs()) {
                return Err("near-tie");
            }
            sig.push(t.signum());
        }
    }
    let eval = |d: &[f64]| -> Option<Vec<E>> {
        let mut r = Ref::new(EPS, AbsMode::Signs(&sig));
        let xs: Vec<E> = x.iter().zip(d).map(|(v, d)| r.x(*v, *d)).collect();
        let y = r.eval(p, &xs);
        if r.ok {
            Some(y)
        } else {
            None
        }
    };
    let n = x.len();
    let base = eval(&vec![0.0; n]).ok_or("ill-conditioned")?;
    let m = base.len();
    let mut h = DMatrix::zeros(m, n);
    let mut eh: f64 = 1.0;
    for k in 0..n {
        let mut u = vec![0.0; n];
        u[k] = 1.0;
        let y = eval(&u).ok_or("ill-conditioned")?;
        for i in 0..m {
            h[(i, k)] = y[i].d - base[i].d;
            eh = eh.max(y[i].m).max(base[i].m).max(base[i].d.abs());
        }
    }
    Ok(Affine { h, g: DVector::from_iterator(m, base.iter().map(|e| e.d)), eh, inc: want.y.iter().map(|e| e.d).collect(), mult })
}

pub fn exec_gj(v: &Value) {
    let p: PlanGj = plan(v);
    for j in &p.jobs {
        if j.progs.is_empty() || j.progs.windows(2).any(|w| w[0].m() != w[1].n()) || (!j.chain && j.progs.len() != 1) {
            crate::sim::skip("bad-chain");
        }
    }
    let within: Vec<Inside> = quiet(|| p.jobs.iter().map(|_| inside()).collect());
    let got: Vec<RealMutex<Vec<(String, GeneralizedJacobian)>>> = quiet(|| p.jobs.iter().map(|_| RealMutex::new(vec![])).collect());
    let mut tasks: Vec<Task> = vec![];
    let next = |i: usize| &p.jobs[(i + 1) % p.jobs.len()];
    for (i, (j, g)) in p.jobs.iter().zip(&got).enumerate() {
        let w = &within[i];
        tasks.push(Box::new(move || {
            let r = gj(j, next(i), w);
            quiet(|| *g.lock().unwrap() = r);
        }));
    }
    run_threads(tasks);
    rt::set_serial(true);
    for (i, (j, g)) in p.jobs.iter().zip(&got).enumerate() {
        let r = g.lock().unwrap();
        let plain = quiet(|| Gj { inner: 0, ..j.clone() });
        let alone = gj(&plain, next(i), &within[i]);
        if let Some(got) = quiet(|| within[i].lock().unwrap().take()) {
            require!(got == inner_bits(next(i)), "schedule-dependent", "a generalized Jacobian computed inside a function differs from the one computed alone");
        }
        for ((name, a), (_, b)) in r.iter().zip(&alone) {
            require!(gj_bits(a) == gj_bits(b), "schedule-dependent", "{}: differs from the result computed alone", name);
        }
        for (name, a) in r.iter() {
            // one more way to compute the same: bit for bit for budgets, and for tapes
            // (how a chain inside a chain is taken apart may change the rounding)
            if name.starts_with("nested") {
                quiet(|| check_gj(j, a));
            } else {
                require!(gj_bits(a) == gj_bits(&r[0].1), "budget-dependent", "{} gives another generalized Jacobian than {}", name, r[0].0);
            }
        }
        quiet(|| check_gj(j, &r[0].1));
    }
    rt::set_serial(false);
}
fn check_gj(j: &Gj, r: &GeneralizedJacobian) {
    let mut x = point(&j.x, j.progs[0].n(), 1.0);
    let mut d = point(&j.d, j.progs[0].n(), 0.0);
    let n = x.len();
    let d0 = vecd(&d);
    let mut h = DMatrix::identity(n, n);
    let mut g = DVector::zeros(n);
    let mut mult = 0;
    let mut sc: f64 = 1.0;
    for p in &j.progs {
        let zero = [0u8];
        let a = match reference(p, &x, &d, if j.chain { &zero } else { &j.bits }, j.exact) {
            Ok(a) => a,
            Err(why) => {
                rt::count(why);
                return;
            }
        };
        h = &a.h * h;
        g = &a.h * g + &a.g;
        mult += a.mult;
        sc *= a.eh * 2.0;
        // errors accumulate in the point and the direction, too
        x = values(p, &x);
        d = a.inc;
    }
    let mut inc = vecd(&d);
    if let Some(nx) = next_of(j, h.nrows()) {
        h = &nx.homogenous * h;
        g = &nx.homogenous * g + &nx.inhomogenous;
        inc = &nx.homogenous * inc + &nx.inhomogenous;
        mult += nx.multiplicity;
        sc *= 8.0;
    }
    if sc > 1e8 {
        rt::count("ill-conditioned");
        return;
    }
    rt::count("maps_compared");
    if mult > 0 {
        rt::count("ties_decided_by_sign_bits");
    }
    let m = h.nrows();
    require!(r.homogenous.nrows() == m && r.homogenous.ncols() == n && r.inhomogenous.nrows() == m, "dims", "{}x{} linear part and {} offsets for {} results and {} arguments", r.homogenous.nrows(), r.homogenous.ncols(), r.inhomogenous.nrows(), m, n);
    require!(r.multiplicity == mult, "multiplicity", "multiplicity {} although {} switching variables are zero there", r.multiplicity, mult);
    let tol = 1e-12 * sc * 64.0;
    for i in 0..m {
        for k in 0..n {
            require!((r.homogenous[(i, k)] - h[(i, k)]).abs() <= tol, "linear-part", "linear part ({}, {}) is {:?}, expected {:?}", i, k, r.homogenous[(i, k)], h[(i, k)]);
        }
        require!((r.inhomogenous[i] - g[i]).abs() <= tol, "offset", "offset {} is {:?}, expected {:?}", i, r.inhomogenous[i], g[i]);
    }
    let at = &r.homogenous * &d0 + &r.inhomogenous;
    for i in 0..m {
        require!((at[i] - inc[i]).abs() <= tol * (1.0 + d0.iter().map(|v| v.abs()).sum::<f64>()), "increment", "at the direction itself the map gives {:?} for result {}, the piecewise linearization {:?}", at[i], i, inc[i]);
    }
}
