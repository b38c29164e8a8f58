//! Random expression programs, evaluated (a) by the real library on its number types, (b) as plain f64 and
//! (c) by an independent reference that also bounds the rounding errors of (a).
use crate::rng::Rng;
use advantage::{AFloat, DVector, Float, Function, Tape};
use crate::sim::quiet;
use lazy_static::rt;
use serde::{Deserialize, Serialize};
use std::ops::{Add, AddAssign, Div, DivAssign, Mul, MulAssign, Sub, SubAssign};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub k: u8,
    pub a: u32,
    pub b: u32,
    pub c: f64,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OutRef {
    pub a: u32,
    /// a constant instead of a node
    pub c: Option<f64>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    pub n: u32,
    pub ops: Vec<Op>,
    pub outs: Vec<OutRef>,
    /// how its tape is made: 0 by Function::tape, else by hand; 1 arguments are marked as late as possible, 2 results
    /// as early as possible, 4 unused operations in between; 8 in a tape type of the user's own; 16 the function is
    /// one defined with the function macro
    #[serde(default)]
    pub hand: u8,
}

pub const KINDS: [&str; 63] = [
    "add", "sub", "mul", "div", "add_vf", "sub_vf", "mul_vf", "div_vf", "add_fv", "sub_fv", "mul_fv", "div_fv",
    "add_vk", "sub_vk", "mul_vk", "div_vk", "add_kv", "sub_kv", "mul_kv", "div_kv", "add_asg", "sub_asg", "mul_asg",
    "div_asg", "add_asgf", "sub_asgf", "mul_asgf", "div_asgf", "neg", "sin", "cos", "tan", "abs", "exp", "ln", "asin",
    "acos", "atan", "powf", "powf_vk", "powf_kv", "powi", "sqrt", "exp2", "log", "log2", "log10", "max", "min",
    "abs_sub", "cbrt", "hypot", "mul_add", "recip", "sin_cos", "max_k", "min_k", "const", "copy", "square", "to_degrees", "to_radians",
    "accumulate",
];
pub const NK: usize = 63;
pub const ABS: u8 = 32;
pub const CONST: u8 = 57;
pub const COPY: u8 = 58;
pub const ACCUMULATE: u8 = 62;

/// What the real operators need.
pub trait Num:
    Float
    + Add<f64, Output = Self>
    + Sub<f64, Output = Self>
    + Mul<f64, Output = Self>
    + Div<f64, Output = Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + DivAssign
    + AddAssign<f64>
    + SubAssign<f64>
    + MulAssign<f64>
    + DivAssign<f64>
{
    fn fadd(a: f64, b: Self) -> Self;
    fn fsub(a: f64, b: Self) -> Self;
    fn fmul(a: f64, b: Self) -> Self;
    fn fdiv(a: f64, b: Self) -> Self;
}
macro_rules! num_impl {
    () => {
        fn fadd(a: f64, b: Self) -> Self {
            a + b
        }
        fn fsub(a: f64, b: Self) -> Self {
            a - b
        }
        fn fmul(a: f64, b: Self) -> Self {
            a * b
        }
        fn fdiv(a: f64, b: Self) -> Self {
            a / b
        }
    };
}
impl Num for f64 {
    num_impl!();
}
impl<S: Float> Num for AFloat<S> {
    num_impl!();
}

pub fn cst<F: Float>(c: f64) -> F {
    // the ways there are to make a constant
    match c {
        c if c == 0.0 && c.is_sign_negative() => F::neg_zero(),
        c if c == 0.0 => F::zero(),
        c if c == 1.0 => F::one(),
        c if c == -2.0 => F::from_str_radix("-2", 10).ok().unwrap(),
        c if c == 2.0 => <F as num_traits::NumCast>::from(2u8).unwrap(),
        c if c == 3.0 => <F as num_traits::NumCast>::from(3i64).unwrap(),
        c if c == f64::MIN_POSITIVE => F::min_positive_value(),
        c => <F as num_traits::NumCast>::from(c).unwrap(),
    }
}

/// How often the accumulating operation adds, and what fraction of its operand: far more operations than anything else in
/// a program, every one of which matters, without leaving the range or the precision of anything
fn accumulate(c: f64) -> (usize, f64) {
    let n = if (0.0..=80_000.0).contains(&c) { c as usize } else { 2 };
    (n, if n > 256 { 1.0 / 65536.0 } else { 1.0 / 256.0 })
}
/// One operation through the library's own operators and methods.
pub fn apply<F: Num>(k: u8, a: F, b: F, c: f64) -> F {
    let kc = || cst::<F>(c);
    match k {
        0 => a + b,
        1 => a - b,
        2 => a * b,
        3 => a / b,
        4 => a + c,
        5 => a - c,
        6 => a * c,
        7 => a / c,
        8 => F::fadd(c, a),
        9 => F::fsub(c, a),
        10 => F::fmul(c, a),
        11 => F::fdiv(c, a),
        12 => a + kc(),
        13 => a - kc(),
        14 => a * kc(),
        15 => a / kc(),
        16 => kc() + a,
        17 => kc() - a,
        18 => kc() * a,
        19 => kc() / a,
        20 => {
            let mut r = a;
            r += b;
            r
        }
        21 => {
            let mut r = a;
            r -= b;
            r
        }
        22 => {
            let mut r = a;
            r *= b;
            r
        }
        23 => {
            let mut r = a;
            r /= b;
            r
        }
        24 => {
            let mut r = a;
            r += c;
            r
        }
        25 => {
            let mut r = a;
            r -= c;
            r
        }
        26 => {
            let mut r = a;
            r *= c;
            r
        }
        27 => {
            let mut r = a;
            r /= c;
            r
        }
        28 => -a,
        29 => a.sin(),
        30 => a.cos(),
        31 => a.tan(),
        32 => a.abs(),
        33 => a.exp(),
        34 => a.ln(),
        35 => a.asin(),
        36 => a.acos(),
        37 => a.atan(),
        38 => a.powf(b),
        39 => a.powf(kc()),
        40 => kc().powf(a),
        41 => a.powi(c as i32),
        42 => a.sqrt(),
        43 => a.exp2(),
        44 => a.log(b),
        45 => a.log2(),
        46 => a.log10(),
        47 => a.max(b),
        48 => a.min(b),
        49 => a.abs_sub(b),
        50 => a.cbrt(),
        51 => a.hypot(b),
        52 => a.mul_add(b, kc()),
        53 => a.recip(),
        54 => {
            let (s, t) = a.sin_cos();
            s * t
        }
        55 => a.max(kc()),
        56 => a.min(kc()),
        57 => kc(),
        58 => a,
        60 => a.to_degrees(),
        61 => a.to_radians(),
        62 => {
            let s = b * accumulate(c).1;
            if accumulate(c).0 > 200 {
                rt::long(accumulate(c).0 as u64);
                rt::count("long_programs");
            }
            let mut r = a;
            for _ in 0..accumulate(c).0 {
                r = r + s;
            }
            r
        }
        _ => a.powi(2),
    }
}

impl Prog {
    pub fn n(&self) -> usize {
        self.n as usize
    }
    pub fn m(&self) -> usize {
        self.outs.len()
    }
    /// Node i uses these earlier nodes (None: no node to refer to).
    pub fn refs(&self, i: usize) -> (Option<usize>, Option<usize>) {
        let avail = self.n() + i;
        if avail == 0 {
            return (None, None);
        }
        let o = &self.ops[i];
        (Some(o.a as usize % avail), Some(o.b as usize % avail))
    }
    pub fn out_node(&self, o: &OutRef) -> Option<usize> {
        let avail = self.n() + self.ops.len();
        if o.c.is_some() || avail == 0 {
            None
        } else {
            Some(o.a as usize % avail)
        }
    }
    pub fn out_const(&self, o: &OutRef) -> f64 {
        o.c.unwrap_or(1.0)
    }
    /// All nodes, through the real operators; `before(i)` runs before operation i.
    pub fn nodes<F: Num>(&self, x: &[F], before: &dyn Fn(usize)) -> Vec<F> {
        let mut v: Vec<F> = {
            let _q = rt::Quiet::new();
            let mut v = Vec::with_capacity(self.n() + self.ops.len());
            v.extend_from_slice(x);
            v
        };
        for i in 0..self.ops.len() {
            before(i);
            let o = &self.ops[i];
            let r = match self.refs(i) {
                (Some(a), Some(b)) => apply(o.k, v[a], v[b], o.c),
                _ => cst(o.c),
            };
            v.push(r);
        }
        v
    }
    pub fn eval<F: Num>(&self, x: &[F]) -> Vec<F> {
        self.eval_hook(x, &|_| ())
    }
    pub fn eval_hook<F: Num>(&self, x: &[F], before: &dyn Fn(usize)) -> Vec<F> {
        let v = QVec(Some(self.nodes(x, before)));
        let v = v.0.as_ref().unwrap();
        let _q = rt::Quiet::new();
        self.outs.iter().map(|o| self.out_node(o).map_or_else(|| cst(self.out_const(o)), |i| v[i])).collect()
    }
    pub fn has_abs(&self) -> bool {
        self.ops.iter().any(|o| is_nonsmooth(o.k))
    }
}
/// a vector of the harness': freed without being counted
pub struct QVec<T>(pub Option<Vec<T>>);
impl<T> Drop for QVec<T> {
    fn drop(&mut self) {
        let _q = rt::Quiet::new();
        self.0 = None;
    }
}

pub fn is_nonsmooth(k: u8) -> bool {
    matches!(k, 32 | 47 | 48 | 49 | 55 | 56)
}

// ------------------------------------------------------------------------------------------------
// The reference.

/// Value `v`, directional (or piecewise-linear) increment `d`, bounds `ev`, `ed` on the rounding errors any
/// reasonable evaluation order makes in them, and `m` >= sum over all paths of |product of partials|.
#[derive(Clone, Copy, Debug)]
pub struct E {
    pub v: f64,
    pub d: f64,
    pub ev: f64,
    pub ed: f64,
    pub m: f64,
    /// depends on an argument (and is therefore recorded)
    pub act: bool,
}
/// How the absolute value differentiates in the reference.
pub enum AbsMode<'a> {
    /// |v + d| - |v| (piecewise linearization)
    Increment,
    /// the sign chosen for the i-th switching variable: sigma_i * (v + d) - |v|
    Signs(&'a [f64]),
    /// derivative
    Smooth,
}
pub struct Ref<'a> {
    pub eps: f64,
    pub mode: AbsMode<'a>,
    /// switching variables in order: (z, dz, error of z, error of dz)
    pub z: Vec<(f64, f64, f64, f64)>,
    /// false if the value leaves the domain in which the bounds mean anything
    pub ok: bool,
    /// smallest distance of a max/abs argument from its kink
    pub strict: bool,
}
impl<'a> Ref<'a> {
    pub fn new(eps: f64, mode: AbsMode<'a>) -> Ref<'a> {
        Ref { eps, mode, z: vec![], ok: true, strict: true }
    }
    pub fn c(&self, v: f64) -> E {
        // a constant is rounded to the precision of the number type
        E { v, d: 0.0, ev: self.eps * v.abs(), ed: 0.0, m: 0.0, act: false }
    }
    /// a constant the number type represents exactly
    pub fn k(&self, v: f64) -> E {
        E { v, d: 0.0, ev: 0.0, ed: 0.0, m: 0.0, act: false }
    }
    pub fn x(&self, v: f64, d: f64) -> E {
        E { v, d, ev: self.eps * v.abs(), ed: self.eps * d.abs(), m: d.abs(), act: true }
    }
    fn un(&self, a: E, v: f64, p: f64, pp: f64) -> E {
        let ev = p.abs() * a.ev + 8.0 * self.eps * v.abs() + pp.abs() * a.ev * a.ev;
        let ep = 2.0 * pp.abs() * a.ev + 32.0 * self.eps * p.abs();
        E {
            v,
            d: p * a.d,
            ev,
            ed: p.abs() * a.ed + ep * a.m + 16.0 * self.eps * p.abs() * a.m,
            m: p.abs() * a.m,
            act: a.act,
        }
    }
    fn bi(&self, a: E, b: E, v: f64, pa: f64, pb: f64, epa: f64, epb: f64) -> E {
        let ev = pa.abs() * a.ev + pb.abs() * b.ev + a.ev * b.ev + 8.0 * self.eps * v.abs();
        let m = pa.abs() * a.m + pb.abs() * b.m;
        E {
            v,
            d: pa * a.d + pb * b.d,
            ev,
            ed: pa.abs() * a.ed
                + pb.abs() * b.ed
                + (2.0 * epa + 32.0 * self.eps * pa.abs()) * a.m
                + (2.0 * epb + 32.0 * self.eps * pb.abs()) * b.m
                + 16.0 * self.eps * m,
            m,
            act: a.act || b.act,
        }
    }
    pub fn add(&self, a: E, b: E) -> E {
        self.bi(a, b, a.v + b.v, 1.0, 1.0, 0.0, 0.0)
    }
    pub fn sub(&self, a: E, b: E) -> E {
        self.bi(a, b, a.v - b.v, 1.0, -1.0, 0.0, 0.0)
    }
    pub fn mul(&self, a: E, b: E) -> E {
        self.bi(a, b, a.v * b.v, b.v, a.v, b.ev, a.ev)
    }
    pub fn div(&mut self, a: E, b: E) -> E {
        let i = 1.0 / b.v;
        if b.v.abs() < 1e-3 {
            self.ok = false;
        }
        self.bi(
            a,
            b,
            a.v / b.v,
            i,
            -a.v * i * i,
            b.ev * i * i,
            a.ev * i * i + 2.0 * (a.v * i * i * i).abs() * b.ev,
        )
    }
    pub fn sin(&self, a: E) -> E {
        self.un(a, a.v.sin(), a.v.cos(), 1.0)
    }
    pub fn cos(&self, a: E) -> E {
        self.un(a, a.v.cos(), -a.v.sin(), 1.0)
    }
    pub fn ln(&mut self, a: E) -> E {
        if a.v < 1e-3 {
            self.ok = false;
        }
        // near 1 the logarithm is only as accurate as its argument
        let mut e = self.un(a, a.v.ln(), 1.0 / a.v, 1.0 / (a.v * a.v));
        e.ev += 4.0 * self.eps * 1.0;
        e
    }
    /// x^y; `ydep`: the exponent is a variable
    pub fn pow(&mut self, x: E, y: E) -> E {
        let v = x.v.powf(y.v);
        if x.v.abs() < 1e-3 {
            self.ok = false;
        }
        let ydep = y.m != 0.0;
        if (ydep || y.ev != 0.0) && x.v < 1e-3 {
            self.ok = false;
        }
        let l = if x.v > 0.0 { x.v.ln() } else { 0.0 };
        let px = y.v * x.v.powf(y.v - 1.0);
        let pxx = y.v * (y.v - 1.0) * x.v.powf(y.v - 2.0);
        let pxy = x.v.abs().powf(y.v - 1.0) * (1.0 + (y.v * l).abs());
        let (py, pyy) = if x.v > 0.0 { (l * v, l * l * v) } else { (0.0, 0.0) };
        let mut e = self.bi(
            x,
            y,
            v,
            px,
            py,
            pxx.abs() * x.ev + pxy * y.ev,
            pxy * x.ev + pyy.abs() * y.ev + 8.0 * self.eps * v.abs(),
        );
        // other ways of computing powers (repeated multiplication, exp(y ln x))
        e.ev += self.eps * v.abs() * (16.0 + 8.0 * y.v.abs() * (1.0 + l.abs()));
        e.ed += self.eps * (16.0 + 8.0 * y.v.abs() * (1.0 + l.abs())) * e.m;
        e
    }
    pub fn abs(&mut self, a: E) -> E {
        let i = self.z.len();
        if a.act {
            self.z.push((a.v, a.d, a.ev, a.ed));
        }
        if !self.strict {
            // values only
            return E { v: a.v.abs(), d: a.d.abs(), ev: a.ev, ed: a.ed, m: a.m, act: a.act };
        }
        match &self.mode {
            AbsMode::Increment => {
                let d = (a.v + a.d).abs() - a.v.abs();
                E { v: a.v.abs(), d, ev: a.ev, ed: a.ed + 2.0 * a.ev + 4.0 * self.eps * (a.v.abs() + a.m), m: a.m, act: a.act }
            }
            AbsMode::Signs(s) => {
                if !a.act {
                    return E { v: a.v.abs(), d: 0.0, ev: a.ev, ed: 0.0, m: 0.0, act: false };
                }
                let g = if i < s.len() { s[i] } else { 0.0 };
                let d = g * (a.v + a.d) - a.v.abs();
                E {
                    v: a.v.abs(),
                    d,
                    ev: a.ev,
                    ed: a.ed + 2.0 * a.ev + 4.0 * self.eps * (a.v.abs() + a.m),
                    m: a.m + 2.0 * a.v.abs(),
                    act: a.act,
                }
            }
            AbsMode::Smooth => {
                let s = if a.v < 0.0 { -1.0 } else { 1.0 };
                E { v: a.v.abs(), d: s * a.d, ev: a.ev, ed: a.ed, m: a.m, act: a.act }
            }
        }
    }
    pub fn op(&mut self, k: u8, a: E, b: E, c: f64) -> E {
        let r = match k {
            0 | 20 => self.add(a, b),
            1 | 21 => self.sub(a, b),
            2 | 22 => self.mul(a, b),
            3 | 23 => self.div(a, b),
            4 | 8 | 12 | 16 | 24 => {
                let c = self.c(c);
                self.add(a, c)
            }
            5 | 13 | 25 => {
                let c = self.c(c);
                self.sub(a, c)
            }
            9 | 17 => {
                let c = self.c(c);
                self.sub(c, a)
            }
            6 | 10 | 14 | 18 | 26 => {
                let c = self.c(c);
                self.mul(a, c)
            }
            7 | 15 | 27 => {
                let c = self.c(c);
                self.div(a, c)
            }
            11 | 19 => {
                let c = self.c(c);
                self.div(c, a)
            }
            28 => {
                let z = self.k(0.0);
                self.sub(z, a)
            }
            29 => self.sin(a),
            30 => self.cos(a),
            31 => {
                let s = 1.0 / (a.v.cos() * a.v.cos());
                if a.v.cos().abs() < 1e-2 {
                    self.ok = false;
                }
                self.un(a, a.v.tan(), s, 2.0 * s * a.v.tan())
            }
            32 => self.abs(a),
            33 => {
                let e = a.v.exp();
                let mut r = self.un(a, e, e, e);
                r.ev += self.eps * e * 4.0 * a.v.abs();
                r
            }
            34 => self.ln(a),
            35 | 36 => {
                let w = 1.0 - a.v * a.v;
                if w < 1e-2 {
                    self.ok = false;
                }
                let p = 1.0 / w.sqrt();
                let pp = a.v.abs() / (w * w.sqrt());
                if k == 35 {
                    self.un(a, a.v.asin(), p, pp)
                } else {
                    self.un(a, a.v.acos(), -p, pp)
                }
            }
            37 => self.un(a, a.v.atan(), 1.0 / (1.0 + a.v * a.v), 1.0),
            38 => self.pow(a, b),
            39 => {
                // the exponents the generator uses are exact in single precision
                let c = self.k(c);
                self.pow(a, c)
            }
            40 => {
                let c = self.c(c);
                self.pow(c, a)
            }
            41 => {
                let c = self.k((c as i32) as f64);
                self.pow(a, c)
            }
            42 => {
                let c = self.k(0.5);
                self.pow(a, c)
            }
            43 => {
                let c = self.k(2.0);
                self.pow(c, a)
            }
            44 => {
                let x = self.ln(a);
                let y = self.ln(b);
                self.div(x, y)
            }
            45 => {
                let x = self.ln(a);
                let t = self.k(2.0);
                let y = self.ln(t);
                self.div(x, y)
            }
            46 => {
                let x = self.ln(a);
                let t = self.k(10.0);
                let y = self.ln(t);
                self.div(x, y)
            }
            47 | 48 | 55 | 56 => {
                let b = if k >= 55 { self.c(c) } else { b };
                let s = self.add(a, b);
                let t = self.sub(a, b);
                let t = self.abs(t);
                let r = if k == 47 || k == 55 { self.add(s, t) } else { self.sub(s, t) };
                let h = self.k(0.5);
                self.mul(h, r)
            }
            49 => {
                let t = self.sub(a, b);
                self.abs(t)
            }
            50 => {
                let t = self.c(1.0 / 3.0);
                if a.v < 1e-3 {
                    self.ok = false;
                }
                self.pow(a, t)
            }
            51 => {
                let t = self.k(2.0);
                let x = self.pow(a, t);
                let y = self.pow(b, t);
                let s = self.add(x, y);
                let h = self.k(0.5);
                self.pow(s, h)
            }
            52 => {
                let p = self.mul(a, b);
                let c = self.c(c);
                self.add(p, c)
            }
            53 => {
                let o = self.k(1.0);
                self.div(o, a)
            }
            54 => {
                let s = self.sin(a);
                let t = self.cos(a);
                self.mul(s, t)
            }
            57 => self.c(c),
            58 => a,
            62 => {
                let (count, f) = accumulate(c);
                let f = self.k(f);
                let s = self.mul(b, f);
                let mut r = a;
                for _ in 0..count {
                    r = self.add(r, s);
                }
                r
            }
            60 | 61 => {
                let f = std::f64::consts::PI / 180.0;
                let t = self.c(if k == 60 { 1.0 / f } else { f });
                self.mul(t, a)
            }
            _ => {
                let t = self.k(2.0);
                self.pow(a, t)
            }
        };
        // squares of such numbers leave the range of doubles, and the bounds say nothing about that
        let odd = |v: f64| v != 0.0 && v.abs() < 1e-100 || v.abs() > 1e100;
        if odd(c) || odd(a.v) || odd(b.v) || odd(r.v) {
            self.ok = false;
        }
        if !(r.v.abs() <= 1e6 && r.m <= 1e9 && r.ev.is_finite() && r.ed.is_finite()) {
            self.ok = false;
        }
        r
    }
    pub fn nodes(&mut self, p: &Prog, x: &[E]) -> Vec<E> {
        let mut v = x.to_vec();
        for i in 0..p.ops.len() {
            let o = &p.ops[i];
            let r = match p.refs(i) {
                (Some(a), Some(b)) => self.op(o.k, v[a], v[b], o.c),
                _ => self.c(o.c),
            };
            v.push(r);
        }
        v
    }
    pub fn eval(&mut self, p: &Prog, x: &[E]) -> Vec<E> {
        let v = self.nodes(p, x);
        p.outs.iter().map(|o| p.out_node(o).map_or_else(|| self.c(p.out_const(o)), |i| v[i])).collect()
    }
}

pub const EPS: f64 = 2.3e-16;
pub const EPS32: f64 = 1.2e-7;

/// Reference Jacobian (by column) of a smooth program; None outside the domain.
pub fn ref_jacobian(p: &Prog, x: &[f64]) -> Option<Vec<Vec<E>>> {
    let mut cols = vec![];
    for j in 0..p.n() {
        let mut r = Ref::new(EPS, AbsMode::Smooth);
        let xs: Vec<E> = x.iter().enumerate().map(|(i, v)| r.x(*v, (i == j) as u8 as f64)).collect();
        let y = r.eval(p, &xs);
        if !r.ok || y.iter().any(|e| e.ed > 1e-3 * (1.0 + e.m)) {
            return None;
        }
        cols.push(y);
    }
    Some(cols)
}
/// Reference values with bounds at a point.
pub fn ref_values(p: &Prog, x: &[f64], eps: f64) -> Option<Vec<E>> {
    let mut r = Ref::new(eps, AbsMode::Smooth);
    let xs: Vec<E> = x.iter().map(|v| r.x(*v, 0.0)).collect();
    let y = r.eval(p, &xs);
    if !r.ok || y.iter().any(|e| e.ev > 1e-2 * (1.0 + e.v.abs())) {
        return None;
    }
    Some(y)
}
pub fn close_v(got: f64, e: &E) -> bool {
    (got - e.v).abs() <= 4.0 * e.ev + 1e-13 * (1.0 + e.v.abs()).min(1.0 + 1e3)
}
pub fn close_d(got: f64, e: &E) -> bool {
    (got - e.d).abs() <= 4.0 * e.ed + 1e-13 * (1.0 + e.m)
}
/// equal bit for bit, all NaNs alike
pub fn same(a: f64, b: f64) -> bool {
    a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan())
}
pub fn same_all(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same(*x, *y))
}

// ------------------------------------------------------------------------------------------------
// Generation.

#[derive(Clone, Copy, PartialEq)]
pub enum Class {
    /// smooth operations only
    Smooth,
    /// smooth operations and absolute values
    Piecewise,
    /// sums, dyadic multiples and absolute values of small dyadic numbers: exact in floating point
    Exact,
}

pub struct GenCfg {
    pub n: usize,
    pub m: usize,
    pub ops: usize,
    pub class: Class,
    /// constants as results, results that are arguments
    pub odd_outs: bool,
}

const SMOOTH_W: [u32; NK] = {
    let mut w = [2u32; NK];
    w[32] = 0;
    w[47] = 0;
    w[48] = 0;
    w[49] = 0;
    w[55] = 0;
    w[56] = 0;
    w[0] = 5;
    w[1] = 5;
    w[2] = 6;
    w[3] = 5;
    w[29] = 4;
    w[30] = 4;
    w[33] = 4;
    w[34] = 4;
    w[38] = 4;
    w[CONST as usize] = 2;
    w[COPY as usize] = 1;
    w[60] = 1;
    w[61] = 1;
    w[ACCUMULATE as usize] = 0;
    w
};
fn weights(class: Class) -> [u32; NK] {
    let mut w = SMOOTH_W;
    match class {
        Class::Smooth => {}
        Class::Piecewise => {
            w[32] = 14;
            w[47] = 8;
            w[48] = 8;
            w[49] = 3;
            w[55] = 6;
            w[56] = 6;
        }
        Class::Exact => {
            w = [0; NK];
            for k in [0, 1, 4, 5, 6, 8, 9, 10, 12, 13, 14, 16, 17, 18, 20, 21, 24, 25, 26, 28] {
                w[k] = 2;
            }
            w[0] = 6;
            w[1] = 8;
            w[32] = 14;
            w[47] = 8;
            w[48] = 8;
            w[49] = 3;
            w[55] = 6;
            w[56] = 6;
            w[57] = 1;
            w[58] = 1;
        }
    }
    w
}

/// Mostly `usual`, once in a while much more: what hides behind a size.
pub fn rarely(r: &mut Rng, one_in: usize, usual: usize, big: usize) -> usize {
    if r.chance(1, one_in as u32) {
        big
    } else {
        usual
    }
}
pub const WILD: [f64; 12] = [
    0.0,
    -0.0,
    f64::MIN_POSITIVE,
    5e-324,
    -5e-324,
    1e-40,
    1e308,
    -1e308,
    1e39,
    1e-200,
    16777217.0,
    -1.0,
];
/// Puts unusual numbers into constants (and, as the results of operations on them, infinities and NaNs everywhere).
/// Only for oracles that compare the library with itself.
pub fn wild(r: &mut Rng, p: &mut Prog, x: &mut [f64]) {
    for o in p.ops.iter_mut() {
        if r.chance(1, 5) {
            o.c = *r.pick(&WILD);
        }
        if r.chance(1, 6) {
            o.k = r.below(NK) as u8;
        }
    }
    for v in x.iter_mut() {
        if r.chance(1, 4) {
            *v = *r.pick(&WILD);
        }
    }
    for o in p.outs.iter_mut() {
        if o.c.is_some() && r.chance(1, 2) {
            o.c = Some(*r.pick(&WILD));
        }
    }
}

/// Constants that differ in little: signed zeros, one constant and its negative, neighbours.
pub fn twins(r: &mut Rng, p: &mut Prog) {
    let v: f64 = *r.pick(&[0.0, 0.0, 1.0, 0.5, 3.0]);
    let near = f64::from_bits(v.to_bits() + 1);
    let set = if v == 0.0 { [0.0, -0.0, 0.0, -0.0] } else { [v, -v, near, v] };
    for o in p.ops.iter_mut() {
        if r.chance(1, 2) {
            o.k = *r.pick(&[6, 7, 10, 11, 14, 15, 18, 19, 11, 19, 3, 39]);
        }
        if r.chance(2, 3) {
            o.c = *r.pick(&set);
        }
    }
}

pub fn gen_x(r: &mut Rng, n: usize, class: Class) -> Vec<f64> {
    // all arguments from a small set: ties, zeros, equal arguments
    let special = r.chance(1, 6);
    (0..n)
        .map(|_| match class {
            Class::Exact => r.range(0, 8) as f64 - 4.0,
            _ if special && r.chance(1, 2) => *r.pick(&[0.0, 1.0, -1.0, 2.0, 0.5, -0.5, -0.0, 0.25]),
            _ => {
                let v = r.float(-2.0, 2.5);
                // values that single precision represents exactly
                let v = (v as f32) as f64;
                if v.abs() < 0.05 {
                    0.5
                } else {
                    v
                }
            }
        })
        .collect()
}

/// A random program that stays well inside the domain of all its operations at every given point.
pub fn gen_prog(r: &mut Rng, g: &GenCfg, points: &[Vec<f64>]) -> Prog {
    let w = weights(g.class);
    let mut p = Prog { n: g.n as u32, ops: vec![], outs: vec![], hand: 0 };
    // per point: values with all-ones directions, so that m bounds every gradient
    let mk = |x: &Vec<f64>| -> Vec<E> {
        let rf = Ref::new(EPS, AbsMode::Smooth);
        x.iter().map(|v| rf.x(*v, 1.0)).collect()
    };
    let mut vals: Vec<Vec<E>> = points.iter().map(mk).collect();
    let mut tries = 0;
    while p.ops.len() < g.ops && tries < g.ops * 30 + 50 {
        tries += 1;
        let avail = g.n + p.ops.len();
        let k = if avail == 0 { CONST } else { r.weighted(&w) as u8 };
        let a = pick_node(r, avail);
        let b = pick_node(r, avail);
        let c = gen_const(r, k, g.class);
        let op = Op { k, a: a as u32, b: b as u32, c };
        let mut new = vec![];
        let mut ok = true;
        for v in &vals {
            let mut rf = Ref::new(EPS, AbsMode::Smooth);
            let e = if avail == 0 { rf.c(c) } else { rf.op(k, v[a], v[b], c) };
            ok &= rf.ok && admissible(k, v.get(a), v.get(b), c, &e, g.class);
            new.push(e);
        }
        if !ok {
            continue;
        }
        for (v, e) in vals.iter_mut().zip(new) {
            v.push(e);
        }
        p.ops.push(op);
    }
    let avail = g.n + p.ops.len();
    for i in 0..g.m {
        let o = if avail == 0 || (g.odd_outs && r.chance(1, 12)) {
            OutRef { a: 0, c: Some((r.range(0, 16) as f64 - 8.0) / 4.0) }
        } else if g.odd_outs && i > 0 && r.chance(1, 8) {
            p.outs[r.below(i)].clone()
        } else if g.odd_outs && r.chance(1, 10) {
            OutRef { a: r.below(avail) as u32, c: None }
        } else {
            // late nodes, so that most of the program matters
            let back = r.below(1 + g.m.max(2)).min(avail - 1);
            OutRef { a: (avail - 1 - back) as u32, c: None }
        };
        p.outs.push(o);
    }
    if avail > 0 && r.chance(1, 1500) {
        lengthen(r, &mut p);
    }
    if r.chance(1, 6) {
        p.hand = r.range(1, 31) as u8;
    }
    p
}
/// A plan whose calls are repeated many times: without the programs that are very long.
pub fn brief(mut v: serde_json::Value) -> serde_json::Value {
    fn walk(v: &mut serde_json::Value) {
        if let serde_json::Value::Object(o) = v {
            let long = o.get("k").and_then(|k| k.as_u64()) == Some(ACCUMULATE as u64);
            if let (true, Some(c)) = (long, o.get_mut("c")) {
                *c = serde_json::json!(c.as_f64().unwrap_or(0.0).min(300.0));
            }
            o.values_mut().for_each(walk);
        } else if let serde_json::Value::Array(a) = v {
            a.iter_mut().for_each(walk);
        }
    }
    walk(&mut v);
    v
}
/// Makes a recording of the program longer than any small number type counts.
pub fn lengthen(r: &mut Rng, p: &mut Prog) {
    let avail = p.n() + p.ops.len();
    let mut pick = || r.below(avail) as u32;
    let (a, b) = (pick(), pick());
    let c = *r.pick(&[255.0, 257.0, 1025.0, 4097.0, 32769.0, 66000.0]) + r.below(3) as f64;
    p.ops.push(Op { k: ACCUMULATE, a, b, c });
    if !p.outs.is_empty() {
        let i = r.below(p.outs.len());
        p.outs[i] = OutRef { a: avail as u32, c: None };
    }
}
fn pick_node(r: &mut Rng, avail: usize) -> usize {
    if avail == 0 {
        0
    } else if r.chance(1, 2) {
        avail - 1 - r.below(avail.min(3))
    } else {
        r.below(avail)
    }
}
fn gen_const(r: &mut Rng, k: u8, class: Class) -> f64 {
    if class == Class::Exact {
        return match k {
            6 | 10 | 14 | 18 | 26 => *r.pick(&[0.5, 2.0, -1.0, -0.5, -2.0, 1.0, 0.0]),
            _ => r.range(0, 12) as f64 / 2.0 - 3.0,
        };
    }
    match k {
        39 => *r.pick(&[0.5, 1.5, 2.0, 2.5, 3.0, -1.0, -0.5, 0.25, 0.0, 1.0, -2.0, 4.0]),
        40 => *r.pick(&[0.5, 1.5, 2.0, 3.0]),
        41 => *r.pick(&[1.0, 2.0, 3.0, 4.0, -1.0, -2.0, 0.0, 5.0, 8.0, -3.0]),
        _ if r.chance(1, 8) => *r.pick(&[0.0, 1.0, -1.0, 2.0, 0.5, -0.0, 0.25]),
        _ => {
            let v = (r.float(-3.0, 3.0) as f32) as f64;
            if v.abs() < 0.1 {
                1.25
            } else {
                v
            }
        }
    }
}
fn admissible(k: u8, a: Option<&E>, b: Option<&E>, c: f64, e: &E, class: Class) -> bool {
    let z = E { v: 1.0, d: 0.0, ev: 0.0, ed: 0.0, m: 0.0, act: false };
    let a = *a.unwrap_or(&z);
    let b = *b.unwrap_or(&z);
    if !(e.v.is_finite() && e.v.abs() <= 1e3 && e.m <= 1e4) {
        return false;
    }
    if class == Class::Exact {
        return e.v.abs() <= 256.0 && e.m <= 256.0 && (e.v * 64.0).fract() == 0.0;
    }
    // squares of tiny numbers and the like lose all relative accuracy in single precision; stay away
    match k {
        3 | 23 => b.v.abs() >= 0.1,
        11 | 19 | 53 => a.v.abs() >= 0.1,
        7 | 15 | 27 => c.abs() >= 0.1,
        31 => a.v.cos().abs() >= 0.3,
        33 | 43 => a.v.abs() <= 5.0,
        34 | 45 | 46 => a.v >= 0.1,
        35 | 36 => a.v.abs() <= 0.85,
        38 => a.v >= 0.2 && b.v.abs() <= 3.0,
        39 | 42 | 50 => a.v >= 0.1,
        40 => a.v.abs() <= 4.0,
        41 => a.v.abs() >= 0.1,
        44 => a.v >= 0.1 && b.v >= 0.1 && b.v.ln().abs() >= 0.2,
        51 => a.v.abs() >= 0.1 && b.v.abs() >= 0.1,
        59 => a.v.abs() >= 0.1,
        29 | 30 | 54 => a.v.abs() <= 50.0,
        _ => true,
    }
}

// ------------------------------------------------------------------------------------------------
// As a function object of the library.

pub struct ProgFn {
    pub p: Prog,
    /// called at the start of an evaluation and before each operation; may panic
    pub hook: Option<UserCode>,
}
pub type UserCode = std::sync::Arc<dyn Fn(Where) + Send + Sync>;
pub enum Where {
    Enter,
    Op(#[allow(dead_code)] usize),
    /// the user's own tape is asked for its operations, for the nth time
    Tape(#[allow(dead_code)] usize),
}
impl ProgFn {
    pub fn new(p: &Prog) -> ProgFn {
        ProgFn { p: p.clone(), hook: None }
    }
    pub fn call(&self, x: DVector<advantage::ADouble>) -> DVector<advantage::ADouble> {
        if self.p.hand & 16 > 0 && x.nrows() == self.p.n() {
            // a function defined with the macro; it borrows this object for the call only
            return advantage::adv_fn_obj!(by_macro, At(self)).eval(x);
        }
        self.body(x)
    }
    fn body(&self, x: DVector<advantage::ADouble>) -> DVector<advantage::ADouble> {
        if let Some(h) = &self.hook {
            h(Where::Enter);
        }
        let y = match &self.hook {
            None => self.p.eval(x.as_slice()),
            Some(h) => self.p.eval_hook(x.as_slice(), &|i| h(Where::Op(i))),
        };
        let r = DVector::from_iterator(y.len(), y.iter().cloned());
        let _q = rt::Quiet::new();
        drop(y);
        r
    }
}
impl Function for ProgFn {
    fn n(&self) -> usize {
        self.p.n()
    }
    fn m(&self) -> usize {
        self.p.m()
    }
    fn eval(&self, x: DVector<advantage::ADouble>) -> DVector<advantage::ADouble> {
        self.call(x)
    }
    fn tape(&self, x: &DVector<f64>) -> Box<dyn Tape> {
        if self.p.hand & 15 == 0 || x.nrows() != self.p.n() {
            Plain(self).tape(x)
        } else {
            self.by_hand(x)
        }
    }
}
/// Argument of the macro-defined function.
#[derive(Clone)]
struct At(*const ProgFn);
unsafe impl Send for At {}
unsafe impl Sync for At {}
impl At {
    fn get(&self) -> &ProgFn {
        unsafe { &*self.0 }
    }
}
advantage::adv_fn! {
    fn by_macro(x: [[p.get().p.n()]], p: At) -> [[p.get().p.m()]] {
        let y = {
            let x: &dyn std::any::Any = &x;
            let x = x.downcast_ref::<DVector<advantage::ADouble>>().expect("only recorded numbers get here");
            p.get().body(x.clone())
        };
        let y: Box<dyn std::any::Any> = quiet(|| Box::new(y) as Box<dyn std::any::Any>);
        let y = y.downcast::<DVector<Scalar>>().unwrap();
        quiet(|| *y)
    }
}
/// With the tape that Function::tape makes.
struct Plain<'a>(&'a ProgFn);
impl Function for Plain<'_> {
    fn n(&self) -> usize {
        self.0.n()
    }
    fn m(&self) -> usize {
        self.0.m()
    }
    fn eval(&self, x: DVector<advantage::ADouble>) -> DVector<advantage::ADouble> {
        self.0.eval(x)
    }
}
impl ProgFn {
    /// A tape of the same function with arguments, results and operations in another order.
    fn by_hand(&self, x: &DVector<f64>) -> Box<dyn Tape> {
        let (p, n) = (&self.p, self.p.n());
        if let Some(h) = &self.hook {
            h(Where::Enter);
        }
        let mut ctx = advantage::AContext::new();
        let mut vars = quiet(|| QVec(Some(Vec::with_capacity(n + p.ops.len()))));
        let v: &mut Vec<advantage::ADouble> = vars.0.as_mut().unwrap();
        v.extend(x.iter().map(|x| advantage::ADouble::from(*x)));
        let (mut marked, mut done) = (0, 0);
        for i in 0..=p.ops.len() {
            let need = match p.ops.get(i) {
                Some(_) if p.hand & 1 > 0 => {
                    let (a, b) = p.refs(i);
                    a.into_iter().chain(b).filter(|a| *a < n).map(|a| a + 1).max().unwrap_or(0)
                }
                _ => n,
            };
            while marked < need {
                ctx.set_indep(&mut v[marked]);
                marked += 1;
            }
            while (p.hand & 2 > 0 || i == p.ops.len()) && done < p.outs.len() {
                match p.out_node(&p.outs[done]) {
                    None => ctx.set_dep(&cst::<advantage::ADouble>(p.out_const(&p.outs[done]))),
                    Some(k) if k < marked || (k >= n && k < v.len()) => ctx.set_dep(&v[k]),
                    _ => break,
                }
                done += 1;
            }
            if p.hand & 4 > 0 && i % 2 == 0 && marked > 0 {
                let unused = v[marked - 1].sin() * 0.5;
                let last = if v.len() > n { v.len() - 1 } else { 0 };
                let _ = if i % 4 == 0 { unused + v[last] } else { unused };
            }
            if let Some(o) = p.ops.get(i) {
                if let Some(h) = &self.hook {
                    h(Where::Op(i));
                }
                let r = match p.refs(i) {
                    (Some(a), Some(b)) => apply(o.k, v[a], v[b], o.c),
                    _ => cst(o.c),
                };
                v.push(r);
            }
        }
        if p.hand & 8 > 0 {
            let t = ctx.tape();
            let ops: Vec<advantage::Operation> = t.ops_iter().collect();
            return Box::new(OwnTape { args: t.indeps().to_vec(), results: t.deps().to_vec(), vals: t.values().to_vec(), ops, user: Some((self.hook.clone(), Default::default())).filter(|(h, _)| h.is_some()) });
        }
        Box::new(ctx.tape())
    }
}
/// A tape as a user of the library may implement one.
struct OwnTape {
    user: Option<(Option<UserCode>, std::sync::atomic::AtomicUsize)>,
    args: Vec<usize>,
    results: Vec<usize>,
    vals: Vec<f64>,
    ops: Vec<advantage::Operation>,
}
impl std::fmt::Debug for OwnTape {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "OwnTape of {} operations", self.ops.len())
    }
}
impl Tape for OwnTape {
    fn indeps(&self) -> &[usize] {
        &self.args
    }
    fn deps(&self) -> &[usize] {
        &self.results
    }
    fn values(&self) -> &[f64] {
        &self.vals
    }
    fn values_mut(&mut self) -> &mut [f64] {
        &mut self.vals
    }
    fn ops_iter<'a>(&'a self) -> Box<dyn DoubleEndedIterator<Item = advantage::Operation> + 'a> {
        if let Some((Some(h), n)) = &self.user {
            h(Where::Tape(n.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        }
        Box::new(self.ops.iter().copied())
    }
}
/// The same through the library's own wrapper.
pub fn simple(p: &Prog) -> impl Function {
    let q = ProgFn::new(p);
    advantage::SimpleFunction::new(q.p.n(), q.p.m(), move |x| q.call(x))
}
