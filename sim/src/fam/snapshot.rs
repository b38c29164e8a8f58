//! C04: a tape is one instant of its context, and from then on nobody's but its owner's.
use super::record::{diff, nan, snap, Snap};
use super::*;
use crate::sim::calm;
use std::collections::HashMap;
use std::sync::Mutex as RealMutex;

/// k: 0 multiply, 1 mark an argument, 2 mark a result, 3 snapshot, 4 re-evaluate an own snapshot, 5 copy a snapshot,
/// 6 drop a snapshot, 7 drop the handle, 8 mark a constant as result, 9 add a plain number
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Act {
    k: u8,
    a: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    n: u32,
    threads: Vec<Vec<Act>>,
    drop_first: bool,
    /// so much is recorded before the threads begin
    #[serde(default)]
    pre: u32,
}
pub fn gen(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let giant = r.chance(1, 1500);
    let huge = !giant && r.chance(1, 60);
    let nt = if huge { r.range(2, 6) } else { r.range(2, 3 + big) };
    let most = if giant {
        700
    } else if huge {
        70
    } else { 7 + 6 * big };
    let style = r.below(4);
    let threads = (0..nt)
        .map(|i| {
            let w: [u32; 10] = match (style, i) {
                // one thread takes snapshots, the others record
                (0, 0) => [0, 0, 0, 8, 1, 1, 1, 0, 0, 0],
                (0, _) => [4, 2, 4, 0, 0, 0, 0, 0, 2, 1],
                (1, _) => [4, 2, 3, 5, 2, 1, 1, 1, 1, 2],
                (2, _) => [3, 3, 3, 3, 4, 2, 2, 1, 0, 0],
                _ => [2, 0, 6, 6, 0, 0, 0, 0, 3, 0],
            };
            let least = if giant { 200 } else { 1 };
            (0..r.range(least, most)).map(|_| Act { k: r.weighted(&w) as u8, a: r.below(100) as u32 }).collect()
        })
        .collect();
    let n = if huge { r.range(1, 40) } else { r.range(1, 3) };
    let pre = if giant {
        0
    } else if r.chance(1, 250) {
        match r.weighted(&[5, 2, 1]) {
            0 => r.range(10_000, 17_000),
            1 => r.range(17_000, 50_000),
            _ => r.range(66_000, 90_000),
        }
    } else if r.chance(1, 40) {
        r.range(100, 5000)
    } else { 0 };
    js(&Plan { n: n as u32, threads, drop_first: r.chance(1, 2), pre: pre as u32 })
}

#[derive(Clone, Debug)]
struct Ev {
    t: usize,
    i: usize,
    /// 0 value, 1 result mark
    mark: bool,
    /// bits of the unique value
    val: u64,
    inv: u64,
    res: u64,
}
struct Shot {
    inv: u64,
    res: u64,
    s: Snap,
}
struct Held {
    t: Box<dyn Tape>,
    s: Snap,
    /// re-evaluated there
    x: Option<Vec<f64>>,
    /// position in the list of snapshots
    shot: usize,
}

/// Only the values may differ, and those are a re-evaluation at x.
fn check_held(h: &Held, what: &str) {
    let now = snap(&*h.t);
    quiet(|| {
        let mut want = h.s.clone();
        if let Some(x) = &h.x {
            let mut v: Vec<f64> = want.vals.iter().map(|b| f64::from_bits(*b)).collect();
            for (i, vid) in want.indeps.iter().enumerate() {
                v[*vid] = x[i];
            }
            for o in &want.ops {
                let a = o.arg1.map(|i| v[i]);
                let b = o.arg2.map(|i| v[i]);
                v[o.vid] = match (o.opcode, a, b) {
                    (OpCode::Mul, Some(a), Some(b)) => a * b,
                    (OpCode::Add, Some(a), Some(b)) => a + b,
                    (OpCode::Const, _, _) => v[o.vid],
                    _ => viol!("mixed", "{}: the tape contains {:?}, which nobody recorded", what, o),
                };
            }
            want.vals = v.iter().map(|v| nan(*v)).collect();
        }
        let now = Snap { vals: now.vals.iter().map(|b| nan(f64::from_bits(*b))).collect(), ..now };
        want.vals = want.vals.iter().map(|b| nan(f64::from_bits(*b))).collect();
        if now != want {
            viol!("changed", "{}: the tape changed after it was taken: {}", what, diff(&now, &want));
        }
    });
}

pub fn exec(v: &Value) {
    let p: Plan = plan(v);
    let n = p.n as usize;
    let mut ctx = AContext::new();
    let cid = ctx.cid();
    let evs: RealMutex<Vec<Ev>> = RealMutex::new(vec![]);
    let shots: RealMutex<Vec<Shot>> = RealMutex::new(vec![]);
    let kept: RealMutex<Vec<Held>> = RealMutex::new(vec![]);
    // unique values: every value is 1 + k * 2^-20 for a k of its own, operations multiply by constants that make them so
    let uniq = |t: usize, i: usize| 1.0 + ((t * 1024 + i + 1) as f64) / 65536.0;
    let log = |t: usize, i: usize, mark: bool, val: f64, inv: u64| {
        let res = rt::seq();
        quiet(|| evs.lock().unwrap().push(Ev { t, i, mark, val: val.to_bits(), inv, res }))
    };
    let mut x0 = vec![];
    for i in 0..n {
        let inv = rt::seq();
        let v = 1.0 + (i + 1) as f64 / (1u64 << 30) as f64;
        let x: ADouble = ctx.new_indep(v);
        log(60, i, false, v, inv);
        x0.push(x);
    }
    rt::set_serial(true);
    let mut last = None;
    for i in 0..p.pre.min(100_000) as usize {
        let u = 5.0 + i as f64 / (1u64 << 20) as f64;
        match (i % 4, last.as_ref()) {
            (2, _) => last = Some(ctx.new_indep(u)),
            (3, Some(y)) => ctx.set_dep(y),
            _ => {
                let y = x0.first().map(|x| *x + u);
                last = y.or(last);
            }
        }
    }
    rt::set_serial(false);
    let handles: Vec<Option<AContext>> = p.threads.iter().map(|_| AContext::from_cid(cid)).collect();
    if handles.iter().any(|h| h.is_none()) {
        viol!("lookup", "a live context was not found");
    }
    let mut tasks: Vec<Task> = vec![];
    for (t, (acts, h)) in p.threads.iter().zip(handles).enumerate() {
        let (evs, shots, kept, x0, log) = (&evs, &shots, &kept, &x0, &log);
        let _ = evs;
        tasks.push(Box::new(move || {
            let mut h = h;
            let mut mine: Vec<Held> = vec![];
            // unmarked variables: (variable, its value)
            let mut vars: Vec<ADouble> = vec![];
            for (i, a) in acts.iter().enumerate().take(1000) {
                let u = uniq(t, i);
                let pick = a.a as usize;
                match a.k {
                    0 | 9 => {
                        let x = x0[pick % x0.len()];
                        let inv = rt::seq();
                        // recorded as constant and operation
                        let y = if a.k == 0 { x * u } else { x + u };
                        let dead = h.is_none();
                        let want = if a.k == 0 { x.value() * u } else { x.value() + u };
                        require!(y.value() == want, "value-differs", "an operation gives {} instead of {}", y.value(), want);
                        if !dead {
                            log(t, i, false, y.value(), inv);
                            vars.push(y);
                        }
                    }
                    1 => {
                        if let Some(c) = h.as_mut() {
                            let inv = rt::seq();
                            let y = c.new_indep(u);
                            log(t, i, false, u, inv);
                            vars.push(y);
                        }
                    }
                    2 => {
                        if let (Some(c), false) = (h.as_mut(), vars.is_empty()) {
                            let y = vars.remove(pick % vars.len());
                            let inv = rt::seq();
                            c.set_dep(&y);
                            log(t, i, true, y.value(), inv);
                        }
                    }
                    8 => {
                        if let Some(c) = h.as_mut() {
                            let y = ADouble::new(u, 0.0);
                            let inv = rt::seq();
                            c.set_dep(&y);
                            log(t, i, true, u, inv);
                        }
                    }
                    3 => {
                        if let Some(c) = h.as_ref() {
                            let inv = rt::seq();
                            let tape = c.tape();
                            let res = rt::seq();
                            let s = snap(&tape);
                            let shot = quiet(|| {
                                let mut g = shots.lock().unwrap();
                                g.push(Shot { inv, res, s: s.clone() });
                                g.len() - 1
                            });
                            mine.push(Held { t: Box::new(tape), s, x: None, shot });
                            rt::count("snapshots");
                        }
                    }
                    4 => {
                        if !mine.is_empty() {
                            let j = pick % mine.len();
                            let hd = &mut mine[j];
                            let k = hd.t.num_indeps();
                            let x: Vec<f64> = quiet(|| (0..k).map(|q| 3.0 + u + q as f64).collect());
                            let dx = DVector::from_vec(quiet(|| x.clone()));
                            calm("zero_order", || hd.t.zero_order(&dx));
                            hd.x = Some(x);
                            rt::count("replays");
                        }
                    }
                    5 => {
                        if let Some(c) = h.as_ref() {
                            // two tapes of the same state, one of them re-evaluated
                            let a = c.tape();
                            let s = snap(&a);
                            let mut b = a.clone();
                            let k = b.num_indeps();
                            let x: Vec<f64> = quiet(|| vec![2.0 + u; k]);
                            let dx = DVector::from_vec(quiet(|| x.clone()));
                            let which = pick % 2 == 0;
                            let mut a = a;
                            calm("zero_order", || if which { b.zero_order(&dx) } else { a.zero_order(&dx) });
                            let (xa, xb) = quiet(|| if which { (None, Some(x)) } else { (Some(x), None) });
                            let ha = Held { t: Box::new(a), s: quiet(|| s.clone()), x: xa, shot: usize::MAX };
                            let hb = Held { t: Box::new(b), s, x: xb, shot: usize::MAX };
                            check_held(&ha, "after its copy was made");
                            check_held(&hb, "a copy of a tape");
                            mine.push(ha);
                            mine.push(hb);
                        }
                    }
                    6 => {
                        if !mine.is_empty() {
                            let hd = mine.remove(pick % mine.len());
                            check_held(&hd, "before it was dropped");
                        }
                    }
                    _ => {
                        // never the last one: values stay comparable
                        h = None;
                    }
                }
            }
            for hd in &mine {
                check_held(hd, "while others record");
            }
            quiet(|| kept.lock().unwrap().append(&mut mine));
        }));
    }
    run_threads(tasks);
    let end = snap(&ctx.tape());
    {
        let (i, d, o, v) = (ctx.indeps(), ctx.deps(), ctx.operations(), ctx.values());
        quiet(|| {
            let c = Snap { indeps: i.clone(), deps: d.clone(), ops: o.clone(), vals: v.iter().map(|v| v.to_bits()).collect() };
            require!(c == end, "changed", "the context and its tape differ: {}", diff(&c, &end));
        });
    }
    quiet(|| check(&evs.lock().unwrap(), &shots.lock().unwrap(), &end));
    // neither the context's end nor further recording changes a tape
    let mut kept: Vec<Held> = kept.lock().unwrap().drain(..).collect();
    if !p.drop_first {
        let y: ADouble = ctx.new_indep(9.0);
        let z = y * 2.0;
        ctx.set_dep(&z);
        for hd in &kept {
            check_held(hd, "after further recording");
        }
    }
    drop(ctx);
    require!(AContext::from_cid(cid).is_none(), "kept-alive", "the context outlives its handles");
    for (i, hd) in kept.iter_mut().enumerate() {
        check_held(hd, "after the context's end");
        if i % 2 == 0 {
            let k = hd.t.num_indeps();
            let x: Vec<f64> = quiet(|| (0..k).map(|q| 0.25 * i as f64 + q as f64).collect());
            let dx = DVector::from_vec(quiet(|| x.clone()));
            calm("zero_order", || hd.t.zero_order(&dx));
            hd.x = Some(x);
        }
        let _ = hd.shot;
    }
    for hd in &kept {
        check_held(hd, "after other tapes were re-evaluated");
    }
}

fn is_prefix<T: PartialEq>(a: &[T], b: &[T]) -> bool {
    a.len() <= b.len() && b[..a.len()] == *a
}

fn check(evs: &[Ev], shots: &[Shot], end: &Snap) {
    let mut at: HashMap<u64, usize> = HashMap::new();
    for (vid, v) in end.vals.iter().enumerate() {
        at.insert(*v, vid);
    }
    // where the event's trace is in the final lists: (value number, position among the results)
    let pos: Vec<(usize, Option<usize>)> = evs
        .iter()
        .map(|e| {
            let vid = match at.get(&e.val) {
                Some(v) => *v,
                None => viol!("lost", "thread {}: the value {} of step {} is not recorded", e.t, f64::from_bits(e.val), e.i),
            };
            let d = if e.mark {
                match end.deps.iter().position(|d| *d == vid) {
                    Some(d) => Some(d),
                    None => viol!("lost", "thread {}: the result marked in step {} is not on the list", e.t, e.i),
                }
            } else {
                None
            };
            (vid, d)
        })
        .collect();
    let has = |s: &Snap, k: usize| match pos[k].1 {
        Some(d) => d < s.deps.len(),
        None => pos[k].0 < s.vals.len(),
    };
    for (k, sh) in shots.iter().enumerate() {
        let s = &sh.s;
        require!(
            is_prefix(&s.vals, &end.vals) && is_prefix(&s.ops, &end.ops) && is_prefix(&s.indeps, &end.indeps) && is_prefix(&s.deps, &end.deps),
            "torn",
            "snapshot {} contains something that was never recorded: {}",
            k,
            diff(s, end)
        );
        require!(
            s.vals.len() == s.ops.len() + s.indeps.len(),
            "torn",
            "snapshot {} has {} values for {} operations and {} arguments",
            k,
            s.vals.len(),
            s.ops.len(),
            s.indeps.len()
        );
        let nv = s.vals.len();
        require!(s.indeps.iter().chain(&s.deps).all(|v| *v < nv), "torn", "snapshot {}: an argument or result has no value", k);
        require!(
            s.ops.iter().all(|o| o.vid < nv && o.arg1.iter().chain(&o.arg2).all(|a| *a < nv)),
            "torn",
            "snapshot {}: an operation refers to a value it does not contain",
            k
        );
        let inside: Vec<bool> = (0..evs.len()).map(|e| has(s, e)).collect();
        for (i, e) in evs.iter().enumerate() {
            require!(inside[i] || e.res > sh.inv, "stale", "snapshot {} misses step {} of thread {}, which was over before it was requested", k, e.i, e.t);
            require!(!inside[i] || e.inv < sh.res, "future", "snapshot {} contains step {} of thread {}, which began after it was returned", k, e.i, e.t);
            if inside[i] {
                for (j, f) in evs.iter().enumerate() {
                    require!(
                        inside[j] || f.res > e.inv,
                        "torn",
                        "snapshot {} contains step {} of thread {} but not the earlier step {} of thread {}",
                        k,
                        e.i,
                        e.t,
                        f.i,
                        f.t
                    );
                }
            }
        }
        for (l, other) in shots.iter().enumerate() {
            let o = &other.s;
            let le = nv <= o.vals.len() && s.deps.len() <= o.deps.len() && s.ops.len() <= o.ops.len() && s.indeps.len() <= o.indeps.len();
            let ge = nv >= o.vals.len() && s.deps.len() >= o.deps.len() && s.ops.len() >= o.ops.len() && s.indeps.len() >= o.indeps.len();
            require!(le || ge, "torn", "snapshots {} and {} each contain something the other misses", k, l);
            require!(le || sh.res > other.inv, "stale", "snapshot {} was over before snapshot {} was requested and contains more", k, l);
        }
    }
}
