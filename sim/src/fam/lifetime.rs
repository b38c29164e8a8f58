//! C05: values outlive contexts, contexts do not outlive their handles.
use super::record::{bits, nan};
use super::*;
use crate::alloc;
use std::sync::Mutex as RealMutex;

// ---------------------------------------------------------------- arithmetic racing the end of the context

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Worker {
    prog: Prog,
    /// holds a handle and drops it after this many operations (none: only variables)
    hold: Option<u32>,
    /// look the context up before these operations, and let go at once
    peek: Vec<u32>,
    single: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Race {
    x: Vec<f64>,
    d: Vec<f64>,
    workers: Vec<Worker>,
    /// steps the main thread works before it drops its handle
    wait: u32,
    others: u32,
    /// a tape of the context is around all the time
    #[serde(default)]
    tape: bool,
}
pub fn gen_race(r: &mut Rng, t: Tier) -> Value {
    let big = (t == Tier::Thorough) as usize;
    let n = r.range(1, 3);
    let huge = r.chance(1, 60);
    let class = if r.chance(1, 3) { Class::Piecewise } else { Class::Smooth };
    let x = gen_x(r, n, class);
    let d = (0..n).map(|_| r.float(-1.0, 1.0)).collect();
    let nw = if huge { r.range(1, 7) } else { r.range(1, 3 + big) };
    let workers = (0..nw)
        .map(|_| {
            let ops = if huge { r.range(10, 120) } else { r.range(1, 8 + 8 * big) };
            let g = GenCfg { n, m: 0, ops, class, odd_outs: false };
            let prog = gen_prog(r, &g, &[x.clone()]);
            let hold = if r.chance(1, 3) { Some(r.below(ops + 1) as u32) } else { None };
            let peek = if r.chance(1, 3) { (0..r.range(1, 3)).map(|_| r.below(ops) as u32).collect() } else { vec![] };
            Worker { prog, hold, peek, single: r.chance(1, 8) }
        })
        .collect();
    js(&Race { x, d, workers, wait: if huge { r.below(60) } else { r.below(6) } as u32, others: if huge { r.below(70) } else { r.below(3) } as u32, tape: r.chance(1, 3) })
}
pub fn exec_race(v: &Value) {
    let p: Race = plan(v);
    let n = p.x.len();
    let d = |i: usize| p.d.get(i).cloned().unwrap_or(0.5);
    let mut ctx = AContext::new();
    let cid = ctx.cid();
    let mut xs: Vec<ADouble> = quiet(|| (0..n).map(|i| ADouble::new(p.x[i], d(i))).collect());
    for x in xs.iter_mut() {
        ctx.set_indep(x);
    }
    let mut x32: Vec<ASingle> = quiet(|| (0..n).map(|i| ASingle::new(p.x[i] as f32, d(i) as f32)).collect());
    for x in x32.iter_mut() {
        ctx.set_indep(x);
    }
    let tape = if p.tape { Some(Box::new(ctx.tape()) as Box<dyn Tape>) } else { None };
    let keep: Vec<AContext> = (0..p.others).map(|_| AContext::new()).collect();
    let kept: Vec<usize> = keep.iter().map(|c| c.cid()).collect();
    let results: Vec<RealMutex<Vec<(u64, u64)>>> = quiet(|| p.workers.iter().map(|_| RealMutex::new(vec![])).collect());
    let handles: Vec<Option<AContext>> = p.workers.iter().map(|w| w.hold.and_then(|_| AContext::from_cid(cid))).collect();
    let cell = quiet(|| RealMutex::new(Some(ctx)));
    let cellr = &cell;
    let mut tasks: Vec<Task> = vec![];
    for ((w, r), h) in p.workers.iter().zip(&results).zip(handles) {
        let (xs, x32) = (&xs, &x32);
        if w.hold.is_some() && h.is_none() {
            viol!("lookup", "a live context was not found");
        }
        tasks.push(Box::new(move || {
            let h = RealMutex::new(h);
            let before = |i: usize| {
                if w.peek.contains(&(i as u32)) {
                    let c = AContext::from_cid(cid);
                    let holding = quiet(|| h.lock().unwrap().is_some());
                    require!(!holding || c.is_some(), "died-early", "the context is gone although a handle is alive");
                    if let Some(c) = c {
                        require!(c.cid() == cid, "identity", "lookup of {} gives {}", cid, c.cid());
                        let _ = c.values().len();
                    }
                }
                if w.hold == Some(i as u32) {
                    let c = quiet(|| h.lock().unwrap().take());
                    drop(c);
                }
            };
            let out = if w.single {
                let v = w.prog.nodes(x32, &before);
                quiet(|| v.iter().map(|a| (nan(a.value() as f64), nan(a.dvalue() as f64))).collect())
            } else {
                bits(&w.prog.nodes(xs, &before))
            };
            let c = quiet(|| h.lock().unwrap().take());
            drop(c);
            quiet(|| *r.lock().unwrap() = out);
        }));
    }
    let wait = p.wait;
    tasks.push(Box::new(move || {
        for _ in 0..wait {
            lazy_static::thread::yield_now();
        }
        let c = quiet(|| cellr.lock().unwrap().take());
        drop(c);
        rt::count("fault_context_dropped_in_use");
    }));
    run_threads(tasks);
    require!(AContext::from_cid(cid).is_none(), "kept-alive", "the context outlives its last handle");
    for c in &kept {
        require!(AContext::from_cid(*c).is_some(), "died-early", "a context with a live handle is gone");
    }
    // alone: plain dual numbers without any context
    rt::set_serial(true);
    for (i, (w, r)) in p.workers.iter().zip(&results).enumerate() {
        let want = if w.single {
            let x: Vec<ASingle> = quiet(|| (0..n).map(|i| ASingle::new(p.x[i] as f32, d(i) as f32)).collect());
            let v = w.prog.nodes(&x, &|_| ());
            quiet(|| v.iter().map(|a| (nan(a.value() as f64), nan(a.dvalue() as f64))).collect())
        } else {
            let x: Vec<ADouble> = quiet(|| (0..n).map(|i| ADouble::new(p.x[i], d(i))).collect());
            bits(&w.prog.nodes(&x, &|_| ()))
        };
        let got = r.lock().unwrap();
        for k in 0..want.len() {
            require!(
                got.get(k) == Some(&want[k]),
                "value-differs",
                "thread {}: node {} is {:?}, it should be {:?}",
                i,
                k,
                got.get(k).map(|b| (f64::from_bits(b.0), f64::from_bits(b.1))),
                (f64::from_bits(want[k].0), f64::from_bits(want[k].1))
            );
        }
    }
    // variables of a dead context still work
    for x in &xs {
        let y = *x * *x + 1.0;
        require!(y.value() == x.value() * x.value() + 1.0, "value-differs", "arithmetic after the context's end gives {}", y.value());
    }
    rt::set_serial(false);
    if let Some(t) = &tape {
        require!(t.values().len() == 2 * n && t.ops_iter().count() == 0, "changed", "a tape taken before the race changed");
    }
    drop(tape);
    drop(keep);
}

// ---------------------------------------------------------------- rounds leave nothing behind

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Round {
    x: Vec<f64>,
    prog: Prog,
    /// 0 record by hand, 1 Function::tape, 2 record with a shared handle, 3 handle dropped in the middle,
    /// 4 several contexts nested, 5 several lookups, 6 the tape outlives the context
    mode: u8,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Rounds {
    threads: Vec<Vec<Round>>,
    /// one thread, many rounds: finds what grows slowly
    long: bool,
}
pub fn gen_rounds(r: &mut Rng, _t: Tier) -> Value {
    let threads = (0..r.range(1, 3))
        .map(|_| {
            (0..r.range(1, 2))
                .map(|_| {
                    let n = r.range(1, 2);
                    let x = gen_x(r, n, Class::Smooth);
                    let ops = r.range(1, 4);
                    let ops = rarely(r, 40, ops, 40);
                    let g = GenCfg { n, m: r.range(1, 2), ops, class: Class::Smooth, odd_outs: true };
                    Round { prog: gen_prog(r, &g, &[x.clone()]), x, mode: r.below(7) as u8 }
                })
                .collect()
        })
        .collect();
    brief(js(&Rounds { threads, long: r.chance(1, 6) }))
}
fn round(w: &Round, last: &RealMutex<usize>) {
    let f = quiet(|| ProgFn::new(&w.prog));
    let n = w.prog.n();
    let x = DVector::from_iterator(n, (0..n).map(|i| w.x.get(i).cloned().unwrap_or(1.0)));
    let see = |c: &AContext| {
        let id = c.cid();
        quiet(|| {
            let mut l = last.lock().unwrap();
            *l = (*l).max(id);
        });
        id
    };
    match w.mode {
        1 => {
            let mut t = f.tape(&x);
            t.zero_order(&x);
        }
        4 => {
            let mut a = AContext::new();
            see(&a);
            let p: ADouble = a.new_indep(1.5);
            let b = AContext::new();
            see(&b);
            drop(b);
            let t = f.tape(&x);
            let q = p * p;
            a.set_dep(&q);
            drop(a);
            drop(t);
        }
        m => {
            let mut c = AContext::new();
            let id = see(&c);
            let xs: Vec<ADouble> = x.iter().map(|v| c.new_indep(*v)).collect();
            let h = if m == 2 || m == 5 { AContext::from_cid(id) } else { None };
            if m == 5 {
                for _ in 0..3 {
                    drop(AContext::from_cid(id));
                    drop(AContext::from_cid(id + 1_000_000));
                }
            }
            let mut c = Some(c);
            if m == 3 {
                drop(c.take());
            }
            let y = w.prog.nodes(&xs, &|_| ());
            if let Some(mut c) = c {
                c.set_dep(&y[y.len() - 1]);
                let t = c.tape();
                if m == 6 {
                    drop(c);
                    let still = AContext::from_cid(id);
                    require!(still.is_none(), "kept-alive", "context {} is alive although only a tape of it is left", id);
                    let _ = t.y();
                }
            }
            drop(h);
            quiet(|| drop(y));
        }
    }
    quiet(|| drop(f));
}
pub fn exec_rounds(v: &Value) {
    let p: Rounds = plan(v);
    if p.long {
        return exec_long(&p);
    }
    let first = AContext::new().cid();
    let last = RealMutex::new(first);
    let mut sizes: Vec<(i64, i64)> = quiet(|| Vec::with_capacity(64));
    let warm = 5;
    let count = 17;
    for i in 0..warm + count {
        let tasks: Vec<Task> = p
            .threads
            .iter()
            .map(|rs| {
                let last = &last;
                Box::new(move || {
                    for r in rs {
                        round(r, last)
                    }
                }) as Task
            })
            .collect();
        run_threads(tasks);
        if i >= warm {
            sizes.push(alloc::live());
        }
    }
    let top = *last.lock().unwrap();
    for c in first..=top {
        require!(AContext::from_cid(c).is_none(), "kept-alive", "context {} outlives its last handle", c);
    }
    let (a, b) = (sizes[0], sizes[sizes.len() - 1]);
    require!(
        b.0 - a.0 < (count - 1) as i64,
        "leak",
        "{} rounds of creating, recording and dropping contexts left {} heap blocks and {} bytes behind",
        count - 1,
        b.0 - a.0,
        b.1 - a.1
    );
    // a block that only ever grows
    let half = sizes[sizes.len() / 2].1;
    require!(
        !(b.1 - half >= 8 * 8 && half - a.1 >= 8 * 8 && sizes.windows(2).all(|w| w[1].1 > w[0].1)),
        "leak",
        "every round of creating, recording and dropping contexts leaves more memory in use: {:?}",
        sizes.iter().map(|s| s.1).collect::<Vec<_>>()
    );
}

fn exec_long(p: &Rounds) {
    rt::set_serial(true);
    let last = RealMutex::new(0);
    let mut at = (0, 0);
    let (warm, count) = (80, 400);
    for i in 0..warm + count {
        if i == warm {
            at = alloc::live();
        }
        for r in p.threads.iter().flatten() {
            round(r, &last);
        }
    }
    let now = alloc::live();
    require!(
        now.0 - at.0 < 16 && now.1 - at.1 < 1024,
        "leak",
        "{} rounds of creating, recording and dropping contexts left {} heap blocks and {} bytes behind",
        count,
        now.0 - at.0,
        now.1 - at.1
    );
    rt::set_serial(false);
}
