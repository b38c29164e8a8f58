//! C01: creations, lookups and handle drops behave atomically.
use super::*;
use crate::sim::in_crowd;
use std::collections::HashSet;
use std::sync::Mutex as RealMutex;

/// k: 0 create, 1 look up a known id, 2 drop a handle, 3 hand a handle to the others, 4 take one from them,
/// 5 look up a guessed id, 6 record something, 7 create and drop at once,
/// 8 create and drop many
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Act {
    k: u8,
    a: u32,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Plan {
    pre: u32,
    threads: Vec<Vec<Act>>,
    /// so many contexts were created and dropped since
    #[serde(default)]
    gone: u32,
}

pub fn gen(r: &mut Rng, t: Tier) -> Value {
    let big = if t == Tier::Thorough { 2 } else { 1 };
    let huge = r.chance(1, 50);
    let n = if huge { r.range(2, 8) } else { r.range(2, 3 + big) };
    let len = if huge { 40 } else { r.range(2, 6 * big + 2) };
    let style = r.below(4);
    let many = r.chance(1, 150);
    let mut w: [u32; 9] = match style {
        0 => [5, 1, 2, 1, 1, 1, 0, 4, 0],
        1 => [1, 6, 6, 1, 1, 1, 1, 0, 0],
        2 => [3, 4, 4, 3, 3, 2, 1, 2, 0],
        _ => [2, 3, 3, 1, 1, 5, 0, 3, 0],
    };
    if many {
        w[8] = 3;
    }
    let threads = (0..n)
        .map(|_| (0..r.range(1, len)).map(|_| Act { k: r.weighted(&w) as u8, a: r.below(1000) as u32 }).collect())
        .collect();
    let usual = r.below(4);
    let gone = if r.chance(1, 5000) { *r.pick(&[66_000, 66_000, 132_000]) } else { 0 };
    js(&Plan { pre: rarely(r, 30, usual, 20 + usual * 100) as u32, threads, gone })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Create,
    Found,
    Missing,
    Drop,
}
#[derive(Clone, Copy, Debug)]
struct H {
    cid: usize,
    ev: Ev,
    t: usize,
    inv: u64,
    res: u64,
}

struct Shared {
    hist: RealMutex<Vec<H>>,
    /// ids and the mark of the context they belong to
    known: RealMutex<Vec<(usize, f64)>>,
    pool: RealMutex<Vec<(usize, AContext)>>,
    /// ids of contexts created by the many
    burnt: RealMutex<Vec<usize>>,
}
impl Shared {
    fn log(&self, t: usize, cid: usize, ev: Ev, inv: u64) {
        let res = rt::seq();
        quiet(|| self.hist.lock().unwrap().push(H { cid, ev, t, inv, res }));
    }
    fn mark_of(&self, cid: usize) -> Option<f64> {
        self.known.lock().unwrap().iter().find(|k| k.0 == cid).map(|k| k.1)
    }
}

fn create(s: &Shared, t: usize, mark: f64) -> (usize, AContext) {
    let inv = rt::seq();
    let mut c = AContext::new();
    let res_seq = rt::seq();
    let cid = c.cid();
    let _ = res_seq;
    // the context exists from here on at the latest; what it is called was only learnt through the handle
    quiet(|| s.hist.lock().unwrap().push(H { cid, ev: Ev::Create, t, inv, res: res_seq }));
    let x = c.new_indep(mark);
    require!(x.value() == mark, "value", "new_indep({}) has value {}", mark, x.value());
    quiet(|| s.known.lock().unwrap().push((cid, mark)));
    (cid, c)
}
fn look(s: &Shared, t: usize, cid: usize) -> Option<AContext> {
    let mark = quiet(|| s.mark_of(cid));
    let inv = rt::seq();
    let c = AContext::from_cid(cid);
    match c {
        Some(c) => {
            s.log(t, cid, Ev::Found, inv);
            let got = c.cid();
            require!(got == cid, "identity", "looking up context {} yields a handle to context {}", cid, got);
            let v = c.values();
            if let Some(m) = mark {
                require!(!v.is_empty(), "identity", "context {} was marked, the handle found shows an empty context", cid);
                require!(v[0] == m, "identity", "context {} was created with mark {}, the handle found shows {}", cid, m, v[0]);
            }
            Some(c)
        }
        None => {
            s.log(t, cid, Ev::Missing, inv);
            None
        }
    }
}
fn drop_handle(s: &Shared, t: usize, h: (usize, AContext)) {
    let inv = rt::seq();
    drop(h.1);
    s.log(t, h.0, Ev::Drop, inv);
}

pub fn exec(v: &Value) {
    let p: Plan = plan(v);
    let s = quiet(|| Shared {
        hist: RealMutex::new(vec![]),
        known: RealMutex::new(vec![]),
        pool: RealMutex::new(vec![]),
        burnt: RealMutex::new(vec![]),
    });
    for i in 0..p.pre {
        let h = create(&s, 99, 0.5 + i as f64);
        quiet(|| s.pool.lock().unwrap().push(h));
    }
    if p.gone > 0 {
        rt::count("runs_after_many_contexts");
        rt::set_serial(true);
        (0..p.gone).for_each(|_| drop(AContext::new()));
        rt::set_serial(false);
    }
    let many = p.threads.iter().flatten().any(|a| a.k == 8);
    let tasks: Vec<Task> = p
        .threads
        .iter()
        .enumerate()
        .map(|(t, acts)| {
            let s = &s;
            Box::new(move || {
                let mut mine: Vec<(usize, AContext)> = quiet(|| Vec::with_capacity(64));
                for (i, a) in acts.iter().enumerate() {
                    let mark = 1000.0 * (t + 1) as f64 + i as f64;
                    match a.k {
                        0 => {
                            let h = create(s, t, mark);
                            mine.push(h);
                        }
                        1 => {
                            let known: Vec<usize> = quiet(|| s.known.lock().unwrap().iter().map(|k| k.0).collect());
                            if let Some(cid) = known.get(a.a as usize % known.len().max(1)) {
                                if let Some(c) = look(s, t, *cid) {
                                    mine.push((*cid, c));
                                }
                            }
                        }
                        2 => {
                            if !mine.is_empty() {
                                let h = mine.remove(a.a as usize % mine.len());
                                drop_handle(s, t, h);
                            }
                        }
                        3 => {
                            if !mine.is_empty() {
                                let h = mine.remove(a.a as usize % mine.len());
                                quiet(|| s.pool.lock().unwrap().push(h));
                            }
                        }
                        4 => {
                            let h = quiet(|| {
                                let mut g = s.pool.lock().unwrap();
                                if g.is_empty() {
                                    None
                                } else {
                                    let i = a.a as usize % g.len();
                                    Some(g.remove(i))
                                }
                            });
                            if let Some(h) = h {
                                mine.push(h);
                            }
                        }
                        5 => {
                            // ids in the neighbourhood of the known ones: not created yet, or gone
                            let max = quiet(|| s.known.lock().unwrap().iter().map(|k| k.0).max().unwrap_or(0));
                            // (contexts of the many are not for others to find)
                            let cid = match if many { a.a % 2 } else { a.a % 5 } {
                                0 => 0,
                                1 => usize::MAX,
                                d => max.wrapping_add(d as usize - 1),
                            };
                            if quiet(|| in_crowd(cid)) {
                                let c = AContext::from_cid(cid);
                                require!(c.is_some(), "lost", "the live context {} is not found", cid);
                            } else if let Some(c) = look(s, t, cid) {
                                mine.push((cid, c));
                            }
                        }
                        6 => {
                            if let Some((_, c)) = mine.last_mut().filter(|h| quiet(|| s.mark_of(h.0).is_some())) {
                                let x = c.new_indep(mark + 0.5);
                                let y = x * x;
                                c.set_dep(&y);
                            }
                        }
                        8 => {
                            let n = [20, 80, 300, 1100, 2200][a.a as usize % 5];
                            let keep = a.a / 5 % 4 == 0;
                            let mut ids = quiet(|| Vec::with_capacity(n));
                            let mut kept = quiet(|| Vec::with_capacity(n));
                            for _ in 0..n {
                                let c = AContext::new();
                                let cid = c.cid();
                                quiet(|| ids.push(cid));
                                if keep {
                                    quiet(|| kept.push(c));
                                }
                            }
                            for (i, c) in kept.iter().enumerate().filter(|e| e.0 % 7 == 0) {
                                let found = AContext::from_cid(ids[i]);
                                require!(found.is_some(), "lost", "the live context {} is not found", ids[i]);
                                let found = found.unwrap();
                                let mut c2 = quiet(|| ids[i] as f64);
                                c2 += 0.25;
                                let before = c.values().len();
                                let mut f = found;
                                f.new_indep(c2);
                                let v = c.values();
                                require!(v.len() == before + 1 && v[before] == c2, "identity", "looking up context {} yields another one", ids[i]);
                            }
                            drop(kept);
                            for id in ids.iter().filter(|id| **id % 7 == 0) {
                                require!(AContext::from_cid(*id).is_none(), "zombie", "context {} is found after its last handle went", id);
                            }
                            quiet(|| s.burnt.lock().unwrap().append(&mut ids));
                            quiet(|| drop(ids));
                        }
                        _ => {
                            let h = create(s, t, mark);
                            drop_handle(s, t, h);
                        }
                    }
                }
                for h in mine.drain(..) {
                    // every second thread leaves its handles to the main thread
                    if t % 2 == 0 {
                        drop_handle(s, t, h);
                    } else {
                        quiet(|| s.pool.lock().unwrap().push(h));
                    }
                }
            }) as Task
        })
        .collect();
    run_threads(tasks);
    // quiescence: exactly the contexts with handles are found
    let known: Vec<(usize, f64)> = quiet(|| s.known.lock().unwrap().clone());
    for (cid, _) in &known {
        if let Some(c) = look(&s, 99, *cid) {
            drop_handle(&s, 99, (*cid, c));
        }
    }
    let rest: Vec<(usize, AContext)> = quiet(|| s.pool.lock().unwrap().drain(..).collect());
    for h in rest {
        drop_handle(&s, 99, h);
    }
    for (cid, _) in &known {
        if let Some(c) = look(&s, 99, *cid) {
            drop_handle(&s, 99, (*cid, c));
        }
    }
    quiet(|| check(&s.hist.lock().unwrap(), &s.burnt.lock().unwrap()));
}

fn check(hist: &[H], burnt: &[usize]) {
    let mut seen = HashSet::new();
    for id in burnt {
        require!(seen.insert(*id), "duplicate-id", "context id {} was given to two contexts", id);
    }
    for h in hist.iter().filter(|h| h.ev == Ev::Create) {
        require!(seen.insert(h.cid), "duplicate-id", "context id {} was given to two contexts", h.cid);
    }
    let ids: HashSet<usize> = hist.iter().map(|h| h.cid).collect();
    let mut ids: Vec<usize> = ids.into_iter().collect();
    ids.sort();
    for cid in ids {
        let ops: Vec<H> = hist.iter().filter(|h| h.cid == cid).cloned().collect();
        if !linearizable(&ops) {
            viol!("not-linearizable", "no order of the operations on context {} explains their results: {:?}", cid, ops);
        }
    }
}

/// Wing & Gong search with memoisation over sets of linearised operations.
fn linearizable(ops: &[H]) -> bool {
    let n = ops.len();
    if n > 128 {
        return true;
    }
    let mut seen: HashSet<u128> = HashSet::new();
    // the state is determined by the set of linearised operations
    let mut stack: Vec<(u128, bool, i32)> = vec![(0, false, 0)];
    while let Some((set, created, count)) = stack.pop() {
        if set.count_ones() as usize == n {
            return true;
        }
        if !seen.insert(set) {
            continue;
        }
        let first_res = (0..n).filter(|i| set >> i & 1 == 0).map(|i| ops[i].res).min().unwrap();
        for i in 0..n {
            if set >> i & 1 == 1 || ops[i].inv > first_res {
                continue;
            }
            let next = match ops[i].ev {
                Ev::Create if !created => Some((true, 1)),
                Ev::Found if created && count > 0 => Some((true, count + 1)),
                Ev::Missing if count == 0 => Some((created, 0)),
                Ev::Drop if count > 0 => Some((created, count - 1)),
                _ => None,
            };
            if let Some((c, k)) = next {
                stack.push((set | 1 << i, c, k));
            }
        }
    }
    false
}
