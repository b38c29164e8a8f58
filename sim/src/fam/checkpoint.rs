//! C11: checkpointed reversal.
use super::*;
use crate::sim::{catch, last_panic};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::SeqCst};
use std::sync::Arc as RealArc;
use std::sync::Mutex as RealMutex;

/// what fails: 0 nothing, 1 a step, 2 a visit, 3 a copy, 4 the first visit (identity)
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Seq {
    steps: u32,
    /// 0: as large as can be
    budget: u32,
    fault: u8,
    /// at the how-manieth step / visit / copy
    at: u32,
    /// reverse this sequence from inside a visit, too
    nested: Option<Box<Seq>>,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanCp {
    threads: Vec<Vec<Seq>>,
}
pub fn gen(r: &mut Rng, t: Tier) -> Value {
    let threads = (0..r.weighted(&[0, 4, 2, 1])).map(|_| (0..r.range(1, 3)).map(|_| seq(r, t, true)).collect()).collect();
    js(&PlanCp { threads })
}
fn seq(r: &mut Rng, t: Tier, nest: bool) -> Seq {
    let big = t == Tier::Thorough;
    if nest && r.chance(1, 12000) {
        return Seq { steps: r.range(60_000, 70_000) as u32, budget: if r.chance(1, 2) { 0 } else { r.range(20, 60) as u32 }, fault: 0, at: 0, nested: None };
    }
    let long = if big { r.chance(1, 8) } else { r.chance(1, 200) };
    let steps = match r.weighted(&[3, 5, 4]) {
        _ if long => r.range(200, 3000),
        0 => r.range(0, 6),
        1 => r.range(2, 40),
        _ => r.range(20, 200),
    };
    let budget = match r.weighted(&[5, 3, 1, 1, 1]) {
        0 => r.range(2, 6),
        1 => r.range(2, 16),
        2 => r.range(2, steps + 3),
        3 => steps.max(1) + 1 - r.below(2).min(steps),
        _ => 0,
    };
    // few checkpoints for many states take too many steps
    let steps = match budget {
        2 => steps % 250,
        3 => steps % 800,
        _ => steps,
    };
    let fault = if r.chance(2, 5) { r.range(1, 4) as u8 } else { 0 };
    let at = match r.below(3) {
        0 => r.below(4),
        1 => r.below(steps + 1),
        _ => r.below(3 * steps + 2),
    } as u32;
    let nested = if nest && r.chance(1, 10) {
        let mut s = seq(r, Tier::Quick, false);
        s.steps %= 12;
        Some(Box::new(s))
    } else {
        None
    };
    Seq { steps: steps as u32, budget: budget as u32, fault, at, nested }
}

struct Fault(u64);
/// The bookkeeping of one reversal.
struct Book {
    id: u64,
    live: AtomicI64,
    peak: AtomicI64,
    made: AtomicU64,
    /// alive states and results
    alive: RealMutex<BTreeSet<u64>>,
    steps: AtomicU64,
    visits: AtomicU64,
    copies: AtomicU64,
    idents: AtomicU64,
    results: AtomicI64,
    fault: (u8, u64),
    fired: AtomicI64,
}
impl Book {
    fn new(s: &Seq, id: u64) -> RealArc<Book> {
        quiet(|| {
            RealArc::new(Book {
                id,
                live: AtomicI64::new(0),
                peak: AtomicI64::new(0),
                made: AtomicU64::new(0),
                alive: RealMutex::new(BTreeSet::new()),
                steps: AtomicU64::new(0),
                visits: AtomicU64::new(0),
                copies: AtomicU64::new(0),
                idents: AtomicU64::new(0),
                results: AtomicI64::new(0),
                fault: (s.fault, s.at as u64),
                fired: AtomicI64::new(0),
            })
        })
    }
    fn birth(&self) -> u64 {
        quiet(|| {
            let id = self.made.fetch_add(1, SeqCst);
            self.alive.lock().unwrap().insert(id);
            id
        })
    }
    fn death(&self, id: u64, what: &str) {
        quiet(|| {
            if !self.alive.lock().unwrap().remove(&id) {
                viol!("released-twice", "a {} is released twice", what);
            }
        })
    }
    /// the scheduler gets a say, and the fault strikes
    fn pass(&self, kind: u8, counter: &AtomicU64, name: &'static str) {
        lazy_static::thread::yield_now();
        if counter.fetch_add(1, SeqCst) == self.fault.1 && self.fault.0 == kind {
            self.fired.fetch_add(1, SeqCst);
            rt::count(name);
            std::panic::panic_any(Fault(self.id));
        }
    }
}
/// A state of the sequence.
#[derive(Debug)]
struct State {
    b: BookRef,
    id: u64,
    idx: u64,
    val: u64,
    /// releases show up as missing heap blocks, too
    load: Vec<u64>,
}
#[derive(Clone)]
struct BookRef(RealArc<Book>);
impl std::fmt::Debug for BookRef {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("book")
    }
}
impl State {
    fn new(b: &BookRef, idx: u64, val: u64) -> State {
        let n = b.0.live.fetch_add(1, SeqCst) + 1;
        b.0.peak.fetch_max(n, SeqCst);
        State { b: b.clone(), id: b.0.birth(), idx, val, load: vec![val; 2] }
    }
}
impl Clone for State {
    fn clone(&self) -> State {
        self.b.0.pass(3, &self.b.0.copies, "fault_copy");
        State::new(&self.b, self.idx, self.val)
    }
}
impl Drop for State {
    fn drop(&mut self) {
        self.b.0.live.fetch_sub(1, SeqCst);
        self.b.0.death(self.id, "state");
        require!(self.load.len() == 2 && self.load[0] == self.val, "damaged", "a state is damaged when it is released");
    }
}
/// What a visit returns.
#[derive(Debug)]
struct Res {
    b: BookRef,
    id: u64,
    /// the next state to be visited, and a digest of the visits so far
    next: u64,
    digest: u64,
}
impl Res {
    fn new(b: &BookRef, next: u64, digest: u64) -> Res {
        b.0.results.fetch_add(1, SeqCst);
        Res { b: b.clone(), id: b.0.birth(), next, digest }
    }
}
impl Drop for Res {
    fn drop(&mut self) {
        self.b.0.results.fetch_sub(1, SeqCst);
        self.b.0.death(self.id, "result");
    }
}
fn mix(a: u64, b: u64) -> u64 {
    let mut x = a.rotate_left(17) ^ b.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    x ^= x >> 29;
    x.wrapping_mul(0xbf58_476d_1ce4_e5b9)
}
fn value_at(id: u64, i: u64) -> u64 {
    let mut v = mix(id, 1);
    for k in 0..i {
        v = mix(v, k);
    }
    v
}

fn reverse(s: &Seq, id: u64, depth: u32) {
    let book = Book::new(s, id);
    let b = quiet(|| BookRef(book.clone()));
    let n = s.steps as u64;
    let budget = match s.budget {
        0 => usize::MAX,
        k => (k as usize).max(2),
    };
    let vals: Vec<u64> = quiet(|| {
        let mut v = vec![value_at(id, 0)];
        for k in 0..n {
            let l = *v.last().unwrap();
            v.push(mix(l, k));
        }
        v
    });
    let over = |when: &str| {
        let live = b.0.live.load(SeqCst);
        if budget != usize::MAX && live > budget as i64 + 1 {
            viol!("over-budget", "{} states are alive {} with a budget of {} checkpoints", live, when, budget);
        }
    };
    let seen = |x: &State, at: u64| {
        require!(x.idx == at, "order", "state {} is visited when it is the turn of state {}", x.idx, at);
        require!(x.val == vals[at as usize], "wrong-state", "state {} is visited with another value than the steps produce", at);
    };
    let run = catch(|| {
        drivers::reverse_sequence(
            State::new(&b, 0, vals[0]),
            n as usize,
            budget,
            |mut x: State| {
                require!(x.idx < n, "order", "a step is made from state {}, the last one", x.idx);
                require!(x.val == vals[x.idx as usize], "wrong-state", "a step is made from state {} with another value than the steps produce", x.idx);
                b.0.pass(1, &b.0.steps, "fault_step");
                over("during a step");
                x.val = mix(x.val, x.idx);
                x.idx += 1;
                let v = x.val;
                x.load.iter_mut().for_each(|l| *l = v);
                x
            },
            |x: State, right: Res| {
                let at = right.next;
                require!(at != u64::MAX, "order", "state {} is visited after the first state", x.idx);
                seen(&x, at);
                require!(b.0.results.load(SeqCst) == 1, "results", "{} results are alive during a visit", b.0.results.load(SeqCst));
                if let (Some(inner), true) = (&s.nested, depth == 0) {
                    if at == n / 2 {
                        rt::count("nested_reversals");
                        reverse(inner, id + 1000, depth + 1);
                    }
                }
                b.0.pass(2, &b.0.visits, "fault_visit");
                over("during a visit");
                let d = mix(right.digest, x.val);
                drop(right);
                drop(x);
                Res::new(&b, at.wrapping_sub(1), d)
            },
            |x: State| {
                require!(x.idx == n, "order", "the reversal begins at state {} of {}", x.idx, n);
                seen(&x, n);
                b.0.pass(4, &b.0.idents, "fault_identity");
                over("during the first visit");
                Res::new(&b, n.wrapping_sub(1), mix(7, x.val))
            },
        )
    });
    let fired = b.0.fired.load(SeqCst) > 0;
    match run {
        Ok(r) => {
            require!(!fired, "swallowed", "a step, visit or copy failed, the reversal returned a result");
            require!(r.next == u64::MAX, "order", "the reversal returned before states {}..0 were visited", r.next);
            let mut d = mix(7, vals[n as usize]);
            for i in (0..n as usize).rev() {
                d = mix(d, vals[i]);
            }
            require!(r.digest == d, "result", "the result is not the one of visiting every state once from last to first");
            let (v, i) = (b.0.visits.load(SeqCst), b.0.idents.load(SeqCst));
            require!(v == n && i == 1, "visits", "{} + {} visits of {} states", v, i, n + 1);
            drop(r);
            rt::count("reversals_completed");
        }
        Err(e) => {
            if !fired {
                viol!("unexpected-panic", "reverse_sequence({} steps, budget {}) panicked: {}", n, s.budget, last_panic());
            }
            match e.downcast_ref::<Fault>() {
                Some(f) => require!(f.0 == id, "wrong-panic", "the caller gets the failure of another reversal"),
                None => viol!("wrong-panic", "the caller gets another panic than the failed step's: {}", last_panic()),
            }
            drop(e);
        }
    }
    let left = quiet(|| b.0.alive.lock().unwrap().len());
    require!(left == 0 && b.0.live.load(SeqCst) == 0, "leak", "{} states or results are not released ({} states)", left, b.0.live.load(SeqCst));
    over("afterwards");
    let peak = b.0.peak.load(SeqCst);
    if budget != usize::MAX {
        require!(peak <= budget as i64 + 1, "over-budget", "{} states were alive at once with a budget of {} checkpoints", peak, budget);
    }
    quiet(|| drop((book, b)));
}

pub fn exec(v: &Value) {
    let p: PlanCp = plan(v);
    let mut tasks: Vec<Task> = vec![];
    for (t, ss) in p.threads.iter().enumerate() {
        tasks.push(Box::new(move || {
            for (i, s) in ss.iter().enumerate() {
                let id = (t * 10_000 + i * 100 + 1) as u64;
                let r = catch(|| reverse(s, id, 0));
                if let Err(e) = r {
                    // only a nested reversal's failure may come out of here: it is caught inside
                    drop(e);
                    viol!("unexpected-panic", "a reversal panicked: {}", last_panic());
                }
            }
        }));
    }
    run_threads(tasks);
}

// ------------------------------------------------------------------------------------------------ heap

#[derive(Serialize, Deserialize, Clone, Debug)]
struct PlanCpRounds {
    s: Seq,
}
pub fn gen_rounds(r: &mut Rng, _t: Tier) -> Value {
    let mut s = seq(r, Tier::Quick, false);
    s.steps %= 60;
    s.at %= 80;
    js(&PlanCpRounds { s })
}
/// No heap block is left behind, failed or not.
pub fn exec_rounds(v: &Value) {
    let p: PlanCpRounds = plan(v);
    let mut sizes: Vec<i64> = quiet(|| Vec::with_capacity(64));
    let (warm, count) = (4, 12);
    for i in 0..warm + count {
        reverse(&p.s, 5, 0);
        if i >= warm {
            sizes.push(crate::alloc::live().0);
        }
    }
    let grown = sizes[count - 1] - sizes[0];
    require!(grown < count as i64 - 1, "leak", "{} reversals left {} heap blocks behind", count - 1, grown);
}
