//! Stand-in for crossbeam_deque and crossbeam_utils: the same interface on a plain deque, with a scheduling
//! point before every operation.  Only one simulated thread runs at a time, so a std mutex never blocks.
use alloc::sync::Arc;
use std::collections::VecDeque;
use std::rt::{self, Kind};

type Q<T> = Arc<core_mutex::Mutex<VecDeque<T>>>;
mod core_mutex {
    pub use std::real::sync::Mutex;
}

pub enum Steal<T> {
    Empty,
    Success(T),
    #[allow(dead_code)]
    Retry,
}
impl<T> Steal<T> {
    pub fn is_retry(&self) -> bool {
        matches!(self, Steal::Retry)
    }
}
impl<T> FromIterator<Steal<T>> for Steal<T> {
    fn from_iter<I: IntoIterator<Item = Steal<T>>>(iter: I) -> Self {
        for s in iter {
            if let Steal::Success(_) = s {
                return s;
            }
        }
        Steal::Empty
    }
}

pub struct Worker<T> {
    q: Q<T>,
    fifo: bool,
}
pub struct Stealer<T> {
    q: Q<T>,
}
pub struct Injector<T> {
    q: Q<T>,
}

fn new_q<T>() -> Q<T> {
    Arc::new(core_mutex::Mutex::new(VecDeque::new()))
}
fn len<T>(q: &Q<T>) -> usize {
    q.lock().unwrap().len()
}

impl<T> Worker<T> {
    pub fn new_fifo() -> Self {
        Worker { q: new_q(), fifo: true }
    }
    pub fn new_lifo() -> Self {
        Worker { q: new_q(), fifo: false }
    }
    pub fn stealer(&self) -> Stealer<T> {
        Stealer { q: self.q.clone() }
    }
    pub fn is_empty(&self) -> bool {
        len(&self.q) == 0
    }
    pub fn push(&self, t: T) {
        let _q = rt::Quiet::new();
        self.q.lock().unwrap().push_back(t);
        drop(_q);
        rt::point(Kind::Push, 0);
    }
    pub fn pop(&self) -> Option<T> {
        rt::point(Kind::Pop, 0);
        let mut q = self.q.lock().unwrap();
        if self.fifo {
            q.pop_front()
        } else {
            q.pop_back()
        }
    }
}
impl<T> Stealer<T> {
    pub fn is_empty(&self) -> bool {
        len(&self.q) == 0
    }
    pub fn steal(&self) -> Steal<T> {
        rt::point(Kind::Steal, 0);
        match self.q.lock().unwrap().pop_front() {
            Some(t) => {
                rt::count("job_stolen");
                Steal::Success(t)
            }
            None => Steal::Empty,
        }
    }
}
impl<T> Injector<T> {
    pub fn new() -> Self {
        Injector { q: new_q() }
    }
    pub fn is_empty(&self) -> bool {
        len(&self.q) == 0
    }
    pub fn push(&self, t: T) {
        let _q = rt::Quiet::new();
        self.q.lock().unwrap().push_back(t);
        drop(_q);
        rt::point(Kind::Push, 0);
    }
    pub fn steal(&self) -> Steal<T> {
        rt::point(Kind::Steal, 0);
        match self.q.lock().unwrap().pop_front() {
            Some(t) => Steal::Success(t),
            None => Steal::Empty,
        }
    }
}

#[derive(Default)]
pub struct CachePadded<T>(T);
impl<T> CachePadded<T> {
    #[allow(dead_code)]
    pub const fn new(t: T) -> Self {
        CachePadded(t)
    }
}
impl<T> core::ops::Deref for CachePadded<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.0
    }
}
