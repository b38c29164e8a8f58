//! `std::thread` on the simulated scheduler.
use crate::rt::{self, Kind};
use ::std::any::Any;
use ::std::fmt;
use ::std::io;
use ::std::marker::PhantomData;
use ::std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use ::std::sync::{Arc, Mutex};
use ::std::time::Duration;

pub use ::std::thread::{panicking, AccessError, LocalKey, Result, ThreadId};

pub fn yield_now() {
    if rt::in_sim() {
        rt::point(Kind::Yield, 0)
    } else {
        ::std::thread::yield_now()
    }
}
pub fn sleep(d: Duration) {
    if rt::in_sim() {
        rt::sleep_ns(d.as_nanos() as u64)
    } else {
        ::std::thread::sleep(d)
    }
}
pub fn sleep_ms(ms: u32) {
    sleep(Duration::from_millis(ms as u64))
}
pub fn park() {
    if rt::in_sim() {
        rt::park(None)
    } else {
        ::std::thread::park()
    }
}
pub fn park_timeout(d: Duration) {
    if rt::in_sim() {
        rt::park(Some(d.as_nanos() as u64))
    } else {
        ::std::thread::park_timeout(d)
    }
}
pub fn available_parallelism() -> io::Result<::std::num::NonZeroUsize> {
    if rt::in_sim() {
        Ok(::std::num::NonZeroUsize::new(rt::parallelism().max(1)).unwrap())
    } else {
        Ok(::std::num::NonZeroUsize::new(1).unwrap())
    }
}

#[derive(Clone)]
pub struct Thread {
    inner: Option<::std::thread::Thread>,
    tid: usize,
    name: Option<String>,
}
impl Thread {
    pub fn unpark(&self) {
        if self.tid != rt::NONE {
            if rt::in_sim() {
                rt::unpark(self.tid)
            }
        } else if let Some(t) = &self.inner {
            t.unpark()
        }
    }
    pub fn id(&self) -> ThreadId {
        self.inner.as_ref().map(|t| t.id()).unwrap_or_else(|| ::std::thread::current().id())
    }
    pub fn name(&self) -> Option<&str> {
        self.name.as_deref()
    }
}
impl fmt::Debug for Thread {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("Thread").field("name", &self.name()).finish()
    }
}
pub fn current() -> Thread {
    let t = ::std::thread::current();
    let name = t.name().map(|s| s.to_string());
    Thread { inner: Some(t), tid: rt::tid(), name }
}

type Packet<T> = Arc<Mutex<Option<Result<T>>>>;

pub struct JoinHandle<T> {
    tid: usize,
    packet: Packet<T>,
    real: Option<::std::thread::JoinHandle<()>>,
    thread: Thread,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T> {
        if self.tid != rt::NONE {
            rt::join(self.tid);
        } else if let Some(r) = self.real {
            let _ = r.join();
        }
        let r = self.packet.lock().unwrap_or_else(|e| e.into_inner()).take();
        r.expect("thread left no result")
    }
    pub fn thread(&self) -> &Thread {
        &self.thread
    }
    pub fn is_finished(&self) -> bool {
        if self.tid != rt::NONE {
            rt::point(Kind::Yield, 0);
        }
        Arc::strong_count(&self.packet) == 1
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle { .. }")
    }
}

#[derive(Debug, Default)]
pub struct Builder {
    name: Option<String>,
    stack: Option<usize>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder::default()
    }
    pub fn name(mut self, n: String) -> Builder {
        self.name = Some(n);
        self
    }
    pub fn stack_size(mut self, n: usize) -> Builder {
        self.stack = Some(n);
        self
    }
    pub fn spawn<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        unsafe { self.spawn_unchecked(f) }
    }
    pub unsafe fn spawn_unchecked<F, T>(self, f: F) -> io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send,
        T: Send,
    {
        let quiet = rt::Quiet::new();
        let packet: Packet<T> = Arc::new(Mutex::new(None));
        let p2 = packet.clone();
        let main = move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            *p2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            drop(p2);
        };
        let main: Box<dyn FnOnce() + Send> = Box::new(main);
        let main: Box<dyn FnOnce() + Send + 'static> = ::std::mem::transmute(main);
        let name = self.name.clone();
        drop(quiet);
        if rt::in_sim() {
            let tid = rt::spawn(self.name, main);
            Ok(JoinHandle { tid, packet, real: None, thread: Thread { inner: None, tid, name } })
        } else {
            let mut b = ::std::thread::Builder::new();
            if let Some(n) = self.name {
                b = b.name(n);
            }
            if let Some(s) = self.stack {
                b = b.stack_size(s);
            }
            let real = b.spawn(main)?;
            let thread = Thread { inner: Some(real.thread().clone()), tid: rt::NONE, name };
            Ok(JoinHandle { tid: rt::NONE, packet, real: Some(real), thread })
        }
    }
    pub fn spawn_scoped<'scope, 'env, F, T>(
        self,
        scope: &'scope Scope<'scope, 'env>,
        f: F,
    ) -> io::Result<ScopedJoinHandle<'scope, T>>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let data = scope.data.clone();
        {
            let mut d = data.lock().unwrap();
            d.running += 1;
        }
        let g = move || {
            let r = catch_unwind(AssertUnwindSafe(f));
            let mut d = data.lock().unwrap_or_else(|e| e.into_inner());
            d.running -= 1;
            match r {
                Ok(v) => v,
                Err(e) => {
                    d.panicked = true;
                    drop(d);
                    resume_unwind(e)
                }
            }
        };
        let h = unsafe { self.spawn_unchecked(g)? };
        scope.data.lock().unwrap().tids.push(h.tid);
        Ok(ScopedJoinHandle { inner: h, data: scope.data.clone(), _p: PhantomData })
    }
}
pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    Builder::new().spawn(f).expect("failed to spawn thread")
}

struct ScopeData {
    running: usize,
    panicked: bool,
    joined_panics: bool,
    tids: Vec<usize>,
}
pub struct Scope<'scope, 'env: 'scope> {
    data: Arc<Mutex<ScopeData>>,
    scope: PhantomData<&'scope mut &'scope ()>,
    env: PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    inner: JoinHandle<T>,
    data: Arc<Mutex<ScopeData>>,
    _p: PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> Result<T> {
        let r = self.inner.join();
        if r.is_err() {
            self.data.lock().unwrap().joined_panics = true;
        }
        r
    }
    pub fn thread(&self) -> &Thread {
        self.inner.thread()
    }
    pub fn is_finished(&self) -> bool {
        self.inner.is_finished()
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        Builder::new().spawn_scoped(self, f).expect("failed to spawn thread")
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let scope = Scope {
        data: Arc::new(Mutex::new(ScopeData { running: 0, panicked: false, joined_panics: false, tids: vec![] })),
        scope: PhantomData,
        env: PhantomData,
    };
    let r = catch_unwind(AssertUnwindSafe(|| f(&scope)));
    loop {
        let tids: Vec<usize> = ::std::mem::take(&mut scope.data.lock().unwrap().tids);
        for t in &tids {
            if *t != rt::NONE {
                rt::join(*t);
            }
        }
        let d = scope.data.lock().unwrap();
        if d.running == 0 && d.tids.is_empty() {
            break;
        }
        drop(d);
        yield_now();
    }
    match r {
        Err(e) => resume_unwind(e),
        Ok(v) => {
            let d = scope.data.lock().unwrap();
            if d.panicked && !d.joined_panics {
                drop(d);
                panic!("a scoped thread panicked")
            }
            v
        }
    }
}

#[allow(dead_code)]
type _Unused = Box<dyn Any>;
