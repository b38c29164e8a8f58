use crate::rt::{self, Kind, ObjId};
use ::std::fmt;
use ::std::ops::{Deref, DerefMut};
use ::std::sync as real;
use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};
use ::std::time::Duration;

pub struct Mutex<T: ?Sized> {
    id: ObjId,
    inner: real::Mutex<T>,
}

#[must_use]
pub struct MutexGuard<'a, T: ?Sized + 'a> {
    lock: &'a Mutex<T>,
    inner: Option<real::MutexGuard<'a, T>>,
}

impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { id: ObjId::new(), inner: real::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}

impl<T: ?Sized> Mutex<T> {
    fn wrap<'a>(&'a self, r: LockResult<real::MutexGuard<'a, T>>) -> LockResult<MutexGuard<'a, T>> {
        match r {
            Ok(g) => Ok(MutexGuard { lock: self, inner: Some(g) }),
            Err(e) => Err(PoisonError::new(MutexGuard { lock: self, inner: Some(e.into_inner()) })),
        }
    }
    fn acquire(&self) -> LockResult<real::MutexGuard<'_, T>> {
        if !rt::in_sim() {
            return self.inner.lock();
        }
        loop {
            match self.inner.try_lock() {
                Ok(g) => return Ok(g),
                Err(TryLockError::Poisoned(e)) => return Err(e),
                Err(TryLockError::WouldBlock) => {
                    rt::count("lock_contended");
                    rt::block(Kind::Lock, self.id.get(), None);
                }
            }
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        rt::point(Kind::Lock, self.id.get());
        let g = self.wrap(self.acquire());
        rt::point(Kind::Locked, self.id.get());
        g
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        rt::point(Kind::TryLock, self.id.get());
        match self.inner.try_lock() {
            Ok(g) => Ok(MutexGuard { lock: self, inner: Some(g) }),
            Err(TryLockError::Poisoned(e)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { lock: self, inner: Some(e.into_inner()) })))
            }
            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}

impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}

impl<'a, T: ?Sized> Deref for MutexGuard<'a, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.inner.as_ref().unwrap()
    }
}
impl<'a, T: ?Sized> DerefMut for MutexGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}
impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized + fmt::Display> fmt::Display for MutexGuard<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<'a, T: ?Sized> Drop for MutexGuard<'a, T> {
    fn drop(&mut self) {
        if let Some(g) = self.inner.take() {
            drop(g);
            if rt::in_sim() {
                let id = self.lock.id.get();
                rt::wake_all(id);
                rt::point(Kind::Unlock, id);
            }
        }
    }
}

#[derive(Debug, PartialEq, Eq, Copy, Clone)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(&self) -> bool {
        self.0
    }
}

pub struct Condvar {
    id: ObjId,
    inner: real::Condvar,
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { id: ObjId::new(), inner: real::Condvar::new() }
    }
    fn wait_inner<'a, T>(
        &self,
        mut guard: MutexGuard<'a, T>,
        timeout: Option<Duration>,
    ) -> (LockResult<MutexGuard<'a, T>>, bool) {
        let lock = guard.lock;
        let g = guard.inner.take().unwrap();
        drop(guard);
        if !rt::in_sim() {
            return match timeout {
                None => (lock.wrap(self.inner.wait(g)), false),
                Some(d) => match self.inner.wait_timeout(g, d) {
                    Ok((g, t)) => (lock.wrap(Ok(g)), t.timed_out()),
                    Err(e) => {
                        let (g, t) = e.into_inner();
                        (lock.wrap(Err(PoisonError::new(g))), t.timed_out())
                    }
                },
            };
        }
        let spurious = rt::flip_spurious();
        drop(g);
        rt::wake_all(lock.id.get());
        let woken = if spurious {
            rt::point(Kind::CondWait, self.id.get());
            true
        } else {
            rt::block(Kind::CondWait, self.id.get(), timeout.map(|d| d.as_nanos() as u64))
        };
        (lock.wrap(lock.acquire()), !woken)
    }
    pub fn wait<'a, T>(&self, guard: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.wait_inner(guard, None).0
    }
    pub fn wait_while<'a, T, F>(&self, mut guard: MutexGuard<'a, T>, mut cond: F) -> LockResult<MutexGuard<'a, T>>
    where
        F: FnMut(&mut T) -> bool,
    {
        while cond(&mut *guard) {
            guard = self.wait(guard)?;
        }
        Ok(guard)
    }
    pub fn wait_timeout<'a, T>(
        &self,
        guard: MutexGuard<'a, T>,
        dur: Duration,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)> {
        match self.wait_inner(guard, Some(dur)) {
            (Ok(g), t) => Ok((g, WaitTimeoutResult(t))),
            (Err(e), t) => Err(PoisonError::new((e.into_inner(), WaitTimeoutResult(t)))),
        }
    }
    pub fn wait_timeout_while<'a, T, F>(
        &self,
        mut guard: MutexGuard<'a, T>,
        dur: Duration,
        mut cond: F,
    ) -> LockResult<(MutexGuard<'a, T>, WaitTimeoutResult)>
    where
        F: FnMut(&mut T) -> bool,
    {
        loop {
            if !cond(&mut *guard) {
                return Ok((guard, WaitTimeoutResult(false)));
            }
            let (g, t) = self.wait_timeout(guard, dur)?;
            guard = g;
            if t.timed_out() {
                let still = cond(&mut *guard);
                return Ok((guard, WaitTimeoutResult(still)));
            }
        }
    }
    pub fn notify_one(&self) {
        rt::point(Kind::CondNotify, self.id.get());
        if rt::in_sim() {
            rt::wake_one(self.id.get());
        } else {
            self.inner.notify_one();
        }
    }
    pub fn notify_all(&self) {
        rt::point(Kind::CondNotify, self.id.get());
        if rt::in_sim() {
            rt::wake_all(self.id.get());
        } else {
            self.inner.notify_all();
        }
    }
}
impl Default for Condvar {
    fn default() -> Self {
        Condvar::new()
    }
}
impl fmt::Debug for Condvar {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Condvar { .. }")
    }
}

pub struct RwLock<T: ?Sized> {
    id: ObjId,
    inner: real::RwLock<T>,
}
#[must_use]
pub struct RwLockReadGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    inner: Option<real::RwLockReadGuard<'a, T>>,
}
#[must_use]
pub struct RwLockWriteGuard<'a, T: ?Sized + 'a> {
    lock: &'a RwLock<T>,
    inner: Option<real::RwLockWriteGuard<'a, T>>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { id: ObjId::new(), inner: real::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.inner.into_inner()
    }
}
macro_rules! rw {
    ($lock:ident, $try:ident, $guard:ident, $kind:expr) => {
        pub fn $lock(&self) -> LockResult<$guard<'_, T>> {
            rt::point($kind, self.id.get());
            let out = if !rt::in_sim() {
                match self.inner.$lock() {
                    Ok(g) => Ok($guard { lock: self, inner: Some(g) }),
                    Err(e) => Err(PoisonError::new($guard { lock: self, inner: Some(e.into_inner()) })),
                }
            } else {
                loop {
                    match self.inner.$try() {
                        Ok(g) => break Ok($guard { lock: self, inner: Some(g) }),
                        Err(TryLockError::Poisoned(e)) => {
                            break Err(PoisonError::new($guard { lock: self, inner: Some(e.into_inner()) }))
                        }
                        Err(TryLockError::WouldBlock) => {
                            rt::count("lock_contended");
                            rt::block($kind, self.id.get(), None);
                        }
                    }
                }
            };
            rt::point(Kind::Locked, self.id.get());
            out
        }
        pub fn $try(&self) -> TryLockResult<$guard<'_, T>> {
            rt::point(Kind::TryLock, self.id.get());
            match self.inner.$try() {
                Ok(g) => Ok($guard { lock: self, inner: Some(g) }),
                Err(TryLockError::Poisoned(e)) => {
                    Err(TryLockError::Poisoned(PoisonError::new($guard { lock: self, inner: Some(e.into_inner()) })))
                }
                Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
            }
        }
    };
}
impl<T: ?Sized> RwLock<T> {
    rw!(read, try_read, RwLockReadGuard, Kind::Read);
    rw!(write, try_write, RwLockWriteGuard, Kind::Write);
    pub fn is_poisoned(&self) -> bool {
        self.inner.is_poisoned()
    }
    pub fn clear_poison(&self) {
        self.inner.clear_poison()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.inner.get_mut()
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(t: T) -> Self {
        RwLock::new(t)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.inner.fmt(f)
    }
}
macro_rules! rwguard {
    ($g:ident) => {
        impl<'a, T: ?Sized> Deref for $g<'a, T> {
            type Target = T;
            fn deref(&self) -> &T {
                self.inner.as_ref().unwrap()
            }
        }
        impl<'a, T: ?Sized + fmt::Debug> fmt::Debug for $g<'a, T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                (**self).fmt(f)
            }
        }
        impl<'a, T: ?Sized> Drop for $g<'a, T> {
            fn drop(&mut self) {
                drop(self.inner.take());
                if rt::in_sim() {
                    let id = self.lock.id.get();
                    rt::wake_all(id);
                    rt::point(Kind::Unlock, id);
                }
            }
        }
    };
}
rwguard!(RwLockReadGuard);
rwguard!(RwLockWriteGuard);
impl<'a, T: ?Sized> DerefMut for RwLockWriteGuard<'a, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.inner.as_mut().unwrap()
    }
}

pub struct Barrier {
    lock: Mutex<(usize, usize)>,
    cv: Condvar,
    n: usize,
}
#[derive(Debug)]
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { lock: Mutex::new((0, 0)), cv: Condvar::new(), n }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        let mut g = self.lock.lock().unwrap();
        let gen = g.1;
        g.0 += 1;
        if g.0 < self.n {
            while g.1 == gen {
                g = self.cv.wait(g).unwrap();
            }
            BarrierWaitResult(false)
        } else {
            g.0 = 0;
            g.1 += 1;
            self.cv.notify_all();
            BarrierWaitResult(true)
        }
    }
}
impl fmt::Debug for Barrier {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Barrier { .. }")
    }
}
