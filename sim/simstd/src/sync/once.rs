use crate::rt::{self, Kind, ObjId};
use ::std::cell::UnsafeCell;
use ::std::fmt;
use ::std::mem::MaybeUninit;
use ::std::ops::Deref;
use ::std::panic::{RefUnwindSafe, UnwindSafe};
use ::std::sync::atomic::{AtomicU8, Ordering::*};

const INCOMPLETE: u8 = 0;
const POISONED: u8 = 1;
const RUNNING: u8 = 2;
const COMPLETE: u8 = 3;

pub struct Once {
    id: ObjId,
    st: AtomicU8,
}
pub struct OnceState {
    poisoned: bool,
}
impl OnceState {
    pub fn is_poisoned(&self) -> bool {
        self.poisoned
    }
}
impl fmt::Debug for OnceState {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("OnceState { .. }")
    }
}
pub const ONCE_INIT: Once = Once::new();

struct Finish<'a> {
    once: &'a Once,
    to: u8,
}
impl<'a> Drop for Finish<'a> {
    fn drop(&mut self) {
        self.once.st.store(self.to, SeqCst);
        let id = self.once.id.get();
        rt::wake_all(id);
        rt::point(Kind::Once, id);
    }
}

impl Once {
    pub const fn new() -> Once {
        Once { id: ObjId::new(), st: AtomicU8::new(INCOMPLETE) }
    }
    pub fn is_completed(&self) -> bool {
        rt::point(Kind::Once, self.id.get());
        self.st.load(SeqCst) == COMPLETE
    }
    fn call(&self, force: bool, f: &mut dyn FnMut(&OnceState)) {
        rt::point(Kind::Once, self.id.get());
        loop {
            let s = self.st.load(SeqCst);
            match s {
                COMPLETE => return,
                RUNNING => {
                    if rt::in_sim() {
                        rt::block(Kind::Once, self.id.get(), None);
                    } else {
                        ::std::thread::yield_now();
                    }
                }
                POISONED if !force => panic!("Once instance has previously been poisoned"),
                _ => {
                    if self.st.compare_exchange(s, RUNNING, SeqCst, SeqCst).is_ok() {
                        let mut fin = Finish { once: self, to: POISONED };
                        f(&OnceState { poisoned: s == POISONED });
                        fin.to = COMPLETE;
                        return;
                    }
                }
            }
        }
    }
    #[track_caller]
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut f = Some(f);
        self.call(false, &mut |_| f.take().unwrap()())
    }
    #[track_caller]
    pub fn call_once_force<F: FnOnce(&OnceState)>(&self, f: F) {
        let mut f = Some(f);
        self.call(true, &mut |s| f.take().unwrap()(s))
    }
}
impl fmt::Debug for Once {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Once { .. }")
    }
}

pub struct OnceLock<T> {
    once: Once,
    value: UnsafeCell<MaybeUninit<T>>,
}
unsafe impl<T: Sync + Send> Sync for OnceLock<T> {}
unsafe impl<T: Send> Send for OnceLock<T> {}
impl<T: RefUnwindSafe + UnwindSafe> RefUnwindSafe for OnceLock<T> {}
impl<T: UnwindSafe> UnwindSafe for OnceLock<T> {}

impl<T> OnceLock<T> {
    pub const fn new() -> OnceLock<T> {
        OnceLock { once: Once::new(), value: UnsafeCell::new(MaybeUninit::uninit()) }
    }
    pub fn get(&self) -> Option<&T> {
        if self.once.is_completed() {
            Some(unsafe { (*self.value.get()).assume_init_ref() })
        } else {
            None
        }
    }
    pub fn get_mut(&mut self) -> Option<&mut T> {
        if self.once.st.load(SeqCst) == COMPLETE {
            Some(unsafe { (*self.value.get()).assume_init_mut() })
        } else {
            None
        }
    }
    pub fn set(&self, value: T) -> Result<(), T> {
        let mut v = Some(value);
        self.get_or_init(|| v.take().unwrap());
        match v {
            None => Ok(()),
            Some(v) => Err(v),
        }
    }
    pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
        if self.once.st.load(SeqCst) != COMPLETE {
            self.once.call_once_force(|_| {
                let v = f();
                unsafe {
                    (*self.value.get()).write(v);
                }
            });
        }
        unsafe { (*self.value.get()).assume_init_ref() }
    }
    pub fn into_inner(mut self) -> Option<T> {
        self.take()
    }
    pub fn take(&mut self) -> Option<T> {
        if self.once.st.load(SeqCst) == COMPLETE {
            self.once = Once::new();
            Some(unsafe { (*self.value.get()).assume_init_read() })
        } else {
            None
        }
    }
}
impl<T> Drop for OnceLock<T> {
    fn drop(&mut self) {
        self.take();
    }
}
impl<T> Default for OnceLock<T> {
    fn default() -> Self {
        OnceLock::new()
    }
}
impl<T: fmt::Debug> fmt::Debug for OnceLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_tuple("OnceLock").field(&self.get()).finish()
    }
}
impl<T: Clone> Clone for OnceLock<T> {
    fn clone(&self) -> Self {
        let c = OnceLock::new();
        if let Some(v) = self.get() {
            let _ = c.set(v.clone());
        }
        c
    }
}
impl<T> From<T> for OnceLock<T> {
    fn from(v: T) -> Self {
        let c = OnceLock::new();
        let _ = c.set(v);
        c
    }
}

pub struct LazyLock<T, F = fn() -> T> {
    once: Once,
    init: UnsafeCell<Option<F>>,
    value: UnsafeCell<Option<T>>,
}
unsafe impl<T: Sync + Send, F: Send> Sync for LazyLock<T, F> {}
impl<T: RefUnwindSafe + UnwindSafe, F: UnwindSafe> RefUnwindSafe for LazyLock<T, F> {}
impl<T, F: FnOnce() -> T> LazyLock<T, F> {
    pub const fn new(f: F) -> LazyLock<T, F> {
        LazyLock { once: Once::new(), init: UnsafeCell::new(Some(f)), value: UnsafeCell::new(None) }
    }
    pub fn force(this: &LazyLock<T, F>) -> &T {
        if this.once.st.load(SeqCst) != COMPLETE {
            this.once.call_once(|| unsafe {
                let f = (*this.init.get()).take().unwrap();
                *this.value.get() = Some(f());
            });
        }
        unsafe { (*this.value.get()).as_ref().unwrap() }
    }
}
impl<T, F: FnOnce() -> T> Deref for LazyLock<T, F> {
    type Target = T;
    fn deref(&self) -> &T {
        LazyLock::force(self)
    }
}
impl<T: Default> Default for LazyLock<T> {
    fn default() -> Self {
        LazyLock::new(T::default)
    }
}
impl<T: fmt::Debug, F> fmt::Debug for LazyLock<T, F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("LazyLock { .. }")
    }
}
