//! `std::sync::atomic` with a scheduling point before every operation (sequentially consistent).
use crate::rt::{self, Kind, ObjId};
use ::core::sync::atomic as real;
pub use ::core::sync::atomic::Ordering;
use ::std::fmt;
use Ordering::SeqCst;

pub fn fence(_: Ordering) {
    rt::point(Kind::Atomic, 0);
    real::fence(SeqCst);
}
pub fn compiler_fence(_: Ordering) {
    real::compiler_fence(SeqCst);
}
pub fn spin_loop_hint() {
    crate::thread::yield_now();
}

fn strongest_load(_: Ordering) -> Ordering {
    SeqCst
}

macro_rules! base {
    ($A:ident, $T:ty) => {
        #[repr(C)]
        pub struct $A {
            v: real::$A,
            id: ObjId,
        }
        impl $A {
            pub const fn new(v: $T) -> $A {
                $A { v: real::$A::new(v), id: ObjId::new() }
            }
            #[inline]
            fn p(&self) {
                rt::point(Kind::Atomic, self.id.get());
            }
            pub fn get_mut(&mut self) -> &mut $T {
                self.v.get_mut()
            }
            pub fn into_inner(self) -> $T {
                self.v.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $T {
                self.v.as_ptr()
            }
            #[track_caller]
            pub fn load(&self, o: Ordering) -> $T {
                assert!(!matches!(o, Ordering::Release | Ordering::AcqRel), "there is no such thing as a release load");
                self.p();
                self.v.load(strongest_load(o))
            }
            #[track_caller]
            pub fn store(&self, x: $T, o: Ordering) {
                assert!(!matches!(o, Ordering::Acquire | Ordering::AcqRel), "there is no such thing as an acquire store");
                self.p();
                self.v.store(x, SeqCst)
            }
            pub fn swap(&self, x: $T, _: Ordering) -> $T {
                self.p();
                self.v.swap(x, SeqCst)
            }
            pub fn compare_and_swap(&self, a: $T, b: $T, _: Ordering) -> $T {
                self.p();
                match self.v.compare_exchange(a, b, SeqCst, SeqCst) {
                    Ok(v) | Err(v) => v,
                }
            }
            pub fn compare_exchange(&self, a: $T, b: $T, _: Ordering, _: Ordering) -> Result<$T, $T> {
                self.p();
                self.v.compare_exchange(a, b, SeqCst, SeqCst)
            }
            pub fn compare_exchange_weak(&self, a: $T, b: $T, _: Ordering, _: Ordering) -> Result<$T, $T> {
                self.p();
                if rt::flip_spurious() {
                    return Err(self.v.load(SeqCst));
                }
                self.v.compare_exchange(a, b, SeqCst, SeqCst)
            }
            pub fn fetch_update<F: FnMut($T) -> Option<$T>>(&self, _: Ordering, _: Ordering, mut f: F) -> Result<$T, $T> {
                let mut prev = self.load(SeqCst);
                while let Some(next) = f(prev) {
                    match self.compare_exchange_weak(prev, next, SeqCst, SeqCst) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
        }
        impl fmt::Debug for $A {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                self.v.fmt(f)
            }
        }
        impl From<$T> for $A {
            fn from(v: $T) -> Self {
                $A::new(v)
            }
        }
    };
}
macro_rules! fetch {
    ($T:ty, $($name:ident),*) => {
        $(pub fn $name(&self, x: $T, _: Ordering) -> $T {
            self.p();
            self.v.$name(x, SeqCst)
        })*
    };
}
macro_rules! int {
    ($A:ident, $T:ty) => {
        base!($A, $T);
        impl $A {
            fetch!($T, fetch_add, fetch_sub, fetch_and, fetch_nand, fetch_or, fetch_xor, fetch_max, fetch_min);
        }
        impl Default for $A {
            fn default() -> Self {
                $A::new(0)
            }
        }
    };
}
int!(AtomicUsize, usize);
int!(AtomicIsize, isize);
int!(AtomicU64, u64);
int!(AtomicI64, i64);
int!(AtomicU32, u32);
int!(AtomicI32, i32);
int!(AtomicU16, u16);
int!(AtomicI16, i16);
int!(AtomicU8, u8);
int!(AtomicI8, i8);
base!(AtomicBool, bool);
impl AtomicBool {
    fetch!(bool, fetch_and, fetch_nand, fetch_or, fetch_xor);
    pub fn fetch_not(&self, _: Ordering) -> bool {
        self.fetch_xor(true, SeqCst)
    }
}
impl Default for AtomicBool {
    fn default() -> Self {
        AtomicBool::new(false)
    }
}
pub const ATOMIC_USIZE_INIT: AtomicUsize = AtomicUsize::new(0);
pub const ATOMIC_BOOL_INIT: AtomicBool = AtomicBool::new(false);

pub struct AtomicPtr<T> {
    v: real::AtomicPtr<T>,
    id: ObjId,
}
impl<T> AtomicPtr<T> {
    pub const fn new(p: *mut T) -> AtomicPtr<T> {
        AtomicPtr { v: real::AtomicPtr::new(p), id: ObjId::new() }
    }
    fn p(&self) {
        rt::point(Kind::Atomic, self.id.get());
    }
    pub fn get_mut(&mut self) -> &mut *mut T {
        self.v.get_mut()
    }
    pub fn into_inner(self) -> *mut T {
        self.v.into_inner()
    }
    pub fn load(&self, _: Ordering) -> *mut T {
        self.p();
        self.v.load(SeqCst)
    }
    pub fn store(&self, x: *mut T, _: Ordering) {
        self.p();
        self.v.store(x, SeqCst)
    }
    pub fn swap(&self, x: *mut T, _: Ordering) -> *mut T {
        self.p();
        self.v.swap(x, SeqCst)
    }
    pub fn compare_exchange(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
        self.p();
        self.v.compare_exchange(a, b, SeqCst, SeqCst)
    }
    pub fn compare_exchange_weak(&self, a: *mut T, b: *mut T, _: Ordering, _: Ordering) -> Result<*mut T, *mut T> {
        self.p();
        if rt::flip_spurious() {
            return Err(self.v.load(SeqCst));
        }
        self.v.compare_exchange(a, b, SeqCst, SeqCst)
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        AtomicPtr::new(::std::ptr::null_mut())
    }
}
impl<T> fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("AtomicPtr")
    }
}
