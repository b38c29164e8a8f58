//! `Arc`/`Weak` whose reference-count operations are scheduling points.
use crate::rt::{self, Kind};
use ::std::borrow::{Borrow, Cow};
use ::std::cmp;
use ::std::error::Error;
use ::std::ffi::{CStr, OsStr};
use ::std::fmt;
use ::std::hash::{Hash, Hasher};
use ::std::marker::Unsize;
use ::std::mem::ManuallyDrop;
use ::std::ops::{CoerceUnsized, Deref, DispatchFromDyn, LegacyReceiver};
use ::std::panic::{RefUnwindSafe, UnwindSafe};
use ::std::pin::Pin;
use ::std::sync as real;

pub struct Arc<T: ?Sized>(real::Arc<T>);
pub struct Weak<T: ?Sized>(real::Weak<T>);

impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Arc<U>> for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Arc<U>> for Arc<T> {}
impl<T: ?Sized> LegacyReceiver for Arc<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> CoerceUnsized<Weak<U>> for Weak<T> {}
impl<T: ?Sized + Unsize<U>, U: ?Sized> DispatchFromDyn<Weak<U>> for Weak<T> {}
impl<T: RefUnwindSafe + ?Sized> UnwindSafe for Arc<T> {}

#[inline]
fn w<T: ?Sized>(a: real::Arc<T>) -> Arc<T> {
    Arc(a)
}
#[inline]
fn unw<T: ?Sized>(a: Arc<T>) -> real::Arc<T> {
    let a = ManuallyDrop::new(a);
    unsafe { ::std::ptr::read(&a.0) }
}

impl<T> Arc<T> {
    pub fn new(t: T) -> Arc<T> {
        w(real::Arc::new(t))
    }
    pub fn pin(t: T) -> Pin<Arc<T>> {
        unsafe { Pin::new_unchecked(Arc::new(t)) }
    }
    pub fn new_cyclic<F: FnOnce(&Weak<T>) -> T>(f: F) -> Arc<T> {
        w(real::Arc::new_cyclic(|r| {
            let wk = ManuallyDrop::new(Weak(unsafe { ::std::ptr::read(r) }));
            f(&wk)
        }))
    }
    pub fn try_unwrap(this: Arc<T>) -> Result<T, Arc<T>> {
        rt::point(Kind::ArcOther, 0);
        real::Arc::try_unwrap(unw(this)).map_err(w)
    }
    pub fn into_inner(this: Arc<T>) -> Option<T> {
        rt::point(Kind::ArcOther, 0);
        real::Arc::into_inner(unw(this))
    }
    pub fn unwrap_or_clone(this: Arc<T>) -> T
    where
        T: Clone,
    {
        rt::point(Kind::ArcOther, 0);
        real::Arc::unwrap_or_clone(unw(this))
    }
}
impl<T: ?Sized> Arc<T> {
    pub fn as_ptr(this: &Arc<T>) -> *const T {
        real::Arc::as_ptr(&this.0)
    }
    pub fn into_raw(this: Arc<T>) -> *const T {
        real::Arc::into_raw(unw(this))
    }
    pub unsafe fn from_raw(p: *const T) -> Arc<T> {
        w(real::Arc::from_raw(p))
    }
    pub unsafe fn increment_strong_count(p: *const T) {
        rt::point(Kind::ArcClone, 0);
        real::Arc::increment_strong_count(p)
    }
    pub unsafe fn decrement_strong_count(p: *const T) {
        rt::point(Kind::ArcDrop, 0);
        real::Arc::decrement_strong_count(p)
    }
    pub fn downgrade(this: &Arc<T>) -> Weak<T> {
        rt::point(Kind::ArcOther, 0);
        Weak(real::Arc::downgrade(&this.0))
    }
    pub fn strong_count(this: &Arc<T>) -> usize {
        rt::point(Kind::ArcOther, 0);
        let n = real::Arc::strong_count(&this.0);
        rt::point(Kind::ArcOther, 0);
        n
    }
    pub fn weak_count(this: &Arc<T>) -> usize {
        rt::point(Kind::ArcOther, 0);
        let n = real::Arc::weak_count(&this.0);
        rt::point(Kind::ArcOther, 0);
        n
    }
    pub fn ptr_eq(a: &Arc<T>, b: &Arc<T>) -> bool {
        real::Arc::ptr_eq(&a.0, &b.0)
    }
    pub fn get_mut(this: &mut Arc<T>) -> Option<&mut T> {
        rt::point(Kind::ArcOther, 0);
        real::Arc::get_mut(&mut this.0)
    }
}
impl<T: Clone> Arc<T> {
    pub fn make_mut(this: &mut Arc<T>) -> &mut T {
        rt::point(Kind::ArcOther, 0);
        real::Arc::make_mut(&mut this.0)
    }
}
impl Arc<dyn ::std::any::Any + Send + Sync> {
    pub fn downcast<T: ::std::any::Any + Send + Sync>(self) -> Result<Arc<T>, Self> {
        unw(self).downcast::<T>().map(w).map_err(w)
    }
}
impl<T: ?Sized> Drop for Arc<T> {
    fn drop(&mut self) {
        rt::point(Kind::ArcDrop, 0);
    }
}
impl<T: ?Sized> Clone for Arc<T> {
    fn clone(&self) -> Self {
        rt::point(Kind::ArcClone, 0);
        w(real::Arc::clone(&self.0))
    }
}
impl<T: ?Sized> Deref for Arc<T> {
    type Target = T;
    #[inline]
    fn deref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> AsRef<T> for Arc<T> {
    fn as_ref(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Borrow<T> for Arc<T> {
    fn borrow(&self) -> &T {
        &self.0
    }
}
impl<T: ?Sized> Unpin for Arc<T> {}
impl<T: ?Sized + fmt::Debug> fmt::Debug for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized + fmt::Display> fmt::Display for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: ?Sized> fmt::Pointer for Arc<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&(&**self as *const T), f)
    }
}
impl<T: ?Sized + PartialEq> PartialEq for Arc<T> {
    fn eq(&self, o: &Self) -> bool {
        **self == **o
    }
}
impl<T: ?Sized + Eq> Eq for Arc<T> {}
impl<T: ?Sized + PartialOrd> PartialOrd for Arc<T> {
    fn partial_cmp(&self, o: &Self) -> Option<cmp::Ordering> {
        (**self).partial_cmp(&**o)
    }
}
impl<T: ?Sized + Ord> Ord for Arc<T> {
    fn cmp(&self, o: &Self) -> cmp::Ordering {
        (**self).cmp(&**o)
    }
}
impl<T: ?Sized + Hash> Hash for Arc<T> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        (**self).hash(h)
    }
}
impl<T: Default> Default for Arc<T> {
    fn default() -> Self {
        Arc::new(T::default())
    }
}
impl<T: ?Sized + Error> Error for Arc<T> {
    fn source(&self) -> Option<&(dyn Error + 'static)> {
        (**self).source()
    }
}
impl<T> From<T> for Arc<T> {
    fn from(t: T) -> Self {
        Arc::new(t)
    }
}
impl<T> From<Vec<T>> for Arc<[T]> {
    fn from(v: Vec<T>) -> Self {
        w(v.into())
    }
}
impl<T: Clone> From<&[T]> for Arc<[T]> {
    fn from(v: &[T]) -> Self {
        w(v.into())
    }
}
impl<T, const N: usize> From<[T; N]> for Arc<[T]> {
    fn from(v: [T; N]) -> Self {
        w(v.into())
    }
}
impl<T: ?Sized> From<Box<T>> for Arc<T> {
    fn from(v: Box<T>) -> Self {
        w(v.into())
    }
}
impl From<&str> for Arc<str> {
    fn from(v: &str) -> Self {
        w(v.into())
    }
}
impl From<String> for Arc<str> {
    fn from(v: String) -> Self {
        w(v.into())
    }
}
impl From<&CStr> for Arc<CStr> {
    fn from(v: &CStr) -> Self {
        w(v.into())
    }
}
impl From<&OsStr> for Arc<OsStr> {
    fn from(v: &OsStr) -> Self {
        w(v.into())
    }
}
impl<'a, B> From<Cow<'a, B>> for Arc<B>
where
    B: ?Sized + ToOwned,
    Arc<B>: From<&'a B> + From<B::Owned>,
{
    fn from(c: Cow<'a, B>) -> Self {
        match c {
            Cow::Borrowed(s) => Arc::from(s),
            Cow::Owned(s) => Arc::from(s),
        }
    }
}
impl<T> FromIterator<T> for Arc<[T]> {
    fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self {
        w(i.into_iter().collect())
    }
}

impl<T> Weak<T> {
    pub const fn new() -> Weak<T> {
        Weak(real::Weak::new())
    }
}
impl<T: ?Sized> Weak<T> {
    pub fn upgrade(&self) -> Option<Arc<T>> {
        rt::point(Kind::Upgrade, 0);
        let u = self.0.upgrade().map(w);
        rt::point(Kind::Upgrade, 1);
        u
    }
    pub fn strong_count(&self) -> usize {
        rt::point(Kind::ArcOther, 0);
        let n = self.0.strong_count();
        rt::point(Kind::ArcOther, 0);
        n
    }
    pub fn weak_count(&self) -> usize {
        rt::point(Kind::ArcOther, 0);
        self.0.weak_count()
    }
    pub fn ptr_eq(&self, o: &Weak<T>) -> bool {
        self.0.ptr_eq(&o.0)
    }
    pub fn as_ptr(&self) -> *const T {
        self.0.as_ptr()
    }
    pub fn into_raw(self) -> *const T {
        self.0.into_raw()
    }
    pub unsafe fn from_raw(p: *const T) -> Weak<T> {
        Weak(real::Weak::from_raw(p))
    }
}
impl<T: ?Sized> Clone for Weak<T> {
    fn clone(&self) -> Self {
        rt::point(Kind::ArcOther, 0);
        Weak(self.0.clone())
    }
}
impl<T> Default for Weak<T> {
    fn default() -> Self {
        Weak::new()
    }
}
impl<T: ?Sized> fmt::Debug for Weak<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("(Weak)")
    }
}
