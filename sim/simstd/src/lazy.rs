use crate::sync::OnceLock;

pub struct Lazy<T: Sync>(OnceLock<T>);

impl<T: Sync> Lazy<T> {
    #[allow(clippy::declare_interior_mutable_const)]
    pub const INIT: Self = Lazy(OnceLock::new());

    #[inline(always)]
    pub fn get<F>(&'static self, f: F) -> &'static T
    where
        F: FnOnce() -> T,
    {
        self.0.get_or_init(f)
    }
}

unsafe impl<T: Sync> Sync for Lazy<T> {}
