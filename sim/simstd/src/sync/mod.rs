//! `std::sync` on the simulated scheduler.
pub use ::std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

pub mod atomic;
pub mod mpsc;

mod arc;
mod lock;
mod once;

pub use arc::{Arc, Weak};
pub use lock::{Barrier, BarrierWaitResult, Condvar, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard, WaitTimeoutResult};
pub use once::{LazyLock, Once, OnceLock, OnceState, ONCE_INIT};
