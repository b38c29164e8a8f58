//! Counting, poisoning, quarantining global allocator.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub struct Alloc;

const LIVE: u64 = 0x5afe_b10c_a110_c8ed;
const FREED: u64 = 0xdead_b10c_dead_f8ee;

#[repr(C)]
struct Header {
    magic: u64,
    size: usize,
    counted: u32,
    base_off: u32,
    serial: u64,
}
const HDR: usize = 32;

thread_local! {
    static QUIET: Cell<u32> = const { Cell::new(0) };
}

pub static ON: AtomicBool = AtomicBool::new(false);
pub static LIVE_BLOCKS: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL: AtomicU64 = AtomicU64::new(0);
static SERIAL: AtomicU64 = AtomicU64::new(0);
static BYTES_ALL: AtomicI64 = AtomicI64::new(0);
const LIMIT: i64 = 3 << 30;

/// freed blocks are used again at once instead of being kept aside
pub static REUSE: AtomicBool = AtomicBool::new(false);
const QN: usize = 512;
static QLOCK: AtomicBool = AtomicBool::new(false);
static mut QUEUE: [(*mut u8, usize, usize); QN] = [(std::ptr::null_mut(), 0, 0); QN];
static QPOS: AtomicUsize = AtomicUsize::new(0);

pub fn quiet_hook(enter: bool) {
    let _ = QUIET.try_with(|q| q.set(if enter { q.get() + 1 } else { q.get() - 1 }));
}
fn counted() -> bool {
    ON.load(Relaxed) && lazy_static::rt::in_sim() && QUIET.try_with(|q| q.get() == 0).unwrap_or(false)
}
pub fn live() -> (i64, i64) {
    (LIVE_BLOCKS.load(Relaxed), LIVE_BYTES.load(Relaxed))
}

fn die(class: &str, msg: &str) -> ! {
    lazy_static::rt::fail(class, msg)
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let align = l.align().max(16);
        let off = HDR.max(align);
        let Ok(full) = Layout::from_size_align(l.size() + off, align) else { return std::ptr::null_mut() };
        if ON.load(Relaxed) && BYTES_ALL.fetch_add(l.size() as i64, Relaxed) + l.size() as i64 > LIMIT {
            BYTES_ALL.fetch_sub(l.size() as i64, Relaxed);
            die("memory", "more than 3 GiB allocated");
        }
        let p = System.alloc(full);
        if p.is_null() {
            return p;
        }
        let u = p.add(off);
        let h = u.sub(HDR) as *mut Header;
        let c = counted();
        (*h) = Header { magic: LIVE, size: l.size(), counted: c as u32, base_off: off as u32, serial: SERIAL.fetch_add(1, Relaxed) };
        if c {
            LIVE_BLOCKS.fetch_add(1, Relaxed);
            LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
            TOTAL.fetch_add(1, Relaxed);
        }
        if ON.load(Relaxed) {
            std::ptr::write_bytes(u, 0xA5, l.size());
        }
        u
    }
    unsafe fn dealloc(&self, u: *mut u8, l: Layout) {
        let h = u.sub(HDR) as *mut Header;
        if (*h).magic != LIVE {
            if (*h).magic == FREED {
                die("double-free", "a heap block is freed twice");
            }
            die("bad-free", "a pointer that is no live heap block is freed, or the heap is corrupted");
        }
        if (*h).size != l.size() {
            die("bad-free", "a heap block is freed with another size than it was allocated with");
        }
        if (*h).counted != 0 {
            LIVE_BLOCKS.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        }
        (*h).magic = FREED;
        let off = (*h).base_off as usize;
        let p = u.sub(off);
        let full = Layout::from_size_align_unchecked(l.size() + off, l.align().max(16));
        if !ON.load(Relaxed) {
            System.dealloc(p, full);
            return;
        }
        BYTES_ALL.fetch_sub(l.size() as i64, Relaxed);
        std::ptr::write_bytes(u, 0xDE, l.size());
        if REUSE.load(Relaxed) {
            System.dealloc(p, full);
            return;
        }
        while QLOCK.swap(true, Acquire) {
            std::hint::spin_loop();
        }
        let i = QPOS.load(Relaxed);
        QPOS.store((i + 1) % QN, Relaxed);
        let old = QUEUE[i];
        QUEUE[i] = (p, full.size(), full.align());
        QLOCK.store(false, Release);
        if !old.0.is_null() {
            // a write to freed memory shows up as a damaged pattern
            let lo = Layout::from_size_align_unchecked(old.1, old.2);
            let off = HDR.max(old.2);
            let body = std::slice::from_raw_parts(old.0.add(off), old.1 - off);
            if body.iter().any(|b| *b != 0xDE) {
                die("use-after-free", "a freed heap block was written to");
            }
            System.dealloc(old.0, lo);
        }
    }
}

/// Failing/counting `operator new` for the C++ side.
pub static CXX_LIVE: AtomicI64 = AtomicI64::new(0);
pub static CXX_TOTAL: AtomicU64 = AtomicU64::new(0);
pub static CXX_FAILED: AtomicU64 = AtomicU64::new(0);
thread_local! {
    /// 0: never; k: this thread's k-th allocation from now fails
    pub static CXX_FAIL_AT: Cell<i64> = const { Cell::new(0) };
}

#[no_mangle]
pub extern "C" fn advsim_cxx_alloc(size: usize) -> *mut u8 {
    point();
    let k = CXX_FAIL_AT.with(|c| c.get());
    if k > 0 {
        CXX_FAIL_AT.with(|c| c.set(k - 1));
        if k == 1 {
            CXX_FAILED.fetch_add(1, Relaxed);
            return std::ptr::null_mut();
        }
    }
    CXX_LIVE.fetch_add(1, Relaxed);
    CXX_TOTAL.fetch_add(1, Relaxed);
    unsafe {
        let p = std::alloc::alloc(Layout::from_size_align_unchecked(size + 16, 16));
        *(p as *mut usize) = size;
        *(p as *mut u64).add(1) = 0xC0FF_EE00_C0FF_EE00;
        p.add(16)
    }
}
#[no_mangle]
pub extern "C" fn advsim_cxx_free(p: *mut u8) {
    if p.is_null() {
        return;
    }
    point();
    unsafe {
        let b = p.sub(16);
        if *(b as *mut u64).add(1) != 0xC0FF_EE00_C0FF_EE00 {
            let h = b.sub(HDR) as *mut Header;
            if (*h).magic == FREED {
                die("double-free", "a C++ object is deleted twice");
            }
            die("bad-free", "operator delete on something operator new did not return");
        }
        CXX_LIVE.fetch_sub(1, Relaxed);
        let size = *(b as *mut usize);
        std::alloc::dealloc(b, Layout::from_size_align_unchecked(size + 16, 16));
    }
}
/// The scheduler gets a say.
pub fn point() {
    if lazy_static::rt::in_sim() {
        lazy_static::thread::yield_now();
    }
}

// What C++ code blocks on: the scheduler must know that the thread waits.
#[no_mangle]
pub unsafe extern "C" fn advsim_cxa_guard_acquire(g: *mut u8) -> i32 {
    loop {
        point();
        if *g != 0 {
            return 0;
        }
        if *g.add(1) == 0 {
            *g.add(1) = 1;
            return 1;
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn advsim_cxa_guard_release(g: *mut u8) {
    *g = 1;
    *g.add(1) = 0;
    point();
}
#[no_mangle]
pub unsafe extern "C" fn advsim_cxa_guard_abort(g: *mut u8) {
    *g.add(1) = 0;
    point();
}
macro_rules! spin_lock {
    ($name:ident, $t:ty, $try:ident) => {
        #[no_mangle]
        pub unsafe extern "C" fn $name(m: *mut $t) -> i32 {
            loop {
                point();
                match libc::$try(m) {
                    libc::EBUSY => {}
                    r => return r,
                }
                if !lazy_static::rt::in_sim() {
                    std::thread::yield_now();
                }
            }
        }
    };
}
spin_lock!(advsim_pthread_mutex_lock, libc::pthread_mutex_t, pthread_mutex_trylock);
spin_lock!(advsim_pthread_rwlock_rdlock, libc::pthread_rwlock_t, pthread_rwlock_tryrdlock);
spin_lock!(advsim_pthread_rwlock_wrlock, libc::pthread_rwlock_t, pthread_rwlock_trywrlock);

/// Identifies the live heap block at p, None if there is none.
pub fn block_id(p: *const u8) -> Option<u64> {
    unsafe {
        let h = p.sub(HDR) as *const Header;
        if (*h).magic == LIVE {
            Some((*h).serial)
        } else {
            None
        }
    }
}

/// Are accesses of the C++ front end to memory scheduling points?
pub static MEM: AtomicBool = AtomicBool::new(false);
#[no_mangle]
pub extern "C" fn advsim_mem_point(p: *const u8) {
    if !MEM.load(Relaxed) {
        return;
    }
    let here = 0u8;
    if (p as usize).abs_diff(&here as *const u8 as usize) < 256 << 10 {
        return; // the thread's own stack
    }
    lazy_static::rt::point(lazy_static::rt::Kind::Memory, 0);
}
