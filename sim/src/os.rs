//! Processes, pipes, limits, and the interposed sources of operating-system randomness and time.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};

pub static DET: AtomicBool = AtomicBool::new(false);
static RAND: AtomicU64 = AtomicU64::new(0);

pub fn seed_os(seed: u64) {
    RAND.store(seed, Relaxed);
    DET.store(true, Relaxed);
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if DET.load(Relaxed) {
        let mut s = crate::rng::Rng::new(RAND.fetch_add(1, Relaxed));
        for i in 0..len {
            *buf.add(i) = s.next() as u8;
        }
        return len as isize;
    }
    libc::syscall(libc::SYS_getrandom, buf, len, flags) as isize
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> i32 {
    if DET.load(Relaxed) && lazy_static::rt::in_sim() {
        let ns = lazy_static::rt::clock_ns();
        (*ts).tv_sec = 1_700_000_000 + (ns / 1_000_000_000) as i64;
        (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        return 0;
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as i32
}

pub fn now() -> f64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe {
        libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts);
    }
    ts.tv_sec as f64 + ts.tv_nsec as f64 * 1e-9
}

pub fn pin(cpu: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set);
        let avail: Vec<usize> = (0..1024).filter(|c| libc::CPU_ISSET(*c, &set)).collect();
        if avail.is_empty() {
            return;
        }
        let c = avail[cpu % avail.len()];
        let mut one: libc::cpu_set_t = std::mem::zeroed();
        libc::CPU_SET(c, &mut one);
        libc::sched_setaffinity(0, std::mem::size_of_val(&one), &one);
    }
}
pub fn ncpu() -> usize {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        if libc::sched_getaffinity(0, std::mem::size_of_val(&set), &mut set) == 0 {
            return (libc::CPU_COUNT(&set) as usize).max(1);
        }
    }
    1
}

pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let n = unsafe { libc::write(fd, b.as_ptr() as *const _, b.len()) };
        if n <= 0 {
            if n < 0 && std::io::Error::last_os_error().raw_os_error() == Some(libc::EINTR) {
                continue;
            }
            return;
        }
        b = &b[n as usize..];
    }
}

pub enum Exit {
    Code(i32),
    Signal(i32),
    WallTimeout,
}

/// Fork; the child runs `f(fd)` and must not return to the caller's stack. Returns what was written to `fd`.
pub fn forked(wall_s: f64, cpu_s: u64, f: impl FnOnce(i32)) -> (Vec<u8>, Exit) {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        if pid < 0 {
            eprintln!("fork failed");
            libc::_exit(70);
        }
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let lim = libc::rlimit { rlim_cur: cpu_s, rlim_max: cpu_s + 1 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            let nocore = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &nocore);
            f(fds[1]);
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut out = vec![];
        let mut buf = [0u8; 65536];
        let deadline = now() + wall_s;
        let mut timeout = false;
        loop {
            let left = deadline - now();
            if left <= 0.0 {
                timeout = true;
                libc::kill(pid, libc::SIGKILL);
                break;
            }
            let mut pfd = libc::pollfd { fd: fds[0], events: libc::POLLIN, revents: 0 };
            let r = libc::poll(&mut pfd, 1, (left * 1000.0).min(1000.0) as i32 + 1);
            if r <= 0 {
                continue;
            }
            let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len());
            if n > 0 {
                out.extend_from_slice(&buf[..n as usize]);
            } else if n == 0 {
                break;
            }
        }
        libc::close(fds[0]);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {
            if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                break;
            }
        }
        let e = if timeout {
            Exit::WallTimeout
        } else if libc::WIFSIGNALED(st) {
            Exit::Signal(libc::WTERMSIG(st))
        } else {
            Exit::Code(libc::WEXITSTATUS(st))
        };
        (out, e)
    }
}
