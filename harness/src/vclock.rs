//! A virtual clock: the C library's clock functions, replaced. A thread that set
//! a virtual time sees it from every clock read; other threads see the real one.

use std::cell::Cell;

thread_local! {
    /// seconds, nanoseconds
    static NOW: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
    static READS: Cell<u64> = const { Cell::new(0) };
    static PID: Cell<Option<i32>> = const { Cell::new(None) };
}

static FROZEN: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Stops the monotonic clocks of the whole process, too (child processes only).
pub fn freeze() {
    FROZEN.store(true, std::sync::atomic::Ordering::SeqCst);
}

/// Sets this thread's wall clock (None: the real one).
pub fn set(t: Option<(i64, i64)>) {
    NOW.set(t);
}
/// How often this thread read the wall clock.
pub fn reads() -> u64 {
    READS.get()
}
/// Fakes this thread's process id.
pub fn set_pid(p: Option<i32>) {
    PID.set(p);
}

thread_local! {
    /// the variables of the environment that this thread asked for, while watched
    static ASKED: std::cell::RefCell<Option<Vec<String>>> = const { std::cell::RefCell::new(None) };
}
/// Starts or ends the watch over this thread's reading of the environment.
pub fn watch_env(on: bool) -> Vec<String> {
    ASKED.with(|a| std::mem::replace(&mut *a.borrow_mut(), on.then(Vec::new))).unwrap_or_default()
}

#[cfg(not(any(miri, vp_noclock)))]
mod interpose {
    use super::*;
    fn real(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
        unsafe {
            let r = libc::syscall(libc::SYS_clock_gettime, id, tp);
            r as libc::c_int
        }
    }
    fn wall(id: libc::clockid_t) -> bool {
        id == libc::CLOCK_REALTIME || id == libc::CLOCK_REALTIME_COARSE || id == libc::CLOCK_TAI
    }
    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, tp: *mut libc::timespec) -> libc::c_int {
        if wall(id) {
            let v = NOW.try_with(|n| n.get()).ok().flatten();
            let _ = READS.try_with(|r| r.set(r.get() + 1));
            if let Some((s, n)) = v {
                (*tp).tv_sec = s;
                (*tp).tv_nsec = n;
                return 0;
            }
        }
        if FROZEN.load(std::sync::atomic::Ordering::Relaxed) {
            (*tp).tv_sec = 1000;
            (*tp).tv_nsec = 0;
            return 0;
        }
        real(id, tp)
    }
    #[no_mangle]
    pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut libc::c_void) -> libc::c_int {
        let mut ts: libc::timespec = std::mem::zeroed();
        let r = clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        if !tv.is_null() {
            (*tv).tv_sec = ts.tv_sec;
            (*tv).tv_usec = ts.tv_nsec / 1000;
        }
        r
    }
    #[no_mangle]
    pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
        let mut ts: libc::timespec = std::mem::zeroed();
        clock_gettime(libc::CLOCK_REALTIME, &mut ts);
        if !t.is_null() {
            *t = ts.tv_sec;
        }
        ts.tv_sec
    }
    extern "C" {
        static environ: *const *const libc::c_char;
    }
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
        let n = std::ffi::CStr::from_ptr(name).to_bytes();
        // (the standard library asks for its own settings)
        if !n.starts_with(b"RUST_") {
            let _ = ASKED.try_with(|a| {
                if let Ok(mut a) = a.try_borrow_mut() {
                    if let Some(a) = a.as_mut() {
                        if a.len() < 8 {
                            a.push(String::from_utf8_lossy(n).into_owned());
                        }
                    }
                }
            });
        }
        let mut p = environ;
        while !p.is_null() && !(*p).is_null() {
            let e = std::ffi::CStr::from_ptr(*p).to_bytes();
            if e.len() > n.len() && e.starts_with(n) && e[n.len()] == b'=' {
                return (*p).add(n.len() + 1) as *mut libc::c_char;
            }
            p = p.add(1);
        }
        std::ptr::null_mut()
    }
    #[no_mangle]
    pub unsafe extern "C" fn getpid() -> libc::pid_t {
        match PID.try_with(|p| p.get()).ok().flatten() {
            Some(p) => p,
            None => libc::syscall(libc::SYS_getpid) as libc::pid_t,
        }
    }
}
