//! A counting global allocator: what each thread allocated, and what is live.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static ON: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<u64> = const { Cell::new(0) };
    static LARGEST: Cell<u64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
}

thread_local! {
    /// xorshift state; 0 when no delays are injected in this thread
    static CHAOS: Cell<u64> = const { Cell::new(0) };
    static DELAYS: Cell<u64> = const { Cell::new(0) };
}
/// Injects scheduling delays at this thread's allocations and deallocations.
pub fn chaos(seed: u64) {
    CHAOS.set(seed);
}
/// Delays injected in this thread so far.
pub fn delays() -> u64 {
    DELAYS.get()
}
#[inline]
fn delay() {
    let _ = CHAOS.try_with(|c| {
        let mut x = c.get();
        if x == 0 {
            return;
        }
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        c.set(x);
        match x >> 59 {
            0..=7 => {
                DELAYS.set(DELAYS.get() + 1);
                std::thread::yield_now()
            }
            8 => {
                DELAYS.set(DELAYS.get() + 1);
                for _ in 0..(x >> 20 & 0x3ff) {
                    std::hint::spin_loop();
                }
            }
            _ => {}
        }
    });
}

thread_local! {
    static SHARED: Cell<bool> = const { Cell::new(false) };
}
static ALL_LIVE: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(0);
/// From now on this thread's allocations count in the common balance of all such threads,
/// also while it ends.
pub fn share(on: bool) {
    SHARED.set(on);
}
pub fn shared() -> i64 {
    ALL_LIVE.load(std::sync::atomic::Ordering::SeqCst)
}
#[inline]
fn share_add(n: i64) {
    if SHARED.try_with(|s| s.get()).unwrap_or(false) {
        ALL_LIVE.fetch_add(n, std::sync::atomic::Ordering::SeqCst);
    }
}

fn add(n: usize) {
    delay();
    share_add(n as i64);
    let _ = ON.try_with(|o| {
        if o.get() {
            let l = LIVE.get() + n as i64;
            LIVE.set(l);
            if l > PEAK.get() {
                PEAK.set(l);
            }
            TOTAL.set(TOTAL.get() + n as u64);
            if n as u64 > LARGEST.get() {
                LARGEST.set(n as u64);
            }
            CALLS.set(CALLS.get() + 1);
        }
    });
}
fn sub(n: usize) {
    delay();
    share_add(-(n as i64));
    let _ = ON.try_with(|o| {
        if o.get() {
            LIVE.set(LIVE.get() - n as i64);
        }
    });
}

const TRACKED: usize = 256;
thread_local! {
    static TRACK: Cell<bool> = const { Cell::new(false) };
    static NBLOCKS: Cell<usize> = const { Cell::new(0) };
    static BLOCKS: Cell<[(usize, usize); TRACKED]> = const { Cell::new([(0, 0); TRACKED]) };
}
fn born(p: *mut u8, n: usize) {
    let _ = TRACK.try_with(|t| {
        if t.get() && !p.is_null() {
            let i = NBLOCKS.get();
            if i < TRACKED {
                let mut b = BLOCKS.get();
                b[i] = (p as usize, n);
                BLOCKS.set(b);
                NBLOCKS.set(i + 1);
            }
        }
    });
}
fn died(p: *mut u8) {
    let _ = NBLOCKS.try_with(|k| {
        let n = k.get();
        if n == 0 {
            return;
        }
        let mut b = BLOCKS.get();
        if let Some(i) = b[..n].iter().position(|x| x.0 == p as usize) {
            b[i] = b[n - 1];
            BLOCKS.set(b);
            k.set(n - 1);
        }
    });
}
/// Runs `f`, remembering the blocks that this thread allocates meanwhile until they are freed.
pub fn track<T>(f: impl FnOnce() -> T) -> T {
    TRACK.set(true);
    let r = f();
    TRACK.set(false);
    r
}
/// The remembered blocks that are still allocated: address and size.
pub fn tracked() -> Vec<(usize, usize)> {
    BLOCKS.get()[..NBLOCKS.get()].to_vec()
}
pub fn untrack() {
    TRACK.set(false);
    NBLOCKS.set(0);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc(l);
        born(p, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size());
        let p = System.alloc_zeroed(l);
        born(p, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        died(p);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        // the old and the new block may exist at once
        add(n);
        sub(l.size());
        died(p);
        let q = System.realloc(p, l, n);
        born(q, n);
        q
    }
}

#[global_allocator]
static A: Counting = Counting;

#[derive(Debug, Clone, Copy)]
pub struct Usage {
    pub peak: i64,
    pub total: u64,
    pub largest: u64,
    pub calls: u64,
    /// live bytes at the end minus live bytes at the start
    pub left: i64,
}

/// Runs `f` and reports what this thread allocated meanwhile.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    LIVE.set(0);
    PEAK.set(0);
    TOTAL.set(0);
    LARGEST.set(0);
    CALLS.set(0);
    ON.set(true);
    let r = f();
    ON.set(false);
    (
        r,
        Usage {
            peak: PEAK.get(),
            total: TOTAL.get(),
            largest: LARGEST.get(),
            calls: CALLS.get(),
            left: LIVE.get(),
        },
    )
}
