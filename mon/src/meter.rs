//! Counts what a thread allocates, and its CPU time.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}

fn up(n: usize) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n as i64;
        l.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
    let _ = CALLS.try_with(|c| c.set(c.get() + 1));
    let _ = BYTES.try_with(|c| c.set(c.get() + n as u64));
}
fn down(n: usize) {
    let _ = LIVE.try_with(|l| l.set(l.get() - n as i64));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        up(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        down(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        down(l.size());
        up(n);
        System.realloc(p, l, n)
    }
}

#[repr(C)]
struct Ts {
    s: i64,
    n: i64,
}
extern "C" {
    fn clock_gettime(c: i32, t: *mut Ts) -> i32;
}
/// CPU seconds of this thread.
pub fn cpu() -> f64 {
    let mut t = Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.n as f64 * 1e-9
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub cpu: f64,
    pub calls: u64,
    pub bytes: u64,
    /// how far above the level at the start
    pub peak: i64,
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let l0 = live();
    PEAK.with(|p| p.set(l0));
    let (c0, b0) = (CALLS.with(|c| c.get()), BYTES.with(|c| c.get()));
    let t0 = cpu();
    let v = f();
    let cost = Cost { cpu: cpu() - t0, calls: CALLS.with(|c| c.get()) - c0, bytes: BYTES.with(|c| c.get()) - b0, peak: PEAK.with(|p| p.get()) - l0 };
    (v, cost)
}
