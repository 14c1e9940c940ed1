//! Global allocator that counts, per thread, live bytes, peak live bytes and the
//! largest single request. A request that would take one thread's live heap over
//! `HARD_CAP` is refused (null), which aborts the process; the engine's SIGABRT
//! handler turns that into a violation naming the running case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

pub const HARD_CAP: i64 = 3 << 30;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
    static MAXREQ: Cell<i64> = const { Cell::new(0) };
    static TOTAL: Cell<i64> = const { Cell::new(0) };
}

fn add(n: i64) -> bool {
    let mut ok = true;
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        if n > 0 && v > HARD_CAP {
            ok = false;
            return;
        }
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
            let _ = MAXREQ.try_with(|p| {
                if n > p.get() {
                    p.set(n)
                }
            });
            let _ = TOTAL.try_with(|p| p.set(p.get() + n));
        }
    });
    ok
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if !add(new as i64 - l.size() as i64) {
            return std::ptr::null_mut();
        }
        System.realloc(p, l, new)
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Usage {
    /// peak live heap above the level at `start`
    pub peak: i64,
    /// largest single (re)allocation growth
    pub max_req: i64,
    /// total bytes requested
    pub total: i64,
}

/// Measure the heap use of `f` on this thread.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Usage) {
    let base = LIVE.with(|l| l.get());
    PEAK.with(|p| p.set(base));
    MAXREQ.with(|p| p.set(0));
    let t0 = TOTAL.with(|t| t.get());
    let r = f();
    let u = Usage {
        peak: PEAK.with(|p| p.get()) - base,
        max_req: MAXREQ.with(|p| p.get()),
        total: TOTAL.with(|t| t.get()) - t0,
    };
    (r, u)
}

/// Heap held by this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
