//! Counting allocator: the peak of live bytes since `reset`, over the whole process, and per thread.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static TLIVE: Cell<isize> = const { Cell::new(0) };
    static TPEAK: Cell<isize> = const { Cell::new(0) };
}

fn add(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    let _ = TLIVE.try_with(|t| {
        let v = t.get() + n as isize;
        t.set(v);
        let _ = TPEAK.try_with(|p| p.set(p.get().max(v)));
    });
}
fn sub(n: usize) {
    LIVE.fetch_sub(n, Relaxed);
    let _ = TLIVE.try_with(|t| t.set(t.get() - n as isize));
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n);
            sub(l.size());
        }
        q
    }
}

/// Peak of bytes that this thread had live during `f`, above what it had live before.
pub fn thread_peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = TLIVE.with(|t| t.get());
    TPEAK.with(|p| p.set(base));
    let r = f();
    (r, (TPEAK.with(|p| p.get()) - base).max(0) as usize)
}

/// Peak over the whole process (only meaningful while one case runs at a time).
pub fn process_peak<R>(f: impl FnOnce() -> R) -> (R, usize) {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    let r = f();
    (r, PEAK.load(Relaxed).saturating_sub(base))
}
