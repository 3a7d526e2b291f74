//! Counting allocator: the live and peak amount of heap memory of this process.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

pub struct Counting;
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);

// Diagnosis of a peak: where large blocks are asked for.
const LARGE: usize = 1 << 20;
static TRACE: AtomicBool = AtomicBool::new(false);
static BLOCKS: Mutex<Vec<(usize, usize, bool)>> = Mutex::new(vec![]);
static SKIP_SPLINES: AtomicBool = AtomicBool::new(false);
static SPLINE_LIVE: AtomicUsize = AtomicUsize::new(0);
static OTHER_LIVE: AtomicUsize = AtomicUsize::new(0);
static OTHER_PEAK: AtomicUsize = AtomicUsize::new(0);
thread_local!(static BUSY: Cell<bool> = const { Cell::new(false) });

fn large(p: usize, n: usize) {
    if !TRACE.load(Relaxed) || BUSY.replace(true) {
        return;
    }
    let t = std::backtrace::Backtrace::force_capture().to_string();
    let spline = t.contains("features::spline") || t.contains("features/spline");
    let spline = spline && SKIP_SPLINES.load(Relaxed) || t.contains("jxl::icc::") || t.contains("jxl/src/icc/");
    if std::env::var("VERIF_ALLOC").is_ok() {
        let at: Vec<&str> = t.lines().filter(|l| l.contains("repo/jxl")).take(4).map(|l| l.rsplit("repo/").next().unwrap()).collect();
        eprintln!("ALLOC {n} {at:?}");
    }
    BLOCKS.lock().unwrap().push((p, n, spline));
    if spline {
        SPLINE_LIVE.fetch_add(n, Relaxed);
    } else {
        let l = OTHER_LIVE.fetch_add(n, Relaxed) + n;
        OTHER_PEAK.fetch_max(l, Relaxed);
    }
    BUSY.set(false);
}

fn large_end(p: usize) {
    if !TRACE.load(Relaxed) || BUSY.replace(true) {
        return;
    }
    let mut b = BLOCKS.lock().unwrap();
    if let Some(i) = b.iter().position(|x| x.0 == p) {
        let (_, n, spline) = b.swap_remove(i);
        if spline { &SPLINE_LIVE } else { &OTHER_LIVE }.fetch_sub(n, Relaxed);
    }
    drop(b);
    BUSY.set(false);
}

fn add(p: *mut u8, n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    if l > PEAK.load(Relaxed) {
        PEAK.fetch_max(l, Relaxed);
    }
    if n >= LARGE {
        large(p as usize, n);
    }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc(l) };
        if !p.is_null() {
            add(p, l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = unsafe { System.alloc_zeroed(l) };
        if !p.is_null() {
            add(p, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.size() >= LARGE {
            large_end(p as usize);
        }
        unsafe { System.dealloc(p, l) };
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() >= LARGE {
            large_end(p as usize);
        }
        let q = unsafe { System.realloc(p, l, n) };
        if !q.is_null() {
            LIVE.fetch_sub(l.size(), Relaxed);
            add(q, n);
        }
        q
    }
}

/// Starts a measurement; returns the live amount.
pub fn reset() -> usize {
    let l = LIVE.load(Relaxed);
    PEAK.store(l, Relaxed);
    l
}

pub fn peak_since(base: usize) -> usize {
    PEAK.load(Relaxed).saturating_sub(base)
}

/// Runs `f` and returns the peak of large blocks that were not asked for by the code of ICC
/// profiles nor, on demand, of splines.
pub fn peak_without(splines: bool, f: impl FnOnce()) -> usize {
    SKIP_SPLINES.store(splines, Relaxed);
    BLOCKS.lock().unwrap().clear();
    SPLINE_LIVE.store(0, Relaxed);
    OTHER_LIVE.store(0, Relaxed);
    OTHER_PEAK.store(0, Relaxed);
    TRACE.store(true, Relaxed);
    f();
    TRACE.store(false, Relaxed);
    OTHER_PEAK.load(Relaxed)
}
