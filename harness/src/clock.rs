//! Instrumentation runtime: the edge callbacks that rustc's sancov pass puts
//! into the crate under test (see tools/rustc-wrap.sh) drive a step clock and a
//! coverage map, and a counting global allocator meters its memory use.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

pub const MAP: usize = 1 << 14;
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static BUDGET: AtomicU64 = AtomicU64::new(u64::MAX);
pub static EDGES: AtomicU64 = AtomicU64::new(0);
#[allow(clippy::declare_interior_mutable_const)]
static HITS: [AtomicU64; MAP] = [const { AtomicU64::new(0) }; MAP];
pub static METER: AtomicBool = AtomicBool::new(false);
/// Several threads at once: no counting, which would slow them to a crawl and
/// order their steps.
pub static MANY: AtomicBool = AtomicBool::new(false);
pub static ALLOC_BYTES: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_COUNT: AtomicU64 = AtomicU64::new(0);
pub static ALLOC_LIMIT: AtomicU64 = AtomicU64::new(u64::MAX);

unsafe extern "C" {
    fn _exit(code: i32) -> !;
}

pub const EXIT_STEPS: i32 = 77;
pub const EXIT_ALLOC: i32 = 78;

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    unsafe {
        let mut p = start;
        if start == stop || *start != 0 {
            return;
        }
        while p < stop {
            let n = EDGES.load(Relaxed) + 1;
            EDGES.store(n, Relaxed);
            *p = n as u32;
            p = p.add(1);
        }
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if MANY.load(Relaxed) {
        return;
    }
    let id = unsafe { *guard } as usize & (MAP - 1);
    let h = &HITS[id];
    h.store(h.load(Relaxed) + 1, Relaxed);
    let s = STEPS.load(Relaxed) + 1;
    STEPS.store(s, Relaxed);
    if s > BUDGET.load(Relaxed) {
        unsafe { _exit(EXIT_STEPS) }
    }
}

/// Clear the per-run counters.
pub fn reset_hits() {
    for h in HITS.iter() {
        h.store(0, Relaxed);
    }
}

/// The (edge, log2-bucketed hit count) pairs of the runs since reset_hits().
pub fn features(out: &mut Vec<u32>) {
    out.clear();
    let n = (EDGES.load(Relaxed) as usize + 1).min(MAP);
    for (i, h) in HITS[..n].iter().enumerate() {
        let v = h.load(Relaxed);
        if v != 0 {
            let b = (64 - v.leading_zeros()).min(12);
            out.push((i as u32) << 4 | b);
        }
    }
}

/// Edges hit since the last reset.
pub fn edges_hit() -> Vec<u32> {
    let n = (EDGES.load(Relaxed) as usize + 1).min(MAP);
    (0..n as u32).filter(|i| HITS[*i as usize].load(Relaxed) != 0).collect()
}

thread_local! {
    /// Bytes this thread took and has not given back.
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}

fn keep(n: i64) {
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}

pub struct Meter;

unsafe impl GlobalAlloc for Meter {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        keep(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        keep(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        keep(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

fn note(n: usize) {
    if METER.load(Relaxed) {
        let b = ALLOC_BYTES.load(Relaxed) + n as u64;
        ALLOC_BYTES.store(b, Relaxed);
        ALLOC_COUNT.store(ALLOC_COUNT.load(Relaxed) + 1, Relaxed);
        if b > ALLOC_LIMIT.load(Relaxed) {
            unsafe { _exit(EXIT_ALLOC) }
        }
    }
}

#[global_allocator]
static GLOBAL: Meter = Meter;
