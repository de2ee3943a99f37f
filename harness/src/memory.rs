//! A counting allocator and bounds on what a call takes and leaves behind.
use crate::{ck, Cx};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static REQUESTS: AtomicUsize = AtomicUsize::new(0);

/// For `#[global_allocator]`.
pub struct Counting;
/// Bytes held at present.
pub fn live() -> usize {
    LIVE.load(Relaxed)
}
/// The most that was held at any time during a call.
pub fn most<R>(f: impl FnOnce() -> R) -> (usize, R) {
    let before = live();
    PEAK.store(before, Relaxed);
    let x = f();
    (PEAK.load(Relaxed).saturating_sub(before), x)
}
fn more(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    REQUESTS.fetch_add(1, Relaxed);
}
// SAFETY: every request is passed to the system allocator unchanged.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            more(l.size());
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            more(l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        LIVE.fetch_sub(l.size(), Relaxed);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // Both may exist for a moment.
            more(n);
            LIVE.fetch_sub(l.size(), Relaxed);
        }
        q
    }
}
/// Bytes allowed for each unit of work, and a fixed allowance.
pub const PER: usize = 240;
pub const FREE: usize = 8192;

pub struct Meter<'a> {
    pub cx: &'a mut Cx,
    /// Whether to repeat every call to see what stays behind.
    pub repeat: bool,
}

impl Meter<'_> {
    /// One call, which may need memory for this much work, and more for what it was asked for.
    pub fn call<R>(&mut self, what: &str, work: usize, f: impl Fn() -> R) {
        let limit = PER * work + FREE;
        let asked = REQUESTS.load(Relaxed);
        let before = LIVE.load(Relaxed);
        PEAK.store(before, Relaxed);
        let res = f();
        let peak = PEAK.load(Relaxed).saturating_sub(before);
        let held = LIVE.load(Relaxed).saturating_sub(before);
        drop(res);
        let asked = REQUESTS.load(Relaxed) - asked;
        if std::env::var("C29_RATIOS").is_ok() {
            println!("{:.2} {:.2} {} {}", peak as f64 / (work as f64 + 20.0), held as f64 / (work as f64 + 20.0), what, work);
        }
        ck!(self.cx, peak <= limit, "{}: took {} bytes for {} dimensions, entries and asked cells", what, peak, work);
        if self.repeat {
            // Something may be kept for later calls, but not more with each call.
            let mut grown = 0;
            for _ in 0..6 {
                let before = LIVE.load(Relaxed);
                drop(f());
                let left = LIVE.load(Relaxed) as isize - before as isize;
                if left <= 0 {
                    break;
                }
                grown += 1;
            }
            ck!(self.cx, grown < 6, "{}: every call leaves memory behind after its result is gone", what);
            self.cx.count("calls_repeated", 1);
        }
        self.cx.count("calls", 1);
        self.cx.count("requests_for_memory", asked);
        self.cx.count("bytes_watched", peak);
    }
}
