//! Stands between the binding and the native library (linker option --wrap), watches every call and
//! forwards it. Watched: that buffers are as long as the library will use them, that products asked
//! for were delivered, that the protocol of one computation is kept, and that no two computations
//! and no two calls overlap. What it sees is kept per thread or in atomics; violations are text.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::os::raw::{c_char, c_int};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

// ---- sizes of live heap blocks of the watched thread ----

const SLOTS: usize = 512;
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static BLOCKS: RefCell<[(usize, usize); SLOTS]> = const { RefCell::new([(0, 0); SLOTS]) };
}

pub struct Tracking;
unsafe impl GlobalAlloc for Tracking {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        note(p as usize, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        note(p as usize, l.size());
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        forget(p as usize);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        forget(p as usize);
        let q = System.realloc(p, l, n);
        note(q as usize, n);
        q
    }
}
fn note(p: usize, n: usize) {
    if ARMED.try_with(|a| a.get()).unwrap_or(false) {
        let _ = BLOCKS.try_with(|b| {
            if let Ok(mut b) = b.try_borrow_mut() {
                if let Some(s) = b.iter_mut().find(|s| s.0 == 0) {
                    *s = (p, n)
                }
            }
        });
    }
}
fn forget(p: usize) {
    if ARMED.try_with(|a| a.get()).unwrap_or(false) {
        let _ = BLOCKS.try_with(|b| {
            if let Ok(mut b) = b.try_borrow_mut() {
                b.iter_mut().filter(|s| s.0 == p).for_each(|s| *s = (0, 0))
            }
        });
    }
}
/// The end of the live block that contains the address, when there is one.
fn end_of(p: usize) -> Option<usize> {
    BLOCKS.with(|b| b.borrow().iter().find(|s| s.0 != 0 && s.0 <= p && p < s.0 + s.1.max(1)).map(|s| s.0 + s.1))
}

// ---- what one thread observed during one call of the binding ----

/// What a violation is about.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Buffer,
    Protocol,
    Overlap,
}
use Kind::*;

#[derive(Default, Clone)]
pub struct Seen {
    pub steps: usize,
    pub finishes: usize,
    pub products: usize,
    pub extents: usize,
    pub bad: Vec<(Kind, String)>,
    began: bool,
    ended: bool,
    info: c_int,
    asked: Option<(usize, usize)>,
    x: Vec<f64>,
    bufs: [usize; 4],
}
type Product = Box<dyn Fn(&[f64]) -> Vec<f64>>;
thread_local! {
    static SEEN: RefCell<Seen> = RefCell::new(Seen::default());
    static PRODUCT: RefCell<Option<(Product, f64)>> = const { RefCell::new(None) };
    static ME: Cell<usize> = const { Cell::new(0) };
}

static NEXT: AtomicUsize = AtomicUsize::new(1000);
/// The thread whose computation is under way, and the one that is inside the library (0: none).
static COMPUTING: AtomicUsize = AtomicUsize::new(0);
static INSIDE: AtomicUsize = AtomicUsize::new(0);
static LAST: AtomicUsize = AtomicUsize::new(0);
/// Injected delays: how many in 64 steps, and for how long.
pub static DELAYS: AtomicUsize = AtomicUsize::new(0);
pub static HANDOVERS: AtomicUsize = AtomicUsize::new(0);
pub static ORDER: AtomicU64 = AtomicU64::new(0);
pub static WATCH: AtomicBool = AtomicBool::new(true);

fn me() -> usize {
    ME.with(|m| {
        if m.get() == 0 {
            m.set(NEXT.fetch_add(1, Relaxed))
        }
        m.get()
    })
}

/// Gives the thread a small number of its own.
pub fn set_me(k: usize) {
    ME.with(|m| m.set(k))
}

fn bad(k: Kind, s: String) {
    SEEN.with(|x| {
        let mut x = x.borrow_mut();
        if x.bad.len() < 5 {
            x.bad.push((k, s))
        }
    })
}

/// Makes one call of the binding under watch. `product` is what the matrix does to a vector, and
/// `tol` how far its result may be from what is delivered.
pub fn watched<R>(product: Option<Product>, tol: f64, f: impl FnOnce() -> R) -> (std::thread::Result<R>, Seen) {
    SEEN.with(|s| *s.borrow_mut() = Seen::default());
    PRODUCT.with(|p| *p.borrow_mut() = product.map(|x| (x, tol)));
    BLOCKS.with(|b| *b.borrow_mut() = [(0, 0); SLOTS]);
    me();
    ARMED.with(|a| a.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.with(|a| a.set(false));
    // An abandoned computation is over with its call.
    let _ = COMPUTING.compare_exchange(me() | mark(), 0, Relaxed, Relaxed);
    (r, SEEN.with(|s| s.take()))
}

/// A computation that may be abandoned by a panic: its lock is free before the watch learns of it.
const MAY_END: usize = 1 << 40;

thread_local! {
    static ABANDONS: Cell<bool> = const { Cell::new(false) };
}

fn mark() -> usize {
    if ABANDONS.with(|a| a.get()) {
        MAY_END
    } else {
        0
    }
}

/// As `watched`, for a matrix that may make the call panic.
pub fn may_panic<R>(f: impl FnOnce() -> R) -> (std::thread::Result<R>, Seen) {
    ABANDONS.with(|a| a.set(true));
    let r = watched(None, 0.0, f);
    ABANDONS.with(|a| a.set(false));
    r
}

fn delay() {
    let d = DELAYS.load(Relaxed);
    if d > 0 {
        // A cheap private sequence decides.
        let z = harness::rng::mix(ORDER.load(Relaxed) ^ (me() as u64) << 32 ^ SEEN.with(|s| s.borrow().steps as u64));
        if (z % 64) < d as u64 {
            match z >> 60 {
                0..=7 => std::thread::yield_now(),
                8..=13 => std::thread::sleep(std::time::Duration::from_micros(20)),
                _ => std::thread::sleep(std::time::Duration::from_micros(200)),
            }
        }
    }
}

fn enter(what: &str) {
    let t = me();
    let o = INSIDE.swap(t, Relaxed);
    if o != 0 && o != t {
        bad(Overlap, format!("{} was called while another thread was inside the native library", what));
    }
    if LAST.swap(t, Relaxed) != t {
        HANDOVERS.fetch_add(1, Relaxed);
    }
}
fn leave() {
    let _ = INSIDE.compare_exchange(me(), 0, Relaxed, Relaxed);
}

impl Seen {
    /// The violations of one kind.
    pub fn bad(&self, k: Kind) -> Option<String> {
        let v: Vec<String> = self.bad.iter().filter(|b| b.0 == k).map(|b| b.1.clone()).collect();
        if v.is_empty() {
            None
        } else {
            Some(v.join("; "))
        }
    }
}

fn extent<T>(what: &str, p: *const T, n: usize) {
    let (p, bytes) = (p as usize, n * std::mem::size_of::<T>());
    if p == 0 {
        return bad(Buffer, format!("{} is null", what));
    }
    if let Some(e) = end_of(p) {
        if p + bytes > e {
            bad(Buffer, format!("{} holds {} bytes where the native library uses {}", what, e - p, bytes));
        }
        SEEN.with(|s| s.borrow_mut().extents += 1);
    }
}

extern "C" {
    #[allow(clippy::too_many_arguments)]
    fn __real_dnaupd_c(ido: *mut c_int, bmat: *const c_char, n: c_int, which: *const c_char, nev: c_int, tol: f64, resid: *mut f64, ncv: c_int, v: *mut f64, ldv: c_int, iparam: *mut c_int, ipntr: *mut c_int, workd: *mut f64, workl: *mut f64, lworkl: c_int, info: *mut c_int);
    fn __real_dneupd_c(rvec: c_int, howmny: *const c_char, select: *const c_int, dr: *mut f64, di: *mut f64, z: *mut f64, ldz: c_int, sigmar: f64, sigmai: f64, workev: *mut f64, bmat: *const c_char, n: c_int, which: *const c_char, nev: c_int, tol: f64, resid: *mut f64, ncv: c_int, v: *mut f64, ldv: c_int, iparam: *mut c_int, ipntr: *mut c_int, workd: *mut f64, workl: *mut f64, lworkl: c_int, info: *mut c_int);
}

#[allow(clippy::too_many_arguments)]
fn common(what: &str, n: c_int, nev: c_int, ncv: c_int, resid: *mut f64, v: *mut f64, ldv: c_int, iparam: *mut c_int, ipntr: *mut c_int, workd: *mut f64, workl: *mut f64, lworkl: c_int) {
    if n <= 0 || nev <= 0 || nev >= n - 1 || ncv < nev + 2 || ncv > n || ldv < n {
        // The library refuses these before it touches anything.
        return;
    }
    let (n, ncv) = (n as usize, ncv as usize);
    if (lworkl as usize) < 3 * ncv * ncv + 6 * ncv {
        bad(Buffer, format!("{}: lworkl is {} and at least {} are required", what, lworkl, 3 * ncv * ncv + 6 * ncv));
    }
    extent("resid", resid, n);
    extent("v", v, (ldv as usize) * (ncv - 1) + n);
    extent("iparam", iparam, 11);
    extent("ipntr", ipntr, 14);
    extent("workd", workd, 3 * n);
    extent("workl", workl, lworkl.max(0) as usize);
}

#[no_mangle]
#[allow(clippy::too_many_arguments)]
pub unsafe extern "C" fn __wrap_dnaupd_c(ido: *mut c_int, bmat: *const c_char, n: c_int, which: *const c_char, nev: c_int, tol: f64, resid: *mut f64, ncv: c_int, v: *mut f64, ldv: c_int, iparam: *mut c_int, ipntr: *mut c_int, workd: *mut f64, workl: *mut f64, lworkl: c_int, info: *mut c_int) {
    if WATCH.load(Relaxed) {
        enter("dnaupd");
        let first = *ido == 0;
        if first {
            let before = COMPUTING.swap(me() | mark(), Relaxed);
            if before != 0 && before & MAY_END == 0 {
                bad(Overlap, "a computation began before another one ended".into());
            }
            ORDER.store(harness::rng::mix(ORDER.load(Relaxed) ^ me() as u64), Relaxed);
        } else if COMPUTING.load(Relaxed) & !MAY_END != me() {
            bad(Overlap, "a computation went on after another one had begun".into());
        }
        common("dnaupd", n, nev, ncv, resid, v, ldv, iparam, ipntr, workd, workl, lworkl);
        let bufs = [resid as usize, v as usize, workd as usize, workl as usize];
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            s.steps += 1;
            let mut say = vec![];
            if first {
                if s.began {
                    say.push("the computation was begun twice");
                }
                s.began = true;
                s.bufs = bufs;
            } else {
                if !s.began || s.ended {
                    say.push("a step outside a computation");
                }
                if s.bufs != bufs {
                    say.push("the buffers changed during the computation");
                }
            }
            for w in say {
                s.bad.push((Protocol, w.into()));
            }
            // Was the product that the last step asked for delivered?
            if let Some((_, y)) = s.asked.take() {
                let y = std::slice::from_raw_parts(workd.add(y), n as usize).to_vec();
                let x = std::mem::take(&mut s.x);
                drop(s);
                delivered(&x, &y);
            }
        });
        delay();
    }
    __real_dnaupd_c(ido, bmat, n, which, nev, tol, resid, ncv, v, ldv, iparam, ipntr, workd, workl, lworkl, info);
    if WATCH.load(Relaxed) {
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            match *ido {
                1 | -1 => {
                    let (x, y) = (*ipntr as usize - 1, *ipntr.add(1) as usize - 1);
                    s.asked = Some((x, y));
                    s.x = std::slice::from_raw_parts(workd.add(x), n as usize).to_vec();
                }
                99 => {
                    s.ended = true;
                    s.info = *info;
                }
                o => s.bad.push((Protocol, format!("dnaupd asked for {}", o))),
            }
        });
        let over = *ido == 99;
        leave();
        if over {
            let _ = COMPUTING.compare_exchange(me() | mark(), 0, Relaxed, Relaxed);
        }
        delay();
    }
}

fn delivered(x: &[f64], y: &[f64]) {
    let d = PRODUCT.with(|p| {
        p.borrow().as_ref().map(|(f, tol)| {
            let w = f(x);
            let norm = x.iter().map(|a| a * a).sum::<f64>().sqrt();
            let d = w.iter().zip(y).map(|(a, b)| (a - b).abs()).fold(0.0, |a: f64, b| if b.is_nan() { f64::INFINITY } else { a.max(b) });
            (d, tol * norm.max(1e-300))
        })
    });
    if let Some((d, limit)) = d {
        SEEN.with(|s| s.borrow_mut().products += 1);
        if !(d <= limit) {
            bad(Protocol, format!("the native library asked for a product and got one that is off by {:e}", d));
        }
    }
}

#[no_mangle]
#[allow(clippy::too_many_arguments)]
pub unsafe extern "C" fn __wrap_dneupd_c(rvec: c_int, howmny: *const c_char, select: *const c_int, dr: *mut f64, di: *mut f64, z: *mut f64, ldz: c_int, sigmar: f64, sigmai: f64, workev: *mut f64, bmat: *const c_char, n: c_int, which: *const c_char, nev: c_int, tol: f64, resid: *mut f64, ncv: c_int, v: *mut f64, ldv: c_int, iparam: *mut c_int, ipntr: *mut c_int, workd: *mut f64, workl: *mut f64, lworkl: c_int, info: *mut c_int) {
    if WATCH.load(Relaxed) {
        enter("dneupd");
        common("dneupd", n, nev, ncv, resid, v, ldv, iparam, ipntr, workd, workl, lworkl);
        let (nu, nevu, ncvu) = (n.max(1) as usize, nev.max(0) as usize, ncv.max(0) as usize);
        extent("select", select, ncvu);
        extent("dr", dr, nevu + 1);
        extent("di", di, nevu + 1);
        extent("workev", workev, 3 * ncvu);
        if rvec != 0 {
            if ldz < n {
                bad(Buffer, format!("ldz is {} and n is {}", ldz, n));
            }
            extent("z", z, ldz.max(0) as usize * nevu + nu);
        }
        let bufs = [resid as usize, v as usize, workd as usize, workl as usize];
        SEEN.with(|s| {
            let mut s = s.borrow_mut();
            s.finishes += 1;
            if !s.ended || s.finishes > 1 {
                s.bad.push((Protocol, "dneupd was called when no computation had just ended".into()));
            }
            if s.info < 0 {
                s.bad.push((Protocol, "dneupd was called after dnaupd had failed".into()));
            }
            if s.bufs != bufs {
                s.bad.push((Protocol, "the buffers changed before dneupd".into()));
            }
        });
        delay();
    }
    __real_dneupd_c(rvec, howmny, select, dr, di, z, ldz, sigmar, sigmai, workev, bmat, n, which, nev, tol, resid, ncv, v, ldv, iparam, ipntr, workd, workl, lworkl, info);
    if WATCH.load(Relaxed) {
        leave();
        delay();
    }
}
