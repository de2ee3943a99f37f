//! C28, the part that needs no other monitor: threads work on the same matrices, under ThreadSanitizer too.
#![allow(dead_code)]
use harness::val::{jitter_seed, JITTER};
use harness::*;
use sparsetools::graph::{connected_components, depth_first_order, Connection};
use std::marker::PhantomData;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Barrier;

/// Lets matrices cross threads whatever the compiler says; that they may is checked separately.
struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
unsafe impl<T> Sync for Cross<T> {}

struct Of<T>(PhantomData<T>);
trait Not {
    fn crosses(&self) -> bool {
        false
    }
}
impl<T> Not for &Of<T> {}
trait May {
    fn crosses(&self) -> bool {
        true
    }
}
impl<T: Send + Sync> May for Of<T> {}

macro_rules! crosses {
    ($cx:expr, $($t:ty),*) => { $( ck!($cx, (&Of::<$t>(PhantomData)).crosses(), "{} cannot be sent to and shared between threads", stringify!($t)); )* };
}

/// Runs the jobs at once, one thread each; the first failure is passed on.
pub fn at_once(cx: &mut Cx, seeds: &mut Rng, jobs: Vec<Box<dyn FnOnce(&mut Cx, &mut Rng) + '_>>) {
    let n = jobs.len();
    let gate = Barrier::new(n);
    let inside = AtomicUsize::new(0);
    let most = AtomicUsize::new(0);
    JITTER.store(true, Ordering::Relaxed);
    let kids: Vec<(Cx, Result<(), String>)> = std::thread::scope(|s| {
        let hs: Vec<_> = jobs
            .into_iter()
            .map(|j| {
                let mut c = cx.child();
                let mut r = seeds.clone();
                seeds.next();
                let (j, gate, inside, most) = (Cross(j), &gate, &inside, &most);
                s.spawn(move || {
                    let j = j;
                    jitter_seed(r.next() as u32);
                    gate.wait();
                    let k = inside.fetch_add(1, Ordering::SeqCst) + 1;
                    most.fetch_max(k, Ordering::SeqCst);
                    let e = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                        let j = j;
                        (j.0)(&mut c, &mut r)
                    }));
                    inside.fetch_sub(1, Ordering::SeqCst);
                    let e = e.map_err(|p| match p.downcast_ref::<run::Fail>() {
                        Some(f) => f.0.clone(),
                        None => run::last_panic(),
                    });
                    (c, e)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    JITTER.store(false, Ordering::Relaxed);
    cx.count("threads", n);
    let most = most.load(Ordering::SeqCst);
    cx.count(&format!("{} threads inside at once", most), 1);
    for (c, e) in kids {
        cx.merge(&c, &["matrices_compared", "entries_compared", "analyses", "traversals", "steps", "shared_calls", "ordinary_groups", "calls_panicked"]);
        if let Err(e) = e {
            cx.fail(format!("{} threads: {}", n, e));
        }
    }
}

/// Threads that work on the same matrices.
pub fn shared(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 3 {
        0 => shared_on::<usize>(cx, r),
        1 => shared_on::<u16>(cx, r),
        _ => shared_on::<i32>(cx, r),
    }
}

fn shared_on<I: Ix>(cx: &mut Cx, r: &mut Rng) {
    crosses!(cx, CSR<usize, f64>, CSC<usize, f64>, Coo<usize, f64>, DoK<usize, f64>, CSR<i32, Complex64>, CSC<u8, i64>);
    let n = *r.pick(&[1, 2, 3, 5, 8, 12, 20, 33]);
    let o = Opt::of::<I, Fp>().nnz(if r.chance(1, 4) { 600 } else { 120 });
    let (x, y) = (Raw::<Fp>::random(r, n, n, &o), Raw::<Fp>::random(r, n, n, &o));
    let (mx, my) = (x.model(), y.model());
    let (mxt, myt) = (mx.t(), my.t());
    cx.show(|| format!("{} and {}", brief::<I, Fp>(&x), brief::<I, Fp>(&y)));
    cx.seen(x.hash() ^ y.hash().rotate_left(3));
    let (a, b) = (x.csr::<I>(r, true), y.csr::<I>(r, true));
    let (p, q) = (x.csc::<I>(r, true), y.csc::<I>(r, true));
    let (k, l) = (x.coo::<I>(r), y.coo::<I>(r));
    let mut canon = a.clone();
    canon.sort_indexes();
    canon.sum_duplicates().unwrap();
    let v: Vec<Fp> = (0..n).map(|_| Fp::gen(r)).collect();
    let (av, ptv) = (mx.mul_vec(&v), mxt.mul_vec(&v));
    let (sum, dif, prod) = (mx.zip(&my, |u, w| u + w), mx.zip(&my, |u, w| u - w), mx.mul(&my));
    let sums_t = mxt.zip(&myt, |u, w| u + w);
    let prod_t = mxt.mul(&myt);
    let rows: Vec<usize> = (0..r.below(8)).map(|_| r.below(n)).collect();
    let irows: Vec<I> = rows.iter().map(|&i| I::ix(i)).collect();
    let sel = mx.select(&rows, &(0..n).collect::<Vec<_>>());
    let edges: Vec<(usize, usize)> = (0..n).flat_map(|i| x.idx[x.ptr[i]..x.ptr[i + 1]].iter().map(move |&j| (i, j)).collect::<Vec<_>>()).collect();
    let (und, strong) = (graphs::undirected(n, &edges), graphs::strong(n, &edges));
    let diag: Vec<Fp> = (0..n).map(|i| mx.get(i, i)).collect();
    let one = |c: &mut Cx, r: &mut Rng| {
        c.count("shared_calls", 1);
        match r.below(24) {
            0 => { let g = c.get(read_csr("shared CSR + CSR", &(&a + &b), Len::AtLeast)); c.same("shared CSR + CSR", &sum, &g) }
            1 => { let g = c.get(read_csr("shared CSR - CSR", &(&a - &b), Len::AtLeast)); c.same("shared CSR - CSR", &dif, &g) }
            2 | 3 => { let g = c.get(read_csr("shared CSR * CSR", &(&a * &b), Len::AtLeast)); c.same("shared CSR * CSR", &prod, &g) }
            4 => { let g = c.get(read_csc("shared CSC + CSC", &(&p + &q), Len::AtLeast)); c.same("shared CSC + CSC", &sums_t, &g) }
            5 | 6 => { let g = c.get(read_csc("shared CSC * CSC", &(&p * &q), Len::AtLeast)); c.same("shared CSC * CSC", &prod_t, &g) }
            7 => { let g = c.get(read_csr("shared Coo + Coo", &(&k + &l), Len::AtLeast)); c.same("shared Coo + Coo", &sum, &g) }
            8 => { let g = c.get(read_csr("shared Coo::to_csr", &k.to_csr(), Len::AtLeast)); c.same("shared Coo::to_csr", &mx, &g) }
            9 => { let g = c.get(read_csc("shared Coo::to_csc", &k.to_csc(), Len::AtLeast)); c.same("shared Coo::to_csc", &mx, &g) }
            10 => { let g = c.get(read_csc("shared CSR::to_csc", &a.to_csc(), Len::AtLeast)); c.same("shared CSR::to_csc", &mx, &g) }
            11 => { let g = c.get(read_csr("shared CSC::to_csr", &p.to_csr(), Len::AtLeast)); c.same("shared CSC::to_csr", &mxt, &g) }
            12 => { let g = c.get(read_coo("shared CSR::to_coo", &a.to_coo())); c.same("shared CSR::to_coo", &mx, &g) }
            13 => { let g = c.get(read_csc("shared CSR::t", &a.t(), Len::AtLeast)); c.same("shared CSR::t", &mxt, &g) }
            14 => { let g = c.get(read_csr("shared CSC::t", &p.t(), Len::AtLeast)); c.same("shared CSC::t", &mx, &g) }
            15 => { let g = c.get(read_csr("shared CSR::select", &c.get(canon.select(Some(&irows), None).map_err(|e| e.to_string())), Len::AtLeast)); c.same("shared CSR::select", &sel, &g) }
            16 => ck!(c, a.mat_vec(&v).ok().as_ref() == Some(&av), "shared CSR::mat_vec"),
            17 => ck!(c, p.mat_vec(&v).ok().as_ref() == Some(&ptv), "shared CSC::mat_vec"),
            18 => ck!(c, a.diagonal() == diag && p.diagonal() == diag && k.diagonal() == diag, "shared diagonal"),
            19 => ck!(c, p.to_dense() == mxt.dense() && k.to_dense() == mx.dense(), "shared to_dense"),
            20 | 21 => {
                let (con, class) = if r.chance(1, 2) { (Connection::Weak, &und) } else { (Connection::Strong, &strong) };
                let (m, lab) = c.get(connected_components(&a, true, con).map_err(|e| e.to_string()));
                c.ok(graphs::partition(class, m, &lab).map_err(|e| format!("shared components: {}", e)));
            }
            22 => {
                let s = r.below(n);
                let (ord, pre) = c.get(depth_first_order(&a, s, true).map_err(|e| e.to_string()));
                c.get(graphs::traversal(n, &edges, s, &ord, &pre).map_err(|e| format!("shared traversal: {}", e)));
            }
            _ => {
                let (i, j) = (r.below(n), r.below(n));
                ck!(c, a.get(I::ix(i), I::ix(j)) == mx.get(i, j), "shared CSR::get({}, {})", i, j);
            }
        }
    };
    let one = &Cross(one);
    let threads = r.range(2, 6);
    let rounds = r.range(4, 20);
    let fixed = if r.chance(1, 2) { Some(r.clone()) } else { None };
    let jobs = (0..threads)
        .map(|_| -> Box<dyn FnOnce(&mut Cx, &mut Rng) + '_> {
            let fixed = fixed.clone();
            Box::new(move |c: &mut Cx, r: &mut Rng| {
                // Sometimes all make the same calls.
                let mut r = fixed.unwrap_or(r.clone());
                for _ in 0..rounds {
                    (one.0)(c, &mut r);
                }
            })
        })
        .collect();
    at_once(cx, r, jobs);
    // Nothing was written to the shared matrices.
    let now = (snap_csr(&a), snap_csc(&p));
    let g = cx.get(read_csr("the shared CSR matrix afterwards", &a, Len::AtLeast));
    cx.same("the shared CSR matrix afterwards", &mx, &g);
    let g = cx.get(read_csc("the shared CSC matrix afterwards", &p, Len::AtLeast));
    cx.same("the shared CSC matrix afterwards", &mxt, &g);
    drop(now);
}

pub fn families() -> Vec<Family> {
    vec![Family { name: "shared", quick: 6_000, thorough: 200_000, f: shared }]
}

pub fn main() {
    run(&families())
}
