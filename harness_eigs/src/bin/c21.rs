//! C21: concurrent eigenvalue computations. Threads call the routine on their own and on shared
//! matrices while delays are injected between the native steps; every answer is judged as in C20,
//! and the wrappers report computations that overlap. The ThreadSanitizer build also instruments
//! the native library.
use harness::*;
use harness_eigs::native::*;
use harness_eigs::spectra::*;
use sparsetools::eigen::real::eigs;
use std::collections::BTreeMap;
use std::sync::atomic::Ordering::*;
use std::sync::{mpsc, Arc, Barrier};
use std::time::Duration;

#[global_allocator]
static ALLOC: Tracking = Tracking;

type Job = (Arc<Problem>, Arc<CSC<usize, f64>>);
type Report = Result<BTreeMap<&'static str, usize>, String>;

fn one(p: &Problem, a: &CSC<usize, f64>, c: &mut BTreeMap<&'static str, usize>) -> Result<(), String> {
    let what = || format!("{} n = {} nev = {}", p.kind, p.n, p.nev);
    let mut left = starts(p);
    loop {
        let (ans, seen) = watched(Some(p.product()), p.tol(), || eigs(a, p.nev));
        *c.entry("native_steps").or_insert(0) += seen.steps;
        *c.entry("products_checked").or_insert(0) += seen.products;
        for k in [Kind::Overlap, Kind::Protocol] {
            if let Some(b) = seen.bad(k) {
                return Err(format!("{}: {}", what(), b));
            }
        }
        let ans = ans.map_err(|_| format!("{}: the routine panicked", what()))?.map_err(|e| e.to_string());
        let failed = ans.is_err();
        let mut k = BTreeMap::new();
        let v = judge(p, ans, &mut k);
        if left > 0 && (failed || missed(&v)) {
            *c.entry("second_starts").or_insert(0) += 1;
            left -= 1;
            continue;
        }
        for (k, n) in k {
            *c.entry(k).or_insert(0) += n;
        }
        return v.map_err(|e| format!("{}: {}", what(), e));
    }
}

/// A matrix whose use panics in the middle of a computation.
fn broken(r: &mut Rng) -> CSC<usize, f64> {
    let n = r.range(4, 12);
    let mut idx: Vec<usize> = (0..n).collect();
    idx[r.below(n)] = n + r.below(5);
    CSC::new(n, n, idx, (0..n + 1).collect(), vec![1.0; n]).unwrap()
}

fn go(cx: &mut Cx, r: &mut Rng, breaking: bool) {
    let threads = *r.pick(&[2, 2, 3, 4, 6, 8]);
    let calls = r.range(2, 6);
    let make = |r: &mut Rng| -> Job {
        let large = r.chance(1, 10);
        let (n, nev) = if large { (r.range(60, 120), r.range(1, 24)) } else { sizes(r, 40) };
        let p = match r.below(6) {
            _ if large => chosen(r, n, nev, 0.5, false),
            0 => unknown(r, n, nev),
            1 => stochastic(r, n.max(4)),
            2 => chosen(r, n, nev, 0.5, true),
            _ => chosen(r, n, nev, 0.5, false),
        };
        let a = p.csc(r);
        (Arc::new(p), Arc::new(a))
    };
    let shared: Vec<Job> = (0..r.range(1, 3)).map(|_| make(r)).collect();
    let jobs: Vec<Vec<Job>> = (0..threads).map(|_| (0..calls).map(|_| if r.chance(1, 3) { r.pick(&shared).clone() } else { make(r) }).collect()).collect();
    let bad: Vec<Option<Arc<CSC<usize, f64>>>> = (0..threads).map(|t| if breaking && (t == 0 || r.chance(1, 3)) { Some(Arc::new(broken(r))) } else { None }).collect();
    let delays = *r.pick(&[0, 0, 4, 16, 48]);
    cx.show(|| format!("{} threads, {} calls each, delays {}, {:?}", threads, calls, delays, jobs.iter().map(|j| j.iter().map(|p| (p.0.kind, p.0.n, p.0.nev)).collect::<Vec<_>>()).collect::<Vec<_>>()));
    DELAYS.store(delays, Relaxed);
    ORDER.store(0, Relaxed);
    HANDOVERS.store(0, Relaxed);
    let (tx, rx) = mpsc::channel::<Report>();
    let gate = Arc::new(Barrier::new(threads));
    let handles: Vec<_> = (0..threads)
        .map(|t| {
            let (tx, gate, jobs, bad) = (tx.clone(), gate.clone(), jobs[t].clone(), bad[t].clone());
            std::thread::spawn(move || {
                set_me(t + 1);
                let mut c = BTreeMap::new();
                gate.wait();
                let mut res = Ok(());
                for (k, (p, a)) in jobs.iter().enumerate() {
                    if let (Some(b), true) = (&bad, k % 2 == 1) {
                        // An error or a panic; it must not matter to the others.
                        let _ = may_panic(|| eigs(b, 1));
                        *c.entry("broken_calls").or_insert(0) += 1;
                    }
                    res = one(p, a, &mut c);
                    *c.entry("calls").or_insert(0) += 1;
                    if res.is_err() {
                        break;
                    }
                }
                let _ = tx.send(res.map(|_| c));
            })
        })
        .collect();
    drop(tx);
    let mut problem = None;
    for _ in 0..threads {
        match rx.recv_timeout(Duration::from_secs(600)) {
            Ok(Ok(c)) => c.into_iter().for_each(|(k, n)| cx.count(k, n)),
            Ok(Err(e)) => problem = Some(problem.unwrap_or(e)),
            Err(mpsc::RecvTimeoutError::Timeout) => cx.fail(format!("{} threads: a call did not end within 600 s", threads)),
            Err(_) => break,
        }
    }
    for h in handles {
        if h.join().is_err() {
            problem = Some("a thread panicked".into())
        }
    }
    DELAYS.store(0, Relaxed);
    cx.count("threads", threads);
    cx.count("handovers", HANDOVERS.load(Relaxed));
    // The order in which the computations began.
    cx.seen(ORDER.load(Relaxed));
    if let Some(e) = problem {
        cx.fail(format!("{} threads: {}", threads, e))
    }
}

fn plain(cx: &mut Cx, r: &mut Rng, _: u64) {
    go(cx, r, false)
}
fn breaking(cx: &mut Cx, r: &mut Rng, _: u64) {
    go(cx, r, true)
}

fn main() {
    run(&[Family { name: "threads", quick: 1_200, thorough: 40_000, f: plain }, Family { name: "broken", quick: 300, thorough: 8_000, f: breaking }])
}
