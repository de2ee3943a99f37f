//! C29, the eigenvalue routine: work arrays in proportion to the size and the requested count, all given back.
use harness::memory::*;
use harness::*;
use harness_eigs::spectra::*;
use sparsetools::eigen::real::eigs;

#[global_allocator]
static COUNTING: Counting = Counting;

fn call(cx: &mut Cx, what: &str, a: &CSC<usize, f64>, nev: usize) {
    let n = a.cols().max(a.rows());
    // The basis has 2 nev + 1 vectors at most; the projected problem is that size squared.
    let ncv = n.min(2 * nev + 1);
    let work = n * (ncv + nev + 8) + 4 * ncv * (ncv + 8) + a.nnz();
    let t = &mut Meter { cx, repeat: true };
    t.call(what, work, || caught(|| eigs(a, nev)));
}

fn ordinary(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (n, nev) = sizes(r, 40);
    let p = match i % 3 {
        0 => unknown(r, n, nev),
        1 => chosen(r, n, nev, 0.5, true),
        _ => chosen(r, n, nev, 0.5, false),
    };
    cx.seen(p.hash());
    let a = p.csc(r);
    cx.show(|| format!("{} n = {} nev = {}", p.kind, p.n, p.nev));
    call(cx, "eigs", &a, p.nev)
}
/// A basis of many vectors would show here.
fn large(cx: &mut Cx, r: &mut Rng, _: u64) {
    let n = r.range(500, 3000);
    let nev = r.range(1, 4);
    // Separated, so that few steps are needed.
    let d: Vec<f64> = (0..n).map(|i| if i < 8 { 3f64.powi(8 - i as i32) } else { r.below(1000) as f64 * 1e-3 }).collect();
    let a = CSC::<usize, f64>::with_diagonal(d);
    cx.seen(n as u64 * 8 + nev as u64);
    cx.show(|| format!("diagonal, n = {} nev = {}", n, nev));
    call(cx, "eigs", &a, nev)
}
fn refused(cx: &mut Cx, r: &mut Rng, _: u64) {
    let n = r.range(1, 12);
    let m = if r.chance(1, 2) { n } else { r.range(1, 12) };
    let mut raw = Raw::<f64>::random(r, n, m, &Opt { maxdim: 20, maxnnz: 60, dups: true, unsorted: true, zeros: true });
    raw.specials(r);
    let a = raw.csc::<usize>(r, false);
    cx.seen(raw.hash());
    let nev = *r.pick(&[0, 1, 2, n, n + 1, n.saturating_sub(1)]);
    call(cx, "refused eigs", &a, nev)
}

fn main() {
    // The wrappers keep records of their own.
    harness_eigs::native::WATCH.store(false, std::sync::atomic::Ordering::SeqCst);
    run(&[
        Family { name: "ordinary", quick: 2_000, thorough: 60_000, f: ordinary },
        Family { name: "large", quick: 24, thorough: 400, f: large },
        Family { name: "refused", quick: 2_000, thorough: 60_000, f: refused },
    ])
}
