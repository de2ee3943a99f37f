//! C22: the native binding stays within its buffers. The wrappers compare every buffer with what the
//! library will use of it; AddressSanitizer (with the library itself instrumented) and valgrind
//! watch the accesses.
use harness::*;
use harness_eigs::native::*;
use harness_eigs::spectra::*;
use sparsetools::eigen::real::eigs;
use std::hint::black_box;

#[global_allocator]
static ALLOC: Tracking = Tracking;

fn call(cx: &mut Cx, what: String, a: &CSC<usize, f64>, nev: usize) {
    cx.show(|| what.clone());
    let (ans, seen) = watched(None, 0.0, || eigs(a, nev));
    cx.count("native_steps", seen.steps);
    cx.count("native_finishes", seen.finishes);
    cx.count("buffers_checked", seen.extents);
    if let Some(b) = seen.bad(Kind::Buffer) {
        cx.fail(format!("{}: {}", what, b))
    }
    match ans {
        Ok(Ok((d, z))) => {
            cx.count("answers", 1);
            // Everything that was returned is looked at.
            let mut s = d.iter().filter(|x| x.re > 0.0 || x.im > 0.0).count();
            for i in 0..z.rows() {
                for j in 0..z.cols() {
                    s += (z[(i, j)].re > 0.5 || z[(i, j)].im > 0.5) as usize;
                }
            }
            black_box(s);
        }
        Ok(Err(_)) => cx.count("errors", 1),
        Err(_) => cx.count("panics", 1),
    }
}

fn ordinary(cx: &mut Cx, r: &mut Rng, _: u64) {
    let (n, nev) = sizes(r, 40);
    let p = match r.below(6) {
        0 | 1 => unknown(r, n, nev),
        2 => stochastic(r, n.max(4)),
        3 => chosen(r, n, nev, 0.5, true),
        _ => chosen(r, n, nev, 0.5, false),
    };
    cx.seen(p.hash());
    let a = p.csc(r);
    call(cx, format!("{} n = {} nev = {}", p.kind, p.n, p.nev), &a, p.nev)
}
/// Every size and count in turn.
fn every(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (mut n, mut k) = (3, i as usize % 231);
    while k >= n - 2 {
        k -= n - 2;
        n += 1;
    }
    let p = unknown(r, n, k + 1);
    cx.seen(p.hash());
    let a = p.csc(r);
    call(cx, format!("{} n = {} nev = {}", p.kind, n, k + 1), &a, k + 1)
}
/// Larger matrices and many values at once.
fn large(cx: &mut Cx, r: &mut Rng, _: u64) {
    let n = r.range(41, 300);
    let nev = match r.below(3) {
        0 => r.range(1, 4),
        1 => r.range(5, 24),
        _ => r.range(25, 64.min(n - 2)),
    };
    let p = if nev > 24 || r.chance(1, 2) { unknown(r, n, nev) } else { chosen(r, n, nev, 0.5, false) };
    cx.seen(p.hash());
    let a = p.csc(r);
    call(cx, format!("{} n = {} nev = {}", p.kind, p.n, p.nev), &a, p.nev)
}
/// Requests to be refused, values that are not numbers, and indices out of range.
fn odd(cx: &mut Cx, r: &mut Rng, _: u64) {
    let m = r.below(12);
    let n = if r.chance(3, 4) { m } else { r.below(12) };
    let mut raw = Raw::<f64>::random(r, n, m, &Opt { maxdim: 20, maxnnz: 60, dups: true, unsorted: true, zeros: true });
    if r.chance(1, 2) {
        raw.specials(r);
    }
    if r.chance(1, 4) && !raw.idx.is_empty() {
        let k = r.below(raw.idx.len());
        raw.idx[k] += r.below(20);
    }
    let nev = *r.pick(&[0, 1, 1, 2, 3, m.saturating_sub(2), m.saturating_sub(1), m, m + 1, usize::MAX]);
    cx.seen(raw.hash());
    let a = raw.csc::<usize>(r, true);
    call(cx, format!("{}x{} nev = {}", m, n, nev), &a, nev)
}

fn main() {
    run(&[
        Family { name: "ordinary", quick: 4_000, thorough: 200_000, f: ordinary },
        Family { name: "every", quick: 1_155, thorough: 23_100, f: every },
        Family { name: "large", quick: 60, thorough: 2_000, f: large },
        Family { name: "odd", quick: 4_000, thorough: 100_000, f: odd },
    ])
}
