//! C20: returned eigenpairs are eigenpairs, and the dominant ones.
use harness::*;
use harness_eigs::native::*;
use harness_eigs::spectra::*;
use sparsetools::eigen::real::eigs;
use std::collections::BTreeMap;

#[global_allocator]
static ALLOC: Tracking = Tracking;

fn solve(cx: &mut Cx, r: &mut Rng, p: Problem) {
    cx.show(|| format!("{} n = {} nev = {} must {:?} entries {:?}", p.kind, p.n, p.nev, p.must, p.a));
    cx.seen(p.hash());
    let a = p.csc(r);
    let mut left = starts(&p);
    let v = loop {
        let (ans, seen) = watched(Some(p.product()), p.tol(), || eigs(&a, p.nev));
        let ans = match ans {
            Ok(x) => x.map_err(|e| e.to_string()),
            Err(_) => cx.fail(format!("{} n = {} nev = {}: the routine panicked", p.kind, p.n, p.nev)),
        };
        cx.count("native_steps", seen.steps);
        cx.count("products_checked", seen.products);
        if let Some(b) = seen.bad(Kind::Protocol) {
            cx.fail(format!("{} n = {} nev = {}: {}", p.kind, p.n, p.nev, b))
        }
        let failed = ans.is_err();
        let mut c = BTreeMap::new();
        let v = judge(&p, ans, &mut c);
        // An unlucky random start may miss the iteration limit or, with few vectors, settle on
        // another eigenvalue; the next start is another one.
        if left > 0 && (failed || missed(&v)) {
            cx.count(if failed { "second_starts_failed" } else { "second_starts_missed" }, 1);
            left -= 1;
            continue;
        }
        for (k, n) in c {
            cx.count(k, n);
        }
        break v;
    };
    cx.ok(v.map_err(|e| format!("{} n = {} nev = {}: {}", p.kind, p.n, p.nev, e)));
}

fn known(cx: &mut Cx, r: &mut Rng, _: u64) {
    let (n, nev) = if r.chance(1, 40) { (r.range(121, 400), r.range(1, 24)) } else { sizes(r, 120) };
    let p = chosen(r, n, nev, 0.5, false);
    solve(cx, r, p)
}
/// The last wanted eigenvalue belongs to a pair.
fn split(cx: &mut Cx, r: &mut Rng, _: u64) {
    let (n, nev) = sizes(r, 80);
    let p = chosen(r, n, nev, 0.5, true);
    solve(cx, r, p)
}
fn stoch(cx: &mut Cx, r: &mut Rng, _: u64) {
    let n = r.range(4, 60);
    let p = stochastic(r, n);
    solve(cx, r, p)
}
fn other(cx: &mut Cx, r: &mut Rng, _: u64) {
    let (n, nev) = sizes(r, 60);
    let p = unknown(r, n, nev);
    solve(cx, r, p)
}

/// Requests that must be refused.
fn refused(cx: &mut Cx, r: &mut Rng, _: u64) {
    let (m, n) = (r.below(9), r.below(9));
    let square = r.chance(1, 2);
    let n = if square { m } else { n };
    let more = n + r.below(1000);
    let nev = if m == n { *r.pick(&[0, n.saturating_sub(1), n, n + 1, more, usize::MAX, usize::MAX - 1, usize::MAX / 2]) } else { r.below(10) };
    if m == n && nev != 0 && nev < n && nev + 2 <= n {
        return;
    }
    cx.show(|| format!("{}x{} nev = {}", m, n, nev));
    cx.seen(rng::mix((m * 100 + n) as u64) ^ nev as u64);
    let raw = Raw::<f64>::random(r, n, m, &Opt { maxdim: 20, maxnnz: 60, dups: true, unsorted: true, zeros: true });
    let a = raw.csc::<usize>(r, true);
    let (ans, seen) = watched(None, 0.0, || eigs(&a, nev));
    match ans {
        Ok(Err(_)) => cx.count("refused", 1),
        Ok(Ok(_)) => cx.fail(format!("{}x{} nev = {}: an answer instead of an error", m, n, nev)),
        Err(_) => cx.fail(format!("{}x{} nev = {}: a panic instead of an error", m, n, nev)),
    }
    cx.count("refused_before_native", (seen.steps == 0) as usize);
}

fn main() {
    run(&[
        Family { name: "known", quick: 12_000, thorough: 500_000, f: known },
        Family { name: "split", quick: 4_000, thorough: 150_000, f: split },
        Family { name: "stochastic", quick: 2_000, thorough: 60_000, f: stoch },
        Family { name: "unknown", quick: 6_000, thorough: 250_000, f: other },
        Family { name: "refused", quick: 4_000, thorough: 40_000, f: refused },
    ])
}
