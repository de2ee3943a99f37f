//! C05: matrix-matrix products.
use harness::*;
use sparsetools::*;
use std::collections::BTreeSet;

/// Positions of the product to which at least one pair of stored entries contributes.
fn structural<T: Val>(x: &Raw<T>, y: &Raw<T>) -> usize {
    let mut n = 0;
    let mut s = BTreeSet::new();
    for i in 0..x.major {
        s.clear();
        for k in x.ptr[i]..x.ptr[i + 1] {
            let j = x.idx[k];
            s.extend(y.idx[y.ptr[j]..y.ptr[j + 1]].iter().copied());
        }
        n += s.len();
    }
    n
}

fn triple<T: Val>(r: &mut Rng, imax: usize, o: &Opt, big: bool) -> (Raw<T>, Raw<T>) {
    let lim = if big { 70_000 } else { 140 };
    let (m, n) = dims(r, imax.min(lim), big);
    let k = match r.below(4) {
        0 => m,
        1 => n,
        _ => dims(r, imax.min(lim), big).0,
    };
    let mut o = *o;
    if big {
        o = o.nnz(6000);
    }
    let (x, mut y) = (Raw::<T>::random(r, m, n, &o), Raw::<T>::random(r, n, k, &o));
    // Work bound.
    let flops: usize = x.idx.iter().map(|&j| y.ptr[j + 1] - y.ptr[j]).sum();
    if flops > 400_000 {
        let p = pattern(r, n, k, n + 5);
        y = store(r, p, k, &o);
    }
    (x, y)
}

fn product<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let mut o = Opt::of::<I, T>().nnz(T::PRODS).nnz(60_000);
    if I::MAX < 200 {
        o = o.nnz(11);
    } else if I::MAX < 300 {
        o = o.nnz(15);
    }
    // Repeated entries meet repeated entries: keep the sums of products in the exact range.
    o = o.nnz(if T::PRODS < 1000 { 5 } else { T::PRODS / 9 });
    let (x, y) = triple::<T>(r, I::MAX, &o, big);
    one::<I, T>(cx, r, &x, &y);
}

fn one<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, x: &Raw<T>, y: &Raw<T>) {
    let (m, n, k) = (x.major, x.minor, y.minor);
    cx.show(|| format!("{} times {}", brief::<I, T>(x), brief::<I, T>(y)));
    let s = structural(x, y);
    if s > I::MAX {
        return;
    }
    let (mx, my) = (x.model(), y.model());
    let want = mx.mul(&my);
    let wt = want.t();
    let (a, b) = (x.csr::<I>(r, true), y.csr::<I>(r, true));
    // In column form the same storage is the transpose: (x y)^T = y^T x^T.
    let (p, q) = (x.csc::<I>(r, true), y.csc::<I>(r, true));
    let snaps = (snap_csr(&a), snap_csr(&b), snap_csc(&p), snap_csc(&q));
    let csr = |cx: &mut Cx, what: &str, g: &CSR<I, T>| {
        let got = cx.get(read_csr(what, g, Len::AtLeast));
        cx.same(what, &want, &got);
        ck!(cx, g.nnz() <= s, "{}: {} entries stored where at most {} can be", what, g.nnz(), s);
        cx.count("products", 1);
    };
    let csc = |cx: &mut Cx, what: &str, g: &CSC<I, T>| {
        let got = cx.get(read_csc(what, g, Len::AtLeast));
        cx.same(what, &wt, &got);
        ck!(cx, g.nnz() <= s, "{}: {} entries stored where at most {} can be", what, g.nnz(), s);
        cx.count("products", 1);
    };
    match a.mat_mat(&b) {
        Ok(g) => csr(cx, "CSR::mat_mat", &g),
        Err(e) => cx.fail(format!("CSR::mat_mat refused: {}", e)),
    }
    match q.mat_mat(&p) {
        Ok(g) => csc(cx, "CSC::mat_mat", &g),
        Err(e) => cx.fail(format!("CSC::mat_mat refused: {}", e)),
    }
    csr(cx, "&CSR * &CSR", &(&a * &b));
    csc(cx, "&CSC * &CSC", &(&q * &p));
    // CSC by CSR: the second operand in row form, from another storage order.
    let pr: CSR<I, T> = {
        let t = x.triplets(r, true);
        // entries of x^T, rows = x's minor lines
        let mut rows: Vec<Vec<(usize, T)>> = vec![vec![]; n];
        for (i, j, v) in t {
            rows[j].push((i, v));
        }
        let (mut ptr, mut idx, mut val) = (vec![I::ix(0)], vec![], vec![]);
        for row in rows {
            for (i, v) in row {
                idx.push(I::ix(i));
                val.push(v);
            }
            ptr.push(I::ix(idx.len()));
        }
        CSR::new(n, m, ptr, idx, val).unwrap()
    };
    csc(cx, "&CSC * &CSR", &(&q * &pr));
    if m == n && n == k && x.idx == y.idx && x.ptr == y.ptr && x.val == y.val {
        // Both operands are the same object.
        csr(cx, "&CSR * itself", &(&a * &a));
        csc(cx, "&CSC * itself", &(&p * &p));
        csr(cx, "CSR::mat_mat with itself", &cx_get(cx, a.mat_mat(&a)));
        csc(cx, "CSC::mat_mat with itself", &cx_get(cx, p.mat_mat(&p)));
        cx.count("squares", 1);
    }
    match r.below(3) {
        0 => {
            csr(cx, "CSR * CSR", &(a.clone() * b.clone()));
            csc(cx, "CSC * &CSC", &(clone_csc(&q) * &p));
            csc(cx, "&CSC * CSR", &(&q * pr.clone()));
        }
        1 => {
            csr(cx, "&CSR * CSR", &(&a * b.clone()));
            csc(cx, "&CSC * CSC", &(&q * clone_csc(&p)));
            csc(cx, "CSC * &CSR", &(clone_csc(&q) * &pr));
        }
        _ => {
            csr(cx, "CSR * &CSR", &(a.clone() * &b));
            csc(cx, "CSC * CSC", &(clone_csc(&q) * clone_csc(&p)));
            csc(cx, "CSC * CSR", &(clone_csc(&q) * pr.clone()));
        }
    }
    // The bound and the kernels.
    let nz = want.nonzeros();
    for (what, bound) in [
        ("csr_matmat_maxnnz", csr_matmat_maxnnz(m, k, a.rowptr(), a.colidx(), b.rowptr(), b.colidx())),
        ("csc_matmat_maxnnz", csc_matmat_maxnnz(k, m, q.colptr(), q.rowidx(), p.colptr(), p.rowidx())),
    ] {
        ck!(cx, bound >= nz, "{}: bound {} below the {} non-zero results", what, bound, nz);
        if nz == s {
            ck!(cx, bound == nz, "{}: {} where nothing cancels and {} results are non-zero", what, bound, nz);
            cx.count("exact_bounds", 1);
        }
        cx.count("bounds", 1);
    }
    let room = s + r.below(3);
    let sent = T::gen(r);
    let (mut cp, mut cj, mut xv) = (vec![I::ix(0); m + 1], vec![I::ix(0); room], vec![sent; room]);
    csr_matmat(m, k, a.rowptr(), a.colidx(), a.values(), b.rowptr(), b.colidx(), b.values(), &mut cp, &mut cj, &mut xv);
    ck!(cx, xv[cp[m].us().min(room)..].iter().all(|v| *v == sent), "csr_matmat wrote past its result");
    csr(cx, "csr_matmat", &CSR::new(m, k, cp, cj, xv).unwrap());
    let (mut cp, mut cj, mut xv) = (vec![I::ix(0); m + 1], vec![I::ix(0); room], vec![sent; room]);
    csc_matmat(k, m, q.colptr(), q.rowidx(), q.values(), p.colptr(), p.rowidx(), p.values(), &mut cp, &mut cj, &mut xv);
    csc(cx, "csc_matmat", &CSC::new(k, m, cj, cp, xv).unwrap());
    ck!(
        cx,
        snaps.0 == snap_csr(&a) && snaps.1 == snap_csr(&b) && snaps.2 == snap_csc(&p) && snaps.3 == snap_csc(&q),
        "a product changed an operand"
    );
    cx.count("multiply_adds", x.idx.iter().map(|&j| y.ptr[j + 1] - y.ptr[j]).sum());
    if nz < s {
        cx.count("with_cancellation", 1);
    }
    if s > 0 {
        cx.seen(x.hash() ^ y.hash().rotate_left(17));
    }
}

fn cx_get<R>(cx: &Cx, r: Result<R, anyhow::Error>) -> R {
    r.unwrap_or_else(|e| cx.fail(format!("a product with itself was refused: {}", e)))
}

/// A times itself, powers, and products built to cancel.
fn special<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng, _: bool) {
    let mut o = Opt::of::<I, T>().nnz(T::PRODS / 9).nnz(60_000);
    if I::MAX < 300 {
        o = o.nnz(11);
    }
    let n = r.range(1, 40);
    match r.below(3) {
        0 => {
            let x = Raw::<T>::random(r, n, n, &o);
            one::<I, T>(cx, r, &x, &x.clone());
        }
        1 => {
            // [X X] [Y; -Y] = 0
            let o = o.nnz(o.maxnnz / 2);
            let (k, l) = (r.range(1, 12), r.range(1, 12));
            let x = Raw::<T>::random(r, n, k, &o);
            let y = Raw::<T>::random(r, k, l, &o);
            let mut xx = x.clone();
            xx.minor = 2 * k;
            xx.ptr = vec![0];
            xx.idx.clear();
            xx.val.clear();
            for i in 0..n {
                for h in 0..2 {
                    for e in x.ptr[i]..x.ptr[i + 1] {
                        xx.idx.push(x.idx[e] + h * k);
                        xx.val.push(x.val[e]);
                    }
                }
                xx.ptr.push(xx.idx.len());
            }
            let mut yy = y.clone();
            yy.major = 2 * k;
            for i in 0..k {
                for e in y.ptr[i]..y.ptr[i + 1] {
                    yy.idx.push(y.idx[e]);
                    // One entry may survive.
                    yy.val.push(if r.chance(1, 30) { y.val[e] } else { -y.val[e] });
                }
                yy.ptr.push(yy.idx.len());
            }
            one::<I, T>(cx, r, &xx, &yy);
        }
        _ => {
            // Outer and inner products.
            let x = Raw::<T>::random(r, n, 1, &o);
            let y = Raw::<T>::random(r, 1, n, &o);
            if r.chance(1, 2) && x.nnz() * y.nnz() <= I::MAX {
                one::<I, T>(cx, r, &x, &y);
            } else {
                one::<I, T>(cx, r, &y, &x);
            }
        }
    }
}

/// Very many lines, few of which store something.
fn lengthy<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let o = Opt::of::<I, T>().nnz(4000);
    let m = r.range(65_530, 140_000);
    let (k, l) = (r.range(1, 12), if r.chance(1, 3) { r.range(65_530, 140_000) } else { r.range(1, 12) });
    let line = |r: &mut Rng, major: usize, minor: usize| {
        let p = pattern(r, major, minor, 1000);
        store(r, p, minor, &o)
    };
    let (x, y) = (line(r, m, k), line(r, k, l));
    one::<I, T>(cx, r, &x, &y);
}
/// Lines of the product with more than 2^16 entries.
fn wide<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let (m, k, l) = (r.range(1, 2), r.range(1, 3), r.range(65_530, 70_000));
    let o = Opt::of::<I, T>().nnz(100_000).canonical();
    let p = (0..m).map(|_| (0..k).filter(|_| r.chance(3, 4)).collect()).collect();
    let few = store(r, p, k, &o);
    // One operand line holds all, or the lines hold it together.
    let one_line = r.chance(1, 2);
    let h = r.below(k);
    let mut rows: Vec<Vec<usize>> = vec![vec![]; k];
    (0..l).for_each(|j| rows[if one_line { h } else { r.below(k) }].push(j));
    let full = store(r, rows, l, &o);
    one::<I, T>(cx, r, &few, &full);
}
fn wide_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 2 {
        0 => wide::<usize, Fp>(cx, r),
        _ => wide::<u32, i64>(cx, r),
    }
}
fn long_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 3 {
        0 => lengthy::<usize, Fp>(cx, r),
        1 => lengthy::<u32, i64>(cx, r),
        _ => lengthy::<i64, Fp>(cx, r),
    }
}

cases!(any_case = any product);
cases!(index_case = index product);
cases!(big_case = big product);
cases!(special_case = signed special);

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "product", quick: 40_000, thorough: 1_500_000, f: any_case },
        Family { name: "index", quick: 8_000, thorough: 250_000, f: index_case },
        Family { name: "special", quick: 15_000, thorough: 500_000, f: special_case },
        Family { name: "long", quick: 400, thorough: 20_000, f: long_case },
        Family { name: "wide", quick: 24, thorough: 1_500, f: wide_case },
        Family { name: "big", quick: 800, thorough: 40_000, f: big_case },
    ]
}

pub fn main() {
    run_scaled(&families())
}
