//! C26: low-level kernels, with outputs that hold other contents before and guard elements behind.
use harness::*;
use sparsetools::*;

/// An output array: junk everywhere, `n` elements of it to be written.
fn junk_ix<I: Ix>(r: &mut Rng, n: usize) -> (Vec<I>, usize) {
    let guard = r.below(5);
    ((0..n + guard).map(|_| I::ix(r.below(I::MAX.min(1 << 30)))).collect(), n)
}
fn junk<T: Val>(r: &mut Rng, n: usize) -> (Vec<T>, usize) {
    let guard = r.below(5);
    ((0..n + guard).map(|_| T::special(r)).collect(), n)
}
fn kept<X: PartialEq>(cx: &mut Cx, what: &str, before: &[X], after: &[X], n: usize) {
    ck!(cx, before.len() == after.len() && before[n..] == after[n..], "{}: an element behind the output was changed", what);
    cx.count("guards", after.len() - n);
}
fn bits<T: Val>(v: &[T]) -> Vec<u128> {
    v.iter().map(|x| x.bits()).collect()
}
fn slack<I: Ix, T: Val>(r: &mut Rng, raw: &Raw<T>) -> (Vec<I>, Vec<I>, Vec<T>) {
    let (mut j, mut x) = (raw.iidx::<I>(), raw.val.clone());
    for _ in 0..r.below(4) {
        j.push(I::ix(r.below(3)));
    }
    for _ in 0..r.below(4) {
        x.push(T::gen(r));
    }
    (raw.iptr(), j, x)
}

fn scaling<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let raw = Raw::<T>::any(r, &o, big);
    let (m, n, nnz) = (raw.major, raw.minor, raw.nnz());
    cx.show(|| brief::<I, T>(&raw));
    cx.seen(raw.hash());
    let (p, j, x0) = slack::<I, T>(r, &raw);
    let zp = *r.pick(&[0usize, 0, 30]);
    let factors = |r: &mut Rng, k: usize| -> Vec<T> { (0..k + r.below(3)).map(|_| if r.below(100) < zp { T::zero() } else { T::gen(r) }).collect() };
    for by_row in [true, false] {
        let f = factors(r, if by_row { m } else { n });
        let mut x = x0.clone();
        let (pc, jc, fc) = (p.clone(), j.clone(), f.clone());
        if by_row {
            csr_scale_rows(m, n, &p, &j, &mut x, &f);
        } else {
            csr_scale_columns(m, n, &p, &j, &mut x, &f);
        }
        let what = if by_row { "csr_scale_rows" } else { "csr_scale_columns" };
        ck!(cx, p == pc && j == jc && bits(&f) == bits(&fc), "{} changed its input", what);
        kept(cx, what, &bits(&x0), &bits(&x), nnz);
        for i in 0..m {
            for k in raw.ptr[i]..raw.ptr[i + 1] {
                let w = x0[k] * f[if by_row { i } else { raw.idx[k] }];
                ck!(cx, x[k] == w, "{}: entry {} at ({}, {}) became {:?} instead of {:?}", what, k, i, raw.idx[k], x[k], w);
            }
        }
        cx.count("entries_compared", nnz);
    }
}

fn dense<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let (mut m, mut n) = dims(r, o.maxdim, big);
    while m * n > if big { 300_000 } else { 60_000 } {
        if m > n {
            m /= 2
        } else {
            n /= 2
        }
    }
    let raw = Raw::<T>::random(r, m, n, &Opt { maxnnz: o.maxnnz.min(T::TERMS - 1), ..o });
    cx.show(|| brief::<I, T>(&raw));
    cx.seen(raw.hash());
    let model = raw.model();
    let (p, j, x) = slack::<I, T>(r, &raw);
    // Rows of the dense array may be wider, and there may be more of them.
    let (gm, gn) = (r.below(3), r.below(3));
    let empty = r.chance(1, 3);
    let before: Vec<Vec<T>> = (0..m + gm).map(|_| (0..n + gn).map(|_| if empty { T::zero() } else { T::gen(r) }).collect()).collect();
    let mut b = before.clone();
    csr_todense(m, n, &p, &j, &x, &mut b);
    for s in 0..m + gm {
        for t in 0..n + gn {
            let w = if s < m && t < n { before[s][t] + model.get(s, t) } else { before[s][t] };
            ck!(cx, b[s][t] == w, "csr_todense: ({}, {}) is {:?} instead of {:?}", s, t, b[s][t], w);
        }
    }
    // Flat arrays in both orders; entries beyond the given count are not part of the matrix.
    let tr = raw.triplets(r, true);
    let (mut ri, mut ci, mut v): (Vec<I>, Vec<I>, Vec<T>) = (tr.iter().map(|e| I::ix(e.0)).collect(), tr.iter().map(|e| I::ix(e.1)).collect(), tr.iter().map(|e| e.2).collect());
    if m * n > 0 {
        for _ in 0..r.below(3) {
            ri.push(I::ix(r.below(m)));
            ci.push(I::ix(r.below(n)));
            v.push(T::gen(r));
        }
    }
    for fortran in [false, true] {
        let guard = r.below(4);
        let before: Vec<T> = (0..m * n + guard).map(|_| if empty { T::zero() } else { T::gen(r) }).collect();
        let mut b = before.clone();
        coo_todense(m, n, tr.len(), &ri, &ci, &v, &mut b, fortran);
        for s in 0..m {
            for t in 0..n {
                let k = if fortran { t * m + s } else { s * n + t };
                let w = before[k] + model.get(s, t);
                ck!(cx, b[k] == w, "coo_todense(fortran {}): ({}, {}) is {:?} instead of {:?}", fortran, s, t, b[k], w);
            }
        }
        kept(cx, "coo_todense", &before, &b, m * n);
    }
    cx.count("entries_compared", 3 * m * n);
}

fn convert<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let mut raw = Raw::<T>::any(r, &o, big);
    raw.specials(r);
    let (m, n, nnz) = (raw.major, raw.minor, raw.nnz());
    cx.show(|| brief::<I, T>(&raw));
    cx.seen(raw.hash());
    let list = raw.list();
    let (p, j, x) = slack::<I, T>(r, &raw);
    let (pc, jc, xc) = (p.clone(), j.clone(), bits(&x));
    // Pointer expansion.
    let (b0, _) = junk_ix::<I>(r, nnz);
    let mut b = b0.clone();
    expandptr(m, &p, &mut b);
    for i in 0..m {
        for k in raw.ptr[i]..raw.ptr[i + 1] {
            ck!(cx, b[k].us() == i, "expandptr: element {} is {} instead of {}", k, b[k], i);
        }
    }
    kept(cx, "expandptr", &b0, &b, nnz);
    // To coordinates.
    let (i0, j0, x0) = (junk_ix::<I>(r, nnz).0, junk_ix::<I>(r, nnz).0, junk::<T>(r, nnz).0);
    let (mut bi, mut bj, mut bx) = (i0.clone(), j0.clone(), x0.clone());
    csr_tocoo(m, n, &p, &j, &x, &mut bi, &mut bj, &mut bx);
    let mut got: List = (0..nnz).map(|k| (bi[k].us(), bj[k].us(), bx[k].bits())).collect();
    got.sort_unstable();
    cx.same_list("csr_tocoo", &list, Ok(got));
    kept(cx, "csr_tocoo rows", &i0, &bi, nnz);
    kept(cx, "csr_tocoo columns", &j0, &bj, nnz);
    kept(cx, "csr_tocoo values", &bits(&x0), &bits(&bx), nnz);
    // Coordinates to rows; the pointer array has exactly one element more than rows.
    let tr = raw.triplets(r, true);
    let (mut ri, mut ci, mut v): (Vec<I>, Vec<I>, Vec<T>) = (tr.iter().map(|e| I::ix(e.0)).collect(), tr.iter().map(|e| I::ix(e.1)).collect(), tr.iter().map(|e| e.2).collect());
    if m * n > 0 && nnz + 3 < I::MAX {
        for _ in 0..r.below(3) {
            ri.push(I::ix(r.below(m)));
            ci.push(I::ix(r.below(n)));
            v.push(T::special(r));
        }
    }
    let mut bp: Vec<I> = (0..m + 1).map(|_| I::ix(r.below(I::MAX))).collect();
    let (mut bj, mut bx) = (j0.clone(), x0.clone());
    coo_tocsr(m, n, nnz, &ri, &ci, &v, &mut bp, &mut bj, &mut bx);
    kept(cx, "coo_tocsr columns", &j0, &bj, nnz);
    kept(cx, "coo_tocsr values", &bits(&x0), &bits(&bx), nnz);
    let lines = |what: &str, rows: usize, cols: usize, p: &[I], j: &[I], x: &[T]| -> Result<List, String> {
        check_compressed(what, rows, cols, p, j, x, nnz, Len::AtLeast)?;
        let mut l = vec![];
        for i in 0..rows {
            for k in p[i].us()..p[i + 1].us() {
                l.push((i, j[k].us(), x[k].bits()));
            }
        }
        l.sort_unstable();
        Ok(l)
    };
    cx.same_list("coo_tocsr", &list, lines("coo_tocsr", m, n, &bp, &bj, &bx));
    // Rows to columns and back; the result is sorted within every line.
    let (i0, x0) = (junk_ix::<I>(r, nnz).0, junk::<T>(r, nnz).0);
    let mut bp: Vec<I> = (0..n + 1).map(|_| I::ix(r.below(I::MAX))).collect();
    let (mut bi, mut bx) = (i0.clone(), x0.clone());
    csr_tocsc(m, n, &p, &j, &x, &mut bp, &mut bi, &mut bx);
    kept(cx, "csr_tocsc rows", &i0, &bi, nnz);
    kept(cx, "csr_tocsc values", &bits(&x0), &bits(&bx), nnz);
    cx.same_list("csr_tocsc", &flip(&list), lines("csr_tocsc", n, m, &bp, &bi, &bx));
    for t in 0..n {
        let l = &bi[bp[t].us()..bp[t + 1].us()];
        ck!(cx, l.windows(2).all(|w| w[0] <= w[1]), "csr_tocsc: column {} is not sorted", t);
    }
    let (j0, x0) = (junk_ix::<I>(r, nnz).0, junk::<T>(r, nnz).0);
    let mut cp: Vec<I> = (0..m + 1).map(|_| I::ix(r.below(I::MAX))).collect();
    let (mut cj, mut cx2) = (j0.clone(), x0.clone());
    csc_tocsr(m, n, &bp, &bi, &bx, &mut cp, &mut cj, &mut cx2);
    kept(cx, "csc_tocsr columns", &j0, &cj, nnz);
    kept(cx, "csc_tocsr values", &bits(&x0), &bits(&cx2), nnz);
    cx.same_list("csc_tocsr", &list, lines("csc_tocsr", m, n, &cp, &cj, &cx2));
    for s in 0..m {
        let l = &cj[cp[s].us()..cp[s + 1].us()];
        ck!(cx, l.windows(2).all(|w| w[0] <= w[1]), "csc_tocsr: row {} is not sorted", s);
    }
    ck!(cx, p == pc && j == jc && bits(&x) == xc, "a conversion kernel changed its input");
}

/// Sorting, merging and removing zeros in place leaves everything outside the matrix alone.
fn in_place<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let raw = Raw::<T>::any(r, &o, big);
    in_place_of::<I, T>(cx, r, raw)
}
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let raw = Raw::<T>::far::<I>(r, &Opt::of::<I, T>());
    in_place_of::<I, T>(cx, r, raw)
}
cases!(far_case = far far);
fn in_place_of<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, raw: Raw<T>) {
    let (m, n, nnz) = (raw.major, raw.minor, raw.nnz());
    cx.show(|| brief::<I, T>(&raw));
    cx.seen(raw.hash());
    let (mut p, mut j, mut x) = slack::<I, T>(r, &raw);
    let (p0, j0, x0) = (p.clone(), j.clone(), bits(&x));
    csr_sort_indices(m, &p, &mut j, &mut x);
    kept(cx, "csr_sort_indices columns", &j0, &j, nnz);
    kept(cx, "csr_sort_indices values", &x0, &bits(&x), nnz);
    ck!(cx, p == p0, "csr_sort_indices changed the pointers");
    let mut got = vec![];
    for i in 0..m {
        for k in raw.ptr[i]..raw.ptr[i + 1] {
            ck!(cx, k == raw.ptr[i] || j[k - 1] <= j[k], "csr_sort_indices: row {} is not sorted", i);
            got.push((i, j[k].us(), x[k].bits()));
        }
    }
    got.sort_unstable();
    cx.same_list("csr_sort_indices", &raw.list(), Ok(got));
    csr_sum_duplicates(m, n, &mut p, &mut j, &mut x);
    kept(cx, "csr_sum_duplicates columns", &j0, &j, nnz);
    kept(cx, "csr_sum_duplicates values", &x0, &bits(&x), nnz);
    let model = raw.model();
    let after = p[m].us();
    cx.ok(check_compressed("csr_sum_duplicates", m, n, &p, &j, &x, after, Len::AtLeast));
    ck!(cx, after == model.occupied(), "csr_sum_duplicates left {} entries for {} positions", after, model.occupied());
    let mut w = Model::new(m, n);
    for i in 0..m {
        for k in p[i].us()..p[i + 1].us() {
            ck!(cx, k == p[i].us() || j[k - 1] < j[k], "csr_sum_duplicates: row {} is not strictly increasing", i);
            w.add(i, j[k].us(), x[k]);
        }
    }
    cx.same("csr_sum_duplicates", &model, &w);
    csr_eliminate_zeros(m, n, &mut p, &mut j, &mut x);
    kept(cx, "csr_eliminate_zeros columns", &j0, &j, nnz);
    kept(cx, "csr_eliminate_zeros values", &x0, &bits(&x), nnz);
    let last = p[m].us();
    cx.ok(check_compressed("csr_eliminate_zeros", m, n, &p, &j, &x, last, Len::AtLeast));
    ck!(cx, last == model.nonzeros(), "csr_eliminate_zeros left {} entries for {} non-zeros", last, model.nonzeros());
    let mut w = Model::new(m, n);
    for i in 0..m {
        for k in p[i].us()..p[i + 1].us() {
            w.add(i, j[k].us(), x[k]);
        }
    }
    cx.same("csr_eliminate_zeros", &model, &w);
}

cases!(sc = any scaling);
cases!(sci = index scaling);
cases!(scb = big scaling);
cases!(de = any dense);
cases!(dei = index dense);
cases!(deb = big dense);
cases!(co = any convert);
cases!(coi = index convert);
cases!(cob = big convert);
cases!(ip = any in_place);
cases!(ipi = index in_place);
cases!(ipb = big in_place);

fn main() {
    run_scaled(&[
        Family { name: "scaling", quick: 20_000, thorough: 600_000, f: sc },
        Family { name: "scaling_index", quick: 4_000, thorough: 100_000, f: sci },
        Family { name: "scaling_big", quick: 800, thorough: 30_000, f: scb },
        Family { name: "dense", quick: 16_000, thorough: 500_000, f: de },
        Family { name: "dense_index", quick: 4_000, thorough: 100_000, f: dei },
        Family { name: "dense_big", quick: 600, thorough: 20_000, f: deb },
        Family { name: "convert", quick: 30_000, thorough: 800_000, f: co },
        Family { name: "convert_index", quick: 6_000, thorough: 150_000, f: coi },
        Family { name: "convert_big", quick: 800, thorough: 30_000, f: cob },
        Family { name: "in_place", quick: 24_000, thorough: 600_000, f: ip },
        Family { name: "in_place_index", quick: 4_000, thorough: 100_000, f: ipi },
        Family { name: "in_place_far", quick: 4_000, thorough: 150_000, f: far_case },
        Family { name: "in_place_big", quick: 800, thorough: 30_000, f: ipb },
    ])
}
