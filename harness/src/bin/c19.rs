//! C19: no undefined behaviour, whatever the arrays hold.
//!
//! Every public function and method is called with valid, slightly damaged and wild arguments; a
//! result, an error and a panic are all fine. The judges are AddressSanitizer, Miri and the
//! debug assertions of unchecked operations: any of them ends the process, which the driver reports.
//! Everything that a call returns or writes is read back, so that uninitialised memory is touched.
use harness::*;
use num_traits::NumCast;
use sparsetools::csc::CCSC;
use sparsetools::csr::CCSR;
use sparsetools::graph::*;
use sparsetools::*;
use std::hint::black_box;

fn fit<I: Ix>(v: i128) -> I {
    <I as NumCast>::from(v).unwrap_or_else(I::max_value)
}

/// An index that is mostly meant to be below `n`.
fn wild<I: Ix>(r: &mut Rng, n: usize) -> I {
    match r.below(14) {
        0 => fit(n as i128),
        1 => fit(n as i128 + 1 + r.below(4) as i128),
        2 => fit(-1 - r.below(3) as i128),
        3 => I::max_value(),
        4 => fit(I::max_value().to_i128().unwrap_or(i128::MAX) - r.below(4) as i128),
        5 => I::min_value(),
        6 => fit(n as i128 * 2 + r.below(600) as i128),
        _ => fit(r.below(n.max(1)) as i128),
    }
}

/// The same for a pointer, without values that only ask for gigabytes of memory.
fn wild_ptr<I: Ix>(r: &mut Rng, n: usize) -> I {
    let p: I = wild(r, n);
    let v = p.to_i128().unwrap_or(i128::MAX);
    if v > n as i128 * 2 + 700 && v < isize::MAX as i128 / 2 {
        fit(n as i128 + 1 + r.below(500) as i128)
    } else {
        p
    }
}

/// A size close to `n`.
fn near(r: &mut Rng, n: usize) -> usize {
    match r.below(10) {
        0 => n + r.range(1, 3),
        1 => n.saturating_sub(r.range(1, 3)),
        2 => r.below(3),
        3 => n * 2 + r.below(40),
        _ => n,
    }
}

struct Arrays<I, T> {
    m: usize,
    n: usize,
    p: Vec<I>,
    j: Vec<I>,
    x: Vec<T>,
    i: Vec<I>,
}

fn resize<X: Copy>(r: &mut Rng, v: &mut Vec<X>, mut f: impl FnMut(&mut Rng) -> X) {
    let k = near(r, v.len());
    v.truncate(k);
    while v.len() < k {
        v.push(f(r))
    }
}

/// Starts from a valid matrix and damages it, or invents arrays.
fn arrays<I: Ix, T: Val>(r: &mut Rng, m: usize, n: usize, level: usize) -> Arrays<I, T> {
    let o = Opt::of::<I, T>().nnz(if cfg!(miri) { 8 } else { 40 });
    let raw = Raw::<T>::random(r, m, n, &o);
    let t = raw.triplets(r, false);
    let mut a = Arrays { m, n, p: raw.iptr::<I>(), j: raw.iidx::<I>(), x: raw.val.clone(), i: t.iter().map(|e| I::ix(e.0)).collect() };
    let nnz = a.x.len();
    for _ in 0..[0, 1, 2, 12][level] {
        match r.below(12) {
            0 | 1 if nnz > 0 && !a.j.is_empty() => {
                let k = r.below(a.j.len());
                a.j[k] = wild(r, n)
            }
            2 | 3 if !a.p.is_empty() => {
                let k = r.below(a.p.len());
                a.p[k] = wild_ptr(r, nnz)
            }
            4 if a.p.len() > 1 => {
                let (k, l) = (r.below(a.p.len()), r.below(a.p.len()));
                a.p.swap(k, l)
            }
            5 if !a.i.is_empty() => {
                let k = r.below(a.i.len());
                a.i[k] = wild(r, m)
            }
            6 => resize(r, &mut a.p, |r| wild_ptr(r, nnz)),
            7 => resize(r, &mut a.j, |r| wild(r, n)),
            8 => resize(r, &mut a.i, |r| wild(r, m)),
            9 => resize(r, &mut a.x, |r| T::gen(r)),
            10 => a.m = near(r, a.m),
            11 => a.n = near(r, a.n),
            _ => {}
        }
    }
    a
}

fn h<I: Ix>(v: &[I]) {
    black_box(v.iter().filter(|x| **x == I::one()).count());
}
fn hv<T: Val>(v: &[T]) {
    black_box(v.iter().filter(|x| **x == T::zero()).count());
}
fn hd<T: Val>(v: &[Vec<T>]) {
    v.iter().for_each(|x| hv(x))
}
fn hr<I: Ix, T: Val>(a: &CSR<I, T>) {
    black_box((a.rows(), a.cols()));
    h(a.rowptr());
    h(a.colidx());
    hv(a.values());
}
fn hc<I: Ix, T: Val>(a: &CSC<I, T>) {
    black_box((a.rows(), a.cols()));
    h(a.colptr());
    h(a.rowidx());
    hv(a.values());
}
fn ho<I: Ix, T: Val>(a: &Coo<I, T>) {
    black_box((a.rows(), a.cols()));
    h(a.rowidx());
    h(a.colidx());
    hv(a.values());
}

/// Makes one call; all three ways to end are counted.
fn call<R>(cx: &mut Cx, f: impl FnOnce() -> R) -> Option<R> {
    match caught(f) {
        Ok(x) => {
            cx.count("calls_returned", 1);
            Some(x)
        }
        Err(_) => {
            cx.count("calls_panicked", 1);
            None
        }
    }
}

fn level(r: &mut Rng) -> usize {
    *r.pick(&[0, 1, 1, 2, 2, 2, 3])
}
fn dim(r: &mut Rng) -> usize {
    if cfg!(miri) {
        return *r.pick(&[0, 1, 2, 2, 3, 3, 4, 5]);
    }
    *r.pick(&[0, 1, 1, 2, 3, 4, 5, 7, 9, 17])
}

fn out<I: Ix, T: Val>(r: &mut Rng, m: usize, nnz: usize) -> (Vec<I>, Vec<I>, Vec<T>) {
    let (a, b, c) = (near(r, m + 1), near(r, nnz), near(r, nnz));
    (vec![I::zero(); a], vec![I::zero(); b], vec![T::zero(); c])
}

/// The kernels, on arrays of any content and length.
fn kernels<I: Ix, T: Val + PartialOrd>(cx: &mut Cx, r: &mut Rng) {
    let (m, n, l) = (dim(r), dim(r), level(r));
    let a = arrays::<I, T>(r, m, n, l);
    let lb = level(r);
    let b = arrays::<I, T>(r, m, n, lb);
    let w = dim(r);
    let lc = level(r);
    let c = arrays::<I, T>(r, n, w, lc);
    cx.show(|| format!("{}x{} p={:?} j={:?} {} values; {}x{} p={:?} j={:?}", a.m, a.n, a.p, a.j, a.x.len(), b.m, b.n, b.p, b.j));
    cx.seen(rng::mix(r.0));
    let (m, n) = (a.m, a.n);
    let nnz = a.j.len();
    let vl = near(r, n.max(m));
    let v: Vec<T> = (0..vl).map(|_| T::gen(r)).collect();
    let yl = near(r, n.max(m));
    let mut y: Vec<T> = vec![T::zero(); yl];
    let k = r.range(0, m + n + 2) as isize - (m as isize) - 1;
    for op in 0..40 {
        let (lines, room) = (if r.chance(1, 2) { m } else { n }, nnz + if r.chance(1, 2) { b.j.len() } else { 0 });
        let (mut bp, mut bj, mut bx) = out::<I, T>(r, lines, room);
        let mut bools = vec![false; bx.len()];
        let (mut aj, mut ax, mut ap) = (a.j.clone(), a.x.clone(), a.p.clone());
        let rr = &mut r.clone();
        call(cx, || match op {
            0 => csr_diagonal(k, m, n, &a.p, &a.j, &a.x, &mut y),
            1 => expandptr(m, &a.p, &mut bj),
            2 => csr_scale_rows(m, n, &a.p, &a.j, &mut ax, &v),
            3 => csr_scale_columns(m, n, &a.p, &a.j, &mut ax, &v),
            4 => {
                let mut d = vec![vec![T::zero(); near(rr, n)]; near(rr, m)];
                csr_todense(m, n, &a.p, &a.j, &a.x, &mut d);
                hd(&d)
            }
            5 => drop(black_box(csr_has_sorted_indices(m, &a.p, &a.j))),
            6 => drop(black_box(csr_has_canonical_format(m, &a.p, &a.j))),
            7 => csr_sort_indices(m, &a.p, &mut aj, &mut ax),
            8 => csr_tocsc(m, n, &a.p, &a.j, &a.x, &mut bp, &mut bj, &mut bx),
            9 => drop(black_box(csr_matmat_maxnnz(m, w, &a.p, &a.j, &c.p, &c.j))),
            10 => {
                let (mut cp, mut cj, mut cxx) = out::<I, T>(rr, m, 60);
                csr_matmat(m, w, &a.p, &a.j, &a.x, &c.p, &c.j, &c.x, &mut cp, &mut cj, &mut cxx);
                h(&cp);
                h(&cj);
                hv(&cxx)
            }
            11 => csr_binop_csr_general(m, n, &a.p, &a.j, &a.x, &b.p, &b.j, &b.x, &mut bp, &mut bj, &mut bx, |a, b| a + b),
            12 => csr_binop_csr_canonical(m, n, &a.p, &a.j, &a.x, &b.p, &b.j, &b.x, &mut bp, &mut bj, &mut bx, |a, b| a + b),
            13 => csr_ne_csr(m, n, &a.p, &a.j, &a.x, &b.p, &b.j, &b.x, &mut bp, &mut bj, &mut bools),
            14 => csr_lt_csr(m, n, &a.p, &a.j, &a.x, &b.p, &b.j, &b.x, &mut bp, &mut bj, &mut bools),
            15 => csr_ge_csr(m, n, &a.p, &a.j, &a.x, &b.p, &b.j, &b.x, &mut bp, &mut bj, &mut bools),
            16 => csr_mul_csr(m, n, &a.p, &a.j, &a.x, &b.p, &b.j, &b.x, &mut bp, &mut bj, &mut bx),
            17 => csr_add_csr(m, n, &a.p, &a.j, &a.x, &b.p, &b.j, &b.x, &mut bp, &mut bj, &mut bx),
            18 => csr_max_csr(m, n, &a.p, &a.j, &a.x, &b.p, &b.j, &b.x, &mut bp, &mut bj, &mut bx),
            19 => csr_sum_duplicates(m, n, &mut ap, &mut aj, &mut ax),
            20 => csr_eliminate_zeros(m, n, &mut ap, &mut aj, &mut ax),
            21 => csr_matvec(m, n, &a.p, &a.j, &a.x, &v, &mut y),
            22 => csr_matvecs(m, n, rr.below(4), &a.p, &a.j, &a.x, &v, &mut y),
            23 => {
                let ri: Vec<I> = (0..rr.below(6)).map(|_| wild(rr, m)).collect();
                let ci: Vec<I> = (0..rr.below(6)).map(|_| wild(rr, n)).collect();
                csr_select(m, n, &a.p, &a.j, &a.x, &ri, &ci, &mut bp, &mut bj, &mut bx)
            }
            24 => get_csr_submatrix(m, n, &a.p, &a.j, &a.x, wild(rr, m), fit(rr.below(m + 3) as i128), wild(rr, n), wild(rr, n), &mut bp, &mut bj, &mut bx),
            25 => {
                let rows: Vec<usize> = (0..rr.below(6)).map(|_| near(rr, rr.clone().below(m.max(1)))).collect();
                csr_row_index(near(rr, rows.len()), &rows, &a.p, &a.j, &a.x, &mut bj, &mut bx)
            }
            26 => csr_row_slice(rr.below(m + 2), rr.below(m + 3), 1 + rr.below(3), &a.p, &a.j, &a.x, &mut bj, &mut bx),
            27 | 28 => {
                let cols: Vec<usize> = (0..rr.below(6)).map(|_| near(rr, rr.clone().below(n.max(1)))).collect();
                let mut off = vec![I::zero(); near(rr, n)];
                csr_column_index1(near(rr, cols.len()), &cols, m, n, &a.p, &a.j, &mut off, &mut bp);
                h(&off);
                let order: Vec<I> = (0..near(rr, cols.len())).map(|_| wild(rr, cols.len())).collect();
                csr_column_index2(&order, &off, near(rr, nnz), &a.j, &a.x, &mut bj, &mut bx)
            }
            29 => drop(black_box(csr_count_diagonals(m, &a.p, &a.j))),
            30 => {
                let mut ai = vec![I::zero(); near(rr, nnz)];
                csr_tocoo(m, n, &a.p, &a.j, &a.x, &mut ai, &mut bj, &mut bx);
                h(&ai)
            }
            31 => csc_matvec(n, m, &a.p, &a.j, &a.x, &v, &mut y),
            32 => csc_matvecs(n, m, rr.below(4), &a.p, &a.j, &a.x, &v, &mut y),
            33 => csc_diagonal(k, n, m, &a.p, &a.j, &a.x, &mut y),
            34 => csc_tocsr(n, m, &a.p, &a.j, &a.x, &mut bp, &mut bj, &mut bx),
            35 => drop(black_box(csc_matmat_maxnnz(w, m, &c.p, &c.j, &a.p, &a.j))),
            36 => {
                let (mut cp, mut cj, mut cxx) = out::<I, T>(rr, n, 60);
                csc_matmat(w, m, &c.p, &c.j, &c.x, &a.p, &a.j, &a.x, &mut cp, &mut cj, &mut cxx);
                h(&cp);
                h(&cj);
                hv(&cxx)
            }
            37 => coo_tocsr(m, n, near(rr, nnz), &a.i, &a.j, &a.x, &mut bp, &mut bj, &mut bx),
            38 => {
                let mut d = vec![T::zero(); near(rr, m * n)];
                coo_todense(m, n, near(rr, nnz), &a.i, &a.j, &a.x, &mut d, rr.chance(1, 2));
                hv(&d)
            }
            _ => coo_matvec(near(rr, nnz), &a.i, &a.j, &a.x, &v, &mut y),
        });
        r.next();
        h(&bp);
        h(&bj);
        hv(&bx);
        hv(&ax);
        h(&aj);
        h(&ap);
        hv(&y);
        black_box(bools.iter().filter(|x| **x).count());
    }
}

fn k0(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 6 {
        0 => kernels::<usize, i32>(cx, r),
        1 => kernels::<i32, f64>(cx, r),
        2 => kernels::<u8, i128>(cx, r),
        3 => kernels::<i64, u16>(cx, r),
        4 => kernels::<u32, f32>(cx, r),
        _ => kernels::<isize, f64>(cx, r),
    }
}

fn csr_of<I: Ix, T: Val>(cx: &mut Cx, a: Arrays<I, T>) -> Option<CSR<I, T>> {
    let a = call(cx, || CSR::new(a.m, a.n, a.p, a.j, a.x))?.ok();
    cx.count("matrices_accepted", a.is_some() as usize);
    a
}
fn csc_of<I: Ix, T: Val>(cx: &mut Cx, a: Arrays<I, T>) -> Option<CSC<I, T>> {
    let a = call(cx, || CSC::new(a.n, a.m, a.j, a.p, a.x))?.ok();
    cx.count("matrices_accepted", a.is_some() as usize);
    a
}
fn coo_of<I: Ix, T: Val>(cx: &mut Cx, a: Arrays<I, T>) -> Option<Coo<I, T>> {
    let a = call(cx, || Coo::new(a.m, a.n, a.i, a.j, a.x))?.ok();
    cx.count("matrices_accepted", a.is_some() as usize);
    a
}

/// Matrices whose arrays got past the constructors.
fn methods<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng) {
    let (m, n) = (dim(r), if r.chance(1, 3) { dim(r) } else { dim(r).max(1) });
    let (m, n) = if r.chance(1, 3) { (m, m) } else { (m, n) };
    let mut lv = || level(&mut *r);
    let (l, l2) = (lv(), lv());
    let (ar, ar2) = (arrays::<I, T>(r, m, n, l), arrays::<I, T>(r, m, n, l2));
    let ac = arrays::<I, T>(r, n, m, l);
    let ac2 = arrays::<I, T>(r, n, m, l2);
    let ax = arrays::<I, T>(r, n, m, l2);
    let (ao, ao2) = (arrays::<I, T>(r, m, n, l), arrays::<I, T>(r, m, n, l2));
    cx.show(|| format!("{}x{} p={:?} j={:?} {} values", ar.m, ar.n, ar.p, ar.j, ar.x.len()));
    cx.seen(rng::mix(r.0));
    let vl = near(r, n.max(m));
    let v: Vec<T> = (0..vl).map(|_| T::gen(r)).collect();
    let ri: Vec<I> = (0..r.below(6)).map(|_| wild(r, m)).collect();
    let ci: Vec<I> = (0..r.below(6)).map(|_| wild(r, n)).collect();
    let (wi, wj) = (wild::<I>(r, m), wild::<I>(r, n));
    if let Some(mut a) = csr_of(cx, ar) {
        call(cx, || hc(&a.to_csc()));
        call(cx, || ho(&a.to_coo()));
        call(cx, || hc(&a.t()));
        call(cx, || hc(&a.clone().transpose()));
        call(cx, || hv(&a.diagonal()));
        call(cx, || hv(&a.mat_vec(&v).unwrap()));
        call(cx, || hr(&a.select(Some(&ri), Some(&ci)).unwrap()));
        call(cx, || hr(&a.select(Some(&ri), None).unwrap()));
        call(cx, || hr(&a.select(None, Some(&ci)).unwrap()));
        call(cx, || black_box(a.get(wi, wj) == T::zero()));
        call(cx, || black_box(a.to_string().len()));
        call(cx, || black_box(a.to_table().len()));
        call(cx, || black_box((a.has_canonical_format(), a.has_sorted_indexes(), a.nnz())));
        call(cx, || hr(&-a.clone()));
        call(cx, || hr(&(&a * T::one())));
        call(cx, || black_box(a.connected_components::<i32>().map(|x| x.1.len())));
        for directed in [true, false] {
            for c in [Connection::Weak, Connection::Strong] {
                call(cx, || black_box(connected_components(&a, directed, c).map(|x| x.1)));
            }
            let s = near(r, m);
            call(cx, || black_box(depth_first_order(&a, s, directed).map(|x| x.1)));
            call(cx, || black_box(depth_first_order(&a, 0, directed).map(|x| x.1)));
        }
        if let Some(b) = csr_of(cx, ar2) {
            call(cx, || hr(&(&a + &b)));
            call(cx, || hr(&(&a - &b)));
            call(cx, || hr(&CSR::h_stack(&a, &b).unwrap()));
        }
        if let Some(b) = csr_of(cx, ax) {
            call(cx, || hr(&a.mat_mat(&b).unwrap()));
            call(cx, || hr(&(&b * &a)));
        }
        let mut b = a.clone();
        call(cx, || b.sort_indexes());
        hr(&b);
        call(cx, || b.sum_duplicates().unwrap());
        hr(&b);
        call(cx, || a.sum_duplicates().unwrap());
        hr(&a);
        call(cx, || a.sort_indexes());
        hr(&a);
    }
    if let Some(mut a) = csc_of(cx, ac) {
        call(cx, || hr(&a.to_csr()));
        call(cx, || ho(&a.to_coo()));
        call(cx, || hr(&a.t()));
        call(cx, || hr(&a.transpose()));
        call(cx, || hd(&a.to_dense()));
        call(cx, || hv(&a.diagonal()));
        call(cx, || hv(&a.mat_vec(&v).unwrap()));
        call(cx, || hc(&a.select(Some(&ri), Some(&ci)).unwrap()));
        call(cx, || hc(&a.select(Some(&ri), None).unwrap()));
        call(cx, || hc(&a.select(None, Some(&ci)).unwrap()));
        call(cx, || black_box(a.to_string().len()));
        call(cx, || black_box((a.has_canonical_format(), a.has_sorted_indexes(), a.nnz())));
        call(cx, || hc(&(&a * T::one())));
        if let Some(b) = csc_of(cx, ac2) {
            call(cx, || hc(&(&a + &b)));
            call(cx, || hc(&(&a - &b)));
            call(cx, || hc(&a.add(&b).unwrap()));
            call(cx, || hc(&a.subtract(&b).unwrap()));
            call(cx, || hc(&a.mat_mat(&b).unwrap()));
            call(cx, || hc(&CSC::compose(&a, &b, &b, &a).unwrap()));
        }
        call(cx, || a.sort_indexes());
        hc(&a);
        call(cx, || a.prune().unwrap());
        hc(&a);
        call(cx, || a.sum_duplicates());
        hc(&a);
    }
    if let Some(mut a) = coo_of(cx, ao) {
        call(cx, || hr(&a.to_csr()));
        call(cx, || hc(&a.to_csc()));
        call(cx, || ho(&a.t()));
        call(cx, || hd(&a.to_dense()));
        call(cx, || hv(&a.diagonal()));
        call(cx, || ho(&a.upper(wj)));
        call(cx, || black_box(a.to_string().len()));
        if let Some(b) = coo_of(cx, ao2) {
            call(cx, || hr(&(&a + &b)));
            call(cx, || ho(&Coo::h_stack(&a, &b).unwrap()));
            call(cx, || ho(&Coo::v_stack(&a, &b).unwrap()));
            call(cx, || ho(&Coo::h_stack3(&a, &b, &a).unwrap()));
            call(cx, || ho(&Coo::v_stack3(&b, &a, &b).unwrap()));
            call(cx, || ho(&Coo::compose([[&a, &b], [&b, &a]]).unwrap()));
            call(cx, || ho(&Coo::compose3([[&a, &b, &a], [&b, &a, &b], [&b, &b, &a]]).unwrap()));
        }
        call(cx, || a.push(wi, wj, T::one()));
        call(cx, || a.extend(&ri, &ci, &v));
        ho(&a);
        call(cx, || hr(&a.to_csr()));
        call(cx, || ho(&a.transpose()));
    }
    // Dense input, ragged or not, and dictionaries.
    let dense: Vec<Vec<T>> = (0..dim(r)).map(|_| (0..near(r, n)).map(|_| if r.chance(1, 2) { T::zero() } else { T::gen(r) }).collect()).collect();
    call(cx, || hr(&CSR::<I, T>::from_dense(&dense)));
    call(cx, || hc(&CSC::<I, T>::from_dense(&dense)));
    call(cx, || ho(&Coo::<I, T>::from_dense(&dense)));
    let mut d = DoK::<I, T>::new(m, n);
    for _ in 0..6 {
        let (i, j) = (wild::<I>(r, m), wild::<I>(r, n));
        let x = T::gen(r);
        match r.below(3) {
            0 => drop(call(cx, || d.set(i, j, x))),
            1 => drop(call(cx, || d.add(i, j, x))),
            _ => drop(call(cx, || d.sub(i, j, x))),
        }
        call(cx, || black_box(d.get(j, i) == T::zero()));
    }
    call(cx, || hr(&d.to_csr()));
    call(cx, || hd(&d.to_dense()));
    call(cx, || black_box(d.to_string().len()));
}

fn m0(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 6 {
        0 => methods::<usize, i32>(cx, r),
        1 => methods::<i32, f64>(cx, r),
        2 => methods::<u8, i128>(cx, r),
        3 => methods::<i64, Complex64>(cx, r),
        4 => methods::<u32, f32>(cx, r),
        _ => methods::<isize, f64>(cx, r),
    }
}

/// Complex parts and graph kernels.
fn rest(cx: &mut Cx, r: &mut Rng, _: u64) {
    let (m, n, l) = (dim(r), dim(r), level(r));
    let a = arrays::<i32, Complex64>(r, m, n, l);
    let b = arrays::<i32, f64>(r, m, m, l);
    let (a2, a3) = (arrays::<i32, Complex64>(r, m, n, l), arrays::<i32, Complex64>(r, m, n, l));
    cx.show(|| format!("{}x{} p={:?} j={:?} {} values", a.m, a.n, a.p, a.j, a.x.len()));
    cx.seen(rng::mix(r.0));
    if let Some(a) = csr_of(cx, a) {
        call(cx, || hr(&CCSR::conj(&a)));
        call(cx, || hr::<i32, f64>(&CCSR::real(&a)));
        call(cx, || hr::<i32, f64>(&CCSR::imag(&a)));
        call(cx, || hc(&CCSR::h(&a)));
        call(cx, || black_box(a.to_table().len()));
    }
    if let Some(a) = csc_of(cx, a2) {
        call(cx, || hc(&CCSC::conj(&a)));
        call(cx, || hc::<i32, f64>(&CCSC::real(&a)));
        call(cx, || hc::<i32, f64>(&CCSC::imag(&a)));
        call(cx, || hr(&CCSC::h(&a)));
    }
    if let Some(a) = coo_of(cx, a3) {
        call(cx, || ho(&sparsetools::coo::CCoo::<i32, f64>::conj(&a)));
        call(cx, || ho(&sparsetools::coo::CCoo::<i32, f64>::real(&a)));
        call(cx, || ho(&sparsetools::coo::CCoo::<i32, f64>::h(&a)));
    }
    let mut flag = vec![0i32; near(r, m)];
    let nn = near(r, m);
    call(cx, || black_box(cs_graph_components::<i32, f64, i32>(nn, &b.p, &b.j, &mut flag).ok()));
    h(&flag);
    let mut small = vec![0i8; m];
    call(cx, || black_box(cs_graph_components::<i32, f64, i8>(m, &b.p, &b.j, &mut small).ok()));
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "kernels", quick: 40_000, thorough: 1_500_000, f: k0 },
        Family { name: "methods", quick: 40_000, thorough: 1_500_000, f: m0 },
        Family { name: "rest", quick: 20_000, thorough: 500_000, f: rest },
    ]
}

pub fn main() {
    run(&families())
}
