//! C12: requests that do not fit are refused and change nothing.
use harness::*;
use sparsetools::graph::{connected_components, depth_first_order, Connection};

/// A shape different from (m, n) in the way that matters: rows, columns, or both.
fn other(r: &mut Rng, m: usize, n: usize, max: usize) -> Option<(usize, usize)> {
    for _ in 0..20 {
        let (a, b) = match r.below(9) {
            0 => (n, m),
            1 => (m + 1, n),
            2 => (m, n + 1),
            3 => (m.saturating_sub(1), n),
            4 => (m, n.saturating_sub(1)),
            5 => (m * n, 1),
            6 => (1, m * n),
            7 => (0, 0),
            _ => (r.range(0, 12), r.range(0, 12)),
        };
        let (a, b) = (a.min(max).min(600), b.min(max).min(600));
        if (a, b) != (m, n) {
            return Some((a, b));
        }
    }
    None
}

fn refused(cx: &mut Cx, what: &str, how: Result<bool, String>) {
    // Ok(true): a result was returned. Ok(false): an error. Err: a panic.
    match how {
        Ok(true) => cx.fail(format!("{} was accepted", what)),
        Ok(false) => cx.count("errors_returned", 1),
        Err(_) => cx.count("panics_seen", 1),
    }
}
/// Functions that can return an error must do so.
fn errs(cx: &mut Cx, what: &str, how: Result<bool, String>) {
    if let Err(p) = &how {
        cx.fail(format!("{} panicked instead of returning an error: {}", what, p));
    }
    refused(cx, what, how);
}

fn shapes<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng, _big: bool) {
    let o = Opt::of::<I, T>().nnz((I::MAX / 9).min(T::PRODS / 4).min(400)).dim(I::MAX / 3);
    let x = Raw::<T>::any(r, &o, false);
    let (m, n) = (x.major, x.minor);
    let (a, p, k) = (x.csr::<I>(r, true), x.csc::<I>(r, true), x.coo::<I>(r));
    let sa = (snap_csr(&a), snap_csc(&p), snap_coo(&k));
    cx.show(|| brief::<I, T>(&x));
    cx.seen(x.hash());
    if let Some((m2, n2)) = other(r, m, n, o.maxdim) {
        let y = if m2 >= m && n2 >= n && m * n > 0 && r.chance(1, 2) {
            // The same entries under another shape.
            let mut y = x.clone();
            y.ptr.resize(m2 + 1, x.nnz());
            y.major = m2;
            y.minor = n2;
            y
        } else {
            Raw::<T>::random(r, m2, n2, &o)
        };
        let (b, q, l) = (y.csr::<I>(r, true), y.csc::<I>(r, true), y.coo::<I>(r));
        let sb = (snap_csr(&b), snap_csc(&q), snap_coo(&l));
        let w = |s: &str| format!("{} of {}x{} and {}x{}", s, m, n, m2, n2);
        refused(cx, &w("&CSR + &CSR"), caught(|| { let _ = &a + &b; true }));
        refused(cx, &w("&CSR - &CSR"), caught(|| { let _ = &a - &b; true }));
        refused(cx, &w("&CSC + &CSC (transposed)"), caught(|| { let _ = &p + &q; true }));
        refused(cx, &w("&CSC - &CSC (transposed)"), caught(|| { let _ = &p - &q; true }));
        refused(cx, &w("&Coo + &Coo"), caught(|| { let _ = &k + &l; true }));
        match r.below(3) {
            0 => {
                refused(cx, &w("CSR + CSR"), caught(|| { let _ = a.clone() + b.clone(); true }));
                refused(cx, &w("CSR - CSR"), caught(|| { let _ = a.clone() - b.clone(); true }));
                refused(cx, &w("CSC + CSC (transposed)"), caught(|| { let _ = clone_csc(&p) + clone_csc(&q); true }));
                refused(cx, &w("CSC - CSC (transposed)"), caught(|| { let _ = clone_csc(&p) - clone_csc(&q); true }));
                refused(cx, &w("Coo + Coo"), caught(|| { let _ = k.clone() + l.clone(); true }));
            }
            1 => {
                refused(cx, &w("CSR + &CSR"), caught(|| { let _ = a.clone() + &b; true }));
                refused(cx, &w("CSR - &CSR"), caught(|| { let _ = a.clone() - &b; true }));
                refused(cx, &w("CSC + &CSC (transposed)"), caught(|| { let _ = clone_csc(&p) + &q; true }));
                refused(cx, &w("CSC - &CSC (transposed)"), caught(|| { let _ = clone_csc(&p) - &q; true }));
                refused(cx, &w("Coo + &Coo"), caught(|| { let _ = k.clone() + &l; true }));
            }
            _ => {
                refused(cx, &w("&CSR + CSR"), caught(|| { let _ = &a + b.clone(); true }));
                refused(cx, &w("&CSR - CSR"), caught(|| { let _ = &a - b.clone(); true }));
                refused(cx, &w("&CSC + CSC (transposed)"), caught(|| { let _ = &p + clone_csc(&q); true }));
                refused(cx, &w("&CSC - CSC (transposed)"), caught(|| { let _ = &p - clone_csc(&q); true }));
                refused(cx, &w("&Coo + Coo"), caught(|| { let _ = &k + l.clone(); true }));
            }
        }
        errs(cx, &w("CSC::add (transposed)"), caught(|| p.add(&q).is_ok()));
        errs(cx, &w("CSC::subtract (transposed)"), caught(|| p.subtract(&q).is_ok()));
        if n != m2 {
            errs(cx, &w("CSR::mat_mat"), caught(|| a.mat_mat(&b).is_ok()));
            refused(cx, &w("&CSR * &CSR"), caught(|| { let _ = &a * &b; true }));
            refused(cx, &w("CSR * CSR"), caught(|| { let _ = a.clone() * b.clone(); true }));
            // The transposes multiply in the other order.
            errs(cx, &w("CSC::mat_mat (transposed, swapped)"), caught(|| q.mat_mat(&p).is_ok()));
            refused(cx, &w("&CSC * &CSC (transposed, swapped)"), caught(|| { let _ = &q * &p; true }));
            refused(cx, &w("CSC * CSC (transposed, swapped)"), caught(|| { let _ = clone_csc(&q) * clone_csc(&p); true }));
        }
        // p is n x m.
        if m != m2 {
            refused(cx, &format!("&CSC * &CSR of {}x{} and {}x{}", n, m, m2, n2), caught(|| { let _ = &p * &b; true }));
            refused(cx, &format!("CSC * CSR of {}x{} and {}x{}", n, m, m2, n2), caught(|| { let _ = clone_csc(&p) * b.clone(); true }));
            errs(cx, &w("Coo::h_stack"), caught(|| Coo::h_stack(&k, &l).is_ok()));
            errs(cx, &w("Coo::h_stack3"), caught(|| Coo::h_stack3(&k, &k, &l).is_ok()));
            errs(cx, &w("Coo::h_stack3"), caught(|| Coo::h_stack3(&k, &l, &k).is_ok()));
            errs(cx, &w("CSR::h_stack"), caught(|| CSR::h_stack(&a, &b).is_ok()));
            errs(cx, &w("CSC::compose (transposed)"), caught(|| CSC::compose(&p, &p, &q, &p).is_ok()));
        }
        if n != n2 {
            errs(cx, &w("Coo::v_stack"), caught(|| Coo::v_stack(&k, &l).is_ok()));
            errs(cx, &w("Coo::v_stack3"), caught(|| Coo::v_stack3(&k, &k, &l).is_ok()));
            errs(cx, &w("Coo::v_stack3"), caught(|| Coo::v_stack3(&k, &l, &k).is_ok()));
            errs(cx, &w("CSC::compose (transposed)"), caught(|| CSC::compose(&p, &q, &p, &p).is_ok()));
        }
        errs(cx, &w("Coo::compose"), caught(|| Coo::compose([[&k, &k], [&k, &l]]).is_ok()));
        errs(cx, &w("Coo::compose3"), caught(|| Coo::compose3([[&k, &k, &k], [&k, &l, &k], [&k, &k, &k]]).is_ok()));
        ck!(cx, sb == (snap_csr(&b), snap_csc(&q), snap_coo(&l)), "a refused request changed its second operand");
    }
    // Vectors of the wrong length.
    let d = *r.pick(&[1usize, 2, 5, 64]);
    for len in [n + d, n.wrapping_sub(d), 0, m] {
        if len == n || len > 10_000 {
            continue;
        }
        let v: Vec<T> = (0..len).map(|_| T::gen(r)).collect();
        let w = format!("of {}x{} and {} elements", m, n, len);
        errs(cx, &format!("CSR::mat_vec {}", w), caught(|| a.mat_vec(&v).is_ok()));
        refused(cx, &format!("&CSR * &[T] {}", w), caught(|| { let _ = &a * v.as_slice(); true }));
        refused(cx, &format!("CSR * &Vec {}", w), caught(|| { let _ = a.clone() * &v; true }));
    }
    for len in [m + d, m.wrapping_sub(d), 0, n] {
        if len == m || len > 10_000 {
            continue;
        }
        let v: Vec<T> = (0..len).map(|_| T::gen(r)).collect();
        let w = format!("of {}x{} and {} elements", n, m, len);
        errs(cx, &format!("CSC::mat_vec {}", w), caught(|| p.mat_vec(&v).is_ok()));
        refused(cx, &format!("&CSC * &[T] {}", w), caught(|| { let _ = &p * v.as_slice(); true }));
        refused(cx, &format!("CSC * &Vec {}", w), caught(|| { let _ = clone_csc(&p) * &v; true }));
    }
    // Selections out of range.
    if x.canonical() && m < I::MAX && n < I::MAX {
        let mut bads = vec![I::max_value()];
        if I::min_value() < I::zero() {
            bads.push(I::zero() - I::one());
        }
        let (rb, cb) = ([bads.clone(), vec![I::ix(m)]].concat(), [bads, vec![I::ix(n)]].concat());
        let ok_r: Vec<I> = (0..m.min(3)).map(I::ix).collect();
        let ok_c: Vec<I> = (0..n.min(3)).map(I::ix).collect();
        let bad_r = [ok_r.clone(), vec![*r.pick(&rb)]].concat();
        let bad_c = [ok_c.clone(), vec![*r.pick(&cb)]].concat();
        for (s, t) in [(Some(&bad_r[..]), None), (Some(&bad_r[..]), Some(&ok_c[..])), (None, Some(&bad_c[..])), (Some(&ok_r[..]), Some(&bad_c[..]))] {
            errs(cx, &format!("CSR::select {:?} {:?} of {}x{}", s, t, m, n), caught(|| a.select(s, t).is_ok()));
            errs(cx, &format!("CSC::select {:?} {:?} of {}x{}", t, s, n, m), caught(|| p.select(t, s).is_ok()));
        }
    }
    // Graph routines on matrices that are not square.
    if m != n {
        for dir in [true, false] {
            errs(cx, &format!("connected_components (strong) of {}x{}", m, n), caught(|| connected_components(&a, dir, Connection::Strong).is_ok()));
            errs(cx, &format!("connected_components (weak) of {}x{}", m, n), caught(|| connected_components(&a, dir, Connection::Weak).is_ok()));
            errs(cx, &format!("depth_first_order of {}x{}", m, n), caught(|| depth_first_order(&a, 0, dir).is_ok()));
        }
        errs(cx, &format!("CSR::connected_components of {}x{}", m, n), caught(|| a.connected_components::<i32>().is_ok()));
    }
    ck!(cx, sa == (snap_csr(&a), snap_csc(&p), snap_coo(&k)), "a refused request changed its operand");
    // The matrix is still usable after all the refusals.
    let v: Vec<T> = (0..n).map(|_| T::gen(r)).collect();
    let want = x.model().mul_vec(&v);
    ck!(cx, a.mat_vec(&v).map(|g| g == want).unwrap_or(false), "the product after refused requests is wrong");
}

fn arrays<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, _big: bool) {
    let o = Opt::of::<I, T>();
    let x = Raw::<T>::any(r, &o, false);
    let (m, n, nnz) = (x.major, x.minor, x.nnz());
    cx.show(|| brief::<I, T>(&x));
    let (ptr, idx, val) = (x.iptr::<I>(), x.iidx::<I>(), x.val.clone());
    let go = |cx: &mut Cx, what: &str, ptr: &[I], idx: &[I], val: &[T]| {
        errs(cx, &format!("CSR::new of {}x{} with {} pointers, {} indices, {} values for {} entries ({})", m, n, ptr.len(), idx.len(), val.len(), nnz, what), caught(|| CSR::new(m, n, ptr.to_vec(), idx.to_vec(), val.to_vec()).is_ok()));
        errs(cx, &format!("CSC::new of {}x{} with {} pointers, {} indices, {} values for {} entries ({})", n, m, ptr.len(), idx.len(), val.len(), nnz, what), caught(|| CSC::new(n, m, idx.to_vec(), ptr.to_vec(), val.to_vec()).is_ok()));
    };
    let last = ptr[m];
    let mut p = ptr.clone();
    for _ in 0..r.range(1, 3) {
        p.push(last);
    }
    go(cx, "more lines than rows", &p, &idx, &val);
    if m > 0 {
        go(cx, "fewer lines than rows", &ptr[..r.below(m) + 1], &idx, &val);
        go(cx, "no pointers", &[], &idx, &val);
    } else {
        go(cx, "no pointers", &[], &idx, &val);
    }
    if nnz > 0 {
        let c = r.below(nnz);
        go(cx, "short indices", &ptr, &idx[..c], &val);
        go(cx, "short values", &ptr, &idx, &val[..c]);
        go(cx, "both short", &ptr, &idx[..c], &val[..c]);
        go(cx, "no values", &ptr, &idx, &[]);
        let mut longer = idx.clone();
        longer.extend(idx.iter().take(9));
        go(cx, "long indices, short values", &ptr, &longer, &val[..nnz - 1]);
        let mut longer = val.clone();
        longer.extend(val.clone().iter().take(9));
        go(cx, "short indices, long values", &ptr, &idx[..nnz - 1], &longer);
    }
    let t = x.triplets(r, true);
    let (i, j, v): (Vec<I>, Vec<I>, Vec<T>) = (
        t.iter().map(|e| I::ix(e.0)).collect(),
        t.iter().map(|e| I::ix(e.1)).collect(),
        t.iter().map(|e| e.2).collect(),
    );
    let lens = |r: &mut Rng| if r.chance(1, 2) { nnz } else { r.below(nnz + 1) };
    for _ in 0..4 {
        let (a, b, c) = (lens(r), lens(r), lens(r));
        if a != b || b != c {
            errs(cx, &format!("Coo::new with {} rows, {} columns, {} values", a, b, c), caught(|| Coo::new(m, n, i[..a].to_vec(), j[..b].to_vec(), v[..c].to_vec()).is_ok()));
        }
    }
    cx.seen(x.hash() ^ 3);
    // Setting entries outside the shape of a dictionary matrix.
    if m < I::MAX && n < I::MAX {
        let mut d = DoK::<I, T>::new(m, n);
        for e in t.iter().take(40) {
            if let Err(e) = d.set(I::ix(e.0), I::ix(e.1), e.2) {
                cx.fail(format!("DoK::set refused a valid position: {}", e));
            }
        }
        let before = (d.rows(), d.cols(), d.nnz(), d.to_dense());
        let mut spots = vec![(I::ix(m), I::zero()), (I::zero(), I::ix(n)), (I::ix(m), I::ix(n)), (I::max_value(), I::zero()), (I::zero(), I::max_value())];
        if I::min_value() < I::zero() {
            spots.push((I::zero() - I::one(), I::zero()));
            spots.push((I::zero(), I::min_value()));
        }
        for (i, j) in spots {
            let v = if r.chance(1, 4) { T::zero() } else { T::gen(r) };
            errs(cx, &format!("DoK::set ({}, {}) of {}x{}", i, j, m, n), caught(|| d.set(i, j, v).is_ok()));
            errs(cx, &format!("DoK::add ({}, {}) of {}x{}", i, j, m, n), caught(|| d.add(i, j, v).is_ok()));
            if v.opp().is_some() || v == T::zero() {
                errs(cx, &format!("DoK::sub ({}, {}) of {}x{}", i, j, m, n), caught(|| d.sub(i, j, v).is_ok()));
            }
            ck!(cx, d.get(i, j) == T::zero(), "a refused position reads {:?}", d.get(i, j));
        }
        ck!(cx, before == (d.rows(), d.cols(), d.nnz(), d.to_dense()), "a refused DoK request changed the matrix");
        cx.count("dok_requests", 1);
    }
}

cases!(shape_case = signed shapes);
cases!(shape_index = index shapes);
cases!(array_case = any arrays);
cases!(array_index = index arrays);

fn main() {
    run(&[
        Family { name: "shapes", quick: 12_000, thorough: 400_000, f: shape_case },
        Family { name: "shapes_index", quick: 6_000, thorough: 200_000, f: shape_index },
        Family { name: "arrays", quick: 20_000, thorough: 600_000, f: array_case },
        Family { name: "arrays_index", quick: 8_000, thorough: 300_000, f: array_index },
    ])
}
