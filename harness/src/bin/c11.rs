//! C11: entry, diagonal and triangle reads.
use harness::*;
use sparsetools::*;
use std::collections::HashSet;

fn reads<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let raw = Raw::<T>::any(r, &o, big);
    cx.show(|| brief::<I, T>(&raw));
    let (m, n) = (raw.major, raw.minor);
    let model = raw.model();
    let (a, p, c) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true), raw.coo::<I>(r));
    if raw.nnz() > 0 {
        cx.seen(raw.hash());
    }
    // Single entries.
    let mut spots: Vec<(usize, usize)> = vec![];
    if m * n <= 400 {
        for i in 0..m {
            for j in 0..n {
                spots.push((i, j));
            }
        }
    } else {
        for _ in 0..150 {
            spots.push((r.below(m), r.below(n)));
        }
        for &(i, j) in model.map.keys().take(150) {
            spots.push((i, j));
        }
        if let Some(k) = model.map.keys().next_back() {
            spots.push(*k);
        }
    }
    for (i, j) in spots {
        let (w, g) = (model.get(i, j), a.get(I::ix(i), I::ix(j)));
        ck!(cx, w == g, "CSR::get({}, {}) is {:?} instead of {:?}", i, j, g, w);
        cx.count("entries_read", 1);
    }
    // Diagonals.
    let diag = |k: isize| -> Vec<T> {
        let (i0, j0) = if k >= 0 { (0, k as usize) } else { ((-k) as usize, 0) };
        (0..(m - i0).min(n - j0)).map(|d| model.get(i0 + d, j0 + d)).collect()
    };
    let d0 = diag(0);
    ck!(cx, a.diagonal() == d0, "CSR::diagonal is {:?} instead of {:?}", a.diagonal(), d0);
    ck!(cx, p.diagonal() == d0, "CSC::diagonal is {:?} instead of {:?}", p.diagonal(), d0);
    ck!(cx, c.diagonal() == d0, "Coo::diagonal is {:?} instead of {:?}", c.diagonal(), d0);
    let mut ks: Vec<isize> = vec![0, -(m as isize), n as isize, 1 - m as isize, n as isize - 1, n as isize - m as isize];
    if m + n < 40 {
        ks.extend(-(m as isize)..=n as isize);
    } else {
        for _ in 0..20 {
            ks.push(r.below(m + n + 1) as isize - m as isize);
        }
    }
    let s = T::gen(r);
    for k in ks {
        if k < -(m as isize) || k > n as isize {
            continue;
        }
        let w = diag(k);
        let tail = r.below(4);
        let mut y = vec![s; w.len() + tail];
        csr_diagonal(k, m, n, a.rowptr(), a.colidx(), a.values(), &mut y);
        ck!(cx, y[..w.len()] == w[..], "csr_diagonal({}) is {:?} instead of {:?}", k, &y[..w.len()], w);
        ck!(cx, y[w.len()..].iter().all(|v| *v == s), "csr_diagonal({}) wrote past the diagonal", k);
        let mut y = vec![s; w.len() + tail];
        csc_diagonal(-k, n, m, p.colptr(), p.rowidx(), p.values(), &mut y);
        ck!(cx, y[..w.len()] == w[..], "csc_diagonal({}) is {:?} instead of {:?}", -k, &y[..w.len()], w);
        ck!(cx, y[w.len()..].iter().all(|v| *v == s), "csc_diagonal({}) wrote past the diagonal", -k);
        cx.count("diagonals_read", 2);
    }
    // Triangles.
    let sign = I::min_value() < I::zero();
    let before = c.nnz();
    for _ in 0..6 {
        let k: i128 = match r.below(7) {
            0 => 0,
            1 => 1,
            2 => r.below(n + 2) as i128,
            3 => n as i128 - 1,
            4 if sign => -(r.below(m + 2) as i128),
            5 if sign => I::min_value().to_i128().unwrap_or(i128::MIN),
            6 => I::max_value().to_i128().unwrap_or(i128::MAX),
            _ => r.below(4) as i128,
        };
        let ki = match <I as num_traits::NumCast>::from(k) {
            Some(v) => v,
            None => continue,
        };
        let mut w: List = raw.list().into_iter().filter(|e| e.1 as i128 - e.0 as i128 >= k).collect();
        w.sort_unstable();
        let u = c.upper(ki);
        ck!(cx, (u.rows(), u.cols()) == (m, n), "Coo::upper: shape {}x{}", u.rows(), u.cols());
        if let Some(d) = list_diff(&w, &cx.get(list_coo("Coo::upper", &u))) {
            cx.fail(format!("Coo::upper({}): {}", k, d));
        }
        cx.count("triangles_read", 1);
    }
    ck!(cx, c.nnz() == before, "Coo::upper changed its source");
    // Occupied diagonals.
    let occ = |raw: &Raw<T>| {
        let mut h = HashSet::new();
        for i in 0..raw.major {
            for q in raw.ptr[i]..raw.ptr[i + 1] {
                h.insert(raw.idx[q] as i64 - i as i64);
            }
        }
        h.len()
    };
    let w = occ(&raw);
    let g = csr_count_diagonals(m, a.rowptr(), a.colidx());
    ck!(cx, g == w, "csr_count_diagonals is {} instead of {}", g, w);
    let g = csr_count_diagonals(m, p.colptr(), p.rowidx());
    ck!(cx, g == w, "csr_count_diagonals on columns is {} instead of {}", g, w);
    cx.count("diagonal_counts", 1);
}

/// Entries and triangles where no dimension, or only one, can be allocated.
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let raw = Raw::<T>::far::<I>(r, &Opt::of::<I, T>());
    cx.show(|| brief::<I, T>(&raw));
    if raw.nnz() > 0 {
        cx.seen(raw.hash());
    }
    let (m, n) = (raw.major, raw.minor);
    let (a, p) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true));
    let model = raw.model();
    for i in 0..m {
        let mut js: Vec<usize> = model.map.range((i, 0)..=(i, usize::MAX)).map(|e| e.0 .1).collect();
        js.extend(spread(r, 6, n));
        for j in js {
            let (w, g) = (model.get(i, j), a.get(I::ix(i), I::ix(j)));
            ck!(cx, w == g, "CSR::get({}, {}) is {:?} instead of {:?}", i, j, g, w);
            cx.count("entries_read", 1);
        }
    }
    let mut h = HashSet::new();
    for i in 0..m {
        h.extend(raw.idx[raw.ptr[i]..raw.ptr[i + 1]].iter().map(|&j| j as i128 - i as i128));
    }
    for (what, g) in [("rows", csr_count_diagonals(m, a.rowptr(), a.colidx())), ("columns", csr_count_diagonals(m, p.colptr(), p.rowidx()))] {
        ck!(cx, g == h.len(), "csr_count_diagonals on {} is {} instead of {}", what, g, h.len());
        cx.count("diagonal_counts", 1);
    }
    let (m, t) = raw.far_triplets::<I>(r, usize::MAX);
    let c = Coo::<I, T>::new(m, n, t.iter().map(|e| I::ix(e.0)).collect(), t.iter().map(|e| I::ix(e.1)).collect(), t.iter().map(|e| e.2).collect()).unwrap();
    let sign = I::min_value() < I::zero();
    for _ in 0..6 {
        // At, next to and away from a stored entry's diagonal.
        let k: i128 = match r.below(4) {
            0 if !t.is_empty() => {
                let e = r.pick(&t);
                e.1 as i128 - e.0 as i128 + r.below(3) as i128 - 1
            }
            1 => r.below(n) as i128,
            2 => -(r.below(m.max(1)) as i128),
            _ => (1i128 << *r.pick(&[16, 31, 32, 53])) + r.below(5) as i128 - 2,
        };
        let ki = match <I as num_traits::NumCast>::from(k) {
            Some(v) if sign || k >= 0 => v,
            _ => continue,
        };
        let mut w: List = t.iter().filter(|e| e.1 as i128 - e.0 as i128 >= k).map(|e| (e.0, e.1, e.2.bits())).collect();
        w.sort_unstable();
        let u = c.upper(ki);
        ck!(cx, (u.rows(), u.cols()) == (m, n), "Coo::upper: shape {}x{}", u.rows(), u.cols());
        if let Some(d) = list_diff(&w, &cx.get(list_coo("Coo::upper", &u))) {
            cx.fail(format!("Coo::upper({}): {}", k, d));
        }
        cx.count("triangles_read", 1);
    }
}
cases!(far_case = far far);

cases!(any_case = any reads);
cases!(index_case = index reads);
cases!(big_case = big reads);

fn main() {
    run_far(&[
        Family { name: "reads", quick: 50_000, thorough: 1_500_000, f: any_case },
        Family { name: "index", quick: 20_000, thorough: 600_000, f: index_case },
        Family { name: "far", quick: 12_000, thorough: 400_000, f: far_case },
        Family { name: "big", quick: 900, thorough: 30_000, f: big_case },
    ])
}
