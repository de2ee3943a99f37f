//! C10: selecting and slicing rows and columns.
use harness::*;
use sparsetools::*;

/// A list of indices below n: in order, reversed, with repeats, or empty.
fn pick_list(r: &mut Rng, n: usize, max: usize) -> Vec<usize> {
    if n == 0 {
        return vec![];
    }
    let mut v: Vec<usize> = match r.below(8) {
        0 => vec![],
        1 => (0..n).collect(),
        2 => (0..n).rev().collect(),
        3 => {
            let mut p: Vec<usize> = (0..n).collect();
            r.shuffle(&mut p);
            p
        }
        4 => {
            let j = r.below(n);
            vec![j; if r.chance(1, 6) { r.range(250, 600) } else { r.range(1, 9) }]
        }
        5 => (0..n).filter(|_| r.chance(1, 2)).collect(),
        _ => (0..r.range(1, 2 * n.min(40))).map(|_| r.below(n)).collect(),
    };
    v.truncate(max);
    v
}

/// Entries selected from canonical data, as (r, c, bits).
fn chosen<T: Val>(raw: &Raw<T>, rows: &[usize], cols: &[usize]) -> List {
    let mut l: List = vec![];
    let mut pos: std::collections::HashMap<usize, Vec<usize>> = Default::default();
    for (c, &j) in cols.iter().enumerate() {
        pos.entry(j).or_default().push(c);
    }
    for (x, &i) in rows.iter().enumerate() {
        for k in raw.ptr[i]..raw.ptr[i + 1] {
            if let Some(cs) = pos.get(&raw.idx[k]) {
                for &c in cs {
                    l.push((x, c, raw.val[k].bits()));
                }
            }
        }
    }
    l.sort_unstable();
    l
}

fn select<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    // A list of every index needs a representable dimension.
    let o = Opt::of::<I, T>().canonical();
    let mut raw = Raw::<T>::any(r, &o, big);
    raw.specials(r);
    let (m, n) = (raw.major, raw.minor);
    let (a, p) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true));
    let (la, lp) = (raw.list(), flip(&raw.list()));
    let cap = if big { 3000 } else { 400 }.min(I::MAX);
    for _ in 0..3 {
        let (mut ri, mut ci) = (pick_list(r, m, cap), pick_list(r, n, cap));
        let (ra, mut ca) = (r.chance(1, 6), r.chance(1, 6));
        if ra {
            ri = (0..m).collect();
        }
        if ca {
            ci = (0..n).collect();
        }
        // Every chosen pair may be looked up one by one.
        let most = 3_000_000;
        if ri.len() * ci.len() > most {
            ca &= !ra;
            if ca {
                ri.truncate((most / n).max(1));
            } else {
                ci.truncate((most / ri.len()).max(1));
            }
        }
        let want = chosen(&raw, &ri, &ci);
        if want.len() > I::MAX {
            continue;
        }
        cx.show(|| format!("rows {:?} cols {:?} of {}", ri, ci, brief::<I, T>(&raw)));
        let (xi, xj): (Vec<I>, Vec<I>) = (ri.iter().map(|&v| I::ix(v)).collect(), ci.iter().map(|&v| I::ix(v)).collect());
        let (so, co) = (if ra { None } else { Some(xi.as_slice()) }, if ca { None } else { Some(xj.as_slice()) });
        match a.select(so, co) {
            Err(e) => cx.fail(format!("CSR::select refused rows {:?} cols {:?}: {}", so, co, e)),
            Ok(g) => {
                ck!(cx, (g.rows(), g.cols()) == (ri.len(), ci.len()), "CSR::select: shape {}x{} instead of {}x{}", g.rows(), g.cols(), ri.len(), ci.len());
                cx.same_list("CSR::select", &want, list_csr("CSR::select", &g, Len::AtLeast));
            }
        }
        match p.select(co, so) {
            Err(e) => cx.fail(format!("CSC::select refused rows {:?} cols {:?}: {}", co, so, e)),
            Ok(g) => {
                ck!(cx, (g.rows(), g.cols()) == (ci.len(), ri.len()), "CSC::select: shape {}x{} instead of {}x{}", g.rows(), g.cols(), ci.len(), ri.len());
                cx.same_list("CSC::select", &flip(&want), list_csc("CSC::select", &g, Len::AtLeast));
            }
        }
        let (mut bp, mut bj, mut bx) = (vec![], vec![], vec![]);
        csr_select(m, n, a.rowptr(), a.colidx(), a.values(), &xi, &xj, &mut bp, &mut bj, &mut bx);
        let g = CSR::new(ri.len(), ci.len(), bp, bj, bx);
        match g {
            Err(e) => cx.fail(format!("csr_select produced inconsistent arrays: {}", e)),
            Ok(g) => cx.same_list("csr_select", &want, list_csr("csr_select", &g, Len::Exact)),
        }
        cx.count("selections", 3);
        cx.seen(raw.hash() ^ ri.iter().chain(ci.iter()).fold(7u64, |h, &v| h.wrapping_mul(31).wrapping_add(v as u64)));
        // One index out of range.
        let bad_row = r.chance(1, 2);
        let lim = if bad_row { m } else { n };
        let mut bads: Vec<I> = vec![];
        if lim < I::MAX {
            bads.push(I::ix(lim));
            bads.push(I::ix(r.range(lim, I::MAX.min(lim + 1000))));
            bads.push(I::max_value());
        }
        if I::min_value() < I::zero() {
            bads.push(I::zero() - I::one());
            bads.push(I::min_value());
        }
        if bads.is_empty() {
            continue;
        }
        let bad = *r.pick(&bads);
        let (mut yi, mut yj) = (xi.clone(), xj.clone());
        let l = if bad_row { &mut yi } else { &mut yj };
        l.insert(r.below(l.len() + 1), bad);
        let (so, co) = (if ra && !bad_row { None } else { Some(yi.as_slice()) }, if ca && bad_row { None } else { Some(yj.as_slice()) });
        ck!(cx, a.select(so, co).is_err(), "CSR::select accepted index {} of {} {}", bad, lim, if bad_row { "rows" } else { "columns" });
        ck!(cx, p.select(co, so).is_err(), "CSC::select accepted index {} of {} {}", bad, lim, if bad_row { "columns" } else { "rows" });
        cx.count("bad_index_refused", 2);
    }
    ck!(cx, la == list_csr("", &a, Len::AtLeast).unwrap() && lp == list_csc("", &p, Len::AtLeast).unwrap(), "select changed its source");
}

fn noncanonical<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, _big: bool) {
    let o = Opt::of::<I, T>();
    let raw = Raw::<T>::any(r, &o, false);
    if raw.canonical() {
        return;
    }
    cx.show(|| brief::<I, T>(&raw));
    let (a, p) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true));
    let lists = [pick_list(r, raw.major, 20), pick_list(r, raw.minor, 20)];
    let x: Vec<Vec<I>> = lists.iter().map(|l| l.iter().map(|&v| I::ix(v)).collect()).collect();
    let (so, co) = (if r.chance(1, 3) { None } else { Some(x[0].as_slice()) }, if r.chance(1, 3) { None } else { Some(x[1].as_slice()) });
    ck!(cx, a.select(so, co).is_err(), "CSR::select accepted a non-canonical matrix");
    ck!(cx, p.select(co, so).is_err(), "CSC::select accepted a non-canonical matrix");
    cx.count("noncanonical_refused", 2);
    cx.seen(raw.hash() ^ 5);
}

/// The exact entries of one line, in stored order.
fn line<T: Val>(raw: &Raw<T>, i: usize) -> Vec<(usize, u128)> {
    (raw.ptr[i]..raw.ptr[i + 1]).map(|k| (raw.idx[k], raw.val[k].bits())).collect()
}
fn got<I: Ix, T: Val>(j: &[I], x: &[T]) -> Vec<(usize, u128)> {
    j.iter().zip(x).map(|(j, x)| (j.us(), x.bits())).collect()
}

fn kernels<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let mut raw = Raw::<T>::any(r, &o, big);
    raw.specials(r);
    cx.show(|| brief::<I, T>(&raw));
    let (m, n) = (raw.major, raw.minor);
    let a = raw.csr::<I>(r, true);
    let (ap, aj, ax) = (a.rowptr(), a.colidx(), a.values());
    let same = |cx: &mut Cx, what: &str, want: &[(usize, u128)], g: &[(usize, u128)]| {
        ck!(cx, want == g, "{}: entries {:?} instead of {:?}", what, g, want);
        cx.count("slices", 1);
        cx.count("entries_compared", want.len());
    };
    // Window.
    for _ in 0..2 {
        let mut e: Vec<usize> = (0..2).map(|_| r.below(m + 1)).collect();
        let mut f: Vec<usize> = (0..2).map(|_| r.below(n + 1)).collect();
        e.sort_unstable();
        f.sort_unstable();
        if r.chance(1, 4) {
            // The last lines.
            e = vec![m - r.below(m.min(20) + 1), m];
        }
        if r.chance(1, 4) {
            f = vec![n - r.below(n.min(20) + 1), n];
        }
        if r.chance(1, 4) {
            e = vec![0, m];
        }
        if r.chance(1, 4) {
            f = vec![0, n];
        }
        let (mut bp, mut bj, mut bx) = (vec![], vec![], vec![]);
        get_csr_submatrix(m, n, ap, aj, ax, I::ix(e[0]), I::ix(e[1]), I::ix(f[0]), I::ix(f[1]), &mut bp, &mut bj, &mut bx);
        let (mut wp, mut w) = (vec![0], vec![]);
        for i in e[0]..e[1] {
            w.extend(line(&raw, i).into_iter().filter(|x| x.0 >= f[0] && x.0 < f[1]).map(|x| (x.0 - f[0], x.1)));
            wp.push(w.len());
        }
        ck!(cx, bp.iter().map(|p| p.us()).collect::<Vec<_>>() == wp, "get_csr_submatrix rows {:?} cols {:?}: row pointer {:?} instead of {:?}", e, f, bp, wp);
        ck!(cx, bj.len() == w.len() && bx.len() == w.len(), "get_csr_submatrix: {} indices, {} values for {} entries", bj.len(), bx.len(), w.len());
        same(cx, "get_csr_submatrix", &w, &got(&bj, &bx));
    }
    // Row list, appended to what is there.
    let rows = pick_list(r, m, 200);
    let w: Vec<_> = rows.iter().flat_map(|&i| line(&raw, i)).collect();
    let (mut bj, mut bx) = (vec![], vec![]);
    csr_row_index(rows.len(), &rows, ap, aj, ax, &mut bj, &mut bx);
    ck!(cx, bj.len() == bx.len(), "csr_row_index: {} indices, {} values", bj.len(), bx.len());
    same(cx, "csr_row_index", &w, &got(&bj, &bx));
    if rows.len() > 1 {
        // Only the first rows of the list.
        let k = r.below(rows.len());
        let w: Vec<_> = rows[..k].iter().flat_map(|&i| line(&raw, i)).collect();
        let (mut bj, mut bx) = (vec![], vec![]);
        csr_row_index(k, &rows, ap, aj, ax, &mut bj, &mut bx);
        same(cx, "csr_row_index (leading part)", &w, &got(&bj, &bx));
    }
    // Row range with step.
    let (start, stop) = (r.below(m + 2), r.below(m + 1));
    let step = match r.below(4) {
        0 => 1,
        1 => r.range(1, m + 3),
        _ => r.range(1, 4),
    };
    let w: Vec<_> = (start..stop.max(start)).step_by(step).flat_map(|i| line(&raw, i)).collect();
    let (mut bj, mut bx) = (vec![], vec![]);
    csr_row_slice(start, stop, step, ap, aj, ax, &mut bj, &mut bx);
    ck!(cx, bj.len() == bx.len(), "csr_row_slice: {} indices, {} values", bj.len(), bx.len());
    same(cx, "csr_row_slice", &w, &got(&bj, &bx));
    // Column list: the two-step kernel with columns in sorted order of selection.
    let most = if r.chance(1, 4) { 700 } else { 100 };
    let cols = pick_list(r, n, most);
    let mut order: Vec<usize> = (0..cols.len()).collect();
    order.sort_by_key(|&k| cols[k]);
    let mut at: Vec<Vec<usize>> = vec![vec![]; n];
    for &k in &order {
        at[cols[k]].push(k);
    }
    let (mut wp, mut w) = (vec![0], vec![]);
    for i in 0..m {
        for (j, x) in line(&raw, i) {
            for &k in &at[j] {
                w.push((k, x));
            }
        }
        wp.push(w.len());
    }
    if w.len() <= I::MAX && cols.len() <= I::MAX {
        let mut offs = vec![I::zero(); n];
        let tail = r.below(3);
        let mut bp = vec![I::ix(3); m + 1 + tail];
        csr_column_index1(cols.len(), &cols, m, n, ap, aj, &mut offs, &mut bp);
        ck!(cx, bp[..=m].iter().map(|p| p.us()).collect::<Vec<_>>() == wp, "csr_column_index1 cols {:?}: row pointer {:?} instead of {:?}", cols, bp, wp);
        ck!(cx, bp[m + 1..].iter().all(|&v| v == I::ix(3)), "csr_column_index1 wrote past the row pointer");
        let mut sum = 0;
        for j in 0..n {
            sum += at[j].len();
            ck!(cx, offs[j].us() == sum, "csr_column_index1: offset of column {} is {} instead of {}", j, offs[j], sum);
        }
        let oi: Vec<I> = order.iter().map(|&k| I::ix(k)).collect();
        let mut bj = vec![I::ix(3); w.len() + tail];
        let mut bx = vec![T::zero(); w.len() + tail];
        csr_column_index2(&oi, &offs, raw.nnz(), aj, ax, &mut bj, &mut bx);
        same(cx, "csr_column_index2", &w, &got(&bj[..w.len()], &bx[..w.len()]));
        ck!(cx, bj[w.len()..].iter().all(|&v| v == I::ix(3)) && bx[w.len()..].iter().all(|&v| v == T::zero()), "csr_column_index2 wrote past the result");
    }
    if raw.nnz() > 0 {
        cx.seen(raw.hash() ^ start as u64 ^ (stop as u64) << 20 ^ (step as u64) << 40);
    }
}

/// Columns beyond what can be allocated: chosen one by one, and windows.
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let mut raw = Raw::<T>::far::<I>(r, &Opt::of::<I, T>().canonical());
    raw.specials(r);
    let (m, n) = (raw.major, raw.minor);
    let (a, p) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true));
    let ri = pick_list(r, m, 60);
    let k = r.range(1, 20);
    let mut ci = spread(r, k, n);
    for _ in 0..r.below(20) {
        if !raw.idx.is_empty() {
            ci.push(*r.pick(&raw.idx));
        }
    }
    if r.chance(2, 3) {
        r.shuffle(&mut ci);
    }
    cx.show(|| format!("rows {:?} cols {:?} of {}", ri, ci, brief::<I, T>(&raw)));
    let want = chosen(&raw, &ri, &ci);
    let (xi, xj): (Vec<I>, Vec<I>) = (ri.iter().map(|&v| I::ix(v)).collect(), ci.iter().map(|&v| I::ix(v)).collect());
    let g = a.select(Some(&xi), Some(&xj)).unwrap_or_else(|e| cx.fail(format!("CSR::select refused: {}", e)));
    ck!(cx, (g.rows(), g.cols()) == (ri.len(), ci.len()), "CSR::select: shape {}x{} instead of {}x{}", g.rows(), g.cols(), ri.len(), ci.len());
    cx.same_list("CSR::select", &want, list_csr("CSR::select", &g, Len::AtLeast));
    let g = p.select(Some(&xj), Some(&xi)).unwrap_or_else(|e| cx.fail(format!("CSC::select refused: {}", e)));
    ck!(cx, (g.rows(), g.cols()) == (ci.len(), ri.len()), "CSC::select: shape {}x{} instead of {}x{}", g.rows(), g.cols(), ci.len(), ri.len());
    cx.same_list("CSC::select", &flip(&want), list_csc("CSC::select", &g, Len::AtLeast));
    cx.count("selections", 2);
    if n < I::MAX {
        let mut yj = xj.clone();
        yj.insert(r.below(yj.len() + 1), I::ix(n.saturating_add(r.below(3)).min(I::MAX)));
        ck!(cx, a.select(Some(&xi), Some(&yj)).is_err(), "CSR::select accepted a column outside {}", n);
        ck!(cx, p.select(Some(&yj), Some(&xi)).is_err(), "CSC::select accepted a row outside {}", n);
        cx.count("bad_index_refused", 2);
    }
    let mut e: Vec<usize> = (0..2).map(|_| r.below(m + 1)).collect();
    let mut f = [spread(r, 1, n)[0], if r.chance(1, 3) { n } else { spread(r, 1, n)[0] }];
    if let (true, Some(&j)) = (r.chance(1, 2), raw.idx.first()) {
        f[0] = j + r.below(2);
    }
    e.sort_unstable();
    f.sort_unstable();
    let (mut bp, mut bj, mut bx) = (vec![], vec![], vec![]);
    get_csr_submatrix(m, n, a.rowptr(), a.colidx(), a.values(), I::ix(e[0]), I::ix(e[1]), I::ix(f[0]), I::ix(f[1]), &mut bp, &mut bj, &mut bx);
    let (mut wp, mut w) = (vec![0], vec![]);
    for i in e[0]..e[1] {
        w.extend(line(&raw, i).into_iter().filter(|x| x.0 >= f[0] && x.0 < f[1]).map(|x| (x.0 - f[0], x.1)));
        wp.push(w.len());
    }
    ck!(cx, bp.iter().map(|p| p.us()).collect::<Vec<_>>() == wp, "get_csr_submatrix rows {:?} cols {:?}: row pointer {:?} instead of {:?}", e, f, bp, wp);
    ck!(cx, bj.len() == w.len() && bx.len() == w.len() && got(&bj, &bx) == w, "get_csr_submatrix rows {:?} cols {:?}: entries {:?} instead of {:?}", e, f, got(&bj, &bx), w);
    cx.count("slices", 1);
    if raw.nnz() > 0 {
        cx.seen(raw.hash() ^ ci.iter().fold(7u64, |h, &v| h.wrapping_mul(31).wrapping_add(v as u64)));
    }
}
cases!(far_case = far far);

cases!(sel_case = any select);
cases!(sel_index = index select);
cases!(sel_big = big select);
cases!(non_case = index noncanonical);
cases!(ker_case = any kernels);
cases!(ker_index = index kernels);
cases!(ker_big = big kernels);

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "select", quick: 40_000, thorough: 1_200_000, f: sel_case },
        Family { name: "select_index", quick: 10_000, thorough: 300_000, f: sel_index },
        Family { name: "select_big", quick: 400, thorough: 20_000, f: sel_big },
        Family { name: "far", quick: 12_000, thorough: 400_000, f: far_case },
        Family { name: "noncanonical", quick: 15_000, thorough: 300_000, f: non_case },
        Family { name: "kernels", quick: 40_000, thorough: 1_200_000, f: ker_case },
        Family { name: "kernels_index", quick: 10_000, thorough: 300_000, f: ker_index },
        Family { name: "kernels_big", quick: 900, thorough: 30_000, f: ker_big },
    ]
}

pub fn main() {
    run_far(&families())
}
