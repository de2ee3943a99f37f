//! C24: work stays proportional to the data.
//!
//! `steps` counts every operation on instrumented index and scalar types and compares it with the
//! size of the input; `time` runs large sparse inputs with ordinary types and bounds the processor
//! time, which also sees work that does not touch the caller's types (such as clearing a workspace).
use harness::count::*;
use harness::rng::mix;
use harness::*;
use num_traits::{One, Zero};
use sparsetools::graph::{connected_components, Connection};
use sparsetools::*;

fn store_some(r: &mut Rng, rows: Vec<Vec<usize>>, n: usize) -> Raw<Fp> {
    let nnz: usize = rows.iter().map(|x| x.len()).sum();
    let o = Opt { maxdim: usize::MAX, maxnnz: 2 * nnz + 10, dups: r.chance(1, 2), unsorted: r.chance(1, 2), zeros: r.chance(1, 2) };
    store(r, rows, n, &o)
}
fn cv(v: &[Fp]) -> Vec<Cv> {
    v.iter().map(|x| Cv(*x)).collect()
}
fn ci(v: &[usize]) -> Vec<Ci> {
    v.iter().map(|x| Ci(*x as i64)).collect()
}
fn csr(a: &Raw<Fp>) -> CSR<Ci, Cv> {
    CSR::new(a.major, a.minor, ci(&a.ptr), ci(&a.idx), cv(&a.val)).unwrap()
}
fn csc(a: &Raw<Fp>) -> CSC<Ci, Cv> {
    CSC::new(a.minor, a.major, ci(&a.idx), ci(&a.ptr), cv(&a.val)).unwrap()
}
fn coo(a: &Raw<Fp>, r: &mut Rng) -> Coo<Ci, Cv> {
    let s = r.chance(1, 2);
    let t = a.triplets(r, s);
    Coo::new(a.major, a.minor, t.iter().map(|e| Ci(e.0 as i64)).collect(), t.iter().map(|e| Ci(e.1 as i64)).collect(), t.iter().map(|e| Cv(e.2)).collect()).unwrap()
}

/// Steps allowed per unit of work, and a fixed allowance.
const PER: u64 = 40;
const FREE: u64 = 2048;

/// One call: no more steps than allowed for this much work.
fn within<R>(cx: &mut Cx, what: &'static str, work: usize, f: impl FnOnce() -> R) {
    let limit = PER * work as u64 + FREE;
    let (res, steps) = counted(limit, f);
    match res {
        Ok(x) => drop(x),
        Err(p) if p.contains("step limit reached") => cx.fail(format!("{}: more than {} steps for {} dimensions, entries and multiply-adds", what, limit, work)),
        Err(p) => cx.fail(format!("{}: {}", what, p)),
    }
    cx.count("calls", 1);
    cx.count("steps_counted", steps as usize);
    if std::env::var("C24_RATIOS").is_ok() {
        println!("{:.2} {} {} {}", steps as f64 / (work as f64 + 10.0), what, steps, work);
    }
}
/// An additional factor where entries are sorted.
fn log2(n: usize) -> usize {
    (usize::BITS - n.max(2).leading_zeros()) as usize
}

fn steps(cx: &mut Cx, r: &mut Rng, small: bool) {
    let (m, n, rows) = punishing(r, small);
    let a = store_some(r, rows, n);
    let nnz = a.nnz();
    let w = m + n + nnz;
    let ws = m + n + nnz * log2(nnz);
    cx.show(|| format!("{}x{} with {} entries", m, n, nnz));
    cx.seen(a.hash());
    let (x, p, c) = (csr(&a), csc(&a), coo(&a, r));
    // Conversions.
    within(cx, "CSR::to_csc", w, || x.to_csc());
    within(cx, "CSR::to_coo", w, || x.to_coo());
    within(cx, "CSC::to_csr", w, || p.to_csr());
    within(cx, "CSC::to_coo", w, || p.to_coo());
    within(cx, "Coo::to_csr", ws, || c.to_csr());
    within(cx, "Coo::to_csc", ws, || c.to_csc());
    within(cx, "CSR::t", w, || x.t());
    within(cx, "CSC::t", w, || p.t());
    within(cx, "Coo::t", w, || c.t());
    within(cx, "CSR::transpose", w, || x.clone().transpose());
    let (mut bi, mut bj, mut bx) = (vec![Ci(0); nnz], vec![Ci(0); nnz], vec![Cv::zero(); nnz]);
    let mut bp = vec![Ci(0); m + 1];
    within(cx, "csr_tocoo", w, || csr_tocoo(m, n, x.rowptr(), x.colidx(), x.values(), &mut bi, &mut bj, &mut bx));
    within(cx, "expandptr", w, || expandptr(m, x.rowptr(), &mut bi));
    within(cx, "coo_tocsr", w, || coo_tocsr(m, n, nnz, c.rowidx(), c.colidx(), c.values(), &mut bp, &mut bj, &mut bx));
    // Predicates, merging, sorting, zeros.
    within(cx, "has_canonical_format", w, || x.has_canonical_format());
    within(cx, "has_sorted_indexes", w, || x.has_sorted_indexes());
    within(cx, "sort_indexes", ws, || x.clone().sort_indexes());
    within(cx, "sum_duplicates", ws, || x.clone().sum_duplicates().unwrap());
    let (mut ep, mut ej, mut ex) = (x.rowptr().to_vec(), x.colidx().to_vec(), x.values().to_vec());
    within(cx, "csr_eliminate_zeros", w, || csr_eliminate_zeros(m, n, &mut ep, &mut ej, &mut ex));
    // Reads.
    within(cx, "CSR::diagonal", w, || x.diagonal());
    within(cx, "CSC::diagonal", w, || p.diagonal());
    within(cx, "Coo::diagonal", w, || c.diagonal());
    within(cx, "Coo::upper", w, || c.upper(Ci(r.clone().below(n) as i64)));
    within(cx, "csr_count_diagonals", w, || csr_count_diagonals(m, x.rowptr(), x.colidx()));
    let i = r.below(m);
    let line = a.ptr[i + 1] - a.ptr[i];
    within(cx, "CSR::get", line, || x.get(Ci(i as i64), Ci(r.clone().below(n) as i64)));
    within(cx, "CSR::to_string", w, || x.to_string());
    within(cx, "Coo::to_string", w, || c.to_string());
    // Vectors.
    let v: Vec<Cv> = (0..n.max(m)).map(|_| Cv(Fp::gen(r))).collect();
    within(cx, "CSR::mat_vec", w, || x.mat_vec(&v[..n]).unwrap());
    within(cx, "CSC::mat_vec", w, || p.mat_vec(&v[..m]).unwrap());
    let mut y = vec![Cv::zero(); m.max(n) * 2];
    within(cx, "coo_matvec", nnz, || coo_matvec(nnz, c.rowidx(), c.colidx(), c.values(), &v[..n], &mut y[..m]));
    let vv: Vec<Cv> = v.iter().chain(v.iter()).copied().collect();
    within(cx, "csr_matvecs", m + n + 2 * nnz, || csr_matvecs(m, n, 2, x.rowptr(), x.colidx(), x.values(), &vv, &mut y));
    within(cx, "csc_matvecs", m + n + 2 * nnz, || csc_matvecs(n, m, 2, p.colptr(), p.rowidx(), p.values(), &vv, &mut y));
    let mut sx = x.values().to_vec();
    within(cx, "csr_scale_rows", w, || csr_scale_rows(m, n, x.rowptr(), x.colidx(), &mut sx, &v));
    within(cx, "csr_scale_columns", w, || csr_scale_columns(m, n, x.rowptr(), x.colidx(), &mut sx, &v));
    // Sums and scaling.
    let rows2: Vec<Vec<usize>> = {
        let mut rows: Vec<Vec<usize>> = vec![vec![]; m];
        for _ in 0..r.below(m + n) {
            let i = r.below(m);
            rows[i].push(r.below(n));
        }
        rows.iter_mut().for_each(|x| {
            x.sort_unstable();
            x.dedup();
        });
        rows
    };
    let b = store_some(r, rows2, n);
    let (x2, p2, c2) = (csr(&b), csc(&b), coo(&b, r));
    let wb = w + b.nnz();
    within(cx, "CSR + CSR", wb, || &x + &x2);
    within(cx, "CSR - CSR", wb, || &x - &x2);
    within(cx, "CSC + CSC", wb, || &p + &p2);
    within(cx, "CSC - CSC", wb, || &p - &p2);
    within(cx, "CSC::add", wb, || p.add(&p2).unwrap());
    within(cx, "Coo + Coo", m + n + (nnz + b.nnz()) * log2(nnz + b.nnz()), || &c + &c2);
    within(cx, "-CSR", w, || -x.clone());
    within(cx, "CSR * scalar", w, || &x * Cv::one());
    within(cx, "CSC * scalar", w, || &p * Cv::one());
    let room = nnz + b.nnz();
    let (mut cp, mut cj, mut cv) = (vec![Ci(0); m + 1], vec![Ci(0); room], vec![Cv::zero(); room]);
    for k in 0..3 {
        let f = [csr_mul_csr::<Ci, Cv>, csr_max_csr::<Ci, Cv>, csr_binop_csr_general_add][k];
        within(cx, ["csr_mul_csr", "csr_max_csr", "csr_binop_csr_general"][k], wb, || {
            f(m, n, x.rowptr(), x.colidx(), x.values(), x2.rowptr(), x2.colidx(), x2.values(), &mut cp, &mut cj, &mut cv)
        });
    }
    // Stacking.
    within(cx, "CSR::h_stack", m + n + room * log2(room), || CSR::h_stack(&x, &x2).unwrap());
    within(cx, "Coo::h_stack", wb, || Coo::h_stack(&c, &c2).unwrap());
    within(cx, "Coo::v_stack", wb, || Coo::v_stack(&c, &c2).unwrap());
    within(cx, "Coo::h_stack3", 2 * wb, || Coo::h_stack3(&c, &c2, &c).unwrap());
    within(cx, "Coo::v_stack3", 2 * wb, || Coo::v_stack3(&c, &c2, &c).unwrap());
    within(cx, "Coo::compose", 4 * wb, || Coo::compose([[&c, &c2], [&c2, &c]]).unwrap());
    within(cx, "Coo::compose3", 9 * wb, || Coo::compose3([[&c, &c2, &c], [&c2, &c, &c], [&c, &c, &c2]]).unwrap());
    within(cx, "CSC::compose", 2 * (m + n) + 2 * room * log2(2 * room), || CSC::compose(&p, &p2, &p2, &p).unwrap());
    // Products.
    let wd = r.range(1, m);
    let rows3: Vec<Vec<usize>> = {
        let mut rows: Vec<Vec<usize>> = vec![vec![]; n];
        for _ in 0..r.below(n + wd) {
            let i = r.below(n);
            rows[i].push(r.below(wd));
        }
        rows.iter_mut().for_each(|x| {
            x.sort_unstable();
            x.dedup();
        });
        rows
    };
    let z = store_some(r, rows3, wd);
    let adds: usize = a.idx.iter().map(|&k| z.ptr[k + 1] - z.ptr[k]).sum();
    let wp = w + wd + z.nnz() + adds;
    let (xz, pz) = (csr(&z), csc(&z));
    within(cx, "CSR * CSR", wp, || x.mat_mat(&xz).unwrap());
    within(cx, "CSC * CSC", wp, || pz.mat_mat(&p).unwrap());
    within(cx, "csr_matmat_maxnnz", wp, || csr_matmat_maxnnz(m, wd, x.rowptr(), x.colidx(), xz.rowptr(), xz.colidx()));
    // Selection.
    if a.canonical() {
        let (ri, ci2): (Vec<Ci>, Vec<Ci>) = ((0..r.range(1, 60)).map(|_| Ci(r.below(m) as i64)).collect(), (0..r.range(1, 60)).map(|_| Ci(r.below(n) as i64)).collect());
        let lines: usize = ri.iter().map(|i| a.ptr[i.0 as usize + 1] - a.ptr[i.0 as usize]).sum();
        within(cx, "CSR::select", w + lines + ri.len() * (ci2.len() + 1), || x.select(Some(&ri), Some(&ci2)).unwrap());
        within(cx, "CSC::select", w + lines + ri.len() * (ci2.len() + 1), || p.select(Some(&ci2), Some(&ri)).unwrap());
    }
    // Dictionaries.
    let entries: Vec<(Ci, Ci, Cv)> = a.triplets(r, true).into_iter().map(|e| (Ci(e.0 as i64), Ci(e.1 as i64), Cv(e.2))).collect();
    within(cx, "DoK::add and DoK::to_csr", ws, || {
        let mut d = DoK::new(m, n);
        for e in &entries {
            d.add(e.0, e.1, e.2).unwrap();
        }
        d.to_csr()
    });
    // Components.
    if m == n {
        within(cx, "weak components", w, || connected_components(&x, true, Connection::Weak).unwrap());
        within(cx, "strong components", w, || connected_components(&x, true, Connection::Strong).unwrap());
        within(cx, "undirected components", w, || connected_components(&x, false, Connection::Strong).unwrap());
    }
}

/// Many selected columns of long rows, and many selected rows of which few hold something.
fn selection(cx: &mut Cx, r: &mut Rng, _: u64) {
    let (m, n) = if r.chance(1, 2) { (r.range(1, 4), r.range(1500, 4000)) } else { (r.range(1500, 4000), r.range(1, 4)) };
    let full = r.range(1, 100);
    let rows: Vec<Vec<usize>> = (0..m).map(|_| (0..n).filter(|_| r.below(100) < full).collect()).collect();
    let nnz = rows.iter().map(|x| x.len()).sum();
    let o = Opt { maxdim: usize::MAX, maxnnz: nnz, dups: false, unsorted: false, zeros: false };
    let a: Raw<Fp> = store(r, rows, n, &o);
    let pick = |r: &mut Rng, n: usize| -> Option<Vec<Ci>> {
        match r.below(5) {
            0 => None,
            1 => Some((0..n).map(|i| Ci(i as i64)).collect()),
            2 => Some(vec![Ci(r.below(n) as i64); r.range(1, 1000)]),
            _ => Some((0..if n < 10 { r.range(1, 3) } else { r.range(300, 1500) }).map(|_| Ci(r.below(n) as i64)).collect()),
        }
    };
    let (ri, ci) = (pick(r, m), pick(r, n));
    let nr = ri.as_ref().map_or(m, |v| v.len());
    let nc = ci.as_ref().map_or(n, |v| v.len());
    if nr * nc > 60_000 {
        return;
    }
    cx.show(|| format!("{} rows and {} columns of {}x{} with {} entries", nr, nc, m, n, nnz));
    cx.seen(mix(a.hash() ^ (nr * 10_000 + nc) as u64));
    let lines: usize = match &ri {
        None => nnz,
        Some(v) => v.iter().map(|i| a.ptr[i.0 as usize + 1] - a.ptr[i.0 as usize]).sum(),
    };
    let work = m + n + nnz + lines + nr * (nc + 1);
    let (x, p) = (csr(&a), csc(&a));
    within(cx, "CSR::select", work, || x.select(ri.as_deref(), ci.as_deref()).unwrap());
    within(cx, "CSC::select", work, || p.select(ci.as_deref(), ri.as_deref()).unwrap());
}

fn csr_binop_csr_general_add(m: usize, n: usize, ap: &[Ci], aj: &[Ci], ax: &[Cv], bp: &[Ci], bj: &[Ci], bx: &[Cv], cp: &mut [Ci], cj: &mut [Ci], cx: &mut [Cv]) {
    csr_binop_csr_general(m, n, ap, aj, ax, bp, bj, bx, cp, cj, cx, |a, b| a + b)
}

fn large(cx: &mut Cx, r: &mut Rng, _: u64) {
    steps(cx, r, false)
}
fn little(cx: &mut Cx, r: &mut Rng, _: u64) {
    steps(cx, r, true)
}

/// Processor seconds allowed for one call on an input of some hundred thousand entries, which takes
/// some milliseconds; clearing a row-sized workspace for every row would take ten seconds and more.
const SECONDS: f64 = 4.0;

fn timed<R>(cx: &mut Cx, what: &str, f: impl FnOnce() -> R) -> R {
    let t = cpu();
    let x = f();
    let t = cpu() - t;
    ck!(cx, t < SECONDS, "{}: {:.1} s of processor time", what, t);
    cx.count("timed_calls", 1);
    cx.count("microseconds", (t * 1e6) as usize);
    if std::env::var("C24_RATIOS").is_ok() {
        println!("{:.4} s {}", t, what);
    }
    x
}

/// Large inputs; every call must end within the allowance.
fn time(cx: &mut Cx, r: &mut Rng, i: u64) {
    let n = 150_000;
    let kind = i % 8;
    let mut rows: Vec<Vec<usize>> = vec![vec![]; n];
    match kind {
        // Tridiagonal, a ring, a star in either direction, a long path backwards, scattered, two lines per row, few entries.
        0 => (0..n).for_each(|k| rows[k].extend([k.saturating_sub(1), k, (k + 1).min(n - 1)])),
        1 => (0..n).for_each(|k| rows[k].push((k + 1) % n)),
        2 => rows[r.below(n)] = (0..n).collect(),
        3 => {
            let h = r.below(n);
            (0..n).for_each(|k| rows[k].push(h))
        }
        4 => (1..n).for_each(|k| rows[k].push(k - 1)),
        5 => (0..n).for_each(|k| rows[k].extend([r.below(n), r.below(n), r.below(n)])),
        6 => (0..n / 2).for_each(|k| {
            rows[2 * k].push(2 * k + 1);
            rows[2 * k + 1].push(2 * k)
        }),
        _ => (0..50).for_each(|_| {
            let k = r.below(n);
            rows[k].push(r.below(n))
        }),
    }
    rows.iter_mut().for_each(|x| {
        x.sort_unstable();
        x.dedup();
    });
    let o = Opt { maxdim: usize::MAX, maxnnz: 1_000_000, dups: i % 3 == 1, unsorted: i % 3 == 2, zeros: false };
    let raw: Raw<f64> = store(r, rows, n, &o);
    cx.show(|| format!("{} nodes, kind {}, {} entries", n, kind, raw.nnz()));
    cx.seen(mix(raw.hash() ^ i));
    let (a, p, c) = (raw.csr::<usize>(r, false), raw.csc::<usize>(r, false), raw.coo::<usize>(r));
    timed(cx, "CSR::to_csc", || a.to_csc());
    timed(cx, "CSR::to_coo", || a.to_coo());
    timed(cx, "CSC::to_csr", || p.to_csr());
    timed(cx, "CSC::to_coo", || p.to_coo());
    let s = timed(cx, "Coo::to_csr", || c.to_csr());
    timed(cx, "Coo::to_csc", || c.to_csc());
    timed(cx, "CSR::sum_duplicates", || a.clone().sum_duplicates().unwrap());
    timed(cx, "CSR::sort_indexes", || a.clone().sort_indexes());
    timed(cx, "CSR + CSR", || &a + &s);
    timed(cx, "CSR - CSR", || &a - &s);
    timed(cx, "CSC + CSC", || &p + &p);
    timed(cx, "CSC - CSC", || &p - &p);
    timed(cx, "Coo + Coo", || &c + &c);
    timed(cx, "CSR * 2", || &a * 2.0);
    let v = vec![1.0; n];
    timed(cx, "CSR::mat_vec", || a.mat_vec(&v).unwrap());
    timed(cx, "CSC::mat_vec", || p.mat_vec(&v).unwrap());
    // A product with few multiply-adds: a diagonal and the matrix itself where it has short lines.
    let d = CSR::<usize, f64>::with_diagonal(v.clone());
    timed(cx, "CSR * CSR", || a.mat_mat(&d).unwrap());
    timed(cx, "diagonal CSR * CSR", || d.mat_mat(&a).unwrap());
    let e = CSC::<usize, f64>::with_diagonal(v.clone());
    timed(cx, "CSC * CSC", || p.mat_mat(&e).unwrap());
    timed(cx, "CSR::diagonal", || a.diagonal());
    timed(cx, "CSC::diagonal", || p.diagonal());
    timed(cx, "Coo::diagonal", || c.diagonal());
    timed(cx, "Coo::upper", || c.upper(1));
    timed(cx, "Coo::h_stack", || Coo::h_stack(&c, &c).unwrap());
    timed(cx, "Coo::v_stack", || Coo::v_stack(&c, &c).unwrap());
    timed(cx, "CSR::h_stack", || CSR::h_stack(&a, &s).unwrap());
    timed(cx, "CSC::compose", || CSC::compose(&p, &p, &p, &p).unwrap());
    // Kernels.
    let (ap, aj, ax) = (a.rowptr(), a.colidx(), a.values());
    let (nnz, room) = (a.nnz(), 2 * a.nnz());
    let (mut cp, mut cj, mut cv) = (vec![0; n + 1], vec![0; room], vec![0.0; room]);
    timed(cx, "csr_mul_csr", || csr_mul_csr(n, n, ap, aj, ax, ap, aj, ax, &mut cp, &mut cj, &mut cv));
    timed(cx, "csr_binop_csr_general", || csr_binop_csr_general(n, n, ap, aj, ax, ap, aj, ax, &mut cp, &mut cj, &mut cv, |x, y| x + y));
    let (mut bp, mut bj, mut bx) = (vec![], vec![], vec![]);
    timed(cx, "get_csr_submatrix of 5 columns", || get_csr_submatrix(n, n, ap, aj, ax, 0, n, 7, 12, &mut bp, &mut bj, &mut bx));
    let (mut bj, mut bx) = (vec![], vec![]);
    let back: Vec<usize> = (0..n).rev().collect();
    timed(cx, "csr_row_index", || csr_row_index(n, &back, ap, aj, ax, &mut bj, &mut bx));
    let (mut bj, mut bx) = (vec![], vec![]);
    timed(cx, "csr_row_slice", || csr_row_slice(0, n, 3, ap, aj, ax, &mut bj, &mut bx));
    let (mut offs, mut bp, mut bj, mut bx) = (vec![0; n], vec![0; n + 1], vec![0; nnz], vec![0.0; nnz]);
    timed(cx, "csr_column_index", || {
        csr_column_index1(n, &back, n, n, ap, aj, &mut offs, &mut bp);
        csr_column_index2(&back, &offs, nnz, aj, ax, &mut bj, &mut bx)
    });
    let (mut ep, mut ej, mut ex) = (ap.to_vec(), aj.to_vec(), ax.to_vec());
    timed(cx, "csr_scale_rows", || csr_scale_rows(n, n, ap, aj, &mut ex, &v));
    timed(cx, "csr_scale_columns", || csr_scale_columns(n, n, ap, aj, &mut ex, &v));
    timed(cx, "csr_eliminate_zeros", || csr_eliminate_zeros(n, n, &mut ep, &mut ej, &mut ex));
    timed(cx, "csr_matmat_maxnnz", || csr_matmat_maxnnz(n, n, ap, aj, d.rowptr(), d.colidx()));
    let entries = raw.triplets(r, true);
    timed(cx, "DoK", || {
        let mut k = DoK::<usize, f64>::new(n, n);
        for e in &entries {
            k.set(e.0, e.1, e.2).unwrap();
        }
        (k.to_csr(), k.to_csc())
    });
    timed(cx, "csr_count_diagonals", || csr_count_diagonals(n, a.rowptr(), a.colidx()));
    timed(cx, "CSR::to_string", || a.to_string());
    timed(cx, "weak components", || connected_components(&a, true, Connection::Weak).unwrap());
    timed(cx, "strong components", || connected_components(&a, true, Connection::Strong).unwrap());
    if s.has_canonical_format() {
        let few: Vec<usize> = (0..20).map(|_| r.below(n)).collect();
        timed(cx, "CSR::select of 20 rows and columns", || s.select(Some(&few), Some(&few)).unwrap());
        timed(cx, "CSR::select of 20 rows", || s.select(Some(&few), None).unwrap());
        timed(cx, "CSR::select of 5 columns", || s.select(None, Some(&few[..5])).unwrap());
        let t = s.to_csc();
        timed(cx, "CSC::select of 5 rows", || t.select(Some(&few[..5]), None).unwrap());
        timed(cx, "CSC::select of 20 columns", || t.select(None, Some(&few)).unwrap());
    }
}

fn main() {
    run(&[
        Family { name: "steps_large", quick: 240, thorough: 12_000, f: large },
        Family { name: "steps_little", quick: 3_000, thorough: 120_000, f: little },
        Family { name: "selection", quick: 1_500, thorough: 40_000, f: selection },
        Family { name: "time", quick: 24, thorough: 240, f: time },
    ])
}
