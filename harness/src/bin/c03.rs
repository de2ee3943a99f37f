//! C03: every returned matrix is structurally well formed.
use harness::*;

struct Chk<'a> {
    cx: &'a mut Cx,
}
impl<'a> Chk<'a> {
    fn csr<I: Ix, T: Val>(&mut self, what: &str, a: &CSR<I, T>, rows: usize, cols: usize, compact: bool) {
        self.cx.count("matrices_checked", 1);
        ck!(self.cx, a.rows() == rows && a.cols() == cols, "{}: shape {}x{} instead of {}x{}", what, a.rows(), a.cols(), rows, cols);
        self.cx.ok(check_compressed(what, rows, cols, a.rowptr(), a.colidx(), a.values(), a.nnz(), Len::Exact));
        if compact {
            self.cx.ok(check_compact(what, a.rowptr(), a.colidx(), a.values(), cols));
        }
        self.cx.count("entries_checked", a.nnz());
    }
    fn csc<I: Ix, T: Val>(&mut self, what: &str, a: &CSC<I, T>, rows: usize, cols: usize, compact: bool) {
        self.cx.count("matrices_checked", 1);
        ck!(self.cx, a.rows() == rows && a.cols() == cols, "{}: shape {}x{} instead of {}x{}", what, a.rows(), a.cols(), rows, cols);
        ck!(self.cx, a.shape() == (rows, cols), "{}: shape() is {:?}", what, a.shape());
        self.cx.ok(check_compressed(what, cols, rows, a.colptr(), a.rowidx(), a.values(), a.nnz(), Len::Exact));
        if compact {
            self.cx.ok(check_compact(what, a.colptr(), a.rowidx(), a.values(), rows));
        }
        self.cx.count("entries_checked", a.nnz());
    }
    fn coo<I: Ix, T: Val>(&mut self, what: &str, a: &Coo<I, T>, rows: usize, cols: usize) {
        self.cx.count("matrices_checked", 1);
        ck!(self.cx, a.rows() == rows && a.cols() == cols, "{}: shape {}x{} instead of {}x{}", what, a.rows(), a.cols(), rows, cols);
        self.cx.ok(read_coo(what, a).map(|_| ()));
        self.cx.count("entries_checked", a.nnz());
    }
}

fn ops<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>().nnz((I::MAX / 2).min(T::TERMS / 4)).nnz(30_000);
    let raw = Raw::<T>::any(r, &o, big);
    let slack = r.chance(1, 2);
    let (m, n) = (raw.major, raw.minor);
    let raw2 = match r.below(8) {
        2 => Raw { major: m, minor: n, ptr: vec![0; m + 1], idx: vec![], val: vec![] },
        3 => {
            let mut c = raw.clone();
            c.val.iter_mut().for_each(|v| *v = T::gen(r));
            c
        }
        // The same pattern with opposite values cancels everywhere.
        0 | 1 => {
            let mut c = raw.clone();
            for v in c.val.iter_mut() {
                *v = if r.chance(4, 5) { -*v } else { T::gen(r) };
            }
            c
        }
        _ => Raw::<T>::random(r, m, n, &o),
    };
    cx.show(|| brief::<I, T>(&raw));
    if raw.nnz() + raw2.nnz() > 0 {
        cx.seen(raw.hash() ^ raw2.hash().rotate_left(13));
    }
    let mut c = Chk { cx };
    let (a, b) = (raw.csr::<I>(r, slack), raw2.csr::<I>(r, slack));
    let (p, q) = (raw.csc::<I>(r, slack), raw2.csc::<I>(r, slack));
    let (k, l) = (raw.coo::<I>(r), raw2.coo::<I>(r));

    c.csc("CSR::to_csc", &a.to_csc(), m, n, false);
    c.coo("CSR::to_coo", &a.to_coo(), m, n);
    c.csr("CSC::to_csr", &p.to_csr(), n, m, false);
    c.coo("CSC::to_coo", &p.to_coo(), n, m);
    c.csr("Coo::to_csr", &k.to_csr(), m, n, false);
    c.csc("Coo::to_csc", &k.to_csc(), m, n, false);
    c.coo("Coo::t", &k.t(), n, m);

    c.csr("CSR + CSR", &(&a + &b), m, n, true);
    c.csr("CSR - CSR", &(&a - &b), m, n, true);
    c.csr("CSR - itself", &(&a - &a), m, n, true);
    c.csr("CSR + itself", &(&a + &a), m, n, true);
    c.csc("CSC + itself", &(&p + &p), n, m, true);
    c.csc("CSC - itself", &(&p - &p), n, m, true);
    c.csc("CSC::add itself", &p.add(&p).unwrap(), n, m, true);
    c.csc("CSC::subtract itself", &p.subtract(&p).unwrap(), n, m, true);
    c.csr("Coo + itself", &(&k + &k), m, n, false);
    c.csc("CSC + CSC", &(&p + &q), n, m, true);
    c.csc("CSC - CSC", &(&p - &q), n, m, true);
    c.csc("CSC::add", &p.add(&q).unwrap(), n, m, true);
    c.csc("CSC::subtract", &p.subtract(&q).unwrap(), n, m, true);
    c.csr("Coo + Coo", &(&k + &l), m, n, false);

    if !slack {
        c.csc("CSR::t", &a.t(), n, m, false);
        c.csc("CSR::transpose", &a.clone().transpose(), n, m, false);
        c.csr("CSC::t", &p.t(), m, n, false);
        c.csr("CSC::transpose", &p.transpose(), m, n, false);
        c.csr("-CSR", &(-a.clone()), m, n, false);
        c.csc("-CSC", &(-clone_csc(&p)), n, m, false);
        c.coo("-Coo", &(-k.clone()), m, n);
        let s = if r.chance(1, 6) { T::zero() } else { T::one() + T::one() };
        c.csr("CSR * scalar", &(&a * s), m, n, false);
        c.csc("CSC * scalar", &(&p * s), n, m, false);
    }
    let mut d = a.clone();
    if !d.has_canonical_format() || !slack {
        d.sum_duplicates().unwrap();
        c.csr("CSR::sum_duplicates", &d, m, n, false);
    }
    let mut e = clone_csc(&p);
    e.prune().unwrap();
    c.csc("CSC::prune", &e, n, m, false);
    e.sum_duplicates();
    c.csc("CSC::sum_duplicates", &e, n, m, false);

    // Selection from canonical operands, also with spare storage.
    let canon = Raw::<T>::random(r, m, n, &o.canonical());
    let (f, g) = (canon.csr::<I>(r, slack), canon.csc::<I>(r, slack));
    let pick = |r: &mut Rng, n: usize| -> Option<Vec<I>> {
        if n == 0 || r.chance(1, 5) {
            return if r.chance(1, 2) { None } else { Some(vec![]) };
        }
        let k = r.below(n.min(12) + 3);
        Some((0..k).map(|_| I::ix(r.below(n))).collect())
    };
    let (ri, mut ci) = (pick(r, m), pick(r, n));
    // Every chosen pair may be looked up one by one.
    if ri.as_ref().map_or(m, |v| v.len()) * ci.as_ref().map_or(n, |v| v.len()) > 3_000_000 {
        ci = Some((0..5).map(|_| I::ix(r.below(n))).collect());
    }
    let (x, y) = (ri.as_ref().map_or(m, |v| v.len()), ci.as_ref().map_or(n, |v| v.len()));
    if canon.nnz() * 2 <= I::MAX / 16 || x * y <= I::MAX {
        c.csr("CSR::select", &f.select(ri.as_deref(), ci.as_deref()).unwrap(), x, y, false);
        c.csc("CSC::select", &g.select(ci.as_deref(), ri.as_deref()).unwrap(), y, x, false);
    }

    // Stacking.
    let w = r.below(6);
    if m + w <= I::MAX && n + w <= I::MAX {
        let u = Raw::<T>::random(r, w, n, &o);
        let v = Raw::<T>::random(r, m, w, &o);
        let (uk, vk) = (u.coo::<I>(r), v.coo::<I>(r));
        c.coo("Coo::v_stack", &Coo::v_stack(&k, &uk).unwrap(), m + w, n);
        c.coo("Coo::h_stack", &Coo::h_stack(&k, &vk).unwrap(), m, n + w);
        c.csr("CSR::h_stack", &CSR::h_stack(&a, &v.csr::<I>(r, slack)).unwrap(), m, n + w, false);
        let z = Raw::<T>::random(r, w, w, &o.nnz(40));
        let zk = z.coo::<I>(r);
        c.coo("Coo::compose", &Coo::compose([[&k, &vk], [&uk, &zk]]).unwrap(), m + w, n + w);
        if raw.nnz() + u.nnz() + v.nnz() + z.nnz() <= I::MAX {
            let j = CSC::compose(&k.to_csc(), &vk.to_csc(), &uk.to_csc(), &zk.to_csc()).unwrap();
            c.csc("CSC::compose", &j, m + w, n + w, false);
        }
    }
}

fn products<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let lim = I::MAX.min(if big { 1200 } else { 60 });
    let (m, n) = dims(r, lim, false);
    let (k, _) = dims(r, lim, false);
    let o = Opt::of::<I, T>().nnz(T::PRODS).nnz(4000);
    let mut o = o;
    if I::MAX < 1000 {
        o = o.nnz(11); // so that the product always fits
    }
    let (x, mut y) = (Raw::<T>::random(r, m, n, &o), Raw::<T>::random(r, n, k, &o));
    let mut x = x;
    let k = match r.below(10) {
        0 | 1 => {
            // An identity on one side.
            let e = |n: usize| Raw { major: n, minor: n, ptr: (0..=n).collect(), idx: (0..n).collect(), val: vec![T::one(); n] };
            if r.chance(1, 2) && n <= o.maxnnz.max(11) {
                y = e(n);
                n
            } else if n <= o.maxnnz.max(11) {
                x = e(n);
                k
            } else {
                k
            }
        }
        2 => {
            y = Raw { major: n, minor: k, ptr: vec![0; n + 1], idx: vec![], val: vec![] };
            k
        }
        _ => k,
    };
    let m = x.major;
    let slack = r.chance(1, 2);
    cx.show(|| format!("{} times {}", brief::<I, T>(&x), brief::<I, T>(&y)));
    if x.nnz() > 0 && y.nnz() > 0 {
        cx.seen(x.hash() ^ y.hash().rotate_left(13));
    }
    let mut c = Chk { cx };
    let (a, b) = (x.csr::<I>(r, slack), y.csr::<I>(r, slack));
    c.csr("CSR * CSR", &(&a * &b), m, k, true);
    c.csr("CSR::mat_mat", &a.mat_mat(&b).unwrap(), m, k, true);
    let (p, q) = (x.csc::<I>(r, slack), y.csc::<I>(r, slack));
    // p is n x m and q is k x n
    c.csc("CSC * CSC", &(&q * &p), k, m, true);
    c.csc("CSC::mat_mat", &q.mat_mat(&p).unwrap(), k, m, true);
    c.csc("CSC * CSR", &(&q * &p.to_csr()), k, m, true);
    if x.major == x.minor && (I::MAX > 1000 || x.major <= 11) {
        let s = Raw::<T>::random(r, x.major, x.major, &o);
        let (s, t) = (s.csr::<I>(r, slack), s.csc::<I>(r, slack));
        c.csr("CSR * itself", &(&s * &s), m, m, true);
        c.csc("CSC * itself", &(&t * &t), m, m, true);
    }
    let ab = &a * &b;
    c.csr("product - itself", &(&ab - &ab), m, k, true);
    c.csc("(product)::to_csc", &ab.to_csc(), m, k, false);
    c.csc("(product)::t", &ab.t(), k, m, false);
}

fn build<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let (m, n) = dims(r, o.maxdim.min(300), big);
    let raw = Raw::<T>::random(r, m, n, &o);
    let d = raw.model().dense();
    let nz = raw.model().nonzeros();
    cx.show(|| brief::<I, T>(&raw));
    if nz > 0 {
        cx.seen(raw.hash());
    }
    let mut c = Chk { cx };
    let n = if m == 0 { 0 } else { n };
    c.csr("CSR::from_dense", &CSR::<I, T>::from_dense(&d), m, n, true);
    c.csc("CSC::from_dense", &CSC::<I, T>::from_dense(&d), m, n, true);
    c.coo("Coo::from_dense", &Coo::<I, T>::from_dense(&d), m, n);
    let k = m.min(o.maxnnz);
    let v: Vec<T> = (0..k).map(|_| if r.chance(1, 5) { T::zero() } else { T::gen(r) }).collect();
    c.csr("CSR::with_diagonal", &CSR::<I, T>::with_diagonal(v.clone()), k, k, false);
    c.csc("CSC::with_diagonal", &CSC::<I, T>::with_diagonal(v.clone()), k, k, false);
    c.coo("Coo::with_diagonal", &Coo::<I, T>::with_diagonal(&v), k, k);
    c.coo("Coo::identity", &Coo::<I, T>::identity(k), k, k);
    c.csr("CSR::with_size", &CSR::<I, T>::with_size(m, n), m, n, true);
    c.coo("Coo::with_size", &Coo::<I, T>::with_size(m, n), m, n);
    c.coo("Coo::with_capacity", &Coo::<I, T>::with_capacity(m, n, 5), m, n);
    let mut dok = DoK::<I, T>::new(m, n);
    if m * n > 0 {
        for (i, j, v) in raw.triplets(r, true) {
            dok.add(I::ix(i), I::ix(j), v).unwrap();
        }
    }
    c.csr("DoK::to_csr", &dok.to_csr(), m, n, true);
    c.csc("DoK::to_csc", &dok.to_csc(), m, n, true);
    c.coo("DoK::to_coo", &dok.to_coo(), m, n);
}

/// Complex parts of matrices without spare storage.
fn complex(cx: &mut Cx, r: &mut Rng, _: u64) {
    use sparsetools::{coo::CCoo, csc::CCSC, csr::CCSR};
    let o = Opt::of::<usize, Complex64>();
    let raw = Raw::<Complex64>::any(r, &o, false);
    let (m, n) = (raw.major, raw.minor);
    if raw.nnz() > 0 {
        cx.seen(raw.hash());
    }
    let mut c = Chk { cx };
    let (a, p, k) = (raw.csr::<usize>(r, false), raw.csc::<usize>(r, false), raw.coo::<usize>(r));
    c.csr("CSR::conj", &CCSR::<usize, f64, Complex64>::conj(&a), m, n, false);
    c.csr("CSR::real", &CCSR::<usize, f64, Complex64>::real(&a), m, n, false);
    c.csr("CSR::imag", &CCSR::<usize, f64, Complex64>::imag(&a), m, n, false);
    c.csc("CSR::h", &CCSR::<usize, f64, Complex64>::h(&a), n, m, false);
    c.csc("CSC::conj", &CCSC::<usize, f64, Complex64>::conj(&p), n, m, false);
    c.csc("CSC::real", &CCSC::<usize, f64, Complex64>::real(&p), n, m, false);
    c.csc("CSC::imag", &CCSC::<usize, f64, Complex64>::imag(&p), n, m, false);
    c.csr("CSC::h", &CCSC::<usize, f64, Complex64>::h(&p), m, n, false);
    c.coo("Coo::conj", &CCoo::<usize, f64>::conj(&k), m, n);
    c.coo("Coo::real", &CCoo::<usize, f64>::real(&k), m, n);
    c.coo("Coo::imag", &CCoo::<usize, f64>::imag(&k), m, n);
    c.coo("Coo::h", &CCoo::<usize, f64>::h(&k), n, m);
}

cases!(ops_case = signed ops);
cases!(ops_index = index ops);
cases!(ops_big = big ops);
cases!(products_case = signed products);
cases!(products_index = index products);
cases!(products_big = big products);
cases!(build_case = any build);

fn main() {
    run(&[
        Family { name: "ops", quick: 20_000, thorough: 800_000, f: ops_case },
        Family { name: "ops_index", quick: 4_000, thorough: 150_000, f: ops_index },
        Family { name: "ops_big", quick: 300, thorough: 20_000, f: ops_big },
        Family { name: "products", quick: 20_000, thorough: 800_000, f: products_case },
        Family { name: "products_index", quick: 4_000, thorough: 150_000, f: products_index },
        Family { name: "products_big", quick: 300, thorough: 20_000, f: products_big },
        Family { name: "build", quick: 15_000, thorough: 600_000, f: build_case },
        Family { name: "complex", quick: 3_000, thorough: 100_000, f: complex },
    ])
}
