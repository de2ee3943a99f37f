//! C27: values that are not finite, and signed zeros, stay where they belong.
use harness::rng::mix;
use harness::*;
use sparsetools::*;
use std::collections::BTreeMap;

/// Floating scalars: compared by component, a NaN equal to any NaN and the two zeros equal.
trait Fl: SVal {
    fn odd(r: &mut Rng) -> Self;
    fn like(&self, o: &Self) -> bool;
    fn finite(&self) -> bool;
    fn nan(&self) -> bool {
        self != self
    }
}
fn feq<F: PartialEq>(a: &F, b: &F) -> bool {
    a == b || (a != a && b != b)
}
macro_rules! fl {
    ($t:ty, $c:ty) => {
        impl Fl for $t {
            fn odd(r: &mut Rng) -> Self {
                match r.below(6) {
                    0 | 1 => <$t>::NAN,
                    2 => <$t>::INFINITY,
                    3 => <$t>::NEG_INFINITY,
                    4 => -0.0,
                    _ => 0.0,
                }
            }
            fn like(&self, o: &Self) -> bool {
                feq(self, o)
            }
            fn finite(&self) -> bool {
                self.is_finite()
            }
        }
        impl Fl for $c {
            fn odd(r: &mut Rng) -> Self {
                let part = |r: &mut Rng| if r.chance(1, 2) { <$t>::odd(r) } else { r.below(9) as $t - 4.0 };
                <$c>::new(part(r), part(r))
            }
            fn like(&self, o: &Self) -> bool {
                feq(&self.re, &o.re) && feq(&self.im, &o.im)
            }
            fn finite(&self) -> bool {
                self.re.is_finite() && self.im.is_finite()
            }
        }
    };
}
fl!(f64, Complex64);
fl!(f32, Complex32);

type Map<T> = BTreeMap<(usize, usize), T>;

/// A matrix some of whose entries are odd.
fn matrix<T: Fl>(r: &mut Rng, m: usize, n: usize, o: &Opt) -> Raw<T> {
    let mut raw = Raw::<T>::random(r, m, n, o);
    let p = *r.pick(&[2usize, 10, 40, 100]);
    for v in raw.val.iter_mut() {
        if r.below(100) < p {
            *v = T::odd(r);
        }
    }
    raw
}
fn vector<T: Fl>(r: &mut Rng, n: usize) -> Vec<T> {
    let p = *r.pick(&[0usize, 2, 10, 60]);
    (0..n).map(|_| if r.below(100) < p { T::odd(r) } else { T::gen(r) }).collect()
}
fn map<T: Fl>(raw: &Raw<T>) -> Map<T> {
    raw.model().map
}

/// Every position of the result: what is expected there, absent meaning zero.
fn same<T: Fl>(cx: &mut Cx, what: &str, shape: (usize, usize), want: &Map<T>, got: Result<Model<T>, String>) {
    let got = cx.get(got);
    ck!(cx, (got.rows, got.cols) == shape, "{}: shape {}x{} instead of {}x{}", what, got.rows, got.cols, shape.0, shape.1);
    for (k, w) in want {
        let g = got.map.get(k).copied().unwrap_or_else(T::zero);
        ck!(cx, g.like(w), "{}: {:?} at {:?} instead of {:?}", what, g, k, w);
        if w.nan() {
            cx.count("nan_positions", 1);
        }
    }
    for (k, g) in &got.map {
        ck!(cx, want.contains_key(k) || g.like(&T::zero()), "{}: {:?} at {:?}, where no stored entry contributes", what, g, k);
    }
    cx.count("entries_compared", want.len() + got.map.len());
    cx.count("matrices_compared", 1);
}
fn vec_same<T: Fl>(cx: &mut Cx, what: &str, want: &[T], got: &[T]) {
    ck!(cx, want.len() == got.len(), "{}: {} elements instead of {}", what, got.len(), want.len());
    for i in 0..want.len() {
        ck!(cx, got[i].like(&want[i]), "{}: {:?} at {} instead of {:?}", what, got[i], i, want[i]);
        if want[i].nan() {
            cx.count("nan_positions", 1);
        }
    }
    cx.count("entries_compared", want.len());
}
fn t<T: Copy>(m: &Map<T>) -> Map<T> {
    m.iter().map(|(k, v)| ((k.1, k.0), *v)).collect()
}

fn products<I: Ix, T: Fl>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let (m, n) = dims(r, o.maxdim, big);
    let w = dims(r, o.maxdim.min(300), false).0;
    let o = o.nnz(T::PRODS.min(I::MAX / 2));
    let x = matrix::<T>(r, m, n, &o);
    let y = matrix::<T>(r, n, w, &o);
    let work: usize = (0..m).map(|i| (x.ptr[i]..x.ptr[i + 1]).map(|k| y.ptr[x.idx[k] + 1] - y.ptr[x.idx[k]]).sum::<usize>()).sum();
    cx.show(|| format!("{} times {}", brief::<I, T>(&x), brief::<I, T>(&y)));
    cx.seen(x.hash() ^ y.hash().rotate_left(9));
    // Vectors: a stored entry times its element, nothing else.
    let v = vector::<T>(r, n);
    let vt = vector::<T>(r, m);
    let (mut wa, mut wt) = (vec![T::zero(); m], vec![T::zero(); n]);
    for i in 0..m {
        for k in x.ptr[i]..x.ptr[i + 1] {
            wa[i] += x.val[k] * v[x.idx[k]];
            wt[x.idx[k]] += x.val[k] * vt[i];
        }
    }
    let (a, p, c) = (x.csr::<I>(r, true), x.csc::<I>(r, true), x.coo::<I>(r));
    vec_same(cx, "CSR::mat_vec", &wa, &cx_get(cx, a.mat_vec(&v)));
    vec_same(cx, "CSC::mat_vec", &wt, &cx_get(cx, p.mat_vec(&vt)));
    let prior = vector::<T>(r, m);
    let mut y1 = prior.clone();
    coo_matvec(c.nnz(), c.rowidx(), c.colidx(), c.values(), &v, &mut y1);
    let wb: Vec<T> = (0..m)
        .map(|i| {
            let mut s = prior[i];
            for k in x.ptr[i]..x.ptr[i + 1] {
                s += x.val[k] * v[x.idx[k]];
            }
            s
        })
        .collect();
    vec_same(cx, "coo_matvec", &wb, &y1);
    let q = r.range(1, 4);
    let blk = vector::<T>(r, n * q);
    let mut yb = vec![T::zero(); m * q];
    csr_matvecs(m, n, q, a.rowptr(), a.colidx(), a.values(), &blk, &mut yb);
    let mut wb = vec![T::zero(); m * q];
    for i in 0..m {
        for k in x.ptr[i]..x.ptr[i + 1] {
            for b in 0..q {
                wb[i * q + b] += x.val[k] * blk[x.idx[k] * q + b];
            }
        }
    }
    vec_same(cx, "csr_matvecs", &wb, &yb);
    let blk = vector::<T>(r, m * q);
    let mut yb = vec![T::zero(); n * q];
    csc_matvecs(n, m, q, p.colptr(), p.rowidx(), p.values(), &blk, &mut yb);
    let mut wb = vec![T::zero(); n * q];
    for i in 0..m {
        for k in x.ptr[i]..x.ptr[i + 1] {
            for b in 0..q {
                wb[x.idx[k] * q + b] += x.val[k] * blk[i * q + b];
            }
        }
    }
    vec_same(cx, "csc_matvecs", &wb, &yb);
    // Matrices.
    if work > 100_000 || work > I::MAX {
        return;
    }
    let mut want: Map<T> = Map::new();
    for i in 0..m {
        for k in x.ptr[i]..x.ptr[i + 1] {
            let l = x.idx[k];
            for h in y.ptr[l]..y.ptr[l + 1] {
                *want.entry((i, y.idx[h])).or_insert_with(T::zero) += x.val[k] * y.val[h];
            }
        }
    }
    let b = y.csr::<I>(r, true);
    let d = cx_get(cx, a.mat_mat(&b));
    same(cx, "CSR::mat_mat", (m, w), &want, read_csr("CSR::mat_mat", &d, Len::AtLeast));
    let pb = y.csc::<I>(r, true);
    let d = cx_get(cx, pb.mat_mat(&p));
    same(cx, "CSC::mat_mat", (w, m), &t(&want), read_csc("CSC::mat_mat", &d, Len::AtLeast));
}

fn cx_get<R>(cx: &Cx, x: Result<R, anyhow::Error>) -> R {
    x.unwrap_or_else(|e| cx.fail(format!("refused: {}", e)))
}

fn sums<I: Ix, T: Fl>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let o = o.nnz(o.maxnnz / 2);
    let (m, n) = dims(r, o.maxdim, big);
    let x = matrix::<T>(r, m, n, &o);
    let y = if r.chance(1, 5) { x.clone() } else { matrix::<T>(r, m, n, &o) };
    cx.show(|| format!("{} and {}", brief::<I, T>(&x), brief::<I, T>(&y)));
    cx.seen(x.hash() ^ y.hash().rotate_left(9));
    let (mx, my) = (map(&x), map(&y));
    let zip = |f: &dyn Fn(T, T) -> T| -> Map<T> {
        let z = T::zero();
        let mut w: Map<T> = mx.iter().map(|(k, v)| (*k, f(*v, my.get(k).copied().unwrap_or(z)))).collect();
        for (k, v) in &my {
            w.entry(*k).or_insert_with(|| f(z, *v));
        }
        w
    };
    let (plus, minus) = (zip(&|a, b| a + b), zip(&|a, b| a - b));
    let (a, b) = (x.csr::<I>(r, true), y.csr::<I>(r, true));
    let (p, q) = (x.csc::<I>(r, true), y.csc::<I>(r, true));
    let (c, d) = (x.coo::<I>(r), y.coo::<I>(r));
    same(cx, "CSR + CSR", (m, n), &plus, read_csr("CSR + CSR", &(&a + &b), Len::AtLeast));
    same(cx, "CSR - CSR", (m, n), &minus, read_csr("CSR - CSR", &(&a - &b), Len::AtLeast));
    same(cx, "CSC + CSC", (n, m), &t(&plus), read_csc("CSC + CSC", &(&p + &q), Len::AtLeast));
    same(cx, "CSC - CSC", (n, m), &t(&minus), read_csc("CSC - CSC", &(&p - &q), Len::AtLeast));
    same(cx, "Coo + Coo", (m, n), &plus, read_csr("Coo + Coo", &(&c + &d), Len::AtLeast));
    let s = cx_get(cx, p.add(&q));
    same(cx, "CSC::add", (n, m), &t(&plus), read_csc("CSC::add", &s, Len::AtLeast));
    let s = cx_get(cx, p.subtract(&q));
    same(cx, "CSC::subtract", (n, m), &t(&minus), read_csc("CSC::subtract", &s, Len::AtLeast));
    // Nothing that is not a number may be dropped from storage.
    for (what, s, w) in [("CSR + CSR", &a + &b, &plus), ("CSR - CSR", &a - &b, &minus)] {
        let stored = (0..s.nnz()).filter(|&k| s.values()[k].nan()).count();
        let want = w.values().filter(|v| v.nan()).count();
        ck!(cx, stored == want, "{}: {} values that are not a number are stored instead of {}", what, stored, want);
    }
    // Scaling touches stored entries only.
    let f = if r.chance(1, 2) { T::odd(r) } else { T::gen(r) };
    let scaled: Map<T> = {
        let mut w = Map::new();
        for i in 0..m {
            for k in x.ptr[i]..x.ptr[i + 1] {
                *w.entry((i, x.idx[k])).or_insert_with(T::zero) += x.val[k] * f;
            }
        }
        w
    };
    same(cx, "CSR * scalar", (m, n), &scaled, read_csr("CSR * scalar", &(&a * f), Len::AtLeast));
    same(cx, "CSC * scalar", (n, m), &t(&scaled), read_csc("CSC * scalar", &(&p * f), Len::AtLeast));
    let neg: Map<T> = mx.iter().map(|(k, v)| (*k, -*v)).collect();
    same(cx, "-CSR", (m, n), &neg, read_csr("-CSR", &-a.clone(), Len::AtLeast));
    // Element-wise product and quotient on the union of the patterns.
    for (what, want, div) in [("csr_mul_csr", zip(&|a, b| a * b), false), ("csr_div_csr", zip(&|a, b| a / b), true)] {
        let room = x.nnz() + y.nnz();
        let (mut cp, mut cj, mut cv) = (vec![I::zero(); m + 1], vec![I::zero(); room], vec![T::zero(); room]);
        if div {
            csr_div_csr(m, n, a.rowptr(), a.colidx(), a.values(), b.rowptr(), b.colidx(), b.values(), &mut cp, &mut cj, &mut cv);
        } else {
            csr_mul_csr(m, n, a.rowptr(), a.colidx(), a.values(), b.rowptr(), b.colidx(), b.values(), &mut cp, &mut cj, &mut cv);
        }
        let nnz = cp[m].us();
        cj.truncate(nnz);
        cv.truncate(nnz);
        let s = CSR::new(m, n, cp, cj, cv).unwrap();
        let mut got = cx.get(read_csr(what, &s, Len::Exact));
        let mut want = want;
        if div {
            // The sign of a zero divisor is not kept by a sum, so neither is that of the quotient.
            let by_zero: Vec<(usize, usize)> = want.keys().copied().filter(|k| my.get(k).map_or(true, |v| *v == T::zero())).collect();
            for k in by_zero {
                let (w, g) = (want.remove(&k).unwrap(), got.map.remove(&k).unwrap_or_else(T::zero));
                ck!(cx, w.finite() == g.finite(), "{}: {:?} at {:?} instead of {:?}", what, g, k, w);
            }
        }
        same(cx, what, (m, n), &want, Ok(got));
    }
}

/// Merging, reading and dense forms.
fn reads<I: Ix, T: Fl>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let (m, n) = dims(r, o.maxdim, big);
    let x = matrix::<T>(r, m, n, &o);
    cx.show(|| brief::<I, T>(&x));
    cx.seen(x.hash());
    let w = map(&x);
    let (a, p, c) = (x.csr::<I>(r, true), x.csc::<I>(r, true), x.coo::<I>(r));
    let zero = T::zero();
    let at = |i: usize, j: usize| w.get(&(i, j)).copied().unwrap_or(zero);
    for _ in 0..20.min(m * n) {
        let (i, j) = (r.below(m), r.below(n));
        let g = a.get(I::ix(i), I::ix(j));
        ck!(cx, g.like(&at(i, j)), "CSR::get({}, {}) is {:?} instead of {:?}", i, j, g, at(i, j));
    }
    let d: Vec<T> = (0..m.min(n)).map(|i| at(i, i)).collect();
    vec_same(cx, "CSR::diagonal", &d, &a.diagonal());
    vec_same(cx, "CSC::diagonal", &d, &p.diagonal());
    vec_same(cx, "Coo::diagonal", &d, &c.diagonal());
    if m * n <= 30_000 {
        for (what, e, tr) in [("Coo::to_dense", c.to_dense(), false), ("CSC::to_dense", p.to_dense(), true)] {
            for i in 0..m {
                for j in 0..n {
                    let g = if tr { e[j][i] } else { e[i][j] };
                    ck!(cx, g.like(&at(i, j)), "{}: {:?} at ({}, {}) instead of {:?}", what, g, i, j, at(i, j));
                }
            }
        }
        // A value that is not a number counts as stored when reading dense rows.
        let dense: Vec<Vec<T>> = (0..m).map(|i| (0..n).map(|j| at(i, j)).collect()).collect();
        let refs: Vec<&[T]> = dense.iter().map(|v| v.as_slice()).collect();
        let (sm, sn) = (m, if m == 0 { 0 } else { n });
        same(cx, "CSR::from_dense", (sm, sn), &w, read_csr("CSR::from_dense", &CSR::<I, T>::from_dense(&dense), Len::AtLeast));
        same(cx, "CSC::from_dense", (sm, sn), &w, read_csc("CSC::from_dense", &CSC::<I, T>::from_dense(&dense), Len::AtLeast));
        same(cx, "Coo::from_dense", (sm, sn), &w, read_coo("Coo::from_dense", &Coo::<I, T>::from_dense(&dense)));
        let k = DoK::<I, T>::from_dense(&refs);
        same(cx, "DoK::from_dense", (sm, sn), &w, read_coo("DoK::to_coo", &k.to_coo()));
        let kept = w.values().filter(|v| **v != zero).count();
        for (what, k) in [("CSR", CSR::<I, T>::from_dense(&dense).nnz()), ("CSC", CSC::<I, T>::from_dense(&dense).nnz()), ("Coo", Coo::<I, T>::from_dense(&dense).nnz()), ("DoK", k.nnz())] {
            ck!(cx, k == kept, "{}::from_dense stores {} entries for {} values that are not zero", what, k, kept);
        }
        cx.count("dense_cells", m * n);
    }
    same(cx, "Coo::to_csr", (m, n), &w, read_csr("Coo::to_csr", &c.to_csr(), Len::AtLeast));
    same(cx, "Coo::to_csc", (m, n), &w, read_csc("Coo::to_csc", &c.to_csc(), Len::AtLeast));
    let mut s = a.clone();
    cx_get(cx, s.sum_duplicates());
    same(cx, "CSR::sum_duplicates", (m, n), &w, read_csr("CSR::sum_duplicates", &s, Len::AtLeast));
    let mut s = clone_csc(&p);
    s.sum_duplicates();
    same(cx, "CSC::sum_duplicates", (n, m), &t(&w), read_csc("CSC::sum_duplicates", &s, Len::AtLeast));
    // Only zeros are eliminated.
    let (mut bp, mut bj, mut bx) = (x.iptr::<I>(), x.iidx::<I>(), x.val.clone());
    csr_eliminate_zeros(m, n, &mut bp, &mut bj, &mut bx);
    let left = bp[m].us();
    let want: Vec<u128> = x.val.iter().filter(|v| **v != zero).map(|v| v.bits()).collect();
    let got: Vec<u128> = bx[..left].iter().map(|v| v.bits()).collect();
    ck!(cx, want == got, "csr_eliminate_zeros left {} values, {} are not zero", got.len(), want.len());
    // A dictionary.
    let mut k = DoK::<I, T>::new(m, n);
    let mut km: Map<T> = Map::new();
    for (i, j, v) in x.triplets(r, true).into_iter().take(300) {
        cx_get(cx, k.add(I::ix(i), I::ix(j), v));
        let e = km.entry((i, j)).or_insert_with(T::zero);
        *e += v;
    }
    same(cx, "DoK::add", (m, n), &km, read_coo("DoK::add", &k.to_coo()));
    ck!(cx, k.nnz() == km.values().filter(|v| **v != zero).count(), "DoK holds {} entries", k.nnz());
}

/// Operations that move values carry them bit for bit (every position stored once).
fn moves<I: Ix, T: Fl>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>().canonical();
    let o = o.nnz(o.maxnnz / 4).dim(o.maxdim / 3);
    let (m, n) = dims(r, o.maxdim, big);
    let mut x = Raw::<T>::random(r, m, n, &o);
    let mut y = Raw::<T>::random(r, m, n, &o);
    for v in x.val.iter_mut().chain(y.val.iter_mut()) {
        if r.chance(2, 3) {
            *v = T::special(r);
        }
    }
    cx.show(|| brief::<I, T>(&x));
    cx.seen(x.hash() ^ mix(y.hash()));
    let (lx, ly) = (x.list(), y.list());
    let (a, p, c) = (x.csr::<I>(r, false), x.csc::<I>(r, false), x.coo::<I>(r));
    let (b, q, d) = (y.csr::<I>(r, false), y.csc::<I>(r, false), y.coo::<I>(r));
    let fl = flip(&lx);
    // Negation changes the sign of every stored value, a zero's included.
    let minus: BTreeMap<(usize, usize), T> = x.triplets(r, false).into_iter().map(|e| ((e.0, e.1), -e.2)).collect();
    negated(cx, "-CSR", &minus, list_csr("-CSR", &-a.clone(), Len::AtLeast));
    negated(cx, "-Coo", &minus, list_coo("-Coo", &-c.clone()));
    cx.same_list("CSR::to_csc", &lx, list_csc("CSR::to_csc", &a.to_csc(), Len::AtLeast));
    cx.same_list("CSR::to_coo", &lx, list_coo("CSR::to_coo", &a.to_coo()));
    cx.same_list("CSC::to_csr", &fl, list_csr("CSC::to_csr", &p.to_csr(), Len::AtLeast));
    cx.same_list("CSC::to_coo", &fl, list_coo("CSC::to_coo", &p.to_coo()));
    cx.same_list("Coo::to_csr", &lx, list_csr("Coo::to_csr", &c.to_csr(), Len::AtLeast));
    cx.same_list("Coo::to_csc", &lx, list_csc("Coo::to_csc", &c.to_csc(), Len::AtLeast));
    cx.same_list("CSR::t", &fl, list_csc("CSR::t", &a.t(), Len::AtLeast));
    cx.same_list("CSC::t", &lx, list_csr("CSC::t", &p.t(), Len::AtLeast));
    cx.same_list("Coo::t", &fl, list_coo("Coo::t", &c.t()));
    let right: List = sorted(lx.iter().copied().chain(ly.iter().map(|e| (e.0, e.1 + n, e.2))));
    let below: List = sorted(lx.iter().copied().chain(ly.iter().map(|e| (e.0 + m, e.1, e.2))));
    cx.same_list("Coo::h_stack", &right, list_coo("Coo::h_stack", &cx_get(cx, Coo::h_stack(&c, &d))));
    cx.same_list("Coo::v_stack", &below, list_coo("Coo::v_stack", &cx_get(cx, Coo::v_stack(&c, &d))));
    cx.same_list("CSR::h_stack", &right, list_csr("CSR::h_stack", &cx_get(cx, CSR::h_stack(&a, &b)), Len::AtLeast));
    let four = sorted(right.iter().copied().chain(ly.iter().map(|e| (e.0 + m, e.1, e.2))).chain(lx.iter().map(|e| (e.0 + m, e.1 + n, e.2))));
    cx.same_list("Coo::compose", &four, list_coo("Coo::compose", &cx_get(cx, Coo::compose([[&c, &d], [&d, &c]]))));
    cx.same_list("CSC::compose", &cscfour(&lx, &ly, m, n), list_csc("CSC::compose", &cx_get(cx, CSC::compose(&p, &q, &q, &p)), Len::AtLeast));
    // Selection.
    if m > 0 && n > 0 {
        let (ri, ci): (Vec<usize>, Vec<usize>) = ((0..r.range(1, 10)).map(|_| r.below(m)).collect(), (0..r.range(1, 10)).map(|_| r.below(n)).collect());
        let mut want: List = vec![];
        for (s, &i) in ri.iter().enumerate() {
            for (u, &j) in ci.iter().enumerate() {
                if let Ok(k) = x.idx[x.ptr[i]..x.ptr[i + 1]].binary_search(&j) {
                    want.push((s, u, x.val[x.ptr[i] + k].bits()));
                }
            }
        }
        want.sort_unstable();
        // Selected zeros may be stored or not.
        let zeros = |l: &List| -> List { l.iter().copied().filter(|e| !zero_bits::<T>(e.2)).collect() };
        let (ir, ic): (Vec<I>, Vec<I>) = (ri.iter().map(|&k| I::ix(k)).collect(), ci.iter().map(|&k| I::ix(k)).collect());
        let got = cx.get(list_csr("CSR::select", &cx_get(cx, a.select(Some(&ir), Some(&ic))), Len::AtLeast));
        cx.same_list("CSR::select", &zeros(&want), Ok(zeros(&got)));
        let got = cx.get(list_csc("CSC::select", &cx_get(cx, p.select(Some(&ic), Some(&ir))), Len::AtLeast));
        cx.same_list("CSC::select", &flip(&zeros(&want)), Ok(zeros(&got)));
    }
}
fn negated<T: Fl>(cx: &mut Cx, what: &str, want: &Map<T>, got: Result<List, String>) {
    let got = cx.get(got);
    ck!(cx, got.len() == want.len(), "{}: {} entries instead of {}", what, got.len(), want.len());
    for (i, j, b) in got {
        let w = want.get(&(i, j));
        // The sign of a value that is not a number is not told by arithmetic.
        ck!(cx, w.map_or(false, |v| v.nan() || v.bits() == b), "{}: bits {:x} at ({}, {}) instead of {:?}", what, b, i, j, w);
    }
}
fn zero_bits<T: Fl>(b: u128) -> bool {
    b == T::zero().bits() || b == (-T::zero()).bits() || (T::NAME.starts_with("Complex") && {
        let (re, im) = ((b >> 64) as u64, b as u64);
        let z = |x: u64| x == 0 || x == if T::NAME == "Complex32" { 1 << 31 } else { 1 << 63 };
        z(re) && z(im)
    })
}
fn sorted(i: impl Iterator<Item = (usize, usize, u128)>) -> List {
    let mut l: List = i.collect();
    l.sort_unstable();
    l
}
fn cscfour(lx: &List, ly: &List, m: usize, n: usize) -> List {
    // The CSC operands are the transposes, n x m each.
    let (fx, fy) = (flip(lx), flip(ly));
    sorted(
        fx.iter()
            .copied()
            .chain(fy.iter().map(|e| (e.0, e.1 + m, e.2)))
            .chain(fy.iter().map(|e| (e.0 + n, e.1, e.2)))
            .chain(fx.iter().map(|e| (e.0 + n, e.1 + m, e.2))),
    )
}

/// The tiniest and largest finite values: every result is one operation on values stored once, so it is exact.
fn extremes<I: Ix, T: Fl>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>().canonical();
    let o = o.nnz(o.maxnnz / 2);
    let (m, n) = dims(r, o.maxdim, big);
    let mut x = Raw::<T>::random(r, m, n, &o);
    for v in x.val.iter_mut() {
        if *v != T::zero() {
            *v = T::extreme(r);
        }
    }
    // The other operand shares places, and often almost the same values.
    let mut y = if r.chance(1, 2) { x.clone() } else { Raw::<T>::random(r, m, n, &o) };
    for v in y.val.iter_mut() {
        *v = match r.below(8) {
            0 => *v,
            1 if *v != T::zero() => -*v,
            2 => T::zero(),
            _ => T::extreme(r),
        };
    }
    cx.show(|| format!("{} and {}", brief::<I, T>(&x), brief::<I, T>(&y)));
    cx.seen(x.hash() ^ y.hash().rotate_left(9));
    let (mx, my) = (map(&x), map(&y));
    let z = T::zero();
    let zip = |f: &dyn Fn(T, T) -> T| -> Map<T> {
        let mut w: Map<T> = mx.iter().map(|(k, v)| (*k, f(*v, my.get(k).copied().unwrap_or(z)))).collect();
        for (k, v) in &my {
            w.entry(*k).or_insert_with(|| f(z, *v));
        }
        w
    };
    let (plus, minus) = (zip(&|a, b| a + b), zip(&|a, b| a - b));
    let (a, b) = (x.csr::<I>(r, true), y.csr::<I>(r, true));
    let (p, q) = (x.csc::<I>(r, true), y.csc::<I>(r, true));
    let (c, d) = (x.coo::<I>(r), y.coo::<I>(r));
    same(cx, "CSR + CSR", (m, n), &plus, read_csr("CSR + CSR", &(&a + &b), Len::AtLeast));
    same(cx, "CSR - CSR", (m, n), &minus, read_csr("CSR - CSR", &(&a - &b), Len::AtLeast));
    same(cx, "CSC + CSC", (n, m), &t(&plus), read_csc("CSC + CSC", &(&p + &q), Len::AtLeast));
    same(cx, "CSC - CSC", (n, m), &t(&minus), read_csc("CSC - CSC", &(&p - &q), Len::AtLeast));
    same(cx, "Coo + Coo", (m, n), &plus, read_csr("Coo + Coo", &(&c + &d), Len::AtLeast));
    let f = T::extreme(r);
    let scaled: Map<T> = mx.iter().map(|(k, v)| (*k, *v * f)).collect();
    same(cx, "CSR * scalar", (m, n), &scaled, read_csr("CSR * scalar", &(&a * f), Len::AtLeast));
    same(cx, "CSC * scalar", (n, m), &t(&scaled), read_csc("CSC * scalar", &(&p * f), Len::AtLeast));
    for (what, k, want) in [("csr_add_csr", 0, plus), ("csr_sub_csr", 1, minus), ("csr_mul_csr", 2, zip(&|a, b| a * b)), ("csr_div_csr", 3, zip(&|a, b| a / b))] {
        let room = x.nnz() + y.nnz();
        let (mut cp, mut cj, mut cv) = (vec![I::zero(); m + 1], vec![I::zero(); room], vec![T::zero(); room]);
        let f = [csr_add_csr::<I, T>, csr_sub_csr::<I, T>, csr_mul_csr::<I, T>, csr_div_csr::<I, T>][k];
        f(m, n, a.rowptr(), a.colidx(), a.values(), b.rowptr(), b.colidx(), b.values(), &mut cp, &mut cj, &mut cv);
        let nnz = cp[m].us();
        cj.truncate(nnz);
        cv.truncate(nnz);
        // Zero results are not kept, any other is, however small.
        let kept = want.values().filter(|v| **v != z).count();
        ck!(cx, nnz == kept, "{} stores {} entries for {} results that are not zero", what, nnz, kept);
        let s = CSR::new(m, n, cp, cj, cv).unwrap();
        same(cx, what, (m, n), &want, read_csr(what, &s, Len::Exact));
    }
    // One product each: a diagonal matrix on either side.
    let (dm, dn): (Vec<T>, Vec<T>) = ((0..m).map(|_| T::extreme(r)).collect(), (0..n).map(|_| T::extreme(r)).collect());
    let line = |v: &[T]| CSR::<I, T>::new(v.len(), v.len(), (0..=v.len()).map(|k| I::ix(k)).collect(), (0..v.len()).map(|k| I::ix(k)).collect(), v.to_vec()).unwrap();
    let by_row: Map<T> = mx.iter().map(|(k, v)| (*k, dm[k.0] * *v)).collect();
    let by_col: Map<T> = mx.iter().map(|(k, v)| (*k, *v * dn[k.1])).collect();
    for (what, g, w) in [("diagonal * CSR", cx_get(cx, line(&dm).mat_mat(&a)), &by_row), ("CSR * diagonal", cx_get(cx, a.mat_mat(&line(&dn))), &by_col)] {
        same(cx, what, (m, n), w, read_csr(what, &g, Len::AtLeast));
    }
    let mut v = x.val.clone();
    csr_scale_rows(m, n, a.rowptr(), a.colidx(), &mut v, &dm);
    let s = CSR::new(m, n, a.rowptr().to_vec(), a.colidx().to_vec(), v).unwrap();
    same(cx, "csr_scale_rows", (m, n), &by_row, read_csr("csr_scale_rows", &s, Len::AtLeast));
    // What counts as stored.
    let kept: List = sorted(x.list().into_iter().filter(|e| !zero_bits::<T>(e.2)));
    let (mut bp, mut bj, mut bx) = (x.iptr::<I>(), x.iidx::<I>(), x.val.clone());
    csr_eliminate_zeros(m, n, &mut bp, &mut bj, &mut bx);
    let left = bp[m].us();
    ck!(cx, left == kept.len(), "csr_eliminate_zeros left {} values, {} are not zero", left, kept.len());
    if m * n <= 20_000 && m > 0 {
        let dense: Vec<Vec<T>> = (0..m).map(|i| (0..n).map(|j| mx.get(&(i, j)).copied().unwrap_or(z)).collect()).collect();
        let refs: Vec<&[T]> = dense.iter().map(|v| v.as_slice()).collect();
        cx.same_list("CSR::from_dense", &kept, list_csr("CSR::from_dense", &CSR::<I, T>::from_dense(&dense), Len::AtLeast));
        cx.same_list("CSC::from_dense", &kept, list_csc("CSC::from_dense", &CSC::<I, T>::from_dense(&dense), Len::AtLeast));
        cx.same_list("Coo::from_dense", &kept, list_coo("Coo::from_dense", &Coo::<I, T>::from_dense(&dense)));
        cx.same_list("DoK::from_dense", &kept, list_coo("DoK::to_coo", &DoK::<I, T>::from_dense(&refs).to_coo()));
    }
    if x.nnz() + y.nnz() <= 2000 {
        let mut k = DoK::<I, T>::new(m, n);
        for (i, j, v) in x.triplets(r, true) {
            cx_get(cx, k.set(I::ix(i), I::ix(j), v));
        }
        cx.same_list("DoK::set", &kept, list_coo("DoK::to_coo", &k.to_coo()));
        let mut w: Map<T> = mx.clone();
        for (n, (i, j, v)) in y.triplets(r, true).into_iter().enumerate() {
            let e = w.entry((i, j)).or_insert(z);
            if n % 2 == 0 {
                cx_get(cx, k.add(I::ix(i), I::ix(j), v));
                *e += v;
            } else {
                cx_get(cx, k.sub(I::ix(i), I::ix(j), v));
                *e -= v;
            }
        }
        ck!(cx, k.nnz() == w.values().filter(|v| **v != z).count(), "DoK holds {} entries", k.nnz());
        same(cx, "DoK", (m, n), &w, read_csr("DoK::to_csr", &k.to_csr(), Len::AtLeast));
    }
    cx.count("extreme_values", x.nnz() + y.nnz());
}

macro_rules! fam {
    ($($n:ident $b:ident $f:ident),*) => { $(
        fn $n(cx: &mut Cx, r: &mut Rng, i: u64) {
            match i % 7 {
                0 | 1 => $f::<usize, f64>(cx, r, false),
                2 => $f::<u16, f32>(cx, r, false),
                3 => $f::<usize, Complex64>(cx, r, false),
                4 => $f::<i32, Complex32>(cx, r, false),
                5 => $f::<i8, f64>(cx, r, false),
                _ => $f::<u8, f64>(cx, r, false),
            }
        }
        fn $b(cx: &mut Cx, r: &mut Rng, i: u64) {
            match i % 2 {
                0 => $f::<usize, f64>(cx, r, true),
                _ => $f::<u32, Complex64>(cx, r, true),
            }
        }
    )* };
}
fam!(pr prb products, su sub sums, rd rdb reads, mv mvb moves, ex exb extremes);

fn main() {
    run(&[
        Family { name: "products", quick: 24_000, thorough: 600_000, f: pr },
        Family { name: "products_big", quick: 400, thorough: 10_000, f: prb },
        Family { name: "sums", quick: 20_000, thorough: 500_000, f: su },
        Family { name: "sums_big", quick: 300, thorough: 10_000, f: sub },
        Family { name: "reads", quick: 20_000, thorough: 500_000, f: rd },
        Family { name: "reads_big", quick: 300, thorough: 10_000, f: rdb },
        Family { name: "moves", quick: 20_000, thorough: 500_000, f: mv },
        Family { name: "moves_big", quick: 300, thorough: 10_000, f: mvb },
        Family { name: "extremes", quick: 16_000, thorough: 400_000, f: ex },
        Family { name: "extremes_big", quick: 300, thorough: 10_000, f: exb },
    ])
}
