//! C04: matrix-vector products.
use harness::*;
use sparsetools::*;

fn vecs<T: Val>(r: &mut Rng, n: usize) -> Vec<T> {
    let z = *r.pick(&[0usize, 0, 20, 60]);
    (0..n).map(|_| if r.below(100) < z { T::zero() } else { T::gen(r) }).collect()
}

/// What an output array holds before a product is added to it.
fn prior<T: Val>(r: &mut Rng, n: usize) -> Vec<T> {
    vecs::<T>(r, n).into_iter().map(|v| v * T::unit()).collect()
}

fn same<T: Val>(cx: &mut Cx, what: &str, want: &[T], got: &[T]) {
    ck!(cx, want.len() == got.len(), "{}: {} elements instead of {}", what, got.len(), want.len());
    for i in 0..want.len() {
        ck!(cx, want[i] == got[i], "{}: element {} is {:?} instead of {:?}", what, i, got[i], want[i]);
    }
    cx.count("vectors_compared", 1);
    cx.count("elements_compared", want.len());
}

fn matvec<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>().nnz(T::PRODS);
    let raw = Raw::<T>::any(r, &o, big);
    cx.show(|| brief::<I, T>(&raw));
    let (m, n) = (raw.major, raw.minor);
    let model = raw.model();
    let mt = model.t();
    let (a, p) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true));
    let (sa, sp) = (snap_csr(&a), snap_csc(&p));
    let x = vecs::<T>(r, n);
    let xt = vecs::<T>(r, m);
    let y = model.mul_vec(&x);
    let yt = mt.mul_vec(&xt);
    match a.mat_vec(&x) {
        Ok(g) => same(cx, "CSR::mat_vec", &y, &g),
        Err(e) => cx.fail(format!("CSR::mat_vec refused: {}", e)),
    }
    match p.mat_vec(&xt) {
        Ok(g) => same(cx, "CSC::mat_vec", &yt, &g),
        Err(e) => cx.fail(format!("CSC::mat_vec refused: {}", e)),
    }
    same(cx, "&CSR * &[T]", &y, &(&a * x.as_slice()));
    same(cx, "&CSR * &Vec", &y, &(&a * &x));
    same(cx, "CSR * &[T]", &y, &(a.clone() * x.as_slice()));
    same(cx, "CSR * &Vec", &y, &(a.clone() * &x));
    same(cx, "&CSC * &[T]", &yt, &(&p * xt.as_slice()));
    same(cx, "&CSC * &Vec", &yt, &(&p * &xt));
    same(cx, "CSC * &[T]", &yt, &(clone_csc(&p) * xt.as_slice()));
    same(cx, "CSC * &Vec", &yt, &(clone_csc(&p) * &xt));
    // Kernels accumulate, and leave the rest of the output alone.
    let tail = r.below(4);
    let y0 = prior::<T>(r, m + tail);
    let sum = |y0: &[T], y: &[T]| -> Vec<T> {
        y0.iter().enumerate().map(|(i, &v)| if i < y.len() { v + y[i] } else { v }).collect()
    };
    let mut g = y0.clone();
    csr_matvec(m, n, a.rowptr(), a.colidx(), a.values(), &x, &mut g);
    same(cx, "csr_matvec", &sum(&y0, &y), &g);
    let mut g = y0.clone();
    let coo = raw.coo::<I>(r);
    coo_matvec(coo.nnz(), coo.rowidx(), coo.colidx(), coo.values(), &x, &mut g);
    same(cx, "coo_matvec", &sum(&y0, &y), &g);
    let y1 = prior::<T>(r, n + tail);
    let mut g = y1.clone();
    csc_matvec(n, m, p.colptr(), p.rowidx(), p.values(), &xt, &mut g);
    same(cx, "csc_matvec", &sum(&y1, &yt), &g);
    // Blocks of vectors.
    let k = match r.below(8) {
        0 => 0,
        1 => 1,
        2 => r.range(8, 40).min(1 + 60_000 / (1 + m + n)),
        _ => r.range(2, 7),
    };
    let times = |md: &Model<T>, x: &[T], y0: &[T]| -> Vec<T> {
        let mut y = y0.to_vec();
        for (&(i, j), &v) in &md.map {
            for c in 0..k {
                y[i * k + c] += v * x[j * k + c];
            }
        }
        y
    };
    let (xb, yb) = (vecs::<T>(r, n * k), prior::<T>(r, m * k + tail));
    let mut g = yb.clone();
    csr_matvecs(m, n, k, a.rowptr(), a.colidx(), a.values(), &xb, &mut g);
    same(cx, "csr_matvecs", &times(&model, &xb, &yb), &g);
    let (xb, yb) = (vecs::<T>(r, m * k), prior::<T>(r, n * k + tail));
    let mut g = yb.clone();
    csc_matvecs(n, m, k, p.colptr(), p.rowidx(), p.values(), &xb, &mut g);
    same(cx, "csc_matvecs", &times(&mt, &xb, &yb), &g);
    ck!(cx, sa == snap_csr(&a) && sp == snap_csc(&p), "a product changed its matrix operand");
    if raw.nnz() > 0 {
        cx.seen(raw.hash() ^ k as u64);
    }
}

cases!(any_case = any matvec);
cases!(index_case = index matvec);
cases!(big_case = big matvec);

fn main() {
    run_scaled(&[
        Family { name: "matvec", quick: 60_000, thorough: 2_500_000, f: any_case },
        Family { name: "index", quick: 12_000, thorough: 400_000, f: index_case },
        Family { name: "big", quick: 1_500, thorough: 80_000, f: big_case },
    ])
}
