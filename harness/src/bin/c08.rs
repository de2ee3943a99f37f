//! C08: transposes and complex parts.
use harness::*;
use sparsetools::coo::CCoo;
use sparsetools::csc::CCSC;
use sparsetools::csr::CCSR;
use sparsetools::{Complex, Float};

fn trans<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let raw = Raw::<T>::any(r, &o, big);
    trans_of::<I, T>(cx, r, raw)
}
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let raw = Raw::<T>::far::<I>(r, &Opt::of::<I, T>());
    trans_of::<I, T>(cx, r, raw)
}
cases!(far_case = far far);
fn trans_of<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, mut raw: Raw<T>) {
    raw.specials(r);
    cx.show(|| brief::<I, T>(&raw));
    let (m, n) = (raw.major, raw.minor);
    let l = raw.list();
    let f = flip(&l);
    let (a, p, k) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true), raw.coo::<I>(r));
    let (sa, sp, sk) = (bits(&snap_csr(&a)), bits(&snap_csc(&p)), bits(&snap_coo(&k)));
    let shape = |cx: &mut Cx, what: &str, s: (usize, usize), w: (usize, usize)| ck!(cx, s == w, "{}: shape {:?} instead of {:?}", what, s, w);

    let t = a.t();
    shape(cx, "CSR::t", (t.rows(), t.cols()), (n, m));
    cx.same_list("CSR::t", &f, list_csc("CSR::t", &t, Len::AtLeast));
    let tt = t.t();
    shape(cx, "CSR::t twice", (tt.rows(), tt.cols()), (m, n));
    cx.same_list("CSR::t twice", &l, list_csr("CSR::t twice", &tt, Len::AtLeast));
    let t = a.clone().transpose();
    shape(cx, "CSR::transpose", (t.rows(), t.cols()), (n, m));
    cx.same_list("CSR::transpose", &f, list_csc("CSR::transpose", &t, Len::AtLeast));
    let tt = t.transpose();
    shape(cx, "CSR::transpose twice", (tt.rows(), tt.cols()), (m, n));
    cx.same_list("CSR::transpose twice", &l, list_csr("CSR::transpose twice", &tt, Len::AtLeast));

    let t = p.t();
    shape(cx, "CSC::t", (t.rows(), t.cols()), (m, n));
    cx.same_list("CSC::t", &l, list_csr("CSC::t", &t, Len::AtLeast));
    let tt = t.t();
    shape(cx, "CSC::t twice", (tt.rows(), tt.cols()), (n, m));
    cx.same_list("CSC::t twice", &f, list_csc("CSC::t twice", &tt, Len::AtLeast));
    let t = p.transpose();
    shape(cx, "CSC::transpose", (t.rows(), t.cols()), (m, n));
    cx.same_list("CSC::transpose", &l, list_csr("CSC::transpose", &t, Len::AtLeast));

    let t = k.t();
    shape(cx, "Coo::t", (t.rows(), t.cols()), (n, m));
    cx.same_list("Coo::t", &f, list_coo("Coo::t", &t));
    let tt = t.t();
    shape(cx, "Coo::t twice", (tt.rows(), tt.cols()), (m, n));
    cx.same_list("Coo::t twice", &l, list_coo("Coo::t twice", &tt));
    let t = k.clone().transpose();
    shape(cx, "Coo::transpose", (t.rows(), t.cols()), (n, m));
    cx.same_list("Coo::transpose", &f, list_coo("Coo::transpose", &t));
    let tt = t.transpose();
    shape(cx, "Coo::transpose twice", (tt.rows(), tt.cols()), (m, n));
    cx.same_list("Coo::transpose twice", &l, list_coo("Coo::transpose twice", &tt));

    ck!(cx, sa == bits(&snap_csr(&a)) && sp == bits(&snap_csc(&p)) && sk == bits(&snap_coo(&k)), "a transpose changed its source");
    if raw.nnz() > 0 {
        cx.seen(raw.hash());
    }
}

fn bits<I: Ix, T: Val>(s: &Snap<I, T>) -> (usize, usize, Vec<I>, Vec<I>, Vec<u128>) {
    (s.rows, s.cols, s.a.clone(), s.b.clone(), s.x.iter().map(|v| v.bits()).collect())
}

/// A complex scalar with its parts.
trait CVal<F: Float + Val>: Val + Complex<F> {
    fn parts(&self) -> (F, F);
    fn with(re: F, im: F) -> Self;
    /// The conjugate, up to the sign of a zero and the payload of a NaN in the imaginary part.
    fn conj_bits(&self) -> u128;
    fn loose_bits(&self) -> u128;
}
macro_rules! cv {
    ($c:ty, $f:ty) => {
        impl CVal<$f> for $c {
            fn parts(&self) -> ($f, $f) {
                (self.re, self.im)
            }
            fn with(re: $f, im: $f) -> Self {
                <$c>::new(re, im)
            }
            fn conj_bits(&self) -> u128 {
                <$c>::new(self.re, -self.im).loose_bits()
            }
            fn loose_bits(&self) -> u128 {
                let im = if self.im.is_nan() { <$f>::NAN } else if self.im == 0.0 { 0.0 } else { self.im };
                <$c>::new(self.re, im).bits()
            }
        }
    };
}
cv!(Complex64, f64);
cv!(Complex32, f32);

fn loose<I: Ix, F: Float + Val, C: CVal<F>>(ptr: &[I], idx: &[I], val: &[C], rows: bool) -> List {
    let mut l: List = vec![];
    for i in 0..ptr.len() - 1 {
        for k in ptr[i].us()..ptr[i + 1].us() {
            let j = idx[k].us();
            l.push(if rows { (i, j, val[k].loose_bits()) } else { (j, i, val[k].loose_bits()) });
        }
    }
    l.sort_unstable();
    l
}

fn complex<I: Ix, F: Float + Val, C: CVal<F>>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, C>();
    let far = !big && I::MAX > 1 << 30 && r.chance(1, 10);
    let mut raw = if far { Raw::<C>::far::<I>(r, &o) } else { Raw::<C>::any(r, &o, big) };
    raw.specials(r);
    cx.show(|| brief::<I, C>(&raw));
    let (m, n) = (raw.major, raw.minor);
    let (a, p, k) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true), raw.coo::<I>(r));
    let (sa, sp, sk) = (bits(&snap_csr(&a)), bits(&snap_csc(&p)), bits(&snap_coo(&k)));
    let part = |f: &dyn Fn(&C) -> u128| -> List {
        let mut l: List = vec![];
        for i in 0..m {
            for q in raw.ptr[i]..raw.ptr[i + 1] {
                l.push((i, raw.idx[q], f(&raw.val[q])));
            }
        }
        l.sort_unstable();
        l
    };
    let re = part(&|v| v.parts().0.bits());
    let im = part(&|v| v.parts().1.bits());
    let cj = part(&|v| v.conj_bits());
    let shape = |cx: &mut Cx, what: &str, s: (usize, usize), w: (usize, usize)| ck!(cx, s == w, "{}: shape {:?} instead of {:?}", what, s, w);
    // CSR
    let x: CSR<I, F> = CCSR::<I, F, C>::real(&a);
    shape(cx, "CSR::real", (x.rows(), x.cols()), (m, n));
    cx.same_list("CSR::real", &re, list_csr("CSR::real", &x, Len::AtLeast));
    let x: CSR<I, F> = CCSR::<I, F, C>::imag(&a);
    shape(cx, "CSR::imag", (x.rows(), x.cols()), (m, n));
    cx.same_list("CSR::imag", &im, list_csr("CSR::imag", &x, Len::AtLeast));
    let x: CSR<I, C> = CCSR::<I, F, C>::conj(&a);
    shape(cx, "CSR::conj", (x.rows(), x.cols()), (m, n));
    cx.get(read_csr("CSR::conj", &x, Len::AtLeast));
    cx.same_list("CSR::conj", &cj, Ok(loose::<I, F, C>(x.rowptr(), x.colidx(), x.values(), true)));
    let x: CSC<I, C> = CCSR::<I, F, C>::h(&a);
    shape(cx, "CSR::h", (x.rows(), x.cols()), (n, m));
    cx.get(read_csc("CSR::h", &x, Len::AtLeast));
    cx.same_list("CSR::h", &flip(&cj), Ok(loose::<I, F, C>(x.colptr(), x.rowidx(), x.values(), false)));
    // CSC (the transpose of the same data)
    let x: CSC<I, F> = CCSC::<I, F, C>::real(&p);
    shape(cx, "CSC::real", (x.rows(), x.cols()), (n, m));
    cx.same_list("CSC::real", &flip(&re), list_csc("CSC::real", &x, Len::AtLeast));
    let x: CSC<I, F> = CCSC::<I, F, C>::imag(&p);
    shape(cx, "CSC::imag", (x.rows(), x.cols()), (n, m));
    cx.same_list("CSC::imag", &flip(&im), list_csc("CSC::imag", &x, Len::AtLeast));
    let x: CSC<I, C> = CCSC::<I, F, C>::conj(&p);
    shape(cx, "CSC::conj", (x.rows(), x.cols()), (n, m));
    cx.get(read_csc("CSC::conj", &x, Len::AtLeast));
    cx.same_list("CSC::conj", &flip(&cj), Ok(loose::<I, F, C>(x.colptr(), x.rowidx(), x.values(), false)));
    let x: CSR<I, C> = CCSC::<I, F, C>::h(&p);
    shape(cx, "CSC::h", (x.rows(), x.cols()), (m, n));
    cx.get(read_csr("CSC::h", &x, Len::AtLeast));
    cx.same_list("CSC::h", &cj, Ok(loose::<I, F, C>(x.rowptr(), x.colidx(), x.values(), true)));
    // Coo
    let coo_loose = |x: &Coo<I, C>| -> List {
        let mut l: List = (0..x.nnz()).map(|q| (x.rowidx()[q].us(), x.colidx()[q].us(), x.values()[q].loose_bits())).collect();
        l.sort_unstable();
        l
    };
    let x: Coo<I, F> = CCoo::<I, F>::real(&k);
    shape(cx, "Coo::real", (x.rows(), x.cols()), (m, n));
    cx.same_list("Coo::real", &re, list_coo("Coo::real", &x));
    let x: Coo<I, F> = CCoo::<I, F>::imag(&k);
    shape(cx, "Coo::imag", (x.rows(), x.cols()), (m, n));
    cx.same_list("Coo::imag", &im, list_coo("Coo::imag", &x));
    let x: Coo<I, C> = CCoo::<I, F>::conj(&k);
    shape(cx, "Coo::conj", (x.rows(), x.cols()), (m, n));
    cx.get(read_coo("Coo::conj", &x));
    cx.same_list("Coo::conj", &cj, Ok(coo_loose(&x)));
    let x: Coo<I, C> = CCoo::<I, F>::h(&k);
    shape(cx, "Coo::h", (x.rows(), x.cols()), (n, m));
    cx.get(read_coo("Coo::h", &x));
    cx.same_list("Coo::h", &flip(&cj), Ok(coo_loose(&x)));
    ck!(cx, sa == bits(&snap_csr(&a)) && sp == bits(&snap_csc(&p)) && sk == bits(&snap_coo(&k)), "taking a part changed the source");

    // From parts.
    let mut rr = Raw::<F>::any(r, &Opt::of::<I, F>(), big);
    rr.specials(r);
    let f = rr.csr::<I>(r, true);
    let lift = |g: &dyn Fn(F) -> C| -> List {
        let mut l: List = vec![];
        for i in 0..rr.major {
            for q in rr.ptr[i]..rr.ptr[i + 1] {
                l.push((i, rr.idx[q], g(rr.val[q]).bits()));
            }
        }
        l.sort_unstable();
        l
    };
    let x: CSR<I, C> = CCSR::<I, F, C>::with_real(&f);
    shape(cx, "with_real", (x.rows(), x.cols()), (rr.major, rr.minor));
    cx.same_list("with_real", &lift(&|v| C::with(v, F::zero())), list_csr("with_real", &x, Len::AtLeast));
    let x: CSR<I, C> = CCSR::<I, F, C>::with_imag(&f);
    shape(cx, "with_imag", (x.rows(), x.cols()), (rr.major, rr.minor));
    cx.same_list("with_imag", &lift(&|v| C::with(F::zero(), v)), list_csr("with_imag", &x, Len::AtLeast));
    cx.count("complex_matrices", 1);
    if raw.nnz() > 0 {
        cx.seen(raw.hash() ^ 0xc0);
    }
}

fn cplx(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 5 {
        0 => complex::<usize, f64, Complex64>(cx, r, false),
        1 => complex::<u8, f64, Complex64>(cx, r, false),
        2 => complex::<i32, f32, Complex32>(cx, r, false),
        3 => complex::<i16, f64, Complex64>(cx, r, false),
        _ => complex::<u64, f32, Complex32>(cx, r, false),
    }
}
fn cplx_big(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 2 {
        0 => complex::<usize, f64, Complex64>(cx, r, true),
        _ => complex::<u32, f32, Complex32>(cx, r, true),
    }
}

cases!(any_case = any trans);
cases!(index_case = index trans);
cases!(big_case = big trans);

fn main() {
    run_far(&[
        Family { name: "transpose", quick: 50_000, thorough: 2_000_000, f: any_case },
        Family { name: "index", quick: 10_000, thorough: 300_000, f: index_case },
        Family { name: "far", quick: 10_000, thorough: 300_000, f: far_case },
        Family { name: "big", quick: 1_000, thorough: 60_000, f: big_case },
        Family { name: "complex", quick: 40_000, thorough: 1_500_000, f: cplx },
        Family { name: "complex_big", quick: 600, thorough: 40_000, f: cplx_big },
    ])
}
