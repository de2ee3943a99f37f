//! C06: sums, differences, negation and scaling.
use harness::*;

fn pair<T: Val>(r: &mut Rng, o: &Opt, big: bool) -> (Raw<T>, Raw<T>) {
    let x = Raw::<T>::any(r, o, big);
    let (m, n) = (x.major, x.minor);
    let y = match r.below(7) {
        0 => {
            // Opposite or equal values at the same places.
            let mut y = x.clone();
            for v in y.val.iter_mut() {
                *v = match r.below(4) {
                    0 => T::gen(r),
                    1 => *v,
                    _ => v.opp().unwrap_or(*v),
                };
            }
            y
        }
        1 => {
            // The same matrix stored in another order.
            let mut y = x.clone();
            for i in 0..m {
                let (s, e) = (y.ptr[i], y.ptr[i + 1]);
                let mut l: Vec<(usize, T)> = (s..e).map(|k| (y.idx[k], y.val[k])).collect();
                r.shuffle(&mut l);
                for (k, (j, v)) in l.into_iter().enumerate() {
                    y.idx[s + k] = j;
                    y.val[s + k] = v;
                }
            }
            y
        }
        2 => {
            let p = pattern(r, m, n, 5);
            store(r, p, n, o)
        }
        3 => Raw { major: m, minor: n, ptr: vec![0; m + 1], idx: vec![], val: vec![] },
        4 => Raw::<T>::random(r, m, n, &o.canonical()),
        _ => Raw::<T>::random(r, m, n, o),
    };
    if r.chance(1, 2) {
        (x, y)
    } else {
        (y, x)
    }
}

struct R<'a, T> {
    cx: &'a mut Cx,
    w: &'a Model<T>,
}
impl<'a, T: Val> R<'a, T> {
    fn csr<I: Ix>(&mut self, what: &str, g: CSR<I, T>) {
        let got = self.cx.get(read_csr(what, &g, Len::AtLeast));
        self.cx.same(what, self.w, &got);
        self.cx.count("results", 1);
    }
    fn csc<I: Ix>(&mut self, what: &str, g: CSC<I, T>) {
        let got = self.cx.get(read_csc(what, &g, Len::AtLeast));
        self.cx.same(what, self.w, &got);
        self.cx.count("results", 1);
    }
    fn coo<I: Ix>(&mut self, what: &str, g: Coo<I, T>) {
        let got = self.cx.get(read_coo(what, &g));
        self.cx.same(what, self.w, &got);
        self.cx.count("results", 1);
    }
}

fn positive<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>().nnz((I::MAX / 2).min(T::TERMS / 4));
    let (x, y) = pair::<T>(r, &o, big);
    positive_of::<I, T>(cx, r, x, y, false)
}
fn positive_ends<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let o = Opt::of::<I, T>().nnz((I::MAX / 2).min(T::TERMS / 4));
    let (x, y) = Raw::extreme_pair(r, &o, false);
    positive_of::<I, T>(cx, r, x, y, true)
}
fn positive_of<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, x: Raw<T>, y: Raw<T>, ends: bool) {
    cx.show(|| format!("{} with {}", brief::<I, T>(&x), brief::<I, T>(&y)));
    let (mx, my) = (x.model(), y.model());
    let sum = mx.zip(&my, |a, b| a + b);
    let sumt = sum.t();
    let (a, b) = (x.csr::<I>(r, true), y.csr::<I>(r, true));
    let (p, q) = (x.csc::<I>(r, true), y.csc::<I>(r, true));
    let (k, l) = (x.coo::<I>(r), y.coo::<I>(r));
    let snaps = (snap_csr(&a), snap_csr(&b), snap_csc(&p), snap_csc(&q), snap_coo(&k), snap_coo(&l));
    let form = r.below(4);
    {
        let mut c = R { cx, w: &sum };
        c.csr("&CSR + &CSR", &a + &b);
        c.csr("&Coo + &Coo", &k + &l);
        match form {
            0 => {
                c.csr("CSR + CSR", a.clone() + b.clone());
                c.csr("Coo + Coo", k.clone() + l.clone());
            }
            1 => {
                c.csr("CSR + &CSR", a.clone() + &b);
                c.csr("Coo + &Coo", k.clone() + &l);
            }
            2 => {
                c.csr("&CSR + CSR", &a + b.clone());
                c.csr("&Coo + Coo", &k + l.clone());
            }
            _ => {}
        }
    }
    {
        let mut c = R { cx, w: &sumt };
        c.csc("&CSC + &CSC", &p + &q);
        c.csc("CSC::add", CSC::add(&p, &q).unwrap());
        match form {
            0 => c.csc("CSC + CSC", clone_csc(&p) + clone_csc(&q)),
            1 => c.csc("CSC + &CSC", clone_csc(&p) + &q),
            2 => c.csc("&CSC + CSC", &p + clone_csc(&q)),
            _ => {}
        }
    }
    // Itself.
    let two = mx.zip(&mx, |a, b| a + b);
    let twot = two.t();
    R { cx, w: &two }.csr("CSR + itself", &a + &a);
    R { cx, w: &two }.csr("Coo + itself", &k + &k);
    R { cx, w: &twot }.csc("CSC + itself", &p + &p);
    R { cx, w: &twot }.csc("CSC::add itself", CSC::add(&p, &p).unwrap());
    // Scaling.
    let s = match r.below(6) {
        0 => T::zero(),
        1 => T::one(),
        _ if ends => T::one(),
        _ => plain(r),
    };
    if x.nnz() <= T::PRODS {
        let sc = mx.map_values(|v| v * s);
        let sct = sc.t();
        R { cx, w: &sc }.csr("&CSR * scalar", &a * s);
        R { cx, w: &sc }.csr("CSR * scalar", a.clone() * s);
        R { cx, w: &sct }.csc("&CSC * scalar", &p * s);
        R { cx, w: &sct }.csc("CSC * scalar", clone_csc(&p) * s);
    }
    ck!(
        cx,
        snaps == (snap_csr(&a), snap_csr(&b), snap_csc(&p), snap_csc(&q), snap_coo(&k), snap_coo(&l)),
        "an operand passed by reference changed"
    );
    if x.nnz() + y.nnz() > 0 {
        cx.seen(x.hash() ^ y.hash().rotate_left(7));
    }
}

fn signed<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>().nnz((I::MAX / 2).min(T::TERMS / 4));
    let (x, y) = pair::<T>(r, &o, big);
    signed_of::<I, T>(cx, r, x, y)
}
fn signed_ends<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng) {
    let o = Opt::of::<I, T>().nnz((I::MAX / 2).min(T::TERMS / 4));
    let (x, y) = Raw::extreme_pair(r, &o, false);
    signed_of::<I, T>(cx, r, x, y)
}
fn signed_of<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng, x: Raw<T>, y: Raw<T>) {
    cx.show(|| format!("{} with {}", brief::<I, T>(&x), brief::<I, T>(&y)));
    let (mx, my) = (x.model(), y.model());
    let dif = mx.zip(&my, |a, b| a - b);
    let dift = dif.t();
    let (a, b) = (x.csr::<I>(r, true), y.csr::<I>(r, true));
    let (p, q) = (x.csc::<I>(r, true), y.csc::<I>(r, true));
    let k = x.coo::<I>(r);
    let snaps = (snap_csr(&a), snap_csr(&b), snap_csc(&p), snap_csc(&q));
    {
        let mut c = R { cx, w: &dif };
        c.csr("&CSR - &CSR", &a - &b);
        match r.below(4) {
            0 => c.csr("CSR - CSR", a.clone() - b.clone()),
            1 => c.csr("CSR - &CSR", a.clone() - &b),
            2 => c.csr("&CSR - CSR", &a - b.clone()),
            _ => {}
        }
    }
    {
        let mut c = R { cx, w: &dift };
        c.csc("&CSC - &CSC", &p - &q);
        c.csc("CSC::subtract", p.subtract(&q).unwrap());
        match r.below(4) {
            0 => c.csc("CSC - CSC", clone_csc(&p) - clone_csc(&q)),
            1 => c.csc("CSC - &CSC", clone_csc(&p) - &q),
            2 => c.csc("&CSC - CSC", &p - clone_csc(&q)),
            _ => {}
        }
    }
    let zero = Model::new(x.major, x.minor);
    let zerot = zero.t();
    R { cx, w: &zero }.csr("CSR - itself", &a - &a);
    R { cx, w: &zerot }.csc("CSC - itself", &p - &p);
    R { cx, w: &zerot }.csc("CSC::subtract itself", p.subtract(&p).unwrap());
    let neg = mx.map_values(|v| -v);
    let negt = neg.t();
    R { cx, w: &neg }.csr("-CSR", -a.clone());
    R { cx, w: &negt }.csc("-CSC", -clone_csc(&p));
    R { cx, w: &neg }.coo("-Coo", -k.clone());
    R { cx, w: &mx }.csr("--CSR", -(-a.clone()));
    ck!(cx, snaps == (snap_csr(&a), snap_csr(&b), snap_csc(&p), snap_csc(&q)), "an operand passed by reference changed");
    if x.nnz() + y.nnz() > 0 {
        cx.seen(x.hash() ^ y.hash().rotate_left(9));
    }
}

/// Canonical operands with positions beyond what can be allocated.
fn far<I: Ix, T: SVal>(cx: &mut Cx, r: &mut Rng) {
    let o = Opt::of::<I, T>().nnz(T::TERMS / 4).canonical();
    let (m, n) = (r.range(0, 12), r.range(1, 30));
    let mut x = Raw::<T>::random(r, m, n, &o);
    let mut y = if r.chance(1, 3) { x.clone() } else { Raw::random(r, x.major, x.minor, &o) };
    for v in y.val.iter_mut() {
        if r.chance(1, 4) {
            *v = v.opp().unwrap_or(*v);
        }
    }
    let s = Rng(r.next());
    x.stretch::<I>(&mut Rng(s.0), usize::MAX);
    y.stretch::<I>(&mut Rng(s.0), usize::MAX);
    positive_of::<I, T>(cx, r, x.clone(), y.clone(), false);
    signed_of::<I, T>(cx, r, x, y)
}
cases!(far_case = far far);

/// Complex scalars on the left.
fn left<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, _: bool) {
    let _ = std::marker::PhantomData::<T>;
    let o = Opt::of::<I, Complex64>();
    let x = Raw::<Complex64>::any(r, &o, false);
    cx.show(|| brief::<I, Complex64>(&x));
    let mx = x.model();
    let s = if r.chance(1, 6) { Complex64::new(0.0, 0.0) } else { plain::<Complex64>(r) };
    let w = mx.map_values(|v| s * v);
    let wt = w.t();
    let (a, p) = (x.csr::<I>(r, true), x.csc::<I>(r, true));
    R { cx, w: &w }.csr("scalar * &CSR", s * &a);
    R { cx, w: &w }.csr("scalar * CSR", s * a.clone());
    R { cx, w: &w }.csr("&CSR * scalar", &a * s);
    R { cx, w: &wt }.csc("scalar * &CSC", s * &p);
    R { cx, w: &wt }.csc("scalar * CSC", s * clone_csc(&p));
    R { cx, w: &wt }.csc("&CSC * scalar", &p * s);
    if x.nnz() > 0 {
        cx.seen(x.hash() ^ 77);
    }
}

cases!(pos_case = any positive);
cases!(pos_index = index positive);
cases!(pos_big = big positive);
cases!(sig_case = signed signed);
cases!(sig_index = index signed);
cases!(sig_big = big signed);
cases!(left_case = index left);
fn ends_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    if i % 2 == 0 {
        dispatch_scalars!(i as usize / 2, positive_ends(cx, r))
    } else {
        dispatch_signed_scalars!(i as usize / 2, signed_ends(cx, r))
    }
}

fn main() {
    run_far(&[
        Family { name: "sums", quick: 40_000, thorough: 1_200_000, f: pos_case },
        Family { name: "sums_index", quick: 6_000, thorough: 200_000, f: pos_index },
        Family { name: "ends", quick: 12_000, thorough: 400_000, f: ends_case },
        Family { name: "sums_big", quick: 500, thorough: 30_000, f: pos_big },
        Family { name: "differences", quick: 40_000, thorough: 1_200_000, f: sig_case },
        Family { name: "differences_index", quick: 6_000, thorough: 200_000, f: sig_index },
        Family { name: "differences_big", quick: 500, thorough: 30_000, f: sig_big },
        Family { name: "far", quick: 10_000, thorough: 300_000, f: far_case },
        Family { name: "left_scaling", quick: 6_000, thorough: 200_000, f: left_case },
    ])
}
