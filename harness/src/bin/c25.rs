//! C25: constructors and accessors.
use harness::rng::mix;
use harness::*;

fn dense<T: Val>(r: &mut Rng, big: bool, max: usize, terms: usize) -> Vec<Vec<T>> {
    let (mut m, mut n) = dims(r, max, big);
    while m * n > 40_000 || m * n > terms {
        if m > n {
            m /= 2
        } else {
            n /= 2
        }
    }
    let p = *r.pick(&[0usize, 5, 30, 60, 100]);
    let odd = *r.pick(&[0usize, 0, 5, 30, 100]);
    let ends = r.chance(1, 4);
    (0..m).map(|_| (0..n).map(|_| if r.below(100) >= p { T::zero() } else if r.below(100) < odd { T::special(r) } else if ends { T::extreme(r) } else { T::gen(r) }).collect()).collect()
}
fn equal<T: Val>(a: &[Vec<T>], b: &[Vec<T>]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.len() == y.len() && x.iter().zip(y).all(|(v, w)| v.same_bits(w)))
}
/// Stored diagonal entries are the values given, bit for bit; only zeros may be left out.
fn diag<T: Val>(cx: &mut Cx, what: &str, v: &[T], got: Result<List, String>) {
    let got = cx.get(got);
    let mut left: Vec<bool> = v.iter().map(|x| *x != T::zero()).collect();
    for (i, j, b) in got {
        ck!(cx, i == j && i < v.len() && b == v[i].bits(), "{}: entry ({}, {}) with bits {:x} of {:?}", what, i, j, b, v.get(i));
        left[i] = false;
    }
    if let Some(i) = left.iter().position(|x| *x) {
        cx.fail(format!("{}: nothing stored at ({}, {}) for {:?}", what, i, i, v[i]))
    }
    cx.count("diagonal_values", v.len());
}

fn from_dense<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let d = dense::<T>(r, big, I::MAX, I::MAX);
    let want = Model::from_dense(&d);
    let (m, n) = (want.rows, want.cols);
    cx.show(|| format!("dense {}x{} with {} non-zeros, index {} value {}", m, n, want.occupied(), I::NAME, T::NAME));
    cx.seen(mix(m as u64 ^ (n as u64) << 20) ^ want.map.keys().take(60).fold(1, |h, k| mix(h ^ k.0 as u64 ^ (k.1 as u64) << 20)));
    let before = d.clone();
    let list: List = want.map.iter().map(|(k, v)| (k.0, k.1, v.bits())).collect();
    let a = CSR::<I, T>::from_dense(&d);
    ck!(cx, (a.rows(), a.cols(), a.nnz()) == (m, n, list.len()), "CSR::from_dense is {}x{} with {} entries instead of {}x{} with {}", a.rows(), a.cols(), a.nnz(), m, n, list.len());
    cx.same_list("CSR::from_dense", &list, list_csr("CSR::from_dense", &a, Len::Exact));
    let p = CSC::<I, T>::from_dense(&d);
    ck!(cx, (p.rows(), p.cols()) == (m, n) && p.shape() == (m, n), "CSC::from_dense is {}x{}, shape {:?}, instead of {}x{}", p.rows(), p.cols(), p.shape(), m, n);
    cx.same_list("CSC::from_dense", &list, list_csc("CSC::from_dense", &p, Len::Exact));
    let c = Coo::<I, T>::from_dense(&d);
    ck!(cx, (c.rows(), c.cols()) == (m, n), "Coo::from_dense is {}x{} instead of {}x{}", c.rows(), c.cols(), m, n);
    cx.same_list("Coo::from_dense", &list, list_coo("Coo::from_dense", &c));
    let refs: Vec<&[T]> = d.iter().map(|x| x.as_slice()).collect();
    let k = DoK::<I, T>::from_dense(&refs);
    ck!(cx, (k.rows(), k.cols(), k.nnz()) == (m, n, list.len()), "DoK::from_dense is {}x{} with {} entries instead of {}x{} with {}", k.rows(), k.cols(), k.nnz(), m, n, list.len());
    for (&(i, j), &v) in &want.map {
        ck!(cx, k.get(I::ix(i), I::ix(j)).same_bits(&v), "DoK::from_dense holds {:?} at ({}, {}) instead of {:?}", k.get(I::ix(i), I::ix(j)), i, j, v);
    }
    ck!(cx, k.keys().count() == list.len(), "DoK::from_dense has {} keys instead of {}", k.keys().count(), list.len());
    ck!(cx, equal(&d, &before), "from_dense changed its input");
    cx.count("constructed", 4);
}

fn sizes<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let (m, n) = dims(r, I::MAX, big);
    let cap = r.below(200);
    cx.show(|| format!("size {}x{}, index {} value {}", m, n, I::NAME, T::NAME));
    cx.seen(mix(m as u64 ^ (n as u64) << 20));
    let empty = Model::new(m, n);
    let a = CSR::<I, T>::with_size(m, n);
    let got = cx.get(read_csr("CSR::with_size", &a, Len::Exact));
    cx.same("CSR::with_size", &empty, &got);
    ck!(cx, a.nnz() == 0, "CSR::with_size stores {} entries", a.nnz());
    for (what, c) in [("Coo::with_size", Coo::<I, T>::with_size(m, n)), ("Coo::with_capacity", Coo::<I, T>::with_capacity(m, n, cap))] {
        let got = cx.get(read_coo(what, &c));
        cx.same(what, &empty, &got);
        ck!(cx, c.nnz() == 0 && c.rowidx().is_empty() && c.colidx().is_empty(), "{} stores {} entries", what, c.nnz());
    }
    for (what, d) in [("DoK::new", DoK::<I, T>::new(m, n)), ("DoK::with_capacity", DoK::<I, T>::with_capacity(m, n, cap))] {
        ck!(cx, (d.rows(), d.cols(), d.nnz()) == (m, n, 0) && d.is_empty(), "{} is {}x{} with {} entries", what, d.rows(), d.cols(), d.nnz());
    }
    // Diagonals and identities; a zero on the diagonal may be stored or not.
    let k = m.min(if big && r.chance(1, 2) { 80_000 } else { 3000 });
    let zp = *r.pick(&[0usize, 0, 20, 100]);
    let odd = *r.pick(&[0usize, 0, 10, 60, 100]);
    let v: Vec<T> = (0..k).map(|_| if r.below(100) < zp { T::zero() } else if r.below(100) < odd { T::special(r) } else { T::gen(r) }).collect();
    let mut im = Model::new(k, k);
    for i in 0..k {
        im.map.insert((i, i), T::one());
    }
    let a = CSR::<I, T>::with_diagonal(v.clone());
    ck!(cx, (a.rows(), a.cols()) == (k, k), "CSR::with_diagonal is {}x{} for {} values", a.rows(), a.cols(), k);
    diag(cx, "CSR::with_diagonal", &v, list_csr("CSR::with_diagonal", &a, Len::Exact));
    let p = CSC::<I, T>::with_diagonal(v.clone());
    ck!(cx, (p.rows(), p.cols()) == (k, k), "CSC::with_diagonal is {}x{} for {} values", p.rows(), p.cols(), k);
    diag(cx, "CSC::with_diagonal", &v, list_csc("CSC::with_diagonal", &p, Len::Exact));
    let c = Coo::<I, T>::with_diagonal(&v);
    ck!(cx, (c.rows(), c.cols()) == (k, k), "Coo::with_diagonal is {}x{} for {} values", c.rows(), c.cols(), k);
    diag(cx, "Coo::with_diagonal", &v, list_coo("Coo::with_diagonal", &c));
    let c = Coo::<I, T>::identity(k);
    let got = cx.get(read_coo("Coo::identity", &c));
    cx.same("Coo::identity", &im, &got);
    ck!(cx, c.nnz() == k, "Coo::identity({}) stores {} entries", k, c.nnz());
    cx.count("constructed", 9);
}

/// The arrays given are the arrays read back.
fn arrays<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let far = !big && I::MAX > 1 << 30 && r.chance(1, 8);
    let mut raw = if far { Raw::<T>::far::<I>(r, &o) } else { Raw::<T>::any(r, &o, big) };
    raw.specials(r);
    cx.show(|| brief::<I, T>(&raw));
    cx.seen(raw.hash() ^ raw.features());
    let (m, n, nnz) = (raw.major, raw.minor, raw.nnz());
    let (mut idx, mut val) = (raw.iidx::<I>(), raw.val.clone());
    if r.chance(1, 2) {
        for _ in 0..r.below(7) {
            idx.push(I::ix(r.below(5)));
        }
        for _ in 0..r.below(7) {
            val.push(T::special(r));
        }
    }
    let bits = |v: &[T]| v.iter().map(|x| x.bits()).collect::<Vec<_>>();
    let a = CSR::new(m, n, raw.iptr::<I>(), idx.clone(), val.clone()).unwrap();
    ck!(cx, (a.rows(), a.cols(), a.nnz()) == (m, n, nnz), "CSR::new reports {}x{}, {} entries instead of {}x{}, {}", a.rows(), a.cols(), a.nnz(), m, n, nnz);
    ck!(cx, a.rowptr() == &raw.iptr::<I>()[..], "CSR::rowptr differs from the array given");
    ck!(cx, a.colidx().get(..nnz) == Some(&idx[..nnz]), "CSR::colidx differs from the array given");
    ck!(cx, a.values().len() >= nnz && bits(&a.values()[..nnz]) == bits(&val[..nnz]), "CSR::values differs from the array given");
    let p = CSC::new(n, m, idx.clone(), raw.iptr::<I>(), val.clone()).unwrap();
    ck!(cx, (p.rows(), p.cols(), p.nnz(), p.shape()) == (n, m, nnz, (n, m)), "CSC::new reports {}x{}, {} entries instead of {}x{}, {}", p.rows(), p.cols(), p.nnz(), n, m, nnz);
    ck!(cx, p.colptr() == &raw.iptr::<I>()[..], "CSC::colptr differs from the array given");
    ck!(cx, p.rowidx().get(..nnz) == Some(&idx[..nnz]), "CSC::rowidx differs from the array given");
    ck!(cx, p.values().len() >= nnz && bits(&p.values()[..nnz]) == bits(&val[..nnz]), "CSC::values differs from the array given");
    let t = raw.triplets(r, true);
    let (ri, ci, v): (Vec<I>, Vec<I>, Vec<T>) = (t.iter().map(|e| I::ix(e.0)).collect(), t.iter().map(|e| I::ix(e.1)).collect(), t.iter().map(|e| e.2).collect());
    let c = Coo::new(m, n, ri.clone(), ci.clone(), v.clone()).unwrap();
    ck!(cx, (c.rows(), c.cols(), c.nnz()) == (m, n, nnz), "Coo::new reports {}x{}, {} entries instead of {}x{}, {}", c.rows(), c.cols(), c.nnz(), m, n, nnz);
    ck!(cx, c.rowidx() == &ri[..] && c.colidx() == &ci[..] && bits(c.values()) == bits(&v), "Coo arrays differ from those given");
    cx.count("constructed", 3);
    // Copies are independent, and a write touches one entry.
    if nnz == 0 {
        return;
    }
    let k = r.below(nnz);
    let w = loop {
        let w = T::gen(r);
        if !w.same_bits(&val[k]) {
            break w;
        }
    };
    let with = |v: &[T], k: usize| {
        let mut b = bits(v);
        b[k] = w.bits();
        b
    };
    macro_rules! write {
        ($what:expr, $x:expr, $copy:expr, $orig:expr, $ptrs:expr) => {{
            let mut x = $x;
            let mut y = $copy(&x);
            let kept = ($ptrs)(&x);
            y.values_mut()[k] = w;
            ck!(cx, bits(&x.values()[..nnz]) == bits(&$orig[..nnz]), "{}: writing to a copy changed the original", $what);
            ck!(cx, bits(&y.values()[..nnz]) == with(&$orig[..nnz], k), "{}: writing entry {} changed something else", $what, k);
            ck!(cx, ($ptrs)(&y) == kept && y.nnz() == nnz, "{}: writing an entry changed the indices", $what);
            let z = $copy(&y);
            x.values_mut()[k] = w;
            x.values_mut().iter_mut().for_each(|v| *v = T::one());
            ck!(cx, bits(z.values()) == bits(y.values()), "{}: writing to the original changed a copy", $what);
            ck!(cx, x.values()[..nnz].iter().all(|v| *v == T::one()) && ($ptrs)(&x) == kept, "{}: writing every value", $what);
            cx.count("writes_observed", nnz + 1);
        }};
    }
    write!("CSR", a, |x: &CSR<I, T>| x.clone(), val, |x: &CSR<I, T>| (x.rowptr().to_vec(), x.colidx().to_vec(), x.rows(), x.cols()));
    write!("Coo", c, |x: &Coo<I, T>| x.clone(), v, |x: &Coo<I, T>| (x.rowidx().to_vec(), x.colidx().to_vec(), x.rows(), x.cols()));
    write!("CSC", p, |x: &CSC<I, T>| clone_csc(x), val, |x: &CSC<I, T>| (x.colptr().to_vec(), x.rowidx().to_vec(), x.rows(), x.cols()));
}

/// Sizes of which nothing can be allocated.
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let (m, n) = match r.below(3) {
        0 => (far_dim(r, I::MAX), r.below(50)),
        1 => (r.below(50), far_dim(r, I::MAX)),
        _ => (far_dim(r, I::MAX), far_dim(r, I::MAX)),
    };
    cx.show(|| format!("size {}x{}, index {} value {}", m, n, I::NAME, T::NAME));
    cx.seen(mix(m as u64 ^ (n as u64).rotate_left(20)));
    let cap = r.below(200);
    for (what, c) in [("Coo::with_size", Coo::<I, T>::with_size(m, n)), ("Coo::with_capacity", Coo::<I, T>::with_capacity(m, n, cap)), ("Coo::new", Coo::new(m, n, vec![], vec![], vec![]).unwrap())] {
        ck!(cx, (c.rows(), c.cols(), c.nnz()) == (m, n, 0), "{} is {}x{} with {} entries instead of {}x{} with none", what, c.rows(), c.cols(), c.nnz(), m, n);
    }
    for (what, d) in [("DoK::new", DoK::<I, T>::new(m, n)), ("DoK::with_capacity", DoK::<I, T>::with_capacity(m, n, cap))] {
        ck!(cx, (d.rows(), d.cols(), d.nnz()) == (m, n, 0) && d.is_empty(), "{} is {}x{} with {} entries", what, d.rows(), d.cols(), d.nnz());
    }
    if m < FAR - 100 {
        let a = CSR::<I, T>::with_size(m, n);
        ck!(cx, (a.rows(), a.cols(), a.nnz()) == (m, n, 0), "CSR::with_size is {}x{} with {} entries instead of {}x{}", a.rows(), a.cols(), a.nnz(), m, n);
    }
    cx.count("constructed", 6);
}
cases!(far_case = far far);

/// Histories of push, extend, write and clone on a coordinate matrix.
fn history<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let far = !big && I::MAX > 1 << 30 && r.chance(1, 8);
    let (m, n) = if far { (r.range(1, 20), far_dim(r, I::MAX)) } else { dims(r, I::MAX, big) };
    let mut start = r.below(4);
    if far && start == 3 {
        start = 0;
    }
    let mut list: Vec<(usize, usize, T)> = vec![];
    let mut c: Coo<I, T> = match start {
        0 => Coo::with_size(m, n),
        1 => Coo::with_capacity(m, n, r.below(30)),
        2 => Coo::new(m, n, vec![], vec![], vec![]).unwrap(),
        _ => {
            let o = Opt::of::<I, T>().nnz(200);
            let raw = Raw::<T>::random(r, m, n, &o);
            list = raw.triplets(r, true);
            Coo::new(m, n, list.iter().map(|e| I::ix(e.0)).collect(), list.iter().map(|e| I::ix(e.1)).collect(), list.iter().map(|e| e.2).collect()).unwrap()
        }
    };
    let mut kept: Option<(Coo<I, T>, Vec<(usize, usize, T)>)> = None;
    let limit = I::MAX.min(T::TERMS).min(3000);
    let mut h = mix(m as u64 ^ (n as u64) << 30 ^ start as u64);
    let steps = r.range(1, 14);
    let mut ops = vec![];
    for _ in 0..steps {
        let op = r.below(6);
        ops.push(op);
        h = mix(h ^ op as u64 ^ (list.len() as u64) << 8);
        let val = |r: &mut Rng| if r.chance(1, 6) { T::zero() } else { T::gen(r) };
        match op {
            0 | 1 if m > 0 && n > 0 && list.len() < limit => {
                let e = (r.below(m), r.below(n), val(r));
                c.push(I::ix(e.0), I::ix(e.1), e.2);
                list.push(e);
            }
            2 | 3 if m > 0 && n > 0 => {
                let k = r.below(if big { 400 } else { 12 }).min(limit - list.len().min(limit));
                let e: Vec<(usize, usize, T)> = (0..k).map(|_| (r.below(m), r.below(n), val(r))).collect();
                let (a, b, v): (Vec<I>, Vec<I>, Vec<T>) = (e.iter().map(|e| I::ix(e.0)).collect(), e.iter().map(|e| I::ix(e.1)).collect(), e.iter().map(|e| e.2).collect());
                c.extend(&a, &b, &v);
                list.extend(e);
            }
            4 if !list.is_empty() => {
                let k = r.below(list.len());
                let v = val(r);
                c.values_mut()[k] = v;
                list[k].2 = v;
            }
            _ => match kept.take() {
                Some((mut old, l)) if r.chance(1, 2) => {
                    // Go on with the earlier copy and keep the present one.
                    std::mem::swap(&mut old, &mut c);
                    kept = Some((old, std::mem::replace(&mut list, l)));
                }
                _ => kept = Some((c.clone(), list.clone())),
            },
        }
        for (x, l) in std::iter::once((&c, &list)).chain(kept.as_ref().map(|k| (&k.0, &k.1))) {
            let same = (x.rows(), x.cols(), x.nnz()) == (m, n, l.len())
                && x.rowidx().len() == l.len()
                && x.colidx().len() == l.len()
                && x.values().len() == l.len()
                && l.iter().enumerate().all(|(k, e)| x.rowidx()[k].us() == e.0 && x.colidx()[k].us() == e.1 && x.values()[k].same_bits(&e.2));
            ck!(cx, same, "after operations {:?} (0,1 push, 2,3 extend, 4 write, 5 copy) the matrix holds other entries than were put in", ops);
        }
        cx.count("steps", 1);
    }
    cx.show(|| format!("{}x{} Coo, operations {:?}, {} entries, index {} value {}", m, n, ops, list.len(), I::NAME, T::NAME));
    cx.seen(h);
    let mut w = Model::new(m, n);
    for &(i, j, v) in &list {
        w.add(i, j, v);
    }
    if !far && m * n <= 20_000 {
        ck!(cx, c.to_dense() == w.dense(), "dense form after operations {:?}", ops);
    }
    let s = c.to_csr();
    let got = cx.get(read_csr("to_csr", &s, Len::Exact));
    cx.same("to_csr after a history", &w, &got);
}


cases!(fd = any from_dense);
cases!(fdb = big from_dense);
fn fds(cx: &mut Cx, r: &mut Rng, i: u64) {
    dispatch_scalars!(i as usize, from_dense(cx, r, false))
}
cases!(sz = any sizes);
cases!(szi = index sizes);
cases!(szb = big sizes);
cases!(ar = any arrays);
cases!(ari = index arrays);
cases!(arb = big arrays);
cases!(hi = any history);
cases!(hii = index history);
cases!(hib = big history);

fn main() {
    run_far(&[
        Family { name: "from_dense", quick: 24_000, thorough: 800_000, f: fd },
        Family { name: "from_dense_scalars", quick: 10_000, thorough: 300_000, f: fds },
        Family { name: "from_dense_big", quick: 600, thorough: 20_000, f: fdb },
        Family { name: "sizes", quick: 16_000, thorough: 500_000, f: sz },
        Family { name: "sizes_index", quick: 4_000, thorough: 100_000, f: szi },
        Family { name: "sizes_far", quick: 4_000, thorough: 100_000, f: far_case },
        Family { name: "sizes_big", quick: 600, thorough: 20_000, f: szb },
        Family { name: "arrays", quick: 24_000, thorough: 800_000, f: ar },
        Family { name: "arrays_index", quick: 4_000, thorough: 100_000, f: ari },
        Family { name: "arrays_big", quick: 600, thorough: 20_000, f: arb },
        Family { name: "history", quick: 30_000, thorough: 1_000_000, f: hi },
        Family { name: "history_index", quick: 6_000, thorough: 200_000, f: hii },
        Family { name: "history_big", quick: 800, thorough: 30_000, f: hib },
    ])
}
