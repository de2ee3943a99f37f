//! C01: conversions never change the matrix.
use harness::*;

#[derive(Clone)]
enum Any<I: Ix, T: Val> {
    Dense(Vec<Vec<T>>),
    Coo(Coo<I, T>),
    Csr(CSR<I, T>),
    Csc(std::rc::Rc<CSC<I, T>>),
    Dok(std::rc::Rc<DoK<I, T>>),
}

fn dense_model<T: Val>(d: &[Vec<T>]) -> Model<T> {
    Model::from_dense(d)
}

fn read<I: Ix, T: Val>(cx: &mut Cx, what: &str, a: &Any<I, T>) -> Model<T> {
    match a {
        Any::Dense(d) => {
            if let Some(f) = d.first() {
                let n = f.len();
                ck!(cx, d.iter().all(|r| r.len() == n), "{}: ragged dense result", what);
            }
            dense_model(d)
        }
        Any::Coo(m) => cx.get(read_coo(what, m)),
        Any::Csr(m) => cx.get(read_csr(what, m, Len::AtLeast)),
        Any::Csc(m) => cx.get(read_csc(what, m, Len::AtLeast)),
        Any::Dok(m) => {
            let mut r = Model::new(m.rows(), m.cols());
            for (&(i, j), &v) in m.iter() {
                ck!(cx, i.us() < m.rows() && j.us() < m.cols(), "{}: key out of range", what);
                r.add(i.us(), j.us(), v);
            }
            r
        }
    }
}

fn from_dense<I: Ix, T: Val>(k: usize, d: &Vec<Vec<T>>) -> (&'static str, Any<I, T>) {
    match k % 4 {
        0 => ("Coo::from_dense", Any::Coo(Coo::from_dense(d))),
        1 => ("CSR::from_dense", Any::Csr(CSR::from_dense(d))),
        2 => ("CSC::from_dense", Any::Csc(CSC::from_dense(d).into())),
        _ => {
            let s: Vec<&[T]> = d.iter().map(|r| r.as_slice()).collect();
            ("DoK::from_dense", Any::Dok(DoK::from_dense(&s).into()))
        }
    }
}

fn step<I: Ix, T: Val>(r: &mut Rng, a: &Any<I, T>, dense_ok: bool) -> (&'static str, Any<I, T>) {
    loop {
        let k = r.below(4);
        return match a {
            Any::Dense(d) => from_dense(k, d),
            Any::Coo(m) => match k {
                0 => ("Coo::to_csr", Any::Csr(m.to_csr())),
                1 => ("Coo::to_csc", Any::Csc(m.to_csc().into())),
                2 if dense_ok => ("Coo::to_dense", Any::Dense(m.to_dense())),
                3 => {
                    let mut d = DoK::new(m.rows(), m.cols());
                    for k in 0..m.nnz() {
                        d.add(m.rowidx()[k], m.colidx()[k], m.values()[k]).unwrap();
                    }
                    ("DoK::add", Any::Dok(d.into()))
                }
                _ => continue,
            },
            Any::Csr(m) => match k {
                0 => ("CSR::to_coo", Any::Coo(m.to_coo())),
                1 | 2 => ("CSR::to_csc", Any::Csc(m.to_csc().into())),
                _ => continue,
            },
            Any::Csc(m) => match k {
                0 => ("CSC::to_coo", Any::Coo(m.to_coo())),
                1 => ("CSC::to_csr", Any::Csr(m.to_csr())),
                2 if dense_ok => ("CSC::to_dense", Any::Dense(m.to_dense())),
                _ => continue,
            },
            Any::Dok(m) => match k {
                0 => ("DoK::to_coo", Any::Coo(m.to_coo())),
                1 => ("DoK::to_csr", Any::Csr(m.to_csr())),
                2 => ("DoK::to_csc", Any::Csc(m.to_csc().into())),
                3 if dense_ok => ("DoK::to_dense", Any::Dense(m.to_dense())),
                _ => continue,
            },
        };
    }
}

/// Shape of the model once it has gone through a dense form (which cannot hold the width of zero rows).
fn through_dense<T: Val>(m: &Model<T>) -> Model<T> {
    let mut m = m.clone();
    if m.rows == 0 {
        m.cols = 0;
    }
    m
}

fn direct<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let raw = Raw::<T>::any(r, &o, big);
    direct_of::<I, T>(cx, r, raw)
}
/// Values from the whole width of every scalar type.
fn ends<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let mut raw = Raw::<T>::any(r, &Opt { dups: false, ..Opt::of::<I, T>() }, false);
    raw.extremes(r);
    direct_of::<I, T>(cx, r, raw)
}
fn direct_of<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, raw: Raw<T>) {
    let m = raw.model();
    cx.show(|| format!("{}x{} {} entries index {} value {}: {:?}", raw.major, raw.minor, raw.nnz(), I::NAME, T::NAME, raw.triplets(&mut Rng(1), false)));
    // Nothing of the other dimension's size can be allocated.
    let far = raw.minor >= FAR - 100;
    let dense_ok = !far && raw.major * raw.minor <= 300_000;
    let csr = raw.csr::<I>(r, true);
    let csc = raw.csc::<I>(r, true);
    let coo = raw.coo::<I>(r);
    let mt = m.t();
    let chk = |cx: &mut Cx, what: &str, want: &Model<T>, got: Any<I, T>| {
        let g = read(cx, what, &got);
        cx.count("conversions", 1);
        cx.same(what, want, &g);
    };
    chk(cx, "CSR::to_coo", &m, Any::Coo(csr.to_coo()));
    chk(cx, "CSC::to_coo", &mt, Any::Coo(csc.to_coo()));
    chk(cx, "Coo::to_csr", &m, Any::Csr(coo.to_csr()));
    if far {
        chk(cx, "Coo::t then to_csc", &mt, Any::Csc(coo.t().to_csc().into()));
        chk(cx, "CSR::t then to_coo", &mt, Any::Coo(csr.t().to_coo()));
        chk(cx, "CSC::to_coo then to_csc", &mt, Any::Csc(csc.to_coo().to_csc().into()));
    } else {
        chk(cx, "CSR::to_csc", &m, Any::Csc(csr.to_csc().into()));
        chk(cx, "CSC::to_csr", &mt, Any::Csr(csc.to_csr()));
        chk(cx, "Coo::to_csc", &m, Any::Csc(coo.to_csc().into()));
    }
    if dense_ok {
        let shape = |cx: &mut Cx, what: &str, d: &Vec<Vec<T>>, rows: usize, cols: usize| {
            ck!(cx, d.len() == rows && d.iter().all(|x| x.len() == cols), "{}: dense result is not {}x{}", what, rows, cols);
        };
        let d = coo.to_dense();
        shape(cx, "Coo::to_dense", &d, m.rows, m.cols);
        chk(cx, "Coo::to_dense", &through_dense(&m), Any::Dense(d.clone()));
        let dt = csc.to_dense();
        shape(cx, "CSC::to_dense", &dt, mt.rows, mt.cols);
        chk(cx, "CSC::to_dense", &through_dense(&mt), Any::Dense(dt));
        let d = m.dense();
        if d.iter().map(|r| r.iter().filter(|v| **v != T::zero()).count()).sum::<usize>() <= I::MAX {
            for k in 0..4 {
                let (w, a) = from_dense::<I, T>(k, &d);
                chk(cx, w, &through_dense(&m), a);
            }
        }
    }
    let mut dok = DoK::<I, T>::new(m.rows, m.cols);
    for (i, j, v) in raw.triplets(r, true) {
        dok.add(I::ix(i), I::ix(j), v).unwrap();
    }
    chk(cx, "DoK::to_coo", &m, Any::Coo(dok.to_coo()));
    chk(cx, "DoK::to_csr", &m, Any::Csr(dok.to_csr()));
    if far {
        let mut dok = DoK::<I, T>::new(mt.rows, mt.cols);
        for (i, j, v) in raw.triplets(r, true) {
            dok.add(I::ix(j), I::ix(i), v).unwrap();
        }
        chk(cx, "DoK::to_csc", &mt, Any::Csc(dok.to_csc().into()));
        both::<I, T>(cx, r, &raw);
    } else {
        chk(cx, "DoK::to_csc", &m, Any::Csc(dok.to_csc().into()));
    }
    if dense_ok {
        let d = dok.to_dense();
        ck!(cx, d.len() == m.rows && d.iter().all(|x| x.len() == m.cols), "DoK::to_dense: wrong shape");
        chk(cx, "DoK::to_dense", &through_dense(&m), Any::Dense(d));
    }
    if raw.nnz() > 0 {
        cx.seen(raw.hash());
    }
}

/// Neither dimension can be allocated.
fn both<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, raw: &Raw<T>) {
    let (m, t) = raw.far_triplets::<I>(r, usize::MAX);
    let mut w = Model::new(m, raw.minor);
    let mut d = DoK::<I, T>::new(m, raw.minor);
    let mut c = Coo::<I, T>::with_size(m, raw.minor);
    for &(i, j, v) in &t {
        w.add(i, j, v);
        d.add(I::ix(i), I::ix(j), v).unwrap();
        c.push(I::ix(i), I::ix(j), v);
    }
    for (what, c) in [("Coo of far positions", c.clone()), ("Coo::t twice of far positions", c.t().t()), ("DoK::to_coo of far positions", d.to_coo())] {
        let g = cx.get(read_coo(what, &c));
        cx.same(what, &w, &g);
        cx.count("conversions", 1);
    }
    let g = read(cx, "DoK of far positions", &Any::Dok(d.into()));
    cx.same("DoK of far positions", &w, &g);
}
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let raw = Raw::<T>::far::<I>(r, &Opt::of::<I, T>());
    direct_of::<I, T>(cx, r, raw)
}
cases!(far_case = far far);

fn path<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let raw = Raw::<T>::any(r, &o, big);
    let (mut cur, mut m) = match r.below(3) {
        0 => (Any::Csr(raw.csr::<I>(r, true)), raw.model()),
        1 => (Any::Csc(raw.csc::<I>(r, true).into()), raw.model().t()),
        _ => (Any::Coo(raw.coo::<I>(r)), raw.model()),
    };
    let dense_ok = raw.major * raw.minor <= 60_000 && raw.nnz() <= I::MAX;
    let n = r.range(2, 9);
    let mut steps = vec![];
    for _ in 0..n {
        let (w, a) = step(r, &cur, dense_ok);
        steps.push(w);
        if matches!(a, Any::Dense(_)) {
            m = through_dense(&m);
        }
        let g = read(cx, &steps.join(" then "), &a);
        cx.count("conversions", 1);
        cx.same(&steps.join(" then "), &m, &g);
        cur = a;
    }
    cx.count("paths", 1);
    cx.show(|| format!("{}x{} {} entries index {} value {}: {}", raw.major, raw.minor, raw.nnz(), I::NAME, T::NAME, steps.join(" then ")));
    if raw.nnz() > 0 {
        cx.seen(raw.hash() ^ rng::hash_str(&steps.join(">")));
    }
}

fn direct_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    dispatch_any!(i as usize, direct(cx, r, false))
}
fn path_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    dispatch_any!(i as usize, path(cx, r, false))
}
fn index_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    dispatch_index!(i as usize, direct(cx, r, false))
}
fn ends_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    dispatch_scalars!(i as usize, ends(cx, r))
}
fn big_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 4 {
        0 => direct::<usize, Fp>(cx, r, true),
        1 => path::<usize, Fp>(cx, r, true),
        2 => direct::<u32, f64>(cx, r, true),
        _ => path::<i32, Fp>(cx, r, true),
    }
}

fn main() {
    run_far(&[
        Family { name: "direct", quick: 40_000, thorough: 1_500_000, f: direct_case },
        Family { name: "index", quick: 8_000, thorough: 300_000, f: index_case },
        Family { name: "path", quick: 40_000, thorough: 1_500_000, f: path_case },
        Family { name: "ends", quick: 8_000, thorough: 300_000, f: ends_case },
        Family { name: "far", quick: 12_000, thorough: 400_000, f: far_case },
        Family { name: "big", quick: 1500, thorough: 60_000, f: big_case },
    ])
}
