//! C18: narrow index types give the correct result or refuse.
use harness::*;
use sparsetools::graph::{connected_components, depth_first_order, Connection};

type Ref<R> = Result<R, anyhow::Error>;

struct J<'a> {
    cx: &'a mut Cx,
    tag: String,
}

impl<'a> J<'a> {
    fn outcome<R>(&mut self, what: &str, fits: bool, res: Result<Ref<R>, String>) -> Option<R> {
        let why = match res {
            Ok(Ok(x)) => {
                self.cx.count(if fits { "results_in_range" } else { "results_past_the_limit" }, 1);
                return Some(x);
            }
            Ok(Err(e)) => format!("error: {}", e),
            Err(p) => p,
        };
        if fits {
            self.cx.fail(format!("{} [{}] was refused although everything fits: {}", what, self.tag, why));
        }
        self.cx.count("refusals_past_the_limit", 1);
        None
    }
    fn csr<I: Ix>(&mut self, what: &str, fits: bool, want: &Model<Fp>, f: impl FnOnce() -> Ref<CSR<I, Fp>>) {
        let res = caught(f);
        if let Some(x) = self.outcome(what, fits, res) {
            match read_csr(what, &x, Len::AtLeast) {
                Err(e) => self.cx.fail(format!("{} [{}]", e, self.tag)),
                Ok(g) => self.cx.same(&format!("{} [{}]", what, self.tag), want, &g),
            }
        }
    }
    fn csc<I: Ix>(&mut self, what: &str, fits: bool, want: &Model<Fp>, f: impl FnOnce() -> Ref<CSC<I, Fp>>) {
        let res = caught(f);
        if let Some(x) = self.outcome(what, fits, res) {
            match read_csc(what, &x, Len::AtLeast) {
                Err(e) => self.cx.fail(format!("{} [{}]", e, self.tag)),
                Ok(g) => self.cx.same(&format!("{} [{}]", what, self.tag), want, &g),
            }
        }
    }
    fn coo<I: Ix>(&mut self, what: &str, fits: bool, want: &Model<Fp>, f: impl FnOnce() -> Ref<Coo<I, Fp>>) {
        let res = caught(f);
        if let Some(x) = self.outcome(what, fits, res) {
            match read_coo(what, &x) {
                Err(e) => self.cx.fail(format!("{} [{}]", e, self.tag)),
                Ok(g) => self.cx.same(&format!("{} [{}]", what, self.tag), want, &g),
            }
        }
    }
    fn value<R: PartialEq + std::fmt::Debug>(&mut self, what: &str, fits: bool, want: &R, f: impl FnOnce() -> Ref<R>) {
        let res = caught(f);
        if let Some(x) = self.outcome(what, fits, res) {
            if x != *want {
                let (mut g, mut w) = (format!("{:?}", x), format!("{:?}", want));
                g.truncate(400);
                w.truncate(400);
                self.cx.fail(format!("{} [{}]: {} instead of {}", what, self.tag, g, w));
            }
        }
    }
}

/// A size near a limit of the index type, or small.
fn near(r: &mut Rng, max: usize) -> usize {
    match r.below(12) {
        0..=3 => r.range(1, 12),
        4 => max / 2 + r.below(3),
        5 => max - 1,
        6 | 7 => max,
        8 => max + 1,
        9 => max + 2 + r.below(3),
        10 => max + r.range(2, max.min(2000)),
        _ => r.range(1, max.min(5000)),
    }
}

/// Entries with positions the index type can name, close to its limit in number.
fn entries(r: &mut Rng, o: &Opt, major: usize, minor: usize, max: usize, canonical: bool) -> Raw<Fp> {
    let n = match r.below(8) {
        0 | 1 => max,
        2 => max - r.below(3.min(max)),
        3 | 4 => max / 2 + r.below(3),
        5 => r.below(5),
        _ => r.below(max + 1),
    };
    let cols = minor.min(max + 1);
    let mut rows: Vec<Vec<usize>> = vec![vec![]; major];
    if major == 0 || cols == 0 {
        return Raw { major, minor, ptr: vec![0; major + 1], idx: vec![], val: vec![] };
    }
    let (dup, style) = (!canonical && r.chance(1, 3), r.below(4));
    let mut left = n;
    let mut tries = 0;
    while left > 0 && tries < 3 * n + 10 {
        tries += 1;
        let i = match style {
            0 => r.below(major),
            1 => major - 1 - r.below(major.min(3)),
            2 => r.below(major.min(3)),
            _ => (n - left) % major,
        };
        let j = match r.below(6) {
            0 => cols - 1,
            1 => 0,
            _ => r.below(cols),
        };
        if dup || !rows[i].contains(&j) {
            rows[i].push(j);
            left -= 1;
        }
    }
    if canonical || r.chance(1, 2) {
        rows.iter_mut().for_each(|x| x.sort_unstable());
    }
    let _ = o;
    let mut raw = Raw { major, minor, ptr: vec![0], idx: vec![], val: vec![] };
    let zp = *r.pick(&[0usize, 0, 20]);
    for row in rows {
        for j in row {
            raw.idx.push(j);
            raw.val.push(if r.below(100) < zp { Fp(0) } else { Fp::gen(r) });
        }
        raw.ptr.push(raw.idx.len());
    }
    raw
}

fn compressed<I: Ix>(cx: &mut Cx, r: &mut Rng) {
    let max = I::MAX;
    let o = Opt::of::<I, Fp>();
    let (m, n) = (near(r, max), near(r, max));
    let cb = r.chance(1, 2);
    let (x, y) = (entries(r, &o, m, n, max, cb), entries(r, &o, m, n, max, cb));
    let tag = format!("{} {}x{}, {} and {} entries", I::NAME, m, n, x.nnz(), y.nnz());
    cx.show(|| tag.clone());
    cx.seen(x.hash() ^ y.hash().rotate_left(3));
    let (a, b) = (x.csr::<I>(r, false), y.csr::<I>(r, false));
    let (p, q) = (x.csc::<I>(r, false), y.csc::<I>(r, false));
    let (mx, my) = (x.model(), y.model());
    let (tx, ty) = (mx.t(), my.t());
    let dims = m <= max && n <= max;
    let mut j = J { cx, tag };
    let f1 = dims;
    j.csc("CSR::to_csc", f1, &mx, || Ok(a.to_csc()));
    j.coo("CSR::to_coo", f1, &mx, || Ok(a.to_coo()));
    j.csc("CSR::t", f1, &tx, || Ok(a.t()));
    j.csr("CSC::to_csr", f1, &tx, || Ok(p.to_csr()));
    j.coo("CSC::to_coo", f1, &tx, || Ok(p.to_coo()));
    j.csr("CSC::t", f1, &mx, || Ok(p.t()));
    let f2 = dims && x.nnz() + y.nnz() <= max;
    let (s, d) = (mx.zip(&my, |a, b| a + b), mx.zip(&my, |a, b| a - b));
    let (st, dt) = (s.t(), d.t());
    j.csr("CSR + CSR", f2, &s, || Ok(&a + &b));
    j.csr("CSR - CSR", f2, &d, || Ok(&a - &b));
    j.csc("CSC + CSC", f2, &st, || Ok(&p + &q));
    j.csc("CSC - CSC", f2, &dt, || Ok(&p - &q));
    j.csc("CSC::add", f2, &st, || p.add(&q));
    j.csc("CSC::subtract", f2, &dt, || p.subtract(&q));
    // In place.
    j.csr("CSR::sort_indexes", f1, &mx, || {
        let mut c = a.clone();
        c.sort_indexes();
        Ok(c)
    });
    j.csr("CSR::sum_duplicates", f1, &mx, || {
        let mut c = a.clone();
        c.sum_duplicates()?;
        Ok(c)
    });
    j.csc("CSC::sum_duplicates", f1, &tx, || {
        let mut c = clone_csc(&p);
        c.sum_duplicates();
        Ok(c)
    });
    j.csr("CSR * scalar", f1, &mx.map_values(|v| v * Fp(7)), || Ok(&a * Fp(7)));
    j.value("CSR::has_canonical_format", f1, &x.canonical(), || Ok(a.has_canonical_format()));
    j.value("CSR::has_sorted_indexes", f1, &x.sorted(), || Ok(a.has_sorted_indexes()));
    // Vectors and reads.
    let v: Vec<Fp> = (0..n).map(|_| Fp::gen(r)).collect();
    let vt: Vec<Fp> = (0..m).map(|_| Fp::gen(r)).collect();
    j.value("CSR::mat_vec", f1, &mx.mul_vec(&v), || a.mat_vec(&v));
    j.value("CSC::mat_vec", f1, &tx.mul_vec(&vt), || p.mat_vec(&vt));
    let dg: Vec<Fp> = (0..m.min(n)).map(|k| mx.get(k, k)).collect();
    j.value("CSR::diagonal", f1, &dg, || Ok(a.diagonal()));
    j.value("CSC::diagonal", f1, &dg, || Ok(p.diagonal()));
    for _ in 0..3 {
        let (s, t) = (r.below(m.min(max + 1)), r.below(n.min(max + 1)));
        j.value("CSR::get", f1, &mx.get(s, t), || Ok(a.get(I::ix(s), I::ix(t))));
    }
    if m * n < 200_000 {
        j.value("CSC::to_dense", f1, &tx.dense(), || Ok(p.to_dense()));
    }
    // Products with a third matrix.
    let w = near(r, max);
    let z = entries(r, &o, n, w, max, r.clone().chance(1, 2));
    let c = z.csr::<I>(r, false);
    let pr = z.csc::<I>(r, false);
    let mz = z.model();
    // Bound on the entries of the product.
    let work: usize = (0..m).map(|i| (x.ptr[i]..x.ptr[i + 1]).map(|k| z.ptr[x.idx[k] + 1] - z.ptr[x.idx[k]]).sum::<usize>()).sum();
    let prod_bound: usize = (0..if work <= 1_000_000 { m } else { 0 })
        .map(|i| {
            let mut h = std::collections::HashSet::new();
            for k in x.ptr[i]..x.ptr[i + 1] {
                for l in z.ptr[x.idx[k]]..z.ptr[x.idx[k] + 1] {
                    h.insert(z.idx[l]);
                }
            }
            h.len()
        })
        .sum();
    let f3 = dims && w <= max && x.nnz() + z.nnz() <= max && prod_bound <= max;
    if work <= 1_000_000 {
        let pm = mx.mul(&mz);
        let pt = pm.t();
        j.csr("CSR::mat_mat", f3, &pm, || a.mat_mat(&c));
        j.csr("CSR * CSR", f3, &pm, || Ok(&a * &c));
        // z^T (w x n) by x^T (n x m).
        j.csc("CSC::mat_mat", f3, &pt, || pr.mat_mat(&p));
        j.csc("CSC * CSC", f3, &pt, || Ok(&pr * &p));
    }
    // Stacking.
    let f4 = m <= max && 2 * n <= max && x.nnz() + y.nnz() <= max;
    j.csr("CSR::h_stack", f4, &mx.hstack(&my), || CSR::h_stack(&a, &b));
    let f5 = 2 * m <= max && 2 * n <= max && 2 * x.nnz() + 2 * y.nnz() <= max;
    let cm = tx.hstack(&ty).vstack(&ty.hstack(&tx));
    j.csc("CSC::compose", f5, &cm, || CSC::compose(&p, &q, &q, &p));
    // Selection.
    if x.canonical() {
        let li = |r: &mut Rng, n: usize| -> Option<Vec<usize>> {
            let n = n.min(max + 1);
            match r.below(6) {
                0 => None,
                1 => Some((0..n).collect()),
                2 => Some(vec![r.below(n); r.range(1, 6)]),
                3 => Some((0..near(r, max).min(3000)).map(|_| r.below(n)).collect()),
                _ => Some((0..r.range(1, 20)).map(|_| r.below(n)).collect()),
            }
        };
        let (ri, ci) = (li(r, m), li(r, n));
        let (fr, fc): (Vec<usize>, Vec<usize>) = (ri.clone().unwrap_or((0..m).collect()), ci.clone().unwrap_or((0..n).collect()));
        if fr.len() * fc.len() < 4_000_000 {
            let want = mx.select(&fr, &fc);
            let f6 = dims && fr.len() <= max && fc.len() <= max && want.occupied() <= max;
            let (ir, ic): (Option<Vec<I>>, Option<Vec<I>>) = (ri.map(|l| l.into_iter().map(I::ix).collect()), ci.map(|l| l.into_iter().map(I::ix).collect()));
            j.csr("CSR::select", f6, &want, || a.select(ir.as_deref(), ic.as_deref()));
            j.csc("CSC::select", f6, &want.t(), || p.select(ic.as_deref(), ir.as_deref()));
        }
    }
    // Text.
    let mut lines: Vec<String> = x.triplets(r, false).iter().map(|e| format!("({}, {}) {}", e.0, e.1, e.2)).collect();
    lines.sort();
    j.value("CSR::to_string", f1, &lines, || {
        let mut l: Vec<String> = a.to_string().lines().map(|s| s.to_string()).collect();
        l.sort();
        Ok(l)
    });
}

fn mixed<I: Ix>(cx: &mut Cx, r: &mut Rng) {
    let max = I::MAX;
    let o = Opt::of::<I, Fp>();
    // CSC * CSR needs both as factors: (n x m)(m' x k).
    let (m, n, w) = (near(r, max), near(r, max), near(r, max));
    let (x, z) = (entries(r, &o, m, n, max, r.clone().chance(1, 2)), entries(r, &o, m, w, max, true));
    let tag = format!("{} ({}x{})^T by {}x{}, {} and {} entries", I::NAME, m, n, m, w, x.nnz(), z.nnz());
    cx.show(|| tag.clone());
    cx.seen(x.hash() ^ z.hash().rotate_left(3));
    let (p, c) = (x.csc::<I>(r, false), z.csr::<I>(r, false));
    let work: usize = (0..m).map(|k| (x.ptr[k + 1] - x.ptr[k]) * (z.ptr[k + 1] - z.ptr[k])).sum();
    if work > 1_000_000 {
        return;
    }
    let want = x.model().t().mul(&z.model());
    let fits = m <= max && n <= max && w <= max && x.nnz() + z.nnz() <= max && want.occupied() <= max;
    J { cx, tag }.csc("CSC * CSR", fits, &want, || Ok(&p * &c));
}

fn coordinate<I: Ix>(cx: &mut Cx, r: &mut Rng) {
    let max = I::MAX;
    let (m, n) = (near(r, max), near(r, max));
    let (rows, cols) = (m.min(max + 1), n.min(max + 1));
    let many = |r: &mut Rng| match r.below(8) {
        0 => max,
        1 => max + 1,
        2 => max + r.range(1, max.min(3000)),
        3 => 2 * max + 2,
        4 => max / 2,
        5 => 256.min(max + 1),
        _ => r.below(max.min(4000)),
    };
    let list = |r: &mut Rng, k: usize| -> Vec<(usize, usize, Fp)> {
        // Many entries may share few positions.
        let (h, w) = if r.chance(1, 3) { (rows.min(r.range(1, 12)), cols.min(r.range(1, 12))) } else { (rows, cols) };
        (0..k).map(|_| (r.below(h), if r.chance(1, 6) { w - 1 } else { r.below(w) }, Fp::gen(r))).collect()
    };
    let (kx, ky) = (many(r), many(r));
    let (x, y) = (list(r, kx), list(r, ky));
    let build = |l: &[(usize, usize, Fp)]| -> Coo<I, Fp> {
        Coo::new(m, n, l.iter().map(|e| I::ix(e.0)).collect(), l.iter().map(|e| I::ix(e.1)).collect(), l.iter().map(|e| e.2).collect()).unwrap()
    };
    let model = |l: &[(usize, usize, Fp)]| {
        let mut w = Model::new(m, n);
        for e in l {
            w.add(e.0, e.1, e.2);
        }
        w
    };
    let tag = format!("{} {}x{}, {} and {} entries", I::NAME, m, n, kx, ky);
    cx.show(|| tag.clone());
    cx.seen(mix(x.iter().take(50).fold(m as u64, |h, e| h.rotate_left(7) ^ e.0 as u64 ^ (e.1 as u64) << 20)));
    let (a, b) = (build(&x), build(&y));
    let (mx, my) = (model(&x), model(&y));
    let (tx, _ty) = (mx.t(), my.t());
    let f1 = m <= max && n <= max && kx <= max;
    let f2 = m <= max && n <= max && kx + ky <= max;
    let mut j = J { cx, tag };
    j.csr("Coo::to_csr", f1, &mx, || Ok(a.to_csr()));
    j.csc("Coo::to_csc", f1, &mx, || Ok(a.to_csc()));
    j.coo("Coo::t", f1, &tx, || Ok(a.t()));
    j.coo("Coo::transpose", f1, &tx, || Ok(a.clone().transpose()));
    if m * n < 200_000 {
        j.value("Coo::to_dense", f1, &mx.dense(), || Ok(a.to_dense()));
    }
    let dg: Vec<Fp> = (0..m.min(n)).map(|k| mx.get(k, k)).collect();
    j.value("Coo::diagonal", f1, &dg, || Ok(a.diagonal()));
    for k in [0, 1, max - 1, max, r.below(max)] {
        let mut want = Model::new(m, n);
        for (&(s, t), &v) in &mx.map {
            if t >= s + k {
                want.map.insert((s, t), v);
            }
        }
        j.coo("Coo::upper", f1, &want, || Ok(a.upper(I::ix(k))));
    }
    j.csr("Coo + Coo", f2, &mx.zip(&my, |a, b| a + b), || Ok(&a + &b));
    // Stacking: with itself, and blocks of other sizes.
    let fh = m <= max && 2 * n <= max && kx + ky <= max;
    let fv = 2 * m <= max && n <= max && kx + ky <= max;
    let (h, v) = (mx.hstack(&my), mx.vstack(&my));
    j.coo("Coo::h_stack", fh, &h, || Coo::h_stack(&a, &b));
    j.coo("Coo::v_stack", fv, &v, || Coo::v_stack(&a, &b));
    let fh3 = m <= max && 3 * n <= max && 2 * kx + ky <= max;
    let fv3 = 3 * m <= max && n <= max && 2 * kx + ky <= max;
    j.coo("Coo::h_stack3", fh3, &h.hstack(&mx), || Coo::h_stack3(&a, &b, &a));
    j.coo("Coo::v_stack3", fv3, &v.vstack(&mx), || Coo::v_stack3(&a, &b, &a));
    let fc = 2 * m <= max && 2 * n <= max && 2 * (kx + ky) <= max;
    j.coo("Coo::compose", fc, &h.vstack(&my.hstack(&mx)), || Coo::compose([[&a, &b], [&b, &a]]));
    let fc3 = 3 * m <= max && 3 * n <= max && 9 * kx.max(ky) <= max;
    let r1 = h.hstack(&mx);
    j.coo("Coo::compose3", fc3, &r1.vstack(&r1).vstack(&r1), || Coo::compose3([[&a, &b, &a], [&a, &b, &a], [&a, &b, &a]]));
}

fn construct<I: Ix>(cx: &mut Cx, r: &mut Rng) {
    let max = I::MAX;
    let k = near(r, max).min(6000);
    let (m, n) = if r.chance(1, 2) { (k, r.range(1, 5)) } else { (r.range(1, 5), k) };
    let dense_pc = *r.pick(&[10usize, 50, 100]);
    let d: Vec<Vec<Fp>> = (0..m).map(|_| (0..n).map(|_| if r.below(100) < dense_pc { Fp::gen(r) } else { Fp(0) }).collect()).collect();
    let want = Model::from_dense(&d);
    let nnz = want.occupied();
    let tag = format!("{} {}x{}, {} entries", I::NAME, m, n, nnz);
    cx.show(|| tag.clone());
    cx.seen(mix(m as u64 ^ (n as u64) << 24 ^ (nnz as u64) << 44));
    let fits = m <= max && n <= max && nnz <= max;
    let mut j = J { cx, tag };
    j.csr("CSR::from_dense", fits, &want, || Ok(CSR::<I, Fp>::from_dense(&d)));
    j.csc("CSC::from_dense", fits, &want, || Ok(CSC::<I, Fp>::from_dense(&d)));
    j.coo("Coo::from_dense", fits, &want, || Ok(Coo::<I, Fp>::from_dense(&d)));
    let refs: Vec<&[Fp]> = d.iter().map(|x| x.as_slice()).collect();
    j.coo("DoK::from_dense", fits, &want, || Ok(DoK::<I, Fp>::from_dense(&refs).to_coo()));
    j.csr("DoK::to_csr", fits, &want, || Ok(DoK::<I, Fp>::from_dense(&refs).to_csr()));
    j.csc("DoK::to_csc", fits, &want, || Ok(DoK::<I, Fp>::from_dense(&refs).to_csc()));
    // Sizes, diagonals, identities.
    let fk = k <= max;
    let empty = Model::new(k, m);
    j.csr("CSR::with_size", fk && m <= max, &empty, || Ok(CSR::<I, Fp>::with_size(k, m)));
    j.coo("Coo::with_size", fk && m <= max, &empty, || Ok(Coo::<I, Fp>::with_size(k, m)));
    let vals: Vec<Fp> = (0..k).map(|_| Fp::gen(r)).collect();
    let mut dm = Model::new(k, k);
    let mut im = Model::new(k, k);
    for i in 0..k {
        dm.map.insert((i, i), vals[i]);
        im.map.insert((i, i), Fp(1));
    }
    j.csr("CSR::with_diagonal", fk, &dm, || Ok(CSR::<I, Fp>::with_diagonal(vals.clone())));
    j.csc("CSC::with_diagonal", fk, &dm, || Ok(CSC::<I, Fp>::with_diagonal(vals.clone())));
    j.coo("Coo::with_diagonal", fk, &dm, || Ok(Coo::<I, Fp>::with_diagonal(&vals)));
    j.coo("Coo::identity", fk, &im, || Ok(Coo::<I, Fp>::identity(k)));
    // A dictionary of the limiting size.
    let spots: Vec<(usize, usize)> = (0..20).map(|_| (r.below(k.min(max + 1)), r.below(m.min(max + 1)))).collect();
    let mut w = Model::new(k, m);
    for &(s, t) in &spots {
        w.add(s, t, Fp(5));
    }
    j.coo("DoK::add", fk && m <= max, &w, || {
        let mut d = DoK::<I, Fp>::new(k, m);
        for &(s, t) in &spots {
            d.add(I::ix(s), I::ix(t), Fp(5))?;
        }
        Ok(d.to_coo())
    });
}

fn graph<I: Ix>(cx: &mut Cx, r: &mut Rng) {
    let max = I::MAX;
    let n = near(r, max).min(6000);
    let lim = n.min(max + 1);
    let sym = r.chance(1, 2);
    let mut e: Vec<(usize, usize)> = vec![];
    let k = r.range(1, max);
    for i in 0..k {
        match r.below(3) {
            0 => e.push((r.below(lim), r.below(lim))),
            1 => e.push((i % lim, (i + 1) % lim)),
            _ => e.push((lim - 1 - i % lim, lim - 1 - (i + 1) % lim)),
        }
    }
    e.truncate(max);
    if sym {
        graphs::symmetric(&mut e, max);
    }
    e.sort_unstable();
    e.dedup();
    let raw = graphs::matrix::<Fp>(r, n, &e, max);
    let tag = format!("{} graph of {} nodes, {} entries", I::NAME, n, raw.nnz());
    cx.show(|| tag.clone());
    cx.seen(raw.hash());
    let a = raw.csr::<I>(r, false);
    let fits = n <= max;
    let (und, str) = (graphs::undirected(n, &e), graphs::strong(n, &e));
    let mut j = J { cx, tag };
    let res = caught(|| connected_components(&a, true, Connection::Weak));
    if let Some((k, l)) = j.outcome("weak components", fits, res) {
        if let Err(m) = graphs::partition(&und, k, &l) {
            j.cx.fail(format!("weak components [{}]: {}", j.tag, m));
        }
    }
    let res = caught(|| connected_components(&a, true, Connection::Strong));
    if let Some((k, l)) = j.outcome("strong components", fits, res) {
        if let Err(m) = graphs::partition(&str, k, &l) {
            j.cx.fail(format!("strong components [{}]: {}", j.tag, m));
        }
    }
    let s = r.below(n);
    for dir in [true, false] {
        let mut f = e.clone();
        if !dir {
            f.extend(e.iter().map(|x| (x.1, x.0)));
        }
        let res = caught(|| depth_first_order(&a, s, dir));
        if let Some((o, p)) = j.outcome("depth-first order", fits, res) {
            if let Err(m) = graphs::traversal(n, &f, s, &o, &p) {
                j.cx.fail(format!("depth-first order [{}]: {}", j.tag, m));
            }
        }
    }
    if sym {
        let mut deg = vec![false; n];
        e.iter().for_each(|x| deg[x.0] = true);
        let mut roots: Vec<usize> = (0..n).filter(|&v| deg[v]).map(|v| und[v]).collect();
        roots.sort_unstable();
        roots.dedup();
        let res = caught(|| a.connected_components::<i64>());
        if let Some((k, f)) = j.outcome("CSR::connected_components", fits, res) {
            ck!(j.cx, k.us() == roots.len(), "CSR::connected_components [{}]: count {} instead of {}", j.tag, k, roots.len());
            let mut of: std::collections::HashMap<i64, usize> = Default::default();
            let mut back: std::collections::HashMap<usize, i64> = Default::default();
            for v in 0..n {
                ck!(j.cx, (f[v] >= 0) == deg[v], "CSR::connected_components [{}]: node {} has flag {}", j.tag, v, f[v]);
                if deg[v] {
                    ck!(j.cx, *of.entry(f[v]).or_insert(und[v]) == und[v] && *back.entry(und[v]).or_insert(f[v]) == f[v], "CSR::connected_components [{}]: flags do not follow the components", j.tag);
                }
            }
        }
    }
}

macro_rules! pick {
    ($name:ident, $wide:ident, $f:ident) => {
        fn $name(cx: &mut Cx, r: &mut Rng, i: u64) {
            if i % 2 == 0 {
                $f::<u8>(cx, r)
            } else {
                $f::<i8>(cx, r)
            }
        }
        fn $wide(cx: &mut Cx, r: &mut Rng, i: u64) {
            if i % 2 == 0 {
                $f::<u16>(cx, r)
            } else {
                $f::<i16>(cx, r)
            }
        }
    };
}
use harness::rng::mix;
pick!(comp8, comp16, compressed);
pick!(mixed8, mixed16, mixed);
pick!(coo8, coo16, coordinate);
pick!(new8, new16, construct);
pick!(graph8, graph16, graph);

fn main() {
    run(&[
        Family { name: "compressed", quick: 4_000, thorough: 500_000, f: comp8 },
        Family { name: "mixed", quick: 1_600, thorough: 100_000, f: mixed8 },
        Family { name: "coordinate", quick: 3_200, thorough: 400_000, f: coo8 },
        Family { name: "constructors", quick: 1_600, thorough: 200_000, f: new8 },
        Family { name: "graphs", quick: 2_000, thorough: 200_000, f: graph8 },
        Family { name: "compressed16", quick: 16, thorough: 1_000, f: comp16 },
        Family { name: "mixed16", quick: 12, thorough: 600, f: mixed16 },
        Family { name: "coordinate16", quick: 16, thorough: 1_000, f: coo16 },
        Family { name: "constructors16", quick: 16, thorough: 1_000, f: new16 },
        Family { name: "graphs16", quick: 24, thorough: 2_000, f: graph16 },
    ])
}
