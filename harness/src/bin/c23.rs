//! C23: chains of operations over a pool of matrices, checked step by step against the model.
use harness::rng::mix;
use harness::*;

enum Mat<I> {
    Csr(CSR<I, Fp>),
    Csc(CSC<I, Fp>),
    Tri(Coo<I, Fp>),
    Dok(DoK<I, Fp>),
}
use Mat::*;

impl<I: Ix> Mat<I> {
    fn read(&self, what: &str) -> Result<Model<Fp>, String> {
        match self {
            Csr(a) => read_csr(what, a, Len::AtLeast),
            Csc(a) => read_csc(what, a, Len::AtLeast),
            Tri(a) => read_coo(what, a),
            Dok(d) => {
                let mut m = Model::new(d.rows(), d.cols());
                for (&(i, j), &v) in d.iter() {
                    if i.us() >= d.rows() || j.us() >= d.cols() || v == Fp(0) {
                        return Err(format!("{}: entry ({}, {}) = {:?} in a {}x{} dictionary", what, i, j, v, d.rows(), d.cols()));
                    }
                    m.add(i.us(), j.us(), v);
                }
                Ok(m)
            }
        }
    }
    fn stored(&self) -> usize {
        match self {
            Csr(a) => a.nnz(),
            Csc(a) => a.nnz(),
            Tri(a) => a.nnz(),
            Dok(a) => a.nnz(),
        }
    }
    fn name(&self) -> &'static str {
        match self {
            Csr(_) => "CSR",
            Csc(_) => "CSC",
            Tri(_) => "Coo",
            Dok(_) => "DoK",
        }
    }
    /// Everything stored, in order, to see whether an operand was changed.
    fn print(&self) -> u64 {
        let mut h = 7u64;
        let mut put = |x: u64| h = mix(h.rotate_left(5) ^ x);
        match self {
            Csr(a) => {
                a.rowptr().iter().for_each(|v| put(v.us() as u64));
                a.colidx().iter().for_each(|v| put(v.us() as u64));
                a.values().iter().for_each(|v| put(v.0));
            }
            Csc(a) => {
                a.colptr().iter().for_each(|v| put(v.us() as u64));
                a.rowidx().iter().for_each(|v| put(v.us() as u64));
                a.values().iter().for_each(|v| put(v.0));
            }
            Tri(a) => {
                a.rowidx().iter().for_each(|v| put(v.us() as u64));
                a.colidx().iter().for_each(|v| put(v.us() as u64));
                a.values().iter().for_each(|v| put(v.0));
            }
            Dok(a) => {
                let mut l: Vec<_> = a.iter().map(|(k, v)| (k.0.us(), k.1.us(), v.0)).collect();
                l.sort_unstable();
                l.into_iter().for_each(|e| {
                    put(e.0 as u64);
                    put(e.1 as u64);
                    put(e.2)
                });
            }
        }
        h
    }
    fn dup(&self) -> Self {
        match self {
            Csr(a) => Csr(a.clone()),
            Csc(a) => Csc(clone_csc(a)),
            Tri(a) => Tri(a.clone()),
            Dok(a) => {
                let mut d = DoK::new(a.rows(), a.cols());
                a.iter().for_each(|(k, v)| d.set(k.0, k.1, *v).unwrap());
                Dok(d)
            }
        }
    }
}

struct Slot<I> {
    m: Mat<I>,
    w: Model<Fp>,
}

struct Lim {
    dim: usize,
    nnz: usize,
}

fn fresh<I: Ix>(r: &mut Rng, l: &Lim, base: &[usize]) -> Slot<I> {
    let (m, n) = (*r.pick(base), *r.pick(base));
    let o = Opt::of::<I, Fp>().nnz(if l.nnz < 2000 { (l.nnz / 4).min(300) } else { l.nnz / 6 });
    let raw = Raw::<Fp>::random(r, m, n, &o);
    let slack = r.chance(1, 3);
    match r.below(5) {
        0 | 1 => Slot { m: Csr(raw.csr(r, slack)), w: raw.model() },
        2 => Slot { m: Csc(raw.csc(r, slack)), w: raw.model().t() },
        3 => Slot { m: Tri(raw.coo(r)), w: raw.model() },
        _ => {
            let mut d = DoK::new(m, n);
            let w = raw.model();
            for (&(i, j), &v) in &w.map {
                d.set(I::ix(i), I::ix(j), v).unwrap();
            }
            Slot { m: Dok(d), w }
        }
    }
}

fn zip(a: &Model<Fp>, b: &Model<Fp>, sub: bool) -> Model<Fp> {
    a.zip(b, |x, y| if sub { x - y } else { x + y })
}

/// One operation; returns its name, what it gave and what the model says.
fn step<I: Ix>(cx: &mut Cx, r: &mut Rng, pool: &mut [Slot<I>], l: &Lim, base: &[usize]) -> (String, Option<Slot<I>>) {
    let k = r.below(pool.len());
    let ok = |what: &str, x: Result<Mat<I>, anyhow::Error>, cx: &Cx| -> Mat<I> { x.unwrap_or_else(|e| cx.fail(format!("{}: refused: {}", what, e))) };
    // In-place operations on the slot itself.
    match r.below(26) {
        0 => return ("new".into(), Some(fresh(r, l, base))),
        1 => {
            let s = &mut pool[k];
            let what = match &mut s.m {
                Csr(a) => {
                    a.sort_indexes();
                    ck!(cx, a.has_sorted_indexes(), "sort_indexes left the indices unsorted");
                    "CSR::sort_indexes"
                }
                Csc(a) => {
                    a.sort_indexes();
                    ck!(cx, a.has_sorted_indexes(), "sort_indexes left the indices unsorted");
                    "CSC::sort_indexes"
                }
                _ => "nothing",
            };
            return (what.into(), None);
        }
        2 => {
            let s = &mut pool[k];
            let what = match &mut s.m {
                Csr(a) => {
                    cx.get(a.sum_duplicates().map_err(|e| e.to_string()));
                    ck!(cx, a.has_canonical_format(), "sum_duplicates left the matrix non-canonical");
                    "CSR::sum_duplicates"
                }
                Csc(a) => {
                    a.sum_duplicates();
                    ck!(cx, a.has_canonical_format(), "sum_duplicates left the matrix non-canonical");
                    "CSC::sum_duplicates"
                }
                _ => "nothing",
            };
            return (what.into(), None);
        }
        3 => {
            if let Csc(a) = &mut pool[k].m {
                cx.get(a.prune().map_err(|e| e.to_string()));
                return ("CSC::prune".into(), None);
            }
            return ("nothing".into(), None);
        }
        4 | 5 => {
            // Write through the value view.
            let s = &mut pool[k];
            let n = s.m.stored();
            if n == 0 {
                return ("nothing".into(), None);
            }
            let q = r.below(n);
            let v = if r.chance(1, 3) { Fp(0) } else { Fp::gen(r) };
            let (pos, old) = match &mut s.m {
                Csr(a) => {
                    let i = (0..a.rows()).find(|&i| q < a.rowptr()[i + 1].us()).unwrap();
                    let old = std::mem::replace(&mut a.values_mut()[q], v);
                    ((i, a.colidx()[q].us()), old)
                }
                Csc(a) => {
                    let j = (0..a.cols()).find(|&j| q < a.colptr()[j + 1].us()).unwrap();
                    let old = std::mem::replace(&mut a.values_mut()[q], v);
                    ((a.rowidx()[q].us(), j), old)
                }
                Tri(a) => {
                    let old = std::mem::replace(&mut a.values_mut()[q], v);
                    ((a.rowidx()[q].us(), a.colidx()[q].us()), old)
                }
                Dok(_) => return ("nothing".into(), None),
            };
            s.w.add(pos.0, pos.1, v - old);
            return ("write a value".into(), None);
        }
        6 | 7 => {
            // Add an entry.
            let s = &mut pool[k];
            let (m, n) = (s.w.rows, s.w.cols);
            if m * n == 0 || s.m.stored() + 9 > l.nnz {
                return ("nothing".into(), None);
            }
            let (i, j) = (r.below(m), r.below(n));
            let v = if r.chance(1, 4) { -s.w.get(i, j) } else { Fp::gen(r) };
            match &mut s.m {
                Tri(c) if r.chance(1, 2) => {
                    c.push(I::ix(i), I::ix(j), v);
                    s.w.add(i, j, v);
                    return ("Coo::push".into(), None);
                }
                Tri(c) => {
                    let e: Vec<(usize, usize, Fp)> = (0..r.below(8)).map(|_| (r.below(m), r.below(n), Fp::gen(r))).collect();
                    c.extend(&e.iter().map(|e| I::ix(e.0)).collect::<Vec<I>>(), &e.iter().map(|e| I::ix(e.1)).collect::<Vec<I>>(), &e.iter().map(|e| e.2).collect::<Vec<Fp>>());
                    e.iter().for_each(|e| s.w.add(e.0, e.1, e.2));
                    return ("Coo::extend".into(), None);
                }
                Dok(d) => {
                    let what = match r.below(3) {
                        0 => {
                            cx.get(d.add(I::ix(i), I::ix(j), v).map_err(|e| e.to_string()));
                            s.w.add(i, j, v);
                            "DoK::add"
                        }
                        1 => {
                            cx.get(d.sub(I::ix(i), I::ix(j), v).map_err(|e| e.to_string()));
                            s.w.add(i, j, -v);
                            "DoK::sub"
                        }
                        _ => {
                            cx.get(d.set(I::ix(i), I::ix(j), v).map_err(|e| e.to_string()));
                            s.w.map.insert((i, j), v);
                            "DoK::set"
                        }
                    };
                    return (what.into(), None);
                }
                _ => return ("nothing".into(), None),
            }
        }
        _ => {}
    }
    // Operations that give a new matrix from one or two of the pool.
    let op = r.below(13);
    let q = {
        // Prefer a partner of the same format and a fitting shape.
        let fit = |a: &Slot<I>, b: &Slot<I>| match op {
            0..=2 | 10 => (a.w.rows, a.w.cols) == (b.w.rows, b.w.cols),
            3 | 4 => a.w.cols == b.w.rows,
            5 => a.w.rows == b.w.rows,
            6 => a.w.cols == b.w.cols,
            _ => true,
        };
        let mixed = matches!((op, &pool[k].m), (3 | 4, Csc(_))) && r.chance(1, 2);
        let pair = |q: usize| if mixed { matches!(pool[q].m, Csr(_)) } else { pool[q].m.name() == pool[k].m.name() };
        let c: Vec<usize> = (0..pool.len()).filter(|&q| fit(&pool[k], &pool[q]) && pair(q)).collect();
        if c.is_empty() {
            k
        } else {
            *r.pick(&c)
        }
    };
    let (s, t) = (&pool[k], &pool[q]);
    let own = r.chance(1, 2);
    let small = s.m.stored() + t.m.stored() <= l.nnz;
    let same = (s.w.rows, s.w.cols) == (t.w.rows, t.w.cols);
    let sub = r.chance(1, 2);
    let res: Option<(String, Mat<I>, Model<Fp>)> = match (op, &s.m, &t.m) {
        // Sums and differences.
        (0..=2, Csr(a), Csr(b)) if same && small => {
            let x = match (own, sub) {
                (true, true) => a.clone() - b,
                (true, false) => a + b.clone(),
                (false, true) => a - b,
                (false, false) => a + b,
            };
            Some((format!("CSR {} CSR", if sub { "-" } else { "+" }), Csr(x), zip(&s.w, &t.w, sub)))
        }
        (0..=2, Csc(a), Csc(b)) if same && small => {
            let x = match (own, sub) {
                (true, true) => ok("CSC::subtract", a.subtract(b).map(Csc), cx),
                (true, false) => ok("CSC::add", a.add(b).map(Csc), cx),
                (false, true) => Csc(a - b),
                (false, false) => Csc(a + b),
            };
            Some((format!("CSC {} CSC", if sub { "-" } else { "+" }), x, zip(&s.w, &t.w, sub)))
        }
        (0..=2, Tri(a), Tri(b)) if same && small => Some(("Coo + Coo".into(), Csr(if own { a.clone() + b.clone() } else { a + b }), zip(&s.w, &t.w, false))),
        // Products.
        (3 | 4, Csr(a), Csr(b)) if s.w.cols == t.w.rows && s.w.rows * t.w.cols <= l.nnz => {
            let x = if own { ok("CSR::mat_mat", a.mat_mat(b).map(Csr), cx) } else { Csr(a * b) };
            Some(("CSR * CSR".into(), x, s.w.mul(&t.w)))
        }
        (3 | 4, Csc(a), Csc(b)) if s.w.cols == t.w.rows && s.w.rows * t.w.cols <= l.nnz => {
            let x = if own { ok("CSC::mat_mat", a.mat_mat(b).map(Csc), cx) } else { Csc(a * b) };
            Some(("CSC * CSC".into(), x, s.w.mul(&t.w)))
        }
        (3 | 4, Csc(a), Csr(b)) if s.w.cols == t.w.rows && s.w.rows * t.w.cols <= l.nnz => Some(("CSC * CSR".into(), Csc(if own { clone_csc(a) * b } else { a * b }), s.w.mul(&t.w))),
        // Stacking.
        (5, Tri(a), Tri(b)) if own && s.w.rows == t.w.rows && 2 * s.w.cols + t.w.cols <= l.dim && s.m.stored() + t.m.stored() <= l.nnz / 2 => {
            Some(("Coo::h_stack3".into(), ok("Coo::h_stack3", Coo::h_stack3(a, b, a).map(Tri), cx), s.w.hstack(&t.w).hstack(&s.w)))
        }
        (6, Tri(a), Tri(b)) if own && s.w.cols == t.w.cols && s.w.rows + 2 * t.w.rows <= l.dim && s.m.stored() + t.m.stored() <= l.nnz / 2 => {
            Some(("Coo::v_stack3".into(), ok("Coo::v_stack3", Coo::v_stack3(b, a, b).map(Tri), cx), t.w.vstack(&s.w).vstack(&t.w)))
        }
        (10, Tri(a), Tri(b)) if sub && same && 2 * s.w.rows <= l.dim && 2 * s.w.cols <= l.dim && 2 * (s.m.stored() + t.m.stored()) <= l.nnz => {
            Some(("Coo::compose".into(), ok("Coo::compose", Coo::compose([[a, b], [b, a]]).map(Tri), cx), s.w.hstack(&t.w).vstack(&t.w.hstack(&s.w))))
        }
        (10, Tri(a), Tri(b)) if own && same && 3 * s.w.rows <= l.dim && 3 * s.w.cols <= l.dim && 5 * (s.m.stored() + t.m.stored()) <= l.nnz => {
            let (x, y) = (s.w.hstack(&t.w).hstack(&s.w), t.w.hstack(&s.w).hstack(&t.w));
            Some(("Coo::compose3".into(), ok("Coo::compose3", Coo::compose3([[a, b, a], [b, a, b], [a, b, a]]).map(Tri), cx), x.vstack(&y).vstack(&x)))
        }
        (5, Csr(a), Csr(b)) if s.w.rows == t.w.rows && s.w.cols + t.w.cols <= l.dim && small => Some(("CSR::h_stack".into(), ok("CSR::h_stack", CSR::h_stack(a, b).map(Csr), cx), s.w.hstack(&t.w))),
        (5, Tri(a), Tri(b)) if s.w.rows == t.w.rows && s.w.cols + t.w.cols <= l.dim && small => Some(("Coo::h_stack".into(), ok("Coo::h_stack", Coo::h_stack(a, b).map(Tri), cx), s.w.hstack(&t.w))),
        (6, Tri(a), Tri(b)) if s.w.cols == t.w.cols && s.w.rows + t.w.rows <= l.dim && small => Some(("Coo::v_stack".into(), ok("Coo::v_stack", Coo::v_stack(a, b).map(Tri), cx), s.w.vstack(&t.w))),
        (5 | 6, Csc(a), Csc(b)) if same && 2 * s.w.rows <= l.dim && 2 * s.w.cols <= l.dim && 2 * (s.m.stored() + t.m.stored()) <= l.nnz => {
            Some(("CSC::compose".into(), ok("CSC::compose", CSC::compose(a, b, b, a).map(Csc), cx), s.w.hstack(&t.w).vstack(&t.w.hstack(&s.w))))
        }
        // Scaling and negation.
        (7, Csr(a), _) => {
            if own {
                Some(("-CSR".into(), Csr(-a.clone()), s.w.map_values(|v| -v)))
            } else {
                let f = if r.chance(1, 5) { Fp(0) } else { Fp::gen(r) };
                Some(("CSR * scalar".into(), Csr(a * f), s.w.map_values(|v| v * f)))
            }
        }
        (7, Csc(a), _) if own => Some(("-CSC".into(), Csc(-clone_csc(a)), s.w.map_values(|v| -v))),
        (7, Tri(a), _) => Some(("-Coo".into(), Tri(-a.clone()), s.w.map_values(|v| -v))),
        (7, Csc(a), _) => {
            let f = if r.chance(1, 5) { Fp(0) } else { Fp::gen(r) };
            Some(("CSC * scalar".into(), Csc(a * f), s.w.map_values(|v| v * f)))
        }
        // Selection.
        (8, Csr(_) | Csc(_), _) if s.w.rows > 0 && s.w.cols > 0 => {
            let pick = |r: &mut Rng, n: usize| -> Option<Vec<usize>> {
                match r.below(4) {
                    0 => None,
                    1 => {
                        let mut p: Vec<usize> = (0..n).collect();
                        r.shuffle(&mut p);
                        Some(p)
                    }
                    _ => Some((0..*r.pick(base)).map(|_| r.below(n)).collect()),
                }
            };
            let (ri, ci) = (pick(r, s.w.rows), pick(r, s.w.cols));
            let (fr, fc) = (ri.clone().unwrap_or((0..s.w.rows).collect()), ci.clone().unwrap_or((0..s.w.cols).collect()));
            if fr.len() * fc.len() > l.nnz {
                None
            } else {
                let (ir, ic): (Option<Vec<I>>, Option<Vec<I>>) = (ri.map(|v| v.into_iter().map(I::ix).collect()), ci.map(|v| v.into_iter().map(I::ix).collect()));
                let want = s.w.select(&fr, &fc);
                let (what, res, canonical) = match &s.m {
                    Csr(a) => ("CSR::select", a.select(ir.as_deref(), ic.as_deref()).map(Csr), a.has_canonical_format()),
                    Csc(a) => ("CSC::select", a.select(ir.as_deref(), ic.as_deref()).map(Csc), a.has_canonical_format()),
                    _ => unreachable!(),
                };
                match res {
                    Ok(x) => Some((what.into(), x, want)),
                    Err(e) => {
                        ck!(cx, !canonical, "{} refused a canonical matrix: {}", what, e);
                        None
                    }
                }
            }
        }
        (8, Tri(a), _) => {
            let k = r.below(l.dim.min(12));
            let mut w = Model::new(s.w.rows, s.w.cols);
            w.map = s.w.map.iter().filter(|(p, _)| p.1 >= p.0 + k).map(|(p, v)| (*p, *v)).collect();
            Some(("Coo::upper".into(), Tri(a.upper(I::ix(k))), w))
        }
        // Transposes.
        (9, Csr(a), _) => Some(("CSR transposed".into(), Csc(if own { a.clone().transpose() } else { a.t() }), s.w.t())),
        (9, Csc(a), _) => Some(("CSC transposed".into(), Csr(if own { a.transpose() } else { a.t() }), s.w.t())),
        (9, Tri(a), _) => Some(("Coo transposed".into(), Tri(if own { a.clone().transpose() } else { a.t() }), s.w.t())),
        // Conversions.
        (_, Csr(a), _) => Some(if own { ("CSR::to_csc".into(), Csc(a.to_csc()), s.w.clone()) } else { ("CSR::to_coo".into(), Tri(a.to_coo()), s.w.clone()) }),
        (_, Csc(a), _) => match r.below(3) {
            0 => Some(("CSC::to_csr".into(), Csr(a.to_csr()), s.w.clone())),
            1 => Some(("CSC::to_coo".into(), Tri(a.to_coo()), s.w.clone())),
            _ => {
                let d = a.to_dense();
                let mut w = s.w.clone();
                if w.rows == 0 {
                    w.cols = 0;
                }
                Some(match r.below(3) {
                    0 => ("CSC::to_dense then CSR::from_dense".into(), Csr(CSR::from_dense(&d)), w),
                    1 => ("CSC::to_dense then CSC::from_dense".into(), Csc(CSC::from_dense(&d)), w),
                    _ => ("CSC::to_dense then Coo::from_dense".into(), Tri(Coo::from_dense(&d)), w),
                })
            }
        },
        (_, Tri(a), _) => match r.below(4) {
            0 => Some(("Coo::to_csr".into(), Csr(a.to_csr()), s.w.clone())),
            1 => Some(("Coo::to_csc".into(), Csc(a.to_csc()), s.w.clone())),
            _ => {
                let d = a.to_dense();
                let refs: Vec<&[Fp]> = d.iter().map(|v| v.as_slice()).collect();
                let mut w = s.w.clone();
                if w.rows == 0 {
                    w.cols = 0;
                }
                Some(("Coo::to_dense then DoK::from_dense".into(), Dok(DoK::from_dense(&refs)), w))
            }
        },
        (_, Dok(a), _) => Some(match r.below(4) {
            0 => ("DoK::to_csr".into(), Csr(a.to_csr()), s.w.clone()),
            1 => ("DoK::to_csc".into(), Csc(a.to_csc()), s.w.clone()),
            2 => ("DoK::to_coo".into(), Tri(a.to_coo()), s.w.clone()),
            _ => {
                let mut w = s.w.clone();
                if w.rows == 0 {
                    w.cols = 0;
                }
                ("DoK::to_dense then CSC::from_dense".into(), Csc(CSC::from_dense(&a.to_dense())), w)
            }
        }),
    };
    match res {
        None => ("nothing".into(), None),
        Some((what, m, w)) => (format!("{} of {}{}", what, k, if q != k { format!(" and {}", q) } else { String::new() }), Some(Slot { m, w })),
    }
}

/// Reads that give no matrix.
fn queries<I: Ix>(cx: &mut Cx, r: &mut Rng, s: &Slot<I>) {
    let (m, n) = (s.w.rows, s.w.cols);
    let v: Vec<Fp> = (0..n).map(|_| Fp::gen(r)).collect();
    let want = s.w.mul_vec(&v);
    let d: Vec<Fp> = (0..m.min(n)).map(|i| s.w.get(i, i)).collect();
    match &s.m {
        Csr(a) => {
            ck!(cx, a.mat_vec(&v).ok().as_ref() == Some(&want), "CSR::mat_vec");
            ck!(cx, a.diagonal() == d, "CSR::diagonal");
            if m * n > 0 {
                let (i, j) = (r.below(m), r.below(n));
                ck!(cx, a.get(I::ix(i), I::ix(j)) == s.w.get(i, j), "CSR::get({}, {})", i, j);
            }
        }
        Csc(a) => {
            ck!(cx, a.mat_vec(&v).ok().as_ref() == Some(&want), "CSC::mat_vec");
            ck!(cx, a.diagonal() == d, "CSC::diagonal");
        }
        Tri(a) => {
            ck!(cx, a.diagonal() == d, "Coo::diagonal");
            if m * n < 900 {
                ck!(cx, a.to_dense() == s.w.dense(), "Coo::to_dense");
            }
        }
        Dok(a) => {
            if m * n > 0 {
                let (i, j) = (r.below(m), r.below(n));
                ck!(cx, a.get(I::ix(i), I::ix(j)) == s.w.get(i, j), "DoK::get({}, {})", i, j);
            }
        }
    }
    cx.count("queries", 1);
}

fn chain<I: Ix>(cx: &mut Cx, r: &mut Rng, size: usize) {
    let l = Lim { dim: [48, 120, 400][size].min(I::MAX), nnz: [1500, 5000, 20_000][size].min(I::MAX / 2) };
    let cap = [12, 40, 130][size].min(l.dim / 2);
    let mut base: Vec<usize> = (0..r.range(1, 3)).map(|_| r.range(1, cap)).collect();
    if r.chance(1, 12) {
        base.push(0);
    }
    if r.chance(1, 3) {
        base.truncate(1);
    }
    let n = r.range(2, 5);
    let mut pool: Vec<Slot<I>> = (0..n).map(|_| fresh(r, &l, &base)).collect();
    let steps = r.range(4, if cx.thorough { 60 } else { 30 });
    let mut log: Vec<String> = vec![];
    let mut h = 0u64;
    for _ in 0..steps {
        let before: Vec<u64> = pool.iter().map(|s| s.m.print()).collect();
        let res = caught(|| step(cx, r, &mut pool, &l, &base));
        let (what, new) = match res {
            Ok(x) => x,
            Err(p) => cx.fail(format!("index {}, bases {:?}, after {:?}: {}", I::NAME, base, log, p)),
        };
        if what != "nothing" {
            h = mix(h ^ rng::hash_str(&what));
            cx.seen(h);
            cx.count("steps", 1);
            if let Some(op) = what.split(" of ").next() {
                cx.count(&format!("step: {}", op), 1);
            }
        }
        log.push(what);
        if let Some(s) = new {
            // The operands were passed by reference.
            for (k, b) in before.iter().enumerate() {
                ck!(cx, pool[k].m.print() == *b, "index {}, bases {:?}, {:?}: the last step changed matrix {}", I::NAME, base, log, k);
            }
            let to = r.below(pool.len());
            pool[to] = s;
            log.last_mut().unwrap().push_str(&format!(" -> {}", to));
        }
        for (k, s) in pool.iter().enumerate() {
            let tag = format!("index {}, bases {:?}, {:?}: matrix {} ({})", I::NAME, base, log, k, s.m.name());
            let got = cx.get(s.m.read(&tag));
            cx.same(&tag, &s.w, &got);
        }
        let k = r.below(pool.len());
        if let Err(p) = caught(|| queries(cx, r, &pool[k])) {
            cx.fail(format!("index {}, bases {:?}, {:?}: reading matrix {}: {}", I::NAME, base, log, k, p));
        }
        // Matrices that have grown too large are replaced.
        for s in pool.iter_mut() {
            if s.m.stored() > l.nnz / 2 || s.w.rows > l.dim || s.w.cols > l.dim {
                *s = fresh(r, &l, &base);
                log.push("new".into());
            }
            if r.chance(1, 60) {
                s.m = s.m.dup();
            }
        }
    }
    cx.show(|| format!("index {}, bases {:?}: {:?}", I::NAME, base, log));
}

use harness::rng;

fn small(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 8 {
        0 | 1 => chain::<usize>(cx, r, 0),
        2 => chain::<u8>(cx, r, 0),
        3 => chain::<i8>(cx, r, 0),
        4 => chain::<u16>(cx, r, 0),
        5 => chain::<i32>(cx, r, 0),
        6 => chain::<u64>(cx, r, 0),
        _ => chain::<i128>(cx, r, 0),
    }
}
fn medium(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 4 {
        0 => chain::<usize>(cx, r, 1),
        1 => chain::<i16>(cx, r, 1),
        2 => chain::<u32>(cx, r, 1),
        _ => chain::<u8>(cx, r, 1),
    }
}
fn large(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 3 {
        0 => chain::<usize>(cx, r, 2),
        1 => chain::<u16>(cx, r, 2),
        _ => chain::<i32>(cx, r, 2),
    }
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "chains", quick: 24_000, thorough: 1_500_000, f: small },
        Family { name: "chains_medium", quick: 3_000, thorough: 200_000, f: medium },
        Family { name: "chains_large", quick: 300, thorough: 20_000, f: large },
    ]
}

pub fn main() {
    run(&families())
}
