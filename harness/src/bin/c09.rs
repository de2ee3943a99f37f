//! C09: stacking and block assembly.
use harness::*;

/// A block of the given size.
fn block<T: Val>(r: &mut Rng, o: &Opt, m: usize, n: usize) -> Raw<T> {
    let mut b = Raw::<T>::random(r, m, n, o);
    b.specials(r);
    b
}

/// Sizes of k consecutive blocks whose total fits the index type.
fn sizes(r: &mut Rng, k: usize, max: usize, big: bool) -> Vec<usize> {
    let cap = max / k;
    (0..k)
        .map(|_| {
            match r.below(if big { 12 } else { 10 }) {
                0 => 0,
                1 => 1,
                2..=6 => r.range(1, 9),
                7 | 8 => r.range(1, 30),
                9 => r.range(1, 130),
                _ => r.range(1, 30_000),
            }
            .min(cap)
        })
        .collect()
}

fn shift(l: &List, di: usize, dj: usize) -> List {
    l.iter().map(|e| (e.0 + di, e.1 + dj, e.2)).collect()
}

fn grid<T: Val>(b: &[Vec<Raw<T>>], rows: &[usize], cols: &[usize]) -> List {
    let mut l = vec![];
    let mut di = 0;
    for (x, br) in b.iter().enumerate() {
        let mut dj = 0;
        for (y, q) in br.iter().enumerate() {
            l.extend(shift(&q.list(), di, dj));
            dj += cols[y];
        }
        di += rows[x];
    }
    l.sort_unstable();
    l
}

fn blocks<T: Val>(r: &mut Rng, o: &Opt, rows: &[usize], cols: &[usize]) -> Vec<Vec<Raw<T>>> {
    let k = rows.len() * cols.len();
    let o = o.nnz(o.maxnnz / k);
    rows.iter().map(|&m| cols.iter().map(|&n| block(r, &o, m, n)).collect()).collect()
}

fn coo_of<I: Ix, T: Val>(cx: &mut Cx, what: &str, g: sparsetools_result::R<Coo<I, T>>, want: &List, m: usize, n: usize) {
    match g {
        Err(e) => cx.fail(format!("{} refused: {}", what, e)),
        Ok(g) => {
            ck!(cx, (g.rows(), g.cols()) == (m, n), "{}: shape {}x{} instead of {}x{}", what, g.rows(), g.cols(), m, n);
            cx.same_list(what, want, list_coo(what, &g));
            cx.count("assemblies", 1);
        }
    }
}
mod sparsetools_result {
    pub type R<T> = Result<T, anyhow::Error>;
}

fn stack<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    for form in 0..7 {
        let (kr, kc) = match form {
            0 => (1, 2),
            1 => (2, 1),
            2 => (1, 3),
            3 => (3, 1),
            4 => (2, 2),
            5 => (3, 3),
            _ => (1, 2),
        };
        let (rows, cols) = (sizes(r, kr, o.maxdim, big), sizes(r, kc, o.maxdim, big));
        let (m, n) = (rows.iter().sum::<usize>(), cols.iter().sum::<usize>());
        // Narrow types: keep the total within what a coordinate matrix can count.
        let b = blocks::<T>(r, &o, &rows, &cols);
        let want = grid(&b, &rows, &cols);
        if form == 0 {
            cx.show(|| format!("blocks {:?} by {:?}: {}", rows, cols, brief::<I, T>(&b[0][0])));
        }
        if want.len() > 0 {
            cx.seen(b.iter().flatten().fold(form as u64, |h, q| h.rotate_left(9) ^ q.hash()));
        }
        let c: Vec<Vec<Coo<I, T>>> = b.iter().map(|x| x.iter().map(|q| q.coo::<I>(r)).collect()).collect();
        let before: Vec<_> = c.iter().flatten().map(|q| list_coo("", q).unwrap()).collect();
        match form {
            0 => coo_of(cx, "Coo::h_stack", Coo::h_stack(&c[0][0], &c[0][1]), &want, m, n),
            1 => coo_of(cx, "Coo::v_stack", Coo::v_stack(&c[0][0], &c[1][0]), &want, m, n),
            2 => coo_of(cx, "Coo::h_stack3", Coo::h_stack3(&c[0][0], &c[0][1], &c[0][2]), &want, m, n),
            3 => coo_of(cx, "Coo::v_stack3", Coo::v_stack3(&c[0][0], &c[1][0], &c[2][0]), &want, m, n),
            4 => {
                coo_of(cx, "Coo::compose", Coo::compose([[&c[0][0], &c[0][1]], [&c[1][0], &c[1][1]]]), &want, m, n);
            }
            5 => coo_of(
                cx,
                "Coo::compose3",
                Coo::compose3([
                    [&c[0][0], &c[0][1], &c[0][2]],
                    [&c[1][0], &c[1][1], &c[1][2]],
                    [&c[2][0], &c[2][1], &c[2][2]],
                ]),
                &want,
                m,
                n,
            ),
            _ => {
                // A matrix stacked with itself.
                let q = &b[0][0];
                if q.nnz() * 2 <= I::MAX && rows[0] * 2 <= I::MAX {
                    let l = q.list();
                    let mut w = l.clone();
                    w.extend(shift(&l, rows[0], 0));
                    w.sort_unstable();
                    coo_of(cx, "Coo::v_stack with itself", Coo::v_stack(&c[0][0], &c[0][0]), &w, 2 * rows[0], cols[0]);
                    let mut w: List = l.iter().copied().chain(shift(&l, 0, cols[0])).collect();
                    w.sort_unstable();
                    if cols[0] * 2 <= I::MAX {
                        coo_of(cx, "Coo::h_stack with itself", Coo::h_stack(&c[0][0], &c[0][0]), &w, rows[0], 2 * cols[0]);
                    }
                    if q.nnz() * 4 <= I::MAX && cols[0] * 2 <= I::MAX {
                        let mut w: List = w.iter().copied().chain(shift(&w, rows[0], 0)).collect();
                        w.sort_unstable();
                        let k = &c[0][0];
                        coo_of(cx, "Coo::compose of one matrix", Coo::compose([[k, k], [k, k]]), &w, 2 * rows[0], 2 * cols[0]);
                    }
                }
            }
        }
        let after: Vec<_> = c.iter().flatten().map(|q| list_coo("", q).unwrap()).collect();
        ck!(cx, before == after, "stacking changed a block");
    }
    // Formats that merge duplicates: compared as matrices.
    let o = o.nnz(o.maxnnz.min(T::TERMS));
    let (rows, cols) = (sizes(r, 2, o.maxdim, big), sizes(r, 2, o.maxdim, big));
    let ob = o.nnz(o.maxnnz / 4);
    let b: Vec<Vec<Raw<T>>> = rows.iter().map(|&m| cols.iter().map(|&n| Raw::random(r, m, n, &ob)).collect()).collect();
    let model = |rs: std::ops::Range<usize>| {
        let mut w: Option<Model<T>> = None;
        for x in rs {
            let l = b[x][0].model().hstack(&b[x][1].model());
            w = Some(match w {
                None => l,
                Some(v) => v.vstack(&l),
            });
        }
        w.unwrap()
    };
    let s: Vec<CSR<I, T>> = vec![b[0][0].csr(r, true), b[0][1].csr(r, true)];
    match CSR::h_stack(&s[0], &s[1]) {
        Err(e) => cx.fail(format!("CSR::h_stack refused: {}", e)),
        Ok(g) => {
            let got = cx.get(read_csr("CSR::h_stack", &g, Len::AtLeast));
            cx.same("CSR::h_stack", &model(0..1), &got);
            cx.count("assemblies", 1);
        }
    }
    if r.chance(1, 3) && rows[0] * 2 <= I::MAX && cols[0] * 2 <= I::MAX && b[0][0].nnz() * 4 <= I::MAX {
        // One object in every place.
        let (q, w) = (&b[0][0], b[0][0].model());
        let g = CSR::h_stack(&s[0], &s[0]).unwrap_or_else(|e| cx.fail(format!("CSR::h_stack of a matrix with itself refused: {}", e)));
        let got = cx.get(read_csr("CSR::h_stack with itself", &g, Len::AtLeast));
        cx.same("CSR::h_stack with itself", &w.hstack(&w), &got);
        let (p, w) = (q.csc::<I>(r, true), w.t());
        let g = CSC::compose(&p, &p, &p, &p).unwrap_or_else(|e| cx.fail(format!("CSC::compose of one matrix refused: {}", e)));
        let got = cx.get(read_csc("CSC::compose of one matrix", &g, Len::AtLeast));
        cx.same("CSC::compose of one matrix", &w.hstack(&w).vstack(&w.hstack(&w)), &got);
        cx.count("assemblies", 2);
    }
    // csc() gives the transpose, so the grid is transposed.
    let p: Vec<Vec<CSC<I, T>>> = b.iter().map(|x| x.iter().map(|q| q.csc(r, true)).collect()).collect();
    match CSC::compose(&p[0][0], &p[1][0], &p[0][1], &p[1][1]) {
        Err(e) => cx.fail(format!("CSC::compose refused: {}", e)),
        Ok(g) => {
            let got = cx.get(read_csc("CSC::compose", &g, Len::AtLeast));
            cx.same("CSC::compose", &model(0..2).t(), &got);
            cx.count("assemblies", 1);
        }
    }
}

/// Grids in which one block has a size that does not fit.
fn misfit<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, _big: bool) {
    let o = Opt::of::<I, T>().nnz(I::MAX.min(90) / 9);
    let k = *r.pick(&[2usize, 3]);
    let (rows, cols) = (sizes(r, k, o.maxdim / 2, false), sizes(r, k, o.maxdim / 2, false));
    let mut b = blocks::<T>(r, &o, &rows, &cols);
    // The first row of blocks sets the row count of its stack, and so on: disturb one block.
    let (x, y) = (r.below(k), r.below(k));
    let tall = r.chance(1, 2);
    let (m, n) = (rows[x], cols[y]);
    let d = |r: &mut Rng, v: usize| match r.below(3) {
        0 if v > 0 => v - 1,
        1 => v + r.range(1, 5),
        _ => v + 1,
    };
    let (m2, n2) = if tall { (d(r, m), n) } else { (m, d(r, n)) };
    b[x][y] = block(r, &o, m2, n2);
    cx.show(|| format!("rows {:?} cols {:?}, block ({}, {}) is {}x{}", rows, cols, x, y, m2, n2));
    let c: Vec<Vec<Coo<I, T>>> = b.iter().map(|x| x.iter().map(|q| q.coo::<I>(r)).collect()).collect();
    let before: Vec<_> = c.iter().flatten().map(|q| list_coo("", q).unwrap()).collect();
    let refused = |cx: &mut Cx, what: &str, g: bool| {
        ck!(cx, !g, "{} accepted rows {:?} cols {:?} with block ({}, {}) of size {}x{}", what, rows, cols, x, y, m2, n2);
        cx.count("misfits_refused", 1);
    };
    if k == 2 {
        refused(cx, "Coo::compose", Coo::compose([[&c[0][0], &c[0][1]], [&c[1][0], &c[1][1]]]).is_ok());
        let p: Vec<Vec<CSC<I, T>>> = b.iter().map(|x| x.iter().map(|q| q.csc(r, true)).collect()).collect();
        refused(cx, "CSC::compose", CSC::compose(&p[0][0], &p[1][0], &p[0][1], &p[1][1]).is_ok());
        if tall {
            refused(cx, "Coo::h_stack", Coo::h_stack(&c[x][0], &c[x][1]).is_ok());
            let s: Vec<CSR<I, T>> = vec![b[x][0].csr(r, true), b[x][1].csr(r, true)];
            refused(cx, "CSR::h_stack", CSR::h_stack(&s[0], &s[1]).is_ok());
        } else {
            refused(cx, "Coo::v_stack", Coo::v_stack(&c[0][y], &c[1][y]).is_ok());
        }
    } else {
        let g = Coo::compose3([
            [&c[0][0], &c[0][1], &c[0][2]],
            [&c[1][0], &c[1][1], &c[1][2]],
            [&c[2][0], &c[2][1], &c[2][2]],
        ]);
        refused(cx, "Coo::compose3", g.is_ok());
        if tall {
            refused(cx, "Coo::h_stack3", Coo::h_stack3(&c[x][0], &c[x][1], &c[x][2]).is_ok());
        } else {
            refused(cx, "Coo::v_stack3", Coo::v_stack3(&c[0][y], &c[1][y], &c[2][y]).is_ok());
        }
    }
    let after: Vec<_> = c.iter().flatten().map(|q| list_coo("", q).unwrap()).collect();
    ck!(cx, before == after, "refused stacking changed a block");
    cx.seen(b.iter().flatten().fold(99, |h, q| h.rotate_left(9) ^ q.hash()));
}

/// Stacks of blocks of which no dimension can be allocated.
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let o = Opt::of::<I, T>();
    let (kr, kc) = *r.pick(&[(1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (3, 3)]);
    let size = |r: &mut Rng, k: usize| -> Vec<usize> { (0..k).map(|_| if r.chance(1, 3) { r.below(30).min(I::MAX / k) } else { far_dim(r, I::MAX / k) }).collect() };
    let (rows, cols) = (size(r, kr), size(r, kc));
    let (m, n) = (rows.iter().sum::<usize>(), cols.iter().sum::<usize>());
    cx.show(|| format!("blocks {:?} by {:?}, index {} value {}", rows, cols, I::NAME, T::NAME));
    let mut want: List = vec![];
    let mut c: Vec<Vec<Coo<I, T>>> = vec![];
    let (mut di, mut h) = (0, 0);
    for &a in &rows {
        let (mut dj, mut line) = (0, vec![]);
        for &b in &cols {
            let mut q = Coo::with_size(a, b);
            for _ in 0..if a > 0 && b > 0 { r.below(12) } else { 0 } {
                let (i, j, v) = (spread(r, 1, a)[0], spread(r, 1, b)[0], if r.chance(1, 4) { T::special(r) } else { T::gen(r) });
                q.push(I::ix(i), I::ix(j), v);
                want.push((di + i, dj + j, v.bits()));
                h = rng::mix(h ^ i as u64 ^ (j as u64).rotate_left(13));
            }
            dj += b;
            line.push(q);
        }
        di += a;
        c.push(line);
    }
    want.sort_unstable();
    cx.seen(h);
    match (kr, kc) {
        (1, 2) => {
            coo_of(cx, "Coo::h_stack", Coo::h_stack(&c[0][0], &c[0][1]), &want, m, n);
            // Compressed rows: the same blocks over fewer rows, merged.
            let (k, o) = (r.below(12), o.nnz(200).canonical());
            let mut b: Vec<Raw<T>> = vec![];
            for _ in 0..2 {
                let n = r.range(1, 30);
                let mut x = Raw::random(r, k, n, &o);
                if r.chance(3, 4) {
                    x.stretch::<I>(r, I::MAX / 2);
                }
                b.push(x);
            }
            let (x, y): (CSR<I, T>, CSR<I, T>) = (b[0].csr(r, true), b[1].csr(r, true));
            let w = b[0].model().hstack(&b[1].model());
            let g = CSR::h_stack(&x, &y).unwrap_or_else(|e| cx.fail(format!("CSR::h_stack refused: {}", e)));
            let got = cx.get(read_csr("CSR::h_stack", &g, Len::AtLeast));
            cx.same("CSR::h_stack", &w, &got);
            cx.count("assemblies", 1);
        }
        (2, 1) => coo_of(cx, "Coo::v_stack", Coo::v_stack(&c[0][0], &c[1][0]), &want, m, n),
        (1, 3) => coo_of(cx, "Coo::h_stack3", Coo::h_stack3(&c[0][0], &c[0][1], &c[0][2]), &want, m, n),
        (3, 1) => coo_of(cx, "Coo::v_stack3", Coo::v_stack3(&c[0][0], &c[1][0], &c[2][0]), &want, m, n),
        (2, 2) => coo_of(cx, "Coo::compose", Coo::compose([[&c[0][0], &c[0][1]], [&c[1][0], &c[1][1]]]), &want, m, n),
        _ => {
            let g = Coo::compose3([[&c[0][0], &c[0][1], &c[0][2]], [&c[1][0], &c[1][1], &c[1][2]], [&c[2][0], &c[2][1], &c[2][2]]]);
            coo_of(cx, "Coo::compose3", g, &want, m, n)
        }
    }
}
cases!(far_case = far far);

cases!(any_case = any stack);
cases!(index_case = index stack);
cases!(big_case = big stack);
cases!(misfit_case = any misfit);
cases!(misfit_index = index misfit);

fn main() {
    run(&[
        Family { name: "stack", quick: 12_000, thorough: 500_000, f: any_case },
        Family { name: "index", quick: 6_000, thorough: 200_000, f: index_case },
        Family { name: "far", quick: 24_000, thorough: 600_000, f: far_case },
        Family { name: "big", quick: 150, thorough: 10_000, f: big_case },
        Family { name: "misfit", quick: 20_000, thorough: 500_000, f: misfit_case },
        Family { name: "misfit_index", quick: 6_000, thorough: 200_000, f: misfit_index },
    ])
}
