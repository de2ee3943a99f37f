//! C02: sorting, merging and the format predicates.
use harness::*;
use sparsetools::*;

fn predicates<I: Ix, T: Val>(cx: &mut Cx, what: &str, raw: &Raw<T>, csr: &CSR<I, T>, csc: &CSC<I, T>) {
    let (s, c) = (raw.sorted(), raw.canonical());
    cx.count("predicates_checked", 6);
    cx.count(if s { "sorted_true" } else { "sorted_false" }, 1);
    cx.count(if c { "canonical_true" } else { "canonical_false" }, 1);
    ck!(cx, csr.has_sorted_indexes() == s, "{}: CSR::has_sorted_indexes is not {}", what, s);
    ck!(cx, csr.has_canonical_format() == c, "{}: CSR::has_canonical_format is not {}", what, c);
    ck!(cx, csc.has_sorted_indexes() == s, "{}: CSC::has_sorted_indexes is not {}", what, s);
    ck!(cx, csc.has_canonical_format() == c, "{}: CSC::has_canonical_format is not {}", what, c);
    ck!(cx, csr_has_sorted_indices(raw.major, csr.rowptr(), csr.colidx()) == s, "{}: csr_has_sorted_indices is not {}", what, s);
    ck!(cx, csr_has_canonical_format(raw.major, csr.rowptr(), csr.colidx()) == c, "{}: csr_has_canonical_format is not {}", what, c);
}

/// Lines of compressed storage as read back.
fn lines<I: Ix, T: Val>(ptr: &[I], idx: &[I], val: &[T]) -> Vec<Vec<(usize, u128)>> {
    (0..ptr.len() - 1).map(|i| (ptr[i].us()..ptr[i + 1].us()).map(|k| (idx[k].us(), val[k].bits())).collect()).collect()
}

fn check_sorted(cx: &mut Cx, what: &str, before: &[Vec<(usize, u128)>], after: &[Vec<(usize, u128)>]) {
    ck!(cx, before.len() == after.len(), "{}: number of lines changed", what);
    for (i, (b, a)) in before.iter().zip(after).enumerate() {
        ck!(cx, a.windows(2).all(|w| w[0].0 <= w[1].0), "{}: line {} not sorted: {:?}", what, i, a);
        let (mut b, mut a) = (b.clone(), a.clone());
        b.sort_unstable();
        a.sort_unstable();
        ck!(cx, a == b, "{}: line {} is not a permutation: {:?} became {:?}", what, i, b, a);
    }
    cx.count("sorted_lines", before.len());
}

/// After merging: canonical, same matrix, same occupied positions.
fn check_merged<T: Val>(cx: &mut Cx, what: &str, m: &Model<T>, got: Result<List, String>, sorted: bool, canonical: bool) {
    ck!(cx, sorted && canonical, "{}: result not reported as canonical", what);
    let want: List = m.map.iter().map(|(&(i, j), v)| (i, j, v.bits())).collect();
    cx.same_list(what, &want, got);
    cx.count("merges", 1);
}
/// Canonical and equal.
fn check_equal<T: Val>(cx: &mut Cx, what: &str, m: &Model<T>, got: Result<Model<T>, String>, lines: Vec<Vec<(usize, u128)>>, sorted: bool, canonical: bool) {
    ck!(cx, sorted && canonical, "{}: result not reported as canonical", what);
    for l in &lines {
        ck!(cx, l.windows(2).all(|w| w[0].0 < w[1].0), "{}: line not canonical: {:?}", what, l);
    }
    let g = cx.get(got);
    cx.same(what, m, &g);
    cx.count("canonicalising_conversions", 1);
}

fn work<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, raw: &Raw<T>) {
    let m = raw.model();
    let mt = m.t();
    let mut csr = raw.csr::<I>(r, true);
    let mut csc = raw.csc::<I>(r, true);
    predicates(cx, "fresh", raw, &csr, &csc);
    let l0 = lines(csr.rowptr(), csr.colidx(), csr.values());
    let merge_first = r.chance(1, 3);
    if !merge_first {
        csr.sort_indexes();
        csc.sort_indexes();
        cx.ok(read_csr("CSR::sort_indexes", &csr, Len::AtLeast).map(|_| ()));
        cx.ok(read_csc("CSC::sort_indexes", &csc, Len::AtLeast).map(|_| ()));
        check_sorted(cx, "CSR::sort_indexes", &l0, &lines(csr.rowptr(), csr.colidx(), csr.values()));
        check_sorted(cx, "CSC::sort_indexes", &l0, &lines(csc.colptr(), csc.rowidx(), csc.values()));
        ck!(cx, csr.has_sorted_indexes() && csc.has_sorted_indexes(), "sorted matrix not reported as sorted");
        let dup = l0.iter().any(|l| {
            let mut j: Vec<usize> = l.iter().map(|e| e.0).collect();
            j.sort_unstable();
            j.windows(2).any(|w| w[0] == w[1])
        });
        ck!(cx, csr.has_canonical_format() != dup, "CSR canonical predicate after sorting (repeats: {})", dup);
        ck!(cx, csc.has_canonical_format() != dup, "CSC canonical predicate after sorting (repeats: {})", dup);
    }
    if let Err(e) = csr.sum_duplicates() {
        cx.fail(format!("CSR::sum_duplicates: {}", e))
    }
    csc.sum_duplicates();
    check_merged(cx, "CSR::sum_duplicates", &m, list_csr("CSR::sum_duplicates", &csr, Len::AtLeast), csr.has_sorted_indexes(), csr.has_canonical_format());
    check_merged(cx, "CSC::sum_duplicates", &mt, list_csc("CSC::sum_duplicates", &csc, Len::AtLeast), csc.has_sorted_indexes(), csc.has_canonical_format());
    // Once more changes nothing.
    let (a, b) = (lines(csr.rowptr(), csr.colidx(), csr.values()), lines(csc.colptr(), csc.rowidx(), csc.values()));
    csr.sum_duplicates().unwrap();
    csr.sort_indexes();
    csc.sort_indexes();
    csc.sum_duplicates();
    ck!(cx, a == lines(csr.rowptr(), csr.colidx(), csr.values()), "CSR: merging or sorting a canonical matrix changed it");
    ck!(cx, b == lines(csc.colptr(), csc.rowidx(), csc.values()), "CSC: merging or sorting a canonical matrix changed it");

    let coo = raw.coo::<I>(r);
    let x = coo.to_csr();
    check_equal(cx, "Coo::to_csr", &m, read_csr("Coo::to_csr", &x, Len::AtLeast), lines(x.rowptr(), x.colidx(), x.values()), x.has_sorted_indexes(), x.has_canonical_format());
    // By columns, of the transpose if the columns are too many.
    let far = m.cols >= FAR - 100;
    let (x, w) = if far { (coo.t().to_csc(), &mt) } else { (coo.to_csc(), &m) };
    check_equal(cx, "Coo::to_csc", w, read_csc("Coo::to_csc", &x, Len::AtLeast), lines(x.colptr(), x.rowidx(), x.values()), x.has_sorted_indexes(), x.has_canonical_format());
    let mut dok = DoK::<I, T>::new(m.rows, m.cols);
    let mut dokt = DoK::<I, T>::new(w.rows, w.cols);
    for (i, j, v) in raw.triplets(r, true) {
        let (i, j) = (I::ix(i), I::ix(j));
        dok.add(i, j, v).unwrap();
        if far { dokt.add(j, i, v) } else { dokt.add(i, j, v) }.unwrap();
    }
    let x = dok.to_csr();
    check_equal(cx, "DoK::to_csr", &m, read_csr("DoK::to_csr", &x, Len::AtLeast), lines(x.rowptr(), x.colidx(), x.values()), x.has_sorted_indexes(), x.has_canonical_format());
    let x = dokt.to_csc();
    check_equal(cx, "DoK::to_csc", w, read_csc("DoK::to_csc", &x, Len::AtLeast), lines(x.colptr(), x.rowidx(), x.values()), x.has_sorted_indexes(), x.has_canonical_format());
    kernels::<I, T>(cx, raw, &l0);
}

fn kernels<I: Ix, T: Val>(cx: &mut Cx, raw: &Raw<T>, l0: &[Vec<(usize, u128)>]) {
    // Zero elimination, in any order of entries.
    let (mut p, mut j, mut x) = (raw.iptr::<I>(), raw.iidx::<I>(), raw.val.clone());
    csr_eliminate_zeros(raw.major, raw.minor, &mut p, &mut j, &mut x);
    let n = p[raw.major].us();
    cx.ok(check_compressed("csr_eliminate_zeros", raw.major, raw.minor, &p, &j, &x, n, Len::AtLeast));
    let z = T::zero().bits();
    let want: Vec<Vec<(usize, u128)>> = l0.iter().map(|l| l.iter().copied().filter(|e| e.1 != z).collect()).collect();
    let got = lines(&p, &j, &x);
    for i in 0..raw.major {
        ck!(cx, want[i] == got[i], "csr_eliminate_zeros: line {}: {:?} instead of {:?}", i, got[i], want[i]);
    }
    cx.count("eliminations", 1);
    // Sorting kernel.
    let (p, mut j, mut x) = (raw.iptr::<I>(), raw.iidx::<I>(), raw.val.clone());
    csr_sort_indices(raw.major, &p, &mut j, &mut x);
    check_sorted(cx, "csr_sort_indices", l0, &lines(&p, &j, &x));
    // Merging kernel on the sorted data.
    let mut p2 = p.clone();
    csr_sum_duplicates(raw.major, raw.minor, &mut p2, &mut j, &mut x);
    let n = p2[raw.major].us();
    cx.ok(check_compressed("csr_sum_duplicates", raw.major, raw.minor, &p2, &j, &x, n, Len::AtLeast));
    ck!(cx, csr_has_canonical_format(raw.major, &p2, &j), "csr_sum_duplicates: not canonical");
    let got = lines(&p2, &j, &x);
    let m = raw.model();
    let mut k = 0;
    let want: Vec<_> = m.map.iter().map(|(&(i, j), v)| (i, j, v.bits())).collect();
    for (i, l) in got.iter().enumerate() {
        for &(c, v) in l {
            ck!(cx, k < want.len() && want[k] == (i, c, v), "csr_sum_duplicates: entry ({}, {}) {} instead of {:?}", i, c, v, want.get(k));
            k += 1;
        }
    }
    ck!(cx, k == want.len(), "csr_sum_duplicates: {} entries instead of {}", k, want.len());
}

fn random<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let o = Opt::of::<I, T>();
    let raw = Raw::<T>::any(r, &o, big);
    cx.show(|| brief::<I, T>(&raw));
    work::<I, T>(cx, r, &raw);
    if raw.nnz() > 1 {
        cx.seen(raw.hash());
    }
}

/// Values from the whole width of every scalar type.
fn ends<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let mut raw = Raw::<T>::any(r, &Opt { dups: false, ..Opt::of::<I, T>() }, big);
    raw.extremes(r);
    cx.show(|| brief::<I, T>(&raw));
    work::<I, T>(cx, r, &raw);
    cx.seen(raw.hash());
}
fn ends_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    dispatch_scalars!(i as usize, ends(cx, r, false))
}

/// Positions beyond what can be allocated.
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let raw = Raw::<T>::far::<I>(r, &Opt::of::<I, T>());
    cx.show(|| brief::<I, T>(&raw));
    work::<I, T>(cx, r, &raw);
    cx.seen(raw.hash());
}
cases!(far_case = far far);

/// All lines of up to three entries over three positions.
fn small_line(k: usize) -> Vec<usize> {
    match k {
        0 => vec![],
        1..=3 => vec![k - 1],
        4..=12 => vec![(k - 4) / 3, (k - 4) % 3],
        _ => {
            let k = k - 13;
            vec![k / 9, k / 3 % 3, k % 3]
        }
    }
}

/// Every combination of up to three short lines (the first 40 + 1600 + 64000 cases).
fn exhaust(cx: &mut Cx, r: &mut Rng, i: u64) {
    let i = i as usize;
    let ls: Vec<Vec<usize>> = if i < 40 {
        vec![small_line(i)]
    } else if i < 1640 {
        let k = i - 40;
        vec![small_line(k / 40), small_line(k % 40)]
    } else {
        let k = (i - 1640) % 64000;
        vec![small_line(k / 1600), small_line(k / 40 % 40), small_line(k % 40)]
    };
    // Not necessarily from position 0, and with the full range of a narrow type.
    let (off, minor) = if i % 2 == 0 { (0, 3) } else { (r.below(3), 6) };
    let mut raw = Raw { major: ls.len(), minor, ptr: vec![0], idx: vec![], val: vec![] };
    for l in &ls {
        for &j in l {
            raw.idx.push(j + off);
            raw.val.push(if r.chance(1, 5) { Fp(0) } else { Fp::gen(r) });
        }
        raw.ptr.push(raw.idx.len());
    }
    cx.count("small_patterns", 1);
    cx.seen(raw.hash());
    if i % 3 == 0 {
        work::<u8, Fp>(cx, r, &raw)
    } else {
        work::<usize, Fp>(cx, r, &raw)
    }
}

/// One long line among short ones: the pair that breaks the order may be anywhere.
fn long<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, _: bool) {
    let cap = I::MAX.min(T::TERMS).min(5000);
    let n = r.range(2, cap);
    let minor = cap;
    let mut line: Vec<usize> = (0..minor).collect();
    while line.len() > n {
        let k = r.below(line.len());
        line.swap_remove(k);
    }
    line.sort_unstable();
    match r.below(4) {
        0 => {}
        1 => {
            let k = r.below(n - 1);
            line[k + 1] = line[k];
        }
        2 => {
            let k = r.below(n - 1);
            line.swap(k, k + 1);
        }
        _ => {
            let (a, b) = (r.below(n), r.below(n));
            line.swap(a, b);
        }
    }
    let (before, after) = (r.below(3), r.below(3));
    let mut raw = Raw { major: before + 1 + after, minor, ptr: vec![0; before + 1], idx: line, val: vec![] };
    for _ in 0..=after {
        raw.ptr.push(raw.idx.len());
    }
    raw.val = raw.idx.iter().map(|_| T::gen(r)).collect();
    cx.count("long_lines", 1);
    work::<I, T>(cx, r, &raw);
    cx.seen(raw.hash());
}

cases!(random_case = any random);
cases!(index_case = index random);
cases!(big_case = big random);
cases!(long_case = any long);

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "exhaust", quick: 20_000, thorough: 65_640, f: exhaust },
        Family { name: "random", quick: 30_000, thorough: 1_500_000, f: random_case },
        Family { name: "index", quick: 6_000, thorough: 200_000, f: index_case },
        Family { name: "ends", quick: 6_000, thorough: 200_000, f: ends_case },
        Family { name: "long", quick: 1_500, thorough: 40_000, f: long_case },
        Family { name: "far", quick: 8_000, thorough: 300_000, f: far_case },
        Family { name: "big", quick: 1_000, thorough: 40_000, f: big_case },
    ]
}

pub fn main() {
    run_far(&families())
}
