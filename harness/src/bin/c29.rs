//! C29: memory stays proportional to the data and is given back.
//!
//! A counting allocator watches every call: the most it held beyond what was held before, what its
//! result holds, and, over repetitions, whether anything stays behind once the result is dropped.
use harness::memory::*;
use harness::rng::mix;
use harness::*;
use sparsetools::graph::{connected_components, depth_first_order, Connection};
use sparsetools::*;

#[global_allocator]
static COUNTING: Counting = Counting;

fn operand<T: Val>(r: &mut Rng, rows: Vec<Vec<usize>>, n: usize) -> Raw<T> {
    let nnz: usize = rows.iter().map(|x| x.len()).sum();
    let o = Opt { maxdim: usize::MAX, maxnnz: 2 * nnz + 10, dups: r.chance(1, 2), unsorted: r.chance(1, 2), zeros: r.chance(1, 2) };
    store(r, rows, n, &o)
}
fn scattered(r: &mut Rng, m: usize, n: usize, k: usize) -> Vec<Vec<usize>> {
    let mut rows: Vec<Vec<usize>> = vec![vec![]; m];
    for _ in 0..k {
        let i = r.below(m);
        rows[i].push(r.below(n));
    }
    for x in rows.iter_mut() {
        x.sort_unstable();
        x.dedup();
    }
    rows
}
/// Positions that a product can reach.
fn reach<T: Val>(a: &Raw<T>, b: &Raw<T>) -> usize {
    let mut mark = vec![usize::MAX; b.minor];
    let mut k = 0;
    for i in 0..a.major {
        for &j in &a.idx[a.ptr[i]..a.ptr[i + 1]] {
            for &l in &b.idx[b.ptr[j]..b.ptr[j + 1]] {
                if mark[l] != i {
                    mark[l] = i;
                    k += 1;
                }
            }
        }
    }
    k
}

fn calls<I: Ix, T: Val + std::ops::Neg<Output = T>>(cx: &mut Cx, r: &mut Rng, small: bool) {
    let (m, n, rows) = punishing(r, small);
    let a = operand::<T>(r, rows, n);
    let nnz = a.nnz();
    let w = m + n + nnz;
    cx.show(|| format!("{}x{} with {} entries", m, n, nnz));
    cx.seen(a.hash());
    let k2 = r.below(m + n);
    let rows2 = scattered(r, m, n, k2);
    let b = operand::<T>(r, rows2, n);
    let wb = w + b.nnz();
    let (x, p, c) = (a.csr::<I>(r, false), a.csc::<I>(r, false), a.coo::<I>(r));
    let (x2, p2, c2) = (b.csr::<I>(r, false), b.csc::<I>(r, false), b.coo::<I>(r));
    let v: Vec<T> = (0..n.max(m)).map(|_| T::unit()).collect();
    let repeat = small || r.chance(1, 4);
    let (ri, ci): (Vec<usize>, Vec<usize>) = ((0..r.range(1, 60)).map(|_| r.below(m)).collect(), (0..r.range(1, 60)).map(|_| r.below(n)).collect());
    let wd = r.range(1, m);
    let k3 = r.below(n + wd);
    let rows3 = scattered(r, n, wd, k3);
    let z = operand::<T>(r, rows3, wd);
    let q = r.below(n);
    let s = r.below(m);
    let mut t = Meter { cx, repeat };
    let t = &mut t;
    // Conversions, copies, transposes.
    t.call("CSR::to_csc", w, || x.to_csc());
    t.call("CSR::to_coo", w, || x.to_coo());
    t.call("CSC::to_csr", w, || p.to_csr());
    t.call("CSC::to_coo", w, || p.to_coo());
    t.call("Coo::to_csr", w, || c.to_csr());
    t.call("Coo::to_csc", w, || c.to_csc());
    t.call("CSR::t", w, || x.t());
    t.call("CSC::t", w, || p.t());
    t.call("CSC::transpose", w, || p.transpose());
    t.call("Coo::t", w, || c.t());
    t.call("CSR::transpose", w, || x.clone().transpose());
    t.call("Coo::transpose", w, || c.clone().transpose());
    t.call("-CSR", w, || -x.clone());
    if m * n <= 40 * w {
        t.call("CSC::to_dense", w + m * n, || p.to_dense());
        t.call("Coo::to_dense", w + m * n, || c.to_dense());
        let d = c.to_dense();
        t.call("CSR::from_dense", w + m * n, || CSR::<I, T>::from_dense(&d));
        t.call("CSC::from_dense", w + m * n, || CSC::<I, T>::from_dense(&d));
        t.call("Coo::from_dense", w + m * n, || Coo::<I, T>::from_dense(&d));
        t.call("CSR::to_table", w + m * n, || x.to_table());
    }
    // In place.
    t.call("CSR::sort_indexes", w, || x.clone().sort_indexes());
    t.call("CSR::sum_duplicates", w, || x.clone().sum_duplicates().unwrap());
    t.call("CSC::sort_indexes", w, || clone_csc(&p).sort_indexes());
    t.call("CSC::sum_duplicates", w, || clone_csc(&p).sum_duplicates());
    t.call("CSC::prune", w, || clone_csc(&p).prune().unwrap());
    t.call("CSR predicates", w, || (x.has_canonical_format(), x.has_sorted_indexes()));
    t.call("CSC predicates", w, || (p.has_canonical_format(), p.has_sorted_indexes()));
    // Reads.
    t.call("CSR::diagonal", w, || x.diagonal());
    t.call("CSC::diagonal", w, || p.diagonal());
    t.call("Coo::diagonal", w, || c.diagonal());
    t.call("Coo::upper", w, || c.upper(I::ix(q)));
    t.call("csr_count_diagonals", w, || csr_count_diagonals(m, x.rowptr(), x.colidx()));
    t.call("CSR::get", w, || x.get(I::ix(s), I::ix(q)));
    t.call("CSR::to_string", w, || x.to_string());
    t.call("CSC::to_string", w, || p.to_string());
    t.call("Coo::to_string", w, || c.to_string());
    // Vectors and scalars.
    t.call("CSR::mat_vec", w, || x.mat_vec(&v[..n]).unwrap());
    t.call("CSC::mat_vec", w, || p.mat_vec(&v[..m]).unwrap());
    t.call("CSR * scalar", w, || &x * T::unit());
    t.call("CSC * scalar", w, || &p * T::unit());
    // Sums.
    t.call("CSR + CSR", wb, || &x + &x2);
    t.call("CSR + itself", wb, || &x + &x);
    t.call("CSC + CSC", wb, || &p + &p2);
    t.call("CSC::add", wb, || p.add(&p2).unwrap());
    t.call("Coo + Coo", wb, || &c + &c2);
    if T::unit().opp().is_some() {
        t.call("CSR - CSR", wb, || &x - &x2);
        t.call("CSC - CSC", wb, || &p - &p2);
        t.call("CSC::subtract", wb, || p.subtract(&p2).unwrap());
        t.call("CSR - itself", wb, || &x - &x);
    }
    // Stacking.
    t.call("CSR::h_stack", wb, || CSR::h_stack(&x, &x2).unwrap());
    t.call("Coo::h_stack", wb, || Coo::h_stack(&c, &c2).unwrap());
    t.call("Coo::v_stack", wb, || Coo::v_stack(&c, &c2).unwrap());
    t.call("Coo::h_stack3", 2 * wb, || Coo::h_stack3(&c, &c2, &c).unwrap());
    t.call("Coo::v_stack3", 2 * wb, || Coo::v_stack3(&c, &c2, &c).unwrap());
    t.call("Coo::compose", 4 * wb, || Coo::compose([[&c, &c2], [&c2, &c]]).unwrap());
    t.call("Coo::compose3", 9 * wb, || Coo::compose3([[&c, &c2, &c], [&c2, &c, &c], [&c, &c, &c2]]).unwrap());
    t.call("CSC::compose", 4 * wb, || CSC::compose(&p, &p2, &p2, &p).unwrap());
    // Products: memory for what comes out, not for every multiply-add.
    let wp = w + wd + z.nnz() + reach(&a, &z);
    let (xz, pz) = (z.csr::<I>(r, false), z.csc::<I>(r, false));
    t.call("CSR * CSR", wp, || x.mat_mat(&xz).unwrap());
    t.call("CSC * CSC", wp, || pz.mat_mat(&p).unwrap());
    t.call("csr_matmat_maxnnz", wp, || csr_matmat_maxnnz(m, wd, x.rowptr(), x.colidx(), xz.rowptr(), xz.colidx()));
    // Selection.
    if a.canonical() {
        let lines: usize = ri.iter().map(|&i| a.ptr[i + 1] - a.ptr[i]).sum();
        let ws = w + lines + ri.len() * (ci.len() + 1);
        let (ri, ci): (Vec<I>, Vec<I>) = (ri.iter().map(|&i| I::ix(i)).collect(), ci.iter().map(|&i| I::ix(i)).collect());
        t.call("CSR::select", ws, || x.select(Some(&ri), Some(&ci)).unwrap());
        t.call("CSR::select of rows", ws, || x.select(Some(&ri), None).unwrap());
        t.call("CSC::select", ws, || p.select(Some(&ci), Some(&ri)).unwrap());
        t.call("CSC::select of columns", ws, || p.select(None, Some(&ri)).unwrap());
    }
    // Dictionaries.
    let entries: Vec<(I, I, T)> = a.triplets(r, true).into_iter().map(|e| (I::ix(e.0), I::ix(e.1), e.2)).collect();
    let fill = || {
        let mut d = DoK::new(m, n);
        for e in &entries {
            d.set(e.0, e.1, e.2).unwrap();
        }
        d
    };
    t.call("DoK::set", nnz, fill);
    let d = fill();
    t.call("DoK::to_coo", nnz, || d.to_coo());
    t.call("DoK::to_csr", w, || d.to_csr());
    t.call("DoK::to_csc", w, || d.to_csc());
    t.call("DoK::to_string", nnz, || d.to_string());
    t.call("DoK::set and take back", nnz, || {
        let mut d = fill();
        for e in &entries {
            d.set(e.0, e.1, T::zero()).unwrap();
        }
        d
    });
    t.call("Coo::push", nnz, || {
        let mut c = Coo::with_size(m, n);
        for e in &entries {
            c.push(e.0, e.1, e.2);
        }
        c
    });
    t.call("Coo::extend", nnz, || {
        let mut c2 = Coo::with_capacity(m, n, 1);
        c2.extend(c.rowidx(), c.colidx(), c.values());
        c2
    });
    // Graphs.
    if m == n && I::MAX >= 3 * n {
        t.call("weak components", w, || connected_components(&x, true, Connection::Weak).unwrap());
        t.call("strong components", w, || connected_components(&x, true, Connection::Strong).unwrap());
        t.call("undirected components", w, || connected_components(&x, false, Connection::Strong).unwrap());
        if nnz < 2000 {
            t.call("depth-first order", w, || depth_first_order(&x, s, true).unwrap());
            t.call("undirected depth-first order", w, || depth_first_order(&x, s, false).unwrap());
        }
    }
}

/// Refused and failing calls give everything back as well.
fn refused<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let n = r.range(2, 40);
    let o = Opt::of::<I, T>().nnz(200).dim(60);
    let (a, b) = (Raw::<T>::random(r, n, n + 1, &o), Raw::<T>::random(r, n + 2, n, &o));
    let (x, y) = (a.csr::<I>(r, true), b.csr::<I>(r, true));
    let (p, q) = (a.csc::<I>(r, true), b.csc::<I>(r, true));
    let (c, d) = (a.coo::<I>(r), b.coo::<I>(r));
    let w = 2 * n + a.nnz() + b.nnz() + 10;
    cx.seen(mix(a.hash() ^ b.hash()));
    let v = vec![T::unit(); n + 7];
    let far: Vec<I> = vec![I::ix(0), I::ix((n + 3).min(I::MAX))];
    let mut refused = 0;
    {
        let t = &mut Meter { cx, repeat: true };
        macro_rules! no {
            ($what:expr, $e:expr) => {
                t.call($what, w, || caught(|| $e.is_err()));
                refused += 1;
            };
        }
        no!("refused CSR::mat_vec", x.mat_vec(&v));
        no!("refused CSC::mat_vec", p.mat_vec(&v));
        no!("refused CSR::mat_mat", x.mat_mat(&x));
        no!("refused CSC::mat_mat", p.mat_mat(&p));
        no!("refused CSC::add", p.add(&q));
        no!("refused CSC::subtract", p.subtract(&q));
        no!("refused CSR::h_stack", CSR::h_stack(&x, &y));
        no!("refused Coo::h_stack", Coo::h_stack(&c, &d));
        no!("refused Coo::v_stack", Coo::v_stack(&c, &d));
        no!("refused Coo::h_stack3", Coo::h_stack3(&c, &c, &d));
        no!("refused Coo::v_stack3", Coo::v_stack3(&c, &c, &d));
        no!("refused Coo::compose", Coo::compose([[&c, &d], [&d, &c]]));
        no!("refused CSC::compose", CSC::compose(&p, &q, &q, &p));
        no!("refused CSR::select", x.select(Some(&far), None));
        no!("refused CSC::select", p.select(None, Some(&far)));
        no!("refused components", connected_components(&x, true, Connection::Strong));
        no!("refused traversal", depth_first_order(&x, 0, true));
        no!("refused CSR::new", CSR::<I, T>::new(n, n + 1, x.rowptr()[1..].to_vec(), x.colidx().to_vec(), x.values().to_vec()));
        no!("refused CSC::new", CSC::<I, T>::new(n, n + 1, p.rowidx().to_vec(), p.colptr()[1..].to_vec(), p.values().to_vec()));
        no!("refused Coo::new", Coo::<I, T>::new(n, n + 1, c.rowidx().to_vec(), c.colidx().to_vec(), vec![T::unit(); c.nnz() + 1]));
        no!("refused DoK::set", {
            let mut d = DoK::<I, T>::new(1, 1);
            d.set(I::ix(0), I::ix(0), T::unit()).unwrap();
            d.set(far[1], I::ix(0), T::unit())
        });
        // Operators panic instead.
        t.call("refused CSR + CSR", w, || caught(|| &x + &y).is_err());
        t.call("refused CSR - CSR", w, || caught(|| &x - &y).is_err());
        t.call("refused CSR * CSR", w, || caught(|| &x * &x).is_err());
        t.call("refused CSC + CSC", w, || caught(|| &p + &q).is_err());
        t.call("refused CSC * CSC", w, || caught(|| &p * &p).is_err());
        t.call("refused Coo + Coo", w, || caught(|| &c + &d).is_err());
        refused += 6;
    }
    cx.count("refused_calls", refused);
}

/// Coordinate and dictionary matrices take no room for rows and columns that hold nothing.
fn hyper(cx: &mut Cx, r: &mut Rng, _: u64) {
    let big = |r: &mut Rng| 10usize.pow(r.range(8, 17) as u32) + r.below(1000);
    let (m, n) = match r.below(4) {
        0 => (big(r), r.range(1, 10)),
        1 => (r.range(1, 10), big(r)),
        _ => (big(r), big(r)),
    };
    let k = r.range(0, 40);
    let e: Vec<(usize, usize, Fp)> = (0..k).map(|_| (r.below(m), r.below(n), Fp::gen(r))).collect();
    let col = |f: fn(&(usize, usize, Fp)) -> usize| e.iter().map(f).collect::<Vec<_>>();
    cx.show(|| format!("{}x{} with {} entries", m, n, k));
    cx.seen(mix((m ^ n.rotate_left(17) ^ k) as u64));
    let make = || Coo::new(m, n, col(|x| x.0), col(|x| x.1), e.iter().map(|x| x.2).collect()).unwrap();
    let c = make();
    let list = |l: Vec<(usize, usize, Fp)>| {
        let mut l: List = l.into_iter().map(|(i, j, v)| (i, j, v.bits())).collect();
        l.sort_unstable();
        l
    };
    let own = list(e.clone());
    let mut d = DoK::new(m, n);
    let mut map = std::collections::HashMap::new();
    for x in &e {
        d.set(x.0, x.1, x.2).unwrap();
        map.insert((x.0, x.1), x.2);
        if x.2 == Fp(0) {
            map.remove(&(x.0, x.1));
        }
    }
    let set = list(map.iter().map(|(k, v)| (k.0, k.1, *v)).collect());
    {
        let t = &mut Meter { cx, repeat: true };
        t.call("Coo::new", k, make);
        t.call("Coo::with_size", k, || Coo::<usize, Fp>::with_size(m, n));
        t.call("Coo::t", k, || c.t());
        t.call("Coo::transpose", k, || c.clone().transpose());
        t.call("Coo::upper", k, || c.upper(3));
        t.call("Coo::v_stack", 2 * k, || Coo::v_stack(&c, &c).unwrap());
        t.call("Coo::h_stack", 2 * k, || Coo::h_stack(&c, &c).unwrap());
        t.call("Coo::v_stack3", 3 * k, || Coo::v_stack3(&c, &c, &c).unwrap());
        t.call("Coo::h_stack3", 3 * k, || Coo::h_stack3(&c, &c, &c).unwrap());
        t.call("Coo::compose", 4 * k, || Coo::compose([[&c, &c], [&c, &c]]).unwrap());
        t.call("Coo::compose3", 9 * k, || Coo::compose3([[&c; 3]; 3]).unwrap());
        t.call("Coo::to_string", k, || c.to_string());
        t.call("DoK::new", 0, || DoK::<usize, Fp>::new(m, n));
        t.call("DoK::to_coo", k, || d.to_coo());
        t.call("DoK::to_string", k, || d.to_string());
        if m.min(n) < 1000 {
            t.call("Coo::diagonal", k + m.min(n), || c.diagonal());
        }
    }
    // And they are right.
    cx.same_list("Coo::new with large dimensions", &own, list_coo("Coo::new with large dimensions", &c));
    let c2 = c.t();
    ck!(cx, (c2.rows(), c2.cols()) == (n, m), "Coo::t with large dimensions has the shape {}x{}", c2.rows(), c2.cols());
    cx.same_list("Coo::t with large dimensions", &flip(&own), list_coo("Coo::t with large dimensions", &c2));
    cx.same_list("DoK::to_coo with large dimensions", &set, list_coo("DoK::to_coo with large dimensions", &d.to_coo()));
    let up = list(e.iter().filter(|x| x.1 as i128 - x.0 as i128 >= 3).copied().collect());
    cx.same_list("Coo::upper with large dimensions", &up, list_coo("Coo::upper with large dimensions", &c.upper(3)));
    let both = list(e.iter().flat_map(|x| [(x.0, x.1, x.2), (x.0, x.1 + n, x.2), (x.0 + m, x.1, x.2), (x.0 + m, x.1 + n, x.2)]).collect());
    let g = Coo::compose([[&c, &c], [&c, &c]]).unwrap();
    ck!(cx, (g.rows(), g.cols()) == (2 * m, 2 * n), "Coo::compose with large dimensions has the shape {}x{}", g.rows(), g.cols());
    cx.same_list("Coo::compose with large dimensions", &both, list_coo("Coo::compose with large dimensions", &g));
    for x in &e {
        let v = map.get(&(x.0, x.1)).copied().unwrap_or(Fp(0));
        ck!(cx, d.get(x.0, x.1) == v, "DoK::get({}, {}) with large dimensions", x.0, x.1);
    }
}

/// Products in which many multiply-adds meet at few positions.
fn meeting(cx: &mut Cx, r: &mut Rng, _: u64) {
    let (m, k, n) = (r.range(20, 60), r.range(200, 500), r.range(20, 60));
    let full = |m: usize, n: usize| -> Vec<Vec<usize>> { (0..m).map(|_| (0..n).collect()).collect() };
    let (a, b): (Raw<f64>, Raw<f64>) = (operand(r, full(m, k), k), operand(r, full(k, n), n));
    cx.seen(mix(a.hash() ^ b.hash()));
    cx.show(|| format!("full {}x{} times full {}x{}", m, k, k, n));
    // The operands are there already: only what comes out and the workspaces take room.
    let work = m + k + n + m * n;
    let (x, y) = (a.csr::<usize>(r, false), b.csr::<usize>(r, false));
    let (p, q) = (a.csc::<usize>(r, false), b.csc::<usize>(r, false));
    let t = &mut Meter { cx, repeat: false };
    t.call("CSR * CSR of full matrices", work, || x.mat_mat(&y).unwrap());
    t.call("CSC * CSC of full matrices", work, || q.mat_mat(&p).unwrap());
    let v = vec![1.0; k];
    let (peak, y) = most(|| x.mat_vec(&v).unwrap());
    ck!(t.cx, peak <= PER * (m + k) + FREE, "CSR::mat_vec: took {} bytes for a {}x{} matrix", peak, m, k);
    ck!(t.cx, y.len() == m, "CSR::mat_vec: {} elements", y.len());
}

/// Long lives: an object that is changed again and again keeps the room of its present content.
fn lives(cx: &mut Cx, r: &mut Rng, _: u64) {
    let n = r.range(2, 30);
    let o = Opt::of::<usize, Fp>().nnz(150);
    let a = Raw::<Fp>::random(r, n, n, &o);
    cx.seen(mix(a.hash()));
    cx.show(|| format!("{}x{} with {} entries, 200 rounds", n, n, a.nnz()));
    let w = n + n + a.nnz();
    let (mut x, mut p, mut c) = (a.csr::<usize>(r, true), a.csc::<usize>(r, true), a.coo::<usize>(r));
    let mut d = DoK::<usize, Fp>::new(n, n);
    let z = CSR::<usize, Fp>::with_size(n, n);
    let which = r.below(8);
    let mut most = 0;
    let start = live();
    for _ in 0..200 {
        match which {
            0 => x = &x + &z,
            1 => x = x.to_csc().to_csr().transpose().t(),
            2 => p = p.t().to_csc().t().to_csc(),
            3 => {
                x.sort_indexes();
                x.sum_duplicates().unwrap();
            }
            4 => {
                p.sort_indexes();
                p.sum_duplicates();
                p.prune().unwrap();
            }
            5 => c = c.transpose().to_csr().to_coo(),
            6 => {
                let (i, j) = (r.below(n), r.below(n));
                d.set(i, j, Fp::gen(r)).unwrap();
                d.set(i, j, Fp(0)).unwrap();
            }
            _ => x = -(&x * Fp(1)),
        }
        most = most.max(live().saturating_sub(start));
    }
    ck!(cx, most <= PER * w + FREE, "200 rounds of operation {} left {} bytes for {} dimensions and entries", which, most, w);
    cx.count("rounds", 200);
}

fn large(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 3 {
        0 => calls::<usize, Fp>(cx, r, false),
        1 => calls::<u32, f64>(cx, r, false),
        _ => calls::<i32, i64>(cx, r, false),
    }
}
fn little(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 3 {
        0 => calls::<usize, Fp>(cx, r, true),
        1 => calls::<u32, f64>(cx, r, true),
        _ => calls::<i32, i64>(cx, r, true),
    }
}
fn no(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 2 {
        0 => refused::<usize, Fp>(cx, r),
        _ => refused::<i16, f64>(cx, r),
    }
}

fn main() {
    run(&[
        Family { name: "large", quick: 400, thorough: 8_000, f: large },
        Family { name: "little", quick: 3_000, thorough: 100_000, f: little },
        Family { name: "refused", quick: 2_000, thorough: 40_000, f: no },
        Family { name: "hyper", quick: 3_000, thorough: 60_000, f: hyper },
        Family { name: "meeting", quick: 80, thorough: 1_500, f: meeting },
        Family { name: "lives", quick: 2_000, thorough: 40_000, f: lives },
    ])
}
