//! C14: weak components.
use harness::*;
use num_traits::{NumCast, Signed};
use sparsetools::graph::{connected_components, cs_graph_components, Connection};

fn weak<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, n: usize, e: &[(usize, usize)]) {
    let raw = graphs::matrix::<T>(r, n, e, I::MAX);
    cx.show(|| brief::<I, T>(&raw));
    let a = raw.csr::<I>(r, true);
    let before = snap_csr(&a);
    let class = graphs::undirected(n, e);
    for (dir, con, name) in [
        (true, Connection::Weak, "weak, directed"),
        (false, Connection::Weak, "weak, undirected"),
        (false, Connection::Strong, "strong, undirected"),
    ] {
        match connected_components(&a, dir, con) {
            Err(err) => cx.fail(format!("{}: refused: {}", name, err)),
            Ok((k, l)) => {
                if let Err(m) = graphs::partition(&class, k, &l) {
                    cx.fail(format!("{}: {}", name, m));
                }
                cx.count("analyses", 1);
                cx.count("components_found", k);
            }
        }
    }
    ck!(cx, before == snap_csr(&a), "component analysis changed the matrix");
    if e.len() > 0 {
        cx.seen(raw.hash());
    }
}

fn flags<I: Ix, T: Val, F: sparsetools::Integer + Signed>(cx: &mut Cx, a: &CSR<I, T>, n: usize, e: &[(usize, usize)]) {
    let class = graphs::undirected(n, e);
    let mut deg = vec![0; n];
    for &(i, _) in e {
        deg[i] += 1;
    }
    let mut roots: Vec<usize> = (0..n).filter(|&v| deg[v] > 0).map(|v| class[v]).collect();
    roots.sort_unstable();
    roots.dedup();
    let fmax = F::max_value().to_usize().unwrap_or(usize::MAX);
    if roots.len() > fmax {
        return;
    }
    let check = |cx: &mut Cx, what: &str, k: I, f: &[F]| {
        ck!(cx, f.len() == n, "{}: {} flags for {} nodes", what, f.len(), n);
        let mut v: Vec<usize> = vec![];
        let mut c: Vec<usize> = vec![];
        for x in 0..n {
            if deg[x] == 0 {
                ck!(cx, f[x] < F::zero(), "{}: node {} without entries has flag {}", what, x, f[x]);
            } else {
                ck!(cx, f[x] >= F::zero(), "{}: node {} with entries has flag {}", what, x, f[x]);
                v.push(<usize as NumCast>::from(f[x]).unwrap());
                c.push(roots.binary_search(&class[x]).unwrap());
            }
        }
        ck!(cx, k.us() == roots.len(), "{}: count {} instead of {}", what, k, roots.len());
        // Same partition, whatever the labels are.
        let mut fwd = std::collections::HashMap::new();
        let mut bwd = std::collections::HashMap::new();
        for (l, c) in v.iter().zip(&c) {
            ck!(cx, *fwd.entry(*l).or_insert(*c) == *c && *bwd.entry(*c).or_insert(*l) == *l, "{}: the labels do not follow the components", what);
        }
        cx.count("flag_analyses", 1);
    };
    match a.connected_components::<F>() {
        Err(err) => cx.fail(format!("CSR::connected_components refused: {}", err)),
        Ok((k, f)) => check(cx, "CSR::connected_components", k, &f),
    }
    let mut f = vec![F::one(); n];
    match cs_graph_components::<I, T, F>(n, a.rowptr(), a.colidx(), &mut f) {
        Err(err) => cx.fail(format!("cs_graph_components refused: {}", err)),
        Ok(k) => check(cx, "cs_graph_components", k, &f),
    }
}

fn sym<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, n: usize, e: &[(usize, usize)]) {
    let mut e = e.to_vec();
    graphs::symmetric(&mut e, I::MAX);
    let raw = graphs::matrix::<T>(r, n, &e, I::MAX);
    cx.show(|| brief::<I, T>(&raw));
    let a = raw.csr::<I>(r, true);
    match r.below(6) {
        0 => flags::<I, T, i8>(cx, &a, n, &e),
        1 => flags::<I, T, i16>(cx, &a, n, &e),
        2 => flags::<I, T, i64>(cx, &a, n, &e),
        3 => flags::<I, T, isize>(cx, &a, n, &e),
        4 => flags::<I, T, i128>(cx, &a, n, &e),
        _ => flags::<I, T, i32>(cx, &a, n, &e),
    }
    if e.len() > 0 {
        cx.seen(raw.hash() ^ 0x55);
    }
}

fn both<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, n: usize, e: &[(usize, usize)]) {
    weak::<I, T>(cx, r, n, e);
    sym::<I, T>(cx, r, n, e);
}

fn any<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let (n, e) = graphs::random(r, I::MAX, I::MAX.min(200_000), big);
    both::<I, T>(cx, r, n, &e);
}
/// The flag routine scans for seeds: keep its large graphs few-component.
fn large<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, _: bool) {
    let (n, e) = graphs::random(r, I::MAX, I::MAX.min(200_000), true);
    weak::<I, T>(cx, r, n, &e);
    if n <= 5000 {
        sym::<I, T>(cx, r, n, &e);
    }
}

fn small(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (n, e) = graphs::numbered(i % graphs::UP_TO_4, 4);
    match i % 3 {
        0 => both::<usize, f64>(cx, r, n, &e),
        1 => both::<u8, Fp>(cx, r, n, &e),
        _ => both::<i32, usize>(cx, r, n, &e),
    }
    cx.count("numbered_graphs", 1);
}
fn five(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (n, e) = graphs::five(i);
    both::<usize, u8>(cx, r, n, &e);
    cx.count("numbered_graphs", 1);
}

cases!(any_case = any any);
cases!(index_case = index any);
cases!(big_case = big large);

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "up_to_4_nodes", quick: graphs::UP_TO_4, thorough: graphs::UP_TO_4 * 4, f: small },
        Family { name: "five_nodes", quick: 0, thorough: graphs::FIVE, f: five },
        Family { name: "graphs", quick: 40_000, thorough: 1_000_000, f: any_case },
        Family { name: "index", quick: 10_000, thorough: 300_000, f: index_case },
        Family { name: "big", quick: 200, thorough: 12_000, f: big_case },
    ]
}

pub fn main() {
    run(&families())
}
