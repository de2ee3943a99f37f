//! C16: depth-first order.
use harness::*;
use sparsetools::graph::depth_first_order;

fn dfs<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, n: usize, e: &[(usize, usize)], starts: &[usize]) {
    let raw = graphs::matrix::<T>(r, n, e, I::MAX);
    cx.show(|| format!("from {:?}: {}", starts, brief::<I, T>(&raw)));
    let a = raw.csr::<I>(r, true);
    let before = snap_csr(&a);
    let mut sym = e.to_vec();
    sym.extend(e.iter().map(|x| (x.1, x.0)));
    for &s in starts {
        for (dir, edges) in [(true, e), (false, &sym[..])] {
            let name = if dir { "directed" } else { "undirected" };
            match depth_first_order(&a, s, dir) {
                Err(err) => cx.fail(format!("{} from {}: refused: {}", name, s, err)),
                Ok((order, pred)) => match graphs::traversal(n, edges, s, &order, &pred) {
                    Err(m) => cx.fail(format!("{} from {}: {}; order {:?}, predecessors {:?}", name, s, m, &order[..order.len().min(40)], &pred[..n.min(40)])),
                    Ok(k) => {
                        cx.count("traversals", 1);
                        cx.count("nodes_visited", k);
                        if k > 2 && k < n {
                            cx.count("partial_traversals", 1);
                        }
                    }
                },
            }
        }
        cx.seen(raw.hash() ^ (s as u64) << 13);
    }
    ck!(cx, before == snap_csr(&a), "the traversal changed the matrix");
}

fn any<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let (n, e) = graphs::random(r, I::MAX, I::MAX.min(200_000), big);
    if n == 0 {
        return;
    }
    let starts = [0, n - 1, r.below(n)];
    dfs::<I, T>(cx, r, n, &e, &starts[..if big { 1 } else { 3 }]);
}
/// Large graphs without nodes of high degree, which the routine rescans.
fn large<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, _: bool) {
    loop {
        let (n, e) = graphs::random(r, I::MAX, I::MAX.min(200_000), true);
        let mut d = vec![0usize; n];
        for &(a, b) in &e {
            d[a] += 1;
            d[b] += 1;
        }
        if d.iter().map(|x| x * x).sum::<usize>() < 20_000_000 {
            let s = [0, n - 1, r.below(n)];
            let k = r.below(3);
            return dfs::<I, T>(cx, r, n, &e, &s[k..k + 1]);
        }
    }
}
fn small(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (n, e) = graphs::numbered(i % graphs::UP_TO_4, 4);
    let starts: Vec<usize> = (0..n).collect();
    match i % 3 {
        0 => dfs::<usize, f64>(cx, r, n, &e, &starts),
        1 => dfs::<u8, Fp>(cx, r, n, &e, &starts),
        _ => dfs::<i32, usize>(cx, r, n, &e, &starts),
    }
    cx.count("numbered_graphs", 1);
}
fn five(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (n, e) = graphs::five(i);
    let s = [r.below(5)];
    dfs::<usize, u8>(cx, r, n, &e, &s);
    cx.count("numbered_graphs", 1);
}

cases!(any_case = any any);
cases!(index_case = index any);
cases!(big_case = big large);

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "up_to_4_nodes", quick: graphs::UP_TO_4, thorough: graphs::UP_TO_4 * 4, f: small },
        Family { name: "five_nodes", quick: 0, thorough: graphs::FIVE, f: five },
        Family { name: "graphs", quick: 40_000, thorough: 1_000_000, f: any_case },
        Family { name: "index", quick: 10_000, thorough: 300_000, f: index_case },
        Family { name: "big", quick: 200, thorough: 8_000, f: big_case },
    ]
}

pub fn main() {
    run(&families())
}
