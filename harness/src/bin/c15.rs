//! C15: strong components.
use harness::*;
use sparsetools::graph::{connected_components, Connection};

fn strong<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, n: usize, e: &[(usize, usize)]) {
    let raw = graphs::matrix::<T>(r, n, e, I::MAX);
    cx.show(|| brief::<I, T>(&raw));
    let a = raw.csr::<I>(r, true);
    let before = snap_csr(&a);
    let class = graphs::strong(n, e);
    match connected_components(&a, true, Connection::Strong) {
        Err(err) => cx.fail(format!("refused: {}", err)),
        Ok((k, l)) => {
            if let Err(m) = graphs::partition(&class, k, &l) {
                cx.fail(m);
            }
            cx.count("analyses", 1);
            cx.count("classes_found", k);
            if k < n {
                cx.count("graphs_with_cycles", 1);
            }
        }
    }
    ck!(cx, before == snap_csr(&a), "component analysis changed the matrix");
    if e.len() > 0 {
        cx.seen(raw.hash());
    }
}

fn any<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let (n, e) = graphs::random(r, I::MAX, I::MAX.min(200_000), big);
    // The same edges in several storage orders.
    for _ in 0..if big { 1 } else { 3 } {
        strong::<I, T>(cx, r, n, &e);
    }
}
fn small(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (n, e) = graphs::numbered(i % graphs::UP_TO_4, 4);
    for _ in 0..3 {
        match i % 3 {
            0 => strong::<usize, f64>(cx, r, n, &e),
            1 => strong::<u8, Fp>(cx, r, n, &e),
            _ => strong::<i32, usize>(cx, r, n, &e),
        }
    }
    cx.count("numbered_graphs", 1);
}
fn five(cx: &mut Cx, r: &mut Rng, i: u64) {
    let (n, e) = graphs::five(i);
    strong::<usize, u8>(cx, r, n, &e);
    cx.count("numbered_graphs", 1);
}

cases!(any_case = any any);
cases!(index_case = index any);
cases!(big_case = big any);

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "up_to_4_nodes", quick: graphs::UP_TO_4, thorough: graphs::UP_TO_4 * 4, f: small },
        Family { name: "five_nodes", quick: 0, thorough: graphs::FIVE, f: five },
        Family { name: "graphs", quick: 60_000, thorough: 1_500_000, f: any_case },
        Family { name: "index", quick: 10_000, thorough: 300_000, f: index_case },
        Family { name: "big", quick: 300, thorough: 15_000, f: big_case },
    ]
}

pub fn main() {
    run(&families())
}
