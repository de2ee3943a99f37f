//! C07: element-wise kernels.
use harness::*;
use sparsetools::*;
use std::collections::BTreeMap;
use std::fmt::Debug;

/// Equal, or both not a number.
fn eqv<U: PartialEq>(a: &U, b: &U) -> bool {
    a == b || (a != a && b != b)
}

type K<I, T, U> = fn(usize, usize, &[I], &[I], &[T], &[I], &[I], &[T], &mut [I], &mut [I], &mut [U]);

struct In<'a, I, T> {
    x: &'a Raw<T>,
    y: &'a Raw<T>,
    /// Sum of the entries at every position held by either operand.
    union: BTreeMap<(usize, usize), (T, T)>,
    ap: Vec<I>,
    aj: Vec<I>,
    ax: Vec<T>,
    bp: Vec<I>,
    bj: Vec<I>,
    bx: Vec<T>,
}
impl<I: Ix, T: Val> In<'_, I, T> {
    /// The second operand, which is the first one itself where they are equal.
    fn b(&self) -> (&[I], &[I], &[T]) {
        if self.ap == self.bp && self.aj == self.bj && self.ax == self.bx {
            (&self.ap, &self.aj, &self.ax)
        } else {
            (&self.bp, &self.bj, &self.bx)
        }
    }
}

fn run_one<I: Ix, T: Val, U: Nonzero + Copy + Debug>(
    cx: &mut Cx,
    r: &mut Rng,
    what: &str,
    n: &In<I, T>,
    op: impl Fn(T, T) -> U,
    call: impl FnOnce(&mut [I], &mut [I], &mut [U]),
    sentinel: U,
) {
    let room = n.x.nnz() + n.y.nnz() + r.below(3);
    let (m, w) = (n.x.major, n.x.minor);
    let mut cp = vec![I::ix(if r.chance(1, 2) { 0 } else { 7 }); m + 1];
    let mut cj = vec![I::ix(0); room];
    let mut cv = vec![sentinel; room];
    call(&mut cp, &mut cj, &mut cv);
    let nnz = cp[m].us();
    ck!(cx, nnz <= room, "{}: {} results", what, nnz);
    ck!(cx, cp[0] == I::zero(), "{}: pointer starts at {}", what, cp[0]);
    ck!(cx, cv[nnz..].iter().all(|v| eqv(v, &sentinel)), "{}: wrote past its result", what);
    let mut want: BTreeMap<(usize, usize), U> = BTreeMap::new();
    for (&k, &(a, b)) in &n.union {
        let v = op(a, b);
        if !eqv(&v, &U::default()) {
            want.insert(k, v);
        }
    }
    let canonical = n.x.canonical() && n.y.canonical();
    for i in 0..m {
        ck!(cx, cp[i] <= cp[i + 1], "{}: pointer decreases at line {}", what, i);
        let mut prev: Option<usize> = None;
        for k in cp[i].us()..cp[i + 1].us() {
            let j = cj[k].us();
            ck!(cx, j < w, "{}: index {} outside 0..{}", what, j, w);
            match want.remove(&(i, j)) {
                Some(v) => ck!(cx, eqv(&v, &cv[k]), "{}: at ({}, {}) {:?} instead of {:?}", what, i, j, cv[k], v),
                None => cx.fail(format!("{}: unexpected entry at ({}, {}): {:?}", what, i, j, cv[k])),
            }
            if canonical {
                ck!(cx, prev.map_or(true, |p| p < j), "{}: line {} not sorted for canonical operands", what, i);
            }
            prev = Some(j);
        }
    }
    if let Some((k, v)) = want.iter().next() {
        cx.fail(format!("{}: nothing stored at {:?} instead of {:?}", what, k, v));
    }
    cx.count("kernel_calls", 1);
    cx.count("results_checked", nnz);
    cx.count("union_positions", n.union.len());
}

fn input<'a, I: Ix, T: Val>(x: &'a Raw<T>, y: &'a Raw<T>) -> In<'a, I, T> {
    let mut union: BTreeMap<(usize, usize), (T, T)> = BTreeMap::new();
    let z = (T::zero(), T::zero());
    for i in 0..x.major {
        for k in x.ptr[i]..x.ptr[i + 1] {
            union.entry((i, x.idx[k])).or_insert(z).0 += x.val[k];
        }
        for k in y.ptr[i]..y.ptr[i + 1] {
            union.entry((i, y.idx[k])).or_insert(z).1 += y.val[k];
        }
    }
    In { x, y, union, ap: x.iptr(), aj: x.iidx(), ax: x.val.clone(), bp: y.iptr(), bj: y.iidx(), bx: y.val.clone() }
}

fn gen_pair<I: Ix, T: Val>(r: &mut Rng, big: bool) -> (Raw<T>, Raw<T>) {
    let mut o = Opt::of::<I, T>().nnz((I::MAX / 2).min(T::TERMS / 4)).nnz(T::PRODS / 9);
    if T::PRODS < 1000 {
        o = o.nnz(4);
    }
    let o = match r.below(4) {
        0 => o.canonical(),
        1 => o.sorted(),
        _ => o,
    };
    let x = Raw::<T>::any(r, &o, big);
    let (m, n) = (x.major, x.minor);
    let y = match r.below(7) {
        3 => x.clone(),
        0 => {
            let mut y = x.clone();
            for v in y.val.iter_mut() {
                match r.below(3) {
                    0 => *v = T::gen(r),
                    1 => *v = v.opp().unwrap_or(*v),
                    _ => {}
                }
            }
            y
        }
        1 => Raw::<T>::random(r, m, n, &o.canonical()),
        2 => Raw { major: m, minor: n, ptr: vec![0; m + 1], idx: vec![], val: vec![] },
        _ => Raw::<T>::random(r, m, n, &o),
    };
    if r.chance(1, 2) {
        (x, y)
    } else {
        (y, x)
    }
}

fn arith<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool, signed: bool, div: bool) {
    let (x, y) = gen_pair::<I, T>(r, big);
    arith_of::<I, T>(cx, r, x, y, signed, true, div)
}
/// Values from the whole width of every scalar type, each position stored once.
fn arith_ends<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let (x, y) = Raw::<T>::extreme_pair(r, &Opt::of::<I, T>().nnz((I::MAX / 2).min(T::TERMS / 4)), false);
    let signed = T::one().opp().is_some();
    arith_of::<I, T>(cx, r, x, y, signed, T::FLOATS, false)
}
fn order_ends<I: Ix, T: Val + PartialOrd>(cx: &mut Cx, r: &mut Rng) {
    let (x, y) = Raw::<T>::extreme_pair(r, &Opt::of::<I, T>().nnz((I::MAX / 2).min(T::TERMS / 4)), false);
    order_of::<I, T>(cx, r, x, y)
}
fn arith_of<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, x: Raw<T>, y: Raw<T>, signed: bool, mul: bool, div: bool) {
    cx.show(|| format!("{} with {}", brief::<I, T>(&x), brief::<I, T>(&y)));
    let n = input::<I, T>(&x, &y);
    let s = T::gen(r);
    let (m, w) = (x.major, x.minor);
    let go = |cx: &mut Cx, r: &mut Rng, what: &str, k: K<I, T, T>, op: fn(T, T) -> T| {
        run_one(cx, r, what, &n, op, |p, j, v| k(m, w, &n.ap, &n.aj, &n.ax, n.b().0, n.b().1, n.b().2, p, j, v), s)
    };
    go(cx, r, "csr_add_csr", csr_add_csr, |a, b| a + b);
    if mul {
        go(cx, r, "csr_mul_csr", csr_mul_csr, |a, b| a * b);
    }
    if signed {
        go(cx, r, "csr_sub_csr", csr_sub_csr, |a, b| a - b);
    }
    if div {
        go(cx, r, "csr_div_csr", csr_div_csr, |a, b| a / b);
    }
    let gob = |cx: &mut Cx, r: &mut Rng, what: &str, k: K<I, T, bool>, op: fn(T, T) -> bool| {
        run_one(cx, r, what, &n, op, |p, j, v| k(m, w, &n.ap, &n.aj, &n.ax, n.b().0, n.b().1, n.b().2, p, j, v), true)
    };
    gob(cx, r, "csr_eq_csr", csr_eq_csr, |a, b| a == b);
    gob(cx, r, "csr_ne_csr", csr_ne_csr, |a, b| a != b);
    // Caller-supplied operations, among them one that is not zero for two absent entries.
    let both = x.canonical() && y.canonical();
    let ops: [(&str, fn(T, T) -> T); 4] = [
        ("first", |a, _| a),
        ("second", |_, b| b),
        ("a + b + 1", |a, b| a + b + T::one()),
        ("one where equal", |a, b| if a == b { T::one() } else { T::zero() }),
    ];
    for (name, op) in ops {
        run_one(cx, r, &format!("csr_binop_csr ({})", name), &n, op, |p, j, v| csr_binop_csr(m, w, &n.ap, &n.aj, &n.ax, n.b().0, n.b().1, n.b().2, p, j, v, op), s);
        run_one(cx, r, &format!("csr_binop_csr_general ({})", name), &n, op, |p, j, v| csr_binop_csr_general_any(m, w, &n, p, j, v, op), s);
        if both {
            run_one(cx, r, &format!("csr_binop_csr_canonical ({})", name), &n, op, |p, j, v| csr_binop_csr_canonical(m, w, &n.ap, &n.aj, &n.ax, n.b().0, n.b().1, n.b().2, p, j, v, op), s);
        }
    }
    cx.count(if both { "canonical_pairs" } else { "general_pairs" }, 1);
    ck!(cx, n.ax == x.val && n.bx == y.val, "an operand changed");
    if !n.union.is_empty() {
        cx.seen(x.hash() ^ y.hash().rotate_left(21));
    }
}

/// The general kernel promises no order, so its result is put in order before the common check.
fn csr_binop_csr_general_any<I: Ix, T: Val>(m: usize, w: usize, n: &In<I, T>, p: &mut [I], j: &mut [I], v: &mut [T], op: fn(T, T) -> T) {
    csr_binop_csr_general(m, w, &n.ap, &n.aj, &n.ax, n.b().0, n.b().1, n.b().2, p, j, v, op);
    for i in 0..m {
        let (s, e) = (p[i].us(), p[i + 1].us());
        let mut l: Vec<(usize, T)> = (s..e).map(|k| (j[k].us(), v[k])).collect();
        l.sort_by_key(|e| e.0);
        for (k, (c, x)) in l.into_iter().enumerate() {
            j[s + k] = I::ix(c);
            v[s + k] = x;
        }
    }
}

fn order<I: Ix, T: Val + PartialOrd>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let (x, y) = gen_pair::<I, T>(r, big);
    order_of::<I, T>(cx, r, x, y)
}
fn order_of<I: Ix, T: Val + PartialOrd>(cx: &mut Cx, r: &mut Rng, x: Raw<T>, y: Raw<T>) {
    cx.show(|| format!("{} with {}", brief::<I, T>(&x), brief::<I, T>(&y)));
    let n = input::<I, T>(&x, &y);
    let s = T::gen(r);
    let (m, w) = (x.major, x.minor);
    let go = |cx: &mut Cx, r: &mut Rng, what: &str, k: K<I, T, T>, op: fn(T, T) -> T| {
        run_one(cx, r, what, &n, op, |p, j, v| k(m, w, &n.ap, &n.aj, &n.ax, n.b().0, n.b().1, n.b().2, p, j, v), s)
    };
    go(cx, r, "csr_max_csr", csr_max_csr, |a, b| if a < b { b } else { a });
    go(cx, r, "csr_min_csr", csr_min_csr, |a, b| if b < a { b } else { a });
    let gob = |cx: &mut Cx, r: &mut Rng, what: &str, k: K<I, T, bool>, op: fn(T, T) -> bool| {
        run_one(cx, r, what, &n, op, |p, j, v| k(m, w, &n.ap, &n.aj, &n.ax, n.b().0, n.b().1, n.b().2, p, j, v), true)
    };
    gob(cx, r, "csr_lt_csr", csr_lt_csr, |a, b| a < b);
    gob(cx, r, "csr_le_csr", csr_le_csr, |a, b| a <= b);
    gob(cx, r, "csr_gt_csr", csr_gt_csr, |a, b| a > b);
    gob(cx, r, "csr_ge_csr", csr_ge_csr, |a, b| a >= b);
    if !n.union.is_empty() {
        cx.seen(x.hash() ^ y.hash().rotate_left(23));
    }
}

fn arith_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 9 {
        0 | 1 => arith::<usize, Fp>(cx, r, false, true, true),
        2 => arith::<u8, Fp>(cx, r, false, true, true),
        3 => arith::<i32, Fp>(cx, r, false, true, true),
        4 => arith::<usize, f64>(cx, r, false, true, true),
        5 => arith::<u16, i64>(cx, r, false, true, false),
        6 => arith::<i64, Complex64>(cx, r, false, true, false),
        7 => arith::<usize, u32>(cx, r, false, false, false),
        _ => arith::<i8, f32>(cx, r, false, true, true),
    }
}
fn order_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 7 {
        0 | 1 => order::<usize, f64>(cx, r, false),
        2 => order::<u8, i64>(cx, r, false),
        3 => order::<i32, i32>(cx, r, false),
        4 => order::<usize, u16>(cx, r, false),
        5 => order::<i8, f32>(cx, r, false),
        _ => order::<u64, i128>(cx, r, false),
    }
}
fn ends_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    if i % 2 == 0 {
        dispatch_scalars!(i as usize / 2, arith_ends(cx, r))
    } else {
        dispatch_ordered_scalars!(i as usize / 2, order_ends(cx, r))
    }
}
fn big_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    match i % 3 {
        0 => arith::<usize, Fp>(cx, r, true, true, true),
        1 => order::<usize, f64>(cx, r, true),
        _ => arith::<u32, f64>(cx, r, true, true, true),
    }
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "arithmetic", quick: 25_000, thorough: 800_000, f: arith_case },
        Family { name: "order", quick: 25_000, thorough: 800_000, f: order_case },
        Family { name: "ends", quick: 12_000, thorough: 400_000, f: ends_case },
        Family { name: "big", quick: 700, thorough: 20_000, f: big_case },
    ]
}

pub fn main() {
    run_scaled(&families())
}
