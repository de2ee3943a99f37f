//! C13: a dictionary matrix behaves as a map with default zero.
use harness::*;
use std::collections::HashMap;

struct Both<I, T> {
    d: DoK<I, T>,
    m: HashMap<(usize, usize), T>,
    rows: usize,
    cols: usize,
}

impl<I: Ix, T: Val> Both<I, T> {
    fn want(&self, i: usize, j: usize) -> T {
        self.m.get(&(i, j)).copied().unwrap_or_else(T::zero)
    }
    fn put(&mut self, i: usize, j: usize, v: T) {
        if v == T::zero() {
            self.m.remove(&(i, j));
        } else {
            self.m.insert((i, j), v);
        }
    }
    fn model(&self) -> Model<T> {
        let mut m = Model::new(self.rows, self.cols);
        for (&(i, j), &v) in &self.m {
            m.map.insert((i, j), v);
        }
        m
    }
    fn check(&self, cx: &mut Cx, full: bool) {
        ck!(cx, (self.d.rows(), self.d.cols()) == (self.rows, self.cols), "the shape changed to {}x{}", self.d.rows(), self.d.cols());
        ck!(cx, self.d.nnz() == self.m.len(), "stored count {} instead of {}", self.d.nnz(), self.m.len());
        ck!(cx, self.d.len() == self.m.len(), "the map view has {} entries instead of {}", self.d.len(), self.m.len());
        for (&(i, j), v) in self.d.iter() {
            let w = self.want(i.us(), j.us());
            ck!(cx, *v == w && w != T::zero(), "the map view holds {:?} at ({}, {}) instead of {:?}", v, i, j, w);
        }
        cx.count("states_checked", 1);
        if !full {
            return;
        }
        let w = self.model();
        if self.rows.max(self.cols) < FAR - 100 && self.rows * self.cols <= 2500 {
            for i in 0..self.rows {
                for j in 0..self.cols {
                    let g = self.d.get(I::ix(i), I::ix(j));
                    ck!(cx, g == self.want(i, j), "get({}, {}) is {:?} instead of {:?}", i, j, g, self.want(i, j));
                }
            }
            cx.count("positions_read", self.rows * self.cols);
            let de = self.d.to_dense();
            ck!(cx, de.len() == self.rows && de.iter().all(|r| r.len() == self.cols), "to_dense has the wrong shape");
            for i in 0..self.rows {
                for j in 0..self.cols {
                    ck!(cx, de[i][j] == self.want(i, j), "to_dense at ({}, {}) is {:?} instead of {:?}", i, j, de[i][j], self.want(i, j));
                }
            }
        }
        let list: List = {
            let mut l: List = self.m.iter().map(|(&(i, j), v)| (i, j, v.bits())).collect();
            l.sort_unstable();
            l
        };
        cx.same_list("DoK::to_coo", &list, list_coo("DoK::to_coo", &self.d.to_coo()));
        if self.rows < FAR - 100 {
            let a = self.d.to_csr();
            cx.same_list("DoK::to_csr", &list, list_csr("DoK::to_csr", &a, Len::Exact));
            let g = cx.get(read_csr("DoK::to_csr", &a, Len::Exact));
            cx.same("DoK::to_csr", &w, &g);
        }
        if self.cols < FAR - 100 {
            let p = self.d.to_csc();
            cx.same_list("DoK::to_csc", &list, list_csc("DoK::to_csc", &p, Len::Exact));
        }
        let mut lines: Vec<String> = self.m.iter().map(|(&(i, j), v)| format!("({}, {}) {}", i, j, v)).collect();
        let s = self.d.to_string();
        let mut got: Vec<String> = s.lines().map(|l| l.to_string()).collect();
        lines.sort();
        got.sort();
        ck!(cx, lines == got, "to_string has {:?} instead of {:?}", got, lines);
        cx.count("exports_checked", 5);
    }
}

fn history<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng, big: bool) {
    let signed = T::gen(r).opp().is_some();
    let top = I::MAX.min(if big { 300 } else { 60 });
    let (m, n) = match r.below(6) {
        0 => (r.below(3), r.below(3)),
        1 => (top, r.range(1, 9)),
        2 => (r.range(1, 9), top),
        _ => (r.range(1, 12.min(top)), r.range(1, 12.min(top))),
    };
    // Keep the number of entries within the index type.
    let n = if m > 0 { n.min(I::MAX / m) } else { n };
    let mut b: Both<I, T> = Both { d: DoK::new(m, n), m: HashMap::new(), rows: m, cols: n };
    match r.below(4) {
        0 => b.d = DoK::with_capacity(m, n, r.below(50)),
        1 if m > 0 => {
            let d: Vec<Vec<T>> = (0..m).map(|_| (0..n).map(|_| if r.chance(1, 2) { T::zero() } else { T::gen(r) }).collect()).collect();
            let refs: Vec<&[T]> = d.iter().map(|x| x.as_slice()).collect();
            b.d = DoK::from_dense(&refs);
            for i in 0..m {
                for j in 0..n {
                    b.put(i, j, d[i][j]);
                }
            }
        }
        _ => {}
    }
    b.check(cx, true);
    let steps = match r.below(6) {
        0 => r.below(4),
        1 => r.range(100, if big { 4000 } else { 400 }),
        _ => r.range(5, 60),
    };
    // A small set of hot positions makes collisions frequent.
    let hot: Vec<(usize, usize)> = (0..r.range(1, 6)).map(|_| (r.below(m.max(1)), r.below(n.max(1)))).collect();
    let mut h = 0u64;
    for s in 0..steps {
        let (i, j) = if r.chance(1, 2) { *r.pick(&hot) } else { (r.below(m.max(1)), r.below(n.max(1))) };
        let old = b.want(i, j);
        // Bounded so that narrow scalars stay in range.
        let op = r.below(8);
        let fits = i < m && j < n;
        let v = match r.below(6) {
            0 => T::zero(),
            1 => old,
            _ => T::gen(r),
        };
        h = h.rotate_left(5) ^ (op as u64) ^ (i as u64) << 8 ^ (j as u64) << 24;
        if !fits || r.chance(1, 12) {
            // A position outside.
            let (oi, oj) = match r.below(5) {
                0 if m < I::MAX => (I::ix(m), I::ix(j.min(I::MAX))),
                1 if n < I::MAX => (I::ix(i.min(I::MAX)), I::ix(n)),
                2 if m < I::MAX => (I::max_value(), I::zero()),
                3 if I::min_value() < I::zero() => (I::zero() - I::one(), I::zero()),
                4 if I::min_value() < I::zero() => (I::zero(), I::min_value()),
                _ => continue,
            };
            let what = match op {
                0..=3 => b.d.set(oi, oj, v).is_ok(),
                4 | 5 => b.d.add(oi, oj, v).is_ok(),
                _ if signed => b.d.sub(oi, oj, v).is_ok(),
                _ => continue,
            };
            ck!(cx, !what, "a request at ({}, {}) of {}x{} was accepted", oi, oj, m, n);
            cx.count("requests_rejected", 1);
            ck!(cx, b.d.get(oi, oj) == T::zero(), "a rejected position reads {:?}", b.d.get(oi, oj));
        } else {
            let small = T::TERMS < 1000 && old != T::zero();
            let (ii, jj) = (I::ix(i), I::ix(j));
            let (res, new, what) = match op {
                4 | 5 if !small => (b.d.add(ii, jj, v), old + v, "add"),
                6 if signed && !small => (b.d.sub(ii, jj, v), old - v, "sub"),
                // Arriving at zero.
                7 => match old.opp() {
                    Some(o) if r.chance(1, 2) => (b.d.add(ii, jj, o), old + o, "add"),
                    _ => (b.d.sub(ii, jj, old), old - old, "sub"),
                },
                _ => (b.d.set(ii, jj, v), v, "set"),
            };
            if let Err(e) = res {
                cx.fail(format!("{} ({}, {}) {:?} of {}x{} refused: {}", what, i, j, v, m, n, e));
            }
            b.put(i, j, new);
            let g = b.d.get(ii, jj);
            ck!(cx, g == b.want(i, j), "step {}: after {} {:?} at ({}, {}), which held {:?}, it reads {:?}", s, what, v, i, j, old, g);
            ck!(cx, b.d.nnz() == b.m.len(), "step {}: after {} {:?} at ({}, {}), which held {:?}, the count is {} instead of {}", s, what, v, i, j, old, b.d.nnz(), b.m.len());
            cx.count("requests_accepted", 1);
        }
        if r.chance(1, 40) {
            b.check(cx, true);
        } else if r.chance(1, 4) {
            b.check(cx, false);
        }
    }
    b.check(cx, true);
    cx.show(|| format!("{}x{}, {} requests, {} entries left", m, n, steps, b.m.len()));
    cx.seen(h ^ (m as u64) << 32 ^ n as u64);
    // A matrix emptied entry by entry.
    if r.chance(1, 8) {
        let keys: Vec<_> = b.m.keys().copied().collect();
        for (i, j) in keys {
            b.d.set(I::ix(i), I::ix(j), T::zero()).ok();
            b.put(i, j, T::zero());
        }
        b.check(cx, true);
    }
}

/// Values from the whole width of every scalar type: set, taken away, and added where nothing is.
fn ends<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let (m, n) = dims(r, I::MAX.min(60), false);
    let mut b = Both { d: DoK::<I, T>::new(m, n), m: HashMap::new(), rows: m, cols: n };
    let steps = if m * n == 0 { 0 } else { r.range(1, 60) };
    let few = r.range(1, 6);
    for s in 0..steps {
        let (i, j) = (r.below(m.min(few)), r.below(n.min(few)));
        let (ii, jj) = (I::ix(i), I::ix(j));
        let old = b.want(i, j);
        let v = T::extreme(r);
        let (res, new, what) = match r.below(6) {
            0 => (b.d.set(ii, jj, T::zero()), T::zero(), "set zero"),
            1 if old == T::zero() => (b.d.add(ii, jj, v), old + v, "add"),
            2 => (b.d.sub(ii, jj, old), old - old, "sub"),
            3 => match old.opp() {
                Some(o) => (b.d.add(ii, jj, o), old + o, "add"),
                None => (b.d.set(ii, jj, v), v, "set"),
            },
            4 if T::FLOATS => (b.d.sub(ii, jj, v), old - v, "sub"),
            _ => (b.d.set(ii, jj, v), v, "set"),
        };
        if let Err(e) = res {
            cx.fail(format!("{} at ({}, {}) of {}x{} refused: {}", what, i, j, m, n, e));
        }
        // A float may have overflowed: no further arithmetic on it.
        if new - new != T::zero() {
            b.d.set(ii, jj, v).ok();
            b.put(i, j, v);
        } else {
            b.put(i, j, new);
        }
        let g = b.d.get(ii, jj);
        ck!(cx, g == b.want(i, j), "step {}: after {} {:?} at ({}, {}), which held {:?}, it reads {:?}", s, what, v, i, j, old, g);
        ck!(cx, b.d.nnz() == b.m.len(), "step {}: after {} {:?} at ({}, {}), which held {:?}, the count is {} instead of {}", s, what, v, i, j, old, b.d.nnz(), b.m.len());
        cx.count("requests_accepted", 1);
        cx.seen(rng::mix(s as u64 ^ (b.m.len() as u64) << 8 ^ (i as u64) << 16 ^ (j as u64) << 32 ^ v.bits() as u64));
    }
    b.check(cx, true);
}
/// Keys from a range of which nothing can be allocated.
fn far<I: Ix, T: Val>(cx: &mut Cx, r: &mut Rng) {
    let (m, n) = match r.below(4) {
        0 => (r.range(1, 20), far_dim(r, I::MAX)),
        1 => (far_dim(r, I::MAX), r.range(1, 20)),
        _ => (far_dim(r, I::MAX), far_dim(r, I::MAX)),
    };
    let mut b = Both { d: DoK::<I, T>::new(m, n), m: HashMap::new(), rows: m, cols: n };
    let (is, js) = (spread(r, 8, m), spread(r, 8, n));
    let steps = r.range(1, 80);
    let mut h = m as u64 ^ (n as u64).rotate_left(32);
    for s in 0..steps {
        let (i, j) = (*r.pick(&is), *r.pick(&js));
        let (ii, jj) = (I::ix(i), I::ix(j));
        let old = b.want(i, j);
        let v = T::gen(r);
        let (res, new, what) = match r.below(6) {
            0 => (b.d.set(ii, jj, T::zero()), T::zero(), "set zero"),
            1 => (b.d.add(ii, jj, v), old + v, "add"),
            2 => (b.d.sub(ii, jj, old), old - old, "sub"),
            _ => (b.d.set(ii, jj, v), v, "set"),
        };
        if let Err(e) = res {
            cx.fail(format!("{} at ({}, {}) of {}x{} refused: {}", what, i, j, m, n, e));
        }
        b.put(i, j, new);
        h = rng::mix(h ^ i as u64 ^ (j as u64).rotate_left(32));
        for &(i, j) in &[(i, j), (*r.pick(&is), *r.pick(&js))] {
            let g = b.d.get(I::ix(i), I::ix(j));
            ck!(cx, g == b.want(i, j), "step {}: after {} {:?} at ({}, {}), ({}, {}) of {}x{} reads {:?} instead of {:?}", s, what, v, ii, jj, i, j, m, n, g, b.want(i, j));
        }
        ck!(cx, b.d.nnz() == b.m.len(), "step {}: after {} {:?} at ({}, {}), which held {:?}, the count is {} instead of {}", s, what, v, i, j, old, b.d.nnz(), b.m.len());
        cx.count("requests_accepted", 1);
        if r.chance(1, 8) {
            let (oi, oj) = match r.below(2) {
                0 if m < I::MAX => (I::ix(m.saturating_add(r.below(3)).min(I::MAX)), jj),
                1 if n < I::MAX => (ii, I::ix(n.saturating_add(r.below(3)).min(I::MAX))),
                _ => continue,
            };
            let ok = match r.below(3) {
                0 => b.d.set(oi, oj, v).is_ok(),
                1 => b.d.add(oi, oj, v).is_ok(),
                _ => b.d.sub(oi, oj, old).is_ok(),
            };
            ck!(cx, !ok, "a request at ({}, {}) of {}x{} was accepted", oi, oj, m, n);
            cx.count("requests_rejected", 1);
        }
    }
    cx.show(|| format!("{}x{}, {} requests, {} entries left", m, n, steps, b.m.len()));
    cx.seen(h);
    b.check(cx, true);
}
cases!(far_case = far far);

fn ends_case(cx: &mut Cx, r: &mut Rng, i: u64) {
    dispatch_scalars!(i as usize, ends(cx, r))
}

cases!(any_case = any history);
cases!(index_case = index history);
cases!(big_case = big history);

fn main() {
    run_far(&[
        Family { name: "history", quick: 40_000, thorough: 1_200_000, f: any_case },
        Family { name: "index", quick: 12_000, thorough: 400_000, f: index_case },
        Family { name: "ends", quick: 8_000, thorough: 300_000, f: ends_case },
        Family { name: "far", quick: 16_000, thorough: 500_000, f: far_case },
        Family { name: "big", quick: 400, thorough: 20_000, f: big_case },
    ])
}
