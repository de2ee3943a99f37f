//! Structure-aware generators of valid matrices.
use crate::model::Model;
use crate::rng::Rng;
use crate::val::{Ix, Val};
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;

/// A matrix in compressed form along its major axis (rows of a CSR, columns of a CSC matrix),
/// with entries in the order in which they are stored.
#[derive(Clone, Debug)]
pub struct Raw<T> {
    pub major: usize,
    pub minor: usize,
    pub ptr: Vec<usize>,
    pub idx: Vec<usize>,
    pub val: Vec<T>,
}

/// What a generated matrix may contain.
#[derive(Clone, Copy)]
pub struct Opt {
    pub maxdim: usize,
    pub maxnnz: usize,
    pub dups: bool,
    pub unsorted: bool,
    pub zeros: bool,
}

impl Opt {
    pub fn of<I: Ix, T: Val>() -> Self {
        Opt { maxdim: I::MAX, maxnnz: I::MAX.min(T::TERMS).min(400_000), dups: true, unsorted: true, zeros: true }
    }
    pub fn canonical(self) -> Self {
        Opt { dups: false, unsorted: false, ..self }
    }
    pub fn sorted(self) -> Self {
        Opt { unsorted: false, ..self }
    }
    pub fn nozeros(self) -> Self {
        Opt { zeros: false, ..self }
    }
    pub fn nnz(self, n: usize) -> Self {
        Opt { maxnnz: self.maxnnz.min(n), ..self }
    }
    pub fn dim(self, n: usize) -> Self {
        Opt { maxdim: self.maxdim.min(n), ..self }
    }
}

const EDGE: [usize; 34] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 20, 21, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256,
    257, 511, 513,
];

/// One dimension pair. `big` allows the rare large sizes.
pub fn dims(r: &mut Rng, maxdim: usize, big: bool) -> (usize, usize) {
    let (a, b) = match r.below(if big { 47 } else { 36 }) {
        0..=4 => (r.below(4), r.below(4)),
        5..=15 => (r.range(1, 8), r.range(1, 8)),
        16..=23 => (r.range(1, 24), r.range(1, 24)),
        24..=27 => (r.range(1, 70), r.range(1, 70)),
        28 => (1, r.range(1, 300)),
        29 => (r.range(1, 300), 1),
        30 => (r.range(1, 4), r.range(20, 300)),
        31 => (r.range(20, 300), r.range(1, 4)),
        32 => {
            let n = *r.pick(&EDGE);
            (n, n)
        }
        33 | 34 => (*r.pick(&EDGE), *r.pick(&EDGE)),
        35 => {
            if r.chance(1, 2) {
                (0, r.range(0, 40))
            } else {
                (r.range(0, 40), 0)
            }
        }
        36..=38 => (r.range(500, 2500), r.range(500, 2500)),
        39..=42 => {
            let n = r.range(1000, 5000);
            if r.chance(1, 2) {
                (n, r.range(1, 60))
            } else {
                (r.range(1, 60), n)
            }
        }
        _ => {
            let n = *r.pick(&[1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537, 70001, 70001, 131_075]);
            let m = r.range(1, 50);
            match r.below(3) {
                0 => (n, m),
                1 => (m, n),
                _ => (n, n),
            }
        }
    };
    (a.min(maxdim), b.min(maxdim))
}

pub fn square(r: &mut Rng, maxdim: usize, big: bool) -> usize {
    let (a, b) = dims(r, maxdim, big);
    if r.chance(1, 2) {
        a
    } else {
        b
    }
}

/// Sorted, distinct positions of every major line.
pub fn pattern(r: &mut Rng, major: usize, minor: usize, budget: usize) -> Vec<Vec<usize>> {
    let mut rows: Vec<Vec<usize>> = vec![vec![]; major];
    if major == 0 || minor == 0 || budget == 0 {
        return rows;
    }
    let cells = major.saturating_mul(minor);
    let kind = r.below(if cells > 20_000 { 23 } else { 18 });
    let kind = if cells <= 20_000 && kind >= 16 { kind + 4 } else { kind };
    let kind = match r.below(6) {
        0 | 1 if major.max(minor) > 30_000 => 21,
        2 if major.min(minor) > 30_000 => 2,
        3 if minor > 30_000 => 16,
        _ => kind,
    };
    let put = |rows: &mut Vec<Vec<usize>>, i: usize, j: usize| rows[i].push(j);
    match kind {
        0 => {}
        1 if cells <= 4000 => {
            for i in 0..major {
                rows[i] = (0..minor).collect();
            }
        }
        2 => {
            for i in 0..major.min(minor) {
                put(&mut rows, i, i);
            }
        }
        3 => {
            let w = r.range(1, 3);
            for i in 0..major {
                for j in i.saturating_sub(w)..(i + w + 1).min(minor) {
                    put(&mut rows, i, j);
                }
            }
        }
        4 => {
            let i = r.below(major);
            for j in 0..minor {
                if r.chance(9, 10) {
                    put(&mut rows, i, j);
                }
            }
            for _ in 0..r.below(4) {
                put(&mut rows, r.below(major), r.below(minor));
            }
        }
        5 => {
            let j = r.below(minor);
            for i in 0..major {
                if r.chance(9, 10) {
                    put(&mut rows, i, j);
                }
            }
            for _ in 0..r.below(4) {
                put(&mut rows, r.below(major), r.below(minor));
            }
        }
        6 => {
            let (a, b) = (r.below(major), r.below(minor));
            let (h, w) = (r.range(1, 20).min(major - a), r.range(1, 20).min(minor - b));
            for i in a..a + h {
                for j in b..b + w {
                    put(&mut rows, i, j);
                }
            }
        }
        7 if cells <= 4000 => {
            let up = r.chance(1, 2);
            for i in 0..major {
                for j in 0..minor {
                    if (up && j >= i) || (!up && j <= i) {
                        put(&mut rows, i, j);
                    }
                }
            }
        }
        8 => {
            let mut p: Vec<usize> = (0..minor).collect();
            r.shuffle(&mut p);
            for i in 0..major.min(minor) {
                put(&mut rows, i, p[i]);
            }
        }
        9 => {
            let i = if r.chance(1, 2) { 0 } else { major - 1 };
            let j = if r.chance(1, 2) { 0 } else { minor - 1 };
            put(&mut rows, i, j);
            if r.chance(1, 2) {
                put(&mut rows, major - 1, minor - 1);
            }
        }
        10 => {
            let k = r.range(2, 5);
            let s = r.below(k);
            for i in 0..major {
                if i % k == s {
                    for _ in 0..r.below(6) {
                        put(&mut rows, i, r.below(minor));
                    }
                }
            }
        }
        11 => {
            // empty leading and trailing lines
            let lo = r.below(major);
            let hi = lo + r.below(major - lo);
            for i in lo..=hi {
                for _ in 0..r.below(5) {
                    put(&mut rows, i, r.below(minor));
                }
            }
        }
        12 if cells <= 8000 => {
            let d = r.range(30, 95);
            for i in 0..major {
                for j in 0..minor {
                    if r.below(100) < d {
                        put(&mut rows, i, j);
                    }
                }
            }
        }
        16 | 18 => {
            // Few long lines, a little elsewhere.
            for _ in 0..r.range(1, 3) {
                let i = r.below(major);
                let d = r.range(10, 100);
                (0..minor).for_each(|j| {
                    if r.below(100) < d {
                        put(&mut rows, i, j)
                    }
                });
            }
            for _ in 0..r.below(200) {
                put(&mut rows, r.below(major), r.below(minor));
            }
        }
        17 | 19 => {
            for _ in 0..budget {
                put(&mut rows, r.below(major), r.below(minor));
            }
        }
        20 => {
            // Close to the diagonal: some neighbours exchanged, some entries moved.
            let d = major.min(minor);
            let mut p: Vec<usize> = (0..d).collect();
            for _ in 0..r.range(1, 3) {
                let (a, b) = (r.below(d), r.below(d));
                match r.below(3) {
                    0 => p.swap(a, b),
                    1 => p.swap(a, (a + 1).min(d - 1)),
                    _ => p[a] = b,
                }
            }
            for i in 0..d {
                put(&mut rows, i, p[i]);
            }
        }
        21 | 22 if major.max(minor) > 128 => {
            // Lines and places that agree in their low bits, the last ones before a power of two among them.
            let line = |r: &mut Rng, n: usize| -> Vec<usize> {
                let step = *r.pick(&[128usize, 256, 256, 4096, 32768, 65536, 65536, 65536]);
                let any = r.below(step);
                let first = *r.pick(&[0, step - 1, any]);
                let mut v: Vec<usize> = (0..40).map(|k| first + step * k).filter(|&k| k < n).collect();
                for _ in 0..r.below(3) {
                    v.push(r.below(n));
                }
                if v.is_empty() || r.chance(1, 2) {
                    v.push(n - 1);
                }
                v
            };
            let (a, b) = (line(r, major), line(r, minor));
            let d = *r.pick(&[30, 70, 100]);
            for i in a {
                b.iter().for_each(|&j| if r.below(100) < d { put(&mut rows, i, j) });
            }
        }
        _ => {
            let per = *r.pick(&[1usize, 2, 3, 5, 8]);
            let n = (major * per).min(cells * 2).min(budget);
            for _ in 0..n {
                put(&mut rows, r.below(major), r.below(minor));
            }
        }
    }
    if major == minor && r.chance(1, 5) {
        // A structurally symmetric matrix.
        let mut left = budget / 2;
        let mut mirror = vec![vec![]; major];
        for (i, row) in rows.iter_mut().enumerate() {
            row.sort_unstable();
            row.dedup();
            row.truncate(left);
            left -= row.len();
            row.iter().for_each(|&j| mirror[j].push(i));
        }
        rows.iter_mut().zip(mirror).for_each(|(row, m)| row.extend(m));
    }
    let mut left = budget;
    for row in rows.iter_mut() {
        row.sort_unstable();
        row.dedup();
        if row.len() > left {
            row.truncate(left);
        }
        left -= row.len();
    }
    rows
}

/// Turns a pattern into stored entries, adding duplicates, disorder and explicit zeros.
pub fn store<T: Val>(r: &mut Rng, rows: Vec<Vec<usize>>, minor: usize, o: &Opt) -> Raw<T> {
    let major = rows.len();
    let base: usize = rows.iter().map(|x| x.len()).sum();
    let mut spare = o.maxnnz.saturating_sub(base);
    let mut raw = Raw { major, minor, ptr: vec![0], idx: vec![], val: vec![] };
    // 0 canonical, 1 sorted with repeats, 2 unsorted, 3 unsorted with repeats, 4 reversed,
    // 5 repeats of one position many times, 6 cancelling repeats, 7 one disturbed line,
    // 8 mixture per line
    let mode = match (o.dups, o.unsorted) {
        (false, false) => 0,
        (true, false) => *r.pick(&[0, 1, 1, 5, 6]),
        (false, true) => *r.pick(&[0, 2, 4]),
        (true, true) => *r.pick(&[0, 0, 0, 1, 2, 3, 3, 4, 5, 6, 7, 7, 8]),
    };
    let zp = if o.zeros { *r.pick(&[0usize, 0, 0, 10, 35, 100]) } else { 0 };
    // Values: mostly independent, sometimes all one, all equal or out of a few.
    let few: Vec<T> = match r.below(16) {
        0 => vec![T::unit()],
        1 => vec![T::gen(r)],
        2 => (0..r.range(2, 3)).map(|_| T::gen(r)).collect(),
        _ => vec![],
    };
    let draw = |r: &mut Rng| if few.is_empty() { T::gen(r) } else { *r.pick(&few) };
    // Rarely one position is stored very many times.
    let (mut run, held) = (0, (0..major).filter(|&i| rows[i].len() > 0).collect::<Vec<_>>());
    if o.dups && spare >= 300 && !held.is_empty() && r.chance(1, 25) {
        let long = if spare > 70_000 && (base > 1000 || major.max(minor) > 1000) && r.chance(1, 2) { *r.pick(&[65_535, 65_536, 65_537, 70_000]) } else { *r.pick(&[127, 128, 254, 255, 256, 257, 300, 520, 1000]) };
        // Products of two sums stay exact.
        run = long.min(spare).min((T::PRODS / 9).isqrt());
        spare -= run;
    }
    let run_at = if run > 0 { *r.pick(&held) } else { 0 };
    let able: Vec<usize> = (0..major).filter(|&i| rows[i].len() > 1).collect();
    let special = match r.below(4) {
        0 if able.len() > 0 => able[0],
        1 if able.len() > 0 => able[able.len() - 1],
        2 if able.len() > 0 => *r.pick(&able),
        _ => r.below(major.max(1)),
    };
    for (i, row) in rows.into_iter().enumerate() {
        let mut line: Vec<(usize, T)> = row
            .into_iter()
            .map(|j| (j, if r.below(100) < zp { T::zero() } else { draw(r) }))
            .collect();
        let m = match mode {
            8 => *r.pick(&[0, 1, 2, 3, 4, 5, 6]),
            7 => 7,
            m => m,
        };
        let mut unsort = matches!(m, 2 | 3);
        match m {
            1 | 3 | 5 | 6 => {
                let n0 = line.len();
                let mut extra = vec![];
                for k in 0..n0 {
                    let times = match m {
                        5 => if r.chance(1, 8) { r.below(9) } else { 0 },
                        _ => if r.chance(1, 3) { r.range(1, 3) } else { 0 },
                    };
                    for _ in 0..times {
                        if spare > 0 {
                            spare -= 1;
                            let (j, v) = line[k];
                            let w = match (m, v.opp()) {
                                (6, Some(w)) if v != T::zero() && r.chance(2, 3) => w,
                                _ => if r.below(100) < zp { T::zero() } else { draw(r) },
                            };
                            extra.push((j, w));
                        }
                    }
                }
                line.extend(extra);
                if m == 6 && o.unsorted {
                    unsort = r.chance(1, 2);
                }
                if m == 5 && o.unsorted {
                    unsort = r.chance(1, 2);
                }
                if !unsort {
                    line.sort_by_key(|e| e.0);
                }
            }
            4 => line.reverse(),
            7 if i == special && line.len() > 0 => {
                // Anywhere, at the end or at the start of the line.
                let last = line.len() - 1;
                let k = match r.below(3) {
                    0 => last,
                    1 => 0,
                    _ => r.below(line.len()),
                };
                if r.chance(1, 2) && spare > 0 {
                    spare -= 1;
                    let j = line[k].0;
                    line.insert(k, (j, draw(r)));
                } else {
                    let l = match r.below(2) {
                        0 if k == 0 => last.min(1),
                        0 => k - 1,
                        _ => r.below(line.len()),
                    };
                    line.swap(k, l);
                }
            }
            _ => {}
        }
        if run > 0 && i == run_at {
            let k = r.below(line.len());
            let j = line[k].0;
            let more: Vec<(usize, T)> = (0..run).map(|_| (j, if r.below(100) < zp { T::zero() } else { draw(r) })).collect();
            line.splice(k..k, more);
        }
        if unsort {
            r.shuffle(&mut line);
        }
        for (j, v) in line {
            raw.idx.push(j);
            raw.val.push(v);
        }
        raw.ptr.push(raw.idx.len());
    }
    note(&raw);
    raw
}

const REACH: [&str; 20] = [
    "inputs", "inputs without entries", "inputs over 1000 entries", "inputs over 10000 entries", "inputs over 65536 entries", "inputs with a dimension over 255",
    "inputs with a dimension over 65535", "inputs with a line over 16 entries", "inputs with a line over 64 entries",
    "inputs with a line over 256 entries", "inputs with a line over 1000 entries", "inputs out of order", "inputs with neighbouring repeats",
    "inputs with 4 neighbours at one position", "inputs with explicit zeros", "inputs with an empty first line",
    "inputs with an empty last line", "inputs with an empty line inside", "inputs with over 255 neighbours at one position",
    "inputs with a dimension beyond allocation",
];
thread_local! {
    static REACHED: std::cell::RefCell<[u64; 20]> = std::cell::RefCell::new([0; 20]);
}

/// Shapes and patterns that punish work or memory per line or per pair of lines.
pub fn punishing(r: &mut Rng, small: bool) -> (usize, usize, Vec<Vec<usize>>) {
    let s = if small { 40 } else { 1 };
    let (m, n) = match r.below(8) {
        0 => (r.range(2000, 6000) / s, r.range(1, 4)),
        1 => (r.range(1, 4), r.range(2000, 6000) / s),
        2 => {
            let n = r.range(1000, 4000) / s;
            (n, n)
        }
        3 => (r.range(2000, 5000) / s, r.range(2000, 5000) / s),
        _ => {
            let n = r.range(200, 3000) / s;
            (n, if r.chance(1, 2) { n } else { r.range(200, 3000) / s })
        }
    };
    let (m, n) = (m.max(1), n.max(1));
    let mut rows: Vec<Vec<usize>> = vec![vec![]; m];
    let cap = 12_000 / s;
    match r.below(8) {
        0 => {}
        1 => rows[r.below(m)] = (0..n).collect(),
        2 => {
            let j = r.below(n);
            rows.iter_mut().for_each(|x| x.push(j));
        }
        3 => rows[m - 1] = (0..n.min(cap)).collect(),
        4 => {
            // Arrow: a full row, a full column and the diagonal.
            rows[0] = (0..n).collect();
            for i in 1..m {
                rows[i].push(0);
                if i < n {
                    rows[i].push(i);
                }
            }
        }
        5 => {
            for i in 0..m {
                rows[i].push(i % n);
                rows[i].push((i + 1) % n);
            }
        }
        _ => {
            for _ in 0..(m.max(n) * r.range(1, 3)).min(cap) {
                let i = r.below(m);
                rows[i].push(r.below(n));
            }
        }
    }
    for x in rows.iter_mut() {
        x.sort_unstable();
        x.dedup();
    }
    (m, n, rows)
}

/// A dimension that nothing of its size can be stored for: about a power of two at which some type ends.
pub fn far_dim(r: &mut Rng, max: usize) -> usize {
    let p = *r.pick(&[1usize << 24, 1 << 31, 1 << 32, 1 << 32, 1 << 33, 1 << 48, 1 << 53, 1 << 62, usize::MAX]);
    match r.below(5) {
        0 => p,
        1 => p.saturating_add(r.below(100)),
        2 => p - r.below(100),
        _ => p.saturating_add(r.below(p / 2)),
    }
    .min(max)
}
/// Up to k distinct positions below n in order: at both ends, anywhere, and some that agree in their low bits.
pub fn spread(r: &mut Rng, k: usize, n: usize) -> Vec<usize> {
    let mut v = vec![];
    while v.len() < k {
        let j = match r.below(4) {
            0 => r.below(n.min(40)),
            1 => n - 1 - r.below(n.min(40)),
            2 => r.below(n),
            _ => (1usize << *r.pick(&[8, 16, 24, 31, 32, 32, 53])).saturating_add(r.below(8)).saturating_sub(4),
        };
        v.push(j.min(n - 1));
        while v.len() < k && r.chance(1, 2) {
            let d = 1usize << *r.pick(&[0, 0, 0, 1, 2, 8, 16, 24, 31, 32, 32, 32, 33, 53]);
            let j = v[r.below(v.len())];
            v.push(if j >= d && r.chance(1, 2) { j - d } else { j.saturating_add(d).min(n - 1) });
        }
    }
    v.sort_unstable();
    v.dedup();
    v
}

/// Records what the generated matrices have reached.
fn note<T: Val>(raw: &Raw<T>) {
    let n = raw.idx.len();
    let longest = raw.ptr.windows(2).map(|w| w[1] - w[0]).max().unwrap_or(0);
    let (mut order, mut twice, mut four, mut run) = (false, false, false, false);
    for w in raw.ptr.windows(2) {
        let line = &raw.idx[w[0]..w[1]];
        order |= line.windows(2).any(|p| p[0] > p[1]);
        twice |= line.windows(2).any(|p| p[0] == p[1]);
        run |= line.chunk_by(|a, b| a == b).any(|c| c.len() > 255);
        four |= twice && line.windows(4).any(|p| p.iter().all(|&j| j == p[0]));
    }
    let empty = |k: usize| raw.ptr[k] == raw.ptr[k + 1];
    let (first, last) = (raw.ptr.iter().position(|&p| p > 0), raw.ptr.iter().position(|&p| p == n));
    let inside = n > 0 && (first.unwrap()..last.unwrap()).any(|k| empty(k));
    let dim = raw.major.max(raw.minor);
    let b = [
        true, n == 0, n > 1000, n > 10_000, n > 65_536, dim > 255, dim > 65_535, longest > 16, longest > 64, longest > 256, longest > 1000, order, twice, four,
        raw.val.iter().any(|v| v.is_zero()), n > 0 && empty(0), n > 0 && empty(raw.major - 1), inside, run,
        false,
    ];
    REACHED.with(|r| r.borrow_mut().iter_mut().zip(b).for_each(|(c, b)| *c += b as u64));
}
pub fn reached() -> Vec<(&'static str, u64)> {
    REACHED.with(|r| REACH.into_iter().zip(*r.borrow()).collect())
}

impl<T: Val> Raw<T> {
    pub fn random(r: &mut Rng, major: usize, minor: usize, o: &Opt) -> Self {
        let cells = major.saturating_mul(minor);
        let budget = o.maxnnz.min(60_000).min(20 + 8 * (major + minor) + if cells <= 8000 { cells } else { 0 });
        let b = if r.chance(1, 2) { budget } else { budget / 2 };
        // Sometimes more entries than sixteen bits can count.
        let b = if cells > 200_000 && r.chance(1, 12) { o.maxnnz.min(90_000) } else { b };
        let p = pattern(r, major, minor, b);
        store(r, p, minor, o)
    }
    pub fn any(r: &mut Rng, o: &Opt, big: bool) -> Self {
        let (a, b) = dims(r, o.maxdim, big);
        Self::random(r, a, b, o)
    }
    /// Few lines, each of a length that cannot be allocated.
    pub fn far<I: Ix>(r: &mut Rng, o: &Opt) -> Self {
        let (m, k) = (r.range(0, 12), r.range(1, 30));
        let mut raw = Self::random(r, m, k, &o.nnz(400));
        raw.stretch::<I>(r, o.maxdim);
        raw
    }
    /// Moves the positions to some below a very large length, in the same order.
    pub fn stretch<I: Ix>(&mut self, r: &mut Rng, max: usize) {
        let n = far_dim(r, max.min(I::MAX));
        let at = loop {
            let at = spread(r, self.minor, n);
            if at.len() >= self.minor {
                break at;
            }
            let at = spread(r, 4 * self.minor, n);
            if at.len() >= self.minor {
                break at;
            }
        };
        self.minor = n;
        REACHED.with(|r| r.borrow_mut()[19] += 1);
        for j in self.idx.iter_mut() {
            *j = at[*j];
        }
    }
    /// Spreads the lines too, as triplets of a matrix of which neither dimension can be allocated.
    pub fn far_triplets<I: Ix>(&self, r: &mut Rng, max: usize) -> (usize, Vec<(usize, usize, T)>) {
        let mut t = self.triplets(r, true);
        if r.chance(1, 3) || self.major == 0 {
            return (self.major, t);
        }
        let m = far_dim(r, max.min(I::MAX));
        let at = loop {
            let at = spread(r, 4 * self.major, m);
            if at.len() >= self.major {
                break at;
            }
        };
        for e in t.iter_mut() {
            e.0 = at[e.0];
        }
        (m, t)
    }
    pub fn nnz(&self) -> usize {
        self.idx.len()
    }
    /// Replaces some values by special ones.
    pub fn specials(&mut self, r: &mut Rng) {
        let p = *r.pick(&[0usize, 0, 10, 50, 100]);
        for v in self.val.iter_mut() {
            if r.below(100) < p {
                *v = T::special(r);
            }
        }
    }
    /// Replaces the non-zero values by ones from the whole width of the type, if no position is stored twice.
    pub fn extremes(&mut self, r: &mut Rng) -> bool {
        for i in 0..self.major {
            let mut l = self.idx[self.ptr[i]..self.ptr[i + 1]].to_vec();
            l.sort_unstable();
            if l.windows(2).any(|w| w[0] == w[1]) {
                return false;
            }
        }
        for v in self.val.iter_mut() {
            if !v.is_zero() {
                *v = T::extreme(r);
            }
        }
        true
    }
    /// The same for two operands, which are often equal or opposite where both store something.
    pub fn extreme_pair(r: &mut Rng, o: &Opt, big: bool) -> (Self, Self) {
        let o = Opt { dups: false, ..*o };
        let mut x = Self::any(r, &o, big);
        x.extremes(r);
        let mut y = if r.chance(1, 2) { x.clone() } else { Self::random(r, x.major, x.minor, &o) };
        if r.chance(1, 2) {
            y.extremes(r);
        }
        for v in y.val.iter_mut() {
            match r.below(6) {
                0 => *v = v.opp().unwrap_or(*v),
                1 => *v = T::extreme(r),
                2 => *v = T::zero(),
                _ => {}
            }
        }
        if r.chance(1, 2) {
            (x, y)
        } else {
            (y, x)
        }
    }
    /// Storage tag for coverage: which features the matrix shows.
    pub fn features(&self) -> u64 {
        let (mut dup, mut uns, mut zero, mut empty) = (0, 0, 0, 0);
        for i in 0..self.major {
            let l = &self.idx[self.ptr[i]..self.ptr[i + 1]];
            if l.is_empty() {
                empty = 1
            }
            for w in l.windows(2) {
                if w[0] == w[1] {
                    dup = 1
                }
                if w[0] > w[1] {
                    uns = 1
                }
            }
        }
        if self.val.iter().any(|v| *v == T::zero()) {
            zero = 1;
        }
        dup | uns << 1 | zero << 2 | empty << 3
    }
    pub fn hash(&self) -> u64 {
        let mut h = crate::rng::mix(self.major as u64 ^ (self.minor as u64) << 32);
        for (k, &p) in self.ptr.iter().enumerate() {
            h = crate::rng::mix(h ^ p as u64 ^ (k as u64) << 40);
            if k > 400 {
                break;
            }
        }
        for (k, &p) in self.idx.iter().enumerate() {
            h = crate::rng::mix(h ^ p as u64);
            if k > 400 {
                break;
            }
        }
        h
    }
    fn slack<I: Ix>(r: &mut Rng, on: bool, idx: &mut Vec<I>, val: &mut Vec<T>) {
        if !on {
            return;
        }
        let (a, b) = match r.below(6) {
            0 => {
                let n = r.range(1, 9);
                (n, n)
            }
            1 => (r.range(1, 9), 0),
            2 => (0, r.range(1, 9)),
            3 => (r.below(40), r.below(40)),
            _ => (0, 0),
        };
        for _ in 0..a {
            let top = if r.chance(1, 3) { I::MAX.min(1 << 40) } else { 4 };
            idx.push(I::ix(r.below(top)));
        }
        for _ in 0..b {
            val.push(T::gen(r));
        }
    }
    fn arrays<I: Ix>(&self, r: &mut Rng, slack: bool) -> (Vec<I>, Vec<I>, Vec<T>) {
        let ptr = self.ptr.iter().map(|&p| I::ix(p)).collect();
        let mut idx: Vec<I> = self.idx.iter().map(|&p| I::ix(p)).collect();
        let mut val = self.val.clone();
        Self::slack(r, slack, &mut idx, &mut val);
        (ptr, idx, val)
    }
    /// As a CSR matrix whose rows are the major lines.
    pub fn csr<I: Ix>(&self, r: &mut Rng, slack: bool) -> CSR<I, T> {
        let (p, j, x) = self.arrays(r, slack);
        CSR::new(self.major, self.minor, p, j, x).expect("valid CSR refused")
    }
    /// As a CSC matrix whose columns are the major lines (so it represents the transpose of `csr`).
    pub fn csc<I: Ix>(&self, r: &mut Rng, slack: bool) -> CSC<I, T> {
        let (p, i, x) = self.arrays(r, slack);
        CSC::new(self.minor, self.major, i, p, x).expect("valid CSC refused")
    }
    /// Triplets (major, minor, value), in storage order or in another one, mostly shuffled.
    pub fn triplets(&self, r: &mut Rng, shuffle: bool) -> Vec<(usize, usize, T)> {
        let mut t = Vec::with_capacity(self.nnz());
        for i in 0..self.major {
            for k in self.ptr[i]..self.ptr[i + 1] {
                t.push((i, self.idx[k], self.val[k]));
            }
        }
        match r.below(8) {
            _ if !shuffle => {}
            0 => t.sort_by_key(|e| e.1),
            1 => t.reverse(),
            2 => {
                // In order but for one pair.
                if t.len() > 1 {
                    let (a, b) = (r.below(t.len()), r.below(t.len()));
                    t.swap(a, b);
                }
            }
            _ => r.shuffle(&mut t),
        }
        t
    }
    pub fn list(&self) -> crate::wf::List {
        let mut l = Vec::with_capacity(self.nnz());
        for i in 0..self.major {
            for k in self.ptr[i]..self.ptr[i + 1] {
                l.push((i, self.idx[k], self.val[k].bits()));
            }
        }
        l.sort_unstable();
        l
    }
    /// As a coordinate matrix with rows = major lines.
    pub fn coo<I: Ix>(&self, r: &mut Rng) -> Coo<I, T> {
        let s = r.chance(3, 5);
        let t = self.triplets(r, s);
        Coo::new(
            self.major,
            self.minor,
            t.iter().map(|e| I::ix(e.0)).collect(),
            t.iter().map(|e| I::ix(e.1)).collect(),
            t.iter().map(|e| e.2).collect(),
        )
        .expect("valid Coo refused")
    }
    pub fn model(&self) -> Model<T> {
        let mut m = Model::new(self.major, self.minor);
        for i in 0..self.major {
            for k in self.ptr[i]..self.ptr[i + 1] {
                m.add(i, self.idx[k], self.val[k]);
            }
        }
        m
    }
    pub fn iptr<I: Ix>(&self) -> Vec<I> {
        self.ptr.iter().map(|&p| I::ix(p)).collect()
    }
    pub fn iidx<I: Ix>(&self) -> Vec<I> {
        self.idx.iter().map(|&p| I::ix(p)).collect()
    }
    pub fn sorted(&self) -> bool {
        (0..self.major).all(|i| self.idx[self.ptr[i]..self.ptr[i + 1]].windows(2).all(|w| w[0] <= w[1]))
    }
    pub fn canonical(&self) -> bool {
        (0..self.major).all(|i| self.idx[self.ptr[i]..self.ptr[i + 1]].windows(2).all(|w| w[0] < w[1]))
    }
}
