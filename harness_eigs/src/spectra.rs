//! Matrices for the eigenvalue routine, some with a spectrum that is known by construction, and the
//! judgement of what the routine returned.
use full::Mat;
use harness::*;
use num_complex::Complex64;
use std::collections::BTreeMap;

pub struct Problem {
    pub kind: &'static str,
    pub n: usize,
    pub nev: usize,
    /// Entries, each position once.
    pub a: Vec<(usize, usize, f64)>,
    /// Every eigenvalue, when known.
    pub spectrum: Option<Vec<Complex64>>,
    /// The dominant ones that must be found (separated from the others); empty: none demanded.
    pub must: Vec<Complex64>,
    /// Whether the routine must succeed; for a single value out of a pair it works with three vectors only.
    pub sure: bool,
}

impl Problem {
    pub fn product(&self) -> Box<dyn Fn(&[f64]) -> Vec<f64>> {
        let (a, n) = (self.a.clone(), self.n);
        Box::new(move |x| {
            let mut y = vec![0.0; n];
            a.iter().for_each(|e| y[e.0] += e.2 * x[e.1]);
            y
        })
    }
    pub fn norm(&self) -> f64 {
        self.a.iter().map(|e| e.2 * e.2).sum::<f64>().sqrt()
    }
    /// How far a product with a unit vector may be off.
    pub fn tol(&self) -> f64 {
        1e-9 * self.norm().max(1e-300)
    }
    /// The matrix in some storage form.
    pub fn csc(&self, r: &mut Rng) -> CSC<usize, f64> {
        let mut lines: Vec<Vec<(usize, f64)>> = vec![vec![]; self.n];
        for e in &self.a {
            if r.chance(1, 8) {
                // A value stored in two parts.
                let h = e.2 * 0.25;
                lines[e.1].push((e.0, h));
                lines[e.1].push((e.0, e.2 - h));
            } else {
                lines[e.1].push((e.0, e.2));
            }
        }
        let shuffle = r.chance(1, 2);
        let (mut p, mut i, mut x) = (vec![0], vec![], vec![]);
        for l in lines.iter_mut() {
            if shuffle {
                r.shuffle(l)
            }
            l.iter().for_each(|e| {
                i.push(e.0);
                x.push(e.1)
            });
            p.push(i.len());
        }
        for _ in 0..r.below(3) {
            i.push(0);
            x.push(9.0);
        }
        CSC::new(self.n, self.n, i, p, x).unwrap()
    }
    pub fn hash(&self) -> u64 {
        self.a.iter().fold(rng::mix((self.n * 1000 + self.nev) as u64), |h, e| rng::mix(h ^ rng::mix((e.0 * 4096 + e.1) as u64) ^ e.2.to_bits()))
    }
}

fn dense(a: &[Vec<f64>]) -> Vec<(usize, usize, f64)> {
    let mut t = vec![];
    for (i, row) in a.iter().enumerate() {
        for (j, x) in row.iter().enumerate() {
            if *x != 0.0 {
                t.push((i, j, *x))
            }
        }
    }
    t
}

fn sgn(r: &mut Rng) -> f64 {
    if r.chance(1, 2) {
        1.0
    } else {
        -1.0
    }
}

/// A matrix with chosen eigenvalues: block triangular, permuted, and sheared a little.
pub fn chosen(r: &mut Rng, n: usize, nev: usize, gap: f64, split: bool) -> Problem {
    let scale = *r.pick(&[1.0, 1.0, 1.0, 100.0, 0.01, 1e6]);
    // The wanted ones, in [1, 3], all of them at some distance from each other.
    let want = if split { nev + 1 } else { nev };
    let mut top: Vec<(f64, f64)> = vec![];
    let mut k = 0;
    while k < want {
        let far = |top: &[(f64, f64)], x: (f64, f64)| top.iter().all(|t| ((t.0 - x.0).powi(2) + (t.1 - x.1).powi(2)).sqrt() > 0.25);
        let last_two = want - k == 2 && split;
        let pair = (k + 1 < want && !(split && want - k == 3) && r.chance(1, 2)) || last_two;
        if last_two || !pair || k + 2 <= want {
            let m = if last_two { 1.0 } else { 1.05 + 2.0 * r.unit() };
            let x = if pair {
                let t = (0.15 + 0.7 * r.unit()) * std::f64::consts::PI;
                (m * t.cos(), m * t.sin())
            } else {
                (m * sgn(r), 0.0)
            };
            let tries = top.len() * 4;
            if far(&top, x) || r.chance(1, 20 + tries) {
                if !far(&top, x) {
                    continue;
                }
                k += if pair { 2 } else { 1 };
                top.push(x);
            } else if !pair && top.len() > 6 {
                // Room has become scarce on the real axis: spread out.
                let x = ((4.0 + k as f64 * 0.5) * sgn(r), 0.0);
                if far(&top, x) {
                    k += 1;
                    top.push(x);
                }
            }
        }
    }
    let least = top.iter().map(|t| (t.0 * t.0 + t.1 * t.1).sqrt()).fold(f64::INFINITY, f64::min);
    let mut blocks = top.clone();
    let zeros = r.chance(1, 6);
    while k < n {
        let m = if zeros { 0.0 } else { gap * least * r.unit() };
        if k + 1 < n && r.chance(1, 2) && m > 0.0 {
            let t = r.unit() * std::f64::consts::PI;
            blocks.push((m * t.cos(), m * t.sin()));
            k += 2;
        } else {
            blocks.push((m * sgn(r), 0.0));
            k += 1;
        }
    }
    r.shuffle(&mut blocks);
    let mut a = vec![vec![0.0; n]; n];
    let mut spectrum = vec![];
    let mut i = 0;
    let mut start = vec![0; n];
    for b in &blocks {
        start[i] = i;
        a[i][i] = b.0;
        if b.1 == 0.0 {
            spectrum.push(Complex64::new(b.0, 0.0));
            i += 1;
        } else {
            start[i + 1] = i;
            let s = (0.3 + r.unit() * 2.0) * sgn(r);
            a[i + 1][i + 1] = b.0;
            a[i][i + 1] = b.1 * s;
            a[i + 1][i] = -b.1 / s;
            spectrum.push(Complex64::new(b.0, b.1));
            spectrum.push(Complex64::new(b.0, -b.1));
            i += 2;
        }
    }
    // Entries above the blocks.
    let fill = *r.pick(&[0, 1, 3, 10]);
    for _ in 0..n * fill / 2 {
        let (i, j) = (r.below(n), r.below(n));
        if i < j && start[j] > i {
            a[i][j] = (r.unit() - 0.5) * 0.4;
        }
    }
    // A permutation, and shears: row i += c * row j, column j -= c * column i.
    let mut p: Vec<usize> = (0..n).collect();
    if r.chance(3, 4) {
        r.shuffle(&mut p);
    }
    let mut b = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..n {
            b[p[i]][p[j]] = a[i][j] * scale;
        }
    }
    for _ in 0..r.below(4) {
        let (i, j) = (r.below(n), r.below(n));
        if i != j {
            let c = (r.unit() - 0.5) * 1.0;
            for k in 0..n {
                b[i][k] += c * b[j][k];
            }
            for row in b.iter_mut() {
                row[j] -= c * row[i];
            }
        }
    }
    let must: Vec<Complex64> = top.iter().flat_map(|t| if t.1 == 0.0 { vec![Complex64::new(t.0, 0.0)] } else { vec![Complex64::new(t.0, t.1), Complex64::new(t.0, -t.1)] }).map(|x| x * scale).collect();
    spectrum.iter_mut().for_each(|x| *x *= scale);
    Problem { kind: if split { "split" } else { "chosen" }, n, nev, a: dense(&b), spectrum: Some(spectrum), must, sure: !(split && nev == 1) }
}

/// Positive stochastic columns: the dominant eigenvalue is one.
pub fn stochastic(r: &mut Rng, n: usize) -> Problem {
    let mut a = vec![vec![0.0; n]; n];
    let p = *r.pick(&[20, 50, 90]);
    for j in 0..n {
        let mut col: Vec<f64> = (0..n).map(|_| if r.below(100) < p { r.unit() } else { 0.05 }).collect();
        let s: f64 = col.iter().sum();
        col.iter_mut().for_each(|x| *x /= s);
        for i in 0..n {
            a[i][j] = col[i];
        }
    }
    Problem { kind: "stochastic", n, nev: 1, a: dense(&a), spectrum: None, must: vec![Complex64::new(1.0, 0.0)], sure: true }
}

/// Matrices about which only the pairs themselves can be judged.
pub fn unknown(r: &mut Rng, n: usize, nev: usize) -> Problem {
    let mut a = vec![vec![0.0; n]; n];
    let kind = match r.below(9) {
        0 => {
            for i in 0..n {
                a[i][(i + 1) % n] = 1.0;
            }
            "cycle"
        }
        1 => {
            for i in 0..n {
                a[i][i] = 2.0;
                if i > 0 {
                    a[i][i - 1] = -1.0;
                    a[i - 1][i] = -1.0;
                }
            }
            "laplacian"
        }
        2 => {
            for i in 1..n {
                a[i - 1][i] = 1.0;
            }
            "nilpotent"
        }
        3 => {
            for i in 0..n {
                a[i][i] = (i % 3) as f64;
            }
            "multiple"
        }
        4 => {
            for i in 0..n {
                for j in 0..=i {
                    if r.chance(1, 3) {
                        let x = r.unit() - 0.5;
                        a[i][j] = x;
                        a[j][i] = x;
                    }
                }
            }
            "symmetric"
        }
        5 => {
            for i in 0..n {
                for j in 0..i {
                    if r.chance(1, 3) {
                        let x = r.unit() - 0.5;
                        a[i][j] = x;
                        a[j][i] = -x;
                    }
                }
            }
            "skew"
        }
        6 => "zero",
        _ => {
            let p = r.range(1, 9);
            for i in 0..n {
                for j in 0..n {
                    if r.chance(p, 10) {
                        a[i][j] = r.unit() * 2.0 - 1.0;
                    }
                }
            }
            "random"
        }
    };
    Problem { kind, n, nev, a: dense(&a), spectrum: None, must: vec![], sure: false }
}

/// Sizes and counts: small ones mostly, the largest count now and then.
pub fn sizes(r: &mut Rng, max: usize) -> (usize, usize) {
    let n = match r.below(6) {
        0 => r.range(3, 6),
        1 | 2 => r.range(3, 16),
        3 | 4 => r.range(8, 40),
        _ => r.range(20, max.max(20)),
    };
    let nev = match r.below(6) {
        0 => n - 2,
        1 => 1,
        _ => r.range(1, 8),
    };
    (n, nev.min(n - 2).min(24).max(1))
}

/// How often a call may be repeated from another random start. A demand that depends on convergence
/// is only broken when no start meets it.
pub fn starts(p: &Problem) -> usize {
    if p.sure || (p.nev <= 2 && !p.must.is_empty()) {
        8
    } else {
        0
    }
}
const MISSING: &str = "the dominant eigenvalue ";
pub fn missed(v: &Result<(), String>) -> bool {
    matches!(v, Err(e) if e.starts_with(MISSING))
}

fn near(a: Complex64, b: Complex64, tol: f64) -> bool {
    (a - b).norm() <= tol
}

/// Judges an answer; what it counts goes to the map.
pub fn judge(p: &Problem, ans: Result<(Vec<Complex64>, Mat<Complex64>), String>, seen: &mut BTreeMap<&'static str, usize>) -> Result<(), String> {
    let (d, z) = match ans {
        Ok(x) => x,
        Err(e) => {
            *seen.entry("errors_returned").or_insert(0) += 1;
            if p.sure {
                return Err(format!("{} dominant eigenvalues are well separated, and the routine failed: {}", p.must.len(), e));
            }
            return Ok(());
        }
    };
    *seen.entry("successes").or_insert(0) += 1;
    if d.len() > p.nev + 1 {
        return Err(format!("{} eigenvalues returned where {} were asked for", d.len(), p.nev));
    }
    if z.rows() < d.len() || z.cols() != p.n {
        return Err(format!("{} eigenvalues with vectors {}x{} for n = {}", d.len(), z.rows(), z.cols(), p.n));
    }
    let norm = p.norm();
    for (i, l) in d.iter().enumerate() {
        let v: Vec<Complex64> = (0..p.n).map(|j| z[(i, j)]).collect();
        let len = v.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt();
        if !(len > 1e-6 && len.is_finite()) || !l.re.is_finite() || !l.im.is_finite() {
            return Err(format!("eigenvalue {} of {}: {} with a vector of length {}", i, d.len(), l, len));
        }
        let mut y: Vec<Complex64> = v.iter().map(|x| -(l * x)).collect();
        p.a.iter().for_each(|e| y[e.0] += v[e.1] * e.2);
        let res = y.iter().map(|x| x.norm_sqr()).sum::<f64>().sqrt() / len;
        if !(res <= 1e-7 * norm + 1e-12) {
            return Err(format!("eigenvalue {} of {}: |A v - ({}) v| = {:e} |v|, norm of A {:e}", i, d.len(), l, res, norm));
        }
        if l.im != 0.0 {
            *seen.entry("complex_pairs_checked").or_insert(0) += 1;
        }
        *seen.entry("pairs_checked").or_insert(0) += 1;
    }
    // Each returned value is an eigenvalue of its own.
    let big = d.iter().chain(&p.must).map(|x| x.norm()).fold(0.0, f64::max);
    if !p.must.is_empty() {
        let tol = 1e-5 * big;
        if let Some(s) = &p.spectrum {
            let mut free = vec![true; s.len()];
            for l in &d {
                let best = (0..s.len()).filter(|&k| free[k]).min_by(|&a, &b| (s[a] - l).norm().partial_cmp(&(s[b] - l).norm()).unwrap());
                match best {
                    // Eigenvalues outside the demanded ones may be ill-conditioned.
                    Some(k) if near(s[k], *l, if l.norm() > 0.8 * least(&p.must) { tol } else { 0.05 * big }) => free[k] = false,
                    _ => return Err(format!("{} is returned more often than it is an eigenvalue", l)),
                }
            }
        }
        for m in &p.must {
            if !d.iter().any(|l| near(*l, *m, tol)) {
                return Err(format!("{}{} is missing from {:?}", MISSING, m, d));
            }
            *seen.entry("dominant_found").or_insert(0) += 1;
        }
    }
    if d.len() >= p.nev {
        *seen.entry("complete_answers").or_insert(0) += 1;
    } else {
        *seen.entry("short_answers").or_insert(0) += 1;
    }
    Ok(())
}
fn least(m: &[Complex64]) -> f64 {
    m.iter().map(|x| x.norm()).fold(f64::INFINITY, f64::min)
}
