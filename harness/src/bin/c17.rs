//! C17: text output.
use harness::*;

/// A scalar that can be read back from text.
trait Text: Val {
    /// Any printable value.
    fn any(r: &mut Rng) -> Self;
    fn parse(s: &str) -> Option<Self>;
    /// Whether a table cell shows the value to six significant digits.
    fn shows(&self, cell: &str) -> Result<(), String>;
}

fn digits6(v: f64, cell: &str) -> Result<(), String> {
    let g: f64 = cell.parse().map_err(|_| format!("cell {:?} is not a number", cell))?;
    if v.is_nan() || v.is_infinite() {
        return if g.is_nan() == v.is_nan() && (v.is_nan() || g == v) { Ok(()) } else { Err(format!("cell {:?} for {:e}", cell, v)) };
    }
    if v == 0.0 {
        return if g == 0.0 { Ok(()) } else { Err(format!("cell {:?} for zero", cell)) };
    }
    let mant = cell.trim_start_matches('-').split(|c| c == 'e' || c == 'E').next().unwrap();
    let sig: String = mant.chars().filter(|c| c.is_ascii_digit()).collect();
    let sig = sig.trim_start_matches('0').trim_end_matches('0');
    if sig.len() > 6 {
        return Err(format!("cell {:?} for {:e} has {} significant digits", cell, v, sig.len()));
    }
    // Half a unit of the sixth digit of v.
    let e: i32 = format!("{:e}", v.abs()).split('e').nth(1).unwrap().parse().unwrap();
    let half = format!("5e{}", e - 6).parse::<f64>().unwrap();
    let tol = half * (1.0 + 1e-6) + v.abs() * 1e-15;
    // Compare with scaling so that huge values do not overflow.
    if g.is_infinite() || ((g / 2.0 - v / 2.0).abs() > tol / 2.0 && (g - v).abs() > f64::MIN_POSITIVE * 1e-6) {
        return Err(format!("cell {:?} for {:e}", cell, v));
    }
    Ok(())
}

fn anyf64(r: &mut Rng) -> f64 {
    let s = if r.chance(1, 2) { -1.0 } else { 1.0 };
    s * match r.below(14) {
        0 => 0.0,
        1 => r.range(1, 20) as f64,
        2 => r.range(1, 3_000_000) as f64,
        3 => r.unit(),
        4 => r.unit() * 1e6,
        5 => 10f64.powi(r.range(0, 40) as i32 - 20),
        6 => r.range(1, 1_000_000) as f64 / 10f64.powi(r.range(0, 12) as i32),
        // Just around a rounding boundary.
        7 => (r.range(100_000, 999_999) as f64 + 0.5 + (r.unit() - 0.5) * 1e-3) * 10f64.powi(r.range(0, 30) as i32 - 15),
        8 => 999_999.0 + r.unit() * 2.0,
        9 => f64::from_bits(r.next() >> 12 | ((r.range(1, 2046) as u64) << 52)),
        10 => r.unit() * 10f64.powi(r.range(0, 600) as i32 - 300),
        11 => f64::from_bits(r.next() >> 40),
        12 => f64::INFINITY,
        _ => f64::NAN,
    }
}

impl Text for f64 {
    fn any(r: &mut Rng) -> f64 {
        anyf64(r)
    }
    fn parse(s: &str) -> Option<f64> {
        s.parse().ok()
    }
    fn shows(&self, cell: &str) -> Result<(), String> {
        digits6(*self, cell)
    }
}
impl Text for f32 {
    fn any(r: &mut Rng) -> f32 {
        anyf64(r) as f32
    }
    fn parse(s: &str) -> Option<f32> {
        s.parse().ok()
    }
    fn shows(&self, cell: &str) -> Result<(), String> {
        digits6(*self as f64, cell)
    }
}
macro_rules! ctext {
    ($c:ty, $f:ty) => {
        impl Text for $c {
            fn any(r: &mut Rng) -> $c {
                <$c>::new(<$f>::any(r), <$f>::any(r))
            }
            /// Written as a+bi or a-bi.
            fn parse(s: &str) -> Option<$c> {
                let s = s.strip_suffix('i')?;
                let at = s.char_indices().skip(1).filter(|&(k, c)| (c == '+' || c == '-') && !s[..k].ends_with('e') && !s[..k].ends_with('E')).last()?.0;
                let (re, im) = (s[..at].trim_end_matches('+').parse().ok()?, s[at..].trim_start_matches('+').parse().ok()?);
                Some(<$c>::new(re, im))
            }
            fn shows(&self, cell: &str) -> Result<(), String> {
                let k = cell.rfind('j').ok_or(format!("cell {:?} has no imaginary part", cell))?;
                if k == 0 {
                    return Err(format!("cell {:?} has no sign", cell));
                }
                let (re, sign, im) = (&cell[..k - 1], &cell[k - 1..k], &cell[k + 1..]);
                digits6(self.re as f64, re).map_err(|e| format!("real part of {:?}: {}", cell, e))?;
                if im.starts_with('-') || im.starts_with('+') {
                    return Err(format!("cell {:?} has two signs", cell));
                }
                digits6(self.im.abs() as f64, im).map_err(|e| format!("imaginary part of {:?}: {}", cell, e))?;
                let ok = match sign {
                    "+" => self.im >= 0.0 || self.im.is_nan(),
                    "-" => self.im <= 0.0 || self.im.is_nan(),
                    _ => false,
                };
                if ok { Ok(()) } else { Err(format!("cell {:?} for {:e} + {:e} i", cell, self.re, self.im)) }
            }
        }
    };
}
ctext!(Complex64, f64);
ctext!(Complex32, f32);
macro_rules! itext {
    ($t:ty) => {
        impl Text for $t {
            fn any(r: &mut Rng) -> $t {
                match r.below(6) {
                    0 => 0 as $t,
                    1 => <$t>::MAX,
                    2 => <$t>::MIN,
                    3 => r.next() as $t,
                    _ => Self::gen(r),
                }
            }
            fn parse(s: &str) -> Option<$t> {
                s.parse().ok()
            }
            fn shows(&self, cell: &str) -> Result<(), String> {
                match cell.parse::<$t>() {
                    Ok(v) if v == *self => Ok(()),
                    _ => Err(format!("cell {:?} for {}", cell, self)),
                }
            }
        }
    };
}
itext!(i32);
itext!(usize);
itext!(i128);
itext!(u8);

fn read_list<T: Text>(s: &str) -> Result<List, String> {
    let mut l: List = vec![];
    for line in s.lines() {
        let bad = || format!("line {:?} is not '(row, column) value'", line);
        let (pos, val) = line.strip_prefix('(').and_then(|x| x.split_once(") ")).ok_or_else(bad)?;
        let (i, j) = pos.split_once(", ").ok_or_else(bad)?;
        let v = T::parse(val).ok_or_else(bad)?;
        l.push((i.parse().map_err(|_| bad())?, j.parse().map_err(|_| bad())?, v.bits()));
    }
    l.sort_unstable();
    Ok(l)
}

/// NaN is written without its payload and sign.
fn plain<T: Text>(l: &List, raw: &[T]) -> bool {
    let _ = l;
    raw.iter().all(|v| v.bits() == T::parse(&format!("{}", v)).map_or(0, |w| w.bits()))
}

fn text<I: Ix, T: Text>(cx: &mut Cx, r: &mut Rng) {
    let o = Opt::of::<I, T>().nnz(2000);
    let mut raw = if I::MAX > 1 << 30 && r.chance(1, 6) { Raw::<T>::far::<I>(r, &o) } else { Raw::<T>::any(r, &o, false) };
    for v in raw.val.iter_mut() {
        if *v != T::zero() || r.chance(1, 4) {
            *v = T::any(r);
        }
    }
    if !plain(&vec![], &raw.val) {
        // Only NaN has several representations of one text.
        for v in raw.val.iter_mut() {
            *v = T::parse(&format!("{}", v)).unwrap_or(*v);
        }
    }
    cx.show(|| brief::<I, T>(&raw));
    let l = raw.list();
    let (a, p, c) = (raw.csr::<I>(r, true), raw.csc::<I>(r, true), raw.coo::<I>(r));
    for (name, s, want) in [("CSR", a.to_string(), &l), ("CSC", p.to_string(), &flip(&l)), ("Coo", c.to_string(), &l)] {
        match read_list::<T>(&s) {
            Err(e) => cx.fail(format!("{}::to_string: {}", name, e)),
            Ok(g) => {
                if let Some(d) = list_diff(want, &g) {
                    cx.fail(format!("{}::to_string: {}", name, d));
                }
                cx.count("lists_read_back", 1);
                cx.count("lines_read_back", g.len());
            }
        }
    }
    if raw.nnz() > 0 {
        cx.seen(raw.hash() ^ raw.val[0].bits() as u64);
    }
}

fn table<I: Ix, T: Text>(cx: &mut Cx, r: &mut Rng) {
    let o = Opt::of::<I, T>().canonical().dim(if r.chance(1, 40) { 700 } else { 60 });
    let mut raw = Raw::<T>::any(r, &o, false);
    for v in raw.val.iter_mut() {
        if *v != T::zero() || r.chance(1, 4) {
            *v = T::any(r);
        }
    }
    let (m, n) = (raw.major, raw.minor);
    if n == 0 {
        return;
    }
    cx.show(|| brief::<I, T>(&raw));
    let a = raw.csr::<I>(r, true);
    let s = a.to_table();
    let lines: Vec<&str> = s.lines().collect();
    ck!(cx, lines.len() == m, "to_table of {}x{} has {} lines", m, n, lines.len());
    for i in 0..m {
        let cells: Vec<&str> = lines[i].split_whitespace().collect();
        ck!(cx, cells.len() == n, "to_table row {} of {}x{} has {} cells: {:?}", i, m, n, cells.len(), lines[i]);
        let mut k = raw.ptr[i];
        for j in 0..n {
            if k < raw.ptr[i + 1] && raw.idx[k] == j {
                if let Err(e) = raw.val[k].shows(cells[j]) {
                    cx.fail(format!("to_table at ({}, {}): {}", i, j, e));
                }
                k += 1;
                cx.count("value_cells", 1);
            } else {
                ck!(cx, cells[j] == "-", "to_table at ({}, {}) shows {:?} where nothing is stored", i, j, cells[j]);
                cx.count("empty_cells", 1);
            }
        }
    }
    cx.count("tables", 1);
    if raw.nnz() > 0 {
        cx.seen(raw.hash() ^ raw.val[0].bits() as u64 ^ 1);
    }
}

macro_rules! pick {
    ($name:ident, $f:ident) => {
        fn $name(cx: &mut Cx, r: &mut Rng, i: u64) {
            match i % 10 {
                0 | 1 => $f::<usize, f64>(cx, r),
                2 | 3 => $f::<u32, Complex64>(cx, r),
                4 => $f::<i64, f32>(cx, r),
                5 => $f::<isize, Complex32>(cx, r),
                6 => $f::<u8, i32>(cx, r),
                7 => $f::<i16, usize>(cx, r),
                8 => $f::<u128, i128>(cx, r),
                _ => $f::<i8, u8>(cx, r),
            }
        }
    };
}
pick!(text_case, text);
pick!(table_case, table);

fn main() {
    run(&[
        Family { name: "lists", quick: 30_000, thorough: 1_000_000, f: text_case },
        Family { name: "tables", quick: 30_000, thorough: 1_000_000, f: table_case },
    ])
}
