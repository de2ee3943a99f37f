//! The reference model: a plain map from position to the sum of the entries stored there.
use sparsetools::Scalar;
use std::collections::BTreeMap;
use std::fmt;

#[derive(Clone)]
pub struct Model<T> {
    pub rows: usize,
    pub cols: usize,
    pub map: BTreeMap<(usize, usize), T>,
}

impl<T: Scalar + fmt::Debug> Model<T> {
    pub fn new(rows: usize, cols: usize) -> Self {
        Model { rows, cols, map: BTreeMap::new() }
    }
    pub fn add(&mut self, i: usize, j: usize, v: T) {
        match self.map.get_mut(&(i, j)) {
            Some(x) => *x += v,
            None => {
                self.map.insert((i, j), v);
            }
        }
    }
    pub fn get(&self, i: usize, j: usize) -> T {
        self.map.get(&(i, j)).copied().unwrap_or_else(T::zero)
    }
    pub fn occupied(&self) -> usize {
        self.map.len()
    }
    pub fn nonzeros(&self) -> usize {
        self.map.values().filter(|v| **v != T::zero()).count()
    }
    pub fn t(&self) -> Self {
        let mut m = Model::new(self.cols, self.rows);
        for (&(i, j), &v) in &self.map {
            m.map.insert((j, i), v);
        }
        m
    }
    pub fn zip(&self, o: &Self, f: impl Fn(T, T) -> T) -> Self {
        let mut m = Model::new(self.rows, self.cols);
        for (&(i, j), &v) in &self.map {
            m.map.insert((i, j), f(v, o.get(i, j)));
        }
        for (&(i, j), &v) in &o.map {
            if !self.map.contains_key(&(i, j)) {
                m.map.insert((i, j), f(T::zero(), v));
            }
        }
        m
    }
    pub fn map_values<U: Scalar + fmt::Debug>(&self, f: impl Fn(T) -> U) -> Model<U> {
        let mut m = Model::new(self.rows, self.cols);
        for (&k, &v) in &self.map {
            m.map.insert(k, f(v));
        }
        m
    }
    pub fn mul(&self, o: &Self) -> Self {
        assert_eq!(self.cols, o.rows);
        let mut by_row: BTreeMap<usize, Vec<(usize, T)>> = BTreeMap::new();
        for (&(i, j), &v) in &o.map {
            by_row.entry(i).or_default().push((j, v));
        }
        let mut m = Model::new(self.rows, o.cols);
        for (&(i, k), &v) in &self.map {
            if let Some(r) = by_row.get(&k) {
                for &(j, w) in r {
                    m.add(i, j, v * w);
                }
            }
        }
        m
    }
    pub fn mul_vec(&self, x: &[T]) -> Vec<T> {
        let mut y = vec![T::zero(); self.rows];
        for (&(i, j), &v) in &self.map {
            y[i] += v * x[j];
        }
        y
    }
    pub fn hstack(&self, o: &Self) -> Self {
        let mut m = Model::new(self.rows, self.cols + o.cols);
        m.map = self.map.clone();
        for (&(i, j), &v) in &o.map {
            m.map.insert((i, j + self.cols), v);
        }
        m
    }
    pub fn vstack(&self, o: &Self) -> Self {
        let mut m = Model::new(self.rows + o.rows, self.cols);
        m.map = self.map.clone();
        for (&(i, j), &v) in &o.map {
            m.map.insert((i + self.rows, j), v);
        }
        m
    }
    pub fn select(&self, ri: &[usize], ci: &[usize]) -> Self {
        let mut cpos: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        for (k, &c) in ci.iter().enumerate() {
            cpos.entry(c).or_default().push(k);
        }
        let mut m = Model::new(ri.len(), ci.len());
        for (r, &i) in ri.iter().enumerate() {
            for (&(_, j), &v) in self.map.range((i, 0)..=(i, usize::MAX)) {
                if let Some(ps) = cpos.get(&j) {
                    for &p in ps {
                        m.map.insert((r, p), v);
                    }
                }
            }
        }
        m
    }
    pub fn dense(&self) -> Vec<Vec<T>> {
        let mut d = vec![vec![T::zero(); self.cols]; self.rows];
        for (&(i, j), &v) in &self.map {
            d[i][j] = v;
        }
        d
    }
    pub fn from_dense(d: &[Vec<T>]) -> Self {
        let mut m = Model::new(d.len(), d.first().map_or(0, |r| r.len()));
        for (i, r) in d.iter().enumerate() {
            for (j, &v) in r.iter().enumerate() {
                if v != T::zero() {
                    m.map.insert((i, j), v);
                }
            }
        }
        m
    }
    /// First difference as matrices (absent entries are zero), if any.
    pub fn diff(&self, o: &Self) -> Option<String> {
        if (self.rows, self.cols) != (o.rows, o.cols) {
            return Some(format!("shape {}x{} instead of {}x{}", o.rows, o.cols, self.rows, self.cols));
        }
        for (&(i, j), &v) in &self.map {
            let w = o.get(i, j);
            if v != w {
                return Some(format!("at ({}, {}): {:?} instead of {:?}", i, j, w, v));
            }
        }
        for (&(i, j), &w) in &o.map {
            if !self.map.contains_key(&(i, j)) && w != T::zero() {
                return Some(format!("at ({}, {}): {:?} instead of zero", i, j, w));
            }
        }
        None
    }
}
