//! Structural predicates and readers of the library's matrices.
use crate::model::Model;
use crate::val::{Ix, Val};
use sparsetools::coo::Coo;
use sparsetools::csc::CSC;
use sparsetools::csr::CSR;
use sparsetools::Scalar;
use std::fmt::Debug;

/// How much is demanded of the lengths of the index and value arrays.
#[derive(Clone, Copy, PartialEq)]
pub enum Len {
    Exact,
    AtLeast,
}

pub fn check_compressed<I: Ix, T: Scalar>(
    what: &str,
    major: usize,
    minor: usize,
    ptr: &[I],
    idx: &[I],
    val: &[T],
    nnz: usize,
    len: Len,
) -> Result<(), String> {
    let e = |s: String| Err(format!("{}: {}", what, s));
    if ptr.len() != major + 1 {
        return e(format!("pointer array has {} elements for {} lines", ptr.len(), major));
    }
    if ptr[0] != I::zero() {
        return e(format!("pointer array starts at {}", ptr[0]));
    }
    for k in 0..major {
        if ptr[k] > ptr[k + 1] {
            return e(format!("pointer decreases after line {}: {} > {}", k, ptr[k], ptr[k + 1]));
        }
    }
    if ptr[major].us() != nnz {
        return e(format!("pointer ends at {} with {} entries stored", ptr[major], nnz));
    }
    let ok = |l: usize| if len == Len::Exact { l == nnz } else { l >= nnz };
    if !ok(idx.len()) || !ok(val.len()) {
        return e(format!("{} indices and {} values for {} entries", idx.len(), val.len(), nnz));
    }
    for k in 0..nnz {
        if idx[k] < I::zero() || idx[k].to_usize().map_or(true, |j| j >= minor) {
            return e(format!("index {} outside 0..{}", idx[k], minor));
        }
    }
    Ok(())
}

/// Each position at most once within a line, and no stored zero.
pub fn check_compact<I: Ix, T: Scalar>(what: &str, ptr: &[I], idx: &[I], val: &[T], minor: usize) -> Result<(), String> {
    let mut seen = vec![usize::MAX; minor];
    for r in 0..ptr.len() - 1 {
        for k in ptr[r].us()..ptr[r + 1].us() {
            let j = idx[k].us();
            if seen[j] == r {
                return Err(format!("{}: position {} stored twice in line {}", what, j, r));
            }
            seen[j] = r;
            if val[k] == T::zero() {
                return Err(format!("{}: zero stored at {} in line {}", what, j, r));
            }
        }
    }
    Ok(())
}

pub fn read_csr<I: Ix, T: Scalar + Debug>(what: &str, a: &CSR<I, T>, len: Len) -> Result<Model<T>, String> {
    check_compressed(what, a.rows(), a.cols(), a.rowptr(), a.colidx(), a.values(), a.nnz(), len)?;
    let mut m = Model::new(a.rows(), a.cols());
    for i in 0..a.rows() {
        for k in a.rowptr()[i].us()..a.rowptr()[i + 1].us() {
            m.add(i, a.colidx()[k].us(), a.values()[k]);
        }
    }
    Ok(m)
}

pub fn read_csc<I: Ix, T: Scalar + Debug>(what: &str, a: &CSC<I, T>, len: Len) -> Result<Model<T>, String> {
    check_compressed(what, a.cols(), a.rows(), a.colptr(), a.rowidx(), a.values(), a.nnz(), len)?;
    let mut m = Model::new(a.rows(), a.cols());
    for j in 0..a.cols() {
        for k in a.colptr()[j].us()..a.colptr()[j + 1].us() {
            m.add(a.rowidx()[k].us(), j, a.values()[k]);
        }
    }
    Ok(m)
}

pub fn read_coo<I: Ix, T: Scalar + Debug>(what: &str, a: &Coo<I, T>) -> Result<Model<T>, String> {
    let n = a.nnz();
    if a.rowidx().len() != n || a.colidx().len() != n || a.values().len() != n {
        return Err(format!("{}: {} rows, {} columns, {} values for {} entries", what, a.rowidx().len(), a.colidx().len(), a.values().len(), n));
    }
    let mut m = Model::new(a.rows(), a.cols());
    for k in 0..n {
        let (i, j) = (a.rowidx()[k], a.colidx()[k]);
        if i < I::zero() || j < I::zero() || i.to_usize().map_or(true, |i| i >= a.rows()) || j.to_usize().map_or(true, |j| j >= a.cols()) {
            return Err(format!("{}: entry ({}, {}) outside {}x{}", what, i, j, a.rows(), a.cols()));
        }
        m.add(i.us(), j.us(), a.values()[k]);
    }
    Ok(m)
}

/// Snapshots of the raw arrays, to see that an operand was left as it was.
#[derive(PartialEq, Clone)]
pub struct Snap<I, T> {
    pub rows: usize,
    pub cols: usize,
    pub a: Vec<I>,
    pub b: Vec<I>,
    pub x: Vec<T>,
}
pub fn snap_csr<I: Ix, T: Scalar>(m: &CSR<I, T>) -> Snap<I, T> {
    Snap { rows: m.rows(), cols: m.cols(), a: m.rowptr().to_vec(), b: m.colidx().to_vec(), x: m.values().to_vec() }
}
pub fn snap_csc<I: Ix, T: Scalar>(m: &CSC<I, T>) -> Snap<I, T> {
    Snap { rows: m.rows(), cols: m.cols(), a: m.colptr().to_vec(), b: m.rowidx().to_vec(), x: m.values().to_vec() }
}
pub fn snap_coo<I: Ix, T: Scalar>(m: &Coo<I, T>) -> Snap<I, T> {
    Snap { rows: m.rows(), cols: m.cols(), a: m.rowidx().to_vec(), b: m.colidx().to_vec(), x: m.values().to_vec() }
}
pub fn clone_csc<I: Ix, T: Scalar>(m: &CSC<I, T>) -> CSC<I, T> {
    CSC::new(m.rows(), m.cols(), m.rowidx().to_vec(), m.colptr().to_vec(), m.values().to_vec()).unwrap()
}

/// A sorted list of stored entries with their bits, to compare as a multiset.
pub type List = Vec<(usize, usize, u128)>;

pub fn list_csr<I: Ix, T: Val>(what: &str, a: &CSR<I, T>, len: Len) -> Result<List, String> {
    check_compressed(what, a.rows(), a.cols(), a.rowptr(), a.colidx(), a.values(), a.nnz(), len)?;
    let mut l = Vec::with_capacity(a.nnz());
    for i in 0..a.rows() {
        for k in a.rowptr()[i].us()..a.rowptr()[i + 1].us() {
            l.push((i, a.colidx()[k].us(), a.values()[k].bits()));
        }
    }
    l.sort_unstable();
    Ok(l)
}
pub fn list_csc<I: Ix, T: Val>(what: &str, a: &CSC<I, T>, len: Len) -> Result<List, String> {
    check_compressed(what, a.cols(), a.rows(), a.colptr(), a.rowidx(), a.values(), a.nnz(), len)?;
    let mut l = Vec::with_capacity(a.nnz());
    for j in 0..a.cols() {
        for k in a.colptr()[j].us()..a.colptr()[j + 1].us() {
            l.push((a.rowidx()[k].us(), j, a.values()[k].bits()));
        }
    }
    l.sort_unstable();
    Ok(l)
}
pub fn list_coo<I: Ix, T: Val>(what: &str, a: &Coo<I, T>) -> Result<List, String> {
    read_coo(what, a)?;
    let mut l: List = (0..a.nnz()).map(|k| (a.rowidx()[k].us(), a.colidx()[k].us(), a.values()[k].bits())).collect();
    l.sort_unstable();
    Ok(l)
}
/// First difference between two sorted lists of entries.
pub fn list_diff(want: &List, got: &List) -> Option<String> {
    if want == got {
        return None;
    }
    let (mut a, mut b) = (0, 0);
    while a < want.len() && b < got.len() && want[a] == got[b] {
        a += 1;
        b += 1;
    }
    Some(format!("stored entries differ: expected {:?}, found {:?} ({} expected, {} found)", want.get(a), got.get(b), want.len(), got.len()))
}
pub fn flip(l: &List) -> List {
    let mut l: List = l.iter().map(|e| (e.1, e.0, e.2)).collect();
    l.sort_unstable();
    l
}
