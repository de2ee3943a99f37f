//! Shared parts of the runtime monitors for rwl/sparsetools.
pub mod count;
pub mod gen;
pub mod graphs;
pub mod memory;
pub mod model;
pub mod rng;
pub mod run;
pub mod val;
pub mod wf;

pub use gen::*;
pub use model::Model;
pub use num_complex::{Complex32, Complex64};
pub use rng::Rng;
pub use run::{caught, run, run_far, run_scaled, Cx, Family};
pub use val::{plain, Fp, Ix, SVal, Val};
pub use wf::*;

pub use sparsetools::coo::Coo;
pub use sparsetools::csc::CSC;
pub use sparsetools::csr::CSR;
pub use sparsetools::dok::DoK;

/// Case functions that pick the types from the case number.
#[macro_export]
macro_rules! cases {
    ($name:ident = any $f:ident) => {
        fn $name(cx: &mut Cx, r: &mut Rng, i: u64) {
            dispatch_any!(i as usize, $f(cx, r, false))
        }
    };
    ($name:ident = signed $f:ident) => {
        fn $name(cx: &mut Cx, r: &mut Rng, i: u64) {
            dispatch_signed!(i as usize, $f(cx, r, false))
        }
    };
    ($name:ident = index $f:ident) => {
        fn $name(cx: &mut Cx, r: &mut Rng, i: u64) {
            dispatch_index!(i as usize, $f(cx, r, false))
        }
    };
    ($name:ident = far $f:ident) => {
        fn $name(cx: &mut Cx, r: &mut Rng, i: u64) {
            dispatch_far!(i as usize, $f(cx, r))
        }
    };
    ($name:ident = big $f:ident) => {
        fn $name(cx: &mut Cx, r: &mut Rng, i: u64) {
            match i % 3 {
                0 => $f::<usize, Fp>(cx, r, true),
                1 => $f::<u32, f64>(cx, r, true),
                _ => $f::<i32, Fp>(cx, r, true),
            }
        }
    };
}

/// A dimension for which nothing may be allocated.
pub const FAR: usize = 1 << 24;

/// A short description of a generated matrix.
pub fn brief<I: Ix, T: Val>(a: &Raw<T>) -> String {
    let mut s = format!("{}x{} {} stored, index {} value {}:", a.major, a.minor, a.nnz(), I::NAME, T::NAME);
    for i in 0..a.major {
        for k in a.ptr[i]..a.ptr[i + 1] {
            if s.len() > 4000 {
                return s + " ...";
            }
            s += &format!(" ({},{})={:?}", i, a.idx[k], a.val[k]);
        }
    }
    s
}
