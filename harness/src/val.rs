//! Scalars and index types used by the monitors.
//!
//! `Fp` is the field of integers modulo 2^61-1: arithmetic is exact, independent of the order of
//! summation, and random values make every stored entry identifiable in the results.
use crate::rng::Rng;
use num_complex::{Complex32, Complex64};
use num_traits::{One, Zero};
use sparsetools::{Integer, Nonzero, Scalar};
use std::fmt;
use std::hash::Hash;
use std::ops::*;

pub const P: u64 = (1 << 61) - 1;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
pub struct Fp(pub u64);

impl fmt::Display for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl fmt::Debug for Fp {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
/// While set, arithmetic now and then gives way to other threads, in the middle of whatever it is part of.
pub static JITTER: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
thread_local! {
    static TURN: std::cell::Cell<u32> = const { std::cell::Cell::new(1) };
}
#[inline]
fn jitter() {
    if JITTER.load(std::sync::atomic::Ordering::Relaxed) {
        give_way()
    }
}
#[cold]
fn give_way() {
    TURN.with(|t| {
        let x = t.get().wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        t.set(x);
        match (x >> 16) % 256 {
            0..=2 => std::thread::yield_now(),
            3 if x >> 28 == 0 => std::thread::sleep(std::time::Duration::from_micros(30)),
            _ => {}
        }
    })
}
/// Makes the places where this thread gives way differ from those of other threads.
pub fn jitter_seed(s: u32) {
    TURN.with(|t| t.set(s))
}
fn addp(a: u64, b: u64) -> u64 {
    jitter();
    let s = a + b;
    if s >= P {
        s - P
    } else {
        s
    }
}
fn mulp(a: u64, b: u64) -> u64 {
    jitter();
    ((a as u128 * b as u128) % P as u128) as u64
}
pub fn powp(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mulp(r, a);
        }
        a = mulp(a, a);
        e >>= 1;
    }
    r
}
impl Add for Fp {
    type Output = Fp;
    fn add(self, o: Fp) -> Fp {
        Fp(addp(self.0, o.0))
    }
}
impl Sub for Fp {
    type Output = Fp;
    fn sub(self, o: Fp) -> Fp {
        Fp(addp(self.0, if o.0 == 0 { 0 } else { P - o.0 }))
    }
}
impl Mul for Fp {
    type Output = Fp;
    fn mul(self, o: Fp) -> Fp {
        Fp(mulp(self.0, o.0))
    }
}
impl Div for Fp {
    type Output = Fp;
    /// Division by zero yields a fixed function of the numerator so that it stays observable.
    fn div(self, o: Fp) -> Fp {
        if o.0 == 0 {
            Fp(addp(mulp(self.0, 3), 17))
        } else {
            Fp(mulp(self.0, powp(o.0, P - 2)))
        }
    }
}
impl Neg for Fp {
    type Output = Fp;
    fn neg(self) -> Fp {
        Fp(0) - self
    }
}
impl AddAssign for Fp {
    fn add_assign(&mut self, o: Fp) {
        *self = *self + o
    }
}
impl SubAssign for Fp {
    fn sub_assign(&mut self, o: Fp) {
        *self = *self - o
    }
}
impl MulAssign for Fp {
    fn mul_assign(&mut self, o: Fp) {
        *self = *self * o
    }
}
impl Zero for Fp {
    fn zero() -> Fp {
        Fp(0)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
}
impl One for Fp {
    fn one() -> Fp {
        Fp(1)
    }
}
impl Nonzero for Fp {}
impl Scalar for Fp {}

/// A scalar the monitors can generate and compare exactly.
pub trait Val: Scalar + fmt::Debug + Default + 'static {
    /// Largest number of terms of generated values that may be summed without leaving the exact range.
    const TERMS: usize;
    /// Largest number of products of two generated values that may be summed.
    const PRODS: usize;
    const NAME: &'static str;
    /// A non-zero value.
    fn gen(r: &mut Rng) -> Self;
    /// The additive inverse, if it exists in the type.
    fn opp(self) -> Option<Self>;
    /// The representation, to compare bit for bit.
    fn bits(&self) -> u128;
    /// Any value of the type, such as a NaN with a payload, an infinity or a negative zero.
    fn special(r: &mut Rng) -> Self {
        Self::gen(r)
    }
    /// A non-zero value that stands for the whole width of the type: the sum and difference of two of
    /// them stay within it (for floating point: are finite or infinite, and exact as single operations).
    fn extreme(r: &mut Rng) -> Self {
        Self::gen(r)
    }
    /// Whether any two values may be multiplied.
    const FLOATS: bool = false;
    /// The power of two that generated values are multiplied by.
    fn unit() -> Self {
        Self::one()
    }
    fn same_bits(&self, o: &Self) -> bool {
        self.bits() == o.bits()
    }
}
/// Scalars with subtraction that never underflows on generated values.
pub trait SVal: Val + Neg<Output = Self> {}

impl Val for Fp {
    const TERMS: usize = usize::MAX;
    const PRODS: usize = usize::MAX;
    const NAME: &'static str = "Fp";
    fn gen(r: &mut Rng) -> Self {
        Fp(r.next() % (P - 1) + 1)
    }
    fn opp(self) -> Option<Self> {
        Some(-self)
    }
    fn bits(&self) -> u128 {
        self.0 as u128
    }
}
impl SVal for Fp {}

thread_local! {
    static SCALE: std::cell::Cell<i32> = const { std::cell::Cell::new(0) };
}
/// Multiplies the floating-point values generated from here on by a power of two, so that sums of them
/// stay exact: 0 none; 1 to 4 very small, small, large, very large, where single products stay exact too;
/// 5 to 8 the same further out, down to subnormal numbers, where a square vanishes or overflows.
pub fn set_scale(k: i32) {
    SCALE.with(|s| s.set(k))
}
/// A value without the scale: its product with any generated value is exact.
pub fn plain<T: Val>(r: &mut Rng) -> T {
    let k = SCALE.with(|s| s.replace(0));
    let v = T::gen(r);
    set_scale(k);
    v
}
fn scale(f: [i32; 8]) -> f64 {
    match SCALE.with(|s| s.get()) {
        0 => 1.0,
        k => {
            let e = f[k as usize - 1];
            2f64.powi(e / 2) * 2f64.powi(e - e / 2)
        }
    }
}
const S64: [i32; 8] = [-400, -60, 60, 400, -1070, -600, 600, 960];
const S32: [i32; 8] = [-50, -12, 12, 50, -145, -80, 70, 90];

macro_rules! fval {
    ($t:ty, $b:ty, $m:expr, $terms:expr, $prods:expr, $s:expr) => {
        impl Val for $t {
            const TERMS: usize = $terms;
            const PRODS: usize = $prods;
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng) -> Self {
                let v = r.range(1, $m) as $t * scale($s) as $t;
                if r.chance(1, 2) {
                    -v
                } else {
                    v
                }
            }
            fn opp(self) -> Option<Self> {
                Some(-self)
            }
            fn bits(&self) -> u128 {
                self.to_bits() as u128
            }
            fn unit() -> Self {
                scale($s) as $t
            }
            const FLOATS: bool = true;
            fn extreme(r: &mut Rng) -> Self {
                let small = <$t>::MIN_POSITIVE;
                let v = match r.below(10) {
                    0 | 1 => <$t>::from_bits(r.range(1, 5) as _),
                    2 => small,
                    3 => small * 0.5,
                    4 => small.sqrt() * r.range(1, 9) as $t / 16.0,
                    5 => <$t>::EPSILON,
                    6 => <$t>::MAX,
                    7 => <$t>::MAX / r.range(2, 5) as $t,
                    8 => <$t>::MAX.sqrt() * r.range(2, 9) as $t,
                    _ => r.range(1, 9) as $t,
                };
                if r.chance(1, 2) {
                    -v
                } else {
                    v
                }
            }
            fn special(r: &mut Rng) -> Self {
                match r.below(9) {
                    0 => <$t>::from_bits(<$t>::NAN.to_bits() | (r.next() as u16 as $b)),
                    1 => -<$t>::from_bits(<$t>::NAN.to_bits() | (r.next() as u16 as $b)),
                    2 => <$t>::INFINITY,
                    3 => <$t>::NEG_INFINITY,
                    4 => -0.0,
                    5 => 0.0,
                    6 => <$t>::from_bits(r.next() as u16 as $b),
                    7 => <$t>::MAX,
                    _ => Self::gen(r),
                }
            }
        }
        impl SVal for $t {}
    };
}
fval!(f64, u64, 9999, 1 << 30, 1 << 20, S64);
fval!(f32, u32, 60, 200_000, 2000, S32);

macro_rules! cval {
    ($t:ty, $f:ty, $m:expr, $terms:expr, $prods:expr, $n:expr, $s:expr) => {
        impl Val for $t {
            const TERMS: usize = $terms;
            const PRODS: usize = $prods;
            const NAME: &'static str = $n;
            fn gen(r: &mut Rng) -> Self {
                let s = |r: &mut Rng| {
                    let v = r.range(1, $m) as $f * scale($s) as $f;
                    if r.chance(1, 2) {
                        -v
                    } else {
                        v
                    }
                };
                match r.below(6) {
                    0 => <$t>::new(s(r), 0.0),
                    1 => <$t>::new(0.0, s(r)),
                    _ => <$t>::new(s(r), s(r)),
                }
            }
            fn opp(self) -> Option<Self> {
                Some(-self)
            }
            fn bits(&self) -> u128 {
                (self.re.to_bits() as u128) << 64 | self.im.to_bits() as u128
            }
            fn unit() -> Self {
                <$t>::new(scale($s) as $f, 0.0)
            }
            const FLOATS: bool = true;
            fn extreme(r: &mut Rng) -> Self {
                match r.below(4) {
                    0 => <$t>::new(<$f>::extreme(r), 0.0),
                    1 => <$t>::new(0.0, <$f>::extreme(r)),
                    _ => <$t>::new(<$f>::extreme(r), <$f>::extreme(r)),
                }
            }
            fn special(r: &mut Rng) -> Self {
                <$t>::new(<$f>::special(r), <$f>::special(r))
            }
        }
        impl SVal for $t {}
    };
}
cval!(Complex64, f64, 999, 1 << 30, 1 << 20, "Complex64", S64);
cval!(Complex32, f32, 40, 200_000, 2000, "Complex32", S32);

macro_rules! ival {
    ($t:ty, $m:expr, $terms:expr, $prods:expr) => {
        impl Val for $t {
            const TERMS: usize = $terms;
            const PRODS: usize = $prods;
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng) -> Self {
                let v = r.range(1, $m) as $t;
                if r.chance(1, 2) {
                    -v
                } else {
                    v
                }
            }
            fn opp(self) -> Option<Self> {
                Some(-self)
            }
            fn bits(&self) -> u128 {
                *self as u128
            }
            fn extreme(r: &mut Rng) -> Self {
                let half = <$t>::MAX / 2;
                let any = (r.next() as u128 | (r.next() as u128) << 64) as $t & half;
                let v: $t = match r.below(5) {
                    0 => half,
                    1 | 2 => (half / 2 + 1) >> r.below(<$t>::BITS as usize - 3),
                    // Nothing in the low half.
                    3 => any & !((1 << (<$t>::BITS / 2)) - 1),
                    _ => any,
                };
                let v = v.max(1);
                if r.chance(1, 2) {
                    -v
                } else {
                    v
                }
            }
        }
        impl SVal for $t {}
    };
}
ival!(i64, 99_999, 1 << 30, 1 << 20);
ival!(isize, 99_999, 1 << 30, 1 << 20);
ival!(i128, 9_999_999, 1 << 30, 1 << 20);
ival!(i32, 90, 1 << 20, 1 << 16);
ival!(i16, 9, 3000, 300);
ival!(i8, 3, 40, 12);

macro_rules! uval {
    ($t:ty, $m:expr, $terms:expr, $prods:expr) => {
        impl Val for $t {
            const TERMS: usize = $terms;
            const PRODS: usize = $prods;
            const NAME: &'static str = stringify!($t);
            fn gen(r: &mut Rng) -> Self {
                r.range(1, $m) as $t
            }
            fn opp(self) -> Option<Self> {
                None
            }
            fn bits(&self) -> u128 {
                *self as u128
            }
            fn extreme(r: &mut Rng) -> Self {
                let half = <$t>::MAX / 2;
                let any = (r.next() as u128 | (r.next() as u128) << 64) as $t & half;
                let v: $t = match r.below(5) {
                    0 => half,
                    1 | 2 => (half / 2 + 1) >> r.below(<$t>::BITS as usize - 3),
                    // Nothing in the low half.
                    3 => any & !((1 << (<$t>::BITS / 2)) - 1),
                    _ => any,
                };
                let v = v.max(1);
                v
            }
        }
    };
}
uval!(usize, 99_999, 1 << 30, 1 << 20);
uval!(u64, 99_999, 1 << 30, 1 << 20);
uval!(u128, 9_999_999, 1 << 30, 1 << 20);
uval!(u32, 90, 1 << 20, 1 << 16);
uval!(u16, 9, 6000, 600);
uval!(u8, 3, 80, 25);

/// An index type.
pub trait Ix: Integer + Hash + 'static {
    const NAME: &'static str;
    const MAX: usize;
    fn ix(n: usize) -> Self;
    fn us(self) -> usize;
}
macro_rules! ix {
    ($($t:ty),*) => { $(
        impl Ix for $t {
            const NAME: &'static str = stringify!($t);
            const MAX: usize = {
                let m = <$t>::MAX as u128;
                if m > (isize::MAX as u128) { isize::MAX as usize } else { m as usize }
            };
            fn ix(n: usize) -> Self {
                let v = n as $t;
                assert!(v as usize == n && v >= 0 as $t, "harness: index {} does not fit {}", n, stringify!($t));
                v
            }
            fn us(self) -> usize {
                self as usize
            }
        }
    )* };
}
ix!(usize, u8, u16, u32, u64, u128, isize, i8, i16, i32, i64, i128);

/// Calls `$f::<I, T>(args)` for the k-th of the type combinations whose scalar has a negation.
#[macro_export]
macro_rules! dispatch_signed {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % $crate::val::N_SIGNED {
            0 | 1 => $f::<usize, $crate::val::Fp>($($a),*),
            2 => $f::<u8, $crate::val::Fp>($($a),*),
            3 => $f::<i8, $crate::val::Fp>($($a),*),
            4 => $f::<u16, $crate::val::Fp>($($a),*),
            5 => $f::<i32, $crate::val::Fp>($($a),*),
            6 => $f::<usize, f64>($($a),*),
            7 => $f::<u32, $crate::Complex64>($($a),*),
            8 => $f::<isize, f32>($($a),*),
            9 => $f::<u64, i32>($($a),*),
            _ => $f::<i64, i128>($($a),*),
        }
    };
}
pub const N_SIGNED: usize = 11;

/// The same for any scalar, including unsigned ones.
#[macro_export]
macro_rules! dispatch_any {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % $crate::val::N_ANY {
            k @ 0..=10 => $crate::dispatch_signed!(k, $f($($a),*)),
            11 => $f::<usize, usize>($($a),*),
            _ => $f::<i16, u8>($($a),*),
        }
    };
}
pub const N_ANY: usize = 13;

/// Every index type with the exact field.
#[macro_export]
macro_rules! dispatch_index {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % $crate::val::N_INDEX {
            0 => $f::<usize, $crate::val::Fp>($($a),*),
            1 => $f::<u8, $crate::val::Fp>($($a),*),
            2 => $f::<u16, $crate::val::Fp>($($a),*),
            3 => $f::<u32, $crate::val::Fp>($($a),*),
            4 => $f::<u64, $crate::val::Fp>($($a),*),
            5 => $f::<u128, $crate::val::Fp>($($a),*),
            6 => $f::<isize, $crate::val::Fp>($($a),*),
            7 => $f::<i8, $crate::val::Fp>($($a),*),
            8 => $f::<i16, $crate::val::Fp>($($a),*),
            9 => $f::<i32, $crate::val::Fp>($($a),*),
            10 => $f::<i64, $crate::val::Fp>($($a),*),
            _ => $f::<i128, $crate::val::Fp>($($a),*),
        }
    };
}
pub const N_INDEX: usize = 12;

/// Index types that reach beyond two to the thirty-first.
#[macro_export]
macro_rules! dispatch_far {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 9 {
            0 => $f::<usize, $crate::val::Fp>($($a),*),
            1 => $f::<u64, f64>($($a),*),
            2 => $f::<i64, i32>($($a),*),
            3 => $f::<u32, $crate::val::Fp>($($a),*),
            4 => $f::<i128, i64>($($a),*),
            5 => $f::<isize, $crate::Complex64>($($a),*),
            6 => $f::<u128, $crate::val::Fp>($($a),*),
            7 => $f::<i32, f32>($($a),*),
            _ => $f::<usize, f64>($($a),*),
        }
    };
}

/// Calls `$f::<I, T>(args)` for every scalar type of the crate.
#[macro_export]
macro_rules! dispatch_scalars {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 16 {
            10 => $f::<u16, usize>($($a),*),
            11 => $f::<usize, u8>($($a),*),
            12 => $f::<i32, u16>($($a),*),
            13 => $f::<usize, u32>($($a),*),
            14 => $f::<i64, u64>($($a),*),
            15 => $f::<u8, u128>($($a),*),
            k => $crate::dispatch_signed_scalars!(k, $f($($a),*)),
        }
    };
}
/// The same for those with a negation.
#[macro_export]
macro_rules! dispatch_signed_scalars {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 10 {
            0 => $f::<usize, f64>($($a),*),
            1 => $f::<u32, f32>($($a),*),
            2 => $f::<usize, $crate::Complex64>($($a),*),
            3 => $f::<i16, $crate::Complex32>($($a),*),
            4 => $f::<usize, isize>($($a),*),
            5 => $f::<i8, i8>($($a),*),
            6 => $f::<usize, i16>($($a),*),
            7 => $f::<u16, i32>($($a),*),
            8 => $f::<usize, i64>($($a),*),
            _ => $f::<u64, i128>($($a),*),
        }
    };
}
/// The same for those with an order.
#[macro_export]
macro_rules! dispatch_ordered_scalars {
    ($k:expr, $f:ident ( $($a:expr),* )) => {
        match $k % 14 {
            0 => $f::<usize, f64>($($a),*),
            1 => $f::<u32, f32>($($a),*),
            2 => $f::<usize, isize>($($a),*),
            3 => $f::<i8, i8>($($a),*),
            4 => $f::<usize, i16>($($a),*),
            5 => $f::<u16, i32>($($a),*),
            6 => $f::<usize, i64>($($a),*),
            7 => $f::<u64, i128>($($a),*),
            8 => $f::<u16, usize>($($a),*),
            9 => $f::<usize, u8>($($a),*),
            10 => $f::<i32, u16>($($a),*),
            11 => $f::<usize, u32>($($a),*),
            12 => $f::<i64, u64>($($a),*),
            _ => $f::<u8, u128>($($a),*),
        }
    };
}
