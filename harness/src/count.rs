//! Index and scalar types that count what is done with them.
use num_traits::*;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
}
#[inline]
fn tick() {
    let n = STEPS.with(|s| {
        let n = s.get() + 1;
        s.set(n);
        n
    });
    if n > LIMIT.with(|l| l.get()) {
        LIMIT.with(|l| l.set(u64::MAX));
        panic!("step limit reached");
    }
}
/// Runs a call with a limit on the steps; returns its result and the steps taken.
pub fn counted<R>(limit: u64, f: impl FnOnce() -> R) -> (Result<R, String>, u64) {
    STEPS.with(|s| s.set(0));
    LIMIT.with(|l| l.set(limit));
    let r = crate::run::caught(f);
    LIMIT.with(|l| l.set(u64::MAX));
    (r, STEPS.with(|s| s.get()))
}

/// An index.
#[derive(Debug)]
pub struct Ci(pub i64);
/// A scalar, exact modulo 2^61-1.
#[derive(Debug)]
pub struct Cv(pub crate::Fp);

impl Copy for Ci {}
impl Copy for Cv {}
#[allow(clippy::non_canonical_clone_impl)]
impl Clone for Ci {
    fn clone(&self) -> Self {
        tick();
        Ci(self.0)
    }
}
#[allow(clippy::non_canonical_clone_impl)]
impl Clone for Cv {
    fn clone(&self) -> Self {
        tick();
        Cv(self.0)
    }
}
impl fmt::Display for Ci {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick();
        self.0.fmt(f)
    }
}
impl fmt::Display for Cv {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        tick();
        fmt::Display::fmt(&self.0, f)
    }
}
impl PartialEq for Ci {
    fn eq(&self, o: &Ci) -> bool {
        tick();
        self.0 == o.0
    }
}
impl Eq for Ci {}
impl PartialOrd for Ci {
    fn partial_cmp(&self, o: &Ci) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ci {
    fn cmp(&self, o: &Ci) -> Ordering {
        tick();
        self.0.cmp(&o.0)
    }
}
impl std::hash::Hash for Ci {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        tick();
        self.0.hash(h)
    }
}
macro_rules! bin {
    ($($t:ident $m:ident),*) => { $( impl $t for Ci { type Output = Ci; fn $m(self, o: Ci) -> Ci { tick(); Ci($t::$m(self.0, o.0)) } } )* };
}
bin!(Add add, Sub sub, Mul mul, Div div, Rem rem, BitAnd bitand, BitOr bitor, BitXor bitxor);
macro_rules! asg {
    ($ty:ident: $($t:ident $m:ident $o:tt),*) => { $( impl $t for $ty { fn $m(&mut self, o: $ty) { *self = *self $o o; } } )* };
}
asg!(Ci: AddAssign add_assign +, SubAssign sub_assign -);
impl Not for Ci {
    type Output = Ci;
    fn not(self) -> Ci {
        Ci(!self.0)
    }
}
impl Neg for Ci {
    type Output = Ci;
    fn neg(self) -> Ci {
        tick();
        Ci(-self.0)
    }
}
impl Shl<usize> for Ci {
    type Output = Ci;
    fn shl(self, n: usize) -> Ci {
        Ci(self.0 << n)
    }
}
impl Shr<usize> for Ci {
    type Output = Ci;
    fn shr(self, n: usize) -> Ci {
        Ci(self.0 >> n)
    }
}
impl Zero for Ci {
    fn zero() -> Ci {
        Ci(0)
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 == 0
    }
}
impl One for Ci {
    fn one() -> Ci {
        Ci(1)
    }
}
impl Num for Ci {
    type FromStrRadixErr = std::num::ParseIntError;
    fn from_str_radix(s: &str, r: u32) -> Result<Ci, std::num::ParseIntError> {
        i64::from_str_radix(s, r).map(Ci)
    }
}
impl Signed for Ci {
    fn abs(&self) -> Ci {
        Ci(self.0.abs())
    }
    fn abs_sub(&self, o: &Ci) -> Ci {
        Ci((self.0 - o.0).max(0))
    }
    fn signum(&self) -> Ci {
        Ci(self.0.signum())
    }
    fn is_positive(&self) -> bool {
        self.0 > 0
    }
    fn is_negative(&self) -> bool {
        self.0 < 0
    }
}
impl Bounded for Ci {
    fn min_value() -> Ci {
        Ci(i64::MIN)
    }
    fn max_value() -> Ci {
        Ci(i64::MAX)
    }
}
impl ToPrimitive for Ci {
    fn to_i64(&self) -> Option<i64> {
        tick();
        Some(self.0)
    }
    fn to_u64(&self) -> Option<u64> {
        tick();
        self.0.to_u64()
    }
}
impl NumCast for Ci {
    fn from<T: ToPrimitive>(n: T) -> Option<Ci> {
        tick();
        n.to_i64().map(Ci)
    }
}
impl FromPrimitive for Ci {
    fn from_i64(n: i64) -> Option<Ci> {
        tick();
        Some(Ci(n))
    }
    fn from_u64(n: u64) -> Option<Ci> {
        tick();
        n.to_i64().map(Ci)
    }
}
macro_rules! chk {
    ($($t:ident $m:ident),*) => { $( impl $t for Ci { fn $m(&self, o: &Ci) -> Option<Ci> { tick(); self.0.$m(o.0).map(Ci) } } )* };
}
chk!(CheckedAdd checked_add, CheckedSub checked_sub, CheckedMul checked_mul, CheckedDiv checked_div);
impl Saturating for Ci {
    fn saturating_add(self, o: Ci) -> Ci {
        tick();
        Ci(self.0.saturating_add(o.0))
    }
    fn saturating_sub(self, o: Ci) -> Ci {
        tick();
        Ci(self.0.saturating_sub(o.0))
    }
}
impl PrimInt for Ci {
    fn count_ones(self) -> u32 {
        self.0.count_ones()
    }
    fn count_zeros(self) -> u32 {
        self.0.count_zeros()
    }
    fn leading_zeros(self) -> u32 {
        self.0.leading_zeros()
    }
    fn trailing_zeros(self) -> u32 {
        self.0.trailing_zeros()
    }
    fn rotate_left(self, n: u32) -> Ci {
        Ci(self.0.rotate_left(n))
    }
    fn rotate_right(self, n: u32) -> Ci {
        Ci(self.0.rotate_right(n))
    }
    fn signed_shl(self, n: u32) -> Ci {
        Ci(self.0 << n)
    }
    fn signed_shr(self, n: u32) -> Ci {
        Ci(self.0 >> n)
    }
    fn unsigned_shl(self, n: u32) -> Ci {
        Ci(((self.0 as u64) << n) as i64)
    }
    fn unsigned_shr(self, n: u32) -> Ci {
        Ci(((self.0 as u64) >> n) as i64)
    }
    fn swap_bytes(self) -> Ci {
        Ci(self.0.swap_bytes())
    }
    fn from_be(x: Ci) -> Ci {
        Ci(i64::from_be(x.0))
    }
    fn from_le(x: Ci) -> Ci {
        Ci(i64::from_le(x.0))
    }
    fn to_be(self) -> Ci {
        Ci(self.0.to_be())
    }
    fn to_le(self) -> Ci {
        Ci(self.0.to_le())
    }
    fn pow(self, e: u32) -> Ci {
        tick();
        Ci(self.0.pow(e))
    }
}
impl sparsetools::Integer for Ci {}

impl PartialEq for Cv {
    fn eq(&self, o: &Cv) -> bool {
        tick();
        self.0 == o.0
    }
}
impl PartialOrd for Cv {
    fn partial_cmp(&self, o: &Cv) -> Option<Ordering> {
        tick();
        self.0.partial_cmp(&o.0)
    }
}
impl Default for Cv {
    fn default() -> Cv {
        Cv(crate::Fp(0))
    }
}
macro_rules! vbin {
    ($($t:ident $m:ident),*) => { $( impl $t for Cv { type Output = Cv; fn $m(self, o: Cv) -> Cv { tick(); Cv($t::$m(self.0, o.0)) } } )* };
}
vbin!(Add add, Sub sub, Mul mul, Div div);
asg!(Cv: AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *);
impl Neg for Cv {
    type Output = Cv;
    fn neg(self) -> Cv {
        tick();
        Cv(-self.0)
    }
}
impl Zero for Cv {
    fn zero() -> Cv {
        Cv(crate::Fp(0))
    }
    fn is_zero(&self) -> bool {
        tick();
        self.0 .0 == 0
    }
}
impl One for Cv {
    fn one() -> Cv {
        Cv(crate::Fp(1))
    }
}
impl sparsetools::Nonzero for Cv {}
impl sparsetools::Scalar for Cv {}

#[repr(C)]
struct Timespec {
    s: i64,
    ns: i64,
}
extern "C" {
    fn clock_gettime(clock: i32, t: *mut Timespec) -> i32;
}
/// Processor time of this thread, in seconds.
pub fn cpu() -> f64 {
    let mut t = Timespec { s: 0, ns: 0 };
    // SAFETY: clock 3 is CLOCK_THREAD_CPUTIME_ID, and the record has the layout the call expects.
    unsafe { clock_gettime(3, &mut t) };
    t.s as f64 + t.ns as f64 * 1e-9
}
