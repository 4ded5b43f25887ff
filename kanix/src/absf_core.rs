// Included by absf.rs (arbitrary choices) and absd.rs (fixed choices).
use num_traits::{Bounded, Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

#[derive(Clone, Copy)]
#[repr(transparent)]
pub struct H(pub u8);
pub const ZERO: u8 = 0; // +0.0 or -0.0
pub const POS: u8 = 1; // finite, > 0
pub const NEG: u8 = 2; // finite, < 0
pub const PINF: u8 = 3;
pub const NINF: u8 = 4;
pub const NAN: u8 = 5; // every code above NINF means NaN

/// any finite number
pub fn any_fin() -> H {
    H(anyc(3))
}
/// anything at all
pub fn any_h() -> H {
    H(anyc(6))
}
/// positive result of unknown size: may underflow or overflow
fn posish() -> H {
    let c = anyc(3);
    H(if c == 0 { ZERO } else if c == 1 { POS } else { PINF })
}
impl H {
    pub fn fin(self) -> bool {
        self.0 < PINF
    }
    fn is_inf(self) -> bool {
        self.0 == PINF || self.0 == NINF
    }
    fn neg_sign(self) -> bool {
        self.0 == NEG || self.0 == NINF
    }
    /// position on the real line: -2 (-inf) .. 2 (+inf)
    fn rank(self) -> i8 {
        match self.0 {
            NINF => -2,
            NEG => -1,
            ZERO => 0,
            POS => 1,
            _ => 2,
        }
    }
}
impl Add for H {
    type Output = H;
    fn add(self, o: H) -> H {
        let (a, b) = (self.0, o.0);
        if a > NINF || b > NINF {
            H(NAN)
        } else if a >= PINF {
            if b >= PINF && a != b { H(NAN) } else { self }
        } else if b >= PINF {
            o
        } else if a == ZERO {
            o
        } else if b == ZERO {
            self
        } else if a == b {
            // same sign: no cancellation, may overflow
            if anyb() { self } else if a == POS { H(PINF) } else { H(NINF) }
        } else {
            any_fin()
        }
    }
}
impl Neg for H {
    type Output = H;
    fn neg(self) -> H {
        H(match self.0 {
            POS => NEG,
            NEG => POS,
            PINF => NINF,
            NINF => PINF,
            x => x,
        })
    }
}
impl Sub for H {
    type Output = H;
    fn sub(self, o: H) -> H {
        self + (-o)
    }
}
impl Mul for H {
    type Output = H;
    fn mul(self, o: H) -> H {
        let (a, b) = (self.0, o.0);
        if a > NINF || b > NINF || (a == ZERO && b >= PINF) || (b == ZERO && a >= PINF) {
            return H(NAN);
        }
        if a == ZERO || b == ZERO {
            return H(ZERO);
        }
        let r = if a >= PINF || b >= PINF { H(PINF) } else { posish() };
        if self.neg_sign() != o.neg_sign() { -r } else { r }
    }
}
impl Div for H {
    type Output = H;
    fn div(self, o: H) -> H {
        let (a, b) = (self.0, o.0);
        if a > NINF || b > NINF || (a >= PINF && b >= PINF) || (a == ZERO && b == ZERO) {
            return H(NAN);
        }
        if a == ZERO || b >= PINF {
            return H(ZERO);
        }
        if b == ZERO {
            // the sign of the zero is not tracked
            return if anyb() { H(PINF) } else { H(NINF) };
        }
        let r = if a >= PINF { H(PINF) } else { posish() };
        if self.neg_sign() != o.neg_sign() { -r } else { r }
    }
}
impl Rem for H {
    type Output = H;
    fn rem(self, o: H) -> H {
        if !self.fin() || o.0 > NINF || o.0 == ZERO {
            H(NAN)
        } else if o.is_inf() {
            self
        } else {
            let z = anyb();
            if z { H(ZERO) } else { self }
        }
    }
}
macro_rules! asg {
    ($($t:ident $f:ident $op:tt),*) => {$(
        impl $t for H {
            fn $f(&mut self, o: H) { *self = *self $op o; }
        }
    )*};
}
asg!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);

impl PartialEq for H {
    fn eq(&self, o: &H) -> bool {
        if self.0 > NINF || o.0 > NINF {
            false
        } else if self.0 == o.0 && (self.0 == POS || self.0 == NEG) {
            anyb()
        } else {
            self.0 == o.0
        }
    }
}
impl PartialOrd for H {
    fn partial_cmp(&self, o: &H) -> Option<Ordering> {
        if self.0 > NINF || o.0 > NINF {
            None
        } else if self.0 == o.0 && (self.0 == POS || self.0 == NEG) {
            Some(if anyb() {
                Ordering::Less
            } else if anyb() {
                Ordering::Equal
            } else {
                Ordering::Greater
            })
        } else {
            Some(self.rank().cmp(&o.rank()))
        }
    }
    fn lt(&self, o: &H) -> bool {
        if self.0 > NINF || o.0 > NINF {
            false
        } else if self.0 == o.0 && (self.0 == POS || self.0 == NEG) {
            anyb()
        } else {
            self.rank() < o.rank()
        }
    }
    fn le(&self, o: &H) -> bool {
        if self.0 > NINF || o.0 > NINF {
            false
        } else if self.0 == o.0 && (self.0 == POS || self.0 == NEG) {
            anyb()
        } else {
            self.rank() <= o.rank()
        }
    }
    fn gt(&self, o: &H) -> bool {
        o.lt(self)
    }
    fn ge(&self, o: &H) -> bool {
        o.le(self)
    }
}
impl Zero for H {
    fn zero() -> H {
        H(ZERO)
    }
    fn is_zero(&self) -> bool {
        self.0 == ZERO
    }
}
impl One for H {
    fn one() -> H {
        H(POS)
    }
}
impl Num for H {
    type FromStrRadixErr = ();
    fn from_str_radix(_: &str, _: u32) -> Result<H, ()> {
        Ok(any_h())
    }
}
/// conversion to a signed integer (truncating): the sign is kept, the size is
/// arbitrary, and the number may be out of range
macro_rules! tosigned {
    ($($f:ident $t:ty);*) => {$(
        fn $f(&self) -> Option<$t> {
            if self.0 == ZERO {
                return Some(0);
            }
            if !self.fin() || unrepresentable() {
                return None;
            }
            // no f32 or f64 lies in (2^63 - 1024, 2^63)
            let w = anyi();
            let v = (if w > i64::MAX - 1023 { i64::MAX - 1023 } else { w }) as $t;
            // truncation towards zero may give 0 on either side
            if (self.0 == POS && v < 0) || (self.0 == NEG && v > 0) { Some(0) } else { Some(v) }
        }
    )*};
}
macro_rules! tounsigned {
    ($($f:ident $t:ty);*) => {$(
        fn $f(&self) -> Option<$t> {
            if self.0 == ZERO {
                return Some(0);
            }
            if !self.fin() || unrepresentable() {
                return None;
            }
            // (-1, 0) truncates to 0
            if self.0 == NEG {
                return Some(0);
            }
            // no f32 or f64 lies in (2^64 - 2048, 2^64)
            let w = anyu();
            Some((if w > u64::MAX - 2047 { u64::MAX - 2047 } else { w }) as $t)
        }
    )*};
}
impl ToPrimitive for H {
    tosigned!(to_i64 i64; to_isize isize; to_i32 i32; to_i16 i16; to_i8 i8);
    tounsigned!(to_u64 u64; to_usize usize; to_u32 u32; to_u16 u16; to_u8 u8);
    fn to_f64(&self) -> Option<f64> {
        Some(match self.0 {
            ZERO => 0.0,
            POS => 1.0,
            NEG => -1.0,
            PINF => f64::INFINITY,
            NINF => f64::NEG_INFINITY,
            _ => f64::NAN,
        })
    }
    fn to_f32(&self) -> Option<f32> {
        self.to_f64().map(|x| x as f32)
    }
}
impl NumCast for H {
    fn from<N: ToPrimitive>(n: N) -> Option<H> {
        // every 64-bit integer converts to a float
        if let Some(i) = n.to_i64() {
            return Some(H(if i == 0 { ZERO } else if i > 0 { POS } else { NEG }));
        }
        if n.to_u64().is_some() {
            return Some(H(POS));
        }
        Some(any_h())
    }
}
impl Bounded for H {
    fn min_value() -> H {
        H(NEG)
    }
    fn max_value() -> H {
        H(POS)
    }
}
impl Default for H {
    fn default() -> H {
        H(ZERO)
    }
}
impl std::fmt::Debug for H {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::iter::Sum for H {
    fn sum<I: Iterator<Item = H>>(i: I) -> H {
        i.fold(H(ZERO), |a, b| a + b)
    }
}
impl std::iter::Product for H {
    fn product<I: Iterator<Item = H>>(i: I) -> H {
        i.fold(H(POS), |a, b| a * b)
    }
}
macro_rules! anyf {
    ($($f:ident),*) => {$( fn $f(self) -> H { if self.0 > NINF { self } else { any_h() } } )*};
}
impl Float for H {
    fn nan() -> H {
        H(NAN)
    }
    fn infinity() -> H {
        H(PINF)
    }
    fn neg_infinity() -> H {
        H(NINF)
    }
    fn neg_zero() -> H {
        H(ZERO)
    }
    fn min_value() -> H {
        H(NEG)
    }
    fn min_positive_value() -> H {
        H(POS)
    }
    fn max_value() -> H {
        H(POS)
    }
    fn epsilon() -> H {
        H(POS)
    }
    fn is_nan(self) -> bool {
        self.0 > NINF
    }
    fn is_infinite(self) -> bool {
        self.is_inf()
    }
    fn is_finite(self) -> bool {
        self.fin()
    }
    fn is_normal(self) -> bool {
        (self.0 == POS || self.0 == NEG) && anyb()
    }
    fn classify(self) -> FpCategory {
        if self.0 > NINF {
            FpCategory::Nan
        } else if self.is_inf() {
            FpCategory::Infinite
        } else if self.0 == ZERO {
            FpCategory::Zero
        } else if anyb() {
            FpCategory::Subnormal
        } else {
            FpCategory::Normal
        }
    }
    // a positive number may round down to zero, a negative one up to zero
    fn floor(self) -> H {
        if self.0 == POS && anyb() { H(ZERO) } else { self }
    }
    fn ceil(self) -> H {
        if self.0 == NEG && anyb() { H(ZERO) } else { self }
    }
    fn round(self) -> H {
        if (self.0 == POS || self.0 == NEG) && anyb() { H(ZERO) } else { self }
    }
    fn trunc(self) -> H {
        if (self.0 == POS || self.0 == NEG) && anyb() { H(ZERO) } else { self }
    }
    anyf!(exp, exp2, ln, log2, log10, sqrt, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
    fn fract(self) -> H {
        if !self.fin() { H(NAN) } else { self.trunc() }
    }
    fn abs(self) -> H {
        if self.neg_sign() { -self } else { self }
    }
    fn signum(self) -> H {
        if self.0 > NINF { self } else if self.0 == ZERO { any_fin() } else if self.neg_sign() { H(NEG) } else { H(POS) }
    }
    fn is_sign_positive(self) -> bool {
        if self.0 == ZERO || self.0 > NINF { anyb() } else { !self.neg_sign() }
    }
    fn is_sign_negative(self) -> bool {
        if self.0 == ZERO || self.0 > NINF { anyb() } else { self.neg_sign() }
    }
    fn mul_add(self, a: H, b: H) -> H {
        // one rounding: an overflow of the product alone is not visible
        if self.fin() && a.fin() && b.fin() {
            let r = self * a;
            match r.0 {
                PINF => H(POS) + b,
                NINF => H(NEG) + b,
                // an underflowing product is still not zero
                ZERO if self.0 != ZERO && a.0 != ZERO && anyb() => H(if self.0 == a.0 { POS } else { NEG }) + b,
                _ => r + b,
            }
        } else {
            self * a + b
        }
    }
    fn recip(self) -> H {
        H(POS) / self
    }
    fn powi(self, _: i32) -> H {
        any_h()
    }
    fn powf(self, _: H) -> H {
        any_h()
    }
    fn log(self, _: H) -> H {
        any_h()
    }
    fn max(self, o: H) -> H {
        if self.0 > NINF {
            o
        } else if o.0 > NINF {
            self
        } else if self.rank() < o.rank() {
            o
        } else {
            self
        }
    }
    fn min(self, o: H) -> H {
        -((-self).max(-o))
    }
    fn abs_sub(self, o: H) -> H {
        if self <= o { H(ZERO) } else { self - o }
    }
    fn hypot(self, _: H) -> H {
        any_h()
    }
    fn atan2(self, _: H) -> H {
        any_h()
    }
    fn sin_cos(self) -> (H, H) {
        (self.sin(), self.cos())
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        (anyu(), anyi() as i16, 1)
    }
    fn to_degrees(self) -> H {
        self * H(POS)
    }
    fn to_radians(self) -> H {
        self * H(POS)
    }
}
