//! Scalar types other than f32 and f64, as client code may bring along:
//! * `Heap`: an f64 behind a pointer, so neither `Copy` nor a machine float;
//! * `Wide`: a double-double, about 104 significant bits;
//! * `Jet`: a value together with a derivative (forward differentiation);
//! * `Tally`: an f64 that counts what is done with it.
use crate::dd::Dd;
use serde::{Deserialize, Serialize};
use std::fmt;

/// What a scalar has to offer; the numeric traits follow from it by `scalar!`.
pub trait Sc: Clone {
    const EPS: f64;
    const NAME: &'static str;
    /// value and derivative
    fn make(v: Dd, d: Dd) -> Self;
    fn v(&self) -> Dd;
    fn d(&self) -> Dd;
    fn add_(&self, o: &Self) -> Self;
    fn mul_(&self, o: &Self) -> Self;
    fn div_(&self, o: &Self) -> Self;
    fn neg_(&self) -> Self;
    fn sqrt_(&self) -> Self;
    /// an elementary function and its derivative
    fn un_(&self, f: impl Fn(f64) -> f64, df: impl Fn(f64) -> f64) -> Self;
    fn con(x: f64) -> Self {
        Self::make(Dd::new(x), Dd::ZERO)
    }
    fn fl(&self) -> f64 {
        self.v().f()
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Heap(Box<f64>);
impl Sc for Heap {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "non-Copy f64";
    fn make(v: Dd, _: Dd) -> Self {
        Heap(Box::new(v.f()))
    }
    fn v(&self) -> Dd {
        Dd::new(*self.0)
    }
    fn d(&self) -> Dd {
        Dd::ZERO
    }
    fn add_(&self, o: &Self) -> Self {
        Self::con(*self.0 + *o.0)
    }
    fn mul_(&self, o: &Self) -> Self {
        Self::con(*self.0 * *o.0)
    }
    fn div_(&self, o: &Self) -> Self {
        Self::con(*self.0 / *o.0)
    }
    fn neg_(&self) -> Self {
        Self::con(-*self.0)
    }
    fn sqrt_(&self) -> Self {
        Self::con(self.0.sqrt())
    }
    fn un_(&self, f: impl Fn(f64) -> f64, _: impl Fn(f64) -> f64) -> Self {
        Self::con(f(*self.0))
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Wide(f64, f64);
impl Wide {
    fn w(x: Dd) -> Self {
        Wide(x.hi, x.lo)
    }
}
impl Sc for Wide {
    const EPS: f64 = 7.888609052210118e-31; // 2^-100
    const NAME: &'static str = "double-double";
    fn make(v: Dd, _: Dd) -> Self {
        Self::w(v)
    }
    fn v(&self) -> Dd {
        Dd { hi: self.0, lo: self.1 }
    }
    fn d(&self) -> Dd {
        Dd::ZERO
    }
    fn add_(&self, o: &Self) -> Self {
        Self::w(self.v() + o.v())
    }
    fn mul_(&self, o: &Self) -> Self {
        Self::w(self.v() * o.v())
    }
    fn div_(&self, o: &Self) -> Self {
        Self::w(self.v() / o.v())
    }
    fn neg_(&self) -> Self {
        Self::w(-self.v())
    }
    fn sqrt_(&self) -> Self {
        if self.0 < 0.0 {
            Self::con(f64::NAN)
        } else {
            Self::w(self.v().sqrt())
        }
    }
    /// Only to f64 precision: nothing judged at this type's precision needs
    /// elementary functions.
    fn un_(&self, f: impl Fn(f64) -> f64, _: impl Fn(f64) -> f64) -> Self {
        Self::con(f(self.v().f()))
    }
}

#[derive(Clone, Serialize, Deserialize)]
pub struct Jet(f64, f64);
impl Sc for Jet {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "differentiating f64";
    fn make(v: Dd, d: Dd) -> Self {
        Jet(v.f(), d.f())
    }
    fn v(&self) -> Dd {
        Dd::new(self.0)
    }
    fn d(&self) -> Dd {
        Dd::new(self.1)
    }
    fn add_(&self, o: &Self) -> Self {
        Jet(self.0 + o.0, self.1 + o.1)
    }
    fn mul_(&self, o: &Self) -> Self {
        Jet(self.0 * o.0, self.1 * o.0 + self.0 * o.1)
    }
    fn div_(&self, o: &Self) -> Self {
        let q = self.0 / o.0;
        Jet(q, (self.1 - q * o.1) / o.0)
    }
    fn neg_(&self) -> Self {
        Jet(-self.0, -self.1)
    }
    fn sqrt_(&self) -> Self {
        let r = self.0.sqrt();
        // the root of a constant zero is a constant
        Jet(r, if self.1 == 0.0 { 0.0 } else { self.1 / (2.0 * r) })
    }
    fn un_(&self, f: impl Fn(f64) -> f64, df: impl Fn(f64) -> f64) -> Self {
        Jet(f(self.0), if self.1 == 0.0 { 0.0 } else { self.1 * df(self.0) })
    }
}

thread_local! {
    static WORK: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
/// What was done with `Tally` numbers in this thread since the last call.
pub fn take_work() -> u64 {
    WORK.with(|w| w.replace(0))
}
fn work() {
    WORK.with(|w| w.set(w.get() + 1))
}
/// An f64 that counts what is done with it: operations, comparisons, copies.
#[derive(Serialize, Deserialize)]
pub struct Tally(f64);
impl Clone for Tally {
    fn clone(&self) -> Self {
        work();
        Tally(self.0)
    }
}
impl Sc for Tally {
    const EPS: f64 = f64::EPSILON;
    const NAME: &'static str = "counting f64";
    fn make(v: Dd, _: Dd) -> Self {
        Self::con(v.f())
    }
    fn con(x: f64) -> Self {
        work();
        Tally(x)
    }
    fn v(&self) -> Dd {
        work();
        Dd::new(self.0)
    }
    fn fl(&self) -> f64 {
        work();
        self.0
    }
    fn d(&self) -> Dd {
        Dd::ZERO
    }
    fn add_(&self, o: &Self) -> Self {
        Self::con(self.0 + o.0)
    }
    fn mul_(&self, o: &Self) -> Self {
        Self::con(self.0 * o.0)
    }
    fn div_(&self, o: &Self) -> Self {
        Self::con(self.0 / o.0)
    }
    fn neg_(&self) -> Self {
        Self::con(-self.0)
    }
    fn sqrt_(&self) -> Self {
        Self::con(self.0.sqrt())
    }
    fn un_(&self, f: impl Fn(f64) -> f64, _: impl Fn(f64) -> f64) -> Self {
        Self::con(f(self.0))
    }
}

macro_rules! ops {
    ($T:ident; $($Tr:ident $f:ident $Tra:ident $fa:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
        impl std::ops::$Tr for $T {
            type Output = $T;
            fn $f(self, o: $T) -> $T {
                let ($a, $b) = (&self, &o);
                $e
            }
        }
        impl std::ops::$Tra for $T {
            fn $fa(&mut self, o: $T) {
                *self = std::ops::$Tr::$f(self.clone(), o)
            }
        }
    )*};
}
macro_rules! consts {
    ($($f:ident $x:expr;)*) => {$( fn $f() -> Self { Self::con($x) } )*};
}
macro_rules! unary {
    ($($f:ident |$x:ident| $e:expr, $d:expr;)*) => {$(
        fn $f(self) -> Self { self.un_(|$x: f64| $e, #[allow(unused)] |$x: f64| $d) }
    )*};
}
macro_rules! scalar {
    ($T:ident) => {
        impl fmt::Debug for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{:?}", self.fl())
            }
        }
        impl fmt::Display for $T {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                write!(f, "{}", self.fl())
            }
        }
        impl PartialEq for $T {
            fn eq(&self, o: &Self) -> bool {
                self.v() == o.v()
            }
        }
        impl PartialOrd for $T {
            fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
                self.v().partial_cmp(&o.v())
            }
        }
        ops! {$T;
            Add add AddAssign add_assign |a, b| a.add_(b);
            Sub sub SubAssign sub_assign |a, b| a.add_(&b.neg_());
            Mul mul MulAssign mul_assign |a, b| a.mul_(b);
            Div div DivAssign div_assign |a, b| a.div_(b);
            Rem rem RemAssign rem_assign |a, b| a.add_(&b.mul_(&$T::con((a.fl() / b.fl()).trunc())).neg_());
        }
        impl std::ops::Neg for $T {
            type Output = $T;
            fn neg(self) -> $T {
                self.neg_()
            }
        }
        impl num_traits::Zero for $T {
            fn zero() -> Self {
                Self::con(0.0)
            }
            fn is_zero(&self) -> bool {
                self.v() == Dd::ZERO
            }
        }
        impl num_traits::One for $T {
            fn one() -> Self {
                Self::con(1.0)
            }
        }
        impl num_traits::Num for $T {
            type FromStrRadixErr = ();
            fn from_str_radix(_: &str, _: u32) -> Result<Self, ()> {
                Err(())
            }
        }
        impl num_traits::Signed for $T {
            fn abs(&self) -> Self {
                if self.v() < Dd::ZERO { self.neg_() } else { self.clone() }
            }
            fn abs_sub(&self, o: &Self) -> Self {
                if self <= o { Self::con(0.0) } else { self.add_(&o.neg_()) }
            }
            fn signum(&self) -> Self {
                Self::con(1.0f64.copysign(self.fl()))
            }
            fn is_positive(&self) -> bool {
                self.fl().is_sign_positive()
            }
            fn is_negative(&self) -> bool {
                self.fl().is_sign_negative()
            }
        }
        impl num_traits::FromPrimitive for $T {
            fn from_i64(n: i64) -> Option<Self> {
                Some(Self::con(n as f64))
            }
            fn from_u64(n: u64) -> Option<Self> {
                Some(Self::con(n as f64))
            }
            fn from_f64(n: f64) -> Option<Self> {
                Some(Self::con(n))
            }
        }
        impl approx::AbsDiffEq for $T {
            type Epsilon = $T;
            fn default_epsilon() -> $T {
                Self::con(Self::EPS)
            }
            fn abs_diff_eq(&self, o: &Self, e: $T) -> bool {
                self == o || num_traits::Signed::abs(&(self.clone() - o.clone())) <= e
            }
        }
        impl approx::RelativeEq for $T {
            fn default_max_relative() -> $T {
                Self::con(Self::EPS)
            }
            fn relative_eq(&self, o: &Self, e: $T, m: $T) -> bool {
                let d = num_traits::Signed::abs(&(self.clone() - o.clone()));
                let (a, b) = (num_traits::Signed::abs(self), num_traits::Signed::abs(o));
                self == o || d <= e || d <= if a > b { a } else { b } * m
            }
        }
        impl approx::UlpsEq for $T {
            fn default_max_ulps() -> u32 {
                4
            }
            fn ulps_eq(&self, o: &Self, e: $T, u: u32) -> bool {
                approx::RelativeEq::relative_eq(self, o, e, Self::con(Self::EPS * u as f64))
            }
        }
        impl simba::scalar::SubsetOf<$T> for $T {
            fn to_superset(&self) -> $T {
                self.clone()
            }
            fn from_superset_unchecked(e: &$T) -> $T {
                e.clone()
            }
            fn is_in_subset(_: &$T) -> bool {
                true
            }
        }
        impl simba::scalar::SubsetOf<$T> for f64 {
            fn to_superset(&self) -> $T {
                $T::con(*self)
            }
            fn from_superset_unchecked(e: &$T) -> f64 {
                e.fl()
            }
            fn is_in_subset(_: &$T) -> bool {
                true
            }
        }
        impl simba::scalar::SubsetOf<$T> for f32 {
            fn to_superset(&self) -> $T {
                $T::con(*self as f64)
            }
            fn from_superset_unchecked(e: &$T) -> f32 {
                e.fl() as f32
            }
            fn is_in_subset(_: &$T) -> bool {
                true
            }
        }
        impl simba::simd::SimdValue for $T {
            const LANES: usize = 1;
            type Element = $T;
            type SimdBool = bool;
            fn splat(v: $T) -> $T {
                v
            }
            fn extract(&self, _: usize) -> $T {
                self.clone()
            }
            unsafe fn extract_unchecked(&self, _: usize) -> $T {
                self.clone()
            }
            fn replace(&mut self, _: usize, v: $T) {
                *self = v
            }
            unsafe fn replace_unchecked(&mut self, _: usize, v: $T) {
                *self = v
            }
            fn select(self, c: bool, o: Self) -> Self {
                if c { self } else { o }
            }
        }
        impl simba::scalar::Field for $T {}
        impl simba::scalar::ComplexField for $T {
            type RealField = $T;
            fn from_real(re: $T) -> $T {
                re
            }
            fn real(self) -> $T {
                self
            }
            fn imaginary(self) -> $T {
                Self::con(0.0)
            }
            fn modulus(self) -> $T {
                num_traits::Signed::abs(&self)
            }
            fn modulus_squared(self) -> $T {
                self.mul_(&self)
            }
            fn argument(self) -> $T {
                Self::con(if self.fl() >= 0.0 { 0.0 } else { std::f64::consts::PI })
            }
            fn norm1(self) -> $T {
                num_traits::Signed::abs(&self)
            }
            fn scale(self, f: $T) -> $T {
                self * f
            }
            fn unscale(self, f: $T) -> $T {
                self / f
            }
            fn to_exp(self) -> ($T, $T) {
                if self.fl() >= 0.0 { (self, Self::con(1.0)) } else { (self.neg_(), Self::con(-1.0)) }
            }
            fn mul_add(self, a: $T, b: $T) -> $T {
                self * a + b
            }
            fn abs(self) -> $T {
                num_traits::Signed::abs(&self)
            }
            fn hypot(self, o: $T) -> $T {
                (self.clone() * self + o.clone() * o).sqrt_()
            }
            fn recip(self) -> $T {
                Self::con(1.0) / self
            }
            fn conjugate(self) -> $T {
                self
            }
            fn sin_cos(self) -> ($T, $T) {
                (simba::scalar::ComplexField::sin(self.clone()), simba::scalar::ComplexField::cos(self))
            }
            unary! {
                floor |x| x.floor(), 0.0;
                ceil |x| x.ceil(), 0.0;
                round |x| x.round(), 0.0;
                trunc |x| x.trunc(), 0.0;
                fract |x| x.fract(), 1.0 + 0.0 * x;
                sin |x| x.sin(), x.cos();
                cos |x| x.cos(), -x.sin();
                tan |x| x.tan(), x.cos().powi(-2);
                asin |x| x.asin(), 1.0 / (1.0 - x * x).sqrt();
                acos |x| x.acos(), -1.0 / (1.0 - x * x).sqrt();
                atan |x| x.atan(), 1.0 / (1.0 + x * x);
                sinh |x| x.sinh(), x.cosh();
                cosh |x| x.cosh(), x.sinh();
                tanh |x| x.tanh(), x.cosh().powi(-2);
                asinh |x| x.asinh(), 1.0 / (x * x + 1.0).sqrt();
                acosh |x| x.acosh(), 1.0 / (x * x - 1.0).sqrt();
                atanh |x| x.atanh(), 1.0 / (1.0 - x * x);
                log2 |x| x.log2(), 1.0 / (x * std::f64::consts::LN_2);
                log10 |x| x.log10(), 1.0 / (x * std::f64::consts::LN_10);
                ln |x| x.ln(), 1.0 / x;
                ln_1p |x| x.ln_1p(), 1.0 / (1.0 + x);
                exp |x| x.exp(), x.exp();
                exp2 |x| x.exp2(), x.exp2() * std::f64::consts::LN_2;
                exp_m1 |x| x.exp_m1(), x.exp();
                cbrt |x| x.cbrt(), 1.0 / (3.0 * x.cbrt().powi(2));
            }
            fn log(self, b: $T) -> $T {
                simba::scalar::ComplexField::ln(self) / simba::scalar::ComplexField::ln(b)
            }
            fn sqrt(self) -> $T {
                self.sqrt_()
            }
            fn powi(self, n: i32) -> $T {
                let mut r = Self::con(1.0);
                for _ in 0..n.unsigned_abs() {
                    r = r * self.clone();
                }
                if n < 0 { Self::con(1.0) / r } else { r }
            }
            fn powf(self, n: $T) -> $T {
                simba::scalar::ComplexField::exp(simba::scalar::ComplexField::ln(self) * n)
            }
            fn powc(self, n: $T) -> $T {
                simba::scalar::ComplexField::powf(self, n)
            }
            fn is_finite(&self) -> bool {
                self.fl().is_finite()
            }
            fn try_sqrt(self) -> Option<$T> {
                (self.fl() >= 0.0).then(|| self.sqrt_())
            }
        }
        impl simba::scalar::RealField for $T {
            fn is_sign_positive(&self) -> bool {
                self.fl().is_sign_positive()
            }
            fn is_sign_negative(&self) -> bool {
                self.fl().is_sign_negative()
            }
            fn copysign(self, s: $T) -> $T {
                if self.fl().is_sign_negative() == s.fl().is_sign_negative() { self } else { self.neg_() }
            }
            fn max(self, o: $T) -> $T {
                if self < o { o } else { self }
            }
            fn min(self, o: $T) -> $T {
                if o < self { o } else { self }
            }
            fn clamp(self, lo: $T, hi: $T) -> $T {
                if self < lo { lo } else if self > hi { hi } else { self }
            }
            fn atan2(self, o: $T) -> $T {
                // d atan2(y, x) = (x dy - y dx) / (x^2 + y^2)
                let (y, x) = (self.fl(), o.fl());
                let n = x * x + y * y;
                let d = Dd::new((x * self.d().f() - y * o.d().f()) / n);
                Self::make(Dd::new(y.atan2(x)), d)
            }
            fn min_value() -> Option<$T> {
                Some(Self::con(f64::MIN))
            }
            fn max_value() -> Option<$T> {
                Some(Self::con(f64::MAX))
            }
            consts! {
                pi std::f64::consts::PI;
                two_pi std::f64::consts::TAU;
                frac_pi_2 std::f64::consts::FRAC_PI_2;
                frac_pi_3 std::f64::consts::FRAC_PI_3;
                frac_pi_4 std::f64::consts::FRAC_PI_4;
                frac_pi_6 std::f64::consts::FRAC_PI_6;
                frac_pi_8 std::f64::consts::FRAC_PI_8;
                frac_1_pi std::f64::consts::FRAC_1_PI;
                frac_2_pi std::f64::consts::FRAC_2_PI;
                frac_2_sqrt_pi std::f64::consts::FRAC_2_SQRT_PI;
                e std::f64::consts::E;
                log2_e std::f64::consts::LOG2_E;
                log10_e std::f64::consts::LOG10_E;
                ln_2 std::f64::consts::LN_2;
                ln_10 std::f64::consts::LN_10;
            }
        }
    };
}
scalar!(Heap);
scalar!(Tally);
scalar!(Wide);
scalar!(Jet);

/// Reference number: value and derivative in double-double, each with a bound
/// of the error (in units of the scalar's epsilon) of computing it in working
/// precision.
#[derive(Clone, Copy, Debug)]
pub struct En {
    pub v: Dd,
    pub d: Dd,
    pub ev: f64,
    pub ed: f64,
}
fn a(x: Dd) -> f64 {
    x.f().abs()
}
impl En {
    pub fn exact(x: f64) -> En {
        En { v: Dd::new(x), d: Dd::ZERO, ev: 0.0, ed: 0.0 }
    }
    /// An input with rounding errors of its own.
    pub fn rounded(v: Dd, d: Dd) -> En {
        En { v, d, ev: a(v), ed: a(d) }
    }
    pub fn sqrt(self) -> En {
        let r = self.v.sqrt();
        let d = self.d / (r + r);
        let ev = self.ev / (2.0 * a(r)) + a(r);
        En { v: r, d, ev, ed: self.ed / (2.0 * a(r)) + a(d) * (ev / a(r) + 1.0) }
    }
}
impl std::ops::Add for En {
    type Output = En;
    fn add(self, o: En) -> En {
        let (v, d) = (self.v + o.v, self.d + o.d);
        En { v, d, ev: self.ev + o.ev + a(v), ed: self.ed + o.ed + a(d) }
    }
}
impl std::ops::Neg for En {
    type Output = En;
    fn neg(self) -> En {
        En { v: -self.v, d: -self.d, ..self }
    }
}
impl std::ops::Sub for En {
    type Output = En;
    fn sub(self, o: En) -> En {
        self + (-o)
    }
}
impl std::ops::Mul for En {
    type Output = En;
    fn mul(self, o: En) -> En {
        let v = self.v * o.v;
        let (p, q) = (self.d * o.v, self.v * o.d);
        En {
            v,
            d: p + q,
            ev: a(self.v) * o.ev + a(o.v) * self.ev + a(v),
            ed: a(self.d) * o.ev + a(o.v) * self.ed + a(self.v) * o.ed + a(o.d) * self.ev + a(p) + a(q),
        }
    }
}
impl std::ops::Div for En {
    type Output = En;
    fn div(self, o: En) -> En {
        let q = self.v / o.v;
        let d = (self.d - q * o.d) / o.v;
        let b = a(o.v);
        let ev = (self.ev + a(q) * o.ev) / b + a(q);
        let ed = (self.ed + a(q) * o.ed + a(o.d) * ev + a(self.d) + a(q * o.d) + a(d) * o.ev) / b + a(d);
        En { v: q, d, ev, ed }
    }
}
