//! A user-defined number type without rounding: `Ex` carries a float for comparisons and the residues
//! of the same number modulo two primes. The interpolators, day counts, curves and bonds are generic
//! over the number type, so with `Ex` their results can be compared with a reference *exactly*: equal
//! residues mean algebraically equal results (up to a chance of 2^-60 per comparison), however the
//! operations are arranged.
//!
//! P = 2Q + 1 with both prime. exp(r) is g^r mod P, g of order Q and r taken modulo Q, which keeps the
//! law exp(a + b) = exp(a) exp(b). An operation that has no exact meaning (a root, a logarithm, ...)
//! gives a number without residues; comparisons with such a number are not judged.

use crate::bond::{gen_terms, Terms};
use crate::curve::{gen_between, gen_settle, Basis, Conv};
use crate::interp_ref::{catmull_pinned, Kind};
use crate::model::*;
use engine::{ensure, gen, Outcome, Property, Src};
use num_traits::{Float, FromPrimitive, Num, One, ToPrimitive, Zero};
use qlab_error::{ComputeError, InterpolationError, QLabError};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360};
use qlab_time::frequency::Frequency;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

const Q: u64 = 1_152_921_504_606_845_789;
const P: u64 = 2 * Q + 1;
const G: u64 = 4; // a square, hence of order Q
const NONE: u64 = u64::MAX;

fn mul(a: u64, b: u64, m: u64) -> u64 {
    (u128::from(a) * u128::from(b) % u128::from(m)) as u64
}
fn pow(mut b: u64, mut e: u64, m: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, b, m);
        }
        b = mul(b, b, m);
        e >>= 1;
    }
    r
}
fn residue(n: i128, m: u64) -> u64 {
    n.rem_euclid(i128::from(m)) as u64
}

#[derive(Clone, Copy, Default)]
pub struct Ex {
    f: f64,
    p: u64,
    q: u64,
}

fn both(a: u64, b: u64, m: u64, op: impl Fn(u64, u64) -> u64) -> u64 {
    if a == NONE || b == NONE {
        NONE
    } else {
        op(a, b) % m
    }
}
fn div(a: u64, b: u64, m: u64) -> u64 {
    if b == 0 {
        NONE
    } else {
        both(a, b, m, |a, b| mul(a, pow(b, m - 2, m), m))
    }
}

impl Ex {
    fn vague(f: f64) -> Ex {
        Ex { f, p: NONE, q: NONE }
    }
    pub fn int(n: i64) -> Ex {
        Ex { f: n as f64, p: residue(i128::from(n), P), q: residue(i128::from(n), Q) }
    }
    pub fn ratio(n: i64, d: i64) -> Ex {
        Ex { f: n as f64 / d as f64, ..Ex::int(n) / Ex::int(d) }
    }
    /// m 2^e
    fn dyadic(f: f64) -> Ex {
        let (m, e, sign) = Float::integer_decode(f);
        let m = i128::from(m) * i128::from(sign);
        let scale = |md: u64| {
            let t = pow(2, u64::from(e.unsigned_abs()), md);
            if e < 0 {
                div(residue(m, md), t, md)
            } else {
                mul(residue(m, md), t, md)
            }
        };
        Ex { f, p: scale(P), q: scale(Q) }
    }
    fn from_float(x: f64) -> Ex {
        if !x.is_finite() {
            return Ex::vague(x);
        }
        // few significant bits: the number itself was meant
        let (m, _, _) = Float::integer_decode(x);
        if m == 0 || m.trailing_zeros() >= 12 {
            return Ex::dyadic(x);
        }
        // the decimal or simple fraction that was meant, if there is one
        for d in (1..=1000).chain([10_000, 100_000, 1_000_000, 10_000_000]) {
            let n = (x * f64::from(d)).round();
            if n.abs() < 1e12 && n / f64::from(d) == x {
                return Ex { f: x, ..Ex::ratio(n as i64, i64::from(d)) };
            }
        }
        Ex::vague(x)
    }
    fn map(self, f: impl Fn(f64) -> f64) -> Ex {
        Ex::vague(f(self.f))
    }
    /// None where there is nothing to compare
    pub fn same(self, other: Ex) -> Option<bool> {
        (self.p != NONE && other.p != NONE).then_some(self.p == other.p)
    }
}

impl Add for Ex {
    type Output = Ex;
    fn add(self, o: Ex) -> Ex {
        Ex { f: self.f + o.f, p: both(self.p, o.p, P, |a, b| a + b), q: both(self.q, o.q, Q, |a, b| a + b) }
    }
}
impl Neg for Ex {
    type Output = Ex;
    fn neg(self) -> Ex {
        let n = |a: u64, m: u64| if a == NONE { NONE } else { (m - a) % m };
        Ex { f: -self.f, p: n(self.p, P), q: n(self.q, Q) }
    }
}
impl Sub for Ex {
    type Output = Ex;
    fn sub(self, o: Ex) -> Ex {
        Ex { f: self.f - o.f, ..self + (-o) }
    }
}
impl Mul for Ex {
    type Output = Ex;
    fn mul(self, o: Ex) -> Ex {
        Ex { f: self.f * o.f, p: both(self.p, o.p, P, |a, b| mul(a, b, P)), q: both(self.q, o.q, Q, |a, b| mul(a, b, Q)) }
    }
}
impl Div for Ex {
    type Output = Ex;
    fn div(self, o: Ex) -> Ex {
        Ex { f: self.f / o.f, p: div(self.p, o.p, P), q: div(self.q, o.q, Q) }
    }
}
impl Rem for Ex {
    type Output = Ex;
    fn rem(self, o: Ex) -> Ex {
        Ex::vague(self.f % o.f)
    }
}
macro_rules! assign {
    ($($t:ident $m:ident $op:tt),*) => { $(impl $t for Ex { fn $m(&mut self, o: Ex) { *self = *self $op o; } })* };
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
impl std::iter::Sum for Ex {
    fn sum<I: Iterator<Item = Ex>>(i: I) -> Ex {
        i.fold(Ex::int(0), Add::add)
    }
}
impl<'a> std::iter::Sum<&'a Ex> for Ex {
    fn sum<I: Iterator<Item = &'a Ex>>(i: I) -> Ex {
        i.fold(Ex::int(0), |a, b| a + *b)
    }
}
impl std::iter::Product for Ex {
    fn product<I: Iterator<Item = Ex>>(i: I) -> Ex {
        i.fold(Ex::int(1), Mul::mul)
    }
}
impl PartialEq for Ex {
    fn eq(&self, o: &Ex) -> bool {
        if self.f.is_nan() || o.f.is_nan() {
            return false;
        }
        self.same(*o).unwrap_or(self.f == o.f)
    }
}
impl PartialOrd for Ex {
    fn partial_cmp(&self, o: &Ex) -> Option<Ordering> {
        if self == o {
            return Some(Ordering::Equal);
        }
        self.f.partial_cmp(&o.f)
    }
}
impl fmt::Display for Ex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.f)
    }
}
impl fmt::Debug for Ex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.f)
    }
}
impl fmt::LowerExp for Ex {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:e}", self.f)
    }
}
impl Zero for Ex {
    fn zero() -> Ex {
        Ex::int(0)
    }
    fn is_zero(&self) -> bool {
        *self == Ex::int(0)
    }
}
impl One for Ex {
    fn one() -> Ex {
        Ex::int(1)
    }
}
impl From<f64> for Ex {
    fn from(x: f64) -> Ex {
        Ex::from_float(x)
    }
}
impl From<f32> for Ex {
    fn from(x: f32) -> Ex {
        Ex::from_float(f64::from(x))
    }
}
impl From<i32> for Ex {
    fn from(x: i32) -> Ex {
        Ex::int(i64::from(x))
    }
}
impl From<u32> for Ex {
    fn from(x: u32) -> Ex {
        Ex::int(i64::from(x))
    }
}
impl Num for Ex {
    type FromStrRadixErr = <f64 as Num>::FromStrRadixErr;
    fn from_str_radix(s: &str, radix: u32) -> Result<Ex, Self::FromStrRadixErr> {
        f64::from_str_radix(s, radix).map(Ex::from_float)
    }
}
impl ToPrimitive for Ex {
    fn to_i64(&self) -> Option<i64> {
        self.f.to_i64()
    }
    fn to_u64(&self) -> Option<u64> {
        self.f.to_u64()
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.f)
    }
}
thread_local! {
    /// integers beyond it cannot be converted to `Ex`
    static LIMIT: std::cell::Cell<i64> = const { std::cell::Cell::new(i64::MAX) };
}
fn beyond(x: f64) -> bool {
    x.abs() > LIMIT.get() as f64
}
/// Sets the limit until dropped.
struct Narrow;
impl Narrow {
    fn new(limit: i64) -> Narrow {
        LIMIT.set(limit);
        Narrow
    }
}
impl Drop for Narrow {
    fn drop(&mut self) {
        LIMIT.set(i64::MAX);
    }
}

impl FromPrimitive for Ex {
    fn from_i64(n: i64) -> Option<Ex> {
        (!beyond(n as f64)).then(|| Ex::int(n))
    }
    fn from_u64(n: u64) -> Option<Ex> {
        (!beyond(n as f64)).then(|| Ex { f: n as f64, p: residue(i128::from(n), P), q: residue(i128::from(n), Q) })
    }
    fn from_f32(x: f32) -> Option<Ex> {
        (!beyond(f64::from(x))).then(|| Ex::from_float(f64::from(x)))
    }
    fn from_f64(x: f64) -> Option<Ex> {
        (!beyond(x)).then(|| Ex::from_float(x))
    }
}
impl num_traits::NumCast for Ex {
    fn from<T: ToPrimitive>(n: T) -> Option<Ex> {
        let x = n.to_f64()?;
        if beyond(x) {
            return None;
        }
        if x.fract() == 0.0 && n.to_i64().is_some_and(|k| k as f64 == x) {
            return n.to_i64().map(Ex::int);
        }
        Some(Ex::from_float(x))
    }
}
impl Value for Ex {}

/// `Float` brings `Real` along.
impl Float for Ex {
    fn nan() -> Ex {
        Ex::vague(f64::NAN)
    }
    fn infinity() -> Ex {
        Ex::vague(f64::INFINITY)
    }
    fn neg_infinity() -> Ex {
        Ex::vague(f64::NEG_INFINITY)
    }
    fn neg_zero() -> Ex {
        Ex { f: -0.0, ..Ex::int(0) }
    }
    fn min_value() -> Ex {
        Ex::dyadic(f64::MIN)
    }
    fn min_positive_value() -> Ex {
        Ex::dyadic(f64::MIN_POSITIVE)
    }
    fn max_value() -> Ex {
        Ex::dyadic(f64::MAX)
    }
    fn epsilon() -> Ex {
        Ex::dyadic(f64::EPSILON)
    }
    fn is_nan(self) -> bool {
        self.f.is_nan()
    }
    fn is_infinite(self) -> bool {
        self.f.is_infinite()
    }
    fn is_finite(self) -> bool {
        self.f.is_finite()
    }
    fn is_normal(self) -> bool {
        self.f.is_normal()
    }
    fn classify(self) -> std::num::FpCategory {
        self.f.classify()
    }
    fn floor(self) -> Ex {
        self.map(f64::floor)
    }
    fn ceil(self) -> Ex {
        self.map(f64::ceil)
    }
    fn round(self) -> Ex {
        self.map(f64::round)
    }
    fn trunc(self) -> Ex {
        self.map(f64::trunc)
    }
    fn fract(self) -> Ex {
        self.map(f64::fract)
    }
    fn abs(self) -> Ex {
        if self.f < 0.0 {
            -self
        } else {
            self
        }
    }
    fn signum(self) -> Ex {
        if self.f.is_nan() {
            self
        } else {
            Ex::int(if self.f.is_sign_negative() { -1 } else { 1 })
        }
    }
    fn is_sign_positive(self) -> bool {
        self.f.is_sign_positive()
    }
    fn is_sign_negative(self) -> bool {
        self.f.is_sign_negative()
    }
    fn mul_add(self, a: Ex, b: Ex) -> Ex {
        self * a + b
    }
    fn recip(self) -> Ex {
        Ex::int(1) / self
    }
    fn powi(self, n: i32) -> Ex {
        let e = u64::from(n.unsigned_abs());
        let side = |a: u64, m: u64| if a == NONE { NONE } else { pow(a, e, m) };
        let r = Ex { f: self.f.powi(n.abs()), p: side(self.p, P), q: side(self.q, Q) };
        if n < 0 {
            r.recip()
        } else {
            r
        }
    }
    fn powf(self, n: Ex) -> Ex {
        let k = n.f.round();
        if n.f == k && k.abs() < 1e6 && n.same(Ex::int(k as i64)) == Some(true) {
            return self.powi(k as i32);
        }
        Ex::vague(self.f.powf(n.f))
    }
    fn sqrt(self) -> Ex {
        self.map(f64::sqrt)
    }
    fn exp(self) -> Ex {
        if self.q == NONE {
            return self.map(f64::exp);
        }
        Ex { f: self.f.exp(), p: pow(G, self.q, P), q: if self.q == 0 { 1 } else { NONE } }
    }
    fn exp2(self) -> Ex {
        self.map(f64::exp2)
    }
    fn ln(self) -> Ex {
        self.map(f64::ln)
    }
    fn log(self, base: Ex) -> Ex {
        Ex::vague(self.f.log(base.f))
    }
    fn log2(self) -> Ex {
        self.map(f64::log2)
    }
    fn log10(self) -> Ex {
        self.map(f64::log10)
    }
    fn max(self, o: Ex) -> Ex {
        if self.f.is_nan() || self < o {
            o
        } else {
            self
        }
    }
    fn min(self, o: Ex) -> Ex {
        if self.f.is_nan() || o < self {
            o
        } else {
            self
        }
    }
    fn abs_sub(self, o: Ex) -> Ex {
        if self <= o {
            Ex::int(0)
        } else {
            self - o
        }
    }
    fn cbrt(self) -> Ex {
        self.map(f64::cbrt)
    }
    fn hypot(self, o: Ex) -> Ex {
        Ex::vague(self.f.hypot(o.f))
    }
    fn sin(self) -> Ex {
        self.map(f64::sin)
    }
    fn cos(self) -> Ex {
        self.map(f64::cos)
    }
    fn tan(self) -> Ex {
        self.map(f64::tan)
    }
    fn asin(self) -> Ex {
        self.map(f64::asin)
    }
    fn acos(self) -> Ex {
        self.map(f64::acos)
    }
    fn atan(self) -> Ex {
        self.map(f64::atan)
    }
    fn atan2(self, o: Ex) -> Ex {
        Ex::vague(self.f.atan2(o.f))
    }
    fn sin_cos(self) -> (Ex, Ex) {
        (self.sin(), self.cos())
    }
    fn exp_m1(self) -> Ex {
        self.exp() - Ex::int(1)
    }
    fn ln_1p(self) -> Ex {
        self.map(f64::ln_1p)
    }
    fn sinh(self) -> Ex {
        self.map(f64::sinh)
    }
    fn cosh(self) -> Ex {
        self.map(f64::cosh)
    }
    fn tanh(self) -> Ex {
        self.map(f64::tanh)
    }
    fn asinh(self) -> Ex {
        self.map(f64::asinh)
    }
    fn acosh(self) -> Ex {
        self.map(f64::acosh)
    }
    fn atanh(self) -> Ex {
        self.map(f64::atanh)
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        Float::integer_decode(self.f)
    }
}

/// Compares exactly; the closure names the observation.
fn exactly(s: &mut Src, got: Ex, want: Ex, what: impl Fn() -> String) -> Outcome {
    match got.same(want) {
        None => s.label("no exact verdict"),
        Some(ok) => {
            s.checked(1);
            ensure!(ok, "{} = {got} in exact arithmetic, must be {want} (the two differ by about {:e})", what(), got.f - want.f);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ interpolation

struct Knots {
    xs: Vec<Ex>,
    ys: Vec<Ex>,
    ks: Vec<Ex>,
}

fn fraction(s: &mut Src, bound: i64) -> Ex {
    let d = match s.weighted(&[3, 2, 2]) {
        0 => 1,
        1 => s.int(1, 12),
        _ => *s.pick(&[8, 100, 365, 1000, 1 << 20]),
    };
    Ex::ratio(s.int_near(0, -bound * d, bound * d), d)
}

fn gen_knots(s: &mut Src, min: usize) -> Knots {
    let n = match s.weighted(&[60, 100, 20, 4, 1]) {
        0 => s.usize(min, min + 2),
        1 => s.usize(min, 9),
        2 => s.usize(min, 30),
        3 => s.usize(min, 100),
        _ => s.usize(min, 400),
    };
    let style = s.weighted(&[2, 3, 2, 2, 1]);
    let step = fraction(s, 5).abs() + Ex::ratio(1, 8);
    let mut x = if s.bool() { Ex::int(0) } else { fraction(s, 1000) };
    let (mut xs, mut ys, mut ks) = (Vec::new(), Vec::new(), Vec::new());
    let flat = s.weighted(&[6, 1, 1, 1]);
    let (a, b) = (fraction(s, 20), fraction(s, 20));
    for _ in 0..n {
        xs.push(x);
        ys.push(match flat {
            0 => fraction(s, 50),
            1 => a,
            2 => a + b * x,
            _ => Ex::int(s.int(0, 1)),
        });
        ks.push(fraction(s, 20));
        x += match style {
            0 => step,
            1 => Ex::ratio(s.int(1, 40), 8),
            // nearly even
            2 => step + Ex::ratio(s.int(0, 3), 1 << 30),
            // wildly uneven
            3 => Ex::ratio(s.int(1, 5_000), *s.pick(&[1, 10, 1000, 1 << 16])),
            _ => Ex::ratio(s.int(1, 300), 365),
        };
    }
    Knots { xs, ys, ks }
}

/// Value of the scheme at x in segment i, from its definition.
struct Exact {
    kind: Kind,
    xs: Vec<Ex>,
    ys: Vec<Ex>,
    slopes: Vec<(Ex, Ex)>,
}

impl Exact {
    fn new(kind: Kind, xs: &[Ex], ys: &[Ex], ks: &[Ex], pinned: bool) -> Exact {
        let n = xs.len();
        let h: Vec<Ex> = xs.windows(2).map(|w| w[1] - w[0]).collect();
        let chord: Vec<Ex> = (0..n - 1).map(|i| (ys[i + 1] - ys[i]) / h[i]).collect();
        let pair = |k: &[Ex]| k.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>();
        let slopes = match kind {
            Kind::Linear => chord.iter().map(|&c| (c, c)).collect(),
            Kind::Hermite => pair(ks),
            Kind::Catmull => {
                let mut k = vec![chord[0]];
                k.extend((1..n - 1).map(|i| (ys[i + 1] - ys[i - 1]) / (xs[i + 1] - xs[i - 1])));
                k.push(chord[n - 2]);
                let mut p = pair(&k);
                if pinned {
                    p[n - 2].0 = (ys[n - 1] - ys[n - 3]) / (h[n - 2] + (xs[n - 1] - xs[n - 3]));
                }
                p
            }
            Kind::Natural => {
                // h[i] k[i-1] + 2 (h[i-1] + h[i]) k[i] + h[i-1] k[i+1] = 3 (h[i] c[i-1] + h[i-1] c[i])
                let (two, three) = (Ex::int(2), Ex::int(3));
                let row = |i: usize| {
                    if i == 0 {
                        (Ex::int(0), two, Ex::int(1), three * chord[0])
                    } else if i == n - 1 {
                        (Ex::int(1), two, Ex::int(0), three * chord[n - 2])
                    } else {
                        (h[i], two * (h[i - 1] + h[i]), h[i - 1], three * (h[i] * chord[i - 1] + h[i - 1] * chord[i]))
                    }
                };
                let (mut c, mut d): (Vec<Ex>, Vec<Ex>) = (Vec::new(), Vec::new());
                for i in 0..n {
                    let (lo, di, up, r) = row(i);
                    let (pc, pd) = if i == 0 { (Ex::int(0), Ex::int(0)) } else { (c[i - 1], d[i - 1]) };
                    let inv = (di - lo * pc).recip();
                    c.push(up * inv);
                    d.push((r - lo * pd) * inv);
                }
                for i in (0..n - 1).rev() {
                    let k = d[i] - c[i] * d[i + 1];
                    d[i] = k;
                }
                pair(&d)
            }
        };
        Exact { kind, xs: xs.to_vec(), ys: ys.to_vec(), slopes }
    }
    fn value_in(&self, i: usize, x: Ex) -> Ex {
        let h = self.xs[i + 1] - self.xs[i];
        let t = (x - self.xs[i]) / h;
        if self.kind == Kind::Linear {
            return self.ys[i] + t * (self.ys[i + 1] - self.ys[i]);
        }
        let (k0, k1) = self.slopes[i];
        let (one, two, three) = (Ex::int(1), Ex::int(2), Ex::int(3));
        let u = one - t;
        u * u * (one + two * t) * self.ys[i] + t * t * (three - two * t) * self.ys[i + 1] + h * t * u * (u * k0 - t * k1)
    }
    fn value(&self, x: Ex) -> Ex {
        let i = self.xs.partition_point(|k| *k <= x).clamp(1, self.xs.len() - 1) - 1;
        self.value_in(i, x)
    }
}

type Eval = Box<dyn Fn(Ex) -> Result<Ex, InterpolationError<Ex>>>;

fn fit(kind: Kind, k: &Knots) -> Result<Eval, String> {
    let p: Vec<(Ex, Ex)> = k.xs.iter().copied().zip(k.ys.iter().copied()).collect();
    let e = |e: InterpolationError<Ex>| format!("{kind:?}: fitting {} valid knots fails: {e:?}", p.len());
    Ok(match kind {
        Kind::Linear => {
            let i = Linear::<Ex>::default().try_fit(&p).map_err(e)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Natural => {
            let i = NaturalCubic::<Ex>::default().try_fit(&p).map_err(e)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Catmull => {
            let i = CatmullRom::<Ex>::default().try_fit(&p).map_err(e)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Hermite => {
            let p: Vec<(Ex, Ex, Ex)> = (0..k.xs.len()).map(|i| (k.xs[i], k.ys[i], k.ks[i])).collect();
            let i = Hermite::<Ex>::try_new(&p).map_err(e)?;
            Box::new(move |x| i.try_value(x))
        }
    })
}

fn show(kind: Kind, k: &Knots) -> String {
    let n = k.xs.len();
    let p: Vec<String> = (0..n.min(6)).map(|i| if kind == Kind::Hermite { format!("({}, {}, slope {})", k.xs[i], k.ys[i], k.ks[i]) } else { format!("({}, {})", k.xs[i], k.ys[i]) }).collect();
    format!("{kind:?} through {}{}", p.join(" "), if n > 6 { format!(" ... {n} knots") } else { String::new() })
}

fn at_knots(s: &mut Src) -> Outcome {
    let kind = *s.pick(&[Kind::Linear, Kind::Natural, Kind::Catmull, Kind::Hermite]);
    let k = gen_knots(s, kind.min_points());
    let f = fit(kind, &k)?;
    let n = k.xs.len();
    for j in 0..n.min(12) {
        let i = if n <= 12 { j } else { s.usize(0, n - 1) };
        let got = f(k.xs[i]).map_err(|e| format!("{}: knot {} is rejected: {e:?}", show(kind, &k), k.xs[i]))?;
        exactly(s, got, k.ys[i], || format!("{}: value at knot {i} (x = {})", show(kind, &k), k.xs[i]))?;
    }
    s.nontrivial(s.tape_key());
    s.sample(|| show(kind, &k));
    Ok(())
}

fn inside(kind: Kind, s: &mut Src) -> Outcome {
    let k = gen_knots(s, kind.min_points());
    let f = fit(kind, &k)?;
    let r = Exact::new(kind, &k.xs, &k.ys, &k.ks, kind == Kind::Catmull && catmull_pinned());
    let n = k.xs.len();
    for _ in 0..4 {
        let i = match s.weighted(&[4, 1, 1]) {
            0 => s.usize(0, n - 2),
            1 => 0,
            _ => n - 2,
        };
        let d = *s.pick(&[2, 3, 8, 7, 1000, 1 << 24]);
        let x = k.xs[i] + (k.xs[i + 1] - k.xs[i]) * Ex::ratio(s.int(1, d - 1), d);
        let got = f(x).map_err(|e| format!("{}: {x} is rejected: {e:?}", show(kind, &k)))?;
        exactly(s, got, r.value_in(i, x), || format!("{}: value at {x}, in segment {i},", show(kind, &k)))?;
    }
    s.nontrivial(s.tape_key());
    s.sample(|| show(kind, &k));
    Ok(())
}

/// Fits one after the other on the same interpolator.
fn refits(s: &mut Src) -> Outcome {
    fn run<I: Interpolator<Value = Ex>>(kind: Kind, s: &mut Src) -> Outcome {
        let mut f = I::default();
        let m = s.usize(2, 4);
        for round in 0..m {
            let k = gen_knots(s, kind.min_points());
            let p: Vec<(Ex, Ex)> = k.xs.iter().copied().zip(k.ys.iter().copied()).collect();
            f = f.try_fit(&p).map_err(|e| format!("{}: fit {round} fails: {e:?}", show(kind, &k)))?;
            let r = Exact::new(kind, &k.xs, &k.ys, &k.ks, kind == Kind::Catmull && catmull_pinned());
            for _ in 0..3 {
                let i = s.usize(0, k.xs.len() - 2);
                let x = k.xs[i] + (k.xs[i + 1] - k.xs[i]) * Ex::ratio(s.int(1, 6), 7);
                let got = f.try_value(x).map_err(|e| format!("{}: {x} is rejected after fit {round}: {e:?}", show(kind, &k)))?;
                exactly(s, got, r.value_in(i, x), || format!("{}: value at {x} after {round} earlier fits", show(kind, &k)))?;
            }
        }
        s.nontrivial(s.tape_key());
        Ok(())
    }
    match s.draw(3) {
        0 => run::<Linear<Ex>>(Kind::Linear, s),
        1 => run::<NaturalCubic<Ex>>(Kind::Natural, s),
        _ => run::<CatmullRom<Ex>>(Kind::Catmull, s),
    }
}

// ------------------------------------------------------------------------------------ day counts

fn year_units(b: Basis) -> i64 {
    match b {
        Basis::Act365 => 365,
        Basis::Act360 | Basis::Thirty360 => 360,
        _ => unreachable!(),
    }
}
fn time(b: Basis, from: Ymd, to: Ymd) -> Option<Ex> {
    Some(Ex::ratio(b.units(from, to)?, year_units(b)))
}

fn fraction_of<D: Conv>(s: &mut Src) -> Outcome {
    let a = gen_ymd(s);
    let b = match s.weighted(&[2, 2, 1]) {
        0 => gen_near(s, a, 800),
        1 => gen_near(s, a, 20_000),
        _ => gen_ymd(s),
    };
    let got = D::calculate_day_count_fraction::<Ex>(a.date(), b.date());
    match (got, time(D::B, a, b)) {
        (Ok(v), Some(w)) => exactly(s, v, w, || format!("{:?}({}, {})", D::B, a.iso(), b.iso()))?,
        (Ok(v), None) => engine::fail!("{:?}({}, {}) = {v}, must be an error", D::B, a.iso(), b.iso()),
        (Err(e), Some(_)) => engine::fail!("{:?}({}, {}) is an error: {e}", D::B, a.iso(), b.iso()),
        (Err(_), None) => s.label("rejected"),
    }
    if a != b {
        s.nontrivial(s.tape_key());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ curves

trait ExScheme: Interpolator<Value = Ex> {
    const K: Kind;
}
impl ExScheme for Linear<Ex> {
    const K: Kind = Kind::Linear;
}
impl ExScheme for NaturalCubic<Ex> {
    const K: Kind = Kind::Natural;
}
impl ExScheme for CatmullRom<Ex> {
    const K: Kind = Kind::Catmull;
}

macro_rules! each_combination {
    ($s:expr, $f:ident) => {
        match $s.draw(9) {
            0 => $f::<Act365, Linear<Ex>>($s),
            1 => $f::<Act360, Linear<Ex>>($s),
            2 => $f::<Thirty360, Linear<Ex>>($s),
            3 => $f::<Act365, NaturalCubic<Ex>>($s),
            4 => $f::<Act360, NaturalCubic<Ex>>($s),
            5 => $f::<Thirty360, NaturalCubic<Ex>>($s),
            6 => $f::<Act365, CatmullRom<Ex>>($s),
            7 => $f::<Act360, CatmullRom<Ex>>($s),
            _ => $f::<Thirty360, CatmullRom<Ex>>($s),
        }
    };
}

struct ExCurve<D: Conv, I: ExScheme> {
    settle: Ymd,
    pillars: Vec<Ymd>,
    yields: Vec<Ex>,
    r: Exact,
    lib: YieldCurve<D, I>,
}

impl<D: Conv, I: ExScheme> ExCurve<D, I> {
    fn gen(s: &mut Src, settle: Ymd, until: Option<Ymd>) -> Result<Self, String> {
        let n = match s.weighted(&[40, 40, 6, 1]) {
            0 => s.usize(I::K.min_points(), 4),
            1 => s.usize(I::K.min_points(), 12),
            2 => s.usize(I::K.min_points(), 60),
            _ => s.usize(I::K.min_points(), 250),
        };
        let mut pillars: Vec<Ymd> = Vec::new();
        let step = *s.pick(&[10, 100, 900]);
        let mut at = if s.chance(3, 4) { settle } else { settle.add_days(i128::from(s.int(1, 300))).unwrap() };
        let push = |pillars: &mut Vec<Ymd>, at: Ymd| {
            let u = |d: Ymd| D::B.units(settle, d);
            if pillars.last().map_or(true, |&l| u(l) < u(at)) {
                pillars.push(at);
            }
        };
        while pillars.len() < n {
            push(&mut pillars, at);
            at = at.add_days(i128::from(s.int(1, step))).unwrap();
        }
        if let Some(u) = until {
            push(&mut pillars, u);
        }
        let level = s.int(0, 900);
        let flat = s.chance(1, 6);
        let yields: Vec<Ex> = pillars.iter().map(|_| if flat { Ex::ratio(level, 10_000) } else { Ex::ratio(s.int_near(level, -300, 1500), 10_000) }).collect();
        let t: Vec<Ex> = pillars.iter().map(|&p| time(D::B, settle, p).unwrap()).collect();
        let r = Exact::new(I::K, &t, &yields, &[], I::K == Kind::Catmull && catmull_pinned());
        let dates: Vec<Date> = pillars.iter().map(|p| p.date()).collect();
        let lib = YieldCurve::<D, I>::new(settle.date(), &dates, &yields).map_err(|e| format!("building an exact curve of {} with {} pillars fails: {e}", settle.iso(), dates.len()))?;
        Ok(ExCurve { settle, pillars, yields, r, lib })
    }
    fn show(&self) -> String {
        let n = self.pillars.len();
        let p: Vec<String> = (0..n.min(6)).map(|i| format!("{} {}", self.pillars[i].iso(), self.yields[i])).collect();
        format!("{:?} {:?} curve of {} with {}{}", I::K, D::B, self.settle.iso(), p.join(", "), if n > 6 { format!(" ... {n} pillars") } else { String::new() })
    }
    fn exponent(&self, d: Ymd) -> Option<Ex> {
        let (k, u) = (D::B.units(self.settle, d)?, |d: Ymd| D::B.units(self.settle, d).unwrap());
        if k < u(self.pillars[0]) || k > u(*self.pillars.last().unwrap()) {
            return None;
        }
        let t = time(D::B, self.settle, d)?;
        Some(t * self.r.value(t))
    }
    /// reference factor; None = an error
    fn factor(&self, a: Ymd, b: Ymd) -> Option<Ex> {
        if b < a || a < self.settle {
            return None;
        }
        let e2 = self.exponent(b)?;
        let e1 = if a == self.settle { Ex::int(0) } else { self.exponent(a)? };
        Some(Float::exp(e1 - e2))
    }
    fn df(&self, a: Ymd, b: Ymd) -> Result<Ex, String> {
        self.lib.discount_factor(a.date(), b.date()).map_err(|e| format!("{}: discount_factor({}, {}) is an error: {e}", self.show(), a.iso(), b.iso()))
    }
    fn gen_date(&self, s: &mut Src) -> Ymd {
        let lo = self.pillars[0].max(self.settle);
        gen_between(s, &self.pillars, lo, *self.pillars.last().unwrap())
    }
}

fn factors<D: Conv, I: ExScheme>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let c = ExCurve::<D, I>::gen(s, settle, None)?;
    for _ in 0..4 {
        let a = if s.chance(1, 3) { settle } else { c.gen_date(s) };
        let b = c.gen_date(s);
        let (a, b) = (a.min(b), a.max(b));
        if a == b {
            continue;
        }
        let want = c.factor(a, b).ok_or("harness: date off the curve")?;
        exactly(s, c.df(a, b)?, want, || format!("{}: discount_factor({}, {})", c.show(), a.iso(), b.iso()))?;
    }
    s.nontrivial(s.tape_key());
    s.sample(|| c.show());
    Ok(())
}

fn relations<D: Conv, I: ExScheme>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let c = ExCurve::<D, I>::gen(s, settle, None)?;
    let mut old: Vec<(Ymd, Ymd, Ex)> = Vec::new();
    for _ in 0..4 {
        let mut d = [c.gen_date(s), c.gen_date(s), c.gen_date(s)];
        if s.chance(1, 3) {
            d[0] = settle;
        }
        d.sort();
        if d[0] < d[1] && d[1] < d[2] {
            let (x, y, xy) = (c.df(d[0], d[1])?, c.df(d[1], d[2])?, c.df(d[0], d[2])?);
            exactly(s, x * y, xy, || format!("{}: the product of the factors {} -> {} -> {}", c.show(), d[0].iso(), d[1].iso(), d[2].iso()))?;
            old.push((d[0], d[2], xy));
            s.nontrivial(s.tape_key());
        }
        let i = s.usize(0, c.pillars.len() - 1);
        let p = c.pillars[i];
        if p > settle {
            let t = time(D::B, settle, p).unwrap();
            exactly(s, c.df(settle, p)?, Float::exp(-(t * c.yields[i])), || format!("{}: factor to pillar {}", c.show(), p.iso()))?;
        }
        let again = if old.is_empty() { None } else { Some(*s.pick(&old)) };
        if let Some((a, b, v)) = again {
            exactly(s, c.df(a, b)?, v, || format!("{}: repeated discount_factor({}, {})", c.show(), a.iso(), b.iso()))?;
        }
    }
    s.sample(|| c.show());
    Ok(())
}

// ------------------------------------------------------------------------------------ bonds

/// Yields zero everywhere.
#[derive(Default, Debug)]
pub struct Nothing;
impl Interpolator for Nothing {
    type Value = Ex;
    fn try_fit(self, _: &[(Ex, Ex)]) -> Result<Self, InterpolationError<Ex>> {
        Ok(Nothing)
    }
    fn try_value(&self, _: Ex) -> Result<Ex, InterpolationError<Ex>> {
        Ok(Ex::int(0))
    }
}

struct ExBond {
    t: Terms,
    rate: Ex,
    face: Ex,
    /// due, paid, amount
    flows: Vec<(Ymd, Ymd, Ex)>,
    lib: Bond<Ex>,
}

impl ExBond {
    fn gen(s: &mut Src, irregular: bool, most: i64) -> Result<ExBond, String> {
        let t = gen_terms::<f64>(s, irregular, most);
        let rate = match s.weighted(&[4, 3, 1]) {
            0 => Ex::ratio(s.int(0, 15), 100),
            1 => Ex::ratio(s.int_near(0, -2_000, 20_000), 100_000),
            _ => Ex::ratio(s.int(1, 1 << 40), 1 << 42),
        };
        let face = match s.weighted(&[4, 2, 1]) {
            0 => Ex::int(*s.pick(&[100, 1, 1000, 1_000_000])),
            1 => Ex::ratio(s.int(1, 99_999_999), 100),
            _ => Ex::int(s.int(1, 1 << 40)),
        };
        let regular = rate * face / Ex::int(2);
        let mut flows: Vec<(Ymd, Ymd, Ex)> = t.due_dates().into_iter().map(|d| (d, d.roll_weekend().unwrap(), regular)).collect();
        let days = |a: Ymd, b: Ymd| b.serial() - a.serial();
        let prior = t.first.add_months(-6).unwrap();
        flows[0].2 = regular
            * if t.issue >= prior {
                Ex::ratio(days(t.issue, t.first), days(prior, t.first))
            } else {
                Ex::int(1) + Ex::ratio(days(t.issue, prior), days(prior.add_months(-6).unwrap(), prior))
            };
        let next = t.penult.add_months(6).unwrap();
        let last = if t.maturity <= next {
            Ex::ratio(days(t.penult, t.maturity), days(t.penult, next))
        } else {
            Ex::int(1) + Ex::ratio(days(next, t.maturity), days(next, next.add_months(6).unwrap()))
        };
        flows.push((t.maturity, t.maturity, face + regular * last));
        let lib = Bond::new("x", t.issue.date(), t.first.date(), t.penult.date(), t.maturity.date(), Frequency::SA, rate, face)
            .ok_or_else(|| format!("{t:?}: Bond::new gives None"))?;
        Ok(ExBond { t, rate, face, flows, lib })
    }
    fn show(&self) -> String {
        let t = &self.t;
        format!("bond issued {}, coupons {} .. {}, maturity {}, rate {}, face {}", t.issue.iso(), t.first.iso(), t.penult.iso(), t.maturity.iso(), self.rate, self.face)
    }
    fn gen_at(&self, s: &mut Src) -> Ymd {
        match s.weighted(&[2, 3, 1]) {
            0 => self.t.issue.add_days(i128::from(s.int_near(0, -20, 400))).unwrap(),
            1 => {
                let due = s.pick(&self.flows).0;
                due.add_days(i128::from(s.int_near(0, -2, 2))).unwrap()
            }
            _ => Ymd::from_serial(s.int(self.t.issue.serial(), self.t.maturity.serial())).unwrap(),
        }
    }
}

/// The flows themselves, on a curve that discounts nothing.
fn amounts(irregular: bool, s: &mut Src) -> Outcome {
    let b = ExBond::gen(s, irregular, 20)?;
    for _ in 0..5 {
        let at = b.gen_at(s);
        let d = [at.date(), at.add_days(1).unwrap().date()];
        let c = YieldCurve::<Act365, Nothing>::new(at.date(), &d, &[Ex::int(0), Ex::int(0)]).map_err(|e| e.to_string())?;
        let got = b.lib.discounted_value(at.date(), &c).map_err(|e| format!("{}: undiscounted value at {} is an error: {e}", b.show(), at.iso()))?;
        let want: Ex = b.flows.iter().filter(|f| at < f.0).map(|f| f.2).sum();
        exactly(s, got, want, || format!("{}: sum of the flows due after {}", b.show(), at.iso()))?;
    }
    s.nontrivial(s.tape_key());
    s.sample(|| b.show());
    Ok(())
}
fn regular_amounts(s: &mut Src) -> Outcome {
    amounts(false, s)
}
fn irregular_amounts(s: &mut Src) -> Outcome {
    amounts(true, s)
}

fn end_to_end<D: Conv, I: ExScheme>(s: &mut Src) -> Outcome {
    let b = ExBond::gen(s, true, 8)?;
    let start = if s.chance(4, 5) { b.t.issue.add_days(i128::from(s.int_near(0, -50, 300))).unwrap() } else { b.gen_at(s) };
    let until = if s.chance(5, 6) { Some(b.t.maturity.add_days(i128::from(s.int(0, 500))).unwrap()) } else { None };
    let c = ExCurve::<D, I>::gen(s, start, until.filter(|u| *u > start))?;
    for _ in 0..3 {
        let at = if s.bool() { start } else { b.gen_at(s) };
        let want: Option<Vec<Ex>> = b.flows.iter().filter(|f| at < f.0).map(|f| Some(f.2 * c.factor(at, f.1)?)).collect();
        let name = || format!("{} on the {}, settlement {}: value", b.show(), c.show(), at.iso());
        match (b.lib.discounted_value(at.date(), &c.lib), want) {
            (Ok(v), Some(w)) => {
                if w.len() > 1 {
                    s.nontrivial(s.tape_key());
                }
                s.label("priced");
                exactly(s, v, w.into_iter().sum(), name)?;
            }
            (Err(_), None) => s.label("not priceable"),
            (Ok(v), None) => engine::fail!("{} = {v}, but some flow cannot be discounted", name()),
            (Err(e), Some(_)) => engine::fail!("{} is an error: {e}", name()),
        }
    }
    s.sample(|| format!("{} on the {}", b.show(), c.show()));
    Ok(())
}

/// Numbers of days too large for the number type: the day count says so, and so do the curve and the
/// price, and the bond that needs one cannot be made.
fn narrow<D: Conv>(s: &mut Src) -> Outcome {
    let limit = s.int_near(1_000, 370, 5_000);
    let too_far = |a: Ymd, b: Ymd| D::B.units(a, b).is_some_and(|n| n.abs() > limit);
    let is_cast = |e: &QLabError| matches!(e, QLabError::ComputeError(ComputeError::CastNumberError(_)));
    let settle = gen_settle(s);
    let far = |s: &mut Src, a: Ymd| match s.weighted(&[2, 2, 1]) {
        0 => a.add_days(i128::from(s.int(0, 2 * limit))).unwrap(),
        1 => a.add_days(i128::from(limit + s.int_near(0, -3, 60))).unwrap(),
        _ => gen_near(s, a, 8_000),
    };
    let guard = Narrow::new(limit);
    for _ in 0..3 {
        let b = far(s, settle);
        let what = || format!("{:?}({}, {}) with numbers up to {limit}", D::B, settle.iso(), b.iso());
        match D::calculate_day_count_fraction::<Ex>(settle.date(), b.date()) {
            Ok(v) => {
                ensure!(!too_far(settle, b), "{} = {v}, but the number of days cannot be represented", what());
                let Some(w) = time(D::B, settle, b) else { engine::fail!("{} = {v}, must be an error", what()) };
                exactly(s, v, w, what)?;
            }
            Err(e) if too_far(settle, b) => ensure!(is_cast(&e), "{}: error {e:?}, but the number of days cannot be represented", what()),
            Err(e) => ensure!(D::B.units(settle, b).is_none() && !is_cast(&e), "{}: error {e:?}", what()),
        }
        s.checked(1);
    }
    // a curve
    let pillars = {
        let mut p = vec![settle, settle.add_days(i128::from(s.int(3, limit - 10))).unwrap()];
        if s.bool() {
            p.push(p[1].add_days(i128::from(s.int(3, 2 * limit))).unwrap());
        }
        p
    };
    let dates: Vec<Date> = pillars.iter().map(|p| p.date()).collect();
    let yields: Vec<Ex> = pillars.iter().map(|_| Ex::int(0)).collect();
    let last = *pillars.last().unwrap();
    let what = || format!("{:?} curve of {} with pillars {}, numbers up to {limit}", D::B, settle.iso(), pillars.iter().map(|p| p.iso()).collect::<Vec<_>>().join(", "));
    let built = YieldCurve::<D, Linear<Ex>>::new(settle.date(), &dates, &yields);
    ensure!(built.is_ok() != too_far(settle, last), "{}: {}", what(), if built.is_ok() { "built, but a pillar is too far away" } else { "cannot be built" });
    if let Err(e) = &built {
        ensure!(is_cast(e), "{}: error {e:?}, but a pillar is too far away", what());
        s.label("pillar too far");
    }
    let Ok(open) = YieldCurve::<D, Nothing>::new(settle.date(), &dates[..2], &yields[..2]) else { engine::fail!("{}: cannot be built", what()) };
    // a bond around the limit
    let mut t = gen_terms::<f64>(s, true, 12);
    let shift = s.int(-400, limit) - (t.issue.serial() - settle.serial());
    let move_by = |d: Ymd| d.add_days(i128::from(shift)).unwrap();
    (t.issue, t.first, t.penult, t.maturity) = (move_by(t.issue), move_by(t.first), move_by(t.penult), move_by(t.maturity));
    let b = Bond::new("x", t.issue.date(), t.first.date(), t.penult.date(), t.maturity.date(), Frequency::SA, Ex::ratio(1, 20), Ex::int(100));
    let days = |a: Ymd, b: Ymd| b.serial() - a.serial();
    let (prior, next) = (t.first.add_months(-6).unwrap(), t.penult.add_months(6).unwrap());
    let what = || format!("bond issued {}, coupons {} .. {}, maturity {}, numbers up to {limit}", t.issue.iso(), t.first.iso(), t.penult.iso(), t.maturity.iso());
    if days(t.issue, prior) > limit || days(next, t.maturity) > limit {
        s.label("stub too long");
        ensure!(b.is_none(), "{}: built, but the length of a stub cannot be represented", what());
    } else if days(t.issue, t.first) <= limit && days(t.penult, t.maturity) <= limit {
        ensure!(b.is_some(), "{}: Bond::new gives None", what());
    }
    s.checked(2);
    if let Some(b) = b {
        let at = settle.add_days(i128::from(s.int(0, 30))).unwrap();
        let mut pays: Vec<(Ymd, Ymd)> = t.due_dates().into_iter().map(|d| (d, d.roll_weekend().unwrap())).collect();
        pays.push((t.maturity, t.maturity));
        let bad = pays.iter().filter(|p| at < p.0).any(|p| too_far(settle, p.1));
        match b.discounted_value(at.date(), &open) {
            Ok(v) => ensure!(!bad, "{}: value {v} at {} although a payment date is too far from the curve's settlement {}", what(), at.iso(), settle.iso()),
            Err(e) => ensure!(bad && is_cast(&e), "{}: value at {}, curve of {}: error {e:?}", what(), at.iso(), settle.iso()),
        }
        s.label(if bad { "payment too far" } else { "payments within reach" });
        s.checked(1);
        if bad {
            s.nontrivial(s.tape_key());
        }
    }
    drop(guard);
    s.sample(what);
    Ok(())
}

/// Number types that cannot represent the days of the year either: every fraction is a cast error, and
/// so is every curve and every price.
fn narrower<D: Conv>(s: &mut Src) -> Outcome {
    let year = if matches!(D::B, Basis::Act365) { 365 } else { 360 };
    let limit = s.int_near(364, 31, 369);
    let is_cast = |e: &QLabError| matches!(e, QLabError::ComputeError(ComputeError::CastNumberError(_)));
    let (settle, n) = (gen_settle(s), s.int(1, 30));
    let to = settle.add_days(i128::from(if s.chance(1, 8) { -n } else if s.chance(1, 8) { 0 } else { n })).unwrap();
    let later = settle.add_days(i128::from(n)).unwrap();
    let (a, b, c) = (settle.date(), to.date(), later.date());
    let _guard = Narrow::new(limit);
    let what = || format!("{:?}({}, {}) with numbers up to {limit}", D::B, settle.iso(), to.iso());
    let refused = D::B.units(settle, to).is_none();
    match D::calculate_day_count_fraction::<Ex>(a, b) {
        Ok(v) => {
            ensure!(limit >= year, "{} = {v}, but {year} cannot be represented", what());
            ensure!(!refused, "{} = {v}, must be an error", what());
        }
        Err(e) => ensure!(refused || (limit < year && is_cast(&e)), "{}: error {e:?}", what()),
    }
    let yields = [Ex::int(0), Ex::int(0)];
    match YieldCurve::<D, Nothing>::new(a, &[a, c], &yields) {
        Ok(curve) => {
            ensure!(limit >= year, "a curve under {:?}, but {year} cannot be represented", D::B);
            let r = curve.discount_factor(a, c);
            ensure!(r.is_ok(), "{:?} factor from {} to {}: {:?}", D::B, settle.iso(), later.iso(), r.err());
        }
        Err(e) => ensure!(limit < year && is_cast(&e), "{:?} curve of {} with pillar {} and numbers up to {limit}: error {e:?}", D::B, settle.iso(), later.iso()),
    }
    s.checked(2);
    s.label(if limit < year { "no year" } else { "year within reach" });
    if limit < year {
        s.nontrivial(s.tape_key());
    }
    s.sample(what);
    Ok(())
}

pub fn extend(all: &mut [Property]) {
    for p in all {
        let subs = match p.id {
            "C06" => vec![gen("exact-360", 40_000, 2_000_000, fraction_of::<Act360>), gen("exact-365", 40_000, 2_000_000, fraction_of::<Act365>)],
            "C07" => vec![gen("exact", 60_000, 3_000_000, fraction_of::<Thirty360>)],
            "C22" => vec![gen("exact", 20_000, 1_500_000, at_knots)],
            "C23" => vec![gen("exact", 20_000, 1_500_000, |s| inside(Kind::Linear, s))],
            "C24" => vec![gen("exact", 20_000, 1_500_000, |s| inside(Kind::Natural, s))],
            "C25" => vec![gen("exact", 20_000, 1_500_000, |s| inside(Kind::Catmull, s))],
            "C26" => vec![gen("exact", 20_000, 1_500_000, |s| inside(Kind::Hermite, s))],
            "C28" => vec![gen("exact", 10_000, 500_000, refits)],
            "C29" => vec![gen("exact", 15_000, 1_000_000, |s| each_combination!(s, factors))],
            "C30" => vec![gen("exact", 15_000, 1_000_000, |s| each_combination!(s, relations))],
            "C32" => vec![gen("exact", 15_000, 1_000_000, regular_amounts)],
            "C33" => vec![gen("exact", 15_000, 1_000_000, irregular_amounts)],
            "C34" | "C35" => vec![gen("exact", 10_000, 600_000, |s| each_combination!(s, end_to_end))],
            "C36" => {
                p.subs.push(gen("narrow", 40_000, 2_000_000, |s| match s.draw(3) {
                    0 => narrow::<Act365>(s),
                    1 => narrow::<Act360>(s),
                    _ => narrow::<Thirty360>(s),
                }));
                p.subs.push(gen("narrower", 20_000, 1_000_000, |s| match s.draw(3) {
                    0 => narrower::<Act365>(s),
                    1 => narrower::<Act360>(s),
                    _ => narrower::<Thirty360>(s),
                }));
                p.rule = Box::leak(format!("{} narrow and narrower: with a user-defined number type that refuses large integers (the days of a year, too), number-conversion errors of day counts, curves and prices.", p.rule).into_boxed_str());
                continue;
            }
            _ => continue,
        };
        p.subs.extend(subs);
        p.rule = Box::leak(format!("{} exact: the same with a user-defined number type that computes modulo primes, so that results are compared without rounding.", p.rule).into_boxed_str());
    }
}
