//! C29-C31: yield curves.

use crate::fl::Fl;
use crate::interp::{often, Lcg};
use crate::interp_ref::*;
use crate::model::*;
use engine::{ensure, fail, gen, Outcome, Property, Src};
use qlab_error::{ComputeError, InterpolationError, QLabResult};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Basis {
    Act360,
    Act365,
    Thirty360,
    /// user-defined: actual days over 250
    Odd,
    /// user-defined: actual days over 365.25, rejecting the 13th of any month
    Picky,
    /// user-defined: the same, rejecting three days of any month (errors.rs)
    Fussy,
}
impl Basis {
    /// Numerator of the day-count fraction; None where the convention rejects the pair.
    pub fn units(self, a: Ymd, b: Ymd) -> Option<i64> {
        match self {
            Basis::Thirty360 if a > b => None,
            Basis::Thirty360 => Some(360 * (b.y - a.y) + 30 * (b.m - a.m) + b.d.min(30) - a.d.min(30)),
            Basis::Picky if b.d == 13 && a != b => None,
            Basis::Fussy if [7, 13, 21].contains(&b.d) && a != b => None,
            _ => Some(b.serial() - a.serial()),
        }
    }
    pub fn year(self) -> f64 {
        match self {
            Basis::Act365 => 365.0,
            Basis::Act360 | Basis::Thirty360 => 360.0,
            Basis::Odd => 250.0,
            Basis::Picky | Basis::Fussy => 365.25,
        }
    }
    pub fn time<V: Fl>(self, a: Ymd, b: Ymd) -> Option<V> {
        Some(V::of(self.units(a, b)? as f64) / V::of(self.year()))
    }
}

pub trait Conv: DayCount {
    const B: Basis;
}
impl Conv for Act360 {
    const B: Basis = Basis::Act360;
}
impl Conv for Act365 {
    const B: Basis = Basis::Act365;
}
impl Conv for Thirty360 {
    const B: Basis = Basis::Thirty360;
}

#[derive(Clone, Copy)]
pub struct Odd;
impl DayCount for Odd {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        Ok(V::from_i64(b - a).unwrap() / V::from_f64(250.0).unwrap())
    }
}
impl Conv for Odd {
    const B: Basis = Basis::Odd;
}
#[derive(Clone, Copy)]
pub struct Picky;
impl DayCount for Picky {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        if b.day() == 13 && a != b {
            return Err(ComputeError::ZeroDivisionError.into());
        }
        Ok(V::from_i64(b - a).unwrap() / V::from_f64(365.25).unwrap())
    }
}
impl Conv for Picky {
    const B: Basis = Basis::Picky;
}

pub trait Scheme: Interpolator<Value = Self::F> {
    type F: Fl;
    const K: Kind;
}
impl<V: Fl> Scheme for Linear<V> {
    type F = V;
    const K: Kind = Kind::Linear;
}
impl<V: Fl> Scheme for NaturalCubic<V> {
    type F = V;
    const K: Kind = Kind::Natural;
}
impl<V: Fl> Scheme for CatmullRom<V> {
    type F = V;
    const K: Kind = Kind::Catmull;
}

/// A user-defined interpolator: a + b t, defined everywhere, from the first two supplied values.
#[derive(Default, Debug)]
pub struct Affine<V> {
    pub a: V,
    pub b: V,
}
impl<V: Fl> Interpolator for Affine<V> {
    type Value = V;
    fn try_fit(self, p: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        Ok(Affine { a: p[0].1, b: p[1].1 })
    }
    fn try_value(&self, t: V) -> Result<V, InterpolationError<V>> {
        Ok(self.a + self.b * t)
    }
}

/// A user-defined interpolator: the value of the latest point not after t; points with a value of
/// at least `GAP` stand for intervals in which it refuses to answer, as before the first point.
#[derive(Default, Debug)]
pub struct Gaps<V> {
    points: Vec<(V, V)>,
}
const GAP: f64 = 1000.0;
impl<V: Fl> Interpolator for Gaps<V> {
    type Value = V;
    fn try_fit(self, p: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
        if p.is_empty() {
            return Err(InterpolationError::InsufficientPointsError(0));
        }
        Ok(Gaps { points: p.to_vec() })
    }
    fn try_value(&self, t: V) -> Result<V, InterpolationError<V>> {
        match self.points.iter().rev().find(|p| p.0 <= t) {
            None => Err(InterpolationError::OutOfLowerBound(t)),
            Some(p) if p.1.f() >= GAP => Err(InterpolationError::OutOfUpperBound(t)),
            Some(p) => Ok(p.1),
        }
    }
}

pub struct GapData<V> {
    pub settle: Ymd,
    pillars: Vec<(Ymd, V)>,
}

/// Pillars over `span` days after `settle` that the day count accepts.
pub fn gen_gaps<D: Conv, V: Fl>(s: &mut Src, settle: Ymd, span: i64) -> GapData<V> {
    let n = s.usize(1, 6);
    let gaps = s.chance(2, 3);
    let mut at = if s.chance(3, 4) { settle } else { settle.add_days(i128::from(s.int(1, 40))).unwrap() };
    let mut pillars = Vec::new();
    for _ in 0..n {
        if D::B.units(settle, at).is_some() {
            let y = if gaps && s.chance(1, 4) { 2.0 * GAP } else { s.f64(-0.03, 0.15) };
            pillars.push((at, V::of(y)));
        }
        at = at.add_days(i128::from(s.int(1, 1 + 2 * span / n as i64))).unwrap();
    }
    if pillars.is_empty() {
        pillars.push((settle, V::of(0.02)));
    }
    GapData { settle, pillars }
}

impl<V: Fl> GapData<V> {
    pub fn build<D: Conv>(&self) -> Result<YieldCurve<D, Gaps<V>>, String> {
        let dates: Vec<Date> = self.pillars.iter().map(|p| p.0.date()).collect();
        let yields: Vec<V> = self.pillars.iter().map(|p| p.1).collect();
        YieldCurve::new(self.settle.date(), &dates, &yields).map_err(|e| format!("{}: building the curve fails: {e}", self.show(D::B)))
    }
    pub fn show(&self, b: Basis) -> String {
        let p: Vec<String> = self.pillars.iter().map(|p| if p.1.f() >= GAP { format!("{} refused", p.0.iso()) } else { format!("{} {}", p.0.iso(), p.1) }).collect();
        format!("a stepwise {b:?}<{}> curve of {} with {}", V::NAME, self.settle.iso(), p.join(", "))
    }
    /// time and exponent at a date
    fn ty(&self, b: Basis, d: Ymd) -> Option<(f64, f64)> {
        let k = b.units(self.settle, d)?;
        let t = k as f64 / b.year();
        let y = self.pillars.iter().rev().find(|p| b.units(self.settle, p.0).is_some_and(|u| u <= k))?.1.f();
        (y < GAP).then_some((t, t * y))
    }
    /// Factor and its accepted relative difference; None = an error.
    pub fn factor(&self, b: Basis, d1: Ymd, d2: Ymd) -> Option<(f64, f64)> {
        if d1 > d2 || d1 < self.settle {
            return None;
        }
        let e2 = self.ty(b, d2)?.1;
        let e1 = if d1 == self.settle { 0.0 } else { self.ty(b, d1)?.1 };
        Some(((e1 - e2).exp(), 16.0 * V::EPS * (1.0 + e1.abs() + e2.abs())))
    }
}

pub struct CurveData<V> {
    pub settle: Ymd,
    pub pillars: Vec<Ymd>,
    pub yields: Vec<V>,
}

pub fn gen_settle(s: &mut Src) -> Ymd {
    let y = match s.weighted(&[9, 1]) {
        0 => s.int_near(2023, 1950, 2100),
        _ => s.int_near(1899, -4_000, 8_000),
    };
    day_in_year(s, y)
}

pub fn gen_curve<V: Fl>(s: &mut Src, basis: Basis, settle: Ymd, min: usize, from_settle: bool) -> CurveData<V> {
    let n = match s.weighted(&[60, 100, 18, 3, 1]) {
        0 => s.usize(min, min + 1),
        1 => s.usize(min, 10),
        2 => s.usize(min, 30),
        3 => s.usize(min, 120),
        _ => s.usize(min, 400),
    };
    let mut pillars: Vec<Ymd> = Vec::with_capacity(n);
    let style = s.weighted(&[2, 2, 1, 2]);
    let mut at = if from_settle || s.bool() { settle } else { settle.add_days(i128::from(s.int(1, 200))).unwrap() };
    while pillars.len() < n {
        if pillars.last().map_or(true, |&l| basis.units(l, at).unwrap() > 0 && basis.units(settle, at) > basis.units(settle, l)) {
            pillars.push(at);
        }
        at = match style {
            0 => at.add_months(s.int(1, 12)),
            1 => at.add_years(s.int(1, 4)),
            2 => at.add_days(i128::from(s.int(1, 9))),
            _ => at.add_days(i128::from(s.int(1, 900))),
        }
        .unwrap();
    }
    let style = s.weighted(&[8, 4, 4, 2, 2, 1]);
    let level = s.f64(-0.02, 0.12);
    let tilt = s.f64(-0.02, 0.02);
    let yields = (0..n)
        .map(|i| {
            V::of(match style {
                0 => s.f64(-0.03, 0.15),
                1 => level,
                2 => level + tilt * i as f64 / n as f64,
                3 => 0.0,
                5 => s.f64(-0.5, 2.0),
                _ => level + 0.001 * s.int_near(0, -8, 8) as f64,
            })
        })
        .collect();
    CurveData { settle, pillars, yields }
}

impl<V: Fl> CurveData<V> {
    pub fn times(&self, basis: Basis) -> Vec<V> {
        self.pillars.iter().map(|&p| basis.time(self.settle, p).unwrap()).collect()
    }
    pub fn build<D: Conv, I: Interpolator<Value = V>>(&self) -> Result<YieldCurve<D, I>, String> {
        let dates: Vec<Date> = self.pillars.iter().map(|p| p.date()).collect();
        YieldCurve::<D, I>::new(self.settle.date(), &dates, &self.yields).map_err(|e| format!("{}: building the curve fails: {e}", self.show::<D>("")))
    }
    pub fn show<D: Conv>(&self, scheme: &str) -> String {
        let n = self.pillars.len();
        let p: Vec<String> = (0..n.min(6)).map(|i| format!("{} {}", self.pillars[i].iso(), self.yields[i])).collect();
        format!(
            "{scheme}{}{:?}<{}> curve of {} with {}{}",
            if scheme.is_empty() { "" } else { " " },
            D::B,
            V::NAME,
            self.settle.iso(),
            p.join(", "),
            if n > 6 { format!(" ... {n} pillars") } else { String::new() }
        )
    }
}

/// A date of the curve between two bounds: pillars, their neighbours, month ends, anything.
pub fn gen_between(s: &mut Src, pillars: &[Ymd], lo: Ymd, hi: Ymd) -> Ymd {
    let d = match s.weighted(&[4, 3, 2]) {
        0 => Ymd::from_serial(s.int(lo.serial(), hi.serial())).unwrap(),
        1 => *s.pick(pillars),
        _ => {
            let p = *s.pick(pillars);
            let k = s.int_near(0, -2, 2);
            p.add_days(i128::from(k)).unwrap()
        }
    };
    d.clamp(lo, hi)
}

/// Two dates d1 < d2 inside [max(settle, first pillar) or settle, last pillar].
fn gen_pair<V: Fl>(s: &mut Src, c: &CurveData<V>) -> Option<(Ymd, Ymd)> {
    let lo = c.pillars[0].max(c.settle);
    let hi = *c.pillars.last().unwrap();
    let a = if s.chance(1, 4) { c.settle } else { gen_between(s, &c.pillars, lo, hi) };
    let b = gen_between(s, &c.pillars, lo, hi);
    let (a, b) = if a <= b { (a, b) } else { (b, a) };
    (a < b).then_some((a, b))
}

/// exp(t1 y1 - t2 y2) with y from the library's own interpolator, and the accepted difference.
struct Model<V: Fl> {
    f: Eval<V>,
    r: Reference,
    basis: Basis,
    settle: Ymd,
}
impl<V: Fl> Model<V> {
    fn new(kind: Kind, basis: Basis, c: &CurveData<V>) -> Result<Self, String> {
        let t = c.times(basis);
        let ks = vec![V::of(0.0); t.len()];
        let f = fit(kind, &t, &c.yields, &ks).map_err(|e| format!("fit of valid pillars fails: {e}"))?;
        let r = Reference::new(kind, &t, &c.yields, &ks, kind == Kind::Catmull && catmull_pinned());
        Ok(Model { f, r, basis, settle: c.settle })
    }
    /// t*y(t) and its accepted error
    fn ty(&self, d: Ymd) -> Result<(f64, f64), String> {
        let t: V = self.basis.time(self.settle, d).unwrap();
        let y = (self.f)(t).map_err(|e| format!("yield at {t} fails: {e}"))?.f();
        let t = t.f();
        Ok((t * y, 16.0 * V::EPS * (t * y).abs() + 2.0 * t * self.r.tol_at(t, V::EPS)))
    }
    fn factor(&self, d1: Ymd, d2: Ymd) -> Result<(f64, f64), String> {
        let (e2, x2) = self.ty(d2)?;
        let (e1, x1) = if d1 == self.settle { (0.0, 0.0) } else { self.ty(d1)? };
        let v = (e1 - e2).exp();
        let limit = V::TINY.ln().abs();
        if e1.abs() > limit || e2.abs() > limit {
            // a factor from settlement may overflow or lose its digits
            return Ok((v, f64::INFINITY));
        }
        Ok((v, v * (x1 + x2 + 16.0 * V::EPS)))
    }
}

fn usable<V: Fl>(v: f64, tol: f64) -> bool {
    v > V::TINY && v < 1.0 / V::TINY && tol < 0.05 * v
}

// ------------------------------------------------------------------------------------ C29

fn factors<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let c = gen_curve::<I::F>(s, D::B, settle, I::K.min_points(), false);
    let curve = c.build::<D, I>()?;
    let m = Model::new(I::K, D::B, &c)?;
    let mut used = 0;
    let mut last = String::new();
    for _ in 0..6 {
        let Some((a, b)) = gen_pair(s, &c) else { continue };
        let (want, tol) = m.factor(a, b)?;
        if !usable::<I::F>(want, tol) {
            s.label("extreme exponent skipped");
            continue;
        }
        let got = match curve.discount_factor(a.date(), b.date()) {
            Ok(v) => v.f(),
            Err(e) => fail!("{}: discount_factor({}, {}) fails: {e}", c.show::<D>(&format!("{:?}", I::K)), a.iso(), b.iso()),
        };
        last = format!("discount_factor({}, {}) = {got}", a.iso(), b.iso());
        ensure!(
            (got - want).abs() <= tol,
            "{}: {last}, must be {want} (accepted difference {tol:e})",
            c.show::<D>(&format!("{:?}", I::K))
        );
        ensure!(got > 0.0, "{last} is not positive");
        s.label_if(a == c.settle, "from settlement");
        s.label_if(a != c.settle, "forward");
        s.label_if(!(1e-12..=1e12).contains(&want), "factor outside 1e-12..1e12");
        if (want - 1.0).abs() > 1e-6 {
            used += 1;
        }
        s.checked(2);
    }
    s.label(if I::F::EPS > 1e-10 { "f32" } else { "f64" });
    if used > 0 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{}: {last}", c.show::<D>(&format!("{:?}", I::K))));
    Ok(())
}

/// A user-defined interpolator without bounds.
fn factors_user<D: Conv, V: Fl>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let (a, b) = (V::of(s.f64(-0.05, 0.15)), V::of(s.f64(-0.002, 0.002)));
    let dates = [settle.date(), settle.add_days(40).unwrap().date()];
    let curve = YieldCurve::<D, Affine<V>>::new(settle.date(), &dates, &[a, b]).map_err(|e| e.to_string())?;
    let d1 = if s.chance(1, 3) { settle } else { settle.add_days(i128::from(s.int(0, 11_000))).unwrap() };
    let d2 = d1.add_days(i128::from(s.int(1, 11_000))).unwrap();
    let t = |d: Ymd| D::B.units(settle, d).unwrap() as f64 / D::B.year();
    let e = |t: f64| t * (a.f() + b.f() * t);
    let want = (e(t(d1)) - e(t(d2))).exp();
    let size = t(d2) * (a.f().abs() + b.f().abs() * t(d2)) + 1.0;
    let got = curve.discount_factor(d1.date(), d2.date()).map_err(|e| format!("user-defined interpolator: {e}"))?.f();
    ensure!(
        (got - want).abs() <= want * 64.0 * V::EPS * size,
        "y(t) = {a} + {b} t, {:?}<{}>, settlement {}: discount_factor({}, {}) = {got}, must be {want}",
        D::B,
        V::NAME,
        settle.iso(),
        d1.iso(),
        d2.iso()
    );
    s.checked(1);
    s.nontrivial(s.tape_key());
    s.sample(|| format!("y(t) = {a} + {b} t from {}: discount_factor({}, {}) = {got}", settle.iso(), d1.iso(), d2.iso()));
    Ok(())
}

/// User-defined stepwise interpolators, with and without intervals they reject.
fn stepwise<D: Conv, V: Fl>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let c = gen_gaps::<D, V>(s, settle, 4_000);
    let curve = c.build::<D>()?;
    let mut rejected = 0;
    for _ in 0..6 {
        let pick = |s: &mut Src| match s.weighted(&[2, 2, 1]) {
            0 => settle.add_days(i128::from(s.int(0, 5_000))).unwrap(),
            1 => {
                let p = s.pick(&c.pillars).0;
                p.add_days(i128::from(s.int_near(0, -2, 2))).unwrap()
            }
            _ => settle,
        };
        let (a, b) = (pick(s), pick(s));
        let (a, b) = if a > b && !s.chance(1, 8) { (b, a) } else { (a, b) };
        let got = curve.discount_factor(a.date(), b.date());
        let name = || format!("{}: discount_factor({}, {})", c.show(D::B), a.iso(), b.iso());
        match (got, c.factor(D::B, a, b)) {
            (Ok(v), Some((want, tol))) => {
                ensure!((v.f() - want).abs() <= want * tol, "{} = {v}, must be {want}", name());
                s.label("factor");
            }
            (Err(_), None) => {
                rejected += 1;
                s.label("rejected");
            }
            (Ok(v), None) => fail!("{} = {v}, must be an error", name()),
            (Err(e), Some(_)) => fail!("{} is an error: {e}", name()),
        }
        s.checked(1);
    }
    if rejected > 0 || c.pillars.len() > 2 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| c.show(D::B));
    Ok(())
}

/// One curve asked very often, for few or for very many dates.
fn many<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let c = gen_curve::<I::F>(s, D::B, settle, I::K.min_points(), false);
    let curve = c.build::<D, I>()?;
    let m = Model::new(I::K, D::B, &c)?;
    let mut pairs = Vec::new();
    for _ in 0..if s.bool() { s.usize(1, 20) } else { s.usize(21, 600) } {
        let Some((a, b)) = gen_pair(s, &c) else { continue };
        let (want, tol) = m.factor(a, b)?;
        if usable::<I::F>(want, tol) {
            pairs.push((a.date(), b.date(), want, tol));
        }
    }
    if pairs.is_empty() {
        return Ok(());
    }
    let mut lcg = Lcg(s.draw(1 << 32));
    let n = often(s);
    for k in 0..n {
        let (a, b, want, tol) = pairs[lcg.below(pairs.len())];
        match curve.discount_factor(a, b) {
            Ok(v) if (v.f() - want).abs() <= tol => {}
            got => fail!("{}: call {k}, discount_factor({a}, {b}), gives {got:?}, must be {want}", c.show::<D>(&format!("{:?}", I::K))),
        }
    }
    s.checked(n as u64);
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{n} calls for {} pairs of dates", pairs.len()));
    Ok(())
}

// ------------------------------------------------------------------------------------ C30

fn relations<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let c = gen_curve::<I::F>(s, D::B, settle, I::K.min_points(), false);
    let curve = c.build::<D, I>()?;
    let m = Model::new(I::K, D::B, &c)?;
    let eps = I::F::EPS;
    let name = c.show::<D>(&format!("{:?}", I::K));
    let df = |a: Ymd, b: Ymd| -> Result<f64, String> {
        curve.discount_factor(a.date(), b.date()).map(|v| v.f()).map_err(|e| format!("{name}: discount_factor({}, {}) fails: {e}", a.iso(), b.iso()))
    };
    let lo = c.pillars[0].max(c.settle);
    let hi = *c.pillars.last().unwrap();
    let mut history: Vec<(Ymd, Ymd, f64)> = Vec::new();
    let mut chained = false;
    let steps = match s.weighted(&[40, 4, 1]) {
        0 => s.usize(1, 6),
        1 => s.usize(1, 40),
        _ => s.usize(1, 300),
    };
    for _ in 0..steps {
        match s.weighted(&[4, 2, 2]) {
            0 => {
                // composition along d1 < d2 < d3
                let mut d = [gen_between(s, &c.pillars, lo, hi), gen_between(s, &c.pillars, lo, hi), gen_between(s, &c.pillars, lo, hi)];
                if s.chance(1, 3) {
                    d[0] = c.settle;
                }
                d.sort();
                if d[0] == d[1] || d[1] == d[2] {
                    continue;
                }
                let (w12, x12) = m.factor(d[0], d[1])?;
                let (w23, x23) = m.factor(d[1], d[2])?;
                let (w13, x13) = m.factor(d[0], d[2])?;
                if !(usable::<I::F>(w12, x12) && usable::<I::F>(w23, x23) && usable::<I::F>(w13, x13)) {
                    continue;
                }
                let (a, b, ab) = (df(d[0], d[1])?, df(d[1], d[2])?, df(d[0], d[2])?);
                let tol = w13 * 2.0 * (x12 / w12 + x23 / w23 + x13 / w13);
                ensure!(
                    (a * b - ab).abs() <= tol,
                    "{name}: factors {} -> {} -> {} are {a} and {b}, but {ab} over the whole",
                    d[0].iso(),
                    d[1].iso(),
                    d[2].iso()
                );
                history.push((d[0], d[2], ab));
                chained = true;
                s.label("composition");
            }
            1 => {
                // pillar readback
                let i = s.usize(0, c.pillars.len() - 1);
                let p = c.pillars[i];
                if p == c.settle {
                    continue;
                }
                let t: I::F = D::B.time(c.settle, p).unwrap();
                let e = t.f() * c.yields[i].f();
                let want = (-e).exp();
                if !usable::<I::F>(want, 0.0) {
                    continue;
                }
                let got = df(c.settle, p)?;
                let tol = want * (32.0 * eps * (1.0 + e.abs()) + 2.0 * t.f() * m.r.tol_at(t.f(), eps));
                ensure!((got - want).abs() <= tol, "{name}: factor to pillar {} is {got}, its yield {} gives {want}", p.iso(), c.yields[i]);
                history.push((c.settle, p, got));
                s.label("pillar");
            }
            _ => {
                // an earlier query again
                let old = if history.is_empty() { None } else { Some(*s.pick(&history)) };
                if let Some((a, b, v)) = old {
                    let got = df(a, b)?;
                    ensure!((got - v).abs() <= 16.0 * eps * v, "{name}: discount_factor({}, {}) is {v}, later {got}", a.iso(), b.iso());
                    s.label("repeated query");
                }
            }
        }
        s.checked(1);
    }
    // a flat curve through the same pillars
    let flat = CurveData { settle: c.settle, pillars: c.pillars.clone(), yields: vec![c.yields[0]; c.pillars.len()] };
    let curve = flat.build::<D, I>()?;
    let m = Model::new(I::K, D::B, &flat)?;
    if let Some((a, b)) = gen_pair(s, &flat) {
        let y = flat.yields[0].f();
        let t = |d: Ymd| D::B.units(c.settle, d).unwrap() as f64 / D::B.year();
        let want = (-y * (t(b) - t(a))).exp();
        let (w, tol) = m.factor(a, b)?;
        if usable::<I::F>(w, tol) {
            let got = curve.discount_factor(a.date(), b.date()).map_err(|e| e.to_string())?.f();
            ensure!((got - want).abs() <= 4.0 * tol, "flat {}: discount_factor({}, {}) = {got}, must be {want}", flat.show::<D>(""), a.iso(), b.iso());
            s.checked(1);
        }
    }
    if chained {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{name}: {} relations", history.len()));
    Ok(())
}

// ------------------------------------------------------------------------------------ C31

fn errors<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let mut c = if D::B == Basis::Picky {
        gen_curve::<I::F>(s, Basis::Odd, settle, I::K.min_points(), false)
    } else {
        gen_curve::<I::F>(s, D::B, settle, I::K.min_points(), false)
    };
    // damage
    let n = c.pillars.len();
    let i = s.usize(0, n - 1);
    match s.weighted(&[5, 2, 2, 2, 2, 2, 1]) {
        0 => {}
        1 => {
            if s.bool() {
                c.yields.pop();
            } else {
                c.yields.push(I::F::of(0.01));
            }
        }
        2 => {
            let k = s.usize(0, n - 1);
            c.pillars.truncate(k);
            c.yields.truncate(k);
        }
        3 => c.pillars[i] = c.pillars[i.saturating_sub(1)],
        4 => {
            let j = s.usize(0, n - 1);
            c.pillars.swap(i, j);
        }
        5 => {
            // pillars before settlement
            let shift = s.int(1, 1000);
            for p in c.pillars.iter_mut().take(i + 1) {
                *p = p.add_days(-i128::from(shift)).unwrap();
            }
        }
        _ => {
            // the 30th and 31st of one month
            let l = c.pillars[n - 1];
            let m = Ymd::new(l.y + 1, *s.pick(&[1, 3, 5, 7, 8, 10, 12]), 30);
            c.pillars.push(m);
            c.pillars.push(Ymd::new(m.y, m.m, 31));
            c.yields.push(I::F::of(0.01));
            c.yields.push(I::F::of(0.02));
        }
    }
    let units: Option<Vec<i64>> = c.pillars.iter().map(|&p| D::B.units(settle, p)).collect();
    let valid = c.pillars.len() == c.yields.len()
        && c.pillars.len() >= I::K.min_points()
        && units.as_ref().is_some_and(|u| u.windows(2).all(|w| w[0] < w[1]));
    let name = c.show_any::<D>(&format!("{:?}", I::K));
    let built = c.build_any::<D, I>();
    ensure!(
        built.is_ok() == valid,
        "{name}: building {}",
        if valid { "fails" } else { "succeeds, but the input is inconsistent" }
    );
    s.checked(1);
    s.label(if valid { "valid curve" } else { "rejected curve" });
    let mut rejected = !valid;
    if let (Ok(curve), Some(u)) = (built, units) {
        let (first, last) = (u[0], *u.last().unwrap());
        let model = Model::new(I::K, D::B, &c).ok();
        for _ in 0..8 {
            let pick = |s: &mut Src| -> Ymd {
                let base = match s.weighted(&[3, 2, 1]) {
                    0 => *s.pick(&c.pillars),
                    1 => settle,
                    _ => *c.pillars.last().unwrap(),
                };
                let r = *s.pick(&[0, 1, 2, 40, 900]);
                gen_near(s, base, r)
            };
            let a = pick(s);
            let b = if s.chance(1, 8) { a } else { pick(s) };
            let got = curve.discount_factor(a.date(), b.date());
            let inside = |d: Ymd| D::B.units(settle, d).is_some_and(|k| k >= first && k <= last);
            if a == b {
                s.label("equal dates");
                if let Ok(v) = &got {
                    // a quotient of two factors from settlement is 0/0 once they underflow
                    let judged = a == settle || model.as_ref().and_then(|m| m.ty(a).ok()).is_some_and(|(ty, _)| ty.abs() < I::F::TINY.ln().abs());
                    s.label_if(!judged, "equal dates, factor from settlement outside the range of the type");
                    ensure!(!judged || (v.f() - 1.0).abs() < 1e-3, "{name}: discount_factor({0}, {0}) = {v}", a.iso());
                }
            }
            let ok = a <= b && a >= settle && inside(b) && (a == settle || inside(a));
            ensure!(
                got.is_ok() == ok,
                "{name}: discount_factor({}, {}) = {:?}, must {}",
                a.iso(),
                b.iso(),
                got.map_err(|e| e.to_string()),
                if ok { "succeed" } else { "be an error" }
            );
            s.label_if(!ok, "rejected query");
            s.label_if(ok, "accepted query");
            rejected |= !ok;
            s.checked(1);
        }
    }
    if rejected {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| name.clone());
    Ok(())
}

impl<V: Fl> CurveData<V> {
    /// like `show` and `build`, for inconsistent data
    fn show_any<D: Conv>(&self, scheme: &str) -> String {
        let p: Vec<String> = self.pillars.iter().take(8).map(|p| p.iso()).collect();
        format!("{scheme} {:?}<{}> curve of {} with pillars {} and {} yields", D::B, V::NAME, self.settle.iso(), p.join(", "), self.yields.len())
    }
    fn build_any<D: Conv, I: Interpolator<Value = V>>(&self) -> Result<YieldCurve<D, I>, String> {
        let dates: Vec<Date> = self.pillars.iter().map(|p| p.date()).collect();
        YieldCurve::<D, I>::new(self.settle.date(), &dates, &self.yields).map_err(|e| e.to_string())
    }
}

/// One of the 18 combinations of day count, interpolator and float type.
#[macro_export]
macro_rules! any_combination {
    ($s:expr, $f:ident) => {{
        use qlab_math::interpolation::linear::Linear as L;
        use qlab_math::interpolation::spline::catmull_rom::CatmullRom as C;
        use qlab_math::interpolation::spline::natural_cubic::NaturalCubic as N;
        use qlab_time::day_count::{act_360::Act360 as A0, act_365::Act365 as A5, thirty_360::Thirty360 as T0};
        match $s.draw(18) {
            0 => $f::<A5, L<f64>>($s),
            1 => $f::<A0, L<f64>>($s),
            2 => $f::<T0, L<f64>>($s),
            3 => $f::<A5, N<f64>>($s),
            4 => $f::<A0, N<f64>>($s),
            5 => $f::<T0, N<f64>>($s),
            6 => $f::<A5, C<f64>>($s),
            7 => $f::<A0, C<f64>>($s),
            8 => $f::<T0, C<f64>>($s),
            9 => $f::<A5, L<f32>>($s),
            10 => $f::<A0, L<f32>>($s),
            11 => $f::<T0, L<f32>>($s),
            12 => $f::<A5, N<f32>>($s),
            13 => $f::<A0, N<f32>>($s),
            14 => $f::<T0, N<f32>>($s),
            15 => $f::<A5, C<f32>>($s),
            16 => $f::<A0, C<f32>>($s),
            _ => $f::<T0, C<f32>>($s),
        }
    }};
}

/// Day counts, user-defined ones among them, for user-defined interpolators.
#[macro_export]
macro_rules! user_combination {
    ($s:expr, $f:ident) => {
        match $s.draw(8) {
            0 => $f::<qlab_time::day_count::act_365::Act365, f64>($s),
            1 => $f::<$crate::curve::Odd, f64>($s),
            2 => $f::<$crate::curve::Picky, f64>($s),
            3 => $f::<qlab_time::day_count::thirty_360::Thirty360, f64>($s),
            4 => $f::<qlab_time::day_count::act_360::Act360, f32>($s),
            5 => $f::<$crate::curve::Odd, f32>($s),
            6 => $f::<$crate::curve::Picky, f32>($s),
            _ => $f::<qlab_time::day_count::thirty_360::Thirty360, f32>($s),
        }
    };
}

/// The library's interpolators with user-defined day counts.
fn any_picky(s: &mut Src) -> Outcome {
    match s.draw(4) {
        0 => errors::<Picky, Linear<f64>>(s),
        1 => errors::<Picky, NaturalCubic<f64>>(s),
        2 => errors::<Picky, CatmullRom<f32>>(s),
        _ => errors::<Picky, Linear<f32>>(s),
    }
}
fn any_odd(s: &mut Src) -> Outcome {
    match s.draw(6) {
        0 => factors::<Odd, Linear<f64>>(s),
        1 => factors::<Odd, NaturalCubic<f64>>(s),
        2 => factors::<Odd, CatmullRom<f64>>(s),
        3 => factors::<Odd, Linear<f32>>(s),
        4 => factors::<Odd, NaturalCubic<f32>>(s),
        _ => factors::<Odd, CatmullRom<f32>>(s),
    }
}

fn any_user(s: &mut Src) -> Outcome {
    match s.draw(6) {
        0 => factors_user::<Act365, f64>(s),
        1 => factors_user::<Act360, f64>(s),
        2 => factors_user::<Thirty360, f64>(s),
        3 => factors_user::<Act365, f32>(s),
        4 => factors_user::<Act360, f32>(s),
        _ => factors_user::<Thirty360, f32>(s),
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C29",
            rule: "a generated curve (2-400 pillars, settlement mostly 1950-2100, any of 18 combinations of day count, interpolator and float type, user-defined affine and stepwise interpolators and a user-defined day count) and pairs of dates on it, against exp(t1 y1 - t2 y2); factors near the ends of the float type's range (1e-300 and 1e300, 1e-36 and 1e36) are skipped. Non-trivial = a factor different from one; distinct by choice tape.",
            assumptions: &["the library's interpolators as the interpolation scheme (decided by C22-C27)", "day-count fractions from harness/full/src/curve.rs"],
            subs: vec![gen("factors", 150_000, 8_000_000, |s| any_combination!(s, factors)), gen("user-defined", 100_000, 4_000_000, any_user), gen("day-counts", 60_000, 3_000_000, any_odd), gen("stepwise", 60_000, 3_000_000, |s| user_combination!(s, stepwise)), gen("many", 20, 1_500, |s| any_combination!(s, many)).unguided()],
        },
        Property {
            id: "C30",
            rule: "histories of composition triples, pillar readbacks and repeated queries on one generated curve, and a flat curve on its pillars; non-trivial = at least one composition of three different dates; distinct by choice tape.",
            assumptions: &["rounding allowance as in C29"],
            subs: vec![gen("relations", 150_000, 8_000_000, |s| any_combination!(s, relations))],
        },
        Property {
            id: "C31",
            rule: "curves with one kind of damage (length mismatch, too few, repeated, swapped or pre-settlement pillars, 30th and 31st) and queries at, near and beyond pillars in any order; the outcome is predicted by a validation model; also with a user-defined day count that rejects the 13th of any month and interpolators that reject some intervals. Non-trivial = something must be rejected; distinct by choice tape.",
            assumptions: &[],
            subs: vec![
                gen("errors", 150_000, 8_000_000, |s| any_combination!(s, errors)),
                gen("day-counts", 60_000, 3_000_000, any_picky),
                gen("stepwise", 60_000, 3_000_000, |s| user_combination!(s, stepwise)),
            ],
        },
    ]
}
