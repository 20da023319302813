//! C36: an error keeps its kind from where it arises to the caller.

use crate::bond::gen_terms;
use crate::curve::*;
use crate::fl::Fl;
use crate::any_combination;
use crate::model::*;
use engine::{ensure, gen, Outcome, Property, Src};
use qlab_error::{ComputeError, InterpolationError, QLabError, QLabResult};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_math::value::Value;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::day_count::{act_365::Act365, thirty_360::Thirty360, DayCount};

/// A user-defined day count, actual days over 365.25, that rejects some days of the month, each with
/// an error of its own.
#[derive(Clone, Copy)]
pub struct Fussy;
impl DayCount for Fussy {
    fn calculate_day_count_fraction<V: Value>(a: Date, b: Date) -> QLabResult<V> {
        if a != b {
            match b.day() {
                7 => return Err(ComputeError::CastNumberError("seven".into()).into()),
                13 => return Err(ComputeError::ZeroDivisionError.into()),
                21 => return Err(ComputeError::InvalidInput("twenty-first".into()).into()),
                _ => {}
            }
        }
        Ok(V::from_i64(b - a).unwrap() / V::from_f64(365.25).unwrap())
    }
}
impl Conv for Fussy {
    const B: Basis = Basis::Fussy;
}

/// A user-defined interpolator that fails in every way there is, as told by the first two values.
#[derive(Default, Debug)]
pub struct Moody {
    mood: i64,
}
fn complaint(mood: i64, t: f64) -> Result<(), InterpolationError<f64>> {
    match mood {
        1 => Err(InterpolationError::PointOrderError),
        2 => Err(InterpolationError::OutOfLowerBound(t)),
        3 => Err(InterpolationError::OutOfUpperBound(t)),
        4 => Err(InterpolationError::InsufficientPointsError(2)),
        _ => Ok(()),
    }
}
impl Interpolator for Moody {
    type Value = f64;
    fn try_fit(self, p: &[(f64, f64)]) -> Result<Self, InterpolationError<f64>> {
        complaint(p[0].1 as i64, p[0].0)?;
        Ok(Moody { mood: p[1].1 as i64 })
    }
    fn try_value(&self, t: f64) -> Result<f64, InterpolationError<f64>> {
        complaint(self.mood, t).map(|()| 0.01)
    }
}

/// A reason for an error.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Why {
    /// lengths differ, dates reversed or before settlement
    Invalid,
    /// the interpolator refuses
    Interpolation,
    /// `Fussy` refuses a day of the month
    Day(i64),
}

fn explains(w: Why, e: &QLabError) -> bool {
    #[allow(unreachable_patterns)]
    let c = match e {
        QLabError::ComputeError(c) => c,
        _ => return false,
    };
    match (w, c) {
        (Why::Invalid, ComputeError::InvalidInput(_))
        | (Why::Interpolation, ComputeError::InterpolationError)
        | (Why::Day(13), ComputeError::ZeroDivisionError) => true,
        (Why::Day(7), ComputeError::CastNumberError(m)) => m.to_string() == "seven",
        (Why::Day(21), ComputeError::InvalidInput(m)) => m.to_string() == "twenty-first",
        _ => false,
    }
}

/// The day count's own complaint about a pair of dates.
fn complains(basis: Basis, a: Ymd, b: Ymd) -> Option<Why> {
    match basis {
        Basis::Thirty360 if a > b => Some(Why::Invalid),
        Basis::Fussy if a != b && [7, 13, 21].contains(&b.d) => Some(Why::Day(b.d)),
        _ => None,
    }
}

fn judge<T>(s: &mut Src, got: Result<T, QLabError>, why: &[Why], what: impl Fn() -> String) -> Result<Option<T>, String> {
    s.checked(1);
    match got {
        Ok(v) => {
            ensure!(why.is_empty(), "{}: succeeds, but there is a reason for an error: {why:?}", what());
            Ok(Some(v))
        }
        Err(e) => {
            ensure!(!why.is_empty(), "{}: error {e:?} without a reason", what());
            ensure!(why.iter().any(|&w| explains(w, &e)), "{}: error {e:?}, but the reason is {why:?}", what());
            for (w, l) in [(Why::Invalid, "invalid input"), (Why::Interpolation, "interpolation"), (Why::Day(7), "day count"), (Why::Day(13), "day count"), (Why::Day(21), "day count")] {
                s.label_if(why == [w], l);
            }
            s.label_if(why.len() > 1, "several reasons");
            Ok(None)
        }
    }
}

struct Bounds {
    basis: Basis,
    settle: Ymd,
    /// first and last pillar, None where the interpolator decides on its own
    range: Option<(i64, i64)>,
    /// the interpolator refuses always
    never: bool,
}
impl Bounds {
    fn why(&self, a: Ymd, b: Ymd) -> Vec<Why> {
        let mut all = Vec::new();
        let mut add = |w: Why| {
            if !all.contains(&w) {
                all.push(w);
            }
        };
        if b < a || a < self.settle || b < self.settle {
            add(Why::Invalid);
        }
        for d in [b, a] {
            if d == a && a == self.settle && a != b {
                continue;
            }
            if let Some(w) = complains(self.basis, self.settle, d) {
                add(w);
            } else if let Some(k) = self.basis.units(self.settle, d) {
                if self.never || self.range.is_some_and(|(f, l)| k < f || k > l) {
                    add(Why::Interpolation);
                }
            }
        }
        all
    }
}

/// A curve's dates and yields, damaged in at most one way.
fn gen_damaged<D: Conv, V: Fl>(s: &mut Src, settle: Ymd, min: usize) -> CurveData<V> {
    let basis = if D::B == Basis::Fussy { Basis::Odd } else { D::B };
    let mut c = gen_curve::<V>(s, basis, settle, min, false);
    if D::B == Basis::Fussy && s.chance(2, 3) {
        // mostly dates that it accepts
        for p in &mut c.pillars {
            while [7, 13, 21].contains(&p.d) {
                *p = p.add_days(1).unwrap();
            }
        }
    }
    let n = c.pillars.len();
    let i = s.usize(0, n - 1);
    match s.weighted(&[8, 2, 1, 1, 1, 2, 1]) {
        0 => {}
        1 => {
            let k = s.usize(0, 2 * n);
            c.yields.resize(k, V::of(0.01));
        }
        2 => {
            let k = s.usize(0, n - 1);
            c.pillars.truncate(k);
            c.yields.truncate(k);
        }
        3 => c.pillars[i] = c.pillars[i.saturating_sub(1)],
        4 => {
            let j = s.usize(0, n - 1);
            c.pillars.swap(i, j);
        }
        5 => {
            let shift = s.int(1, 1000);
            for p in c.pillars.iter_mut().take(i + 1) {
                *p = p.add_days(-i128::from(shift)).unwrap();
            }
        }
        _ => {
            // one date of the month that Fussy rejects
            let p = c.pillars[i];
            c.pillars[i] = Ymd::new(p.y, p.m, *s.pick(&[7, 13, 21]));
        }
    }
    c
}

fn build<D: Conv, I: Interpolator<Value = V>, V: Fl>(c: &CurveData<V>) -> QLabResult<YieldCurve<D, I>> {
    let dates: Vec<Date> = c.pillars.iter().map(|p| p.date()).collect();
    YieldCurve::new(c.settle.date(), &dates, &c.yields)
}

/// The reasons for which building the curve fails.
fn building<V: Fl>(basis: Basis, min: usize, c: &CurveData<V>) -> Vec<Why> {
    let mut all = Vec::new();
    let mut add = |w: Why| {
        if !all.contains(&w) {
            all.push(w);
        }
    };
    if c.pillars.len() != c.yields.len() {
        add(Why::Invalid);
    }
    for &p in &c.pillars {
        if let Some(w) = complains(basis, c.settle, p) {
            add(w);
        }
    }
    let u: Vec<i64> = c.pillars.iter().filter_map(|&p| basis.units(c.settle, p)).collect();
    if c.pillars.len().min(c.yields.len()) < min || u.windows(2).any(|w| w[0] >= w[1]) || c.pillars.windows(2).any(|w| w[0] >= w[1]) {
        add(Why::Interpolation);
    }
    all
}

fn curves<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let c = gen_damaged::<D, I::F>(s, settle, I::K.min_points());
    let why = building(D::B, I::K.min_points(), &c);
    let name = || {
        let p: Vec<String> = c.pillars.iter().take(8).map(|p| p.iso()).collect();
        format!("{:?} {:?}<{}> curve of {} with pillars {} and {} yields", I::K, D::B, I::F::NAME, settle.iso(), p.join(", "), c.yields.len())
    };
    let mut interesting = why.len() == 1;
    if let Some(curve) = judge(s, build::<D, I, _>(&c), &why, || format!("building a {}", name()))? {
        let units = |p: Ymd| D::B.units(settle, p).unwrap();
        let bounds = Bounds { basis: D::B, settle, range: Some((units(c.pillars[0]), units(*c.pillars.last().unwrap()))), never: false };
        for _ in 0..8 {
            let pick = |s: &mut Src| -> Ymd {
                let base = match s.weighted(&[3, 2, 1]) {
                    0 => *s.pick(&c.pillars),
                    1 => settle,
                    _ => *c.pillars.last().unwrap(),
                };
                let r = *s.pick(&[0, 1, 2, 40, 900]);
                let d = gen_near(s, base, r);
                if D::B == Basis::Fussy && s.chance(1, 4) {
                    Ymd::new(d.y, d.m, *s.pick(&[7, 13, 21]))
                } else {
                    d
                }
            };
            let a = pick(s);
            let b = if s.chance(1, 8) { a } else { pick(s) };
            let why = bounds.why(a, b);
            judge(s, curve.discount_factor(a.date(), b.date()), &why, || format!("{}: discount_factor({}, {})", name(), a.iso(), b.iso()))?;
            interesting |= why.len() == 1;
        }
    }
    if interesting {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| name());
    Ok(())
}

/// Interpolators of the user's own that fail in every way.
fn moods<D: Conv>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let first = settle.add_days(i128::from(s.int(0, 40))).unwrap();
    let pillars = vec![first, first.add_days(i128::from(s.int(1, 900))).unwrap()];
    let (at_fit, at_value) = (s.int(-3, 4).max(0), s.int(-1, 4).max(0));
    let c = CurveData { settle, pillars, yields: vec![at_fit as f64, at_value as f64] };
    let mut why = building(D::B, 2, &c);
    // it does not look at the order of the points
    why.retain(|w| *w != Why::Interpolation);
    if at_fit > 0 {
        why.push(Why::Interpolation);
    }
    let name = || format!("{:?} curve of {} with pillars {} and {}, user-defined interpolator failing with {at_fit} and {at_value}", D::B, settle.iso(), c.pillars[0].iso(), c.pillars[1].iso());
    if let Some(curve) = judge(s, build::<D, Moody, f64>(&c), &why, name)? {
        let bounds = Bounds { basis: D::B, settle, range: None, never: at_value > 0 };
        for _ in 0..4 {
            let a = gen_near(s, settle, 40);
            let base = if s.bool() { a } else { settle };
            let b = gen_near(s, base, 900);
            let why = bounds.why(a, b);
            judge(s, curve.discount_factor(a.date(), b.date()), &why, || format!("{}: discount_factor({}, {})", name(), a.iso(), b.iso()))?;
        }
    }
    if at_fit > 0 || at_value > 0 {
        s.nontrivial(s.tape_key());
    }
    s.sample(name);
    Ok(())
}

/// The error of a flow's discount factor is the error of the price.
fn prices<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let t = gen_terms::<I::F>(s, true, 12);
    let flows = t.flows();
    let b = t.build::<I::F>("b")?;
    let span = (t.maturity.serial() - t.issue.serial()).max(30);
    let start = t.issue.add_days(i128::from(s.int(-60, span))).unwrap();
    // pillars over all or some of the time left
    let lead = if s.bool() { 0 } else { s.int(0, span / 2) };
    let reach = if s.chance(2, 3) { t.maturity.serial() - start.serial() + s.int(0, 400) } else { s.int(1, span) }.max(lead + 40);
    let n = s.usize(I::K.min_points(), 8);
    let mut pillars: Vec<Ymd> = vec![start.add_days(i128::from(lead)).unwrap(), start.add_days(i128::from(reach)).unwrap()];
    for _ in 2..n {
        pillars.push(start.add_days(i128::from(s.int(lead, reach))).unwrap());
    }
    for p in &mut pillars {
        if D::B == Basis::Fussy && *p != start {
            while [7, 13, 21].contains(&p.d) {
                *p = p.add_days(1).unwrap();
            }
        }
    }
    pillars.sort_by_key(|p| p.serial());
    pillars.dedup_by_key(|p| D::B.units(start, *p));
    if pillars.len() < I::K.min_points() {
        s.label("too few pillars");
        return Ok(());
    }
    let yields = pillars.iter().map(|_| I::F::of(s.f64(-0.01, 0.05))).collect();
    let units = |p: Ymd| D::B.units(start, p).unwrap();
    let bounds = Bounds { basis: D::B, settle: start, range: Some((units(pillars[0]), units(*pillars.last().unwrap()))), never: false };
    let c = CurveData { settle: start, pillars, yields };
    let curve = c.build::<D, I>()?;
    let mut interesting = false;
    for _ in 0..s.usize(1, 4) {
        let at = match s.weighted(&[3, 2, 2]) {
            0 => start,
            1 => gen_near(s, start, 400),
            _ => {
                let f = s.pick(&flows).due;
                gen_near(s, f, 2)
            }
        };
        let mut why = Vec::new();
        for f in flows.iter().filter(|f| at < f.due) {
            for w in bounds.why(at, f.pay) {
                if !why.contains(&w) {
                    why.push(w);
                }
            }
        }
        judge(s, b.discounted_value(at.date(), &curve), &why, || format!("{} on {}, settlement {}", t.show(), c.show::<D>(&format!("{:?}", I::K)), at.iso()))?;
        interesting |= why.len() == 1;
    }
    if interesting {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{} on {}", t.show(), c.show::<D>(&format!("{:?}", I::K))));
    Ok(())
}

macro_rules! fussy {
    ($s:expr, $f:ident) => {
        match $s.draw(6) {
            0 => $f::<Fussy, Linear<f64>>($s),
            1 => $f::<Fussy, NaturalCubic<f64>>($s),
            2 => $f::<Fussy, CatmullRom<f64>>($s),
            3 => $f::<Fussy, Linear<f32>>($s),
            4 => $f::<Fussy, NaturalCubic<f32>>($s),
            _ => $f::<Fussy, CatmullRom<f32>>($s),
        }
    };
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C36",
        rule: "curves: building damaged curves and querying sound ones, bonds: pricing on curves that cover part of a bond's life; the set of reasons for an error is computed from the input, an error must be of the kind of one of them, and there is one exactly if the set is not empty; day counts that reject some days with errors of their own, and interpolators that fail in every way. Non-trivial = exactly one reason for an error; distinct by choice tape.",
        assumptions: &["where several reasons apply, which of them is reported is left open"],
        subs: vec![
            gen("curves", 80_000, 4_000_000, |s| any_combination!(s, curves)),
            gen("curves-own", 80_000, 4_000_000, |s| fussy!(s, curves)),
            gen("interpolators", 60_000, 3_000_000, |s| match s.draw(3) {
                0 => moods::<Act365>(s),
                1 => moods::<Thirty360>(s),
                _ => moods::<Fussy>(s),
            }),
            gen("bonds", 80_000, 4_000_000, |s| any_combination!(s, prices)),
            gen("bonds-own", 80_000, 4_000_000, |s| fussy!(s, prices)),
        ],
    }]
}
