//! C37: evaluations on several threads give what each gives alone.
//!
//! A case is a set of operations, each a closure from nothing to a number (the hash of everything it
//! computed). Every one is run alone first; then some threads run them over and over, starting
//! together and at different places of the list, and compare; then each is run alone again.

use crate::bond::gen_terms;
use crate::curve::*;
use crate::fl::Fl;
use crate::interp_ref::*;
use crate::model::*;
use cal::rules::{self, Spec};
use chrono::{Datelike, NaiveDate};
use engine::{ensure, threaded, mix, Outcome, Property, Src};
use qlab_instrument::bond::Bond;
use qlab_error::InterpolationError;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::period::days::Days;
use qlab_time::period::months::Months;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier, Mutex};

type Op = Box<dyn Fn() -> u64 + Send + Sync>;

/// An object that may be used from several threads at once.
struct Shared<T>(Arc<T>);
// SAFETY: made only where `Probe` says that T is Sync and Send.
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}
struct Probe<T>(PhantomData<T>);
#[allow(dead_code)]
trait NotShareable {
    fn shareable(&self) -> bool {
        false
    }
}
impl<T> NotShareable for Probe<T> {}
impl<T: Send + Sync> Probe<T> {
    #[allow(dead_code)]
    fn shareable(&self) -> bool {
        true
    }
}
/// Some(shared object) if its (concrete) type allows that.
macro_rules! shared {
    ($t:ty, $v:expr) => {
        if Probe::<$t>(PhantomData).shareable() {
            Some(Shared(Arc::new($v)))
        } else {
            None
        }
    };
}

fn number<V: Fl, E: std::fmt::Display>(r: Result<V, E>) -> u64 {
    r.map_or_else(|e| engine::hash_str(&e.to_string()), |v| v.f().to_bits())
}
fn fold(i: impl Iterator<Item = u64>) -> u64 {
    i.fold(7, mix)
}

// ------------------------------------------------------------------------------------ operations

thread_local! {
    static SPECS: Vec<Spec> = rules::all();
}

fn gen_days(s: &mut Src, n: usize) -> Vec<NaiveDate> {
    let base = day_in_year(s, 2000);
    (0..n)
        .map(|_| {
            let y = s.int_near(2023, 1902, 2197);
            let d = gen_near(s, Ymd::new(y, base.m, base.d.min(28)), 300);
            NaiveDate::from_ymd_opt(d.y.clamp(1902, 2197) as i32, d.m as u32, d.d.min(28) as u32).unwrap()
        })
        .collect()
}

fn calendar_op(s: &mut Src) -> (Op, String) {
    SPECS.with(|specs| {
        let spec = s.pick(specs);
        let days = gen_days(s, 6);
        let make = spec.make;
        let joint = if s.chance(1, 5) { Some(s.pick(specs).make) } else { None };
        let name = format!("{}{} around {}", spec.name, if joint.is_some() { " joined" } else { "" }, days[0]);
        let evaluate = |c: &dyn calendar::Calendar, days: &[NaiveDate]| {
            fold(days.iter().map(|&d| {
                let n = |d: NaiveDate| d.num_days_from_ce() as u64;
                let mut h = u64::from(c.is_business_day(d)) + 2 * u64::from(c.is_holiday(d)) + 4 * u64::from(c.is_weekend(d));
                h = mix(h, n(c.end_of_month(d)));
                h = mix(h, n(c.last_day_of_month(d)));
                h = mix(h, u64::from(c.easter_monday(d.year())));
                h = mix(h, u64::from(c.orthodox_easter_monday(d.year())));
                mix(h, c.business_days_between(d, d + chrono::Duration::days(12), None, Some(true)) as u64)
            }))
        };
        let op: Op = match joint {
            None => Box::new(move || evaluate(&*make(), &days)),
            Some(other) => Box::new(move || evaluate(&calendar::jointcalendar::JointCalendar::new(Dyn(make()), Dyn(other())), &days)),
        };
        (op, name)
    })
}

#[derive(Debug)]
struct Dyn(Box<dyn calendar::Calendar>);
impl calendar::Calendar for Dyn {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.is_business_day(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        self.0.is_weekend(date)
    }
}

fn date_op(s: &mut Src) -> (Op, String) {
    let days: Vec<Ymd> = gen_days(s, 4).into_iter().map(|d| Ymd::new(d.year().into(), d.month().into(), d.day().into())).collect();
    let (months, n) = (s.int(0, 60) as u32, s.int(0, 1000) as u64);
    let make = SPECS.with(|specs| s.pick(specs).make);
    let name = format!("date arithmetic from {}", days[0].iso());
    let roll = [DateRolling::Following, DateRolling::Preceding, DateRolling::ModifiedFollowing, DateRolling::ModifiedPreceding][s.usize(0, 3)];
    let op: Op = Box::new(move || {
        let c = Dyn(make());
        fold(days.iter().map(|d| {
            let serial = |d: Option<Date>| d.map_or(0, |d| d.serial_date() as u64);
            let d = d.date();
            let e = d.checked_add_months(Months::new(months)).unwrap();
            let mut h = mix(serial(Some(d)), serial(Some(e)));
            h = mix(h, serial(d.checked_add_days(Days::new(n))));
            h = mix(h, serial(d.checked_sub_days(Days::new(n))));
            h = mix(h, serial(d.checked_sub_months(Months::new(months))));
            h = mix(h, serial(d.weekend_roll()));
            h = mix(h, serial(d.checked_roll(Months::new(0), &c, roll)));
            h = mix(h, number::<f64, _>(Act365::calculate_day_count_fraction(d, e)));
            h = mix(h, number::<f64, _>(Act360::calculate_day_count_fraction(d, e)));
            h = mix(h, number::<f32, _>(Thirty360::calculate_day_count_fraction(d, e)));
            mix(h, engine::hash_str(&format!("{d}")))
        }))
    });
    (op, name)
}

fn gen_points(s: &mut Src) -> (Vec<f64>, Vec<f64>, Vec<f64>) {
    let n = s.usize(3, 24);
    let mut x = s.f64(-10.0, 10.0);
    let xs: Vec<f64> = (0..n)
        .map(|_| {
            x += s.f64(0.01, 3.0);
            x
        })
        .collect();
    let ys = (0..n).map(|_| s.f64(-5.0, 5.0)).collect();
    let at = (0..5).map(|_| xs[0] + s.f64(0.0, 1.0) * (xs[n - 1] - xs[0])).collect();
    (xs, ys, at)
}

/// The library's interpolators: fitted anew every time, or one object in all threads.
fn interpolation_ops(s: &mut Src, ops: &mut Vec<(Op, String)>) {
    let kind = *s.pick(&KINDS);
    let (xs, ys, at) = gen_points(s);
    let ks: Vec<f64> = ys.iter().rev().copied().collect();
    let name = |what: &str| format!("{kind:?} through {} points, {what}", xs.len());
    let pairs: Vec<(f64, f64)> = xs.iter().copied().zip(ys.iter().copied()).collect();
    let triples: Vec<(f64, f64, f64)> = pairs.iter().zip(&ks).map(|(p, k)| (p.0, p.1, *k)).collect();
    macro_rules! share {
        ($t:ty, $v:expr) => {
            if let Some(o) = $v.ok().and_then(|v| shared!($t, v)) {
                for &x in &at {
                    let o = o.clone();
                    ops.push((Box::new(move || number(o.get().try_value(x))) as Op, name("shared")));
                }
            }
        };
    }
    match (s.bool(), kind) {
        (true, Kind::Linear) => share!(Linear<f64>, Linear::<f64>::default().try_fit(&pairs)),
        (true, Kind::Natural) => share!(NaturalCubic<f64>, NaturalCubic::<f64>::default().try_fit(&pairs)),
        (true, Kind::Catmull) => share!(CatmullRom<f64>, CatmullRom::<f64>::default().try_fit(&pairs)),
        (true, Kind::Hermite) => share!(Hermite<f64>, Hermite::try_new(&triples)),
        (false, _) if s.bool() => {
            let what = name("fitted anew");
            let f = |v: &[f64]| v.iter().map(|x| *x as f32).collect::<Vec<f32>>();
            let (xs, ys, ks, at) = (f(&xs), f(&ys), f(&ks), f(&at));
            ops.push((Box::new(move || fit::<f32>(kind, &xs, &ys, &ks).map_or(3, |e| fold(at.iter().map(|&x| number(e(x)))))), what));
        }
        _ => {
            let what = name("fitted anew");
            ops.push((Box::new(move || fit::<f64>(kind, &xs, &ys, &ks).map_or(3, |e| fold(at.iter().map(|&x| number(e(x)))))), what));
        }
    }
}

fn curve_ops<D: Conv + 'static, I: Scheme<F = f64> + 'static>(s: &mut Src, ops: &mut Vec<(Op, String)>, bonds: bool, shareable: bool) -> Outcome {
    let t = gen_terms::<f64>(s, true, 8);
    let settle = t.issue;
    let n = s.usize(3, 8);
    let span = t.maturity.serial() - settle.serial() + 40;
    let pillars: Vec<Ymd> = (0..n).map(|i| settle.add_days(i128::from(span * i as i64 / (n as i64 - 1))).unwrap()).collect();
    let yields = (0..n).map(|_| s.f64(0.0, 0.06)).collect();
    let c = Arc::new(CurveData { settle, pillars, yields });
    let name = |what: &str| format!("{} on {} ({what})", t.show(), c.show::<D>(&format!("{:?}", I::K)));
    let flows: Vec<(Ymd, Ymd)> = (0..4)
        .map(|_| {
            if s.chance(1, 10) {
                // an error: before settlement, beyond the pillars, or reversed
                let (a, b) = *s.pick(&[(-1, 20), (3, span + 50), (20, 10)]);
                let on = |n: i64| settle.add_days(i128::from(n)).unwrap();
                return (on(a), on(b));
            }
            let a = settle.add_days(i128::from(s.int(0, span - 40))).unwrap();
            (a, a.add_days(i128::from(s.int(0, 39))).unwrap())
        })
        .collect();
    c.build::<D, I>()?;
    let id = *s.pick(&["a", "b", ""]);
    t.build::<f64>(id)?;
    if shareable && s.bool() {
        let o = Shared(Arc::new(c.build::<D, I>()?));
        if bonds {
            let bond = Shared(Arc::new(t.build::<f64>(id)?));
            for (a, _) in flows {
                let (o, bond) = (o.clone(), bond.clone());
                ops.push((Box::new(move || number(bond.get().discounted_value(a.date(), o.get()))), name("one bond and curve")));
            }
        } else {
            for (a, b) in flows {
                let o = o.clone();
                ops.push((Box::new(move || number(o.get().discount_factor(a.date(), b.date()))), name("one curve")));
            }
        }
        return Ok(());
    }
    let what = name("made anew");
    let t = t.clone();
    ops.push((
        Box::new(move || {
            let Ok(curve) = c.build::<D, I>() else { return 5 };
            if bonds {
                let Ok(bond) = t.build::<f64>(id) else { return 6 };
                fold(flows.iter().map(|f| number(bond.discounted_value(f.0.date(), &curve))))
            } else {
                fold(flows.iter().map(|f| number(curve.discount_factor(f.0.date(), f.1.date()))))
            }
        }),
        what,
    ));
    Ok(())
}

fn any_curve_ops(s: &mut Src, ops: &mut Vec<(Op, String)>, bonds: bool) -> Outcome {
    macro_rules! go {
        ($d:ty, $i:ty) => {
            curve_ops::<$d, $i>(s, ops, bonds, Probe::<YieldCurve<$d, $i>>(PhantomData).shareable() && Probe::<Bond<f64>>(PhantomData).shareable())
        };
    }
    match s.draw(9) {
        0 => go!(Act365, Linear<f64>),
        1 => go!(Act360, Linear<f64>),
        2 => go!(Thirty360, Linear<f64>),
        3 => go!(Act365, NaturalCubic<f64>),
        4 => go!(Act360, NaturalCubic<f64>),
        5 => go!(Thirty360, NaturalCubic<f64>),
        6 => go!(Act365, CatmullRom<f64>),
        7 => go!(Act360, CatmullRom<f64>),
        _ => go!(Thirty360, CatmullRom<f64>),
    }
}

// ------------------------------------------------------------------------------------ failures

/// A user-defined calendar that panics when asked for one day.
#[derive(Debug)]
struct Touchy {
    inner: Dyn,
    day: NaiveDate,
}
impl calendar::Calendar for Touchy {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        assert!(date != self.day, "not this day");
        self.inner.is_business_day(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        self.inner.is_weekend(date)
    }
}

/// A user-defined interpolator that panics beyond a time, and for a value when fitted.
#[derive(Default)]
struct Fragile {
    limit: f64,
    level: f64,
}
impl Interpolator for Fragile {
    type Value = f64;
    fn try_fit(self, p: &[(f64, f64)]) -> Result<Self, InterpolationError<f64>> {
        assert!(p[1].1 < 0.5, "not this value");
        Ok(Self { limit: p[1].0, level: p[0].1 })
    }
    fn try_value(&self, t: f64) -> Result<f64, InterpolationError<f64>> {
        assert!(t < self.limit, "not this time");
        Ok(self.level)
    }
}

/// Operations that end in an error or, in user code or for a year without Easter, a panic: none of them
/// may leave anything to the others, nor depend on them.
fn failing_op(s: &mut Src) -> Result<(Op, String), String> {
    fn guarded(f: impl Fn() -> u64 + Send + Sync + 'static) -> Op {
        Box::new(move || catch_unwind(AssertUnwindSafe(&f)).unwrap_or(99))
    }
    Ok(match s.draw(6) {
        0 => {
            let y = if s.bool() { s.int(2200, 2400) as i32 } else { s.int(-300, 1900) as i32 };
            let make = SPECS.with(|specs| s.pick(specs).make);
            let at = NaiveDate::from_ymd_opt(y, s.int(1, 12) as u32, s.int(1, 28) as u32).unwrap();
            (guarded(move || u64::from(make().easter_monday(y)) + 2 * u64::from(make().is_business_day(at))), format!("a calendar in the year {y}"))
        }
        1 => {
            let make = SPECS.with(|specs| s.pick(specs).make);
            let day = gen_days(s, 1)[0];
            let (from, joint) = (day - chrono::Duration::days(s.int(0, 20)), s.bool());
            let f = move || {
                let touchy = Touchy { inner: Dyn(make()), day };
                let n = |c: &dyn calendar::Calendar| {
                    let end = c.end_of_month(from).num_days_from_ce();
                    (c.business_days_between(from, from + chrono::Duration::days(20), None, None) as u64) << 32 | end as u64
                };
                if joint {
                    n(&calendar::jointcalendar::JointCalendar::new(Dyn(make()), touchy))
                } else {
                    n(&touchy)
                }
            };
            (guarded(f), format!("a user calendar that panics on {day}"))
        }
        2 | 3 => {
            let t = gen_terms::<f64>(s, true, 8);
            let span = t.maturity.serial() - t.issue.serial();
            let limit = t.issue.add_days(i128::from(s.int(1, span + 5))).unwrap();
            let yields = [s.f64(0.0, 0.06), if s.chance(1, 3) { 0.9 } else { 0.1 }];
            let what = format!("{} with an interpolator that panics from {}", t.show(), limit.iso());
            t.build::<f64>("t")?;
            let f = move || {
                let settle = t.issue.date();
                let Ok(c) = YieldCurve::<Act365, Fragile>::new(settle, &[settle, limit.date()], &yields) else { return 5 };
                let Ok(b) = t.build::<f64>("t") else { return 6 };
                number(b.discounted_value(settle, &c))
            };
            (guarded(f), what)
        }
        4 => {
            let kind = *s.pick(&KINDS);
            let (mut xs, ys, at) = gen_points(s);
            match s.draw(3) {
                0 => xs.truncate(s.usize(0, 2)),
                1 => xs.swap(0, 1),
                _ => xs[1] = f64::NAN,
            }
            let what = format!("{kind:?} through {} unfit points", xs.len());
            let f = move || match fit::<f64>(kind, &xs, &ys, &ys) {
                Ok(e) => fold(at.iter().map(|&x| number(e(x)))),
                Err(e) => engine::hash_str(&e.to_string()),
            };
            (Box::new(f), what)
        }
        _ => {
            let kind = *s.pick(&KINDS);
            let (xs, ys, _) = gen_points(s);
            let beyond = [xs[0] - s.f64(0.001, 5.0), xs[xs.len() - 1] + s.f64(0.001, 5.0), f64::NAN];
            let what = format!("{kind:?} through {} points, out of range", xs.len());
            (Box::new(move || fit::<f64>(kind, &xs, &ys, &ys).map_or(3, |e| fold(beyond.iter().map(|&x| number(e(x)))))), what)
        }
    })
}

// ------------------------------------------------------------------------------------ the check

fn compare(s: &mut Src, ops: &[(Op, String)], threads: usize, rounds: usize) -> Outcome {
    let alone: Vec<u64> = ops.iter().map(|o| o.0()).collect();
    let barrier = Barrier::new(threads);
    let wrong: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|scope| {
        for k in 0..threads {
            let (barrier, wrong, alone) = (&barrier, &wrong, &alone);
            scope.spawn(move || {
                let note = |m: String| {
                    let mut w = wrong.lock().unwrap();
                    if w.is_none() {
                        *w = Some(m);
                    }
                };
                barrier.wait();
                for r in 0..rounds * ops.len() {
                    let i = (r * (2 * k + 1) + k * ops.len() / threads) % ops.len();
                    match catch_unwind(AssertUnwindSafe(|| ops[i].0())) {
                        Ok(v) if v == alone[i] => {}
                        Ok(_) => return note(format!("differs from its value alone: {}", ops[i].1)),
                        Err(_) => return note(format!("panics: {}", ops[i].1)),
                    }
                }
            });
        }
    });
    if let Some(m) = wrong.into_inner().unwrap() {
        engine::fail!("with {threads} threads running {} operations, one {m}", ops.len());
    }
    for (o, v) in ops.iter().zip(&alone) {
        ensure!(o.0() == *v, "after {threads} threads ran {} operations, one differs from before: {}", ops.len(), o.1);
    }
    s.checked(((threads * rounds + 1) * ops.len()) as u64);
    Ok(())
}

fn run(s: &mut Src, family: usize, rounds: usize) -> Outcome {
    let threads = s.usize(2, 4);
    let mut ops = Vec::new();
    let n = s.usize(2, 8);
    for _ in 0..n {
        if s.chance(1, 6) {
            s.label("with failures");
            ops.push(failing_op(s)?);
            continue;
        }
        match if s.chance(1, 12) { s.usize(0, 4) } else { family } {
            0 => ops.push(calendar_op(s)),
            1 => ops.push(date_op(s)),
            2 => interpolation_ops(s, &mut ops),
            3 => any_curve_ops(s, &mut ops, false)?,
            _ => any_curve_ops(s, &mut ops, true)?,
        }
    }
    if ops.len() < 2 {
        s.label("nothing to run");
        return Ok(());
    }
    compare(s, &ops, threads, rounds)?;
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{threads} threads, {} operations, e.g. {}", ops.len(), ops[0].1));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C37",
        rule: "2-4 threads, started together, run a list of 2-40 generated operations (calendar queries, date arithmetic and rolling, interpolation, discount factors, bond prices; some that end in an error or, in user-defined code, a panic; on objects made anew or shared by all threads) many times in different orders; every result is compared bit for bit with that of the same operation alone, before and after. Non-trivial = at least two operations; distinct by choice tape.",
        assumptions: &["interleavings are those that the scheduler produces, eight such cases at a time on all cores", "a type that is not Sync is not shared between threads"],
        subs: vec![
            threaded("calendars", 1_000, 100_000, |s| run(s, 0, 8)),
            threaded("dates", 1_000, 100_000, |s| run(s, 1, 12)),
            threaded("interpolation", 1_500, 150_000, |s| run(s, 2, 60)),
            threaded("curves", 1_500, 150_000, |s| run(s, 3, 25)),
            threaded("bonds", 1_500, 150_000, |s| run(s, 4, 15)),
        ],
    }]
}
