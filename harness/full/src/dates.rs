//! C01-C07: dates, periods, rolling and day counts.

use crate::fl::Fl;
use crate::model::*;
use cal::algebra::{gen_custom, Custom};
use cal::rules::{self, Spec};
use chrono::{Datelike, NaiveDate};
use engine::{ensure, fail, gen, mix, sweep, Outcome, Property, Src};
use qlab_time::calendar::Calendar;
use qlab_time::date::Date;
use qlab_time::date_rolling::DateRolling;
use qlab_time::day_count::{act_360::Act360, act_365::Act365, thirty_360::Thirty360, DayCount};
use qlab_time::period::{days::Days, months::Months, years::Years, Period};
use std::cell::Cell;

/// All observers of one date against the model.
fn observe(t: Ymd) -> Outcome {
    let Some(d) = Date::from_ymd(t.y as i32, t.m as u32, t.d as u32) else {
        fail!("from_ymd{t:?} is rejected, but it is a real date");
    };
    let got = (d.year(), d.month(), d.day());
    ensure!(
        (i64::from(got.0), i64::from(got.1), i64::from(got.2)) == (t.y, t.m, t.d),
        "from_ymd{t:?} reports back {got:?}"
    );
    ensure!(i64::from(d.serial_date()) == t.serial(), "{t:?}: serial_date = {}, must be {}", d.serial_date(), t.serial());
    ensure!(d.leap_year() == (len(t.y, 2) == 29), "{t:?}: leap_year = {}", d.leap_year());
    ensure!(d.to_string() == t.iso(), "{t:?} prints as {d}, must be {}", t.iso());
    let next = t.add_days(1);
    let prev = t.add_days(-1);
    ensure!(d.succ_opt().map(of) == next, "{t:?}: succ_opt = {:?}, must be {next:?}", d.succ_opt());
    ensure!(d.pred_opt().map(of) == prev, "{t:?}: pred_opt = {:?}, must be {prev:?}", d.pred_opt());
    if let Some(n) = d.succ_opt() {
        ensure!(n > d && n - d == 1 && d - n == -1 && n != d, "{t:?} and its successor: order or difference wrong");
        ensure!(n.pred_opt() == Some(d), "{t:?}: predecessor of the successor is {:?}", n.pred_opt());
    }
    let chrono = NaiveDate::from_ymd_opt(t.y as i32, t.m as u32, t.d as u32).map(Date::from);
    ensure!(chrono == Some(d), "{t:?}: conversion from a chrono date gives {chrono:?}");
    Ok(())
}

fn is_edge(t: Ymd) -> bool {
    t.d == len(t.y, t.m) || t.d == 1 || t.m == 2 || t.y < 1 || !(-9999..=9999).contains(&t.y)
}

fn triples(s: &mut Src) -> Outcome {
    let base = gen_ymd(s);
    let mut t = base;
    // break one or more components
    match s.weighted(&[4, 2, 2, 1, 1]) {
        0 => {}
        1 => t.d = *s.pick(&[0, 28, 29, 30, 31, 32, 33, 60, 255, 256, 1 << 31, u32::MAX as i64]),
        2 => t.m = *s.pick(&[0, 2, 13, 14, 16, 255, 256, 257, 1 << 31, u32::MAX as i64]),
        3 => t.y = *s.pick(&[MIN_Y - 1, MIN_Y, MAX_Y, MAX_Y + 1, i32::MIN as i64, i32::MAX as i64, 0, -1, -4]),
        _ => {
            t.d = s.int(0, 35);
            t.m = s.int(0, 15);
        }
    }
    let got = Date::from_ymd(t.y as i32, t.m as u32, t.d as u32);
    ensure!(got.is_some() == t.valid(), "from_ymd{t:?} is {}", if got.is_some() { "accepted" } else { "rejected" });
    s.checked(1);
    if t.valid() {
        observe(t)?;
        s.checked(9);
    }
    s.label(if t.valid() { "valid" } else { "invalid" });
    s.label_if(t.valid() && t.y < 1, "year before 1");
    s.label_if(t.valid() && len(t.y, 2) == 29 && t.m == 2 && t.d == 29, "29 February");
    if !t.valid() || is_edge(t) {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("from_ymd({}, {}, {}) = {got:?}", t.y, t.m, t.d));
    Ok(())
}

fn year_days(s: &mut Src) -> Outcome {
    let y = 1600 + s.draw(1000) as i64;
    for m in 1..=12 {
        for d in 1..=len(y, m) {
            observe(Ymd::new(y, m, d))?;
            s.checked(9);
        }
        for d in [0, len(y, m) + 1, 32] {
            ensure!(Date::from_ymd(y as i32, m as u32, d as u32).is_none(), "from_ymd({y}, {m}, {d}) is accepted");
            s.checked(1);
        }
    }
    s.nontrivial(y as u64);
    s.sample(|| format!("every day of {y}"));
    Ok(())
}

fn date_pairs(s: &mut Src) -> Outcome {
    let a = gen_ymd(s);
    let b = match s.weighted(&[2, 2, 1]) {
        0 => gen_ymd(s),
        1 => gen_near(s, a, 500),
        _ => a,
    };
    let (x, y) = (a.date(), b.date());
    let diff = a.serial() - b.serial();
    ensure!(x - y == diff, "{x} - {y} = {}, must be {diff}", x - y);
    ensure!(x.cmp(&y) == a.cmp(&b) && (x < y) == (diff < 0), "{x} compared with {y}: {:?}", x.cmp(&y));
    ensure!((x == y) == (diff == 0), "{x} == {y} is {}", x == y);
    ensure!(
        i64::from(x.serial_date()) - i64::from(y.serial_date()) == diff,
        "serial numbers of {x} and {y} differ by {}",
        x.serial_date() - y.serial_date()
    );
    ensure!(
        x.partial_cmp(&y) == Some(a.cmp(&b)) && (x <= y) == (diff <= 0) && (x > y) == (diff > 0) && (x >= y) == (diff >= 0) && (x != y) == (diff != 0),
        "{x} compared with {y}: {:?}",
        x.partial_cmp(&y)
    );
    ensure!(of(x.max(y)) == a.max(b) && of(x.min(y)) == a.min(b), "the later of {x} and {y} is {}, the earlier {}", x.max(y), x.min(y));
    let hash = |d: Date| {
        let mut h = std::hash::DefaultHasher::new();
        std::hash::Hash::hash(&d, &mut h);
        std::hash::Hasher::finish(&h)
    };
    // the same day reached in another way
    if let Some(z) = a.add_days(1).and_then(|n| n.date().pred_opt()) {
        ensure!(z == x && hash(z) == hash(x), "{x} and the day before the next differ");
    }
    ensure!(diff != 0 || hash(x) == hash(y), "hash values of {x} differ");
    s.checked(7);
    s.label_if(diff == 0, "equal");
    if diff != 0 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{x} - {y} = {diff}"));
    Ok(())
}

// ------------------------------------------------------------------------------------ C02

fn amount_u64(s: &mut Src, t: Ymd) -> u64 {
    let up = (max_serial() - t.serial()) as u64;
    let down = (t.serial() - min_serial()) as u64;
    match s.weighted(&[5, 3, 2, 2, 1]) {
        0 => s.int(0, 40) as u64,
        1 => s.int(0, 1500) as u64,
        2 => s.int(0, 400_000_000) as u64,
        3 => {
            let edge = if s.bool() { up } else { down };
            let k = s.int_near(0, -3, 3);
            edge.saturating_add_signed(k)
        }
        _ => match s.draw(6) {
            0 => i32::MAX as u64,
            1 => u32::MAX as u64 + 1,
            2 => i64::MAX as u64,
            3 => i64::MAX as u64 + 1 + s.draw(50),
            4 => u64::MAX - s.draw(50),
            _ => s.draw(0),
        },
    }
}

fn day_steps(s: &mut Src) -> Outcome {
    let a = gen_ymd(s);
    let n = amount_u64(s, a);
    let d = a.date();
    let plus = a.add_days(i128::from(n));
    let minus = a.add_days(-i128::from(n));
    let (p, m) = (d.checked_add_days(Days::new(n)), d.checked_sub_days(Days::new(n)));
    ensure!(p.map(of) == plus, "{d} + {n} days = {p:?}, must be {plus:?}");
    ensure!(m.map(of) == minus, "{d} - {n} days = {m:?}, must be {minus:?}");
    let q = Days::new(n).checked_add(d);
    ensure!(q == p, "Days({n}).checked_add({d}) = {q:?}, must be {p:?}");
    if let Some(p) = p {
        ensure!(p.checked_sub_days(Days::new(n)) == Some(d), "({d} + {n}) - {n} days = {:?}", p.checked_sub_days(Days::new(n)));
        // composition at an arbitrary split
        let k = if n == 0 { 0 } else { s.draw(n) };
        let r = d.checked_add_days(Days::new(k)).and_then(|e| e.checked_add_days(Days::new(n - k)));
        ensure!(r == Some(p), "{d} + {k} + {} days = {r:?}, must be {p}", n - k);
    }
    s.checked(5);
    s.label_if(plus.is_none(), "addition leaves the range");
    s.label_if(minus.is_none(), "subtraction leaves the range");
    s.label_if(n > u64::from(u32::MAX), "amount beyond 32 bits");
    if n > 0 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{d} +/- {n} days = {p:?} / {m:?}"));
    Ok(())
}

fn day_history(s: &mut Src) -> Outcome {
    let mut t = gen_ymd(s);
    let start = t;
    let mut d = t.date();
    let n = s.usize(1, 25);
    for i in 0..n {
        let (got, want, what): (Option<Date>, Option<Ymd>, String) = match s.weighted(&[3, 3, 1, 1]) {
            0 => {
                let k = amount_u64(s, t);
                (d.checked_add_days(Days::new(k)), t.add_days(i128::from(k)), format!("+ {k}"))
            }
            1 => {
                let k = amount_u64(s, t);
                (d.checked_sub_days(Days::new(k)), t.add_days(-i128::from(k)), format!("- {k}"))
            }
            2 => (d.succ_opt(), t.add_days(1), "succ".into()),
            _ => (d.pred_opt(), t.add_days(-1), "pred".into()),
        };
        ensure!(got.map(of) == want, "step {i} ({what}) from {d}: {got:?}, must be {want:?}");
        if let (Some(g), Some(w)) = (got, want) {
            d = g;
            t = w;
        }
        ensure!(d - start.date() == t.serial() - start.serial(), "after step {i}: distance to the start is {}", d - start.date());
        s.checked(2);
    }
    if n > 1 && t != start {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{n} steps from {} to {d}", start.iso()));
    Ok(())
}

// ------------------------------------------------------------------------------------ C03

fn amount_months(s: &mut Src, t: Ymd) -> u32 {
    let up = (MAX_Y - t.y) * 12 + 12 - t.m;
    let down = (t.y - MIN_Y) * 12 + t.m - 1;
    match s.weighted(&[6, 3, 2, 2, 1]) {
        0 => s.int(0, 30) as u32,
        1 => s.int(0, 700) as u32,
        2 => s.int(0, 6_400_000) as u32,
        3 => {
            let e = if s.bool() { up } else { down };
            (e + s.int_near(0, -2, 2)).max(0) as u32
        }
        _ => *s.pick(&[i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX, u32::MAX - 11, 1 << 31]),
    }
}

fn amount_years(s: &mut Src, t: Ymd) -> i32 {
    match s.weighted(&[6, 3, 2, 2, 1]) {
        0 => s.int_near(0, -12, 12) as i32,
        1 => s.int_near(0, -450, 450) as i32,
        2 => s.int_near(0, -530_000, 530_000) as i32,
        3 => {
            let e = if s.bool() { MAX_Y - t.y } else { MIN_Y - t.y };
            (e + s.int_near(0, -2, 2)) as i32
        }
        _ => *s.pick(&[i32::MAX, i32::MIN, i32::MAX - 2023, i32::MIN + 1, i32::MIN + 2023]),
    }
}

fn month_step(s: &mut Src, t: Ymd, d: Date) -> Result<(Option<Date>, Option<Ymd>, String), String> {
    Ok(match s.weighted(&[3, 3, 3]) {
        0 => {
            let n = amount_months(s, t);
            let g = d.checked_add_months(Months::new(n));
            ensure!(Months::new(n).checked_add(d) == g, "Months({n}).checked_add({d}) differs from checked_add_months");
            (g, t.add_months(i64::from(n)), format!("{d} + {n} months"))
        }
        1 => {
            let n = amount_months(s, t);
            (d.checked_sub_months(Months::new(n)), t.add_months(-i64::from(n)), format!("{d} - {n} months"))
        }
        _ => {
            let n = amount_years(s, t);
            let g = d.checked_add_years(Years::new(n));
            ensure!(Years::new(n).checked_add(d) == g, "Years({n}).checked_add({d}) differs from checked_add_years");
            (g, t.add_years(i64::from(n)), format!("{d} + {n} years"))
        }
    })
}

fn month_steps(s: &mut Src) -> Outcome {
    let t = gen_ymd(s);
    let d = t.date();
    let (got, want, what) = month_step(s, t, d)?;
    ensure!(got.map(of) == want, "{what} = {got:?}, must be {want:?}");
    s.checked(2);
    s.label_if(want.is_none(), "leaves the range");
    s.label_if(want.is_some_and(|w| w.d != t.d), "day clamped");
    s.label_if(t.m == 2 && t.d == 29, "from 29 February");
    if want != Some(t) && (want.is_none() || t.d > 28) {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{what} = {got:?}"));
    Ok(())
}

fn month_history(s: &mut Src) -> Outcome {
    let mut t = gen_ymd(s);
    let mut d = t.date();
    let mut moved = false;
    for i in 0..s.usize(1, 15) {
        let (got, want, what) = month_step(s, t, d)?;
        ensure!(got.map(of) == want, "step {i}: {what} = {got:?}, must be {want:?}");
        if let (Some(g), Some(w)) = (got, want) {
            moved |= w != t;
            d = g;
            t = w;
        }
        s.checked(2);
    }
    if moved {
        s.nontrivial(s.tape_key());
    }
    Ok(())
}

/// Every day of a 400-year cycle with every month step up to two years and every year step up to 8.
fn month_grid(s: &mut Src) -> Outcome {
    let y = 1800 + s.draw(500) as i64;
    for m in 1..=12 {
        for dd in [1, 15, 27, 28, 29, 30, 31] {
            let t = Ymd::new(y, m, dd);
            if !t.valid() {
                continue;
            }
            let d = t.date();
            for n in 0..=25 {
                let (g, w) = (d.checked_add_months(Months::new(n)), t.add_months(i64::from(n)));
                ensure!(g.map(of) == w, "{d} + {n} months = {g:?}, must be {w:?}");
                let (g, w) = (d.checked_sub_months(Months::new(n)), t.add_months(-i64::from(n)));
                ensure!(g.map(of) == w, "{d} - {n} months = {g:?}, must be {w:?}");
            }
            for n in -8..=8 {
                let (g, w) = (d.checked_add_years(Years::new(n)), t.add_years(i64::from(n)));
                ensure!(g.map(of) == w, "{d} + {n} years = {g:?}, must be {w:?}");
            }
            s.checked(69);
        }
    }
    s.nontrivial(y as u64);
    s.sample(|| format!("start days 1, 15, 27..31 of every month of {y}, 0..25 months and -8..8 years"));
    Ok(())
}

// ------------------------------------------------------------------------------------ C04

fn check_roll(t: Ymd) -> Outcome {
    let d = t.date();
    let got = d.weekend_roll();
    let want = t.roll_weekend();
    ensure!(got.map(of) == want, "weekend_roll({d}), weekday {} = {got:?}, must be {want:?}", t.weekday());
    if let Some(g) = got {
        ensure!(g.weekend_roll() == Some(g), "rolling {g} again gives {:?}", g.weekend_roll());
    }
    Ok(())
}

fn weekend_years(s: &mut Src) -> Outcome {
    let y = 1600 + s.draw(1000) as i64;
    for m in 1..=12 {
        for d in 1..=len(y, m) {
            check_roll(Ymd::new(y, m, d))?;
        }
    }
    s.checked(730);
    s.nontrivial(y as u64);
    s.sample(|| format!("every day of {y}"));
    Ok(())
}

fn weekend_any(s: &mut Src) -> Outcome {
    let t = match s.weighted(&[3, 1]) {
        0 => gen_ymd(s),
        _ => Ymd::from_serial(if s.bool() { max_serial() - s.int(0, 9) } else { min_serial() + s.int(0, 9) }).unwrap(),
    };
    check_roll(t)?;
    s.checked(2);
    let weekend = t.weekday() >= 5;
    s.label_if(weekend, "weekend");
    s.label_if(weekend && t.roll_weekend().is_none(), "beyond the range");
    s.label_if(weekend && t.roll_weekend().is_some_and(|r| r.m != t.m), "across a month end");
    if weekend {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("weekend_roll({}) = {:?}", t.iso(), t.roll_weekend().map(Ymd::iso)));
    Ok(())
}

// ------------------------------------------------------------------------------------ C05

/// A user-defined calendar of the `calendar` crate (reaches Date through the blanket impl).
#[derive(Debug)]
struct ThirdParty<'a>(Box<dyn calendar::Calendar + 'a>);
impl calendar::Calendar for ThirdParty<'_> {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.is_business_day(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        self.0.is_weekend(date)
    }
}

/// A user-defined calendar implementing the date library's own trait; counts the calls it gets so
/// that a search that never ends is noticed.
struct Own<'a> {
    open: &'a dyn Fn(i64) -> bool,
    calls: Cell<u64>,
}
impl Calendar for Own<'_> {
    fn is_business_day(&self, date: Date) -> bool {
        self.calls.set(self.calls.get() + 1);
        assert!(self.calls.get() < 100_000, "the calendar was asked 100000 times");
        (self.open)(i64::from(date.serial_date()))
    }
}

const CONVENTIONS: [DateRolling; 5] = [
    DateRolling::Unadjusted,
    DateRolling::Following,
    DateRolling::ModifiedFollowing,
    DateRolling::Preceding,
    DateRolling::ModifiedPreceding,
];

fn seek(open: &dyn Fn(i64) -> bool, t: Ymd, step: i64) -> Option<Ymd> {
    let mut n = t.serial();
    while (min_serial()..=max_serial()).contains(&n) {
        if open(n) {
            return Ymd::from_serial(n);
        }
        n += step;
    }
    None
}

fn roll_model(open: &dyn Fn(i64) -> bool, u: Ymd, conv: DateRolling) -> Option<Ymd> {
    let same = |a: Ymd| (a.y, a.m) == (u.y, u.m);
    match conv {
        DateRolling::Unadjusted => Some(u),
        DateRolling::Following => seek(open, u, 1),
        DateRolling::Preceding => seek(open, u, -1),
        DateRolling::ModifiedFollowing => seek(open, u, 1).and_then(|r| if same(r) { Some(r) } else { seek(open, u, -1) }),
        DateRolling::ModifiedPreceding => seek(open, u, -1).and_then(|r| if same(r) { Some(r) } else { seek(open, u, 1) }),
    }
}

#[derive(Clone, Copy, Debug)]
enum Step {
    D(u64),
    M(u32),
    Y(i32),
}
impl Period for Step {
    fn checked_add(self, date: Date) -> Option<Date> {
        match self {
            Step::D(n) => Days::new(n).checked_add(date),
            Step::M(n) => Months::new(n).checked_add(date),
            Step::Y(n) => Years::new(n).checked_add(date),
        }
    }
}

fn roll(d: Date, p: Step, c: &impl Calendar, conv: DateRolling) -> Option<Date> {
    match p {
        Step::D(n) => d.checked_roll(Days::new(n), c, conv),
        Step::M(n) => d.checked_roll(Months::new(n), c, conv),
        Step::Y(n) => d.checked_roll(Years::new(n), c, conv),
    }
}

/// A start date and period whose sum is `u` (or some other date if that is impossible).
fn gen_start(s: &mut Src, u: Ymd) -> (Ymd, Step) {
    let (t, p) = match s.weighted(&[2, 3, 3, 2]) {
        0 => (Some(u), Step::D(0)),
        1 => {
            let n = s.int(0, 400);
            (u.add_days(-i128::from(n)), Step::D(n as u64))
        }
        2 => {
            let n = s.int(0, 40);
            (u.add_months(-n), Step::M(n as u32))
        }
        _ => {
            let n = s.int_near(0, -10, 10);
            (u.add_years(-n), Step::Y(n as i32))
        }
    };
    match t {
        Some(t) => (t, p),
        None => (u, p),
    }
}

fn step_model(t: Ymd, p: Step) -> Option<Ymd> {
    match p {
        Step::D(n) => t.add_days(i128::from(n)),
        Step::M(n) => t.add_months(i64::from(n)),
        Step::Y(n) => t.add_years(i64::from(n)),
    }
}

fn check_rolls(s: &mut Src, c: &impl Calendar, open: &dyn Fn(i64) -> bool, t: Ymd, p: Step, reset: &dyn Fn()) -> Outcome {
    let d = t.date();
    let u = step_model(t, p);
    let mut moved = false;
    let mut modified = false;
    for conv in CONVENTIONS {
        reset();
        let got = roll(d, p, c, conv);
        let want = u.and_then(|u| roll_model(open, u, conv));
        ensure!(
            got.map(of) == want,
            "{d}.checked_roll({p:?}, {conv:?}) = {}, must be {} (unadjusted {})",
            got.map_or("None".into(), |g| g.to_string()),
            want.map_or("None".into(), Ymd::iso),
            u.map_or("None".into(), Ymd::iso)
        );
        moved |= want.is_some() && want != u;
        if let (Some(u), Some(w)) = (u, want) {
            modified |= matches!(conv, DateRolling::ModifiedFollowing) && w < u;
            modified |= matches!(conv, DateRolling::ModifiedPreceding) && w > u;
            if conv != DateRolling::Unadjusted {
                ensure!(c.is_business_day(w.date()) && !c.is_holiday(w.date()), "{} is not a business day", w.iso());
            }
        }
    }
    s.checked(9);
    s.label_if(modified, "a modified convention turned round");
    s.label_if(u.is_none(), "period leaves the range");
    if moved {
        s.nontrivial(s.tape_key());
    }
    Ok(())
}

thread_local! {
    static SPECS: Vec<Spec> = rules::all();
}

fn roll_market(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let i = s.usize(0, specs.len() - 1);
        let spec = &specs[i];
        let y = s.int_near(2023, 1902, 2197);
        let u = day_in_year(s, y);
        let years: Vec<_> = (y - 1..=y + 1).map(|y| cal::markets::model_year(spec, y as i32)).collect();
        let joint = s.chance(1, 4);
        let j = s.usize(0, specs.len() - 1);
        let other: Vec<_> = (y - 1..=y + 1).map(|y| cal::markets::model_year(&specs[j], y as i32)).collect();
        let open = |n: i64| {
            let day = n - 719_163;
            let k = years.iter().position(|m| day >= m.jan1 && day < m.jan1 + m.len as i64).expect("rolled more than a year");
            let doy = (day - years[k].jan1) as usize;
            years[k].is_business(doy) && (!joint || other[k].is_business(doy))
        };
        let (t, p) = gen_start(s, u);
        s.sample(|| format!("{}{} from {} by {p:?}", spec.name, if joint { " joined" } else { "" }, t.iso()));
        let c = ThirdParty((spec.make)());
        if joint {
            let c = calendar::jointcalendar::JointCalendar::new(c, ThirdParty((specs[j].make)()));
            check_rolls(s, &c, &open, t, p, &|| ())
        } else {
            check_rolls(s, &c, &open, t, p, &|| ())
        }
    })
}

fn roll_custom(s: &mut Src) -> Outcome {
    let u = {
        let y = s.int_near(2023, 1, 2200);
        day_in_year(s, y)
    };
    // closed for weeks, for more than a year, or for many years
    let run = match s.weighted(&[50, 8, 1]) {
        0 => 75,
        1 => 800,
        _ => 12_000,
    };
    let c: Custom = gen_custom(s, u.serial() - 719_163, 35, run);
    let (t, p) = gen_start(s, u);
    s.sample(|| format!("from {} by {p:?}, closed weekdays {:?}, {} closures", t.iso(), c.closed_weekdays, c.closures.len()));
    let open = |n: i64| c.open(n - 719_163);
    if s.bool() {
        let own = Own { open: &open, calls: Cell::new(0) };
        check_rolls(s, &own, &open, t, p, &|| own.calls.set(0))
    } else {
        check_rolls(s, &ThirdParty(Box::new(c.clone())), &open, t, p, &|| ())
    }
}

/// Closures that reach the end of the supported range, and periods that leave it.
fn roll_range(s: &mut Src) -> Outcome {
    let top = s.bool();
    let edge = if top { max_serial() } else { min_serial() };
    let inward = if top { -1 } else { 1 };
    let u = Ymd::from_serial(edge + inward * s.int(0, 60)).unwrap();
    let from = edge + inward * s.int(0, 70);
    let mask = s.draw(64);
    let open = |n: i64| {
        let beyond = if top { n > from } else { n < from };
        !beyond && (mask >> (n.rem_euclid(7) % 6) & 1 == 0 || n.rem_euclid(7) == 6)
    };
    let (t, p) = match s.weighted(&[4, 1, 1, 1]) {
        0 => gen_start(s, u),
        1 => (u, Step::D(s.int(0, 200) as u64)),
        2 => (u, Step::M(s.int(0, 5) as u32)),
        _ => (u, Step::Y(s.int_near(0, -2, 2) as i32)),
    };
    s.sample(|| format!("from {} by {p:?}, everything closed {} {from}", t.iso(), if top { "after" } else { "before" }));
    let own = Own { open: &open, calls: Cell::new(0) };
    check_rolls(s, &own, &open, t, p, &|| own.calls.set(0))
}

// ------------------------------------------------------------------------------------ C06 / C07

fn gen_pair(s: &mut Src) -> (Ymd, Ymd) {
    let a = gen_ymd(s);
    let b = match s.weighted(&[1, 3, 3, 3, 1]) {
        0 => a,
        1 => gen_near(s, a, 60),
        2 => gen_near(s, a, 800),
        3 => {
            let y = (a.y + s.int_near(0, -40, 40)).clamp(MIN_Y, MAX_Y);
            day_in_year(s, y)
        }
        _ => gen_ymd(s),
    };
    (a, b)
}

fn act<D: DayCount, V: Fl>(basis: f64, name: &str, a: Ymd, b: Ymd, c: Ymd) -> Outcome {
    let f = |x: Ymd, y: Ymd| -> Result<f64, String> {
        match D::calculate_day_count_fraction::<V>(x.date(), y.date()) {
            Ok(v) => Ok(v.f()),
            Err(e) => Err(format!("{name}<{}>({}, {}) is an error: {e}", V::NAME, x.iso(), y.iso())),
        }
    };
    let want = (b.serial() - a.serial()) as f64 / basis;
    let tol = |x: f64| 4.0 * V::EPS * x.abs();
    let ab = f(a, b)?;
    ensure!((ab - want).abs() <= tol(want), "{name}<{}>({}, {}) = {ab}, must be {want}", V::NAME, a.iso(), b.iso());
    let ba = f(b, a)?;
    ensure!((ab + ba).abs() <= tol(want), "{name}<{}>: reversing {} and {} gives {ba}", V::NAME, a.iso(), b.iso());
    ensure!(f(a, a)? == 0.0, "{name}<{}>({1}, {1}) is not zero", V::NAME, a.iso());
    let (bc, ac) = (f(b, c)?, f(a, c)?);
    let scale = ab.abs() + bc.abs() + ac.abs();
    ensure!((ab + bc - ac).abs() <= tol(scale), "{name}<{}> is not additive over {}, {}, {}", V::NAME, a.iso(), b.iso(), c.iso());
    Ok(())
}

fn act_days(s: &mut Src) -> Outcome {
    let (a, b) = gen_pair(s);
    let c = gen_near(s, b, 3000);
    match s.draw(4) {
        0 => act::<Act360, f64>(360.0, "Act360", a, b, c),
        1 => act::<Act360, f32>(360.0, "Act360", a, b, c),
        2 => act::<Act365, f64>(365.0, "Act365", a, b, c),
        _ => act::<Act365, f32>(365.0, "Act365", a, b, c),
    }?;
    s.checked(4);
    s.label_if(b < a, "reversed");
    if a != b {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{} to {}: {} days", a.iso(), b.iso(), b.serial() - a.serial()));
    Ok(())
}

fn thirty_days(a: Ymd, b: Ymd) -> i64 {
    360 * (b.y - a.y) + 30 * (b.m - a.m) + b.d.min(30) - a.d.min(30)
}

fn thirty_one<V: Fl>(a: Ymd, b: Ymd) -> Outcome {
    let got = Thirty360::calculate_day_count_fraction::<V>(a.date(), b.date());
    if a > b {
        ensure!(got.is_err(), "30/360<{}>({}, {}) = {:?} for reversed dates", V::NAME, a.iso(), b.iso(), got.ok());
        return Ok(());
    }
    let want = thirty_days(a, b) as f64 / 360.0;
    match got {
        Err(e) => fail!("30/360<{}>({}, {}) is an error: {e}", V::NAME, a.iso(), b.iso()),
        Ok(v) => {
            let tol = 4.0 * V::EPS * (want.abs() + (b.y - a.y) as f64);
            ensure!((v.f() - want).abs() <= tol, "30/360<{}>({}, {}) = {v}, must be {want}", V::NAME, a.iso(), b.iso());
        }
    }
    Ok(())
}

fn thirty(s: &mut Src) -> Outcome {
    let (a, b) = gen_pair(s);
    let (a, b) = if a > b && !s.chance(1, 4) { (b, a) } else { (a, b) };
    thirty_one::<f64>(a, b)?;
    thirty_one::<f32>(a, b)?;
    s.checked(2);
    let down = a <= b && (b.m < a.m || b.d < a.d);
    s.label_if(a > b, "reversed");
    s.label_if(down, "month or day number decreases");
    s.label_if(a.d == 31 || b.d == 31, "a 31st");
    if a > b || down || a.d == 31 || b.d == 31 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{} to {}: {} thirtieths", a.iso(), b.iso(), thirty_days(a, b)));
    Ok(())
}

/// All day pairs of two generated (year, month) combinations.
fn thirty_grid(s: &mut Src) -> Outcome {
    let (y1, m1) = (s.int_near(2023, 1900, 2200), s.int(1, 12));
    let (y2, m2) = (y1 + s.int(0, 5), s.int(1, 12));
    for d1 in 1..=len(y1, m1) {
        for d2 in 1..=len(y2, m2) {
            thirty_one::<f64>(Ymd::new(y1, m1, d1), Ymd::new(y2, m2, d2))?;
        }
    }
    s.checked(900);
    s.nontrivial(mix(mix(y1 as u64, m1 as u64), mix(y2 as u64, m2 as u64)));
    s.sample(|| format!("every day of {y1}-{m1:02} with every day of {y2}-{m2:02}"));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let _ = NaiveDate::MIN.year();
    vec![
        Property {
            id: "C01",
            rule: "years: every day of 1600-2599 and the impossible days around each month; triples: valid dates of the whole range and triples with broken components; pairs: order, equality, difference. Non-trivial = invalid, or a month boundary, February, year below 1 or beyond 4 digits; pairs of different dates; distinct by choice tape.",
            assumptions: &["days_from_civil in harness/cal/src/year.rs (Gregorian leap rule) as the reference calendar"],
            subs: vec![sweep("years", 1000, year_days), gen("triples", 400_000, 20_000_000, triples), gen("pairs", 300_000, 15_000_000, date_pairs)],
        },
        Property {
            id: "C02",
            rule: "steps: a date of the whole range and an amount of up to 64 bits, with amounts at the distance to both range ends; histories: up to 25 steps against the model. Non-trivial = amount not 0, or a history that moves; distinct by choice tape.",
            assumptions: &[],
            subs: vec![gen("steps", 400_000, 20_000_000, day_steps), gen("histories", 60_000, 3_000_000, day_history)],
        },
        Property {
            id: "C03",
            rule: "grid: days 1, 15, 27-31 of every month of 1800-2299 with 0-25 months and -8..8 years; steps and histories: any date and amount. Non-trivial = grid year; result absent or start day after the 28th; a history that moves; distinct by choice tape.",
            assumptions: &[],
            subs: vec![sweep("grid", 500, month_grid), gen("steps", 400_000, 20_000_000, month_steps), gen("histories", 60_000, 3_000_000, month_history)],
        },
        Property {
            id: "C04",
            rule: "years: every day of 1600-2599; any: dates of the whole range and the ten days at each end. Non-trivial = year, or a weekend day; distinct by choice tape.",
            assumptions: &[],
            subs: vec![sweep("years", 1000, weekend_years), gen("any", 300_000, 10_000_000, weekend_any)],
        },
        Property {
            id: "C05",
            rule: "all five conventions for a start date, period and calendar: built-in and joint markets, generated user calendars of both traits with closures up to 75 (sometimes 800 or 12,000) days around the target, and closures reaching the ends of the range. Non-trivial = at least one convention moves the date; distinct by choice tape.",
            assumptions: &["for built-in calendars the reference rules of C13-C21"],
            subs: vec![
                gen("markets", 80_000, 3_000_000, roll_market),
                gen("user-defined", 120_000, 5_000_000, roll_custom),
                gen("range-ends", 60_000, 2_000_000, roll_range),
            ],
        },
        Property {
            id: "C06",
            rule: "pairs in either order, near and far, in f32 and f64, against the exact day difference over the basis within 4 ulp, with reversal and additivity; non-trivial = different dates; distinct by choice tape.",
            assumptions: &[],
            subs: vec![gen("fractions", 400_000, 20_000_000, act_days)],
        },
        Property {
            id: "C07",
            rule: "pairs: near and far, a quarter of the reversed ones kept reversed, f32 and f64; grid: every day pair of two months. Non-trivial = reversed, a decreasing month or day number, or a 31st; distinct by choice tape.",
            assumptions: &[],
            subs: vec![gen("pairs", 300_000, 15_000_000, thirty), gen("grid", 2_000, 100_000, thirty_grid)],
        },
    ]
}
