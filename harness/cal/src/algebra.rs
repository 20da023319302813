//! C08-C12: the algebra every calendar shares, whatever its holidays are.

use crate::markets::{date, model_year, Y0, Y1, YEARS};
use crate::rules::{self, Spec};
use crate::year::*;
use calendar::jointcalendar::JointCalendar;
use calendar::Calendar;
use chrono::{Datelike, Duration, NaiveDate, Weekday};
use engine::{ensure, gen, hash_str, mix, sweep, Outcome, Property, Src};
use std::collections::BTreeSet;

const CE: i64 = 719_163; // 1970-01-01 counted from 0001-01-01 = day 1

/// A user-defined calendar: a weekly pattern of closed weekdays plus explicit closures.
#[derive(Debug, Clone, Default)]
pub struct Custom {
    pub closed_weekdays: Vec<usize>,
    /// days since 1970-01-01
    pub closures: BTreeSet<i64>,
}

pub fn day_number(d: NaiveDate) -> i64 {
    days_from_civil(i64::from(d.year()), i64::from(d.month()), i64::from(d.day()))
}

impl Custom {
    pub fn open(&self, day: i64) -> bool {
        !self.closed_weekdays.contains(&weekday(day)) && !self.closures.contains(&day)
    }
}

impl Calendar for Custom {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.open(day_number(date))
    }
}

/// Closures around `centre`: single days and runs, some longer than a month.
pub fn gen_custom(s: &mut Src, centre: i64, reach: i64, max_run: i64) -> Custom {
    let closed_weekdays = match s.weighted(&[3, 3, 1, 1, 2]) {
        0 => vec![],
        1 => vec![5, 6],
        2 => vec![4, 5],
        3 => vec![6],
        _ => {
            let mask = s.usize(0, 126);
            (0..7).filter(|b| mask >> b & 1 == 1).collect()
        }
    };
    let mut closures = BTreeSet::new();
    for _ in 0..s.usize(0, 6) {
        let at = centre + s.int_near(0, -reach, reach);
        let len = match s.weighted(&[4, 3, 2]) {
            0 => 1,
            1 => s.int(1, 7),
            _ => s.int(1, max_run),
        };
        let from = if s.bool() { at } else { at - len + 1 };
        closures.extend(from..from + len);
    }
    Custom { closed_weekdays, closures }
}

fn ymd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d).unwrap()
}
fn from_day(day: i64) -> NaiveDate {
    NaiveDate::from_num_days_from_ce_opt((day + CE) as i32).unwrap()
}

fn pick_spec<'a>(specs: &'a [Spec], s: &mut Src) -> &'a Spec {
    let i = s.usize(0, specs.len() - 1);
    &specs[i]
}

thread_local! {
    static SPECS: Vec<Spec> = rules::all();
}

// ------------------------------------------------------------------------------------ C08

fn easter(s: &mut Src) -> Outcome {
    let y = Y0 + s.draw(YEARS) as i32;
    let (em, ed) = easter_sunday(i64::from(y));
    let jan1 = days_from_civil(i64::from(y), 1, 1);
    let west = (days_from_civil(i64::from(y), em, ed) + 1 - jan1 + 1) as u32;
    let east = (orthodox_easter_days(i64::from(y)) + 1 - jan1 + 1) as u32;
    SPECS.with(|specs| {
        for spec in specs {
            let c = (spec.make)();
            let (w, o) = (c.easter_monday(y), c.orthodox_easter_monday(y));
            ensure!(w == west, "{}.easter_monday({y}) = {w}, the computus gives {west}", spec.name);
            ensure!(o == east, "{}.orthodox_easter_monday({y}) = {o}, the computus gives {east}", spec.name);
            for (k, n) in [(w, "Easter"), (o, "Orthodox Easter")] {
                let d = NaiveDate::from_yo_opt(y, k).unwrap();
                ensure!(d.weekday() == Weekday::Mon, "{n} Monday {d} is a {}", d.weekday());
            }
        }
        s.checked(specs.len() as u64 * 4);
        Ok(())
    })?;
    s.label_if(west == east, "both Easters coincide");
    s.label_if(y >= 2100, "after the 2100 Julian/Gregorian shift");
    s.nontrivial(y as u64);
    s.sample(|| format!("{y}: Easter Monday is day {west}, Orthodox Easter Monday day {east} of the year"));
    Ok(())
}

fn easter_history(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let c = (pick_spec(specs, s).make)();
        let n = s.usize(1, 12);
        for _ in 0..n {
            let y = s.int_near(2023, i64::from(Y0), i64::from(Y1));
            let jan1 = days_from_civil(y, 1, 1);
            if s.bool() {
                let (em, ed) = easter_sunday(y);
                let want = (days_from_civil(y, em, ed) + 2 - jan1) as u32;
                let got = c.easter_monday(y as i32);
                ensure!(got == want, "{c:?}.easter_monday({y}) = {got}, must be {want}");
            } else {
                let want = (orthodox_easter_days(y) + 2 - jan1) as u32;
                let got = c.orthodox_easter_monday(y as i32);
                ensure!(got == want, "{c:?}.orthodox_easter_monday({y}) = {got}, must be {want}");
            }
        }
        s.checked(n as u64);
        if n > 1 {
            s.nontrivial(s.tape_key());
        }
        Ok(())
    })
}

// ------------------------------------------------------------------------------------ C09

fn classify(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let spec = pick_spec(specs, s);
        let y = s.int_near(2023, i64::from(Y0), i64::from(Y1)) as i32;
        let m = model_year(spec, y);
        let c = (spec.make)();
        let mut special = false;
        for _ in 0..s.usize(1, 30) {
            let doy = s.usize(0, m.len - 1);
            let d = date(y, doy);
            let (mo, da) = m.month_day(doy);
            let w = m.wd_at(doy);
            let business = c.is_business_day(d);
            ensure!(c.is_holiday(d) != business, "{}: {d} is both or neither of business day and holiday", spec.name);
            let weekend = c.is_weekend(d);
            ensure!(
                weekend == m.weekend.contains(&w),
                "{}.is_weekend({d}) = {weekend} on a {}",
                spec.name,
                d.weekday()
            );
            if weekend && !m.open[doy] {
                ensure!(!business, "{}: weekend day {d} is a business day", spec.name);
            }
            special |= weekend || !business;
            let t = c.naive_date_to_dkmy(d);
            ensure!(
                t == (da, d.weekday(), mo, y, doy as u32 + 1) && t.1.num_days_from_monday() as usize == w,
                "{}.naive_date_to_dkmy({d}) = {t:?}",
                spec.name
            );
            ensure!(c.is_business_day(d) == business, "{}: second query of {d} differs", spec.name);
            ensure!((spec.make)().is_business_day(d) == business, "{}: a fresh calendar disagrees on {d}", spec.name);
            s.checked(6);
        }
        if special {
            s.nontrivial(s.tape_key());
        }
        s.label_if(m.open.iter().any(|&o| o), "year with working weekends");
        s.sample(|| format!("{} {y}", spec.name));
        Ok(())
    })
}

/// Every day of one year of one calendar.
fn classify_year(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let i = s.draw(specs.len() as u64 * YEARS);
        let spec = &specs[(i / YEARS) as usize];
        let y = Y0 + (i % YEARS) as i32;
        let m = model_year(spec, y);
        let c = (spec.make)();
        for doy in 0..m.len {
            let d = date(y, doy);
            let w = m.wd_at(doy);
            let business = c.is_business_day(d);
            ensure!(c.is_holiday(d) != business, "{}: {d} is both or neither of business day and holiday", spec.name);
            let weekend = m.weekend.contains(&w);
            ensure!(c.is_weekend(d) == weekend, "{}.is_weekend({d}) = {} on a {}", spec.name, !weekend, d.weekday());
            ensure!(!business || !weekend || m.open[doy], "{}: weekend day {d} is a business day", spec.name);
            let (mo, da) = m.month_day(doy);
            let t = c.naive_date_to_dkmy(d);
            ensure!(t == (da, d.weekday(), mo, y, doy as u32 + 1), "{}.naive_date_to_dkmy({d}) = {t:?}", spec.name);
        }
        s.checked(4 * m.len as u64);
        s.nontrivial(mix(hash_str(spec.name), y as u64));
        s.sample(|| format!("{} {y}: {} days", spec.name, m.len));
        Ok(())
    })
}

/// One calendar asked very often.
fn classify_many(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let spec = pick_spec(specs, s);
        crate::markets::many(spec, s)
    })
}

fn classify_custom(s: &mut Src) -> Outcome {
    let centre = s.int_near(days_from_civil(2023, 6, 15), -30_000, 80_000);
    let c = gen_custom(s, centre, 60, 70);
    let mut closed = false;
    for _ in 0..s.usize(1, 12) {
        let day = centre + s.int_near(0, -70, 130);
        let d = from_day(day);
        closed |= !c.open(day);
        ensure!(c.is_holiday(d) == !c.open(day), "user calendar: is_holiday({d}) = {} but is_business_day = {}", c.is_holiday(d), c.open(day));
        ensure!(c.is_weekend(d) == (weekday(day) >= 5), "user calendar: is_weekend({d}) on a {}", d.weekday());
        s.checked(2);
    }
    if closed {
        s.nontrivial(s.tape_key());
    }
    Ok(())
}

// ------------------------------------------------------------------------------------ C10

fn month_ends(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let i = s.draw(specs.len() as u64 * YEARS);
        let spec = &specs[(i / YEARS) as usize];
        let y = Y0 + (i % YEARS) as i32;
        let m = model_year(spec, y);
        let c = (spec.make)();
        let mut moved = 0;
        for mo in 1..=12u32 {
            let last = m.doy(mo as usize, month_len(y, mo) as usize);
            let mut eom = last;
            while !m.is_business(eom) {
                eom -= 1; // no modelled month is entirely closed
            }
            moved += u32::from(eom != last);
            for da in 1..=month_len(y, mo) {
                let d = ymd(y, mo, da);
                let l = c.last_day_of_month(d);
                ensure!(l == date(y, last), "{}.last_day_of_month({d}) = {l}", spec.name);
                let e = c.end_of_month(d);
                ensure!(
                    e == date(y, eom),
                    "{}.end_of_month({d}) = {e}, the last business day of the month is {}",
                    spec.name,
                    date(y, eom)
                );
            }
        }
        s.checked(2 * m.len as u64);
        if moved > 0 {
            s.nontrivial(mix(hash_str(spec.name), y as u64));
        }
        s.sample(|| format!("{} {y}: {moved} of 12 month ends are closed", spec.name));
        Ok(())
    })
}

fn month_end_custom(s: &mut Src) -> Outcome {
    let centre = s.int_near(days_from_civil(2023, 6, 15), -30_000, 80_000);
    let c = gen_custom(s, centre, 45, 90);
    let d = from_day(centre + s.int_near(0, -40, 40));
    let last = day_number(ymd(d.year(), d.month(), month_len(d.year(), d.month())));
    let mut want = last;
    while !c.open(want) {
        want -= 1;
    }
    let got = c.end_of_month(d);
    ensure!(
        day_number(got) == want,
        "end_of_month({d}) = {got}, but the latest business day not after {} is {} (closures {:?}, closed weekdays {:?})",
        from_day(last),
        from_day(want),
        c.closures,
        c.closed_weekdays
    );
    s.checked(1);
    if want != last {
        s.nontrivial(s.tape_key());
    }
    s.label_if(from_day(want).month() != d.month(), "rolled back into an earlier month");
    s.label_if(last - want > 7, "closed for more than a week");
    s.sample(|| format!("end_of_month({d}) = {got} with closed weekdays {:?} and {} closures", c.closed_weekdays, c.closures.len()));
    Ok(())
}

fn month_end_wide(s: &mut Src) -> Outcome {
    let y = match s.weighted(&[6, 4, 1, 2]) {
        0 => s.int_near(2000, -9_999, 9_999),
        1 => 100 * s.int_near(20, -2_000, 2_000),
        2 => *s.pick(&[-262_143, -262_142, 262_141, 262_142]),
        _ => s.int_near(0, -262_143, 262_142),
    } as i32;
    let mo = s.int(1, 12) as u32;
    let len = month_len(y, mo);
    let d = ymd(y, mo, s.int(1, i64::from(len)) as u32);
    let c = Custom::default();
    let got = c.last_day_of_month(d);
    ensure!(got == ymd(y, mo, len), "last_day_of_month({d}) = {got}");
    ensure!(c.last_day_of_month(got) == got, "last_day_of_month is not idempotent at {got}");
    ensure!(c.end_of_month(d) == got, "end_of_month({d}) with no closures = {}", c.end_of_month(d));
    s.checked(3);
    if mo == 2 || mo == 12 || d.day() == len {
        s.nontrivial(s.tape_key());
    }
    s.label_if(mo == 2 && len == 29, "leap February");
    s.label_if(mo == 2 && y % 100 == 0, "century February");
    s.label_if(mo == 12, "December");
    s.sample(|| format!("last_day_of_month({d}) = {got}"));
    Ok(())
}

// ------------------------------------------------------------------------------------ C11

/// Reference count over the days a..=b (day numbers, a <= b).
fn count(open: &dyn Fn(i64) -> bool, a: i64, b: i64, first: bool, last: bool) -> i64 {
    let mut n = 0;
    let mut d = a;
    while d <= b {
        let ends = (d != a || first) && (d != b || last);
        n += i64::from(ends && open(d));
        d += 1;
    }
    n
}

fn opt(s: &mut Src) -> Option<bool> {
    match s.draw(3) {
        0 => None,
        1 => Some(true),
        _ => Some(false),
    }
}

fn span(s: &mut Src) -> i64 {
    match s.weighted(&[1, 3, 4, 3, 1]) {
        0 => 0,
        1 => s.int(0, 3),
        2 => s.int(0, 40),
        3 => s.int(0, 800),
        _ => s.int(0, 4_000),
    }
}

fn check_between(c: &dyn Calendar, open: &dyn Fn(i64) -> bool, s: &mut Src, a: i64, b: i64) -> Outcome {
    let (f, l) = (opt(s), opt(s));
    let (from, to) = (from_day(a), from_day(b));
    let got = c.business_days_between(from, to, f, l);
    let (ff, ll) = (f.unwrap_or(true), l.unwrap_or(false));
    let want = if a <= b { count(open, a, b, ff, ll) } else { -count(open, b, a, ff, ll) };
    ensure!(got == want, "{c:?}.business_days_between({from}, {to}, {f:?}, {l:?}) = {got}, counting gives {want}");
    let back = c.business_days_between(to, from, f, l);
    if a != b {
        ensure!(back == -got, "{c:?}: between({to}, {from}, {f:?}, {l:?}) = {back} is not the negation of {got}");
    }
    // additivity of half-open intervals at an interior point
    let mid = if a <= b { s.int(a, b) } else { s.int(b, a) };
    let m = from_day(mid);
    let whole = c.business_days_between(from, to, None, None);
    let parts = c.business_days_between(from, m, None, None) + c.business_days_between(m, to, None, None);
    ensure!(whole == parts, "{c:?}: between({from}, {to}) = {whole} but split at {m} gives {parts}");
    s.checked(3);
    if a != b && want != (b - a) {
        s.nontrivial(s.tape_key());
    }
    s.label_if(a == b, "equal dates");
    s.label_if(a > b, "swapped dates");
    s.label_if(f == Some(false), "first day excluded");
    s.label_if(l == Some(true), "last day included");
    s.sample(|| format!("business_days_between({from}, {to}, {f:?}, {l:?}) = {got}"));
    Ok(())
}

fn between_market(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let spec = pick_spec(specs, s);
        let a = days_from_civil(s.int_near(2023, 1901, 2188), 1, 1) + s.int(0, 364);
        let b = a + span(s);
        let (a, b) = if s.chance(1, 3) { (b, a) } else { (a, b) };
        let years: Vec<Yr> = (from_day(a.min(b)).year()..=from_day(a.max(b)).year()).map(|y| model_year(spec, y)).collect();
        let open = |d: i64| {
            let y = years.iter().find(|y| d >= y.jan1 && d < y.jan1 + y.len as i64).unwrap();
            y.is_business((d - y.jan1) as usize)
        };
        let c = (spec.make)();
        check_between(c.as_ref(), &open, s, a, b)
    })
}

fn between_custom(s: &mut Src) -> Outcome {
    let centre = s.int_near(days_from_civil(2023, 6, 15), -30_000, 80_000);
    let c = gen_custom(s, centre, 60, 40);
    let a = centre + s.int_near(0, -60, 60);
    let b = a + span(s);
    let (a, b) = if s.chance(1, 3) { (b, a) } else { (a, b) };
    check_between(&c, &|d| c.open(d), s, a, b)
}

/// Intervals of many years and centuries.
fn between_long(s: &mut Src) -> Outcome {
    let centre = s.int_near(days_from_civil(2023, 6, 15), -600_000, 900_000);
    let c = gen_custom(s, centre, 60, 40);
    let n = match s.weighted(&[2, 2, 2, 1]) {
        0 => s.int(4_000, 40_000),
        1 => s.int_near(32_768, 32_700, 32_840),
        2 => s.int_near(65_536, 65_400, 65_700),
        _ => s.int(65_537, 300_000),
    };
    let a = centre - s.int(0, n);
    let (a, b) = if s.chance(1, 3) { (a + n, a) } else { (a, a + n) };
    check_between(&c, &|d| c.open(d), s, a, b)
}

/// Intervals that end at the first or the last date chrono can represent.
fn between_range_ends(s: &mut Src) -> Outcome {
    let top = s.bool();
    let edge = day_number(if top { NaiveDate::MAX } else { NaiveDate::MIN });
    let inward = if top { -1 } else { 1 };
    let c = gen_custom(s, edge, 30, 20);
    let a = edge + inward * s.int(0, 3);
    let b = edge + inward * s.int(0, 40);
    let (a, b) = if s.bool() { (a, b) } else { (b, a) };
    check_between(&c, &|d| c.open(d), s, a, b)
}

// ------------------------------------------------------------------------------------ C12

/// Adapter so that any calendar can be put into a joint calendar.
#[derive(Debug)]
struct Any(Box<dyn Calendar>);
impl Calendar for Any {
    fn is_business_day(&self, date: NaiveDate) -> bool {
        self.0.is_business_day(date)
    }
    fn is_weekend(&self, date: NaiveDate) -> bool {
        self.0.is_weekend(date)
    }
}

fn joint_market(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let (a, b, c) = (pick_spec(specs, s), pick_spec(specs, s), pick_spec(specs, s));
        let y = s.int_near(2023, i64::from(Y0), i64::from(Y1)) as i32;
        let (ma, mb, mc) = (model_year(a, y), model_year(b, y), model_year(c, y));
        let any = |s: &Spec| Any((s.make)());
        let ab = JointCalendar::new(any(a), any(b));
        let ba = JointCalendar::new(any(b), any(a));
        let ab_c = JointCalendar::new(JointCalendar::new(any(a), any(b)), any(c));
        let a_bc = JointCalendar::new(any(a), JointCalendar::new(any(b), any(c)));
        let mut differ = false;
        for _ in 0..s.usize(1, 40) {
            // aim half of the queries at days on which the two calendars differ
            let odd: Vec<usize> = (0..ma.len).filter(|&i| ma.is_business(i) != mb.is_business(i)).collect();
            let doy = if !odd.is_empty() && s.bool() { *s.pick(&odd) } else { s.usize(0, ma.len - 1) };
            let d = date(y, doy);
            let want = ma.is_business(doy) && mb.is_business(doy);
            differ |= ma.is_business(doy) != mb.is_business(doy);
            let n = format!("{} + {}", a.name, b.name);
            ensure!(ab.is_business_day(d) == want, "{n}: joint is_business_day({d}) = {}, must be {want}", !want);
            ensure!(ba.is_business_day(d) == want, "{n}: order matters on {d}");
            ensure!(ab.is_holiday(d) != want, "{n}: is_holiday({d}) disagrees with is_business_day");
            let w3 = want && mc.is_business(doy);
            ensure!(
                ab_c.is_business_day(d) == w3 && a_bc.is_business_day(d) == w3,
                "{n} + {}: nested joint calendar wrong on {d}",
                c.name
            );
            s.checked(5);
        }
        if differ {
            s.nontrivial(s.tape_key());
        }
        s.sample(|| format!("{} + {} (+ {}) in {y}", a.name, b.name, c.name));
        Ok(())
    })
}

/// One joint calendar asked very often.
fn joint_many(s: &mut Src) -> Outcome {
    SPECS.with(|specs| {
        let (a, b) = (pick_spec(specs, s), pick_spec(specs, s));
        let y = s.int_near(2023, i64::from(Y0), i64::from(Y1)) as i32;
        let (ma, mb) = (model_year(a, y), model_year(b, y));
        let days: Vec<(NaiveDate, bool)> = (0..ma.len).map(|i| (date(y, i), ma.is_business(i) && mb.is_business(i))).collect();
        let j = JointCalendar::new(Any((a.make)()), Any((b.make)()));
        let n = s.usize(66_000, 140_000);
        let mut state = s.draw(1 << 32) as u32;
        for k in 0..n {
            state = state.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
            let (d, want) = days[(state >> 8) as usize % days.len()];
            ensure!(
                j.is_business_day(d) == want && j.is_holiday(d) != want,
                "{} + {}: {d} must {}be a business day, and is not classified so after {k} earlier queries",
                a.name,
                b.name,
                if want { "" } else { "not " }
            );
        }
        s.checked(2 * n as u64);
        s.nontrivial(s.tape_key());
        s.sample(|| format!("{} + {}: {n} queries", a.name, b.name));
        Ok(())
    })
}

fn joint_custom(s: &mut Src) -> Outcome {
    let centre = s.int_near(days_from_civil(2023, 6, 15), -30_000, 80_000);
    let a = gen_custom(s, centre, 60, 40);
    let b = gen_custom(s, centre, 60, 40);
    let j = JointCalendar { c1: a.clone(), c2: b.clone() };
    let open = |d: i64| a.open(d) && b.open(d);
    let mut differ = false;
    for _ in 0..s.usize(1, 10) {
        let day = centre + s.int_near(0, -80, 120);
        differ |= a.open(day) != b.open(day);
        let d = from_day(day);
        ensure!(j.is_business_day(d) == open(day), "joint is_business_day({d}) with {a:?} and {b:?}");
        ensure!(j.is_holiday(d) != open(day), "joint is_holiday({d}) with {a:?} and {b:?}");
    }
    // the provided operations work on the joint business days
    let jointly_closed_week = (0..7).all(|w| a.closed_weekdays.contains(&w) || b.closed_weekdays.contains(&w));
    if !jointly_closed_week {
        let d = from_day(centre);
        let mut want = day_number(ymd(d.year(), d.month(), month_len(d.year(), d.month())));
        while !open(want) {
            want -= 1;
        }
        let got = j.end_of_month(d);
        ensure!(day_number(got) == want, "joint end_of_month({d}) = {got}, must be {}", from_day(want));
        s.label("joint end_of_month");
    }
    let (x, y) = (centre - s.int(0, 50), centre + s.int(0, 80));
    let got = j.business_days_between(from_day(x), from_day(y), None, None);
    let want = count(&open, x, y, true, false);
    ensure!(got == want, "joint business_days_between = {got}, must be {want}");
    // a calendar that never closes is neutral, and joining with itself changes nothing
    let neutral = JointCalendar::new(Custom::default(), a.clone());
    let twice = JointCalendar::new(a.clone(), a.clone());
    let d = from_day(centre) + Duration::days(s.int_near(0, -60, 60));
    ensure!(
        neutral.is_business_day(d) == a.is_business_day(d) && twice.is_business_day(d) == a.is_business_day(d),
        "joining with a neutral calendar or with itself changes {d}"
    );
    s.checked(14);
    if differ {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("closed weekdays {:?} and {:?}, {} and {} closures", a.closed_weekdays, b.closed_weekdays, a.closures.len(), b.closures.len()));
    Ok(())
}

pub fn properties() -> Vec<Property> {
    let n = rules::all().len() as u64 * YEARS;
    vec![
        Property {
            id: "C08",
            rule: "years: every year 1901-2199 on every calendar, against the Gregorian and Julian computus; histories: random years on one calendar. Non-trivial = every year; histories of at least two queries, distinct by choice tape.",
            assumptions: &["the Meeus algorithms for Western and Julian Easter in harness/cal/src/year.rs"],
            subs: vec![sweep("years", YEARS, easter), gen("histories", 100_000, 4_000_000, easter_history)],
        },
        Property {
            id: "C09",
            rule: "years: every day of every (calendar, year 1901-2199); random calendar, year and days with repeated queries on fresh and used instances (built-in), or a generated user calendar; non-trivial = at least one queried day is a weekend day or closed; distinct by choice tape.",
            assumptions: &["working weekends are the Moscow Exchange days of 2012, 2016 and 2018 listed in harness/cal/src/rules.rs"],
            subs: vec![sweep("years", n, classify_year), gen("built-in", 150_000, 6_000_000, classify), gen("user-defined", 100_000, 4_000_000, classify_custom), gen("many", 30, 3_000, classify_many).unguided()],
        },
        Property {
            id: "C10",
            rule: "months: every day of every (calendar, year 1901-2199); user-defined: generated closures up to 90 days long around the month end; any-year: years -262143..262142. Non-trivial = the last day of the month is closed, or (any-year) February, December or a last day; distinct by (calendar, year) or choice tape.",
            assumptions: &[],
            subs: vec![
                sweep("months", n, month_ends),
                gen("user-defined", 100_000, 4_000_000, month_end_custom),
                gen("any-year", 100_000, 4_000_000, month_end_wide),
            ],
        },
        Property {
            id: "C11",
            rule: "random calendar (built-in or generated), date pair up to 11 years (long: 800 years) apart in either order and all flag combinations, range-ends: at the first and last representable dates; against a day-by-day count, plus negation and additivity; non-trivial = different dates and at least one day not counted; distinct by choice tape.",
            assumptions: &[],
            subs: vec![
                gen("built-in", 60_000, 2_000_000, between_market),
                gen("user-defined", 100_000, 4_000_000, between_custom),
                gen("long", 100, 6_000, between_long).unguided(),
                gen("range-ends", 30_000, 1_000_000, between_range_ends),
            ],
        },
        Property {
            id: "C12",
            rule: "random pairs and triples of built-in calendars, and of generated user calendars, joined and nested both ways; non-trivial = a queried day on which the two calendars differ; distinct by choice tape.",
            assumptions: &[],
            subs: vec![gen("built-in", 60_000, 2_000_000, joint_market), gen("user-defined", 100_000, 4_000_000, joint_custom), gen("many", 20, 2_000, joint_many).unguided()],
        },
    ]
}
