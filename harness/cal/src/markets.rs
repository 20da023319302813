//! C13-C21: every market calendar equals its reference rules on every day of 1901-2199.

use crate::rules::{self, Spec};
use crate::year::Yr;
use calendar::Calendar;
use chrono::{Datelike, NaiveDate};
use engine::{ensure, fail, gen, hash_str, mix, sweep, Outcome, Property, Src};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const Y0: i32 = 1901;
pub const Y1: i32 = 2199;
pub const YEARS: u64 = (Y1 - Y0 + 1) as u64;

pub fn date(y: i32, doy: usize) -> NaiveDate {
    NaiveDate::from_yo_opt(y, doy as u32 + 1).unwrap()
}

pub fn model_year(spec: &Spec, y: i32) -> Yr {
    let mut m = Yr::new(y);
    (spec.model)(&mut m);
    m
}

pub fn note_known(spec: &Spec, s: &mut Src) {
    if let Some((key, probe)) = spec.known {
        if probe() {
            s.known(key, spec.name.to_string());
        }
    }
}

fn day_name(w: usize) -> &'static str {
    ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"][w]
}

/// One whole year of one calendar.
fn whole_year(specs: &[Spec], s: &mut Src) -> Outcome {
    let i = s.draw(specs.len() as u64 * YEARS);
    let spec = &specs[(i / YEARS) as usize];
    let y = Y0 + (i % YEARS) as i32;
    let m = model_year(spec, y);
    let cal = (spec.make)();
    note_known(spec, s);
    let mut closures = Vec::new();
    let mut errs = Vec::new();
    for doy in 0..m.len {
        let d = date(y, doy);
        let got = cal.is_business_day(d);
        let want = m.is_business(doy);
        if !m.weekend.contains(&m.wd_at(doy)) && !want {
            closures.push(doy);
        }
        if got != want {
            errs.push(format!(
                "{d} ({}) is {} but must be {}",
                day_name(m.wd_at(doy)),
                if got { "a business day" } else { "closed" },
                if want { "a business day" } else { "closed" }
            ));
        }
    }
    s.checked(m.len as u64);
    s.sample(|| {
        let l: Vec<String> = closures
            .iter()
            .map(|&k| {
                let (mo, da) = m.month_day(k);
                format!("{mo:02}-{da:02} {}", day_name(m.wd_at(k)))
            })
            .collect();
        format!("{} {y}: {} days compared, weekday closures {}", spec.name, m.len, l.join(", "))
    });
    if !closures.is_empty() {
        s.nontrivial(mix(hash_str(spec.name), y as u64));
    }
    ensure!(errs.is_empty(), "{} {y}: {} wrong days: {}", spec.name, errs.len(), errs[..errs.len().min(4)].join("; "));
    Ok(())
}

/// A history: many queries of different kinds, in random order, on calendars that live through
/// the whole history. Answers may depend on the date alone.
fn history(specs: &[Spec], s: &mut Src) -> Outcome {
    let mut cals: HashMap<usize, Box<dyn Calendar>> = HashMap::new();
    let mut years: HashMap<(usize, i32), Yr> = HashMap::new();
    let n = s.usize(1, 24);
    let mut log = Vec::new();
    let mut holidays = 0;
    let focus = s.usize(0, specs.len() - 1);
    for _ in 0..n {
        let k = if s.chance(1, 4) { s.usize(0, specs.len() - 1) } else { focus };
        let spec = &specs[k];
        note_known(spec, s);
        let y = s.int_near(2023, i64::from(Y0), i64::from(Y1)) as i32;
        let m = years.entry((k, y)).or_insert_with(|| model_year(spec, y));
        // half of the queries aim at a closed weekday of that year
        let closed: Vec<usize> =
            (0..m.len).filter(|&i| !m.is_business(i) && !m.weekend.contains(&m.wd_at(i))).collect();
        let doy = if !closed.is_empty() && s.bool() { *s.pick(&closed) } else { s.usize(0, m.len - 1) };
        let cal = cals.entry(k).or_insert_with(|| (spec.make)());
        let d = date(y, doy);
        let want = m.is_business(doy);
        holidays += u32::from(!want);
        let (got, op) = if s.bool() {
            (!cal.is_holiday(d), "is_holiday")
        } else {
            (cal.is_business_day(d), "is_business_day")
        };
        if log.len() < 6 {
            log.push(format!("{}.{op}({d})", spec.name));
        }
        s.checked(1);
        if got != want {
            fail!("{}.{op}({d}) disagrees: business day must be {want} after {} earlier queries", spec.name, n - 1);
        }
    }
    if holidays > 0 {
        s.nontrivial(s.tape_key());
    }
    s.label_if(cals.len() > 1, "several calendars interleaved");
    s.sample(|| format!("{n} queries: {} ...", log.join(" ")));
    Ok(())
}

/// One calendar asked very often, more often than 16 bits can count.
pub fn many(spec: &Spec, s: &mut Src) -> Outcome {
    let y0 = s.int_near(2023, i64::from(Y0), i64::from(Y1)) as i32;
    let years = s.int(1, 6) as i32;
    let days: Vec<(NaiveDate, bool)> = (y0..(y0 + years).min(Y1 + 1))
        .flat_map(|y| {
            let m = model_year(spec, y);
            (0..m.len).map(|i| (date(y, i), m.is_business(i))).collect::<Vec<_>>()
        })
        .collect();
    let cal = (spec.make)();
    let n = s.usize(66_000, 140_000);
    let mut state = s.draw(1 << 32) as u32;
    let few = s.bool();
    for k in 0..n {
        state = state.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        let i = (state >> 8) as usize % if few { days.len().min(9) } else { days.len() };
        let (d, want) = days[i];
        if cal.is_business_day(d) != want || cal.is_holiday(d) == want {
            fail!("{}: {d} must {}be a business day, and is not classified so after {k} earlier queries", spec.name, if want { "" } else { "not " });
        }
    }
    s.checked(2 * n as u64);
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{}: {n} queries", spec.name));
    Ok(())
}

/// Years outside the Easter tables, for the calendars that do not consult them: the rules have no
/// other bounds than those written into them. A calendar that consults the tables for such a year
/// panics, and the year is skipped.
fn other_year(specs: &[Spec], s: &mut Src) -> Outcome {
    let spec = s.pick(specs);
    let y = match s.weighted(&[3, 3, 2]) {
        0 => s.int(2200, 2400),
        1 => s.int(1700, 1900),
        _ => s.int(1_583, 2_600),
    } as i32;
    let m = model_year(spec, y);
    let cal = (spec.make)();
    let mut queried = 0;
    for _ in 0..6 {
        let doy = s.usize(0, m.len - 1);
        let d = date(y, doy);
        let want = m.is_business(doy);
        let Ok(got) = catch_unwind(AssertUnwindSafe(|| cal.is_business_day(d))) else { continue };
        queried += 1;
        ensure!(got == want, "{}: {d} is {} but must be {}", spec.name, if got { "a business day" } else { "closed" }, if want { "a business day" } else { "closed" });
    }
    s.checked(queried);
    if queried > 0 {
        s.nontrivial(s.tape_key());
    } else {
        s.label("outside the Easter tables");
    }
    s.sample(|| format!("{} {y}: {queried} days compared", spec.name));
    Ok(())
}

macro_rules! market {
    ($id:literal, $f:path) => {{
        fn sw(s: &mut Src) -> Outcome {
            whole_year(&$f(), s)
        }
        fn hi(s: &mut Src) -> Outcome {
            history(&$f(), s)
        }
        fn ma(s: &mut Src) -> Outcome {
            let specs = $f();
            let i = s.usize(0, specs.len() - 1);
            note_known(&specs[i], s);
            many(&specs[i], s)
        }
        fn oy(s: &mut Src) -> Outcome {
            other_year(&$f(), s)
        }
        Property {
            id: $id,
            rule: "years: every (calendar variant, year 1901-2199), each comparing every day with the reference rules; non-trivial = the year has at least one closed weekday. histories: random query sequences on long-lived calendars; non-trivial = at least one queried day is closed; many: 66,000-140,000 queries of one calendar; other-years: days of other years on the calendars that do not need Easter, non-trivial = compared; distinct by choice tape.",
            assumptions: &["the reference rules and closure tables committed in harness/cal/src are right (tables cross-checked against lunisolar, Islamic and Hebrew calendar computations)"],
            subs: vec![
                sweep("years", $f().len() as u64 * YEARS, sw),
                gen("histories", 40_000, 2_000_000, hi),
                gen("many", 10, 1_000, ma).unguided(),
                gen("other-years", 4_000, 500_000, oy),
            ],
        }
    }};
}

pub fn properties() -> Vec<Property> {
    vec![
        market!("C13", rules::c13),
        market!("C14", rules::c14),
        market!("C15", rules::c15),
        market!("C16", rules::c16),
        market!("C17", rules::c17),
        market!("C18", rules::c18),
        market!("C19", rules::c19),
        market!("C20", rules::c20),
        market!("C21", rules::c21),
    ]
}

/// Maintenance only: prints weekday closures that are in the code but not in the rules, and the
/// reverse, in the format of tables.rs. Not used by any check.
pub fn print_extras() {
    for spec in rules::all() {
        let cal = (spec.make)();
        for y in Y0..=Y1 {
            let m = model_year(&spec, y);
            let (mut extra, mut missing) = (String::new(), String::new());
            for doy in 0..m.len {
                let d = date(y, doy);
                let got = cal.is_business_day(d);
                if got != m.is_business(doy) {
                    let e = if got { &mut missing } else { &mut extra };
                    e.push_str(&format!(" {:02}{:02}", d.month(), d.day()));
                }
            }
            if !extra.is_empty() {
                println!("EXTRA {} ({y}, \"{}\"),", spec.name, extra.trim());
            }
            if !missing.is_empty() {
                println!("MISSING {} {y}{missing}", spec.name);
            }
        }
    }

}
