//! C38: dates and errors print what they stand for.

use crate::curve::*;
use crate::fl::Fl;
use crate::model::*;
use crate::{any_combination, interp_ref::Kind};
use chrono::NaiveDate;
use engine::{ensure, gen, Outcome, Property, Src};
use qlab_error::{ComputeError, ErrString, InterpolationError, QLabError};
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;
use qlab_time::day_count::{thirty_360::Thirty360, DayCount};
use std::fmt::{Debug, Display, Write};

/// A text that accepts only so many bytes, for the error path of printing.
struct Small(String, usize);
impl Write for Small {
    fn write_str(&mut self, t: &str) -> std::fmt::Result {
        if self.0.len() + t.len() > self.1 {
            return Err(std::fmt::Error);
        }
        self.0.push_str(t);
        Ok(())
    }
}

fn dates(s: &mut Src) -> Outcome {
    let a = gen_ymd(s);
    let b = if s.bool() { gen_ymd(s) } else { gen_near(s, a, 400) };
    for d in [a, b] {
        let (date, text) = (d.date(), d.iso());
        let got = date.to_string();
        ensure!(got == text, "{d:?} prints as {got}, must be {text}");
        let back: NaiveDate = got.parse().map_err(|e| format!("{d:?} prints as {got}, which does not parse: {e}"))?;
        let back = qlab_time::date::Date::from(back);
        ensure!(back == date, "{d:?} prints as {got}, which parses as {}", of(back).iso());
        let dbg = format!("{date:?}");
        ensure!(dbg.contains(&text), "{d:?} prints for debugging as {dbg}, without {text}");
        ensure!(format!("<{date}|{date}>") == format!("<{text}|{text}>"), "{d:?} prints differently within a text");
        // a writer that fails gets no further, one that is just large enough succeeds
        let room = s.usize(0, text.len() + 3);
        let mut w = Small(String::new(), room);
        let r = write!(w, "{date}");
        ensure!(r.is_ok() == (room >= text.len()), "{d:?} to a writer with room for {room} bytes: {r:?}");
        ensure!(text.starts_with(&w.0), "{d:?} to a writer with room for {room} bytes: wrote {}", w.0);
        s.label_if(d.y < 0, "before the year 0");
        s.label_if(d.y > 9999, "after the year 9999");
        s.label_if((0..1000).contains(&d.y), "year below 1000");
    }
    ensure!((a == b) == (a.date().to_string() == b.date().to_string()), "{} and {} print alike", a.iso(), b.iso());
    s.checked(13);
    if a.m != a.d {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{} and {}", a.iso(), b.iso()));
    Ok(())
}

/// The text contains the number as a word of its own, not as part of another number.
fn names(text: &str, what: &str) -> bool {
    text.match_indices(what).any(|(i, _)| {
        let num = |c: char| c.is_ascii_digit();
        let before = &text[..i];
        let after = &text[i + what.len()..];
        let joined_before = before.chars().next_back().is_some_and(|c| num(c) || c == '.' || (c == '-' && !what.starts_with('-')));
        let mut rest = after.chars();
        let joined_after = match rest.next() {
            Some('.') => rest.next().is_some_and(num),
            Some(c) => num(c),
            None => false,
        };
        !joined_before && !joined_after
    })
}

fn bounds_text<V: Fl>(s: &mut Src, e: &InterpolationError<V>, n: usize, t: Option<V>, w: &str) -> Outcome {
    let text = e.to_string();
    s.checked(2);
    ensure!(!text.is_empty(), "{w}: {e:?} prints as nothing");
    match (e, t) {
        (InterpolationError::OutOfLowerBound(_), Some(t)) | (InterpolationError::OutOfUpperBound(_), Some(t)) => {
            let low = matches!(e, InterpolationError::OutOfLowerBound(_));
            ensure!(names(&text, &format!("{t}")), "{w}: {e:?} prints as {text:?}, without {t}");
            let (has_l, has_u) = (text.contains("lower"), text.contains("upper"));
            ensure!(has_l == low && has_u != low, "{w}: {e:?} prints as {text:?}, which names the other bound");
            s.label(if low { "lower bound" } else { "upper bound" });
        }
        (InterpolationError::InsufficientPointsError(_), _) => {
            ensure!(names(&text, &format!("{n}")), "{w}: {e:?} prints as {text:?}, without the number of points {n}");
            s.label("too few points");
        }
        (InterpolationError::PointOrderError, _) => {
            s.label("order");
        }
        _ => return Err(format!("{w}: unexpected error {e:?}")),
    }
    Ok(())
}

fn interpolation<V: Fl>(s: &mut Src) -> Outcome {
    let kind = *s.pick(&[Kind::Linear, Kind::Natural, Kind::Catmull, Kind::Hermite]);
    let n = s.usize(0, 7);
    let mut x = V::of(s.f64(-50.0, 50.0));
    let mut p: Vec<(V, V)> = Vec::new();
    for _ in 0..n {
        p.push((x, V::of(s.f64(-5.0, 5.0))));
        x += V::of(s.f64(0.01, 9.0));
    }
    if n > 1 && s.chance(1, 5) {
        let i = s.usize(1, n - 1);
        p[i].0 = p[i - 1].0;
    }
    let w = format!("{kind:?}<{}> through {n} points {p:?}", V::NAME);
    let reach = s.f64(0.001, 1000.0);
    let t = if s.bool() { p.first().map_or(x, |q| q.0 - V::of(reach)) } else { x + V::of(reach) };
    macro_rules! go {
        ($fit:expr) => {
            match $fit {
                Err(e) => bounds_text(s, &e, n, None, &w)?,
                Ok(f) => match f.try_value(t) {
                    Err(e) => bounds_text(s, &e, n, Some(t), &format!("{w} at {t}"))?,
                    Ok(v) => return Err(format!("{w} at {t}: {v}, out of range")),
                },
            }
        };
    }
    match kind {
        Kind::Linear => go!(Linear::<V>::default().try_fit(&p)),
        Kind::Natural => go!(NaturalCubic::<V>::default().try_fit(&p)),
        Kind::Catmull => go!(CatmullRom::<V>::default().try_fit(&p)),
        Kind::Hermite => {
            let q: Vec<(V, V, V)> = p.iter().map(|p| (p.0, p.1, V::of(0.5))).collect();
            go!(Hermite::try_new(&q))
        }
    }
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{w}, at {t}"));
    Ok(())
}

fn all_distinct<E: Display + Debug>(all: &[E]) -> Outcome {
    for (i, a) in all.iter().enumerate() {
        for b in &all[..i] {
            ensure!(a.to_string() != b.to_string(), "{a:?} and {b:?} both print as {a}");
        }
    }
    Ok(())
}

/// Errors of any content, made by the caller.
fn contents(s: &mut Src) -> Outcome {
    let mut text = String::new();
    for _ in 0..s.usize(0, 8) {
        text.push_str(*s.pick(&["a", "2024-02-29", "{}", "{0}", "%s", "\\", "\"", "\n", " ", "債", "0", "\u{301}", "cannot cast"]));
    }
    let e = if s.bool() { ErrString::from(text.clone()) } else { ErrString::from(&*Box::leak(text.clone().into_boxed_str())) };
    ensure!(e.to_string() == text && e.as_ref() == text && &*e == text.as_str() && e.len() == text.len(), "text {text:?} becomes {e:?}");
    let cast = ComputeError::CastNumberError(ErrString::from(text.clone()));
    let input = ComputeError::InvalidInput(ErrString::from(text.clone()));
    for c in [&cast, &input] {
        ensure!(c.to_string().contains(&text), "{c:?} prints as {c}, without {text:?}");
    }
    let all = [cast, input, ComputeError::ZeroDivisionError, ComputeError::InterpolationError];
    all_distinct(&all)?;
    for c in all {
        let (inner, dbg) = (c.to_string(), format!("{c:?}"));
        let outer = QLabError::from(c);
        ensure!(outer.to_string() == inner, "{dbg} prints as {inner}, as a QLabError as {outer}");
        ensure!(format!("{outer:?}").contains(&dbg), "{dbg} as a QLabError is {outer:?}");
    }
    let (x, n) = (s.f64(-1e3, 1e3), s.usize(0, 1000));
    all_distinct(&[InterpolationError::PointOrderError, InterpolationError::OutOfLowerBound(x), InterpolationError::OutOfUpperBound(x), InterpolationError::InsufficientPointsError(n)])?;
    for e in [InterpolationError::PointOrderError, InterpolationError::OutOfLowerBound(x), InterpolationError::OutOfUpperBound(x), InterpolationError::InsufficientPointsError(n)] {
        let text = e.to_string();
        match e {
            InterpolationError::OutOfLowerBound(_) | InterpolationError::OutOfUpperBound(_) => ensure!(names(&text, &x.to_string()), "{e:?} prints as {text:?}"),
            InterpolationError::InsufficientPointsError(_) => ensure!(names(&text, &n.to_string()), "{e:?} prints as {text:?}"),
            InterpolationError::PointOrderError => ensure!(!text.is_empty(), "{e:?} prints as nothing"),
        }
        let dbg = format!("{e:?}");
        let outer = QLabError::from(e);
        ensure!(outer.to_string() == ComputeError::InterpolationError.to_string(), "{dbg} as a QLabError prints as {outer}");
    }
    s.checked(16);
    if !text.is_empty() {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{text:?}, {x}, {n}"));
    Ok(())
}

/// The dates of a refused query are named in the error.
fn queries<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let settle = gen_settle(s);
    let c = gen_curve::<I::F>(s, D::B, settle, I::K.min_points(), true);
    let curve = c.build::<D, I>()?;
    let base = if s.bool() { settle } else { *s.pick(&c.pillars) };
    let a = gen_near(s, base, 800);
    let b = gen_near(s, a, 800);
    let w = || format!("{}: discount_factor({}, {})", c.show::<D>(&format!("{:?}", I::K)), a.iso(), b.iso());
    let reversed = b < a;
    if reversed || a < settle || b < settle {
        let e = curve.discount_factor(a.date(), b.date());
        let Err(e) = e else { return Err(format!("{}: no error", w())) };
        let text = e.to_string();
        ensure!(text.contains(&a.iso()) && text.contains(&b.iso()), "{}: the error says {text:?}, without the two dates", w());
        ensure!(reversed || text.contains(&settle.iso()), "{}: the error says {text:?}, without the settlement date", w());
        s.checked(2);
        s.label(if reversed { "reversed" } else { "before settlement" });
        s.nontrivial(s.tape_key());
    }
    if reversed {
        let Err(e) = Thirty360::calculate_day_count_fraction::<I::F>(a.date(), b.date()) else { return Err(format!("30/360 from {} to {}: no error", a.iso(), b.iso())) };
        let text = e.to_string();
        ensure!(text.contains(&a.iso()) && text.contains(&b.iso()), "30/360 from {} to {}: the error says {text:?}, without the two dates", a.iso(), b.iso());
        s.checked(1);
    }
    s.sample(w);
    Ok(())
}

pub fn properties() -> Vec<Property> {
    vec![Property {
        id: "C38",
        rule: "dates: two dates of the whole range against an independent ISO 8601 text, parsed back, and written to a writer of limited size; interpolation: errors of all interpolators on bad points and out-of-range arguments; contents: errors made from arbitrary texts and numbers; queries: refused queries of curves and reversed 30/360 pairs. Non-trivial = month and day differ (dates), any error (the others, with a non-empty text in contents); distinct by choice tape.",
        assumptions: &["the wording of errors is left open: only that they contain the offending numbers, dates or texts and that different errors print differently"],
        subs: vec![
            gen("dates", 60_000, 3_000_000, dates),
            gen("interpolation", 60_000, 3_000_000, |s| if s.bool() { interpolation::<f64>(s) } else { interpolation::<f32>(s) }),
            gen("contents", 20_000, 1_000_000, contents),
            gen("queries", 40_000, 2_000_000, |s| any_combination!(s, queries)),
        ],
    }]
}
