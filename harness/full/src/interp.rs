//! C22-C28: interpolation.

use crate::fl::Fl;
use crate::interp_ref::*;
use engine::{ensure, fail, gen, Outcome, Property, Src};
use qlab_error::InterpolationError;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;

fn show<V: Fl>(d: &Data<V>, kind: Kind) -> String {
    let n = d.xs.len();
    let p: Vec<String> = (0..n.min(8))
        .map(|i| if kind == Kind::Hermite { format!("({}, {}, {})", d.xs[i], d.ys[i], d.ks[i]) } else { format!("({}, {})", d.xs[i], d.ys[i]) })
        .collect();
    format!("{kind:?}<{}> through {}{}", V::NAME, p.join(" "), if n > 8 { format!(" ... {n} points") } else { String::new() })
}

fn fitted<V: Fl>(kind: Kind, d: &Data<V>) -> Result<Eval<V>, String> {
    fit(kind, &d.xs, &d.ys, &d.ks).map_err(|e| format!("{}: fit fails: {e}", show(d, kind)))
}
fn at<V: Fl>(f: &Eval<V>, x: V, what: &dyn Fn() -> String) -> Result<f64, String> {
    f(x).map(|v| v.f()).map_err(|e| format!("{}: value at {x} fails: {e}", what()))
}
fn reference<V: Fl>(kind: Kind, d: &Data<V>) -> Reference {
    Reference::new(kind, &d.xs, &d.ys, &d.ks, kind == Kind::Catmull && catmull_pinned())
}

// ------------------------------------------------------------------------------------ C22

fn knots<V: Fl>(s: &mut Src) -> Outcome {
    let kind = *s.pick(&KINDS);
    let d = gen_data::<V>(s, kind.min_points());
    let f = fitted(kind, &d)?;
    let r = reference(kind, &d);
    let n = d.xs.len();
    let w = || show(&d, kind);
    for i in 0..n {
        let y = r.ys[i];
        let seg = i.min(n - 2);
        let tol = r.tol(seg, V::EPS).max(r.tol(seg.saturating_sub(usize::from(i > 0)), V::EPS));
        let got = at(&f, d.xs[i], &w)?;
        ensure!((got - y).abs() <= tol, "{}: value at knot {i} (x = {}) is {got}, the knot has {y}", w(), d.xs[i]);
        // one representable step to either side
        for (inside, x, seg) in [(i > 0, d.xs[i].down(), i.saturating_sub(1)), (i + 1 < n, d.xs[i].up(), i.min(n - 2))] {
            if inside {
                let h = r.xs[seg + 1] - r.xs[seg];
                let slope = 4.0 * r.scale(seg) / h;
                let v = at(&f, x, &w)?;
                let lim = tol + r.tol(seg, V::EPS) + slope * (x.f() - r.xs[i]).abs();
                ensure!((v - y).abs() <= lim, "{}: value at {x}, next to knot {i}, is {v}, the knot has {y}", w());
            }
        }
    }
    // evaluating in any order gives the same answers
    let i = s.usize(0, n - 1);
    let _ = at(&f, gen_x(s, &d.xs), &w)?;
    let again = at(&f, d.xs[i], &w)?;
    let tol = r.tol(i.min(n - 2), V::EPS).max(r.tol(i.saturating_sub(1).min(n - 2), V::EPS));
    ensure!((again - r.ys[i]).abs() <= tol, "{}: knot {i} later gives {again}", w());
    s.checked(3 * n as u64);
    s.label(match kind {
        Kind::Linear => "linear",
        Kind::Natural => "natural cubic",
        Kind::Catmull => "Catmull-Rom",
        Kind::Hermite => "Hermite",
    });
    s.label_if(n > 40, "more than 40 knots");
    if n > 3 && r.uneven() {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{}: all {n} knots and their neighbours", show(&d, kind)));
    Ok(())
}

// ------------------------------------------------------------------- C23-C26: differential

fn between<V: Fl>(kind: Kind, s: &mut Src) -> Outcome {
    let d = gen_data::<V>(s, kind.min_points());
    let f = fitted(kind, &d)?;
    let pinned = kind == Kind::Catmull && catmull_pinned();
    let r = reference(kind, &d);
    let n = d.xs.len();
    let w = || show(&d, kind);
    let mut inner = false;
    for _ in 0..8 {
        let x = gen_x(s, &d.xs);
        let i = r.segment(x.f());
        let got = at(&f, x, &w)?;
        let want = r.value_in(i, x.f());
        let tol = r.tol_at(x.f(), V::EPS);
        ensure!(
            (got - want).abs() <= tol,
            "{}: value at {x} (segment {i} of {}) is {got}, must be {want} (accepted difference {tol:e})",
            w(),
            n - 1
        );
        if kind == Kind::Linear {
            let (lo, hi) = (r.ys[i].min(r.ys[i + 1]), r.ys[i].max(r.ys[i + 1]));
            ensure!(got >= lo - tol && got <= hi + tol, "{}: value {got} at {x} leaves [{lo}, {hi}]", w());
        }
        inner |= x.f() != r.xs[i] && x.f() != r.xs[i + 1];
        if pinned && i + 2 == n {
            s.known("catmull-rom-last-segment-left-slope", format!("CatmullRom::try_value in the last segment, e.g. {} at {x}", w()));
            s.label("last segment (known finding)");
        }
        s.label_if(i == 0, "first segment");
        s.label_if(i + 2 == n && i > 0, "last segment");
    }
    s.checked(8);
    s.label_if(n == kind.min_points(), "fewest knots");
    s.label_if(n > 40, "more than 40 knots");
    if inner && (r.uneven() || n > 3) {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{}: 8 points in range", show(&d, kind)));
    Ok(())
}

/// Very many knots: values at knots and inside segments, aimed at the ends, at the places where
/// narrow index types would wrap, and anywhere.
fn large<V: Fl>(kind: Kind, s: &mut Src) -> Outcome {
    let n = match s.weighted(&[4, 3, 2]) {
        0 => s.usize(250, 520),
        1 => s.usize(521, 5_000),
        _ => s.usize(65_530, 70_000),
    };
    let even = s.bool();
    let mut state = s.draw(1 << 32);
    let mut next = || {
        state = state.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        (state >> 40) as f64 / (1u64 << 24) as f64
    };
    let (mut xs, mut ys, mut ks) = (Vec::with_capacity(n), Vec::with_capacity(n), Vec::with_capacity(n));
    let mut x = 0.0;
    for _ in 0..n {
        xs.push(V::of(x));
        ys.push(V::of(next() * 4.0 - 2.0));
        ks.push(V::of(next() * 4.0 - 2.0));
        // representable in f32 up to 70,000 knots
        x += if even { 1.0 } else { 1.0 + (next() * 4.0).floor() * 0.125 };
    }
    let d = Data { xs, ys, ks };
    let f = fitted(kind, &d)?;
    let r = reference(kind, &d);
    let w = || show(&d, kind);
    let mut spots: Vec<usize> = [0, 1, 126, 127, 128, 254, 255, 256, 257, 32_766, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537].into_iter().filter(|&i| i < n).collect();
    spots.extend([n - 3, n - 2, n - 1]);
    spots.extend((0..10).map(|_| s.usize(0, n - 1)));
    for i in spots {
        let got = at(&f, d.xs[i], &w)?;
        let tol = r.tol_at(r.xs[i], V::EPS).max(r.tol(i.min(n - 2), V::EPS));
        ensure!((got - r.ys[i]).abs() <= tol, "{}: value at knot {i} (x = {}) is {got}, the knot has {}", w(), d.xs[i], r.ys[i]);
        let i = i.min(n - 2);
        let x = V::of(r.xs[i] + (r.xs[i + 1] - r.xs[i]) * s.f64(0.0, 1.0));
        let got = at(&f, x, &w)?;
        let want = r.value(x.f());
        ensure!((got - want).abs() <= r.tol_at(x.f(), V::EPS), "{}: value at {x}, in segment {i}, is {got}, must be {want}", w());
        s.checked(2);
    }
    s.label_if(n > 65_535, "more than 65535 knots");
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{}: {n} knots", show(&d, kind)));
    Ok(())
}

/// Affine data are reproduced, and the result is linear in the values.
/// Any scheme on many knots.
fn large_any(s: &mut Src) -> Outcome {
    let kind = *s.pick(&[Kind::Linear, Kind::Natural, Kind::Catmull, Kind::Hermite]);
    if s.bool() {
        large::<f64>(kind, s)
    } else {
        large::<f32>(kind, s)
    }
}

fn linearity<V: Fl>(kind: Kind, s: &mut Src) -> Outcome {
    let d = gen_data::<V>(s, kind.min_points());
    let z = gen_ys::<V>(s, &d.xs);
    let n = d.xs.len();
    let (p, q) = (V::of(s.int_near(1, -4, 5) as f64), V::of(s.int_near(1, -4, 5) as f64 / 2.0));
    let sum: Vec<V> = (0..n).map(|i| p * d.ys[i] + q * z[i]).collect();
    let zk: Vec<V> = d.ks.iter().rev().copied().collect();
    let sumk: Vec<V> = (0..n).map(|i| p * d.ks[i] + q * zk[i]).collect();
    let dz = Data { xs: d.xs.clone(), ys: z, ks: zk };
    let ds = Data { xs: d.xs.clone(), ys: sum, ks: sumk };
    let (f, g, h) = (fitted(kind, &d)?, fitted(kind, &dz)?, fitted(kind, &ds)?);
    let (rf, rg, rh) = (reference(kind, &d), reference(kind, &dz), reference(kind, &ds));
    let w = || format!("{} and {}", show(&d, kind), show(&dz, kind));
    for _ in 0..4 {
        let x = gen_x(s, &d.xs);
        let (a, b, c) = (at(&f, x, &w)?, at(&g, x, &w)?, at(&h, x, &w)?);
        let tol = 2.0 * (p.f().abs() * rf.tol_at(x.f(), V::EPS) + q.f().abs() * rg.tol_at(x.f(), V::EPS) + rh.tol_at(x.f(), V::EPS));
        ensure!((p.f() * a + q.f() * b - c).abs() <= tol, "{}: at {x}, {p} * {a} + {q} * {b} is not {c}", w());
    }
    // affine data
    let (a, b) = (s.int_near(0, -5, 5) as f64, s.int_near(1, -5, 5) as f64);
    let ys: Vec<V> = d.xs.iter().map(|x| V::of(a + b * x.f())).collect();
    let da = Data { xs: d.xs.clone(), ys, ks: vec![V::of(b); n] };
    let f = fitted(kind, &da)?;
    let r = reference(kind, &da);
    let w = || show(&da, kind);
    for _ in 0..4 {
        let x = gen_x(s, &d.xs);
        let i = r.segment(x.f());
        if kind == Kind::Catmull && i + 2 == n && catmull_pinned() {
            continue; // known finding, decided by the differential sub-check
        }
        let v = at(&f, x, &w)?;
        let want = a + b * x.f();
        // the sampled values themselves are rounded
        let tol = 2.0 * r.tol_at(x.f(), V::EPS) + 4.0 * V::EPS * want.abs();
        ensure!((v - want).abs() <= tol, "{}: affine data {a} + {b} x give {v} at {x}, not {want}", w());
    }
    s.checked(8);
    if n > kind.min_points() {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{}: combination {p}, {q} with other values, and {a} + {b} x", show(&d, kind)));
    Ok(())
}

/// A value depends on the neighbouring knots only: `before`/`after` knots beyond the segment.
fn locality<V: Fl>(kind: Kind, reach: usize, s: &mut Src) -> Outcome {
    let d = gen_data::<V>(s, kind.min_points() + 1);
    let n = d.xs.len();
    let x = gen_x(s, &d.xs);
    let r = reference(kind, &d);
    let i = r.segment(x.f());
    let near = |j: usize| j + reach >= i && j <= i + 1 + reach;
    let other = gen_ys::<V>(s, &d.xs);
    let ys: Vec<V> = (0..n).map(|j| if near(j) { d.ys[j] } else { other[j] }).collect();
    let ks: Vec<V> = (0..n).map(|j| if near(j) { d.ks[j] } else { d.ks[n - 1 - j] }).collect();
    let e = Data { xs: d.xs.clone(), ys, ks };
    let (f, g) = (fitted(kind, &d)?, fitted(kind, &e)?);
    let w = || format!("{} and {}", show(&d, kind), show(&e, kind));
    let (a, b) = (at(&f, x, &w)?, at(&g, x, &w)?);
    let tol = 2.0 * r.tol_at(x.f(), V::EPS).max(reference(kind, &e).tol_at(x.f(), V::EPS));
    ensure!((a - b).abs() <= tol, "{}: value at {x} changes from {a} to {b} with knots outside its neighbourhood", w());
    s.checked(1);
    if (0..n).any(|j| !near(j)) {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{} at {x}", show(&d, kind)));
    Ok(())
}

/// Cubic polynomials sampled with their derivatives.
fn cubic<V: Fl>(s: &mut Src) -> Outcome {
    let n = count(s, 3).min(12);
    let xs: Vec<V> = {
        let mut x = s.int_near(0, -4, 4) as f64;
        (0..n)
            .map(|_| {
                let v = x;
                x += s.int(1, 8) as f64 / 4.0;
                V::of(v)
            })
            .collect()
    };
    let c: Vec<f64> = (0..4).map(|_| s.int_near(0, -6, 6) as f64).collect();
    let p = |x: f64| c[0] + x * (c[1] + x * (c[2] + x * c[3]));
    let q = |x: f64| c[1] + x * (2.0 * c[2] + x * 3.0 * c[3]);
    let d = Data {
        ys: xs.iter().map(|x| V::of(p(x.f()))).collect(),
        ks: xs.iter().map(|x| V::of(q(x.f()))).collect(),
        xs,
    };
    let f = fitted(Kind::Hermite, &d)?;
    let r = reference(Kind::Hermite, &d);
    let w = || show(&d, Kind::Hermite);
    for _ in 0..6 {
        let x = gen_x(s, &d.xs);
        let got = at(&f, x, &w)?;
        ensure!((got - p(x.f())).abs() <= 2.0 * r.tol_at(x.f(), V::EPS), "{}: the polynomial {c:?} is {} at {x}, the spline {got}", w(), p(x.f()));
    }
    s.checked(6);
    if c[3] != 0.0 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("coefficients {c:?}, {}", show(&d, Kind::Hermite)));
    Ok(())
}

// ------------------------------------------------------------------------------------ C27

fn odd_float<V: Fl>(s: &mut Src) -> V {
    match s.weighted(&[8, 4, 1, 1, 1, 1, 1, 1]) {
        0 => V::of(s.int_near(0, -6, 6) as f64),
        1 => V::of(s.f64(-10.0, 10.0)),
        2 => V::nan(),
        3 => V::of(f64::INFINITY),
        4 => V::of(f64::NEG_INFINITY),
        5 => V::of(-0.0),
        6 => V::of(*s.pick(&[1e-320, 1e-45, 1e38, -1e38, 1e300, -1e300])),
        _ => V::of(s.int_near(0, -6, 6) as f64).up(),
    }
}

fn validation<V: Fl>(s: &mut Src) -> Outcome {
    let kind = *s.pick(&KINDS);
    let n = match s.weighted(&[3, 5, 2]) {
        0 => s.usize(0, 3),
        1 => s.usize(2, 7),
        _ => s.usize(2, 40),
    };
    let mut xs: Vec<V>;
    match s.weighted(&[4, 2, 2]) {
        // increasing, then at most one defect
        0 => {
            xs = gen_xs::<V>(s, n);
            if n >= 2 {
                let i = s.usize(0, n - 1);
                match s.draw(7) {
                    0 | 1 => {}
                    2 => xs[i] = xs[i.saturating_sub(1)],
                    3 => {
                        let j = s.usize(0, n - 1);
                        xs.swap(i, j);
                    }
                    4 => xs[i] = V::nan(),
                    5 => xs[n - 1] = V::of(f64::INFINITY),
                    _ => xs[0] = V::of(f64::NEG_INFINITY),
                }
            }
        }
        1 => xs = (0..n).map(|_| odd_float(s)).collect(),
        _ => {
            xs = (0..n).map(|_| odd_float(s)).collect();
            xs.sort_by(|a, b| a.f().total_cmp(&b.f()));
        }
    }
    let ys: Vec<V> = (0..n).map(|_| odd_float(s)).collect();
    let ks: Vec<V> = (0..n).map(|_| odd_float(s)).collect();
    let d = Data { xs, ys, ks };
    let ordered = d.xs.windows(2).all(|w| w[0] < w[1]);
    let few = n < kind.min_points();
    let r = fit(kind, &d.xs, &d.ys, &d.ks);
    let w = || show(&d, kind);
    s.checked(1);
    match (r, few, ordered) {
        (Err(e), true, _) => {
            ensure!(e == InterpolationError::InsufficientPointsError(n), "{}: {n} points give the error {e:?}", w());
            s.label("too few points");
        }
        (Err(e), false, false) => {
            ensure!(e == InterpolationError::PointOrderError, "{}: unordered points give the error {e:?}", w());
            s.label("unordered");
        }
        (Ok(_), true, _) => fail!("{}: {n} points are accepted", w()),
        (Ok(_), false, false) => fail!("{}: abscissae that are not strictly increasing are accepted", w()),
        (Err(e), false, true) => fail!("{}: valid points are rejected with {e:?}", w()),
        (Ok(f), false, true) => {
            s.label("accepted");
            for _ in 0..8 {
                let i = s.usize(0, n - 1);
                let x: V = match s.weighted(&[3, 2, 2, 2]) {
                    0 => odd_float(s),
                    1 => d.xs[i],
                    2 => d.xs[i].up(),
                    _ => d.xs[i].down(),
                };
                let got = f(x);
                let (lo, hi) = (d.xs[0], d.xs[n - 1]);
                let low = InterpolationError::OutOfLowerBound(x);
                let high = InterpolationError::OutOfUpperBound(x);
                match got {
                    Ok(_) => ensure!(x >= lo && x <= hi, "{}: {x} outside [{lo}, {hi}] is evaluated", w()),
                    Err(e) => {
                        let right = if x < lo {
                            e == low
                        } else if x > hi {
                            e == high
                        } else if x >= lo {
                            false
                        } else {
                            matches!(e, InterpolationError::OutOfLowerBound(_) | InterpolationError::OutOfUpperBound(_))
                        };
                        ensure!(right, "{}: evaluating at {x} gives the error {e:?}, knots span [{lo}, {hi}]", w());
                        s.label("out of bounds");
                    }
                }
                s.checked(1);
            }
        }
    }
    if few || !ordered || n > 3 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| w());
    Ok(())
}

fn unfitted<V: Fl>(s: &mut Src) -> Outcome {
    let x: V = odd_float(s);
    for (n, r) in [
        ("Linear::new()", Linear::<V>::new().try_value(x)),
        ("Linear::default()", Linear::<V>::default().try_value(x)),
        ("NaturalCubic::default()", NaturalCubic::<V>::default().try_value(x)),
        ("CatmullRom::default()", CatmullRom::<V>::default().try_value(x)),
    ] {
        ensure!(matches!(r, Err(InterpolationError::InsufficientPointsError(0))), "unfitted {n} at {x} gives {r:?}");
    }
    s.checked(4);
    s.nontrivial(s.tape_key());
    Ok(())
}

// ------------------------------------------------------------------------------------ C28

fn refits<I: Interpolator<Value = V>, V: Fl>(kind: Kind, s: &mut Src) -> Outcome {
    let mut it = I::default();
    let mut current: Option<Data<V>> = None;
    let mut fits = 0;
    let mut evals = 0;
    let pts = |d: &Data<V>| -> Vec<(V, V)> { d.xs.iter().copied().zip(d.ys.iter().copied()).collect() };
    let steps = match s.weighted(&[60, 1]) {
        0 => s.usize(2, 14),
        _ => s.usize(2, 150),
    };
    for step in 0..steps {
        match s.weighted(&[3, 6, 1]) {
            0 => {
                let d = match (&current, s.weighted(&[2, 1, 1])) {
                    // same abscissae, other values / a prefix of the old points / new points
                    (Some(c), 1) => Data { ys: gen_ys(s, &c.xs), xs: c.xs.clone(), ks: vec![] },
                    (Some(c), 2) => {
                        let n = s.usize(kind.min_points(), c.xs.len());
                        Data { xs: c.xs[..n].to_vec(), ys: c.ys[..n].to_vec(), ks: vec![] }
                    }
                    _ => gen_data(s, kind.min_points()),
                };
                it = it.try_fit(&pts(&d)).map_err(|e| format!("step {step}: refit with {} fails: {e}", show(&d, kind)))?;
                current = Some(d);
                fits += 1;
            }
            1 => {
                let x = match &current {
                    Some(c) if !s.chance(1, 8) => gen_x(s, &c.xs),
                    _ => odd_float(s),
                };
                let got = it.try_value(x);
                let again = it.try_value(x);
                let fresh = match &current {
                    Some(c) => I::default().try_fit(&pts(c)).map_err(|e| e.to_string())?.try_value(x),
                    None => I::default().try_value(x),
                };
                let scale = current.as_ref().map_or(1.0, |c| c.ys.iter().fold(0.0f64, |a, y| a.max(y.f().abs())));
                let same = |a: &Result<V, InterpolationError<V>>, b: &Result<V, InterpolationError<V>>| match (a, b) {
                    (Ok(a), Ok(b)) => (a.f() - b.f()).abs() <= 64.0 * V::EPS * scale || (a.f().is_nan() && b.f().is_nan()),
                    (Err(a), Err(b)) => std::mem::discriminant(a) == std::mem::discriminant(b),
                    _ => false,
                };
                let what = current.as_ref().map_or("unfitted".to_string(), |c| show(c, kind));
                ensure!(same(&got, &fresh), "step {step}, after {fits} fits and {evals} evaluations: {what} at {x} gives {got:?}, a fresh interpolator {fresh:?}");
                ensure!(same(&again, &got), "step {step}: {what} at {x} gives first {got:?}, then {again:?}");
                evals += 1;
                s.checked(2);
            }
            _ => {
                // a rejected fit; the interpolator is consumed, continue with a new one
                let d: Data<V> = gen_data(s, 3);
                let mut p = pts(&d);
                if s.bool() {
                    p.truncate(kind.min_points() - 1);
                } else {
                    p.reverse();
                }
                ensure!(it.try_fit(&p).is_err(), "step {step}: bad points are accepted");
                it = I::default();
                current = None;
                s.checked(1);
            }
        }
    }
    s.label_if(fits > 1, "refitted");
    if fits > 1 && evals > 0 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{kind:?}<{}>: {fits} fits, {evals} evaluations", V::NAME));
    Ok(())
}

fn refit_any(s: &mut Src) -> Outcome {
    match s.draw(6) {
        0 => refits::<Linear<f64>, f64>(Kind::Linear, s),
        1 => refits::<NaturalCubic<f64>, f64>(Kind::Natural, s),
        2 => refits::<CatmullRom<f64>, f64>(Kind::Catmull, s),
        3 => refits::<Linear<f32>, f32>(Kind::Linear, s),
        4 => refits::<NaturalCubic<f32>, f32>(Kind::Natural, s),
        _ => refits::<CatmullRom<f32>, f32>(Kind::Catmull, s),
    }
}

/// Many evaluations of one fitted interpolator in any order, each against a fresh one.
fn eval_order<V: Fl>(s: &mut Src) -> Outcome {
    let kind = *s.pick(&KINDS);
    let d = gen_data::<V>(s, kind.min_points());
    let f = fitted(kind, &d)?;
    let r = reference(kind, &d);
    let w = || show(&d, kind);
    let n = match s.weighted(&[60, 1]) {
        0 => s.usize(2, 20),
        _ => s.usize(2, 400),
    };
    let mut earlier: Vec<V> = Vec::new();
    for k in 0..n {
        let x = if !earlier.is_empty() && s.chance(1, 6) { *s.pick(&earlier) } else if s.chance(1, 8) { odd_float(s) } else { gen_x(s, &d.xs) };
        earlier.push(x);
        let (a, b) = (f(x), fitted(kind, &d)?(x));
        let same = match (&a, &b) {
            (Ok(a), Ok(b)) => (a.f() - b.f()).abs() <= r.tol_at(x.f(), V::EPS),
            (Err(_), Err(_)) => true,
            _ => false,
        };
        ensure!(same, "{}: evaluation {k}, at {x}, gives {a:?}, a fresh interpolator {b:?}", w());
    }
    s.checked(n as u64);
    s.nontrivial(s.tape_key());
    Ok(())
}

/// Numbers drawn from one draw of the tape, for the long histories.
pub struct Lcg(pub u64);
impl Lcg {
    pub fn unit(&mut self) -> f64 {
        self.0 = self.0.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        (self.0 >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn below(&mut self, n: usize) -> usize {
        ((self.unit() * n as f64) as usize).min(n - 1)
    }
}
/// How often something is done in the long histories: more often than 16 bits can count.
pub fn often(s: &mut Src) -> usize {
    s.usize(66_000, 140_000)
}

/// One interpolator evaluated very often, at few or at very many places.
fn many<V: Fl>(s: &mut Src) -> Outcome {
    let kind = *s.pick(&KINDS);
    let d = gen_data::<V>(s, kind.min_points());
    let f = fitted(kind, &d)?;
    let r = reference(kind, &d);
    let w = || show(&d, kind);
    let m = if s.bool() { s.usize(1, 20) } else { s.usize(21, 2_000) };
    let mut lcg = Lcg(s.draw(1 << 32));
    let places: Vec<(V, V, f64)> = (0..m)
        .map(|_| {
            let i = lcg.below(d.xs.len() - 1);
            let (a, b) = (d.xs[i].f(), d.xs[i + 1].f());
            let x = V::of(a + (b - a) * lcg.unit());
            let x = if x < d.xs[i] || x > d.xs[i + 1] { d.xs[i] } else { x };
            let y = fitted(kind, &d)?(x).map_err(|e| format!("{}: value at {x} fails: {e}", w()))?;
            Ok((x, y, r.tol_at(x.f(), V::EPS)))
        })
        .collect::<Result<_, String>>()?;
    let n = often(s);
    for k in 0..n {
        let (x, want, tol) = places[if m == 1 { 0 } else { lcg.below(m) }];
        match f(x) {
            Ok(y) if (y.f() - want.f()).abs() <= tol || (y.f().is_nan() && want.f().is_nan()) => {}
            got => return Err(format!("{}: evaluation {k}, at {x}, gives {got:?}, a fresh interpolator {want}", w())),
        }
    }
    s.checked(n as u64);
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{n} evaluations at {m} places"));
    Ok(())
}

/// One interpolator refitted very often, with a few small sets of points in turn.
fn many_refits<I: Interpolator<Value = V>, V: Fl>(kind: Kind, s: &mut Src) -> Outcome {
    let sets: Vec<(Vec<(V, V)>, V, V)> = (0..s.usize(2, 6))
        .map(|_| {
            let mut d = gen_data::<V>(s, kind.min_points());
            let n = s.usize(kind.min_points(), d.xs.len().min(6));
            d.xs.truncate(n);
            d.ys.truncate(n);
            let x = gen_x(s, &d.xs);
            let p: Vec<(V, V)> = d.xs.iter().copied().zip(d.ys.iter().copied()).collect();
            let y = I::default().try_fit(&p).and_then(|f| f.try_value(x)).map_err(|e| e.to_string())?;
            Ok((p, x, y))
        })
        .collect::<Result<_, String>>()?;
    let mut lcg = Lcg(s.draw(1 << 32));
    let n = often(s);
    let mut it = I::default();
    for k in 0..n {
        let (p, x, want) = &sets[lcg.below(sets.len())];
        it = it.try_fit(p).map_err(|e| format!("fit {k} fails: {e}"))?;
        let got = it.try_value(*x).map_err(|e| format!("value after fit {k} fails: {e}"))?;
        let scale = p.iter().fold(0.0f64, |a, y| a.max(y.1.f().abs()));
        let same = (got.f() - want.f()).abs() <= 64.0 * V::EPS * scale || (got.f().is_nan() && want.f().is_nan());
        ensure!(same, "{kind:?} through {p:?}: after {k} earlier fits the value at {x} is {got}, of a fresh interpolator {want}");
    }
    s.checked(n as u64);
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{n} fits of {kind:?}<{}>", V::NAME));
    Ok(())
}
fn many_refits_any(s: &mut Src) -> Outcome {
    match s.draw(6) {
        0 => many_refits::<Linear<f64>, f64>(Kind::Linear, s),
        1 => many_refits::<NaturalCubic<f64>, f64>(Kind::Natural, s),
        2 => many_refits::<CatmullRom<f64>, f64>(Kind::Catmull, s),
        3 => many_refits::<Linear<f32>, f32>(Kind::Linear, s),
        4 => many_refits::<NaturalCubic<f32>, f32>(Kind::Natural, s),
        _ => many_refits::<CatmullRom<f32>, f32>(Kind::Catmull, s),
    }
}

fn split(s: &mut Src, a: fn(&mut Src) -> Outcome, b: fn(&mut Src) -> Outcome) -> Outcome {
    if s.chance(1, 3) {
        s.label("f32");
        b(s)
    } else {
        s.label("f64");
        a(s)
    }
}

macro_rules! both {
    ($f:ident) => {
        |s: &mut Src| split(s, $f::<f64>, $f::<f32>)
    };
    ($f:ident, $($a:expr),+) => {
        |s: &mut Src| split(s, |s| $f::<f64>($($a),+, s), |s| $f::<f32>($($a),+, s))
    };
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C22",
            rule: "one of the four interpolators on generated knots (2-700, even to wildly uneven, any offset and scale), every knot and the representable numbers next to it; non-trivial = more than three knots and uneven spacing; distinct by choice tape.",
            assumptions: &["rounding allowance: 32 eps times the size of the terms times the amplification by spacing and offset (DESIGN.md)"],
            subs: vec![gen("knots", 200_000, 10_000_000, both!(knots)), gen("large", 60, 3_000, large_any).unguided()],
        },
        Property {
            id: "C23",
            rule: "generated knots and points in range against the chord in f64, bounds, linearity in the values, affine data, locality, and 250-70,000 knots (large); non-trivial = a point strictly inside a segment of uneven or more than three knots (differential), more knots than the minimum (linearity), a changed knot elsewhere (locality); distinct by choice tape.",
            assumptions: &["rounding allowance as in DESIGN.md"],
            subs: vec![
                gen("chord", 400_000, 20_000_000, both!(between, Kind::Linear)),
                gen("linearity", 150_000, 6_000_000, both!(linearity, Kind::Linear)),
                gen("large", 40, 2_000, both!(large, Kind::Linear)).unguided(),
                gen("locality", 150_000, 6_000_000, both!(locality, Kind::Linear, 0)),
            ],
        },
        Property {
            id: "C24",
            rule: "generated knots and points in range against a reference spline solved for knot slopes (C2 and natural end equations, checked by their residual), linearity in the values and affine data; non-trivial as in C23; distinct by choice tape.",
            assumptions: &["rounding allowance as in DESIGN.md"],
            subs: vec![
                gen("spline", 400_000, 20_000_000, both!(between, Kind::Natural)),
                gen("linearity", 150_000, 6_000_000, both!(linearity, Kind::Natural)),
                gen("large", 40, 2_000, both!(large, Kind::Natural)).unguided(),
            ],
        },
        Property {
            id: "C25",
            rule: "generated knots and points in range against the cubic Hermite form with finite-difference slopes, linearity in the values, affine data and locality; non-trivial as in C23; distinct by choice tape.",
            assumptions: &["rounding allowance as in DESIGN.md", "last segment: the pinned left slope of the known finding, as long as the probe shows it"],
            subs: vec![
                gen("spline", 400_000, 20_000_000, both!(between, Kind::Catmull)),
                gen("linearity", 150_000, 6_000_000, both!(linearity, Kind::Catmull)),
                gen("large", 40, 2_000, both!(large, Kind::Catmull)).unguided(),
                gen("locality", 150_000, 6_000_000, both!(locality, Kind::Catmull, 1)),
            ],
        },
        Property {
            id: "C26",
            rule: "generated knots with slopes and points in range against the cubic Hermite basis, cubic polynomials sampled with derivatives, linearity and locality; non-trivial as in C23, or a non-zero cubic coefficient; distinct by choice tape.",
            assumptions: &["rounding allowance as in DESIGN.md"],
            subs: vec![
                gen("spline", 400_000, 20_000_000, both!(between, Kind::Hermite)),
                gen("cubics", 150_000, 6_000_000, both!(cubic)),
                gen("linearity", 150_000, 6_000_000, both!(linearity, Kind::Hermite)),
                gen("large", 40, 2_000, both!(large, Kind::Hermite)).unguided(),
                gen("locality", 150_000, 6_000_000, both!(locality, Kind::Hermite, 0)),
            ],
        },
        Property {
            id: "C27",
            rule: "point lists of 0-40 points with duplicates, swaps, NaN, infinities, signed zeros and extreme magnitudes in every coordinate, and queries at, next to and far from knots; expected outcome class from a validation model. Non-trivial = too few or unordered points, or more than three; distinct by choice tape.",
            assumptions: &["the value at a NaN abscissa is an out-of-bound error of either side"],
            subs: vec![gen("points", 800_000, 40_000_000, both!(validation)), gen("unfitted", 2_000, 50_000, both!(unfitted))],
        },
        Property {
            id: "C28",
            rule: "histories of fits (new points, same abscissae, prefixes), rejected fits and evaluations on one interpolator (many: up to 140,000 of them), each evaluation compared with a freshly fitted one; non-trivial = at least two fits and an evaluation, or several evaluations; distinct by choice tape.",
            assumptions: &[],
            subs: vec![gen("refits", 150_000, 8_000_000, refit_any), gen("evaluations", 80_000, 4_000_000, both!(eval_order)), gen("many", 40, 4_000, both!(many)).unguided(), gen("many-refits", 10, 1_000, many_refits_any).unguided()],
        },
    ]
}
