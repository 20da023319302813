//! Reference interpolants, written through knot slopes (cubic Hermite form) in f64.

use crate::fl::Fl;
use engine::Src;
use qlab_error::InterpolationError;
use qlab_math::interpolation::linear::Linear;
use qlab_math::interpolation::spline::catmull_rom::CatmullRom;
use qlab_math::interpolation::spline::hermite::Hermite;
use qlab_math::interpolation::spline::natural_cubic::NaturalCubic;
use qlab_math::interpolation::Interpolator;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Linear,
    Natural,
    Catmull,
    Hermite,
}
pub const KINDS: [Kind; 4] = [Kind::Linear, Kind::Natural, Kind::Catmull, Kind::Hermite];

impl Kind {
    pub fn min_points(self) -> usize {
        if self == Kind::Linear {
            2
        } else {
            3
        }
    }
}

pub type Eval<V> = Box<dyn Fn(V) -> Result<V, InterpolationError<V>>>;

/// Fits the library's interpolator; `ks` are the slopes, used by Hermite only.
pub fn fit<V: Fl>(kind: Kind, xs: &[V], ys: &[V], ks: &[V]) -> Result<Eval<V>, InterpolationError<V>> {
    let p: Vec<(V, V)> = xs.iter().copied().zip(ys.iter().copied()).collect();
    Ok(match kind {
        Kind::Linear => {
            let i = Linear::<V>::default().try_fit(&p)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Natural => {
            let i = NaturalCubic::<V>::default().try_fit(&p)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Catmull => {
            let i = CatmullRom::<V>::default().try_fit(&p)?;
            Box::new(move |x| i.try_value(x))
        }
        Kind::Hermite => {
            let p: Vec<(V, V, V)> = (0..xs.len()).map(|i| (xs[i], ys[i], ks[i])).collect();
            let i = Hermite::<V>::try_new(&p)?;
            Box::new(move |x| i.try_value(x))
        }
    })
}

/// Whether the last Catmull-Rom segment has the slope pinned by an existing test (known finding):
/// left slope (y[n]-y[n-2]) / (h + x[n]-x[n-2]) instead of (y[n]-y[n-2]) / (x[n]-x[n-2]).
pub fn catmull_pinned() -> bool {
    let Ok(i) = CatmullRom::<f64>::default().try_fit(&[(0.0, 1.0), (0.5, 0.5), (1.0, 0.0)]) else { return false };
    i.try_value(0.75).is_ok_and(|v| (v - 0.270_833_333_333_333_3).abs() < 1e-9)
}

/// A piecewise cubic with its knots, values and the two end slopes of every segment.
#[derive(Debug)]
pub struct Reference {
    pub kind: Kind,
    pub xs: Vec<f64>,
    pub ys: Vec<f64>,
    /// (left, right) slope of segment i
    pub slopes: Vec<(f64, f64)>,
    ratio: f64,
    hmin: f64,
    ymax: f64,
    xmax: f64,
}

impl Reference {
    pub fn new<V: Fl>(kind: Kind, xs: &[V], ys: &[V], ks: &[V], pinned: bool) -> Self {
        let xs: Vec<f64> = xs.iter().map(|v| v.f()).collect();
        let ys: Vec<f64> = ys.iter().map(|v| v.f()).collect();
        let n = xs.len();
        let h: Vec<f64> = xs.windows(2).map(|w| w[1] - w[0]).collect();
        let chord: Vec<f64> = (0..n - 1).map(|i| (ys[i + 1] - ys[i]) / h[i]).collect();
        let pair = |k: Vec<f64>| k.windows(2).map(|w| (w[0], w[1])).collect::<Vec<_>>();
        let slopes = match kind {
            Kind::Linear => chord.iter().map(|&c| (c, c)).collect(),
            Kind::Hermite => pair(ks.iter().map(|v| v.f()).collect()),
            Kind::Catmull => {
                let mut k = vec![chord[0]];
                for i in 1..n - 1 {
                    k.push((ys[i + 1] - ys[i - 1]) / (xs[i + 1] - xs[i - 1]));
                }
                k.push(chord[n - 2]);
                let mut p = pair(k);
                if pinned {
                    p[n - 2].0 = (ys[n - 1] - ys[n - 3]) / (h[n - 2] + (xs[n - 1] - xs[n - 3]));
                }
                p
            }
            Kind::Natural => pair(natural_slopes(&h, &chord)),
        };
        let (hmin, hmax) = h.iter().fold((f64::INFINITY, 0.0f64), |a, &h| (a.0.min(h), a.1.max(h)));
        let max = |v: &[f64]| v.iter().fold(0.0f64, |a, &y| a.max(y.abs()));
        Reference { kind, ratio: hmax / hmin, hmin, ymax: max(&ys), xmax: max(&xs), xs, ys, slopes }
    }
    pub fn segment(&self, x: f64) -> usize {
        (0..self.xs.len() - 1).rev().find(|&i| self.xs[i] <= x).unwrap_or(0)
    }
    pub fn value_in(&self, i: usize, x: f64) -> f64 {
        let h = self.xs[i + 1] - self.xs[i];
        let t = (x - self.xs[i]) / h;
        let u = 1.0 - t;
        let (k0, k1) = self.slopes[i];
        if self.kind == Kind::Linear {
            return u * self.ys[i] + t * self.ys[i + 1];
        }
        u * u * (1.0 + 2.0 * t) * self.ys[i] + t * t * (3.0 - 2.0 * t) * self.ys[i + 1] + h * t * u * (u * k0 - t * k1)
    }
    pub fn value(&self, x: f64) -> f64 {
        self.value_in(self.segment(x), x)
    }
    /// Size of the terms that add up to a value in segment i.
    pub fn scale(&self, i: usize) -> f64 {
        let h = self.xs[i + 1] - self.xs[i];
        let (k0, k1) = self.slopes[i];
        let local = self.ys[i].abs() + self.ys[i + 1].abs() + h * (k0.abs() + k1.abs());
        match self.kind {
            Kind::Natural => local + self.ymax,
            Kind::Catmull => {
                let n = self.ys.len();
                local + self.ys[i.saturating_sub(1)].abs() + self.ys[(i + 2).min(n - 1)].abs()
            }
            _ => local,
        }
    }
    /// Accepted rounding difference in segment i for a float type with the given epsilon.
    pub fn tol(&self, i: usize, eps: f64) -> f64 {
        let h = self.xs[i + 1] - self.xs[i];
        let amplification = match self.kind {
            Kind::Natural => 1.0 + self.ratio * self.ratio + self.xmax / self.hmin,
            Kind::Catmull => 1.0 + self.xmax / self.hmin.min(h),
            _ => 1.0 + self.xs[i].abs().max(self.xs[i + 1].abs()) / h,
        };
        32.0 * eps * self.scale(i) * amplification + 1e-300
    }
    /// The allowance at x: at a knot either neighbouring segment may be the one evaluated.
    pub fn tol_at(&self, x: f64, eps: f64) -> f64 {
        let i = self.segment(x);
        let t = self.tol(i, eps);
        if i > 0 && x <= self.xs[i] {
            t.max(self.tol(i - 1, eps))
        } else {
            t
        }
    }
    pub fn uneven(&self) -> bool {
        self.ratio > 1.000_001
    }
}

/// Slopes of the natural spline: continuity of the second derivative at inner knots and zero second
/// derivative at both ends. The solution is checked against the equations before it is used.
fn natural_slopes(h: &[f64], chord: &[f64]) -> Vec<f64> {
    let n = h.len() + 1;
    let row = |i: usize| -> (f64, f64, f64, f64) {
        if i == 0 {
            (0.0, 2.0, 1.0, 3.0 * chord[0])
        } else if i == n - 1 {
            (1.0, 2.0, 0.0, 3.0 * chord[n - 2])
        } else {
            // multiplied by h[i-1] h[i] / (h[i-1] + h[i])
            let s = h[i - 1] + h[i];
            (h[i] / s, 2.0, h[i - 1] / s, 3.0 * (chord[i - 1] * (h[i] / s) + chord[i] * (h[i - 1] / s)))
        }
    };
    let (mut c, mut d) = (vec![0.0; n], vec![0.0; n]);
    for i in 0..n {
        let (lo, di, up, r) = row(i);
        let (pc, pd) = if i == 0 { (0.0, 0.0) } else { (c[i - 1], d[i - 1]) };
        let p = di - lo * pc;
        c[i] = up / p;
        d[i] = (r - lo * pd) / p;
    }
    let mut k = d;
    for i in (0..n - 1).rev() {
        k[i] -= c[i] * k[i + 1];
    }
    let size = chord.iter().fold(0.0f64, |a, &x| a.max(x.abs()));
    for i in 0..n {
        let (lo, di, up, r) = row(i);
        let l = if i == 0 { 0.0 } else { lo * k[i - 1] };
        let u = if i == n - 1 { 0.0 } else { up * k[i + 1] };
        assert!((l + di * k[i] + u - r).abs() <= 1e-12 * size, "harness: reference spline does not solve its own equations");
    }
    k
}

// ------------------------------------------------------------------------------------ generators

pub struct Data<V> {
    pub xs: Vec<V>,
    pub ys: Vec<V>,
    pub ks: Vec<V>,
}

pub fn count(s: &mut Src, min: usize) -> usize {
    match s.weighted(&[80, 120, 60, 15, 2]) {
        0 => s.usize(min, min + 2),
        1 => s.usize(min, 12),
        2 => s.usize(min, 40),
        3 => s.usize(min, 150),
        _ => s.usize(min, 700),
    }
}

/// Strictly increasing abscissae: even, integer, mildly and wildly uneven; any offset and scale.
pub fn gen_xs<V: Fl>(s: &mut Src, n: usize) -> Vec<V> {
    let single = V::EPS > 1e-10;
    let x0 = match s.weighted(&[3, 3, 2]) {
        0 => 0.0,
        1 => s.int_near(0, -20, 20) as f64,
        _ => {
            let r = if single { 30.0 } else { 2000.0 };
            s.f64(-r, r)
        }
    };
    let style = s.weighted(&[2, 2, 3, 2]);
    let step = *s.pick(&[1.0, 0.5, 0.25, 0.1, 1.0 / 3.0, 30.0 / 365.0]);
    let k = if s.chance(1, 5) { s.int_near(0, -20, 20) } else { 0 };
    let unit = 2f64.powi(k as i32);
    let mut xs: Vec<V> = Vec::with_capacity(n);
    let mut x = x0;
    for i in 0..n {
        let mut v = V::of(x * unit);
        if i > 0 && v <= xs[i - 1] {
            v = xs[i - 1].up();
        }
        xs.push(v);
        x += match style {
            0 => step,
            1 => s.int(1, 6) as f64,
            2 => s.f64(0.05, 2.0),
            _ => {
                let w = if single { 1.2 } else { 2.5 };
                10f64.powf(s.f64(-w, w))
            }
        };
    }
    xs
}

pub fn gen_ys<V: Fl>(s: &mut Src, xs: &[V]) -> Vec<V> {
    let style = s.weighted(&[4, 4, 1, 1, 2, 2]);
    let (a, b) = (s.f64(-3.0, 3.0), s.f64(-3.0, 3.0));
    let at = s.usize(0, xs.len() - 1);
    let k = if s.chance(1, 6) { s.int_near(0, -25, 25) } else { 0 };
    let unit = 2f64.powi(k as i32);
    let (x0, xn) = (xs[0].f64_(), xs[xs.len() - 1].f64_());
    xs.iter()
        .enumerate()
        .map(|(i, x)| {
            let t = (x.f64_() - x0) / (xn - x0);
            let y = match style {
                0 => s.int_near(0, -9, 9) as f64,
                1 => s.f64(-10.0, 10.0),
                2 => a,
                3 => a + b * t,
                4 => f64::from(u8::from(i == at)) * a + b * 0.0,
                _ => 0.02 + 0.01 * s.f64(-1.0, 1.0),
            };
            V::of(y * unit)
        })
        .collect()
}

trait AsF64 {
    fn f64_(&self) -> f64;
}
impl<V: Fl> AsF64 for V {
    fn f64_(&self) -> f64 {
        self.f()
    }
}

pub fn gen_data<V: Fl>(s: &mut Src, min: usize) -> Data<V> {
    let n = count(s, min);
    let xs = gen_xs::<V>(s, n);
    let ys = gen_ys::<V>(s, &xs);
    let ymax = ys.iter().fold(0.0f64, |a, y| a.max(y.f().abs())).max(1e-6);
    let h = (xs[n - 1].f() - xs[0].f()) / (n - 1) as f64;
    let ks = (0..n).map(|_| V::of(s.f64(-2.0, 2.0) * ymax / h)).collect();
    Data { xs, ys, ks }
}

/// A point inside [first, last]: a knot, a neighbour of a knot, or inside a segment.
pub fn gen_x<V: Fl>(s: &mut Src, xs: &[V]) -> V {
    let n = xs.len();
    let i = match s.weighted(&[4, 1, 1]) {
        0 => s.usize(0, n - 2),
        1 => 0,
        _ => n - 2,
    };
    let (a, b) = (xs[i].f(), xs[i + 1].f());
    let x = match s.weighted(&[6, 2, 1, 1]) {
        0 => V::of(a + (b - a) * s.f64(0.0, 1.0)),
        1 => V::of(0.5 * (a + b)),
        2 => xs[i].up(),
        _ => xs[i + 1].down(),
    };
    if x < xs[i] {
        xs[i]
    } else if x > xs[i + 1] {
        xs[i + 1]
    } else {
        x
    }
}
