//! C32-C35: bonds.

use crate::{any_combination, user_combination};
use crate::curve::*;
use crate::fl::Fl;
use crate::interp::{often, Lcg};
use crate::interp_ref::*;
use crate::model::*;
use engine::{ensure, gen, Outcome, Property, Src};
use qlab_instrument::bond::Bond;
use qlab_math::interpolation::Interpolator;
use qlab_termstructure::yield_curve::YieldCurve;
use qlab_time::day_count::act_365::Act365;
use qlab_time::frequency::Frequency;

#[derive(Clone, Debug)]
pub struct Terms {
    pub issue: Ymd,
    pub first: Ymd,
    pub penult: Ymd,
    pub maturity: Ymd,
    rate: f64,
    face: f64,
}

#[derive(Clone, Copy, Debug)]
pub struct Flow {
    pub due: Ymd,
    pub pay: Ymd,
    amount: f64,
    /// sum of the absolute values of its parts, which bounds the rounding error
    gross: f64,
}

impl Terms {
    pub fn show(&self) -> String {
        format!(
            "bond issued {}, coupons {} .. {}, maturity {}, rate {}, face {}",
            self.issue.iso(),
            self.first.iso(),
            self.penult.iso(),
            self.maturity.iso(),
            self.rate,
            self.face
        )
    }
    fn regular(&self) -> f64 {
        self.rate * self.face / 2.0
    }
    /// Due dates of the coupons up to the penultimate coupon date.
    pub fn due_dates(&self) -> Vec<Ymd> {
        (0..).map(|k| self.first.add_months(6 * k).unwrap()).take_while(|d| *d <= self.penult).collect()
    }
    fn first_share(&self) -> f64 {
        let prior = self.first.add_months(-6).unwrap();
        if self.issue >= prior {
            (self.first.serial() - self.issue.serial()) as f64 / (self.first.serial() - prior.serial()) as f64
        } else {
            let second = prior.add_months(-6).unwrap();
            1.0 + (prior.serial() - self.issue.serial()) as f64 / (prior.serial() - second.serial()) as f64
        }
    }
    fn last_share(&self) -> f64 {
        let regular = self.penult.add_months(6).unwrap();
        if self.maturity <= regular {
            (self.maturity.serial() - self.penult.serial()) as f64 / (regular.serial() - self.penult.serial()) as f64
        } else {
            let next = regular.add_months(6).unwrap();
            1.0 + (self.maturity.serial() - regular.serial()) as f64 / (next.serial() - regular.serial()) as f64
        }
    }
    pub fn flows(&self) -> Vec<Flow> {
        let mut v: Vec<Flow> = self
            .due_dates()
            .into_iter()
            .map(|due| Flow { due, pay: due.roll_weekend().unwrap(), amount: self.regular(), gross: self.regular().abs() })
            .collect();
        v[0].amount *= self.first_share();
        v[0].gross *= self.first_share();
        v.push(Flow {
            due: self.maturity,
            pay: self.maturity,
            amount: self.face + self.regular() * self.last_share(),
            gross: self.face.abs() + (self.regular() * self.last_share()).abs(),
        });
        v
    }
    pub fn build<V: Fl>(&self, id: &str) -> Result<Bond<V>, String> {
        Bond::new(
            id,
            self.issue.date(),
            self.first.date(),
            self.penult.date(),
            self.maturity.date(),
            Frequency::SA,
            V::of(self.rate),
            V::of(self.face),
        )
        .ok_or_else(|| format!("{}: Bond::new gives None", self.show()))
    }
    /// the terms as the float type sees them
    fn rounded<V: Fl>(mut self) -> Self {
        self.rate = V::of(self.rate).f();
        self.face = V::of(self.face).f();
        self
    }
}

/// A well-formed schedule: issue < first <= penultimate < maturity.
pub fn gen_terms<V: Fl>(s: &mut Src, irregular: bool, max_coupons: i64) -> Terms {
    let y = match s.weighted(&[6, 1]) {
        0 => s.int_near(2023, 1950, 2100),
        _ => s.int(3, 9_700),
    };
    let first = day_in_year(s, y);
    let k = match s.weighted(&[8, 24, 8, 1]) {
        0 => 0,
        1 => s.int(0, 9.min(max_coupons)),
        2 => s.int(0, max_coupons),
        _ => s.int(0, 4 * max_coupons),
    };
    let mut penult = first.add_months(6 * k).unwrap();
    let mut issue = first.add_months(-6).unwrap();
    let mut maturity = penult.add_months(6).unwrap();
    if irregular {
        let days = |s: &mut Src| match s.weighted(&[3, 2, 2, 2, 1]) {
            0 => 0,
            1 => s.int_near(1, -3, 3),
            2 => s.int(1, 180) - 181,
            3 => s.int(1, 184),
            _ => s.int(1, 700),
        };
        issue = issue.add_days(-i128::from(days(s))).unwrap();
        if issue >= first {
            issue = first.add_days(-1).unwrap();
        }
        if s.chance(1, 6) {
            penult = penult.add_days(i128::from(s.int(0, 170))).unwrap();
        }
        maturity = penult.add_months(6).unwrap().add_days(i128::from(days(s))).unwrap();
        if maturity <= penult {
            maturity = penult.add_days(1).unwrap();
        }
    }
    let rate = match s.weighted(&[4, 3, 1, 1, 1, 1]) {
        0 => 0.01 * s.int(1, 15) as f64,
        1 => s.f64(0.0, 0.15),
        2 => 0.0,
        3 => -0.01 * s.int(1, 3) as f64,
        4 => s.f64(-1.0, 20.0),
        _ => s.log_f64(1e-9, 1.0),
    };
    let face = match s.weighted(&[6, 3, 1, 1]) {
        0 => *s.pick(&[100.0, 1.0, 1000.0, 1e6, 0.01, 123.45]),
        1 => s.log_f64(1e-4, 1e13),
        2 => (s.int(1, 9_999) * 1_000_000) as f64,
        _ => *s.pick(&[0.0, -100.0]),
    };
    Terms { issue, first, penult, maturity, rate, face }.rounded::<V>()
}

/// A bond that shares most of its terms with another one.
fn variant<V: Fl>(s: &mut Src, t: &Terms) -> Terms {
    let mut v = t.clone();
    match s.draw(8) {
        0 => v.rate += 0.01,
        1 => v.face *= 2.0,
        2 => v.issue = day(v.issue, -s.int(1, 400)),
        3 => v.maturity = day(v.maturity, s.int(1, 400)),
        4 => v.first = day(v.first, -s.int(1, 27)).max(day(v.issue, 1)),
        5 => v.penult = v.penult.add_months(6 * s.int(1, 4)).unwrap(),
        6 => {
            if let Some(first) = v.first.add_months(6).filter(|f| *f <= v.penult) {
                v.first = first;
                v.issue = v.issue.add_months(6).unwrap();
            }
        }
        _ => v = gen_terms::<V>(s, true, 9),
    }
    if v.maturity <= v.penult {
        v.maturity = v.penult.add_months(6).unwrap();
    }
    v.rounded::<V>()
}

/// A curve that discounts nothing (a = b = 0) or with y(t) = a + b t, settled at `settle`.
fn affine<V: Fl>(settle: Ymd, a: f64, b: f64) -> Result<YieldCurve<Act365, Affine<V>>, String> {
    let d = [settle.date(), settle.add_days(1).unwrap().date()];
    YieldCurve::new(settle.date(), &d, &[V::of(a), V::of(b)]).map_err(|e| e.to_string())
}

fn value<D: Conv, I: Interpolator<Value: Fl>>(t: &Terms, b: &Bond<I::Value>, at: Ymd, c: &YieldCurve<D, I>) -> Result<f64, String> {
    match b.discounted_value(at.date(), c) {
        Ok(v) => Ok(v.f()),
        Err(e) => Err(format!("{}: value at {} fails: {e}", t.show(), at.iso())),
    }
}

/// Reference value on the affine curve settled at `at`, and the accepted difference.
fn affine_value<V: Fl>(flows: &[Flow], at: Ymd, a: f64, b: f64) -> (f64, f64) {
    let (a, b) = (V::of(a).f(), V::of(b).f());
    let (mut v, mut tol) = (0.0, 0.0);
    for f in flows.iter().filter(|f| at < f.due) {
        let t = (f.pay.serial() - at.serial()) as f64 / 365.0;
        let df = (-t * (a + b * t)).exp();
        v += f.amount * df;
        tol += f.gross * df * V::EPS * (16.0 + 8.0 * t * (a.abs() + b.abs() * t));
    }
    (v, tol * (1.0 + 0.1 * flows.len() as f64))
}

fn day(t: Ymd, n: i64) -> Ymd {
    t.add_days(i128::from(n)).unwrap()
}

// ------------------------------------------------------------------------------------ C32

fn schedule<V: Fl>(s: &mut Src) -> Outcome {
    // first and last periods regular (irregular ones are C33)
    let mut t = gen_terms::<V>(s, false, 60);
    let misaligned = s.chance(1, 5);
    if misaligned {
        t.penult = day(t.penult, s.int(1, 150));
        t.maturity = t.penult.add_months(6).unwrap();
    }
    let id = match s.draw(4) {
        0 => String::new(),
        1 => "id".to_string(),
        2 => "債券 №1\n".to_string(),
        _ => format!("bond-{}", s.draw(0)),
    };
    let b = t.build::<V>(&id)?;
    ensure!(b.bond_id() == id, "bond_id is {:?}, created with {id:?}", b.bond_id());
    let flows = t.flows();
    let n = flows.len();
    // amounts and due dates: without discounting the value drops by each flow on its due date
    let start = day(t.issue, -400);
    let flat = affine::<V>(start, 0.0, 0.0)?;
    let total: f64 = flows.iter().map(|f| f.gross).sum();
    let tol = 8.0 * V::EPS * total * (1.0 + 0.1 * n as f64);
    let check = |at: Ymd| -> Outcome {
        let got = value(&t, &b, at, &flat)?;
        let want: f64 = flows.iter().filter(|f| at < f.due).map(|f| f.amount).sum();
        ensure!((got - want).abs() <= tol, "{}: flows due after {} sum to {got}, must be {want} ({} flows)", t.show(), at.iso(), n);
        Ok(())
    };
    check(start)?;
    check(t.issue)?;
    let picks: Vec<usize> = if n <= 6 { (0..n).collect() } else { (0..5).map(|_| s.usize(0, n - 1)).chain([n - 1, n - 2]).collect() };
    for &i in &picks {
        for k in [-1, 0, 1] {
            check(day(flows[i].due, k))?;
        }
        s.checked(3);
    }
    // payment dates: a steep curve makes a one-day shift of any payment visible
    let (a, c) = (0.3, if n < 20 { 0.01 } else { 0.0005 });
    for &i in &picks {
        let at = day(flows[i].due, -1 - s.int(0, 3));
        let curve = affine::<V>(at, a, c)?;
        let got = value(&t, &b, at, &curve)?;
        let (want, tol) = affine_value::<V>(&flows, at, a, c);
        ensure!(
            (got - want).abs() <= tol,
            "{}: with y(t) = {a} + {c} t the value at {} is {got}, payments {} give {want}",
            t.show(),
            at.iso(),
            flows[i..].iter().take(3).map(|f| f.pay.iso()).collect::<Vec<_>>().join(", ")
        );
        s.checked(1);
    }
    let rolled = flows[..n - 1].iter().any(|f| f.pay != f.due);
    let clamped = flows[..n - 1].iter().any(|f| f.due.d != t.first.d);
    s.label_if(rolled, "a payment rolled off a weekend");
    s.label_if(clamped, "a coupon day clamped to its month");
    s.label_if(flows[n - 1].due.weekday() >= 5, "maturity on a weekend");
    s.label_if(misaligned, "penultimate date off the coupon grid");
    s.label_if(n == 2, "single coupon date");
    if n > 2 && (rolled || clamped) {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{}: {n} flows", t.show()));
    Ok(())
}

/// Up to a million coupons.
fn long_bond(s: &mut Src) -> Outcome {
    let y = s.int(-262_000, 250_000);
    let first = day_in_year(s, y);
    let k = if s.bool() { s.int(60_000, 140_000) } else { s.log_f64(200.0, 140_000.0) as i64 };
    let k = k.min(2 * (262_000 - y) - 10);
    let penult = first.add_months(6 * k).unwrap();
    let (issue, maturity) = (first.add_months(-6).unwrap(), penult.add_months(6).unwrap());
    let t = Terms { issue, first, penult, maturity, rate: 0.01 * s.int(1, 15) as f64, face: *s.pick(&[100.0, 1.0]) };
    let b = t.build::<f64>("long")?;
    let flows = t.flows();
    let n = flows.len();
    let start = day(t.issue, -10);
    let flat = affine::<f64>(start, 0.0, 0.0)?;
    let total: f64 = flows.iter().map(|f| f.gross).sum();
    let tol = 2.0 * f64::EPSILON * total * n as f64 + 1e-9;
    ensure!(tol < 0.4 * t.regular(), "the harness cannot tell a coupon");
    for i in [0, n / 2, n - 1 - s.usize(1, n - 2), n - 2, n - 1] {
        for at in [day(flows[i].due, -1), flows[i].due] {
            let got = value(&t, &b, at, &flat)?;
            let left = flows.iter().rev().take_while(|f| at < f.due).count();
            let want = if left == 0 { 0.0 } else { t.face + left as f64 * t.regular() };
            ensure!((got - want).abs() <= tol, "{}: the {left} flows due after {} sum to {got}, must be {want} ({n} flows)", t.show(), at.iso());
        }
    }
    // what is paid when, among the last ones
    let i = n - 1 - s.usize(0, 20);
    let at = day(flows[i].due, -1);
    let curve = affine::<f64>(at, 0.3, 0.01)?;
    let got = value(&t, &b, at, &curve)?;
    let (want, tol) = affine_value::<f64>(&flows[i..], at, 0.3, 0.01);
    ensure!((got - want).abs() <= tol, "{}: value at {} is {got}, must be {want}", t.show(), at.iso());
    s.checked(11);
    s.label_if(n > 1 << 15, "more than 32768 flows");
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{}: {n} flows", t.show()));
    Ok(())
}

/// Any four dates, rate and face value: a bond or None, never a panic; same for pricing.
fn any_terms<V: Fl>(s: &mut Src) -> Outcome {
    let base = match s.weighted(&[3, 1, 1]) {
        0 => {
            let y = s.int_near(2023, 1, 3000);
            day_in_year(s, y)
        }
        1 => Ymd::from_serial(max_serial() - s.int(0, 1500)).unwrap(),
        _ => Ymd::from_serial(min_serial() + s.int(0, 1500)).unwrap(),
    };
    let mut near = || {
        let r = *s.pick(&[0i64, 3, 200, 2000]);
        gen_near(s, base, r)
    };
    let (issue, first, penult, maturity) = (near(), near(), near(), near());
    let t = Terms { issue, first, penult, maturity, rate: s.f64(-1.0, 1.0), face: s.f64(-1e9, 1e9) };
    let made = t.build::<V>("x");
    s.label(if made.is_ok() { "bond" } else { "no bond" });
    if let Ok(b) = made {
        let at = gen_near(s, base, 400).max(Ymd::from_serial(min_serial() + 2).unwrap());
        if let Some(settle) = at.add_days(-i128::from(s.int(0, 2))) {
            if let Some(next) = settle.add_days(1) {
                let c = YieldCurve::<Act365, Affine<V>>::new(settle.date(), &[settle.date(), next.date()], &[V::of(0.01), V::of(0.0)]).map_err(|e| e.to_string())?;
                let _ = b.discounted_value(at.date(), &c);
            }
        }
    }
    s.checked(1);
    if !(issue < first && first <= penult && penult < maturity) {
        s.nontrivial(s.tape_key());
        s.label("disordered schedule");
    }
    s.sample(|| t.show());
    Ok(())
}

// ------------------------------------------------------------------------------------ C33

fn irregular<V: Fl>(s: &mut Src) -> Outcome {
    let t = gen_terms::<V>(s, true, 12);
    let b = t.build::<V>("irregular")?;
    let flows = t.flows();
    let n = flows.len();
    let flat = affine::<V>(day(t.issue, -10), 0.0, 0.0)?;
    let total: f64 = flows.iter().map(|f| f.gross).sum();
    let tol = 8.0 * V::EPS * total * (1.0 + 0.1 * n as f64);
    let v = |at: Ymd| value(&t, &b, at, &flat);
    let paid = |due: Ymd| -> Result<f64, String> { Ok(v(day(due, -1))? - v(due)?) };
    let first = paid(flows[0].due)?;
    ensure!(
        (first - flows[0].amount).abs() <= 2.0 * tol,
        "{}: the first coupon is {first}, must be {} ({} of the regular {})",
        t.show(),
        flows[0].amount,
        t.first_share(),
        t.regular()
    );
    let last = paid(t.maturity)?;
    ensure!(
        (last - flows[n - 1].amount).abs() <= 2.0 * tol,
        "{}: the final flow is {last}, must be {} ({} of the regular {} plus the face value)",
        t.show(),
        flows[n - 1].amount,
        t.last_share(),
        t.regular()
    );
    // a coupon in between is regular
    if n > 2 {
        let i = s.usize(1, n - 2);
        let mid = paid(flows[i].due)?;
        ensure!((mid - t.regular()).abs() <= 2.0 * tol, "{}: coupon {i} is {mid}, must be {}", t.show(), t.regular());
    }
    s.checked(3);
    let (f, l) = (t.first_share(), t.last_share());
    s.label(if f < 1.0 { "short first" } else if f > 1.0 { "long first" } else { "regular first" });
    s.label(if l < 1.0 { "short last" } else if l > 1.0 { "long last" } else { "regular last" });
    s.label_if(f > 2.0 || l > 2.0, "more than a year");
    s.label_if(n == 2, "single coupon date");
    if (f != 1.0 || l != 1.0) && t.rate != 0.0 {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{}: first {f:.4}, last {l:.4} of a regular coupon", t.show()));
    Ok(())
}

// ------------------------------------------------------------------------------------ C34

fn settle_date(s: &mut Src, t: &Terms, flows: &[Flow]) -> Ymd {
    let f = *s.pick(flows);
    match s.weighted(&[3, 2, 2, 3, 1]) {
        0 => day(f.due, s.int_near(0, -2, 3)),
        1 => f.due,
        2 => day(f.pay, s.int_near(0, -1, 1)),
        3 => Ymd::from_serial(s.int(t.issue.serial() - 30, t.maturity.serial() + 30)).unwrap(),
        _ => day(t.maturity, s.int(-1, 400)),
    }
}

/// Value = sum over the remaining flows with the curve's own discount factors, errors included.
fn remaining<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let t = gen_terms::<I::F>(s, true, 16);
    let flows = t.flows();
    let b = t.build::<I::F>("b")?;
    let start = match s.weighted(&[3, 2, 1]) {
        0 => day(t.issue, -s.int(0, 60)),
        1 => settle_date(s, &t, &flows),
        _ => day(t.first, s.int(-400, 400)),
    };
    let c = gen_curve::<I::F>(s, D::B, start, I::K.min_points(), true);
    let curve = c.build::<D, I>()?;
    let eps = I::F::EPS;
    let mut interesting = false;
    let mut history: Vec<(Ymd, Option<f64>)> = Vec::new();
    let steps = match s.weighted(&[60, 1]) {
        0 => s.usize(2, 8),
        _ => s.usize(2, 80),
    };
    for step in 0..steps {
        let at = if !history.is_empty() && s.chance(1, 5) { s.pick(&history).0 } else if s.chance(1, 4) { start } else { settle_date(s, &t, &flows) };
        let (mut want, mut tol, mut failed) = (0.0, 0.0, false);
        let mut left = 0;
        for f in flows.iter().filter(|f| at < f.due) {
            left += 1;
            match curve.discount_factor(at.date(), f.pay.date()) {
                Ok(v) => {
                    want += v.f() * f.amount;
                    tol += v.f() * f.gross;
                }
                Err(_) => failed = true,
            }
        }
        let got = b.discounted_value(at.date(), &curve);
        let name = || format!("{} on the {}, settlement {}", t.show(), c.show::<D>(&format!("{:?}", I::K)), at.iso());
        match got {
            Ok(v) => {
                ensure!(!failed, "{}: value {v} although a needed discount factor is an error", name());
                let lim = eps * tol * (16.0 + left as f64) + left as f64 * I::F::TINY;
                if tol < 1e30 {
                    ensure!((v.f() - want).abs() <= lim, "{}: value {v}, the {left} remaining flows give {want}", name());
                }
                ensure!(left > 0 || v.f() == 0.0, "{}: value {v} after all flows are due", name());
                s.label(if left == 0 { "no flow left" } else { "valued" });
                interesting |= left > 0 && left < flows.len();
                if let Some((_, Some(old))) = history.iter().find(|h| h.0 == at && tol < 1e30) {
                    ensure!((old - v.f()).abs() <= lim, "{}: step {step} gives {v}, earlier {old}", name());
                    s.label("priced again");
                }
                history.push((at, Some(v.f())));
            }
            Err(e) => {
                ensure!(failed, "{}: error {e} although all needed discount factors exist", name());
                s.label("discounting error");
                history.push((at, None));
            }
        }
        s.checked(1);
    }
    if interesting {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{} on a {:?} {:?} curve, {} settlements", t.show(), I::K, D::B, history.len()));
    Ok(())
}

/// The same with user-defined day counts and interpolators that reject some dates: the independently
/// predicted value, or an error as soon as one remaining flow cannot be discounted.
fn rejecting<D: Conv, V: Fl>(s: &mut Src) -> Outcome {
    let t = gen_terms::<V>(s, true, 12);
    let flows = t.flows();
    let b = t.build::<V>("b")?;
    let start = match s.weighted(&[3, 1]) {
        0 => day(t.issue, -s.int(0, 60)),
        _ => settle_date(s, &t, &flows),
    };
    let span = (t.maturity.serial() - start.serial()).max(30) + 60;
    let c = gen_gaps::<D, V>(s, start, span);
    let curve = c.build::<D>()?;
    let mut interesting = false;
    for _ in 0..s.usize(1, 5) {
        let at = if s.chance(1, 3) { start } else { settle_date(s, &t, &flows) };
        let (mut want, mut tol, mut failed, mut left) = (0.0, 0.0, 0, 0);
        for f in flows.iter().filter(|f| at < f.due) {
            left += 1;
            match c.factor(D::B, at, f.pay) {
                Some((v, x)) => {
                    want += v * f.amount;
                    tol += (v * f.gross) * (x + V::EPS * (16.0 + left as f64)) + V::TINY;
                }
                None => failed += 1,
            }
        }
        let name = || format!("{} on {}, settlement {}", t.show(), c.show(D::B), at.iso());
        match b.discounted_value(at.date(), &curve) {
            Ok(v) => {
                ensure!(failed == 0, "{}: value {v} although {failed} of {left} remaining flows cannot be discounted", name());
                ensure!((v.f() - want).abs() <= tol || tol > 1e20, "{}: value {v}, must be {want}", name());
            }
            Err(e) => ensure!(failed > 0, "{}: error {e}, must be {want}", name()),
        }
        s.label(if failed > 0 { "a remaining flow cannot be discounted" } else if left == 0 { "no flow left" } else { "valued" });
        interesting |= failed > 0 && failed < left;
        s.checked(1);
    }
    if interesting {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{} on {}", t.show(), c.show(D::B)));
    Ok(())
}

/// Jumps at due dates, linearity in the face value.
fn jumps<V: Fl>(s: &mut Src) -> Outcome {
    let t = gen_terms::<V>(s, true, 16);
    let flows = t.flows();
    let b = t.build::<V>("b")?;
    let start = day(t.issue, -5);
    let (a, c) = (s.f64(-0.02, 0.1), s.f64(-0.001, 0.001));
    let curve = affine::<V>(start, a, c)?;
    let i = s.usize(0, flows.len() - 1);
    let f = flows[i];
    let (before, on) = (day(f.due, -1), f.due);
    let y = |d: Ymd| {
        let t = (d.serial() - start.serial()) as f64 / 365.0;
        t * (V::of(a).f() + V::of(c).f() * t)
    };
    // move both values to the curve's settlement date: they then differ by the flow alone
    let at = |d: Ymd| -> Result<f64, String> { Ok(value(&t, &b, d, &curve)? * (-y(d)).exp()) };
    let jump = at(before)? - at(on)?;
    let want = f.amount * (-y(f.pay)).exp();
    let size: f64 = flows.iter().map(|f| f.gross * (-y(f.pay)).exp()).sum();
    let span = (t.maturity.serial() - start.serial()) as f64 / 365.0;
    let tol = V::EPS * size * (64.0 + flows.len() as f64 + 16.0 * span * (a.abs() + c.abs() * span));
    ensure!(
        (jump - want).abs() <= tol,
        "{}: with y(t) = {a} + {c} t from {}, reaching the due date {} removes {jump}, the flow is worth {want}",
        t.show(),
        start.iso(),
        f.due.iso()
    );
    // twice the face value, twice the value; the flows add up over rates
    let mut t2 = t.clone();
    t2.face = 2.0 * t.face;
    let b2 = t2.build::<V>("b2")?;
    let d = settle_date(s, &t, &flows).max(start);
    let (v, v2) = (value(&t, &b, d, &curve)?, value(&t2, &b2, d, &curve)?);
    ensure!((v2 - 2.0 * v).abs() <= 4.0 * tol * y(d).exp().max(1.0), "{}: value {v} at {}, with twice the face value {v2}", t.show(), d.iso());
    s.checked(2);
    if flows.len() > 2 {
        s.nontrivial(s.tape_key());
    }
    s.label_if(f.pay != f.due, "due on a weekend");
    s.sample(|| format!("{}: jump at {}", t.show(), f.due.iso()));
    Ok(())
}

/// One bond valued very often.
fn often_valued<V: Fl>(s: &mut Src) -> Outcome {
    let t = gen_terms::<V>(s, true, 6);
    let b = t.build::<V>("often")?;
    let flows = t.flows();
    let start = day(t.issue, -10);
    let curves = [affine::<V>(start, 0.05, 0.0)?, affine::<V>(start, 0.01, 0.001)?];
    let places: Vec<(Ymd, usize, f64)> = (0..s.usize(1, 30))
        .map(|_| {
            let at = settle_date(s, &t, &flows);
            let at = if at < start { start } else { at };
            let k = s.usize(0, 1);
            // of a bond of its own
            Ok((at, k, value(&t, &t.build::<V>("own")?, at, &curves[k])?))
        })
        .collect::<Result<_, String>>()?;
    let gross: f64 = flows.iter().map(|f| f.gross).sum();
    let mut lcg = Lcg(s.draw(1 << 32));
    let n = often(s);
    for i in 0..n {
        let (at, k, want) = places[lcg.below(places.len())];
        let got = value(&t, &b, at, &curves[k])?;
        ensure!((got - want).abs() <= 64.0 * V::EPS * gross, "{}: valuation {i}, at {}, gives {got}, of a new bond {want}", t.show(), at.iso());
    }
    s.checked(n as u64);
    s.nontrivial(s.tape_key());
    s.sample(|| format!("{}: {n} valuations", t.show()));
    Ok(())
}

// ------------------------------------------------------------------------------------ C35

fn end_to_end<D: Conv, I: Scheme>(s: &mut Src) -> Outcome {
    let t = gen_terms::<I::F>(s, true, 20);
    let flows = t.flows();
    // bonds that exist together, some under one identifier
    let mut terms = vec![t.clone()];
    for _ in 0..s.usize(0, 2) {
        let v = variant::<I::F>(s, &t);
        let at = s.usize(0, terms.len());
        terms.insert(at, v);
    }
    let mut bonds = Vec::new();
    for t in terms {
        let id = *s.pick(&["a", "b", ""]);
        let b = t.build::<I::F>(id)?;
        ensure!(b.bond_id() == id, "{}: created as {id:?}, reports {:?}", t.show(), b.bond_id());
        let flows = t.flows();
        bonds.push((t, flows, b));
    }
    // usually a curve that covers the bond
    let start = match s.weighted(&[5, 1]) {
        0 => day(t.issue, s.int_near(0, -50, 300)),
        _ => settle_date(s, &t, &flows),
    };
    let mut c = gen_curve::<I::F>(s, D::B, start, I::K.min_points(), true);
    if s.chance(4, 5) {
        let end = day(t.maturity, s.int(0, 600));
        let l = *c.pillars.last().unwrap();
        if D::B.units(l, end).is_some_and(|u| u > 0) && D::B.units(start, end) > D::B.units(start, l) {
            c.pillars.push(end);
            c.yields.push(I::F::of(s.f64(-0.02, 0.1)));
        }
    }
    let times = c.times(D::B);
    let ks = vec![I::F::of(0.0); times.len()];
    let r = Reference::new(I::K, &times, &c.yields, &ks, I::K == Kind::Catmull && catmull_pinned());
    let curve = c.build::<D, I>()?;
    let eps = I::F::EPS;
    let (first, last) = (D::B.units(start, c.pillars[0]).unwrap(), D::B.units(start, *c.pillars.last().unwrap()).unwrap());
    let mut other = c.build::<D, I>()?;
    let mut curve = curve;
    let mut priced = false;
    for _ in 0..3 {
        let (t, flows, b) = s.pick(&bonds);
        let at = if s.bool() { start } else { settle_date(s, t, flows) };
        if s.chance(1, 4) {
            std::mem::swap(&mut curve, &mut other);
        }
        let ty = |d: Ymd| -> Option<(f64, f64)> {
            let k = D::B.units(start, d)?;
            if k < first || k > last {
                return None;
            }
            let x = (I::F::of(k as f64) / I::F::of(D::B.year())).f();
            let y = r.value(x);
            Some((x * y, 16.0 * eps * (x * y).abs() + 2.0 * x * r.tol_at(x, eps)))
        };
        let (mut want, mut tol, mut failed, mut extreme) = (0.0, 0.0, false, false);
        let left: Vec<&Flow> = flows.iter().filter(|f| at < f.due).collect();
        for f in &left {
            let one = if at == start { Some((0.0, 0.0)) } else if at > start { ty(at) } else { None };
            match (one, ty(f.pay)) {
                (Some((e1, x1)), Some((e2, x2))) => {
                    let df = (e1 - e2).exp();
                    let x = x1 + x2 + 16.0 * eps;
                    let limit = I::F::TINY.sqrt();
                    extreme |= !(df > limit && df * limit < 1.0) || x > 0.05 || e1.abs().max(e2.abs()) > -I::F::TINY.ln();
                    want += df * f.amount;
                    tol += (df * f.gross) * x;
                }
                _ => failed = true,
            }
        }
        tol *= 1.0 + 0.1 * left.len() as f64;
        let name = || format!("{} on the {}, settlement {}", t.show(), c.show::<D>(&format!("{:?}", I::K)), at.iso());
        match b.discounted_value(at.date(), &curve) {
            Ok(v) => {
                ensure!(!failed, "{}: value {v}, but some flow cannot be discounted", name());
                if extreme {
                    s.label("extreme discount factors skipped");
                } else {
                    ensure!((v.f() - want).abs() <= tol, "{}: value {v}, must be {want} (accepted difference {tol:e})", name());
                    priced |= left.len() > 1;
                    s.label("priced");
                }
            }
            Err(e) => {
                ensure!(failed, "{}: error {e}, must be {want}", name());
                s.label("not priceable");
            }
        }
        s.checked(1);
    }
    if priced {
        s.nontrivial(s.tape_key());
    }
    s.sample(|| format!("{} on the {}", t.show(), c.show::<D>(&format!("{:?}", I::K))));
    Ok(())
}

// ------------------------------------------------------------------------------------ C39

/// Whether the dates that the flows depend on exist; the dates must be in order.
fn exists(t: &Terms) -> Result<(), &'static str> {
    let prior = t.first.add_months(-6).ok_or("no regular first period")?;
    if t.issue < prior {
        prior.add_months(-6).ok_or("no period before the regular first one")?;
    }
    let regular = t.penult.add_months(6).ok_or("no regular last period")?;
    if t.maturity > regular {
        regular.add_months(6).ok_or("no period after the regular last one")?;
    }
    for k in 0.. {
        match t.first.add_months(6 * k) {
            Some(due) if due <= t.penult => due.roll_weekend().ok_or("no weekday to pay on")?,
            _ => break,
        };
    }
    Ok(())
}

fn creation<V: Fl>(s: &mut Src) -> Outcome {
    let clamp = |n: i64| Ymd::from_serial(n.clamp(min_serial(), max_serial())).unwrap();
    let gap = |s: &mut Src| match s.weighted(&[3, 3, 2, 1]) {
        0 => *s.pick(&[1i64, 180, 181, 182, 183, 184, 364, 365, 366]),
        1 => s.int(1, 190),
        2 => s.int(1, 800),
        _ => s.int(1, 4_000),
    };
    let between = match s.weighted(&[3, 3, 2, 2]) {
        0 => 0,
        1 => 182 * s.int(0, 12) + s.int(-2, 4),
        2 => s.int(0, 800),
        _ => -s.int(1, 400),
    };
    let (g1, g2) = (gap(s), gap(s));
    let (issue, first, penult, maturity) = match s.weighted(&[2, 3, 3]) {
        0 => {
            let y = s.int_near(2023, -262_000, 262_000);
            let first = day_in_year(s, y);
            let (f, p) = (first.serial(), first.serial() + between);
            (clamp(f - g1), first, clamp(p), clamp(p + g2))
        }
        1 => {
            let issue = min_serial() + if s.bool() { 0 } else { s.int(0, 400) };
            let first = issue + g1;
            let penult = (first + between).max(min_serial());
            (clamp(issue), clamp(first), clamp(penult), clamp(penult + g2))
        }
        _ => {
            let maturity = max_serial() - if s.bool() { 0 } else { s.int(0, 400) };
            let penult = maturity - g2;
            let first = (penult - between).min(max_serial() - 1);
            (clamp(first - g1), clamp(first), clamp(penult), clamp(maturity))
        }
    };
    if !(issue < first && penult < maturity) {
        s.label("disordered");
        return Ok(());
    }
    let special = [0.0, -0.0, -0.05, 1e30, f64::INFINITY, f64::NAN, f64::MIN_POSITIVE];
    let mut number = |usual: f64| if s.chance(1, 4) { *s.pick(&special) } else { usual * s.f64(0.0, 1.0) };
    let (rate, face) = (number(0.1), number(1000.0));
    let t = Terms { issue, first, penult, maturity, rate, face }.rounded::<V>();
    let id = match s.draw(3) {
        0 => String::new(),
        1 => "no. 1/\u{e9}\u{4e16}".to_string(),
        _ => "x".repeat(s.usize(1, 300)),
    };
    let made = t.build::<V>(&id);
    s.checked(1);
    if t.first > t.penult {
        // one flow at most
        s.label("first coupon after the penultimate");
        s.label(if made.is_ok() { "final flow only" } else { "no flow" });
        s.nontrivial(s.tape_key());
        if let (Ok(b), Some(regular)) = (&made, t.penult.add_months(6)) {
            let plain = t.rate.is_finite() && t.face.is_finite() && (t.rate * t.face).abs() < 1e30;
            if plain && t.issue < t.maturity && (t.maturity <= regular || regular.add_months(6).is_some()) {
                let want = t.face + t.regular() * t.last_share();
                let gross = t.face.abs() + (t.regular() * t.last_share()).abs();
                let got = value(&t, b, t.issue, &affine::<V>(t.issue, 0.0, 0.0)?)?;
                ensure!((got - want).abs() <= 8.0 * V::EPS * gross + V::TINY * 16.0, "{}: the flows sum to {got}, the final one is {want}", t.show());
                s.checked(1);
            }
        }
        return Ok(());
    }
    match exists(&t) {
        Err(why) => {
            ensure!(made.is_err(), "{}: there must be no bond ({why})", t.show());
            s.label(why);
            s.nontrivial(s.tape_key());
        }
        Ok(()) => {
            let b = made?;
            ensure!(b.bond_id() == id, "{}: identifier {:?}, created with {id:?}", t.show(), b.bond_id());
            let years = |d: Ymd| d.serial() - min_serial() < 400 || max_serial() - d.serial() < 400;
            s.label(if t.first == t.penult { "one coupon date" } else { "several coupon dates" });
            s.label_if(years(t.issue) || years(t.maturity), "at an end of the range");
            if t.issue < t.maturity && t.issue.serial() < max_serial() && t.rate.is_finite() && t.face.is_finite() && (t.rate * t.face).abs() < 1e30 {
                let flows = t.flows();
                let want: f64 = flows.iter().map(|f| f.amount).sum();
                let gross: f64 = flows.iter().map(|f| f.gross).sum();
                let got = value(&t, &b, t.issue, &affine::<V>(t.issue, 0.0, 0.0)?)?;
                let tol = 8.0 * V::EPS * gross * (1.0 + 0.1 * flows.len() as f64) + V::TINY * 16.0;
                ensure!((got - want).abs() <= tol, "{}: all flows sum to {got}, must be {want}", t.show());
                s.checked(1);
            }
            if years(t.issue) || years(t.maturity) || !t.rate.is_finite() || !t.face.is_finite() {
                s.nontrivial(s.tape_key());
            }
        }
    }
    s.sample(|| t.show());
    Ok(())
}

fn split(s: &mut Src, a: fn(&mut Src) -> Outcome, b: fn(&mut Src) -> Outcome) -> Outcome {
    if s.chance(1, 3) {
        s.label("f32");
        b(s)
    } else {
        s.label("f64");
        a(s)
    }
}

pub fn properties() -> Vec<Property> {
    vec![
        Property {
            id: "C32",
            rule: "schedule: a bond with regular first and last periods, up to 62 flows, first coupon on any day of 1950-2100; undiscounted values around due dates and values on steep curves settled before due dates, against the model flows; any-dates: arbitrary dates, only absence of panics. Non-trivial = at least two coupons with a rolled payment or clamped day; a disordered schedule; distinct by choice tape.",
            assumptions: &["flows are observed through discounted_value with a user-defined interpolator"],
            subs: vec![
                gen("schedule", 100_000, 5_000_000, |s| split(s, schedule::<f64>, schedule::<f32>)),
                gen("long", 30, 2_000, long_bond).unguided(),
                gen("any-dates", 100_000, 5_000_000, |s| split(s, any_terms::<f64>, any_terms::<f32>)),
            ],
        },
        Property {
            id: "C33",
            rule: "a bond with short, regular or long first and last periods (one day to about two years off); first coupon, one middle coupon and final flow, observed as drops of the undiscounted value. Non-trivial = an irregular period and a non-zero rate; distinct by choice tape.",
            assumptions: &["schedules with issue < first coupon <= penultimate coupon < maturity"],
            subs: vec![gen("irregular", 200_000, 10_000_000, |s| split(s, irregular::<f64>, irregular::<f32>))],
        },
        Property {
            id: "C34",
            rule: "remaining: histories of valuations on one bond and curve, settlement before, on and after due and payment dates, against the model flows times the curve's own discount factors; rejecting: the same on user-defined day counts and interpolators that reject some dates, against an independent model; jumps: drop at a due date and face value scaling. Non-trivial = some flows due and some remaining, or some but not all remaining flows impossible to discount, or more than two flows; distinct by choice tape.",
            assumptions: &["discount factors as the curve reports them (decided by C29-C31)"],
            subs: vec![
                gen("remaining", 100_000, 5_000_000, |s| any_combination!(s, remaining)),
                gen("rejecting", 100_000, 5_000_000, |s| user_combination!(s, rejecting)),
                gen("often", 20, 1_500, |s| split(s, often_valued::<f64>, often_valued::<f32>)).unguided(),
                gen("jumps", 100_000, 5_000_000, |s| split(s, jumps::<f64>, jumps::<f32>)),
            ],
        },
        Property {
            id: "C35",
            rule: "a bond and a curve of any of 18 combinations, three settlements each, against independently computed flows, day counts, interpolation and discounting; non-trivial = priced with at least two remaining flows; distinct by choice tape.",
            assumptions: &["for Catmull-Rom the reference has the pinned last segment of the known finding of C25"],
            subs: vec![gen("end-to-end", 150_000, 8_000_000, |s| any_combination!(s, end_to_end))],
        },
        Property {
            id: "C39",
            rule: "creation: schedules anywhere in the supported range, half of them at its ends, with first and last periods of any length, sometimes the first coupon after the penultimate one; any rate and face value, NaN and infinities included, any identifier; present or absent against the model, and all flows of a present one summed. Non-trivial = no bond, first coupon after the penultimate one, a schedule within 400 days of an end of the range, or a rate or face value that is not finite; distinct by choice tape.",
            assumptions: &["issue before the first coupon, penultimate coupon before maturity"],
            subs: vec![gen("creation", 200_000, 10_000_000, |s| split(s, creation::<f64>, creation::<f32>))],
        },
    ]
}
