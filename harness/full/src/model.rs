//! Reference date arithmetic (no code under test) and date generators.

use cal::year::{days_from_civil, month_len};
use engine::Src;
use qlab_time::date::Date;

pub const MIN_Y: i64 = -262_143;
pub const MAX_Y: i64 = 262_142;
/// 0001-01-01 is day 1.
const EPOCH: i64 = 719_163;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct Ymd {
    pub y: i64,
    pub m: i64,
    pub d: i64,
}

pub fn len(y: i64, m: i64) -> i64 {
    i64::from(month_len(y as i32, m as u32))
}

impl Ymd {
    pub fn new(y: i64, m: i64, d: i64) -> Self {
        Ymd { y, m, d }
    }
    pub fn valid(self) -> bool {
        (MIN_Y..=MAX_Y).contains(&self.y) && (1..=12).contains(&self.m) && self.d >= 1 && self.d <= len(self.y, self.m)
    }
    /// Day number, 0001-01-01 = 1.
    pub fn serial(self) -> i64 {
        days_from_civil(self.y, self.m, self.d) + EPOCH
    }
    /// Monday = 0.
    pub fn weekday(self) -> i64 {
        (self.serial() - 1).rem_euclid(7)
    }
    pub fn date(self) -> Date {
        Date::from_ymd(self.y as i32, self.m as u32, self.d as u32)
            .unwrap_or_else(|| panic!("from_ymd rejects the valid date {self:?}"))
    }
    /// The date with a given day number, by walking from a guess (independent of the library).
    pub fn from_serial(n: i64) -> Option<Ymd> {
        let mut y = (n * 400).div_euclid(146_097);
        y = y.max(MIN_Y - 2);
        while Ymd::new(y + 1, 1, 1).serial() <= n {
            y += 1;
        }
        while Ymd::new(y, 1, 1).serial() > n {
            y -= 1;
        }
        let mut m = 1;
        let mut r = n - Ymd::new(y, 1, 1).serial();
        while r >= len(y, m) {
            r -= len(y, m);
            m += 1;
        }
        let t = Ymd::new(y, m, r + 1);
        t.valid().then_some(t)
    }
    pub fn add_days(self, n: i128) -> Option<Ymd> {
        let t = i128::from(self.serial()) + n;
        if t < i128::from(min_serial()) || t > i128::from(max_serial()) {
            return None;
        }
        Ymd::from_serial(t as i64)
    }
    pub fn add_months(self, n: i64) -> Option<Ymd> {
        let t = self.y * 12 + self.m - 1 + n;
        let (y, m) = (t.div_euclid(12), t.rem_euclid(12) + 1);
        if !(MIN_Y..=MAX_Y).contains(&y) {
            return None;
        }
        Some(Ymd::new(y, m, self.d.min(len(y, m))))
    }
    pub fn add_years(self, n: i64) -> Option<Ymd> {
        let y = self.y + n;
        if !(MIN_Y..=MAX_Y).contains(&y) {
            return None;
        }
        Some(Ymd::new(y, self.m, self.d.min(len(y, self.m))))
    }
    pub fn roll_weekend(self) -> Option<Ymd> {
        match self.weekday() {
            5 => self.add_days(2),
            6 => self.add_days(1),
            _ => Some(self),
        }
    }
    pub fn iso(self) -> String {
        if (0..=9999).contains(&self.y) {
            format!("{:04}-{:02}-{:02}", self.y, self.m, self.d)
        } else {
            let sign = if self.y < 0 { '-' } else { '+' };
            format!("{sign}{:04}-{:02}-{:02}", self.y.abs(), self.m, self.d)
        }
    }
}

pub fn min_serial() -> i64 {
    Ymd::new(MIN_Y, 1, 1).serial()
}
pub fn max_serial() -> i64 {
    Ymd::new(MAX_Y, 12, 31).serial()
}

pub fn of(d: Date) -> Ymd {
    Ymd::new(i64::from(d.year()), i64::from(d.month()), i64::from(d.day()))
}

/// A valid date: mostly of the 20th to 22nd century, with century years, month ends, early and BCE
/// years and both ends of the range.
pub fn gen_ymd(s: &mut Src) -> Ymd {
    let y = match s.weighted(&[10, 3, 3, 2, 1]) {
        0 => s.int_near(2023, 1900, 2200),
        1 => 100 * s.int_near(20, -30, 60) + s.int(0, 4),
        2 => s.int_near(0, -12_000, 12_000),
        3 => s.int_near(2023, MIN_Y, MAX_Y),
        _ => {
            if s.bool() {
                MIN_Y + s.int(0, 3)
            } else {
                MAX_Y - s.int(0, 3)
            }
        }
    };
    day_in_year(s, y)
}

/// Month ends, year ends and 28/29 February are over-represented.
pub fn day_in_year(s: &mut Src, y: i64) -> Ymd {
    let m = match s.weighted(&[6, 2, 1, 1]) {
        0 => s.int(1, 12),
        1 => 2,
        2 => 12,
        _ => 1,
    };
    let l = len(y, m);
    let d = match s.weighted(&[5, 3, 1]) {
        0 => s.int(1, l),
        1 => l - s.int(0, 3),
        _ => s.int(1, 3),
    };
    Ymd::new(y, m, d)
}

pub fn gen_near(s: &mut Src, a: Ymd, reach: i64) -> Ymd {
    let lo = (a.serial() - reach).max(min_serial());
    let hi = (a.serial() + reach).min(max_serial());
    Ymd::from_serial(s.int_near(a.serial(), lo, hi)).unwrap()
}
