//! Independent model of one calendar year: civil date arithmetic, Easter computation and a small
//! vocabulary for holiday rules. Nothing here uses the code under test.

/// Days since 1970-01-01 of a proleptic Gregorian date.
pub fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y - era * 400;
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe - 719_468
}

pub fn is_leap(y: i32) -> bool {
    y.rem_euclid(4) == 0 && (y.rem_euclid(100) != 0 || y.rem_euclid(400) == 0)
}

pub const CUM: [usize; 13] = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365];

pub fn month_len(y: i32, m: u32) -> u32 {
    match m {
        2 => 28 + u32::from(is_leap(y)),
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}

/// Weekday of a day number, Monday = 0.
pub fn weekday(days: i64) -> usize {
    (days + 3).rem_euclid(7) as usize
}

/// Western Easter Sunday as (month, day): anonymous Gregorian (Meeus/Jones/Butcher) algorithm.
pub fn easter_sunday(y: i64) -> (i64, i64) {
    let a = y % 19;
    let (b, c) = (y / 100, y % 100);
    let (d, e) = (b / 4, b % 4);
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let (i, k) = (c / 4, c % 4);
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let n = h + l - 7 * m + 114;
    (n / 31, n % 31 + 1)
}

/// Orthodox Easter Sunday as a day number: Meeus' Julian algorithm, converted with the century
/// dependent Julian/Gregorian difference.
pub fn orthodox_easter_days(y: i64) -> i64 {
    let (a, b, c) = (y % 4, y % 7, y % 19);
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let n = d + e + 114;
    let (month, day) = (n / 31, n % 31 + 1);
    let shift = y / 100 - y / 400 - 2;
    days_from_civil(y, month, day) + shift
}

pub const MON: usize = 0;
pub const TUE: usize = 1;
pub const WED: usize = 2;
pub const THU: usize = 3;
pub const FRI: usize = 4;
pub const SAT: usize = 5;
pub const SUN: usize = 6;

pub struct Yr {
    pub y: i32,
    pub jan1: i64,
    pub len: usize,
    /// by zero-based day of year
    pub closed: Vec<bool>,
    pub open: Vec<bool>,
    pub weekend: [usize; 2],
    em: usize,
    oem: usize,
}

impl Yr {
    pub fn new(y: i32) -> Self {
        let jan1 = days_from_civil(i64::from(y), 1, 1);
        let len = 365 + usize::from(is_leap(y));
        let (em_m, em_d) = easter_sunday(i64::from(y));
        let em = (days_from_civil(i64::from(y), em_m, em_d) + 1 - jan1) as usize;
        let oem = (orthodox_easter_days(i64::from(y)) + 1 - jan1) as usize;
        Yr { y, jan1, len, closed: vec![false; 366], open: vec![false; 366], weekend: [SAT, SUN], em, oem }
    }
    /// zero-based day of year
    pub fn doy(&self, m: usize, d: usize) -> usize {
        CUM[m - 1] + d - 1 + usize::from(m > 2 && is_leap(self.y))
    }
    pub fn wd_at(&self, doy: usize) -> usize {
        weekday(self.jan1 + doy as i64)
    }
    pub fn wd(&self, m: usize, d: usize) -> usize {
        self.wd_at(self.doy(m, d))
    }
    pub fn is_business(&self, doy: usize) -> bool {
        self.open[doy] || !(self.closed[doy] || self.weekend.contains(&self.wd_at(doy)))
    }
    pub fn month_day(&self, doy: usize) -> (u32, u32) {
        let mut m = 12;
        while self.doy(m, 1) > doy {
            m -= 1;
        }
        (m as u32, (doy - self.doy(m, 1) + 1) as u32)
    }

    // ---- rules
    pub fn at(&mut self, doy: usize) {
        if doy < self.len {
            self.closed[doy] = true;
        }
    }
    /// Fixed dates.
    pub fn d(&mut self, m: usize, d: usize) {
        let i = self.doy(m, d);
        self.at(i);
    }
    pub fn ds(&mut self, l: &[(usize, usize)]) {
        for &(m, d) in l {
            self.d(m, d);
        }
    }
    /// Inclusive range of days inside a month.
    pub fn span(&mut self, m: usize, a: usize, b: usize) {
        for d in a..=b {
            self.d(m, d);
        }
    }
    pub fn one(&mut self, y: i32, m: usize, d: usize) {
        if self.y == y {
            self.d(m, d);
        }
    }
    /// Offset in days from Western Easter Monday.
    pub fn e(&mut self, off: i64) {
        let i = (self.em as i64 + off) as usize;
        self.at(i);
    }
    pub fn o(&mut self, off: i64) {
        let i = (self.oem as i64 + off) as usize;
        self.at(i);
    }
    /// Date, observed on the following Monday if it falls on a weekend.
    pub fn mon(&mut self, m: usize, d: usize) {
        let i = self.doy(m, d);
        self.at(i);
        match self.wd_at(i) {
            SAT => self.at(i + 2),
            SUN => self.at(i + 1),
            _ => {}
        }
    }
    /// Date, observed on Monday if it falls on a Sunday.
    pub fn sun(&mut self, m: usize, d: usize) {
        let i = self.doy(m, d);
        self.at(i);
        if self.wd_at(i) == SUN {
            self.at(i + 1);
        }
    }
    /// Date, observed on the nearest weekday (Saturday -> Friday, Sunday -> Monday).
    pub fn near(&mut self, m: usize, d: usize) {
        self.sun(m, d);
        let i = self.doy(m, d);
        if self.wd_at(i) == SAT && i > 0 {
            self.at(i - 1);
        }
    }
    /// First weekday `w` on or after the date.
    pub fn from(&mut self, m: usize, d: usize, w: usize) {
        let mut i = self.doy(m, d);
        while self.wd_at(i) != w {
            i += 1;
        }
        self.at(i);
    }
    pub fn nth(&mut self, n: usize, w: usize, m: usize) {
        self.from(m, 1 + 7 * (n - 1), w);
    }
    /// Last weekday `w` on or before the date.
    pub fn upto(&mut self, m: usize, d: usize, w: usize) {
        let mut i = self.doy(m, d);
        while self.wd_at(i) != w {
            i -= 1;
        }
        self.at(i);
    }
    /// 25 and 26 December, each moved two days later when it falls on a weekend.
    pub fn christmas_boxing_moved(&mut self) {
        for d in [25, 26] {
            self.d(12, d);
            if self.wd(12, d) >= SAT {
                self.d(12, d + 2);
            }
        }
    }
    pub fn christmas_boxing(&mut self) {
        self.d(12, 25);
        self.d(12, 26);
    }
    /// Closures of one year given as "MMDD MMDD ...".
    pub fn table(&mut self, t: &[(i32, &str)]) {
        for (y, l) in t {
            if *y == self.y {
                for md in l.split_whitespace() {
                    let v: usize = md.parse().unwrap();
                    self.d(v / 100, v % 100);
                }
            }
        }
    }
}
