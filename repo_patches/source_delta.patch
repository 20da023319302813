From 68e802900b8669c6052553a24a828a0e681ff16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 01/24] fix: checked_add_years returns None instead of
 overflowing the year

---
 crates/qlab-time/src/date.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 81999ba..3043718 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -70,12 +70,12 @@ impl Date {
     /// `None` if the resulting date is not valid.
     #[must_use]
     pub fn checked_add_years(self, rhs_years: Years) -> Option<Self> {
-        self.0.with_year(self.0.year() + rhs_years.0).map_or_else(
+        let year = self.0.year().checked_add(rhs_years.0)?;
+        self.0.with_year(year).map_or_else(
             || {
-                self.0.with_day(28).and_then(|date| {
-                    date.with_year(self.0.year() + rhs_years.0)
-                        .map(std::convert::Into::into)
-                })
+                self.0
+                    .with_day(28)
+                    .and_then(|date| date.with_year(year).map(std::convert::Into::into))
             },
             |date| Some(date.into()),
         )
-- 
2.43.0


From 99b5da62f1ce7830a6d62adc8c967f3be8ece8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 02/24] fix: modified rolling compares with the month of the
 unadjusted date

---
 crates/qlab-time/src/date.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index 3043718..b084909 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -273,8 +273,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedFollowing => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == self.month() {
+                if ret.month() == unadjusted.month() {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -288,8 +289,9 @@ impl Date {
                 Some(ret)
             }
             DateRolling::ModifiedPreceding => {
+                let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == self.month() {
+                if ret.month() == unadjusted.month() {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From 5b7ead5d51911a22104a34b405caa2a13b368944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 03/24] fix: 30/360 day count no longer underflows when the
 month number decreases

---
 crates/qlab-time/src/day_count/thirty_360.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/crates/qlab-time/src/day_count/thirty_360.rs b/crates/qlab-time/src/day_count/thirty_360.rs
index 690c7b0..4b4859d 100644
--- a/crates/qlab-time/src/day_count/thirty_360.rs
+++ b/crates/qlab-time/src/day_count/thirty_360.rs
@@ -8,26 +8,26 @@ use qlab_math::value::Value;
 pub struct Thirty360;
 
 impl Thirty360 {
-    #[allow(clippy::cast_sign_loss)] // validation deals with it
-    fn date_diff(date1: Date, date2: Date) -> QLabResult<u32> {
+    #[allow(clippy::cast_possible_wrap)] // months and days are small
+    fn date_diff(date1: Date, date2: Date) -> QLabResult<i32> {
         if date1 > date2 {
             return Err(
                 InvalidInput(format!("date1: {date1} must precede date2: {date2}").into()).into(),
             );
         }
-        let d1 = date1.day().min(30);
-        let d2 = date2.day().min(30);
-        Ok(
-            360 * (date2.year() - date1.year()) as u32 + 30 * (date2.month() - date1.month()) + d2
-                - d1,
-        )
+        let d1 = date1.day().min(30) as i32;
+        let d2 = date2.day().min(30) as i32;
+        Ok(360 * (date2.year() - date1.year())
+            + 30 * (date2.month() as i32 - date1.month() as i32)
+            + d2
+            - d1)
     }
 }
 
 impl DayCount for Thirty360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = Self::date_diff(date1, date2)?;
-        let date_diff = V::from_u32(date_diff)
+        let date_diff = V::from_i32(date_diff)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{date_diff}").into()))?;
         let denomination =
             V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
-- 
2.43.0


From 6eea70f72f84700cebfe5d31bdd65d98d379b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:41 +0000
Subject: [PATCH 04/24] fix: business_days_between honours include_first and
 accepts equal dates

---
 third-parties/calendar/src/lib.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 641192d..80f6313 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -212,12 +212,11 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let day_diff = ((to + Duration::days(i64::from(include_last)))
-            - (from + Duration::days(i64::from(include_first))))
-        .num_days();
-        for date in (from + Duration::days(i64::from(include_first)))
+        let start = from + Duration::days(i64::from(!include_first));
+        let day_diff = ((to + Duration::days(i64::from(include_last))) - start).num_days();
+        for date in start
             .iter_days()
-            .take(usize::try_from(day_diff).unwrap())
+            .take(usize::try_from(day_diff).unwrap_or_default())
         {
             if self.is_business_day(date) {
                 day_count += 1;
-- 
2.43.0


From 699518be3dfed870375632d292d92ec3a1c11b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 05/24] fix: natural cubic spline through three points uses
 both boundary values

---
 .../src/interpolation/spline/natural_cubic.rs         | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 093321f..3dadbd1 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -55,13 +55,14 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
                 b_upper_diagonals.push(h_next / V::from_i8(6).unwrap());
                 c_upper_diagonals.push(h_next.recip());
             }
+            let mut boundary_term = V::zero();
             if i == 1 {
-                m.push(raw_points[i - 1].1 / h);
-            } else if i + 2 == raw_points.len() {
-                m.push(raw_points[i + 1].1 / h_next);
-            } else {
-                m.push(V::zero());
+                boundary_term += raw_points[i - 1].1 / h;
             }
+            if i + 2 == raw_points.len() {
+                boundary_term += raw_points[i + 1].1 / h_next;
+            }
+            m.push(boundary_term);
             b_diagonals.push((h + h_next) / V::from_i8(3).unwrap());
             c_diagonals.push(-(h.recip() + h_next.recip()));
         }
-- 
2.43.0


From 46cc4ca211769817281102eac62b7e46ea8c5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 06/24] fix: back substitution of the tridiagonal solver covers
 the second to last row

---
 crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
index 81b613b..5803b1b 100644
--- a/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
+++ b/crates/qlab-math/src/linear_algebra/tridiagonal_matrix.rs
@@ -95,7 +95,7 @@ fn solve_with_thomas_algorithm_unchecked<V: Value>(
     }
 
     /* loop from X - 2 to 0 inclusive */
-    for ix in (0..matrix_size - 2).rev() {
+    for ix in (0..matrix_size - 1).rev() {
         let temp = scratch[ix] * x[ix + 1];
         x[ix] -= temp;
     }
-- 
2.43.0


From 251e931066aa00ea90a02d3f46425c4a9e712037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:01 +0000
Subject: [PATCH 07/24] fix: Catmull-Rom spline meets its last knot and weighs
 interior slopes by both intervals

---
 crates/qlab-math/src/interpolation/spline/catmull_rom.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 8f3202a..5f1717b 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -111,7 +111,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 Matrix4::new(
                     -alpha,
                     V::one(),
-                    -V::one() * alpha,
+                    -V::one() + alpha,
                     V::zero(),
                     V::from_i8(2).unwrap() * alpha,
                     V::from_i8(-2).unwrap(),
@@ -129,7 +129,7 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 .mul(Vector4::new(prev_point.y, point.y, next_point.y, V::zero()))
             } else {
                 let prev_point = &self.points[pos - 1];
-                let prev_h = next_point.x - prev_point.x;
+                let prev_h = point.x - prev_point.x;
                 let alpha = h / (h + prev_h);
                 let next_next_point = &self.points[pos + 2];
                 let next_h = next_next_point.x - next_point.x;
-- 
2.43.0


From ebf90dac666d595743133c2388bb8819330d2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 08/24] fix: Hermite spline reports insufficient points as
 documented instead of panicking

---
 crates/qlab-math/src/interpolation/spline/hermite.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index 035818d..e63c9d3 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -31,6 +31,11 @@ impl<V: Value> Hermite<V> {
     /// # Panics
     /// Will panic if `V` fail to cast constants.
     pub fn try_new(raw_points: &[(V, V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 3 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
         let mut temp = raw_points[0].0;
 
         let mut points = Vec::new();
-- 
2.43.0


From 2b2966f0b84632c3ef7dcb495e7ab07ae0b92ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 09/24] fix: linear interpolation reports insufficient points
 instead of panicking on evaluation

---
 crates/qlab-math/src/interpolation/linear.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index 3f24735..499fc89 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -48,6 +48,11 @@ impl<V: Real> Linear<V> {
 impl<V: Value> Interpolator for Linear<V> {
     type Value = V;
     fn try_fit(mut self, raw_points: &[(V, V)]) -> Result<Self, InterpolationError<V>> {
+        if raw_points.len() < 2 {
+            return Err(InterpolationError::InsufficientPointsError(
+                raw_points.len(),
+            ));
+        }
         let mut points = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
             points.push(Point2D { x, y });
-- 
2.43.0


From d8722a45104221a974438d7325e00d0c7d04e308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 10/24] fix: interpolators reject knots that are not strictly
 increasing

---
 crates/qlab-math/src/interpolation/linear.rs           |  3 +++
 .../qlab-math/src/interpolation/spline/catmull_rom.rs  |  6 ++----
 crates/qlab-math/src/interpolation/spline/hermite.rs   | 10 +++++-----
 .../src/interpolation/spline/natural_cubic.rs          |  9 +++++----
 4 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/qlab-math/src/interpolation/linear.rs b/crates/qlab-math/src/interpolation/linear.rs
index 499fc89..38688a0 100644
--- a/crates/qlab-math/src/interpolation/linear.rs
+++ b/crates/qlab-math/src/interpolation/linear.rs
@@ -55,6 +55,9 @@ impl<V: Value> Interpolator for Linear<V> {
         }
         let mut points = Vec::with_capacity(raw_points.len());
         for &(x, y) in raw_points {
+            if !points.last().map_or(true, |p: &Point2D<V>| p.x < x) {
+                return Err(InterpolationError::PointOrderError);
+            }
             points.push(Point2D { x, y });
         }
         self.points = points;
diff --git a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
index 5f1717b..8d8b6fe 100644
--- a/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
+++ b/crates/qlab-math/src/interpolation/spline/catmull_rom.rs
@@ -33,14 +33,12 @@ impl<V: Value> Interpolator for CatmullRom<V> {
                 raw_points.len(),
             ));
         }
-        let mut temp = raw_points[0].0;
-        let mut points = Vec::new();
+        let mut points: Vec<Point2D<V>> = Vec::new();
         for &(x, y) in raw_points {
             let point = Point2D { x, y };
-            if point.x < temp {
+            if !points.last().map_or(true, |prev| prev.x < point.x) {
                 return Err(InterpolationError::PointOrderError);
             }
-            temp = point.x;
             points.push(point);
         }
         self.points = points;
diff --git a/crates/qlab-math/src/interpolation/spline/hermite.rs b/crates/qlab-math/src/interpolation/spline/hermite.rs
index e63c9d3..4a430f6 100644
--- a/crates/qlab-math/src/interpolation/spline/hermite.rs
+++ b/crates/qlab-math/src/interpolation/spline/hermite.rs
@@ -36,15 +36,15 @@ impl<V: Value> Hermite<V> {
                 raw_points.len(),
             ));
         }
-        let mut temp = raw_points[0].0;
-
-        let mut points = Vec::new();
+        let mut points: Vec<Point2DWithSlope<V>> = Vec::new();
         for &(x, y, dydx) in raw_points {
             let point = Point2DWithSlope::new(x, y, dydx);
-            if point.coordinate.x < temp {
+            if !points
+                .last()
+                .map_or(true, |prev| prev.coordinate.x < point.coordinate.x)
+            {
                 return Err(InterpolationError::PointOrderError);
             }
-            temp = point.coordinate.x;
             points.push(point);
         }
         let m = Matrix4::new(
diff --git a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
index 3dadbd1..1262770 100644
--- a/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
+++ b/crates/qlab-math/src/interpolation/spline/natural_cubic.rs
@@ -83,14 +83,15 @@ impl<V: Value> Interpolator for NaturalCubic<V> {
         }
         derivatives.push(V::zero());
 
-        let mut temp = raw_points[0].0;
-        let mut points = Vec::with_capacity(raw_points.len());
+        let mut points: Vec<Point2DWithSlope<V>> = Vec::with_capacity(raw_points.len());
         for (&(x, y), dydx) in raw_points.iter().zip(derivatives) {
             let point = Point2DWithSlope::new(x, y, dydx);
-            if point.coordinate.x < temp {
+            if !points
+                .last()
+                .map_or(true, |prev| prev.coordinate.x < point.coordinate.x)
+            {
                 return Err(InterpolationError::PointOrderError);
             }
-            temp = point.coordinate.x;
             points.push(point);
         }
 
-- 
2.43.0


From d9f1486afaea9d5dcb82c23333929620c2edd41d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:55 +0000
Subject: [PATCH 11/24] fix: a bond whose first coupon is after its penultimate
 one yields None instead of a panic

---
 crates/qlab-instrument/src/bond.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 79f8fa2..498e230 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -113,14 +113,14 @@ impl<V: Value> Bond<V> {
             Ordering::Less => {
                 let coupon_fraction = V::from_i64(first_coupon_date - issue_date)?
                     / V::from_i64(first_coupon_date - first_prior)?;
-                bond_cash_flows[0].payment_amount *= coupon_fraction;
+                bond_cash_flows.first_mut()?.payment_amount *= coupon_fraction;
             }
             Ordering::Greater => {
                 let second_prior =
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows[0].payment_amount += coupon_fraction * regular_coupon_payment;
+                bond_cash_flows.first_mut()?.payment_amount += coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From 42f82b8cbb3c6c19585fb429e0809d70989113db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:56 +0000
Subject: [PATCH 12/24] fix: month-end coupon dates no longer drift towards the
 start of the month

---
 crates/qlab-instrument/src/bond.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-instrument/src/bond.rs b/crates/qlab-instrument/src/bond.rs
index 498e230..bbda036 100644
--- a/crates/qlab-instrument/src/bond.rs
+++ b/crates/qlab-instrument/src/bond.rs
@@ -68,6 +68,7 @@ impl<V: Value> Bond<V> {
         let regular_coupon_payment = coupon_rate * face_value / V::from_u8(coupon_frequency as u8)?;
 
         let mut regular_due_date = first_coupon_date;
+        let mut months_since_first_coupon = 0;
         let mut bond_cash_flows = Vec::new();
 
         while regular_due_date <= penultimate_coupon_date {
@@ -77,8 +78,9 @@ impl<V: Value> Bond<V> {
                 payment_date,
                 payment_amount: regular_coupon_payment,
             });
+            months_since_first_coupon += 12 / coupon_frequency as u32;
             regular_due_date =
-                regular_due_date.checked_add_months(months_in_regular_coupon_period)?;
+                first_coupon_date.checked_add_months(Months::new(months_since_first_coupon))?;
         }
         Self::first_cash_flow(
             issue_date,
@@ -120,7 +122,8 @@ impl<V: Value> Bond<V> {
                     first_prior.checked_sub_months(months_in_regular_coupon_period)?;
                 let coupon_fraction = V::from_i64(first_prior - issue_date)?
                     / V::from_i64(first_prior - second_prior)?;
-                bond_cash_flows.first_mut()?.payment_amount += coupon_fraction * regular_coupon_payment;
+                bond_cash_flows.first_mut()?.payment_amount +=
+                    coupon_fraction * regular_coupon_payment;
             }
             Ordering::Equal => {}
         }
-- 
2.43.0


From 5d30c4f712ce23e4e2c9fa8b99f7545d575ecc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 13/24] fix: Japanese equinox holidays fall on the observed day
 for all years

The equinox days were tabulated for 2014 to 2028 only; outside these years a
fixed 20 March and 23 September was assumed and, in between, 2012 and 2016
missed the 22 September equinox.
---
 third-parties/calendar/src/japan.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/third-parties/calendar/src/japan.rs b/third-parties/calendar/src/japan.rs
index e37e048..4cffdfb 100644
--- a/third-parties/calendar/src/japan.rs
+++ b/third-parties/calendar/src/japan.rs
@@ -8,16 +8,23 @@ use chrono::{NaiveDate, Weekday};
 pub struct Japan;
 
 impl Japan {
+    // Standard approximation of the equinox days, using the constants published for each range
+    // of years. The quotients truncate towards zero.
+    fn equinox_day(&self, y: i32, base: f64, pivot: i32) -> u32 {
+        (base + 0.242_194 * f64::from(y - 1980) - f64::from((y - pivot) / 4)) as u32
+    }
     fn vernal_equinox_day(&self, y: i32) -> u32 {
         match y {
-            2014 | 2015 | 2018 | 2019 | 2022 | 2023 | 2027 => 21,
-            _ => 20,
+            ..=1979 => self.equinox_day(y, 20.8357, 1983),
+            1980..=2099 => self.equinox_day(y, 20.8431, 1980),
+            _ => self.equinox_day(y, 21.8510, 1980),
         }
     }
     fn autumnal_equinox_day(&self, y: i32) -> u32 {
         match y {
-            2020 | 2024 | 2028 => 22,
-            _ => 23,
+            ..=1979 => self.equinox_day(y, 23.2588, 1983),
+            1980..=2099 => self.equinox_day(y, 23.2488, 1980),
+            _ => self.equinox_day(y, 24.2488, 1980),
         }
     }
 }
-- 
2.43.0


From 4debf20c945ffd7d8a27a8f4dfd29610dce3ba37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 14/24] fix: Chinese New Year 2010 in Singapore is in February

---
 third-parties/calendar/src/singapore.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/singapore.rs b/third-parties/calendar/src/singapore.rs
index 2df67cc..d7a15da 100644
--- a/third-parties/calendar/src/singapore.rs
+++ b/third-parties/calendar/src/singapore.rs
@@ -30,7 +30,7 @@ impl Calendar for Singapore {
             || ((d == 19 || d == 20) && m == 2 && y == 2007)
             || ((d == 7 || d == 8) && m == 2 && y == 2008)
             || ((d == 26 || d == 27) && m == 1 && y == 2009)
-            || ((d == 15 || d == 16) && m == 1 && y == 2010)
+            || ((d == 15 || d == 16) && m == 2 && y == 2010)
             || ((d == 23 || d == 24) && m == 1 && y == 2012)
             || ((d == 11 || d == 12) && m == 2 && y == 2013)
             || (d == 31 && m == 1 && y == 2014)
-- 
2.43.0


From 95c94c0131a58580bb051c3454b939b5f0b8697f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 15/24] fix: Lunar New Year and Dragon Boat Festival 2010 in
 Taiwan use the right months

---
 third-parties/calendar/src/taiwan.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/taiwan.rs b/third-parties/calendar/src/taiwan.rs
index d7114f0..f13a45c 100644
--- a/third-parties/calendar/src/taiwan.rs
+++ b/third-parties/calendar/src/taiwan.rs
@@ -105,11 +105,11 @@ impl Calendar for Taiwan {
             return false;
         }
         // Year 2010
-        // Lunar New Year 01-13 to 01-21
-        // Dragon Boat Festival 05-16
+        // Lunar New Year 02-13 to 02-21
+        // Dragon Boat Festival 06-16
         // Moon Festival 09-22
         if (y == 2010)
-            && (((13..=21).contains(&d) && m == 1) || (d == 16 && m == 5) || (d == 22 && m == 9))
+            && (((13..=21).contains(&d) && m == 2) || (d == 16 && m == 6) || (d == 22 && m == 9))
         {
             return false;
         }
-- 
2.43.0


From 58d463d0de8d0a8c7b39cca08f87a4383f4650ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 16/24] fix: the weekend of the Israeli calendar is Friday and
 Saturday

---
 third-parties/calendar/src/israel.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index 20cedb5..cb61940 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -2,16 +2,20 @@
 
 use crate::Calendar;
 
-use chrono::{NaiveDate, Weekday};
+use chrono::{Datelike, NaiveDate, Weekday};
 
 #[derive(Default, Debug)]
 pub struct Israel;
 
 impl Calendar for Israel {
+    fn is_weekend(&self, date: NaiveDate) -> bool {
+        matches!(date.weekday(), Weekday::Fri | Weekday::Sat)
+    }
+
     fn is_business_day(&self, date: NaiveDate) -> bool {
-        let (d, w, m, y, _) = self.naive_date_to_dkmy(date);
+        let (d, _, m, y, _) = self.naive_date_to_dkmy(date);
 
-        if w == Weekday::Fri || w == Weekday::Sat
+        if self.is_weekend(date)
             //Purim
             || (d == 24 && m == 2 && y == 2013)
             || (d == 16 && m == 3 && y == 2014)
-- 
2.43.0


From 9f05f865ab8cc9ff1a3587f892f467741c14b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 17/24] fix: Memorial and Independence Day 2038 in Israel are
 on 10 and 11 May

---
 third-parties/calendar/src/israel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/israel.rs b/third-parties/calendar/src/israel.rs
index cb61940..c6826e7 100644
--- a/third-parties/calendar/src/israel.rs
+++ b/third-parties/calendar/src/israel.rs
@@ -108,7 +108,7 @@ impl Calendar for Israel {
             || ((d == 14 || d == 15) && m == 5 && y == 2035)
             || (((d == 30 && m == 4) || (d == 1 && m == 5)) && y == 2036)
             || ((d == 20 || d == 21) && m == 4 && y == 2037)
-            || ((d == 9 || d == 10) && m == 5 && y == 2038)
+            || ((d == 10 || d == 11) && m == 5 && y == 2038)
             || ((d == 27 || d == 28) && m == 4 && y == 2039)
             || ((d == 17 || d == 18) && m == 4 && y == 2040)
             || ((d == 6 || d == 7) && m == 5 && y == 2041)
-- 
2.43.0


From 38367b5d2630e8380ec68b356c8f7fd2f8fa02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 18/24] fix: Ukraine observes the Orthodox Easter and Holy
 Trinity dates

---
 third-parties/calendar/src/ukraine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/ukraine.rs b/third-parties/calendar/src/ukraine.rs
index 8fbb269..18a2df8 100644
--- a/third-parties/calendar/src/ukraine.rs
+++ b/third-parties/calendar/src/ukraine.rs
@@ -10,7 +10,7 @@ pub struct Ukraine;
 impl Calendar for Ukraine {
     fn is_business_day(&self, date: NaiveDate) -> bool {
         let (d, w, m, y, dd) = self.naive_date_to_dkmy(date);
-        let em = self.easter_monday(y);
+        let em = self.orthodox_easter_monday(y);
         if self.is_weekend(date)
             // New Year's Day (possibly moved to Weekday::Mon)
             || ((d == 1 || ((d == 2 || d == 3) && w == Weekday::Mon))
-- 
2.43.0


From 441889d7146c73393ecbd1672dc9e24277eaa14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 19/24] fix: Ramadan and Kurban holidays 2011 and 2015 in
 Turkey

---
 third-parties/calendar/src/turkey.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/turkey.rs b/third-parties/calendar/src/turkey.rs
index 83ba4c2..a1763c8 100644
--- a/third-parties/calendar/src/turkey.rs
+++ b/third-parties/calendar/src/turkey.rs
@@ -93,8 +93,12 @@ impl Calendar for Turkey {
                 return false;
             }
         } else if y == 2011 {
-            // not clear from borsainstanbul.com
-            if (m == 10 && d == 1) || (m == 11 && (9..=13).contains(&d)) {
+            // Ramadan
+            if (m == 8 && (30..=31).contains(&d))
+                || (m == 9 && d == 1)
+                // Kurban
+                || (m == 11 && (6..=9).contains(&d))
+            {
                 return false;
             }
         } else if y == 2012 {
@@ -129,7 +133,7 @@ impl Calendar for Turkey {
             // Ramadan
             if (m == 7 && (17..=19).contains(&d))
                 // Kurban
-                || (m == 10 && (24..=27).contains(&d))
+                || (m == 9 && (24..=27).contains(&d))
             {
                 return false;
             }
-- 
2.43.0


From fa99258004d6b7643063e4bd6f8cfba5228b9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 20/24] fix: Ganesh Chaturthi 2024 and 2025 in India

27 August is the date of the festival in 2025; in 2024 it is 7 September.
---
 third-parties/calendar/src/india.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/third-parties/calendar/src/india.rs b/third-parties/calendar/src/india.rs
index 941b06f..3fbea2c 100644
--- a/third-parties/calendar/src/india.rs
+++ b/third-parties/calendar/src/india.rs
@@ -393,7 +393,7 @@ impl Calendar for India {
                 // Bakri Id (estimated Sunday 16th or Monday 17th)
                 || (d == 17 && m == 6)
                 // Ganesh Chaturthi
-                || (d == 27 && m == 8)
+                || (d == 7 && m == 9)
                 // Id-E-Milad (estimated Sunday 15th or Monday 16th)
                 || (d == 16 && m == 9)
                 // Gurunank Jayanti
@@ -412,6 +412,8 @@ impl Calendar for India {
                 || (d == 10 && m == 4)
                 // Buddha Pournima
                 || (d == 12 && m == 5)
+                // Ganesh Chaturthi
+                || (d == 27 && m == 8)
                 // Id-E-Milad (estimated Thursday 4th or Friday 5th)
                 || (d == 5 && m == 9)
                 // Dasera
-- 
2.43.0


From 6b505177aa056eae0f35edb976cceacecb0e37a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:31 +0000
Subject: [PATCH 21/24] fix: modified rolling treats the same month of another
 year as a different month

---
 crates/qlab-time/src/date.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/date.rs b/crates/qlab-time/src/date.rs
index b084909..e682b2a 100644
--- a/crates/qlab-time/src/date.rs
+++ b/crates/qlab-time/src/date.rs
@@ -275,7 +275,7 @@ impl Date {
             DateRolling::ModifiedFollowing => {
                 let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Following)?;
-                if ret.month() == unadjusted.month() {
+                if (ret.year(), ret.month()) == (unadjusted.year(), unadjusted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Preceding)
@@ -291,7 +291,7 @@ impl Date {
             DateRolling::ModifiedPreceding => {
                 let unadjusted = self.checked_roll(period, calendar, DateRolling::Unadjusted)?;
                 let ret = self.checked_roll(period, calendar, DateRolling::Preceding)?;
-                if ret.month() == unadjusted.month() {
+                if (ret.year(), ret.month()) == (unadjusted.year(), unadjusted.month()) {
                     Some(ret)
                 } else {
                     self.checked_roll(period, calendar, DateRolling::Following)
-- 
2.43.0


From d2633a29a1f8a39bdeb14acfdb2c54791da7303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 22/24] fix: the last day of a month exists in the last year
 chrono can represent

---
 third-parties/calendar/src/lib.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index 80f6313..f6f4105 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -166,9 +166,8 @@ pub trait Calendar: Debug {
         let year = date.year();
         let month = date.month();
         NaiveDate::from_ymd_opt(year, month + 1, 1)
-            .unwrap_or(NaiveDate::from_ymd_opt(year + 1, 1, 1).unwrap())
-            .pred_opt()
-            .unwrap()
+            .or_else(|| NaiveDate::from_ymd_opt(year + 1, 1, 1))
+            .map_or(NaiveDate::MAX, |first_day| first_day.pred_opt().unwrap())
     }
 
     fn end_of_month(&self, date: NaiveDate) -> NaiveDate {
-- 
2.43.0


From 8624bcc7ea5fdf06bd8cc9e8f83932b00a464b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:58 +0000
Subject: [PATCH 23/24] fix: count business days up to the last date chrono can
 represent

---
 third-parties/calendar/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/third-parties/calendar/src/lib.rs b/third-parties/calendar/src/lib.rs
index f6f4105..9a79c4e 100644
--- a/third-parties/calendar/src/lib.rs
+++ b/third-parties/calendar/src/lib.rs
@@ -211,16 +211,20 @@ pub trait Calendar: Debug {
         let include_first = include_first.unwrap_or(true);
         let include_last = include_last.unwrap_or(false);
         let mut day_count = 0;
-        let start = from + Duration::days(i64::from(!include_first));
-        let day_diff = ((to + Duration::days(i64::from(include_last))) - start).num_days();
-        for date in start
+        // The days from `from` up to, but not including, `to`
+        let day_diff = (to - from).num_days();
+        for date in from
             .iter_days()
             .take(usize::try_from(day_diff).unwrap_or_default())
+            .skip(usize::from(!include_first))
         {
             if self.is_business_day(date) {
                 day_count += 1;
             }
         }
+        if include_last && (include_first || from < to) && self.is_business_day(to) {
+            day_count += 1;
+        }
         day_count
     }
 }
-- 
2.43.0


From a4b73eb0a249efd8a52f0bc0fd6e012de2d958d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:57 +0000
Subject: [PATCH 24/24] fix: day counts report a year that the number type
 cannot represent instead of panicking

---
 crates/qlab-time/src/day_count/act_360.rs | 3 ++-
 crates/qlab-time/src/day_count/act_365.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/qlab-time/src/day_count/act_360.rs b/crates/qlab-time/src/day_count/act_360.rs
index 6ec187a..e8146f0 100644
--- a/crates/qlab-time/src/day_count/act_360.rs
+++ b/crates/qlab-time/src/day_count/act_360.rs
@@ -10,7 +10,8 @@ impl DayCount for Act360 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = V::from_i64(date2 - date1)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{}", date2 - date1).into()))?;
-        let denomination = V::from_i32(360).unwrap();
+        let denomination =
+            V::from_i32(360).ok_or_else(|| ComputeError::CastNumberError("360".into()))?;
 
         Ok(date_diff.div(denomination))
     }
diff --git a/crates/qlab-time/src/day_count/act_365.rs b/crates/qlab-time/src/day_count/act_365.rs
index 3222f58..0eb3f58 100644
--- a/crates/qlab-time/src/day_count/act_365.rs
+++ b/crates/qlab-time/src/day_count/act_365.rs
@@ -10,7 +10,8 @@ impl DayCount for Act365 {
     fn calculate_day_count_fraction<V: Value>(date1: Date, date2: Date) -> QLabResult<V> {
         let date_diff = V::from_i64(date2 - date1)
             .ok_or_else(|| ComputeError::CastNumberError(format!("{}", date2 - date1).into()))?;
-        let denomination = V::from_i32(365).unwrap();
+        let denomination =
+            V::from_i32(365).ok_or_else(|| ComputeError::CastNumberError("365".into()))?;
 
         Ok(date_diff.div(denomination))
     }
-- 
2.43.0

