From 8f4f49698299a6dcc2cdc2b5d9131be57edbe095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:14 +0000
Subject: [PATCH 01/25] fix: refuse in-place date moves that leave the
 supported range

Date += n and Date -= n built dates outside 1900-01-01..2199-12-31 while every
other operator refuses them. The calendar list functions relied on stepping one
day past the last date, so they now iterate over serial numbers.
---
 src/datetime/calendar.rs | 12 ++++++------
 src/datetime/date.rs     |  8 ++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 25a16a4..86e8407 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -115,12 +115,12 @@ impl Calendar {
             to
         );
         let mut result = vec![];
-        let mut d = from;
-        while d <= to {
+        // iterate over serial numbers to avoid incrementing the maximum date
+        for serial_number in from.serial_number()..=to.serial_number() {
+            let d = Date::from_serial(serial_number);
             if self.is_holiday(&d) && (include_weekends || !self.is_weekend(d.weekday())) {
                 result.push(d);
             }
-            d += 1;
         }
         result
     }
@@ -134,12 +134,12 @@ impl Calendar {
             to
         );
         let mut result = vec![];
-        let mut d = from;
-        while d <= to {
+        // iterate over serial numbers to avoid incrementing the maximum date
+        for serial_number in from.serial_number()..=to.serial_number() {
+            let d = Date::from_serial(serial_number);
             if self.is_business_day(&d) {
                 result.push(d);
             }
-            d += 1;
         }
         result
     }
diff --git a/src/datetime/date.rs b/src/datetime/date.rs
index bc3cf87..0504f15 100644
--- a/src/datetime/date.rs
+++ b/src/datetime/date.rs
@@ -84,9 +84,7 @@ impl<'a> Add<SerialNumber> for &'a Date {
 
 impl AddAssign<SerialNumber> for Date {
     fn add_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger + rhs as BigInteger - 2);
-        self.serial_number += rhs;
+        *self = Date::from_serial(self.serial_number + rhs);
     }
 }
 
@@ -110,9 +108,7 @@ impl<'a> Sub<SerialNumber> for &'a Date {
 
 impl SubAssign<SerialNumber> for Date {
     fn sub_assign(&mut self, rhs: SerialNumber) {
-        self.date_time = Date::min_date().date_time
-            + Duration::days(self.serial_number as BigInteger - rhs as BigInteger - 2);
-        self.serial_number -= rhs;
+        *self = Date::from_serial(self.serial_number - rhs);
     }
 }
 
-- 
2.43.0


From 2af668deef714ad51bed50f60b851fd0dadb213b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:18 +0000
Subject: [PATCH 02/25] fix: added and removed holidays are honoured by
 is_holiday

is_holiday consulted the market rules only, so adjust, advance, end_of_month and
holiday_list ignored the edits made with add_holiday and remove_holiday.
---
 src/datetime/calendar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/calendar.rs b/src/datetime/calendar.rs
index 86e8407..13836c7 100644
--- a/src/datetime/calendar.rs
+++ b/src/datetime/calendar.rs
@@ -65,7 +65,7 @@ impl Calendar {
 
     /// Returns `true` iff the date is a holiday for the given market
     pub fn is_holiday(&self, date: &Date) -> bool {
-        !self.holiday.is_business_day(date)
+        !self.is_business_day(date)
     }
 
     /// Returns `true` iff the weekday is part of the weekend for the given market.    
-- 
2.43.0


From 0984cf23097af5e90fd1ea0e437f9def48e3f373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:43 +0000
Subject: [PATCH 03/25] fix: coherent ordering, equality and hashing of periods

Comparing with an empty period had its operands reversed, undecidable
comparisons (1M against 30D) were answered by comparing day limits
lexicographically, and equal periods did not hash alike.
---
 src/datetime/period.rs | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/datetime/period.rs b/src/datetime/period.rs
index a7b458b..687fa19 100644
--- a/src/datetime/period.rs
+++ b/src/datetime/period.rs
@@ -3,7 +3,7 @@ use std::{
     ops::{AddAssign, Div, DivAssign, Mul, Neg, SubAssign}, fmt::Debug,
 };
 
-use crate::types::{Integer, Real};
+use crate::types::{BigInteger, Integer, Real};
 
 use crate::datetime::{
     frequency::Frequency, frequency::Frequency::*, timeunit::TimeUnit, timeunit::TimeUnit::*,
@@ -38,14 +38,22 @@ impl Debug for Period {
 
 impl PartialEq for Period {
     fn eq(&self, other: &Self) -> bool {
-        !(self < other || other < self)
+        self.partial_cmp(other) == Some(std::cmp::Ordering::Equal)
     }
 }
 
 impl Hash for Period {
     fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
-        self.length.hash(state);
-        self.unit.hash(state);
+        // periods which compare equal must hash alike, e.g. 1W and 7D, or 1Y and 12M
+        let length = self.length as BigInteger;
+        let (length, unit) = match self.unit {
+            _ if length == 0 => (0, Days),
+            Weeks => (7 * length, Days),
+            Years => (12 * length, Months),
+            unit => (length, unit),
+        };
+        length.hash(state);
+        unit.hash(state);
     }
 }
 
@@ -61,7 +69,7 @@ impl PartialOrd for Period {
             return 0.partial_cmp(&p2.length);
         }
         if p2.length == 0 {
-            return 0.partial_cmp(&p1.length);
+            return p1.length.partial_cmp(&0);
         }
 
         // exact comparisons
@@ -84,7 +92,14 @@ impl PartialOrd for Period {
         // inexact comparisons (handled by converting to days and using limits)
         let p1_lim = p1.days_min_max();
         let p2_lim = p2.days_min_max();
-        p1_lim.partial_cmp(&p2_lim)
+        if p1_lim.1 < p2_lim.0 {
+            Some(std::cmp::Ordering::Less)
+        } else if p1_lim.0 > p2_lim.1 {
+            Some(std::cmp::Ordering::Greater)
+        } else {
+            // undecidable, e.g. 1M and 30D
+            None
+        }
     }
 }
 
@@ -351,13 +366,15 @@ impl Period {
 
     /// Return the minimum and maximum number of days possible with this [Period].
     pub fn days_min_max(&self) -> (Integer, Integer) {
-        match self.unit {
+        let (a, b) = match self.unit {
             Days => (self.length, self.length),
             Weeks => (7 * self.length, 7 * self.length),
             Months => (28 * self.length, 31 * self.length),
             Years => (365 * self.length, 366 * self.length),
             other => panic!("Invalid timeunit: {:?}", other),
-        }
+        };
+        // the limits swap when the length is negative
+        (a.min(b), a.max(b))
     }
 
     /// Return the number of years represented by this [Period].
-- 
2.43.0


From a7e7c30e5bcf937837378cb62f1d0219d044b4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:00 +0000
Subject: [PATCH 04/25] fix: weekends are holidays on the US settlement and
 Libor-impact calendars

The weekend test was joined with ||, so Saturdays and Sundays were business days.
---
 src/datetime/holidays/unitedstates.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime/holidays/unitedstates.rs b/src/datetime/holidays/unitedstates.rs
index d0675e9..6896002 100644
--- a/src/datetime/holidays/unitedstates.rs
+++ b/src/datetime/holidays/unitedstates.rs
@@ -77,7 +77,7 @@ impl UnitedStatesSettlement {
 
     pub fn is_business_day(&self, date: &Date) -> bool {
         let w = date.weekday();
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
@@ -121,7 +121,7 @@ impl UnitedStatesLiborImpact {
             return true;
         }
 
-        self.is_weekend(w) || is_settlement_business_day(date)
+        !self.is_weekend(w) && is_settlement_business_day(date)
     }
 
     pub fn is_weekend(&self, weekday: Weekday) -> bool {
-- 
2.43.0


From 44ee31804c40a6836fb2a30612ab1049e4a60aba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 05/25] fix: IMM::is_imm_code answers false for non-ASCII
 strings instead of panicking

---
 src/datetime/imm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index cd6949b..9b73781 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -55,7 +55,7 @@ impl IMM {
 
     /// Returns whether or not the given `input` string is an IMM code
     pub fn is_imm_code(&self, input: &str, main_cycle: bool) -> bool {
-        if input.len() != 2 {
+        if input.len() != 2 || !input.is_ascii() {
             return false;
         }
         let mut str1 = "0123456789";
-- 
2.43.0


From 3db69ff8b8a63004e73e2ec1e7b07cb35041c948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:25 +0000
Subject: [PATCH 06/25] fix: IMM::date decodes codes ending in 0 against
 reference dates in 1900

1900 is a supported year, so the year must not be pushed to 1910, and the lookup
must not go through the first day of January 1900, which is the null date.
---
 src/datetime/imm.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/datetime/imm.rs b/src/datetime/imm.rs
index 9b73781..6d2bc01 100644
--- a/src/datetime/imm.rs
+++ b/src/datetime/imm.rs
@@ -134,16 +134,11 @@ impl IMM {
         // This cannot panic, since we have already checked abvoe that the code is valid.
         let mut y = code[1..2].parse::<Integer>().unwrap();
 
-        // year < 1900 are not valid QuantLib years: to avoid a run-time
-        // exception few lines below we need to add 10 years right away
-        if y == 0 && reference_date.year() < 1909 {
-            y += 10;
-        }
         let reference_year = reference_date.year() % 10;
         y += reference_date.year() - reference_year;
-        let result = self.next_date(&Date::new(1, month, y), false);
+        let result = Date::nth_weekday(3, Wednesday, month, y);
         if &result < reference_date {
-            return self.next_date(&Date::new(1, month, y + 10), false);
+            return Date::nth_weekday(3, Wednesday, month, y + 10);
         }
         result
     }
-- 
2.43.0


From d462919adb9becdd73dae263a0edaa39986547fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 07/25] fix: the last schedule date is adjusted by the
 termination date convention

---
 src/datetime/schedule.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 0db6400..d38e4a9 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -499,7 +499,10 @@ impl Schedule {
                 && result.rule != DateGenerationRule::CDS2015
             {
                 let len = result.dates.len();
-                result.dates[len - 1] = result.calendar.adjust(result.dates[len - 1], convention);
+                result.dates[len - 1] = result.calendar.adjust(
+                    result.dates[len - 1],
+                    result.termination_date_convention,
+                );
             }
         }
 
-- 
2.43.0


From 0eb903bb513b1a400ac32cbaab27df59ea282456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:32 +0000
Subject: [PATCH 08/25] fix: backward schedules without effective date get the
 placeholder date

---
 src/datetime/schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index d38e4a9..2ba240a 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -121,6 +121,10 @@ impl Schedule {
                 let date_diff_serial = &next_to_last - eval_date;
                 let y = date_diff_serial / 366 + 1;
                 effective_date = next_to_last - Period::new(y, Years);
+            } else {
+                let date_diff_serial = &termination_date - eval_date;
+                let y = date_diff_serial / 366 + 1;
+                effective_date = termination_date - Period::new(y, Years);
             }
         } else {
             assert!(
-- 
2.43.0


From b3b5d002818669ccdeebe4a46fb702fed6f235d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:48 +0000
Subject: [PATCH 09/25] fix: refuse schedules whose first date is later than
 their next-to-last date

---
 src/datetime/schedule.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 2ba240a..1be6228 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -225,6 +225,15 @@ impl Schedule {
             }
         }
 
+        if result.first_date != Date::default() && result.next_to_last_date != Date::default() {
+            assert!(
+                result.first_date <= result.next_to_last_date,
+                "first date ({:?}) later than next to last date ({:?})",
+                result.first_date,
+                result.next_to_last_date
+            );
+        }
+
         // calendar needed for endOfMonth adjustment
         let nil_holiday = NilHoliday::new();
         let mut periods = 1;
-- 
2.43.0


From d1a6e009a272a54984530814bbb16bc47129e7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:51 +0000
Subject: [PATCH 10/25] fix: schedule dates that coincide or cross after
 adjustment appear once, in order

---
 src/datetime/schedule.rs | 42 +++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 1be6228..73bee16 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -519,29 +519,39 @@ impl Schedule {
             }
         }
 
-        // Final safety checks to remove extra next-to-last date, if necessary. It can happen to
-        // be equal or later than the end date due to EOM adjustments (see the Schedule test suite
-        // for an example).
-        if result.dates.len() >= 2
+        // Final safety checks to remove extra dates, if necessary. It can happen that intermediate
+        // dates become equal to or cross an end date, or coincide with each other, due to EOM or
+        // business day adjustments (see the Schedule test suite for an example). The period that
+        // remains is regular only if it was so before and its ends did not move.
+        while result.dates.len() >= 2
             && result.dates[result.dates.len() - 2] >= result.dates[result.dates.len() - 1]
         {
-            // there might be two dates only, then is_regular has size one
-            if result.is_regular.len() >= 2 {
-                let len = result.is_regular.len();
-                result.is_regular[len - 2] =
-                    result.dates[result.dates.len() - 2] == result.dates[result.dates.len() - 1];
-            }
             let len = result.dates.len();
-            result.dates[len - 2] = result.dates[len - 1];
-            result.dates.pop();
+            let equal = result.dates[len - 2] == result.dates[len - 1];
+            result.dates.remove(len - 2);
             result.is_regular.pop();
+            if let Some(last) = result.is_regular.last_mut() {
+                *last = *last && equal;
+            }
         }
 
-        if result.dates.len() >= 2 && result.dates[1] <= result.dates[0] {
-            result.is_regular[1] = result.dates[1] == result.dates[0];
-            result.dates[1] = result.dates[0];
-            result.dates.remove(0); // this is expensive
+        while result.dates.len() >= 2 && result.dates[1] <= result.dates[0] {
+            let equal = result.dates[1] == result.dates[0];
+            result.dates.remove(1); // this is expensive
             result.is_regular.remove(0); // this is expensive
+            if let Some(first) = result.is_regular.first_mut() {
+                *first = *first && equal;
+            }
+        }
+
+        let mut i = 2;
+        while i + 1 < result.dates.len() {
+            if result.dates[i] <= result.dates[i - 1] {
+                result.dates.remove(i);
+                result.is_regular.remove(i - 1);
+            } else {
+                i += 1;
+            }
         }
 
         assert!(
-- 
2.43.0


From 8cd27fbe6f2bd526d04a6d3d3ddbaee8da3b30db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:07 +0000
Subject: [PATCH 11/25] fix: first and next-to-last dates of third-Wednesday
 schedules must lie in range

---
 src/datetime/schedule.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/datetime/schedule.rs b/src/datetime/schedule.rs
index 73bee16..3fddc3c 100644
--- a/src/datetime/schedule.rs
+++ b/src/datetime/schedule.rs
@@ -171,6 +171,13 @@ impl Schedule {
                         "first date ({:?}) is not an IMM date",
                         result.first_date
                     );
+                    assert!(
+                        result.first_date > effective_date && result.first_date <= termination_date,
+                        "first date ({:?}) out of effective-termination date range ({:?}, {:?}]",
+                        result.first_date,
+                        effective_date,
+                        termination_date
+                    );
                 }
                 DateGenerationRule::Zero
                 | DateGenerationRule::Twentieth
@@ -209,6 +216,15 @@ impl Schedule {
                         "next to last date ({:?}) is not an IMM date",
                         result.next_to_last_date
                     );
+                    assert!(
+                        result.next_to_last_date >= effective_date
+                            && result.next_to_last_date < termination_date,
+                        "next to last date ({:?}) out of effective-termination date range \
+                         ({:?}, {:?}]",
+                        result.next_to_last_date,
+                        effective_date,
+                        termination_date
+                    );
                 }
                 DateGenerationRule::Zero
                 | DateGenerationRule::Twentieth
-- 
2.43.0


From 01441aae08ce334aa81af585baeecdb54d3b8095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 12/25] fix: 30/360 and 30/365 day counts of an earlier day of
 month do not overflow

---
 src/datetime/daycounters/thirty360.rs | 10 ++++++----
 src/datetime/daycounters/thirty365.rs |  2 +-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/datetime/daycounters/thirty360.rs b/src/datetime/daycounters/thirty360.rs
index 0e04e88..0a65e4b 100644
--- a/src/datetime/daycounters/thirty360.rs
+++ b/src/datetime/daycounters/thirty360.rs
@@ -215,7 +215,7 @@ impl EU {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -261,7 +261,7 @@ impl IT {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -310,7 +310,9 @@ impl ISDA {
             dd2 = 30;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 as Integer - mm1 as Integer) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1)
+            + 30 * (mm2 as Integer - mm1 as Integer)
+            + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
@@ -353,7 +355,7 @@ impl NASD {
             mm2 += 1;
         }
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
diff --git a/src/datetime/daycounters/thirty365.rs b/src/datetime/daycounters/thirty365.rs
index c6bc9ef..cfc7bd6 100644
--- a/src/datetime/daycounters/thirty365.rs
+++ b/src/datetime/daycounters/thirty365.rs
@@ -29,7 +29,7 @@ impl Thirty365 {
         let yy1 = d1.year();
         let yy2 = d2.year();
 
-        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 - dd1) as Integer
+        360 * (yy2 - yy1) + 30 * (mm2 - mm1) + (dd2 as Integer - dd1 as Integer)
     }
 
     pub fn year_fraction(
-- 
2.43.0


From 3269117171c8d8326edbec070937202a39adcc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:55 +0000
Subject: [PATCH 13/25] fix: Actual/Actual ISMA replaces the last date when the
 first coupon is long

---
 src/datetime/daycounters/actualactual.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 1261a6d..1607766 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -188,7 +188,8 @@ impl ISMA {
                 self.schedule.business_day_convention(),
                 self.schedule.end_of_month(),
             );
-            new_dates[self.schedule.size() - 1] = notional_last_coupon;
+            let last = new_dates.len() - 1;
+            new_dates[last] = notional_last_coupon;
             if notional_last_coupon < *self.schedule.end_date() {
                 let next_notional_coupon = self.schedule.calendar().advance_by_period(
                     notional_last_coupon,
-- 
2.43.0


From 79aa11faaa147d8306d6b3f4d5971f173d07e4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 14/25] fix: Actual/Actual ISDA and AFB stay within the
 supported range

---
 src/datetime/daycounters/actualactual.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datetime/daycounters/actualactual.rs b/src/datetime/daycounters/actualactual.rs
index 1607766..48a2c7c 100644
--- a/src/datetime/daycounters/actualactual.rs
+++ b/src/datetime/daycounters/actualactual.rs
@@ -405,7 +405,7 @@ impl ISDA {
         let dib2 = if Date::is_leap(y2) { 366.0 } else { 365.0 };
 
         let mut sum = (y2 - y1 - 1) as Time;
-        sum += Date::days_between(d1, &Date::new(1, January, y1 + 1)) / dib1;
+        sum += (Date::days_between(d1, &Date::new(31, December, y1)) + 1.0) / dib1;
         sum += Date::days_between(&Date::new(1, January, y2), d2) / dib2;
         sum
     }
@@ -442,7 +442,7 @@ impl AFB {
         let mut new_d2 = *d2;
         let mut temp = *d2;
         let mut sum = 0.0;
-        while &temp > d1 {
+        while &temp > d1 && new_d2.year() > d1.year() {
             temp = new_d2 - Period::new(1, Years);
             if temp.day_of_month() == 28 && temp.month() == February && Date::is_leap(temp.year()) {
                 temp += 1;
-- 
2.43.0


From f6378bfa333023814a7e97343f75eb3bc7d5b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 15/25] fix: rates with OtherFrequency report their frequency
 instead of panicking

---
 src/datetime/frequency.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/datetime/frequency.rs b/src/datetime/frequency.rs
index 591af31..73fab9e 100644
--- a/src/datetime/frequency.rs
+++ b/src/datetime/frequency.rs
@@ -42,6 +42,7 @@ impl From<Integer> for Frequency {
             26 => Self::Biweekly,
             52 => Self::Weekly,
             365 => Self::Daily,
+            999 => Self::OtherFrequency,
             other => panic!("Invalid frequency: {}", other),
         }
     }
-- 
2.43.0


From ebecaf2ab9336765d30f0e6636c87feb17d24134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 16/25] fix: notional and rate setters of FixedRateLeg replace
 the earlier values

---
 src/cashflows/fixedrateleg.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cashflows/fixedrateleg.rs b/src/cashflows/fixedrateleg.rs
index 4377767..35cb880 100644
--- a/src/cashflows/fixedrateleg.rs
+++ b/src/cashflows/fixedrateleg.rs
@@ -51,7 +51,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_notional(mut self, notional: Real) -> Self {
-        self.notionals.resize(1, notional);
+        self.notionals = vec![notional];
         self
     }
 
@@ -67,10 +67,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
-        self.coupon_rates.resize(
-            1,
-            InterestRate::new(rate, daycounter, compounding, frequency),
-        );
+        self.coupon_rates = vec![InterestRate::new(rate, daycounter, compounding, frequency)];
         self
     }
 
@@ -81,6 +78,7 @@ impl FixedRateLeg {
         compounding: Compounding,
         frequency: Frequency,
     ) -> Self {
+        self.coupon_rates.clear();
         for rate in rates {
             let r = InterestRate::new(rate, daycounter.clone(), compounding.clone(), frequency);
             self.coupon_rates.push(r);
@@ -89,7 +87,7 @@ impl FixedRateLeg {
     }
 
     pub fn with_interest_rate(mut self, interest_rate: InterestRate) -> Self {
-        self.coupon_rates.resize(1, interest_rate);
+        self.coupon_rates = vec![interest_rate];
         self
     }
 
-- 
2.43.0


From 931ee37cd45a6039b1f86bcdcf09a4a00170424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:54 +0000
Subject: [PATCH 17/25] fix: cash flows behind shared pointers keep their
 ex-coupon date

---
 src/cashflows/cashflow.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index 2a1e42f..a1a7568 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -146,6 +146,10 @@ where
         (**self).date()
     }
 
+    fn ex_coupon_date(&self) -> Date {
+        (**self).ex_coupon_date()
+    }
+
     fn reference_period_start(&self) -> Date {
         (**self).reference_period_start()
     }
-- 
2.43.0


From 0ecfa7b49624e740f616fcc47b17c73a70c33234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:56 +0000
Subject: [PATCH 18/25] fix: the amount accrued by a coupon trading ex-coupon
 is negative

---
 src/cashflows/fixedratecoupon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cashflows/fixedratecoupon.rs b/src/cashflows/fixedratecoupon.rs
index b9fd397..281d70e 100644
--- a/src/cashflows/fixedratecoupon.rs
+++ b/src/cashflows/fixedratecoupon.rs
@@ -89,7 +89,7 @@ impl CashFlow for FixedRateCoupon {
                 &self.ref_period_start,
                 &self.ref_period_end,
             );
-            self.nominal * (compound_factor - 1.0)
+            -self.nominal * (compound_factor - 1.0)
         } else {
             // usual case
             let compound_factor = self.rate.compound_factor_between_dates(
-- 
2.43.0


From 00cfda79367107ca5d77309c185ef2720de7d5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:59 +0000
Subject: [PATCH 19/25] fix: maturity of a leg covers flows that are not
 coupons

---
 src/cashflows/cashflow.rs        | 8 +++++++-
 src/instruments/fixedratebond.rs | 3 +--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/cashflows/cashflow.rs b/src/cashflows/cashflow.rs
index a1a7568..52ad8a0 100644
--- a/src/cashflows/cashflow.rs
+++ b/src/cashflows/cashflow.rs
@@ -257,7 +257,13 @@ pub fn maturity_date<T: CashFlow>(cashflows: &Vec<T>) -> Date {
     assert!(!cashflows.is_empty(), "Empty cashflows");
     let mut d = Date::default();
     for cf in cashflows {
-        d = d.max(cf.accrual_end_date());
+        let accrual_end_date = cf.accrual_end_date();
+        // only coupons accrue, the others end on the date they are paid
+        d = d.max(if accrual_end_date == Date::default() {
+            cf.date()
+        } else {
+            accrual_end_date
+        });
     }
     d
 }
diff --git a/src/instruments/fixedratebond.rs b/src/instruments/fixedratebond.rs
index 86903f6..cf3963d 100644
--- a/src/instruments/fixedratebond.rs
+++ b/src/instruments/fixedratebond.rs
@@ -12,7 +12,6 @@ use crate::{
         daycounter::DayCounter, frequency::Frequency::*, period::Period, schedule::Schedule,
     },
     maths::comparison::close,
-    pricingengines::bond::bondfunctions,
     rates::{compounding::Compounding::Simple, interestrate::InterestRate},
     types::{Integer, Real},
 };
@@ -239,7 +238,7 @@ impl Bond for FixedRateBond {
     }
 
     fn maturity_date(&self) -> Date {
-        bondfunctions::maturity_date(&self.cashflows)
+        self.maturity_date
     }
 
     fn notional_schedule(&self) -> &Vec<Date> {
-- 
2.43.0


From 18b102ffc02b7161f4af52e3c27a4b6382c78afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:31 +0000
Subject: [PATCH 20/25] fix: the default NewtonSafe solver has an evaluation
 budget

---
 src/maths/solvers1d/newtonsafe.rs | 13 ++++++++++++-
 src/maths/solvers1d/solver1d.rs   |  2 +-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/maths/solvers1d/newtonsafe.rs b/src/maths/solvers1d/newtonsafe.rs
index 8046520..366184c 100644
--- a/src/maths/solvers1d/newtonsafe.rs
+++ b/src/maths/solvers1d/newtonsafe.rs
@@ -3,7 +3,6 @@ use crate::types::{Real, Size};
 use super::solver1d::{private, Solver1D};
 
 /// Newton 1-D solver.
-#[derive(Default)]
 pub struct NewtonSafe {
     lower_bound: Real,
     upper_bound: Real,
@@ -12,6 +11,18 @@ pub struct NewtonSafe {
     max_evaluations: Size,
 }
 
+impl Default for NewtonSafe {
+    fn default() -> Self {
+        Self {
+            lower_bound: Real::default(),
+            upper_bound: Real::default(),
+            lower_bound_enforced: false,
+            upper_bound_enforced: false,
+            max_evaluations: private::MAX_FUNCTION_EVALUATIONS,
+        }
+    }
+}
+
 impl NewtonSafe {
     #[allow(clippy::new_ret_no_self)]
     pub fn new(
diff --git a/src/maths/solvers1d/solver1d.rs b/src/maths/solvers1d/solver1d.rs
index ec57940..29157d4 100644
--- a/src/maths/solvers1d/solver1d.rs
+++ b/src/maths/solvers1d/solver1d.rs
@@ -177,7 +177,7 @@ pub trait Solver1D: private::SolverDetail {
 // -------------------------------------------------------------------------------------------------
 
 pub(crate) mod private {
-    const MAX_FUNCTION_EVALUATIONS: Size = 100;
+    pub const MAX_FUNCTION_EVALUATIONS: Size = 100;
     use crate::types::{Real, Size};
 
     #[derive(Clone, Copy, Default)]
-- 
2.43.0


From 1fb22f18ff926d30af4de816e908e49a2037dae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:33 +0000
Subject: [PATCH 21/25] fix: the last interpolation node belongs to the last
 segment

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 src/maths/interpolations/linearinterpolation.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index 7f7e472..b9ef809 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -108,7 +108,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
     fn locate(&self, x: Real) -> Size {
         if x < self.x[0] {
             0
-        } else if x > self.x[self.x.len() - 1] {
+        } else if x >= self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
             upper_bound(self.x, x) - 1
diff --git a/src/maths/interpolations/linearinterpolation.rs b/src/maths/interpolations/linearinterpolation.rs
index a3f6888..074eaba 100644
--- a/src/maths/interpolations/linearinterpolation.rs
+++ b/src/maths/interpolations/linearinterpolation.rs
@@ -67,7 +67,7 @@ impl<'a> Interpolation for LinearInterpolation<'a> {
     fn locate(&self, x: Real) -> Size {
         if x < self.x[0] {
             0
-        } else if x > self.x[self.x.len() - 1] {
+        } else if x >= self.x[self.x.len() - 1] {
             self.x.len() - 2
         } else {
             upper_bound(self.x, x) - 1
-- 
2.43.0


From 9d40221ce6ba34882acddffbc0174b581688f177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 22/25] fix: Lagrange interpolation reproduces the node at zero

---
 src/maths/interpolations/lagrangeinterpolation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/maths/interpolations/lagrangeinterpolation.rs b/src/maths/interpolations/lagrangeinterpolation.rs
index b9ef809..f4cb751 100644
--- a/src/maths/interpolations/lagrangeinterpolation.rs
+++ b/src/maths/interpolations/lagrangeinterpolation.rs
@@ -84,7 +84,7 @@ impl<'a> Interpolation for LagrangeInterpolation<'a> {
         self.check_range(x, allow_extrapolation);
         let eps = 10.0 * f64::EPSILON * x.abs();
         let lb = lower_bound(self.x, x - eps);
-        if lb != self.x.len() && self.x[lb] - x < eps {
+        if lb != self.x.len() && self.x[lb] - x <= eps {
             return self.y[lb];
         }
         let mut n = 0.0;
-- 
2.43.0


From 5e55aba670e88f998b1eb117aab23317b0f1d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:17 +0000
Subject: [PATCH 23/25] fix: name of the Chinese yuan

---
 src/currencies/asia.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/currencies/asia.rs b/src/currencies/asia.rs
index 85db991..80e2adb 100644
--- a/src/currencies/asia.rs
+++ b/src/currencies/asia.rs
@@ -15,7 +15,7 @@ impl CNYCurrency {
     pub fn new() -> CNYCurrency {
         Self {
             data: CurrencyData::new(
-                "Chinese yean".to_string(),
+                "Chinese yuan".to_string(),
                 "CNY".to_string(),
                 156,
                 "Y".to_string(),
-- 
2.43.0


From f34fa4b7734aaf11b15e37dea7c8ffba2deb8619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:54 +0000
Subject: [PATCH 24/25] fix: FiniteDifferenceNewtonSafe stops only within the
 accuracy of the root

---
 .../solvers1d/finitedifferencenewtonsafe.rs   | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/maths/solvers1d/finitedifferencenewtonsafe.rs b/src/maths/solvers1d/finitedifferencenewtonsafe.rs
index 7a97d69..d817199 100644
--- a/src/maths/solvers1d/finitedifferencenewtonsafe.rs
+++ b/src/maths/solvers1d/finitedifferencenewtonsafe.rs
@@ -86,13 +86,32 @@ impl private::SolverDetail for FiniteDifferenceNewtonSafe {
                 dx = f_root / df_root;
                 sd.root -= dx;
             }
+            f_root = f(sd.root);
+            sd.evaluation_number += 1;
+
             // convergence criterion
             if dx.abs() < accuracy {
-                return sd.root;
+                // A secant over a long interval can be much steeper than the function near its
+                // root, so that a short step alone does not mean that the root is close: look
+                // for the sign change towards the opposite end of the bracket.
+                let end = if f_root < 0.0 { xh } else { xl };
+                let step = accuracy.max(4.0 * f64::EPSILON * sd.root.abs());
+                if f_root == 0.0 || (end - sd.root).abs() <= step {
+                    return sd.root;
+                }
+                let probe = sd.root + step.copysign(end - sd.root);
+                let f_probe = f(probe);
+                sd.evaluation_number += 1;
+                if (f_probe < 0.0) != (f_root < 0.0) {
+                    return sd.root;
+                }
+                root_old = sd.root;
+                f_root_old = f_root;
+                sd.root = probe;
+                f_root = f_probe;
+                dx = xh - xl;
             }
 
-            f_root = f(sd.root);
-            sd.evaluation_number += 1;
             df_root = (f_root_old - f_root) / (root_old - sd.root);
 
             if f_root < 0.0 {
-- 
2.43.0


From 9d2059439365fdb7f636e6d15f77d857859c65d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:35 +0000
Subject: [PATCH 25/25] fix: zero amounts have no sign when a yield is searched
 for

---
 src/cashflows/irrfinder.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cashflows/irrfinder.rs b/src/cashflows/irrfinder.rs
index 4b3ef17..5c8eba3 100644
--- a/src/cashflows/irrfinder.rs
+++ b/src/cashflows/irrfinder.rs
@@ -93,19 +93,23 @@ impl<'a, T: CashFlow> IrrFinder<'a, T> {
         settlement_date: Date,
         include_settlement_date_flows: bool,
     ) {
-        let mut last_sign = (-npv).signum();
+        // an amount of zero has no sign (signum would make it 1, or -1)
+        let sign = |x: Real| if x == 0.0 { 0.0 } else { x.signum() };
+        let mut last_sign = sign(-npv);
         let mut sign_changes = 0;
 
         for cf in cashflows {
             if !cf.has_occurred(&settlement_date, include_settlement_date_flows)
                 && !cf.trading_ex_coupon(settlement_date)
             {
-                let this_sign = cf.amount().signum();
+                let this_sign = sign(cf.amount());
                 if last_sign * this_sign < 0.0 {
                     // sign change
                     sign_changes += 1;
                 }
-                last_sign = this_sign;
+                if this_sign != 0.0 {
+                    last_sign = this_sign;
+                }
             }
         }
 
-- 
2.43.0

