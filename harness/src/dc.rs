//! Reference day counts on model serial numbers.
use crate::greg::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::{actual360::Actual360, actual366::Actual366, one::One, thirty365::Thirty365};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum D {
    Us,
    BondBasis,
    Eu,
    It,
    Isda(i32),
    Nasd,
    T365,
    A360,
    A360Inc,
    A366,
    A366Inc,
    One,
    Simple,
    AaIsda,
    AaAfb,
    AaOldIsma,
}
use D::*;
impl D {
    pub fn make(self) -> DayCounter {
        match self {
            Us => DayCounter::usa(),
            BondBasis => DayCounter::isma(),
            Eu => DayCounter::european(),
            It => DayCounter::italian(),
            Isda(t) => DayCounter::isda(dt(t)),
            Nasd => DayCounter::nasd(),
            T365 => DayCounter::Thirty365(Thirty365::new()),
            A360 => DayCounter::actual360(),
            A360Inc => DayCounter::Actual360(Actual360::with_last_day(true)),
            A366 => DayCounter::Actual366(Actual366::new()),
            A366Inc => DayCounter::Actual366(Actual366::with_last_day(true)),
            D::One => DayCounter::One(One::new()),
            Simple => DayCounter::simple(),
            AaIsda => DayCounter::actual_actual_isda(),
            AaAfb => DayCounter::actual_actual_afb(),
            AaOldIsma => DayCounter::actual_actual_old_isma(),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Us => "30/360 (US)",
            BondBasis => "30/360 (Bond Basis)",
            Eu => "30E/360 (Eurobond Basis)",
            It => "30/360 (Italian)",
            Isda(_) => "30E/360 (ISDA)",
            Nasd => "30/360 (NASD)",
            T365 => "30/365",
            A360 => "Actual/360",
            A360Inc => "Actual/360 (inc)",
            A366 => "Actual/366",
            A366Inc => "Actual/366 (inc)",
            D::One => "1/1",
            Simple => "Simple",
            AaIsda => "Actual/Actual (ISDA)",
            AaAfb => "Actual/Actual (AFB)",
            AaOldIsma => "Actual/Actual (ISMA)",
        }
    }
    pub fn count(self, a: i32, b: i32) -> i32 {
        let ((y1, m1, d1), (y2, m2, d2)) = (ymd(a), ymd(b));
        let feb = |s: i32| ymd(s).1 == 2 && is_eom(s);
        // 30/360 in terms of the replaced (month, day) pairs
        let flat = |m1: i32, d1: i32, m2: i32, d2: i32| 360 * (y2 - y1) + 30 * (m2 - m1) + d2 - d1;
        let cap = |d: i32| d.min(30);
        match self {
            Us => {
                let e1 = if feb(a) { 30 } else { cap(d1) };
                let e2 = if (d2 == 31 && d1 >= 30) || (feb(a) && feb(b)) { 30 } else { d2 };
                flat(m1, e1, m2, e2)
            }
            BondBasis | Simple => flat(m1, cap(d1), m2, if d1 >= 30 { cap(d2) } else { d2 }),
            Eu => flat(m1, cap(d1), m2, cap(d2)),
            It => {
                let f = |m: i32, d: i32| if m == 2 && d >= 28 { 30 } else { cap(d) };
                flat(m1, f(m1, d1), m2, f(m2, d2))
            }
            Isda(t) => flat(m1, if feb(a) { 30 } else { cap(d1) }, m2, if feb(b) && b != t { 30 } else { cap(d2) }),
            Nasd => {
                if d2 == 31 && d1 < 30 {
                    flat(m1, d1, m2 + 1, 1)
                } else {
                    flat(m1, cap(d1), m2, cap(d2))
                }
            }
            T365 => flat(m1, d1, m2, d2),
            A360 | A366 | AaIsda | AaAfb | AaOldIsma => b - a,
            A360Inc | A366Inc => b - a + 1,
            D::One => {
                if b >= a { 1 } else { -1 }
            }
        }
    }
    /// year fraction without a reference period (None: refused)
    pub fn frac(self, a: i32, b: i32) -> Option<f64> {
        let n = self.count(a, b) as f64;
        Some(match self {
            Us | BondBasis | Eu | It | Isda(_) | Nasd => n / 360.0,
            T365 => n / 365.0,
            A360 | A360Inc => n / 360.0,
            A366 | A366Inc => n / 366.0,
            D::One => n,
            Simple => {
                let (d1, d2) = (ymd(a).2, ymd(b).2);
                let whole = d1 == d2 || (d1 > d2 && is_eom(b)) || (d1 < d2 && is_eom(a));
                if whole { months_between(a, b) as f64 / 12.0 } else { n / 360.0 }
            }
            AaIsda => isda(a, b),
            AaAfb => afb(a, b),
            AaOldIsma => return old_isma(a, b, None, None),
        })
    }
}
pub fn months_between(a: i32, b: i32) -> i32 {
    let ((y1, m1, _), (y2, m2, _)) = (ymd(a), ymd(b));
    12 * (y2 - y1) + m2 - m1
}

/// days in leap years over 366 plus the others over 365
pub fn isda(a: i32, b: i32) -> f64 {
    if b < a {
        return -isda(b, a);
    }
    let (y1, y2) = (ymd(a).0, ymd(b).0);
    let (mut l, mut o) = (0, 0);
    for y in y1..=y2 {
        let lo = if y == y1 { a } else { ser(y, 1, 1) };
        let hi = if y == y2 { b } else { ser(y + 1, 1, 1) };
        *(if leap(y) { &mut l } else { &mut o }) += hi - lo;
    }
    // whole numbers of years first, so that the sums stay exact
    (l / 366 + o / 365) as f64 + (l % 366) as f64 / 366.0 + (o % 365) as f64 / 365.0
}

/// k whole years before b, the end of February staying the end of February
fn years_back(b: i32, k: i32) -> i32 {
    let (y, m, d) = ymd(b);
    if m == 2 && d >= 28 {
        if k == 0 { b } else { ser(y - k, 2, mlen(y - k, 2)) }
    } else {
        ser(y - k, m, d)
    }
}
pub fn afb(a: i32, b: i32) -> f64 {
    if b < a {
        return -afb(b, a);
    }
    let mut k = 0;
    while years_back(b, k + 1) >= a {
        k += 1;
    }
    let e = years_back(b, k);
    let (ya, ye) = (ymd(a).0, ymd(e).0);
    let has = [ya, ye].iter().any(|y| leap(*y) && (a..e).contains(&ser(*y, 2, 29)));
    k as f64 + (e - a) as f64 / if has { 366.0 } else { 365.0 }
}

/// Actual/Actual (ISMA) with a reference period: the quasi-coupon grid that extends the reference
/// period in both directions, each piece measured against its own grid period.
pub fn old_isma(a: i32, b: i32, rs: Option<i32>, re: Option<i32>) -> Option<f64> {
    if a == b {
        return Some(0.0);
    }
    if a > b {
        return old_isma(b, a, rs, re).map(|x| -x);
    }
    let (mut rs, mut re) = (rs.unwrap_or(a), re.unwrap_or(b));
    if re <= rs || re <= a {
        return None;
    }
    let mut months = (12.0 * (re - rs) as f64 / 365.0).round() as i32;
    if months == 0 {
        rs = a;
        re = add(a, 1, U::Y)?;
        months = 12;
    }
    if a < rs && b > re {
        return None;
    }
    let per = months as f64 / 12.0;
    let mut grid = vec![rs, re];
    while grid[0] > a {
        let p = add(grid[0], -months as i64, U::M)?;
        grid.insert(0, p);
    }
    let mut k = 1;
    while *grid.last().unwrap() < b {
        grid.push(add(re, (k * months) as i64, U::M)?);
        k += 1;
    }
    Some(over_grid(&grid, a, b, |_, _| per))
}
/// sum over the grid periods meeting [a,b] of the part covered times what a whole period is worth
pub fn over_grid(grid: &[i32], a: i32, b: i32, worth: impl Fn(i32, i32) -> f64) -> f64 {
    grid.windows(2)
        .map(|w| {
            let (lo, hi) = (a.max(w[0]), b.min(w[1]));
            if lo < hi { worth(w[0], w[1]) * (hi - lo) as f64 / (w[1] - w[0]) as f64 } else { 0.0 }
        })
        .sum()
}
pub fn frac(dc: &DayCounter, a: i32, b: i32) -> f64 {
    dc.year_fraction(&dt(a), &dt(b), &Date::default(), &Date::default())
}
