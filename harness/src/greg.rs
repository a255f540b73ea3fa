//! Reference Gregorian calendar: civil-from-days arithmetic on i64, independent of every table of
//! the code under test.  `Ymd` and the serial number are the model's two views of a date.
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::months::Month;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit;

pub const MIN: i32 = 2;
pub const MAX: i32 = 109574;

pub fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
pub fn mlen(y: i32, m: i32) -> i32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        2 => {
            if leap(y) { 29 } else { 28 }
        }
        _ => unreachable!(),
    }
}
/// days from 1970-01-01 (proleptic Gregorian)
fn days_from_civil(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = if y >= 0 { y } else { y - 399 } / 400;
    let yoe = y - era * 400;
    let doy = (153 * (m + if m > 2 { -3 } else { 9 }) + 2) / 5 + d - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146097 + doe - 719468
}
fn civil_from_days(z: i64) -> (i32, i32, i32) {
    let z = z + 719468;
    let era = if z >= 0 { z } else { z - 146096 } / 146097;
    let doe = z - era * 146097;
    let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
    let y = yoe + era * 400;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    ((if m <= 2 { y + 1 } else { y }) as i32, m as i32, d as i32)
}
const OFF: i64 = 25569; // serial of 1970-01-01
/// serial number of a civil date (no range check)
pub fn ser(y: i32, m: i32, d: i32) -> i32 {
    (days_from_civil(y as i64, m as i64, d as i64) + OFF) as i32
}
pub fn ymd(s: i32) -> (i32, i32, i32) {
    civil_from_days(s as i64 - OFF)
}
/// 1 = Sunday ... 7 = Saturday; 1970-01-01 was a Thursday
pub fn wd(s: i32) -> i32 {
    ((s as i64 - OFF + 4).rem_euclid(7) + 1) as i32
}
pub fn doy(s: i32) -> i32 {
    let (y, _, _) = ymd(s);
    s - ser(y, 1, 1) + 1
}
pub fn eom(s: i32) -> i32 {
    let (y, m, _) = ymd(s);
    ser(y, m, mlen(y, m))
}
pub fn is_eom(s: i32) -> bool {
    eom(s) == s
}
pub fn in_range(s: i64) -> bool {
    (MIN as i64..=MAX as i64).contains(&s)
}
/// s shifted by n months, clamped to month end; None when the target month leaves the range
pub fn add_months(s: i32, n: i64) -> Option<i32> {
    let (y, m, d) = ymd(s);
    let t = y as i64 * 12 + (m as i64 - 1) + n;
    let (ny, nm) = (t.div_euclid(12), t.rem_euclid(12) as i32 + 1);
    if !(1900..2200).contains(&ny) {
        return None;
    }
    Some(ser(ny as i32, nm, d.min(mlen(ny as i32, nm))))
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum U {
    D,
    W,
    M,
    Y,
}
pub const UNITS: [U; 4] = [U::D, U::W, U::M, U::Y];
impl U {
    pub fn tu(self) -> TimeUnit {
        match self {
            U::D => TimeUnit::Days,
            U::W => TimeUnit::Weeks,
            U::M => TimeUnit::Months,
            U::Y => TimeUnit::Years,
        }
    }
}
pub fn add(s: i32, n: i64, u: U) -> Option<i32> {
    let r = match u {
        U::D => s as i64 + n,
        U::W => s as i64 + 7 * n,
        U::M => return add_months(s, n),
        U::Y => return add_months(s, 12 * n),
    };
    if in_range(r) { Some(r as i32) } else { None }
}
pub fn per(n: i32, u: U) -> Period {
    Period::new(n, u.tu())
}
pub fn month(m: i32) -> Month {
    Month::from(m)
}
/// The implementation's date for a model serial (the bijection itself is decided by C01).
pub fn dt(s: i32) -> Date {
    Date::from_serial(s)
}
pub fn sers(v: &[Date]) -> Vec<i32> {
    v.iter().map(|d| d.serial_number()).collect()
}
pub fn show(s: i32) -> String {
    let (y, m, d) = ymd(s);
    format!("{:04}-{:02}-{:02}", y, m, d)
}
pub fn nth_weekday(n: i32, w: i32, m: i32, y: i32) -> Option<i32> {
    (1..=mlen(y, m)).map(|d| ser(y, m, d)).filter(|s| wd(*s) == w).nth((n - 1) as usize)
}
