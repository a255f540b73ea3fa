//! Reference calendars: for every market and year the set of closings is *constructed* from its
//! documented rules (the code under test instead tests one date at a time), and easter comes from the
//! computus (the code under test uses tables).
use crate::greg::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::holidays::{
    brazil::Brazil, italy::Italy, japan::Japan, nilholiday::NilHoliday, switzerland::Switzerland, target::Target, unitedkingdom::UnitedKingdom,
    unitedstates::UnitedStates, weekendsonly::WeekendsOnly,
};
use std::collections::BTreeSet;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mk {
    Target,
    UkSettlement,
    UkExchange,
    UkMetals,
    UsSettlement,
    UsLibor,
    UsNyse,
    UsGovBond,
    UsNerc,
    UsFed,
    ItSettlement,
    ItExchange,
    BrSettlement,
    BrExchange,
    Japan,
    Switzerland,
    Weekends,
    Nil,
}
pub use Mk::*;
pub const MARKETS: [Mk; 18] = [
    Target, UkSettlement, UkExchange, UkMetals, UsSettlement, UsLibor, UsNyse, UsGovBond, UsNerc, UsFed, ItSettlement, ItExchange, BrSettlement, BrExchange, Mk::Japan,
    Mk::Switzerland, Weekends, Nil,
];
impl Mk {
    pub fn make(self) -> Calendar {
        match self {
            Mk::Target => Target::new(),
            UkSettlement => UnitedKingdom::new(),
            UkExchange => UnitedKingdom::exchange(),
            UkMetals => UnitedKingdom::metals(),
            UsSettlement => UnitedStates::settlement(),
            UsLibor => UnitedStates::libor_impact(),
            UsNyse => UnitedStates::nyse(),
            UsGovBond => UnitedStates::government_bond(),
            UsNerc => UnitedStates::nerc(),
            UsFed => UnitedStates::federal_reserve(),
            ItSettlement => Italy::new(),
            ItExchange => Italy::exchange(),
            BrSettlement => Brazil::new(),
            BrExchange => Brazil::exchange(),
            Mk::Japan => Japan::new(),
            Mk::Switzerland => Switzerland::new(),
            Weekends => WeekendsOnly::new(),
            Nil => NilHoliday::new(),
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Mk::Target => "TARGET",
            UkSettlement => "UK settlement",
            UkExchange => "London stock exchange",
            UkMetals => "London metals exchange",
            UsSettlement => "US settlement",
            UsLibor => "US with Libor impact",
            UsNyse => "New York stock exchange",
            UsGovBond => "US government bond market",
            UsNerc => "North American Energy Reliability Council",
            UsFed => "Federal Reserve Bankwire System",
            ItSettlement => "Italian settlement",
            ItExchange => "Milan stock exchange",
            BrSettlement => "Brazil",
            BrExchange => "BOVESPA",
            Mk::Japan => "Japan",
            Mk::Switzerland => "Switzerland",
            Weekends => "weekends only",
            Nil => "Null",
        }
    }
}

/// western Easter Sunday (anonymous Gregorian computus)
pub fn easter(y: i32) -> i32 {
    let (a, b, c) = (y % 19, y / 100, y % 100);
    let (d, e) = (b / 4, b % 4);
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let (i, k) = (c / 4, c % 4);
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    let n = h + l - 7 * m + 114;
    ser(y, n / 31, n % 31 + 1)
}
/// orthodox Easter Sunday (Meeus' Julian computus, carried to the Gregorian calendar)
pub fn easter_orthodox(y: i32) -> i32 {
    let (a, b, c) = (y % 4, y % 7, y % 19);
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let n = d + e + 114;
    let shift = y / 100 - y / 400 - 2;
    ser(y, n / 31, n % 31 + 1) + shift
}

struct Year {
    y: i32,
    set: BTreeSet<i32>,
}
const SUN: i32 = 1;
const MON: i32 = 2;
const TUE: i32 = 3;
const WED: i32 = 4;
const THU: i32 = 5;
const SAT: i32 = 7;
impl Year {
    fn on(&mut self, m: i32, d: i32) -> &mut Self {
        self.set.insert(ser(self.y, m, d));
        self
    }
    fn on_if(&mut self, c: bool, m: i32, d: i32) -> &mut Self {
        if c {
            self.on(m, d);
        }
        self
    }
    /// observed the following Monday when on a Sunday
    fn sun_to_mon(&mut self, m: i32, d: i32) -> &mut Self {
        self.on(m, d);
        let s = ser(self.y, m, d);
        if wd(s) == SUN {
            self.set.insert(s + 1);
        }
        self
    }
    /// observed Monday when on a Sunday, Friday when on a Saturday
    fn weekend_to_nearest(&mut self, m: i32, d: i32) -> &mut Self {
        self.sun_to_mon(m, d);
        let s = ser(self.y, m, d);
        if wd(s) == SAT {
            self.set.insert(s - 1);
        }
        self
    }
    fn nth(&mut self, n: i32, w: i32, m: i32) -> &mut Self {
        self.set.insert(nth_weekday(n, w, m, self.y).unwrap());
        self
    }
    fn last(&mut self, w: i32, m: i32) -> &mut Self {
        let e = ser(self.y, m, mlen(self.y, m));
        self.set.insert((0..7).map(|k| e - k).find(|s| wd(*s) == w).unwrap());
        self
    }
    /// offset in days from Easter Sunday
    fn easter(&mut self, k: i32) -> &mut Self {
        self.set.insert(easter(self.y) + k);
        self
    }
}

fn us_common(h: &mut Year) {
    let y = h.y;
    if y >= 1971 {
        h.nth(3, MON, 2).last(MON, 5);
    } else {
        h.weekend_to_nearest(2, 22).weekend_to_nearest(5, 30);
    }
    h.nth(1, MON, 9).nth(4, THU, 11);
    if y >= 2022 {
        h.weekend_to_nearest(6, 19);
    }
}
fn columbus(h: &mut Year) {
    if h.y >= 1971 {
        h.nth(2, MON, 10);
    }
}
fn veterans(h: &mut Year, saturday_to_friday: bool) {
    if h.y <= 1970 || h.y >= 1978 {
        if saturday_to_friday {
            h.weekend_to_nearest(11, 11);
        } else {
            h.sun_to_mon(11, 11);
        }
    } else {
        h.nth(4, MON, 10);
    }
}
fn us_settlement(h: &mut Year) {
    let y = h.y;
    h.sun_to_mon(1, 1);
    // next New Year's Day on a Saturday is observed on December 31st
    if wd(ser(y, 12, 31) + 1) == SAT {
        h.on(12, 31);
    }
    if y >= 1983 {
        h.nth(3, MON, 1);
    }
    us_common(h);
    h.weekend_to_nearest(7, 4).weekend_to_nearest(12, 25);
    columbus(h);
    veterans(h, true);
}

/// all closings of a market in a year, weekends excepted
pub fn closings(mk: Mk, y: i32) -> BTreeSet<i32> {
    let mut year = Year { y, set: BTreeSet::new() };
    let h = &mut year;
    match mk {
        Mk::Target => {
            h.on(1, 1).on(12, 25);
            if y >= 2000 {
                h.easter(-2).easter(1).on(5, 1).on(12, 26);
            }
            h.on_if([1998, 1999, 2001].contains(&y), 12, 31);
        }
        UkSettlement | UkExchange | UkMetals => {
            h.on(1, 1).easter(-2).easter(1);
            match wd(ser(y, 1, 1)) {
                SUN => h.on(1, 2),
                SAT => h.on(1, 3),
                _ => h,
            };
            if y == 1995 || y == 2020 {
                h.on(5, 8);
            } else {
                h.nth(1, MON, 5);
            }
            match y {
                2002 => h.on(6, 3).on(6, 4),
                2012 => h.on(6, 4).on(6, 5),
                2022 => h.on(6, 2).on(6, 3),
                _ => h.last(MON, 5),
            };
            h.last(MON, 8);
            h.on_if(y == 2011, 4, 29).on_if(y == 2022, 9, 19).on_if(y == 2023, 5, 8);
            h.on(12, 25).on(12, 26);
            match wd(ser(y, 12, 25)) {
                SAT => h.on(12, 27).on(12, 28), // Mon and Tue
                SUN => h.on(12, 27),            // Boxing Day is the Monday
                6 => h.on(12, 28),              // Boxing Day on a Saturday
                _ => h,
            };
            h.on_if(y == 1999, 12, 31);
        }
        UsSettlement => us_settlement(h),
        UsLibor => {
            us_settlement(h);
            if y >= 2015 {
                // since 2015 Independence Day is not moved to a neighbouring weekday
                for d in [3, 5] {
                    let s = ser(y, 7, d);
                    if !matches!(wd(s), SUN | SAT) {
                        h.set.remove(&s);
                    }
                }
            }
        }
        UsNyse => {
            h.sun_to_mon(1, 1).easter(-2);
            us_common(h);
            h.weekend_to_nearest(7, 4).weekend_to_nearest(12, 25);
            if y >= 1998 {
                h.nth(3, MON, 1);
            }
            if y <= 1968 || (y <= 1980 && y % 4 == 0) {
                h.nth(1, TUE, 11);
            }
            for (yy, m, d) in [
                (2018, 12, 5), (2012, 10, 29), (2012, 10, 30), (2007, 1, 2), (2004, 6, 11), (2001, 9, 11), (2001, 9, 12), (2001, 9, 13), (2001, 9, 14), (1994, 4, 27),
                (1985, 9, 27), (1977, 7, 14), (1973, 1, 25), (1972, 12, 28), (1969, 7, 21), (1969, 3, 31), (1969, 2, 10), (1968, 7, 5), (1968, 4, 9), (1963, 11, 25),
                (1961, 5, 29), (1958, 12, 26), (1954, 12, 24), (1956, 12, 24), (1965, 12, 24),
            ] {
                h.on_if(y == yy, m, d);
            }
            if y == 1968 {
                // four-day week from June 12th
                let mut s = ser(1968, 6, 12);
                while s <= ser(1968, 12, 31) {
                    assert_eq!(wd(s), WED);
                    h.set.insert(s);
                    s += 7;
                }
            }
        }
        UsGovBond => {
            h.sun_to_mon(1, 1);
            if y >= 1983 {
                h.nth(3, MON, 1);
            }
            if y != 2015 {
                h.easter(-2);
            }
            us_common(h);
            h.weekend_to_nearest(7, 4).weekend_to_nearest(12, 25);
            columbus(h);
            veterans(h, false);
            h.on_if(y == 2018, 12, 5).on_if(y == 2012, 10, 30).on_if(y == 2004, 6, 11);
        }
        UsNerc => {
            h.sun_to_mon(1, 1).sun_to_mon(7, 4).sun_to_mon(12, 25).nth(1, MON, 9).nth(4, THU, 11);
            if y >= 1971 {
                h.last(MON, 5);
            } else {
                h.weekend_to_nearest(5, 30);
            }
        }
        UsFed => {
            h.sun_to_mon(1, 1).sun_to_mon(7, 4).sun_to_mon(12, 25);
            if y >= 1983 {
                h.nth(3, MON, 1);
            }
            us_common(h);
            columbus(h);
            veterans(h, false);
        }
        ItSettlement => {
            h.on(1, 1).on(1, 6).easter(1).on(4, 25).on(5, 1).on(8, 15).on(11, 1).on(12, 8).on(12, 25).on(12, 26);
            h.on_if(y >= 2000, 6, 2).on_if(y == 1999, 12, 31);
        }
        ItExchange => {
            h.on(1, 1).easter(-2).easter(1).on(5, 1).on(8, 15).on(12, 24).on(12, 25).on(12, 26).on(12, 31);
        }
        BrSettlement | BrExchange => {
            h.on(1, 1).on(4, 21).on(5, 1).on(9, 7).on(10, 12).on(11, 2).on(11, 15).on(12, 25);
            h.easter(-2).easter(-48).easter(-47).easter(60); // Passion of Christ, Carnival, Corpus Christi
            if mk == BrExchange {
                h.on(1, 25).on(7, 9).on(12, 24).on_if(y >= 2007, 11, 20);
                // the last business day of the year
                match wd(ser(y, 12, 31)) {
                    SUN => h.on(12, 29),
                    SAT => h.on(12, 30),
                    _ => h.on(12, 31),
                };
            }
        }
        Mk::Japan => {
            h.on(1, 1).on(1, 2).on(1, 3).on(12, 31).sun_to_mon(2, 11).sun_to_mon(4, 29).sun_to_mon(11, 3).sun_to_mon(11, 23).on(5, 3).on(5, 4).on(5, 5);
            if [3, 4, 5].iter().any(|d| wd(ser(y, 5, *d)) == SUN) {
                h.on(5, 6);
            }
            if y >= 2000 {
                h.nth(2, MON, 1);
            } else {
                h.sun_to_mon(1, 15);
            }
            if y >= 2020 {
                h.sun_to_mon(2, 23);
            }
            if (1989..2019).contains(&y) {
                h.sun_to_mon(12, 23);
            }
            let drift = (y - 2000) as f64 * 0.242194;
            let leaps = ((y - 2000) / 4 + (y - 2000) / 100 - (y - 2000) / 400) as f64;
            let ve = (20.69115 + drift - leaps) as i32;
            let ae = (23.09 + drift - leaps) as i32;
            h.sun_to_mon(3, ve).sun_to_mon(9, ae);
            match y {
                1996..=2002 => h.sun_to_mon(7, 20),
                2020 => h.on(7, 23),
                2021 => h.on(7, 22),
                _ if y >= 2003 => h.nth(3, MON, 7),
                _ => h,
            };
            match y {
                2020 => h.on(8, 10),
                2021 => h.on(8, 9),
                _ if y >= 2016 => h.sun_to_mon(8, 11),
                _ => h,
            };
            if y >= 2003 {
                h.nth(3, MON, 9);
                // a single day between Respect for the Aged Day (3rd Monday) and the equinox
                let aged = nth_weekday(3, MON, 9, y).unwrap();
                if aged + 2 == ser(y, 9, ae) {
                    h.set.insert(aged + 1);
                }
            } else {
                h.sun_to_mon(9, 15);
            }
            match y {
                2020 => h.on(7, 24),
                2021 => h.on(7, 23),
                _ if y >= 2000 => h.nth(2, MON, 10),
                _ => h.sun_to_mon(10, 10),
            };
            for (yy, m, d) in [(1959, 4, 10), (1989, 2, 24), (1990, 11, 12), (1993, 6, 9), (2019, 4, 30), (2019, 5, 1), (2019, 5, 2), (2019, 10, 22)] {
                h.on_if(y == yy, m, d);
            }
        }
        Mk::Switzerland => {
            h.on(1, 1).on(1, 2).easter(-2).easter(1).easter(39).easter(50).on(5, 1).on(8, 1).on(12, 25).on(12, 26);
        }
        Weekends | Nil => {}
    }
    year.set
}

/// model calendar: business-day bit per serial number
#[derive(Clone)]
pub struct Cal {
    pub mk: Mk,
    base: Arc<Vec<bool>>,
    added: BTreeSet<i32>,
    removed: BTreeSet<i32>,
}
fn base(mk: Mk) -> Arc<Vec<bool>> {
    static C: OnceLock<Vec<Arc<Vec<bool>>>> = OnceLock::new();
    C.get_or_init(|| {
        MARKETS
            .iter()
            .map(|mk| {
                let mut v: Vec<bool> = (0..=MAX).map(|s| *mk == Nil || !matches!(wd(s), SUN | SAT)).collect();
                for y in 1900..2200 {
                    for s in closings(*mk, y) {
                        v[s as usize] = false;
                    }
                }
                Arc::new(v)
            })
            .collect()
    })[MARKETS.iter().position(|m| *m == mk).unwrap()]
    .clone()
}
impl Cal {
    pub fn new(mk: Mk) -> Cal {
        Cal { mk, base: base(mk), added: BTreeSet::new(), removed: BTreeSet::new() }
    }
    pub fn weekend(&self, w: i32) -> bool {
        self.mk != Nil && (w == SUN || w == SAT)
    }
    pub fn base_bd(&self, s: i32) -> bool {
        self.base[s as usize]
    }
    pub fn bd(&self, s: i32) -> bool {
        if self.added.contains(&s) {
            return false;
        }
        if self.removed.contains(&s) {
            return true;
        }
        self.base[s as usize]
    }
    pub fn add(&mut self, s: i32) {
        self.removed.remove(&s);
        if self.base_bd(s) {
            self.added.insert(s);
        }
    }
    pub fn remove(&mut self, s: i32) {
        self.added.remove(&s);
        if !self.base_bd(s) {
            self.removed.insert(s);
        }
    }
    pub fn reset(&mut self) {
        self.added.clear();
        self.removed.clear();
    }
    pub fn edits(&self) -> (Vec<i32>, Vec<i32>) {
        (self.added.iter().cloned().collect(), self.removed.iter().cloned().collect())
    }
    fn next_bd(&self, mut s: i32) -> Option<i32> {
        while s <= MAX {
            if self.bd(s) {
                return Some(s);
            }
            s += 1;
        }
        None
    }
    fn prev_bd(&self, mut s: i32) -> Option<i32> {
        while s >= MIN {
            if self.bd(s) {
                return Some(s);
            }
            s -= 1;
        }
        None
    }
    /// None when the answer would lie outside the supported range
    pub fn adjust(&self, s: i32, c: B) -> Option<i32> {
        if c == B::Unadjusted || self.bd(s) {
            return Some(s);
        }
        let (y, m, d) = ymd(s);
        let same_month = |t: i32| {
            let (ty, tm, _) = ymd(t);
            (ty, tm) == (y, m)
        };
        match c {
            B::Following => self.next_bd(s),
            B::Preceding => self.prev_bd(s),
            B::ModifiedFollowing => {
                let t = self.next_bd(s)?;
                if same_month(t) { Some(t) } else { self.prev_bd(s) }
            }
            B::HalfMonthModifiedFollowing => {
                let t = self.next_bd(s)?;
                if same_month(t) && !(d <= 15 && ymd(t).2 > 15) { Some(t) } else { self.prev_bd(s) }
            }
            B::ModifiedPreceding => {
                let t = self.prev_bd(s)?;
                if same_month(t) { Some(t) } else { self.next_bd(s) }
            }
            B::Nearest => {
                let mut k = 1;
                loop {
                    if !in_range(s as i64 + k as i64) || !in_range(s as i64 - k as i64) {
                        return None;
                    }
                    if self.bd(s + k) {
                        return Some(s + k);
                    }
                    if self.bd(s - k) {
                        return Some(s - k);
                    }
                    k += 1;
                }
            }
            B::Unadjusted => Some(s),
        }
    }
    /// last business day of the month
    pub fn last_bd(&self, s: i32) -> Option<i32> {
        self.prev_bd(eom(s))
    }
    pub fn is_eom(&self, s: i32) -> Option<bool> {
        let last = self.last_bd(s)?;
        Some(s >= last)
    }
    pub fn advance(&self, s: i32, n: i32, u: U, c: B, end: bool) -> Option<i32> {
        if n == 0 {
            return self.adjust(s, c);
        }
        if u == U::D {
            let mut t = s;
            for _ in 0..n.abs() {
                t = if n > 0 { self.next_bd(t + 1)? } else { self.prev_bd(t - 1)? };
            }
            return Some(t);
        }
        let t = add(s, n as i64, u)?;
        if end && (u == U::M || u == U::Y) && self.is_eom(s)? {
            return self.last_bd(t);
        }
        self.adjust(t, c)
    }
    pub fn between(&self, a: i32, b: i32, first: bool, last: bool) -> i32 {
        if a == b {
            return (first && last && self.bd(a)) as i32;
        }
        let (lo, hi) = (a.min(b), a.max(b));
        let n = (lo + 1..hi).filter(|s| self.bd(*s)).count() as i32 + (first && self.bd(a)) as i32 + (last && self.bd(b)) as i32;
        if a < b { n } else { -n }
    }
}
pub const CONV: [B; 7] = [B::Following, B::ModifiedFollowing, B::Preceding, B::ModifiedPreceding, B::Unadjusted, B::HalfMonthModifiedFollowing, B::Nearest];
