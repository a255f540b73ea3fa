//! C35-C38: identities that hold across parts of the library: day counters as values, curves queried by
//! date and by period, numbers and texts standing for values, and the existence of a yield.
use super::legs::{value, Fl};
use super::rates::{COMPS, FREQS};
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use crate::sched::{Spec, NULL};
use crate::hol::Mk;
use rust_quantlib::cashflows::cashflow::{self, CashFlowLeg};
use rust_quantlib::cashflows::irrfinder::IrrFinder;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::{actual360::Actual360, actual366::Actual366, actualactual::ActualActual, one::One, simple::Simple, thirty360, thirty365::Thirty365};
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::datetime::months::Month;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit;
use rust_quantlib::datetime::weekday::Weekday;
use rust_quantlib::datetime::weekend::{NilWeekend, OrthodoxWeekend, Weekend, WesternWeekend};
use rust_quantlib::datetime::{date::Date, time_to_days, time_to_days_with_days_per_year};
use rust_quantlib::maths::solvers1d::{newtonsafe::NewtonSafe};
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;
use rust_quantlib::termstructures::{termstructure::TermStructure, yieldtermstructure::YieldTermStructure};
use rust_quantlib::types::{Integer, Natural, Real, Size};
use std::cell::Cell;

fn t(y: i32, m: i32, d: i32) -> i32 {
    ser(y, m, d)
}
fn null() -> Date {
    Date::default()
}

// ------------------------------------------------------------------------------------------------

/// one way of obtaining a day counter, with its convention
fn counters() -> Vec<(String, D, DayCounter)> {
    let term = t(2024, 2, 29);
    let mut v: Vec<(String, D, DayCounter)> = vec![];
    for d in [D::Us, D::BondBasis, D::Eu, D::It, D::Isda(term), D::Nasd, D::T365, D::A360, D::A360Inc, D::A366, D::A366Inc, D::One, D::Simple, D::AaIsda, D::AaAfb, D::AaOldIsma] {
        v.push((format!("{:?}", d), d, d.make()));
    }
    let mut add = |n: &str, d: D, c: DayCounter| v.push((n.to_string(), d, c));
    add("bond_basis()", D::BondBasis, DayCounter::bond_basis());
    add("euro_bond_basis()", D::Eu, DayCounter::euro_bond_basis());
    add("german(t)", D::Isda(term), DayCounter::german(dt(term)));
    add("Actual360::default", D::A360, DayCounter::Actual360(Actual360::default()));
    add("Actual360 without last day", D::A360, DayCounter::Actual360(Actual360::with_last_day(false)));
    add("Actual366::default", D::A366, DayCounter::Actual366(Actual366::default()));
    add("Actual366 without last day", D::A366, DayCounter::Actual366(Actual366::with_last_day(false)));
    add("One::default", D::One, DayCounter::One(One::default()));
    add("Simple::default", D::Simple, DayCounter::Simple(Simple::default()));
    add("Thirty365::default", D::T365, DayCounter::Thirty365(Thirty365::default()));
    v
}

pub fn c35(ctx: &Ctx) {
    let cs = counters();
    let mut days: Vec<i32> = vec![t(1968, 2, 29), t(1999, 12, 31), t(2000, 2, 28), t(2000, 2, 29), t(2000, 3, 1), t(2003, 2, 28), t(2023, 8, 30), t(2023, 8, 31), t(2100, 2, 28), t(2100, 3, 1), t(2024, 1, 15), t(2024, 2, 28), t(2024, 2, 29), t(2025, 2, 27), t(2025, 2, 28), t(2025, 3, 31)];
    days.extend((0..ctx.pick(70, 500)).map(|k| t(2022, 12, 25) + k * 3));
    ctx.bound(format!("{} ways of obtaining the 16 conventions x all ordered pairs of them; each with its copy over all ordered pairs of {} dates", cs.len(), days.len()));
    let sch = Spec::new(t(2020, 1, 15), t(2030, 1, 15), 6, U::M, Mk::Nil).make();
    let mut all: Vec<(String, &'static str, DayCounter)> = cs.iter().map(|(n, d, c)| (n.clone(), d.name(), c.clone())).collect();
    all.push(("ISMA with a schedule".into(), "Actual/Actual (ISMA)", DayCounter::actual_actual_isma(sch)));
    all.push(("ISDA 30/360 to another date".into(), "30E/360 (ISDA)", DayCounter::isda(dt(t(2031, 5, 5)))));
    for (n, name, c) in &all {
        at(n.clone());
        ctx.eq(|| format!("name of {}", n), Ok((name.to_string(), name.to_string(), name.to_string())), call(|| (c.name(), format!("{:?}", c), c.clone().name())));
        for (m, other, o) in &all {
            let same = name == other;
            ctx.eq(|| format!("{} compared with {} (==, !=, copy ==)", n, m), Ok((same, !same, same)), call(|| (c == o, c != o, c.clone() == o.clone())));
            ctx.tr(1);
        }
        ctx.st(1);
        ctx.val(1);
    }
    let total = cs.len();
    let per_thread = each(counters);
    ctx.par(total, |i| {
        let cs = per_thread.get();
        let (n, d, c) = &cs[i];
        at(n.clone());
        let copy = c.clone();
        for &a in &days {
            for &b in &days {
                ctx.eq(|| format!("{} days {} to {} (original, copy)", n, show(a), show(b)), (Ok(d.count(a, b)), Ok(d.count(a, b))), (call(|| c.day_count(&dt(a), &dt(b))), call(|| copy.day_count(&dt(a), &dt(b)))));
                let (x, y) = (call(|| c.year_fraction(&dt(a), &dt(b), &null(), &null())), call(|| copy.year_fraction(&dt(a), &dt(b), &null(), &null())));
                ctx.ok(|| format!("{} fraction {} to {}: original {:?}, copy {:?}", n, show(a), show(b), x, y), "the same", match (&x, &y) {
                    (Ok(x), Ok(y)) => x == y,
                    (Err(_), Err(_)) => true,
                    _ => false,
                });
                if let (Some(w), false) = (d.frac(a, b), *d == D::AaOldIsma) {
                    ctx.close(|| format!("{} fraction {} to {}", n, show(a), show(b)), w, x, 1e-12);
                }
                // the conventions behind the common type
                let own: Option<(Out<i32>, Out<f64>)> = match c {
                    DayCounter::Thirty360(k) => Some((call(|| k.day_count(&dt(a), &dt(b))), call(|| k.year_fraction(&dt(a), &dt(b), &null(), &null())))),
                    DayCounter::ActualActual(k) => Some((call(|| k.day_count(&dt(a), &dt(b))), call(|| k.year_fraction(&dt(a), &dt(b), &null(), &null())))),
                    DayCounter::Actual360(k) => Some((call(|| k.day_count(&dt(a), &dt(b))), call(|| k.year_fraction(&dt(a), &dt(b), &null(), &null())))),
                    DayCounter::Actual366(k) => Some((call(|| k.day_count(&dt(a), &dt(b))), call(|| k.year_fraction(&dt(a), &dt(b), &null(), &null())))),
                    DayCounter::One(k) => Some((call(|| k.day_count(&dt(a), &dt(b))), call(|| k.year_fraction(&dt(a), &dt(b), &null(), &null())))),
                    DayCounter::Simple(k) => Some((call(|| k.day_count(&dt(a), &dt(b))), call(|| k.year_fraction(&dt(a), &dt(b), &null(), &null())))),
                    DayCounter::Thirty365(k) => Some((call(|| k.day_count(&dt(a), &dt(b))), call(|| k.year_fraction(&dt(a), &dt(b), &null(), &null())))),
                };
                let via = (call(|| c.day_count(&dt(a), &dt(b))), call(|| c.year_fraction(&dt(a), &dt(b), &null(), &null())));
                ctx.ok(|| format!("{} {} to {}: {:?} directly, {:?} through DayCounter", n, show(a), show(b), own, via), "the same", own.map_or(true, |o| o == via));
                ctx.tr(6);
            }
        }
        ctx.st(days.len() as u64);
        ctx.val(days.len() as u64);
    });
    // the two names of 30E/360 (ISDA), with every date as the termination date
    ctx.par(days.len(), |i| {
        let x = days[i];
        at(format!("30E/360 (ISDA) to {}", show(x)));
        let (p, q) = (DayCounter::isda(dt(x)), DayCounter::german(dt(x)));
        for (k, &a) in days.iter().enumerate() {
            for &b in days[..22].iter().chain([x, a].iter()) {
                if k % 3 == 0 || k < 22 {
                    let w = D::Isda(x).count(a, b);
                    ctx.eq(|| format!("30E/360 (ISDA) to {}: {} to {} under both names", show(x), show(a), show(b)), (Ok(w), Ok(w)), (call(|| p.day_count(&dt(a), &dt(b))), call(|| q.day_count(&dt(a), &dt(b)))));
                }
            }
        }
        ctx.tr(days.len() as u64 * 16);
        ctx.st(1);
    });
    // the conventions of the two families as types of their own
    let names = call(|| (thirty360::US {}.name(), thirty360::ISMA {}.name(), thirty360::EU {}.name(), thirty360::IT {}.name(), thirty360::ISDA { termination_date: dt(t(2024, 2, 29)) }.name(), thirty360::NASD {}.name(), ActualActual::actual_actual_old_isma().name()));
    let w = |d: D| d.name().to_string();
    ctx.eq(|| "names of the convention types".into(), Ok((w(D::Us), w(D::BondBasis), w(D::Eu), w(D::It), w(D::Isda(0)), w(D::Nasd), w(D::AaOldIsma))), names);
    ctx.sample(|| "german(2024-02-29) == isda(2024-02-29), named 30E/360 (ISDA)".into());
}

// ------------------------------------------------------------------------------------------------

/// A curve that answers with its question: the discount factor and the forward rate encode every argument.
struct Echo {
    refd: i32,
    d: D,
    asked: Cell<(f64, bool)>,
}
impl TermStructure for Echo {
    fn time_from_references(&self, date: &Date) -> f64 {
        self.d.make().year_fraction(&dt(self.refd), date, &null(), &null())
    }
    fn max_date(&self) -> Date {
        dt(self.refd + 20_000)
    }
    fn max_time(&self) -> f64 {
        50.0
    }
    fn reference_date(&self) -> Date {
        dt(self.refd)
    }
    fn settlement_days(&self) -> Natural {
        2
    }
}
impl YieldTermStructure for Echo {
    fn discount_frome_time(&self, time: f64, extrapolate: bool) -> f64 {
        self.asked.set((time, extrapolate));
        (-0.03 * time).exp() + if extrapolate { 10.0 } else { 0.0 }
    }
    fn zero_rate_from_date(&self, _: &Date, dc: &DayCounter, c: C, f: F, _: bool) -> InterestRate {
        InterestRate::new(-1.0, dc.clone(), c, f)
    }
    fn zero_rate_from_time(&self, _: f64, c: C, f: F, _: bool) -> InterestRate {
        InterestRate::new(-2.0, self.d.make(), c, f)
    }
    fn forward_rate_from_dates(&self, d1: &Date, d2: &Date, dc: &DayCounter, c: C, f: F, extrapolate: bool) -> InterestRate {
        let r = d1.serial_number() as f64 + d2.serial_number() as f64 * 1e6 + if extrapolate { 0.5 } else { 0.0 };
        InterestRate::new(r, dc.clone(), c, f)
    }
    fn forward_rate_from_times(&self, _: f64, _: f64, c: C, f: F, _: bool) -> InterestRate {
        InterestRate::new(-3.0, self.d.make(), c, f)
    }
    fn jump_dates(&self) -> Vec<Date> {
        vec![]
    }
    fn jump_times(&self) -> Vec<f64> {
        vec![]
    }
}

pub fn c36(ctx: &Ctx) {
    let refs = [t(2023, 1, 31), t(2024, 2, 29), t(1999, 12, 31), t(1923, 6, 30), t(2087, 9, 1)];
    let mut periods: Vec<(i32, U)> = vec![];
    for n in ctx.pick(vec![0, 1, 2, 3, 6, 7, 11, 12, 13, 24, 29, 30, 31, 90, 366], (0..=400).collect()) {
        for u in [U::D, U::W, U::M, U::Y] {
            if u != U::Y || n <= 100 {
                periods.push((n, u));
            }
        }
    }
    let days: Vec<i32> = (0..ctx.pick(800, 3000)).map(|k| k - 10).collect();
    let dcs = [D::A360, D::AaIsda, D::BondBasis, D::Simple, D::A366];
    ctx.bound(format!("{} reference dates x {} day counters x {} dates (10 before to {} after) x both extrapolation flags; forwards over {} periods x compounding x frequency x result day counter", refs.len(), dcs.len(), days.len(), days.len() - 10, periods.len()));
    ctx.par(refs.len() * days.len(), |i| {
        let (r, k) = (refs[i % refs.len()], days[i / refs.len()]);
        let day = r + k;
        at(format!("curve of {} asked on {}", show(r), show(day)));
        for d in dcs {
            let e = Echo { refd: r, d, asked: Cell::new((0.0, false)) };
            let time = d.frac(r, day).unwrap();
            for x in [false, true] {
                let got = call(|| e.discount_from_date(&dt(day), x));
                let dy: &dyn YieldTermStructure = &e;
                let again = call(|| dy.discount_from_date(&dt(day), x));
                let w = (-0.03 * time).exp() + if x { 10.0 } else { 0.0 };
                ctx.close(|| format!("discount on {} of a curve from {} by {:?}, extrapolate={}", show(day), show(r), d, x), w, got.clone(), 1e-13);
                ctx.ok(|| format!("discount on {} asked again", show(day)), "the same", again == got);
                let (ta, xa) = e.asked.get();
                ctx.ok(|| format!("curve from {} was asked for time {} flag {} instead of {} {}", show(r), ta, xa, time, x), "the time of the date", feq(ta, time, 1e-13) && xa == x);
                ctx.tr(2);
            }
            ctx.st(1);
            ctx.val(4);
        }
        for (pi, &(n, u)) in periods.iter().enumerate() {
            let e = Echo { refd: r, d: dcs[pi % dcs.len()], asked: Cell::new((0.0, false)) };
            let (c, f, d) = (&COMPS[(pi + i) % COMPS.len()], FREQS[2 + (pi + i / 7) % (FREQS.len() - 2)], dcs[(pi / 3 + i) % dcs.len()]);
            let x = (pi + i) % 2 == 0;
            let Some(end) = add(day, n as i64, u) else { continue };
            let got = call(|| {
                let q = e.forward_rate_from_date_period(&dt(day), &per(n, u), &d.make(), c.clone(), f, x);
                (q.rate, q.daycounter.name(), q.compounding.clone(), q.frequency())
            });
            let direct = call(|| {
                let q = e.forward_rate_from_dates(&dt(day), &dt(end), &d.make(), c.clone(), f, x);
                (q.rate, q.daycounter.name(), q.compounding.clone(), q.frequency())
            });
            let same = match (&direct, &got) {
                (Ok(p), Ok(q)) => feq(p.0, q.0, 1e-12) && (&p.1, &p.2, &p.3) == (&q.1, &q.2, &q.3),
                (p, q) => p.is_err() && q.is_err(),
            };
            ctx.ok(|| format!("forward from {} over {}{:?}, {:?} {:?} {:?} extrapolate={} (got {:?})", show(day), n, u, d, c, f, x, got), &format!("{:?}", direct), same);
            ctx.tr(1);
        }
    });
    ctx.sample(|| "forward from 2024-01-31 over 1M is the forward to 2024-02-29".into());
}

// ------------------------------------------------------------------------------------------------

const MONTHS: [Month; 12] = [Month::January, Month::February, Month::March, Month::April, Month::May, Month::June, Month::July, Month::August, Month::September, Month::October, Month::November, Month::December];
const DAYS: [Weekday; 7] = [Weekday::Sunday, Weekday::Monday, Weekday::Tuesday, Weekday::Wednesday, Weekday::Thursday, Weekday::Friday, Weekday::Saturday];

pub fn c37(ctx: &Ctx) {
    let w = ctx.pick(3000, 200_000);
    ctx.bound(format!("every number of -{}..={} as month, weekday and frequency, and both ends of the integer range; every printed period of length -{}..={} in 9 units; days of times on a grid of 1/8 days", w, w, w, w));
    for n in (-w..=w).chain([i32::MIN, i32::MIN + 1, i32::MAX - 1, i32::MAX]) {
        at(format!("number {}", n));
        let m = if (1..=12).contains(&n) { Ok((MONTHS[n as usize - 1], n, n as Natural, n as Size)) } else { Err(Refused) };
        ctx.eq(|| format!("month {} and back (Integer, Natural, Size)", n), m.clone(), call(|| { let m = Month::from(n); (m, Integer::from(m), Natural::from(m), Size::from(m)) }));
        ctx.eq(|| format!("month {} from Natural", n), m, call(|| { let m = Month::from(n as Natural); (m, Integer::from(m), Natural::from(m), Size::from(m)) }));
        let d = if (1..=7).contains(&n) { Ok((DAYS[n as usize - 1], n)) } else if n == 0 { Ok((Weekday::Saturday, 7)) } else { Err(Refused) };
        ctx.eq(|| format!("weekday {} and back", n), d, call(|| { let d = Weekday::from(n); (d, Integer::from(d)) }));
        let f = FREQS.iter().find(|f| Integer::from(**f) == n && n > 0);
        if n > 0 || n < -1 {
            ctx.eq(|| format!("frequency {} and back", n), f.map(|f| (*f, n, n as Real)).ok_or(Refused), call(|| { let f = F::from(n); (f, Integer::from(f), Real::from(f)) }));
        }
        for (u, s) in [(TimeUnit::Days, "D"), (TimeUnit::Weeks, "W"), (TimeUnit::Months, "M"), (TimeUnit::Years, "Y"), (TimeUnit::Hours, "H"), (TimeUnit::Minutes, "m"), (TimeUnit::Seconds, "s"), (TimeUnit::Milliseconds, "ms"), (TimeUnit::Microseconds, "us")] {
            ctx.eq(|| format!("period of {} {:?} printed", n, u), Ok((format!("{}{}", n, s), n, u)), call(|| { let p = Period::new(n, u); (format!("{:?}", p), p.length, p.unit) }));
        }
        ctx.st(1);
        ctx.tr(13);
        ctx.val(13);
    }
    for (f, n) in FREQS.iter().zip([-1, 0, 1, 2, 3, 4, 6, 12, 13, 26, 52, 365, 999]) {
        ctx.eq(|| format!("number of {:?}", f), (n, n as f64), (Integer::from(*f), Real::from(*f)));
    }
    for (i, d) in DAYS.iter().enumerate() {
        for (j, e) in DAYS.iter().enumerate() {
            ctx.eq(|| format!("order of {:?} and {:?}", d, e), (i.partial_cmp(&j), i == j), (d.partial_cmp(e), d == e));
        }
        let we = matches!(d, Weekday::Saturday | Weekday::Sunday);
        ctx.eq(|| format!("weekend on {:?} (western, orthodox, none)", d), Ok((we, we, we, we, false, false)), call(|| {
            (Weekend::WesternWeekend(WesternWeekend {}).is_weekend(*d), WesternWeekend {}.is_weekend(*d), Weekend::OrthodoxWeekend(OrthodoxWeekend {}).is_weekend(*d), OrthodoxWeekend {}.is_weekend(*d), Weekend::NilWeekend(NilWeekend {}).is_weekend(*d), NilWeekend {}.is_weekend(*d))
        }));
        ctx.st(1);
    }
    // days in a time: the nearest whole number, halves away from zero
    for years in [1, 12, 52, 250, 252, 360, 364, 365, 366] {
        for k in -8 * 800i32..=8 * 800 {
            let days = k as f64 / 8.0;
            let time = days / years as f64;
            // the product must be what it is meant to be: only times whose product is exactly the days
            if time * years as f64 != days {
                continue;
            }
            let a = (k.abs() + 4).div_euclid(8) * k.signum();
            ctx.eq(|| format!("days in {} years of {} days", time, years), Ok(a), call(|| time_to_days_with_days_per_year(time, years)));
            if years == 360 {
                ctx.eq(|| format!("days in {} years", time), Ok(a), call(|| time_to_days(time)));
            }
            ctx.tr(1);
        }
    }
    // texts of dates and schedules
    for s in (t(1995, 1, 1)..t(2005, 1, 1)).step_by(ctx.pick(7, 1)) {
        let sp = Spec::new(s, s + 400, 3, U::M, Mk::Nil);
        let got = call(|| { let x = sp.make(); (sers(&x.dates()), format!("{:?}", x)) });
        if let Ok((dates, text)) = got {
            let want = format!("Schedule[\n{}]\n", dates.iter().map(|d| format!("\t{},\n", show(*d))).collect::<String>());
            ctx.eq(|| format!("text of the schedule {}", sp.key()), want, text);
        }
        ctx.tr(1);
    }
    ctx.sample(|| "Weekday::from(0) = Saturday = Weekday::from(7); Month::from(13) refused".into());
}

// ------------------------------------------------------------------------------------------------

pub fn c38(ctx: &Ctx) {
    let start = t(2023, 1, 10);
    let depth = ctx.pick(4usize, 5);
    let amounts = [100.0, -60.0, 0.0, -250.0];
    // all legs of flows one quarter apart; the k-th flow may be a coupon gone ex before it is paid
    let mut legs: Vec<Vec<(usize, bool)>> = vec![vec![]];
    let mut cur = legs.clone();
    for _ in 0..depth {
        cur = cur.iter().flat_map(|l| (0..amounts.len()).flat_map(move |a| [false, true].map(|e| { let mut m = l.clone(); m.push((a, e)); m }))).collect();
        legs.extend(cur.iter().filter(|l| l.iter().filter(|x| x.1).count() <= 1).cloned());
    }
    let prices = [95.0, -40.0, 1.5, -300.0, 0.0];
    ctx.bound(format!("{} legs of up to {} flows (4 amounts of both signs and zero, at most one gone ex) x 5 prices of both signs and zero x settlement before, on and after every flow x include flag, the money counted in three units; objective at 5 yields in 5 compoundings", legs.len(), depth));
    ctx.par(legs.len(), |i| {
        let leg: Vec<Fl> = legs[i].iter().enumerate().map(|(k, (a, ex))| {
            let (s, e) = (start + 90 * k as i32, start + 90 * (k as i32 + 1));
            // a simple coupon of 6% over 90 days pays 1.5% of its nominal
            if *ex { Fl::Cp(s, e, e, e - 7, amounts[*a] / 0.015) } else { Fl::S(e, amounts[*a]) }
        }).collect();
        let real: CashFlowLeg = leg.iter().map(|f| f.make()).collect();
        let scaled: Vec<(f64, CashFlowLeg)> = [1e-9, 1e12].map(|u| (u, leg.iter().map(|f| match *f {
            Fl::Cp(s, e, p, x, n) => Fl::Cp(s, e, p, x, n * u),
            Fl::S(d, a) => Fl::S(d, a * u),
            Fl::A(d, a) => Fl::A(d, a * u),
            Fl::R(d, a) => Fl::R(d, a * u),
            Fl::K(_) => unreachable!(),
        }.make()).collect())).into();
        at(format!("yield of {:?}", leg));
        let mut days = vec![start];
        for f in &leg {
            days.extend([f.date() - 7, f.date(), f.date() + 1]);
        }
        for x in days {
            for inc in [false, true] {
                for price in prices {
                    let left: Vec<f64> = leg.iter().filter(|f| !f.occurred(x, inc) && !f.exed(x)).map(|f| f.amount()).collect();
                    let mut changes = 0;
                    let mut last = -price;
                    for a in &left {
                        if a * last < 0.0 {
                            changes += 1;
                        }
                        // an amount of zero has no sign
                        if *a != 0.0 {
                            last = *a;
                        }
                    }
                    let key = |w: &str| format!("{} of price {} for {:?} settled {} include={}", w, price, leg.iter().map(|f| (show(f.date()), f.amount(), matches!(f, Fl::Cp(..)))).collect::<Vec<_>>(), show(x), inc);
                    let (c, f) = (&COMPS[(i + x as usize) % 5], FREQS[2 + i % 5]);
                    let d = [D::A360, D::BondBasis, D::AaIsda][i % 3];
                    let vd = [x, NULL, x - 33, x + 12][(i + x as usize + inc as usize) % 4];
                    let finder = call(|| IrrFinder::new(&real, price, d.make(), c.clone(), f, inc, dt(x), dt(vd)));
                    ctx.ok(|| key("yield search"), if changes > 0 { "possible" } else { "refused" }, finder.is_ok() == (changes > 0));
                    ctx.tr(1);
                    // in whatever unit the money is counted
                    for (unit, leg) in &scaled {
                        let there = call(|| IrrFinder::new(leg, price * unit, d.make(), c.clone(), f, inc, dt(x), dt(vd))).is_ok();
                        ctx.ok(|| key(&format!("yield search in units of {}", unit)), if changes > 0 { "possible" } else { "refused" }, there == (changes > 0));
                        ctx.tr(1);
                    }
                    if changes == 0 {
                        ctx.outcome("no yield can exist", 1);
                        let solver = NewtonSafe::default();
                        let y = call(|| cashflow::bond_yield(&solver, &real, price, d.make(), c.clone(), f, inc, dt(x), dt(vd), 1e-8, 0.05));
                        ctx.ok(|| key("yield"), "refused", y.is_err());
                        continue;
                    }
                    ctx.outcome("searched", 1);
                    if let Ok(finder) = finder {
                        for y in [-0.02, 0.0, 0.03, 0.11, 0.4] {
                            if let Some(v) = value(&leg, y, d, c, f, inc, x, vd) {
                                ctx.close(|| format!("{} {:?} {:?} {:?} valued {}", key(&format!("objective at {}", y)), c, f, d, show(vd)), price - v.npv, call(|| finder.at(y)), 1e-10);
                                ctx.tr(1);
                            }
                        }
                    }
                }
                ctx.st(1);
            }
        }
        ctx.val(1);
    });
    // a bond-like leg always has the yield it is priced at, whichever solver setting is used
    let ys = [-0.01, 0.0, 0.002, 0.03, 0.08, 0.25];
    let n = ctx.pick(6, 14);
    ctx.bound(format!("bond-like legs of 1..{} flows priced at {} yields x 5 compoundings x frequencies x day counters x 4 guesses x 2 accuracies: the yield is found again", n, ys.len()));
    ctx.par(n, |k| {
        let mut leg: Vec<Fl> = (0..=k as i32).map(|j| Fl::S(start + 182 * (j + 1), 2.5)).collect();
        leg.push(Fl::R(start + 182 * (k as i32 + 1), 100.0));
        let real: CashFlowLeg = leg.iter().map(|f| f.make()).collect();
        for c in COMPS {
            for f in &FREQS[2..6] {
                for d in [D::A360, D::BondBasis, D::AaIsda] {
                    for y in ys {
                        for (x, vd) in [(start, start), (start, start - 45), (start + 61, NULL), (start + 61, start + 90)] {
                            let Some(v) = value(&leg, y, d, &c, *f, false, x, vd) else { continue };
                            for guess in [0.05, 0.01, 0.2, 0.0001] {
                                for acc in [1e-8, 1e-10] {
                                    let solver = NewtonSafe::default();
                                    let got = call(|| cashflow::bond_yield(&solver, &real, v.npv, d.make(), c.clone(), *f, false, dt(x), dt(vd), acc, guess));
                                    ctx.ok(|| format!("yield of {} flows priced at {} ({}) {:?} {:?} {:?} settled {} valued {} guess {} accuracy {} is {:?}", leg.len(), y, v.npv, c, f, d, show(x), show(vd), guess, acc, got), "the yield", matches!(got, Ok(g) if (g - y).abs() <= 4.0 * acc + 1e-13));
                                    ctx.tr(1);
                                }
                            }
                        }
                    }
                }
            }
            ctx.st(1);
        }
    });
    ctx.sample(|| "flows +100,+100 at a price of -40: refused".into());
}
