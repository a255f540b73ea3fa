//! C44: a refused operation leaves everything as it was.  Histories over values changed in place and over
//! long-lived objects, in which some operations are refused — by their arguments, or because a function,
//! quote, cash flow or curve of the caller gives up at its k-th use, for every k.
use super::calendars::{edit, queries, show_hist, Ed};
use super::dates::{observe, observe_text};
use super::legs::Cp;
use super::periods::{am, amount, quotient, read, same_amount, sum};
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::Spec;
use rust_quantlib::cashflows::cashflow::{self, CashFlow, CashFlowLeg};
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::schedule::Schedule;
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::instrument::Instrument;
use rust_quantlib::instruments::stock::Stock;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::maths::array::Array;
use rust_quantlib::maths::interpolations::{interpolation::Interpolation, lagrangeinterpolation::LagrangeInterpolation, linearinterpolation::LinearInterpolation};
use rust_quantlib::maths::solvers1d::{brent::Brent, finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe, newtonsafe::NewtonSafe, solver1d::Solver1D};
use rust_quantlib::quotes::quote::Quote;
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;
use rust_quantlib::termstructures::zeroyieldstructure::ZeroYieldStructure;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

fn t(y: i32, m: i32, d: i32) -> i32 {
    ser(y, m, d)
}
fn null() -> Date {
    Date::default()
}

// ------------------------------------------------------------------------ dates and periods

/// one step of a history over a date and a period held in place
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// date += n, date -= n
    Days(i32),
    Back(i32),
    /// date += q, date -= q
    On(i32, U),
    Off(i32, U),
    /// date += period, date -= period
    Held,
    HeldOff,
    /// period += q, period -= q, period /= k
    Plus(i32, U),
    Minus(i32, U),
    Over(i32),
    Normal,
}
fn values(ctx: &Ctx) {
    use Op::*;
    let mut ops = vec![
        Days(1), Back(1), Days(40_000), Days(i32::MAX), Back(110_000), On(1, U::M), Off(1, U::M), On(300, U::Y), Off(15_000, U::W), Held, HeldOff,
        Plus(5, U::D), Plus(7, U::M), Minus(2, U::W), Minus(1, U::Y), Over(0), Over(3), Over(12), Normal,
    ];
    if ctx.thorough() {
        ops.extend([Back(i32::MAX), Off(-4000, U::M), Plus(0, U::D), Over(-7)]);
    }
    let dates = [MIN, MIN + 30, MAX, MAX - 30, t(2024, 1, 31), t(2023, 12, 30)];
    let pers = [(0, U::D), (1, U::M), (2, U::W), (3, U::Y), (40, U::D), (0, U::Y), (250, U::Y)];
    let depth = ctx.pick(4, 5);
    ctx.bound(format!("dates and periods: {} dates x {} periods, every history of {} in-place operations out of {}", dates.len(), pers.len(), depth, ops.len()));
    ctx.par(dates.len() * pers.len() * ops.len(), |i| {
        let (s, q) = (dates[i % dates.len()], pers[i / dates.len() % pers.len()]);
        at(format!("in-place histories of {} and {:?}, first {:?}", show(s), q, ops[i / dates.len() / pers.len()]));
        let mut n = (0u64, 0u64);
        step(ctx, &ops, dt(s), s, per(q.0, q.1), &mut vec![], Some(i / dates.len() / pers.len()), depth, &mut n, (s, q));
        ctx.st(n.0);
        ctx.tr(n.0);
        ctx.outcome("refused in-place operations", n.1);
        ctx.val(1);
    });
}
#[allow(clippy::too_many_arguments)]
fn step(ctx: &Ctx, ops: &[Op], d0: Date, s: i32, p0: Period, hist: &mut Vec<Op>, only: Option<usize>, left: usize, n: &mut (u64, u64), from: (i32, (i32, U))) {
    if left == 0 || ctx.stopped() {
        return;
    }
    let (pn, pu) = read(&p0).unwrap();
    let big = |k: i64| k.abs() < 100_000;
    for (k, &o) in ops.iter().enumerate() {
        if only.is_some_and(|x| x != k) {
            continue;
        }
        hist.push(o);
        n.0 += 1;
        // what the model says: the new serial, or the new amount, or a refusal
        let mut want_d: Option<Option<i32>> = None;
        let mut want_p: Option<Option<(bool, i64)>> = None;
        let cur = amount(pn, pu);
        match o {
            Op::Days(k) => want_d = Some(add(s, k as i64, U::D)),
            Op::Back(k) => want_d = Some(add(s, -(k as i64), U::D)),
            Op::On(k, u) => want_d = Some(add(s, k as i64, u)),
            Op::Off(k, u) => want_d = Some(add(s, -(k as i64), u)),
            Op::Held => want_d = Some(add(s, pn, pu)),
            Op::HeldOff => want_d = Some(add(s, -pn, pu)),
            Op::Plus(k, u) => want_p = Some(sum(cur, amount(k as i64, u))),
            Op::Minus(k, u) => want_p = Some(sum(cur, amount(-(k as i64), u))),
            Op::Over(k) => want_p = Some(quotient(pn, pu, k as i64)),
            Op::Normal => want_p = Some(Some(cur)),
        }
        let (mut d, mut p) = (d0, p0);
        let got = call(|| match o {
            Op::Days(k) => d += k,
            Op::Back(k) => d -= k,
            Op::On(k, u) => d += per(k, u),
            Op::Off(k, u) => d -= per(k, u),
            Op::Held => d += p,
            Op::HeldOff => d -= p,
            Op::Plus(k, u) => p += per(k, u),
            Op::Minus(k, u) => p -= per(k, u),
            Op::Over(k) => p /= k,
            Op::Normal => p.normalise(),
        });
        let key = |what: &str| format!("{} and {}{:?} after {:?}: {}", show(from.0), from.1 .0, from.1 .1, hist, what);
        let refused = want_d == Some(None) || want_p == Some(None);
        if got.is_err() != refused {
            ctx.fail(key("outcome"), if refused { "refused" } else { "accepted" }, format!("{:?}", got));
            hist.pop();
            continue;
        }
        n.1 += refused as u64;
        let s2 = want_d.flatten().unwrap_or(s);
        if call(|| observe(&d, s2).and_then(|_| observe_text(&d, s2))) != Ok(Ok(())) {
            ctx.fail(key("the date"), show(s2), format!("{:?}, serial {}", call(|| format!("{:?}", d)), d.serial_number()));
        }
        // what was refused, or concerns the date, leaves length and unit exactly as they were
        let good = match want_p.flatten() {
            Some(w) => am(&p).is_some_and(|g| same_amount(w, g)),
            None => p.length == p0.length && p.unit == p0.unit,
        };
        if !good {
            ctx.fail(key("the period"), format!("{:?}", want_p.flatten().map_or(format!("{:?}", p0), |w| format!("amount {:?}", w))), format!("{:?}", p));
        } else if d.serial_number() == s2 && read(&p).is_some_and(|(k, _)| big(k)) {
            step(ctx, ops, d, s2, p, hist, None, left - 1, n, from);
        }
        hist.pop();
    }
}

// ------------------------------------------------------------------------------- calendars

/// questions about a calendar that are refused (or not) at the ends of the range and for inverted pairs
const ASKS: usize = 12;
fn ask_cal(c: &Calendar, k: usize) -> String {
    let (lo, hi, mid) = (dt(MIN), dt(MAX), dt(t(2023, 5, 1)));
    let r = |o: Out<Date>| format!("{:?}", o.map(|d| d.serial_number()));
    let l = |o: Out<Vec<Date>>| format!("{:?}", o.map(|d| sers(&d)));
    match k {
        0 => l(call(|| c.holiday_list(mid + 30, mid, true))),
        1 => l(call(|| c.business_day_list(mid + 30, mid))),
        2 => r(call(|| c.adjust(hi, B::Following))),
        3 => r(call(|| c.adjust(lo, B::Preceding))),
        4 => r(call(|| c.advance_by_days_with_following(hi - 3, 9, U::D.tu(), false))),
        5 => r(call(|| c.advance_by_days_with_following(lo + 3, -9, U::D.tu(), false))),
        6 => r(call(|| c.advance_by_period(hi - 40, per(2, U::M), B::ModifiedFollowing, true))),
        7 => r(call(|| c.advance_by_period(mid, per(300, U::Y), B::Following, false))),
        8 => r(call(|| c.advance_by_period(mid, per(2, U::M), B::ModifiedFollowing, true))),
        9 => format!("{:?}", call(|| c.business_days_between(lo, lo + 9, true, true))),
        10 => r(call(|| c.adjust(mid, B::ModifiedPreceding))),
        _ => format!("{:?}", call(|| c.is_end_of_month(&hi))),
    }
}
fn calendars(ctx: &Ctx) {
    let mks = ctx.pick(vec![Mk::Target, Mk::UsNyse, Mk::Nil], vec![Mk::Target, Mk::UsNyse, Mk::Nil, Mk::UkSettlement, Mk::Japan, Mk::Weekends]);
    let eds = [Ed::Add(MAX), Ed::Rem(MAX), Ed::Add(MIN), Ed::Rem(t(2023, 5, 1)), Ed::Add(t(2023, 5, 2)), Ed::Reset];
    let depth = ctx.pick(3, 4);
    let all = eds.len() + ASKS;
    ctx.bound(format!("calendars: {} markets, every history of {} out of {} edits and {} questions, at the ends of the range too", mks.len(), depth, eds.len(), ASKS));
    ctx.par(mks.len() * all.pow(depth as u32), |i| {
        let (mk, mut r) = (mks[i % mks.len()], i / mks.len());
        at(format!("calendar history {}", i));
        let (mut c, mut m) = (mk.make(), Cal::new(mk));
        // the same edits alone, never asked anything
        let mut plain = mk.make();
        let mut h: Vec<Ed> = vec![];
        let mut asked = vec![];
        for _ in 0..depth {
            let o = r % all;
            r /= all;
            if o < eds.len() {
                h.push(eds[o]);
                if edit(&mut c, &mut m, eds[o]).is_err() {
                    ctx.fail(show_hist(mk, &h), "accepted", "refused");
                }
                let mut dummy = m.clone();
                let _ = edit(&mut plain, &mut dummy, eds[o]);
            } else {
                asked.push((h.len(), o - eds.len()));
                let (got, want) = (ask_cal(&c, o - eds.len()), ask_cal(&plain.clone(), o - eds.len()));
                ctx.eq(|| format!("{} question {} (asked so far {:?})", show_hist(mk, &h), o - eds.len(), asked), want, got);
            }
        }
        if asked.is_empty() {
            return;
        }
        let who = || format!("{} with {:?} asked", show_hist(mk, &h), asked);
        let mut n = queries(ctx, &c, &m, t(2023, 4, 28), t(2023, 5, 4), &who, false);
        n += queries(ctx, &c, &m, MAX - 9, MAX, &who, true);
        n += queries(ctx, &c, &m, MIN, MIN + 9, &who, true);
        ctx.st(1);
        ctx.tr(n + depth as u64);
        ctx.val(1);
    });
}

// ------------------------------------------------------------------------ arrays, interpolations

fn arrays(ctx: &Ctx) {
    let depth = ctx.pick(4, 5);
    const N: usize = 11;
    let starts: [(&[f64], &[f64]); 5] = [(&[1.0, -2.0, 0.5], &[4.0, 9.0]), (&[], &[3.0]), (&[0.0], &[0.0]), (&[1.0, 2.0, 3.0, 4.0], &[-1.0; 40]), (&[2.0; 17], &[])];
    ctx.bound(format!("arrays: {} pairs of arrays, every history of {} out of {} operations", starts.len(), depth, N));
    ctx.par(starts.len() * N.pow(depth as u32), |i| {
        let (a0, b0) = starts[i % starts.len()];
        at(format!("array history {}", i));
        let mut r = i / starts.len();
        let (mut wa, mut wb) = (a0.to_vec(), b0.to_vec());
        let (mut a, mut b) = (Array::new(wa.clone()), Array::new(wb.clone()));
        let mut hist = vec![];
        for k in 0..depth {
            let o = r % N;
            r /= N;
            hist.push(o);
            let v = 10.0 + k as f64;
            let at = |w: &mut Vec<f64>, j: usize| match w.get_mut(j) {
                Some(x) => {
                    *x = v;
                    true
                }
                None => false,
            };
            let (want, got) = match o {
                0 => (at(&mut wa, 0), call(|| a[0] = v).is_ok()),
                1 => (at(&mut wa, 2), call(|| a[2] = v).is_ok()),
                2 => (at(&mut wa, 16), call(|| a[16] = v).is_ok()),
                3 => (at(&mut wb, 1), call(|| b[1] = v).is_ok()),
                4 => (at(&mut wb, usize::MAX), call(|| b[usize::MAX] = v).is_ok()),
                5 => {
                    std::mem::swap(&mut wa, &mut wb);
                    (true, call(|| a.swap(&mut b)).is_ok())
                }
                6 => {
                    std::mem::swap(&mut wa, &mut wb);
                    (true, call(|| b.swap(&mut a)).is_ok())
                }
                7 => (wa.len() == wb.len(), call(|| a.dot_product(&b)).is_ok()),
                8 => (wa.len() == wb.len(), call(|| Array::new(a.data.clone()) + Array::new(b.data.clone())).is_ok()),
                9 => (wa.len() > 3, call(|| a[3]).is_ok()),
                _ => (wb.len() > 1, call(|| { b[1] += 0.0; b[1] }).is_ok()),
            };
            let who = |what: &str| format!("{:?} {:?} after {:?}: {}", a0, b0, hist, what);
            ctx.eq(|| who("accepted"), want, got);
            ctx.eq(|| who("elements"), (&wa, &wb), (&a.data, &b.data));
            ctx.eq(|| who("sizes"), (wa.len(), wb.is_empty()), (a.size(), b.empty()));
            ctx.ok(|| who("norm"), "that of its elements", feq(a.norm2(), wa.iter().map(|x| x * x).sum::<f64>().sqrt(), 1e-13));
        }
        ctx.st(depth as u64);
        ctx.tr(depth as u64);
        ctx.val(1);
    });
}

/// Every history of questions about one object, answers compared with those of an object asked for the first time.
fn shared<O>(ctx: &Ctx, name: &str, mk: &(dyn Fn() -> O + Sync), qs: &[(&str, fn(&mut O) -> String)], depth: usize) {
    let n = qs.len();
    let fresh: Vec<String> = qs.iter().map(|q| (q.1)(&mut mk())).collect();
    let refused = fresh.iter().filter(|f| f.contains("refused")).count() as u64;
    ctx.outcome(&format!("{}: questions refused", name), refused);
    ctx.ok(|| format!("{}: some questions refused, some not", name), "both kinds", refused > 0 && refused < n as u64);
    ctx.bound(format!("{}: every history of {} out of {} questions ({} refused) to one object", name, depth, n, refused));
    ctx.par(n.pow(depth as u32), |i| {
        let mut r = i;
        at(format!("{} history {}", name, i));
        let mut o = mk();
        let mut h = vec![];
        for _ in 0..depth {
            let k = r % n;
            r /= n;
            h.push(qs[k].0);
            let got = (qs[k].1)(&mut o);
            ctx.eq(|| format!("{}: {}", name, h.join(", then ")), fresh[k].clone(), got);
        }
        ctx.st(depth as u64);
        ctx.tr(depth as u64);
        ctx.val(1);
    });
}
fn sh<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> String {
    format!("{:?}", call(f))
}

static XS: [f64; 5] = [0.0, 1.0, 2.5, 4.0, 4.5];
static YS: [f64; 5] = [1.0, 3.0, -1.0, 0.5, 0.5];

struct Terms {
    cal: Calendar,
    a: Schedule,
    b: Schedule,
    isma: DayCounter,
    bond: FixedRateBond,
    zero: ZeroCouponBond,
    leg: CashFlowLeg,
}
fn terms() -> Terms {
    let sp = Spec::new(t(2022, 1, 31), t(2025, 1, 31), 6, U::M, Mk::Target).conv(B::ModifiedFollowing);
    let a = sp.make();
    let b = Spec::new(t(2022, 2, 15), t(2025, 1, 31), 1, U::Y, Mk::UsGovBond).make();
    let mut cal = Mk::Target.make();
    cal.add_holiday(dt(t(2023, 6, 15)));
    Terms {
        isma: DayCounter::actual_actual_isma(a.clone()),
        bond: FixedRateBond::new(2, 100.0, a.clone(), vec![0.03], D::BondBasis.make()),
        zero: ZeroCouponBond::new(1, &Mk::UsGovBond.make(), 100.0, dt(t(2025, 1, 31))),
        leg: (0..4).map(|i| Rc::new(coupon(i).make(&C::Simple)) as Rc<dyn CashFlow>).collect(),
        cal,
        a,
        b,
    }
}
fn coupon(i: i32) -> Cp {
    let (s, e) = (t(2023, 1, 10) + 181 * i, t(2023, 1, 10) + 181 * (i + 1));
    Cp { start: s, end: e, pay: e + 2, ex: e - 5, rs: s, re: e, nom: 100.0 - 20.0 * i as f64, r: 0.04, d: D::A360, f: F::Annual }
}
fn ir(r: f64, c: C) -> InterestRate {
    InterestRate::new(r, D::A360.make(), c, F::Annual)
}

fn objects(ctx: &Ctx) {
    let depth = ctx.pick(3, 4);
    shared(ctx, "linear interpolation", &|| LinearInterpolation::new(&XS, &YS), &[
        ("value inside", |o| sh(|| o.value(1.7))),
        ("value below", |o| sh(|| o.value(-0.5))),
        ("value above", |o| sh(|| o.value(5.0))),
        ("value above, extrapolated", |o| sh(|| o.value_with_extrapolation(5.0, true))),
        ("derivative outside", |o| sh(|| o.derivative(7.0))),
        ("derivative inside", |o| sh(|| o.derivative(3.0))),
        ("primitive outside", |o| sh(|| o.primitive(-1.0))),
        ("primitive inside", |o| sh(|| o.primitive(4.2))),
        ("second derivative outside", |o| sh(|| o.second_derivative(9.0))),
        ("range and table", |o| sh(|| (o.xmin(), o.xmax(), o.is_in_range(4.6), o.locate(4.4), o.s.clone(), o.primitive_const.clone()))),
        ("not a number", |o| sh(|| o.value(f64::NAN))),
        ("update", |o| sh(|| o.update())),
    ], depth);
    shared(ctx, "Lagrange interpolation", &|| LagrangeInterpolation::new(&XS, &YS), &[
        ("value inside", |o| sh(|| o.value(1.7))),
        ("value at a node", |o| sh(|| o.value(2.5))),
        ("value below", |o| sh(|| o.value(-0.5))),
        ("value above", |o| sh(|| o.value(5.0))),
        ("value above, extrapolated", |o| sh(|| o.value_with_extrapolation(5.0, true))),
        ("derivative outside", |o| sh(|| o.derivative(7.0))),
        ("derivative inside", |o| sh(|| o.derivative(3.0))),
        ("not a number", |o| sh(|| o.value(f64::NAN))),
        ("update", |o| sh(|| o.update())),
    ], depth);
    shared(ctx, "terms", &terms, &[
        ("schedule until a date before it", |o| sh(|| sers(&o.a.until(&dt(t(2021, 1, 1))).dates()))),
        ("schedule after a date behind it", |o| sh(|| sers(&o.a.after(&dt(t(2026, 1, 1))).dates()))),
        ("schedule until", |o| sh(|| sers(&o.a.until(&dt(t(2023, 9, 1))).dates()))),
        ("schedule after", |o| sh(|| sers(&o.a.after(&dt(t(2023, 9, 1))).dates()))),
        ("schedule date out of it", |o| sh(|| o.a[99])),
        ("regularity out of it", |o| sh(|| o.b.is_regular(17))),
        ("regularity", |o| sh(|| (o.b.is_regular(1), o.b.is_regular(2), o.a.is_regular(1)))),
        ("lookups", |o| sh(|| (o.a.next_date(&dt(t(2023, 3, 1))), o.a.previous_date(&dt(t(2023, 3, 1))), o.b.next_date(&dt(t(2030, 1, 1)))))),
        ("all dates", |o| sh(|| (sers(&o.a.dates()), sers(&o.b.dates()), o.a.tenor(), o.a.end_of_month()))),
        ("fraction before the schedule", |o| sh(|| o.isma.year_fraction(&dt(t(2020, 1, 31)), &dt(t(2020, 3, 31)), &null(), &null()))),
        ("fraction within", |o| sh(|| o.isma.year_fraction(&dt(t(2023, 1, 31)), &dt(t(2023, 6, 15)), &null(), &null()))),
        ("fraction of inverted references", |_| sh(|| D::AaOldIsma.make().year_fraction(&dt(t(2023, 1, 31)), &dt(t(2023, 6, 15)), &dt(t(2024, 1, 1)), &dt(t(2023, 1, 1))))),
        ("yield after maturity", |o| sh(|| o.bond.bond_yield(99.0, D::BondBasis.make(), C::Compounded, F::Annual, dt(t(2025, 3, 1))))),
        ("yield of a negative price", |o| sh(|| o.bond.bond_yield(-99.0, D::BondBasis.make(), C::Compounded, F::Annual, dt(t(2023, 9, 15))))),
        ("yield on a budget of 2", |o| sh(|| o.bond.bond_yield_with_options(97.5, D::BondBasis.make(), C::Compounded, F::Annual, dt(t(2023, 9, 15)), None, Some(2), None))),
        ("yield of no accuracy", |o| sh(|| o.bond.bond_yield_with_options(97.5, D::BondBasis.make(), C::Compounded, F::Annual, dt(t(2023, 9, 15)), Some(0.0), None, None))),
        ("yield", |o| sh(|| o.bond.bond_yield(97.5, D::BondBasis.make(), C::Compounded, F::Annual, dt(t(2023, 9, 15))))),
        ("price, accrued, notional", |o| sh(|| (o.bond.clean_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Annual, dt(t(2023, 9, 15))), o.bond.accrued_amount(dt(t(2023, 9, 15))), o.bond.notional(dt(t(2024, 9, 15)))))),
        ("settlement past the range", |o| sh(|| o.bond.settlement_date(dt(MAX)))),
        ("settlement", |o| sh(|| (o.bond.settlement_date(dt(t(2023, 4, 27))), o.zero.settlement_date(dt(t(2023, 4, 27)))))),
        ("zero-coupon yield after maturity", |o| sh(|| o.zero.bond_yield(95.0, D::BondBasis.make(), C::Compounded, F::Annual, dt(t(2026, 9, 15))))),
        ("zero-coupon yield", |o| sh(|| o.zero.bond_yield(95.0, D::BondBasis.make(), C::Compounded, F::Annual, dt(t(2023, 9, 15))))),
        ("value of the leg at a ruinous rate", |o| sh(|| cashflow::npv(&o.leg, &ir(-3.0, C::Compounded), false, dt(t(2023, 3, 1)), null()))),
        ("value of the leg", |o| sh(|| (cashflow::npv(&o.leg, &ir(0.03, C::Compounded), false, dt(t(2023, 3, 1)), null()), cashflow::modified_duration(&o.leg, &ir(0.03, C::Compounded), false, dt(t(2023, 3, 1)), null())))),
        ("maturity of no leg", |_| sh(|| cashflow::maturity_date(&CashFlowLeg::new()))),
        ("accruals", |o| sh(|| (cashflow::accrued_amount(&o.leg, false, dt(t(2023, 9, 1))), o.leg[1].amount(), o.leg[1].has_occurred(&dt(t(2024, 1, 5)), false)))),
        ("a list backwards", |o| sh(|| sers(&o.cal.holiday_list(dt(t(2023, 6, 30)), dt(t(2023, 6, 1)), true)))),
        ("a list", |o| sh(|| sers(&o.cal.holiday_list(dt(t(2023, 6, 1)), dt(t(2023, 6, 30)), false)))),
        ("a rate of no frequency", |_| sh(|| InterestRate::new(0.05, D::A360.make(), C::Compounded, F::NoFrequency).rate)),
        ("an implied rate of no growth", |_| sh(|| ir(0.05, C::Compounded).implied_rate(-1.0, &D::A360.make(), &C::Compounded, F::Annual, 1.0).rate)),
        ("a rate", |_| sh(|| (ir(0.05, C::SimpleThenCompounded).compound_factor(1.7), ir(0.05, C::Compounded).equivalent_rate(&C::Continuous, F::Annual, 2.0).rate))),
        ("a schedule backwards", |_| sh(|| sers(&Spec::new(t(2025, 1, 31), t(2022, 1, 31), 6, U::M, Mk::Target).make().dates()))),
        ("a CDS maturity of no such tenor", |_| sh(|| cds_maturity(&dt(t(2023, 5, 2)), per(5, U::M), R::CDS2015))),
        ("a CDS maturity", |_| sh(|| cds_maturity(&dt(t(2023, 5, 2)), per(5, U::Y), R::CDS2015))),
        ("a frequency's period", |_| sh(|| (Period::from(F::Semiannual), Period::from(F::OtherFrequency)))),
    ], ctx.pick(2, 3));
}

// ------------------------------------------------------------------------------- faults at every point

/// a function of the caller that gives up at its k-th use
struct Fuse {
    left: Cell<usize>,
    used: Cell<usize>,
}
impl Fuse {
    fn new(k: usize) -> Fuse {
        Fuse { left: Cell::new(k), used: Cell::new(0) }
    }
    fn burn(&self) {
        self.used.set(self.used.get() + 1);
        if self.left.get() == self.used.get() {
            panic!("fuse");
        }
    }
}
/// a cash flow of the caller, with a fuse in every answer
struct Mine {
    c: rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon,
    f: Rc<Fuse>,
}
impl CashFlow for Mine {
    fn accrual_start_date(&self) -> Date {
        self.f.burn();
        self.c.accrual_start_date()
    }
    fn accrual_end_date(&self) -> Date {
        self.f.burn();
        self.c.accrual_end_date()
    }
    fn accrued_amount(&self, date: Date) -> f64 {
        self.f.burn();
        self.c.accrued_amount(date)
    }
    fn amount(&self) -> f64 {
        self.f.burn();
        self.c.amount()
    }
    fn date(&self) -> Date {
        self.f.burn();
        self.c.date()
    }
    fn ex_coupon_date(&self) -> Date {
        self.f.burn();
        self.c.ex_coupon_date()
    }
    fn reference_period_start(&self) -> Date {
        self.f.burn();
        self.c.reference_period_start()
    }
    fn reference_period_end(&self) -> Date {
        self.f.burn();
        self.c.reference_period_end()
    }
}
struct MyQuote(f64, Arc<std::sync::atomic::AtomicBool>);
impl Quote for MyQuote {
    fn value(&self) -> f64 {
        assert!(!self.1.load(std::sync::atomic::Ordering::SeqCst), "no quote");
        self.0
    }
    fn is_valid(&self) -> bool {
        true
    }
}
struct MyCurve(Fuse);
impl ZeroYieldStructure for MyCurve {
    fn zero_yield(&self, x: f64) -> f64 {
        self.0.burn();
        0.02 + 0.001 * x
    }
}
#[derive(Clone, Copy, Debug)]
enum Prob {
    /// kind of function, guess, step
    Step(usize, f64, f64),
    /// kind, guess, bounds
    Within(usize, f64, f64, f64),
}
type Trace = (Out<u64>, Vec<u64>);
/// one question to a solver the caller keeps; the function (or, from 1000 on, its derivative) gives up at its k-th use
fn pose<S: Solver1D>(s: &S, p: Prob, acc: f64, k: usize) -> Trace {
    let (f, g) = (Fuse::new(if k < 1000 { k } else { 0 }), Fuse::new(if k >= 1000 { k - 1000 } else { 0 }));
    let seen = RefCell::new(vec![]);
    let fv = |n: usize, x: f64| match n {
        0 => x * x * x - 2.0,
        1 => 1.0 - (-x).exp() - 0.3,
        2 => x.atan() - 0.5,
        _ => 1.0,
    };
    let gv = |n: usize, x: f64| match n {
        0 => 3.0 * x * x,
        1 => (-x).exp(),
        2 => 1.0 / (1.0 + x * x),
        _ => 0.0,
    };
    let root = call(|| {
        let n = match p {
            Prob::Step(n, ..) | Prob::Within(n, ..) => n,
        };
        let ff = |x: f64| {
            f.burn();
            let mut s = seen.borrow_mut();
            assert!(s.len() < 1000, "runaway");
            s.push(x.to_bits());
            drop(s);
            fv(n, x)
        };
        let gg = |x: f64| {
            g.burn();
            gv(n, x)
        };
        match p {
            Prob::Step(_, x, h) => s.solve(ff, gg, acc, x, h),
            Prob::Within(_, x, l, u) => s.solve_bracketed(ff, gg, acc, x, l, u),
        }
    });
    (root.map(|r| r.to_bits()), seen.into_inner())
}
fn solver<S: Solver1D>(ctx: &Ctx, name: &str, mk: &(dyn Fn() -> S + Sync)) {
    let probs = [Prob::Step(0, 1.0, 0.3), Prob::Within(0, 0.5, 0.0, 3.0), Prob::Step(1, 4.0, 0.1), Prob::Within(2, 1.0, -2.0, 9.0), Prob::Step(2, -5.0, 1.0)];
    // every way to be refused: by its arguments, by its function at each use, by an exhausted budget
    let mut bad: Vec<(Prob, f64, usize)> = vec![
        (Prob::Within(0, 0.5, 3.0, 0.0), 1e-9, 0),
        (Prob::Within(0, 9.0, 0.0, 3.0), 1e-9, 0),
        (Prob::Within(0, 5.0, 4.0, 6.0), 1e-9, 0),
        (Prob::Within(3, 0.5, 0.0, 1.0), 1e-9, 0),
        (Prob::Step(3, 0.5, 1.0), 1e-9, 0),
        (Prob::Step(0, 0.5, 1.0), 0.0, 0),
        (Prob::Within(2, 0.5, 0.0, 1.0), -1e-9, 0),
    ];
    for p in probs {
        for k in (1..=40).chain(1001..=1030) {
            bad.push((p, 1e-9, k));
        }
    }
    let good: Vec<(Prob, f64, usize)> = probs.iter().flat_map(|p| [1e-4, 1e-12].map(|a| (*p, a, 0))).collect();
    let fresh: Vec<Trace> = good.iter().map(|q| pose(&mk(), q.0, q.1, q.2)).collect();
    let first: Vec<Trace> = bad.iter().map(|q| pose(&mk(), q.0, q.1, q.2)).collect();
    ctx.outcome(&format!("{}: ways to be refused", name), first.iter().filter(|r| r.0.is_err()).count() as u64);
    ctx.bound(format!("{}: {} questions that may be refused (its function or derivative giving up at each use), singly and in every pair, then each of {} others", name, bad.len(), good.len()));
    ctx.par(bad.len(), |i| {
        at(format!("{} after {:?}", name, bad[i]));
        let one = mk();
        let r = pose(&one, bad[i].0, bad[i].1, bad[i].2);
        ctx.eq(|| format!("{}: {:?}", name, bad[i]), &first[i], &r);
        for j in 0..bad.len() {
            if ctx.thorough() || j % 7 == i % 7 {
                let r = pose(&one, bad[j].0, bad[j].1, bad[j].2);
                ctx.eq(|| format!("{}: {:?}, then {:?}", name, bad[i], bad[j]), &first[j], &r);
                let g = (i + j) % good.len();
                let r = pose(&one, good[g].0, good[g].1, 0);
                ctx.eq(|| format!("{}: {:?}, then {:?}, then {:?}", name, bad[i], bad[j], good[g]), &fresh[g], &r);
                ctx.tr(2);
                ctx.st(1);
            }
        }
        for (g, q) in good.iter().enumerate() {
            for other in [false, true] {
                let s = mk();
                let _ = pose(&s, bad[i].0, bad[i].1, bad[i].2);
                // on the same solver, or on another of its kind
                let r = if other { pose(&mk(), q.0, q.1, 0) } else { pose(&s, q.0, q.1, 0) };
                ctx.eq(|| format!("{}: {:?}, then {:?} on {}", name, bad[i], q, if other { "another" } else { "the same" }), &fresh[g], &r);
                ctx.tr(1);
                ctx.st(1);
            }
        }
        ctx.val(1);
    });
}
const LEG_QS: usize = 9;
fn leg_q(leg: &Vec<Rc<Mine>>, k: usize) -> String {
    let s = dt(t(2023, 9, 1));
    let solver = NewtonSafe::with_max_evaluations(100);
    match k {
        0 => sh(|| cashflow::npv(leg, &ir(0.03, C::Compounded), false, s, null())),
        1 => sh(|| cashflow::npv(leg, &ir(0.03, C::Continuous), true, s, s - 40)),
        2 => sh(|| cashflow::modified_duration(leg, &ir(0.03, C::Compounded), false, s, null())),
        3 => sh(|| cashflow::bond_yield(&solver, leg, 180.0, D::A360.make(), C::Compounded, F::Annual, false, s, null(), 1e-9, 0.05)),
        4 => sh(|| cashflow::accrued_amount(leg, false, s)),
        5 => sh(|| cashflow::next_cashflow(leg, false, s)),
        6 => sh(|| cashflow::maturity_date(leg)),
        7 => sh(|| leg[1].has_occurred(&s, true)),
        _ => sh(|| leg[1].trading_ex_coupon(dt(t(2024, 1, 3)))),
    }
}
fn faults(ctx: &Ctx) {
    solver(ctx, "Newton", &|| NewtonSafe::default());
    solver(ctx, "Newton of 7 evaluations within bounds", &|| NewtonSafe::new(-3.0, 8.0, true, true, 7));
    solver(ctx, "Brent", &|| Brent::default());
    solver(ctx, "Brent within bounds", &|| Brent::new(-3.0, 8.0, true, true));
    solver(ctx, "finite-difference Newton", &|| FiniteDifferenceNewtonSafe::default());
    // a leg whose cash flows give up at each use
    let build = |f: &Rc<Fuse>| (0..3).map(|i| Rc::new(Mine { c: coupon(i).make(&C::Simple), f: f.clone() })).collect::<Vec<_>>();
    let probe: Vec<(String, usize)> = (0..LEG_QS)
        .map(|k| {
            let f = Rc::new(Fuse::new(0));
            let l = build(&f);
            let a = leg_q(&l, k);
            (a, f.used.get())
        })
        .collect();
    let points: Vec<(usize, usize)> = (0..LEG_QS).flat_map(|q| (1..=probe[q].1.min(ctx.pick(120, 100_000))).map(move |k| (q, k))).collect();
    ctx.bound(format!("a leg of the caller's own cash flows: {} questions, given up at each of {} uses in all, then every question again (in every order of two)", LEG_QS, points.len()));
    ctx.par(points.len(), |i| {
        let (q, k) = points[i];
        at(format!("leg question {} given up at use {}", q, k));
        for first in 0..LEG_QS {
            let f = Rc::new(Fuse::new(0));
            let l = build(&f);
            f.left.set(k);
            let r = leg_q(&l, q);
            ctx.eq(|| format!("leg question {} given up at use {}", q, k), "Err(refused)".to_string(), r);
            f.left.set(0);
            for o in 0..LEG_QS {
                let o = (first + o) % LEG_QS;
                let r = leg_q(&l, o);
                ctx.eq(|| format!("leg question {} given up at use {}, then question {} (from {})", q, k, o, first), probe[o].0.clone(), r);
            }
            ctx.st(1);
            ctx.tr(LEG_QS as u64);
        }
        ctx.val(1);
    });
    // a stock whose quote is missing for a while; a curve that gives up
    for mask in 0..256u32 {
        let off = Arc::new(std::sync::atomic::AtomicBool::new(false));
        let s = Stock::new(Arc::new(MyQuote(1.5, off.clone())));
        for k in 0..8 {
            let gone = mask >> k & 1 == 1;
            off.store(gone, std::sync::atomic::Ordering::SeqCst);
            let want = if gone { Err(Refused) } else { Ok(1.5) };
            ctx.eq(|| format!("stock with its quote missing by {:08b}, moment {}", mask, k), (want, want), (call(|| s.npv()), call(|| s.calculate().npv)));
        }
        let c = MyCurve(Fuse::new(mask as usize % 9 + 1));
        for k in 1..12usize {
            let x = k as f64 / 4.0;
            let gone = k == mask as usize % 9 + 1;
            let got = call(|| c.discount(x));
            let want = (-(0.02 + 0.001 * x) * x).exp();
            ctx.ok(|| format!("curve giving up at use {}, use {}: {:?}", mask % 9 + 1, k, got), "as if never given up", match got { Ok(g) => !gone && feq(g, want, 1e-13), Err(_) => gone });
        }
        ctx.st(1);
        ctx.tr(19);
        ctx.val(1);
    }
}

pub fn c44(ctx: &Ctx) {
    values(ctx);
    calendars(ctx);
    arrays(ctx);
    objects(ctx);
    faults(ctx);
    ctx.sample(|| "1M += 5D is refused and leaves 1M; 1M += 7M then gives 8M".into());
    ctx.sample(|| "a Newton search whose function gives up at its 3rd use, then the same search: same root, same points".into());
}
