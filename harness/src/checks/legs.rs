//! C22-C24, C33: fixed-rate legs, coupons, and valuation of cash-flow legs.
use super::rates::{factor, FREQS};
use crate::dc::{self, D};
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::{model, Spec, NULL};
use rust_quantlib::cashflows::cashflow::{self, CashFlow, CashFlowLeg};
use rust_quantlib::cashflows::coupon::{Coupon, CouponLeg};
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::cashflows::simplecashflow::{AmortizingPayment, Redemption, SimpleCashFlow};
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::datetime::schedule::Schedule;
use rust_quantlib::pricingengines::bond::bondfunctions;
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;
use std::collections::BTreeMap;
use std::rc::Rc;

/// year fraction with a reference period (only Actual/Actual ISMA looks at it)
pub fn frac(d: D, a: i32, b: i32, rs: i32, re: i32) -> Option<f64> {
    let o = |s: i32| if s == NULL { None } else { Some(s) };
    if d == D::AaOldIsma {
        dc::old_isma(a, b, o(rs), o(re))
    } else {
        d.frac(a, b)
    }
}
fn t(y: i32, m: i32, d: i32) -> i32 {
    ser(y, m, d)
}

/// schedules with regular, short and long stubs at either end
pub fn specs(wide: bool) -> Vec<Spec> {
    let mut v = vec![];
    let effs = [t(2023, 1, 31), t(2022, 11, 30), t(2023, 2, 15)];
    let lens: &[(i32, U)] = if wide { &[(6, U::M), (1, U::Y), (14, U::M), (25, U::M), (100, U::D), (2, U::Y), (3, U::Y)] } else { &[(6, U::M), (14, U::M), (2, U::Y)] };
    for (ei, eff) in effs.iter().enumerate() {
        for (n, u) in lens {
            for (tn, tu) in [(1, U::Y), (6, U::M), (3, U::M), (5, U::W)] {
                for (ri, rule) in [R::Backward, R::Forward, R::Zero, R::Twentieth].into_iter().enumerate() {
                    for (ci, conv) in [B::Unadjusted, B::ModifiedFollowing, B::Preceding].into_iter().enumerate() {
                        for eom in [false, true] {
                            let term = add(*eff, *n as i64, *u).unwrap() + if eom { 0 } else { 5 };
                            let mk = [Mk::Target, Mk::UsNyse, Mk::Nil][(ei + ri + ci) % 3];
                            let mut sp = Spec::new(*eff, term, tn, tu, mk).rule(rule).conv(conv);
                            sp.eom = eom;
                            v.push(sp);
                            if ri < 2 && *n > 6 {
                                // explicit stubs
                                v.push(Spec { first: eff + 40, ..sp });
                                v.push(Spec { ntl: term - 20, ..sp });
                                v.push(Spec { first: eff + 150, ntl: term - 100, ..sp });
                            }
                        }
                    }
                }
            }
        }
    }
    // long ones
    for (eff, term, tn) in [(t(2001, 1, 31), t(2031, 1, 31), 6), (t(2022, 3, 30), t(2027, 3, 15), 1), (t(1995, 5, 31), t(2045, 2, 28), 12), (t(2090, 2, 28), t(2110, 3, 1), 3)] {
        for (mk, rule) in [(Mk::Target, R::Backward), (Mk::UsNyse, R::Forward)] {
            for eom in [false, true] {
                v.push(Spec { eom, ..Spec::new(eff, term, tn, U::M, mk).rule(rule).conv(B::ModifiedFollowing) });
            }
        }
    }
    v
}

const NOMS: [f64; 6] = [1000.0, 900.0, 250.0, -40.0, 0.0, 77.5];
fn nom(i: usize) -> f64 {
    NOMS[i % 6] + (i / 6) as f64
}
fn rate(i: usize) -> InterestRate {
    let (r, d, c, f) = rate_terms(i);
    InterestRate::new(r, d.make(), c, f)
}
fn rate_terms(i: usize) -> (f64, D, C, F) {
    match i % 5 {
        0 => (0.05, D::A360, C::Simple, F::NoFrequency),
        1 => (0.04, D::Us, C::Compounded, F::Semiannual),
        2 => (-0.01, D::A366, C::Continuous, F::NoFrequency),
        3 => (0.07, D::BondBasis, C::SimpleThenCompounded, F::Quarterly),
        _ => (0.0, D::AaIsda, C::CompoundedThenSimple, F::Monthly),
    }
}
fn same_rate(r: &InterestRate, w: &InterestRate, d: D) -> bool {
    r.rate == w.rate && r.compounding == w.compounding && call(|| r.frequency()) == call(|| w.frequency()) && r.daycounter == d.make()
}

#[derive(Clone, Copy, Debug)]
struct Ex {
    n: i32,
    u: U,
    mk: Mk,
    conv: B,
    eom: bool,
}
#[derive(Clone, Debug)]
struct Opt {
    nn: usize,
    nr: usize,
    /// the conventions of the first rate
    off: usize,
    first: bool,
    last: bool,
    lag: Option<i32>,
    pmk: Option<Mk>,
    pconv: Option<B>,
    ex: Option<Ex>,
}

pub fn c22(ctx: &Ctx) {
    let all: Vec<Spec> = specs(ctx.thorough()).into_iter().filter(|sp| model(sp, &Cal::new(sp.mk)).is_some()).collect();
    let lags = [None, Some(0), Some(1), Some(3), Some(-2)];
    let pmks = [None, Some(Mk::Target), Some(Mk::UsNyse), Some(Mk::Nil)];
    let exs = [
        None,
        Some(Ex { n: 7, u: U::D, mk: Mk::Nil, conv: B::Unadjusted, eom: false }),
        Some(Ex { n: 5, u: U::D, mk: Mk::Target, conv: B::Preceding, eom: false }),
        Some(Ex { n: 1, u: U::M, mk: Mk::Target, conv: B::Following, eom: true }),
        Some(Ex { n: 1, u: U::M, mk: Mk::Target, conv: B::ModifiedPreceding, eom: false }),
        Some(Ex { n: 2, u: U::W, mk: Mk::UsNyse, conv: B::Preceding, eom: true }),
    ];
    let mut opts = vec![];
    let mut k = 0usize;
    for lag in lags {
        for pmk in pmks {
            for pconv in std::iter::once(None).chain(CONV.into_iter().map(Some)) {
                for ex in exs {
                    // the remaining choices rotate through this product and get one of their own below
                    opts.push(Opt { nn: 1 + k % 6, nr: 1 + k % 5, off: k / 6 % 5, first: k % 2 == 0, last: k % 3 == 0, lag, pmk, pconv, ex });
                    k += 1;
                }
            }
        }
    }
    for nn in 1..=6 {
        for nr in 1..=5 {
            for fl in 0..4 {
                for off in 0..if nn < 3 { 5 } else { 1 } {
                    opts.push(Opt { nn, nr, off, first: fl & 1 > 0, last: fl & 2 > 0, lag: None, pmk: None, pconv: None, ex: exs[fl] });
                }
            }
        }
    }
    for nn in [7, 12, 13, 25, 50, 130] {
        for nr in [6, 11, 23, 45, 140] {
            opts.push(Opt { nn, nr, off: nn % 5, first: nn % 2 == 0, last: nr % 2 == 0, lag: None, pmk: None, pconv: None, ex: exs[nn % 3] });
        }
    }
    ctx.bound(format!("{} schedules (backward, forward, zero, twentieth; regular and stub periods; 3 calendars) x {} combinations of payment lag, calendar and convention, ex-coupon rule, 1-6 (up to 130) notionals, 1-5 (up to 140) rates starting with each of 5 sets of conventions, first/last day counters", all.len(), opts.len()));
    let cals: BTreeMap<String, Cal> = [Mk::Target, Mk::UsNyse, Mk::Nil].into_iter().map(|m| (format!("{:?}", m), Cal::new(m))).collect();
    ctx.par(all.len(), |si| {
        let sp = all[si];
        let cal = &cals[&format!("{:?}", sp.mk)];
        let m = model(&sp, cal).unwrap();
        let s = match call(|| sp.make()) {
            Ok(s) => s,
            Err(_) => return ctx.fail(sp.key(), "a schedule", "refused"),
        };
        for o in &opts {
            if ctx.stopped() {
                return;
            }
            let key = || format!("leg on {} with {:?}", sp.key(), o);
            let got = call(|| {
                let mut l = FixedRateLeg::new(s.clone(), (0..o.nn).map(nom).collect(), (0..o.nr).map(|j| rate(j + o.off)).collect());
                if o.first {
                    l = l.with_first_period_daycounter(D::Nasd.make());
                }
                if o.last {
                    l = l.with_last_period_daycounter(D::Eu.make());
                }
                if let Some(x) = o.lag {
                    l = l.with_payment_lag(x);
                }
                if let Some(x) = o.pmk {
                    l = l.with_payment_calendar(x.make());
                }
                if let Some(x) = o.pconv {
                    l = l.with_payment_adjustment(x);
                }
                if let Some(e) = o.ex {
                    l = l.with_ex_coupon_period(per(e.n, e.u), e.mk.make(), e.conv, e.eom);
                }
                l.build()
            });
            ctx.tr(1);
            let Ok(leg) = got else {
                ctx.fail(key(), "a leg", "refused");
                continue;
            };
            let n = m.reg.len();
            if leg.len() != n {
                ctx.fail(key(), format!("{} coupons", n), format!("{}", leg.len()));
                continue;
            }
            let pcal = o.pmk.map_or(cal, |x| &cals[&format!("{:?}", x)]);
            let pconv = o.pconv.unwrap_or(B::Following);
            for (i, c) in leg.iter().enumerate() {
                let (a, b) = (m.d[i], m.d[i + 1]);
                let (first, last) = (i == 0, i > 0 && i == n - 1);
                let pay = pcal.advance(b, o.lag.unwrap_or(0), U::D, pconv, false).unwrap();
                let ex = o.ex.map_or(NULL, |e| cals[&format!("{:?}", e.mk)].advance(pay, -e.n, e.u, e.conv, e.eom).unwrap());
                let mut r = (a, b);
                if !m.reg[i] && first {
                    r.0 = cal.advance(b, -sp.n, sp.u, sp.conv, sp.eom).unwrap();
                } else if !m.reg[i] && last {
                    r.1 = cal.advance(a, sp.n, sp.u, sp.conv, sp.eom).unwrap();
                }
                let (nom, ri) = (nom(i.min(o.nn - 1)), i.min(o.nr - 1) + o.off);
                let d = if first && o.first { D::Nasd } else if last && o.last { D::Eu } else { rate_terms(ri).1 };
                let want = (a, b, pay, r.0, r.1, ex);
                let seen = (c.accrual_start_date(), c.accrual_end_date(), c.date(), c.reference_period_start(), c.reference_period_end(), c.ex_coupon_date());
                let seen = (seen.0.serial_number(), seen.1.serial_number(), seen.2.serial_number(), seen.3.serial_number(), seen.4.serial_number(), seen.5.serial_number());
                if want != seen {
                    let p = |x: (i32, i32, i32, i32, i32, i32)| format!("accrual {}..{} paid {} reference {}..{} ex {}", show(x.0), show(x.1), show(x.2), show(x.3), show(x.4), show(x.5));
                    ctx.fail(format!("coupon {} of {}", i, key()), p(want), p(seen));
                }
                ctx.ok(|| format!("terms of coupon {} of {}", i, key()), "notional, rate, conventions and day counter of its position", c.nominal() == nom && c.rate() == rate(ri).rate && same_rate(&c.rate, &rate(ri), d) && c.day_counter() == &d.make());
                ctx.outcome(if m.reg[i] { "regular" } else if first { "first stub" } else { "other irregular" }, 1);
            }
            ctx.st(n as u64);
            ctx.val(1);
        }
    });
    // the last setter wins, whatever was given before
    #[derive(Clone, Copy, Debug)]
    enum Set {
        N1(usize),
        Nv(usize),
        R1(usize),
        Rv(usize),
        I1(usize),
        Iv(usize),
    }
    use Set::*;
    let sets = [N1(2), N1(5), Nv(2), Nv(3), R1(0), R1(3), Rv(1), Rv(2), I1(1), I1(4), Iv(2), Iv(3)];
    let depth = ctx.pick(3, 4);
    ctx.bound(format!("every sequence of up to {} notional and rate setters ({} operations) before building", depth, sets.len()));
    let sp = Spec::new(t(2023, 1, 15), t(2024, 1, 15), 3, U::M, Mk::Nil);
    let base = each(|| sp.make());
    let total = (0..=depth).map(|d| sets.len().pow(d)).collect::<Vec<_>>();
    for (d, n) in total.iter().enumerate() {
        ctx.par(*n, |ix| {
            let mut ix = ix;
            let base: &Schedule = &base.get();
            let seq: Vec<Set> = (0..d).map(|_| { let s = sets[ix % sets.len()]; ix /= sets.len(); s }).collect();
            let mut noms = vec![NOMS[0], NOMS[1]];
            let mut rs: Vec<InterestRate> = vec![rate(0), rate(1), rate(2)];
            let many = |k: usize| -> Vec<f64> { (0..k).map(|j| 0.01 * (j + k) as f64).collect() };
            let mut l = FixedRateLeg::new(base.clone(), noms.clone(), rs.clone());
            for s in &seq {
                l = match *s {
                    N1(k) => { noms = vec![NOMS[k]]; l.with_notional(NOMS[k]) }
                    Nv(k) => { noms = NOMS[6 - k..].to_vec(); l.with_notionals(noms.clone()) }
                    R1(k) => { let (r, d, c, f) = rate_terms(k); rs = vec![rate(k)]; l.with_coupon_rate(r, d.make(), c, f) }
                    Rv(k) => { rs = many(k).into_iter().map(|r| InterestRate::new(r, D::Eu.make(), C::Compounded, F::Monthly)).collect(); l.with_coupon_rates(many(k), D::Eu.make(), C::Compounded, F::Monthly) }
                    I1(k) => { rs = vec![rate(k)]; l.with_interest_rate(rate(k)) }
                    Iv(k) => { rs = (0..k).map(|j| rate(j + k)).collect(); l.with_interest_rates(rs.clone()) }
                };
            }
            let got = call(|| l.build());
            let fine = got.is_ok_and(|leg| {
                leg.len() == 4 && leg.iter().enumerate().all(|(i, c)| {
                    let w = &rs[i.min(rs.len() - 1)];
                    c.nominal == noms[i.min(noms.len() - 1)] && c.rate.rate == w.rate && c.rate.compounding == w.compounding && c.rate.daycounter == w.daycounter
                })
            });
            ctx.ok(|| format!("leg after {:?}", seq), "coupons with the terms set last", fine);
            ctx.tr(d as u64 + 1);
            ctx.st(1);
        });
    }
    ctx.ok(|| "no rates".into(), "refused", call(|| FixedRateLeg::new(sp.make(), vec![1.0], vec![]).build()).is_err());
    ctx.ok(|| "no notionals".into(), "refused", call(|| FixedRateLeg::new(sp.make(), vec![], vec![rate(0)]).build()).is_err());
    ctx.sample(|| format!("leg on {}", all[all.len() / 2].key()));
}

#[derive(Clone, Copy, Debug)]
pub struct Cp {
    pub start: i32,
    pub end: i32,
    pub pay: i32,
    pub ex: i32,
    pub rs: i32,
    pub re: i32,
    pub nom: f64,
    pub r: f64,
    pub d: D,
    pub f: F,
}
fn opt(s: i32) -> Option<Date> {
    if s == NULL { None } else { Some(dt(s)) }
}
impl Cp {
    pub fn make(&self, c: &C) -> FixedRateCoupon {
        FixedRateCoupon::with_interest_rate(dt(self.pay), self.nom, InterestRate::new(self.r, self.d.make(), c.clone(), self.f), dt(self.start), dt(self.end), opt(self.rs), opt(self.re), opt(self.ex))
    }
    pub fn growth(&self, c: &C, a: i32, b: i32) -> Option<f64> {
        Some(self.nom * (factor(self.r, c, self.f, frac(self.d, a, b, self.rs, self.re)?)? - 1.0))
    }
    pub fn key(&self, c: &C) -> String {
        let s = |x: i32| if x == NULL { "-".into() } else { show(x) };
        format!("coupon({}..{} paid {} ex {} ref {}..{}, {} at {} {:?} {:?} {:?})", show(self.start), show(self.end), show(self.pay), s(self.ex), s(self.rs), s(self.re), self.nom, self.r, self.d, c, self.f)
    }
}

pub fn c23(ctx: &Ctx) {
    let dcs = [D::A360, D::A366, D::Us, D::BondBasis, D::Eu, D::AaIsda, D::AaAfb, D::AaOldIsma, D::One, D::It];
    let mut cps = vec![];
    let starts: &[i32] = &[t(2023, 1, 31), t(2023, 8, 15), t(2024, 2, 29), t(2022, 12, 31)];
    for d in dcs {
        for (si, start) in starts.iter().enumerate() {
            for len in ctx.pick(vec![1, 59, 184], vec![1, 2, 31, 59, 90, 184, 366]) {
                let end = start + len;
                for (rs, re) in [(NULL, NULL), (*start, end), (end - 184, end), (*start, start + 366)] {
                    if d != D::AaOldIsma && rs != NULL && si > 0 {
                        continue;
                    }
                    for lag in [0, 3] {
                        for ex in [NULL, end + lag - 5, end - 20, end + 1, *start, start - 2, end + lag] {
                            for (ri, r) in [0.05, -0.02, 0.0].into_iter().enumerate() {
                                let nom = [100.0, 1.0e6, -25.0][(ri + len as usize) % 3];
                                cps.push(Cp { start: *start, end, pay: end + lag, ex, rs, re, nom, r, d, f: [F::Annual, F::Semiannual, F::Monthly][(ri + si) % 3] });
                            }
                        }
                    }
                }
            }
        }
    }
    ctx.bound(format!("{} coupons x 5 compoundings x every date from 3 days before accrual to 3 days after payment; seen directly and through shared pointers, in both orders of asking", cps.len()));
    ctx.par(cps.len(), |i| {
        let p = cps[i];
        for c in super::rates::COMPS {
            at(p.key(&c));
            let cp = p.make(&c);
            let co: Rc<dyn Coupon> = Rc::new(cp.clone());
            let cf: Rc<dyn CashFlow> = Rc::new(cp.clone());
            let rc = Rc::new(cp.clone());
            let views: CouponLeg = vec![co.clone()];
            let close = |w: Option<f64>, g: Out<f64>| match (w, g) {
                (Some(w), Ok(g)) => (w - g).abs() <= 1e-12 * p.nom.abs().max(1.0),
                (None, Err(_)) => true,
                _ => false,
            };
            let amount = p.growth(&c, p.start, p.end);
            let amounts = || [call(|| cp.amount()), call(|| co.amount()), call(|| cf.amount()), call(|| rc.amount()), call(|| views[0].amount())];
            let before = amounts();
            ctx.ok(|| format!("{} amount {:?}", p.key(&c), before), &format!("{:?}", amount), before.iter().all(|g| close(amount, *g)));
            let period = frac(p.d, p.start, p.end, p.rs, p.re);
            let seen = call(|| (cp.accrual_period(), co.accrual_period(), views[0].accrual_period(), cp.accrual_days(), views[0].accrual_days()));
            ctx.ok(|| format!("{} accrual period {:?}", p.key(&c), seen), &format!("{:?} and {} days", period, p.d.count(p.start, p.end)),
                match (period, seen) {
                    (None, Err(_)) => true,
                    (Some(w), Ok((a, b, e, m, n))) => [a, b, e].iter().all(|x| (x - w).abs() < 1e-13) && m == p.d.count(p.start, p.end) && n == m,
                    _ => false,
                });
            if period.is_none() {
                continue;
            }
            ctx.ok(|| format!("{} terms", p.key(&c)), "those given, through every pointer",
                cp.nominal() == p.nom && views[0].nominal() == p.nom && cp.rate() == p.r && views[0].rate() == p.r && views[0].day_counter() == &p.d.make()
                    && [cp.ex_coupon_date(), co.ex_coupon_date(), cf.ex_coupon_date(), rc.ex_coupon_date(), CashFlow::ex_coupon_date(&rc), CashFlow::ex_coupon_date(&cf), CashFlow::ex_coupon_date(&co)].iter().all(|x| *x == dt(p.ex))
                    && [CashFlow::date(&cf), co.date(), cp.date()].iter().all(|x| *x == dt(p.pay))
                    && [CashFlow::accrual_start_date(&cf), co.accrual_start_date(), cp.accrual_start_date()].iter().all(|x| *x == dt(p.start))
                    && [CashFlow::accrual_end_date(&cf), co.accrual_end_date(), cp.accrual_end_date()].iter().all(|x| *x == dt(p.end))
                    && [CashFlow::reference_period_start(&cf), co.reference_period_start(), cp.reference_period_start()].iter().all(|x| *x == dt(p.rs))
                    && [CashFlow::reference_period_end(&cf), co.reference_period_end(), cp.reference_period_end()].iter().all(|x| *x == dt(p.re)));
            for x in p.start - 3..=p.pay + 3 {
                let inside = x > p.start && x <= p.pay;
                let exed = p.ex != NULL && p.ex <= x;
                let (want, want_p) = if !inside {
                    (Some(0.0), Some(0.0))
                } else if exed {
                    (p.growth(&c, x, x.max(p.end)).map(|v| -v), frac(p.d, x, x.max(p.end), p.rs, p.re).map(|v| -v))
                } else {
                    (p.growth(&c, p.start, x.min(p.end)), frac(p.d, p.start, x.min(p.end), p.rs, p.re))
                };
                let want_d = if inside { p.d.count(p.start, x.min(p.end)) } else { 0 };
                let day = dt(x);
                let got = [call(|| cp.accrued_amount(day)), call(|| co.accrued_amount(day)), call(|| CashFlow::accrued_amount(&cf, day)), call(|| views[0].accrued_amount(day))];
                if !got.iter().all(|g| close(want, *g)) {
                    ctx.fail(format!("{} accrued on {}", p.key(&c), show(x)), format!("{:?}", want), format!("{:?}", got));
                }
                let got = [call(|| cp.accrued_period(day)), call(|| co.accrued_period(day)), call(|| Coupon::accrued_period(&views[0], day))];
                if !got.iter().all(|g| match (want_p, g) {
                    (Some(w), Ok(g)) => (w - g).abs() < 1e-13,
                    (None, Err(_)) => true,
                    _ => false,
                }) {
                    ctx.fail(format!("{} accrued period on {}", p.key(&c), show(x)), format!("{:?}", want_p), format!("{:?}", got));
                }
                let got = [call(|| cp.accrued_days(day)), call(|| Coupon::accrued_days(&views[0], day))];
                if got.iter().any(|g| *g != Ok(want_d)) {
                    ctx.fail(format!("{} accrued days on {}", p.key(&c), show(x)), format!("{}", want_d), format!("{:?}", got));
                }
                if [cp.trading_ex_coupon(day), co.trading_ex_coupon(day), CashFlow::trading_ex_coupon(&cf, day)] != [exed; 3] {
                    ctx.fail(format!("{} ex-coupon on {}", p.key(&c), show(x)), format!("{}", exed), "differs".to_string());
                }
                // a leg of one coupon says the same (nothing once it is paid)
                let leg = vec![cf.clone()];
                for inc in [false, true] {
                    let w = if x > p.pay || (x == p.pay && !inc) { Some(0.0) } else { want };
                    let g = call(|| cashflow::accrued_amount(&leg, inc, day));
                    if !close(w, g) {
                        ctx.fail(format!("leg of {} accrued on {} include={}", p.key(&c), show(x), inc), format!("{:?}", w), format!("{:?}", g));
                    }
                }
                ctx.outcome(if !inside { "outside" } else if exed { "ex-coupon" } else { "accruing" }, 1);
                ctx.tr(12);
                ctx.st(1);
            }
            ctx.ok(|| format!("{} amount asked again", p.key(&c)), "unchanged", amounts() == before);
            ctx.val(1);
        }
    });
    // the plain constructor accrues simply
    let a = FixedRateCoupon::new(dt(t(2023, 7, 1)), 100.0, 0.06, D::Us.make(), dt(t(2023, 1, 1)), dt(t(2023, 7, 1)), None, None, None);
    ctx.ok(|| "FixedRateCoupon::new".into(), "3 = 100 * 6% * 180/360, no reference period, no ex-coupon date",
        (a.amount() - 3.0).abs() < 1e-12 && a.reference_period_start() == Date::default() && a.reference_period_end() == Date::default() && a.ex_coupon_date() == Date::default() && a.rate.compounding == C::Simple);
    ctx.sample(|| cps[cps.len() / 3].key(&C::Simple));
}

/// one flow of a model leg
#[derive(Clone, Copy, Debug)]
pub enum Fl {
    S(i32, f64),
    R(i32, f64),
    A(i32, f64),
    Cp(i32, i32, i32, i32, f64),
    /// a simply accruing coupon with all its terms
    K(Cp),
}
impl Fl {
    pub fn make(&self) -> Rc<dyn CashFlow> {
        match *self {
            Fl::S(d, a) => Rc::new(SimpleCashFlow::new(a, dt(d))),
            Fl::R(d, a) => Rc::new(Redemption::new(a, dt(d))),
            Fl::A(d, a) => Rc::new(AmortizingPayment::new(a, dt(d))),
            Fl::Cp(..) | Fl::K(_) => Rc::new(self.cp().unwrap().make(&C::Simple)),
        }
    }
    pub fn cp(&self) -> Option<Cp> {
        match *self {
            Fl::K(c) => Some(c),
            Fl::Cp(start, end, pay, ex, nom) => Some(Cp { start, end, pay, ex, rs: start, re: end, nom, r: 0.06, d: D::A360, f: F::Annual }),
            _ => None,
        }
    }
    pub fn date(&self) -> i32 {
        match *self {
            Fl::K(c) => c.pay,
            Fl::S(d, _) | Fl::R(d, _) | Fl::A(d, _) => d,
            Fl::Cp(_, _, pay, _, _) => pay,
        }
    }
    pub fn amount(&self) -> f64 {
        match *self {
            Fl::K(c) => c.growth(&C::Simple, c.start, c.end).unwrap(),
            Fl::S(_, a) | Fl::R(_, a) | Fl::A(_, a) => a,
            Fl::Cp(s, e, _, _, nom) => nom * 0.06 * (e - s) as f64 / 360.0,
        }
    }
    pub fn exed(&self, x: i32) -> bool {
        matches!(self.cp(), Some(c) if c.ex != NULL && c.ex <= x)
    }
    pub fn occurred(&self, x: i32, include: bool) -> bool {
        self.date() < x || (self.date() == x && !include)
    }
    /// time from `last` to the flow
    fn step(&self, d: D, value: i32, last: i32) -> Option<f64> {
        let pay = self.date();
        match self.cp() {
            Some(c) if c.start != last => Some(frac(d, c.start, pay, c.rs, c.re)? - frac(d, c.start, last, c.rs, c.re)?),
            Some(c) => frac(d, last, pay, c.rs, c.re),
            None => frac(d, last, pay, if last == value { add(pay, -1, U::Y)? } else { last }, pay),
        }
    }
}
pub struct Val {
    pub npv: f64,
    /// (amount, total time)
    pub flows: Vec<(f64, f64)>,
}
#[allow(clippy::too_many_arguments)]
pub fn value(leg: &[Fl], r: f64, d: D, c: &C, f: F, include: bool, settle: i32, value_date: i32) -> Option<Val> {
    let value_date = if value_date == NULL { settle } else { value_date };
    let (mut last, mut disc, mut npv, mut total) = (value_date, 1.0, 0.0, 0.0);
    let mut flows = vec![];
    for x in leg.iter().filter(|x| !x.occurred(settle, include)) {
        let step = x.step(d, value_date, last)?;
        disc /= factor(r, c, f, step)?;
        total += step;
        last = x.date();
        let a = if x.exed(settle) { 0.0 } else { x.amount() };
        npv += a * disc;
        flows.push((a, total));
    }
    Some(Val { npv, flows })
}

/// what the coupons paid together with the next flow have accrued
pub fn accrued(leg: &[Fl], x: i32, include: bool) -> Option<f64> {
    let Some(next) = leg.iter().find(|f| !f.occurred(x, include)) else { return Some(0.0) };
    leg.iter().filter(|f| f.date() == next.date()).filter_map(|f| f.cp()).map(|c| {
        if x <= c.start || x > c.pay {
            Some(0.0)
        } else if c.ex != NULL && c.ex <= x {
            c.growth(&C::Simple, x, x.max(c.end)).map(|v| -v)
        } else {
            c.growth(&C::Simple, c.start, x.min(c.end))
        }
    }).sum()
}

fn plain_legs(n: usize, grid: &[i32], amounts: &[f64]) -> Vec<Vec<Fl>> {
    let mut v: Vec<Vec<Fl>> = vec![vec![]];
    let mut out = vec![vec![]];
    for k in 0..n {
        v = v.into_iter()
            .flat_map(|l: Vec<Fl>| {
                let from = l.last().map_or(grid[0], |f| f.date());
                grid.iter().filter(|g| **g >= from).flat_map(|g| amounts.iter().map(|a| {
                    let mut m = l.clone();
                    m.push(match k % 3 { 0 => Fl::S(*g, *a), 1 => Fl::A(*g, *a), _ => Fl::R(*g, *a) });
                    m
                })).collect::<Vec<_>>()
            })
            .collect();
        out.extend(v.clone());
    }
    out
}
/// legs of consecutive coupons with and without ex-coupon dates, ended by a redemption
fn coupon_legs() -> Vec<Vec<Fl>> {
    let ends = [t(2023, 1, 15), t(2023, 4, 15), t(2023, 7, 14), t(2023, 10, 16)];
    let mut v = vec![];
    for n in 1..=3usize {
        for ex in [NULL, -7, 0, 1] {
            for lag in [0, 2] {
                for red in [0, 1, 2] {
                    let mut l: Vec<Fl> = (0..n).map(|i| {
                        let pay = ends[i + 1] + lag;
                        Fl::Cp(ends[i], ends[i + 1], pay, if ex == NULL || i == 1 { NULL } else { pay + ex }, 100.0 + i as f64)
                    }).collect();
                    if red > 0 {
                        // amortisation in the middle of the leg, redemption at its end
                        if n > 1 && red == 2 {
                            l.insert(1, Fl::A(ends[1] + lag, 40.0));
                        }
                        l.push(Fl::R(ends[n] + lag, 100.0));
                    }
                    v.push(l);
                }
            }
        }
    }
    // long legs, amortised on the way
    for n in [12, 30i32] {
        let at = |i: i32| add(t(2022, 1, 15), i as i64, U::M).unwrap();
        let mut l = vec![];
        for i in 0..n {
            l.push(Fl::Cp(at(i), at(i + 1), at(i + 1) + 2, if i % 3 == 1 { NULL } else { at(i + 1) - 7 }, 100.0 - i as f64));
            if i % 4 == 3 {
                l.push(Fl::A(at(i + 1) + 2, 4.0));
            }
        }
        l.push(Fl::R(at(n) + 2, 100.0 - n as f64));
        v.push(l.clone());
        v.push(l.into_iter().filter(|f| f.cp().is_some()).collect());
    }
    // two coupons paid on one day
    v.push(vec![Fl::Cp(ends[0], ends[1], ends[1], NULL, 0.0), Fl::Cp(ends[1], ends[2], ends[2], ends[2] - 5, 0.0), Fl::A(ends[2], 0.0), Fl::R(ends[3], 50.0)]);
    v.push(vec![Fl::Cp(ends[0], ends[1], ends[1], NULL, 100.0), Fl::Cp(ends[0], ends[1], ends[1], NULL, 50.0), Fl::Cp(ends[1], ends[2], ends[2], ends[2] - 5, 70.0), Fl::R(ends[2], 120.0)]);
    v
}

/// `n` of them, evenly, the first and the last two among them
fn some(v: &[i32], n: usize) -> Vec<i32> {
    let mut w: Vec<i32> = (0..n).map(|k| v[k * (v.len() - 1) / n]).collect();
    w.extend(&v[v.len().saturating_sub(2)..]);
    w.dedup();
    w
}
/// long legs: many flows, flows many decades away, small coupons under a large redemption
fn long_legs() -> Vec<Vec<Fl>> {
    let mut v = vec![];
    for (start, n, step, u, nom, red) in [
        (t(2022, 1, 15), 360, 1, U::M, 5.0, 100.0),
        (t(2020, 1, 5), 200, 6, U::M, 100.0, 100.0),
        (t(2020, 1, 5), 170, 6, U::M, 1.0, 1000.0),
        (t(2020, 1, 5), 40, 1, U::Y, 2.0e5, 1e7),
        (t(1990, 6, 30), 120, 1, U::Y, 800.0, 0.0),
    ] {
        let at = |i: i64| add(start, i * step as i64, u).unwrap();
        let mut l: Vec<Fl> = (0..n as i64).map(|i| Fl::Cp(at(i), at(i + 1), at(i + 1), if i % 5 == 2 { at(i + 1) - 9 } else { NULL }, nom)).collect();
        if red != 0.0 {
            l.push(Fl::R(at(n as i64), red));
        }
        v.push(l);
    }
    v.push((0..1000).map(|i| Fl::S(t(2023, 1, 2) + 7 * i, 1.0 + (i % 7) as f64)).collect());
    v.push((0..700).map(|i| Fl::S(t(2023, 1, 2) + 90 * i, if i == 699 { -4e9 } else { 25.0 })).collect());
    v.push((1..5).map(|i| Fl::R(t(2023, 1, 2) + 14600 * i, 1e4 * 50f64.powi(i))).collect());
    // the same amount due on one day again and again
    v.push((0..150).map(|i| Fl::A(t(2023, 1, 2) + 31 * (i / 10), 2.0)).collect());
    v
}

pub fn c24(ctx: &Ctx) {
    let grid = [t(2023, 3, 1), t(2023, 3, 31), t(2023, 9, 1), t(2024, 3, 1), t(2026, 2, 28)];
    let mut legs = plain_legs(ctx.pick(2, 3), &grid, &[100.0, 2.5, -30.0]);
    legs.extend(plain_legs(ctx.pick(3, 4), &grid[..4], &[5.0, 100.0]));
    // flows of nothing are flows all the same
    legs.extend(plain_legs(2, &grid, &[0.0, 7.0]));
    legs.extend(coupon_legs());
    let short = legs.len();
    legs.extend(long_legs());
    let rates = ctx.pick(vec![-0.01, 0.0, 0.05], vec![-0.01, 0.0, 0.0001, 0.05, 0.4]);
    let deep = [0.0, 0.05, 0.4, 2.0];
    let dcs = [D::A360, D::AaIsda, D::BondBasis, D::AaOldIsma];
    ctx.bound(format!("{} legs of up to {} flows (plain, amortising, redemption, coupons with ex dates; shared dates) x settlement on, before and after every flow and ex date x include flag x 3 value dates x {} yields x {} day counters x 5 compoundings x 3 frequencies", short, ctx.pick(4, 5), rates.len(), dcs.len()));
    ctx.bound(format!("{} long legs (up to 1000 flows, up to 175 years, flows worth next to nothing before and after large ones) x some settlements x include flag x 4 value dates x yields up to 200% x the same day counters and compoundings", legs.len() - short));
    ctx.par(legs.len(), |li| {
        let leg = &legs[li];
        let long = li >= short;
        let rates: &[f64] = if long { &deep } else { &rates };
        let real: CashFlowLeg = leg.iter().map(|f| f.make()).collect();
        at(format!("{:?}", leg));
        let mut days: Vec<i32> = leg.iter().flat_map(|f| {
            let ex = if let Fl::Cp(s, _, _, ex, _) = *f { vec![s, s + 30, ex - 1, ex] } else { vec![] };
            ex.into_iter().chain([f.date() - 1, f.date(), f.date() + 1, f.date() - 400]).filter(|d| *d > NULL)
        }).collect();
        days.push(t(2023, 2, 1));
        days.sort();
        days.dedup();
        if long {
            days = some(&days, ctx.pick(6, 25));
        }
        for &x in &days {
            for inc in [false, true] {
                let key = |w: &str| format!("{} of {:?} on {} include={}", w, leg.iter().map(|f| format!("{:?}@{}", f, show(f.date()))).collect::<Vec<_>>(), show(x), inc);
                let day = dt(x);
                for (f, r) in leg.iter().zip(&real) {
                    let seen = (r.has_occurred(&day, inc), CashFlow::has_occurred(r, &day, inc), r.trading_ex_coupon(day), CashFlow::trading_ex_coupon(r, day));
                    ctx.eq(|| key("occurrence"), (f.occurred(x, inc), f.occurred(x, inc), f.exed(x), f.exed(x)), seen);
                    ctx.ok(|| key("amount"), "as given", feq(r.amount(), f.amount(), 1e-13) && r.date() == dt(f.date()));
                }
                let next = leg.iter().position(|f| !f.occurred(x, inc));
                ctx.eq(|| key("next flow"), Ok(next), call(|| cashflow::next_cashflow(&real, inc, day)));
                // accrued: every coupon paid together with the next flow
                let acc = accrued(leg, x, inc).unwrap();
                ctx.close(|| key("accrued"), acc, call(|| cashflow::accrued_amount(&real, inc, day)), 1e-12);
                if leg.iter().all(|f| f.cp().is_some()) {
                    let cl: Vec<FixedRateCoupon> = leg.iter().map(|f| f.cp().unwrap().make(&C::Simple)).collect();
                    let (wd, wp) = next.map_or((0, 0.0), |n| {
                        let c = leg[n].cp().unwrap();
                        if x <= c.start || x > c.pay { (0, 0.0) } else { (x.min(c.end) - c.start, if c.ex != NULL && c.ex <= x { -((x.max(c.end) - x) as f64) } else { (x.min(c.end) - c.start) as f64 } / 360.0) }
                    });
                    ctx.eq(|| key("accrued days"), Ok(wd), call(|| cashflow::accrued_days(&cl, inc, day)));
                    ctx.close(|| key("accrued period"), wp, call(|| cashflow::accrued_period(&cl, inc, day)), 1e-13);
                    if !inc {
                        ctx.eq(|| key("accrued days of the bond"), Ok(wd), call(|| bondfunctions::accrued_days(&cl, day)));
                        ctx.close(|| key("accrued period of the bond"), wp, call(|| bondfunctions::accrued_period(&cl, day)), 1e-13);
                        ctx.close(|| key("accrued amount per 100 of a notional of 250"), acc * 100.0 / 250.0, call(|| bondfunctions::accrued_amount(&cl, 250.0, day)), 1e-12);
                    }
                }
                for vd in [NULL, x, x - 10, x + 9] {
                    for (di, d) in dcs.iter().enumerate() {
                        for c in super::rates::COMPS {
                            for f in [F::Annual, F::Semiannual, F::Quarterly] {
                                if matches!(c, C::Simple | C::Continuous) && f != F::Annual {
                                    continue;
                                }
                                for (ri, r) in rates.iter().enumerate() {
                                    if vd != NULL && (di + ri) % 2 == 1 {
                                        continue;
                                    }
                                    let ir = InterestRate::new(*r, d.make(), c.clone(), f);
                                    let got = call(|| cashflow::npv(&real, &ir, inc, day, dt(vd)));
                                    ctx.tr(1);
                                    match value(leg, *r, *d, &c, f, inc, x, vd) {
                                        Some(v) => {
                                            ctx.close(|| format!("{} value date {} at {} {:?} {:?} {:?}", key("npv"), show(vd), r, d, c, f), v.npv, got, 1e-11);
                                            // the chain telescopes for an additive time measure
                                            if *d == D::A360 && c == C::Continuous {
                                                let from = if vd == NULL { x } else { vd };
                                                let w: f64 = leg.iter().filter(|f| !f.occurred(x, inc) && !f.exed(x)).map(|f| f.amount() * (-r * (f.date() - from) as f64 / 360.0).exp()).sum();
                                                ctx.close(|| format!("{} closed form value date {} at {}", key("npv"), show(vd), r), w, got, 1e-11);
                                            }
                                            ctx.outcome(if v.flows.is_empty() { "exhausted leg" } else { "valued" }, 1);
                                        }
                                        None => ctx.outcome("no real value (not covered)", 1),
                                    }
                                }
                            }
                        }
                    }
                }
                ctx.st(1);
            }
        }
        if !leg.is_empty() {
            let w = leg.iter().map(|f| f.cp().map_or(f.date(), |c| c.end)).max().unwrap();
            ctx.eq(|| format!("maturity of {:?}", leg), Ok(w), call(|| cashflow::maturity_date(&real).serial_number()));
        }
        ctx.val(1);
    });
    ctx.ok(|| "maturity of no flows".into(), "refused", call(|| cashflow::maturity_date(&CashFlowLeg::new())).is_err());
    ctx.sample(|| format!("{:?}", legs[legs.len() - 2]));
}

pub fn c33(ctx: &Ctx) {
    let grid = [t(2023, 3, 1), t(2023, 9, 1), t(2024, 3, 1), t(2027, 2, 28)];
    let mut legs = plain_legs(ctx.pick(2, 3), &grid, &[100.0, 5.0]);
    legs.extend(coupon_legs());
    let short = legs.len();
    legs.extend(long_legs());
    let deep = [0.0, 0.004, 0.06, 0.5];
    let rates = ctx.pick(vec![0.0, 0.03, 0.2], vec![-0.01, 0.0, 0.0001, 0.01, 0.03, 0.05, 0.1, 0.2, 0.6]);
    let dcs = [D::A360, D::AaIsda, D::BondBasis, D::AaOldIsma];
    ctx.bound(format!("{} legs x settlement dates around every flow x include flag x {} yields x {} day counters x 5 compoundings x 7 frequencies, valued on the settlement date, earlier or later; {} long legs (up to 1000 flows, up to 175 years) on some dates at yields up to 50%", short, rates.len(), dcs.len(), legs.len() - short));
    ctx.par(legs.len(), |li| {
        let leg = &legs[li];
        let long = li >= short;
        let rates: &[f64] = if long { &deep } else { &rates };
        let h = if long { 2e-5 } else { 2e-4 };
        let real: CashFlowLeg = leg.iter().map(|f| f.make()).collect();
        let mut days: Vec<i32> = leg.iter().flat_map(|f| [f.date() - 100, f.date() - 3, f.date(), f.date() + 1]).collect();
        days.push(t(2023, 2, 1));
        days.sort();
        days.dedup();
        if long {
            days = some(&days, ctx.pick(3, 9));
        }
        at(format!("{:?}", leg));
        let mut k = li;
        for x in days {
            for inc in [false, true] {
                for d in dcs {
                    for c in super::rates::COMPS {
                        for f in &FREQS[2..9] {
                            if matches!(c, C::Simple | C::Continuous) && *f != F::Annual {
                                continue;
                            }
                            for &r in rates {
                                let ir = InterestRate::new(r, d.make(), c.clone(), *f);
                                k += 1;
                                let vd = [NULL, x - 40, NULL, x + 20, x][k % 5];
                                let got = call(|| cashflow::modified_duration(&real, &ir, inc, dt(x), dt(vd)));
                                let key = || format!("modified duration of {:?} on {} valued {} include={} at {} {:?} {:?} {:?}", leg.iter().map(|f| format!("{:?}@{}", f, show(f.date()))).collect::<Vec<_>>(), show(x), show(vd), inc, r, d, c, f);
                                ctx.tr(1);
                                let Some(v) = value(leg, r, d, &c, *f, inc, x, vd) else {
                                    ctx.outcome("no real value (not covered)", 1);
                                    continue;
                                };
                                // a flow exactly at the switch between simple and compounded has two one-sided slopes
                                let n = super::rates::per_year(*f).unwrap();
                                if !matches!(c, C::Simple | C::Continuous | C::Compounded) && v.flows.iter().any(|(_, t)| (t * n - 1.0).abs() < 1e-9) {
                                    ctx.outcome("flow at the switch (not covered)", 1);
                                    continue;
                                }
                                let p = |y: f64| -> f64 { v.flows.iter().map(|(a, t)| a / factor(y, &c, *f, *t).unwrap()).sum() };
                                let base = p(r);
                                if base.abs() < 1e-9 {
                                    ctx.ok(key, "zero for nothing left", matches!(got, Ok(g) if v.flows.iter().any(|x| x.0 != 0.0) || g == 0.0));
                                    ctx.outcome("nothing left", 1);
                                    continue;
                                }
                                // fourth-order central difference
                                let slope = (8.0 * (p(r + h) - p(r - h)) - (p(r + 2.0 * h) - p(r - 2.0 * h))) / (12.0 * h);
                                ctx.close(key, -slope / base, got, 2e-8);
                                ctx.outcome("duration", 1);
                                ctx.st(1);
                            }
                        }
                    }
                }
            }
        }
        ctx.val(1);
    });
    ctx.ok(|| "no flows".into(), "zero", call(|| cashflow::modified_duration(&CashFlowLeg::new(), &rate(0), false, dt(t(2023, 1, 1)), dt(NULL))) == Ok(0.0));
    ctx.sample(|| format!("{:?}", legs[legs.len() - 1]));
}
