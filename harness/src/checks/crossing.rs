//! C41-C43: what must agree across modules.  Legs on cut schedules, full periods under Actual/Actual ISMA, and one yield
//! quoted in several conventions or used on several days.
use super::bonds::{bond_specs, flows, frb, Opt, PLAIN};
use super::legs::specs;
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::{model, Spec, NULL};
use rust_quantlib::cashflows::cashflow::CashFlow;
use rust_quantlib::cashflows::coupon::Coupon;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::datetime::schedule::Schedule;
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;

/// the notional and the rate of position k
fn nom(k: usize) -> f64 {
    [1000.0, 700.0, 250.0, 40.0].get(k).copied().unwrap_or(1000.0 + 8.0 * k as f64)
}
fn coupon(k: usize) -> f64 {
    [0.05, 0.08, -0.01].get(k).copied().unwrap_or(0.001 * k as f64)
}

/// what of a leg's vectors is left from position k on
fn rest(v: &[f64], k: usize) -> Vec<f64> {
    if k < v.len() { v[k..].to_vec() } else { vec![v[v.len() - 1]] }
}

#[derive(Clone, Copy, Debug)]
struct Terms {
    nn: usize,
    nr: usize,
    lag: i32,
    pmk: Option<Mk>,
    ex: bool,
    d: D,
}
fn leg(s: &Schedule, o: &Terms, from: usize) -> Vec<FixedRateCoupon> {
    let rate = |r: f64| InterestRate::new(r, o.d.make(), C::Simple, F::Annual);
    let mut l = FixedRateLeg::new(s.clone(), rest(&(0..o.nn).map(nom).collect::<Vec<_>>(), from), rest(&(0..o.nr).map(coupon).collect::<Vec<_>>(), from).into_iter().map(rate).collect()).with_payment_lag(o.lag);
    if let Some(m) = o.pmk {
        l = l.with_payment_calendar(m.make()).with_payment_adjustment(B::Following);
    }
    if o.ex {
        l = l.with_ex_coupon_period(per(6, U::D), Mk::Target.make(), B::Preceding, false);
    }
    l.build()
}
/// (accrual, payment, ex date, notional, rate), then (reference period, amount)
type Seen = ((i32, i32, i32, i32, f64, f64), (i32, i32, f64));
fn seen(c: &FixedRateCoupon) -> Seen {
    let s = |d: Date| d.serial_number();
    ((s(c.accrual_start_date()), s(c.accrual_end_date()), s(c.date()), s(c.ex_coupon_date()), c.nominal(), c.rate()), (s(c.reference_period_start()), s(c.reference_period_end()), c.amount()))
}

pub fn c41(ctx: &Ctx) {
    let all: Vec<Spec> = specs(ctx.thorough()).into_iter().filter(|sp| model(sp, &Cal::new(sp.mk)).is_some_and(|m| m.d.len() > 2)).collect();
    let mut opts = vec![];
    for (k, d) in [D::A360, D::AaOldIsma, D::Us].into_iter().enumerate() {
        for (nn, nr) in [(1, 1), (4, 2), (2, 3), (9, 12), (130, 130)] {
            for lag in [0, 2] {
                let i = opts.len() + k;
                opts.push(Terms { nn, nr, lag, pmk: [None, Some(Mk::UsNyse), Some(Mk::Nil)][i % 3], ex: i % 2 == 0, d });
            }
        }
    }
    ctx.bound(format!("{} schedules (backward, forward, twentieth; stubs; up to 50 years) cut at every one of their dates and at places inside every period x {} sets of terms (up to 130 notionals and rates)", all.len(), opts.len()));
    ctx.par(all.len(), |si| {
        let sp = all[si];
        let m = model(&sp, &Cal::new(sp.mk)).unwrap();
        let n = m.reg.len();
        at(format!("cutting {}", sp.key()));
        let Ok(s) = call(|| sp.make()) else { return ctx.fail(sp.key(), "a schedule", "refused") };
        // cuts: (date, period whose end it is or that it splits, splits)
        let mut cuts: Vec<(i32, usize, bool)> = vec![];
        for k in 0..n {
            if k > 0 {
                cuts.push((m.d[k], k, false));
            }
            let (a, b) = (m.d[k], m.d[k + 1]);
            for x in [a + 1, (a + b) / 2, b - 1] {
                if a < x && x < b {
                    cuts.push((x, k, true));
                }
            }
        }
        cuts.dedup();
        for (oi, o) in opts.iter().enumerate() {
            if ctx.stopped() {
                return;
            }
            // a reference period is asked of an irregular period under ISMA: only its dates are compared
            let Ok(whole) = call(|| leg(&s, o, 0)) else {
                ctx.fail(format!("leg on {} with {:?}", sp.key(), o), "a leg", "refused");
                continue;
            };
            let Ok(want) = call(|| whole.iter().map(seen).collect::<Vec<Seen>>()) else {
                ctx.outcome("amounts refused (not covered)", 1);
                continue;
            };
            for (ci, &(x, k, splits)) in cuts.iter().enumerate() {
                if !ctx.thorough() && (ci + oi) % 2 != 0 {
                    continue;
                }
                let key = |w: String| format!("{}: leg on {} with {:?} cut at {}", w, sp.key(), o, show(x));
                let parts = call(|| (leg(&s.until(&dt(x)), o, 0), leg(&s.after(&dt(x)), o, k)));
                ctx.tr(3);
                ctx.st(1);
                let Ok((p, q)) = parts else {
                    ctx.fail(key("both parts".into()), "legs", "refused");
                    continue;
                };
                if p.len() != k + splits as usize || q.len() != n - k {
                    ctx.fail(key("number of coupons".into()), format!("{} and {}", k + splits as usize, n - k), format!("{} and {}", p.len(), q.len()));
                    continue;
                }
                let got: Vec<(usize, &FixedRateCoupon, bool)> = (0..p.len()).map(|i| (i, &p[i], i + 1 == p.len())).chain((0..q.len()).map(|j| (j + k, &q[j], j == 0))).collect();
                for (i, c, edge) in got {
                    if splits && i == k {
                        continue;
                    }
                    let Ok(g) = call(|| seen(c)) else {
                        if m.reg[i] || !edge {
                            ctx.fail(key(format!("coupon {}", i)), "its terms", "refused");
                        }
                        continue;
                    };
                    ctx.eq(|| key(format!("accrual, payment and ex dates, notional and rate of coupon {}", i)), want[i].0, g.0);
                    // an irregular period at the cut may be measured differently, unless it was the first anyway
                    if m.reg[i] || !edge || i == 0 {
                        ctx.ok(|| key(format!("reference period and amount of coupon {}: {:?}", i, g.1)), &format!("{:?}", want[i].1), g.1 .0 == want[i].1 .0 && g.1 .1 == want[i].1 .1 && feq(g.1 .2, want[i].1 .2, 1e-12));
                    }
                    ctx.val(1);
                }
                if splits {
                    let (u, v) = (&p[k], &q[0]);
                    let w = &want[k].0;
                    ctx.eq(|| key("the two parts of the period".into()), ((w.0, x, w.4, w.5), (x, w.1, w.2, w.3, w.4, w.5)),
                        ((u.accrual_start_date().serial_number(), u.accrual_end_date().serial_number(), u.nominal(), u.rate()), (v.accrual_start_date().serial_number(), v.accrual_end_date().serial_number(), v.date().serial_number(), v.ex_coupon_date().serial_number(), v.nominal(), v.rate())));
                    if o.d == D::A360 {
                        ctx.close(|| key("sum of the amounts of the two parts".into()), want[k].1 .2, call(|| u.amount() + v.amount()), 1e-11);
                    }
                    ctx.outcome("cut inside a period", 1);
                } else {
                    ctx.outcome("cut at a schedule date", 1);
                }
            }
        }
    });
    ctx.sample(|| format!("{} cut at its second date", all[0].key()));
}

// ------------------------------------------------------------------------------------------------

/// schedules whose tenor divides a year
fn equal_specs(wide: bool) -> Vec<Spec> {
    let mut v = vec![];
    let effs: &[i32] = &[ser(2022, 1, 31), ser(2022, 2, 28), ser(2019, 8, 30), ser(2023, 5, 15), ser(2096, 11, 30), ser(1987, 12, 29)];
    let effs = if wide { effs } else { &effs[..4] };
    for (ei, eff) in effs.iter().enumerate() {
        for tn in [1, 2, 3, 4, 6, 12] {
            for (li, len) in [12, 24, 60, 360].into_iter().enumerate() {
                if len / tn > 120 || (!wide && len == 360 && ei > 0) {
                    continue;
                }
                for (ri, rule) in [R::Backward, R::Forward].into_iter().enumerate() {
                    for (ci, conv) in [B::Unadjusted, B::Following, B::ModifiedFollowing, B::Preceding].into_iter().enumerate() {
                        for eom in [false, true] {
                            let mk = [Mk::Target, Mk::UsGovBond, Mk::Nil, Mk::UkSettlement][(ei + li + ri + ci) % 4];
                            let sp = Spec { eom, ..Spec::new(*eff, add(*eff, len, U::M).unwrap(), tn as i32, U::M, mk).rule(rule).conv(conv) };
                            v.push(sp);
                            // stubs
                            v.push(Spec { term: sp.term + 17, ..sp });
                            if rule == R::Backward {
                                v.push(Spec { ntl: sp.term - 20, ..sp });
                            } else {
                                v.push(Spec { first: sp.eff + 33, ..sp });
                            }
                        }
                    }
                }
            }
        }
    }
    v.into_iter().filter(|s| model(s, &Cal::new(s.mk)).is_some()).collect()
}

pub fn c42(ctx: &Ctx) {
    let all = equal_specs(true);
    let rates = [0.05, 0.0125, -0.004];
    ctx.bound(format!("{} schedules (tenors of 1, 2, 3, 4, 6 and 12 months, 1 to 30 years, adjusted or not, month ends, stubs) x 3 rates x both ISMA forms: every full period; par prices on every date of those without stubs", all.len()));
    ctx.par(all.len(), |si| {
        let sp = all[si];
        let m = model(&sp, &Cal::new(sp.mk)).unwrap();
        let n = m.reg.len();
        at(format!("full periods of {}", sp.key()));
        let Ok(s) = call(|| sp.make()) else { return ctx.fail(sp.key(), "a schedule", "refused") };
        let f = 12 / sp.n;
        let inner = n < 3 || m.reg[1..n - 1].iter().all(|r| *r);
        let mut counters: Vec<(&str, DayCounter)> = vec![("reference periods", DayCounter::actual_actual_old_isma())];
        if inner && n >= 2 {
            counters.push(("schedule", DayCounter::actual_actual_isma(s.clone())));
        }
        for (ri, r) in rates.into_iter().enumerate() {
            for (w, d) in &counters {
                let key = |x: String| format!("{} at {} under Actual/Actual ISMA ({}) on {}", x, r, w, sp.key());
                let got = call(|| FixedRateLeg::new(s.clone(), vec![2000.0], vec![InterestRate::new(r, d.clone(), C::Simple, F::Annual)]).build());
                let Ok(l) = got else {
                    ctx.fail(key("leg".into()), "a leg", "refused");
                    continue;
                };
                for (i, c) in l.iter().enumerate() {
                    if m.reg.get(i) == Some(&true) {
                        ctx.close(|| key(format!("coupon {}", i)), 2000.0 * r / f as f64, call(|| c.amount()), 1e-12);
                        ctx.close(|| key(format!("accrual period of coupon {}", i)), 1.0 / f as f64, call(|| c.accrual_period()), 1e-12);
                        ctx.outcome("full periods", 1);
                    } else {
                        ctx.outcome("stubs (not compared)", 1);
                    }
                    ctx.tr(2);
                }
                ctx.st(1);
                if m.reg.iter().all(|r| *r) {
                    let sum = call(|| l.iter().map(|c| c.amount()).sum::<f64>());
                    ctx.close(|| key("all coupons together".into()), 2000.0 * r * n as f64 / f as f64, sum, 1e-12);
                }
            }
            // paid on the dates on which periods end: worth par at the coupon on every coupon date
            if m.reg.iter().all(|r| *r) && (sp.conv != B::Unadjusted || sp.mk == Mk::Nil) && n <= 120 && (ri == 0 || ctx.thorough()) {
                let b = FixedRateBond::new(0, 100.0, s.clone(), vec![r], DayCounter::actual_actual_old_isma());
                let fr = [F::Annual, F::Semiannual, F::EveryFourthMonth, F::Quarterly, F::Bimonthly, F::Monthly][[1, 2, 3, 4, 6, 12].iter().position(|k| *k == f).unwrap()];
                // all payments on accrual ends
                if (0..n).all(|i| b.cashflows()[i].date() == b.cashflows()[i].accrual_end_date()) {
                    for (i, x) in m.d[..n].iter().enumerate() {
                        if i > 4 && i % 7 != 0 && i + 2 < n {
                            continue;
                        }
                        ctx.close(|| format!("price on {} of the {} bond on {} at its coupon", show(*x), r, sp.key()), 100.0, call(|| b.clean_price_from_yield(r, DayCounter::actual_actual_old_isma(), C::Compounded, fr, dt(*x))), 1e-11);
                        ctx.tr(1);
                        ctx.outcome("par prices", 1);
                    }
                }
            }
        }
        ctx.val(1);
    });
    ctx.sample(|| format!("every full coupon on {} pays the same", all[1].key()));
}

// ------------------------------------------------------------------------------------------------

pub fn c43(ctx: &Ctx) {
    let specs = bond_specs(ctx.thorough());
    let opts = [
        PLAIN,
        Opt { face: 1e4, d: D::AaOldIsma, coupons: &[0.02, 0.07], ..PLAIN },
        Opt { face: 500.0, d: D::A360, ex: Some((9, Mk::Nil, B::Unadjusted)), coupons: &[0.09], red: Some(103.0), ..PLAIN },
    ];
    let ys: Vec<f64> = ctx.pick(vec![0.0, 0.03, 0.12], vec![-0.02, 0.0, 0.0005, 0.03, 0.0731, 0.3]);
    let convs: Vec<(C, F)> = vec![(C::Continuous, F::NoFrequency), (C::Compounded, F::Annual), (C::Compounded, F::Semiannual), (C::Compounded, F::Monthly), (C::Compounded, F::Daily)];
    let dcs = [D::A360, D::AaIsda, D::AaOldIsma, D::BondBasis];
    ctx.bound(format!("{} bonds x settlement dates through the life x {} yields x all pairs of 5 compounding conventions x 4 day counters; every day of the first and last periods for the growth of prices", specs.len() * opts.len(), ys.len()));
    ctx.par(specs.len() * opts.len(), |i| {
        let (sp, o) = (specs[i / opts.len()], opts[i % opts.len()]);
        let Some(fl) = flows(&sp, &o) else { return };
        let o = Opt { issue: if i % opts.len() == 1 { fl[0].cp().map_or(NULL, |c| (c.start + c.end) / 2 + 1) } else { NULL }, ..o };
        let Ok(b) = call(|| frb(&sp, &o)) else { return ctx.fail(format!("bond on {} with {:?}", sp.key(), o), "a bond", "refused") };
        at(sp.key());
        let n = fl.len() - 1;
        let mut days: Vec<i32> = vec![];
        for j in [0, 1, n / 2, n - 1] {
            let c = fl[j.min(n - 1)].cp().unwrap();
            days.extend([c.start, (c.start + c.end) / 2, c.pay - 9, c.pay - 1]);
        }
        days.sort();
        days.dedup();
        days.retain(|x| *x < fl[n].date());
        for (xi, &x) in days.iter().enumerate() {
            let d = dcs[(i + xi) % dcs.len()];
            for y in &ys {
                for (ci, (c, f)) in convs.iter().enumerate() {
                    let Ok(p) = call(|| b.dirty_price_from_yield(*y, d.make(), c.clone(), *f, dt(x))) else {
                        ctx.fail(format!("price on {} of bond on {} with {:?} at {} {:?} {:?} {:?}", show(x), sp.key(), o, y, d, c, f), "a price", "refused");
                        continue;
                    };
                    for (cj, (c2, f2)) in convs.iter().enumerate() {
                        if ci == cj {
                            continue;
                        }
                        let key = |w: &str| format!("{} on {} of bond on {} with {:?} at {} {:?} {:?} {:?} quoted {:?} {:?}", w, show(x), sp.key(), o, y, d, c, f, c2, f2);
                        let t = [1.0, 0.5, 7.25][(ci + cj + xi) % 3];
                        let Ok(y2) = call(|| InterestRate::new(*y, d.make(), c.clone(), *f).equivalent_rate(c2, *f2, t).rate) else {
                            ctx.fail(key("equivalent yield"), "a rate", "refused");
                            continue;
                        };
                        ctx.close(|| key("price"), p, call(|| b.dirty_price_from_yield(y2, d.make(), c2.clone(), *f2, dt(x))), 1e-10);
                        ctx.tr(2);
                        // the yield found in the other convention is the equivalent one
                        let moves = x < fl[n].date() - 5;
                        if moves && (xi + ci + cj) % 5 == 0 {
                            let g = call(|| b.bond_yield(p - b.accrued_amount(dt(x)), d.make(), c2.clone(), *f2, dt(x)));
                            ctx.ok(|| key(&format!("yield {:?}", g)), &format!("{} within the accuracy", y2), g.is_ok_and(|g| (g - y2).abs() <= 2e-8));
                            ctx.outcome("yields", 1);
                        }
                        ctx.val(1);
                    }
                }
            }
            ctx.st(1);
        }
        // prices grow with the yield from day to day while nothing is paid
        let runs: Vec<(i32, i32)> = [0, n - 1].iter().map(|j| { let c = fl[*j].cp().unwrap(); (c.start.max(if *j > 0 { fl[*j - 1].date() } else { NULL }), c.pay - 1) }).collect();
        for d in [D::A360, D::AaIsda] {
            for (c, f) in [(C::Continuous, F::NoFrequency), (C::Compounded, F::Semiannual)] {
                for y in [0.04, -0.01] {
                    let rate = InterestRate::new(y, d.make(), c.clone(), f);
                    for (a, z) in &runs {
                        let step = ctx.pick(5, 1);
                        let mut last: Option<(i32, f64)> = None;
                        for x in (*a..=*z).step_by(step) {
                            let Ok(p) = call(|| b.dirty_price_from_yield(y, d.make(), c.clone(), f, dt(x))) else {
                                ctx.fail(format!("price on {} of bond on {} with {:?} at {} {:?} {:?}", show(x), sp.key(), o, y, d, c), "a price", "refused");
                                break;
                            };
                            if let Some((w, q)) = last {
                                let gone = fl.iter().any(|g| g.date() > w && (g.exed(w) != g.exed(x) || g.date() <= x));
                                if !gone {
                                    let g = call(|| rate.compound_factor_between_dates(&dt(w), &dt(x), &Date::default(), &Date::default()));
                                    ctx.close(|| format!("price on {} of bond on {} with {:?} at {} {:?} {:?} grown from {}", show(x), sp.key(), o, y, d, c, show(w)), p, g.map(|g| q * g), 1e-11);
                                    ctx.outcome("grown", 1);
                                }
                            }
                            last = Some((x, p));
                            ctx.tr(1);
                        }
                    }
                }
            }
        }
    });
    // a single flow, up to 120 years away
    ctx.bound("zero-coupon bonds of 1 day to 120 years x 3 settlement dates x 5 yields up to 50% x the same conventions and day counters");
    let terms = [1, 40, 90, 91, 92, 179, 180, 181, 183, 359, 360, 361, 362, 365, 366, 367, 3653, 9000, 14610, 25000, 43830];
    ctx.par(terms.len() * 3, |i| {
        let (days, x) = (terms[i / 3], [ser(2023, 3, 1), ser(2024, 2, 29), ser(2061, 12, 30)][i % 3]);
        at(format!("zero-coupon bond of {} days", days));
        let b = ZeroCouponBond::new(0, &Mk::Nil.make(), 1e4, dt(x + days));
        for d in [D::A360, D::AaIsda, D::BondBasis] {
            for y in [-0.01, 0.003, 0.06, 0.17, 0.5] {
                // the mixed conventions price as the one of their two which is in force
                if let Some(t) = super::legs::frac(d, x, x + days, NULL, NULL).filter(|_| d == D::A360 || d == D::AaIsda) {
                    for f in [F::Annual, F::Semiannual, F::Quarterly, F::Monthly] {
                        let within = t <= 1.0 / f as i32 as f64;
                        let price = |c: C| call(|| b.dirty_price_from_yield(y, d.make(), c, f, dt(x)));
                        for (mixed, plain) in [(C::SimpleThenCompounded, if within { C::Simple } else { C::Compounded }), (C::CompoundedThenSimple, if within { C::Compounded } else { C::Simple })] {
                            let (g, w) = (price(mixed.clone()), price(plain.clone()));
                            ctx.ok(|| format!("price on {} of {} days at {} {:?} {:?} {:?} is {:?}", show(x), days, y, d, mixed, f, g), &format!("as {:?}: {:?}", plain, w), matches!((&g, &w), (Ok(g), Ok(w)) if (g - w).abs() <= 1e-12 * w.abs()) || (g.is_err() && w.is_err()));
                            ctx.tr(2);
                        }
                        ctx.outcome(if within { "within a period" } else { "beyond a period" }, 1);
                    }
                }
                for (ci, (c, f)) in convs.iter().enumerate() {
                    let Ok(p) = call(|| b.dirty_price_from_yield(y, d.make(), c.clone(), *f, dt(x))) else {
                        ctx.fail(format!("price on {} of {} days at {} {:?} {:?} {:?}", show(x), days, y, d, c, f), "a price", "refused");
                        continue;
                    };
                    let rate = InterestRate::new(y, d.make(), c.clone(), *f);
                    let key = |w: &str| format!("{} on {} of {} days at {} {:?} {:?} {:?}", w, show(x), days, y, d, c, f);
                    let near = |w: f64, g: Out<f64>| matches!(g, Ok(g) if (w - g).abs() <= 1e-9 * w.abs());
                    if d != D::BondBasis {
                        let g = call(|| 100.0 / rate.compound_factor_between_dates(&dt(x), &dt(x + days), &Date::default(), &Date::default()));
                        ctx.ok(|| key(&format!("price {}", p)), &format!("{:?}", g), near(p, g));
                    }
                    for (c2, f2) in convs.iter().skip(ci + 1) {
                        let Ok(y2) = call(|| rate.equivalent_rate(c2, *f2, 2.0).rate) else {
                            ctx.fail(key("equivalent yield"), "a rate", "refused");
                            continue;
                        };
                        let g = call(|| b.dirty_price_from_yield(y2, d.make(), c2.clone(), *f2, dt(x)));
                        ctx.ok(|| key(&format!("price {:?} quoted {:?} {:?}", g, c2, f2)), &format!("{}", p), near(p, g));
                        ctx.tr(2);
                        ctx.val(1);
                    }
                    // half way, the price has grown with the yield
                    let mid = x + days / 2;
                    if d != D::BondBasis && mid > x {
                        let g = call(|| rate.compound_factor_between_dates(&dt(x), &dt(mid), &Date::default(), &Date::default()));
                        ctx.ok(|| key("price half way"), "grown with the yield", g.is_ok_and(|g| near(p * g, call(|| b.dirty_price_from_yield(y, d.make(), c.clone(), *f, dt(mid))))));
                    }
                    ctx.st(1);
                }
            }
        }
    });
    ctx.sample(|| specs[3].key());
}
