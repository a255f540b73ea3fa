//! C40, second part: families of questions that differ in a single argument, so that an answer kept from one
//! of them shows in the other.
use super::legs::{Cp, Fl};
use super::rates::COMPS;
use super::wholes::World;
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::{Spec, NULL, RULES};
use rust_quantlib::cashflows::cashflow::{self, CashFlow, CashFlowLeg};
use rust_quantlib::cashflows::coupon::Coupon;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::datetime::imm::IMM;
use rust_quantlib::datetime::schedule::previous_twentieth;
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::maths::interpolations::{interpolation::Interpolation, lagrangeinterpolation::LagrangeInterpolation, linearinterpolation::LinearInterpolation};
use rust_quantlib::maths::rounding::Rounding;
use rust_quantlib::maths::solvers1d::{brent::Brent, finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe, newtonsafe::NewtonSafe, solver1d::Solver1D};
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;

pub type Ask = Box<dyn Fn(&World) -> String + Send + Sync>;
pub struct Family {
    pub name: &'static str,
    pub asks: Vec<(String, Ask)>,
}
impl Family {
    fn new(name: &'static str) -> Family {
        Family { name, asks: vec![] }
    }
    fn add<T: std::fmt::Debug>(&mut self, what: String, f: impl Fn(&World) -> T + Send + Sync + 'static) {
        self.asks.push((format!("{}: {}", self.name, what), Box::new(move |w| format!("{:?}", call(|| f(w))))));
    }
}
fn t(y: i32, m: i32, d: i32) -> i32 {
    ser(y, m, d)
}
/// the first of each list, and every tuple that differs from it in one place
macro_rules! one_off {
    ($($v:ident in $l:expr),* ; $body:block) => {{
        let lens = [$($l.len()),*];
        let mut all = vec![vec![0usize; lens.len()]];
        for (p, n) in lens.iter().enumerate() {
            for k in 1..*n {
                let mut x = vec![0; lens.len()];
                x[p] = k;
                all.push(x);
            }
        }
        for x in all {
            let mut it = x.into_iter();
            $(let $v = $l[it.next().unwrap()].clone();)*
            $body
        }
    }};
}

pub fn families() -> Vec<Family> {
    let mut out = vec![];
    let null = || dt(NULL);

    let mut f = Family::new("moving dates");
    for s in [t(2023, 1, 31), t(2024, 2, 29), t(1999, 12, 31), t(2023, 8, 30)] {
        for (n, u) in [(1, U::D), (31, U::D), (1, U::W), (1, U::M), (13, U::M), (1, U::Y), (4, U::Y), (-1, U::M), (-1, U::Y), (-1, U::D)] {
            f.add(format!("{} + {}{:?}", show(s), n, u), move |_| dt(s) + per(n, u));
            f.add(format!("{} - {}{:?}", show(s), n, u), move |_| dt(s) - per(n, u));
        }
        f.add(format!("{} fields", show(s)), move |_| (dt(s).year(), dt(s).month(), dt(s).day_of_month(), dt(s).day_of_year(), dt(s).weekday(), dt(s).end_of_month()));
    }
    for (a, b) in [((12, U::M), (1, U::Y)), ((30, U::D), (1, U::M)), ((7, U::D), (1, U::W)), ((4, U::W), (1, U::M)), ((32, U::D), (1, U::M)), ((366, U::D), (1, U::Y))] {
        f.add(format!("{:?} against {:?}", a, b), move |_| (per(a.0, a.1) == per(b.0, b.1), per(a.0, a.1).partial_cmp(&per(b.0, b.1))));
        f.add(format!("{:?} against {:?}", b, a), move |_| (per(b.0, b.1) == per(a.0, a.1), per(b.0, b.1).partial_cmp(&per(a.0, a.1))));
    }
    out.push(f);

    let mut f = Family::new("calendars");
    let edits: [(&str, Option<i32>, Option<i32>); 5] = [("plain", None, None), ("one added", Some(t(2023, 6, 15)), None), ("another added", Some(t(2023, 6, 16)), None), ("one removed", None, Some(t(2023, 5, 1))), ("a Saturday removed", None, Some(t(2023, 6, 17)))];
    one_off!(mk in MARKETS, e in edits, day in [t(2023, 5, 1), t(2023, 6, 15), t(2023, 6, 16), t(2023, 6, 17), t(2023, 12, 31), t(2022, 5, 1)] ; {
        let make = move || { let mut c = mk.make(); e.1.map(|s| c.add_holiday(dt(s))); e.2.map(|s| c.remove_holiday(dt(s))); c };
        let w = format!("{:?} {} {}", mk, e.0, show(day));
        f.add(format!("holiday {}", w), move |_| make().is_holiday(&dt(day)));
        f.add(format!("month end {}", w), move |_| (make().end_of_month(&dt(day)), make().is_end_of_month(&dt(day))));
        for c in CONV {
            f.add(format!("adjust {:?} {}", c, w), move |_| make().adjust(dt(day), c));
        }
        for (n, u, c, x) in [(2, U::D, B::Following, false), (-2, U::D, B::Following, false), (1, U::M, B::Following, false), (1, U::M, B::Preceding, false), (1, U::M, B::Following, true), (1, U::W, B::Following, false), (1, U::Y, B::Following, true)] {
            f.add(format!("advance {}{:?} {:?} {} {}", n, u, c, x, w), move |_| make().advance_by_period(dt(day), per(n, u), c, x));
        }
        for (n, a, b) in [(47, true, false), (48, true, false), (47, false, false), (47, true, true), (-47, true, false)] {
            f.add(format!("count {} {} {} {}", n, a, b, w), move |_| make().business_days_between(dt(day), dt(day + n), a, b));
        }
        for (n, b) in [(40, true), (40, false), (41, true)] {
            f.add(format!("lists {} {} {}", n, b, w), move |_| (make().holiday_list(dt(day), dt(day + n), b).len(), make().business_day_list(dt(day), dt(day + n)).len()));
        }
    });
    // around the edited days, on every edited calendar
    for (mk, e) in [Mk::Target, Mk::UsNyse].iter().flat_map(|m| edits.iter().map(move |e| (*m, *e))) {
        let make = move || { let mut c = mk.make(); e.1.map(|s| c.add_holiday(dt(s))); e.2.map(|s| c.remove_holiday(dt(s))); c };
        for day in [t(2023, 4, 28), t(2023, 6, 14)] {
            let w = format!("{:?} {} around {}", mk, e.0, show(day));
            for n in [1, 2, 3] {
                f.add(format!("advance {} {}", n, w), move |_| make().advance_by_period(dt(day), per(n, U::D), B::Following, false));
                f.add(format!("advance {} back {}", n, w), move |_| make().advance_by_period(dt(day + 5), per(-n, U::D), B::Following, false));
            }
            f.add(format!("month on {}", w), move |_| (make().advance_by_period(dt(day - 30), per(1, U::M), B::Following, false), make().advance_by_period(dt(day - 6), per(1, U::W), B::Following, false), make().adjust(dt(day + 1), B::Following), make().adjust(dt(day + 3), B::Preceding)));
            for (a, b) in [(true, false), (false, true), (true, true), (false, false)] {
                f.add(format!("count {} {} {}", a, b, w), move |_| make().business_days_between(dt(day), dt(day + 3), a, b));
                f.add(format!("count {} {} back {}", a, b, w), move |_| make().business_days_between(dt(day + 3), dt(day), a, b));
            }
            f.add(format!("lists {}", w), move |_| (make().holiday_list(dt(day), dt(day + 7), false), make().business_day_list(dt(day), dt(day + 7))));
        }
    }
    for y in [2023, 2024, 2016, 2100] {
        f.add(format!("Easter {}", y), move |_| calendar::easter_monday(y));
        f.add(format!("orthodox Easter {}", y), move |_| calendar::easter_monday_orthodox(y));
    }
    out.push(f);

    let mut f = Family::new("day counts");
    // schedules with the same ends and the same number of dates
    let ends = Spec::new(t(2022, 1, 31), t(2025, 3, 14), 6, U::M, Mk::Nil);
    let scheds = [
        ends,
        ends.rule(R::Forward),
        Spec { eom: true, ..ends },
        ends.conv(B::Preceding),
        Spec { mk: Mk::Target, ..ends },
        Spec { n: 3, ..ends },
        Spec { first: t(2022, 8, 31), ..ends },
        Spec { ntl: t(2024, 8, 31), ..ends },
    ];
    for a in [t(2023, 1, 31), t(2023, 2, 28), t(2024, 2, 29)] {
        for b in [t(2024, 2, 29), t(2024, 7, 31), t(2022, 12, 31)] {
            for d in [D::Us, D::BondBasis, D::Eu, D::It, D::Isda(t(2024, 2, 29)), D::Isda(t(2025, 2, 28)), D::Nasd, D::T365, D::A360, D::A360Inc, D::A366, D::A366Inc, D::One, D::Simple, D::AaIsda, D::AaAfb, D::AaOldIsma] {
                f.add(format!("{:?} {} to {}", d, show(a), show(b)), move |_| (d.make().day_count(&dt(a), &dt(b)), d.make().year_fraction(&dt(a), &dt(b), &null(), &null())));
            }
            for (rs, re) in [(t(2022, 12, 31), t(2024, 12, 31)), (t(2022, 12, 31), t(2023, 12, 31)), (t(2023, 1, 31), t(2023, 7, 31)), (t(2022, 7, 31), t(2023, 1, 31))] {
                f.add(format!("ISMA {} to {} in {} to {}", show(a), show(b), show(rs), show(re)), move |_| D::AaOldIsma.make().year_fraction(&dt(a), &dt(b), &dt(rs), &dt(re)));
            }
            for s in scheds {
                f.add(format!("ISMA {} to {} on {}", show(a), show(b), s.key()), move |_| DayCounter::actual_actual_isma(s.make()).year_fraction(&dt(a), &dt(b), &null(), &null()));
            }
        }
    }
    out.push(f);

    let mut f = Family::new("schedules");
    one_off!(rule in RULES, eff in [t(2022, 1, 31), t(2022, 2, 20), NULL], term in [t(2025, 3, 14), t(2025, 3, 31)], n in [6, 3, 1, 12], mk in [Mk::Target, Mk::Nil, Mk::UsNyse], conv in [B::Unadjusted, B::Following, B::Preceding, B::ModifiedFollowing], tconv in [B::Unadjusted, B::Following, B::Preceding], eom in [false, true], first in [NULL, t(2022, 6, 15), t(2022, 7, 31)], ntl in [NULL, t(2024, 11, 30), t(2024, 11, 15)], eval in [t(2022, 12, 1), t(2023, 12, 1)] ; {
        let ws = [Spec { eff, term, n, mk, conv, tconv, rule, eom, first, ntl, eval, u: U::M }, Spec { eff, term, n, mk, conv, tconv, rule: if rule == RULES[0] { R::Forward } else { rule }, eom, first, ntl, eval, u: U::M }, Spec { eff, term, n, mk, conv, tconv, rule: if rule == RULES[0] { R::Backward } else { rule }, eom, first, ntl, eval, u: U::M }];
        for s in ws {
            f.add(s.key(), move |_| { let x = s.make(); (x.dates().iter().map(|d| d.serial_number()).collect::<Vec<_>>(), (1..x.size()).map(|i| x.is_regular(i)).collect::<Vec<_>>()) });
        }
        let s = ws[2];
        for d in [t(2023, 5, 2), t(2024, 5, 2), NULL] {
            f.add(format!("{} around {}", s.key(), show(d.max(MIN))), move |_| { let x = s.make(); (x.next_date(&dt(d)), x.previous_date(&dt(d))) });
            f.add(format!("{} cut at {}", s.key(), show(d.max(MIN))), move |_| { let x = s.make(); (x.until(&dt(d)).size(), x.after(&dt(d)).size()) });
        }
    });
    out.push(f);

    let mut f = Family::new("twentieths and IMM dates");
    for day in [t(2023, 5, 2), t(2023, 5, 20), t(2023, 3, 14), t(2023, 3, 19), t(2023, 3, 20), t(2023, 3, 31), t(2022, 5, 2), t(2016, 12, 20), t(2016, 12, 22), t(2013, 3, 14)] {
        for r in RULES {
            f.add(format!("twentieth before {} {:?}", show(day), r), move |_| previous_twentieth(&dt(day), r));
        }
        for r in [R::CDS, R::CDS2015, R::OldCDS] {
            for (n, u) in [(5, U::Y), (1, U::Y), (3, U::M), (0, U::M)] {
                f.add(format!("maturity {} {}{:?} {:?}", show(day), n, u, r), move |_| cds_maturity(&dt(day), per(n, u), r));
            }
        }
        for eval in [t(2023, 5, 2), t(2035, 1, 1)] {
            let imm = move || IMM::new(PricingContext::new(dt(eval)));
            for main in [false, true] {
                f.add(format!("IMM {} {} evaluated {}", show(day), main, show(eval)), move |_| (imm().is_imm_date(&dt(day), main), imm().next_date(&dt(day), main), imm().next_code(&dt(day), main)));
                f.add(format!("IMM next to nothing {} evaluated {}", main, show(eval)), move |_| imm().next_date(&null(), main));
                for code in ["M3", "N3", "M4", "z9"] {
                    f.add(format!("IMM {} from {} {} evaluated {}", code, show(day), main, show(eval)), move |_| (imm().is_imm_code(code, main), imm().date(code, &dt(day)), imm().next_date_from_code(code, main, &dt(day)), imm().date(code, &null())));
                }
            }
        }
    }
    out.push(f);

    let mut f = Family::new("rates");
    for c in COMPS {
        one_off!(r in [0.05, 0.06, -0.01, 0.0], q in [F::Annual, F::Semiannual, F::EveryFourthMonth, F::Quarterly, F::Bimonthly, F::Monthly, F::EveryFourthWeek, F::Biweekly, F::Weekly, F::Daily], x in [1.25, 0.25, 2.0, 0.0], d in [D::A360, D::BondBasis, D::AaOldIsma], ref_ in [(NULL, NULL), (t(2023, 1, 31), t(2023, 7, 31))], day in [t(2024, 5, 31), t(2024, 6, 1)] ; {
            let c = c.clone();
            let ir = move || InterestRate::new(r, d.make(), c.clone(), q);
            let w = format!("{:?} {} {:?} {} {:?}", ir().compounding, r, q, x, d);
            let i = ir.clone();
            f.add(format!("factor {}", w), move |_| (i().compound_factor(x), i().discount_factor(x), i().frequency()));
            let i = ir.clone();
            f.add(format!("factor between dates {} {:?} {}", w, ref_, show(day)), move |_| { let (a, b, s, e) = (dt(t(2023, 1, 31)), dt(day), dt(ref_.0), dt(ref_.1)); (i().compound_factor_between_dates(&a, &b, &s, &e), i().discount_factor_between_dates(&a, &b, &s, &e)) });
            for (k, p) in [(C::Continuous, F::Annual), (C::Compounded, F::Annual), (C::Compounded, F::Monthly), (C::Simple, F::Annual)] {
                let (i, j) = (ir.clone(), ir.clone());
                let (k2, k3) = (k.clone(), k.clone());
                f.add(format!("equivalent {:?} {:?} {}", k, p, w), move |_| { let e = i().equivalent_rate(&k2, p, x); (e.rate, e.compounding.clone(), e.frequency(), e.daycounter.name()) });
                f.add(format!("equivalent between dates {:?} {:?} {} {:?} {}", k, p, w, ref_, show(day)), move |_| { let e = j().equivalent_rate_between_dates(&D::AaIsda.make(), &k3, p, &dt(t(2023, 1, 31)), &dt(day), &dt(ref_.0), &dt(ref_.1)); (e.rate, e.compounding.clone(), e.frequency(), e.daycounter.name()) });
            }
            let i = ir.clone();
            for g in [1.1, 1.2] {
                let i = i.clone();
                f.add(format!("implied {} {}", g, w), move |_| { let q = i(); let e = q.implied_rate(g, &q.daycounter, &q.compounding, q_freq(&q), x); e.rate });
            }
        });
    }
    out.push(f);

    let mut f = Family::new("coupons and legs");
    let cp = |start: i32, len: i32, lag: i32, ex: i32, nom: f64, r: f64, d: D| Cp { start, end: start + len, pay: start + len + lag, ex: if ex == 0 { NULL } else { start + len - ex }, rs: start, re: start + len, nom, r, d, f: F::Annual };
    for c in [C::Simple, C::Compounded] {
        one_off!(start in [t(2023, 1, 10), t(2023, 1, 11)], len in [181, 182], lag in [2, 0], ex in [7, 0], nom in [100.0, 50.0], r in [0.04, 0.05], d in [D::A360, D::BondBasis, D::AaOldIsma] ; {
            let p = cp(start, len, lag, ex, nom, r, d);
            let w = p.key(&c);
            let c1 = c.clone();
            f.add(format!("{} amount", w), move |_| p.make(&c1).amount());
            for day in [t(2023, 3, 1), t(2023, 7, 6), t(2023, 7, 10)] {
                let c1 = c.clone();
                f.add(format!("{} accrued on {}", w, show(day)), move |_| { let q = p.make(&c1); (q.accrued_amount(dt(day)), q.accrued_period(dt(day)), q.accrued_days(dt(day)), CashFlow::trading_ex_coupon(&q, dt(day))) });
            }
        });
    }
    one_off!(len in [181, 182], nom in [100.0, 50.0], r in [0.04, 0.05], d in [D::A360, D::BondBasis], ex in [7, 0], red in [100.0, 105.0] ; {
        let leg = move || -> CashFlowLeg {
            let cp = |i: i32| Cp { start: t(2023, 1, 10) + len * i, end: t(2023, 1, 10) + len * (i + 1), pay: t(2023, 1, 12) + len * (i + 1), ex: if ex == 0 { NULL } else { t(2023, 1, 10) + len * (i + 1) - ex }, rs: t(2023, 1, 10) + len * i, re: t(2023, 1, 10) + len * (i + 1), nom, r, d, f: F::Annual };
            [Fl::K(cp(0)), Fl::K(cp(1)), Fl::R(t(2023, 1, 12) + len * 2, red)].iter().map(|x| x.make()).collect()
        };
        one_off!(y in [0.03, 0.06, 0.0], k in [D::A360, D::AaIsda], c in COMPS, q in [F::Annual, F::Quarterly, F::Monthly, F::Daily], inc in [false, true], day in [t(2023, 3, 1), t(2023, 3, 2), t(2023, 7, 12)], vd in [NULL, t(2023, 2, 1)] ; {
            let w = format!("leg {} {} {} {:?} {} {} at {} {:?} {:?} {:?} {} on {} as of {}", len, nom, r, d, ex, red, y, k, c, q, inc, show(day), show(vd.max(MIN)));
            let ir = move || InterestRate::new(y, k.make(), c.clone(), q);
            f.add(w, move |_| (cashflow::npv(&leg(), &ir(), inc, dt(day), dt(vd)), cashflow::modified_duration(&leg(), &ir(), inc, dt(day), dt(vd)), cashflow::accrued_amount(&leg(), inc, dt(day)), cashflow::next_cashflow(&leg(), inc, dt(day))));
        });
    });
    // legs of one total and one last date
    for at in [vec![(400, 100.0)], vec![(200, 50.0), (400, 50.0)], vec![(100, 50.0), (400, 50.0)], vec![(300, 25.0), (400, 75.0)], vec![(100, 20.0), (200, 30.0), (400, 50.0)]] {
        let leg = move || -> CashFlowLeg { at.iter().map(|(n, a)| Fl::R(t(2023, 1, 10) + n, *a).make()).collect() };
        for (y, c) in [(0.0, C::Continuous), (0.0, C::Simple), (0.04, C::Compounded)] {
            let leg = leg.clone();
            f.add(format!("total {:?} at {}", leg().iter().map(|x| (x.date(), x.amount())).collect::<Vec<_>>(), y), move |_| {
                let ir = InterestRate::new(y, D::A360.make(), c.clone(), F::Annual);
                let day = dt(t(2023, 1, 10));
                (cashflow::npv(&leg(), &ir, false, day, day), cashflow::modified_duration(&leg(), &ir, false, day, day), cashflow::next_cashflow(&leg(), false, day))
            });
        }
    }
    // among them legs of one coupon, in which a last answer survives from one leg to the next
    for one in [false, true] {
    let short = Spec { eff: t(2022, 8, 14), term: t(2023, 2, 14), ..ends };
    let scheds = if one { [short, Spec { n: 12, eff: t(2022, 2, 14), ..short }, Spec { eom: true, ..short }, Spec { mk: Mk::Target, ..short }, Spec { term: t(2023, 2, 15), rule: R::Zero, ..short }, Spec { rule: R::Zero, ..short }, Spec { rule: R::Forward, ..short }, Spec { conv: B::Preceding, ..short }] } else { scheds };
    one_off!(s in scheds, nom in [vec![100.0], vec![50.0], vec![100.0, 90.0]], lag in [0, 2, -1], pmk in [None, Some(Mk::UsNyse), Some(Mk::Target)], pconv in [B::Following, B::Preceding], ex in [None, Some((7, U::D, B::Unadjusted, false)), Some((8, U::D, B::Unadjusted, false)), Some((7, U::D, B::Preceding, false)), Some((1, U::M, B::Preceding, false)), Some((1, U::M, B::Following, false)), Some((1, U::M, B::Unadjusted, false)), Some((1, U::M, B::ModifiedFollowing, false)), Some((1, U::M, B::Preceding, true)), Some((2, U::M, B::Preceding, false)), Some((4, U::W, B::Preceding, false))], exmk in [Mk::Target, Mk::UsNyse, Mk::Nil], first in [None, Some(D::Nasd), Some(D::A360)] ; {
        let w = format!("leg on {} {:?} {} {:?} {:?} {:?} {:?} {:?}", s.key(), nom, lag, pmk, pconv, ex, exmk, first);
        f.add(w, move |_| {
            let mut l = FixedRateLeg::new(s.make(), nom.clone(), vec![InterestRate::new(0.05, D::BondBasis.make(), C::Simple, F::Annual)]).with_payment_lag(lag).with_payment_adjustment(pconv);
            if let Some(m) = pmk { l = l.with_payment_calendar(m.make()); }
            if let Some((n, u, c, x)) = ex { l = l.with_ex_coupon_period(per(n, u), exmk.make(), c, x); }
            if let Some(d) = first { l = l.with_first_period_daycounter(d.make()); }
            l.build().iter().map(|c: &FixedRateCoupon| (c.amount(), c.date(), CashFlow::ex_coupon_date(c), c.reference_period_start(), c.reference_period_end())).collect::<Vec<_>>()
        });
    });
    }
    out.push(f);

    let mut f = Family::new("bonds");
    let one = Spec { eff: t(2023, 9, 12), term: t(2024, 9, 12), n: 12, ..scheds[4] };
    for bases in [[scheds[4], Spec { n: 12, ..scheds[4] }, Spec { term: t(2025, 3, 17), ..scheds[4] }], [one, Spec { term: t(2024, 9, 14), rule: R::Zero, ..one }, Spec { eff: t(2023, 9, 11), rule: R::Zero, ..one }]] {
    one_off!(s in bases, days in [2, 3], face in [100.0, 1000.0], cpn in [vec![0.03], vec![0.05], vec![0.03, 0.02]], d in [D::BondBasis, D::A360], red in [None, Some(105.0)], issue in [None, Some(t(2023, 6, 1))], ex in [None, Some(10)], pmk in [None, Some(Mk::UsNyse)] ; {
        let bond = move || FixedRateBond::new_with_options(days, face, s.make(), cpn.clone(), d.make(), None, red, issue.map(dt), pmk.map(|m: Mk| m.make()), ex.map(|n| per(n, U::D)), ex.map(|_| Mk::Target.make()), ex.map(|_| B::Preceding), ex.map(|_| false), None);
        let w = format!("bond {} {} {} {:?} {:?} {:?} {:?} {:?}", s.key(), days, face, d, red, issue.map(show), ex, pmk);
        let b = bond.clone();
        f.add(format!("{} settlement", w), move |_| (b().settlement_date(dt(t(2023, 4, 27))), b().notional(dt(t(2023, 4, 27))), b().notional(dt(t(2025, 3, 17))), b().maturity_date()));
        one_off!(y in [0.04, 0.045], k in [D::BondBasis, D::A360], c in [C::Compounded, C::Continuous, C::Simple], q in [F::Semiannual, F::Annual], day in [t(2023, 9, 15), t(2023, 9, 18), t(2024, 8, 25)] ; {
            let b = bond.clone();
            f.add(format!("{} at {} {:?} {:?} {:?} on {}", w, y, k, c, q, show(day)), move |_| {
                let b = b();
                let p = b.clean_price_from_yield(y, k.make(), c.clone(), q, dt(day));
                (p, b.dirty_price_from_yield(y, k.make(), c.clone(), q, dt(day)), b.accrued_amount(dt(day)), b.bond_yield(95.0 + 100.0 * y, k.make(), c.clone(), q, dt(day)))
            });
        });
    });
    }
    one_off!(mk in [Mk::Target, Mk::UsNyse], days in [1, 2], face in [100.0, 250.0], mat in [t(2025, 1, 31), t(2025, 2, 1)], conv in [None, Some(B::Preceding)], red in [None, Some(95.0)], issue in [None, Some(t(2023, 6, 1))], day in [t(2023, 9, 15), t(2023, 5, 15)] ; {
        let z = move || ZeroCouponBond::new_with_options(days, &mk.make(), face, dt(mat), conv, red, issue.map(dt));
        let w = format!("zero {:?} {} {} {} {:?} {:?} {:?} on {}", mk, days, face, show(mat), conv, red, issue.map(show), show(day));
        f.add(format!("{} terms", w), move |_| (z().settlement_date(dt(day)), z().period(dt(day)), z().price_from_discount_yield(0.02, dt(day)), z().price_from_discount_yield(0.03, dt(day)), z().cashflows()[0].amount(), z().cashflows()[0].date()));
        for p in [95.0, 96.0] {
            f.add(format!("{} yield at {}", w, p), move |_| (z().bond_yield(p, D::BondBasis.make(), C::Compounded, F::Annual, dt(day)), z().dirty_price_from_yield(p / 1000.0, D::A360.make(), C::Simple, F::Annual, dt(day))));
        }
    });
    out.push(f);

    let mut f = Family::new("solvers");
    one_off!(g in [1.0, 1.2, 0.3], step in [0.3, 0.5], acc in [1e-10, 1e-3], k in [2.0, 3.0, 7.0] ; {
        let w = format!("guess {} step {} accuracy {} x^2 = {}", g, step, acc, k);
        f.add(format!("Newton {}", w), move |_| (NewtonSafe::default().solve(|x| x * x - k, |x| 2.0 * x, acc, g, step), NewtonSafe::default().solve_bracketed(|x| x * x - k, |x| 2.0 * x, acc, g, 0.0, 5.0 + step)));
        f.add(format!("finite differences {}", w), move |_| (FiniteDifferenceNewtonSafe::default().solve(|x| x * x - k, |x| 2.0 * x, acc, g, step), FiniteDifferenceNewtonSafe::default().solve_bracketed(|x| x * x - k, |x| 2.0 * x, acc, g, 0.0, 5.0 + step)));
        f.add(format!("Brent {}", w), move |_| (Brent::default().solve(|x| x * x - k, |x| 2.0 * x, acc, g, step), Brent::default().solve_bracketed(|x| x * x - k, |x| 2.0 * x, acc, g, 0.0, 5.0 + step)));
        for (lo, hi) in [(0.5, 2.0), (0.0, 2.0), (0.5, 1.5)] {
            f.add(format!("bounded {} {} {}", lo, hi, w), move |_| (NewtonSafe::new(lo, hi, true, true, 100).solve(|x| x * x - k, |x| 2.0 * x, acc, g.max(lo), step), Brent::new(lo, hi, true, true).solve(|x| x * x - k, |x| 2.0 * x, acc, g.max(lo), step)));
        }
    });
    out.push(f);

    let mut f = Family::new("tables and rounding");
    one_off!(x in [vec![0.0, 1.0, 2.5, 4.0], vec![0.0, 1.5, 2.5, 4.0], vec![0.0, 1.0, 2.5, 4.5], vec![0.0, 1.0, 4.0]], y in [vec![1.0, 3.0, -1.0, 0.5], vec![1.0, 3.0, -1.0, 0.75], vec![2.0, 3.0, -1.0, 0.5]], q in [1.2, 0.5, 1.0, 2.5, 3.5, 4.0], e in [false, true] ; {
        let w = format!("{:?} {:?} at {} {}", x, y, q, e);
        let (x2, y2) = (x.clone(), y.clone());
        f.add(format!("linear {}", w), move |_| { let l = LinearInterpolation::new(&x, &y[..x.len()]); (l.value_with_extrapolation(q, e), l.derivative_with_extrapolation(q, e), l.primitive_with_extrapolation(q, e), l.locate(q)) });
        f.add(format!("Lagrange {}", w), move |_| { let l = LagrangeInterpolation::new(&x2, &y2[..x2.len()]); (l.value_with_extrapolation(q, e), l.derivative_with_extrapolation(q, e), l.locate(q)) });
    });
    for v in [1.005, -2.345, 2.5, 0.125, 1249.0] {
        for p in [2, 1, 3, 0, -1, -2] {
            for g in [5, 4, 7] {
                f.add(format!("rounding {} to {} digit {}", v, p, g), move |_| (Rounding::up(p, g).round(v), Rounding::down(p, g).round(v), Rounding::closest(p, g).round(v), Rounding::ceiling(p, g).round(v), Rounding::floor(p, g).round(v)));
                f.add(format!("rounding up {} to {} digit {}", v, p, g), move |_| Rounding::up(p, g).round(v));
                f.add(format!("rounding down {} to {} digit {}", v, p, g), move |_| Rounding::down(p, g).round(v));
                f.add(format!("rounding closest {} to {} digit {}", v, p, g), move |_| Rounding::closest(p, g).round(v));
            }
        }
    }
    out.push(f);
    out
}
fn q_freq(r: &InterestRate) -> F {
    match r.compounding {
        C::Simple | C::Continuous => F::Annual,
        _ => r.frequency(),
    }
}
