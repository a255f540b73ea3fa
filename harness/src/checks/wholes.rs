//! C39, C40: histories across parts: calendars edited before and after things are built with them, and
//! every order of asking.
use super::families::{families, Ask};
use super::legs::{Cp, Fl};
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::{model, observe, show_sched, Spec, NULL};
use rust_quantlib::cashflows::cashflow::{self, CashFlow, CashFlowLeg};
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::{self, Calendar};
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::datetime::imm::IMM;
use rust_quantlib::datetime::schedule::{previous_twentieth, Schedule};
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::instrument::Instrument;
use rust_quantlib::instruments::stock::Stock;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::maths::interpolations::{interpolation::Interpolation, lagrangeinterpolation::LagrangeInterpolation, linearinterpolation::LinearInterpolation};
use rust_quantlib::maths::rounding::Rounding;
use rust_quantlib::maths::solvers1d::{brent::Brent, finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe, newtonsafe::NewtonSafe, solver1d::Solver1D};
use rust_quantlib::pricingengines::bond::bondfunctions;
use rust_quantlib::quotes::simplequote::SimpleQuote;
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;
use std::sync::Arc;

fn t(y: i32, m: i32, d: i32) -> i32 {
    ser(y, m, d)
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
enum Ed {
    Add(i32),
    Rem(i32),
    Reset,
}
fn apply(e: Ed, c: &mut Calendar, m: &mut Cal) {
    match e {
        Ed::Add(s) => {
            c.add_holiday(dt(s));
            m.add(s)
        }
        Ed::Rem(s) => {
            c.remove_holiday(dt(s));
            m.remove(s)
        }
        Ed::Reset => {
            c.reset_added_and_removed_holidays();
            m.reset()
        }
    }
}

/// (accrual start, end, payment, ex date, reference start, end) of a coupon
type Dates = (i32, i32, i32, i32, i32, i32);
fn dates_of(c: &FixedRateCoupon) -> Dates {
    let s = |d: rust_quantlib::datetime::date::Date| d.serial_number();
    (s(c.accrual_start_date()), s(c.accrual_end_date()), s(c.date()), s(c.ex_coupon_date()), s(c.reference_period_start()), s(c.reference_period_end()))
}
struct LegCals<'a> {
    sched: &'a Cal,
    pay: &'a Cal,
    ex: Option<&'a Cal>,
}
fn leg_model(sp: &Spec, cs: &LegCals, lag: i32, pconv: B) -> Option<Vec<Dates>> {
    let m = model(sp, cs.sched)?;
    let n = m.reg.len();
    (0..n)
        .map(|i| {
            let (a, b) = (m.d[i], m.d[i + 1]);
            let pay = cs.pay.advance(b, lag, U::D, pconv, false)?;
            let ex = match cs.ex {
                Some(c) => c.advance(pay, -4, U::D, B::Preceding, false)?,
                None => NULL,
            };
            let mut r = (a, b);
            if !m.reg[i] && i == 0 {
                r.0 = cs.sched.advance(b, -sp.n, sp.u, sp.conv, sp.eom)?;
            } else if !m.reg[i] && i == n - 1 {
                r.1 = cs.sched.advance(a, sp.n, sp.u, sp.conv, sp.eom)?;
            }
            Some((a, b, pay, ex, r.0, r.1))
        })
        .collect()
}
fn leg_of(s: &Schedule) -> FixedRateLeg {
    FixedRateLeg::new(s.clone(), vec![100.0], vec![InterestRate::new(0.05, D::A360.make(), C::Simple, F::Annual)])
}

pub fn c39(ctx: &Ctx) {
    let marks = [Mk::Target, Mk::Nil, Mk::Weekends, Mk::UsGovBond];
    // a Sunday, the Monday after it (a holiday in some markets), month ends that are business days, a Saturday
    let days = [t(2023, 4, 30), t(2023, 5, 1), t(2023, 7, 31), t(2024, 1, 31), t(2023, 7, 29)];
    let mut ops: Vec<Ed> = days.iter().flat_map(|d| [Ed::Add(*d), Ed::Rem(*d)]).collect();
    ops.push(Ed::Reset);
    let depth = ctx.pick(3, 4);
    let (eff, term) = (t(2023, 1, 31), t(2024, 1, 31));
    let specs = |mk: Mk| -> Vec<Spec> {
        let base = Spec::new(eff, term, 3, U::M, mk);
        vec![
            base.conv(B::ModifiedFollowing),
            base.conv(B::Preceding).rule(R::Forward),
            Spec { eom: true, ..base.conv(B::Following) },
            Spec { first: t(2023, 4, 30), ..base.conv(B::Following).rule(R::Forward) },
            Spec { ntl: t(2023, 7, 29), tconv: B::Unadjusted, ..base.conv(B::Nearest) },
            Spec { term: t(2023, 7, 30), ..base.conv(B::HalfMonthModifiedFollowing).rule(R::Zero) },
            Spec { eff: t(2023, 2, 3), n: 2, ..base.conv(B::ModifiedPreceding) },
        ]
    };
    let hist = (0..=depth).map(|d| ops.len().pow(d)).collect::<Vec<_>>();
    ctx.bound(format!(
        "4 markets x all edit histories of length 0-{} over 11 operations (5 colliding dates) x 7 schedules: schedule, legs with edited payment and ex-coupon calendars, bonds and settlement dates; then every one of the 11 edits made afterwards",
        depth
    ));
    let plain: Vec<Cal> = marks.iter().map(|m| Cal::new(*m)).collect();
    for (len, n) in hist.iter().enumerate() {
        ctx.par(*n * marks.len(), |ix| {
            let mi = ix % marks.len();
            let (mk, mut k) = (marks[mi], ix / marks.len());
            let seq: Vec<Ed> = (0..len).map(|_| { let e = ops[k % ops.len()]; k /= ops.len(); e }).collect();
            let (mut c, mut m) = (mk.make(), Cal::new(mk));
            for e in &seq {
                apply(*e, &mut c, &mut m);
            }
            let who = || format!("{:?} after {:?}", mk, seq.iter().map(|e| match e { Ed::Add(s) => format!("add {}", show(*s)), Ed::Rem(s) => format!("remove {}", show(*s)), Ed::Reset => "reset".into() }).collect::<Vec<_>>());
            at(who());
            ctx.tr(len as u64);
            ctx.st(1);
            // another market, and the same market without the edits
            let others = [&plain[(mi + 1) % marks.len()], &plain[mi]];
            for (si, sp) in specs(mk).into_iter().enumerate() {
                let key = |w: &str| format!("{}: {} of {}", who(), w, sp.key());
                let Some(want) = model(&sp, &m) else { continue };
                let got = call(|| sp.make_with(&c));
                let Ok(s) = got else {
                    ctx.fail(key("schedule"), show_sched(&want), "refused");
                    continue;
                };
                ctx.eq(|| key("schedule"), show_sched(&want), show_sched(&observe(&s)));
                // legs: everything on the edited calendar, only the payments, only the ex dates
                let same = LegCals { sched: &m, pay: &m, ex: None };
                let w = leg_model(&sp, &same, 0, B::Following);
                let mine = call(|| leg_of(&s).build().iter().map(dates_of).collect::<Vec<_>>());
                ctx.eq(|| key("leg"), w.clone().ok_or(Refused), mine.clone());
                let lag = (si % 3) as i32;
                for other in others {
                    let w = leg_model(&sp, &LegCals { sched: &m, pay: other, ex: Some(&m) }, lag, B::ModifiedFollowing);
                    let got = call(|| leg_of(&s).with_payment_calendar(other.mk.make()).with_payment_adjustment(B::ModifiedFollowing).with_payment_lag(lag).with_ex_coupon_period(per(4, U::D), c.clone(), B::Preceding, false).build().iter().map(dates_of).collect::<Vec<_>>());
                    ctx.eq(|| key(&format!("leg paid {} days later by {:?}, ex dates on the edited calendar", lag, other.mk)), w.ok_or(Refused), got);
                    let osp = Spec { mk: other.mk, ..sp };
                    let w = leg_model(&osp, &LegCals { sched: other, pay: &m, ex: Some(other) }, lag, B::Preceding);
                    if let Some(w) = w {
                        let got = call(|| leg_of(&osp.make()).with_payment_calendar(c.clone()).with_payment_adjustment(B::Preceding).with_payment_lag(lag).with_ex_coupon_period(per(4, U::D), other.mk.make(), B::Preceding, false).build().iter().map(dates_of).collect::<Vec<_>>());
                        ctx.eq(|| key(&format!("leg of a schedule on {:?} paid by the edited calendar with lag {}", other.mk, lag)), Ok(w.clone()), got);
                        // the bond's settlement follows its payment calendar
                        let days = (si % 4) as i32;
                        let bond = call(|| FixedRateBond::new_with_options(days, 100.0, osp.make(), vec![0.05], D::A360.make(), Some(B::Preceding), None, None, Some(c.clone()), Some(per(4, U::D)), Some(other.mk.make()), Some(B::Preceding), Some(false), None));
                        if let Ok(b) = bond {
                            let w0 = leg_model(&osp, &LegCals { sched: other, pay: &m, ex: Some(other) }, 0, B::Preceding).unwrap();
                            let flows: Vec<(i32, i32)> = b.cashflows().iter().map(|f| (f.date().serial_number(), CashFlow::ex_coupon_date(f).serial_number())).collect();
                            let mut w1: Vec<(i32, i32)> = w0.iter().map(|d| (d.2, d.3)).collect();
                            w1.push((w0.last().unwrap().2, NULL));
                            ctx.eq(|| key(&format!("flows of a bond on {:?} paid by the edited calendar", other.mk)), w1, flows);
                            for x in (t(2023, 4, 26)..t(2023, 5, 4)).chain(t(2023, 7, 26)..t(2023, 8, 2)) {
                                ctx.eq(|| key(&format!("settlement from {} + {} of a bond paid by the edited calendar", show(x), days)), Ok(m.advance(x, days, U::D, B::Following, false).unwrap()), call(|| b.settlement_date(dt(x)).serial_number()));
                            }
                        } else {
                            ctx.fail(key("bond paid by the edited calendar"), "a bond", "refused");
                        }
                    }
                }
                let bond = call(|| FixedRateBond::new(2, 100.0, s.clone(), vec![0.05], D::A360.make()));
                let zero: Vec<_> = days.iter().map(|d| call(|| ZeroCouponBond::new_with_options(1, &c, 100.0, dt(*d), Some([B::Following, B::ModifiedFollowing, B::Preceding][si % 3]), None, None))).collect();
                for (z, d) in zero.iter().zip(days) {
                    let w = m.adjust(d, [B::Following, B::ModifiedFollowing, B::Preceding][si % 3]).unwrap();
                    ctx.ok(|| key(&format!("redemption of a zero bond maturing {}", show(d))), &show(w), z.as_ref().is_ok_and(|z| z.cashflows()[0].date() == dt(w)));
                }
                ctx.tr(14);
                // what was built does not follow edits made afterwards
                for e in &ops {
                    let (mut c2, mut m2) = (c.clone(), m.clone());
                    apply(*e, &mut c2, &mut m2);
                    if m2.edits() == m.edits() {
                        continue;
                    }
                    ctx.eq(|| key(&format!("schedule once {:?} was made to a copy of its calendar", e)), show_sched(&want), show_sched(&observe(&s)));
                    if len <= 1 {
                        // the calendar that was handed over, edited itself
                        let mut own = c.clone();
                        let s2 = sp.make_with(&own);
                        let (mut x, mut y) = (Cal::new(mk), m.clone());
                        apply(*e, &mut own, &mut x);
                        let got = call(|| (leg_of(&s2).build().iter().map(dates_of).collect::<Vec<_>>(), s2.calendar().is_holiday(&dt(days[0])), leg_of(&s2.until(s2.end_date())).build().iter().map(dates_of).collect::<Vec<_>>()));
                        let bd = y.bd(days[0]);
                        y.reset();
                        ctx.ok(|| key(&format!("leg once {:?} was made to the calendar of its schedule", e)), "as before", match (&mine, &got) { (Ok(a), Ok((g, h, tr))) => a == g && *h != bd && tr.len() <= g.len(), (Err(_), Err(_)) => true, _ => false });
                        ctx.tr(2);
                    }
                }
                if let Ok(b) = bond {
                    for x in t(2023, 7, 25)..t(2023, 8, 3) {
                        ctx.eq(|| key(&format!("settlement from {} + 2 of a bond on the edited calendar", show(x))), Ok(m.advance(x, 2, U::D, B::Following, false).unwrap()), call(|| b.settlement_date(dt(x)).serial_number()));
                    }
                }
                for (z, x) in zero.iter().zip([t(2023, 4, 28), t(2023, 4, 29), t(2023, 7, 28), t(2023, 7, 29), t(2023, 7, 30)]) {
                    if let Ok(z) = z {
                        ctx.eq(|| key(&format!("settlement from {} + 1 of a zero bond on the edited calendar", show(x))), Ok(m.advance(x, 1, U::D, B::Following, false).unwrap()), call(|| z.settlement_date(dt(x)).serial_number()));
                    }
                }
                ctx.val(1);
            }
        });
    }
    ctx.sample(|| "Target after [add 2023-07-31, remove 2023-07-29]: schedules, legs, bonds".into());
}

// ------------------------------------------------------------------------------------------------

/// objects that are asked again and again
pub struct World {
    target: Calendar,
    nyse: Calendar,
    edited: Calendar,
    other: Calendar,
    lin: LinearInterpolation<'static>,
    a: Schedule,
    b: Schedule,
    isma_a: DayCounter,
    isma_b: DayCounter,
    leg: CashFlowLeg,
    leg2: CashFlowLeg,
    coupons: Vec<FixedRateCoupon>,
    bond: FixedRateBond,
    bond2: FixedRateBond,
    zero: ZeroCouponBond,
    imm: IMM,
    stock: [Stock; 2],
    newton: NewtonSafe,
    fd: FiniteDifferenceNewtonSafe,
    brent: Brent,
}
fn world() -> World {
    let a = Spec::new(t(2022, 1, 31), t(2025, 1, 31), 6, U::M, Mk::Target).conv(B::ModifiedFollowing);
    let b = Spec { eom: true, ..Spec::new(t(2022, 1, 31), t(2025, 1, 31), 12, U::M, Mk::UsGovBond) };
    let mut edited = Mk::Target.make();
    edited.add_holiday(dt(t(2023, 6, 15)));
    edited.remove_holiday(dt(t(2023, 5, 1)));
    let mut other = Mk::Target.make();
    other.add_holiday(dt(t(2023, 5, 2)));
    other.remove_holiday(dt(t(2023, 4, 30)));
    let (sa, sb) = (a.make(), b.make());
    let cp = |i: i32, nom: f64, d: D| Cp { start: t(2023, 1, 10) + 181 * i, end: t(2023, 1, 10) + 181 * (i + 1), pay: t(2023, 1, 12) + 181 * (i + 1), ex: t(2023, 1, 5) + 181 * (i + 1), rs: t(2023, 1, 10) + 181 * i, re: t(2023, 1, 10) + 181 * (i + 1), nom, r: 0.04, d, f: F::Annual };
    let leg: Vec<Fl> = vec![Fl::K(cp(0, 100.0, D::A360)), Fl::K(cp(1, 100.0, D::A360)), Fl::R(t(2024, 1, 9), 100.0)];
    let leg2: Vec<Fl> = vec![Fl::K(cp(0, 50.0, D::BondBasis)), Fl::A(t(2023, 7, 12), 20.0), Fl::K(cp(1, 30.0, D::BondBasis)), Fl::R(t(2024, 1, 9), 30.0)];
    World {
        target: Mk::Target.make(),
        nyse: Mk::UsNyse.make(),
        edited,
        other,
        lin: LinearInterpolation::new(&XS, &YS),
        isma_a: DayCounter::actual_actual_isma(sa.clone()),
        isma_b: DayCounter::actual_actual_isma(sb.clone()),
        leg: leg.iter().map(|f| f.make()).collect(),
        leg2: leg2.iter().map(|f| f.make()).collect(),
        coupons: leg.iter().chain(&leg2).filter_map(|f| f.cp()).map(|c| c.make(&C::Simple)).collect(),
        bond: FixedRateBond::new(2, 100.0, sa.clone(), vec![0.03], D::BondBasis.make()),
        bond2: FixedRateBond::new_with_options(3, 1000.0, sb.clone(), vec![0.05, 0.02], D::AaOldIsma.make(), None, Some(105.0), None, None, Some(per(10, U::D)), Some(Mk::Target.make()), Some(B::Preceding), Some(false), None),
        zero: ZeroCouponBond::new(1, &Mk::UsGovBond.make(), 100.0, dt(t(2025, 1, 31))),
        imm: IMM::new(PricingContext::new(dt(t(2023, 5, 2)))),
        stock: [Stock::new(Arc::new(SimpleQuote::new(1.5))), Stock::new(Arc::new(SimpleQuote::new(-2.25)))],
        newton: NewtonSafe::default(),
        fd: FiniteDifferenceNewtonSafe::default(),
        brent: Brent::default(),
        a: sa,
        b: sb,
    }
}
type Q = fn(&World) -> String;
macro_rules! queries {
    ($w:ident; $($e:expr),* $(,)?) => { vec![$((stringify!($e), (|#[allow(unused_variables)] $w: &World| format!("{:?}", call(|| $e))) as Q)),*] };
}
fn d(y: i32, m: i32, k: i32) -> rust_quantlib::datetime::date::Date {
    dt(t(y, m, k))
}
fn nul() -> rust_quantlib::datetime::date::Date {
    rust_quantlib::datetime::date::Date::default()
}
fn ir(r: f64, x: D, c: C, f: F) -> InterestRate {
    InterestRate::new(r, x.make(), c, f)
}
static XS: [f64; 4] = [0.0, 1.0, 2.5, 4.0];
static YS: [f64; 4] = [1.0, 3.0, -1.0, 0.5];
static ZS: [f64; 4] = [2.0, 0.0, 0.25, 7.0];
fn table() -> Vec<(&'static str, Q)> {
    queries![w;
        w.target.adjust(d(2023, 4, 29), B::ModifiedFollowing),
        w.target.adjust(d(2023, 4, 29), B::Following),
        w.nyse.adjust(d(2023, 4, 29), B::Following),
        w.edited.adjust(d(2023, 4, 29), B::Following),
        Mk::Target.make().adjust(d(2023, 6, 15), B::Preceding),
        w.edited.adjust(d(2023, 6, 15), B::Preceding),
        w.target.is_holiday(&d(2023, 5, 1)),
        w.edited.is_holiday(&d(2023, 5, 1)),
        Mk::UkSettlement.make().is_holiday(&d(2023, 5, 8)),
        Mk::UsLibor.make().is_holiday(&d(2023, 5, 8)),
        w.target.advance_by_days_with_following(d(2023, 4, 27), 2, U::D.tu(), false),
        w.target.advance_by_days_with_following(d(2023, 4, 27), -2, U::D.tu(), false),
        w.edited.advance_by_days_with_following(d(2023, 4, 27), 2, U::D.tu(), false),
        w.target.advance_by_period(d(2023, 1, 31), per(3, U::M), B::ModifiedFollowing, false),
        w.target.advance_by_period(d(2023, 1, 31), per(3, U::M), B::ModifiedFollowing, true),
        w.target.business_days_between(d(2023, 4, 27), d(2023, 5, 9), true, false),
        w.target.business_days_between(d(2023, 5, 9), d(2023, 4, 27), true, false),
        w.edited.business_days_between(d(2023, 4, 27), d(2023, 5, 9), true, false),
        sers(&w.target.holiday_list(d(2023, 4, 1), d(2023, 5, 5), false)),
        sers(&w.edited.holiday_list(d(2023, 4, 1), d(2023, 5, 5), false)),
        w.target.end_of_month(&d(2023, 4, 3)),
        w.nyse.end_of_month(&d(2023, 4, 3)),
        w.target.end_of_month(&d(2023, 3, 3)),
        calendar::easter_monday(2023),
        calendar::easter_monday(2024),
        calendar::easter_monday_orthodox(2023),
        calendar::easter_monday_orthodox(2022),
        DayCounter::usa().year_fraction(&d(2023, 1, 31), &d(2023, 7, 31), &nul(), &nul()),
        DayCounter::european().year_fraction(&d(2023, 1, 31), &d(2023, 7, 31), &nul(), &nul()),
        DayCounter::actual_actual_isda().year_fraction(&d(2023, 1, 31), &d(2024, 7, 31), &nul(), &nul()),
        DayCounter::actual_actual_afb().year_fraction(&d(2023, 1, 31), &d(2024, 7, 31), &nul(), &nul()),
        DayCounter::actual_actual_old_isma().year_fraction(&d(2023, 1, 31), &d(2023, 7, 31), &d(2023, 1, 31), &d(2023, 7, 31)),
        DayCounter::actual_actual_old_isma().year_fraction(&d(2023, 1, 31), &d(2023, 7, 31), &d(2023, 1, 31), &d(2024, 1, 31)),
        w.isma_a.year_fraction(&d(2023, 1, 31), &d(2023, 6, 15), &nul(), &nul()),
        w.isma_b.year_fraction(&d(2023, 1, 31), &d(2023, 6, 15), &nul(), &nul()),
        w.isma_a.year_fraction(&d(2023, 2, 28), &d(2024, 6, 15), &nul(), &nul()),
        DayCounter::isda(d(2024, 2, 29)).day_count(&d(2023, 8, 31), &d(2024, 2, 29)),
        DayCounter::isda(d(2025, 2, 28)).day_count(&d(2023, 8, 31), &d(2024, 2, 29)),
        sers(&w.a.dates()),
        sers(&w.b.dates()),
        sers(&Spec::new(t(2022, 1, 31), t(2025, 1, 31), 6, U::M, Mk::Nil).rule(R::Forward).make().dates()),
        sers(&Spec::new(t(2022, 1, 31), t(2025, 1, 31), 6, U::M, Mk::Target).rule(R::Zero).make().dates()),
        sers(&Spec::new(t(2022, 1, 31), t(2025, 1, 31), 3, U::M, Mk::Target).rule(R::CDS2015).make().dates()),
        w.a.next_date(&d(2023, 3, 1)),
        w.a.previous_date(&d(2023, 3, 1)),
        w.b.next_date(&d(2023, 3, 1)),
        w.b.previous_date(&d(2023, 3, 1)),
        sers(&w.a.until(&d(2023, 9, 1)).dates()),
        sers(&w.a.after(&d(2023, 9, 1)).dates()),
        previous_twentieth(&d(2023, 5, 2), R::CDS),
        previous_twentieth(&d(2023, 5, 2), R::CDS2015),
        previous_twentieth(&d(2023, 5, 2), R::OldCDS),
        cds_maturity(&d(2023, 5, 2), per(5, U::Y), R::CDS),
        cds_maturity(&d(2023, 5, 2), per(5, U::Y), R::CDS2015),
        w.imm.next_date(&d(2023, 5, 2), true),
        w.imm.next_code(&d(2023, 5, 2), true),
        w.imm.next_date(&d(2023, 5, 2), false),
        w.imm.next_code(&d(2023, 5, 2), false),
        w.imm.date("M3", &d(2023, 5, 2)),
        w.imm.date("M3", &d(2014, 5, 2)),
        IMM::new(PricingContext::new(d(2035, 1, 1))).date("M3", &nul()),
        IMM::new(PricingContext::new(d(2045, 1, 1))).date("M3", &nul()),
        w.imm.date("M3", &nul()),
        w.imm.next_date(&nul(), true),
        IMM::new(PricingContext::new(d(2035, 1, 1))).next_date(&nul(), true),
        ir(0.05, D::A360, C::Compounded, F::Annual).compound_factor(1.25),
        ir(0.05, D::A360, C::Compounded, F::Quarterly).compound_factor(1.25),
        ir(0.05, D::A360, C::Simple, F::Annual).compound_factor(1.25),
        ir(0.05, D::A360, C::Continuous, F::Annual).discount_factor(1.25),
        ir(0.05, D::A360, C::SimpleThenCompounded, F::Annual).discount_factor_between_dates(&d(2023, 1, 31), &d(2024, 7, 31), &nul(), &nul()),
        ir(0.05, D::BondBasis, C::SimpleThenCompounded, F::Annual).discount_factor_between_dates(&d(2023, 1, 31), &d(2024, 7, 31), &nul(), &nul()),
        { let e = ir(0.05, D::A360, C::Compounded, F::Annual).equivalent_rate(&C::Continuous, F::Annual, 2.0); e.rate },
        { let e = ir(0.05, D::A360, C::Compounded, F::Annual).equivalent_rate(&C::Continuous, F::Annual, 2.0); e.compounding },
        { let e = ir(0.05, D::A360, C::Compounded, F::Monthly).equivalent_rate(&C::Simple, F::Annual, 2.0); e.rate },
        { let e = ir(0.05, D::A360, C::Compounded, F::Monthly).equivalent_rate(&C::Simple, F::Annual, 2.0); e.compounding },
        cashflow::npv(&w.leg, &ir(0.03, D::A360, C::Compounded, F::Annual), false, d(2023, 3, 1), nul()),
        cashflow::npv(&w.leg, &ir(0.06, D::A360, C::Compounded, F::Annual), false, d(2023, 3, 1), nul()),
        cashflow::npv(&w.leg, &ir(0.03, D::A360, C::Compounded, F::Annual), true, d(2023, 7, 12), d(2023, 6, 1)),
        cashflow::npv(&w.leg2, &ir(0.03, D::A360, C::Compounded, F::Annual), false, d(2023, 3, 1), nul()),
        cashflow::modified_duration(&w.leg, &ir(0.03, D::A360, C::Compounded, F::Annual), false, d(2023, 3, 1), nul()),
        cashflow::modified_duration(&w.leg, &ir(0.03, D::A360, C::Simple, F::Annual), false, d(2023, 3, 1), nul()),
        cashflow::accrued_amount(&w.leg, false, d(2023, 3, 1)),
        cashflow::next_cashflow(&w.leg, false, d(2023, 7, 12)),
        cashflow::next_cashflow(&w.leg, true, d(2023, 7, 12)),
        cashflow::accrued_amount(&w.leg2, false, d(2023, 8, 1)),
        cashflow::accrued_days(&w.coupons, false, d(2023, 8, 1)),
        bondfunctions::accrued_period(&w.coupons, d(2023, 3, 1)),
        w.coupons[0].amount(),
        w.coupons[0].accrued_amount(d(2023, 3, 1)),
        w.coupons[0].accrued_amount(d(2023, 7, 8)),
        w.coupons[1].accrued_amount(d(2023, 9, 1)),
        w.bond.dirty_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Semiannual, d(2023, 3, 1)),
        w.bond.clean_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Semiannual, d(2023, 9, 15)),
        w.bond2.clean_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Semiannual, d(2023, 9, 15)),
        w.bond.bond_yield(97.5, D::BondBasis.make(), C::Compounded, F::Semiannual, d(2023, 9, 15)),
        w.bond2.bond_yield(101.5, D::A360.make(), C::Continuous, F::Annual, d(2023, 9, 15)),
        w.bond.accrued_amount(d(2023, 9, 15)),
        w.bond2.accrued_amount(d(2023, 9, 15)),
        w.bond2.accrued_amount(d(2024, 1, 25)),
        w.bond.settlement_date(d(2023, 4, 27)),
        w.bond2.settlement_date(d(2023, 4, 27)),
        w.zero.settlement_date(d(2023, 4, 27)),
        w.bond.notional(d(2025, 1, 30)),
        w.bond.notional(d(2025, 1, 31)),
        w.bond2.notional(d(2022, 1, 31)),
        w.bond.is_tradeable(d(2025, 2, 3)),
        w.zero.price_from_discount_yield(0.02, d(2023, 9, 15)),
        w.zero.period(d(2023, 9, 15)),
        w.zero.bond_yield(95.0, D::BondBasis.make(), C::Compounded, F::Annual, d(2023, 9, 15)),
        w.newton.solve(|x| x * x - 2.0, |x| 2.0 * x, 1e-10, 1.0, 0.3),
        w.newton.solve(|x| x * x * x - 7.0, |x| 3.0 * x * x, 1e-10, 1.0, 0.3),
        w.newton.solve_bracketed(|x| x * x - 2.0, |x| 2.0 * x, 1e-6, 0.5, 0.0, 3.0),
        w.fd.solve(|x| x * x - 2.0, |x| 2.0 * x, 1e-10, 1.0, 0.3),
        w.brent.solve(|x| x * x - 2.0, |x| 2.0 * x, 1e-10, 1.0, 0.3),
        w.brent.solve_bracketed(|x| x.exp() - 2.0, |x| x.exp(), 1e-8, 0.5, 0.0, 3.0),
        { let l = LinearInterpolation::new(&XS, &YS); l.value(1.5) },
        { let l = LinearInterpolation::new(&XS, &YS); l.derivative(1.5) },
        { let l = LinearInterpolation::new(&XS, &YS); l.primitive(3.0) },
        { let l = LinearInterpolation::new(&XS, &ZS); l.value(1.5) },
        { let l = LinearInterpolation::new(&XS, &ZS); l.derivative(1.5) },
        { let l = LinearInterpolation::new(&XS, &ZS); l.primitive(3.0) },
        { let l = LinearInterpolation::new(&XS, &YS); l.value(3.5) },
        { let l = LinearInterpolation::new(&XS, &YS); l.value_with_extrapolation(5.0, true) },
        { let l = LinearInterpolation::new(&XS, &YS); l.locate(2.5) },
        { let l = LagrangeInterpolation::new(&XS, &YS); l.value(1.5) },
        { let l = LagrangeInterpolation::new(&XS, &YS); l.derivative(1.5) },
        { let l = LagrangeInterpolation::new(&XS, &ZS); l.value(1.5) },
        { let l = LagrangeInterpolation::new(&XS, &ZS); l.derivative(1.5) },
        Rounding::closest(2, 5).round(1.005),
        Rounding::up(1, 5).round(1.23),
        Rounding::floor(2, 5).round(-2.345),
        Rounding::ceiling(2, 5).round(-2.345),
        w.stock[0].npv(),
        w.stock[1].npv(),
        d(2023, 1, 31) + per(1, U::M),
        d(2024, 1, 31) + per(1, U::M),
        d(2023, 3, 31) - per(1, U::M),
        d(2023, 1, 31).end_of_month(),
        { let mut c = Mk::Target.make(); c.add_holiday(d(2023, 4, 28)); c.is_holiday(&d(2023, 4, 28)) },
        { let mut c = Mk::Target.make(); c.add_holiday(d(2023, 4, 28)); c.adjust(d(2023, 4, 28), B::Following) },
        { let mut c = w.edited.clone(); c.remove_holiday(d(2023, 4, 29)); c.add_holiday(d(2023, 5, 1)); c.is_holiday(&d(2023, 4, 29)) },
        { let mut c = w.edited.clone(); c.remove_holiday(d(2023, 4, 29)); c.add_holiday(d(2023, 5, 1)); c.adjust(d(2023, 4, 30), B::Following) },
        { let mut c = Mk::UsGovBond.make(); c.add_holiday(d(2023, 4, 28)); c.reset_added_and_removed_holidays(); c.business_days_between(d(2023, 4, 1), d(2023, 5, 5), true, true) },
        { let mut c = w.target.clone(); c.add_holiday(d(2023, 7, 31)); sers(&Spec::new(t(2022, 1, 31), t(2025, 1, 31), 6, U::M, Mk::Target).make_with(&c).dates()) },
        { let mut p = per(24, U::M); p.normalise(); p -= per(2, U::Y); p },
        { let mut p = per(24, U::M); p.normalise(); p -= per(2, U::Y); d(2023, 8, 31) - p },
        per(12, U::M) == per(1, U::Y),
        per(30, U::D).partial_cmp(&per(1, U::M)),
        per(7, U::D).normalised(),
        per(1, U::Y).frequency(),
        DayCounter::isda(d(2024, 2, 29)).day_count(&d(2023, 8, 31), &d(2025, 2, 28)),
        DayCounter::isda(d(2024, 2, 29)).year_fraction(&d(2023, 8, 31), &d(2024, 2, 29), &nul(), &nul()),
        DayCounter::isda(d(2025, 2, 28)).year_fraction(&d(2023, 8, 31), &d(2024, 2, 29), &nul(), &nul()),
        DayCounter::italian().day_count(&d(2023, 1, 31), &d(2023, 7, 31)),
        DayCounter::bond_basis().day_count(&d(2023, 1, 31), &d(2023, 7, 31)),
        DayCounter::usa().day_count(&d(2023, 1, 31), &d(2023, 7, 31)),
        DayCounter::nasd().day_count(&d(2023, 1, 31), &d(2023, 7, 31)),
        DayCounter::actual360().day_count(&d(2023, 1, 31), &d(2023, 7, 31)),
        DayCounter::actual360().year_fraction(&d(2023, 1, 31), &d(2023, 7, 31), &nul(), &nul()),
        D::A360Inc.make().year_fraction(&d(2023, 1, 31), &d(2024, 7, 31), &nul(), &nul()),
        D::A366.make().year_fraction(&d(2023, 1, 31), &d(2024, 7, 31), &nul(), &nul()),
        D::Simple.make().year_fraction(&d(2023, 1, 31), &d(2023, 7, 31), &nul(), &nul()),
        D::T365.make().year_fraction(&d(2023, 1, 31), &d(2023, 7, 31), &nul(), &nul()),
        D::One.make().year_fraction(&d(2023, 1, 31), &d(2023, 7, 31), &nul(), &nul()),
        w.other.adjust(d(2023, 5, 1), B::Following),
        w.edited.adjust(d(2023, 5, 1), B::Following),
        w.target.adjust(d(2023, 5, 1), B::Following),
        w.other.is_holiday(&d(2023, 6, 15)),
        w.other.is_holiday(&d(2023, 5, 2)),
        w.other.adjust(d(2023, 6, 15), B::Preceding),
        w.other.end_of_month(&d(2023, 4, 3)),
        w.edited.end_of_month(&d(2023, 4, 3)),
        w.other.is_end_of_month(&d(2023, 4, 28)),
        w.target.is_end_of_month(&d(2023, 4, 28)),
        w.other.business_days_between(d(2023, 4, 27), d(2023, 5, 9), true, false),
        w.other.advance_by_days_with_following(d(2023, 4, 27), 2, U::D.tu(), false),
        w.imm.date("M9", &d(2022, 5, 2)),
        w.imm.date("M9", &d(2030, 1, 1)),
        w.imm.date("M9", &d(2020, 1, 1)),
        w.imm.date("H0", &d(2019, 12, 31)),
        w.imm.next_date_from_code("Z3", true, &d(2023, 5, 2)),
        w.imm.next_date_from_code("Z3", false, &d(2014, 5, 2)),
        w.coupons[2].amount(),
        w.coupons[2].accrued_amount(d(2023, 3, 1)),
        w.coupons[3].amount(),
        w.coupons[3].accrued_amount(d(2023, 3, 1)),
        CashFlow::ex_coupon_date(&w.coupons[1]),
        cashflow::npv(&w.coupons, &ir(0.03, D::A360, C::Compounded, F::Annual), false, d(2023, 3, 1), nul()),
        cashflow::modified_duration(&w.leg2, &ir(0.03, D::A360, C::Continuous, F::Annual), false, d(2023, 3, 1), nul()),
        w.bond.bond_yield(98.0, D::BondBasis.make(), C::Compounded, F::Semiannual, d(2023, 9, 15)),
        w.bond.bond_yield(97.5, D::BondBasis.make(), C::Compounded, F::Semiannual, d(2023, 9, 18)),
        w.bond.dirty_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Annual, d(2023, 3, 1)),
        w.bond.dirty_price_from_yield(0.045, D::BondBasis.make(), C::Compounded, F::Semiannual, d(2023, 3, 1)),
        w.zero.bond_yield(95.5, D::BondBasis.make(), C::Compounded, F::Annual, d(2023, 9, 15)),
        LinearInterpolation::new(&XS, &YS).derivative(1.0),
        LinearInterpolation::new(&XS, &YS).value(0.5),
        LinearInterpolation::new(&XS, &YS).primitive(1.0),
        LinearInterpolation::new(&XS, &ZS).derivative(2.5),
        w.lin.derivative(1.0),
        w.lin.value(0.5),
        w.lin.locate(1.0),
        w.lin.primitive(2.5),
        w.newton.solve(|x| x * x - 2.0, |x| 2.0 * x, 1e-10, 1.2, 0.3),
        w.newton.solve(|x| x * x - 2.0, |x| 2.0 * x, 1e-3, 1.0, 0.3),
        Rounding::closest(2, 5).round(1.015),
        Rounding::closest(3, 5).round(1.005),
        Rounding::down(2, 5).round(1.005),
        Mk::Target.make().is_holiday(&d(2023, 4, 7)),
        Mk::Target.make().is_holiday(&d(2024, 3, 29)),
        Mk::UkSettlement.make().is_holiday(&d(2024, 3, 29)),
        Mk::UsNyse.make().is_holiday(&d(2023, 4, 7)),
        Mk::UsGovBond.make().is_holiday(&d(2023, 10, 9)),
        Mk::UsNyse.make().is_holiday(&d(2023, 10, 9)),
        Mk::UsSettlement.make().is_holiday(&d(2023, 10, 9)),
    ]
}

/// answers one query in a process of its own (see C40)
pub fn answer(k: usize) {
    let t = table();
    if k < t.len() {
        print!("{}", t[k].1(&world()));
    } else {
        let fams = families();
        let ask = fams.iter().flat_map(|f| &f.asks).nth(k - t.len()).expect("such a question");
        print!("{}", ask.1(&world()));
    }
}

pub fn c40(ctx: &Ctx) {
    let qs = table();
    let exe = std::env::current_exe().expect("own path");
    let alone: Vec<std::sync::Mutex<String>> = qs.iter().map(|_| Default::default()).collect();
    ctx.par(qs.len(), |k| {
        let o = std::process::Command::new(&exe).arg("answer").arg(k.to_string()).stderr(std::process::Stdio::null()).output().expect("own process");
        if !o.status.success() {
            return ctx.fail(format!("{} asked alone", qs[k].0), "an answer or a refusal", "the process ended");
        }
        *alone[k].lock().unwrap() = String::from_utf8_lossy(&o.stdout).into_owned();
    });
    let alone: Vec<String> = alone.into_iter().map(|m| m.into_inner().unwrap()).collect();
    let n = qs.len();
    let third: Vec<usize> = if ctx.thorough() { (0..n).collect() } else { (0..n).step_by(10).collect() };
    ctx.bound(format!("{} questions about {} objects of every part; every ordered pair, on the same objects and on fresh ones, in a new thread each; every ordered triple with the first of {}; each compared with the answer given in a process of its own", n, 18, third.len()));
    let refused = alone.iter().filter(|a| a.contains("refused")).count();
    ctx.outcome("answered", (n - refused) as u64);
    if refused > 0 {
        ctx.outcome("refused", refused as u64);
    }
    let show = |seq: &[usize]| seq.iter().map(|k| qs[*k].0.split_whitespace().collect::<Vec<_>>().join(" ")).collect::<Vec<_>>().join(" ; then ");
    let run = |seq: &[usize], fresh: bool| {
        let mut w = world();
        for (i, k) in seq.iter().enumerate() {
            if fresh && i > 0 {
                w = world();
            }
            let got = qs[*k].1(&w);
            if got != alone[*k] {
                ctx.fail(format!("{} (fresh objects: {})", show(&seq[..=i]), fresh), alone[*k].clone(), got);
            }
        }
        ctx.tr(seq.len() as u64);
        ctx.st(1);
        ctx.val(1);
    };
    ctx.par(n, |i| {
        for j in 0..n {
            for fresh in [false, true] {
                at(show(&[i, j]));
                // a thread of its own: nothing that a thread remembers is left over
                std::thread::scope(|s| {
                    s.spawn(|| run(&[i, j], fresh));
                });
            }
        }
    });
    ctx.par(n * third.len(), |ix| {
        let (a, b) = (third[ix / n], ix % n);
        std::thread::scope(|s| {
            s.spawn(|| {
                let w = world();
                let first = (qs[a].1(&w), qs[b].1(&w));
                ctx.ok(|| show(&[a, b]), "the same answers", first.0 == alone[a] && first.1 == alone[b]);
                for c in 0..n {
                    at(show(&[a, b, c]));
                    // ask the third, then the second again
                    let got = (qs[c].1(&w), qs[b].1(&w));
                    if got.0 != alone[c] || got.1 != alone[b] {
                        ctx.fail(show(&[a, b, c, b]), format!("{} and {}", alone[c], alone[b]), format!("{} and {}", got.0, got.1));
                    }
                    ctx.tr(2);
                    ctx.st(1);
                }
            });
        });
    });
    // families of questions that differ in one argument
    let fams = families();
    let asks: Vec<&(String, Ask)> = fams.iter().flat_map(|f| &f.asks).collect();
    let own: Vec<std::sync::Mutex<String>> = asks.iter().map(|_| Default::default()).collect();
    ctx.par(asks.len(), |k| {
        let o = std::process::Command::new(&exe).arg("answer").arg((n + k).to_string()).stderr(std::process::Stdio::null()).output().expect("own process");
        if !o.status.success() {
            return ctx.fail(format!("{} asked alone", asks[k].0), "an answer or a refusal", "the process ended");
        }
        *own[k].lock().unwrap() = String::from_utf8_lossy(&o.stdout).into_owned();
    });
    let own: Vec<String> = own.into_iter().map(|m| m.into_inner().unwrap()).collect();
    ctx.outcome("answered (families)", own.iter().filter(|a| !a.contains("refused")).count() as u64);
    ctx.outcome("refused (families)", own.iter().filter(|a| a.contains("refused")).count() as u64);
    let mut start = 0;
    for f in &fams {
        let m = f.asks.len();
        let fresh = ctx.thorough();
        ctx.bound(format!("{}: {} questions differing in one argument; for each as first, in a new thread: the first, then every other one followed by the first again{}", f.name, m, if fresh { "; and every ordered pair in a new thread of its own" } else { "" }));
        let base = start;
        start += m;
        ctx.par(m, |i| {
            std::thread::scope(|s| {
                let ok = s.spawn(|| {
                    let w = world();
                    let mut before = String::new();
                    for j in std::iter::once(i).chain(0..m) {
                        at(format!("{} ; among others, then {}", f.asks[i].0, f.asks[j].0));
                        let got = (f.asks[j].1(&w), f.asks[i].1(&w));
                        if got.0 != own[base + j] {
                            ctx.fail(format!("{}{} ; then {}", before, f.asks[i].0, f.asks[j].0), &own[base + j], &got.0);
                        }
                        if got.1 != own[base + i] {
                            ctx.fail(format!("{}{} ; then {} ; then the first again", before, f.asks[i].0, f.asks[j].0), &own[base + i], &got.1);
                        }
                        before = format!("each of the {} before {} ; ", f.name, f.asks[j].0);
                        ctx.tr(2);
                        ctx.st(1);
                        ctx.val(1);
                    }
                }).join();
                let _ = ok;
                if !fresh {
                    return;
                }
                for j in 0..m {
                    at(format!("{} ; then {}", f.asks[i].0, f.asks[j].0));
                    let ok = s.spawn(move || {
                        let w = world();
                        (f.asks[i].1(&w), f.asks[j].1(&w), f.asks[i].1(&w))
                    }).join();
                    let Ok(got) = ok else { continue };
                    if got.0 != own[base + i] || got.1 != own[base + j] || got.2 != own[base + i] {
                        ctx.fail(format!("{} ; then {} ; then the first again", f.asks[i].0, f.asks[j].0), format!("{} ; {}", own[base + i], own[base + j]), format!("{} ; {} ; {}", got.0, got.1, got.2));
                    }
                    ctx.tr(3);
                    ctx.st(1);
                    ctx.val(1);
                }
            });
        });
    }
    ctx.sample(|| format!("{} -> {}", qs[0].0, alone[0]));
    ctx.sample(|| format!("{} -> {}", qs[64].0, alone[64]));
}
