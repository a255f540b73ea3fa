//! C25-C27: bonds.  State = (bond, date[, yield or price]); transitions = the queries of the Bond trait.
use super::legs::{accrued, value, Cp, Fl};
use super::rates::factor;
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::{model, Spec, NULL};
use rust_quantlib::cashflows::cashflow::{CashFlow, CashFlowLeg};
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::pricingengines::bond::bondfunctions;
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;

fn t(y: i32, m: i32, d: i32) -> i32 {
    ser(y, m, d)
}

/// A bond given by its parts only: every query is the trait's own.
struct Parts {
    calendar: Calendar,
    flows: CashFlowLeg,
    schedule: Vec<Date>,
    notionals: Vec<f64>,
    issue: Date,
    maturity: Date,
    days: i32,
}
impl Bond for Parts {
    fn calendar(&self) -> &Calendar {
        &self.calendar
    }
    fn cashflows(&self) -> &CashFlowLeg {
        &self.flows
    }
    fn issue_date(&self) -> Date {
        self.issue
    }
    fn maturity_date(&self) -> Date {
        self.maturity
    }
    fn notional_schedule(&self) -> &Vec<Date> {
        &self.schedule
    }
    fn notionals(&self) -> &Vec<f64> {
        &self.notionals
    }
    fn settlement_days(&self) -> i32 {
        self.days
    }
}
/// amortising bond: notional vector, paid down at consecutive coupon dates
fn amortising(noms: &[f64], face_mult: f64) -> (Parts, Vec<Fl>) {
    let d: Vec<i32> = (0..=noms.len() as i64).map(|k| add(t(2023, 1, 16), 3 * k, U::M).unwrap()).collect();
    let mut fl = vec![];
    let (mut sched, mut lev) = (vec![NULL], vec![]);
    for (i, n) in noms.iter().enumerate() {
        let n = n * face_mult;
        fl.push(Fl::K(Cp { start: d[i], end: d[i + 1], pay: d[i + 1], ex: NULL, rs: d[i], re: d[i + 1], nom: n, r: 0.05, d: D::A360, f: F::Annual }));
        let next = noms.get(i + 1).map_or(0.0, |x| x * face_mult);
        if lev.last() != Some(&n) {
            lev.push(n);
        }
        if next != n {
            sched.push(d[i + 1]);
            fl.push(if next == 0.0 { Fl::R(d[i + 1], n) } else { Fl::A(d[i + 1], n - next) });
        }
    }
    lev.push(0.0);
    (
        Parts {
            calendar: Mk::Target.make(),
            flows: fl.iter().map(|f| f.make()).collect(),
            schedule: sched.iter().map(|s| dt(*s)).collect(),
            notionals: lev,
            issue: Date::default(),
            maturity: dt(*d.last().unwrap()),
            days: 2,
        },
        fl,
    )
}
fn vectors() -> Vec<Vec<f64>> {
    let alpha = [100.0, 60.0, 25.0];
    let mut out: Vec<Vec<f64>> = vec![];
    let mut v: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..4 {
        v = v.iter().flat_map(|p| alpha.iter().filter(|a| p.last().map_or(true, |l| *a <= l)).map(|a| p.iter().cloned().chain([*a]).collect())).collect();
        out.extend(v.clone());
    }
    // longer ones: paid down at every period, in the middle, at the end
    for n in [7usize, 12, 20] {
        out.push((0..n).map(|k| 100.0 - 4.0 * k as f64).collect());
        out.push((0..n).map(|k| if k < n / 2 { 100.0 } else { 30.0 }).collect());
        out.push((0..n).map(|k| if k + 1 < n { 100.0 } else { 30.0 }).collect());
    }
    out
}
fn ok_close(w: Option<f64>, g: &Out<f64>, tol: f64) -> bool {
    match (w, g) {
        (Some(w), Ok(g)) => feq(w, *g, tol),
        (None, Err(_)) => true,
        _ => false,
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub face: f64,
    pub days: i32,
    pub red: Option<f64>,
    pub issue: i32,
    pub pconv: Option<B>,
    pub pmk: Option<Mk>,
    pub ex: Option<(i32, Mk, B)>,
    pub first: Option<D>,
    pub coupons: &'static [f64],
    pub d: D,
}
pub const PLAIN: Opt = Opt { face: 100.0, days: 2, red: None, issue: NULL, pconv: None, pmk: None, ex: None, first: None, coupons: &[0.05], d: D::BondBasis };
pub fn frb(sp: &Spec, o: &Opt) -> FixedRateBond {
    FixedRateBond::new_with_options(
        o.days, o.face, sp.make(), o.coupons.to_vec(), o.d.make(), o.pconv, o.red, if o.issue == NULL { None } else { Some(dt(o.issue)) }, o.pmk.map(|m| m.make()),
        o.ex.map(|e| per(e.0, U::D)), o.ex.map(|e| e.1.make()), o.ex.map(|e| e.2), o.ex.map(|_| false), o.first.map(|d| d.make()),
    )
}
/// the flows the bond should have
pub fn flows(sp: &Spec, o: &Opt) -> Option<Vec<Fl>> {
    let cal = Cal::new(sp.mk);
    let m = model(sp, &cal)?;
    let pcal = o.pmk.map_or(cal.clone(), Cal::new);
    let n = m.reg.len();
    let mut v = vec![];
    for i in 0..n {
        let (a, b) = (m.d[i], m.d[i + 1]);
        let pay = pcal.adjust(b, o.pconv.unwrap_or(B::Following))?;
        let (mut rs, mut re) = (a, b);
        if !m.reg[i] && i == 0 {
            rs = cal.advance(b, -sp.n, sp.u, sp.conv, sp.eom)?;
        } else if !m.reg[i] && i == n - 1 {
            re = cal.advance(a, sp.n, sp.u, sp.conv, sp.eom)?;
        }
        let ex = match o.ex {
            Some(e) => Cal::new(e.1).advance(pay, -e.0, U::D, e.2, false)?,
            None => NULL,
        };
        let d = if i == 0 { o.first.unwrap_or(o.d) } else { o.d };
        v.push(Fl::K(Cp { start: a, end: b, pay, ex, rs, re, nom: o.face, r: o.coupons[i.min(o.coupons.len() - 1)], d, f: F::Annual }));
    }
    let pay = v.last().unwrap().date();
    v.push(Fl::R(pay, o.face * o.red.unwrap_or(100.0) / 100.0));
    Some(v)
}
pub fn bond_specs(wide: bool) -> Vec<Spec> {
    let mut v = vec![];
    for (ei, eff) in [t(2022, 1, 31), t(2022, 5, 15), t(2022, 8, 27)].into_iter().enumerate() {
        for (li, len) in [6, 12, 23, 37].into_iter().chain(if wide { vec![1, 60, 119, 361] } else { vec![] }).enumerate() {
            for (ti, tn) in [12, 6, 3].into_iter().enumerate() {
                for rule in [R::Backward, R::Forward] {
                    for conv in [B::Unadjusted, B::ModifiedFollowing] {
                        let mut sp = Spec::new(eff, add(eff, len, U::M).unwrap(), tn, U::M, [Mk::UsGovBond, Mk::Target, Mk::Nil][(ei + li + ti) % 3]).rule(rule).conv(conv);
                        sp.eom = ti == 1;
                        v.push(sp);
                        if len > 12 && conv == B::Unadjusted {
                            v.push(Spec { ntl: sp.term - 40, ..sp });
                            v.push(Spec { first: sp.eff + 50, ..sp });
                        }
                    }
                }
            }
        }
    }
    // long ones
    for (len, tn) in [(120, 6), (360, 12), (125, 3)] {
        for rule in [R::Backward, R::Forward] {
            v.push(Spec::new(t(2019, 11, 30), add(t(2019, 11, 30), len, U::M).unwrap(), tn, U::M, Mk::Target).rule(rule).conv(B::ModifiedFollowing));
        }
    }
    v.into_iter().filter(|s| model(s, &Cal::new(s.mk)).is_some()).collect()
}

pub fn c25(ctx: &Ctx) {
    // amortisation patterns through the trait's own queries
    let vecs = vectors();
    ctx.bound(format!("all 34 non-increasing notional vectors of length 1-4 over three levels and longer ones up to 20 ({} together) x 5 faces x every date from 20 days before the first to 20 days after the last payment", vecs.len()));
    ctx.par(vecs.len(), |i| {
        for mult in [1.0, 0.01, 12345.0, 1e-5, 3e9] {
            let (b, fl) = amortising(&vecs[i], mult);
            let key = || format!("amortising {:?} x {}", vecs[i], mult);
            let mut paid = 0.0;
            for f in fl.iter().filter(|f| f.cp().is_none()) {
                paid += f.amount();
            }
            ctx.ok(|| format!("{}: model redemptions", key()), "initial notional", feq(paid, vecs[i][0] * mult, 1e-12));
            for x in t(2022, 12, 27)..=b.maturity.serial_number() + 20 {
                let left = if x >= fl.last().unwrap().date() { 0.0 } else { vecs[i][0] * mult - fl.iter().filter(|f| f.cp().is_none() && f.date() <= x).map(|f| f.amount()).sum::<f64>() };
                let day = dt(x);
                let got = call(|| b.notional(day));
                ctx.ok(|| format!("{}: notional {:?} on {}", key(), got, show(x)), &format!("{}", left), matches!(got, Ok(g) if feq(g, left, 1e-12)));
                ctx.eq(|| format!("{}: tradeable on {}", key(), show(x)), Ok(left != 0.0), call(|| b.is_tradeable(day)));
                let acc = if left == 0.0 { Some(0.0) } else { accrued(&fl, x, false).map(|a| a * 100.0 / left) };
                let got = call(|| b.accrued_amount(day));
                ctx.ok(|| format!("{}: accrued {:?} on {}", key(), got, show(x)), &format!("{:?}", acc), ok_close(acc, &got, 1e-11));
                let got = call(|| b.dirty_price_from_yield(0.03, D::A360.make(), C::Continuous, F::Annual, day));
                let w = if left == 0.0 { None } else { value(&fl, 0.03, D::A360, &C::Continuous, F::Annual, false, x, NULL).map(|v| v.npv * 100.0 / left) };
                ctx.ok(|| format!("{}: dirty price {:?} on {}", key(), got, show(x)), &format!("{:?}", w), ok_close(w, &got, 1e-11));
                if left != 0.0 {
                    let g = call(|| b.clean_price_from_yield(0.03, D::A360.make(), C::Continuous, F::Annual, day));
                    let w = w.zip(acc).map(|(p, a)| p - a);
                    ctx.ok(|| format!("{}: clean price {:?} on {}", key(), g, show(x)), &format!("{:?}", w), ok_close(w, &g, 1e-11));
                    if left < 1.0 {
                        // yields of what is worth less than 1 are C26's known finding
                        ctx.tr(4);
                        ctx.st(1);
                        continue;
                    }
                    let y = call(|| b.bond_yield(w.unwrap(), D::A360.make(), C::Continuous, F::Annual, day));
                    ctx.ok(|| format!("{}: yield {:?} on {}", key(), y, show(x)), "3%", matches!(y, Ok(y) if (y - 0.03).abs() < 1e-7));
                }
                ctx.tr(5);
                ctx.st(1);
            }
            ctx.val(1);
        }
    });
    // settlement dates
    let mks = [Mk::Target, Mk::UsGovBond, Mk::Weekends, Mk::Nil];
    let lags = [0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 14, 15, 20, 21, 30, 31, 45, 60];
    ctx.bound("settlement: 4 calendars x 18 numbers of settlement days from 0 to 60 x every day of 13 months x issue dates before, inside, after; every 11th day of 60 years");
    ctx.par(mks.len() * lags.len(), |i| {
        let (mk, days) = (mks[i % 4], lags[i / 4]);
        let cal = Cal::new(mk);
        for issue in [NULL, t(2022, 1, 3), t(2023, 4, 8), t(2023, 4, 11), t(2025, 1, 1)] {
            let (mut b, _) = amortising(&[100.0], 1.0);
            b.calendar = mk.make();
            b.issue = dt(issue);
            b.days = days;
            let z = ZeroCouponBond::new_with_options(days, &mk.make(), 100.0, dt(t(2030, 1, 1)), None, None, if issue == NULL { None } else { Some(dt(issue)) });
            for x in (t(2022, 12, 20)..t(2024, 1, 15)).chain((t(2024, 1, 15)..t(2054, 1, 15)).step_by(11)).chain((t(1980, 1, 2)..t(2010, 1, 2)).step_by(11)) {
                let w = cal.advance(x, days, U::D, B::Following, false).unwrap().max(issue);
                let got = call(|| (b.settlement_date(dt(x)).serial_number(), z.settlement_date(dt(x)).serial_number()));
                ctx.eq(|| format!("settlement on {:?} + {} from {} issued {}", mk, days, show(x), show(issue)), Ok((w, w)), got);
                ctx.st(1);
                ctx.tr(2);
            }
        }
    });
    // fixed-rate bonds
    let specs = bond_specs(ctx.thorough());
    let mut opts = vec![];
    let exs = [None, Some((7, Mk::Nil, B::Unadjusted)), Some((3, Mk::Target, B::Preceding))];
    let mut k = 0;
    for pconv in [None, Some(B::Unadjusted), Some(B::ModifiedFollowing), Some(B::Preceding)] {
        for pmk in [None, Some(Mk::UsGovBond), Some(Mk::Nil)] {
            for ex in exs {
                for red in [None, Some(100.0), Some(95.0), Some(110.0)] {
                    k += 1;
                    opts.push(Opt {
                        face: [100.0, 1.0, 1e6, 2.5e-4, 5e9, 1e12][(k + k / 6) % 6],
                        days: (k % 4) as i32,
                        red,
                        issue: [NULL, t(2022, 3, 1)][k % 2],
                        pconv,
                        pmk,
                        ex,
                        first: [None, Some(D::Nasd)][(k / 2) % 2],
                        coupons: [&[0.05][..], &[0.02, 0.03, 0.04][..], &[0.0][..]][k % 3],
                        d: [D::BondBasis, D::A360, D::AaOldIsma, D::AaIsda][k % 4],
                    });
                }
            }
        }
    }
    ctx.bound(format!("{} fixed-rate bonds: schedules x {} combinations of payment convention and calendar, ex-coupon rule, redemption, face, issue date, first-period day counter, coupon vector", specs.len() * opts.len(), opts.len()));
    ctx.par(specs.len(), |i| {
        let sp = specs[i];
        let m = model(&sp, &Cal::new(sp.mk)).unwrap();
        for o in &opts {
            let key = || format!("bond on {} with {:?}", sp.key(), o);
            let want = flows(&sp, o).unwrap();
            let Ok(b) = call(|| frb(&sp, o)) else {
                ctx.fail(key(), "a bond", "refused");
                continue;
            };
            ctx.tr(1);
            ctx.eq(|| format!("number of flows of {}", key()), (want.len(), 1), (b.cashflows().len(), b.redemptions.len()));
            if b.cashflows().len() != want.len() || b.redemptions.len() != 1 {
                continue;
            }
            for (j, (w, g)) in want.iter().zip(b.cashflows()).enumerate() {
                let c = w.cp();
                let term = |f: fn(&Cp) -> i32| c.as_ref().map_or(NULL, f);
                let w = (w.date(), term(|c| c.start), term(|c| c.end), term(|c| c.rs), term(|c| c.re), term(|c| c.ex), w.amount());
                let g = (g.date(), g.accrual_start_date(), g.accrual_end_date(), g.reference_period_start(), g.reference_period_end(), CashFlow::ex_coupon_date(g), g.amount());
                let g = (g.0.serial_number(), g.1.serial_number(), g.2.serial_number(), g.3.serial_number(), g.4.serial_number(), g.5.serial_number(), g.6);
                if (w.0, w.1, w.2, w.3, w.4, w.5) != (g.0, g.1, g.2, g.3, g.4, g.5) || !feq(w.6 / o.face, g.6 / o.face, 1e-12) {
                    ctx.fail(format!("flow {} of {}", j, key()), format!("{:?}", w), format!("{:?}", g));
                }
            }
            let last = want.last().unwrap().date();
            let end = *m.d.last().unwrap();
            ctx.ok(|| format!("redemption of {}", key()), "the redemption percentage of the face, on the last payment date", feq(b.redemptions[0].amount(), o.face * o.red.unwrap_or(100.0) / 100.0, 1e-14) && b.redemptions[0].date() == dt(last));
            let cal = o.pmk.unwrap_or(sp.mk);
            ctx.ok(|| format!("terms of {}", key()), "maturity, issue, calendar and settlement days as given",
                b.maturity_date() == dt(end) && b.maturity_date == dt(end) && Bond::issue_date(&b) == dt(o.issue) && b.settlement_days() == o.days && b.calendar().name() == cal.make().name()
                    && format!("{:?}", b) == format!("FRB/{}", show(end)));
            for x in [sp.eff, sp.eff + 100, last - 1, last, last + 1, last + 1000] {
                let w = if x < last { o.face } else { 0.0 };
                ctx.eq(|| format!("notional on {} of {}", show(x), key()), Ok((w, w != 0.0)), call(|| (b.notional(dt(x)), b.is_tradeable(dt(x)))));
            }
            ctx.ok(|| format!("maturity of the flows of {}", key()), "the last accrual end or payment", call(|| bondfunctions::maturity_date(b.cashflows())) == Ok(dt(end.max(last))));
            ctx.st(1);
            ctx.val(1);
        }
        // the short constructor is the long one with its defaults
        let short = call(|| FixedRateBond::new(2, 100.0, sp.make(), vec![0.05], D::BondBasis.make()));
        let same = short.is_ok_and(|s| {
            let l = frb(&sp, &PLAIN);
            s.cashflows().len() == l.cashflows().len() && s.cashflows().iter().zip(l.cashflows()).all(|(a, b)| a.date() == b.date() && a.amount() == b.amount() && a.reference_period_start() == b.reference_period_start())
        });
        ctx.ok(|| format!("short constructor on {}", sp.key()), "the defaults", same);
    });
    ctx.sample(|| format!("{:?}", flows(&specs[3], &PLAIN)));
}

pub fn c26(ctx: &Ctx) {
    let specs = bond_specs(ctx.thorough());
    let ys: Vec<f64> = ctx.pick(vec![-0.01, 0.0, 0.0005, 0.03, 0.12], vec![-0.02, -0.01, -0.001, 0.0, 0.0005, 0.01, 0.03, 0.05, 0.0731, 0.12, 0.3]);
    let conv: Vec<(C, F)> = [C::Simple, C::Continuous].map(|c| (c, F::Annual)).into_iter().chain([C::Compounded, C::SimpleThenCompounded, C::CompoundedThenSimple].into_iter().flat_map(|c| [F::Annual, F::Semiannual, F::Quarterly].map(|f| (c.clone(), f)))).collect();
    let opts = [
        PLAIN,
        Opt { face: 1e6, d: D::AaOldIsma, coupons: &[0.02, 0.07], ..PLAIN },
        Opt { face: 1.0, d: D::A360, ex: Some((9, Mk::Nil, B::Unadjusted)), coupons: &[0.09], red: Some(103.0), ..PLAIN },
        Opt { face: 0.01, d: D::AaIsda, coupons: &[0.0], ..PLAIN },
    ];
    let ydcs = [D::BondBasis, D::A360, D::AaOldIsma, D::AaIsda];
    ctx.bound(format!("{} bonds, issued at their start, in their first period or half way, x settlement dates through the life (period starts and ends, mid periods, ex dates, last days) x {} yields x {} compounding conventions x 4 day counters: prices, accrued, yields back", specs.len() * opts.len(), ys.len(), conv.len()));
    ctx.par(specs.len() * opts.len(), |i| {
        let (sp, o) = (specs[i / opts.len()], opts[i % opts.len()]);
        let Some(fl) = flows(&sp, &o) else { return };
        // some are issued in their first period, or later still: bought and priced before all the same
        let o = Opt { issue: match i % opts.len() { 1 => fl[0].cp().map_or(NULL, |c| (c.start + c.end) / 2 + 1), 2 => fl[fl.len() / 2].date() + 40, _ => NULL }, ..o };
        let Ok(b) = call(|| frb(&sp, &o)) else { return ctx.fail(format!("bond on {} with {:?}", sp.key(), o), "a bond", "refused") };
        let unit = frb(&sp, &Opt { face: 100.0, ..o });
        at(sp.key());
        let n = fl.len() - 1;
        let mut days: Vec<i32> = vec![];
        for j in [0, 1, n / 2, n - 1] {
            let c = fl[j.min(n - 1)].cp().unwrap();
            days.extend([c.start, c.start + 1, (c.start + c.end) / 2, c.pay - 9, c.pay - 8, c.pay - 1, c.pay]);
        }
        days.push(fl[n].date() + 5);
        days.sort();
        days.dedup();
        for (xi, x) in days.into_iter().enumerate() {
            let day = dt(x);
            let live = x < fl[n].date();
            let key = |w: &str| format!("{} on {} of bond on {} with {:?}", w, show(x), sp.key(), o);
            let acc = if live { accrued(&fl, x, false).map(|a| a * 100.0 / o.face) } else { Some(0.0) };
            let got = call(|| b.accrued_amount(day));
            ctx.ok(|| key(&format!("accrued {:?}", got)), &format!("{:?}", acc), ok_close(acc, &got, 1e-11));
            ctx.st(1);
            for (ci, (c, f)) in conv.iter().enumerate() {
                let d = ydcs[(ci + xi + i) % ydcs.len()];
                let mut before: Option<f64> = None;
                for (yi, y) in ys.iter().enumerate() {
                    let key = |w: &str| format!("{} at {} {:?} {:?} {:?}", key(w), y, d, c, f);
                    let got = (call(|| b.dirty_price_from_yield(*y, d.make(), c.clone(), *f, day)), call(|| b.clean_price_from_yield(*y, d.make(), c.clone(), *f, day)));
                    ctx.tr(2);
                    if !live {
                        ctx.ok(|| key("price"), "refused", got.0.is_err() && got.1.is_err() && call(|| b.bond_yield(100.0, d.make(), c.clone(), *f, day)).is_err());
                        continue;
                    }
                    let Some(v) = value(&fl, *y, d, c, *f, false, x, NULL) else {
                        ctx.outcome("no real value (not covered)", 1);
                        continue;
                    };
                    let w = v.npv * 100.0 / o.face;
                    ctx.ok(|| key(&format!("dirty and clean price {:?}", got)), &format!("{} less {:?}", w, acc), ok_close(Some(w), &got.0, 1e-11) && ok_close(acc.map(|a| w - a), &got.1, 1e-11));
                    let (Ok(dirty), Ok(clean)) = got else { continue };
                    ctx.ok(|| key("price from the flows"), "the same", {
                        let g = call(|| bondfunctions::dirty_price(o.face, b.cashflows(), &InterestRate::new(*y, d.make(), c.clone(), *f), day));
                        ok_close(Some(dirty), &g, 1e-12)
                    });
                    // some payment is due later than the settlement date
                    let moves = v.flows.iter().any(|(a, t)| *a > 0.0 && *t > 0.0);
                    if let Some(p) = before {
                        ctx.ok(|| key(&format!("price {} after {}", dirty, p)), "lower than at the previous yield", !moves || dirty < p);
                    }
                    before = Some(dirty);
                    let g = call(|| unit.clean_price_from_yield(*y, d.make(), c.clone(), *f, day));
                    ctx.ok(|| key(&format!("clean price of the same bond with face 100 {:?} against {}", g, clean)), "the same", ok_close(Some(clean), &g, 1e-10));
                    // the yield of that price
                    if moves && (yi + ci) % 2 == 0 {
                        let g = call(|| b.bond_yield(clean, d.make(), c.clone(), *f, day));
                        // 1e-8 is the default accuracy of the solver
                        let near = |g: &Out<f64>, acc: f64, more: &str| {
                            let off = g.map_or(f64::INFINITY, |g| (g - y).abs());
                            if off <= 2.0 * acc + 1e-12 {
                                return;
                            }
                            if dirty * o.face < 100.0 && off <= 3.0 * acc / (dirty * o.face / 100.0) {
                                // one finding, whatever the bond: the solver stops too early by up to the present value
                                ctx.fail("yield accuracy for bonds worth less than 1", "within the accuracy asked for", "off by up to the accuracy over the present value");
                            } else {
                                ctx.fail(key(&format!("yield {:?} back from {}{}", g, clean, more)), format!("{}", y), format!("off by {}", off));
                            }
                        };
                        near(&g, 1e-8, "");
                        if (yi + ci) % 4 == 0 {
                            for (acc, guess) in [(1e-10, 0.05), (1e-6, 0.2), (1e-12, 0.01), (1e-8, -0.01)] {
                                let g = call(|| b.bond_yield_with_options(clean, d.make(), c.clone(), *f, day, Some(acc), Some(200), Some(guess)));
                                near(&g, acc, &format!(" with accuracy {} and guess {}", acc, guess));
                            }
                        }
                        ctx.outcome("yield solved", 1);
                    }
                    ctx.val(1);
                }
            }
        }
    });
    // amortising bonds, before and after every repayment
    let vecs = vectors();
    ctx.bound(format!("{} amortising bonds x settlement dates in every period x {} yields x {} conventions x 2 faces", vecs.len(), ys.len(), conv.len()));
    ctx.par(vecs.len(), |i| {
        let (b, fl) = amortising(&vecs[i], 1.0);
        let (big, _) = amortising(&vecs[i], 40.0);
        at(format!("amortising {:?}", vecs[i]));
        for f in &fl {
            let Some(cp) = f.cp() else { continue };
            for x in [cp.start, cp.start + 1, cp.start + 40, cp.pay - 1] {
                let left = vecs[i][0] - fl.iter().filter(|f| f.cp().is_none() && f.date() <= x).map(|f| f.amount()).sum::<f64>();
                let acc = accrued(&fl, x, false).map(|a| a * 100.0 / left);
                for (ci, (c, f)) in conv.iter().enumerate() {
                    let d = ydcs[(ci + i) % ydcs.len()];
                    for y in &ys {
                        let key = |w: &str| format!("{} on {} of the bond amortising {:?} at {} {:?} {:?} {:?}", w, show(x), vecs[i], y, d, c, f);
                        let Some(w) = value(&fl, *y, d, c, *f, false, x, NULL).map(|v| v.npv * 100.0 / left) else {
                            ctx.outcome("no real value (not covered)", 1);
                            continue;
                        };
                        let got = call(|| (b.dirty_price_from_yield(*y, d.make(), c.clone(), *f, dt(x)), b.clean_price_from_yield(*y, d.make(), c.clone(), *f, dt(x)), b.accrued_amount(dt(x))));
                        ctx.ok(|| key(&format!("prices and accrued {:?}", got)), &format!("{} less {:?}", w, acc), matches!((got, acc), (Ok((p, q, a)), Some(m)) if feq(p, w, 1e-11) && feq(q, w - m, 1e-11) && feq(a, m, 1e-11)));
                        let g = call(|| big.clean_price_from_yield(*y, d.make(), c.clone(), *f, dt(x)));
                        ctx.ok(|| key(&format!("clean price of forty times as much {:?}", g)), "the same", matches!((got, g), (Ok(a), Ok(g)) if feq(a.1, g, 1e-11)));
                        ctx.tr(3);
                        if let Some(m) = acc {
                            for q in [&b, &big] {
                                let g = call(|| q.bond_yield(w - m, d.make(), c.clone(), *f, dt(x)));
                                ctx.ok(|| key(&format!("yield {:?} of its price", g)), "the yield", matches!(g, Ok(g) if (g - y).abs() <= 2e-8));
                            }
                            ctx.outcome("yield solved", 2);
                        }
                        ctx.val(1);
                    }
                }
                ctx.st(1);
            }
        }
    });
    // bonds paying a coupon equal to their yield are worth par on coupon dates
    ctx.bound("par bonds: 4 frequencies x 8 coupons x 1-10 years x every coupon date");
    for (tn, f) in [(12, F::Annual), (6, F::Semiannual), (3, F::Quarterly), (1, F::Monthly)] {
        ctx.par(10, |years| {
            let sp = Spec::new(t(2021, 2, 15), t(2022 + years as i32, 2, 15), tn, U::M, Mk::Nil).conv(B::Unadjusted);
            for c in [0.0, 0.001, 0.01, 0.03, 0.05, 0.08, 0.15, 0.4] {
                let b = FixedRateBond::new(0, 1000.0, sp.make(), vec![c], D::BondBasis.make());
                let m = model(&sp, &Cal::new(sp.mk)).unwrap();
                for x in &m.d[..m.d.len() - 1] {
                    let g = call(|| (b.clean_price_from_yield(c, D::BondBasis.make(), C::Compounded, f, dt(*x)), b.dirty_price_from_yield(c, D::BondBasis.make(), C::Compounded, f, dt(*x)), b.accrued_amount(dt(*x))));
                    ctx.ok(|| format!("par bond {} {:?} of {} at {}: {:?}", c, f, sp.key(), show(*x), g), "100, 100 and nothing accrued", matches!(g, Ok((p, q, a)) if (p - 100.0).abs() < 1e-9 && (q - 100.0).abs() < 1e-9 && a == 0.0));
                    let y = call(|| b.bond_yield(100.0, D::BondBasis.make(), C::Compounded, f, dt(*x)));
                    ctx.ok(|| format!("yield {:?} of par bond {} {:?} of {} at {}", y, c, f, sp.key(), show(*x)), "its coupon", matches!(y, Ok(y) if (y - c).abs() <= 2e-8));
                    ctx.st(1);
                    ctx.tr(4);
                }
            }
        });
    }
    ctx.sample(|| specs[5].key());
}

pub fn c27(ctx: &Ctx) {
    let settles = [t(2023, 3, 31), t(2023, 11, 9), t(2024, 2, 29), t(1931, 8, 29), t(2098, 12, 31)];
    let tenors: Vec<i32> = ctx.pick(vec![1, 7, 28, 91, 182, 183, 364, 366, 730, 3653, 10957, 29220], (1..370).chain((370..11000).step_by(37)).chain([14610, 29220, 36525]).collect());
    let conv: Vec<(C, F)> = [C::Simple, C::Continuous].map(|c| (c, F::Annual)).into_iter().chain([C::Compounded, C::SimpleThenCompounded, C::CompoundedThenSimple].into_iter().flat_map(|c| [F::Annual, F::Semiannual, F::Quarterly].map(|f| (c.clone(), f)))).collect();
    ctx.bound(format!("5 settlement dates (1931 to 2098) x {} maturities from 1 day to 80 (100) years x 3 calendars x 4 payment conventions x faces and redemptions; 12 discount yields; 8 prices x {} compounding conventions x 4 day counters", tenors.len(), conv.len()));
    ctx.par(tenors.len(), |i| {
        let days = tenors[i];
        for (si, settle) in settles.iter().enumerate() {
            for (ki, mk) in [Mk::UsGovBond, Mk::Target, Mk::Nil].into_iter().enumerate() {
                for pconv in [None, Some(B::ModifiedFollowing), Some(B::Preceding), Some(B::Unadjusted)] {
                    let mat = settle + days;
                    let (face, red) = [(100.0, None), (1e6, Some(100.0)), (1.0, Some(90.0))][(i + si + ki) % 3];
                    let cal = Cal::new(mk);
                    let pay = cal.adjust(mat, pconv.unwrap_or(B::Following)).unwrap();
                    let key = |w: String| format!("{} of zero-coupon bond maturing {} on {:?} {:?} face {} redemption {:?} settled {}", w, show(mat), mk, pconv, face, red, show(*settle));
                    at(key("queries".into()));
                    let issue = if (i + si) % 2 == 0 { Some(dt(settle - 1)) } else { None };
                    let b = ZeroCouponBond::new_with_options(1, &mk.make(), face, dt(mat), pconv, red, issue);
                    let amount = face * red.unwrap_or(100.0) / 100.0;
                    ctx.ok(|| key("terms".into()), "one redemption flow at the adjusted maturity",
                        b.cashflows().len() == 1 && b.cashflows()[0].date() == dt(pay) && feq(b.cashflows()[0].amount(), amount, 1e-14) && b.redemptions.len() == 1 && b.redemptions[0].date() == dt(pay)
                            && b.maturity_date() == dt(mat) && b.issue_date() == issue.unwrap_or_default() && b.calendar().name() == mk.make().name() && b.settlement_days() == 1 && format!("{:?}", b) == format!("ZCB/{}", show(mat)));
                    for x in [*settle, settle + days / 2, pay - 1, pay, pay + 1] {
                        let w = if x < pay { face } else { 0.0 };
                        ctx.eq(|| key(format!("notional and accrued on {}", show(x))), Ok((w, 0.0, w != 0.0)), call(|| (b.notional(dt(x)), b.accrued_amount(dt(x)), b.is_tradeable(dt(x)))));
                        let n = ((mat - x) as f64 / 30.0).round() as i32;
                        ctx.eq(|| key(format!("period on {}", show(x))), Ok((n, U::M.tu())), call(|| { let p = b.period(dt(x)); (p.length, p.unit) }));
                    }
                    for q in [0.0, 1e-6, 0.001, 0.00851, 0.01, 0.025, 0.05, 0.1, 0.2, 0.3, 0.5, -0.005] {
                        let w = 100.0 * (1.0 - q * days as f64 / 360.0);
                        ctx.close(|| key(format!("price from discount yield {}", q)), w, call(|| b.price_from_discount_yield(q, dt(*settle))), 1e-12);
                    }
                    ctx.st(1);
                    if pay <= *settle {
                        ctx.ok(|| key("yield".into()), "refused", call(|| b.bond_yield(99.0, D::A360.make(), C::Continuous, F::Annual, dt(*settle))).is_err());
                        continue;
                    }
                    let full = 100.0 * amount / face;
                    for (ci, (c, f)) in conv.iter().enumerate() {
                        if matches!(c, C::Simple | C::CompoundedThenSimple) && days > 3700 {
                            // simple interest over decades: the search meets the pole of 1/(1+yt)
                            continue;
                        }
                        let d = [D::A360, D::AaIsda, D::AaOldIsma, D::BondBasis][(ci + ki + i) % 4];
                        let tt = Fl::R(pay, amount);
                        let mut last = f64::INFINITY;
                        let short = if days < 30 { 0.01 } else if days < 366 { 0.1 } else { 1.0 };
                        for q in [0.6, 0.8, 0.95, 0.99, 0.999, 1.0, 1.001, 1.01] {
                            // price as a fraction of the redemption, closer to it for short bonds
                            let price = full * (1.0 - (1.0 - q) * short);
                            let y = call(|| b.bond_yield(price, d.make(), c.clone(), *f, dt(*settle)));
                            let p = y.ok().and_then(|y| value(&[tt], y, d, c, *f, false, *settle, NULL)).map(|v| v.npv * 100.0 / face);
                            // price change for the solver's accuracy
                            let time = value(&[tt], 0.01, d, c, *f, false, *settle, NULL).unwrap().flows[0].1;
                            if time <= 0.0 {
                                ctx.outcome("no time to maturity (not covered)", 1);
                                continue;
                            }
                            let tol = 3e-8 * time.max(0.01) * price * factor(0.3, c, *f, time).unwrap().max(1.0);
                            ctx.ok(|| key(format!("yield {:?} {:?} {:?} {:?} of price {} prices back to {:?}", y, d, c, f, price, p)), "that price", matches!(p, Some(p) if (p - price).abs() <= tol));
                            if let Ok(y) = y {
                                if q == 1.0 {
                                    ctx.ok(|| key(format!("yield {} at redemption value {:?} {:?} {:?}", y, d, c, f)), "zero", y.abs() <= 2e-8);
                                }
                                ctx.ok(|| key(format!("yield {} after {} {:?} {:?} {:?}", y, last, d, c, f)), "falls as the price rises", y < last);
                                last = y;
                            }
                            ctx.tr(1);
                            ctx.val(1);
                        }
                    }
                }
            }
        }
    });
    ctx.ok(|| "ZeroCouponBond::new".into(), "following, redemption 100, no issue date", {
        let b = ZeroCouponBond::new(1, &Mk::UsGovBond.make(), 250.0, dt(t(2023, 7, 4)));
        b.payment_convention == B::Following && b.redemption == 100.0 && b.issue_date() == Date::default() && b.cashflows()[0].date() == dt(t(2023, 7, 5)) && b.cashflows()[0].amount() == 250.0
    });
    ctx.sample(|| "91-day bill at 5% discount: 100 * (1 - 0.05 * 91 / 360)".into());
}
