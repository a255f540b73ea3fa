//! C46: an object whose fields are changed answers as one built with the new values.
//! Every history of field changes to a depth, with every pair of questions asked between and after them, on
//! rates, coupons, cash flows, quotes, periods, legs in the making, bonds, arrays and yield searches.
use super::legs::Cp;
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::{Spec, NULL};
use rust_quantlib::cashflows::cashflow::{self, CashFlow};
use rust_quantlib::cashflows::coupon::Coupon;
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::cashflows::fixedrateleg::FixedRateLeg;
use rust_quantlib::cashflows::irrfinder::IrrFinder;
use rust_quantlib::cashflows::simplecashflow::{AmortizingPayment, Redemption, SimpleCashFlow};
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::datetime::imm::IMM;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::instrument::Instrument;
use rust_quantlib::instruments::stock::Stock;
use rust_quantlib::instruments::zerocouponbond::ZeroCouponBond;
use rust_quantlib::maths::array::Array;
use rust_quantlib::quotes::quote::Quote;
use rust_quantlib::quotes::simplequote::SimpleQuote;
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

fn t(y: i32, m: i32, d: i32) -> i32 {
    ser(y, m, d)
}
fn day(y: i32, m: i32, d: i32) -> Date {
    dt(t(y, m, d))
}
fn null() -> Date {
    Date::default()
}

type Set<M, O> = (String, Box<dyn Fn(&mut M, &mut O)>);
type Ask<M, O> = (String, Box<dyn Fn(&O) -> Vec<f64>>, Option<fn(&M) -> Vec<f64>>);
/// what can be changed and asked of one kind of object; an answer is compared with a fresh object's, or,
/// where it is not a matter of construction, with the model's
struct Kind<M, O> {
    name: &'static str,
    /// what the objects were before the first change
    starts: Vec<M>,
    make: Box<dyn Fn(&M) -> O>,
    sets: Vec<Set<M, O>>,
    asks: Vec<Ask<M, O>>,
}
impl<M: Clone, O> Kind<M, O> {
    fn new(name: &'static str, start: M, make: impl Fn(&M) -> O + 'static) -> Self {
        Kind { name, starts: vec![start], make: Box::new(make), sets: vec![], asks: vec![] }
    }
    fn set(mut self, what: impl Into<String>, f: impl Fn(&mut M, &mut O) + 'static) -> Self {
        self.sets.push((what.into(), Box::new(f)));
        self
    }
    fn ask(mut self, what: impl Into<String>, f: impl Fn(&O) -> Vec<f64> + 'static) -> Self {
        self.asks.push((what.into(), Box::new(f), None));
        self
    }
    fn also(mut self, f: impl FnOnce(&mut M)) -> Self {
        let mut m = self.starts[0].clone();
        f(&mut m);
        self.starts.push(m);
        self
    }
    fn ask1(self, what: impl Into<String>, f: impl Fn(&O) -> f64 + 'static) -> Self {
        self.ask(what, move |o| vec![f(o)])
    }
    fn ask_model(mut self, what: impl Into<String>, f: impl Fn(&O) -> Vec<f64> + 'static, m: fn(&M) -> Vec<f64>) -> Self {
        self.asks.push((what.into(), Box::new(f), Some(m)));
        self
    }
}
fn same(a: &Out<Vec<f64>>, b: &Out<Vec<f64>>) -> bool {
    match (a, b) {
        (Ok(a), Ok(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x == y || (x - y).abs() <= 1e-11 * x.abs().max(y.abs()) + 1e-300 || (x.is_nan() && y.is_nan())),
        (a, b) => a.is_err() == b.is_err(),
    }
}
fn explore<M: Clone, O>(ctx: &Ctx, kind: impl Fn() -> Kind<M, O> + Sync, depth: usize) {
    let (ns, nq, starts) = {
        let k = kind();
        ctx.bound(format!("{}: {} beginnings, {} changes, {} questions; every history of {} changes, every two questions asked after each", k.name, k.starts.len(), k.sets.len(), k.asks.len(), depth));
        (k.sets.len(), k.asks.len(), k.starts.len())
    };
    ctx.par(ns * starts, |i| {
        let k = kind();
        let (first, start) = (i % ns, &k.starts[i / ns]);
        at(format!("{}: histories beginning with {}", k.name, k.sets[first].0));
        for n in 0..ns.pow(depth as u32 - 1) {
            let mut seq = vec![first];
            let mut r = n;
            for _ in 1..depth {
                seq.push(r % ns);
                r /= ns;
            }
            // the states passed through, and the answers of fresh objects in each
            let mut states = vec![start.clone()];
            let mut scratch = (k.make)(start);
            for s in &seq {
                let mut m = states.last().unwrap().clone();
                (k.sets[*s].1)(&mut m, &mut scratch);
                states.push(m);
            }
            let want: Vec<Vec<Out<Vec<f64>>>> = states
                .iter()
                .map(|m| k.asks.iter().map(|a| if let Some(f) = a.2 { Ok(f(m)) } else { call(|| { let o = (k.make)(m); (a.1)(&o) }) }).collect())
                .collect();
            ctx.st(1);
            if n == 0 {
                let refused = want.iter().flatten().filter(|w| w.is_err()).count() as u64;
                ctx.outcome(&format!("{}: answered", k.name), want.iter().flatten().count() as u64 - refused);
                ctx.outcome(&format!("{}: refused", k.name), refused);
            }
            for p in 0..nq {
                for q in 0..nq {
                    let mut m = start.clone();
                    let mut o = (k.make)(&m);
                    let check = |o: &O, step: usize, x: usize| {
                        let got = call(|| (k.asks[x].1)(o));
                        if !same(&want[step][x], &got) {
                            let h: Vec<&str> = seq[..step].iter().map(|s| k.sets[*s].0.as_str()).collect();
                            ctx.fail(format!("{} ({} of its beginnings) after [{}] (asked {} before): {}", k.name, i / ns, h.join(", "), k.asks[if x == p { q } else { p }].0, k.asks[x].0), format!("{:?}", want[step][x]), format!("{:?}", got));
                        }
                    };
                    check(&o, 0, p);
                    for (i, s) in seq.iter().enumerate() {
                        (k.sets[*s].1)(&mut m, &mut o);
                        check(&o, i + 1, q);
                        if p != q {
                            check(&o, i + 1, p);
                        }
                    }
                    ctx.tr(1 + 2 * depth as u64);
                }
            }
            ctx.val(1);
        }
    });
}

// ------------------------------------------------------------------------------------- rates

#[derive(Clone)]
struct MRate {
    r: f64,
    c: C,
    f: F,
    d: D,
}
fn makes_sense(c: &C) -> bool {
    !matches!(c, C::Simple | C::Continuous)
}
fn set_terms(r: &mut InterestRate, c: &C, f: F) {
    r.compounding = c.clone();
    r.frequency_makes_sense = makes_sense(c);
    r.frequency = if makes_sense(c) { f.into() } else { 0.0 };
}
fn rate(r: f64, d: D, c: C, f: F) -> InterestRate {
    InterestRate::new(r, d.make(), c, f)
}
fn k_rate() -> Kind<MRate, InterestRate> {
    let mut k = Kind::new("a rate", MRate { r: 0.04, c: C::Compounded, f: F::Semiannual, d: D::A360 }, |m: &MRate| rate(m.r, m.d, m.c.clone(), m.f));
    for r in [0.02, 0.07, -0.01] {
        k = k.set(format!("rate {}", r), move |m, o| {
            m.r = r;
            o.rate = r;
        });
    }
    for (c, f) in [(C::Simple, F::Annual), (C::Continuous, F::Annual), (C::Compounded, F::Annual), (C::SimpleThenCompounded, F::Quarterly), (C::CompoundedThenSimple, F::Monthly), (C::Compounded, F::Semiannual)] {
        k = k.set(format!("{:?} {:?}", c, f), move |m, o| {
            (m.c, m.f) = (c.clone(), f);
            set_terms(o, &c, f);
        });
    }
    for d in [D::BondBasis, D::A360, D::AaIsda] {
        k = k.set(format!("{:?}", d), move |m, o| {
            m.d = d;
            o.daycounter = d.make();
        });
    }
    for x in [0.2, 1.7] {
        k = k.ask1(format!("growth over {}", x), move |o| o.compound_factor(x)).ask1(format!("discount over {}", x), move |o| o.discount_factor(x));
    }
    k.also(|m| (m.c, m.f) = (C::Simple, F::Annual))
        .also(|m| m.r = 0.0)
        .also(|m| (m.c, m.f, m.d) = (C::Continuous, F::Annual, D::BondBasis))
        .ask1("growth between dates", |o| o.compound_factor_between_dates(&day(2023, 1, 31), &day(2024, 5, 15), &null(), &null()))
        .ask1("discount between dates", |o| o.discount_factor_between_dates(&day(2023, 1, 31), &day(2023, 3, 15), &null(), &null()))
        .ask1("equivalent rate", |o| o.equivalent_rate(&C::Continuous, F::Annual, 2.0).rate)
        .ask1("equivalent rate between dates", |o| o.equivalent_rate_between_dates(&D::A366.make(), &C::Simple, F::Annual, &day(2023, 1, 31), &day(2023, 9, 15), &null(), &null()).rate)
        .ask1("frequency", |o| o.frequency() as i32 as f64)
        .ask1("growth of a copy", |o| o.clone().compound_factor(0.7))
}

// ----------------------------------------------------------------------------------- coupons

#[derive(Clone)]
struct MCoupon {
    p: Cp,
    c: C,
}
fn coupon(m: &MCoupon) -> FixedRateCoupon {
    m.p.make(&m.c)
}
fn start() -> MCoupon {
    let (s, e) = (t(2023, 1, 31), t(2023, 7, 31));
    MCoupon { p: Cp { start: s, end: e, pay: e + 2, ex: e - 6, rs: s, re: e, nom: 100.0, r: 0.05, d: D::A360, f: F::Semiannual }, c: C::Simple }
}
fn od(s: i32) -> Date {
    if s == NULL { null() } else { dt(s) }
}
/// the changes of one coupon, seen in any object through `at`
fn coupon_sets<M: Clone + 'static, O: 'static>(mut k: Kind<M, O>, i: usize, few: bool, md: fn(&mut M, usize) -> &mut MCoupon, at: fn(&mut O, usize) -> &mut FixedRateCoupon) -> Kind<M, O> {
    let e = t(2023, 7, 31);
    macro_rules! field {
        ($($name:literal, $v:expr, $x:ident, $m:expr, $o:expr;)*) => {$(
            for (n, $x) in $v.into_iter().enumerate() {
                if few && n > 0 { continue; }
                k = k.set(format!("{} {:?} of coupon {}", $name, $x, i), move |m, o| {
                    let (f, g): (fn(&mut MCoupon, i32), fn(&mut FixedRateCoupon, i32)) = ($m, $o);
                    f(md(m, i), $x);
                    g(at(o, i), $x);
                });
            }
        )*};
    }
    field! {
        "payment", [e + 9, e], x, |m, x| m.p.pay = x, |o, x| o.payment_date = dt(x);
        "nominal", [250, -40], x, |m, x| m.p.nom = x as f64, |o, x| o.nominal = x as f64;
        "start", [t(2022, 12, 31), t(2023, 4, 1)], x, |m, x| m.p.start = x, |o, x| o.accrual_start_date = dt(x);
        "end", [t(2023, 6, 30), t(2024, 1, 31)], x, |m, x| m.p.end = x, |o, x| o.accrual_end_date = dt(x);
        "reference start", [t(2022, 10, 31)], x, |m, x| m.p.rs = x, |o, x| o.ref_period_start = dt(x);
        "reference end", [t(2023, 10, 31)], x, |m, x| m.p.re = x, |o, x| o.ref_period_end = dt(x);
        "ex", [NULL, t(2023, 6, 1)], x, |m, x| m.p.ex = x, |o, x| o.ex_coupon_date = od(x);
        "rate in bp", [700, -100], x, |m, x| m.p.r = x as f64 * 1e-4, |o, x| o.rate.rate = x as f64 * 1e-4;
        "whole rate in bp", [300], x, |m, x| { m.p.r = x as f64 * 1e-4; m.p.d = D::BondBasis; m.p.f = F::Quarterly; m.c = C::Compounded },
            |o, x| o.rate = rate(x as f64 * 1e-4, D::BondBasis, C::Compounded, F::Quarterly);
    }
    k = k.set(format!("old ISMA of coupon {}", i), move |m, o| {
        md(m, i).p.d = D::AaOldIsma;
        at(o, i).rate.daycounter = D::AaOldIsma.make();
    });
    k.set(format!("continuous of coupon {}", i), move |m, o| {
        md(m, i).c = C::Continuous;
        set_terms(&mut at(o, i).rate, &C::Continuous, F::Annual);
    })
}
fn ymd(d: Date) -> f64 {
    d.serial_number() as f64
}
fn k_coupon() -> Kind<MCoupon, FixedRateCoupon> {
    let kind = Kind::new("a coupon", start(), coupon)
        .also(|m| m.p.ex = NULL)
        .also(|m| m.p.ex = m.p.pay + 3)
        .also(|m| (m.p.nom, m.p.rs, m.p.re) = (0.0, NULL, NULL))
        .also(|m| (m.p.r, m.p.d, m.c) = (0.0, D::BondBasis, C::Compounded));
    let mut k = coupon_sets(kind, 0, false, |m, _| m, |o, _| o)
        .ask1("amount", |o| o.amount())
        .ask("dates", |o| vec![ymd(o.date()), ymd(o.ex_coupon_date()), ymd(CashFlow::accrual_start_date(o)), ymd(CashFlow::accrual_end_date(o)), ymd(o.reference_period_start()), ymd(o.reference_period_end())])
        .ask("accrual", |o| vec![o.accrual_days() as f64, o.accrual_period()])
        .ask("terms", |o| vec![o.nominal(), Coupon::rate(o), o.day_counter().year_fraction(&day(2023, 1, 31), &day(2023, 3, 31), &day(2023, 1, 31), &day(2023, 7, 31))])
        .ask1("has occurred on its payment date", |o| o.has_occurred(&o.payment_date, false) as i32 as f64)
        .ask1("has occurred", |o| o.has_occurred(&day(2023, 8, 2), false) as i32 as f64)
        .ask1("is traded ex", |o| o.trading_ex_coupon(day(2023, 7, 26)) as i32 as f64)
        .ask("has occurred, or is traded ex", |o| (t(2023, 7, 27)..t(2023, 8, 12)).map(|s| o.has_occurred(&dt(s), false) as i32 as f64 + 2.0 * o.trading_ex_coupon(dt(s)) as i32 as f64).collect())
        .ask1("amount of a copy", |o| o.clone().amount());
    for s in [t(2023, 3, 1), t(2023, 6, 20), t(2023, 7, 31)] {
        k = k.ask1(format!("accrued by {}", show(s)), move |o| o.accrued_amount(dt(s))).ask(format!("accrued period by {}", show(s)), move |o| vec![o.accrued_days(dt(s)) as f64, o.accrued_period(dt(s))]);
    }
    k
}
/// two coupons valued together
fn k_leg() -> Kind<Vec<MCoupon>, Vec<FixedRateCoupon>> {
    let (a, mut b) = (start(), start());
    b.p.start = a.p.end;
    b.p.end = t(2024, 1, 31);
    (b.p.rs, b.p.re, b.p.pay, b.p.ex) = (b.p.start, b.p.end, b.p.end + 1, NULL);
    let k = Kind::new("a leg", vec![a, b], |m: &Vec<MCoupon>| m.iter().map(coupon).collect::<Vec<_>>());
    let k = coupon_sets(k, 0, true, |m, i| &mut m[i], |o, i| &mut o[i]);
    let k = coupon_sets(k, 1, true, |m, i| &mut m[i], |o, i| &mut o[i]);
    k.ask1("value", |o| cashflow::npv(o, &rate(0.04, D::A360, C::Compounded, F::Annual), false, day(2023, 2, 15), null()))
        .ask1("value by another yield", |o| cashflow::npv(o, &rate(0.06, D::A360, C::Compounded, F::Annual), false, day(2023, 2, 15), null()))
        .ask1("duration", |o| cashflow::modified_duration(o, &rate(0.04, D::A360, C::Continuous, F::Annual), false, day(2023, 2, 15), null()))
        .ask1("accrued", |o| cashflow::accrued_amount(o, false, day(2023, 5, 2)))
        .ask("accrued days", |o| vec![cashflow::accrued_days(o, false, day(2023, 5, 2)) as f64, cashflow::accrued_period(o, false, day(2023, 5, 2))])
        .ask("the next", |o| {
            let n = cashflow::next_cashflow(o, false, day(2023, 7, 31));
            vec![n.map_or(-1.0, |i| i as f64), ymd(cashflow::maturity_date(o))]
        })
        .ask1("value under a search", |o| IrrFinder::new(o, 2.0, D::A360.make(), C::Compounded, F::Annual, false, day(2023, 2, 15), null()).at(0.03))
}

// --------------------------------------------------------------------------------- cash flows

#[derive(Clone)]
struct MFlow {
    a: f64,
    d: i32,
}
type Flows = (SimpleCashFlow, Redemption, AmortizingPayment);
fn k_flow() -> Kind<MFlow, Flows> {
    let mut k = Kind::new("payments", MFlow { a: 100.0, d: t(2023, 5, 15) }, |m: &MFlow| (SimpleCashFlow::new(m.a, dt(m.d)), Redemption::new(m.a, dt(m.d)), AmortizingPayment::new(m.a, dt(m.d))));
    for a in [0.0, -7.5, 1e9] {
        k = k.set(format!("amount {}", a), move |m: &mut MFlow, o: &mut Flows| {
            m.a = a;
            (o.0.amount, o.1.cashflow.amount, o.2.cashflow.amount) = (a, a, a);
        });
    }
    for d in [t(2023, 5, 14), t(2024, 2, 29)] {
        k = k.set(format!("date {}", show(d)), move |m: &mut MFlow, o: &mut Flows| {
            m.d = d;
            (o.0.date, o.1.cashflow.date, o.2.cashflow.date) = (dt(d), dt(d), dt(d));
        });
    }
    k = k.set("whole", |m, o| {
        (m.a, m.d) = (55.0, t(2023, 6, 1));
        o.1.cashflow = SimpleCashFlow::new(55.0, day(2023, 6, 1));
        o.2.cashflow = SimpleCashFlow::new(55.0, day(2023, 6, 1));
        o.0 = SimpleCashFlow::new(55.0, day(2023, 6, 1));
    });
    k.ask("amounts", |o| vec![o.0.amount(), o.1.amount(), o.2.amount()])
        .ask("dates", |o| vec![ymd(o.0.date()), ymd(o.1.date()), ymd(o.2.date())])
        .ask("occurred", |o| (t(2023, 5, 13)..t(2023, 5, 17)).flat_map(|s| [o.0.has_occurred(&dt(s), true), o.1.has_occurred(&dt(s), false), o.2.has_occurred(&dt(s), true)]).map(|b| b as i32 as f64).collect())
        .ask("value", |o| {
            let r = rate(0.03, D::A366, C::Continuous, F::Annual);
            let v = |f: &dyn CashFlow| f.amount() * r.discount_factor_between_dates(&day(2023, 1, 1), &f.date(), &null(), &null());
            vec![v(&o.0), v(&o.1), v(&o.2)]
        })
}
fn k_quote() -> Kind<f64, (SimpleQuote, Stock)> {
    let mut k = Kind::new("a quote and a stock", 1.5, |m: &f64| (SimpleQuote::new(*m), Stock::new(Arc::new(SimpleQuote::new(*m)))));
    for v in [0.0, -2.0, 1e300, 1.5] {
        k = k.set(format!("value {}", v), move |m: &mut f64, o: &mut (SimpleQuote, Stock)| {
            *m = v;
            o.0.value = v;
            o.1.quote = Arc::new(SimpleQuote::new(v));
        });
    }
    k.ask1("quote", |o| o.0.value()).ask1("stock", |o| o.1.npv()).ask1("results", |o| o.1.calculate().npv).ask1("through the stock's quote", |o| o.1.quote.value())
}

// ------------------------------------------------------------------------------ periods, arrays

fn k_period() -> Kind<(i32, U), Period> {
    let mut k = Kind::new("a period", (6, U::M), |m: &(i32, U)| Period::new(m.0, m.1.tu()));
    for n in [1, 12, 14, -3, 0] {
        k = k.set(format!("length {}", n), move |m: &mut (i32, U), o: &mut Period| {
            m.0 = n;
            o.length = n;
        });
    }
    for u in [U::D, U::W, U::M, U::Y] {
        k = k.set(format!("unit {:?}", u), move |m: &mut (i32, U), o: &mut Period| {
            m.1 = u;
            o.unit = u.tu();
        });
    }
    let h = |p: &Period| {
        let mut h = DefaultHasher::new();
        p.hash(&mut h);
        (h.finish() >> 12) as f64
    };
    let len = |p: Period| vec![p.length as f64, p.unit as i32 as f64];
    k.also(|m| m.1 = U::W).also(|m| *m = (0, U::D)).ask("moved", |o| vec![ymd(day(2023, 1, 31) + *o), ymd(day(2023, 5, 31) - *o)])
        .ask("compared", |o| {
            [(1, U::Y), (12, U::M), (2, U::W), (14, U::D), (-3, U::M), (0, U::D)].iter().flat_map(|(n, u)| {
                let p = Period::new(*n, u.tu());
                [call(|| *o == p).map(|b| b as i32).unwrap_or(7) as f64, call(|| *o < p).map(|b| b as i32).unwrap_or(7) as f64]
            }).collect()
        })
        .ask1("hashed", h)
        .ask("normalised", move |o| len(o.normalised()))
        .ask("negated and multiplied", move |o| [len(-*o), len(*o * 3)].concat())
        .ask1("frequency", |o| o.frequency() as i32 as f64)
        .ask("in units", |o| [call(|| o.years()), call(|| o.months()), call(|| o.weeks()), call(|| o.days())].into_iter().map(|x| x.unwrap_or(f64::NAN)).collect())
        .ask("days at least and at most", |o| { let (a, b) = o.days_min_max(); vec![a as f64, b as f64] })
        .ask1("text", |o| format!("{:?}", o).bytes().fold(0.0, |a, b| a * 3.0 + b as f64))
}
fn k_array() -> Kind<Vec<f64>, Array> {
    let mut k = Kind::new("an array", vec![1.0, 4.0, 9.0], |m: &Vec<f64>| Array::new(m.clone()));
    for i in 0..3usize {
        k = k.set(format!("element {} by index", i), move |m: &mut Vec<f64>, o: &mut Array| {
            if i < m.len() {
                m[i] += 2.5;
                o[i] += 2.5;
            }
        });
    }
    k = k
        .set("element 0 in place", |m, o| {
            if !m.is_empty() {
                m[0] = 7.0;
                o.data[0] = 7.0;
            }
        })
        .set("one more", |m, o| {
            m.push(0.25);
            o.data.push(0.25);
        })
        .set("one less", |m, o| {
            m.pop();
            o.data.pop();
        })
        .set("all others", |m, o| {
            *m = vec![2.0, 3.0];
            o.data = vec![2.0, 3.0];
        })
        .set("exchanged", |m, o| {
            *m = vec![6.0, 5.0, 4.0, 3.0];
            o.swap(&mut Array::new(vec![6.0, 5.0, 4.0, 3.0]));
        });
    k.also(|m| m.clear()).ask("size", |o| vec![o.size() as f64, o.empty() as i32 as f64])
        .ask1("norm", |o| o.norm2())
        .ask1("product with itself", |o| o.dot_product(o))
        .ask1("product", |o| o.dot_product(&Array::new(vec![1.0; o.size()])))
        .ask("elements", |o| (0..o.size()).map(|i| o[i]).collect())
        .ask("roots and logs", |o| [o.sqrt().data, o.log().data, o.exp().data, o.abs().data, o.pow(1.5).data].concat())
}

// ------------------------------------------------------------------------------------- bonds

#[derive(Clone)]
struct MBond {
    days: i32,
    cal: Mk,
    off: Option<i32>,
    issue: i32,
    terms: usize,
}
impl MBond {
    fn calendar(&self) -> rust_quantlib::datetime::calendar::Calendar {
        let mut c = self.cal.make();
        if let Some(s) = self.off {
            c.add_holiday(dt(s));
        }
        c
    }
}
fn bond(terms: usize) -> FixedRateBond {
    match terms {
        0 => FixedRateBond::new(2, 100.0, Spec::new(t(2022, 1, 31), t(2025, 1, 31), 6, U::M, Mk::Target).conv(B::ModifiedFollowing).make(), vec![0.03], D::BondBasis.make()),
        1 => FixedRateBond::new(2, 1000.0, Spec::new(t(2022, 2, 15), t(2026, 2, 15), 1, U::Y, Mk::Target).make(), vec![0.05, 0.02], D::A360.make()),
        _ => FixedRateBond::new(2, 100.0, Spec::new(t(2023, 3, 1), t(2023, 12, 1), 3, U::M, Mk::Target).make(), vec![0.0725], D::AaIsda.make()),
    }
}
/// settlement by the model: so many business days on, not before the issue
const TRADES: [(i32, i32); 3] = [(4, 26), (4, 28), (6, 1)];
fn settled(m: &MBond, i: usize) -> Vec<f64> {
    let mut c = Cal::new(m.cal);
    if let Some(s) = m.off {
        c.add(s);
    }
    let s = t(2023, TRADES[i].0, TRADES[i].1);
    vec![c.advance(s, m.days, U::D, B::Following, false).unwrap().max(if m.issue == NULL { 0 } else { m.issue }) as f64]
}
fn settles<T: Bond>(o: &T, i: usize) -> Vec<f64> {
    vec![ymd(o.settlement_date(day(2023, TRADES[i].0, TRADES[i].1)))]
}
macro_rules! bond_sets {
    ($k:expr) => {{
        let mut k = $k;
        for n in [0, 5] {
            k = k.set(format!("{} settlement days", n), move |m, o| {
                m.days = n;
                o.settlement_days = n;
            });
        }
        for (cal, off) in [(Mk::Target, None), (Mk::UsGovBond, None), (Mk::Target, Some(t(2023, 5, 2)))] {
            k = k.set(format!("calendar {:?} {:?}", cal, off.map(show)), move |m, o| {
                m.cal = cal;
                m.off = off;
                o.calendar = m.calendar();
            });
        }
        k = k.set("calendar edited in place", |m, o| {
            if m.off.is_none() {
                m.off = Some(t(2023, 4, 27));
                o.calendar.add_holiday(day(2023, 4, 27));
            }
        });
        for i in [NULL, t(2023, 5, 10)] {
            k = k.set(format!("issued {}", if i == NULL { "-".into() } else { show(i) }), move |m, o| {
                m.issue = i;
                o.issue_date = od(i);
            });
        }
        k
    }};
}
fn k_bond() -> Kind<MBond, FixedRateBond> {
    let k = Kind::new("a bond", MBond { days: 2, cal: Mk::Target, off: None, issue: NULL, terms: 0 }, |m: &MBond| {
        let mut b = bond(m.terms);
        b.settlement_days = m.days;
        b.calendar = m.calendar();
        b.issue_date = od(m.issue);
        b
    });
    let k = k.also(|m| (m.days, m.issue) = (0, t(2023, 5, 10))).also(|m| (m.terms, m.cal) = (1, Mk::UsGovBond));
    let mut k = bond_sets!(k);
    for terms in [1, 2, 0] {
        k = k.set(format!("the flows of bond {}", terms), move |m, o| {
            m.terms = terms;
            let b = bond(terms);
            (o.cashflows, o.redemptions, o.notionals, o.notional_schedule, o.maturity_date) = (b.cashflows.clone(), b.redemptions.clone(), b.notionals.clone(), b.notional_schedule.clone(), b.maturity_date);
        });
    }
    let s = day(2023, 9, 15);
    k.ask_model("settlement", |o| settles(o, 0), |m| settled(m, 0))
        .ask_model("settlement before a weekend", |o| settles(o, 1), |m| settled(m, 1))
        .ask_model("settlement later", |o| settles(o, 2), |m| settled(m, 2))
        .ask1("clean price", move |o| o.clean_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Annual, s))
        .ask1("dirty price", move |o| o.dirty_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Annual, s))
        .ask1("yield", move |o| o.bond_yield(97.0, D::A360.make(), C::Continuous, F::Annual, s))
        .ask1("accrued", move |o| o.accrued_amount(s))
        .ask("terms", move |o| vec![o.notional(s), o.is_tradeable(day(2025, 6, 1)) as i32 as f64, ymd(o.maturity_date()), o.cashflows().len() as f64, o.notional_schedule().len() as f64])
        .ask_model("conditions", |o| vec![o.settlement_days() as f64, ymd(o.issue_date())], |m| vec![m.days as f64, ymd(od(m.issue))])
}
fn k_zero() -> Kind<MBond, ZeroCouponBond> {
    let k = Kind::new("a zero bond", MBond { days: 2, cal: Mk::Target, off: None, issue: NULL, terms: 0 }, |m: &MBond| {
        let mut b = ZeroCouponBond::new(m.days, &Mk::Target.make(), [100.0, 2500.0][m.terms], [day(2024, 3, 15), day(2023, 12, 30)][m.terms]);
        b.calendar = m.calendar();
        b.issue_date = od(m.issue);
        b
    });
    let k = k.also(|m| (m.days, m.issue) = (0, t(2023, 5, 10)));
    let mut k = bond_sets!(k);
    for terms in [1, 0] {
        k = k.set(format!("the flows of zero bond {}", terms), move |m, o| {
            m.terms = terms;
            let b = ZeroCouponBond::new(2, &Mk::Target.make(), [100.0, 2500.0][terms], [day(2024, 3, 15), day(2023, 12, 30)][terms]);
            o.face_amount = b.face_amount;
            (o.cashflows, o.redemptions, o.notionals, o.notional_schedule, o.maturity_date) = (b.cashflows.clone(), b.redemptions.clone(), b.notionals.clone(), b.notional_schedule.clone(), b.maturity_date);
        });
    }
    let s = day(2023, 9, 15);
    k.ask_model("settlement", |o| settles(o, 0), |m| settled(m, 0))
        .ask_model("settlement before a weekend", |o| settles(o, 1), |m| settled(m, 1))
        .ask_model("settlement later", |o| settles(o, 2), |m| settled(m, 2))
        .ask1("price from a discount yield", move |o| o.price_from_discount_yield(0.04, s))
        .ask1("price", move |o| o.clean_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Annual, s))
        .ask1("yield", move |o| o.bond_yield(97.0, D::A360.make(), C::Continuous, F::Annual, s))
        .ask("period and notional", move |o| vec![o.period(s).length as f64, o.notional(s)])
}

// ----------------------------------------------------------------------------- legs in the making

#[derive(Clone)]
struct MLeg {
    sched: usize,
    not: Vec<f64>,
    rates: Vec<f64>,
    first: Option<D>,
    last: Option<D>,
    cal: Option<Mk>,
    adj: Option<B>,
    lag: Option<i32>,
    ex: Option<(i32, B, bool)>,
}
fn leg_schedule(i: usize) -> rust_quantlib::datetime::schedule::Schedule {
    if i == 0 { Spec::new(t(2022, 1, 31), t(2024, 3, 15), 6, U::M, Mk::Target).conv(B::ModifiedFollowing).make() } else { Spec::new(t(2023, 2, 28), t(2024, 8, 31), 3, U::M, Mk::UsGovBond).make() }
}
fn leg_rates(r: &[f64]) -> Vec<InterestRate> {
    r.iter().map(|r| rate(*r, D::BondBasis, C::Simple, F::Annual)).collect()
}
fn leg(m: &MLeg) -> FixedRateLeg {
    let mut l = FixedRateLeg::new(leg_schedule(m.sched), m.not.clone(), leg_rates(&m.rates));
    if let Some(d) = m.first {
        l = l.with_first_period_daycounter(d.make());
    }
    if let Some(d) = m.last {
        l = l.with_last_period_daycounter(d.make());
    }
    if let Some(c) = m.cal {
        l = l.with_payment_calendar(c.make());
    }
    if let Some(a) = m.adj {
        l = l.with_payment_adjustment(a);
    }
    if let Some(n) = m.lag {
        l = l.with_payment_lag(n);
    }
    if let Some((n, a, e)) = m.ex {
        l = l.with_ex_coupon_period(per(n, U::D), Mk::Target.make(), a, e);
    }
    l
}
fn described(l: &FixedRateCoupon) -> Vec<f64> {
    vec![ymd(l.payment_date), l.nominal, ymd(l.accrual_start_date), ymd(l.accrual_end_date), ymd(l.ref_period_start), ymd(l.ref_period_end), ymd(l.ex_coupon_date), l.rate.rate, l.amount()]
}
/// a leg in the making is built once: histories of changes, by field and by setter, then the coupons
fn legs(ctx: &Ctx) {
    type Mk2 = std::cell::RefCell<Option<FixedRateLeg>>;
    let kind = || {
        let m = MLeg { sched: 0, not: vec![100.0], rates: vec![0.03], first: None, last: None, cal: None, adj: None, lag: None, ex: None };
        let mut k: Kind<MLeg, Mk2> = Kind::new("a leg in the making", m, |m: &MLeg| std::cell::RefCell::new(Some(leg(m))));
        macro_rules! field {
            ($($what:literal, $m:expr, $o:expr;)*) => {$(
                k = k.set($what, |m, o| {
                    let (f, g): (fn(&mut MLeg), fn(&mut FixedRateLeg)) = ($m, $o);
                    f(m);
                    if let Some(l) = o.get_mut() { g(l) }
                });
            )*};
        }
        macro_rules! setter {
            ($($what:literal, $m:expr, $o:expr;)*) => {$(
                k = k.set(concat!("setter: ", $what), |m, o| {
                    let (f, g): (fn(&mut MLeg), fn(FixedRateLeg) -> FixedRateLeg) = ($m, $o);
                    f(m);
                    let l = o.get_mut().take();
                    *o.get_mut() = l.map(g);
                });
            )*};
        }
        field! {
            "schedule", |m| m.sched = 1, |o| o.schedule = leg_schedule(1);
            "notionals", |m| m.not = vec![90.0, 80.0, 70.0], |o| o.notionals = vec![90.0, 80.0, 70.0];
            "one more notional", |m| m.not.push(55.0), |o| o.notionals.push(55.0);
            "rates", |m| m.rates = vec![0.01, 0.02], |o| o.coupon_rates = leg_rates(&[0.01, 0.02]);
            "first rate", |m| m.rates[0] = 0.06, |o| o.coupon_rates[0].rate = 0.06;
            "first day counter", |m| m.first = Some(D::A360), |o| o.first_period_dc = Some(D::A360.make());
            "no first day counter", |m| m.first = None, |o| o.first_period_dc = None;
            "last day counter", |m| m.last = Some(D::A366), |o| o.last_period_dc = Some(D::A366.make());
            "payment calendar", |m| m.cal = Some(Mk::UsGovBond), |o| o.payment_calendar = Some(Mk::UsGovBond.make());
            "no payment calendar", |m| m.cal = None, |o| o.payment_calendar = None;
            "payment adjustment", |m| m.adj = Some(B::Preceding), |o| o.payment_adjustment = Some(B::Preceding);
            "payment lag", |m| m.lag = Some(3), |o| o.payment_lag = Some(3);
            "no payment lag", |m| m.lag = None, |o| o.payment_lag = None;
            "ex-coupon", |m| m.ex = Some((5, B::Preceding, false)), |o| {
                (o.ex_coupon_period, o.ex_coupon_calendar, o.ex_coupon_adjustment, o.ex_coupon_end_of_month) = (Some(per(5, U::D)), Some(Mk::Target.make()), Some(B::Preceding), Some(false))
            };
            "no ex-coupon", |m| m.ex = None, |o| {
                (o.ex_coupon_period, o.ex_coupon_calendar, o.ex_coupon_adjustment, o.ex_coupon_end_of_month) = (None, None, None, None)
            };
        }
        setter! {
            "notional", |m| m.not = vec![60.0], |o| o.with_notional(60.0);
            "notionals", |m| m.not = vec![50.0, 40.0], |o| o.with_notionals(vec![50.0, 40.0]);
            "rate", |m| m.rates = vec![0.07], |o| o.with_coupon_rate(0.07, D::BondBasis.make(), C::Simple, F::Annual);
            "rates", |m| m.rates = vec![0.08, 0.09, 0.1], |o| o.with_coupon_rates(vec![0.08, 0.09, 0.1], D::BondBasis.make(), C::Simple, F::Annual);
            "payment lag", |m| m.lag = Some(1), |o| o.with_payment_lag(1);
            "payment adjustment", |m| m.adj = Some(B::Unadjusted), |o| o.with_payment_adjustment(B::Unadjusted);
            "ex-coupon", |m| m.ex = Some((10, B::Following, true)), |o| o.with_ex_coupon_period(per(10, U::D), Mk::Target.make(), B::Following, true);
            "first day counter", |m| m.first = Some(D::AaIsda), |o| o.with_first_period_daycounter(D::AaIsda.make());
        }
        k
    };
    let ns = kind().sets.len();
    let depth = ctx.pick(3, 4);
    ctx.bound(format!("a leg in the making: every history of {} changes out of {}, by field and by setter", depth, ns));
    ctx.par(ns * ns, |i| {
        let k = kind();
        at(format!("legs after {}, {}", k.sets[i % ns].0, k.sets[i / ns].0));
        for n in 0..ns.pow(depth - 2) {
            let mut seq = vec![i % ns, i / ns];
            let mut r = n;
            for _ in 2..depth {
                seq.push(r % ns);
                r /= ns;
            }
            let mut m = k.starts[0].clone();
            let mut o = (k.make)(&m);
            for s in &seq {
                (k.sets[*s].1)(&mut m, &mut o);
            }
            let build = |l: FixedRateLeg| call(|| l.build().iter().flat_map(described).collect::<Vec<f64>>());
            let (want, got) = (build(leg(&m)), build(o.into_inner().unwrap()));
            if !same(&want, &got) {
                let h: Vec<&str> = seq.iter().map(|s| k.sets[*s].0.as_str()).collect();
                ctx.fail(format!("a leg made with [{}]", h.join(", ")), format!("{:?}", want), format!("{:?}", got));
            }
            ctx.st(1);
            ctx.tr(depth as u64 + 1);
            ctx.val(1);
        }
    });
}

// ------------------------------------------------------------------------ contexts and searches

fn k_context() -> Kind<i32, (PricingContext, Vec<Date>)> {
    let mut k = Kind::new("a pricing context", t(2023, 5, 2), |m: &i32| (PricingContext::new(dt(*m)), vec![]));
    for s in [t(2023, 6, 20), t(2023, 6, 21), t(2024, 12, 31), t(1999, 9, 9)] {
        k = k.set(format!("on {}", show(s)), move |m: &mut i32, o: &mut (PricingContext, Vec<Date>)| {
            *m = s;
            o.0.eval_date = dt(s);
        });
    }
    k.ask1("next IMM date", |o| ymd(IMM::new(o.0).next_date(&null(), true)))
        .ask1("IMM date of a code", |o| ymd(IMM::new(o.0).date("U3", &null())))
        .ask("schedule looked up", |o| {
            let s = rust_quantlib::datetime::schedulebuilder::ScheduleBuilder::new(o.0, day(1999, 1, 15), day(2030, 1, 15), per(6, U::M), Mk::Target.make()).backwards().build();
            vec![ymd(s.next_date(&null())), ymd(s.previous_date(&null()))]
        })
        .ask("schedule without a beginning", |o| sers(&rust_quantlib::datetime::schedulebuilder::ScheduleBuilder::new(o.0, null(), day(2030, 1, 15), per(1, U::Y), Mk::Target.make()).backwards().build().dates()).iter().map(|s| *s as f64).collect())
}
#[derive(Clone)]
struct MIrr {
    npv: f64,
    d: D,
    c: C,
    f: F,
    incl: bool,
    set: i32,
    npvd: i32,
}
fn k_irr() -> Kind<MIrr, IrrFinder<'static, SimpleCashFlow>> {
    // the flows of a search are borrowed for as long as it lives
    let l: &'static [SimpleCashFlow] = Box::leak(Box::new([SimpleCashFlow::new(5.0, day(2023, 7, 31)), SimpleCashFlow::new(5.0, day(2024, 1, 31)), SimpleCashFlow::new(105.0, day(2024, 7, 31))]));
    let start = MIrr { npv: 100.0, d: D::A360, c: C::Compounded, f: F::Annual, incl: false, set: t(2023, 2, 15), npvd: NULL };
    Kind::new("a yield search", start, move |m: &MIrr| IrrFinder::new(l, m.npv, m.d.make(), m.c.clone(), m.f, m.incl, dt(m.set), od(m.npvd)))
        .set("price 90", |m, o| { m.npv = 90.0; o.npv = 90.0 })
        .set("price 104", |m, o| { m.npv = 104.0; o.npv = 104.0 })
        .set("bond basis", |m, o| { m.d = D::BondBasis; o.daycounter = D::BondBasis.make() })
        .set("continuous", |m, o| { m.c = C::Continuous; o.compounding = C::Continuous })
        .set("simple then compounded", |m, o| { m.c = C::SimpleThenCompounded; o.compounding = C::SimpleThenCompounded })
        .set("quarterly", |m, o| { m.f = F::Quarterly; o.frequency = F::Quarterly })
        .set("same-day flows", |m, o| { m.incl = !m.incl; o.include_settlement_date_flows = m.incl })
        .set("settled on a payment", |m, o| { m.set = t(2023, 7, 31); o.settlement_date = day(2023, 7, 31) })
        .set("settled later", |m, o| { m.set = t(2024, 2, 1); o.settlement_date = day(2024, 2, 1) })
        .set("valued earlier", |m, o| { m.npvd = t(2023, 1, 2); o.npv_date = day(2023, 1, 2) })
        .ask1("at 3%", |o| o.at(0.03))
        .ask1("at 6%", |o| o.at(0.06))
        .ask1("derivative", |o| o.derivative(0.03))
}

pub fn c46(ctx: &Ctx) {
    let deep = ctx.pick(4, 5);
    explore(ctx, k_rate, deep);
    explore(ctx, k_coupon, 3);
    explore(ctx, k_leg, 3);
    explore(ctx, k_flow, deep);
    explore(ctx, k_quote, deep);
    explore(ctx, k_period, deep);
    explore(ctx, k_array, deep);
    explore(ctx, k_bond, ctx.pick(3, 4));
    explore(ctx, k_zero, ctx.pick(3, 4));
    explore(ctx, k_context, ctx.pick(3, 4));
    explore(ctx, k_irr, deep);
    legs(ctx);
    ctx.sample(|| "a coupon asked for its amount, then given another rate, then another nominal, then asked again".into());
}
