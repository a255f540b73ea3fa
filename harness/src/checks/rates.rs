//! C20, C21: compounding algebra.  State = (rate, compounding, frequency, time); transitions = factor,
//! implied rate, equivalent rate into every other convention.
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;

pub const FREQS: [F; 13] = [
    F::NoFrequency, F::Once, F::Annual, F::Semiannual, F::EveryFourthMonth, F::Quarterly, F::Bimonthly, F::Monthly, F::EveryFourthWeek, F::Biweekly, F::Weekly, F::Daily, F::OtherFrequency,
];
pub const COMPS: [C; 5] = [C::Simple, C::Compounded, C::Continuous, C::SimpleThenCompounded, C::CompoundedThenSimple];
const RATES: [f64; 16] = [-0.9, -0.5, -0.05, -0.0025, -1e-9, 0.0, 1e-9, 0.0001, 0.0125, 0.03, 0.05, 0.0731, 0.12, 0.5, 1.0, 5.0];
/// coupons per year
pub fn per_year(f: F) -> Option<f64> {
    match f {
        F::NoFrequency | F::Once => None,
        F::Annual => Some(1.0),
        F::Semiannual => Some(2.0),
        F::EveryFourthMonth => Some(3.0),
        F::Quarterly => Some(4.0),
        F::Bimonthly => Some(6.0),
        F::Monthly => Some(12.0),
        F::EveryFourthWeek => Some(13.0),
        F::Biweekly => Some(26.0),
        F::Weekly => Some(52.0),
        F::Daily => Some(365.0),
        F::OtherFrequency => Some(999.0),
    }
}
pub fn periodic(c: &C) -> bool {
    !matches!(c, C::Simple | C::Continuous)
}
/// None: no such rate / negative time
pub fn factor(r: f64, c: &C, f: F, t: f64) -> Option<f64> {
    let n = if periodic(c) { per_year(f)? } else { 1.0 };
    if t < 0.0 {
        return None;
    }
    let simple = 1.0 + r * t;
    // a negative base has no real power, except a whole one; such rates are not covered
    let compounded = || if r / n <= -1.0 { f64::NAN } else { ((r / n).ln_1p() * n * t).exp() };
    let within = t <= 1.0 / n;
    Some(match c {
        C::Simple => simple,
        C::Continuous => (r * t).exp(),
        C::Compounded => compounded(),
        C::SimpleThenCompounded => if within { simple } else { compounded() },
        C::CompoundedThenSimple => if within { compounded() } else { simple },
    })
}
fn times(f: F) -> Vec<f64> {
    let p = 1.0 / per_year(f).unwrap_or(1.0);
    let mut v = vec![0.0, 1e-6, 1.0 / 366.0, 1.0 / 12.0, 0.25, 0.4999, 0.5, 0.75, 1.0, 1.5, 2.0, 3.3333, 10.0, 17.75, 30.0, 31.5, 50.0, 99.9, 120.0];
    for k in [0.5, 0.9, 0.999999, 1.0, 1.000001, 1.1, 1.9, 2.0, 2.1, 3.0] {
        v.push(k * p);
    }
    v
}
fn rel(a: f64, b: f64, tol: f64) -> bool {
    a == b || ((a - b) / b).abs() <= tol
}
fn key(r: f64, c: &C, f: F, t: f64) -> String {
    format!("{} {:?} {:?} over {}", r, c, f, t)
}

pub fn c20(ctx: &Ctx) {
    let mut rates = RATES.to_vec();
    if ctx.thorough() {
        rates.extend((1..400).map(|k| k as f64 * 0.00125 - 0.1));
    }
    ctx.bound(format!("{} rates (-90% to 500%) x 5 compoundings x 13 frequencies x 29 times (0 to 120 years, around the first periods); negative times", rates.len()));
    ctx.par(rates.len(), |i| {
        let r = rates[i];
        at(format!("rate {}", r));
        let dc = DayCounter::actual360();
        for c in COMPS {
            for f in FREQS {
                let made = call(|| InterestRate::new(r, dc.clone(), c.clone(), f));
                if periodic(&c) && per_year(f).is_none() {
                    ctx.ok(|| format!("{:?} with {:?}", c, f), "refused", made.is_err());
                    ctx.outcome("refused", 1);
                    continue;
                }
                let Ok(ir) = made else {
                    ctx.fail(format!("{:?} with {:?}", c, f), "a rate", "refused");
                    continue;
                };
                let want_f = if periodic(&c) { f } else { F::NoFrequency };
                ctx.ok(|| format!("conventions of {:?} {:?}", c, f), "as given", ir.rate == r && ir.compounding == c && ir.daycounter == dc && call(|| ir.frequency()) == Ok(want_f));
                for t in times(f) {
                    let want = factor(r, &c, f, t).unwrap();
                    if !(want > 0.0) {
                        ctx.outcome("no positive factor (not covered)", 1);
                        continue;
                    }
                    let got = call(|| (ir.compound_factor(t), ir.discount_factor(t)));
                    let fine = matches!(got, Ok((a, b)) if rel(a, want, 1e-11 * (t / 10.0).max(1.0)) && rel(a * b, 1.0, 1e-12) && (t != 0.0 || (a == 1.0 && b == 1.0)));
                    if !fine {
                        ctx.fail(key(r, &c, f, t), format!("{} and {}", want, 1.0 / want), format!("{:?}", got));
                    }
                    ctx.tr(2);
                    ctx.st(1);
                    ctx.val(1);
                }
                for t in [-1e-9, -0.5, -3.0] {
                    ctx.ok(|| key(r, &c, f, t), "refused", call(|| ir.compound_factor(t)).is_err() && call(|| ir.discount_factor(t)).is_err());
                }
            }
        }
    });
    // date-based forms
    let dcs = [D::A360, D::A366, D::A360Inc, D::AaIsda, D::AaAfb, D::Us, D::BondBasis, D::Eu, D::Simple, D::One, D::AaOldIsma];
    ctx.bound("date-based factors: 11 day counters x 63 date pairs up to 68 years apart x reference periods x rates and conventions");
    let base = [ser(2023, 1, 31), ser(2023, 8, 15), ser(2024, 2, 28), ser(2024, 2, 29), ser(2023, 12, 31), ser(1929, 5, 6), ser(2128, 10, 31)];
    ctx.par(dcs.len(), |i| {
        let d = dcs[i];
        at(format!("dates under {:?}", d));
        for r in [-0.01, 0.0, 0.05, 0.3] {
            for (c, f) in COMPS.iter().flat_map(|c| [F::Annual, F::Semiannual, F::Monthly].map(|f| (c, f))) {
                let ir = InterestRate::new(r, d.make(), c.clone(), f);
                for a in base {
                    for k in [0, 1, 30, 181, 366, 1000, 3653, 11000, 25000] {
                        let b = a + k;
                        for (s, e) in [(MIN, MIN), (a, b), (a - 10, a + 174)] {
                            let t = call(|| ir.daycounter.year_fraction(&dt(a), &dt(b), &dt(s), &dt(e)));
                            let want = t.map(|t| factor(r, c, f, t).unwrap());
                            let got = call(|| (ir.compound_factor_between_dates(&dt(a), &dt(b), &dt(s), &dt(e)), ir.discount_factor_between_dates(&dt(a), &dt(b), &dt(s), &dt(e))));
                            let fine = match (&want, &got) {
                                (Ok(w), Ok((x, y))) => rel(*x, *w, 1e-11) && rel(x * y, 1.0, 1e-12),
                                (Err(_), Err(_)) => true,
                                _ => false,
                            };
                            if !fine {
                                ctx.fail(format!("{} {:?} {:?} {:?} {}..{} ref {}..{}", r, c, f, d, show(a), show(b), show(s), show(e)), format!("{:?}", want), format!("{:?}", got));
                            }
                            ctx.tr(2);
                            ctx.st(1);
                        }
                        if k > 0 {
                            ctx.ok(
                                || format!("{:?} {}..{} inverted", d, show(b), show(a)),
                                "refused",
                                call(|| ir.compound_factor_between_dates(&dt(b), &dt(a), &dt(a), &dt(b))).is_err() && call(|| ir.discount_factor_between_dates(&dt(b), &dt(a), &dt(a), &dt(b))).is_err(),
                            );
                        }
                    }
                }
            }
        }
    });
    ctx.sample(|| format!("5% SimpleThenCompounded Semiannual over 0.75: {:?}", factor(0.05, &C::SimpleThenCompounded, F::Semiannual, 0.75)));
}

pub fn c21(ctx: &Ctx) {
    let n = Date::default();
    let hosts = each(|| (InterestRate::new(0.77, DayCounter::usa(), C::Compounded, F::Bimonthly), DayCounter::actual360()));
    let mut factors = vec![0.01, 0.5, 0.9, 0.999999, 1.0 - 1e-12, 1.0, 1.0 + 1e-12, 1.000001, 1.02, 1.1, 2.0, 40.0];
    if ctx.thorough() {
        factors.extend((1..300).map(|k| 0.7 + k as f64 / 100.0));
    }
    ctx.bound(format!("implied rates: {} factors x 5 compoundings x 13 frequencies x 29 times; non-positive factors and impossible times", factors.len()));
    ctx.par(factors.len(), |i| {
        let made = hosts.get();
        let (host, dc) = (&made.0, &made.1);
        let x = factors[i];
        at(format!("factor {}", x));
        for c in COMPS {
            for f in FREQS {
                let none = periodic(&c) && per_year(f).is_none();
                for t in times(f).into_iter().chain([-1e-9, -1.0]) {
                    // the rate per period is exp(l) - 1: beyond this it is not representable
                    let per = per_year(f).unwrap_or(1.0);
                    let l = x.ln() / (per * t);
                    if t > 0.0 && periodic(&c) && l.abs() > 20.0 {
                        ctx.outcome("rate not representable (not covered)", 1);
                        continue;
                    }
                    let got = call(|| host.implied_rate(x, dc, &c, f, t));
                    let k = || format!("implied by {} over {} as {:?} {:?}", x, t, c, f);
                    ctx.tr(1);
                    ctx.st(1);
                    if none || t < 0.0 || (t == 0.0 && x != 1.0) {
                        ctx.ok(k, "refused", got.is_err());
                        continue;
                    }
                    let Ok(ir) = got else {
                        ctx.fail(k(), "a rate", "refused");
                        continue;
                    };
                    let conv = ir.compounding == c && &ir.daycounter == dc && call(|| ir.frequency()) == Ok(if periodic(&c) { f } else { F::NoFrequency });
                    ctx.ok(|| format!("{}: conventions", k()), "as requested", conv);
                    if x == 1.0 {
                        ctx.ok(k, "zero rate", ir.rate == 0.0);
                    }
                    let back = call(|| ir.compound_factor(t));
                    // tiny times make huge rates: the rounding of the rate is magnified
                    let tol = 1e-10 + if periodic(&c) && t > 0.0 { 1e-15 * l.abs().exp() } else { 0.0 };
                    // the reference formula is evaluated as well, so that an error common to both directions shows
                    let fine = matches!(back, Ok(b) if rel(b, x, tol)) && rel(factor(ir.rate, &c, f, t).unwrap(), x, tol);
                    if !fine {
                        ctx.fail(k(), format!("compounds back to {}", x), format!("rate {} compounds to {:?}", ir.rate, back));
                    }
                    ctx.val(1);
                }
                for bad in [0.0, -0.5, -1.0] {
                    ctx.ok(|| format!("implied by {}", bad), "refused", call(|| host.implied_rate(bad, &dc, &c, f, 1.0)).is_err());
                }
            }
        }
    });
    // equivalent rates
    let rates = if ctx.thorough() { (0..60).map(|k| k as f64 / 100.0 - 0.1).collect() } else { vec![-0.05, -0.0025, 0.0, 0.0001, 0.03, 0.0731, 0.12, 0.5] };
    ctx.bound(format!("equivalent rates: {} rates x all source conventions x all target conventions x 14 times", rates.len()));
    ctx.par(rates.len() * 5, |i| {
        let (r, c1) = (rates[i / 5], &COMPS[i % 5]);
        at(format!("equivalents of {} {:?}", r, c1));
        for f1 in FREQS {
            if periodic(c1) && per_year(f1).is_none() {
                continue;
            }
            let dc = [DayCounter::actual360(), DayCounter::simple()][i % 2].clone();
            let ir = InterestRate::new(r, dc.clone(), c1.clone(), f1);
            for t in [0.0, 0.01, 1.0 / 12.0, 0.25, 0.3, 0.5, 0.77, 1.0, 1.01, 2.0, 5.5, 10.0, 31.25, 100.0] {
                let want = factor(r, c1, f1, t).unwrap();
                if !(want > 0.0) {
                    continue;
                }
                // a rate is its own equivalent
                let own = call(|| ir.equivalent_rate(c1, f1, t).rate);
                ctx.ok(|| format!("{} is its own equivalent ({:?})", key(r, c1, f1, t), own), "the same rate", matches!(own, Ok(o) if t == 0.0 || (o - r).abs() <= 1e-10 * (1.0 + r.abs())));
                for c2 in COMPS {
                    for f2 in FREQS {
                        let got = call(|| ir.equivalent_rate(&c2, f2, t));
                        let k = || format!("{} as {:?} {:?}", key(r, c1, f1, t), c2, f2);
                        ctx.tr(1);
                        ctx.st(1);
                        if periodic(&c2) && per_year(f2).is_none() {
                            ctx.ok(k, "refused", got.is_err());
                            continue;
                        }
                        let Ok(e) = got else {
                            ctx.fail(k(), "a rate", "refused");
                            continue;
                        };
                        let conv = e.compounding == c2 && e.daycounter == dc && call(|| e.frequency()) == Ok(if periodic(&c2) { f2 } else { F::NoFrequency });
                        let back = call(|| e.compound_factor(t));
                        if !conv || !matches!(back, Ok(b) if rel(b, want, 1e-9)) {
                            ctx.fail(k(), format!("factor {}", want), format!("{} {:?} {:?} with factor {:?}", e.rate, e.compounding, call(|| e.frequency()), back));
                        }
                        ctx.val(1);
                    }
                }
            }
        }
    });
    ctx.bound("between dates: 9 x 9 day counters x 10 date pairs x conventions, with and without reference periods");
    let dcs = [D::A360, D::A366, D::A360Inc, D::AaIsda, D::AaAfb, D::Us, D::Eu, D::Simple, D::AaOldIsma];
    ctx.par(81, |i| {
        let host = &hosts.get().0;
        let (d1, d2) = (dcs[i / 9], dcs[i % 9]);
        at(format!("{:?} to {:?}", d1, d2));
        for (c1, f1) in [(C::Compounded, F::Semiannual), (C::Simple, F::NoFrequency), (C::Continuous, F::Annual), (C::SimpleThenCompounded, F::Quarterly)] {
            let ir = InterestRate::new(0.05, d1.make(), c1.clone(), f1);
            for a in [ser(2023, 1, 31), ser(2024, 2, 29)] {
                for k in [1, 31, 182, 400, 2000] {
                    let b = a + k;
                    for (s, e) in [(MIN, MIN), (a - 20, a + 161)] {
                        let (rs, re) = (dt(s), dt(e));
                        let want = factor(0.05, &c1, f1, d1.make().year_fraction(&dt(a), &dt(b), &rs, &re)).unwrap();
                        for (c2, f2) in [(C::Compounded, F::Annual), (C::Simple, F::Annual), (C::Continuous, F::NoFrequency), (C::CompoundedThenSimple, F::Monthly)] {
                            let t2 = d2.make().year_fraction(&dt(a), &dt(b), &rs, &re);
                            let kk = || format!("5% {:?} {:?} {:?} as {:?} {:?} {:?} on {}..{} ref {}", d1, c1, f1, d2, c2, f2, show(a), show(b), show(s));
                            let got = call(|| ir.equivalent_rate_between_dates(&d2.make(), &c2, f2, &dt(a), &dt(b), &rs, &re));
                            let g2 = call(|| host.implied_rate_between_dates(want, &d2.make(), &c2, f2, &dt(a), &dt(b), &rs, &re));
                            ctx.tr(2);
                            ctx.st(1);
                            if t2 <= 0.0 {
                                ctx.ok(kk, "refused", got.is_err() && g2.is_err());
                                continue;
                            }
                            for g in [got, g2] {
                                let fine = match &g {
                                    Ok(g) => g.daycounter == d2.make() && g.compounding == c2 && rel(factor(g.rate, &c2, f2, t2).unwrap(), want, 1e-10) && matches!(call(|| g.compound_factor_between_dates(&dt(a), &dt(b), &rs, &re)), Ok(x) if rel(x, want, 1e-10)),
                                    _ => false,
                                };
                                ctx.ok(kk, &format!("factor {}", want), fine);
                            }
                            ctx.val(1);
                            ctx.ok(
                                || format!("{} inverted", kk()),
                                "refused",
                                call(|| ir.equivalent_rate_between_dates(&d2.make(), &c2, f2, &dt(b), &dt(a), &n, &n)).is_err() && call(|| host.implied_rate_between_dates(want, &d2.make(), &c2, f2, &dt(b), &dt(a), &n, &n)).is_err(),
                            );
                        }
                    }
                }
            }
        }
    });
    ctx.sample(|| "8% Compounded Quarterly over 1y as Continuous: same factor 1.08243216".into());
}
