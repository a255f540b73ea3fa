//! C16-C19: day counts.  State = an (ordered or inverted) pair of dates; every pair of the windows is
//! evaluated under every convention and compared with the reference count.
use crate::dc::*;
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::{self, Spec};
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::daycounters::actualactual::ActualActual;
use rust_quantlib::datetime::daycounters::{actual360::Actual360, actual366::Actual366, one::One, simple::Simple, thirty365::Thirty365};

/// days around month ends, in special years
fn special(years: &[i32]) -> Vec<i32> {
    let mut v = vec![];
    for y in years {
        for m in 1..=12 {
            let l = mlen(*y, m);
            for d in [1, 2, 15, 27, 28, 29, 30, 31] {
                if d <= l {
                    v.push(ser(*y, m, d));
                }
            }
        }
    }
    v
}
fn window(ctx: &Ctx) -> Vec<i32> {
    let mut v: Vec<i32> = if ctx.thorough() { (ser(2022, 1, 1)..=ser(2026, 12, 31)).collect() } else { (ser(2023, 7, 1)..=ser(2025, 6, 30)).collect() };
    v.extend(special(&[1900, 1901, 1904, 1999, 2000, 2001, 2099, 2100, 2199]));
    v.sort();
    v.dedup();
    v
}
fn pairs(ctx: &Ctx, v: &[i32], what: &str, f: impl Fn(i32, i32) + Sync) {
    ctx.bound(format!("every ordered pair of {} dates ({})", v.len(), what));
    ctx.par(v.len(), |i| {
        at(format!("pairs from {}", show(v[i])));
        for b in v {
            if ctx.stopped() {
                return;
            }
            f(v[i], *b);
        }
        ctx.st(v.len() as u64);
    });
}
const TOL: f64 = 1e-13;

fn agree(ctx: &Ctx, d: D, dc: &DayCounter, a: i32, b: i32) {
    let (x, y) = (dt(a), dt(b));
    let n = Date::default();
    let got = call(|| (dc.day_count(&x, &y), dc.year_fraction(&x, &y, &n, &n)));
    let (wc, wf) = (d.count(a, b), d.frac(a, b).unwrap());
    match got {
        Ok((c, f)) if c == wc && feq(f, wf, TOL) => {}
        g => ctx.fail(format!("{:?}: {} to {}", d, show(a), show(b)), format!("{:?}", (wc, wf)), format!("{:?}", g)),
    }
}
fn references(ctx: &Ctx, ds: &[(D, DayCounter)], v: &[i32]) {
    let null = MIN;
    for a in v.iter().step_by(5) {
        for b in v.iter().step_by(7) {
            for (d, dc) in ds {
                for (s, e) in [(*a, *b), (null, *b), (*a, null), (*b, *a), (a + 10, b - 10), (ser(2000, 1, 1), ser(2000, 7, 1))] {
                    if !in_range(s as i64) || !in_range(e as i64) {
                        continue;
                    }
                    ctx.close(
                        || format!("{:?}: {} to {} with reference {}..{}", d, show(*a), show(*b), show(s), show(e)),
                        d.frac(*a, *b).unwrap(),
                        call(|| dc.year_fraction(&dt(*a), &dt(*b), &dt(s), &dt(e))),
                        TOL,
                    );
                    ctx.tr(1);
                }
            }
        }
    }
    ctx.bound("reference periods: six kinds on a thinned grid of pairs");
}

pub fn c16(ctx: &Ctx) {
    let plain = [D::Us, D::BondBasis, D::Eu, D::It, D::Nasd, D::T365];
    let made = each(|| plain.iter().map(|d| (*d, d.make())).collect::<Vec<(D, DayCounter)>>());
    let alias = each(|| [(D::BondBasis, DayCounter::bond_basis()), (D::Eu, DayCounter::euro_bond_basis())]);
    let v = window(ctx);
    let ends: Vec<i32> = v.iter().cloned().filter(|s| ymd(*s).1 == 2 && ymd(*s).2 >= 28).collect();
    pairs(ctx, &v, "2-5 consecutive years plus month ends of special years", |a, b| {
        for (d, dc) in made.get().iter() {
            agree(ctx, *d, dc, a, b);
        }
        for (d, dc) in alias.get().iter() {
            agree(ctx, *d, dc, a, b);
        }
        for t in [b, a, ser(2030, 6, 30)] {
            agree(ctx, D::Isda(t), &DayCounter::isda(dt(t)), a, b);
        }
        agree(ctx, D::Isda(b), &DayCounter::german(dt(b)), a, b);
        ctx.tr(12);
    });
    ctx.bound("every date of the range (quick: every 3rd) against 6 anchors, both orders");
    let anchors = [MIN, ser(1904, 2, 29), ser(1999, 12, 31), ser(2023, 2, 28), ser(2100, 3, 1), MAX];
    ctx.par(300, |i| {
        let y = 1900 + i as i32;
        at(format!("30/360 in {}", y));
        for s in (ser(y, 1, 1)..=ser(y, 12, 31)).filter(|s| ctx.thorough() || s % 3 == 0 || ymd(*s).2 > 26 || ymd(*s).2 == 1) {
            for a in anchors {
                for (d, dc) in made.get().iter() {
                    agree(ctx, *d, dc, a, s);
                    agree(ctx, *d, dc, s, a);
                }
                agree(ctx, D::Isda(s), &DayCounter::isda(dt(s)), a, s);
                agree(ctx, D::Isda(a), &DayCounter::isda(dt(a)), a, s);
            }
            ctx.tr(84);
        }
    });
    ctx.bound("ISDA termination dates: the end date, the start date, an unrelated date, and every end of February for every end-of-February pair");
    for a in &ends {
        for b in &ends {
            for t in &ends {
                agree(ctx, D::Isda(*t), &DayCounter::isda(dt(*t)), *a, *b);
                agree(ctx, D::Isda(*t), &DayCounter::german(dt(*t)), *a, *b);
                ctx.tr(2);
            }
        }
    }
    let t365 = Thirty365::new();
    for a in v.iter().step_by(3) {
        ctx.eq(|| format!("Thirty365 from {}", show(*a)), Ok(D::T365.count(*a, v[7])), call(|| t365.day_count(&dt(*a), &dt(v[7]))));
    }
    for d in [D::Us, D::BondBasis, D::Eu, D::It, D::Nasd, D::T365, D::Isda(v[0])] {
        names(ctx, d);
    }
    for (a, b) in [(DayCounter::bond_basis(), DayCounter::isma()), (DayCounter::euro_bond_basis(), DayCounter::european()), (DayCounter::german(dt(v[0])), DayCounter::isda(dt(v[0])))] {
        ctx.ok(|| format!("alias {:?}", b), "same convention", a == b && a.name() == b.name());
    }
    references(ctx, &made.get(), &v[..300]);
    ctx.val(v.len() as u64 * v.len() as u64);
    ctx.sample(|| format!("NASD 2024-02-29 to 2024-03-31 = {}", D::Nasd.count(ser(2024, 2, 29), ser(2024, 3, 31))));
}
fn names(ctx: &Ctx, d: D) {
    ctx.eq(|| format!("name of {:?}", d), (d.name().to_string(), d.name().to_string()), (d.make().name(), format!("{:?}", d.make())));
}

pub fn c17(ctx: &Ctx) {
    let ds = [D::A360, D::A360Inc, D::A366, D::A366Inc, D::One, D::Simple];
    let made = each(|| ds.iter().map(|d| (*d, d.make())).collect::<Vec<(D, DayCounter)>>());
    let v = window(ctx);
    pairs(ctx, &v, "2-5 consecutive years plus month ends of special years", |a, b| {
        for (d, dc) in made.get().iter() {
            agree(ctx, *d, dc, a, b);
        }
        ctx.tr(6);
    });
    ctx.bound("every date of the range (quick: every 3rd) against 6 anchors, both orders");
    let anchors = [MIN, ser(1900, 2, 28), ser(2000, 2, 29), ser(2024, 8, 31), ser(2100, 3, 1), MAX];
    let step = ctx.pick(3, 1);
    ctx.par(300, |i| {
        let y = 1900 + i as i32;
        at(format!("anchored counts in {}", y));
        for s in (ser(y, 1, 1)..=ser(y, 12, 31)).step_by(step) {
            for a in anchors {
                for (d, dc) in made.get().iter() {
                    agree(ctx, *d, dc, a, s);
                    agree(ctx, *d, dc, s, a);
                }
            }
            ctx.tr(72);
        }
    });
    // the same convention reached through its own type
    let n = Date::default();
    for a in v.iter().step_by(11) {
        for b in v.iter().step_by(13) {
            let (x, y) = (dt(*a), dt(*b));
            let want = [D::A360, D::A360Inc, D::A366, D::A366Inc, D::One, D::Simple].map(|d| (d.count(*a, *b), d.frac(*a, *b).unwrap()));
            let got = call(|| {
                let (p, q, r, s, t, u) = (Actual360::new(), Actual360::with_last_day(true), Actual366::new(), Actual366::with_last_day(true), One::new(), Simple::new());
                [
                    (p.day_count(&x, &y), p.year_fraction(&x, &y, &n, &n)),
                    (q.day_count(&x, &y), q.year_fraction(&x, &y, &n, &n)),
                    (r.day_count(&x, &y), r.year_fraction(&x, &y, &n, &n)),
                    (s.day_count(&x, &y), s.year_fraction(&x, &y, &n, &n)),
                    (t.day_count(&x, &y), t.year_fraction(&x, &y, &n, &n)),
                    (u.day_count(&x, &y), u.year_fraction(&x, &y, &n, &n)),
                ]
            });
            let fine = got.is_ok_and(|g| g.iter().zip(&want).all(|(g, w)| g.0 == w.0 && feq(g.1, w.1, TOL)));
            ctx.ok(|| format!("direct types: {} to {}", show(*a), show(*b)), "the documented counts", fine);
        }
    }
    for d in ds {
        names(ctx, d);
    }
    for (d, dc) in [(Actual360::default().name(), D::A360), (Actual366::default().name(), D::A366), (Simple::default().name(), D::Simple)] {
        ctx.eq(|| format!("default {:?}", dc), dc.name().to_string(), d);
    }
    references(ctx, &made.get(), &v[..300]);
    ctx.val(v.len() as u64 * v.len() as u64);
    ctx.sample(|| format!("Simple 2024-08-30 to 2025-02-28 = {:?}", D::Simple.frac(ser(2024, 8, 30), ser(2025, 2, 28))));
}

pub fn c18(ctx: &Ctx) {
    let made = each(|| [D::AaIsda, D::AaAfb].iter().map(|d| (*d, d.make())).collect::<Vec<(D, DayCounter)>>());
    let mut v = window(ctx);
    // leap-day neighbourhoods for AFB
    for y in [1996, 2003, 2004, 2005, 2007, 2008, 2096, 2104] {
        v.extend((ser(y, 2, 25)..ser(y, 3, 4)).chain(ser(y, 12, 30)..ser(y, 12, 32)));
    }
    v.sort();
    v.dedup();
    pairs(ctx, &v, "2-5 consecutive years, month ends of special years, leap-day neighbourhoods", |a, b| {
        for (d, dc) in made.get().iter() {
            agree(ctx, *d, dc, a, b);
        }
        ctx.tr(2);
        ctx.val(2);
    });
    ctx.bound("every date of the range (quick: every 3rd) against 8 anchors, both orders");
    let anchors = [MIN, ser(1904, 2, 29), ser(1999, 12, 31), ser(2000, 2, 28), ser(2000, 2, 29), ser(2003, 2, 28), ser(2100, 3, 1), MAX];
    let step = ctx.pick(3, 1);
    ctx.par(300, |i| {
        let y = 1900 + i as i32;
        at(format!("Actual/Actual in {}", y));
        for s in (ser(y, 1, 1)..=ser(y, 12, 31)).step_by(step) {
            for a in anchors {
                for (d, dc) in made.get().iter() {
                    agree(ctx, *d, dc, a, s);
                    agree(ctx, *d, dc, s, a);
                }
            }
            ctx.tr(32);
        }
        // laws, on the real code alone
        let made = made.get();
        let (isda, afb) = (&made[0].1, &made[1].1);
        let n = Date::default();
        let (a, b) = (ser(y, 1, 1), if y < 2199 { ser(y + 1, 1, 1) } else { ser(y, 12, 31) });
        if y < 2199 {
            ctx.close(|| format!("ISDA: the calendar year {}", y), 1.0, call(|| isda.year_fraction(&dt(a), &dt(b), &n, &n)), 1e-13);
        }
        for m in (a..b).step_by(17) {
            for (x, z) in [(a, b), ((a - 400).max(MIN), (b + 777).min(MAX))] {
                let part = call(|| isda.year_fraction(&dt(x), &dt(m), &n, &n) + isda.year_fraction(&dt(m), &dt(z), &n, &n));
                let whole = call(|| isda.year_fraction(&dt(x), &dt(z), &n, &n));
                ctx.ok(|| format!("ISDA additive: {} {} {}", show(x), show(m), show(z)), "parts add up", matches!((part, whole), (Ok(p), Ok(w)) if feq(p, w, 1e-12)));
                for dc in [isda, afb] {
                    let (p, q) = (call(|| dc.year_fraction(&dt(x), &dt(m), &n, &n)), call(|| dc.year_fraction(&dt(m), &dt(x), &n, &n)));
                    ctx.ok(|| format!("{:?} antisymmetric: {} {}", dc, show(x), show(m)), "opposite signs", matches!((p, q), (Ok(p), Ok(q)) if feq(p, -q, 1e-13)));
                }
            }
        }
    });
    for d in [D::AaIsda, D::AaAfb] {
        names(ctx, d);
    }
    references(ctx, &made.get(), &v[..300]);
    ctx.sample(|| format!("AFB 2000-02-29 to 2003-02-28 = {}", afb(ser(2000, 2, 29), ser(2003, 2, 28))));
}

pub fn c19(ctx: &Ctx) {
    // with explicit reference periods
    let dc = each(DayCounter::actual_actual_old_isma);
    ctx.bound("reference-period form: dates over 4 years x reference starts x reference lengths 5 days..5 years x omitted ends, both orders");
    let base = ser(2022, 12, 15);
    let ds: Vec<i32> = (0..ctx.pick(90, 300)).map(|k| base + k * ctx.pick(17, 5)).chain([ser(2023, 2, 28), ser(2024, 2, 29), ser(2023, 8, 31), ser(2024, 3, 31)]).collect();
    let mut refs: Vec<(Option<i32>, Option<i32>)> = vec![(None, None)];
    for s in [ser(2023, 1, 15), ser(2023, 2, 28), ser(2023, 8, 31), ser(2024, 2, 29), ser(2024, 5, 31), ser(2022, 1, 1), ser(2023, 11, 30)] {
        refs.push((Some(s), None));
        refs.push((None, Some(s)));
        for (n, u) in [(5, U::D), (15, U::D), (16, U::D), (1, U::M), (2, U::M), (3, U::M), (4, U::M), (6, U::M), (1, U::Y), (18, U::M), (2, U::Y), (5, U::Y), (45, U::D), (47, U::D), (0, U::D), (-10, U::D)] {
            refs.push((Some(s), add(s, n, u)));
        }
    }
    ctx.par(refs.len(), |i| {
        let dc = dc.get();
        let (rs, re) = refs[i];
        at(format!("reference {:?} {:?}", rs.map(show), re.map(show)));
        for a in &ds {
            for b in &ds {
                if ctx.stopped() {
                    return;
                }
                let want = old_isma(*a, *b, rs, re);
                let got = call(|| dc.year_fraction(&dt(*a), &dt(*b), &dt(rs.unwrap_or(MIN)), &dt(re.unwrap_or(MIN))));
                let fine = match (&want, &got) {
                    (None, Err(_)) => true,
                    (Some(w), Ok(g)) => feq(*w, *g, 1e-12),
                    _ => false,
                };
                if !fine {
                    ctx.fail(format!("ISMA {} to {} reference {}..{}", show(*a), show(*b), rs.map(show).unwrap_or("-".into()), re.map(show).unwrap_or("-".into())), format!("{:?}", want), format!("{:?}", got));
                }
            }
            ctx.tr(ds.len() as u64);
        }
        ctx.st(ds.len() as u64 * ds.len() as u64);
    });
    // with a schedule
    let mut specs = vec![];
    for (n, u) in [(1, U::M), (2, U::M), (3, U::M), (4, U::M), (6, U::M), (1, U::Y), (1, U::W), (2, U::W)] {
        for (eff, eom) in [(ser(2022, 1, 16), false), (ser(2021, 8, 31), true), (ser(2021, 8, 31), false), (ser(2022, 2, 28), true), (ser(2019, 6, 15), false), (ser(2023, 2, 20), false)] {
            if eom && u == U::W {
                continue;
            }
            let k = if n == 1 && u != U::Y { 9 } else { 4 } as i64;
            let whole = add(eff, k * n as i64, u).unwrap();
            let whole = if eom { eom_of(whole) } else { whole };
            let first = add(eff, n as i64, u).unwrap();
            let last = add(eff, (k - 1) * n as i64, u).unwrap();
            let half = |s: i32, q: i64| match u {
                U::Y => add(s, 6 * q, U::M).unwrap(),
                U::W => s + (q as i32) * 4 * n,
                _ => s + (q as i32) * 15 * n,
            };
            for (mk, c) in [(Nil, B::Unadjusted), (Target, B::Unadjusted), (Target, B::ModifiedFollowing), (UsGovBond, B::Following)] {
                let b = Spec { eom, ..Spec::new(eff, whole, n, u, mk).conv(c) };
                for rule in [R::Forward, R::Backward] {
                    let b = b.rule(rule);
                    specs.push(b);
                    // short or long stubs in front and at the back
                    specs.push(Spec { term: half(whole, 1) - 2, ..b.rule(R::Forward) });
                    specs.push(Spec { eff: half(eff, -1) + 3, ..b.rule(R::Backward) });
                    specs.push(Spec { eff: half(eff, -1) + 3, first: first, ..b });
                    specs.push(Spec { term: half(whole, 1) + 1, ntl: last, ..b });
                    specs.push(Spec { eff: half(eff, -1) - 1, first: first, term: half(whole, 1) + 1, ntl: last, ..b });
                    specs.push(Spec { eff: half(eff, 1) - 1, term: half(whole, -1) + 1, first: first, ntl: last, ..b });
                    specs.push(Spec { eff: half(eff, 1), term: half(whole, 1), first: first, ntl: last, ..b });
                }
            }
        }
    }
    // long ones: hundreds of periods
    let short = specs.len();
    for (eff, term, n, u) in [
        (ser(2001, 1, 31), ser(2041, 1, 31), 6, U::M), (ser(1995, 3, 15), ser(2025, 3, 15), 1, U::M), (ser(2020, 2, 29), ser(2145, 2, 28), 3, U::M),
        (ser(1950, 6, 10), ser(2150, 6, 10), 1, U::Y), (ser(2022, 1, 5), ser(2031, 8, 6), 1, U::W), (ser(1910, 7, 1), ser(2190, 7, 1), 6, U::M),
    ] {
        for (mk, c) in [(Nil, B::Unadjusted), (Target, B::ModifiedFollowing)] {
            if u == U::W && mk == Target {
                continue;
            }
            for rule in [R::Forward, R::Backward] {
                specs.push(Spec::new(eff, term, n, u, mk).conv(c).rule(rule));
            }
        }
    }
    fn eom_of(s: i32) -> i32 {
        eom(s)
    }
    ctx.bound(format!("schedule form: {} schedules (tenors 1W, 2W, 1M..1Y, short/long/no stubs, adjusted or not, month ends) x all pairs among period ends, their neighbours and a grid inside; {} long ones (up to 560 periods) on a grid", short, specs.len() - short));
    ctx.par(specs.len(), |i| {
        let sp = specs[i];
        at(sp.key());
        let cal = Cal::new(sp.mk);
        let Some(m) = sched::model(&sp, &cal) else {
            ctx.outcome("schedule refused", 1);
            return;
        };
        let s = sp.make();
        let n = m.d.len();
        if n < 3 || m.reg[1..n - 2].iter().any(|x| !x) {
            ctx.outcome("irregular periods in the middle (not covered)", 1);
            return;
        }
        // quasi-coupon dates
        let mut q = m.d.clone();
        if !m.reg[0] {
            let p = cal.advance(m.d[1], -sp.n, sp.u, sp.conv, sp.eom).unwrap();
            q[0] = p;
            if p > m.d[0] {
                q.insert(0, cal.advance(p, -sp.n, sp.u, sp.conv, sp.eom).unwrap());
            }
        }
        if !m.reg[n - 2] {
            let p = cal.advance(m.d[n - 2], sp.n, sp.u, sp.conv, sp.eom).unwrap();
            *q.last_mut().unwrap() = p;
            if p < m.d[n - 1] {
                q.push(cal.advance(p, sp.n, sp.u, sp.conv, sp.eom).unwrap());
            }
        }
        // coupons per year; short periods are measured against the year that follows
        let weekly = sp.u == U::W;
        let f = if weekly { 0 } else { 12 / if sp.u == U::Y { 12 * sp.n } else { sp.n } };
        if weekly && q.windows(2).any(|w| w[1] - w[0] > 15) {
            ctx.outcome("two-week periods stretched by holidays (not covered)", 1);
            return;
        }
        let (lo, hi) = (q[0], *q.last().unwrap());
        let mut ds: Vec<i32> = q.iter().chain(m.d.iter()).flat_map(|x| [x - 1, *x, x + 1]).collect();
        ds.extend((lo..hi).step_by(ctx.pick(23, 7)));
        ds.sort();
        ds.dedup();
        if i >= short {
            let all = ds.len();
            let k = all / ctx.pick(60, 250);
            ds = ds.into_iter().enumerate().filter(|(j, _)| *j < 5 || *j + 5 > all || j % k == 0).map(|x| x.1).collect();
        }
        let dc = DayCounter::actual_actual_isma(s.clone());
        let direct = ActualActual::actual_actual_isma(s.clone());
        let null = Date::default();
        let mut classes = [0u64; 2];
        for a in &ds {
            for b in &ds {
                if ctx.stopped() {
                    return;
                }
                let inside = *a.min(b) >= lo && *a.max(b) <= hi;
                let want = if a == b {
                    Some(0.0)
                } else if !inside {
                    None
                } else {
                    let x = if weekly {
                        let (lo, hi) = (*a.min(b), *a.max(b));
                        q.windows(2).map(|w| (lo.max(w[0]), hi.min(w[1]))).filter(|(x, y)| x < y).map(|(x, y)| (y - x) as f64 / (add(x, 1, U::Y).unwrap() - x) as f64).sum()
                    } else {
                        over_grid(&q, *a.min(b), *a.max(b), |_, _| 1.0 / f as f64)
                    };
                    Some(if a < b { x } else { -x })
                };
                let got = call(|| dc.year_fraction(&dt(*a), &dt(*b), &null, &null));
                let fine = match (&want, &got) {
                    (None, Err(_)) => true,
                    (Some(w), Ok(g)) => feq(*w, *g, 1e-12),
                    _ => false,
                };
                classes[inside as usize] += 1;
                if !fine {
                    ctx.fail(format!("ISMA {} to {} on {}", show(*a), show(*b), sp.key()), format!("{:?}", want), format!("{:?}", got));
                }
                if inside && (a + b) % 13 == 0 {
                    // explicit reference periods are irrelevant when there is a schedule
                    let g2 = call(|| dc.year_fraction(&dt(*a), &dt(*b), &dt(*a), &dt(*b)));
                    let g3 = call(|| direct.year_fraction(&dt(*a), &dt(*b), &null, &null));
                    ctx.ok(|| format!("ISMA {} to {} on {}: reference period / own type", show(*a), show(*b), sp.key()), "the same fraction", [g2, g3].iter().all(|g| matches!((g, &got), (Ok(a), Ok(b)) if feq(*a, *b, 1e-13))));
                    ctx.eq(|| format!("ISMA count {} to {}", show(*a), show(*b)), Ok(b - a), call(|| dc.day_count(&dt(*a), &dt(*b))));
                }
            }
        }
        for k in 0..n - 1 {
            if m.reg[k] && !weekly {
                ctx.close(|| format!("regular period {} of {}", k, sp.key()), 1.0 / f as f64, call(|| frac(&dc, m.d[k], m.d[k + 1])), 1e-12);
            }
        }
        ctx.outcome("pairs inside the schedule", classes[1]);
        ctx.outcome("pairs refused", classes[0]);
        ctx.st((ds.len() * ds.len()) as u64);
        ctx.tr((ds.len() * ds.len()) as u64);
        ctx.val(1);
    });
    names(ctx, D::AaOldIsma);
    ctx.sample(|| format!("semi-annual, 2023-01-15..2023-07-15 split on 2023-04-15: {:?}", old_isma(ser(2023, 1, 15), ser(2023, 4, 15), Some(ser(2023, 1, 15)), Some(ser(2023, 7, 15)))));
}
