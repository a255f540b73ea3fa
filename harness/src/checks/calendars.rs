//! C06-C10: market calendars, edits, adjustment, advancing, counting.
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::{self, Calendar};
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::holiday;
use rust_quantlib::datetime::weekday::Weekday;

pub fn c06(ctx: &Ctx) {
    ctx.bound("18 calendars x all 109,573 dates; yearly holiday lists with and without weekends; 300 years of both easter tables in both places");
    for y in 1900..2200 {
        let w = easter(y) + 1 - ser(y, 1, 1) + 1;
        let o = easter_orthodox(y) + 1 - ser(y, 1, 1) + 1;
        ctx.eq(|| format!("easter_monday({})", y), (Ok(w as u32), Ok(w as u32)), (call(|| calendar::easter_monday(y)), call(|| holiday::easter_monday(y))));
        ctx.eq(|| format!("easter_monday_orthodox({})", y), (Ok(o as u32), Ok(o as u32)), (call(|| calendar::easter_monday_orthodox(y)), call(|| holiday::easter_monday_orthodox(y))));
        ctx.tr(4);
    }
    for y in [1899, 2200] {
        ctx.ok(|| format!("easter_monday({})", y), "refused", call(|| calendar::easter_monday(y)).is_err());
    }
    for mk in MARKETS {
        let (c, m) = (mk.make(), Cal::new(mk));
        ctx.eq(|| format!("name of {:?}", mk), Ok(mk.name().to_string()), call(|| c.name()));
        for w in 1..=7 {
            ctx.eq(|| format!("{:?}.is_weekend({})", mk, w), Ok(m.weekend(w)), call(|| c.is_weekend(Weekday::from(w))));
        }
        ctx.eq(|| format!("{:?} edits when new", mk), Ok((0, 0)), call(|| (c.added_holidays().len(), c.removed_holidays().len())));
    }
    ctx.par(18 * 300, |i| {
        let (mk, y) = (MARKETS[i / 300], 1900 + (i % 300) as i32);
        at(format!("{:?} in {}", mk, y));
        let (c, m) = (mk.make(), Cal::new(mk));
        let (a, b) = (ser(y, 1, 1), ser(y, 12, 31));
        let mut hol = 0;
        for s in a..=b {
            let got = call(|| c.is_holiday(&dt(s)));
            if got != Ok(!m.bd(s)) {
                ctx.fail(format!("{:?}: {} a holiday?", mk, show(s)), format!("{:?}", !m.bd(s)), format!("{:?}", got));
            }
            hol += (!m.bd(s) && !m.weekend(wd(s))) as u64;
        }
        ctx.st((b - a + 1) as u64);
        ctx.tr((b - a + 1) as u64 * 2);
        ctx.val(1);
        ctx.outcome(&format!("{:?} weekday closings", mk), hol);
        let want_h: Vec<i32> = (a..=b).filter(|s| !m.bd(*s)).collect();
        let want_n: Vec<i32> = want_h.iter().cloned().filter(|s| !m.weekend(wd(*s))).collect();
        let want_b: Vec<i32> = (a..=b).filter(|s| m.bd(*s)).collect();
        let key = |w: &str| format!("{:?}: {} of {}", mk, w, y);
        ctx.eq(|| key("holiday_list"), Ok(want_h), call(|| sers(&c.holiday_list(dt(a), dt(b), true))));
        ctx.eq(|| key("holiday_list without weekends"), Ok(want_n), call(|| sers(&c.holiday_list(dt(a), dt(b), false))));
        ctx.eq(|| key("business_day_list"), Ok(want_b), call(|| sers(&c.business_day_list(dt(a), dt(b)))));
    });
    ctx.sample(|| format!("Easter Sunday 2024 = {}, orthodox {}", show(easter(2024)), show(easter_orthodox(2024))));
    ctx.sample(|| format!("UK closings of 2022: {:?}", closings(UkSettlement, 2022).into_iter().map(show).collect::<Vec<_>>()));
}

// ------------------------------------------------------------------------------------------------

#[derive(Clone, Copy, Debug)]
pub enum Ed {
    Add(i32),
    Rem(i32),
    Reset,
}
pub fn edit(c: &mut Calendar, m: &mut Cal, e: Ed) -> Out<()> {
    match e {
        Ed::Add(s) => {
            m.add(s);
            call(|| c.add_holiday(dt(s)))
        }
        Ed::Rem(s) => {
            m.remove(s);
            call(|| c.remove_holiday(dt(s)))
        }
        Ed::Reset => {
            m.reset();
            call(|| c.reset_added_and_removed_holidays())
        }
    }
}
pub fn show_hist(mk: Mk, h: &[Ed]) -> String {
    let v: Vec<String> = h
        .iter()
        .map(|e| match e {
            Ed::Add(s) => format!("add {}", show(*s)),
            Ed::Rem(s) => format!("remove {}", show(*s)),
            Ed::Reset => "reset".into(),
        })
        .collect();
    format!("{:?} after [{}]", mk, v.join(", "))
}
/// every query of the calendar over a window; returns the number of comparisons
pub fn queries(ctx: &Ctx, c: &Calendar, m: &Cal, lo: i32, hi: i32, who: &dyn Fn() -> String, full: bool) -> u64 {
    let mut n = 0;
    for s in lo..=hi {
        let d = dt(s);
        ctx.eq(|| format!("{}: is_holiday({})", who(), show(s)), Ok(!m.bd(s)), call(|| c.is_holiday(&d)));
        n += 1;
        if !full {
            continue;
        }
        for cv in CONV {
            if let Some(w) = m.adjust(s, cv) {
                ctx.eq(|| format!("{}: adjust({}, {:?})", who(), show(s), cv), Ok(w), call(|| c.adjust(d, cv).serial_number()));
            }
        }
        for k in [-3, -1, 1, 2] {
            if let Some(w) = m.advance(s, k, U::D, B::Following, false) {
                ctx.eq(|| format!("{}: advance_by_days({}, {}D)", who(), show(s), k), Ok(w), call(|| c.advance_by_days_with_following(d, k, U::D.tu(), false).serial_number()));
            }
        }
        if let (Some(w), Some(e)) = (m.advance(s, 1, U::M, B::ModifiedFollowing, true), m.is_eom(s)) {
            ctx.eq(|| format!("{}: advance({}, 1M, MF, eom)", who(), show(s)), Ok(w), call(|| c.advance_by_period(d, per(1, U::M), B::ModifiedFollowing, true).serial_number()));
            ctx.eq(|| format!("{}: is_end_of_month({})", who(), show(s)), Ok(e), call(|| c.is_end_of_month(&d)));
            ctx.eq(|| format!("{}: end_of_month({})", who(), show(s)), Ok(m.last_bd(s)), call(|| Some(c.end_of_month(&d).serial_number())));
        }
        n += 14;
    }
    let want_h: Vec<i32> = (lo..=hi).filter(|s| !m.bd(*s)).collect();
    let want_n: Vec<i32> = want_h.iter().cloned().filter(|s| !m.weekend(wd(*s))).collect();
    let want_b: Vec<i32> = (lo..=hi).filter(|s| m.bd(*s)).collect();
    ctx.eq(|| format!("{}: holiday_list", who()), Ok(want_h), call(|| sers(&c.holiday_list(dt(lo), dt(hi), true))));
    ctx.eq(|| format!("{}: holiday_list without weekends", who()), Ok(want_n), call(|| sers(&c.holiday_list(dt(lo), dt(hi), false))));
    ctx.eq(|| format!("{}: business_day_list", who()), Ok(want_b), call(|| sers(&c.business_day_list(dt(lo), dt(hi)))));
    for (f, l) in [(false, false), (true, false), (false, true), (true, true)] {
        for (a, b) in [(lo, hi), (hi, lo), (lo + 3, lo + 9), (lo + 4, lo + 4)] {
            ctx.eq(|| format!("{}: business_days_between({},{},{},{})", who(), show(a), show(b), f, l), Ok(m.between(a, b, f, l)), call(|| c.business_days_between(dt(a), dt(b), f, l)));
        }
    }
    let set = |h: &std::collections::HashSet<Date>| {
        let mut v: Vec<i32> = h.iter().map(|d| d.serial_number()).collect();
        v.sort();
        v
    };
    let (a, r) = m.edits();
    ctx.eq(|| format!("{}: (added, removed)", who()), Ok((a, r)), call(|| (set(c.added_holidays()), set(c.removed_holidays()))));
    n + 20
}

/// one question about a day: the model's answer (if it has one) and the calendar's
const QUESTIONS: usize = 10;
fn question(c: &Calendar, m: &Cal, q: usize, s: i32) -> Option<(Vec<i32>, Out<Vec<i32>>)> {
    let d = dt(s);
    let one = |w: Option<i32>, f: &dyn Fn() -> i32| w.map(|w| (vec![w], call(|| vec![f()])));
    match q {
        0 => one(Some(!m.bd(s) as i32), &|| c.is_holiday(&d) as i32),
        1 => one(m.adjust(s, B::Following), &|| c.adjust(d, B::Following).serial_number()),
        2 => one(m.adjust(s, B::ModifiedPreceding), &|| c.adjust(d, B::ModifiedPreceding).serial_number()),
        3 => one(m.advance(s, 2, U::D, B::Following, false), &|| c.advance_by_days_with_following(d, 2, U::D.tu(), false).serial_number()),
        4 => one(m.advance(s, -1, U::D, B::Following, false), &|| c.advance_by_days_with_following(d, -1, U::D.tu(), false).serial_number()),
        5 => one(m.advance(s, 1, U::M, B::ModifiedFollowing, true), &|| c.advance_by_period(d, per(1, U::M), B::ModifiedFollowing, true).serial_number()),
        6 => one(m.last_bd(s), &|| c.end_of_month(&d).serial_number()),
        7 => one(m.is_eom(s).map(|b| b as i32), &|| c.is_end_of_month(&d) as i32),
        8 => one(Some(m.between(s, s + 9, true, false)), &|| c.business_days_between(d, dt(s + 9), true, false)),
        _ => Some(((s..=s + 6).filter(|x| !m.bd(*x)).collect(), call(|| sers(&c.holiday_list(d, dt(s + 6), true))))),
    }
}
/// the same question (or two in turn) asked before, between and after the edits of a history, and no other
fn asked_again(ctx: &Ctx) {
    let days = [ser(2022, 12, 26), ser(2022, 12, 29), ser(2022, 12, 30), ser(2022, 12, 31), ser(2023, 1, 2)];
    let mut ops: Vec<Ed> = days.iter().flat_map(|d| [Ed::Add(*d), Ed::Rem(*d)]).collect();
    ops.push(Ed::Reset);
    let depth = ctx.pick(3, 4);
    ctx.bound(format!("one question asked before, between and after the edits of every history of {} edits, and no other: 10 questions on 12 days, 18 markets; every two questions around one edit", depth));
    ctx.par(MARKETS.len() * QUESTIONS, |i| {
        let (mk, q) = (MARKETS[i / QUESTIONS], i % QUESTIONS);
        at(format!("{:?} asked the same again", mk));
        let (fresh, blank) = (mk.make(), Cal::new(mk));
        let ask = |c: &Calendar, m: &Cal, q: usize, s: i32, h: &[Ed]| {
            if let Some((w, g)) = question(c, m, q, s) {
                ctx.eq(|| format!("{}: question {} on {} asked again", show_hist(mk, h), q, show(s)), Ok(w), g);
            }
        };
        for s in ser(2022, 12, 23)..=ser(2023, 1, 3) {
            for n in 0..ops.len().pow(depth) {
                let (mut c, mut m, mut h) = (fresh.clone(), blank.clone(), vec![]);
                ask(&c, &m, q, s, &h);
                let mut n = n;
                for _ in 0..depth {
                    let e = ops[n % ops.len()];
                    n /= ops.len();
                    h.push(e);
                    let _ = edit(&mut c, &mut m, e);
                    ask(&c, &m, q, s, &h);
                }
                ctx.tr(2 * depth as u64 + 1);
                ctx.st(1);
            }
            // one question, one edit of an edited calendar, another question of the same or the next day
            for e0 in ops.iter().chain([&Ed::Reset]) {
                let (mut c0, mut m0) = (fresh.clone(), blank.clone());
                let _ = edit(&mut c0, &mut m0, *e0);
                for e in &ops {
                    for q2 in 0..QUESTIONS {
                        for s2 in [s, s + 1] {
                            let (mut c, mut m) = (c0.clone(), m0.clone());
                            ask(&c, &m, q, s, &[*e0]);
                            let _ = edit(&mut c, &mut m, *e);
                            ask(&c, &m, q2, s2, &[*e0, *e]);
                            ctx.tr(3);
                        }
                    }
                }
            }
        }
        ctx.val(1);
    });
}

pub fn c07(ctx: &Ctx) {
    asked_again(ctx);
    let depth = ctx.pick(3, 4);
    // colliding dates around the end of 2022 / new year 2023: business day, month-end business day,
    // Saturday, market holiday(s)
    let days = [ser(2022, 12, 26), ser(2022, 12, 29), ser(2022, 12, 30), ser(2022, 12, 31), ser(2023, 1, 2)];
    let mut ops: Vec<Ed> = vec![];
    for d in days {
        ops.push(Ed::Add(d));
        ops.push(Ed::Rem(d));
    }
    ops.push(Ed::Reset);
    ctx.bound(format!("all edit sequences of length <= {} over {} operations on 5 colliding dates, 18 markets; after each step every query over a 20-day window", depth, ops.len()));
    ctx.par(MARKETS.len() * ops.len(), |i| {
        let (mk, first) = (MARKETS[i / ops.len()], i % ops.len());
        at(format!("edit sequences on {:?}", mk));
        let (c, m) = (mk.make(), Cal::new(mk));
        rec(ctx, mk, &c, &m, &ops, &mut vec![], Some(first), depth);
    });
    // deeper sequences, merged on the model state (added, removed): every reachable set of edits and
    // every transition out of it
    ctx.bound("reachable edit sets over 7 dates to fixpoint, every operation from each");
    let days: Vec<i32> = vec![ser(2022, 12, 23), ser(2022, 12, 26), ser(2022, 12, 29), ser(2022, 12, 30), ser(2022, 12, 31), ser(2023, 1, 2), ser(2023, 1, 3)];
    let mks: &[Mk] = if ctx.thorough() { &MARKETS } else { &[Mk::Target, UsSettlement, Nil, BrExchange] };
    ctx.par(mks.len(), |i| {
        let mk = mks[i];
        at(format!("edit sets on {:?}", mk));
        let mut seen = std::collections::HashSet::new();
        let mut frontier = vec![(mk.make(), Cal::new(mk), vec![])];
        seen.insert(Cal::new(mk).edits());
        while let Some((c, m, h)) = frontier.pop() {
            ctx.st(1);
            let mut all: Vec<Ed> = days.iter().flat_map(|d| [Ed::Add(*d), Ed::Rem(*d)]).collect();
            all.push(Ed::Reset);
            for e in all {
                let (mut c2, mut m2) = (c.clone(), m.clone());
                let mut h2: Vec<Ed> = h.clone();
                h2.push(e);
                let who = || show_hist(mk, &h2);
                if edit(&mut c2, &mut m2, e).is_err() {
                    ctx.fail(who(), "accepted", "refused");
                    continue;
                }
                let n = queries(ctx, &c2, &m2, ser(2022, 12, 22), ser(2023, 1, 4), &who, true);
                ctx.tr(n);
                ctx.val(1);
                if seen.insert(m2.edits()) {
                    frontier.push((c2, m2, h2));
                }
            }
            // the parent is untouched by edits of its copies
            queries(ctx, &c, &m, ser(2022, 12, 22), ser(2023, 1, 4), &|| format!("{} (a copy was edited)", show_hist(mk, &h)), false);
        }
    });
    // one long history per market and period: hundreds of edits one after the other
    let years = [1900, 1962, 2019, 2057, 2100, 2198];
    ctx.bound("18 markets x 6 spans of two years: a history of about 1,700 edits (days added, removed, undone in the opposite order, reset) checked day by day, with counts, lists and moves over the whole spans and up to 24 years");
    ctx.par(MARKETS.len() * years.len(), |i| {
        let (mk, y) = (MARKETS[i / years.len()], years[i % years.len()]);
        let (lo, hi) = (ser(y, 1, 1).max(MIN + 20), ser(y + 1, 12, 31).min(MAX - 20));
        at(format!("long history on {:?} from {}", mk, y));
        let (mut c, mut m) = (mk.make(), Cal::new(mk));
        let mut done: Vec<Ed> = vec![];
        let whole = |c: &Calendar, m: &Cal, done: &[Ed]| {
            let who = || format!("{:?} after {} edits from {} on, the last {:?}", mk, done.len(), y, done.last());
            for s in lo..=hi {
                let d = dt(s);
                ctx.eq(|| format!("{}: is_holiday({})", who(), show(s)), Ok(!m.bd(s)), call(|| c.is_holiday(&d)));
                ctx.tr(1);
            }
            let n = queries(ctx, c, m, lo + 300, lo + 330, &who, true);
            ctx.tr(n);
            // long ways, the same ones after every stretch of edits
            for (a, b) in [(lo, hi), (hi, lo), (lo + 77, hi - 5), ((lo - 4000).max(MIN), (hi + 4000).min(MAX))] {
                for (f, l) in [(false, false), (true, true), (true, false)] {
                    ctx.eq(|| format!("{}: business_days_between({},{},{},{})", who(), show(a), show(b), f, l), Ok(m.between(a, b, f, l)), call(|| c.business_days_between(dt(a), dt(b), f, l)));
                }
            }
            for k in [30, 120, 700, -45, -400] {
                let from = if k > 0 { lo } else { hi };
                let w = m.advance(from, k, U::D, B::Following, false);
                ctx.eq(|| format!("{}: {} advanced by {} days", who(), show(from), k), w.ok_or(Refused), call(|| c.advance_by_days_with_following(dt(from), k, U::D.tu(), false).serial_number()));
            }
            let (wh, wb): (Vec<i32>, Vec<i32>) = (lo..=hi).partition(|s| !m.bd(*s));
            ctx.eq(|| format!("{}: lists over the whole span", who()), Ok((wh, wb)), call(|| (sers(&c.holiday_list(dt(lo), dt(hi), true)), sers(&c.business_day_list(dt(lo), dt(hi))))));
            ctx.tr(20);
        };
        let one = |c: &mut Calendar, m: &mut Cal, done: &mut Vec<Ed>, e: Ed| {
            done.push(e);
            let ok = edit(c, m, e).is_ok();
            let (Ed::Add(s) | Ed::Rem(s)) = e else { return };
            ctx.ok(|| format!("{:?} edit {} from {} on: {:?}", mk, done.len(), y, e), "accepted", ok);
            // the edited day, its neighbours, and an earlier edit
            let far = match done[done.len() / 2] { Ed::Add(s) | Ed::Rem(s) => s, _ => s };
            for x in [s - 1, s, s + 1, far] {
                ctx.eq(|| format!("{:?} after {} edits from {} on, the last {:?}: is_holiday({})", mk, done.len(), y, e, show(x)), Ok(!m.bd(x)), call(|| c.is_holiday(&dt(x))));
            }
            ctx.eq(|| format!("{:?} after {} edits from {} on, the last {:?}: previous business day", mk, done.len(), y, e), m.adjust(s, B::Preceding).ok_or(Refused), call(|| c.adjust(dt(s), B::Preceding).serial_number()));
            ctx.tr(5);
            ctx.st(1);
        };
        for s in (lo..=hi).filter(|s| s % 3 == 0) {
            one(&mut c, &mut m, &mut done, Ed::Add(s));
        }
        whole(&c, &m, &done);
        for s in (lo..=hi).filter(|s| s % 2 == 0) {
            one(&mut c, &mut m, &mut done, Ed::Rem(s));
        }
        whole(&c, &m, &done);
        for s in (lo..=hi).rev().filter(|s| s % 5 == 0) {
            one(&mut c, &mut m, &mut done, Ed::Add(s));
        }
        whole(&c, &m, &done);
        for s in (lo..=hi).rev() {
            one(&mut c, &mut m, &mut done, if s % 7 < 4 { Ed::Rem(s) } else { Ed::Add(s) });
        }
        whole(&c, &m, &done);
        done.push(Ed::Reset);
        let _ = edit(&mut c, &mut m, Ed::Reset);
        whole(&c, &m, &done);
        ctx.val(1);
    });
    // thousands of edits standing at once
    let mks: Vec<Mk> = if ctx.thorough() { MARKETS.to_vec() } else { vec![Mk::Target, UsSettlement, Nil, Mk::Japan] };
    let (lo, hi) = (ser(2000, 1, 1), ser(2000 + ctx.pick(25, 90), 12, 31));
    ctx.bound(format!("{} markets x four stretches of 5,000 to 33,000 edits over decades (every business day taken off, every second day given back, reset), all of them asked for afterwards", mks.len()));
    ctx.par(mks.len(), |i| {
        let mk = mks[i];
        at(format!("thousands of edits on {:?}", mk));
        let (mut c, mut m) = (mk.make(), Cal::new(mk));
        for (k, what) in ["every business day added", "every second day removed", "every third day added backwards", "reset"].iter().enumerate() {
            match k {
                0 => (lo..=hi).for_each(|s| { let _ = edit(&mut c, &mut m, Ed::Add(s)); }),
                1 => (lo..=hi).filter(|s| s % 2 == 0).for_each(|s| { let _ = edit(&mut c, &mut m, Ed::Rem(s)); }),
                2 => (lo..=hi).rev().filter(|s| s % 3 == 0).for_each(|s| { let _ = edit(&mut c, &mut m, Ed::Add(s)); }),
                _ => { let _ = edit(&mut c, &mut m, Ed::Reset); }
            }
            let who = || format!("{:?} from {} to {}: {}", mk, show(lo), show(hi), what);
            for s in lo - 50..=hi + 50 {
                let d = dt(s);
                ctx.eq(|| format!("{}: is_holiday({})", who(), show(s)), Ok(!m.bd(s)), call(|| c.is_holiday(&d)));
            }
            for (f, l) in [(false, false), (true, false)] {
                ctx.eq(|| format!("{}: business days between", who()), Ok(m.between(lo - 20, hi + 20, f, l)), call(|| c.business_days_between(dt(lo - 20), dt(hi + 20), f, l)));
            }
            ctx.tr((hi - lo) as u64);
            ctx.st(1);
        }
        ctx.val(1);
    });
    ctx.sample(|| "TARGET: add 2022-12-30, then adjust(2022-12-30, Preceding) = 2022-12-29".into());
}

#[allow(clippy::too_many_arguments)]
fn rec(ctx: &Ctx, mk: Mk, c: &Calendar, m: &Cal, ops: &[Ed], h: &mut Vec<Ed>, only: Option<usize>, left: usize) {
    if left == 0 {
        return;
    }
    for (k, e) in ops.iter().enumerate() {
        if only.is_some_and(|o| o != k) {
            continue;
        }
        let (mut c2, mut m2) = (c.clone(), m.clone());
        h.push(*e);
        ctx.st(1);
        ctx.val(1);
        if edit(&mut c2, &mut m2, *e).is_err() {
            ctx.fail(show_hist(mk, h), "accepted", "refused");
        } else {
            let n = queries(ctx, &c2, &m2, ser(2022, 12, 20), ser(2023, 1, 8), &|| show_hist(mk, h), left > 1 || h.len() <= 2);
            ctx.tr(n);
            rec(ctx, mk, &c2, &m2, ops, h, None, left - 1);
        }
        h.pop();
    }
    // edits were made on copies only
    let n = queries(ctx, c, m, ser(2022, 12, 20), ser(2023, 1, 8), &|| format!("{} (copies were edited)", show_hist(mk, h)), false);
    ctx.tr(n);
}

// ------------------------------------------------------------------------------------------------

/// calendars edited so that long closings cover month ends and the middle of the month
/// closing patterns: seven shapes in five months
const PATTERNS: usize = 35;

pub fn edited(mk: Mk, pattern: usize) -> (Calendar, Cal, (i32, i32), String) {
    let (mut c, mut m) = (mk.make(), Cal::new(mk));
    let (y, mo) = [(2023, 3), (2023, 6), (2024, 2), (2023, 12), (2024, 9)][pattern % 5];
    let first = ser(y, mo, 1);
    let last = eom(first);
    let run: Vec<i32> = match pattern / 5 {
        0 => (first + 11..=first + 17).collect(),  // 12th..18th
        1 => (last - 4..=last + 3).collect(),      // over the month end
        2 => (first..=last).collect(),             // the whole month
        3 => (first + 14..=last).collect(),        // from the 15th on
        4 => (first..=first + 15).chain(last - 1..=last).collect(),
        5 => (first - 3..=first + 14).collect(),   // from the previous month to the 15th
        _ => (first - 19..=first + 51).collect(),  // for ten weeks
    };
    for s in &run {
        c.add_holiday(dt(*s));
        m.add(*s);
    }
    if pattern % 2 == 1 {
        // a weekend day is worked
        let sat = (first..=last).find(|s| wd(*s) == 7).unwrap();
        c.remove_holiday(dt(sat));
        m.remove(sat);
    }
    (c, m, (first - 25, last + 25), format!("{:?} closed {}..{}{}", mk, show(run[0]), show(*run.last().unwrap()), if pattern % 2 == 1 { ", one Saturday worked" } else { "" }))
}

pub fn c08(ctx: &Ctx) {
    ctx.bound("18 calendars x all dates except the last/first 12 of the range x 7 conventions; 35 closing patterns x 18 calendars");
    ctx.par(18 * 300, |i| {
        let (mk, y) = (MARKETS[i / 300], 1900 + (i % 300) as i32);
        at(format!("adjust on {:?} in {}", mk, y));
        let (c, m) = (mk.make(), Cal::new(mk));
        let (a, b) = (ser(y, 1, 1).max(MIN + 12), ser(y, 12, 31).min(MAX - 12));
        adjusts(ctx, &c, &m, a, b, &|| format!("{:?}", mk));
    });
    ctx.par(18 * PATTERNS, |i| {
        let (c, m, (a, b), who) = edited(MARKETS[i / PATTERNS], i % PATTERNS);
        at(who.clone());
        adjusts(ctx, &c, &m, a, b, &|| who.clone());
    });
    ctx.sample(|| "TARGET: adjust(2023-04-30 Sun, ModifiedFollowing) = 2023-04-28".into());
}

fn adjusts(ctx: &Ctx, c: &Calendar, m: &Cal, a: i32, b: i32, who: &dyn Fn() -> String) {
    for s in a..=b {
        let d = dt(s);
        for cv in CONV {
            if let Some(w) = m.adjust(s, cv) {
                ctx.eq(|| format!("{}: adjust({}, {:?})", who(), show(s), cv), Ok(w), call(|| c.adjust(d, cv).serial_number()));
            }
        }
        if let Some(w) = m.adjust(s, B::Following) {
            ctx.eq(|| format!("{}: adjust_with_following({})", who(), show(s)), Ok(w), call(|| c.adjust_with_following(d).serial_number()));
        }
        if let (Some(e), Some(l)) = (m.is_eom(s), m.last_bd(s)) {
            ctx.eq(|| format!("{}: is_end_of_month({})", who(), show(s)), Ok(e), call(|| c.is_end_of_month(&d)));
            ctx.eq(|| format!("{}: end_of_month({})", who(), show(s)), Ok(l), call(|| c.end_of_month(&d).serial_number()));
        }
    }
    ctx.st((b - a + 1) as u64);
    ctx.tr((b - a + 1) as u64 * 10);
    ctx.val(1);
}

// ------------------------------------------------------------------------------------------------

fn advances(ctx: &Ctx, c: &Calendar, m: &Cal, s: i32, who: &dyn Fn() -> String, days: &[i32], periods: &[(i32, U)]) {
    let d = dt(s);
    let key = |n: i32, u: U, cv: B, e: bool| format!("{}: advance({}, {}{:?}, {:?}, eom={})", who(), show(s), n, u, cv, e);
    let calls = std::cell::Cell::new(0u64);
    let one = |n: i32, u: U, cv: B, e: bool| {
        calls.set(calls.get() + if cv == B::Following { 4 } else { 2 });
        let Some(w) = m.advance(s, n, u, cv, e) else { return };
        let got = (
            call(|| c.advance_by_days(d, n, u.tu(), cv, e).serial_number()),
            call(|| c.advance_by_period(d, per(n, u), cv, e).serial_number()),
        );
        ctx.eq(|| key(n, u, cv, e), (Ok(w), Ok(w)), got);
        if cv == B::Following {
            let got = (
                call(|| c.advance_by_days_with_following(d, n, u.tu(), e).serial_number()),
                call(|| c.advance_by_period_with_following(d, per(n, u), e).serial_number()),
            );
            ctx.eq(|| key(n, u, cv, e) + " default convention", (Ok(w), Ok(w)), got);
        }
    };
    for &n in days {
        one(n, U::D, B::Following, n % 2 == 0);
        one(n, U::D, CONV[n.rem_euclid(7) as usize], n % 2 != 0);
    }
    for &(n, u) in periods {
        for cv in CONV {
            one(n, u, cv, false);
            one(n, u, cv, true);
        }
    }
    ctx.st(1);
    ctx.tr(calls.get());
    ctx.val(1);
}

pub fn c09(ctx: &Ctx) {
    let days: Vec<i32> = (-11..=11).chain([-131, -66, -31, -23, 21, 30, 64, 128]).chain(if ctx.thorough() { vec![-521, -262, -45, 45, 261, 522] } else { vec![] }).collect();
    let mut periods: Vec<(i32, U)> = vec![(0, U::D), (0, U::W), (0, U::M), (0, U::Y)];
    for n in (1..=9).chain([13, 26, 52]) {
        periods.extend([(n, U::W), (-n, U::W)]);
    }
    for n in ctx.pick(vec![1, 2, 3, 4, 5, 10, 30], (1..=12).chain([15, 20, 25, 30, 40]).collect()) {
        periods.extend([(n, U::Y), (-n, U::Y)]);
    }
    for n in (1..=13).chain([18, 24, 36, 60, 120]) {
        periods.extend([(n, U::M), (-n, U::M)]);
    }
    let years: Vec<i32> = ctx.pick(vec![1968, 1999, 2000, 2016, 2022, 2023, 2100], (1903..2197).collect());
    ctx.bound(format!("18 calendars x every date of {} years x {} day offsets and {} week/month/year offsets x 7 conventions x both end-of-month flags", years.len(), days.len(), periods.len()));
    let mks: Vec<Mk> = MARKETS.to_vec();
    ctx.par(mks.len() * years.len(), |i| {
        let (mk, y) = (mks[i % mks.len()], years[i / mks.len()]);
        at(format!("advance on {:?} in {}", mk, y));
        let (c, m) = (mk.make(), Cal::new(mk));
        for s in (ser(y, 1, 1)..=ser(y, 12, 31)).step_by(if ctx.thorough() && i % 3 != 0 { 3 } else { 1 }) {
            advances(ctx, &c, &m, s, &|| format!("{:?}", mk), &days, &periods);
        }
    });
    ctx.bound("35 closing patterns x 18 calendars, every date of a 3-month window");
    ctx.par(18 * PATTERNS, |i| {
        let (c, m, (a, b), who) = edited(MARKETS[i / PATTERNS], i % PATTERNS);
        at(who.clone());
        for s in a..=b {
            advances(ctx, &c, &m, s, &|| who.clone(), &days, &periods);
        }
    });
    // every year, month ends and a grid between; and very long ways
    let few: Vec<i32> = vec![-700, -261, -22, -5, -1, 1, 2, 10, 260, 1000, 3000];
    let far: Vec<(i32, U)> = vec![(0, U::D), (1, U::W), (-3, U::W), (53, U::W), (-150, U::W), (1000, U::W), (1, U::M), (-1, U::M), (6, U::M), (-11, U::M), (121, U::M), (-245, U::M), (600, U::M), (1, U::Y), (-4, U::Y), (11, U::Y), (51, U::Y), (-99, U::Y)];
    ctx.bound("18 calendars x every year of the range (quick: every 5th; month ends and every 43rd day) x 11 day offsets up to 3000 business days and 18 offsets up to 99 years");
    ctx.par(18 * 294, |i| {
        let (mk, y) = (MARKETS[i % 18], 1903 + (i / 18) as i32);
        if !ctx.thorough() && (i % 18 + i / 18) % 5 != 0 {
            return;
        }
        at(format!("long ways on {:?} from {}", mk, y));
        let (c, m) = (mk.make(), Cal::new(mk));
        for s in ser(y, 1, 1)..=ser(y, 12, 31) {
            if eom(s) - s < 2 || (s + i as i32) % 43 == 0 {
                advances(ctx, &c, &m, s, &|| format!("{:?}", mk), &few[..if s % 5 == 0 { few.len() } else { 8 }], &far);
            }
        }
    });
    ctx.sample(|| "TARGET: advance(2023-02-28, 1M, Following, eom) = 2023-03-31".into());
}

// ------------------------------------------------------------------------------------------------

pub fn c10(ctx: &Ctx) {
    let w = ctx.pick(24, 60);
    let starts = [MIN, MAX - w, ser(1999, 12, 20), ser(2022, 12, 17), ser(2016, 3, 18), ser(2001, 9, 3), ser(1968, 6, 5), ser(2100, 2, 20)];
    ctx.bound(format!("18 calendars x all ordered pairs of {} windows of {} days (both range ends included) x 4 end-point choices; lists over every sub-range; long spans", starts.len(), w + 1));
    ctx.par(18 * starts.len(), |i| {
        let (mk, lo) = (MARKETS[i / starts.len()], starts[i % starts.len()]);
        at(format!("counts on {:?} from {}", mk, show(lo)));
        let (c, m) = (mk.make(), Cal::new(mk));
        pairs(ctx, &c, &m, lo, lo + w, &|| format!("{:?}", mk));
    });
    ctx.par(18 * PATTERNS, |i| {
        let (c, m, (a, b), who) = edited(MARKETS[i / PATTERNS], i % PATTERNS);
        at(who.clone());
        let mid = (a + b) / 2;
        pairs(ctx, &c, &m, mid - w / 2, mid + w / 2, &|| who.clone());
    });
    // spans of weeks to years, between all of their dates and fixed ones
    let reach = ctx.pick(420, 1500);
    ctx.bound(format!("18 calendars x 8 fixed dates x every date up to {} days away, both orders x 4 end-point choices; lists over those spans", reach));
    ctx.par(18 * 8, |i| {
        let mk = MARKETS[i / 8];
        let a = [MIN, MAX, ser(1931, 12, 24), ser(1974, 2, 28), ser(1999, 12, 31), ser(2023, 4, 7), ser(2024, 2, 29), ser(2150, 7, 4)][i % 8];
        at(format!("spans on {:?} around {}", mk, show(a)));
        let (c, m) = (mk.make(), Cal::new(mk));
        for b in (a - reach).max(MIN)..=(a + reach).min(MAX) {
            for (x, y) in [(a, b), (b, a)] {
                for (f, l) in [(false, false), (true, false), (false, true), (true, true)] {
                    ctx.eq(|| format!("{:?}: business_days_between({},{},{},{})", mk, show(x), show(y), f, l), Ok(m.between(x, y, f, l)), call(|| c.business_days_between(dt(x), dt(y), f, l)));
                }
            }
            ctx.tr(8);
            if b % 29 == 0 {
                let (x, y) = (a.min(b), a.max(b));
                let want = (
                    Ok((x..=y).filter(|s| !m.bd(*s)).collect::<Vec<i32>>()),
                    Ok((x..=y).filter(|s| !m.bd(*s) && !m.weekend(wd(*s))).collect::<Vec<i32>>()),
                    Ok((x..=y).filter(|s| m.bd(*s)).collect::<Vec<i32>>()),
                );
                let got = (
                    call(|| sers(&c.holiday_list(dt(x), dt(y), true))),
                    call(|| sers(&c.holiday_list(dt(x), dt(y), false))),
                    call(|| sers(&c.business_day_list(dt(x), dt(y)))),
                );
                ctx.eq(|| format!("{:?}: lists over {}..{}", mk, show(x), show(y)), want, got);
                ctx.tr(3);
            }
        }
        ctx.st(1);
    });
    // long spans, up to the whole range
    ctx.par(18, |i| {
        let mk = MARKETS[i];
        at(format!("long spans on {:?}", mk));
        let (c, m) = (mk.make(), Cal::new(mk));
        let ends = [MIN, MIN + 1, ser(1950, 6, 15), ser(1999, 12, 31), ser(2000, 2, 29), ser(2024, 12, 25), ser(2100, 1, 1), MAX - 1, MAX];
        for a in ends {
            for b in ends {
                for (f, l) in [(false, false), (true, false), (false, true), (true, true)] {
                    ctx.eq(|| format!("{:?}: business_days_between({},{},{},{})", mk, show(a), show(b), f, l), Ok(m.between(a, b, f, l)), call(|| c.business_days_between(dt(a), dt(b), f, l)));
                    ctx.tr(1);
                }
            }
        }
        let want: Vec<i32> = (MIN..=MAX).filter(|s| m.bd(*s)).collect();
        ctx.eq(|| format!("{:?}: business_day_list of the whole range", mk), Ok(want), call(|| sers(&c.business_day_list(dt(MIN), dt(MAX)))));
    });
    ctx.sample(|| "business_days_between(d, d, true, true) is 1 on a business day, 0 on a holiday".into());
}

fn pairs(ctx: &Ctx, c: &Calendar, m: &Cal, lo: i32, hi: i32, who: &dyn Fn() -> String) {
    for a in lo..=hi {
        for b in lo..=hi {
            for (f, l) in [(false, false), (true, false), (false, true), (true, true)] {
                ctx.eq(|| format!("{}: business_days_between({},{},{},{})", who(), show(a), show(b), f, l), Ok(m.between(a, b, f, l)), call(|| c.business_days_between(dt(a), dt(b), f, l)));
            }
            ctx.tr(7);
            let lists = (
                call(|| sers(&c.holiday_list(dt(a), dt(b), true))),
                call(|| sers(&c.holiday_list(dt(a), dt(b), false))),
                call(|| sers(&c.business_day_list(dt(a), dt(b)))),
            );
            if a > b {
                ctx.ok(|| format!("{}: lists over the inverted range {}..{}", who(), show(a), show(b)), "refused", lists.0.is_err() && lists.1.is_err() && lists.2.is_err());
            } else {
                let h: Vec<i32> = (a..=b).filter(|s| !m.bd(*s)).collect();
                let n: Vec<i32> = h.iter().cloned().filter(|s| !m.weekend(wd(*s))).collect();
                let bd: Vec<i32> = (a..=b).filter(|s| m.bd(*s)).collect();
                ctx.eq(|| format!("{}: (holiday_list, without weekends, business_day_list) over {}..{}", who(), show(a), show(b)), (Ok(h), Ok(n), Ok(bd)), lists);
            }
        }
        ctx.st(1);
        ctx.val(1);
    }
}
