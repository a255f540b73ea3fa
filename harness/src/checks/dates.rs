//! C01-C03: the date type.  State = a day of the calendar (or a value no day corresponds to);
//! transitions = every way of building or moving a date.
use crate::fw::*;
use crate::greg::*;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::weekday::Weekday;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// every observer of a date against the model date `s`; Ok or the first disagreement
pub fn observe(d: &Date, s: i32) -> Result<(), String> {
    let (y, m, dd) = ymd(s);
    let got = (
        d.serial_number(),
        d.year(),
        i32::from(d.month()),
        d.day_of_month() as i32,
        d.day_of_year() as i32,
        i32::from(d.weekday()),
    );
    let want = (s, y, m, dd, doy(s), wd(s));
    if got != want {
        return Err(format!("(serial,y,m,d,doy,wd) = {:?}, expected {:?}", got, want));
    }
    Ok(())
}

pub fn observe_text(d: &Date, s: i32) -> Result<(), String> {
    let t = format!("{:?}", d);
    if !t.starts_with(&show(s)) {
        return Err(format!("printed as {} instead of {}", t, show(s)));
    }
    Ok(())
}

/// expects the outcome `want` (None = refused) of building/moving a date
#[inline]
pub fn expect(ctx: &Ctx, key: impl Fn() -> String, want: Option<i32>, got: Out<Date>) {
    match (want, got) {
        (None, Err(_)) => {}
        (Some(s), Ok(d)) => {
            if let Err(e) = observe(&d, s) {
                ctx.fail(key(), show(s), e)
            }
        }
        (w, g) => ctx.fail(key(), w.map(show).unwrap_or("refused".into()), format!("{:?}", g)),
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.bound("all 109,573 days 1900-01-01..2199-12-31, each built in 12 ways; neighbours and a fixed offset set for ordering, all pairs in a 420-day window");
    ctx.bound("every (day 0..=33, month 1..=12, year 1890..=2210); every serial in [-5000,2) and (109574,115000] and the extremes of i32");
    // bijection and observers
    const CH: i32 = 512;
    let n = ((MAX - MIN) / CH + 1) as usize;
    ctx.par(n, |c| {
        let lo = MIN + c as i32 * CH;
        for s in lo..(lo + CH).min(MAX + 1) {
            let (y, m, d) = ymd(s);
            at(format!("date {}", show(s)));
            let key = |how: &str| format!("{} built by {}", show(s), how);
            let mut built: Vec<(&str, Out<Date>)> = vec![
                ("Date::new", call(|| Date::new(d as u32, month(m), y))),
                ("Date::from_serial", call(|| Date::from_serial(s))),
                ("from_serial(new().serial_number())", call(|| Date::from_serial(Date::new(d as u32, month(m), y).serial_number()))),
            ];
            if s > MIN {
                built.push(("previous + 1", call(|| Date::from_serial(s - 1) + 1)));
                built.push(("previous += 1", call(|| {
                    let mut p = Date::from_serial(s - 1);
                    p += 1;
                    p
                })));
                built.push(("previous + 1D", call(|| Date::from_serial(s - 1) + per(1, U::D))));
            }
            if s < MAX {
                built.push(("next - 1", call(|| Date::from_serial(s + 1) - 1)));
                built.push(("next -= 1", call(|| {
                    let mut p = Date::from_serial(s + 1);
                    p -= 1;
                    p
                })));
            }
            if let Some(p) = add_months(s, -1).filter(|p| add_months(*p, 1) == Some(s)) {
                built.push(("previous month + 1M", call(|| Date::from_serial(p) + per(1, U::M))));
            }
            if let Some(p) = add_months(s, 12).filter(|p| add_months(*p, -12) == Some(s)) {
                built.push(("next year - 1Y", call(|| Date::from_serial(p) - per(1, U::Y))));
            }
            if is_eom(s) {
                built.push(("end_of_month", call(|| Date::new(1, month(m), y).end_of_month())));
            }
            if s == MIN {
                built.push(("min_date", call(Date::min_date)));
                built.push(("default", call(Date::default)));
            }
            if s == MAX {
                built.push(("max_date", call(Date::max_date)));
            }
            ctx.st(1);
            ctx.tr(built.len() as u64);
            ctx.val(built.len() as u64);
            let reference = call(|| Date::from_serial(s));
            for (how, b) in &built {
                match b {
                    Err(_) => ctx.fail(key(how), "a date", "refused"),
                    Ok(b) => {
                        if let Err(e) = observe(b, s).and_then(|_| observe_text(b, s)) {
                            ctx.fail(key(how), show(s), e);
                        }
                        if let Ok(r) = &reference {
                            if b != r || hash(b) != hash(r) || b.cmp(r).is_ne() || format!("{:?}", b) != format!("{:?}", r) {
                                ctx.fail(key(how), "equal, hashing and printed alike, to the same day built otherwise", "differs");
                            }
                        }
                    }
                }
            }
            // order against other days
            if let Ok(a) = &reference {
                for o in [-36525, -3653, -366, -365, -31, -30, -8, -7, -2, -1, 0, 1, 2, 7, 31, 365, 366, 1461, 36524] {
                    let t = s + o;
                    if !in_range(t as i64) {
                        continue;
                    }
                    order(ctx, a, &dt(t), s, t);
                }
            }
        }
    });
    // all pairs in a window
    let base = ser(2000, 1, 1) - 30;
    ctx.par(420, |i| {
        let a = dt(base + i as i32);
        for j in 0..420 {
            order(ctx, &a, &dt(base + j), base + i as i32, base + j);
        }
    });
    // every triple, also non-existent ones
    ctx.par(2211 - 1890, |i| {
        let y = 1890 + i as i32;
        at(format!("Date::new in year {}", y));
        for m in 1..=12 {
            for d in 0..=33u32 {
                let want = if (1900..2200).contains(&y) && d >= 1 && d as i32 <= mlen(y, m) { Some(ser(y, m, d as i32)) } else { None };
                ctx.tr(1);
                ctx.outcome(if want.is_some() { "triple accepted" } else { "triple refused" }, 1);
                expect(ctx, || format!("Date::new({},{},{})", d, m, y), want, call(|| Date::new(d, month(m), y)));
            }
        }
    });
    for y in [i32::MIN, -1, 0, 22, 99, 122, 1899, 2200, 3000, i32::MAX] {
        expect(ctx, || format!("Date::new(1,1,{})", y), None, call(|| Date::new(1, month(1), y)));
    }
    let mut bad: Vec<i32> = (-5000..MIN).chain(MAX + 1..115001).collect();
    bad.extend([i32::MIN, i32::MIN + 1, -100000, 1 << 20, 1 << 30, i32::MAX - 1, i32::MAX]);
    ctx.par(bad.len().div_ceil(200), |c| {
        for &s in bad.iter().skip(c * 200).take(200) {
            ctx.tr(1);
            expect(ctx, || format!("Date::from_serial({})", s), None, call(|| Date::from_serial(s)));
        }
    });
    ctx.outcome("serial refused", bad.len() as u64);
    for bad_m in [-1, 0, 13, 14, 100] {
        ctx.ok(|| format!("Month::from({})", bad_m), "refused", call(|| Date::new(1, month(bad_m), 2000)).is_err());
    }
    ctx.sample(|| format!("{} has serial {} and is weekday {}", show(40000), 40000, wd(40000)));
    ctx.sample(|| "Date::new(29, February, 2100) is refused".to_string());
}

fn order(ctx: &Ctx, a: &Date, b: &Date, s: i32, t: i32) {
    ctx.tr(1);
    let want = s.cmp(&t);
    let got = (a.cmp(b), a.partial_cmp(b), a == b, a != b, a < b, a <= b, a > b, a >= b);
    let w = (want, Some(want), s == t, s != t, s < t, s <= t, s > t, s >= t);
    if got != w {
        ctx.fail(format!("order of {} and {}", show(s), show(t)), format!("{:?}", w), format!("{:?}", got));
    }
    if s == t && hash(a) != hash(b) {
        ctx.fail(format!("hash of {}", show(s)), "equal hashes", "different hashes");
    }
}

/// all operator forms of one move
fn forms(ctx: &Ctx, s: i32, n: i32, u: U) -> u64 {
    let want = add(s, n as i64, u);
    let wneg = add(s, -(n as i64), u);
    let d = dt(s);
    let p = per(n, u);
    let k = |op: &str| format!("{} {} {}{:?}", show(s), op, n, u);
    macro_rules! chk {
        ($op:expr, $w:expr, $e:expr) => {
            expect(ctx, || k($op), $w, call(|| $e));
        };
    }
    chk!("+", want, d + p);
    chk!("&+&", want, &d + &p);
    chk!("&+", want, &d + p);
    chk!("+=", want, {
        let mut x = d;
        x += p;
        x
    });
    chk!("-", wneg, d - p);
    chk!("&-", wneg, &d - p);
    chk!("-=", wneg, {
        let mut x = d;
        x -= p;
        x
    });
    if u == U::D {
        chk!("+ int", want, d + n);
        chk!("&+ int", want, &d + n);
        chk!("+= int", want, {
            let mut x = d;
            x += n;
            x
        });
        chk!("- int", wneg, d - n);
        chk!("&- int", wneg, &d - n);
        chk!("-= int", wneg, {
            let mut x = d;
            x -= n;
            x
        });
        return 13;
    }
    7
}

pub fn c02(ctx: &Ctx) {
    let mut days: Vec<i32> = (0..=ctx.pick(32, 400)).collect();
    days.extend([59, 60, 61, 89, 90, 91, 92, 180, 181, 364, 365, 366, 730, 731, 1461, 3652]);
    let weeks: Vec<i32> = (0..=ctx.pick(6, 60)).chain([51, 52, 53, 104]).collect();
    let months: Vec<i32> = (0..=ctx.pick(26, 125)).chain([35, 36, 37, 47, 48, 49, 59, 60, 119, 120, 121]).collect();
    let years: Vec<i32> = (0..=ctx.pick(6, 60)).chain([9, 10, 11, 40, 99, 100]).collect();
    ctx.bound(format!("every start date; day offsets {:?}.., weeks up to {}, months up to {}, years up to {}, both signs, all 13 operator forms", days.last(), weeks.iter().max().unwrap(), months.iter().max().unwrap(), years.iter().max().unwrap()));
    let step = ctx.pick(1, 1);
    const CH: i32 = 256;
    ctx.par(((MAX - MIN) / CH + 1) as usize, |c| {
        let lo = MIN + c as i32 * CH;
        for s in (lo..(lo + CH).min(MAX + 1)).step_by(step) {
            at(format!("moves from {}", show(s)));
            let mut n = 0;
            for x in &days {
                n += forms(ctx, s, *x, U::D);
            }
            for x in &weeks {
                n += forms(ctx, s, *x, U::W);
            }
            for x in &months {
                n += forms(ctx, s, *x, U::M) ;
            }
            for x in &years {
                n += forms(ctx, s, *x, U::Y);
            }
            ctx.tr(n);
            ctx.val(n);
            ctx.st(1);
        }
    });
    // negative operands are reached through '-'; check the sign symmetry directly on a subset
    let far = [-109572, -110000, -36525, -3653, -1000, -366, -31, -1, 1, 31, 1000, 36525, 109572, 110000, 200_000, -200_000, 1_000_000, -1_000_000, i32::MAX, i32::MIN + 1];
    let starts: Vec<i32> = (0..400).map(|k| MIN + k * 274 + (k % 3)).chain(MIN..MIN + 800).chain(MAX - 800..=MAX).filter(|s| in_range(*s as i64)).collect();
    ctx.bound(format!("{} start dates (both range ends complete) x far and negative offsets in every unit", starts.len()));
    ctx.par(starts.len(), |i| {
        let s = starts[i];
        at(format!("far moves from {}", show(s)));
        for n in far {
            let mut t = forms(ctx, s, n, U::D);
            if n.abs() < 20_000 {
                t += forms(ctx, s, n, U::W);
                t += forms(ctx, s, n, U::M);
                t += forms(ctx, s, n, U::Y);
            }
            ctx.tr(t);
        }
        for n in -30..0 {
            for u in UNITS {
                ctx.tr(forms(ctx, s, n, u));
            }
        }
        for n in [1199, 1200, 1201, 3599, 3600, -1200, -3599, -3600, 299, 300, -299, -300, 199, 200] {
            ctx.tr(forms(ctx, s, n, U::M) + forms(ctx, s, n, U::Y));
        }
        // differences
        for &t in starts.iter().step_by(3) {
            let (a, b) = (dt(s), dt(t));
            ctx.eq(|| format!("{} - {}", show(t), show(s)), (Ok(t - s), Ok(t - s), Ok((t - s) as f64)), (call(|| b - a), call(|| &b - &a), call(|| Date::days_between(&a, &b))));
            ctx.tr(3);
        }
    });
    // histories of in-place operations
    let ops: Vec<(i32, U, bool)> = vec![
        (1, U::D, true), (-1, U::D, true), (29, U::D, false), (-366, U::D, true), (1, U::W, false), (-3, U::W, false),
        (1, U::M, false), (-1, U::M, false), (11, U::M, false), (-13, U::M, false), (1, U::Y, false), (-4, U::Y, false),
    ];
    let starts = [ser(1900, 1, 1), ser(1900, 2, 28), ser(1904, 2, 29), ser(1999, 12, 31), ser(2000, 2, 29), ser(2100, 2, 28), ser(2199, 12, 30), ser(2199, 12, 31), ser(2023, 3, 31), ser(2023, 1, 30)];
    let depth = ctx.pick(4, 6);
    ctx.bound(format!("all histories of up to {} in-place operations from 12 operations and {} start dates", depth, starts.len()));
    let firsts: Vec<(i32, usize)> = starts.iter().flat_map(|s| (0..ops.len()).map(move |o| (*s, o))).collect();
    ctx.par(firsts.len(), |i| {
        let (s, o) = firsts[i];
        at(format!("in-place histories from {}", show(s)));
        walk(ctx, &ops, dt(s), s, &mut vec![], Some(o), depth, s);
    });
    ctx.sample(|| "2024-01-31 + 1M = 2024-02-29".to_string());
    ctx.sample(|| "2199-12-31 += 1 is refused".to_string());
}

#[allow(clippy::too_many_arguments)]
fn walk(ctx: &Ctx, ops: &[(i32, U, bool)], d: Date, s: i32, hist: &mut Vec<usize>, only: Option<usize>, left: usize, start: i32) {
    if left == 0 {
        ctx.val(1);
        return;
    }
    for (o, (n, u, as_int)) in ops.iter().enumerate() {
        if only.is_some_and(|x| x != o) {
            continue;
        }
        hist.push(o);
        let want = add(s, *n as i64, *u);
        // one in-place object carried through the whole history; += and -= alternate with depth
        let got = call(|| {
            let mut x = d;
            match (as_int, left % 2 == 0) {
                (true, true) => x += *n,
                (true, false) => x -= -*n,
                (false, true) => x += per(*n, *u),
                (false, false) => x -= per(-*n, *u),
            }
            x
        });
        ctx.tr(1);
        let key = || format!("history from {}: {:?}", show(start), hist.iter().map(|h| format!("{:+}{:?}", ops[*h].0, ops[*h].1)).collect::<Vec<_>>());
        expect(ctx, key, want, got);
        if let (Some(t), Ok(x)) = (want, got) {
            if let Err(e) = observe_text(&x, t) {
                ctx.fail(key(), show(t), e);
            }
            ctx.st(1);
            walk(ctx, ops, x, t, hist, None, left - 1, start);
        }
        hist.pop();
    }
}

pub fn c03(ctx: &Ctx) {
    ctx.bound("all days for month ends, all years 1890..2210 for leap years, all (n 0..=7 and large, weekday, month, year 1899..=2200)");
    ctx.par(300, |i| {
        let y = 1900 + i as i32;
        at(format!("year {}", y));
        for s in ser(y, 1, 1)..=ser(y, 12, 31) {
            ctx.st(1);
            ctx.tr(2);
            expect(ctx, || format!("end_of_month({})", show(s)), Some(eom(s)), call(|| dt(s).end_of_month()));
            ctx.eq(|| format!("is_end_of_month({})", show(s)), Ok(is_eom(s)), call(|| dt(s).is_end_of_month()));
        }
        for m in 1..=12 {
            for w in 1..=7 {
                for n in [0usize, 1, 2, 3, 4, 5, 6, 7, 53] {
                    let want = if n == 0 { None } else { nth_weekday(n as i32, w, m, y) };
                    ctx.outcome(if want.is_some() { "nth weekday exists" } else { "nth weekday refused" }, 1);
                    ctx.tr(1);
                    ctx.val(1);
                    expect(ctx, || format!("nth_weekday({},{},{},{})", n, w, m, y), want, call(|| Date::nth_weekday(n, Weekday::from(w), month(m), y)));
                }
            }
        }
    });
    for y in 1900..2200 {
        ctx.eq(|| format!("is_leap({})", y), Ok(leap(y)), call(|| Date::is_leap(y)));
        ctx.tr(1);
    }
    for y in [1899, 2200] {
        expect(ctx, || format!("nth_weekday(1,2,1,{})", y), None, call(|| Date::nth_weekday(1, Weekday::from(2), month(1), y)));
    }
    ctx.sample(|| format!("4th Thursday of March 1998 = {}", show(nth_weekday(4, 5, 3, 1998).unwrap())));
    ctx.sample(|| "5th Monday of February 2023 is refused".into());
}
