//! C04, C05: periods.  Model state = (kind, exact amount): days for D/W, months for M/Y.
use crate::fw::*;
use crate::greg::*;
use rust_quantlib::datetime::frequency::Frequency;
use rust_quantlib::datetime::period::Period;
use rust_quantlib::datetime::timeunit::TimeUnit;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};

/// (is month-like, amount in days or months)
pub fn amount(n: i64, u: U) -> (bool, i64) {
    match u {
        U::D => (false, n),
        U::W => (false, 7 * n),
        U::M => (true, n),
        U::Y => (true, 12 * n),
    }
}
pub fn read(p: &Period) -> Option<(i64, U)> {
    let u = match p.unit {
        TimeUnit::Days => U::D,
        TimeUnit::Weeks => U::W,
        TimeUnit::Months => U::M,
        TimeUnit::Years => U::Y,
        _ => return None,
    };
    Some((p.length as i64, u))
}
pub fn am(p: &Period) -> Option<(bool, i64)> {
    read(p).map(|(n, u)| amount(n, u))
}
pub fn same_amount(a: (bool, i64), b: (bool, i64)) -> bool {
    a == b || (a.1 == 0 && b.1 == 0)
}
pub fn sum(a: (bool, i64), b: (bool, i64)) -> Option<(bool, i64)> {
    if a.1 == 0 {
        Some(b)
    } else if b.1 == 0 {
        Some(a)
    } else if a.0 == b.0 {
        Some((a.0, a.1 + b.1))
    } else {
        None
    }
}
fn expect(ctx: &Ctx, key: impl Fn() -> String, want: Option<(bool, i64)>, got: &Out<Period>) {
    ctx.tr(1);
    match (want, got) {
        (None, Err(_)) => {}
        (Some(w), Ok(p)) if am(p).is_some_and(|g| same_amount(w, g)) => {}
        (w, g) => ctx.fail(key(), format!("{} (month-like, amount) {:?}", if w.is_some() { "period of" } else { "refused" }, w), format!("{:?}", g)),
    }
}
pub fn quotient(n: i64, u: U, k: i64) -> Option<(bool, i64)> {
    if k == 0 {
        return None;
    }
    // exact in the unit itself or in the finer unit it converts to
    let (c, a) = amount(n, u);
    if a % k == 0 { Some((c, a / k)) } else { None }
}

const FREQS: [Frequency; 13] = [
    Frequency::NoFrequency, Frequency::Once, Frequency::Annual, Frequency::Semiannual, Frequency::EveryFourthMonth, Frequency::Quarterly,
    Frequency::Bimonthly, Frequency::Monthly, Frequency::EveryFourthWeek, Frequency::Biweekly, Frequency::Weekly, Frequency::Daily, Frequency::OtherFrequency,
];

fn freq_model(n: i64, u: U) -> Frequency {
    use Frequency::*;
    if n == 0 {
        return if u == U::Y { Once } else { NoFrequency };
    }
    match (u, n) {
        (U::D, 1) => Daily,
        (U::W, 1) => Weekly,
        (U::W, 2) => Biweekly,
        (U::W, 4) => EveryFourthWeek,
        (U::M, 1) => Monthly,
        (U::M, 2) => Bimonthly,
        (U::M, 3) => Quarterly,
        (U::M, 4) => EveryFourthMonth,
        (U::M, 6) => Semiannual,
        (U::M, 12) | (U::Y, 1) => Annual,
        _ => OtherFrequency,
    }
}
fn period_model(f: Frequency) -> Option<(i64, U)> {
    use Frequency::*;
    Some(match f {
        NoFrequency => (0, U::D),
        Once => (0, U::Y),
        Annual => (1, U::Y),
        Semiannual => (6, U::M),
        EveryFourthMonth => (4, U::M),
        Quarterly => (3, U::M),
        Bimonthly => (2, U::M),
        Monthly => (1, U::M),
        EveryFourthWeek => (4, U::W),
        Biweekly => (2, U::W),
        Weekly => (1, U::W),
        Daily => (1, U::D),
        OtherFrequency => return None,
    })
}

pub fn c04(ctx: &Ctx) {
    let w = ctx.pick(45, 160);
    ctx.bound(format!("all pairs of periods with lengths -{0}..={0} and units D/W/M/Y; all factors and divisors -{0}..={0}", w));
    let all: Vec<(i32, U)> = (-w..=w).flat_map(|n| UNITS.map(|u| (n, u))).collect();
    let starts: Vec<i32> = vec![ser(2000, 2, 29), ser(2023, 1, 31), ser(1999, 12, 31), ser(2050, 6, 15), ser(2100, 2, 28)];
    ctx.par(all.len(), |i| {
        let (n, u) = all[i];
        let p = per(n, u);
        let a = amount(n as i64, u);
        at(format!("period {:?}", p));
        ctx.st(1);
        for &(m, v) in &all {
            let q = per(m, v);
            let b = amount(m as i64, v);
            let plus = call(|| {
                let mut x = p;
                x += q;
                x
            });
            expect(ctx, || format!("{:?} += {:?}", p, q), sum(a, b), &plus);
            let minus = call(|| {
                let mut x = p;
                x -= q;
                x
            });
            expect(ctx, || format!("{:?} -= {:?}", p, q), sum(a, (b.0, -b.1)), &minus);
            // moving by p then q equals moving by p+q where steps are whole days
            if let (Ok(s), false, false) = (&plus, a.0, b.0) {
                for &d in starts.iter().take(2) {
                    let one = call(|| dt(d) + p + q);
                    let both = call(|| dt(d) + *s);
                    ctx.tr(1);
                    ctx.eq(|| format!("{} moved by {:?} then {:?}", show(d), p, q), one, both);
                }
            }
        }
        expect(ctx, || format!("-{:?}", p), Some((a.0, -a.1)), &call(|| -p));
        for k in -w..=w {
            expect(ctx, || format!("{:?} * {}", p, k), Some((a.0, a.1 * k as i64)), &call(|| p * k));
            let want = quotient(n as i64, u, k as i64);
            expect(ctx, || format!("{:?} / {}", p, k), want, &call(|| p / k));
            expect(
                ctx,
                || format!("{:?} /= {}", p, k),
                want,
                &call(|| {
                    let mut x = p;
                    x /= k;
                    x
                }),
            );
            // halving keeps the unit when it can
            if let (Some(_), Ok(q)) = (want, call(|| p / k)) {
                if n != 0 && n % k == 0 {
                    ctx.eq(|| format!("unit of {:?} / {}", p, k), Some((n as i64 / k as i64, u)), read(&q));
                }
            }
        }
        // conversions
        let conv = [
            ("years", if a.0 || n == 0 { Some(a.1 as f64 / 12.0) } else { None }, call(|| p.years())),
            ("months", if a.0 || n == 0 { Some(a.1 as f64) } else { None }, call(|| p.months())),
            ("weeks", if !a.0 || n == 0 { Some(a.1 as f64 / 7.0) } else { None }, call(|| p.weeks())),
            ("days", if !a.0 || n == 0 { Some(a.1 as f64) } else { None }, call(|| p.days())),
        ];
        for (name, want, got) in conv {
            ctx.tr(1);
            let good = match (want, &got) {
                (None, Err(_)) => true,
                (Some(x), Ok(y)) => feq(x, *y, 1e-14),
                _ => false,
            };
            ctx.ok(|| format!("{:?}.{}()", p, name), &format!("{:?}", want), good);
        }
        // normalisation
        let norm = call(|| p.normalised());
        expect(ctx, || format!("{:?}.normalised()", p), Some(a), &norm);
        let inplace = call(|| {
            let mut x = p;
            x.normalise();
            x
        });
        expect(ctx, || format!("{:?}.normalise()", p), Some(a), &inplace);
        if let (Ok(x), Ok(y)) = (norm, inplace) {
            let canon = if a.1 == 0 {
                (0, U::D)
            } else if a.0 {
                if a.1 % 12 == 0 { (a.1 / 12, U::Y) } else { (a.1, U::M) }
            } else if a.1 % 7 == 0 {
                (a.1 / 7, U::W)
            } else {
                (a.1, U::D)
            };
            ctx.eq(|| format!("representation of {:?}.normalised()", p), (Some(canon), Some(canon)), (read(&x), read(&y)));
            for &d in &starts {
                ctx.tr(1);
                ctx.eq(|| format!("{} moved by {:?} and by its normal form", show(d), p), call(|| dt(d) + p), call(|| dt(d) + x));
            }
        }
        if n >= 0 {
            let want = freq_model(n as i64, u);
            let got = call(|| p.frequency());
            ctx.eq(|| format!("{:?}.frequency()", p), Ok(want), got);
            ctx.outcome(&format!("frequency {:?}", want), 1);
            if let Some((m, v)) = period_model(want) {
                let back = call(|| Period::from(want));
                expect(ctx, || format!("Period::from({:?}.frequency())", p), Some(amount(m, v)), &back);
                if want != Frequency::OtherFrequency {
                    ctx.ok(|| format!("frequency of {:?} and back", p), "the same amount of time", same_amount(a, amount(m, v)));
                }
            }
        }
    });
    for f in FREQS {
        let got = call(|| Period::from(f));
        match period_model(f) {
            None => {
                ctx.ok(|| format!("Period::from({:?})", f), "refused", got.is_err());
            }
            Some((n, u)) => {
                expect(ctx, || format!("Period::from({:?})", f), Some(amount(n, u)), &got);
                ctx.eq(|| format!("Period::from({:?}).frequency()", f), Ok(f), call(|| Period::from(f).frequency()));
            }
        }
        ctx.tr(2);
    }
    // histories: breadth-first over operation sequences, states merged on the represented period
    let depth = ctx.pick(4, 6);
    let ops: Vec<(String, Op)> = {
        let mut v: Vec<(String, Op)> = vec![];
        for (n, u) in [(1, U::D), (3, U::W), (1, U::M), (2, U::Y), (-5, U::D), (0, U::Y)] {
            v.push((format!("+= {:?}", per(n, u)), Op::Add(n, u)));
            v.push((format!("-= {:?}", per(n, u)), Op::Sub(n, u)));
        }
        for k in [2, -3, 0] {
            v.push((format!("* {}", k), Op::Mul(k)));
            v.push((format!("/ {}", k), Op::Div(k)));
        }
        v.push(("neg".into(), Op::Neg));
        v.push(("normalise".into(), Op::Norm));
        v
    };
    ctx.bound(format!("all operation sequences up to {} over {} operations from 6 initial periods (states merged on length and unit)", depth, ops.len()));
    let mut seen: HashSet<(i64, U)> = HashSet::new();
    let mut frontier: Vec<(Period, (bool, i64), String)> = vec![];
    for (n, u) in [(0, U::D), (6, U::D), (2, U::W), (18, U::M), (1, U::Y), (0, U::Y)] {
        seen.insert((n as i64, u));
        frontier.push((per(n, u), amount(n as i64, u), format!("{:?}", per(n, u))));
    }
    for _ in 0..depth {
        let mut next = vec![];
        for (p, a, h) in &frontier {
            for (name, op) in &ops {
                let (n, u) = read(p).unwrap();
                let want = match *op {
                    Op::Add(m, v) => sum(*a, amount(m as i64, v)),
                    Op::Sub(m, v) => sum(*a, amount(-m as i64, v)),
                    Op::Mul(k) => Some((a.0, a.1 * k as i64)),
                    Op::Div(k) => quotient(n, u, k as i64),
                    Op::Neg => Some((a.0, -a.1)),
                    Op::Norm => Some(*a),
                };
                let got = call(|| {
                    let mut x = *p;
                    match *op {
                        Op::Add(m, v) => x += per(m, v),
                        Op::Sub(m, v) => x -= per(m, v),
                        Op::Mul(k) => x = x * k,
                        Op::Div(k) => x /= k,
                        Op::Neg => x = -x,
                        Op::Norm => x.normalise(),
                    }
                    x
                });
                expect(ctx, || format!("history {} {}", h, name), want, &got);
                ctx.val(1);
                if let (Some(w), Ok(q)) = (want, got) {
                    let Some(k) = read(&q) else { continue };
                    if k.0.abs() < 2000 && same_amount(w, amount(k.0, k.1)) && seen.insert(k) {
                        ctx.st(1);
                        next.push((q, amount(k.0, k.1), format!("{} {}", h, name)));
                    }
                }
            }
        }
        frontier = next;
    }
    ctx.sample(|| "1Y += 6M -> 18 months; 1Y += 7D refused; 1Y / 4 -> 3M; 1M / 2 refused".into());
}

enum Op {
    Add(i32, U),
    Sub(i32, U),
    Mul(i32),
    Div(i32),
    Neg,
    Norm,
}

/// smallest and largest number of days a period can denote (28..31 per month, 365..366 per year)
fn range(n: i64, u: U) -> (i64, i64) {
    let (a, b) = match u {
        U::D => (n, n),
        U::W => (7 * n, 7 * n),
        U::M => (28 * n, 31 * n),
        U::Y => (365 * n, 366 * n),
    };
    (a.min(b), a.max(b))
}
fn cmp_model(a: (i32, U), b: (i32, U)) -> Option<Ordering> {
    let (n, m) = (a.0 as i64, b.0 as i64);
    if n == 0 || m == 0 {
        return Some(n.cmp(&m));
    }
    let (x, y) = (amount(n, a.1), amount(m, b.1));
    if x.0 == y.0 {
        return Some(x.1.cmp(&y.1));
    }
    let (p, q) = (range(n, a.1), range(m, b.1));
    if p.1 < q.0 {
        Some(Ordering::Less)
    } else if p.0 > q.1 {
        Some(Ordering::Greater)
    } else {
        None
    }
}
fn hash(p: &Period) -> u64 {
    let mut h = DefaultHasher::new();
    p.hash(&mut h);
    h.finish()
}

pub fn c05(ctx: &Ctx) {
    let w = ctx.pick(70, 400);
    let mut all: Vec<(i32, U)> = (-w..=w).flat_map(|n| UNITS.map(|u| (n, u))).collect();
    for n in [336, 337, 364, 365, 366, 367, 372, 373, 728, 730, 731, 732, 733, 1461, 3650, 3660, 3661] {
        for s in [-1, 1] {
            all.push((n * s, U::D));
        }
    }
    ctx.bound(format!("all ordered pairs of {} periods: lengths -{}..={} in D/W/M/Y plus day counts around whole years", all.len(), w, w));
    ctx.par(all.len(), |i| {
        let a = all[i];
        let p = per(a.0, a.1);
        at(format!("period {:?}", p));
        ctx.st(1);
        let mut counts = [0u64; 4];
        for &b in &all {
            let q = per(b.0, b.1);
            let want = cmp_model(a, b);
            let eq = want == Some(Ordering::Equal);
            let got = call(|| (p.partial_cmp(&q), p < q, p <= q, p > q, p >= q, p == q, p != q));
            let lt = want == Some(Ordering::Less);
            let gt = want == Some(Ordering::Greater);
            ctx.tr(1);
            ctx.val(1);
            counts[match want {
                None => 0,
                Some(Ordering::Less) => 1,
                Some(Ordering::Equal) => 2,
                _ => 3,
            }] += 1;
            ctx.eq(|| format!("{:?} against {:?} (cmp,<,<=,>,>=,==,!=)", p, q), Ok((want, lt, lt || eq, gt, gt || eq, eq, !eq)), got);
            if eq {
                ctx.ok(|| format!("hashes of {:?} and {:?}", p, q), "equal hashes", call(|| hash(&p) == hash(&q)) == Ok(true));
            }
        }
        for (k, n) in ["undecidable", "less", "equal", "greater"].iter().zip(counts) {
            ctx.outcome(k, n);
        }
        let (lo, hi) = match a.1 {
            U::D => (a.0, a.0),
            U::W => (7 * a.0, 7 * a.0),
            U::M => (28 * a.0, 31 * a.0),
            U::Y => (365 * a.0, 366 * a.0),
        };
        if a.0 >= 0 {
            ctx.eq(|| format!("{:?}.days_min_max()", p), Ok((lo, hi)), call(|| p.days_min_max()));
        }
    });
    // coherence of the implementation's own relation, without the model: triples
    let t = ctx.pick(8, 14);
    let small: Vec<Period> = (-t..=t).flat_map(|n| UNITS.map(|u| per(n, u))).collect();
    ctx.bound(format!("all triples of periods with lengths -{}..={}: equality is an equivalence and never contradicts the order", t, t));
    ctx.par(small.len(), |i| {
        let p = &small[i];
        at(format!("triples of {:?}", p));
        for q in &small {
            for r in &small {
                ctx.tr(1);
                let (pq, qr, pr) = match (call(|| p.partial_cmp(q)), call(|| q.partial_cmp(r)), call(|| p.partial_cmp(r))) {
                    (Ok(a), Ok(b), Ok(c)) => (a, b, c),
                    _ => {
                        ctx.fail(format!("comparing {:?}, {:?}, {:?}", p, q, r), "an answer", "refused");
                        continue;
                    }
                };
                let key = || format!("{:?}, {:?}, {:?}", p, q, r);
                if pq == Some(Ordering::Equal) && qr == Some(Ordering::Equal) {
                    ctx.ok(key, "equality is transitive", pr == Some(Ordering::Equal) && p == r);
                }
                if pq == Some(Ordering::Less) && qr == Some(Ordering::Less) {
                    ctx.ok(key, "no cycle: p<q<r is never followed by r<=p", pr != Some(Ordering::Greater) && pr != Some(Ordering::Equal));
                }
            }
            ctx.ok(|| format!("{:?} and {:?} both ways", p, q), "antisymmetric", call(|| p.partial_cmp(q)) == call(|| q.partial_cmp(p).map(Ordering::reverse)));
        }
    });
    // equal periods are one key of a hash map
    let mut m: HashMap<Period, i32> = HashMap::new();
    for (n, u) in [(7, U::D), (1, U::W), (12, U::M), (1, U::Y), (0, U::D), (0, U::Y), (14, U::D), (2, U::W)] {
        *m.entry(per(n, u)).or_insert(0) += 1;
    }
    ctx.eq(|| "distinct keys among 7D,1W,12M,1Y,0D,0Y,14D,2W".into(), 4, m.len());
    ctx.sample(|| "1M against 30D: neither less, greater nor equal; 1W == 7D and hashes alike".into());
}
