//! C12-C15: schedules.  State = a point of the product of schedule parameters (C12-C14) or a schedule
//! reached by truncations (C15); transition = construction or truncation.
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::calendar::Calendar;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::schedule::{previous_twentieth, Schedule};
use rust_quantlib::datetime::schedulebuilder::ScheduleBuilder;
use rust_quantlib::instruments::creditdefaultswap::cds_maturity;
use std::collections::BTreeMap;

/// start dates with something special about them
pub fn starts() -> Vec<i32> {
    let mut v: Vec<i32> = [
        (2023, 2, 27), (2023, 2, 28), (2024, 2, 28), (2024, 2, 29), (2023, 3, 31), (2024, 3, 28), (2024, 3, 29), (2023, 4, 28), (2023, 4, 30), (2023, 8, 30), (2023, 8, 31),
        (2022, 12, 30), (2022, 12, 31), (2023, 1, 1), (2023, 1, 15), (2023, 1, 18), (2023, 3, 15), (2023, 3, 19), (2023, 3, 20), (2023, 3, 21), (2022, 5, 19), (2022, 5, 20), (2022, 5, 21),
        (2022, 8, 20), (2022, 9, 20), (2022, 11, 20), (2022, 11, 21), (2022, 12, 20), (2023, 6, 17), (2023, 7, 16), (2015, 12, 19), (2015, 12, 20), (2016, 4, 30), (2023, 9, 29), (2023, 9, 30),
    ]
    .iter()
    .map(|(y, m, d)| ser(*y, *m, *d))
    .collect();
    v.dedup();
    v
}
/// lengths of the whole schedule
const SPANS: [(i32, U, i32); 16] = [
    (1, U::D, 0), (4, U::D, 0), (7, U::D, 0), (29, U::D, 0), (1, U::M, 0), (1, U::M, 1), (2, U::M, 3), (3, U::M, 0), (3, U::M, -1), (6, U::M, 0), (11, U::M, 10), (1, U::Y, 0), (13, U::M, 0), (18, U::M, 15),
    (3, U::Y, -1), (5, U::Y, 0),
];
fn span(s: i32, k: usize) -> i32 {
    let (n, u, d) = SPANS[k];
    add(s, n as i64, u).unwrap() + d
}
const TENORS: [(i32, U); 14] = [
    (0, U::D), (0, U::M), (0, U::Y), (1, U::W), (2, U::W), (4, U::W), (30, U::D), (1, U::M), (2, U::M), (3, U::M), (5, U::M), (6, U::M), (1, U::Y), (2, U::Y),
];
pub const MK4: [Mk; 4] = [Nil, Target, UsGovBond, Mk::Japan];

pub struct Cals(BTreeMap<usize, (Calendar, Cal)>);
impl Cals {
    pub fn new() -> Cals {
        Cals(MARKETS.iter().enumerate().map(|(i, mk)| (i, (mk.make(), Cal::new(*mk)))).collect())
    }
    pub fn get(&self, mk: Mk) -> &(Calendar, Cal) {
        &self.0[&MARKETS.iter().position(|m| *m == mk).unwrap()]
    }
}

fn compare(ctx: &Ctx, sp: &Spec, cals: &Cals) -> Option<Sched> {
    let (c, m) = cals.get(sp.mk);
    let want = model(sp, m);
    let built = call(|| sp.make_with(c));
    if let Ok(s) = &built {
        // what the schedule says of itself
        let zero = sp.n == 0 || sp.rule == R::Zero;
        let (n, u) = if zero { (0, U::Y) } else { (sp.n, sp.u) };
        let eom = sp.eom && matches!(sp.u, U::M | U::Y) && sp.n >= 1;
        let t = s.tenor();
        if (t.length, t.unit, s.end_of_month(), s.business_day_convention()) != (n, u.tu(), eom, sp.conv) {
            ctx.fail(sp.key(), format!("attributes {}{:?} eom={} {:?}", n, u, eom, sp.conv), format!("{}{:?} eom={} {:?}", t.length, t.unit, s.end_of_month(), s.business_day_convention()));
        }
    }
    let got = built.and_then(|s| call(|| observe(&s)));
    match (&want, &got) {
        (None, Err(_)) => {}
        (Some(w), Ok(g)) if w == g => {}
        _ => ctx.fail(
            sp.key(),
            want.as_ref().map(show_sched).unwrap_or("refused".into()),
            got.as_ref().map(show_sched).unwrap_or("refused".into()),
        ),
    }
    got.ok()
}

/// the parameter space shared by C12 and C13, visited by `f`; returns the number of points
fn space(ctx: &Ctx, f: impl Fn(&Spec, &Cals) + Sync) {
    let st = starts();
    let pairs: Vec<(B, B)> = CONV.iter().flat_map(|a| CONV.iter().map(move |b| (*a, *b))).collect();
    let some: Vec<(B, B)> = vec![
        (B::Unadjusted, B::Unadjusted), (B::Following, B::Following), (B::ModifiedFollowing, B::Unadjusted), (B::Following, B::Preceding), (B::Preceding, B::ModifiedFollowing),
        (B::Unadjusted, B::Following), (B::Nearest, B::HalfMonthModifiedFollowing), (B::ModifiedPreceding, B::Nearest),
    ];
    let spans: Vec<usize> = if ctx.thorough() { (0..SPANS.len()).collect() } else { vec![0, 2, 4, 5, 6, 9, 10, 12, 13] };
    ctx.bound(format!(
        "A: {} special start dates x {} spans x {} tenors x 10 rules x eom x {} convention pairs x {} calendars",
        st.len(), spans.len(), TENORS.len(), if ctx.thorough() { 49 } else { 8 }, ctx.pick(3, 4)
    ));
    let mks: &[Mk] = if ctx.thorough() { &MK4 } else { &MK4[..3] };
    // A: the product
    ctx.par(st.len() * spans.len(), |i| {
        let cals = Cals::new();
        let (eff, k) = (st[i / spans.len()], spans[i % spans.len()]);
        let term = span(eff, k);
        at(format!("schedules from {} to {}", show(eff), show(term)));
        let mut n = 0;
        for (tn, tu) in TENORS {
            for rule in RULES {
                for eom in [false, true] {
                    for mk in mks {
                        for (c, t) in if ctx.thorough() { &pairs } else { &some } {
                            if ctx.stopped() {
                                return;
                            }
                            let sp = Spec { conv: *c, tconv: *t, eom, rule, ..Spec::new(eff, term, tn, tu, *mk) };
                            f(&sp, &cals);
                            n += 1;
                        }
                    }
                }
            }
        }
        ctx.st(n);
    });
    // B: explicit first and next-to-last dates
    let st2: Vec<i32> = if ctx.thorough() { st.clone() } else { st.iter().cloned().step_by(3).collect() };
    ctx.bound(format!("B: {} starts x 5 spans x 7 tenors x Backward/Forward/ThirdWednesday/Twentieth x eom x 6 convention pairs x 2 calendars x first x next-to-last dates (null, ends, inside, outside, regular, adjacent)", st2.len()));
    ctx.par(st2.len() * 5, |i| {
        let cals = Cals::new();
        let (eff, k) = (st2[i / 5], [3, 6, 9, 11, 13][i % 5]);
        let term = span(eff, k);
        at(format!("stubs {} to {}", show(eff), show(term)));
        let mut firsts = vec![NULL, eff - 1, eff, eff + 1, eff + 16, term - 1, term, term + 1];
        let mut ntls = vec![NULL, eff - 1, eff, eff + 1, term - 16, term - 1, term, term + 1];
        for (n, u) in [(1, U::W), (1, U::M), (3, U::M), (40, U::D)] {
            firsts.extend(add(eff, n, u));
            ntls.extend(add(term, -n, u));
        }
        firsts.push(third_wed(add(eff, 1, U::M).unwrap()));
        ntls.push(third_wed(add(term, -1, U::M).unwrap()));
        let mut n = 0;
        for rule in [R::Backward, R::Forward, R::ThirdWednesday, R::Twentieth] {
                for (tn, tu) in [(0, U::M), (1, U::W), (30, U::D), (1, U::M), (3, U::M), (6, U::M), (1, U::Y)] {
                for eom in [false, true] {
                    if rule == R::Twentieth && (tn != 3 || eom) {
                        continue;
                    }
                    for mk in [Nil, Target] {
                        for (c, t) in &some[..6] {
                            for first in &firsts {
                                for ntl in &ntls {
                                    if ctx.stopped() {
                                        return;
                                    }
                                    let sp = Spec { conv: *c, tconv: *t, eom, rule, first: *first, ntl: *ntl, ..Spec::new(eff, term, tn, tu, mk) };
                                    f(&sp, &cals);
                                    n += 1;
                                }
                            }
                        }
                    }
                }
            }
        }
        ctx.st(n);
    });
    // E: long schedules and unusual tenors
    let far = [(10, U::Y), (31, U::Y), (50, U::Y)];
    let st3 = [ser(2023, 1, 31), ser(2024, 2, 29), ser(2023, 3, 20), ser(2022, 12, 15), ser(1999, 8, 30), ser(2089, 2, 28)];
    ctx.bound("E: 6 starts x 10, 31 and 50 years (and 3 days) x 8 tenors (1M..3Y), and 6 starts x 4 spans x tenors 4M, 7M, 9M, 18M, 10D, 3W, 6W, 45D x 10 rules x eom x 3 convention pairs x 2 calendars");
    ctx.par(st3.len() * 7, |i| {
        let cals = Cals::new();
        let eff = st3[i / 7];
        let (term, tenors) = if i % 7 < 3 {
            let (n, u) = far[i % 7];
            (add(eff, n, u).unwrap() + [0, 3, -1][(i / 7) % 3], vec![(1, U::M), (2, U::M), (3, U::M), (4, U::M), (6, U::M), (1, U::Y), (18, U::M), (3, U::Y)])
        } else {
            (span(eff, [9, 11, 13, 14][i % 7 - 3]), vec![(4, U::M), (7, U::M), (9, U::M), (18, U::M), (10, U::D), (3, U::W), (6, U::W), (45, U::D)])
        };
        at(format!("long schedules {} to {}", show(eff), show(term)));
        let mut n = 0;
        for (k, (tn, tu)) in tenors.into_iter().enumerate() {
            for rule in RULES {
                for eom in [false, true] {
                    for mk in [Target, UsGovBond] {
                        for (c, t) in [some[(k + 1) % 8], some[(k + 4) % 8], some[2]] {
                            if ctx.stopped() {
                                return;
                            }
                            f(&Spec { conv: c, tconv: t, eom, rule, ..Spec::new(eff, term, tn, tu, mk) }, &cals);
                            n += 1;
                        }
                    }
                }
            }
        }
        ctx.st(n);
    });
    // F: schedules of hundreds and thousands of periods
    let all = [
        (ser(1901, 2, 28), ser(2191, 2, 28), 1, U::M), (ser(1950, 1, 31), ser(2101, 3, 3), 1, U::M), (ser(2000, 1, 3), ser(2061, 1, 3), 1, U::W), (ser(1990, 5, 31), ser(2190, 5, 30), 6, U::M),
        (ser(1910, 12, 20), ser(2195, 12, 20), 1, U::Y), (ser(2020, 2, 29), ser(2130, 2, 28), 3, U::M), (ser(2019, 6, 3), ser(2023, 6, 5), 1, U::D), (ser(2001, 9, 10), ser(2055, 3, 20), 2, U::W),
    ];
    ctx.bound("F: 8 spans of 4 to 290 years cut into up to 3,480 periods x 10 rules x eom x 2 conventions x 2 calendars x with or without first and next-to-last dates");
    ctx.par(all.len() * RULES.len(), |i| {
        let cals = Cals::new();
        let ((eff, term, tn, tu), rule) = (all[i / RULES.len()], RULES[i % RULES.len()]);
        at(format!("very long schedules {} to {}", show(eff), show(term)));
        for eom in [false, true] {
            for mk in [Nil, Target] {
                for c in [B::Unadjusted, B::ModifiedFollowing] {
                    for (first, ntl) in [(NULL, NULL), (eff + 9, NULL), (NULL, term - 40), (eff + 60, term - 3)] {
                        if first + ntl != 0 && !matches!(rule, R::Backward | R::Forward) {
                            continue;
                        }
                        f(&Spec { eom, rule, first, ntl, ..Spec::new(eff, term, tn, tu, mk).conv(c) }, &cals);
                        ctx.st(1);
                    }
                }
            }
        }
    });
    // C: every start of two years
    let (a, b) = (ser(2023, 1, 1), ser(2024, 12, 31));
    ctx.bound("C: every start date of 2023-2024 x 4 spans x 4 tenors x 10 rules x eom x 3 conventions on TARGET");
    ctx.par(104, |w| {
        let cals = Cals::new();
        let mut n = 0;
        for eff in a + w as i32 * 7..(a + w as i32 * 7 + 7).min(b + 1) {
            at(format!("schedules from {}", show(eff)));
            for k in ctx.pick(vec![6, 13], vec![4, 6, 11, 13]) {
                for (tn, tu) in [(1, U::M), (3, U::M), (6, U::M), (2, U::W)] {
                    for rule in RULES {
                        for eom in [false, true] {
                            for c in [B::Unadjusted, B::ModifiedFollowing, B::Preceding] {
                                if ctx.stopped() {
                                    return;
                                }
                                f(&Spec { eom, rule, ..Spec::new(eff, span(eff, k), tn, tu, Target).conv(c) }, &cals);
                                n += 1;
                            }
                        }
                    }
                }
            }
        }
        ctx.st(n);
    });
    // D: daily tenors over long weekends, dense ends
    ctx.bound("D: tenors 1D..5D from and to every day of a 25-day window around Easter and around New Year, 4 rules x 49 convention pairs x 2 calendars");
    ctx.par(4 * 22, |i| {
        let cals = Cals::new();
        let base = [ser(2024, 3, 22), ser(2023, 12, 22), ser(2022, 4, 12), ser(2024, 4, 25)][i / 22];
        let eff = base + (i % 22) as i32;
        at(format!("daily schedules from {}", show(eff)));
        let mut n = 0;
        for len in ctx.pick(vec![1, 2, 3, 5, 8, 11], vec![1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13]) {
            for tn in [1, 2, 3, 5] {
                for rule in [R::Backward, R::Forward, R::Zero, R::Twentieth] {
                    for mk in [Target, Mk::Japan] {
                        for (c, t) in &pairs {
                            if ctx.stopped() {
                                return;
                            }
                            f(&Spec { conv: *c, tconv: *t, rule, ..Spec::new(eff, eff + len, tn, U::D, mk) }, &cals);
                            n += 1;
                        }
                    }
                }
            }
        }
        ctx.st(n);
    });
}

pub fn c12(ctx: &Ctx) {
    space(ctx, |sp, cals| {
        let r = compare(ctx, sp, cals);
        ctx.tr(1);
        ctx.val(1);
        if sp.eff % 16 == 0 {
            match r {
                None => ctx.outcome("refused", 1),
                Some(s) => ctx.outcome(if s.reg.iter().all(|x| *x) { "all regular" } else { "with stub" }, 1),
            }
        }
    });
    // omitted effective dates
    ctx.bound("backward schedules without effective date: 60 evaluation dates x 20 terminations x tenors x next-to-last dates");
    ctx.par(60, |i| {
        let cals = Cals::new();
        let eval = ser(2022, 1, 1) + 23 * i as i32;
        at(format!("no effective date, evaluation {}", show(eval)));
        for j in 0..20 {
            let term = eval + [-40, -1, 0, 1, 2, 29, 31, 90, 180, 364, 365, 366, 367, 500, 730, 731, 732, 1000, 1500, 4000][j];
            for (tn, tu) in [(0, U::M), (1, U::W), (1, U::M), (3, U::M), (6, U::M), (1, U::Y)] {
                for ntl in [NULL, term - 1, term - 31, term - 366, eval, eval + 1, eval - 1] {
                    for (rule, eom) in [(R::Backward, false), (R::Backward, true), (R::Forward, false), (R::CDS, false)] {
                        for first in [NULL, eval] {
                            let sp = Spec { eval, rule, eom, ntl, first, ..Spec::new(NULL, term, tn, tu, Target).conv(B::ModifiedFollowing) };
                            compare(ctx, &sp, &cals);
                            ctx.tr(1);
                            ctx.st(1);
                        }
                    }
                }
            }
        }
    });
    ctx.sample(|| {
        let sp = Spec { eom: true, ..Spec::new(ser(2023, 8, 31), ser(2024, 11, 15), 6, U::M, Target) };
        format!("{} -> {}", sp.key(), show_sched(&model(&sp, &Cal::new(Target)).unwrap()))
    });
}

pub fn c13(ctx: &Ctx) {
    space(ctx, |sp, cals| {
        let (c, m) = cals.get(sp.mk);
        let key = |w: &str| format!("{}: {}", sp.key(), w);
        ctx.tr(1);
        let Ok(s) = call(|| sp.make_with(c)) else {
            return;
        };
        ctx.val(1);
        ctx.ok(|| key("inconsistent inputs"), "refused", consistent(sp).is_some());
        let d = sers(&s.dates());
        let n = d.len();
        ctx.ok(|| key("at least two dates"), "n >= 2", n >= 2 && s.size() == n && !s.empty());
        ctx.ok(|| key(&format!("increasing: {}", d.iter().map(|x| show(*x)).collect::<Vec<_>>().join(" "))), "strictly increasing", d.windows(2).all(|w| w[0] < w[1]));
        ctx.ok(|| key("one flag per period"), "flags 1..n-1 only", s.has_is_regular() && (1..n).all(|i| call(|| s.is_regular(i)).is_ok()));
        if sp.eff % 8 == 0 {
            ctx.ok(|| key("no flag outside"), "refused", call(|| s.is_regular(n)).is_err() && call(|| s.is_regular(0)).is_err());
        }
        ctx.eq(|| key("first and last"), (d[0], d[n - 1], d[0], d[n - 1]), (s.start_date().serial_number(), s.end_date().serial_number(), s[0].serial_number(), s[n - 1].serial_number()));
        if sp.conv != B::Unadjusted {
            ctx.ok(|| key("business days"), "intermediate dates are business days", d[1..n - 1].iter().all(|x| m.bd(*x)));
        }
        let eom_rule = sp.eom && matches!(sp.u, U::M | U::Y) && sp.n >= 1;
        let free = matches!(s_rule(sp), R::Backward | R::Forward | R::Zero | R::ThirdWednesday) && !(eom_rule && s_rule(sp) != R::Zero);
        if free {
            ctx.eq(|| key("ends"), (m.adjust(sp.eff, sp.conv), m.adjust(sp.term, sp.tconv)), (Some(d[0]), Some(d[n - 1])));
        }
        ctx.eq(|| key("settings"), (sp.conv, eom_rule), (s.business_day_convention(), s.end_of_month()));
    });
    fn s_rule(sp: &Spec) -> R {
        if sp.n == 0 { R::Zero } else { sp.rule }
    }
    builder(ctx);
    refusals(ctx);
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Set {
    Conv(B),
    Term(B),
    Rule(R),
    Fwd,
    Bwd,
    Eom(bool),
    First(i32),
    Ntl(i32),
}
fn apply(b: ScheduleBuilder, s: Set) -> ScheduleBuilder {
    match s {
        Set::Conv(c) => b.with_convention(c),
        Set::Term(c) => b.with_termination_convention(c),
        Set::Rule(r) => b.with_rule(r),
        Set::Fwd => b.forwards(),
        Set::Bwd => b.backwards(),
        Set::Eom(e) => b.with_end_of_month(e),
        Set::First(d) => b.with_first_date(dt(d)),
        Set::Ntl(d) => b.with_next_to_last_date(dt(d)),
    }
}
/// all setter sequences: the result is the one of Schedule::new with the last value given for each option
fn builder(ctx: &Ctx) {
    let (eff, term) = (ser(2023, 1, 28), ser(2024, 11, 30));
    let ops = [
        Set::Conv(B::Preceding), Set::Conv(B::ModifiedFollowing), Set::Term(B::Unadjusted), Set::Term(B::Preceding), Set::Rule(R::Zero), Set::Rule(R::Forward), Set::Fwd, Set::Bwd, Set::Eom(true), Set::Eom(false),
        Set::First(ser(2023, 3, 31)), Set::Ntl(ser(2024, 10, 5)),
    ];
    let depth = ctx.pick(4, 5);
    ctx.bound(format!("builder: all {}-step sequences over 12 setter calls (including repetitions), 3 evaluation dates", depth));
    let m = Cal::new(Target);
    let evals = [ser(2020, 1, 1), ser(2023, 6, 6), ser(2030, 1, 1)];
    let total = (0..=depth).map(|d| ops.len().pow(d as u32)).sum::<usize>();
    ctx.par(ops.len() * ops.len(), |i| {
        let mut stack = vec![vec![ops[i / ops.len()], ops[i % ops.len()]]];
        if i == 0 {
            stack.push(vec![]);
            stack.extend(ops.iter().map(|o| vec![*o]));
        }
        while let Some(seq) = stack.pop() {
            if ctx.stopped() {
                return;
            }
            let (mut c, mut t, mut r, mut e, mut f, mut n) = (None, None, R::Backward, false, NULL, NULL);
            for s in &seq {
                match s {
                    Set::Conv(x) => c = Some(*x),
                    Set::Term(x) => t = Some(*x),
                    Set::Rule(x) => r = *x,
                    Set::Fwd => r = R::Forward,
                    Set::Bwd => r = R::Backward,
                    Set::Eom(x) => e = *x,
                    Set::First(x) => f = *x,
                    Set::Ntl(x) => n = *x,
                }
            }
            let conv = c.unwrap_or(B::Following);
            let eval = evals[seq.len() % 3];
            let sp = Spec { conv, tconv: t.unwrap_or(conv), rule: r, eom: e, first: f, ntl: n, eval, ..Spec::new(eff, term, 6, U::M, Target) };
            let got = call(|| {
                let mut b = ScheduleBuilder::new(PricingContext::new(dt(eval)), dt(eff), dt(term), per(6, U::M), Mk::Target.make());
                for s in &seq {
                    b = apply(b, *s);
                }
                observe(&b.build())
            });
            ctx.eq(|| format!("builder {:?}", seq), model(&sp, &m), got.ok());
            ctx.tr(1);
            ctx.st(1);
            ctx.val(1);
            if seq.len() >= 2 && seq.len() < depth {
                for o in ops {
                    let mut s = seq.clone();
                    s.push(o);
                    stack.push(s);
                }
            }
        }
    });
    ctx.outcome("builder sequences", total as u64);
    // the evaluation date is irrelevant when an effective date is given
    ctx.par(RULES.len(), |i| {
        let cals = Cals::new();
        for k in 0..SPANS.len() {
            for s in starts() {
                let mut sp = Spec::new(s, span(s, k), 3, U::M, Target).rule(RULES[i]);
                let a = call(|| observe(&sp.make_with(&cals.get(Target).0))).ok();
                for e in [ser(1901, 1, 1), s, span(s, k), ser(2190, 1, 1)] {
                    sp.eval = e;
                    ctx.eq(|| format!("{} (evaluation date is irrelevant)", sp.key()), a.clone(), call(|| observe(&sp.make_with(&cals.get(Target).0))).ok());
                    ctx.tr(1);
                }
            }
        }
    });
}

fn refusals(ctx: &Ctx) {
    let (c, m) = (Mk::Target.make(), Cal::new(Mk::Target));
    let (eff, term) = (ser(2023, 1, 16), ser(2024, 1, 15));
    let bad = |why: &str, sp: Spec| {
        ctx.tr(1);
        ctx.outcome("refusal expected", 1);
        ctx.ok(|| format!("{}: {}", why, sp.key()), "refused", call(|| sp.make_with(&c)).is_err());
    };
    for rule in RULES {
        for (n, u) in [(1, U::M), (3, U::M), (6, U::M), (1, U::Y), (1, U::W)] {
            let s = Spec { rule, ..Spec::new(eff, term, n, u, Target) };
            for k in [0, 1, 2, 40, 400] {
                bad("effective date not before termination", Spec { eff: term + k, ..s });
            }
            for neg in [-1, -3, -12] {
                for uu in UNITS {
                    bad("negative tenor", Spec { n: neg, u: uu, ..s });
                }
            }
            bad("null termination", Spec { term: NULL, ..s });
            if rule != R::Backward {
                bad("null effective date", Spec { eff: NULL, ..s });
            }
            for eval in [term, term + 1, term + 400] {
                bad("null effective date evaluated at termination or later", Spec { eff: NULL, eval, ..s });
            }
            for eval in [term - 1, term - 367] {
                let sp = Spec { eff: NULL, eval, ..s };
                if rule == R::Backward && model(&sp, &m).is_some() {
                    ctx.ok(|| sp.key(), "a schedule", call(|| sp.make_with(&c)).is_ok());
                }
            }
            bad("null effective date with first date", Spec { eff: NULL, first: eff + 40, ..s });
            let wed = third_wed(eff + 60);
            let late = third_wed(term - 60);
            let xs = [NULL, eff - 1, eff, eff + 1, wed - 1, wed, wed + 7, eff + 100, term - 100, late - 1, late, late + 7, term - 1, term, term + 1, third_wed(eff - 60), third_wed(term + 40)];
            for first in xs {
                for ntl in xs {
                    let sp = Spec { first, ntl, ..s };
                    if consistent(&sp).is_none() {
                        bad("inconsistent inputs", sp);
                    } else if model(&sp, &m).is_some() {
                        ctx.ok(|| sp.key(), "a schedule", call(|| sp.make_with(&c)).is_ok());
                        ctx.outcome("acceptance expected", 1);
                        ctx.tr(1);
                    }
                }
            }
            match rule {
                R::Backward | R::Forward => {
                    for x in [eff - 400, eff - 1, term + 1, term + 400] {
                        bad("first date out of range", Spec { first: x, ..s });
                        bad("next-to-last date out of range", Spec { ntl: x, ..s });
                    }
                }
                R::ThirdWednesday => {
                    for x in [wed - 1, wed + 1, wed + 7] {
                        bad("not an IMM date", Spec { first: x, ..s });
                        bad("not an IMM date", Spec { ntl: x, ..s });
                    }
                    for x in [third_wed(eff - 60), third_wed(term + 40)] {
                        bad("first date out of range", Spec { first: x, ..s });
                        bad("next-to-last date out of range", Spec { ntl: x, ..s });
                    }
                }
                _ => {
                    bad("first date with this rule", Spec { first: wed, ..s });
                    bad("next-to-last date with this rule", Spec { ntl: wed, ..s });
                }
            }
            if !matches!(rule, R::Backward | R::Forward | R::Zero) && u != U::W {
                bad("end of month with this rule", Spec { eom: true, ..s });
            }
        }
    }
}

pub fn c14(ctx: &Ctx) {
    const RS: [R; 5] = [R::CDS2015, R::CDS, R::OldCDS, R::TwentiethIMM, R::Twentieth];
    // previous twentieth and maturities for all trade dates
    ctx.bound("previous twentieth: every date of the range x 10 rules; maturities: every trade date of 1990-2040 (thorough: of the range) x 3 rules x 26 tenors plus refused ones");
    ctx.par(300, |i| {
        let y = 1900 + i as i32;
        at(format!("standard dates in {}", y));
        for r in RULES {
            let mut p = prev20(ser(y, 1, 1), r);
            for s in ser(y, 1, 1)..=ser(y, 12, 31) {
                if prev20(s, r).is_some_and(|x| x == s) {
                    p = Some(s);
                }
                crate::checks::dates::expect(ctx, || format!("previous_twentieth({}, {:?})", show(s), r), p, call(|| previous_twentieth(&dt(s), r)));
                ctx.tr(1);
            }
        }
        ctx.st(365);
    });
    let years: Vec<i32> = if ctx.thorough() { (1901..2180).collect() } else { (2005..2031).collect() };
    ctx.par(years.len(), |i| {
        let y = years[i];
        at(format!("CDS maturities in {}", y));
        for s in ser(y, 1, 1)..=ser(y, 12, 31) {
            for r in [R::CDS2015, R::CDS, R::OldCDS] {
                // the roll: the latest March or September 20th (2015 rule), the latest quarterly 20th (others)
                let mut roll = prev20(s, r).unwrap();
                if r == R::CDS2015 {
                    while ymd(roll).1 % 6 != 3 {
                        roll = prev20(roll - 1, r).unwrap();
                    }
                }
                for k in 0..26 {
                    let (n, u) = if k < 13 { (3 * k, U::M) } else { (k - 13, U::Y) };
                    let mat = add(add(roll, n as i64, u).unwrap(), 3, U::M).unwrap();
                    let want = if n == 0 && r == R::OldCDS {
                        None
                    } else if mat > s {
                        Some(mat)
                    } else {
                        Some(NULL) // no such contract: the null date
                    };
                    crate::checks::dates::expect(ctx, || format!("cds_maturity({}, {}{:?}, {:?})", show(s), n, u, r), want, call(|| cds_maturity(&dt(s), per(n, u), r)));
                    ctx.tr(1);
                    if mat <= s {
                        ctx.outcome("no maturity", 1);
                    }
                }
                if s % 8 == 0 {
                    let bad = (1..=125).filter(|n| n % 3 != 0).flat_map(|n| [(n, U::M), (-n, U::M)]).chain([30, 90, 91, 365, 366, 0, -90].map(|n| (n, U::D))).chain([0, 1, 13, 26, 52, -13].map(|n| (n, U::W))).chain([(-6, U::M), (-12, U::M), (-1, U::Y), (-5, U::Y)]);
                    for (n, u) in bad {
                        ctx.ok(|| format!("cds_maturity({}, {}{:?}, {:?})", show(s), n, u, r), "refused", call(|| cds_maturity(&dt(s), per(n, u), r)).is_err());
                    }
                }
            }
            if s % 8 == 0 {
                for r in RULES {
                    if !matches!(r, R::CDS2015 | R::CDS | R::OldCDS) {
                        ctx.ok(|| format!("cds_maturity({}, 5Y, {:?})", show(s), r), "refused", call(|| cds_maturity(&dt(s), per(5, U::Y), r)).is_err());
                    }
                }
            }
        }
        ctx.st(365 * 3 * 26);
    });
    // schedules
    ctx.bound("CDS schedules: every trade date of 2 years (thorough: 6 years incl. 2015) x 5 rules x tenors 3M..5Y x calendars x conventions, ends on and off standard dates");
    let (a, n) = ctx.pick((ser(2015, 7, 1), 732), (ser(2013, 1, 1), 2200));
    ctx.par(n as usize / 4, |i| {
        let cals = Cals::new();
        for trade in a + 4 * i as i32..a + 4 * i as i32 + 4 {
            at(format!("CDS schedules on {}", show(trade)));
            for r in RS {
                for off in [0, -1, 1, 13, 45] {
                    for (tn, tu) in [(3, U::M), (6, U::M), (1, U::Y), (5, U::Y)] {
                        let roll = prev20(trade, r).unwrap();
                        let mat = add(roll, tn as i64 + if tu == U::M { 3 } else { 0 }, tu).unwrap() + off;
                        for mk in [Weekends, UsSettlement] {
                            for (c, t) in [(B::Following, B::Unadjusted), (B::ModifiedFollowing, B::ModifiedFollowing), (B::Unadjusted, B::Unadjusted), (B::Preceding, B::Following)] {
                                if ctx.stopped() {
                                    return;
                                }
                                let sp = Spec { conv: c, tconv: t, rule: r, ..Spec::new(trade, mat, 3, U::M, mk) };
                                let (cal, m) = cals.get(mk);
                                ctx.tr(1);
                                ctx.st(1);
                                let got = compare(ctx, &sp, &cals);
                                let Some(g) = got else { continue };
                                ctx.val(1);
                                let key = |w: &str| format!("{}: {}", sp.key(), w);
                                if c == B::Unadjusted {
                                    let from = if r == R::CDS || r == R::CDS2015 { 0 } else { 1 };
                                    // a twentieth-type schedule has nothing but standard dates after the first one
                                    ctx.ok(|| key(&show_sched(&g)), "all on standard twentieths", g.d[from..].iter().all(|x| *x == next20(*x, r).unwrap()));
                                    ctx.ok(|| key("end"), "ends at the standard date on or after maturity", *g.d.last().unwrap() == next20(mat, r).unwrap());
                                }
                                match r {
                                    R::CDS | R::CDS2015 => {
                                        let mut x = prev20(trade, r).unwrap();
                                        if m.adjust(x, c).unwrap() > trade {
                                            x = prev20(x - 1, r).unwrap();
                                        }
                                        ctx.eq(|| key("start"), m.adjust(x, c), Some(g.d[0]));
                                        ctx.ok(|| key("flags"), "all periods regular", g.reg.iter().all(|x| *x));
                                    }
                                    R::OldCDS => {
                                        ctx.eq(|| key("start"), trade, g.d[0]);
                                        if g.d.len() > 2 && c == B::Unadjusted {
                                            ctx.ok(|| key("first period"), "at least 30 days", g.d[1] - g.d[0] >= 30);
                                        }
                                    }
                                    _ => {}
                                }
                                let _ = cal;
                            }
                        }
                    }
                }
            }
        }
    });
    ctx.sample(|| "cds_maturity(2015-12-20, 0M, CDS2015) = null date; cds_maturity(2016-03-19, 5Y, CDS2015) = 2020-12-20".into());
}

pub fn c15(ctx: &Ctx) {
    let t = |y, m, d| ser(y, m, d);
    let specs = [
        Spec::new(t(2023, 1, 16), t(2023, 7, 20), 1, U::M, Target),
        Spec { eom: true, ..Spec::new(t(2023, 1, 31), t(2023, 6, 15), 1, U::M, Target).rule(R::Forward) },
        Spec { first: t(2023, 2, 10), ntl: t(2023, 5, 25), ..Spec::new(t(2023, 1, 16), t(2023, 6, 20), 1, U::M, Target) },
        Spec::new(t(2023, 3, 1), t(2023, 4, 20), 2, U::W, Nil).rule(R::Forward),
        Spec::new(t(2022, 12, 5), t(2023, 9, 20), 3, U::M, Weekends).rule(R::CDS2015),
        Spec::new(t(2023, 2, 1), t(2023, 3, 1), 0, U::M, Nil),
        Spec::new(t(2023, 1, 10), t(2023, 6, 14), 1, U::M, UsSettlement).rule(R::ThirdWednesday),
    ];
    let depth = ctx.pick(2, 3);
    ctx.bound(format!("{} schedules x every chain of up to {} truncations (after/until) over all dates around them (depth 3: schedule dates, their neighbours and mid points); lookups of every date around, in every reached schedule", specs.len(), depth));
    #[derive(Clone, Copy, Debug)]
    enum Tr {
        After(i32),
        Until(i32),
    }
    fn cut(s: &Sched, t: Tr) -> Option<Sched> {
        let (a, b) = (s.d[0], *s.d.last().unwrap());
        match t {
            Tr::After(x) if x >= b => None,
            Tr::Until(x) if x <= a => None,
            Tr::After(x) if x <= a => Some(s.clone()),
            Tr::Until(x) if x >= b => Some(s.clone()),
            _ => {
                let (lo, hi) = match t {
                    Tr::After(x) => (x, b),
                    Tr::Until(x) => (a, x),
                };
                // every old period meeting the interval survives, cut ones as irregular
                let mut r = Sched { d: vec![], reg: vec![] };
                for i in 0..s.reg.len() {
                    let (p, q) = (s.d[i].max(lo), s.d[i + 1].min(hi));
                    if p < q {
                        if r.d.is_empty() {
                            r.d.push(p);
                        }
                        r.d.push(q);
                        r.reg.push(s.reg[i] && p == s.d[i] && q == s.d[i + 1]);
                    }
                }
                Some(r)
            }
        }
    }
    let lookups = |ctx: &Ctx, key: &str, s: &Schedule, m: &Sched, eval: i32, wide: bool| {
        let (a, b) = (m.d[0], *m.d.last().unwrap());
        let mut refs: Vec<i32> = if wide { (a - 5..=b + 5).collect() } else { m.d.iter().flat_map(|x| [x - 1, *x, x + 1]).collect() };
        refs.push(NULL);
        for x in refs {
            let r = if x == NULL { eval } else { x };
            let next = m.d.iter().cloned().find(|d| *d >= r).unwrap_or(NULL);
            let prev = m.d.iter().cloned().rev().find(|d| *d < r).unwrap_or(NULL);
            ctx.eq(|| format!("{}: next/previous of {}", key, show(x)), Ok((next, prev)), call(|| (s.next_date(&dt(x)).serial_number(), s.previous_date(&dt(x)).serial_number())));
        }
    };
    for (si, sp) in specs.iter().enumerate() {
        for eval in [t(2022, 1, 1), t(2023, 3, 15), t(2025, 1, 1)] {
            let sp = Spec { eval, ..*sp };
            let s0 = call(|| sp.make()).expect("base schedule");
            let m0 = model(&sp, &Cal::new(sp.mk)).unwrap();
            lookups(ctx, &sp.key(), &s0, &m0, eval, true);
            if eval != t(2023, 3, 15) {
                continue;
            }
            let (a, b) = (m0.d[0], *m0.d.last().unwrap());
            let all: Vec<Tr> = (a - 2..=b + 2).flat_map(|x| [Tr::After(x), Tr::Until(x)]).collect();
            let mut few: Vec<i32> = m0.d.iter().flat_map(|x| [x - 1, *x, x + 1]).chain(m0.d.windows(2).map(|w| (w[0] + w[1]) / 2)).collect();
            few.sort();
            few.dedup();
            let few: Vec<Tr> = few.into_iter().flat_map(|x| [Tr::After(x), Tr::Until(x)]).collect();
            ctx.par(all.len(), |i| {
                let s0 = sp.make();
                let mut todo = vec![(vec![all[i]], s0.clone(), m0.clone())];
                while let Some((path, s, m)) = todo.pop() {
                    if ctx.stopped() {
                        return;
                    }
                    let t = *path.last().unwrap();
                    let key = format!("schedule {} {:?}", si, path.iter().map(|t| match t { Tr::After(x) => format!("after {}", show(*x)), Tr::Until(x) => format!("until {}", show(*x)) }).collect::<Vec<_>>());
                    at(key.clone());
                    let want = cut(&m, t);
                    let got = call(|| match t {
                        Tr::After(x) => s.after(&dt(x)),
                        Tr::Until(x) => s.until(&dt(x)),
                    });
                    ctx.tr(1);
                    match (want, got) {
                        (None, Err(_)) => ctx.outcome("truncation refused", 1),
                        (Some(w), Ok(g)) => {
                            ctx.eq(|| key.clone(), Ok(w.clone()), call(|| observe(&g)));
                            if path.len() < 2 || i % 7 == 0 {
                                ctx.ok(|| format!("{}: one flag per period", key), "refused outside 1..n-1", call(|| g.is_regular(w.d.len())).is_err() && call(|| g.is_regular(0)).is_err());
                            }
                            ctx.eq(|| format!("{}: original unchanged", key), Ok(m.clone()), call(|| observe(&s)));
                            ctx.eq(
                                || format!("{}: settings", key),
                                (s.tenor(), s.end_of_month(), s.business_day_convention(), s.calendar().name()),
                                (g.tenor(), g.end_of_month(), g.business_day_convention(), g.calendar().name()),
                            );
                            ctx.st(1);
                            ctx.val(1);
                            if path.len() < 2 || i % 5 == 0 {
                                lookups(ctx, &key, &g, &w, eval, path.len() == 1);
                            }
                            if path.len() < depth {
                                for t in if path.len() == 1 { &all } else { &few } {
                                    let mut p = path.clone();
                                    p.push(*t);
                                    todo.push((p, g.clone(), w.clone()));
                                }
                            }
                        }
                        (w, g) => ctx.fail(key, format!("{:?}", w.map(|w| show_sched(&w))), format!("{:?}", g.map(|g| show_sched(&observe(&g))))),
                    }
                }
            });
        }
    }
    ctx.sample(|| "monthly schedule cut after 2023-03-01 keeps later flags, first period irregular".into());
}
