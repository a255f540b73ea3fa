//! Reference schedules: rule-based generation on model serial numbers.  A schedule is a list of dates
//! plus one flag per period; `None` stands for a refused construction.
use crate::greg::*;
use crate::hol::*;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::dategenerationrule::DateGenerationRule as R;
use rust_quantlib::datetime::schedule::Schedule;

pub const NULL: i32 = MIN;
pub const RULES: [R; 10] = [
    R::Backward, R::Forward, R::Zero, R::ThirdWednesday, R::ThirdWednesdayInclusive, R::Twentieth, R::TwentiethIMM, R::OldCDS, R::CDS, R::CDS2015,
];
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Spec {
    pub eff: i32,
    pub term: i32,
    pub n: i32,
    pub u: U,
    pub mk: Mk,
    pub conv: B,
    pub tconv: B,
    pub rule: R,
    pub eom: bool,
    pub first: i32,
    pub ntl: i32,
    pub eval: i32,
}
impl Spec {
    pub fn new(eff: i32, term: i32, n: i32, u: U, mk: Mk) -> Spec {
        Spec { eff, term, n, u, mk, conv: B::Following, tconv: B::Following, rule: R::Backward, eom: false, first: NULL, ntl: NULL, eval: ser(2022, 12, 1) }
    }
    pub fn conv(mut self, c: B) -> Spec {
        self.conv = c;
        self.tconv = c;
        self
    }
    pub fn rule(mut self, r: R) -> Spec {
        self.rule = r;
        self
    }
    pub fn key(&self) -> String {
        let d = |s: i32| if s == NULL { "-".to_string() } else { show(s) };
        format!(
            "schedule({}..{}, {}{:?}, {:?}, {:?}/{:?}, {:?}, eom={}, first={}, ntl={}, eval={})",
            d(self.eff), d(self.term), self.n, self.u, self.mk, self.conv, self.tconv, self.rule, self.eom, d(self.first), d(self.ntl), d(self.eval)
        )
    }
    pub fn make_with(&self, cal: &rust_quantlib::datetime::calendar::Calendar) -> Schedule {
        Schedule::new(
            PricingContext::new(dt(self.eval)), dt(self.eff), dt(self.term), per(self.n, self.u), cal.clone(), self.conv, self.tconv, self.rule, self.eom, dt(self.first), dt(self.ntl),
        )
    }
    pub fn make(&self) -> Schedule {
        self.make_with(&self.mk.make())
    }
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Sched {
    pub d: Vec<i32>,
    /// flag k belongs to the period d[k]..d[k+1]
    pub reg: Vec<bool>,
}

pub fn quarterly(r: R) -> bool {
    matches!(r, R::TwentiethIMM | R::OldCDS | R::CDS | R::CDS2015)
}
pub fn twentieths(r: R) -> bool {
    r == R::Twentieth || quarterly(r)
}
fn is_std(s: i32, r: R) -> bool {
    let (_, m, d) = ymd(s);
    d == 20 && (!quarterly(r) || m % 3 == 0)
}
/// earliest standard date on or after s
pub fn next20(mut s: i32, r: R) -> Option<i32> {
    while s <= MAX {
        if is_std(s, r) {
            return Some(s);
        }
        s += 1;
    }
    None
}
/// latest standard date on or before s
pub fn prev20(mut s: i32, r: R) -> Option<i32> {
    while s >= MIN {
        if is_std(s, r) {
            return Some(s);
        }
        s -= 1;
    }
    None
}
pub fn third_wed(s: i32) -> i32 {
    let (y, m, _) = ymd(s);
    nth_weekday(3, 4, m, y).unwrap()
}

/// seed moved by k tenors; a month-end seed stays at month ends under the end-of-month rule
fn step(seed: i32, k: i32, n: i32, u: U, eom_rule: bool) -> Option<i32> {
    let t = add(seed, k as i64 * n as i64, u)?;
    Some(if eom_rule && matches!(u, U::M | U::Y) && is_eom(seed) { eom(t) } else { t })
}

/// the effective date (given or placeholder) if the inputs are consistent
pub fn consistent(sp: &Spec) -> Option<i32> {
    let first = if sp.first == sp.eff { NULL } else { sp.first };
    let ntl = if sp.ntl == sp.term { NULL } else { sp.ntl };
    if sp.term == NULL {
        return None;
    }
    let mut eff = sp.eff;
    if eff == NULL {
        if sp.first != NULL || sp.rule != R::Backward || sp.eval >= sp.term {
            return None;
        }
        // placeholder: enough whole years before the last regular date to lie before the evaluation date
        let last = if sp.ntl != NULL { sp.ntl } else { sp.term };
        eff = add(last, -((last - sp.eval) / 366 + 1) as i64, U::Y)?;
    }
    if eff >= sp.term || sp.n < 0 {
        return None;
    }
    let rule = if sp.n == 0 { R::Zero } else { sp.rule };
    for (x, is_first) in [(first, true), (ntl, false)] {
        if x == NULL {
            continue;
        }
        let inside = if is_first { x > eff && x <= sp.term } else { x >= eff && x < sp.term };
        match rule {
            R::Backward | R::Forward if inside => {}
            R::ThirdWednesday if inside && third_wed(x) == x => {}
            _ => return None,
        }
    }
    (first == NULL || ntl == NULL || first <= ntl).then_some(eff)
}

pub fn model(sp: &Spec, cal: &Cal) -> Option<Sched> {
    let month_tenor = matches!(sp.u, U::M | U::Y);
    let eom_rule = sp.eom && month_tenor && sp.n >= 1;
    let first = if sp.first == sp.eff { NULL } else { sp.first };
    let ntl = if sp.ntl == sp.term { NULL } else { sp.ntl };
    let rule = if sp.n == 0 { R::Zero } else { sp.rule };
    let eff = consistent(sp)?;
    let adj = |s: i32| cal.adjust(s, sp.conv);
    let tadj = |s: i32| cal.adjust(s, sp.tconv);

    // 1. unadjusted dates, each with the flag of the period next to it in the direction of generation
    let mut seed = None;
    let (mut d, mut reg): (Vec<i32>, Vec<bool>);
    match rule {
        R::Zero => {
            d = vec![eff, sp.term];
            reg = vec![true];
        }
        R::Backward => {
            let mut b = vec![sp.term]; // latest first
            reg = vec![];
            let mut s = sp.term;
            if ntl != NULL {
                b.push(ntl);
                reg.push(step(s, -1, sp.n, sp.u, eom_rule)? == ntl);
                s = ntl;
            }
            seed = Some(s);
            let stop = if first != NULL { first } else { eff };
            let mut k = 1;
            loop {
                let t = step(s, -k, sp.n, sp.u, eom_rule)?;
                if t < stop {
                    break;
                }
                if adj(*b.last().unwrap())? != adj(t)? {
                    b.push(t);
                    reg.push(true);
                }
                k += 1;
            }
            for stub in [first, eff] {
                if stub != NULL && adj(*b.last().unwrap())? != adj(stub)? {
                    b.push(stub);
                    reg.push(false);
                }
            }
            b.reverse();
            reg.reverse();
            d = b;
        }
        _ => {
            if eom_rule && rule != R::Forward {
                return None;
            }
            let big_bang = rule == R::CDS || rule == R::CDS2015;
            d = vec![];
            reg = vec![];
            if big_bang {
                let p = prev20(eff, rule)?;
                if adj(p)? > eff {
                    d.push(add(p, -3, U::M)?);
                    reg.push(true);
                }
                d.push(p);
            } else {
                d.push(eff);
            }
            let mut s = *d.last().unwrap();
            if first != NULL {
                reg.push(step(s, 1, sp.n, sp.u, eom_rule)? == first);
                d.push(first);
                s = first;
            } else if twentieths(rule) {
                let mut t = next20(eff, rule)?;
                if rule == R::OldCDS && t - eff < 30 {
                    t = next20(t + 1, rule)?;
                }
                if t != eff {
                    d.push(t);
                    reg.push(big_bang);
                    s = t;
                }
            }
            seed = Some(s);
            let stop = if ntl != NULL { ntl } else { sp.term };
            let mut k = 1;
            loop {
                let t = step(s, k, sp.n, sp.u, eom_rule)?;
                if t > stop {
                    break;
                }
                if adj(*d.last().unwrap())? != adj(t)? {
                    d.push(t);
                    reg.push(true);
                }
                k += 1;
            }
            if ntl != NULL && adj(*d.last().unwrap())? != adj(ntl)? {
                d.push(ntl);
                reg.push(false);
            }
            if tadj(*d.last().unwrap())? != tadj(sp.term)? {
                if twentieths(rule) {
                    d.push(next20(sp.term, rule)?);
                    reg.push(true);
                } else {
                    d.push(sp.term);
                    reg.push(false);
                }
            }
        }
    }

    // 2. third Wednesdays
    let n = d.len();
    if n < 2 {
        return None;
    }
    for (i, x) in d.iter_mut().enumerate() {
        if rule == R::ThirdWednesdayInclusive || (rule == R::ThirdWednesday && i > 0 && i < n - 1) {
            *x = third_wed(*x);
        }
    }

    // 3. business days or month ends
    let at_month_end = match seed {
        Some(s) if eom_rule => cal.is_eom(s)?,
        _ => false,
    };
    if at_month_end {
        let me = |s: i32, c: B| if c == B::Unadjusted { Some(eom(s)) } else { cal.last_bd(s) };
        for x in &mut d[1..n - 1] {
            *x = me(*x, sp.conv)?;
        }
        let (mut a, mut b) = (d[0], d[n - 1]);
        // an unadjusted termination leaves alone the end from which dates are not generated
        if sp.tconv != B::Unadjusted || rule != R::Backward {
            a = me(a, sp.tconv)?;
        }
        if sp.tconv != B::Unadjusted || rule == R::Backward {
            b = me(b, sp.tconv)?;
        }
        if a != b {
            d[0] = a;
            d[n - 1] = b;
        }
    } else {
        for (i, x) in d.iter_mut().enumerate() {
            *x = match i {
                0 if rule == R::OldCDS => *x,
                i if i == n - 1 && matches!(rule, R::CDS | R::CDS2015) => *x,
                i if i == n - 1 => tadj(*x)?,
                _ => adj(*x)?,
            };
        }
    }

    // 4. dates that adjustment pushed on or past an end, or onto each other, are dropped; the period
    // that swallows a dropped one at an end stays regular only if its own ends did not move
    loop {
        let n = d.len();
        if n < 2 {
            return None;
        }
        if d[n - 2] < d[n - 1] {
            break;
        }
        let same = d[n - 2] == d[n - 1];
        d.remove(n - 2);
        reg.pop();
        if let Some(l) = reg.last_mut() {
            *l &= same;
        }
    }
    while d[1] <= d[0] {
        let same = d[1] == d[0];
        d.remove(1);
        reg.remove(0);
        reg[0] &= same;
    }
    let (mut dd, mut rr) = (vec![d[0], d[1]], vec![reg[0]]);
    for i in 2..d.len() {
        if d[i] > d[i - 1] {
            dd.push(d[i]);
            rr.push(reg[i - 1]);
        }
    }
    let (d, reg) = (dd, rr);
    Some(Sched { d, reg })
}

pub fn observe(s: &Schedule) -> Sched {
    Sched { d: sers(&s.dates()), reg: (1..s.size()).map(|i| s.is_regular(i)).collect() }
}
pub fn show_sched(s: &Sched) -> String {
    s.d.iter().enumerate().map(|(i, x)| format!("{}{}", show(*x), if i < s.reg.len() { if s.reg[i] { " =" } else { " ~" } } else { "" })).collect::<Vec<_>>().join(" ")
}
