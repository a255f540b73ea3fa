//! C45: computations nested in one another, or interleaved on several threads, do not disturb each other.
//! Every use of a function, cash flow, curve or quote of the caller is a point where another computation
//! may run: nested there in full (every pair at every point, some triples), or interleaved under a
//! controlled scheduler that runs one thread at a time and explores every schedule up to a bound on the
//! number of preemptions.
use super::legs::Cp;
use crate::dc::D;
use crate::fw::*;
use crate::greg::*;
use crate::hol::*;
use crate::sched::Spec;
use rust_quantlib::cashflows::cashflow::{self, CashFlow};
use rust_quantlib::cashflows::fixedratecoupon::FixedRateCoupon;
use rust_quantlib::context::pricing_context::PricingContext;
use rust_quantlib::datetime::businessdayconvention::BusinessDayConvention as B;
use rust_quantlib::datetime::date::Date;
use rust_quantlib::datetime::daycounter::DayCounter;
use rust_quantlib::datetime::frequency::Frequency as F;
use rust_quantlib::datetime::imm::IMM;
use rust_quantlib::instruments::bond::Bond;
use rust_quantlib::instruments::fixedratebond::FixedRateBond;
use rust_quantlib::instruments::instrument::Instrument;
use rust_quantlib::instruments::stock::Stock;
use rust_quantlib::maths::interpolations::{interpolation::Interpolation, linearinterpolation::LinearInterpolation};
use rust_quantlib::maths::rounding::Rounding;
use rust_quantlib::maths::solvers1d::{brent::Brent, finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe, newtonsafe::NewtonSafe, solver1d::Solver1D};
use rust_quantlib::quotes::quote::Quote;
use rust_quantlib::rates::compounding::Compounding as C;
use rust_quantlib::rates::interestrate::InterestRate;
use rust_quantlib::termstructures::zeroyieldstructure::ZeroYieldStructure;
use std::cell::RefCell;
use std::rc::Rc;
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

fn t(y: i32, m: i32, d: i32) -> i32 {
    ser(y, m, d)
}
fn day(y: i32, m: i32, d: i32) -> Date {
    dt(t(y, m, d))
}
fn null() -> Date {
    Date::default()
}

thread_local! {
    /// what happens at each use of the caller's code by a computation on this thread
    static HOOK: RefCell<Vec<Rc<dyn Fn()>>> = const { RefCell::new(vec![]) };
}
fn tick() {
    if let Some(h) = HOOK.with(|h| h.borrow().last().cloned()) {
        h();
    }
}
/// runs a computation with its own hook; the hook of the surrounding one is out of sight
fn with_hook<T>(h: Rc<dyn Fn()>, f: impl FnOnce() -> T) -> T {
    HOOK.with(|s| s.borrow_mut().push(h));
    let r = f();
    HOOK.with(|s| s.borrow_mut().pop());
    r
}

struct Flow(FixedRateCoupon);
impl CashFlow for Flow {
    fn accrual_start_date(&self) -> Date {
        self.0.accrual_start_date()
    }
    fn accrual_end_date(&self) -> Date {
        self.0.accrual_end_date()
    }
    fn accrued_amount(&self, date: Date) -> f64 {
        tick();
        self.0.accrued_amount(date)
    }
    fn amount(&self) -> f64 {
        tick();
        self.0.amount()
    }
    fn date(&self) -> Date {
        self.0.date()
    }
    fn ex_coupon_date(&self) -> Date {
        tick();
        self.0.ex_coupon_date()
    }
    fn reference_period_start(&self) -> Date {
        self.0.reference_period_start()
    }
    fn reference_period_end(&self) -> Date {
        self.0.reference_period_end()
    }
}
fn leg(n: i32, d: D) -> Vec<Rc<Flow>> {
    (0..n)
        .map(|i| {
            let (s, e) = (t(2023, 1, 10) + 181 * i, t(2023, 1, 10) + 181 * (i + 1));
            Rc::new(Flow(Cp { start: s, end: e, pay: e + 2, ex: e - 5, rs: s, re: e, nom: 100.0 - 20.0 * i as f64, r: 0.04 + 0.01 * i as f64, d, f: F::Annual }.make(&C::Simple)))
        })
        .collect()
}
struct Zero(f64);
impl ZeroYieldStructure for Zero {
    fn zero_yield(&self, x: f64) -> f64 {
        tick();
        self.0 + 0.001 * x
    }
}
struct Ticking(f64);
impl Quote for Ticking {
    fn value(&self) -> f64 {
        tick();
        self.0
    }
    fn is_valid(&self) -> bool {
        true
    }
}
fn sh<T: std::fmt::Debug>(f: impl FnOnce() -> T) -> String {
    format!("{:?}", call(f))
}
/// a search and the points it looked at
fn search<S: Solver1D>(s: &S, which: usize, bracket: bool, acc: f64) -> String {
    let seen = RefCell::new(vec![]);
    let f = |x: f64| {
        seen.borrow_mut().push(x);
        tick();
        match which {
            0 => x * x * x - 2.0,
            1 => 0.7 - (-x).exp(),
            _ => x.atan() - 0.5,
        }
    };
    let g = |x: f64| {
        tick();
        match which {
            0 => 3.0 * x * x,
            1 => (-x).exp(),
            _ => 1.0 / (1.0 + x * x),
        }
    };
    let r = call(|| if bracket { s.solve_bracketed(f, g, acc, 1.0, -0.5, 3.0) } else { s.solve(f, g, acc, 1.5, 0.4) });
    format!("{:?} {:?}", r, seen.into_inner())
}

/// the objects of one world; computations share it (one thread runs at a time, handed over under a lock)
struct World {
    newton: NewtonSafe,
    fd: FiniteDifferenceNewtonSafe,
    brent: Brent,
    target: rust_quantlib::datetime::calendar::Calendar,
    edited: rust_quantlib::datetime::calendar::Calendar,
    isma: [DayCounter; 2],
    sched: [rust_quantlib::datetime::schedule::Schedule; 2],
    bond: [FixedRateBond; 2],
    lin: LinearInterpolation<'static>,
    imm: IMM,
}
static XS: [f64; 4] = [0.0, 1.0, 2.5, 4.0];
static YS: [f64; 4] = [1.0, 3.0, -1.0, 0.5];
fn world() -> World {
    let a = Spec::new(t(2022, 1, 31), t(2025, 1, 31), 6, U::M, Mk::Target).conv(B::ModifiedFollowing).make();
    let b = Spec::new(t(2022, 2, 15), t(2025, 1, 31), 1, U::Y, Mk::UsGovBond).make();
    let mut edited = Mk::Target.make();
    edited.add_holiday(day(2023, 6, 15));
    edited.remove_holiday(day(2023, 5, 1));
    World {
        newton: NewtonSafe::default(),
        fd: FiniteDifferenceNewtonSafe::default(),
        brent: Brent::default(),
        target: Mk::Target.make(),
        edited,
        isma: [DayCounter::actual_actual_isma(a.clone()), DayCounter::actual_actual_isma(b.clone())],
        bond: [FixedRateBond::new(2, 100.0, a.clone(), vec![0.03], D::BondBasis.make()), FixedRateBond::new(3, 1000.0, b.clone(), vec![0.05, 0.02], D::AaOldIsma.make())],
        sched: [a, b],
        lin: LinearInterpolation::new(&XS, &YS),
        imm: IMM::new(PricingContext::new(day(2023, 5, 2))),
    }
}
type Comp = fn(&World) -> String;
/// several calls one after the other, with a point between each two
fn chain(parts: &[&dyn Fn() -> String]) -> String {
    let mut v = vec![];
    for p in parts {
        v.push(p());
        tick();
    }
    v.join(" ")
}
fn comps() -> Vec<(&'static str, Comp)> {
    vec![
        ("Newton cube root", |w| search(&w.newton, 0, false, 1e-12)),
        ("Newton atan within bounds", |w| search(&w.newton, 2, true, 1e-9)),
        ("Newton, coarse", |w| search(&w.newton, 1, true, 1e-3)),
        ("finite differences", |w| search(&w.fd, 0, true, 1e-9)),
        ("finite differences, another", |w| search(&w.fd, 1, false, 1e-6)),
        ("Brent", |w| search(&w.brent, 2, false, 1e-10)),
        ("Brent, another", |w| search(&w.brent, 0, true, 1e-6)),
        ("value of a leg", |_| sh(|| cashflow::npv(&leg(3, D::A360), &InterestRate::new(0.03, D::A360.make(), C::Compounded, F::Annual), false, day(2023, 3, 1), null()))),
        ("value of another leg", |_| sh(|| cashflow::npv(&leg(2, D::BondBasis), &InterestRate::new(0.07, D::BondBasis.make(), C::Continuous, F::Annual), true, day(2023, 2, 1), day(2023, 1, 20)))),
        ("duration and accruals", |_| {
            let l = leg(3, D::A360);
            sh(|| (cashflow::modified_duration(&l, &InterestRate::new(0.05, D::A360.make(), C::SimpleThenCompounded, F::Annual), false, day(2023, 3, 1), null()), cashflow::accrued_amount(&l, false, day(2023, 9, 1))))
        }),
        ("yield of a leg", |w| sh(|| cashflow::bond_yield(&w.newton, &leg(1, D::A360), 95.0, D::A360.make(), C::Compounded, F::Annual, false, day(2023, 3, 1), null(), 1e-7, 0.05))),
        ("discounts", |_| sh(|| (Zero(0.02).discount(1.5), Zero(0.05).discount(0.0), Zero(-0.01).discount(7.25)))),
        ("stocks", |_| {
            let (a, b) = (Stock::new(Arc::new(Ticking(1.5))), Stock::new(Arc::new(Ticking(-2.25))));
            sh(|| (a.npv(), b.npv(), a.calculate().npv, b.calculate().npv))
        }),
        ("calendars", |w| chain(&[
            &|| sh(|| w.target.adjust(day(2023, 4, 29), B::Following)),
            &|| sh(|| sers(&w.edited.holiday_list(day(2023, 4, 1), day(2023, 6, 30), false))),
            &|| sh(|| w.target.business_days_between(day(2023, 4, 27), day(2023, 5, 9), true, false)),
            &|| sh(|| w.edited.advance_by_period(day(2023, 1, 31), per(3, U::M), B::ModifiedFollowing, true)),
        ])),
        ("calendars, edited as one goes", |_| {
            let mut c = Mk::Target.make();
            let mut out = vec![];
            for k in 0..4 {
                if k % 2 == 0 { c.add_holiday(day(2023, 5, 2 + k)) } else { c.remove_holiday(day(2023, 5, 1)) }
                tick();
                out.push(sh(|| (sers(&c.holiday_list(day(2023, 4, 25), day(2023, 5, 12), true)), c.adjust(day(2023, 5, 1), B::Following))));
            }
            out.join(" ")
        }),
        ("schedules and fractions", |w| chain(&[
            &|| sh(|| sers(&Spec::new(t(2022, 1, 31), t(2025, 1, 31), 3, U::M, Mk::Target).conv(B::ModifiedFollowing).make().dates())),
            &|| sh(|| w.isma[0].year_fraction(&day(2023, 1, 31), &day(2023, 6, 15), &null(), &null())),
            &|| sh(|| (w.sched[0].next_date(&day(2023, 3, 1)), sers(&w.sched[1].until(&day(2023, 9, 1)).dates()))),
            &|| sh(|| w.isma[1].year_fraction(&day(2023, 1, 31), &day(2023, 6, 15), &null(), &null())),
        ])),
        ("bonds", |w| chain(&[
            &|| sh(|| w.bond[0].bond_yield(97.5, D::BondBasis.make(), C::Compounded, F::Semiannual, day(2023, 9, 15))),
            &|| sh(|| w.bond[1].clean_price_from_yield(0.04, D::BondBasis.make(), C::Compounded, F::Annual, day(2023, 9, 15))),
            &|| sh(|| w.bond[0].bond_yield(-5.0, D::BondBasis.make(), C::Compounded, F::Semiannual, day(2023, 9, 15))),
            &|| sh(|| (w.bond[0].accrued_amount(day(2023, 9, 15)), w.bond[1].accrued_amount(day(2023, 9, 15)))),
        ])),
        ("numbers", |w| chain(&[
            &|| sh(|| (w.lin.value(1.7), w.lin.derivative(3.0), w.lin.primitive(2.2))),
            &|| sh(|| (Rounding::closest(2, 5).round(0.125), Rounding::up(1, 5).round(-0.41))),
            &|| sh(|| (w.imm.next_date(&day(2023, 5, 2), true), w.imm.next_code(&day(2023, 5, 2), false))),
            &|| sh(|| w.lin.value(9.0)),
        ])),
    ]
}

// ------------------------------------------------------------------------------------ nested

/// `outer` with `inner` run in full at its k-th point (and `third` at the j-th point of that)
fn nest(w: &Arc<Once>, outer: Comp, k: usize, inner: Comp, third: Option<(usize, Comp)>) -> (String, Option<String>, Option<String>, usize) {
    let n = Rc::new(std::cell::Cell::new(0usize));
    let got = Rc::new(RefCell::new((None, None)));
    let (n2, got2, w2) = (n.clone(), got.clone(), w.clone());
    let hook = Rc::new(move || {
        n2.set(n2.get() + 1);
        if n2.get() != k {
            return;
        }
        let m = std::cell::Cell::new(0usize);
        let (got3, w3) = (got2.clone(), w2.clone());
        let deeper: Rc<dyn Fn()> = Rc::new(move || {
            m.set(m.get() + 1);
            if let Some((j, c)) = third {
                if m.get() == j {
                    let r = with_hook(Rc::new(|| {}), || c(w3.get()));
                    got3.borrow_mut().1 = Some(r);
                }
            }
        });
        let r = with_hook(deeper, || inner(w2.get()));
        got2.borrow_mut().0 = Some(r);
    });
    let o = with_hook(hook, || outer(w.get()));
    let g = got.borrow().clone();
    (o, g.0, g.1, n.get())
}

/// a world handed from thread to thread, one at a time
struct Once(World);
unsafe impl Send for Once {}
unsafe impl Sync for Once {}
impl Once {
    fn get(&self) -> &World {
        &self.0
    }
}

fn nested(ctx: &Ctx, cs: &[(&'static str, Comp)], alone: &[String], points: &[usize]) {
    let pairs = cs.len() * cs.len();
    ctx.par(pairs, |i| {
        let (a, b) = (i % cs.len(), i / cs.len());
        at(format!("{} within {}", cs[b].0, cs[a].0));
        let w = Arc::new(Once(world()));
        for k in 1..=points[a] {
            let (o, n, _, _) = nest(&w, cs[a].1, k, cs[b].1, None);
            ctx.eq(|| format!("{} run at point {} of {}: the inner answer", cs[b].0, k, cs[a].0), Some(&alone[b]), n.as_ref());
            ctx.eq(|| format!("{} run at point {} of {}: the outer answer", cs[b].0, k, cs[a].0), &alone[a], &o);
            ctx.st(1);
            ctx.tr(2);
        }
        // three deep
        for c in 0..cs.len() {
            for (k, j) in [(1, 1), (2, 1), (points[a], points[b]), (points[a] / 2 + 1, points[b] / 2 + 1), (1, points[b])] {
                if !ctx.thorough() && (c + a + b) % 3 != 0 {
                    continue;
                }
                let (o, n, m, _) = nest(&w, cs[a].1, k, cs[b].1, Some((j, cs[c].1)));
                if k <= points[a] && j <= points[b] {
                    ctx.eq(|| format!("{} at point {} of {} at point {} of {}", cs[c].0, j, cs[b].0, k, cs[a].0), (&alone[a], Some(&alone[b]), Some(&alone[c])), (&o, n.as_ref(), m.as_ref()));
                    ctx.st(1);
                    ctx.tr(3);
                }
            }
        }
        ctx.val(1);
    });
}

// -------------------------------------------------------------------------------- interleaved

struct Turn {
    current: usize,
    done: Vec<bool>,
    /// choices to replay, then the first choice at every further decision
    plan: Vec<usize>,
    /// the options at each decision taken: (chosen, how many)
    taken: Vec<(usize, usize)>,
    preemptions: usize,
    stuck: bool,
}
struct Baton {
    m: Mutex<Turn>,
    c: Condvar,
    bound: usize,
}
impl Baton {
    fn wait(&self, me: usize) {
        let g = self.m.lock().unwrap();
        let (mut g, r) = self.c.wait_timeout_while(g, Duration::from_secs(20), |g| g.current != me && !g.stuck).unwrap();
        if r.timed_out() {
            g.stuck = true;
            self.c.notify_all();
        }
    }
    fn choose(g: &mut Turn, n: usize) -> usize {
        let k = if g.taken.len() < g.plan.len() { g.plan[g.taken.len()] } else { 0 };
        g.taken.push((k, n));
        k
    }
    /// thread `me` reached a point: it goes on, or (within the bound) another one does
    fn point(&self, me: usize) {
        {
            let mut g = self.m.lock().unwrap();
            let others: Vec<usize> = (0..g.done.len()).filter(|&t| t != me && !g.done[t]).collect();
            if others.is_empty() || g.preemptions >= self.bound || g.stuck {
                return;
            }
            let k = Self::choose(&mut g, others.len() + 1);
            if k == 0 {
                return;
            }
            g.preemptions += 1;
            g.current = others[k - 1];
            self.c.notify_all();
        }
        self.wait(me);
    }
    fn finish(&self, me: usize) {
        let mut g = self.m.lock().unwrap();
        g.done[me] = true;
        let others: Vec<usize> = (0..g.done.len()).filter(|&t| !g.done[t]).collect();
        if !others.is_empty() {
            let k = if others.len() > 1 { Self::choose(&mut g, others.len()) } else { 0 };
            g.current = others[k];
        }
        self.c.notify_all();
    }
}
/// one execution under a plan; the answers, the decisions taken, whether it got stuck
fn execute(w: &Arc<Once>, cs: &[Comp], bound: usize, plan: Vec<usize>) -> (Vec<Option<String>>, Vec<(usize, usize)>, bool) {
    let first = plan.first().copied().unwrap_or(0);
    let b = Arc::new(Baton { m: Mutex::new(Turn { current: usize::MAX, done: vec![false; cs.len()], taken: vec![(first, cs.len())], plan, preemptions: 0, stuck: false }), c: Condvar::new(), bound });
    let (tx, rx) = std::sync::mpsc::channel();
    for (me, c) in cs.iter().copied().enumerate() {
        let (b, w, tx) = (b.clone(), w.clone(), tx.clone());
        std::thread::Builder::new()
            .stack_size(4 << 20)
            .spawn(move || {
                unwatched();
                b.wait(me);
                let b2 = b.clone();
                let r = with_hook(Rc::new(move || b2.point(me)), || c(w.get()));
                // the computation's answer is out before the next thread runs
                let _ = tx.send((me, r));
                drop(w);
                b.finish(me);
            })
            .unwrap();
    }
    drop(tx);
    {
        let mut g = b.m.lock().unwrap();
        g.current = first;
        b.c.notify_all();
    }
    let mut out = vec![None; cs.len()];
    for _ in 0..cs.len() {
        match rx.recv_timeout(Duration::from_secs(30)) {
            Ok((me, r)) => out[me] = Some(r),
            Err(_) => break,
        }
    }
    // the last thread may still be recording its end
    let g = b.m.lock().unwrap();
    let stuck = g.stuck || out.iter().any(|o| o.is_none());
    (out, g.taken.clone(), stuck)
}
/// every schedule of the computations with at most `bound` preemptions
fn explore(ctx: &Ctx, names: &[&str], cs: &[Comp], alone: &[&String], bound: usize) -> u64 {
    let w = Arc::new(Once(world()));
    let mut plan: Vec<usize> = vec![];
    let mut n = 0u64;
    loop {
        if ctx.stopped() {
            return n;
        }
        at(format!("{:?} by {:?}", names, plan));
        let (out, taken, stuck) = execute(&w, cs, bound, plan.clone());
        n += 1;
        let show = || {
            let mut v: Vec<String> = vec![];
            for (i, (k, _)) in taken.iter().enumerate() {
                if *k > 0 || i == 0 {
                    v.push(format!("{}:{}", i, k));
                }
            }
            v.join(" ")
        };
        if stuck {
            ctx.fail(format!("{:?} under schedule {}", names, show()), "answers", "stuck");
            return n;
        }
        for (i, o) in out.iter().enumerate() {
            ctx.eq(|| format!("{:?} under schedule {}: {}", names, show(), names[i]), Some(alone[i]), o.as_ref());
        }
        // the next schedule in depth-first order
        let mut p: Vec<usize> = taken.iter().map(|c| c.0).collect();
        loop {
            let Some(last) = p.pop() else { return n };
            if last + 1 < taken[p.len()].1 {
                p.push(last + 1);
                break;
            }
        }
        plan = p;
    }
}

pub fn c45(ctx: &Ctx) {
    let cs = comps();
    // the answers of each computation alone, in a world of its own; the number of its points
    let mut alone = vec![];
    let mut points = vec![];
    for (name, c) in &cs {
        at(format!("{} alone", name));
        let w = Arc::new(Once(world()));
        let (o, _, _, n) = nest(&w, *c, 0, *c, None);
        alone.push(o);
        points.push(n);
        ctx.ok(|| format!("{} uses the caller's code", name), "at least twice", n >= 2 || *name == "discounts");
    }
    for (c, n) in cs.iter().zip(&points) {
        ctx.outcome(&format!("points: {}", c.0), *n as u64);
    }
    ctx.bound(format!("nested: {} computations with {} points in all; every one at every point of every one, and three deep at chosen points", cs.len(), points.iter().sum::<usize>()));
    nested(ctx, &cs, &alone, &points);
    // (pairs, triples); fewer where the schedules would run into the millions
    let (most, fewer) = (ctx.pick([2, 1], [4, 2]), [2, 1]);
    let allowed = |r: &[usize]| if r.iter().any(|c| points[*c] > 40) { fewer[r.len() - 2] } else { most[r.len() - 2] };
    ctx.bound(format!("interleaved: every pair of computations on two threads, some triples on three; every schedule with at most {:?} preemptions ({:?} with a computation of more than 40 points)", most, fewer));
    let mut runs: Vec<Vec<usize>> = vec![];
    for a in 0..cs.len() {
        for b in a..cs.len() {
            runs.push(vec![a, b]);
        }
    }
    for (i, c) in (0..cs.len()).enumerate() {
        runs.push(vec![c, (i + 1) % cs.len(), (i + 5) % cs.len()]);
        runs.push(vec![c, c, c]);
    }
    // the longest explorations first
    runs.sort_by_key(|r| std::cmp::Reverse(r.iter().map(|c| points[*c]).product::<usize>()));
    let total = std::sync::atomic::AtomicU64::new(0);
    ctx.par(runs.len(), |i| {
        let r = &runs[i];
        let names: Vec<&str> = r.iter().map(|c| cs[*c].0).collect();
        let fs: Vec<Comp> = r.iter().map(|c| cs[*c].1).collect();
        let want: Vec<&String> = r.iter().map(|c| &alone[*c]).collect();
        let n = explore(ctx, &names, &fs, &want, allowed(r));
        total.fetch_add(n, std::sync::atomic::Ordering::Relaxed);
        ctx.st(n);
        ctx.tr(n * r.len() as u64);
        ctx.val(n);
    });
    ctx.outcome("schedules executed", total.into_inner());
    ctx.sample(|| "Newton cube root, preempted at its 5th point by Brent, which is preempted at its 3rd".into());
}
