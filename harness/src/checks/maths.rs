//! C28-C32, C34: numerical building blocks.
//! C28 explores the root finders as reactive systems: the function they solve is the environment.
//! (a) every function of a parametrised family; (b) an adversary that answers each evaluation with any
//! value of a small alphabet whose sign is consistent with one hidden root (all answer sequences up to a
//! depth); (c) every evaluation budget.
use crate::fw::*;
use crate::greg::*;
use rust_quantlib::currencies::{africa::*, america::*, asia::*, currency::Currency, europe::*, money::Money, oceania::*};
use rust_quantlib::instruments::{instrument::Instrument, stock::Stock};
use rust_quantlib::maths::array::Array;
use rust_quantlib::maths::bounds::{lower_bound, upper_bound};
use rust_quantlib::maths::comparison::{close, close_enough, close_n};
use rust_quantlib::maths::interpolations::{interpolation::Interpolation, lagrangeinterpolation::LagrangeInterpolation, linearinterpolation::LinearInterpolation};
use rust_quantlib::maths::rounding::Rounding;
use rust_quantlib::maths::solvers1d::{brent::Brent, finitedifferencenewtonsafe::FiniteDifferenceNewtonSafe, newtonsafe::NewtonSafe, solver1d::Solver1D};
use rust_quantlib::quotes::{quote::Quote, simplequote::SimpleQuote};
use rust_quantlib::termstructures::zeroyieldstructure::ZeroYieldStructure;
use std::cell::RefCell;
use std::collections::HashSet;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------------------------------- C28

#[derive(Clone, Copy, PartialEq, Debug)]
enum Sv {
    Brent,
    Newton,
    Fd,
}
const SV: [Sv; 3] = [Sv::Brent, Sv::Newton, Sv::Fd];
#[derive(Clone, Copy, Debug, PartialEq)]
enum Q {
    /// accuracy, guess, step
    Step(f64, f64, f64),
    /// accuracy, guess, xmin, xmax
    Bracket(f64, f64, f64, f64),
}
/// lower/upper enforced bound, budget (Newton only)
#[derive(Clone, Copy, Debug, PartialEq)]
struct Cfg {
    lo: Option<f64>,
    hi: Option<f64>,
    budget: Option<usize>,
}
const FREE: Cfg = Cfg { lo: None, hi: None, budget: None };

fn ask<S: Solver1D>(s: &S, q: Q, f: &dyn Fn(f64) -> f64, g: &dyn Fn(f64) -> f64) -> f64 {
    match q {
        Q::Step(a, x, h) => s.solve(f, g, a, x, h),
        Q::Bracket(a, x, l, u) => s.solve_bracketed(f, g, a, x, l, u),
    }
}
struct Run {
    root: Out<f64>,
    evals: usize,
    lo: f64,
    hi: f64,
}
fn solve(sv: Sv, c: Cfg, q: Q, f: &dyn Fn(f64) -> f64, g: &dyn Fn(f64) -> f64) -> Run {
    let seen = RefCell::new((0usize, f64::INFINITY, f64::NEG_INFINITY));
    let note = |x: f64| {
        let mut s = seen.borrow_mut();
        s.0 += 1;
        s.1 = s.1.min(x);
        s.2 = s.2.max(x);
        s.0
    };
    let ff = |x: f64| {
        // no solver needs more than its budget of 100 plus the bracketing and the final evaluation
        assert!(note(x) < 1000, "runaway");
        f(x)
    };
    let gg = |x: f64| {
        note(x);
        seen.borrow_mut().0 -= 1;
        g(x)
    };
    let (l, u, el, eu) = (c.lo.unwrap_or(0.0), c.hi.unwrap_or(0.0), c.lo.is_some(), c.hi.is_some());
    let root = call(|| match (sv, c.lo.is_none() && c.hi.is_none()) {
        (Sv::Brent, true) => ask(&Brent::default(), q, &ff, &gg),
        (Sv::Brent, false) => ask(&Brent::new(l, u, el, eu), q, &ff, &gg),
        (Sv::Fd, true) => ask(&FiniteDifferenceNewtonSafe::default(), q, &ff, &gg),
        (Sv::Fd, false) => ask(&FiniteDifferenceNewtonSafe::new(l, u, el, eu), q, &ff, &gg),
        (Sv::Newton, true) => match c.budget {
            Some(b) => ask(&NewtonSafe::with_max_evaluations(b), q, &ff, &gg),
            None => ask(&NewtonSafe::default(), q, &ff, &gg),
        },
        (Sv::Newton, false) => ask(&NewtonSafe::new(l, u, el, eu, c.budget.unwrap_or(100)), q, &ff, &gg),
    });
    let s = seen.borrow();
    Run { root, evals: s.0, lo: s.1, hi: s.2 }
}

/// shapes of increasing functions with their only root at 0
const SHAPES: usize = 12;
fn shape(k: usize, u: f64) -> (f64, f64) {
    match k {
        0 => (u, 1.0),
        1 => (1e-3 * u, 1e-3),
        2 => (50.0 * u, 50.0),
        3 => (u + u * u * u, 1.0 + 3.0 * u * u),
        4 => (u.atan(), 1.0 / (1.0 + u * u)),
        5 => (u.sinh(), u.cosh()),
        6 => (u.exp_m1(), u.exp()),
        7 => (-(-u).exp_m1(), (-u).exp()),
        8 => (u + 0.5 * (2.0 * u).sin(), 1.0 + (2.0 * u).cos()),
        // flat away from the root, on both sides or on one
        9 => (u.clamp(-0.5, 0.5), if u.abs() <= 0.5 { 1.0 } else { 0.0 }),
        10 => (u.max(-0.5), if u >= -0.5 { 1.0 } else { 0.0 }),
        _ => (u.min(0.5), if u <= 0.5 { 1.0 } else { 0.0 }),
    }
}
fn tolerance(sv: Sv, acc: f64, root: f64) -> f64 {
    let acc = acc.max(f64::EPSILON);
    // Brent brackets the root within the accuracy; the Newton solvers stop on a step below it
    (if sv == Sv::Brent { 1.0 } else { 2.0 }) * acc + 16.0 * f64::EPSILON * (1.0 + root.abs())
}

pub fn c28(ctx: &Ctx) {
    let roots: Vec<f64> = if ctx.thorough() { vec![-7.3, -2.0, -1.0, -0.25, -1e-3, 0.0, 1e-3, 0.3, 0.75, 1.0, 2.5, 6.1] } else { vec![-2.0, -0.25, 0.0, 0.3, 1.0, 2.5] };
    let offs: Vec<f64> = if ctx.thorough() { vec![-4.0, -3.1, -2.0, -1.5, -1.0, -0.51, -0.2, -0.05, -1e-3, -1e-9, 0.0, 1e-9, 1e-3, 0.05, 0.2, 0.5, 0.77, 1.0, 2.0, 3.3, 4.0] } else { vec![-3.1, -1.0, -0.2, -1e-3, 0.0, 1e-9, 0.05, 0.5, 1.0, 3.3] };
    let accs: Vec<f64> = if ctx.thorough() { vec![1e-1, 1e-2, 1e-4, 1e-6, 1e-8, 1e-11, 1e-14, 1e-17] } else { vec![1e-2, 1e-4, 1e-8, 1e-11] };
    let steps: Vec<f64> = if ctx.thorough() { vec![1e-3, 0.01, 0.1, 0.5, 1.0, 3.0] } else { vec![0.01, 0.1, 1.0] };
    let ext: Vec<f64> = if ctx.thorough() { vec![0.05, 0.3, 1.0, 2.2, 4.0] } else { vec![0.3, 1.0, 4.0] };
    // both directions, also of very small and very large values
    let scales = [1.0, -1.0, 1e-13, -4e9];
    let n = SHAPES * scales.len() * 3;
    ctx.par(n, |i| {
        let (k, sg, sv) = (i / 12, scales[i % 4], SV[i / 4 % 3]);
        at(format!("C28 {:?} shape {} sign {}", sv, k, sg));
        for &r in &roots {
            let f = |x: f64| sg * shape(k, x - r).0;
            let g = |x: f64| sg * shape(k, x - r).1;
            let check = |c: Cfg, q: Q, win: (f64, f64)| {
                let key = || format!("{:?} f=±shape{} sign {} root {} {:?} {:?}", sv, k, sg, r, c, q);
                let acc = match q { Q::Step(a, ..) | Q::Bracket(a, ..) => a };
                let run = solve(sv, c, q, &f, &g);
                ctx.st(1);
                ctx.tr(run.evals as u64);
                ctx.val(1);
                match run.root {
                    Ok(x) => {
                        ctx.ok(key, &format!("a point within {:e} of {} (got {})", acc, r, x), (x - r).abs() <= tolerance(sv, acc, r));
                        // Newton steps may overshoot an end by a rounding error
                        let e = 1e-9 * (1.0 + win.0.abs().min(win.1.abs()));
                        ctx.ok(key, &format!("result in [{}, {}] (got {})", win.0, win.1, x), x >= win.0 - e && x <= win.1 + e);
                    }
                    Err(_) => ctx.fail(key(), format!("a point within {:e} of {}", acc, r), "refused"),
                }
                let e = 1e-9 * (1.0 + win.0.abs().min(win.1.abs()));
                ctx.ok(key, &format!("evaluations inside [{}, {}] (got [{}, {}])", win.0, win.1, run.lo, run.hi), run.lo >= win.0 - e && run.hi <= win.1 + e);
                ctx.ok(key, "at most 110 evaluations", run.evals <= 110);
            };
            for &acc in &accs {
                // an accuracy that doubles cannot resolve at the root may be refused
                if sv != Sv::Brent && acc < 4.0 * f64::EPSILON * r.abs() {
                    continue;
                }
                for &o in &offs {
                    for &h in &steps {
                        check(FREE, Q::Step(acc, r + o, h), (f64::NEG_INFINITY, f64::INFINITY));
                        for &(a, b) in &[(4.5, 4.5), (0.0, 4.5), (4.5, 0.0), (0.4, 5.0)] {
                            // enforced bounds with the guess strictly inside them; the root may be a bound
                            let (lo, hi) = (r - a, r + b);
                            if r + o > lo && r + o < hi {
                                check(Cfg { lo: Some(lo), hi: Some(hi), budget: None }, Q::Step(acc, r + o, h), (lo, hi));
                                check(Cfg { lo: Some(lo), ..FREE }, Q::Step(acc, r + o, h), (lo, f64::INFINITY));
                                check(Cfg { hi: Some(hi), ..FREE }, Q::Step(acc, r + o, h), (f64::NEG_INFINITY, hi));
                            }
                        }
                    }
                    for &a in &ext {
                        for &b in &ext {
                            let (lo, hi) = (r - a, r + b);
                            if r + o > lo && r + o < hi {
                                check(FREE, Q::Bracket(acc, r + o, lo, hi), (lo, hi));
                                check(Cfg { lo: Some(lo), hi: Some(hi), budget: None }, Q::Bracket(acc, r + o, lo, hi), (lo, hi));
                            }
                        }
                    }
                }
                for &a in &ext {
                    // an end point that is the root is returned as it is
                    for (lo, hi) in [(r, r + a), (r - a, r)] {
                        for gs in [lo + 0.3 * a, (lo + hi) / 2.0] {
                            let run = solve(sv, FREE, Q::Bracket(acc, gs, lo, hi), &f, &g);
                            ctx.eq(|| format!("{:?} shape{} sign {} bracket [{},{}] with root at its end", sv, k, sg, lo, hi), Ok(r), run.root);
                            ctx.val(1);
                        }
                    }
                }
                // a guess that is the root is returned as it is
                ctx.eq(|| format!("{:?} shape{} sign {} guess is the root {}", sv, k, sg, r), Ok(r), solve(sv, FREE, Q::Step(acc, r, 0.1), &f, &g).root);
            }
            // refusals
            let refused = |what: &str, c: Cfg, q: Q| {
                let run = solve(sv, c, q, &f, &g);
                ctx.eq(|| format!("{:?} shape{} sign {} root {} {}: {:?} {:?}", sv, k, sg, r, what, c, q), Err(Refused), run.root);
                ctx.st(1);
                ctx.val(1);
                ctx.tr(run.evals as u64);
                ctx.outcome("refused", 1);
            };
            for acc in [0.0, -1.0, -1e-9, f64::NAN] {
                refused("accuracy", FREE, Q::Step(acc, r + 0.3, 0.1));
                refused("accuracy", FREE, Q::Bracket(acc, r + 0.3, r - 1.0, r + 1.0));
            }
            let b = Cfg { lo: Some(r - 2.0), hi: Some(r + 2.0), budget: None };
            for acc in [1e-2, 1e-8] {
                for a in [0.3, 1.0, 1.9] {
                    for w in [0.1, 1.0] {
                        refused("no sign change", FREE, Q::Bracket(acc, r + a + w / 2.0, r + a, r + a + w));
                        refused("no sign change", FREE, Q::Bracket(acc, r - a - w / 2.0, r - a - w, r - a));
                    }
                    for gs in [r, r + a, r - a, r + 2.0 * a] {
                        refused("inverted", FREE, Q::Bracket(acc, gs, r + a, r - a));
                        refused("empty", FREE, Q::Bracket(acc, gs, r + a, r + a));
                    }
                    for gs in [r + a, r - a, r + a + 1e-3, r - a - 1e-3, r + 50.0, r - 50.0] {
                        refused("guess not inside", FREE, Q::Bracket(acc, gs, r - a, r + a));
                    }
                    for (lo, hi) in [(r - 2.0 - a, r + 1.0), (r - 1.0, r + 2.0 + a), (r - 2.0 - a, r + 2.0 + a)] {
                        refused("bracket beyond enforced bounds", b, Q::Bracket(acc, r + 0.1, lo, hi));
                    }
                }
                // the root lies outside the enforced bounds
                for (lo, hi) in [(r + 0.5, r + 2.0), (r - 2.0, r - 0.5)] {
                    refused("no root within bounds", Cfg { lo: Some(lo), hi: Some(hi), budget: None }, Q::Step(acc, (lo + hi) / 2.0, 0.1));
                }
            }
            // every budget: refused below some number of evaluations, the same root from there on
            if sv == Sv::Newton {
                for &acc in &accs {
                    for q in [Q::Step(acc, r + 0.9, 0.1), Q::Step(acc, r - 2.1, 0.5), Q::Bracket(acc, r + 0.4, r - 1.0, r + 2.0), Q::Bracket(acc, r - 0.7, r - 1.0, r + 2.0)] {
                        let full = solve(sv, FREE, q, &f, &g).root;
                        let mut done = false;
                        for b in 0..60 {
                            let run = solve(sv, Cfg { budget: Some(b), ..FREE }, q, &f, &g);
                            let key = || format!("Newton shape{} sign {} root {} budget {} {:?}", k, sg, r, b, q);
                            match run.root {
                                Ok(_) => {
                                    ctx.eq(key, full, run.root);
                                    done = true;
                                }
                                Err(_) => {
                                    ctx.ok(key, "a larger budget is never worse", !done);
                                }
                            }
                            ctx.ok(key, "the budget is kept (two bracketing evaluations and a final one apart)", run.evals <= b + 3);
                            ctx.st(1);
                            ctx.val(1);
                        }
                    }
                }
            }
        }
    });
    // functions that never change sign
    for sv in SV {
        for sg in [1.0, -1.0] {
            for (nm, f) in [("constant", (|_x: f64| 1.0) as fn(f64) -> f64), ("parabola", |x: f64| x * x + 0.5), ("exp", |x: f64| x.exp())] {
                for gs in [-1.0, 0.0, 2.0] {
                    for q in [Q::Step(1e-6, gs, 0.1), Q::Bracket(1e-6, gs, -3.0, 3.0)] {
                        if nm == "exp" && matches!(q, Q::Step(..)) {
                            continue; // underflows to an exact zero
                        }
                        let run = solve(sv, FREE, q, &|x| sg * f(x), &|_| 0.0);
                        ctx.eq(|| format!("{:?} {} sign {} {:?}", sv, nm, sg, q), Err(Refused), run.root);
                        ctx.st(1);
                        ctx.val(1);
                        ctx.outcome("refused", 1);
                    }
                }
            }
        }
    }
    ctx.bound(format!("{} shapes x 2 orientations, also of values around 1e-13 and 4e9, x 3 solvers x {} roots x {} guesses x {} steps x {} accuracies, with and without enforced bounds, {} brackets; budgets 0..59", SHAPES, roots.len(), offs.len(), steps.len(), accs.len(), ext.len() * ext.len()));
    adversary(ctx);
}

/// All answer sequences of an adversarial function: each new point x is answered by sign(x - root) times a
/// value of the alphabet, for the first `depth` points, then by the plain line; repeated points get the
/// same answer.  Any such table is that of some continuous function with the only root there.
fn adversary(ctx: &Ctx) {
    const ALPHA: [f64; 3] = [0.01, 1.0, 30.0];
    let depth: usize = ctx.pick(7, 9);
    let total = 3usize.pow(depth as u32);
    let roots = [-0.61, -0.1, 0.0, 0.37, 0.93];
    let guesses = [-0.9, -0.31, 0.0, 0.5, 0.8];
    let jobs = 3 * 2 * roots.len() * guesses.len();
    ctx.par(jobs, |j| {
        let sv = SV[j % 3];
        let sg = if j / 3 % 2 == 0 { 1.0 } else { -1.0 };
        let r = roots[j / 6 % roots.len()];
        let gs = guesses[j / 6 / roots.len()];
        at(format!("C28 adversary {:?} root {} guess {}", sv, r, gs));
        for acc in [1e-3, 1e-9] {
            for code in 0..total {
                if ctx.stopped() {
                    return;
                }
                let memo: RefCell<Vec<(f64, f64)>> = RefCell::new(vec![]);
                let f = |x: f64| {
                    let mut m = memo.borrow_mut();
                    if let Some(p) = m.iter().find(|p| p.0 == x) {
                        return p.1;
                    }
                    let s = if x > r { sg } else if x < r { -sg } else { 0.0 };
                    let v = if m.len() < depth { s * ALPHA[code / 3usize.pow(m.len() as u32) % 3] } else { sg * (x - r) };
                    m.push((x, v));
                    v
                };
                // the derivative the adversary announces is arbitrary as well
                let g = |x: f64| sg * ALPHA[((x * 7.0).abs() as usize + code) % 3];
                let q = Q::Bracket(acc, gs, -1.0, 1.0);
                let run = solve(sv, FREE, q, &f, &g);
                let key = || format!("{:?} adversary {} sign {} root {} {:?}", sv, code, sg, r, q);
                ctx.st(memo.borrow().len() as u64);
                ctx.tr(run.evals as u64);
                ctx.val(1);
                if let Ok(x) = run.root {
                    ctx.ok(key, &format!("result in the bracket (got {})", x), (-1.0 - 1e-9..=1.0 + 1e-9).contains(&x));
                    if sv == Sv::Brent {
                        ctx.ok(key, &format!("within accuracy of the sign change (got {})", x), (x - r).abs() <= acc + 16.0 * f64::EPSILON);
                    }
                } else if sv == Sv::Brent {
                    // bisection steps bound the work: with a line after `depth` answers the budget suffices
                    ctx.fail(key(), "a root", "refused");
                }
                ctx.ok(key, "evaluations inside the bracket", run.lo >= -1.0 - 1e-9 && run.hi <= 1.0 + 1e-9);
            }
        }
    });
    ctx.bound(format!("adversarial functions: all 3^{} answer sequences x {} roots x {} guesses x 2 orientations x 2 accuracies x 3 solvers", depth, roots.len(), guesses.len()));
}

// ------------------------------------------------------------------------------------------- C29

fn subsets(grid: &[f64], n: usize) -> Vec<Vec<f64>> {
    let mut out = vec![];
    for m in 0u32..1 << grid.len() {
        if m.count_ones() as usize == n {
            out.push((0..grid.len()).filter(|i| m >> i & 1 == 1).map(|i| grid[i]).collect());
        }
    }
    out
}
fn tuples(alpha: &[f64], n: usize) -> Vec<Vec<f64>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.into_iter().flat_map(|v: Vec<f64>| alpha.iter().map(move |a| { let mut w = v.clone(); w.push(*a); w })).collect();
    }
    out
}
const FRACS: [f64; 9] = [0.0, 1e-7, 0.1, 0.25, 0.5, 0.8, 0.999, 0.999_999_8, 1.0];

pub fn c29(ctx: &Ctx) {
    let grid: &[f64] = if ctx.thorough() { &[-3.0, -1.0, -0.25, 0.0, 0.1, 0.75, 1.0, 2.5, 400.0] } else { &[-3.0, -0.25, 0.0, 0.1, 1.0, 2.5] };
    let alpha: &[f64] = if ctx.thorough() { &[-2.0, 0.0, 1.0, 3.5] } else { &[-2.0, 0.0, 3.5] };
    let mut nodes = vec![];
    for n in 2..=5 {
        nodes.extend(subsets(grid, n));
    }
    ctx.par(nodes.len(), |i| {
        let x = &nodes[i];
        let n = x.len();
        at(format!("C29 nodes {:?}", x));
        let w = x[n - 1] - x[0];
        for y in tuples(alpha, n) {
            linear(ctx, x, &y, None, w);
            let z: Vec<f64> = y.iter().rev().map(|v| v * 1.5 + 1.0).collect();
            linear(ctx, x, &z, Some(&y), w);
            lagrange_updated(ctx, x, &z, &y);
        }
        for c in tuples(&[-1.0, 0.0, 2.0], n) {
            lagrange(ctx, x, &c, w);
        }
    });
    // more nodes: every set of 6 to 9, unit and mixed polynomials, zig-zag ordinates
    let wide: &[f64] = &[-2.0, -1.25, -0.5, 0.0, 0.6, 1.0, 1.75, 2.5, 3.0];
    let mut more = vec![];
    for n in 6..=9 {
        more.extend(subsets(wide, n));
    }
    ctx.par(more.len(), |i| {
        let x = &more[i];
        let n = x.len();
        at(format!("C29 nodes {:?}", x));
        for k in 0..n {
            let mut c = vec![0.0; n];
            c[k] = 1.0;
            lagrange(ctx, x, &c, x[n - 1] - x[0]);
            c[0] -= 2.0;
            c[n - 1 - k] += 0.5;
            lagrange(ctx, x, &c, x[n - 1] - x[0]);
            let mut y: Vec<f64> = (0..n).map(|i| if i == k { 3.5 } else { (i % 3) as f64 - 1.0 }).collect();
            linear(ctx, x, &y, None, x[n - 1] - x[0]);
            let old = y.clone();
            y.reverse();
            y[k] = -2.5;
            linear(ctx, x, &y, Some(&old), x[n - 1] - x[0]);
            lagrange_updated(ctx, x, &y, &old);
        }
    });
    // long tables: one ordinate out of line at every place
    let long: usize = ctx.pick(36, 64);
    ctx.par(long - 9, |k| {
        let n = k + 10;
        let x: Vec<f64> = (0..n).map(|i| i as f64 * 0.5 + [0.0, 0.125, -0.125, 0.0625][i % 4]).collect();
        at(format!("C29 {} nodes", n));
        for j in 0..n {
            let y: Vec<f64> = (0..n).map(|i| if i == j { 3.5 } else { (i % 5) as f64 - 2.0 }).collect();
            linear(ctx, &x, &y, None, 2.0);
        }
        let up: Vec<f64> = (0..n).map(|i| (i * i) as f64 * 0.01).collect();
        let down: Vec<f64> = up.iter().map(|v| -v).collect();
        linear(ctx, &x, &down, Some(&up), x[n - 1]);
    });
    // very long tables
    let sizes = [65usize, 66, 100, 127, 128, 129, 200, 256, 257, 300];
    let big = [500usize, 1000, 1025];
    let sizes: Vec<usize> = sizes.into_iter().chain(big.into_iter().take(ctx.pick(1, 3))).collect();
    ctx.par(sizes.len() * 2, |k| {
        let n = sizes[k / 2];
        let even = k % 2 == 0;
        let x: Vec<f64> = (0..n).map(|i| if even { i as f64 } else { i as f64 * 0.5 + [0.0, 0.125, -0.125, 0.0625][i % 4] }).collect();
        at(format!("C29 {} nodes", n));
        for j in [0, 1, n / 2, n - 1] {
            let y: Vec<f64> = (0..n).map(|i| if i == j { 3.5 } else { (i % 5) as f64 - 2.0 }).collect();
            linear(ctx, &x, &y, None, 2.0);
        }
    });
    ctx.bound(format!("linear tables of {:?} nodes", sizes));
    // more nodes than rounding can bear when evenly spaced: close to the ends of the range
    for n in 10..=ctx.pick(18, 24) {
        let x: Vec<f64> = (0..n).map(|i| -2.0 * (std::f64::consts::PI * (i as f64 + 0.5) / n as f64).cos()).collect();
        at(format!("C29 {} Lagrange nodes", n));
        for k in 0..n {
            let mut c = vec![0.0; n];
            c[k] = 0.5f64.powi(k as i32);
            lagrange(ctx, &x, &c, 4.0);
            c[0] -= 2.0;
            c[n - 1 - k] += 0.25 * 0.5f64.powi((n - 1 - k) as i32);
            lagrange(ctx, &x, &c, 4.0);
        }
    }
    ctx.bound(format!("Lagrange tables of 10..={} nodes (Chebyshev), unit and mixed polynomials", ctx.pick(18, 24)));
    ctx.bound(format!("linear tables of 10..={} nodes, one ordinate out of line at every place", long));
    ctx.bound(format!("all {} sets of 6..9 of {:?} with unit and mixed polynomials", more.len(), wide));
    ctx.bound(format!("all {} node sets of 2..5 points of {:?}; all ordinates over {:?}; all polynomials below the node count with coefficients in {{-1,0,2}}; {} points per segment, both ends and beyond", nodes.len(), grid, alpha, FRACS.len()));
}

fn linear(ctx: &Ctx, x: &[f64], y: &[f64], before: Option<&[f64]>, w: f64) {
    let n = x.len();
    let built = call(|| match before {
        None => LinearInterpolation::new(x, y),
        Some(old) => {
            let mut l = LinearInterpolation::new(x, old);
            // something is asked in between: nothing may be remembered
            let _ = l.value(x[0]);
            l.y = y;
            l.update();
            l
        }
    });
    let key = |t: f64, what: &str| format!("linear{} x={:?} y={:?} {} at {}", if before.is_some() { " updated" } else { "" }, x, y, what, t);
    let Ok(l) = built else {
        ctx.fail(key(0.0, "build"), "an interpolation", "refused");
        return;
    };
    let slope = |i: usize| (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
    let scale = y.iter().fold(1.0, |a: f64, b| a.max(b.abs())) * (1.0 + w);
    let at_seg = |i: usize, t: f64| y[i] + (t - x[i]) * slope(i);
    // integral from the first node, computed by trapezoids
    let integral = |i: usize, t: f64| {
        let mut s = 0.0;
        for j in 0..i {
            s += (x[j + 1] - x[j]) * (y[j] + y[j + 1]) / 2.0;
        }
        s + (t - x[i]) * (y[i] + at_seg(i, t)) / 2.0
    };
    ctx.eq(|| key(x[0], "xmin"), (x[0], x[n - 1]), (l.xmin(), l.xmax()));
    let tol = 1e-12;
    let point = |i: usize, t: f64, inside: bool, node: Option<usize>| {
        ctx.st(1);
        ctx.tr(4);
        ctx.val(1);
        let v = at_seg(i, t);
        for ext in [false, true] {
            let got = [call(|| l.value_with_extrapolation(t, ext)), call(|| l.primitive_with_extrapolation(t, ext)), call(|| l.derivative_with_extrapolation(t, ext)), call(|| l.second_derivative_with_extrapolation(t, ext))];
            if !inside && !ext {
                ctx.eq(|| key(t, "outside without extrapolation"), [true; 4], [got[0].is_err(), got[1].is_err(), got[2].is_err(), got[3].is_err()]);
                continue;
            }
            let near = |a: f64, b: f64, s: f64| (a - b).abs() <= tol * s.max(1.0) * 10.0;
            ctx.ok(|| key(t, "value"), &format!("{} (got {:?})", v, got[0]), got[0].map_or(false, |g| near(g, v, scale * (1.0 + slope(i).abs()))));
            let p = integral(i, t);
            ctx.ok(|| key(t, "primitive"), &format!("{} (got {:?})", p, got[1]), got[1].map_or(false, |g| near(g, p, scale * (1.0 + w) * (1.0 + slope(i).abs()))));
            let d_ok = got[2].map_or(false, |g| near(g, slope(i), slope(i).abs()) || node.map_or(false, |k| k > 0 && k < n - 1 && near(g, slope(k - 1), slope(k - 1).abs())));
            ctx.ok(|| key(t, "derivative"), &format!("{} (got {:?})", slope(i), got[2]), d_ok);
            ctx.eq(|| key(t, "second derivative"), Ok(0.0), got[3]);
        }
        if inside {
            let (a, b) = ([call(|| l.value_with_extrapolation(t, false)), call(|| l.primitive_with_extrapolation(t, false)), call(|| l.derivative_with_extrapolation(t, false)), call(|| l.second_derivative_with_extrapolation(t, false))],
                [call(|| l.value(t)), call(|| l.primitive(t)), call(|| l.derivative(t)), call(|| l.second_derivative(t))]);
            ctx.ok(|| key(t, &format!("plain forms {:?}", b)), &format!("{:?}", a), a.iter().zip(&b).all(|p| matches!(p, (Ok(x), Ok(y)) if (x - y).abs() <= tol * scale.max(1.0) * 10.0 || feq(*x, *y, tol))));
        } else {
            ctx.eq(|| key(t, "plain forms outside"), [true; 4], [call(|| l.value(t)).is_err(), call(|| l.primitive(t)).is_err(), call(|| l.derivative(t)).is_err(), call(|| l.second_derivative(t)).is_err()]);
        }
        ctx.eq(|| key(t, "is_in_range"), inside, l.is_in_range(t));
        let lc = call(|| l.locate(t));
        ctx.ok(|| key(t, "locate"), &format!("segment {} (got {:?})", i, lc), lc.map_or(false, |k| k == i || (k + 1 < n && x[k] <= t && t <= x[k + 1])));
    };
    for i in 0..n - 1 {
        for (q, fr) in FRACS.iter().enumerate() {
            let t = if q == 0 { x[i] } else if *fr == 1.0 { x[i + 1] } else { x[i] + fr * (x[i + 1] - x[i]) };
            let node = if q == 0 { Some(i) } else if *fr == 1.0 { Some(i + 1) } else { None };
            if *fr == 1.0 && i + 2 < n {
                continue; // the node belongs to the next segment
            }
            point(i, t, true, node);
            if let Some(k) = node {
                ctx.ok(|| key(t, "node value"), &format!("{}", y[k]), l.value(t) == y[k] || (l.value(t) - y[k]).abs() <= 1e-12 * scale);
            }
        }
    }
    for d in [1e-6, 0.5, 3.0] {
        point(0, x[0] - d, false, None);
        point(n - 2, x[n - 1] + d, false, None);
    }
    ctx.outcome("linear", 1);
}

fn lagrange(ctx: &Ctx, x: &[f64], c: &[f64], w: f64) {
    let n = x.len();
    let poly = |t: f64| c.iter().rev().fold(0.0, |a, b| a * t + b);
    let dpoly = |t: f64| (1..n).rev().fold(0.0, |a, k| a * t + c[k] * k as f64);
    let y: Vec<f64> = x.iter().map(|t| poly(*t)).collect();
    let key = |t: f64, what: &str| format!("Lagrange x={:?} polynomial {:?} {} at {}", x, c, what, t);
    let Ok(l) = call(|| LagrangeInterpolation::new(x, &y)) else {
        ctx.fail(key(0.0, "build"), "an interpolation", "refused");
        return;
    };
    ctx.eq(|| key(x[0], "xmin"), (x[0], x[n - 1]), (l.xmin(), l.xmax()));
    // rounding is amplified by cancellation between the nodes: scale by the largest Lagrange weight
    let gap = x.windows(2).map(|p| p[1] - p[0]).fold(f64::INFINITY, f64::min);
    let top = y.iter().fold(1.0, |a: f64, b| a.max(b.abs()));
    let point = |t: f64, inside: bool| {
        ctx.st(1);
        ctx.tr(2);
        ctx.val(1);
        let mut amp = 0.0f64;
        for i in 0..n {
            let mut b = 1.0f64;
            for j in 0..n {
                if i != j {
                    b *= ((t - x[j]) / (x[i] - x[j])).abs();
                }
            }
            amp += b;
        }
        let off = x.iter().map(|v| (v - t).abs()).filter(|d| *d > 0.0).fold(f64::INFINITY, f64::min).min(gap);
        let tol = 1e-12 * top * (1.0 + amp);
        let dtol = 1e-11 * top * (1.0 + amp) * (1.0 + w) / (off * off.min(1.0));
        for ext in [false, true] {
            let (v, d) = (call(|| l.value_with_extrapolation(t, ext)), call(|| l.derivative_with_extrapolation(t, ext)));
            if !inside && !ext {
                ctx.ok(|| key(t, "outside without extrapolation"), "refused", v.is_err() && d.is_err() && call(|| l.value(t)).is_err() && call(|| l.derivative(t)).is_err());
                continue;
            }
            ctx.ok(|| key(t, "value"), &format!("{} ± {:e} (got {:?})", poly(t), tol, v), v.map_or(false, |g| (g - poly(t)).abs() <= tol));
            ctx.ok(|| key(t, "derivative"), &format!("{} ± {:e} (got {:?})", dpoly(t), dtol, d), d.map_or(false, |g| (g - dpoly(t)).abs() <= dtol));
        }
        ctx.eq(|| key(t, "is_in_range"), inside, l.is_in_range(t));
        let lc = call(|| l.locate(t));
        ctx.ok(|| key(t, "locate"), &format!("the segment (got {:?})", lc), lc.map_or(false, |k| k + 1 < n && (x[k] <= t || k == 0) && (t <= x[k + 1] || k == n - 2)));
    };
    for i in 0..n - 1 {
        for fr in [0.0, 0.1, 0.37, 0.5, 0.8] {
            point(x[i] + fr * (x[i + 1] - x[i]), true);
        }
        ctx.close(|| key(x[i], "node value"), y[i], call(|| l.value(x[i])), 1e-13);
    }
    point(x[n - 1], true);
    ctx.close(|| key(x[n - 1], "node value"), y[n - 1], call(|| l.value(x[n - 1])), 1e-13);
    // close to the nodes, where a value must still not be taken for that of the node
    for (i, v) in x.iter().enumerate() {
        for d in [1e-4, 1e-6, 1e-9] {
            let d = d * v.abs().max(1.0);
            if i > 0 {
                point(v - d, true);
            }
            if i + 1 < n {
                point(v + d, true);
            }
        }
    }
    for d in [0.1, 0.5] {
        point(x[0] - d, false);
        point(x[n - 1] + d, false);
    }
    ctx.outcome("Lagrange", 1);
}

fn lagrange_updated(ctx: &Ctx, x: &[f64], y: &[f64], old: &[f64]) {
    let r = call(|| {
        let fresh = LagrangeInterpolation::new(x, y);
        let mut l = LagrangeInterpolation::new(x, old);
        let _ = l.value(x[0]);
        l.y = y;
        l.update();
        let n = x.len();
        let mut ok = true;
        for i in 0..n - 1 {
            for fr in [0.0, 0.3, 0.9] {
                let t = x[i] + fr * (x[i + 1] - x[i]);
                ok &= feq(l.value(t), fresh.value(t), 1e-12) && feq(l.derivative(t), fresh.derivative(t), 1e-9);
            }
        }
        ok
    });
    ctx.eq(|| format!("Lagrange updated x={:?} y={:?} was {:?}", x, y, old), Ok(true), r);
    ctx.val(1);
}

// ------------------------------------------------------------------------------------------- C30

pub fn c30(ctx: &Ctx) {
    // values j/2^q are exact doubles and so are their products with 10^p here: the model is integer arithmetic
    let q: u32 = ctx.pick(6, 10);
    let span: i64 = ctx.pick(12, 40);
    let precisions: Vec<i32> = (0..=6).collect();
    let modes = ["none", "up", "down", "closest", "ceiling", "floor"];
    let digits: Vec<i32> = (1..=9).collect();
    let make = |m: &str, p: i32, d: i32| match m {
        "none" => Rounding::none(),
        "up" => Rounding::up(p, d),
        "down" => Rounding::down(p, d),
        "closest" => Rounding::closest(p, d),
        "ceiling" => Rounding::ceiling(p, d),
        _ => Rounding::floor(p, d),
    };
    let jobs = modes.len() * precisions.len();
    let den = 1i64 << q;
    ctx.par(jobs, |k| {
        let (m, p) = (modes[k % modes.len()], precisions[k / modes.len()]);
        let mult = 10i64.pow(p as u32);
        for &d in &digits {
            at(format!("C30 {} {} {}", m, p, d));
            let Ok(r) = call(|| make(m, p, d)) else {
                ctx.fail(format!("{}({},{})", m, p, d), "a rounding", "refused");
                continue;
            };
            for j in -span * den..=span * den {
                let v = j as f64 / den as f64;
                let a = j.abs() as i128 * mult as i128;
                let (whole, rest) = ((a / den as i128) as i64, a % den as i128);
                let up = match m {
                    "up" => rest != 0,
                    "closest" => rest * 10 >= d as i128 * den as i128,
                    "ceiling" => j < 0 && rest * 10 >= d as i128 * den as i128,
                    "floor" => j >= 0 && rest * 10 >= d as i128 * den as i128,
                    _ => false,
                };
                let want = if m == "none" { v } else { let u = (whole + up as i64) as f64 / mult as f64; if j < 0 { -u } else { u } };
                let got = call(|| r.round(v));
                let key = || format!("{}({},{}) of {}", m, p, d, v);
                ctx.ok(key, &format!("{} (got {:?})", want, got), got.map_or(false, |g| (g - want).abs() <= 1e-14 * want.abs()));
                ctx.st(1);
                ctx.tr(1);
                ctx.val(1);
                if j < 0 && m != "ceiling" && m != "floor" {
                    ctx.eq(|| format!("{}({},{}) symmetric at {}", m, p, d, v), got, call(|| -r.round(-v)));
                }
                if rest == 0 {
                    ctx.eq(|| format!("{}({},{}) leaves {}", m, p, d, v), Ok(v), got);
                }
            }
            // decimals and large or negative precisions: away from the ambiguous points (a decimal fraction has no
            // exact double) the same rule holds
            for p in -3i32..=9 {
                let Ok(r) = call(|| make(m, p, d)) else { continue };
                for base in [0i64, 3, 99, 123, 9_999, 123_456_789] {
                    for cents in 0..100i64 {
                        for sg in [1i64, -1] {
                            // the value base.cents in units of 10^-p
                            if cents == 0 || cents == d as i64 * 10 {
                                continue;
                            }
                            let v = sg as f64 * (base as f64 + cents as f64 / 100.0) / 10f64.powi(p);
                            let up = match m {
                                "up" => true,
                                "closest" => cents >= d as i64 * 10,
                                "ceiling" => sg < 0 && cents >= d as i64 * 10,
                                "floor" => sg > 0 && cents >= d as i64 * 10,
                                _ => false,
                            };
                            let want = if m == "none" { v } else { sg as f64 * (base + up as i64) as f64 / 10f64.powi(p) };
                            let got = call(|| r.round(v));
                            ctx.ok(|| format!("{}({},{}) of {}", m, p, d, v), &format!("{} (got {:?})", want, got), got.map_or(false, |g| (g - want).abs() <= 1e-12 * want.abs() && (m != "none" || g == v)));
                            ctx.st(1);
                            ctx.val(1);
                        }
                    }
                }
            }
        }
    });
    ctx.bound(format!("6 modes x precisions 0..6 x digits 1..9 x every multiple of 1/{} in [-{},{}] (exact integer oracle); precisions -3..9 x two-decimal fractions off the thresholds", den, span, span));
}

// ------------------------------------------------------------------------------------------- C31

fn ulps(x: f64, k: i64) -> f64 {
    // the k-th neighbour of a finite positive/negative float away from (k>0) or towards (k<0) zero
    f64::from_bits((x.to_bits() as i64 + k) as u64)
}

pub fn c31(ctx: &Ctx) {
    // exact closeness on doubles of one binade pair: |x-y| compared with n*eps*|x| in extended (i128) arithmetic
    let mags: Vec<f64> = vec![1.0, 1.5, 1.999, 2.0, 3.0, 1e-12, 7.3e-5, 0.1, 123.456, 1e9, 8.7e15, 1e-200, 1e200];
    let ks: Vec<i64> = (-200..=200).chain([-5000, -1000, -400, 400, 1000, 2500, 5000, 1 << 40]).collect();
    ctx.par(mags.len(), |i| {
        for sg in [1.0, -1.0] {
            let x = sg * mags[i];
            at(format!("C31 close {}", x));
            for &k in &ks {
                let y = ulps(x, k);
                // both in units of the last place of x's binade: exact unless the product n*eps*|x| rounds; skip ties
                let diff = (x - y).abs();
                for n in [1usize, 2, 10, 42, 100, 2500] {
                    let tol = |v: f64| n as f64 * f64::EPSILON * v.abs();
                    // the difference of neighbours is exact; a tie is decided when the tolerance is exact as well
                    let exact = |v: f64| (n as f64 * f64::EPSILON).mul_add(v.abs(), -tol(v)) == 0.0 && k.abs() < 1 << 20;
                    let margin = |v: f64| ((diff - tol(v)) / tol(v)).abs() < 1e-9 && !exact(v);
                    let (ix, iy) = (diff <= tol(x), diff <= tol(y));
                    ctx.st(1);
                    ctx.val(1);
                    ctx.tr(4);
                    let both = ix && iy;
                    let either = ix || iy;
                    let key = |w: &str| format!("{}({:?},{:?}) n={}", w, x, y, n);
                    if (margin(x) || margin(y)) && !(x == y) {
                        // a tie to rounding: symmetric at least
                        ctx.eq(|| key("close_n symmetric"), close_n(x, y, n), close_n(y, x, n));
                        if n == 42 {
                            ctx.eq(|| key("close symmetric"), (close(x, y), close_enough(x, y)), (close(y, x), close_enough(y, x)));
                            ctx.eq(|| key("close and close_n"), close(x, y), close_n(x, y, 42));
                        }
                        continue;
                    }
                    ctx.eq(|| key("close_n"), (both, both), (close_n(x, y, n), close_n(y, x, n)));
                    if n == 42 {
                        ctx.eq(|| key("close"), (both, both), (close(x, y), close(y, x)));
                        ctx.eq(|| key("close_enough"), (either, either), (close_enough(x, y), close_enough(y, x)));
                    }
                    ctx.eq(|| key("opposite signs"), false, close_n(x, -y, n) || close(x, -y) || close_enough(x, -y));
                }
            }
            ctx.eq(|| format!("reflexive {}", x), (true, true, true), (close(x, x), close_n(x, x, 0), close_enough(x, x)));
        }
    });
    for n in [1usize, 42, 100, 2500] {
        let t = n as f64 * f64::EPSILON;
        for e in -40..=5 {
            for mant in [1.0, 3.3, 9.7] {
                for sg in [1.0, -1.0] {
                    let v = sg * mant * 10f64.powi(e);
                    if (v.abs() / (t * t) - 1.0).abs() < 1e-6 {
                        continue;
                    }
                    let want = v.abs() < t * t;
                    for z in [0.0, -0.0] {
                        ctx.eq(|| format!("close_n({},{},{})", v, z, n), (want, want), (close_n(v, z, n), close_n(z, v, n)));
                        if n == 42 {
                            ctx.eq(|| format!("close({},{})", v, z), (want, want), (close(v, z), close(z, v)));
                            ctx.eq(|| format!("close_enough({},{})", v, z), (want, want), (close_enough(v, z), close_enough(z, v)));
                        }
                        ctx.st(1);
                        ctx.val(1);
                    }
                }
            }
        }
    }
    let inf = f64::INFINITY;
    for (x, y, w) in [(inf, inf, true), (-inf, -inf, true), (0.0, -0.0, true)] {
        ctx.eq(|| format!("special {} {}", x, y), (w, w), (close(x, y), close_n(x, y, 42)));
    }
    // bounds: all sorted slices over 0..4 up to length 6
    let top: usize = ctx.pick(6, 8);
    let mut slices: Vec<Vec<i32>> = vec![vec![]];
    let mut frontier = slices.clone();
    for _ in 0..top {
        frontier = frontier.iter().flat_map(|v| (*v.last().unwrap_or(&0)..=8).step_by(2).map(move |e| { let mut w = v.clone(); w.push(e); w })).collect();
        slices.extend(frontier.clone());
    }
    for s in &slices {
        for v in -1..=9 {
            let (lo, hi) = (s.iter().filter(|e| **e < v).count(), s.iter().filter(|e| **e <= v).count());
            ctx.eq(|| format!("bounds of {} in {:?}", v, s), (Ok(lo), Ok(hi)), (call(|| lower_bound(s, v)), call(|| upper_bound(s, v))));
            let fl: Vec<f64> = s.iter().map(|e| *e as f64 * 0.5).collect();
            ctx.eq(|| format!("bounds of {} in {:?}", v as f64 * 0.5, fl), (Ok(lo), Ok(hi)), (call(|| lower_bound(&fl, v as f64 * 0.5)), call(|| upper_bound(&fl, v as f64 * 0.5))));
            if v >= 0 {
                let ds: Vec<_> = s.iter().map(|e| dt(40_000 + *e)).collect();
                let d = dt(40_000 + v);
                ctx.eq(|| format!("bounds of dates {} in {:?}", v, s), (Ok(lo), Ok(hi)), (call(|| lower_bound(&ds, d)), call(|| upper_bound(&ds, d))));
            }
            ctx.st(1);
            ctx.tr(6);
            ctx.val(1);
        }
    }
    // longer slices: every pair of run boundaries
    let long: usize = ctx.pick(40, 64);
    ctx.par(long - 6, |k| {
        let n = k + 7;
        at(format!("C31 slices of {}", n));
        for i in 0..=n {
            for j in i..=n {
                let s: Vec<f64> = (0..n).map(|k| if k < i { 0.0 } else if k < j { 1.0 } else { 2.0 }).collect();
                for v in [-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 3.0] {
                    let (lo, hi) = (s.iter().filter(|e| **e < v).count(), s.iter().filter(|e| **e <= v).count());
                    ctx.eq(|| format!("bounds of {} in {} zeros, {} ones, {} twos", v, i, j - i, n - j), (Ok(lo), Ok(hi)), (call(|| lower_bound(&s, v)), call(|| upper_bound(&s, v))));
                }
                ctx.st(7);
                ctx.tr(14);
            }
        }
        let s: Vec<i32> = (0..n as i32).map(|k| 3 * k).collect();
        for v in -2..3 * n as i32 + 2 {
            let (lo, hi) = (s.iter().filter(|e| **e < v).count(), s.iter().filter(|e| **e <= v).count());
            ctx.eq(|| format!("bounds of {} in {:?}", v, s), (Ok(lo), Ok(hi)), (call(|| lower_bound(&s, v)), call(|| upper_bound(&s, v))));
        }
        ctx.val(1);
    });
    // very long slices: runs around powers of two and ramps
    let sizes = [65usize, 100, 127, 128, 129, 192, 255, 256, 257, 300, 511, 513, 1000, 1024, 1025, 2049];
    ctx.par(sizes.len(), |k| {
        let n = sizes[k];
        at(format!("C31 slices of {}", n));
        let cuts: Vec<usize> = [0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, n / 2, n - 2, n - 1, n].into_iter().filter(|c| *c <= n).collect();
        for &i in &cuts {
            for &j in cuts.iter().filter(|j| **j >= i) {
                let s: Vec<f64> = (0..n).map(|k| if k < i { 0.0 } else if k < j { 1.0 } else { 2.0 }).collect();
                for (v, lo, hi) in [(-1.0, 0, 0), (0.0, 0, i), (0.5, i, i), (1.0, i, j), (1.5, j, j), (2.0, j, n), (3.0, n, n)] {
                    ctx.eq(|| format!("bounds of {} in {} zeros, {} ones, {} twos", v, i, j - i, n - j), (Ok(lo), Ok(hi)), (call(|| lower_bound(&s, v)), call(|| upper_bound(&s, v))));
                }
                ctx.st(7);
                ctx.tr(14);
            }
        }
        let s: Vec<i32> = (0..n as i32).map(|k| 40_000 + 3 * (k / 2)).collect();
        let ds: Vec<_> = s.iter().map(|x| dt(*x)).collect();
        for v in 40_000 - 2..40_000 + 3 * (n as i32 / 2) + 2 {
            let (lo, hi) = (s.iter().filter(|e| **e < v).count(), s.iter().filter(|e| **e <= v).count());
            ctx.eq(|| format!("bounds of {} in {} dates in pairs", v, n), (Ok(lo), Ok(hi)), (call(|| lower_bound(&ds, dt(v))), call(|| upper_bound(&ds, dt(v)))));
        }
        ctx.val(1);
    });
    ctx.bound(format!("slices of {:?} elements in three runs cut near powers of two, and ramps of pairs", sizes));
    ctx.bound(format!("slices of 7..={} elements in every three runs, and strictly increasing ones, every value", long));
    arrays(ctx);
    ctx.bound(format!("{} magnitudes x 2 signs x {} neighbours x 6 multiples; zero operands over 46 decades; all {} sorted slices up to length {} over 5 letters x 11 values", mags.len(), ks.len(), slices.len(), top));
}

fn arrays(ctx: &Ctx) {
    let alpha: &[f64] = if ctx.thorough() { &[-2.0, 0.0, 0.5, 3.0] } else { &[-2.0, 0.5, 3.0] };
    let mut all = vec![];
    for n in 0..=4 {
        all.extend(tuples(alpha, n));
    }
    // longer ones: a ramp with one element out of line
    for n in [5, 7, 8, 9, 16, 17, 33, 63, 64, 65, 129, 300] {
        for k in [0, n / 2, n - 1] {
            all.push((0..n).map(|i| if i == k { -7.0 } else { 0.75 + i as f64 }).collect());
        }
    }
    let mk = |v: &[f64]| Array::new(v.to_vec());
    let data = |o: Out<Array>| o.map(|a| a.data);
    let same = |w: &[f64], g: &Out<Vec<f64>>| g.as_ref().map_or(false, |g| g.len() == w.len() && g.iter().zip(w).all(|(a, b)| feq(*a, *b, 1e-13)));
    ctx.par(all.len(), |i| {
        let a = &all[i];
        at(format!("C31 array {:?}", a));
        let un = |what: &str, f: &dyn Fn(f64) -> f64, got: Out<Vec<f64>>| {
            let want: Vec<f64> = a.iter().map(|x| f(*x)).collect();
            ctx.ok(|| format!("{} {:?}", what, a), &format!("{:?} (got {:?})", want, got), same(&want, &got));
            ctx.st(1);
            ctx.tr(1);
            ctx.val(1);
        };
        un("neg", &|x| -x, data(call(|| -mk(a))));
        un("abs", &|x| x.abs(), data(call(|| mk(a).abs())));
        un("sqrt", &|x| x.sqrt(), data(call(|| mk(a).sqrt())));
        un("log", &|x| x.ln(), data(call(|| mk(a).log())));
        un("exp", &|x| x.exp(), data(call(|| mk(a).exp())));
        for p in [0.0, 1.0, 2.0, -1.0, 0.5, 3.0] {
            un("pow", &|x| x.powf(p), data(call(|| mk(a).pow(p))));
        }
        for s in [-1.5, 0.25, 2.0] {
            un("+ scalar", &|x| x + s, data(call(|| mk(a) + s)));
            un("- scalar", &|x| x - s, data(call(|| mk(a) - s)));
            un("* scalar", &|x| x * s, data(call(|| mk(a) * s)));
            un("/ scalar", &|x| x / s, data(call(|| mk(a) / s)));
        }
        ctx.eq(|| format!("size {:?}", a), (a.len(), a.is_empty()), (mk(a).size(), mk(a).empty()));
        ctx.close(|| format!("norm {:?}", a), a.iter().map(|x| x * x).sum::<f64>().sqrt(), call(|| mk(a).norm2()), 1e-13);
        for k in 0..=a.len() {
            ctx.eq(|| format!("index {} of {:?}", k, a), a.get(k).copied().ok_or(Refused), call(|| mk(a)[k]));
            let mut w = a.clone();
            let g = call(|| { let mut b = mk(a); b[k] = 9.0; b.data });
            if k < a.len() {
                w[k] = 9.0;
                ctx.eq(|| format!("assign {} of {:?}", k, a), Ok(w), g);
            } else {
                ctx.eq(|| format!("assign {} of {:?}", k, a), Err(Refused), g);
            }
        }
        for b in &all {
            let z = |f: fn(f64, f64) -> f64| if a.len() == b.len() { Ok(a.iter().zip(b).map(|(x, y)| f(*x, *y)).collect::<Vec<f64>>()) } else { Err(Refused) };
            let bin = |what: &str, want: Out<Vec<f64>>, got: Out<Vec<f64>>| {
                let good = match &want { Ok(w) => same(w, &got), Err(_) => got.is_err() };
                ctx.ok(|| format!("{:?} {} {:?}", a, what, b), &format!("{:?} (got {:?})", want, got), good);
                ctx.tr(1);
                ctx.val(1);
            };
            bin("+", z(|x, y| x + y), data(call(|| mk(a) + mk(b))));
            bin("-", z(|x, y| x - y), data(call(|| mk(a) - mk(b))));
            bin("*", z(|x, y| x * y), data(call(|| mk(a) * mk(b))));
            bin("/", z(|x, y| x / y), data(call(|| mk(a) / mk(b))));
            let dot = call(|| mk(a).dot_product(&mk(b)));
            if a.len() == b.len() {
                ctx.close(|| format!("{:?} . {:?}", a, b), a.iter().zip(b).map(|(x, y)| x * y).sum(), dot, 1e-13);
            } else {
                ctx.eq(|| format!("{:?} . {:?}", a, b), Err(Refused), dot);
            }
            ctx.eq(|| format!("{:?} == {:?}", a, b), a == b, mk(a) == mk(b));
            let mut p = mk(a);
            let mut q = mk(b);
            p.swap(&mut q);
            ctx.eq(|| format!("swap {:?} {:?}", a, b), (b.clone(), a.clone()), (p.data, q.data));
            ctx.st(1);
        }
    });
    ctx.bound(format!("all arrays up to length 4 over {:?} and 21 of lengths 5 to 33 ({} together), all ordered pairs", alpha, all.len()));
}

// ------------------------------------------------------------------------------------------- C32

pub fn c32(ctx: &Ctx) {
    // ISO 4217 and the documentation of each type: code, number, name, symbol, fraction symbol
    type Row = (&'static str, i32, &'static str, &'static str, &'static str);
    macro_rules! cur {
        ($($t:ident $row:expr),* $(,)?) => {{
            let rows: Vec<(Row, Rc<dyn Currency>, Rc<dyn Currency>)> = vec![$(($row, Rc::new($t::new()) as Rc<dyn Currency>, Rc::new($t::default()) as Rc<dyn Currency>)),*];
            $( ctx.ok(|| format!("{} equals itself", stringify!($t)), "new() == default()", $t::new() == $t::default() && $t::new().data() == $t::default().data()); )*
            rows
        }};
    }
    let rows = cur![
        ZARCurrency ("ZAR", 710, "South-African rand", "R", ""),
        CADCurrency ("CAD", 124, "Canadian dollar", "Can$", ""),
        USDCurrency ("USD", 840, "U.S. dollar", "$", "\u{a2}"),
        CNYCurrency ("CNY", 156, "Chinese yuan", "Y", ""),
        HKDCurrency ("HKD", 344, "Hong Kong dollar", "HK$", ""),
        JPYCurrency ("JPY", 392, "Japanese yen", "\u{a5}", ""),
        KRWCurrency ("KRW", 410, "South-Korean won", "W", ""),
        SARCurrency ("SAR", 682, "Saudi riyal", "SRls", ""),
        SGDCurrency ("SGD", 702, "Singapore dollar", "S$", ""),
        CNHCurrency ("CNH", 156, "Chinese yuan (Hong Kong)", "CNH", ""),
        CHFCurrency ("CHF", 756, "Swiss franc", "SwF", ""),
        EURCurrency ("EUR", 978, "European Euro", "\u{20ac}", ""),
        GBPCurrency ("GBP", 826, "British pound sterling", "\u{a3}", "p"),
        NOKCurrency ("NOK", 578, "Norwegian krone", "NKr", ""),
        SEKCurrency ("SEK", 752, "Swedish krona", "kr", ""),
        AUDCurrency ("AUD", 36, "Australian dollar", "A$", ""),
        NZDCurrency ("NZD", 554, "New Zealand dollar", "NZ$", ""),
    ];
    let mut codes = HashSet::new();
    let mut numbers = HashSet::new();
    for (w, c, d) in &rows {
        at(format!("C32 {}", w.0));
        for x in [c, d] {
            ctx.eq(|| format!("{} data", w.0), (w.0, w.1, w.2, w.3, w.4, 100), (x.code(), x.numeric_code(), x.name(), x.symbol(), x.fraction_symbol(), x.fractions_per_unit()));
            ctx.ok(|| format!("{} triangulation and minor units", w.0), "none", x.triangulation_currency().is_none() && x.minor_unit_codes().is_empty());
            // the euro rounds to the nearest cent, the others are left alone
            for v in [0.0, 1.0, 2.345001, -2.345001, 0.004, 0.006, 123.454, -77.7777] {
                let want = if w.0 == "EUR" { (v * 100.0f64).round() / 100.0 } else { v };
                ctx.ok(|| format!("{} rounding of {}", w.0, v), &format!("{}", want), (x.rounding().round(v) - want).abs() < 1e-12);
            }
            ctx.st(1);
            ctx.tr(9);
            ctx.val(1);
            // money keeps its amount and its currency
            for v in [0.0, -1.25, 1e9] {
                let m = Money::new(x.clone(), v);
                let k = m.clone();
                ctx.eq(|| format!("money {} {}", v, w.0), (v, w.0, v, w.0), (m.value, m.currency.code(), k.value, k.currency.code()));
            }
        }
        ctx.ok(|| format!("{} printed", w.0), "the code", format!("{:?}", c.data()) == w.0);
        codes.insert(c.code().to_string());
        // the offshore yuan has no number of its own
        if w.0 != "CNH" {
            numbers.insert(c.numeric_code());
        }
        for (v, e, _) in &rows {
            ctx.eq(|| format!("{} == {}", w.0, v.0), w.0 == v.0, c.data() == e.data());
            ctx.tr(1);
        }
    }
    ctx.eq(|| "distinct codes".into(), (17, 16), (codes.len(), numbers.len()));
    ctx.bound("all 17 currencies, all pairs");
}

// ------------------------------------------------------------------------------------------- C34

struct Flat(f64);
impl ZeroYieldStructure for Flat {
    fn zero_yield(&self, _t: f64) -> f64 {
        self.0
    }
}
struct Sloped(f64, f64);
impl ZeroYieldStructure for Sloped {
    fn zero_yield(&self, t: f64) -> f64 {
        assert!(t != 0.0, "the zero yield at time zero is not needed");
        self.0 + self.1 * t
    }
}
struct Bid(f64);
impl Quote for Bid {
    fn value(&self) -> f64 {
        self.0
    }
    fn is_valid(&self) -> bool {
        false
    }
}

pub fn c34(ctx: &Ctx) {
    let rates = [-0.5, -0.01, 0.0, 0.0001, 0.03, 0.25, 2.0];
    let slopes = [-0.01, 0.0, 0.002, 0.3];
    for r in rates {
        let tiny = (0..=300).map(|k| 10f64.powi(k - 300)).chain((-40..=40).map(|k| 2f64.powi(k))).filter(|t| *t <= 1000.0);
        let days = [360.0, 365.0, 365.25].into_iter().flat_map(|n| (0..=ctx.pick(800, 4000)).map(move |i| i as f64 / n));
        for t in (0..=ctx.pick(400, 4000)).map(|i| i as f64 / 40.0).chain(tiny).chain(days) {
            at("C34 discount");
            let rel = |want: f64, got: Result<f64, Refused>| matches!(got, Ok(g) if (g - want).abs() <= 1e-12 * (1.0 + want.ln().abs()) * want);
            let (want, got) = ((-r * t).exp(), call(|| Flat(r).discount(t)));
            if want.is_finite() && want > 1e-300 {
                ctx.ok(|| format!("flat {} discount at {} is {:?}", r, t, got), "exp(-rt)", rel(want, got.clone()));
            }
            for b in slopes {
                let want = (-(r + b * t) * t).exp();
                if want.is_finite() && want > 1e-300 {
                    let got = call(|| Sloped(r, b).discount(t));
                    ctx.ok(|| format!("zero yield {}+{}t discount at {} is {:?}", r, b, t, got), "exp(-zt)", rel(want, got.clone()));
                }
            }
            ctx.st(1);
            ctx.tr(5);
            ctx.val(5);
        }
    }
    for v in [-3.0, 0.0, 1e-9, 1.5, 99.25, 1e12] {
        let q = Arc::new(SimpleQuote::new(v));
        let s = Stock::new(q.clone());
        let b = Stock::new(Arc::new(Bid(v)));
        ctx.eq(|| format!("quote {}", v), (v, true), (q.value(), q.is_valid()));
        ctx.eq(|| format!("stock worth {}", v), (Ok(v), Ok(v), Ok(v)), (call(|| s.npv()), call(|| s.calculate().npv), call(|| b.npv())));
        ctx.eq(|| format!("stock {} error and date", v), (0.0, rust_quantlib::datetime::date::Date::default()), { let r = s.calculate(); (r.error_estimate, r.valuation_date) });
        ctx.st(1);
        ctx.val(4);
    }
    ctx.bound("7 rates x 4 slopes x times every 1/40 year, every day of a few years, powers of ten and two from 1e-300 to 1000; 6 quote values");
}
