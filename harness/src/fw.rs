//! Exploration framework: counters, case-level panic isolation, violation records, known findings,
//! watchdog, evidence.  Everything is deterministic: no randomness, no clock in any verdict
//! (the watchdog only reports a single implementation call that does not come back).

use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::fs;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const THREADS: usize = 8;
const MAX_RECORDED: usize = 40;
const HANG_SECS: u64 = 45;
const RSS_LIMIT_KB: u64 = 7_000_000;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub key: String,
    pub expected: String,
    pub observed: String,
}

pub struct Ctx {
    pub id: String,
    pub tier: Tier,
    /// distinct model states (or points of the enumerated space) visited
    pub states: AtomicU64,
    /// transitions explored (operations applied / calls compared)
    pub transitions: AtomicU64,
    /// model traces replayed on the implementation and compared
    pub validated: AtomicU64,
    /// distinct observations, per outcome class (guards against vacuity)
    pub outcomes: Mutex<BTreeMap<String, u64>>,
    pub violations: Mutex<BTreeMap<String, Violation>>,
    pub n_viol: AtomicU64,
    pub known: BTreeMap<String, String>,
    pub known_hit: Mutex<BTreeMap<String, Violation>>,
    pub samples: Mutex<Vec<String>>,
    pub bounds: Mutex<Vec<String>>,
    pub replay: Option<String>,
    pub errors: AtomicU64,
    stop: AtomicBool,
}

struct Slot {
    ticks: AtomicU64,
    active: AtomicBool,
    label: Mutex<String>,
}
static SLOTS: [Slot; 64] = {
    const S: Slot = Slot { ticks: AtomicU64::new(0), active: AtomicBool::new(false), label: Mutex::new(String::new()) };
    [S; 64]
};
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static SLOT: Cell<usize> = const { Cell::new(usize::MAX) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
}

fn slot() -> &'static Slot {
    let mut i = SLOT.with(|s| s.get());
    if i == usize::MAX {
        i = NEXT_SLOT.fetch_add(1, Relaxed) % 64;
        SLOT.with(|s| s.set(i));
    }
    &SLOTS[i]
}

/// A short-lived thread whose caller looks after it: its calls are not watched for hangs here.
pub fn unwatched() {
    SLOT.with(|s| s.set(UNWATCHED));
}
const UNWATCHED: usize = usize::MAX - 1;

/// Names what the calling thread is exploring (used for hang reports and unexpected panics).
pub fn at(label: impl Into<String>) {
    *slot().label.lock().unwrap() = label.into();
    slot().ticks.fetch_add(1, Relaxed);
}

fn label() -> String {
    slot().label.lock().unwrap().clone()
}

/// The outcome of one implementation call: a value, or a refusal (panic) with its message dropped.
pub type Out<T> = Result<T, Refused>;
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Refused;
impl Debug for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "refused")
    }
}

/// Runs one call of the implementation; a panic is an observable outcome, not an error.
#[inline]
pub fn call<T>(f: impl FnOnce() -> T) -> Out<T> {
    if SLOT.with(|s| s.get()) == UNWATCHED {
        DEPTH.with(|d| d.set(d.get() + 1));
        let r = catch_unwind(AssertUnwindSafe(f));
        DEPTH.with(|d| d.set(d.get() - 1));
        return r.map_err(|_| Refused);
    }
    let s = slot();
    s.ticks.fetch_add(1, Relaxed);
    let was = s.active.swap(true, Relaxed);
    DEPTH.with(|d| d.set(d.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    DEPTH.with(|d| d.set(d.get() - 1));
    s.active.store(was, Relaxed);
    r.map_err(|_| Refused)
}

impl Ctx {
    pub fn new(id: &str, tier: Tier, replay: Option<String>) -> Self {
        let mut known = BTreeMap::new();
        if let Ok(t) = fs::read_to_string("known_findings.txt") {
            for l in t.lines() {
                let l = l.trim();
                // property=<id> key=<key> :: <what fails>
                if let Some(rest) = l.strip_prefix("property=") {
                    if let Some((pid, rest)) = rest.split_once(" key=") {
                        if pid == id {
                            let (k, what) = rest.split_once(" :: ").unwrap_or((rest, ""));
                            known.insert(k.to_string(), what.to_string());
                        }
                    }
                }
            }
        }
        Ctx {
            id: id.to_string(),
            tier,
            states: AtomicU64::new(0),
            transitions: AtomicU64::new(0),
            validated: AtomicU64::new(0),
            outcomes: Mutex::new(BTreeMap::new()),
            violations: Mutex::new(BTreeMap::new()),
            n_viol: AtomicU64::new(0),
            known,
            known_hit: Mutex::new(BTreeMap::new()),
            samples: Mutex::new(vec![]),
            bounds: Mutex::new(vec![]),
            replay,
            errors: AtomicU64::new(0),
            stop: AtomicBool::new(false),
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough() { thorough } else { quick }
    }
    pub fn st(&self, n: u64) {
        self.states.fetch_add(n, Relaxed);
    }
    pub fn tr(&self, n: u64) {
        self.transitions.fetch_add(n, Relaxed);
    }
    pub fn val(&self, n: u64) {
        self.validated.fetch_add(n, Relaxed);
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.bounds.lock().unwrap().push(s.into());
    }
    pub fn sample(&self, f: impl FnOnce() -> String) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 12 {
            s.push(f());
        }
    }
    pub fn outcome(&self, k: &str, n: u64) {
        *self.outcomes.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    pub fn fail(&self, key: impl Into<String>, expected: impl Into<String>, observed: impl Into<String>) {
        let v = Violation { key: key.into(), expected: expected.into(), observed: observed.into() };
        if self.known.contains_key(&v.key) {
            self.known_hit.lock().unwrap().insert(v.key.clone(), v);
            return;
        }
        let n = self.n_viol.fetch_add(1, Relaxed);
        let mut m = self.violations.lock().unwrap();
        if m.len() < MAX_RECORDED || self.replay.as_deref() == Some(&v.key) {
            m.insert(v.key.clone(), v);
        }
        if n > 3000 && self.replay.is_none() {
            self.stop.store(true, Relaxed);
        }
    }
    /// Compares one observation with the model's prediction.
    #[inline]
    pub fn eq<T: PartialEq + Debug>(&self, key: impl FnOnce() -> String, want: T, got: T) -> bool {
        if want == got {
            return true;
        }
        self.fail(key(), format!("{:?}", want), format!("{:?}", got));
        false
    }
    #[inline]
    pub fn ok(&self, key: impl FnOnce() -> String, what: &str, cond: bool) -> bool {
        if !cond {
            self.fail(key(), what.to_string(), "does not hold".to_string());
        }
        cond
    }
    /// Floating-point agreement within a relative tolerance (summation order is not part of any property).
    #[inline]
    pub fn close(&self, key: impl FnOnce() -> String, want: f64, got: Out<f64>, tol: f64) -> bool {
        match got {
            Ok(g) if feq(want, g, tol) => true,
            g => {
                self.fail(key(), format!("{:?}", want), format!("{:?}", g));
                false
            }
        }
    }
    /// Explores the indices 0..n on all threads; every panic outside `call` is a defect of the check
    /// itself unless it unwinds from implementation code, so it is reported with its label.
    pub fn par(&self, n: usize, f: impl Fn(usize) + Sync) {
        let next = AtomicUsize::new(0);
        std::thread::scope(|s| {
            for _ in 0..THREADS.min(n.max(1)) {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, || loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stopped() {
                            break;
                        }
                        if catch_unwind(AssertUnwindSafe(|| f(i))).is_err() {
                            self.errors.fetch_add(1, Relaxed);
                        }
                    })
                    .unwrap();
            }
        });
    }
}

/// A value of the implementation made once per thread: the implementation's types need not be shareable.
pub struct Each<F> {
    make: F,
    id: usize,
}
static NEXT_EACH: AtomicUsize = AtomicUsize::new(0);
thread_local! {
    static MADE: std::cell::RefCell<BTreeMap<usize, std::rc::Rc<dyn std::any::Any>>> = const { std::cell::RefCell::new(BTreeMap::new()) };
}
pub fn each<T: 'static, F: Fn() -> T + Sync>(make: F) -> Each<F> {
    Each { make, id: NEXT_EACH.fetch_add(1, Relaxed) }
}
impl<F> Each<F> {
    pub fn get<T: 'static>(&self) -> std::rc::Rc<T>
    where
        F: Fn() -> T + Sync,
    {
        if let Some(v) = MADE.with(|m| m.borrow().get(&self.id).cloned()) {
            return v.downcast::<T>().unwrap();
        }
        let v = std::rc::Rc::new((self.make)());
        MADE.with(|m| m.borrow_mut().insert(self.id, v.clone()));
        v
    }
}

#[inline]
pub fn feq(a: f64, b: f64, tol: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    if !a.is_finite() || !b.is_finite() {
        return false;
    }
    (a - b).abs() <= tol * a.abs().max(b.abs()).max(1.0)
}

fn rss_kb() -> u64 {
    fs::read_to_string("/proc/self/statm")
        .ok()
        .and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok()))
        .unwrap_or(0)
        * 4
}

fn write_replay(ctx: &Ctx, v: &Violation) -> String {
    let dir = "replays";
    let _ = fs::create_dir_all(dir);
    let path = format!("{}/{}.txt", dir, ctx.id);
    let _ = fs::write(
        &path,
        format!(
            "property={}\ntier={}\nkey={}\nexpected={}\nobserved={}\n# replay: ./check.sh replay /verif/{}\n",
            ctx.id,
            if ctx.thorough() { "thorough" } else { "quick" },
            v.key,
            v.expected,
            v.observed,
            path
        ),
    );
    format!("/verif/{}", path)
}

fn watchdog(ctx: &'static Ctx) {
    std::thread::spawn(move || {
        let mut last: Vec<(u64, Instant)> = (0..64).map(|_| (0, Instant::now())).collect();
        loop {
            std::thread::sleep(Duration::from_millis(200));
            let big = rss_kb() > RSS_LIMIT_KB;
            for (i, s) in SLOTS.iter().enumerate() {
                let t = s.ticks.load(Relaxed);
                if t != last[i].0 || !s.active.load(Relaxed) {
                    last[i] = (t, Instant::now());
                }
                let hung = s.active.load(Relaxed) && last[i].1.elapsed() > Duration::from_secs(HANG_SECS);
                if hung || (big && s.active.load(Relaxed) && last[i].1.elapsed() > Duration::from_secs(1)) {
                    let l = s.label.try_lock().map(|l| l.clone()).unwrap_or_default();
                    let v = Violation {
                        key: format!("no return: {}", l),
                        expected: "the call returns".into(),
                        observed: if hung { format!("no return after {} s", HANG_SECS) } else { "memory grows without bound".into() },
                    };
                    ctx.n_viol.fetch_add(1, Relaxed);
                    let p = write_replay(ctx, &v);
                    println!("VIOLATION property={} replay={}", ctx.id, p);
                    println!("  {} expected: {} observed: {}", v.key, v.expected, v.observed);
                    evidence(ctx, 0.0, false);
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
            }
        }
    });
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(ctx: &Ctx, wall: f64, complete: bool) {
    let list = |v: &[String]| v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ");
    let outs = ctx.outcomes.lock().map(|o| o.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect::<Vec<_>>().join(", ")).unwrap_or_default();
    let samples = ctx.samples.try_lock().map(|s| list(&s)).unwrap_or_default();
    let bounds = ctx.bounds.try_lock().map(|s| list(&s)).unwrap_or_default();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let t = format!(
        "{{\n \"property\": {},\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"samples\": [{}],\n  \"bounds\": [{}],\n  \"outcome_classes\": {{{}}},\n  \"exhaustive\": {}\n }},\n \"assumptions\": [\"every enumeration is complete within the listed bounds; values outside them are not covered\", \"the reference models in /verif/harness/src are trusted\"],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        js(&ctx.id), if ctx.thorough() { "thorough" } else { "quick" }, seed,
        ctx.states.load(Relaxed), ctx.transitions.load(Relaxed), ctx.validated.load(Relaxed),
        samples, bounds, outs, complete && !ctx.stopped(), wall, ctx.n_viol.load(Relaxed)
    );
    let _ = fs::create_dir_all("evidence");
    let _ = fs::write(format!("evidence/{}.json", ctx.id), t);
}

pub fn main_run(ctx: Ctx, run: fn(&Ctx)) -> i32 {
    let ctx: &'static Ctx = Box::leak(Box::new(ctx));
    std::panic::set_hook(Box::new(|info| {
        if DEPTH.with(|d| d.get()) == 0 {
            // a panic raised by the code under test where the check expected a plain answer
            if info.location().is_some_and(|l| !l.file().starts_with("src/")) {
                ctx.fail(format!("unexpected refusal while exploring {}", label()), "a value", format!("{}", info));
                ctx.errors.fetch_add(1, Relaxed);
                return;
            }
            ctx.errors.fetch_add(1, Relaxed);
            eprintln!("panic outside an implementation call: {} [{}]", info, label());
        }
    }));
    watchdog(ctx);
    let t0 = Instant::now();
    let r = catch_unwind(AssertUnwindSafe(|| run(ctx)));
    let wall = t0.elapsed().as_secs_f64();
    if ctx.replay.is_none() {
        evidence(ctx, wall, r.is_ok() && ctx.errors.load(Relaxed) == 0);
    }
    for (k, v) in ctx.known_hit.lock().unwrap().iter() {
        println!("KNOWN-FINDING: property={} {} ({}; expected {} observed {})", ctx.id, k, ctx.known[k], v.expected, v.observed);
    }
    let m = ctx.violations.lock().unwrap();
    if let Some(k) = &ctx.replay {
        return match m.get(k) {
            Some(v) => {
                println!("REPRODUCED property={} {}\n  expected: {}\n  observed: {}", ctx.id, v.key, v.expected, v.observed);
                1
            }
            None => {
                println!("not reproduced: property={} {}", ctx.id, k);
                0
            }
        };
    }
    let n = ctx.n_viol.load(Relaxed);
    if n > 0 {
        let v = m.values().min_by_key(|v| (v.key.len(), v.key.clone())).unwrap();
        let p = write_replay(ctx, v);
        println!("VIOLATION property={} replay={}", ctx.id, p);
        println!("{} case(s) disagree; {} recorded, the first ones:", n, m.len());
        for v in m.values().take(12) {
            println!("  {}\n    expected: {}\n    observed: {}", v.key, v.expected, v.observed);
        }
        return 1;
    }
    if r.is_err() || ctx.errors.load(Relaxed) > 0 {
        println!("ERROR property={}: the check itself stopped", ctx.id);
        return 3;
    }
    println!(
        "OK property={} states={} transitions={} traces={} wall={:.1}s",
        ctx.id, ctx.states.load(Relaxed), ctx.transitions.load(Relaxed), ctx.validated.load(Relaxed), wall
    );
    0
}
