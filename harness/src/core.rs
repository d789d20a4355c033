//! Exploration engine shared by all checks.
//!
//! A check is a list of *units*; a unit enumerates a part of the check's finite space
//! completely, one *case* after the other.  Units run on all cores.  Every case executes the
//! real code; a panic inside a case is caught and becomes that case's result.  A watchdog turns
//! a case that does not end into a violation.
use std::{
    cell::{Cell, RefCell},
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*},
        Mutex,
    },
    time::{Duration, Instant},
};

pub const CASE_LIMIT: Duration = Duration::from_secs(20);
const MAX_VIOLATIONS: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Violation {
    pub unit: String,
    pub unit_index: usize,
    pub case_no: u64,
    pub case: String,
    pub what: String,
}

pub struct Unit<'a> {
    pub label: String,
    pub run: Box<dyn Fn(&Ctx) + Send + Sync + 'a>,
}

/// What a unit's enumeration sees: counters, and where to report.
pub struct Ctx<'s> {
    pub tier: Tier,
    shared: &'s Shared,
    unit: String,
    unit_index: usize,
    slot: usize,
    case_no: Cell<u64>,
    states: Cell<u64>,
    transitions: Cell<u64>,
    validated: Cell<u64>,
    outcomes: RefCell<BTreeMap<String, u64>>,
    samples: RefCell<Vec<String>>,
}

#[derive(Default)]
#[repr(align(128))]
struct Slot {
    /// 0: idle; otherwise milliseconds since start at which the case began, plus one.
    started: AtomicU64,
    case_no: AtomicU64,
    unit: AtomicUsize,
}

#[derive(Default)]
struct Totals {
    states: u64,
    transitions: u64,
    validated: u64,
    outcomes: BTreeMap<String, u64>,
    samples: BTreeMap<usize, Vec<String>>,
}

pub struct Shared {
    t0: Instant,
    slots: Vec<Slot>,
    totals: Mutex<Totals>,
    violations: Mutex<Vec<Violation>>,
    stop: AtomicBool,
    only_case: Option<u64>,
    next_pulse: AtomicU64,
    /// Advanced by the watchdog (reading the clock in every case is slow here).
    now_ms: AtomicU64,
    /// With MC_TRACE: where each thread notes the case it is about to run (to find the one that
    /// kills the process).
    trace: Vec<std::fs::File>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("panicked: {msg} ({loc})"));
    }));
}

/// Runs `f` on the real code; a panic comes back as an error text.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl<'s> Ctx<'s> {
    /// One case: `desc` renders it (only when needed), `body` executes and judges it.
    pub fn case(&self, desc: impl Fn() -> String, body: impl FnOnce() -> Result<(), String>) {
        let no = self.case_no.get();
        self.case_no.set(no + 1);
        if let Some(only) = self.shared.only_case {
            if only != no {
                return;
            }
            println!("case {no}: {}", desc());
        }
        if self.shared.stop.load(Relaxed) {
            return;
        }
        let slot = &self.shared.slots[self.slot];
        slot.case_no.store(no, Relaxed);
        slot.unit.store(self.unit_index, Relaxed);
        slot.started
            .store(self.shared.now_ms.load(Relaxed) + 1, Release);
        self.states.set(self.states.get() + 1);
        if let Some(f) = self.shared.trace.get(self.slot) {
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{}\t{no}\n", self.unit).as_bytes(), 0);
        }
        if no < 2 {
            self.samples.borrow_mut().push(desc());
        }
        let r = guarded(body).and_then(|x| x);
        slot.started.store(0, Release);
        if let Err(what) = r {
            let mut v = self.shared.violations.lock().unwrap();
            v.push(Violation {
                unit: self.unit.clone(),
                unit_index: self.unit_index,
                case_no: no,
                case: desc(),
                what,
            });
            if v.len() >= MAX_VIOLATIONS {
                self.shared.stop.store(true, Relaxed);
            }
        }
    }
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// Steps of the real code executed (calls, operations, lines fed, file operations...).
    pub fn steps(&self, n: u64) {
        self.transitions.set(self.transitions.get() + n);
    }
    /// The implementation's observable result was compared with the reference model's.
    pub fn validated(&self) {
        self.validated.set(self.validated.get() + 1);
    }
    pub fn outcome(&self, name: &str) {
        let mut o = self.outcomes.borrow_mut();
        if let Some(n) = o.get_mut(name) {
            *n += 1;
        } else {
            o.insert(name.to_string(), 1);
        }
    }
    pub fn stopped(&self) -> bool {
        self.shared.stop.load(Relaxed)
    }
}

pub struct Report {
    pub states: u64,
    pub transitions: u64,
    pub validated: u64,
    pub outcomes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub units: usize,
    pub completed: bool,
    pub wall_s: f64,
}

pub fn explore(tier: Tier, units: Vec<Unit>, only: Option<(String, u64)>, threads: usize) -> Report {
    let units: Vec<Unit> = match &only {
        Some((label, _)) => units.into_iter().filter(|u| u.label == *label).collect(),
        None => units,
    };
    let shared = Shared {
        t0: Instant::now(),
        slots: (0..threads).map(|_| Slot::default()).collect(),
        totals: Mutex::default(),
        violations: Mutex::default(),
        stop: AtomicBool::new(false),
        only_case: only.as_ref().map(|o| o.1),
        next_pulse: AtomicU64::new(10),
        now_ms: AtomicU64::new(0),
        trace: match std::env::var("MC_TRACE") {
            Ok(dir) => (0..threads)
                .map(|i| std::fs::File::create(format!("{dir}/{i}")).unwrap())
                .collect(),
            Err(_) => Vec::new(),
        },
    };
    let next = AtomicUsize::new(0);
    let running = AtomicUsize::new(threads);
    let done_units = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for slot in 0..threads {
            let (shared, units, next, running, done_units) =
                (&shared, &units, &next, &running, &done_units);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    loop {
                        let i = next.fetch_add(1, SeqCst);
                        let Some(u) = units.get(i) else { break };
                        if shared.stop.load(Relaxed) {
                            break;
                        }
                        let ctx = Ctx {
                            tier,
                            shared,
                            unit: u.label.clone(),
                            unit_index: i,
                            slot,
                            case_no: Cell::new(0),
                            states: Cell::new(0),
                            transitions: Cell::new(0),
                            validated: Cell::new(0),
                            outcomes: RefCell::default(),
                            samples: RefCell::default(),
                        };
                        if let Err(e) = guarded(|| (u.run)(&ctx)) {
                            // Not inside a case: the code under check failed on an input the
                            // unit is built from.
                            shared.violations.lock().unwrap().push(Violation {
                                unit: u.label.clone(),
                                unit_index: i,
                                case_no: ctx.case_no.get(),
                                case: format!("inputs of unit {}", u.label),
                                what: e,
                            });
                        }
                        let mut t = shared.totals.lock().unwrap();
                        t.states += ctx.states.get();
                        t.transitions += ctx.transitions.get();
                        t.validated += ctx.validated.get();
                        for (k, v) in ctx.outcomes.into_inner() {
                            *t.outcomes.entry(k).or_default() += v;
                        }
                        if t.samples.len() < 40 {
                            t.samples.insert(i, ctx.samples.into_inner());
                        }
                        drop(t);
                        done_units.fetch_add(1, SeqCst);
                    }
                    running.fetch_sub(1, SeqCst);
                })
                .unwrap();
        }
        // Watchdog.
        while running.load(SeqCst) > 0 {
            std::thread::sleep(Duration::from_millis(20));
            let now = shared.t0.elapsed();
            shared.now_ms.store(now.as_millis() as u64, Relaxed);
            if now.as_secs() >= shared.next_pulse.load(Relaxed) {
                shared.next_pulse.fetch_add(30, Relaxed);
                eprintln!(
                    "[{:>4}s] units {}/{}",
                    now.as_secs(),
                    done_units.load(SeqCst),
                    units.len()
                );
            }
            for slot in &shared.slots {
                let st = slot.started.load(Acquire);
                if st != 0 && now.as_millis() as u64 > st + CASE_LIMIT.as_millis() as u64 {
                    let u = slot.unit.load(Relaxed);
                    let no = slot.case_no.load(Relaxed);
                    // Reported through the exit status: the stuck thread cannot be stopped.
                    println!("HANG {}\t{}", units[u].label, no);
                    std::process::exit(4);
                }
            }
        }
    });
    let t = shared.totals.into_inner().unwrap();
    let mut violations = shared.violations.into_inner().unwrap();
    violations.sort_by_key(|v| (v.unit_index, v.case_no));
    let all: Vec<String> = t.samples.into_values().flatten().collect();
    let stride = (all.len() / 8).max(1);
    Report {
        states: t.states,
        transitions: t.transitions,
        validated: t.validated,
        outcomes: t.outcomes,
        samples: all.into_iter().step_by(stride).take(8).collect(),
        violations,
        units: units.len(),
        completed: done_units.load(SeqCst) == units.len(),
        wall_s: shared.t0.elapsed().as_secs_f64(),
    }
}

/// mc ID quick|thorough REPORT.json [UNIT CASE_NO]
pub fn drive(args: &[String], units: fn(&str, Tier) -> Option<Vec<Unit<'static>>>, cleanup: fn()) {
    let (id, tier, out) = (&args[1], &args[2], &args[3]);
    let tier = if tier == "thorough" { Tier::Thorough } else { Tier::Quick };
    let only = args.get(4).map(|u| (u.clone(), args[5].parse().unwrap()));
    install_panic_hook();
    // The code under check may already fail on the inputs the units are made of.
    let units = match guarded(|| units(id, tier)) {
        Ok(Some(u)) => u,
        Ok(None) => {
            eprintln!("no such property: {id}");
            std::process::exit(2);
        }
        Err(e) => vec![Unit {
            label: "inputs".into(),
            run: Box::new(move |c| c.case(|| "making the inputs".into(), || Err(e.clone()))),
        }],
    };
    let threads = std::env::var("MC_THREADS")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let r = explore(tier, units, only, threads);
    let json = serde_json::json!({
        "states": r.states,
        "transitions": r.transitions,
        "validated": r.validated,
        "outcomes": r.outcomes,
        "samples": r.samples,
        "units": r.units,
        "completed": r.completed,
        "wall_s": r.wall_s,
        "violations": r.violations.iter().map(|v| serde_json::json!({
            "unit": v.unit, "case_no": v.case_no, "case": v.case, "what": v.what,
        })).collect::<Vec<_>>(),
    });
    cleanup();
    std::fs::write(out, serde_json::to_string_pretty(&json).unwrap()).unwrap();
}

/// Renders a difference of two values.
pub fn differ<T: std::fmt::Debug + PartialEq>(what: &str, got: &T, want: &T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:?}, the model says {want:?}"))
    }
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err(format!($($arg)*));
        }
    };
}
