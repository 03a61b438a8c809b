//! Stateless model checker: exhaustive depth-first exploration of every choice sequence of a
//! scenario, each execution running the real library code and checked against a reference model.
use crate::guard;
use std::any::Any;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone)]
pub enum Stop {
    /// The property is violated on this execution.
    Fail(String),
    /// The choices made are outside the domain: the execution does not count.
    Skip,
}
pub type R<T = ()> = Result<T, Stop>;

pub fn fail<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Fail(m.into()))
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err($crate::engine::Stop::Fail(format!($($a)*))); } };
}

/// FNV-1a, good enough to count distinct observed states.
#[derive(Clone)]
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0xd6e8feb86659fd93);
        x ^= x >> 32;
        x
    }
    fn write(&mut self, b: &[u8]) {
        for &c in b {
            self.0 = (self.0 ^ c as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
}

pub struct Ctx {
    script: Vec<u32>,
    log: Vec<(u32, u32)>,
    pub thorough: bool,
    pub trans: u64,
    h: Fnv,
    fps: Vec<u64>,
    record: bool,
    pub notes: Vec<String>,
    pub known: Vec<String>,
    known_list: &'static [Known],
}

#[derive(Debug, Clone)]
pub struct Known {
    pub property: String,
    pub key: String,
    pub text: String,
}

impl Ctx {
    /// One choice point with `n` alternatives, simplest first.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let i = self.log.len();
        let c = if i < self.script.len() { self.script[i] as usize } else { 0 };
        if c >= n {
            panic!("replay divergence: choice {} is {} of {}", i, c, n);
        }
        self.log.push((c as u32, n as u32));
        c
    }
    pub fn pick<T: Clone>(&mut self, s: &[T]) -> T {
        let i = self.choose(s.len());
        s[i].clone()
    }
    pub fn flag(&mut self) -> bool {
        self.choose(2) == 1
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.choose(hi - lo + 1)
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.record {
            let s = f();
            self.notes.push(s);
        }
    }
    /// Records a state reached (observable values of the implementation after a step).
    pub fn state(&mut self, v: &[f64]) {
        let mut h = self.h.clone();
        h.write_u64(v.len() as u64);
        for x in v {
            h.write_u64(x.to_bits());
        }
        self.fps.push(h.finish());
    }
    pub fn state_u(&mut self, v: u128) {
        let mut h = self.h.clone();
        h.write_u64(v as u64);
        h.write_u64((v >> 64) as u64);
        self.fps.push(h.finish());
    }
    /// Calls the implementation; a panic comes back as Err(message).
    pub fn call<T>(&mut self, f: impl FnOnce() -> T) -> Result<T, String> {
        self.trans += 1;
        catch_unwind(AssertUnwindSafe(f)).map_err(msg)
    }
    /// Calls the implementation where it must not panic.
    pub fn must<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R<T> {
        match self.call(f) {
            Ok(v) => Ok(v),
            Err(m) => fail(format!("{} panicked: {}", what, m)),
        }
    }
    /// Calls the implementation where it must reject its arguments by panicking.
    pub fn must_panic<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R {
        match self.call(f) {
            Ok(_) => fail(format!("{} was accepted but must be rejected", what)),
            Err(_) => Ok(()),
        }
    }
    /// A deviation already recorded in the committed known-findings file under `key`.
    /// Anything not listed there stays a violation.
    pub fn known(&mut self, property: &str, key: &str, why: String) -> R {
        match self.known_list.iter().find(|k| k.property == property && k.key == key) {
            Some(k) => {
                let t = k.text.clone();
                self.known.push(t);
                Ok(())
            }
            None => fail(why),
        }
    }
}

fn msg(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

pub struct Scenario {
    pub name: String,
    pub run: Box<dyn Fn(&mut Ctx) -> R + Send + Sync>,
    /// Run on one thread only (scenarios that use process-wide resources).
    pub serial: bool,
}
pub fn sc(name: impl Into<String>, run: impl Fn(&mut Ctx) -> R + Send + Sync + 'static) -> Scenario {
    Scenario { name: name.into(), run: Box::new(run), serial: false }
}

pub struct Exec {
    pub log: Vec<(u32, u32)>,
    pub trans: u64,
    pub fps: Vec<u64>,
    pub notes: Vec<String>,
    pub known: Vec<String>,
    pub result: R,
}

pub fn run_one(s: &Scenario, script: &[u32], thorough: bool, record: bool, known_list: &'static [Known]) -> Exec {
    let mut name_h = Fnv(0xcbf29ce484222325);
    s.name.hash(&mut name_h);
    let mut ctx = Ctx {
        script: script.to_vec(),
        log: Vec::with_capacity(16),
        thorough,
        trans: 0,
        h: name_h,
        fps: Vec::new(),
        record,
        notes: Vec::new(),
        known: Vec::new(),
        known_list,
    };
    // Blocks lie against an inaccessible page on one side or the other, by the choices made.
    let n = script.iter().rposition(|c| *c != 0).map_or(0, |i| i + 1);
    let mut side = Fnv(0xcbf29ce484222325);
    script[..n].hash(&mut side);
    let before = guard::damaged();
    let mut result = guard::with(1 + (side.finish() & 1) as u8, 0xA7, || match catch_unwind(AssertUnwindSafe(|| (s.run)(&mut ctx))) {
        Ok(r) => r,
        Err(e) => Err(Stop::Fail(format!("panicked: {}", msg(e)))),
    });
    if guard::damaged() != before && !matches!(result, Err(Stop::Fail(_))) {
        result = Err(Stop::Fail("memory outside a heap block was written".into()));
    }
    Exec { log: ctx.log, trans: ctx.trans, fps: ctx.fps, notes: ctx.notes, known: ctx.known, result }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub scenario: String,
    pub choices: Vec<u32>,
    pub task: Vec<u32>,
    pub message: String,
    pub notes: Vec<String>,
}

#[derive(Default, Clone, Debug)]
pub struct Totals {
    pub executions: u64,
    pub skipped: u64,
    pub transitions: u64,
    pub states: u64,
    pub choice_points: u64,
    pub max_depth: usize,
    pub complete: bool,
    pub samples: Vec<String>,
    pub known: Vec<String>,
    pub wall: f64,
}

pub struct Slot {
    pub start: Mutex<Option<(Instant, String, Vec<u32>)>>,
}

pub struct Opts {
    pub thorough: bool,
    pub threads: usize,
    pub deadline: Instant,
    pub known: &'static [Known],
    /// Directory in which every thread notes the execution it is about to run.
    pub trace: Option<std::path::PathBuf>,
    pub slots: &'static [Slot],
}

const STATE_CAP: usize = 6_000_000;

/// Next script in depth-first order that keeps the first `frozen` choices.
fn advance(log: &[(u32, u32)], frozen: usize) -> Option<Vec<u32>> {
    let mut i = log.len();
    while i > frozen {
        i -= 1;
        if log[i].0 + 1 < log[i].1 {
            let mut v: Vec<u32> = log[..i].iter().map(|c| c.0).collect();
            v.push(log[i].0 + 1);
            return Some(v);
        }
    }
    None
}

pub fn explore(s: &Scenario, o: &Opts) -> (Totals, Vec<Violation>) {
    let t0 = Instant::now();
    let threads = if s.serial { 1 } else { o.threads };
    // Split the tree into prefixes, breadth first.
    let mut tasks: Vec<Vec<u32>> = vec![vec![]];
    if threads > 1 {
        for _ in 0..6 {
            if tasks.len() >= 24 * threads || t0.elapsed() > Duration::from_secs(20) {
                break;
            }
            let mut next = Vec::new();
            let mut grew = false;
            for t in tasks {
                set_slot(o, 0, &s.name, &t);
                trace(o, "main", s, &t);
                let e = run_one(s, &t, o.thorough, false, o.known);
                clear_slot(o, 0);
                if e.log.len() > t.len() {
                    for c in 0..e.log[t.len()].1 {
                        let mut u = t.clone();
                        u.push(c);
                        next.push(u);
                        grew = true;
                    }
                } else {
                    next.push(t);
                }
            }
            tasks = next;
            if !grew {
                break;
            }
        }
    }
    let ntasks = tasks.len();
    let cursor = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let capped = AtomicBool::new(false);
    let execs = AtomicU64::new(0);
    let vio: Mutex<Vec<Violation>> = Mutex::new(Vec::new());
    let tot: Mutex<(Totals, HashSet<u64>, bool)> = Mutex::new((Totals::default(), HashSet::new(), false));
    let (tasks, cursor, stop, capped, execs, vio, tot) = (&tasks, &cursor, &stop, &capped, &execs, &vio, &tot);
    std::thread::scope(|sc| {
        for th in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, move || {
                    let mut local = Totals::default();
                    let mut set: HashSet<u64> = HashSet::new();
                    let mut full = false;
                    let mut known: HashSet<String> = HashSet::new();
                    'outer: loop {
                        let k = cursor.fetch_add(1, Ordering::Relaxed);
                        if k >= tasks.len() {
                            break;
                        }
                        let task = &tasks[k];
                        let mut script = task.clone();
                        loop {
                            if stop.load(Ordering::Relaxed) {
                                break 'outer;
                            }
                            if Instant::now() > o.deadline {
                                capped.store(true, Ordering::Relaxed);
                                break 'outer;
                            }
                            trace(o, &format!("t{}", th), s, &script);
                            set_slot(o, th, &s.name, &script);
                            let e = run_one(s, &script, o.thorough, false, o.known);
                            clear_slot(o, th);
                            execs.fetch_add(1, Ordering::Relaxed);
                            local.executions += 1;
                            local.transitions += e.trans;
                            local.choice_points += e.log.len() as u64;
                            local.max_depth = local.max_depth.max(e.log.len());
                            if set.len() < STATE_CAP {
                                set.extend(e.fps.iter());
                            } else {
                                full = true;
                            }
                            for k in e.known {
                                known.insert(k);
                            }
                            match e.result {
                                Ok(()) => {}
                                Err(Stop::Skip) => local.skipped += 1,
                                Err(Stop::Fail(m)) => {
                                    let mut v = vio.lock().unwrap();
                                    v.push(Violation {
                                        scenario: s.name.clone(),
                                        choices: e.log.iter().map(|c| c.0).collect(),
                                        task: task.clone(),
                                        message: m,
                                        notes: vec![],
                                    });
                                    if v.len() >= 8 {
                                        stop.store(true, Ordering::Relaxed);
                                    }
                                    // Leave this task: one counterexample per prefix is enough.
                                    break;
                                }
                            }
                            match advance(&e.log, task.len()) {
                                Some(n) => script = n,
                                None => break,
                            }
                        }
                    }
                    let mut g = tot.lock().unwrap();
                    g.0.executions += local.executions;
                    g.0.transitions += local.transitions;
                    g.0.skipped += local.skipped;
                    g.0.choice_points += local.choice_points;
                    g.0.max_depth = g.0.max_depth.max(local.max_depth);
                    g.0.known.extend(known);
                    g.2 |= full;
                    g.1.extend(set);
                })
                .expect("spawn");
        }
    });
    let mut g = tot.lock().unwrap();
    let mut t = std::mem::take(&mut g.0);
    t.states = g.1.len() as u64;
    t.known.sort();
    t.known.dedup();
    let mut v = vio.lock().unwrap().clone();
    v.sort_by(|a, b| (a.choices.len(), &a.choices).cmp(&(b.choices.len(), &b.choices)));
    t.complete = !capped.load(Ordering::Relaxed) && v.is_empty();
    // A few executions written out.
    for k in [0, ntasks / 2, ntasks.saturating_sub(1)] {
        if v.is_empty() {
            trace(o, "main", s, &tasks[k]);
            let e = run_one(s, &tasks[k], o.thorough, true, o.known);
            t.samples.push(format!(
                "{} choices={:?} {}",
                s.name,
                e.log.iter().map(|c| c.0).collect::<Vec<_>>(),
                e.notes.join("; ")
            ));
        }
    }
    t.samples.dedup();
    t.wall = t0.elapsed().as_secs_f64();
    (t, v)
}

fn trace(o: &Opts, who: &str, s: &Scenario, script: &[u32]) {
    if let Some(d) = &o.trace {
        let _ = std::fs::write(d.join(who), format!("{}\n{}", s.name, join(script)));
    }
}
fn set_slot(o: &Opts, th: usize, name: &str, script: &[u32]) {
    if let Some(s) = o.slots.get(th) {
        let mut g = s.start.lock().unwrap();
        match &mut *g {
            Some((t, n, c)) => {
                *t = Instant::now();
                if n != name {
                    *n = name.to_string();
                }
                c.clear();
                c.extend_from_slice(script);
            }
            None => *g = Some((Instant::now(), name.to_string(), script.to_vec())),
        }
    }
}
fn clear_slot(o: &Opts, th: usize) {
    if let Some(s) = o.slots.get(th) {
        if let Some(x) = &mut *s.start.lock().unwrap() {
            // keep the buffers, mark as idle
            x.0 = Instant::now() + Duration::from_secs(1 << 30);
        }
    }
}

pub fn join(v: &[u32]) -> String {
    v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
pub fn split(s: &str) -> Vec<u32> {
    s.trim().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("choice")).collect()
}
/// Re-runs the executions of one task in order up to the failing one (for results that depend on
/// earlier calls in the same process).
pub fn replay_history(s: &Scenario, task: &[u32], target: &[u32], thorough: bool, known: &'static [Known]) -> Option<Exec> {
    let mut script = task.to_vec();
    loop {
        let e = run_one(s, &script, thorough, false, known);
        let c: Vec<u32> = e.log.iter().map(|c| c.0).collect();
        if matches!(e.result, Err(Stop::Fail(_))) || c == target {
            return Some(e);
        }
        script = advance(&e.log, task.len())?;
    }
}
