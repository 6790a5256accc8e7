//! Case engine: deterministic cases by (property, seed, index), run on worker threads under
//! observation (panic capture, progress status for post-mortem, CPU watchdog).

use crate::rng::{hash_str, mix, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub enum Fail {
    /// the property is broken, with what was observed
    Violation(String),
    /// the situation the property talks about could not be set up (decided by other properties)
    Setup(String),
}
pub type Res = Result<(), Fail>;

pub fn violation<T, S: Into<String>>(s: S) -> Result<T, Fail> {
    Err(Fail::Violation(s.into()))
}
pub fn setup<T, E: Into<String>>(r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail::Setup(e.into()))
}
pub fn viol<T, E: Into<String>>(r: Result<T, E>) -> Result<T, Fail> {
    r.map_err(|e| Fail::Violation(e.into()))
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($f:tt)*) => { if !$c { return $crate::engine::violation(format!($($f)*)); } };
}
#[macro_export]
macro_rules! same {
    ($a:expr, $b:expr, $($f:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return $crate::engine::violation(format!("{}: observed {} but expected {}", format!($($f)*),
                $crate::engine::short(&format!("{:?}", a)), $crate::engine::short(&format!("{:?}", b))));
        }
    }};
}

pub fn short(s: &str) -> String {
    if s.len() <= 1500 {
        return s.to_string();
    }
    let mut k = 1500;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}… ({} bytes)", &s[..k], s.len())
}

#[derive(Default, Clone)]
pub struct Stats {
    pub counts: BTreeMap<&'static str, u64>,
    pub maxes: BTreeMap<&'static str, u64>,
    pub sigs: HashSet<u64>,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub setup_failed: u64,
    pub setup_sample: Option<String>,
}
impl Stats {
    fn merge(&mut self, o: Stats) {
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        for (k, v) in o.maxes {
            let e = self.maxes.entry(k).or_default();
            *e = (*e).max(v);
        }
        self.sigs.extend(o.sigs);
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.setup_failed += o.setup_failed;
        if self.setup_sample.is_none() {
            self.setup_sample = o.setup_sample;
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Phase {
    Setup,
    Observe,
}

/// A panic while in `Setup` is not held against the property.
pub fn set_phase(p: Phase) {
    PHASE.set(p);
}

pub struct Ctx {
    pub seed: u64,
    pub idx: u64,
    pub rng: Rng,
    pub thorough: bool,
    /// small workloads for slow interpreters
    pub tiny: bool,
    pub st: Stats,
    pub verbose: bool,
    pub notes: Vec<String>,
}
impl Ctx {
    pub fn count(&mut self, k: &'static str, n: u64) {
        *self.st.counts.entry(k).or_default() += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.st.maxes.entry(k).or_default();
        *e = (*e).max(n);
    }
    /// Marks this case as non-trivial, `sig` telling it apart from the others.
    pub fn nontrivial(&mut self, sig: u64) {
        self.st.nontrivial += 1;
        self.st.sigs.insert(sig);
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.verbose {
            let s = f();
            self.notes.push(short(&s));
        }
    }
}

pub struct Check {
    pub id: &'static str,
    /// how cases are made and what makes one non-trivial
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// cases with a fixed content come first: indexes 0..fixed
    pub fixed: u64,
    /// random cases in the quick and thorough tiers
    pub quick: u64,
    pub thorough: u64,
    pub case: fn(&mut Ctx) -> Res,
    /// counters that must not be zero for the run to mean anything
    pub must: &'static [&'static str],
}

thread_local! {
    static PHASE: std::cell::Cell<Phase> = const { std::cell::Cell::new(Phase::Observe) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map_or(String::from("?"), |l| format!("{}:{}:{}", l.file(), l.line(), l.column()));
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("(no message)")
        };
        let _ = LAST_PANIC.try_with(|p| {
            if let Ok(mut p) = p.try_borrow_mut() {
                *p = format!("panic at {loc}: {msg}");
            }
        });
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

pub fn case_rng(id: &str, seed: u64, idx: u64) -> Rng {
    Rng::new(mix(mix(hash_str(id), seed), idx))
}

pub fn run_case(check: &Check, seed: u64, idx: u64, thorough: bool, tiny: bool, verbose: bool, st: Stats) -> (Ctx, Res) {
    let mut ctx = Ctx {
        seed,
        idx,
        rng: case_rng(check.id, seed, idx),
        thorough,
        tiny,
        st,
        verbose,
        notes: vec![],
    };
    set_phase(Phase::Observe);
    let r = catch_unwind(AssertUnwindSafe(|| (check.case)(&mut ctx)));
    ctx.st.evaluations += 1;
    let r = match r {
        Ok(r) => r,
        Err(_) => {
            let m = last_panic();
            if PHASE.get() == Phase::Setup {
                Err(Fail::Setup(m))
            } else {
                Err(Fail::Violation(m))
            }
        }
    };
    (ctx, r)
}

pub struct Outcome {
    pub st: Stats,
    pub violations: Vec<(u64, String)>,
    pub planned: u64,
    pub truncated: bool,
}

/// Exit code of a worker that saw a case exceed its CPU budget.
pub const EXIT_HANG: i32 = 97;

fn cpu_ticks(task: &str) -> Option<u64> {
    let s = std::fs::read_to_string(task).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some(f.get(11)?.parse::<u64>().ok()? + f.get(12)?.parse::<u64>().ok()?)
}

pub fn process_cpu_s() -> Option<u64> {
    cpu_ticks("/proc/self/stat").map(|t| t / 100)
}

/// Runs all cases of a tier on `threads` threads. `status`: one slot of 8 bytes per thread, the
/// index of the case in progress plus one, so that a dead process can be diagnosed.
#[allow(clippy::too_many_arguments)]
pub fn run_all(
    check: &'static Check,
    seed: u64,
    thorough: bool,
    threads: usize,
    cap: Duration,
    scale_den: u64,
    status: Option<&Path>,
    cpu_limit_s: u64,
) -> Outcome {
    let started = Instant::now();
    let n = if thorough { check.thorough } else { check.quick };
    let planned = check.fixed + (n / scale_den).max(1);
    let next = Arc::new(AtomicU64::new(0));
    let stop = Arc::new(AtomicBool::new(false));
    let done = Arc::new(AtomicBool::new(false));
    let violations: Arc<Mutex<Vec<(u64, String)>>> = Default::default();
    let total: Arc<Mutex<Stats>> = Default::default();
    let slots: Arc<Vec<(AtomicU64, AtomicU64)>> = Arc::new((0..threads).map(|_| Default::default()).collect());
    let file = status.map(|p| Arc::new(std::fs::File::create(p).expect("status file")));

    let mut handles = vec![];
    for t in 0..threads {
        let (next, stop, violations, total, slots, file) =
            (next.clone(), stop.clone(), violations.clone(), total.clone(), slots.clone(), file.clone());
        handles.push(
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .name(format!("w{t}"))
                .spawn(move || {
                    if let Ok(l) = std::fs::read_link("/proc/thread-self") {
                        if let Some(tid) = l.file_name().and_then(|s| s.to_str()).and_then(|s| s.parse().ok()) {
                            slots[t].0.store(tid, Ordering::SeqCst);
                        }
                    }
                    let mut st = Stats::default();
                    loop {
                        if stop.load(Ordering::Relaxed) || started.elapsed() > cap {
                            break;
                        }
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        if idx >= planned {
                            break;
                        }
                        if let Some(f) = &file {
                            let _ = f.write_at(&(idx + 1).to_le_bytes(), 8 * t as u64);
                        }
                        slots[t].1.store(idx + 1, Ordering::SeqCst);
                        let (ctx, r) = run_case(check, seed, idx, thorough, false, false, std::mem::take(&mut st));
                        st = ctx.st;
                        match r {
                            Ok(()) => {}
                            Err(Fail::Setup(m)) => {
                                st.setup_failed += 1;
                                st.setup_sample.get_or_insert(format!("case {idx}: {m}"));
                            }
                            Err(Fail::Violation(m)) => {
                                let mut v = violations.lock().unwrap();
                                v.push((idx, m));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    slots[t].1.store(0, Ordering::SeqCst);
                    if let Some(f) = &file {
                        let _ = f.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                    }
                    total.lock().unwrap().merge(st);
                })
                .expect("spawn"),
        );
    }
    // watchdog on the CPU time a thread spends in one case
    let dog = {
        let (slots, done) = (slots.clone(), done.clone());
        std::thread::spawn(move || {
            let mut seen: Vec<(u64, u64, Instant)> = vec![(0, 0, Instant::now()); slots.len()];
            while !done.load(Ordering::SeqCst) {
                for _ in 0..10 {
                    if done.load(Ordering::SeqCst) {
                        return;
                    }
                    std::thread::sleep(Duration::from_millis(50));
                }
                for (t, s) in slots.iter().enumerate() {
                    let (tid, case) = (s.0.load(Ordering::SeqCst), s.1.load(Ordering::SeqCst));
                    if tid == 0 || case == 0 {
                        continue;
                    }
                    let Some(ticks) = cpu_ticks(&format!("/proc/self/task/{tid}/stat")) else { continue };
                    if seen[t].0 != case {
                        seen[t] = (case, ticks, Instant::now());
                    } else if ticks - seen[t].1 > cpu_limit_s * 100
                        || (seen[t].2.elapsed() > Duration::from_secs(cpu_limit_s * 3)
                            && ticks - seen[t].1 < 100)
                    {
                        std::process::exit(EXIT_HANG);
                    }
                }
            }
        })
    };
    for h in handles {
        let _ = h.join();
    }
    done.store(true, Ordering::SeqCst);
    let _ = dog.join();
    let st = std::mem::take(&mut *total.lock().unwrap());
    let mut v = std::mem::take(&mut *violations.lock().unwrap());
    v.sort();
    let truncated = v.is_empty() && st.evaluations < planned;
    Outcome { st, violations: v, planned, truncated }
}

// ------------------------------------------------------------------ JSON out

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 || c as u32 == 0x7f => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
pub fn jarr<I: IntoIterator<Item = String>>(v: I) -> String {
    format!("[{}]", v.into_iter().collect::<Vec<_>>().join(","))
}
