//! The run-time side of every monitor: cases, verdicts, observations, evidence.
//!
//! Verdicts are three-valued. A monitor reports a violation only for something
//! the subject did (a wrong result, a panic located outside the harness, a case
//! that consumes a minute of its own thread's CPU time). A panic located in the
//! harness, a run that observed nothing, or a time-out of the whole run is an
//! error of the check (exit 2), never a violation.

use crate::util::{json_str, Rng};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tier {
    Tiny,
    Quick,
    Thorough,
}

pub struct Violation {
    pub section: String,
    pub idx: u64,
    pub monitor: String,
    pub what: String,
}

pub struct Only {
    pub section: String,
    pub idx: Option<u64>,
}

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub threads: usize,
    /// multiplies the case counts of the quick and thorough tiers
    pub scale: f64,
    pub start: Instant,
    pub deadline: Duration,
    pub only: Option<Only>,
    pub rule: Mutex<String>,
    pub exhaustive: AtomicBool,
    violations: Mutex<Vec<Violation>>,
    pub errors: Mutex<Vec<String>>,
    evals: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    sections: Mutex<Vec<(String, u64, f64)>>,
    distinct: Vec<Mutex<HashSet<u64>>>,
    distinct_enum: AtomicU64,
    samples: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
    cut: AtomicBool,
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = PANIC.try_with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

pub enum Caught {
    Subject(String),
    Harness(String),
}

/// Runs `f`; a panic is attributed to the subject or to the harness by its location.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or(("?".into(), "?".into()));
            let s = format!("panic at {loc}: {msg}");
            if loc.starts_with("src/") || loc.contains("/verif/harness/") {
                Err(Caught::Harness(s))
            } else {
                Err(Caught::Subject(s))
            }
        }
    }
}

// ---- watchdog ------------------------------------------------------------

struct Slot {
    active: AtomicBool,
    case: AtomicU64,
    idx: AtomicU64,
    tid: AtomicU64,
    section: Mutex<String>,
}

const SLOTS: usize = 256;
static SLOT: [Slot; SLOTS] = [const {
    Slot {
        active: AtomicBool::new(false),
        case: AtomicU64::new(0),
        idx: AtomicU64::new(0),
        tid: AtomicU64::new(0),
        section: Mutex::new(String::new()),
    }
}; SLOTS];
static CASE_SERIAL: AtomicU64 = AtomicU64::new(1);

#[cfg(not(miri))]
fn thread_cpu(tid: u64) -> Option<f64> {
    // utime + stime of the thread, in seconds
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/stat")).ok()?;
    let rest = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let t: f64 = f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?;
    Some(t / 100.0)
}

/// The thread's context switch counts, if it sleeps.
#[cfg(not(miri))]
fn sleeping(tid: u64) -> Option<String> {
    let s = std::fs::read_to_string(format!("/proc/self/task/{tid}/status")).ok()?;
    if !s.lines().any(|l| l.starts_with("State:") && l.contains('S')) {
        return None;
    }
    Some(s.lines().filter(|l| l.contains("ctxt")).collect())
}

/// The context switch counts of all threads but `me`, if all of them sleep.
#[cfg(not(miri))]
fn all_asleep(me: u64) -> Option<String> {
    let mut all = String::new();
    for e in std::fs::read_dir("/proc/self/task").ok()? {
        let tid: u64 = e.ok()?.file_name().to_str()?.parse().ok()?;
        if tid != me {
            all += &format!("{tid} {}\n", sleeping(tid)?);
        }
    }
    Some(all)
}

#[cfg(not(miri))]
pub fn gettid() -> u64 {
    unsafe { libc::syscall(libc::SYS_gettid) as u64 }
}

pub const HANG_CPU_S: f64 = 60.0;

/// Starts the watchdog: a single case that burns more than `HANG_CPU_S` of its
/// own thread's CPU time does not terminate for any practical purpose (ordinary
/// cases take milliseconds).
#[cfg(not(miri))]
pub fn start_watchdog(ctx: &'static Ctx) {
    std::thread::spawn(move || {
        let mut seen: Vec<(u64, f64)> = vec![(0, 0.0); SLOTS];
        let mut idle: Vec<Option<(u64, String, Instant)>> = vec![None; SLOTS];
        let me = gettid();
        let mut still: Option<(String, Instant)> = None;
        loop {
            std::thread::sleep(Duration::from_millis(500));
            // every thread sleeps and none has run for 40 s: they wait for each other
            match (all_asleep(me), &still) {
                (Some(s), Some((p, t))) if *p == s => {
                    if t.elapsed().as_secs() >= 40 {
                        let what = "every thread sleeps and none has run for 40 s".to_string();
                        if ctx.prop == "C18" {
                            ctx.error(what); // it may wait for a child process
                        } else {
                            ctx.violate("watchdog", u64::MAX, "no operation blocks forever", what);
                        }
                        std::process::exit(ctx.finish());
                    }
                }
                (Some(s), _) => still = Some((s, Instant::now())),
                (None, _) => still = None,
            }
            for i in 0..SLOTS {
                if !SLOT[i].active.load(SeqCst) {
                    continue;
                }
                let case = SLOT[i].case.load(SeqCst);
                let cpu = match thread_cpu(SLOT[i].tid.load(SeqCst)) {
                    Some(c) => c,
                    None => continue,
                };
                // a case that sleeps for 30 s without a context switch waits for
                // something that does not come (the queue must never do that)
                if ctx.prop == "C24" {
                    let now = sleeping(SLOT[i].tid.load(SeqCst));
                    match (&now, &idle[i]) {
                        (Some(s), Some((k, p, t))) if *k == case && p == s => {
                            if t.elapsed().as_secs() >= 30 {
                                let sec = SLOT[i].section.lock().unwrap().clone();
                                ctx.violate(&sec, u64::MAX, "draining never blocks forever", format!("an operation sleeps forever (section {sec})"));
                                std::process::exit(ctx.finish());
                            }
                        }
                        (Some(s), _) => idle[i] = Some((case, s.clone(), Instant::now())),
                        (None, _) => idle[i] = None,
                    }
                }
                if seen[i].0 != case {
                    seen[i] = (case, cpu);
                } else if cpu - seen[i].1 > HANG_CPU_S {
                    let sec = SLOT[i].section.lock().unwrap().clone();
                    ctx.violate(
                        &sec,
                        u64::MAX,
                        "termination",
                        format!("an operation used more than {HANG_CPU_S} s of CPU time without returning (section {sec})"),
                    );
                    std::process::exit(ctx.finish());
                }
            }
        }
    });
}

/// Names the case in which the process crashes, then lets it crash.
#[cfg(not(miri))]
extern "C" fn on_crash(sig: libc::c_int) {
    fn out(b: &[u8]) {
        unsafe {
            libc::write(2, b.as_ptr() as *const libc::c_void, b.len());
        }
    }
    fn num(mut n: u64) {
        let mut d = [0u8; 20];
        let mut k = 20;
        loop {
            k -= 1;
            d[k] = b'0' + (n % 10) as u8;
            n /= 10;
            if n == 0 {
                break;
            }
        }
        out(&d[k..]);
    }
    out(b"CRASH signal=");
    num(sig as u64);
    let me = gettid();
    for s in SLOT.iter() {
        if s.active.load(SeqCst) && s.tid.load(SeqCst) == me {
            out(b" section=");
            if let Ok(n) = s.section.try_lock() {
                out(n.as_bytes());
            }
            out(b" case=");
            num(s.idx.load(SeqCst));
        }
    }
    out(b"\n");
    unsafe {
        libc::signal(sig, libc::SIG_DFL);
        libc::raise(sig);
    }
}

#[cfg(not(miri))]
pub fn install_crash_handler() {
    if cfg!(vp_san) || cfg!(vp_tsan) {
        return; // the sanitizer reports crashes itself
    }
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_crash as extern "C" fn(libc::c_int) as usize;
        a.sa_flags = libc::SA_ONSTACK | libc::SA_NODEFER;
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
            libc::sigaction(s, &a, std::ptr::null_mut());
        }
    }
}

pub struct Active(usize);
impl Active {
    pub fn new(slot: usize, _section: &str) -> Active {
        let s = &SLOT[slot % SLOTS];
        #[cfg(not(miri))]
        {
            s.tid.store(gettid(), SeqCst);
            *s.section.lock().unwrap() = _section.to_string();
        }
        s.case.store(CASE_SERIAL.fetch_add(1, SeqCst), SeqCst);
        s.active.store(true, SeqCst);
        Active(slot % SLOTS)
    }
    pub fn next(&self, idx: u64) {
        SLOT[self.0].idx.store(idx, Relaxed);
        SLOT[self.0]
            .case
            .store(CASE_SERIAL.fetch_add(1, Relaxed), Relaxed);
    }
}
impl Drop for Active {
    fn drop(&mut self) {
        SLOT[self.0].active.store(false, SeqCst);
    }
}

// ---- cases ---------------------------------------------------------------

pub struct Case<'a> {
    pub ctx: &'a Ctx,
    pub section: &'a str,
    pub idx: u64,
    pub rng: Rng,
    obs: BTreeMap<&'static str, u64>,
    evals: u64,
    set: HashSet<u64>,
    enumd: u64,
    failed: bool,
}

impl<'a> Case<'a> {
    /// Counts `n` events that the named monitor observed and judged.
    pub fn obs(&mut self, monitor: &'static str, n: u64) {
        *self.obs.entry(monitor).or_insert(0) += n;
    }
    /// Counts an evaluated input; `h` identifies it.
    pub fn eval(&mut self, h: u64) {
        self.evals += 1;
        self.set.insert(h);
    }
    /// Counts inputs that are distinct by construction.
    pub fn eval_enum(&mut self, n: u64) {
        self.evals += n;
        self.enumd += n;
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        self.ctx.sample(s)
    }
    /// The deciding step: `ok` is what the property demands.
    pub fn check(&mut self, monitor: &'static str, ok: bool, what: impl FnOnce() -> String) -> bool {
        *self.obs.entry(monitor).or_insert(0) += 1;
        if !ok {
            self.fail(monitor, what());
        }
        ok
    }
    pub fn fail(&mut self, monitor: &str, what: String) {
        self.failed = true;
        self.ctx.violate(self.section, self.idx, monitor, what);
    }
    pub fn failed(&self) -> bool {
        self.failed
    }
    /// Runs subject code; a panic in it is a violation reported under `monitor`.
    pub fn run<T>(&mut self, monitor: &'static str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match guard(f) {
            Ok(v) => Some(v),
            Err(Caught::Subject(s)) => {
                let w = what();
                self.fail(monitor, format!("{s}; {w}"));
                None
            }
            Err(Caught::Harness(s)) => {
                self.ctx.error(format!("{}: {}", self.section, s));
                None
            }
        }
    }
    pub fn thorough(&self) -> bool {
        self.ctx.tier == Tier::Thorough
    }
    /// Merge what this case observed into the context (done at the end of a worker).
    fn flush(&mut self) {
        self.ctx.evals.fetch_add(self.evals, Relaxed);
        self.ctx.distinct_enum.fetch_add(self.enumd, Relaxed);
        self.evals = 0;
        self.enumd = 0;
        for h in self.set.drain() {
            let mut d = self.ctx.distinct[(h >> 58) as usize & 31].lock().unwrap();
            if d.len() < 400_000 {
                d.insert(h);
            }
        }
        let mut c = self.ctx.counters.lock().unwrap();
        for (k, v) in std::mem::take(&mut self.obs) {
            *c.entry(k.to_string()).or_insert(0) += v;
        }
    }
}

impl Ctx {
    pub fn new(prop: &str, tier: Tier, seed: u64, threads: usize, deadline_s: u64) -> Ctx {
        Ctx {
            prop: prop.to_string(),
            tier,
            seed,
            threads,
            scale: 1.0,
            start: Instant::now(),
            deadline: Duration::from_secs(deadline_s),
            only: None,
            rule: Mutex::new(String::new()),
            exhaustive: AtomicBool::new(false),
            violations: Mutex::new(Vec::new()),
            errors: Mutex::new(Vec::new()),
            evals: AtomicU64::new(0),
            counters: Mutex::new(BTreeMap::new()),
            sections: Mutex::new(Vec::new()),
            distinct: (0..32).map(|_| Mutex::new(HashSet::new())).collect(),
            distinct_enum: AtomicU64::new(0),
            samples: Mutex::new(Vec::new()),
            assumptions: Mutex::new(Vec::new()),
            stop: AtomicBool::new(false),
            cut: AtomicBool::new(false),
        }
    }
    /// Case counts by tier; the tiny tier is for interpreters and sanitizers.
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        match self.tier {
            Tier::Tiny => (quick / 200).clamp(1, 20),
            Tier::Quick => ((quick as f64 * self.scale) as u64).max(1),
            Tier::Thorough => ((thorough as f64 * self.scale) as u64).max(1),
        }
    }
    /// Case counts for the interpreter.
    pub fn k(&self, n: u64) -> u64 {
        ((n as f64 * self.scale) as u64).max(1)
    }
    pub fn tiny(&self) -> bool {
        self.tier == Tier::Tiny
    }
    pub fn rule(&self, s: &str) {
        *self.rule.lock().unwrap() = s.to_string();
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.to_string());
    }
    pub fn sample(&self, s: impl FnOnce() -> String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 24 {
            let mut t = s();
            if t.len() > 600 {
                let mut k = 600;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str("...");
            }
            v.push(t);
        }
    }
    pub fn error(&self, s: String) {
        let mut e = self.errors.lock().unwrap();
        e.push(s);
        // the rest of the run may still observe a violation
        if e.len() >= 20 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn violate(&self, section: &str, idx: u64, monitor: &str, what: String) {
        let mut v = self.violations.lock().unwrap();
        if v.len() < 20 {
            v.push(Violation {
                section: section.to_string(),
                idx,
                monitor: monitor.to_string(),
                what,
            });
        }
        if v.len() >= 5 {
            self.stop.store(true, Relaxed);
        }
    }
    pub fn stopped(&self) -> bool {
        if self.start.elapsed() > self.deadline {
            self.cut.store(true, Relaxed);
            self.stop.store(true, Relaxed);
        }
        self.stop.load(Relaxed)
    }
    pub fn count(&self, k: &str, n: u64) {
        *self.counters.lock().unwrap().entry(k.to_string()).or_insert(0) += n;
    }
    pub fn counter(&self, k: &str) -> u64 {
        self.counters.lock().unwrap().get(k).copied().unwrap_or(0)
    }

    /// Runs cases 0..n of a section on all worker threads.
    pub fn section<F>(&self, name: &str, n: u64, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        self.section_t(name, n, self.threads, f)
    }
    pub fn section_t<F>(&self, name: &str, n: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case) + Sync,
    {
        if let Some(o) = &self.only {
            if o.section != name {
                return;
            }
        }
        if self.stopped() {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(0);
        let done = AtomicU64::new(0);
        let wid = AtomicUsize::new(0);
        let chunk = (n / (threads as u64 * 16)).clamp(1, 256);
        let work = || {
            let w = wid.fetch_add(1, SeqCst);
            let act = Active::new(w, name);
            let mut case = Case {
                ctx: self,
                section: name,
                idx: 0,
                rng: Rng::new(0),
                obs: BTreeMap::new(),
                evals: 0,
                set: HashSet::new(),
                enumd: 0,
                failed: false,
            };
            'outer: loop {
                let from = next.fetch_add(chunk, SeqCst);
                if from >= n {
                    break;
                }
                for i in from..(from + chunk).min(n) {
                    if let Some(Only { idx: Some(k), .. }) = &self.only {
                        if *k != i {
                            continue;
                        }
                    }
                    if self.stopped() {
                        break 'outer;
                    }
                    case.idx = i;
                    case.failed = false;
                    case.rng = Rng::of(self.seed, name, i);
                    act.next(i);
                    match guard(|| f(&mut case)) {
                        Ok(()) => {}
                        Err(Caught::Subject(s)) => {
                            self.violate(name, i, "no-panic", s);
                        }
                        Err(Caught::Harness(s)) => self.error(format!("{name}[{i}]: {s}")),
                    }
                    done.fetch_add(1, Relaxed);
                    if case.set.len() > 50_000 {
                        case.flush();
                    }
                }
            }
            case.flush();
        };
        if threads <= 1 {
            work();
        } else {
            std::thread::scope(|s| {
                for _ in 0..threads.min(n as usize).max(1) {
                    s.spawn(&work);
                }
            });
        }
        self.sections.lock().unwrap().push((
            name.to_string(),
            done.load(SeqCst),
            t0.elapsed().as_secs_f64(),
        ));
    }

    /// Fails the run (as an error, not a violation) when a monitor saw nothing.
    pub fn require(&self, monitors: &[&str]) {
        if self.only.is_some() || cfg!(miri) || self.stop.load(Relaxed) {
            return;
        }
        for m in monitors {
            if self.counter(m) == 0 {
                self.error(format!("monitor '{m}' observed no event"));
            }
        }
    }

    /// Evaluated and distinct inputs so far.
    pub fn totals(&self) -> (u64, u64) {
        let d: u64 = self.distinct.iter().map(|s| s.lock().unwrap().len() as u64).sum();
        (self.evals.load(Relaxed), d + self.distinct_enum.load(Relaxed))
    }
    pub fn add_totals(&self, evals: u64, distinct: u64) {
        self.evals.fetch_add(evals, Relaxed);
        self.distinct_enum.fetch_add(distinct, Relaxed);
    }

    pub fn violations(&self) -> usize {
        self.violations.lock().unwrap().len()
    }

    /// Prints the result in the line protocol the wrapper reads; returns the exit code.
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        let e = self.errors.lock().unwrap();
        let distinct: u64 = self
            .distinct
            .iter()
            .map(|s| s.lock().unwrap().len() as u64)
            .sum::<u64>()
            + self.distinct_enum.load(Relaxed);
        let mut j = String::from("{");
        j += &format!("\"evaluations\":{},", self.evals.load(Relaxed));
        j += &format!("\"distinct_nontrivial\":{},", distinct);
        j += &format!("\"rule\":{},", json_str(&self.rule.lock().unwrap()));
        if self.exhaustive.load(Relaxed) {
            j += "\"exhaustive\":true,";
        }
        j += &format!("\"cut_by_deadline\":{},", self.cut.load(Relaxed));
        j += "\"monitor_events\":{";
        let c = self.counters.lock().unwrap();
        j += &c
            .iter()
            .map(|(k, n)| format!("{}:{}", json_str(k), n))
            .collect::<Vec<_>>()
            .join(",");
        j += "},\"sections\":[";
        j += &self
            .sections
            .lock()
            .unwrap()
            .iter()
            .map(|(s, n, t)| format!("{{\"name\":{},\"cases\":{},\"s\":{:.3}}}", json_str(s), n, t))
            .collect::<Vec<_>>()
            .join(",");
        j += "],\"samples\":[";
        j += &self
            .samples
            .lock()
            .unwrap()
            .iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(",");
        j += "],\"assumptions\":[";
        j += &self
            .assumptions
            .lock()
            .unwrap()
            .iter()
            .map(|s| json_str(s))
            .collect::<Vec<_>>()
            .join(",");
        j += "],\"errors\":[";
        j += &e.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(",");
        j += "],\"violations\":[";
        j += &v
            .iter()
            .map(|x| {
                format!(
                    "{{\"section\":{},\"case\":{},\"monitor\":{},\"what\":{}}}",
                    json_str(&x.section),
                    x.idx,
                    json_str(&x.monitor),
                    json_str(&x.what)
                )
            })
            .collect::<Vec<_>>()
            .join(",");
        j += "]}";
        println!("RESULT {j}");
        if !v.is_empty() {
            1
        } else if !e.is_empty() {
            2
        } else {
            0
        }
    }
}
