//! Stateless exploration: a scenario is a deterministic function of a sequence of choices. The
//! explorer enumerates *all* choice sequences depth first, replaying from scratch each time.

use std::cell::{Cell, RefCell};
use std::panic::{self, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use crate::guard;

/// Why a run ended early.
#[derive(Debug)]
pub enum Halt {
    /// This run is finished (e.g. nothing more is specified after a documented panic).
    Done,
    /// The property does not hold on this execution.
    Violation(String),
    /// The machinery itself misbehaved.
    Machine(String),
}

pub type R<T = ()> = Result<T, Halt>;

#[macro_export]
macro_rules! fail {
    ($($arg:tt)*) => { return Err($crate::explore::Halt::Violation(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => {
        if !($cond) { return Err($crate::explore::Halt::Violation(format!($($arg)*))) }
    };
}

/// The source of all nondeterminism in a run.
pub struct Ch {
    path: Vec<u32>,
    arity: Vec<u32>,
    pos: usize,
    fresh_from: usize,
    diverged: bool,
    pub verbose: bool,
    pub log: Vec<String>,
    pub stats: Stats,
}

#[derive(Default, Clone, Copy, Debug)]
pub struct Stats {
    pub executions: u64,
    pub states: u64,
    pub transitions: u64,
    pub probes: u64,
    pub faults: u64,
    pub panics: u64,
    pub max_depth: u64,
    /// Of all observations (`Ch::observe`), independent of the order of exploration.
    pub digest: u64,
    pub observations: u64,
}

impl Stats {
    fn add(&mut self, o: &Stats) {
        self.executions += o.executions;
        self.states += o.states;
        self.transitions += o.transitions;
        self.probes += o.probes;
        self.faults += o.faults;
        self.panics += o.panics;
        self.digest = self.digest.wrapping_add(o.digest);
        self.observations += o.observations;
        self.max_depth = self.max_depth.max(o.max_depth);
    }
}

impl Ch {
    fn new(path: Vec<u32>, fresh_from: usize) -> Self {
        Ch {
            arity: Vec::new(),
            path,
            pos: 0,
            fresh_from,
            diverged: false,
            verbose: false,
            log: Vec::new(),
            stats: Stats::default(),
        }
    }

    /// Picks one of `n` alternatives; every one of them is taken in some execution.
    pub fn choose(&mut self, n: usize) -> R<usize> {
        assert!(n > 0);
        beat();
        if self.pos < self.path.len() {
            if self.pos < self.arity.len() {
                if self.arity[self.pos] != n as u32 {
                    self.diverged = true;
                    return Err(Halt::Machine(format!(
                        "replay diverged at choice {}: {} alternatives, then {}",
                        self.pos, self.arity[self.pos], n
                    )));
                }
            } else {
                let _off = guard::off();
                self.arity.push(n as u32);
                if self.path[self.pos] >= n as u32 {
                    self.diverged = true;
                    return Err(Halt::Machine("replay diverged: choice out of range".into()));
                }
            }
        } else {
            let _off = guard::off();
            self.path.push(0);
            self.arity.push(n as u32);
        }
        let v = self.path[self.pos];
        self.pos += 1;
        publish(&self.path[..self.pos]);
        Ok(v as usize)
    }

    pub fn flag(&mut self) -> R<bool> {
        Ok(self.choose(2)? == 1)
    }

    /// True when the last choice is one no earlier execution has made: only then is the state after
    /// it new, and only then does it need probing.
    #[inline]
    pub fn fresh(&self) -> bool {
        self.pos > self.fresh_from
    }

    #[inline]
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let _off = guard::off();
            let s = f();
            self.log.push(s);
        }
    }

    /// Counts an executed operation.
    #[inline]
    pub fn step(&mut self) {
        if self.fresh() {
            self.stats.transitions += 1;
        }
    }

    /// Counts a state in which the oracle was evaluated. Returns whether to evaluate it.
    #[inline]
    pub fn state(&mut self) -> bool {
        if self.fresh() {
            self.stats.states += 1;
            true
        } else {
            false
        }
    }

    /// Adds an observation of the state after the choices made so far to the digest of the scenario. To
    /// be called at most once per state and only for fresh states.
    pub fn observe(&mut self, hash: u64) {
        let mut h: u64 = 0xCBF2_9CE4_8422_2325;
        for p in &self.path[..self.pos] {
            h = (h ^ *p as u64).wrapping_mul(0x100_0000_01B3);
        }
        h = (h ^ hash).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        self.stats.digest = self.stats.digest.wrapping_add(h ^ (h >> 29));
        self.stats.observations += 1;
        if DUMP.load(Ordering::Relaxed) {
            let _off = guard::off();
            let path: Vec<String> = self.path[..self.pos].iter().map(|p| p.to_string()).collect();
            println!("OBS {} {hash:016x}", path.join(","));
        }
    }

    pub fn path(&self) -> &[u32] {
        &self.path[..self.pos]
    }
}

/// Print every observation (to find where two builds differ).
static DUMP: AtomicBool = AtomicBool::new(false);

pub struct Scenario {
    pub name: String,
    pub what: String,
    pub f: Box<dyn Fn(&mut Ch) -> R + Sync + Send>,
    pub guarded: bool,
    /// Upper bound on worker threads (memory-heavy scenarios).
    pub threads: usize,
}

impl Scenario {
    pub fn new(
        name: impl Into<String>,
        what: impl Into<String>,
        f: impl Fn(&mut Ch) -> R + Sync + Send + 'static,
    ) -> Self {
        Scenario {
            name: name.into(),
            what: what.into(),
            f: Box::new(f),
            guarded: false,
            threads: usize::MAX,
        }
    }

    /// Runs under the guard allocator with leak accounting: after the run, every block allocated
    /// during it must have been freed and every component dropped.
    pub fn guarded(mut self) -> Self {
        self.guarded = true;
        self
    }

    pub fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
}

// ---------------------------------------------------------------------------------------------
// Panic capture, crash reporting and the watchdog

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static PUB: Cell<*mut Published> = const { Cell::new(std::ptr::null_mut()) };
}

const PUB_MAX: usize = 4096;

struct Published {
    scenario: AtomicUsize,
    active: AtomicBool,
    beats: AtomicU64,
    len: AtomicUsize,
    path: [std::sync::atomic::AtomicU32; PUB_MAX],
}

static SLOTS: Mutex<Vec<usize>> = Mutex::new(Vec::new());

fn my_slot() -> &'static Published {
    PUB.with(|p| {
        if p.get().is_null() {
            let _off = guard::off();
            let slot: &'static mut Published = Box::leak(Box::new(Published {
                scenario: AtomicUsize::new(0),
                active: AtomicBool::new(false),
                beats: AtomicU64::new(0),
                len: AtomicUsize::new(0),
                path: [const { std::sync::atomic::AtomicU32::new(0) }; PUB_MAX],
            }));
            SLOTS.lock().unwrap().push(slot as *mut _ as usize);
            p.set(slot);
        }
        unsafe { &*p.get() }
    })
}

fn publish(path: &[u32]) {
    let slot = my_slot();
    let n = path.len();
    if n > 0 && n <= PUB_MAX {
        slot.path[n - 1].store(path[n - 1], Ordering::Relaxed);
    }
    slot.len.store(n, Ordering::Relaxed);
}

fn publish_all(path: &[u32]) {
    let slot = my_slot();
    for (i, p) in path.iter().take(PUB_MAX).enumerate() {
        slot.path[i].store(*p, Ordering::Relaxed);
    }
    slot.len.store(0, Ordering::Relaxed);
}

/// Tells the watchdog that this thread is making progress.
#[inline]
pub fn beat() {
    let slot = my_slot();
    slot.beats.store(slot.beats.load(Ordering::Relaxed) + 1, Ordering::Relaxed);
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

extern "C" {
    fn signal(signum: i32, handler: usize) -> usize;
    fn _exit(code: i32) -> !;
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}

static CRASH_FD: AtomicUsize = AtomicUsize::new(1);

fn emit_crash(kind: &[u8], slot: &Published) {
    let mut buf = [0u8; 16384];
    let mut n = 0;
    let mut put = |bytes: &[u8]| {
        for b in bytes {
            if n < buf.len() {
                buf[n] = *b;
                n += 1;
            }
        }
    };
    let num = |mut v: u64, out: &mut [u8; 24]| -> usize {
        let mut i = 24;
        loop {
            i -= 1;
            out[i] = b'0' + (v % 10) as u8;
            v /= 10;
            if v == 0 {
                break;
            }
        }
        i
    };
    put(b"\nCRASH kind=");
    put(kind);
    put(b" scenario=");
    let mut t = [0u8; 24];
    let i = num(slot.scenario.load(Ordering::Relaxed) as u64, &mut t);
    put(&t[i..]);
    put(b" path=");
    let len = slot.len.load(Ordering::Relaxed).min(PUB_MAX);
    for k in 0..len {
        if k > 0 {
            put(b",");
        }
        let i = num(slot.path[k].load(Ordering::Relaxed) as u64, &mut t);
        put(&t[i..]);
    }
    put(b"\n");
    unsafe { write(CRASH_FD.load(Ordering::Relaxed) as i32, buf.as_ptr(), n) };
}

extern "C" fn on_crash(sig: i32) {
    let name: &[u8] = match sig {
        11 => b"SIGSEGV",
        7 => b"SIGBUS",
        4 => b"SIGILL",
        8 => b"SIGFPE",
        6 => b"SIGABRT",
        5 => b"SIGTRAP",
        _ => b"signal",
    };
    unsafe {
        signal(sig, 0);
        let p = PUB.try_with(|p| p.get()).unwrap_or(std::ptr::null_mut());
        if !p.is_null() && (*p).active.load(Ordering::Relaxed) {
            emit_crash(name, &*p);
            _exit(70);
        }
        write(1, b"\nCRASH outside a run\n".as_ptr(), 21);
        _exit(71);
    }
}

fn install_handlers() {
    panic::set_hook(Box::new(|info| {
        let _off = guard::off();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        let loc = info
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
        if std::env::var_os("MC_PANICS").is_some() {
            eprintln!("panic: {msg}{loc}");
        }
    }));
    unsafe {
        for sig in [11, 7, 4, 8, 6, 5] {
            signal(sig, on_crash as *const () as usize);
        }
    }
}

const HANG_SECS: u64 = 90;

fn start_watchdog() {
    std::thread::spawn(|| {
        let mut seen: std::collections::HashMap<usize, (u64, Instant)> = Default::default();
        loop {
            std::thread::sleep(Duration::from_millis(1000));
            let slots: Vec<usize> = SLOTS.lock().unwrap().clone();
            for s in slots {
                let slot = unsafe { &*(s as *const Published) };
                if !slot.active.load(Ordering::Relaxed) {
                    seen.remove(&s);
                    continue;
                }
                let beats = slot.beats.load(Ordering::Relaxed);
                let e = seen.entry(s).or_insert((beats, Instant::now()));
                if e.0 != beats {
                    *e = (beats, Instant::now());
                } else if e.1.elapsed() > Duration::from_secs(HANG_SECS) {
                    emit_crash(b"HANG", slot);
                    unsafe { _exit(70) };
                }
            }
        }
    });
}

/// Runs `f`, which is allowed to panic. `Err` carries the panic message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(payload) => {
            drop(payload);
            Err(last_panic())
        }
    }
}

/// As `catch`, but copying the message is not needed (cheap).
pub fn panics<T>(f: impl FnOnce() -> T) -> Option<T> {
    match panic::catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(payload) => {
            drop(payload);
            None
        }
    }
}

/// One execution of a scenario with all checks that apply to every run.
fn execute(sc: &Scenario, ch: &mut Ch) -> R {
    crate::reg::reset();
    guard::reset();
    let result = {
        let _on = if sc.guarded { Some(guard::on()) } else { None };
        panic::catch_unwind(AssertUnwindSafe(|| (sc.f)(ch)))
    };
    guard::set(false);
    let result = match result {
        Ok(result) => result,
        Err(payload) => {
            let _on = if sc.guarded { Some(guard::on()) } else { None };
            drop(payload);
            drop(_on);
            Err(Halt::Violation(format!("unexpected panic: {}", last_panic())))
        }
    };
    crate::reg::disarm();
    match &result {
        Ok(()) | Err(Halt::Done) => {
            if let Some(e) = crate::reg::take_error() {
                return Err(Halt::Violation(e));
            }
            if sc.guarded {
                if let Some(e) = guard::take_error() {
                    return Err(Halt::Violation(format!("memory error: {e}")));
                }
                if let Some(e) = crate::reg::leaks() {
                    return Err(Halt::Violation(e));
                }
                if guard::outstanding() != 0 {
                    return Err(Halt::Violation(format!(
                        "memory leak: {} allocations made during the run were never freed",
                        guard::outstanding()
                    )));
                }
            }
        }
        _ => {}
    }
    result
}

#[derive(Clone, Debug)]
pub struct Found {
    pub scenario: usize,
    pub path: Vec<u32>,
    pub message: String,
    pub machine: bool,
}

/// Work shared by the threads: choice prefixes whose subtrees nobody has explored yet.
struct Pool {
    work: Mutex<Vec<Vec<u32>>>,
    ready: std::sync::Condvar,
    /// Threads waiting for work.
    idle: AtomicUsize,
    stop: AtomicBool,
    threads: usize,
}

impl Pool {
    fn take(&self) -> Option<Vec<u32>> {
        let mut work = self.work.lock().unwrap();
        loop {
            if self.stop.load(Ordering::Relaxed) {
                return None;
            }
            if let Some(item) = work.pop() {
                return Some(item);
            }
            let idle = self.idle.fetch_add(1, Ordering::SeqCst) + 1;
            if idle == self.threads {
                self.stop.store(true, Ordering::SeqCst);
                self.ready.notify_all();
                return None;
            }
            work = self.ready.wait(work).unwrap();
            self.idle.fetch_sub(1, Ordering::SeqCst);
        }
    }

    fn halt(&self) {
        let _work = self.work.lock().unwrap();
        self.stop.store(true, Ordering::SeqCst);
        self.ready.notify_all();
    }
}

/// Explores everything below `prefix`, giving parts of it away while other threads are idle.
fn explore_prefix(sc: &Scenario, idx: usize, prefix: Vec<u32>, pool: &Pool, total: &mut Stats) -> Option<Found> {
    let mut base = prefix.len();
    let mut fresh_from = prefix.len().saturating_sub(1);
    let mut path: Vec<u32> = prefix;
    let mut arity: Vec<u32> = Vec::new();
    let slot = my_slot();
    slot.scenario.store(idx, Ordering::Relaxed);
    loop {
        if pool.stop.load(Ordering::Relaxed) {
            return None;
        }
        let mut ch = Ch::new(path, fresh_from);
        ch.arity = arity;
        publish_all(&ch.path);
        slot.active.store(true, Ordering::Relaxed);
        let result = execute(sc, &mut ch);
        slot.active.store(false, Ordering::Relaxed);
        ch.stats.executions = 1;
        ch.stats.max_depth = ch.pos as u64;
        total.add(&ch.stats);
        match result {
            Ok(()) | Err(Halt::Done) => {}
            Err(Halt::Violation(message)) => {
                return Some(Found { scenario: idx, path: ch.path().to_vec(), message, machine: false });
            }
            Err(Halt::Machine(message)) => {
                return Some(Found { scenario: idx, path: ch.path().to_vec(), message, machine: true });
            }
        }
        path = ch.path;
        arity = ch.arity;
        path.truncate(ch.pos);
        arity.truncate(ch.pos);
        // Others wait: give away the alternatives of the shallowest choice that has any left.
        if pool.threads > 1 && pool.idle.load(Ordering::Relaxed) > 0 {
            if let Some(j) = (base..path.len()).find(|j| path[*j] + 1 < arity[*j]) {
                let mut work = pool.work.lock().unwrap();
                for alt in (path[j] + 1..arity[j]).rev() {
                    let mut item = path[..=j].to_vec();
                    item[j] = alt;
                    work.push(item);
                }
                base = j + 1;
                pool.ready.notify_all();
            }
        }
        // Odometer: advance the last choice that still has an alternative.
        loop {
            if path.len() <= base {
                return None;
            }
            let last = path.len() - 1;
            if path[last] + 1 < arity[last] {
                path[last] += 1;
                fresh_from = last;
                break;
            }
            path.pop();
            arity.pop();
        }
    }
}

pub struct Outcome {
    pub stats: Stats,
    pub found: Option<Found>,
    pub wall: f64,
}

pub fn explore(sc: &Scenario, idx: usize, threads: usize) -> Outcome {
    let start = Instant::now();
    let threads = threads.min(sc.threads).max(1);
    let pool = Pool {
        work: Mutex::new(vec![Vec::new()]),
        ready: std::sync::Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        threads,
    };
    let total = Mutex::new(Stats::default());
    let found: Mutex<Option<Found>> = Mutex::new(None);
    std::thread::scope(|scope| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, || {
                    let mut stats = Stats::default();
                    while let Some(prefix) = pool.take() {
                        if let Some(f) = explore_prefix(sc, idx, prefix, &pool, &mut stats) {
                            let mut best = found.lock().unwrap();
                            // Prefer the shortest, then the first in depth-first order.
                            if best.as_ref().map_or(true, |b| (f.path.len(), &f.path) < (b.path.len(), &b.path)) {
                                *best = Some(f);
                            }
                            drop(best);
                            pool.halt();
                        }
                    }
                    guard::flush();
                    total.lock().unwrap().add(&stats);
                })
                .unwrap();
        }
    });
    let stats = *total.lock().unwrap();
    let found = found.into_inner().unwrap();
    Outcome { stats, found, wall: start.elapsed().as_secs_f64() }
}

/// Replays one path verbosely. Returns the log and the result.
pub fn replay(sc: &Scenario, idx: usize, path: &[u32]) -> (Vec<String>, R) {
    let mut ch = Ch::new(path.to_vec(), 0);
    ch.verbose = true;
    let slot = my_slot();
    slot.scenario.store(idx, Ordering::Relaxed);
    slot.active.store(true, Ordering::Relaxed);
    publish_all(&ch.path);
    let result = execute(sc, &mut ch);
    slot.active.store(false, Ordering::Relaxed);
    (std::mem::take(&mut ch.log), result)
}

// ---------------------------------------------------------------------------------------------
// Command line

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// Reduced: every property in every build configuration (C19).
    Micro,
    Mini,
    Quick,
    Thorough,
}

impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Micro | Tier::Mini | Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    /// A depth: less in the reduced tiers.
    pub fn depth(self, quick: usize, thorough: usize) -> usize {
        match self {
            Tier::Micro => (quick - 1).min((quick * 3 + 4) / 5),
            Tier::Mini => quick - 1,
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }

    pub fn micro(self) -> bool {
        self == Tier::Micro
    }

    pub fn mini(self) -> bool {
        self == Tier::Mini || self == Tier::Micro
    }
}

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 32 => out.push(' '),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

/// Entry point of every check binary. Prints one JSON object per scenario on stdout, prefixed
/// `SCENARIO `, and exits 0 (explored, no violation), 1 (violation, line `FOUND ...`) or 2.
pub fn main(scenarios: impl Fn(Tier) -> Vec<Scenario>) {
    install_handlers();
    let args: Vec<String> = std::env::args().collect();
    let opt = |name: &str| {
        args.iter()
            .position(|a| a == name)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let tier = match opt("--tier").as_deref() {
        Some("thorough") => Tier::Thorough,
        Some("mini") => Tier::Mini,
        Some("micro") => Tier::Micro,
        _ => Tier::Quick,
    };
    let threads = opt("--threads")
        .and_then(|t| t.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get()));
    let scenarios = scenarios(tier);
    if let Some(name) = opt("--replay") {
        let path: Vec<u32> = opt("--path")
            .unwrap_or_default()
            .split(',')
            .filter(|s| !s.is_empty())
            .map(|s| s.parse().unwrap())
            .collect();
        let idx = scenarios
            .iter()
            .position(|s| s.name == name)
            .or_else(|| name.parse().ok())
            .expect("no such scenario");
        let (log, result) = replay(&scenarios[idx], idx, &path);
        println!("scenario {}: {}", scenarios[idx].name, scenarios[idx].what);
        for l in log {
            println!("  {l}");
        }
        println!("=> {result:?}");
        std::process::exit(match result {
            Ok(()) | Err(Halt::Done) => 0,
            Err(Halt::Violation(_)) => 1,
            _ => 2,
        });
    }
    if args.iter().any(|a| a == "--list") {
        for (i, s) in scenarios.iter().enumerate() {
            println!("{i} {} - {}", s.name, s.what);
        }
        return;
    }
    start_watchdog();
    let only = opt("--only");
    let exact = opt("--exact");
    DUMP.store(args.iter().any(|a| a == "--dump"), Ordering::Relaxed);
    let mut code = 0;
    for (idx, sc) in scenarios.iter().enumerate() {
        if exact.as_ref().is_some_and(|e| *e != sc.name) {
            continue;
        }
        if let Some(only) = &only {
            if !sc.name.contains(only.as_str()) {
                continue;
            }
        }
        let out = explore(sc, idx, threads);
        // One sample per scenario, written out: the first complete execution.
        let sample = {
            let (log, _) = replay(sc, idx, &[]);
            log.join("; ")
        };
        let sample: String = sample.chars().take(600).collect();
        println!(
            "SCENARIO {{\"name\":{},\"what\":{},\"executions\":{},\"states\":{},\"transitions\":{},\"probes\":{},\"faults\":{},\"panics\":{},\"digest\":\"{:016x}\",\"observations\":{},\"max_choices\":{},\"wall_s\":{:.2},\"sample\":{}}}",
            json_str(&sc.name),
            json_str(&sc.what),
            out.stats.executions,
            out.stats.states,
            out.stats.transitions,
            out.stats.probes,
            out.stats.faults,
            out.stats.panics,
            out.stats.digest,
            out.stats.observations,
            out.stats.max_depth,
            out.wall,
            json_str(&sample)
        );
        if let Some(f) = out.found {
            let path: Vec<String> = f.path.iter().map(|p| p.to_string()).collect();
            // The same choices must fail every time; otherwise the harness missed some nondeterminism.
            let (log, again) = replay(sc, idx, &f.path);
            let reproduced = matches!(again, Err(Halt::Violation(_)));
            println!(
                "FOUND {{\"scenario\":{},\"path\":{},\"message\":{},\"machine\":{},\"reproduced\":{},\"trace\":[{}]}}",
                json_str(&sc.name),
                json_str(&path.join(",")),
                json_str(&f.message),
                f.machine,
                reproduced,
                log.iter().map(|l| json_str(l)).collect::<Vec<_>>().join(",")
            );
            code = if f.machine { 2 } else { 1 };
            break;
        }
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}
