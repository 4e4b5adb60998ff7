//! Execution-monitoring framework shared by all checks.
//!
//! A check is a set of *monitors*: a function that drives the real code with one
//! generated case and compares every observation with an independent oracle.
//! The framework supplies seeded generation, panic capture, crash and
//! non-termination supervision, evidence and replay.

pub mod gen;
pub mod rng;

pub use rng::Rng;

use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// A violation seen by a monitor.
#[derive(Debug, Clone)]
pub struct Fail {
    /// Short class of the failure (names the monitor clause).
    pub sig: String,
    /// Full description including the input.
    pub detail: String,
}

pub type R<T = ()> = Result<T, Fail>;

pub fn fail<T>(sig: impl Into<String>, detail: impl Into<String>) -> R<T> {
    Err(Fail { sig: sig.into(), detail: detail.into() })
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $sig:expr, $($arg:tt)*) => {
        if !($c) { return $crate::fail($sig, format!($($arg)*)); }
    };
}

/// Per-case context.
pub struct Cx {
    pub rng: Rng,
    pub thorough: bool,
    pub input: String,
    counters: BTreeMap<&'static str, u64>,
    distinct: Vec<u64>,
    maxima: BTreeMap<&'static str, u64>,
    /// The current input for reports.
    trivial: bool,
}

impl Cx {
    fn new(seed: u64, thorough: bool) -> Self {
        Cx {
            rng: Rng::new(seed),
            thorough,
            input: String::new(),
            counters: BTreeMap::new(),
            distinct: Vec::new(),
            maxima: BTreeMap::new(),
            trivial: false,
        }
    }
    /// Count an observed event.
    pub fn obs(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.maxima.entry(k).or_insert(0);
        if n > *e {
            *e = n;
        }
    }
    /// Record a distinct non-trivial state / case.
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) {
        self.distinct.push(hash_of(t));
    }
    /// Describe the case being run (kept for samples and for the violation report).
    pub fn set_input(&mut self, s: impl Into<String>) {
        self.input = s.into();
    }
    pub fn note(&mut self, s: &str) {
        self.input.push_str("\n");
        self.input.push_str(s);
    }
    pub fn mark_trivial(&mut self) {
        self.trivial = true;
    }
}

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    t.hash(&mut h);
    let mut x = h.finish();
    x ^= x >> 32;
    x = x.wrapping_mul(0x9E3779B97F4A7C15);
    x ^ (x >> 29)
}
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 ^= u64::from(x);
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

pub type CaseFn = fn(&mut Cx) -> R;

/// One monitor of a property.
pub struct Monitor {
    pub name: &'static str,
    /// Cases in the quick tier.
    pub quick: u64,
    /// Cases in the thorough tier.
    pub thorough: u64,
    pub f: CaseFn,
    /// Run cases of this monitor one at a time (it makes its own threads).
    pub serial: bool,
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub monitors: Vec<Monitor>,
    /// Keys of counters that must be non-zero for the run to count (reachability).
    pub must_observe: &'static [&'static str],
}

pub fn mon(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Monitor {
    Monitor { name, quick, thorough, f, serial: false }
}
pub fn mon_serial(name: &'static str, quick: u64, thorough: u64, f: CaseFn) -> Monitor {
    Monitor { name, quick, thorough, f, serial: true }
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let quiet = QUIET.with(|q| *q.borrow());
        let msg = format!("{info}");
        PANIC.with(|p| *p.borrow_mut() = Some(msg));
        if !quiet && std::env::var_os("VERIF_SHOW_PANICS").is_some() {
            default(info);
        }
    }));
}

/// Run `f`, turning a panic into an `Err` with its message.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = prev);
    r.map_err(|e| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| {
            e.downcast_ref::<&str>()
                .map(|s| (*s).to_string())
                .or_else(|| e.downcast_ref::<String>().cloned())
                .unwrap_or_else(|| "panic".into())
        })
    })
}

fn mix(a: u64, b: u64) -> u64 {
    let mut x = a ^ b.wrapping_mul(0x9E3779B97F4A7C15);
    x ^= x >> 30;
    x = x.wrapping_mul(0xBF58476D1CE4E5B9);
    x ^= x >> 27;
    x = x.wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}

struct Slot {
    /// mon index + 1 in the high bits, case index
    cur: AtomicU64,
    started_cpu_ns: AtomicU64,
    clock: AtomicU64,
    live: AtomicBool,
}

fn thread_cpu_ns(clock: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let rc = unsafe { libc::clock_gettime(clock, &mut ts) };
    if rc != 0 {
        return 0;
    }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn my_cpu_clock() -> libc::clockid_t {
    let mut c: libc::clockid_t = 0;
    unsafe {
        libc::pthread_getcpuclockid(libc::pthread_self(), &mut c);
    }
    c
}

/// CPU time one case may use before it counts as not terminating. Cases take
/// milliseconds; this is CPU time of the thread itself, so load cannot cause it.
const CASE_CPU_LIMIT_NS: u64 = 120 * 1_000_000_000;
/// A deadlock: over this many half seconds the whole process has used less CPU
/// time than this. Counted in wake-ups of the watching thread, so that a machine
/// that stands still does not count.
const IDLE_TICKS: u32 = 120;
const IDLE_CPU_NS: u64 = 300_000_000;

#[derive(Default)]
struct Totals {
    evals: u64,
    counters: BTreeMap<&'static str, u64>,
    maxima: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    per_mon: BTreeMap<&'static str, u64>,
}

fn verif_root() -> std::path::PathBuf {
    std::env::var_os("VERIF_ROOT").map_or_else(|| "/verif".into(), Into::into)
}

fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push('…');
        t
    }
}

fn run_case(m: &Monitor, seed: u64, thorough: bool) -> (Cx, R) {
    let mut cx = Cx::new(seed, thorough);
    let f = m.f;
    let r = match guard(|| f(&mut cx)) {
        Ok(r) => r,
        Err(p) => fail("panic", format!("the code under test panicked: {p}")),
    };
    (cx, r)
}

fn write_replay(p: &Property, m: &Monitor, seed: u64, thorough: bool, input: &str, f: &Fail) -> String {
    let dir = verif_root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}-{:016x}.json", p.id, m.name, seed));
    let v = json!({
        "property": p.id, "monitor": m.name, "case_seed": seed.to_string(), "thorough": thorough,
        "signature": f.sig, "detail": f.detail, "input": input,
        "replay": format!("bash /verif/run.sh {} replay {}", p.id, path.display()),
    });
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    path.display().to_string()
}

fn report(p: &Property, m: &Monitor, seed: u64, thorough: bool, input: &str, f: &Fail) {
    let path = write_replay(p, m, seed, thorough, input, f);
    eprintln!("--- {} monitor {} [{}]\n{}\n--- input:\n{}", p.id, m.name, f.sig, clip(&f.detail, 4000), clip(input, 4000));
    println!("VIOLATION property={} replay={}", p.id, path);
}

/// Entry point of every check binary: `<bin> <ID> quick|thorough` or `<bin> <ID> replay FILE`.
pub fn main(props: Vec<Property>) -> ! {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: {} ID quick|thorough|replay FILE", args[0]);
        std::process::exit(2);
    }
    install_hook();
    let Some(p) = props.iter().find(|p| p.id == args[1]) else {
        eprintln!("unknown property {}", args[1]);
        std::process::exit(2);
    };
    match args[2].as_str() {
        "replay" => replay(p, &args[3]),
        "one" => {
            // one MONITOR CASESEED quick|thorough : used to confirm crashes
            let m = p.monitors.iter().find(|m| m.name == args[3]).expect("monitor");
            let seed: u64 = args[4].parse().expect("seed");
            let thorough = args[5] == "thorough";
            let (cx, r) = run_case(m, seed, thorough);
            finish_one(p, m, seed, thorough, &cx, r)
        }
        tier @ ("quick" | "thorough") => {
            if std::env::var_os("VERIF_WORKER").is_some() {
                worker(p, tier == "thorough")
            } else {
                supervise(p, tier)
            }
        }
        _ => std::process::exit(2),
    }
}

fn finish_one(p: &Property, m: &Monitor, seed: u64, thorough: bool, cx: &Cx, r: R) -> ! {
    match r {
        Ok(()) => {
            println!("OK property={} monitor={} case={seed}", p.id, m.name);
            std::process::exit(0)
        }
        Err(f) => {
            report(p, m, seed, thorough, &cx.input, &f);
            std::process::exit(1)
        }
    }
}

fn replay(p: &Property, path: &str) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("read replay")).expect("json");
    let m = p.monitors.iter().find(|m| Some(m.name) == v["monitor"].as_str()).expect("monitor");
    let seed: u64 = v["case_seed"].as_str().unwrap().parse().unwrap();
    let thorough = v["thorough"].as_bool().unwrap_or(false);
    let (cx, r) = run_case(m, seed, thorough);
    finish_one(p, m, seed, thorough, &cx, r)
}

fn slot_path(p: &Property) -> std::path::PathBuf {
    verif_root().join("work").join(format!("{}.slots", p.id))
}

/// Runs the worker as a child, so that an abort (stack overflow, double panic,
/// allocation failure) of the code under test is observed instead of lost.
fn supervise(p: &Property, tier: &str) -> ! {
    let _ = std::fs::create_dir_all(verif_root().join("work"));
    let _ = std::fs::create_dir_all(verif_root().join("evidence"));
    let slots = slot_path(p);
    let _ = std::fs::remove_file(&slots);
    let exe = std::env::current_exe().expect("exe");
    let st = std::process::Command::new(&exe)
        .args([p.id, tier])
        .env("VERIF_WORKER", "1")
        .env("VERIF_SLOTS", &slots)
        .status();
    let st = match st {
        Ok(s) => s,
        Err(e) => {
            eprintln!("cannot start worker: {e}");
            std::process::exit(2)
        }
    };
    if let Some(c) = st.code() {
        let _ = std::fs::remove_file(&slots);
        std::process::exit(c);
    }
    use std::os::unix::process::ExitStatusExt;
    let sig = st.signal().unwrap_or(0);
    eprintln!("worker ended by signal {sig}");
    if ![libc::SIGABRT, libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
        eprintln!("inconclusive: not a crash of the code under test");
        std::process::exit(2);
    }
    // Confirm which in-flight case crashes on its own.
    let data = std::fs::read(&slots).unwrap_or_default();
    let mut confirmed = false;
    for ch in data.chunks_exact(16) {
        let mi = u64::from_le_bytes(ch[0..8].try_into().unwrap());
        let seed = u64::from_le_bytes(ch[8..16].try_into().unwrap());
        if mi == 0 {
            continue;
        }
        let Some(m) = p.monitors.get(mi as usize - 1) else { continue };
        let out = std::process::Command::new(&exe).args([p.id, "one", m.name, &seed.to_string(), tier]).status();
        if let Ok(s) = out {
            if s.code().is_none() && s.signal() != Some(libc::SIGKILL) {
                let f = Fail {
                    sig: format!("crash-signal-{}", s.signal().unwrap_or(0)),
                    detail: "the process aborted while running this case (stack overflow, abort or memory fault)".into(),
                };
                report(p, m, seed, tier == "thorough", "(re-run with the replay command)", &f);
                confirmed = true;
                break;
            }
            if s.code() == Some(1) {
                confirmed = true;
                break;
            }
        }
    }
    let _ = std::fs::remove_file(&slots);
    std::process::exit(if confirmed { 1 } else { 2 })
}

fn worker(p: &Property, thorough: bool) -> ! {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = std::env::var("VERIF_ONLY").ok();
    // Wall-clock bound on exploration only: ends the run early, never a verdict.
    let budget = Duration::from_secs(
        std::env::var("VERIF_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 660 } else { 240 }),
    );
    // development aid: collect N failures and print one small case per class
    let survey: Option<usize> = std::env::var("VERIF_SURVEY").ok().and_then(|s| s.parse().ok());
    let nthreads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let kf = known_findings(p.id);
    let known_hits: Arc<Mutex<BTreeMap<String, u64>>> = Arc::new(Mutex::new(BTreeMap::new()));
    let totals = Arc::new(Mutex::new(Totals::default()));
    let failed: Arc<Mutex<Vec<(usize, u64, String, Fail)>>> = Arc::new(Mutex::new(vec![]));
    let stop = Arc::new(AtomicBool::new(false));
    let slots: Arc<Vec<Slot>> = Arc::new(
        (0..nthreads)
            .map(|_| Slot {
                cur: AtomicU64::new(0),
                started_cpu_ns: AtomicU64::new(0),
                clock: AtomicU64::new(0),
                live: AtomicBool::new(false),
            })
            .collect(),
    );
    let slot_file = std::env::var_os("VERIF_SLOTS").and_then(|f| {
        std::fs::OpenOptions::new().create(true).truncate(true).read(true).write(true).open(f).ok()
    });
    if let Some(f) = &slot_file {
        let _ = f.set_len(16 * nthreads as u64);
    }
    let map: usize = slot_file.as_ref().map_or(0, |f| {
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                16 * nthreads,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            0
        } else {
            p as usize
        }
    });

    // Non-termination monitor.
    let cur_case: Arc<Mutex<Vec<(usize, u64)>>> = Arc::new(Mutex::new(vec![(0, 0); nthreads]));
    {
        let slots = slots.clone();
        let cur_case = cur_case.clone();
        let id = p.id;
        let mons: Vec<&'static str> = p.monitors.iter().map(|m| m.name).collect();
        let mut idle = (0u32, 0u64, 0u64);
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            // A process that computes nothing while a case runs waits for itself
            // (cases neither sleep nor wait for anything outside).
            let cases: u64 = slots.iter().map(|s| s.cur.load(Ordering::Acquire)).sum();
            let cpu = thread_cpu_ns(libc::CLOCK_PROCESS_CPUTIME_ID);
            if cases == idle.1 && cpu.saturating_sub(idle.2) < IDLE_CPU_NS {
                idle.0 += 1;
            } else {
                idle = (0, cases, cpu);
            }
            let blocked = idle.0 > IDLE_TICKS;
            for (i, s) in slots.iter().enumerate() {
                if !s.live.load(Ordering::Acquire) {
                    continue;
                }
                let before = s.cur.load(Ordering::Acquire);
                let used = thread_cpu_ns(s.clock.load(Ordering::Acquire) as i64 as libc::clockid_t)
                    .saturating_sub(s.started_cpu_ns.load(Ordering::Acquire));
                if (blocked || used > CASE_CPU_LIMIT_NS) && s.cur.load(Ordering::Acquire) == before && s.live.load(Ordering::Acquire) {
                    let (mi, cs) = cur_case.lock().unwrap()[i];
                    let dir = verif_root().join("replays");
                    let _ = std::fs::create_dir_all(&dir);
                    let path = dir.join(format!("{id}-{}-{cs:016x}.json", mons[mi]));
                    let v = json!({"property": id, "monitor": mons[mi], "case_seed": cs.to_string(), "thorough": thorough,
                        "signature":"non-termination","detail": if blocked { "deadlock: no thread of the case has run for a minute" } else { "one case used more than 120 s of CPU time" }});
                    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
                    eprintln!("--- {id} monitor {}: case did not terminate ({})", mons[mi], if blocked { "deadlock" } else { "120 s CPU" });
                    println!("VIOLATION property={id} replay={}", path.display());
                    let _ = std::io::stdout().flush();
                    unsafe { libc::_exit(1) };
                }
            }
        });
    }

    let mons = &p.monitors;
    for (mi, m) in mons.iter().enumerate() {
        if let Some(o) = &only {
            if o != m.name {
                continue;
            }
        }
        let n = ((if thorough { m.thorough } else { m.quick }) as f64 * scale).ceil() as u64;
        let base = mix(mix(seed, hash_of(p.id)), hash_of(m.name));
        let next = AtomicU64::new(0);
        let nt = if m.serial { 1 } else { nthreads };
        // every monitor gets a fair part of the remaining time
        let mon_deadline = {
            let left = budget.saturating_sub(t0.elapsed());
            let remaining = (mons.len() - mi) as u32;
            Instant::now() + (left / remaining) * if remaining > 1 { 2 } else { 1 }
        };
        std::thread::scope(|sc| {
            for ti in 0..nt {
                let (next, totals, failed, stop, slots, cur_case, kf, known_hits) =
                    (&next, &totals, &failed, &stop, &slots, &cur_case, &kf, &known_hits);
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(sc, move || {
                        let clock = my_cpu_clock();
                        slots[ti].clock.store(clock as i64 as u64, Ordering::Release);
                        loop {
                            if stop.load(Ordering::Relaxed) || Instant::now() > mon_deadline || t0.elapsed() > budget {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= n {
                                break;
                            }
                            let cs = mix(base, i);
                            cur_case.lock().unwrap()[ti] = (mi, cs);
                            if map != 0 {
                                unsafe {
                                    let p = (map as *mut u64).add(ti * 2);
                                    p.write_volatile((mi + 1) as u64);
                                    p.add(1).write_volatile(cs);
                                }
                            }
                            slots[ti].started_cpu_ns.store(thread_cpu_ns(clock), Ordering::Release);
                            slots[ti].cur.fetch_add(1, Ordering::AcqRel);
                            slots[ti].live.store(true, Ordering::Release);
                            let (cx, r) = run_case(m, cs, thorough);
                            slots[ti].live.store(false, Ordering::Release);
                            if map != 0 {
                                unsafe {
                                    (map as *mut u64).add(ti * 2).write_volatile(0);
                                }
                            }
                            let mut t = totals.lock().unwrap();
                            t.evals += 1;
                            *t.per_mon.entry(m.name).or_insert(0) += 1;
                            for (k, v) in &cx.counters {
                                *t.counters.entry(k).or_insert(0) += v;
                            }
                            for (k, v) in &cx.maxima {
                                let e = t.maxima.entry(k).or_insert(0);
                                *e = (*e).max(*v);
                            }
                            if !cx.trivial {
                                for d in &cx.distinct {
                                    if t.distinct.len() < 10_000_000 { t.distinct.insert(*d); }
                                }
                                if i < 2 && !cx.input.is_empty() {
                                    let s = json!({"monitor": m.name, "case_seed": cs.to_string(), "case": clip(&cx.input, 1500)});
                                    t.samples.push(s);
                                }
                            }
                            drop(t);
                            if let Err(f) = r {
                                if kf.contains(&f.sig) {
                                    *known_hits.lock().unwrap().entry(f.sig).or_insert(0) += 1;
                                    continue;
                                }
                                let mut fl = failed.lock().unwrap();
                                fl.push((mi, cs, cx.input.clone(), f));
                                if fl.len() >= survey.unwrap_or(5) {
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    })
                    .expect("spawn");
            }
        });
    }

    let t = totals.lock().unwrap();
    let failed = failed.lock().unwrap();
    let mut violations = 0;
    if survey.is_some() {
        let mut g: BTreeMap<String, (u64, &(usize, u64, String, Fail))> = BTreeMap::new();
        for x in failed.iter() {
            let k = if x.3.sig == "panic" { clip(&x.3.detail, 160) } else { x.3.sig.clone() };
            let e = g.entry(k).or_insert((0, x));
            e.0 += 1;
            if x.2.len() < e.1 .2.len() {
                e.1 = x;
            }
        }
        for (k, (n, (mi, cs, input, f))) in &g {
            eprintln!("=== {n} x [{}] {k}\n{}\nseed {cs}\n--- {}", mons[*mi].name, clip(&f.detail, 600), clip(input, 1500));
        }
    }
    for (mi, cs, input, f) in failed.iter() {
        violations += 1;
        if violations <= 3 {
            report(p, &mons[*mi], *cs, thorough, input, f);
        }
    }
    let known_hits = known_hits.lock().unwrap();
    for k in &kf {
        println!("KNOWN-FINDING: property={} {}", p.id, k);
    }
    let missing: Vec<&str> = if only.is_some() || violations > 0 {
        vec![]
    } else {
        p.must_observe.iter().copied().filter(|k| t.counters.get(k).copied().unwrap_or(0) == 0).collect()
    };
    let mut cov = serde_json::Map::new();
    cov.insert("evaluations".into(), json!(t.evals));
    cov.insert("distinct_nontrivial".into(), json!(t.distinct.len()));
    cov.insert("rule".into(), json!(p.rule));
    cov.insert("cases_per_monitor".into(), json!(t.per_mon));
    cov.insert("observed".into(), json!(t.counters));
    cov.insert("maxima".into(), json!(t.maxima));
    cov.insert("known_finding_occurrences".into(), json!(*known_hits));
    cov.insert("samples".into(), json!(t.samples));
    let extra = std::env::var("VERIF_EXTRA").ok().and_then(|f| std::fs::read_to_string(f).ok()).and_then(|s| serde_json::from_str::<Value>(&s).ok());
    if let Some(e) = extra {
        cov.insert("sanitizer_runs".into(), e);
    }
    let ev = json!({
        "property": p.id, "tier": if thorough {"thorough"} else {"quick"}, "seed": seed, "level": "exploration",
        "coverage": Value::Object(cov), "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": violations,
    });
    let path = verif_root().join("evidence").join(format!("{}.json", p.id));
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap());
    eprintln!(
        "{}: {} cases, {} distinct, {} violations, {:.1}s {:?}",
        p.id, t.evals, t.distinct.len(), violations, t0.elapsed().as_secs_f64(), t.per_mon
    );
    if std::env::var_os("VERIF_VERBOSE").is_some() {
        eprintln!("observed {:#?} maxima {:#?}", t.counters, t.maxima);
    }
    let _ = std::io::stdout().flush();
    if violations > 0 {
        std::process::exit(1);
    }
    if !missing.is_empty() {
        eprintln!("inconclusive: never observed {missing:?}");
        std::process::exit(2);
    }
    std::process::exit(0)
}

/// Signatures listed in /verif/known_findings.txt for a property
/// (lines "KNOWN-FINDING: property=<id> <signature>").
fn known_findings(id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(verif_root().join("known_findings.txt")).unwrap_or_default();
    let pre = format!("KNOWN-FINDING: property={id} ");
    s.lines().filter_map(|l| l.strip_prefix(&pre)).map(|s| s.trim().to_string()).collect()
}

/// CPU time this thread has used so far.
pub fn cpu_ns() -> u64 {
    thread_cpu_ns(my_cpu_clock())
}
