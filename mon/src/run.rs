//! Runs the cases of a check on all cores and collects what was observed.

use crate::util::{mix, Rng};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fs::File;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    pub threads: usize,
    pub scale: f64,
    pub wall: f64,
    pub only: Option<u64>,
    pub journal: Option<String>,
    pub known: HashSet<String>,
    pub oracle_dir: String,
    pub repo: String,
}

#[derive(Debug)]
pub struct Viol {
    pub what: String,
    pub detail: BTreeMap<String, String>,
}
pub type R = Result<(), Viol>;

pub fn viol<T>(what: impl Into<String>) -> Result<T, Viol> {
    Err(Viol { what: what.into(), detail: BTreeMap::new() })
}

impl Viol {
    pub fn with(mut self, k: &str, v: impl Into<String>) -> Viol {
        self.detail.insert(k.into(), v.into());
        self
    }
}

pub trait Ctx<T> {
    fn ctx(self, k: &str, v: impl FnOnce() -> String) -> Result<T, Viol>;
}
impl<T> Ctx<T> for Result<T, Viol> {
    fn ctx(self, k: &str, v: impl FnOnce() -> String) -> Result<T, Viol> {
        self.map_err(|e| e.with(k, v()))
    }
}
impl<T> Ctx<T> for Result<T, String> {
    fn ctx(self, k: &str, v: impl FnOnce() -> String) -> Result<T, Viol> {
        self.map_err(|e| Viol { what: e, detail: BTreeMap::new() }.with(k, v()))
    }
}

#[macro_export]
macro_rules! check {
    ($c:expr, $($a:tt)+) => { if !($c) { return $crate::run::viol(format!($($a)+)); } };
}

#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<(u64, String)>,
    pub known: BTreeMap<String, (u64, String)>,
    pub cases: u64,
    pub inconclusive: Vec<String>,
}

const DISTINCT_CAP: usize = 4_000_000;

impl Stats {
    /// One execution judged by the oracle; `key` identifies it, `nontrivial` says whether
    /// it counts as more than a trivial one.
    pub fn eval(&mut self, key: u64, nontrivial: bool) {
        self.evals += 1;
        if nontrivial && self.distinct.len() < DISTINCT_CAP {
            self.distinct.insert(key);
        }
    }
    pub fn count(&mut self, k: &str, n: u64) {
        match self.counters.get_mut(k) {
            Some(v) => *v += n,
            None => {
                self.counters.insert(k.to_string(), n);
            }
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max_{}", k);
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        // keeps the samples of cases that are spread out
        if self.samples.len() < 4 || self.cases % 997 == 0 && self.samples.len() < 12 {
            let mut s = f();
            if s.len() > 400 {
                let mut n = 400;
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                s.truncate(n);
                s.push('…');
            }
            self.samples.push((self.cases, s));
        }
    }
    pub fn known(&mut self, sig: &str, example: String) {
        let e = self.known.entry(sig.to_string()).or_insert((0, example));
        e.0 += 1;
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.cases += o.cases;
        for d in o.distinct {
            self.distinct.insert(d);
        }
        for (k, v) in o.counters {
            let e = self.counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max_") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        for (k, (n, s)) in o.known {
            self.known.entry(k).or_insert((0, s)).0 += n;
        }
        self.samples.extend(o.samples);
        self.inconclusive.extend(o.inconclusive);
    }
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "panic".into());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        if !QUIET.with(|q| q.get()) {
            old(i);
        }
    }));
}

pub enum Caught<T> {
    Ok(T),
    /// location, message
    Panic(String, String),
}

/// Runs code of the library under observation; a panic is returned, not propagated.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Caught<T> {
    let was = QUIET.with(|q| q.replace(true));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    QUIET.with(|q| q.set(was));
    match r {
        Ok(v) => Caught::Ok(v),
        Err(_) => {
            let (l, m) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            Caught::Panic(l, m)
        }
    }
}

fn thread_cpu() -> f64 {
    // utime+stime of this thread
    let s = std::fs::read_to_string("/proc/thread-self/stat").unwrap_or_default();
    cpu_of(&s)
}
fn cpu_of(s: &str) -> f64 {
    let Some(i) = s.rfind(')') else { return 0.0 };
    let f: Vec<&str> = s[i + 1..].split_whitespace().collect();
    let g = |n: usize| f.get(n).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}

struct Slot {
    case: AtomicU64, // 0 = idle, else idx + 1
    tid: AtomicU64,
    cpu_at_start: Mutex<f64>,
}

pub struct Outcome {
    pub stats: Stats,
    pub viol: Option<(u64, Viol)>,
    pub wall: f64,
    pub complete: bool,
    pub planned: u64,
}

pub const CASE_CPU_LIMIT: f64 = 90.0;

/// `n` cases (scaled); `init` makes per-thread state; `case` judges one case.
pub fn run<S>(
    cfg: &Cfg,
    n: u64,
    stack: usize,
    init: impl Fn(usize) -> S + Sync,
    case: impl Fn(&mut S, &mut Rng, u64, &mut Stats) -> R + Sync,
) -> Outcome {
    let n = ((n as f64) * cfg.scale).ceil().max(1.0) as u64;
    let start = Instant::now();
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let found: Mutex<Option<(u64, Viol)>> = Mutex::new(None);
    let all: Mutex<Stats> = Mutex::new(Stats::default());
    let threads = if cfg.only.is_some() { 1 } else { cfg.threads };
    let slots: Vec<Slot> = (0..threads).map(|_| Slot { case: AtomicU64::new(0), tid: AtomicU64::new(0), cpu_at_start: Mutex::new(0.0) }).collect();
    let journal = cfg.journal.as_ref().map(|p| {
        let f = File::create(p).expect("journal");
        f.set_len(8 * threads as u64).unwrap();
        f
    });
    let done = AtomicU64::new(0);
    let prop_h = crate::util::hash_str(&cfg.prop);
    std::thread::scope(|sc| {
        for t in 0..threads {
            let (next, stop, found, all, slots, journal, case, init, done) = (&next, &stop, &found, &all, &slots, &journal, &case, &init, &done);
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(sc, move || {
                    let tid: u64 = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name().and_then(|f| f.to_str().and_then(|s| s.parse().ok()))).unwrap_or(0);
                    slots[t].tid.store(tid, Ordering::SeqCst);
                    let mut st = Stats::default();
                    let mut state = init(t);
                    loop {
                        if stop.load(Ordering::Relaxed) || (start.elapsed().as_secs_f64() > cfg.wall && cfg.only.is_none()) {
                            break;
                        }
                        let idx = next.fetch_add(1, Ordering::Relaxed);
                        let idx = match cfg.only {
                            Some(o) if idx == 0 => o,
                            Some(_) => break,
                            None => idx,
                        };
                        if cfg.only.is_none() && idx >= n {
                            break;
                        }
                        if let Some(j) = journal {
                            let _ = j.write_at(&(idx + 1).to_le_bytes(), 8 * t as u64);
                        }
                        *slots[t].cpu_at_start.lock().unwrap() = thread_cpu();
                        slots[t].case.store(idx + 1, Ordering::SeqCst);
                        let mut rng = Rng::new(mix(cfg.seed ^ mix(prop_h ^ mix(idx))));
                        st.cases = idx;
                        let r = guarded(|| case(&mut state, &mut rng, idx, &mut st));
                        slots[t].case.store(0, Ordering::SeqCst);
                        if let Some(j) = journal {
                            let _ = j.write_at(&0u64.to_le_bytes(), 8 * t as u64);
                        }
                        done.fetch_add(1, Ordering::Relaxed);
                        let v = match r {
                            Caught::Ok(Ok(())) => continue,
                            Caught::Ok(Err(v)) => v,
                            Caught::Panic(loc, msg) => {
                                if loc.starts_with("src/") {
                                    // the monitor's own code (the library has absolute paths)
                                    eprintln!("HARNESS-ERROR: monitor panicked at {}: {}", loc, msg);
                                    std::process::exit(2);
                                }
                                Viol { what: format!("the library panicked at {}: {}", loc, msg), detail: BTreeMap::new() }
                            }
                        };
                        stop.store(true, Ordering::SeqCst);
                        let mut f = found.lock().unwrap();
                        if f.as_ref().map_or(true, |(i, _)| idx < *i) {
                            *f = Some((idx, v));
                        }
                        break;
                    }
                    st.cases = 0;
                    all.lock().unwrap().merge(st);
                    drop(state);
                    slots[t].tid.store(0, Ordering::SeqCst);
                })
                .expect("spawn");
        }
        // watchdog: a single case using this much CPU time does not end within any reasonable bound
        let (slots, cfg) = (&slots, &cfg);
        let start = start;
        let finished = &done;
        let _ = finished;
        let stopw = &stop;
        loop {
            std::thread::sleep(Duration::from_millis(50));
            if slots.iter().all(|s| s.tid.load(Ordering::SeqCst) == 0) && start.elapsed().as_millis() > 100 {
                break;
            }
            for s in slots.iter() {
                let c = s.case.load(Ordering::SeqCst);
                let tid = s.tid.load(Ordering::SeqCst);
                if c == 0 || tid == 0 {
                    continue;
                }
                let st = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).unwrap_or_default();
                let used = cpu_of(&st) - *s.cpu_at_start.lock().unwrap();
                if used > CASE_CPU_LIMIT && s.case.load(Ordering::SeqCst) == c {
                    println!("HANG case={} cpu={:.0}", c - 1, used);
                    let _ = (cfg, stopw);
                    std::process::exit(3);
                }
            }
        }
    });
    let mut stats = all.into_inner().unwrap();
    stats.cases = done.load(Ordering::SeqCst);
    let viol = found.into_inner().unwrap();
    Outcome { complete: stats.cases >= n || cfg.only.is_some(), stats, viol, wall: start.elapsed().as_secs_f64(), planned: n }
}
