//! Monitoring core: runs seeded cases on worker threads, records what the oracles
//! observed, and writes evidence and replay files.
pub mod perturb;
pub mod rng;
pub use rng::{hash_bytes, hash_u64s, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type Res = Result<(), Fail>;

#[derive(Debug, Clone)]
pub struct Fail {
    pub sig: String,
    pub msg: String,
}
impl From<String> for Fail {
    fn from(m: String) -> Self {
        Fail { sig: String::new(), msg: m }
    }
}
impl From<&str> for Fail {
    fn from(m: &str) -> Self {
        Fail { sig: String::new(), msg: m.to_string() }
    }
}

/// Return a violation from a case closure.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::Fail::from(format!($($t)*))) };
}
/// Count one oracle evaluation on `$c`, violation if the condition is false.
#[macro_export]
macro_rules! ck {
    ($c:expr, $cond:expr, $($t:tt)*) => {{
        $c.evals += 1;
        if !$cond { return Err($crate::Fail::from(format!($($t)*))); }
    }};
}
#[macro_export]
macro_rules! ck_eq {
    ($c:expr, $a:expr, $b:expr, $($t:tt)*) => {{
        $c.evals += 1;
        let a = &$a; let b = &$b;
        if a != b {
            return Err($crate::Fail::from(format!("{}: got {:?} expected {:?}", format!($($t)*), $crate::Short(a), $crate::Short(b))));
        }
    }};
}

pub struct Short<'a, T>(pub &'a T);
impl<T: std::fmt::Debug> std::fmt::Debug for Short<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let s = format!("{:?}", self.0);
        if s.len() > 400 {
            let mut e = 400;
            while !s.is_char_boundary(e) {
                e -= 1;
            }
            write!(f, "{}...({} chars)", &s[..e], s.len())
        } else {
            write!(f, "{}", s)
        }
    }
}

/// One run of a workload under its oracles.
pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    pub quick: bool,
    pub evals: u64,
    pub keys: Vec<u64>,
    pub counts: BTreeMap<String, u64>,
    pub maxes: BTreeMap<String, f64>,
    pub sample: Option<String>,
    pub want_sample: bool,
    pub desc: String,
}
impl Case {
    /// record an observed distinct state / input
    pub fn key(&mut self, h: u64) {
        self.keys.push(h);
    }
    pub fn count(&mut self, name: &str, n: u64) {
        *self.counts.entry(name.to_string()).or_insert(0) += n;
    }
    pub fn max(&mut self, name: &str, v: f64) {
        let e = self.maxes.entry(name.to_string()).or_insert(f64::NEG_INFINITY);
        if v > *e {
            *e = v
        }
    }
    /// describe the inputs of the case (shown in replay file and samples)
    pub fn describe(&mut self, s: String) {
        if self.keys.is_empty() {
            let h = hash_bytes(s.as_bytes());
            self.key(h);
        }
        if self.want_sample {
            self.sample = Some(s.clone());
        }
        self.desc = s;
    }
}

thread_local! {
    static PANIC_INFO: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

/// Run `f`; Err(message) when it panics. Never prints.
pub fn quiet_catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    QUIET.with(|q| *q.borrow_mut() = true);
    PANIC_INFO.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    r.map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = PANIC_INFO.with(|p| p.borrow_mut().take()).unwrap_or_default();
        format!("{m} at {loc}")
    })
}

#[derive(Default)]
struct Agg {
    evals: u64,
    cases: u64,
    keys: HashSet<u64>,
    counts: BTreeMap<String, u64>,
    maxes: BTreeMap<String, f64>,
    samples: Vec<String>,
}

pub struct Violation {
    pub section: String,
    pub idx: u64,
    pub fail: Fail,
    pub desc: String,
}

pub struct Ctx {
    pub prop: String,
    pub quick: bool,
    pub seed: u64,
    pub stage: String,
    out: Option<String>,
    replay_dir: String,
    only: Option<(String, Option<u64>)>,
    known: Vec<String>,
    start: Instant,
    budget: Duration,
    sections: BTreeMap<String, Agg>,
    order: Vec<String>,
    violations: Vec<Violation>,
    known_seen: BTreeMap<String, String>,
    incomplete: Vec<String>,
    journal: Option<Journal>,
    threads: usize,
    scale: f64,
    max_viol: usize,
}

/// Shared-memory record of the case each worker is in, read by the supervisor
/// (check.py) when the process crashes or stops making progress.
struct Journal {
    p: *mut u8,
}
unsafe impl Sync for Journal {}
unsafe impl Send for Journal {}
const SLOT: usize = 128;
const SLOTS: usize = 64;
impl Journal {
    fn open(path: &str) -> Option<Journal> {
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(path)
            .ok()?;
        f.set_len((SLOT * SLOTS) as u64).ok()?;
        use std::os::fd::AsRawFd;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOT * SLOTS,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return None;
        }
        Some(Journal { p: p as *mut u8 })
    }
    fn set(&self, slot: usize, section: &str, idx: u64) {
        let tid = unsafe { libc::syscall(libc::SYS_gettid) };
        let mut s = format!("{} {} {}\n", tid, idx, section).into_bytes();
        s.truncate(SLOT - 1);
        s.resize(SLOT, 0);
        unsafe { std::ptr::copy_nonoverlapping(s.as_ptr(), self.p.add(slot % SLOTS * SLOT), SLOT) }
    }
    fn clear(&self, slot: usize) {
        unsafe { std::ptr::write_bytes(self.p.add(slot % SLOTS * SLOT), 0, SLOT) }
    }
}

fn arg(name: &str) -> Option<String> {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1).cloned())
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let quick = std::env::var("VERIF_TIER").map(|t| t != "thorough").unwrap_or(true);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let default_hook = std::panic::take_hook();
        std::panic::set_hook(Box::new(move |info| {
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let quiet = QUIET.with(|q| *q.borrow());
            PANIC_INFO.with(|p| *p.borrow_mut() = Some(loc));
            if !quiet && std::env::var("VPANIC").is_ok() {
                default_hook(info);
            }
        }));
        let budget = std::env::var("VERIF_BUDGET_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if quick { 240.0 } else { 3000.0 });
        let known = std::env::var("VERIF_KNOWN").unwrap_or_default();
        let known = known.split('\n').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect();
        let threads = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        });
        let only = arg("--section").map(|s| (s, arg("--case").and_then(|c| c.parse().ok())));
        Ctx {
            prop: prop.into(),
            quick,
            seed,
            stage: std::env::var("VERIF_STAGE").unwrap_or_else(|_| "native".into()),
            out: arg("--out"),
            replay_dir: std::env::var("VERIF_REPLAY_DIR").unwrap_or_else(|_| "/tmp".into()),
            only,
            known,
            start: Instant::now(),
            budget: Duration::from_secs_f64(budget),
            sections: BTreeMap::new(),
            order: vec![],
            violations: vec![],
            known_seen: BTreeMap::new(),
            incomplete: vec![],
            journal: arg("--journal").and_then(|p| Journal::open(&p)),
            threads,
            scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
            max_viol: 3,
        }
    }
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.quick { quick } else { thorough }
    }
    pub fn threads(&self) -> usize {
        self.threads
    }
    /// Run `quick` (or `thorough`) cases of a workload in parallel.
    pub fn section<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        let t = self.threads;
        self.run(name, quick, thorough, t, f)
    }
    /// Same, one case at a time (for workloads that spawn their own threads).
    pub fn serial<F>(&mut self, name: &str, quick: u64, thorough: u64, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        self.run(name, quick, thorough, 1, f)
    }
    fn run<F>(&mut self, name: &str, quick: u64, thorough: u64, threads: usize, f: F)
    where
        F: Fn(&mut Case) -> Res + Sync,
    {
        // a stage may run some of the sections only
        if let Ok(l) = std::env::var("VERIF_SECTIONS") {
            if self.only.is_none() && !l.split(',').any(|x| x == name) {
                return;
            }
        }
        let mut n = self.n(quick, thorough);
        if self.scale != 1.0 {
            n = ((n as f64 * self.scale) as u64).max(1);
        }
        let mut first = 0u64;
        if let Some((s, c)) = &self.only {
            if s != name {
                return;
            }
            if let Some(c) = c {
                first = *c;
                n = *c + 1;
            }
        }
        if self.violations.len() >= self.max_viol {
            return;
        }
        let t0 = Instant::now();
        let next = AtomicU64::new(first);
        let stop = AtomicBool::new(false);
        let viol: Mutex<Vec<Violation>> = Mutex::new(vec![]);
        let agg: Mutex<Agg> = Mutex::new(Agg::default());
        let seed = self.seed;
        let deadline = self.start + self.budget;
        let q = self.quick;
        let journal = &self.journal;
        let known = &self.known;
        let known_seen: Mutex<BTreeMap<String, String>> = Mutex::new(BTreeMap::new());
        let worker = |slot: usize| {
            let mut local = Agg::default();
            loop {
                if stop.load(Ordering::Relaxed) || Instant::now() > deadline {
                    break;
                }
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= n {
                    break;
                }
                if let Some(j) = journal {
                    j.set(slot, name, i);
                }
                let mut c = Case {
                    rng: Rng::for_case(seed, name, i),
                    idx: i,
                    quick: q,
                    evals: 0,
                    keys: vec![],
                    counts: BTreeMap::new(),
                    maxes: BTreeMap::new(),
                    sample: None,
                    want_sample: local.samples.len() < 1,
                    desc: String::new(),
                };
                let r = quiet_catch(|| f(&mut c));
                let r: Res = match r {
                    Ok(r) => r,
                    Err(p) => Err(Fail { sig: String::new(), msg: format!("panic on valid input: {p}") }),
                };
                if let Some(j) = journal {
                    j.clear(slot);
                }
                local.cases += 1;
                local.evals += c.evals;
                if local.keys.len() < 400_000 {
                    local.keys.extend(c.keys.iter().map(|k| k ^ hash_bytes(name.as_bytes())));
                }
                for (k, v) in std::mem::take(&mut c.counts) {
                    *local.counts.entry(k).or_insert(0) += v;
                }
                for (k, v) in std::mem::take(&mut c.maxes) {
                    let e = local.maxes.entry(k).or_insert(f64::NEG_INFINITY);
                    if v > *e {
                        *e = v
                    }
                }
                if let Some(s) = c.sample.take() {
                    local.samples.push(s);
                }
                if let Err(fl) = r {
                    if !fl.sig.is_empty() && known.iter().any(|k| *k == fl.sig) {
                        known_seen.lock().unwrap().insert(fl.sig.clone(), fl.msg.clone());
                    } else {
                        let mut v = viol.lock().unwrap();
                        v.push(Violation { section: name.into(), idx: i, fail: fl, desc: c.desc.clone() });
                        stop.store(true, Ordering::Relaxed);
                    }
                }
            }
            let mut a = agg.lock().unwrap();
            a.evals += local.evals;
            a.cases += local.cases;
            a.keys.extend(local.keys);
            for (k, v) in local.counts {
                *a.counts.entry(k).or_insert(0) += v;
            }
            for (k, v) in local.maxes {
                let e = a.maxes.entry(k).or_insert(f64::NEG_INFINITY);
                if v > *e {
                    *e = v
                }
            }
            if a.samples.len() < 3 {
                a.samples.extend(local.samples.into_iter().take(1));
            }
        };
        if threads <= 1 {
            worker(0);
        } else {
            std::thread::scope(|s| {
                for t in 0..threads.min((n - first).max(1) as usize) {
                    let w = &worker;
                    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, move || w(t)).unwrap();
                }
            });
        }
        let agg = agg.into_inner().unwrap();
        if agg.cases < n - first && viol.lock().unwrap().is_empty() {
            self.incomplete.push(format!("{name}: {}/{} cases within the time budget", agg.cases, n - first));
        }
        if std::env::var("VERBOSE").is_ok() {
            eprintln!("[{}] {:<28} cases {:>7} evals {:>10} distinct {:>8} {:.2}s {:?} {:?}", self.prop, name, agg.cases, agg.evals, agg.keys.len(), t0.elapsed().as_secs_f64(), agg.counts, agg.maxes);
        }
        self.known_seen.extend(known_seen.into_inner().unwrap());
        self.violations.extend(viol.into_inner().unwrap());
        self.order.push(name.into());
        self.sections.insert(name.into(), agg);
    }
    /// Record a violation found outside a section.
    pub fn violation(&mut self, section: &str, msg: String) {
        self.violations.push(Violation { section: section.into(), idx: 0, fail: msg.into(), desc: String::new() });
    }
    pub fn note_incomplete(&mut self, s: String) {
        self.incomplete.push(s);
    }
    pub fn finish(self) -> ! {
        let mut evals = 0;
        let mut cases = 0;
        let mut distinct = 0;
        let mut secs = vec![];
        let mut samples = vec![];
        for name in &self.order {
            let a = &self.sections[name];
            evals += a.evals;
            cases += a.cases;
            distinct += a.keys.len();
            secs.push(json!({"section": name, "cases": a.cases, "evaluations": a.evals, "distinct": a.keys.len(), "observed": a.counts, "max": a.maxes}));
            for s in &a.samples {
                if samples.len() < 40 {
                    let s: String = s.chars().take(300).collect();
                    samples.push(json!(format!("{name}: {s}")));
                }
            }
        }
        let mut vs: Vec<Value> = vec![];
        for (k, v) in self.violations.iter().enumerate() {
            let path = format!("{}/{}-{}-{}.json", self.replay_dir, self.prop, self.stage, k);
            let j = json!({"property": self.prop, "stage": self.stage, "section": v.section, "case": v.idx, "seed": self.seed,
                "tier": if self.quick {"quick"} else {"thorough"}, "signature": v.fail.sig, "message": v.fail.msg, "inputs": v.desc});
            let _ = std::fs::create_dir_all(&self.replay_dir);
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap());
            println!("VIOLATION property={} replay={}", self.prop, path);
            let m: String = v.fail.msg.chars().take(600).collect();
            println!("  {} case {}: {}", v.section, v.idx, m);
            vs.push(j);
        }
        for (s, m) in &self.known_seen {
            let m: String = m.chars().take(200).collect();
            println!("KNOWN-FINDING: property={} {}: {}", self.prop, s, m.replace('\n', " "));
        }
        let j = json!({"property": self.prop, "stage": self.stage, "seed": self.seed, "cases": cases, "evaluations": evals,
            "distinct": distinct, "sections": secs, "samples": samples, "violations": vs, "incomplete": self.incomplete,
            "known_seen": self.known_seen, "wall_s": self.start.elapsed().as_secs_f64()});
        if let Some(o) = &self.out {
            let mut f = std::fs::File::create(o).expect("evidence file");
            f.write_all(serde_json::to_string_pretty(&j).unwrap().as_bytes()).unwrap();
        }
        let _ = std::io::stdout().flush();
        if !self.violations.is_empty() {
            std::process::exit(1)
        }
        if evals == 0 && self.only.is_none() {
            eprintln!("nothing observed");
            std::process::exit(2)
        }
        std::process::exit(0)
    }
}
