//! Verdicts, evidence, known findings, watchdogs.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    // FNV-1a: stable across runs
    struct F(u64);
    impl Hasher for F {
        fn finish(&self) -> u64 { self.0 }
        fn write(&mut self, b: &[u8]) { for x in b { self.0 ^= *x as u64; self.0 = self.0.wrapping_mul(0x100000001b3); } }
    }
    let mut f = F(0xcbf29ce484222325);
    t.hash(&mut f);
    f.finish()
}

pub fn verif_dir() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())) }

pub struct Violation { pub key: String, pub detail: String }

pub struct Check {
    pub id: String,
    pub thorough: bool,
    pub seed: u64,
    start: Instant,
    pub states: AtomicU64,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    samples: Mutex<Vec<String>>,
    violations: Mutex<Vec<Violation>>,
    seen_keys: Mutex<HashSet<String>>,
    known: HashMap<String, String>,
    known_hit: Mutex<HashSet<String>>,
    pub assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
    pub only: Option<String>,
    pub exhaustive: AtomicBool,
}

impl Check {
    pub fn new(id: &str) -> Check {
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let mut known = HashMap::new();
        if let Ok(s) = std::fs::read_to_string(verif_dir().join("known_findings.txt")) {
            for l in s.lines() {
                // finding: property=ID key=<<...>> description
                if let Some(rest) = l.strip_prefix(&format!("finding: property={} key=<<", id)) {
                    if let Some((k, d)) = rest.split_once(">>") { known.insert(k.to_string(), d.trim().to_string()); }
                }
            }
        }
        let only = std::env::args().skip_while(|a| a != "--only").nth(1);
        Check {
            id: id.into(), thorough, seed, start: Instant::now(), states: 0.into(), transitions: 0.into(), traces: 0.into(),
            counters: Default::default(), samples: Default::default(), violations: Default::default(),
            seen_keys: Default::default(), known, known_hit: Default::default(), assumptions: Default::default(),
            stop: AtomicBool::new(false), only, exhaustive: AtomicBool::new(true),
        }
    }
    pub fn stopped(&self) -> bool { self.stop.load(Ordering::Relaxed) }
    pub fn add_states(&self, n: u64) { self.states.fetch_add(n, Ordering::Relaxed); }
    pub fn add_transitions(&self, n: u64) { self.transitions.fetch_add(n, Ordering::Relaxed); }
    pub fn add_traces(&self, n: u64) { self.traces.fetch_add(n, Ordering::Relaxed); }
    pub fn count(&self, what: &str, n: u64) { *self.counters.lock().unwrap().entry(what.into()).or_insert(0) += n; }
    pub fn sample(&self, s: String) { let mut v = self.samples.lock().unwrap(); if v.len() < 24 { v.push(s) } }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()) }
    pub fn violation(&self, key: impl Into<String>, detail: impl Into<String>) {
        let key = key.into().replace('\n', "\\n");
        if let Some(o) = &self.only { if *o != key { return } }
        if self.known.contains_key(&key) { self.known_hit.lock().unwrap().insert(key); return }
        if std::env::var("MC_CONTINUE").is_err() && self.violations.lock().unwrap().len() >= 20 { self.stop.store(true, Ordering::Relaxed); return }
        if !self.seen_keys.lock().unwrap().insert(key.clone()) { return }
        self.violations.lock().unwrap().push(Violation { key, detail: detail.into() });
    }
    pub fn violations_so_far(&self) -> usize { self.violations.lock().unwrap().len() }

    /// Write evidence, print verdict lines, return exit code.
    pub fn finish(&self) -> i32 {
        let v = self.violations.lock().unwrap();
        let mut hits: Vec<_> = self.known_hit.lock().unwrap().iter().cloned().collect();
        hits.sort();
        for k in &hits { println!("KNOWN-FINDING: property={} {} :: {}", self.id, k, self.known[k]); }
        let dir = verif_dir();
        let mut replays = vec![];
        if !v.is_empty() {
            let rd = dir.join("work").join("replay");
            let _ = std::fs::create_dir_all(&rd);
            for (i, x) in v.iter().enumerate() {
                let p = rd.join(format!("{}-{}.txt", self.id, i));
                let _ = std::fs::write(&p, format!(
                    "property: {}\nkey: {}\nreplay: ./check {} --only '{}'\n\n{}\n", self.id, x.key, self.id, x.key, x.detail));
                replays.push(p);
            }
            let mut sorted: Vec<usize> = (0..v.len()).collect();
            sorted.sort_by_key(|i| v[*i].detail.len());
            for i in sorted {
                println!("VIOLATION property={} replay={}", self.id, replays[i].display());
                println!("  {}: {}", v[i].key, v[i].detail.replace('\n', "\n    "));
            }
        }
        let c = self.counters.lock().unwrap();
        let mut j = String::new();
        j.push_str(&format!("{{\"property\":{},\"tier\":\"{}\",\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{",
            js(&self.id), if self.thorough { "thorough" } else { "quick" }, self.seed));
        j.push_str(&format!("\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},",
            self.states.load(Ordering::Relaxed), self.transitions.load(Ordering::Relaxed), self.traces.load(Ordering::Relaxed),
            self.exhaustive.load(Ordering::Relaxed) && !self.stopped()));
        j.push_str("\"counters\":{");
        j.push_str(&c.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect::<Vec<_>>().join(","));
        j.push_str("},\"samples\":[");
        j.push_str(&self.samples.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        j.push_str("]},\"assumptions\":[");
        j.push_str(&self.assumptions.lock().unwrap().iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        j.push_str(&format!("],\"wall_s\":{:.3},\"violations\":{}}}", self.start.elapsed().as_secs_f64(), v.len()));
        let ed = dir.join("evidence");
        let _ = std::fs::create_dir_all(&ed);
        if let Err(e) = std::fs::write(ed.join(format!("{}.json", self.id)), j + "\n") { eprintln!("cannot write evidence: {}", e); return 2 }
        println!("{}: {} states={} transitions={} traces={} {:.1}s", self.id, if v.is_empty() { "held" } else { "VIOLATED" },
            self.states.load(Ordering::Relaxed), self.transitions.load(Ordering::Relaxed), self.traces.load(Ordering::Relaxed), self.start.elapsed().as_secs_f64());
        for (k, n) in c.iter() { println!("   {} = {}", k, n); }
        let _ = std::io::stdout().flush();
        if v.is_empty() { 0 } else { 1 }
    }
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}

// ------------------------------------------------------------------ guarded execution

thread_local! {
    static DESC: RefCell<Option<&'static dyn Fn() -> String>> = RefCell::new(None);
    static ALLOCATED: Cell<u64> = Cell::new(0);
    static LIMIT: Cell<u64> = Cell::new(u64::MAX);
    static BLEW: Cell<bool> = Cell::new(false);
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}

/// Counts bytes allocated by the current thread; panics (once) when a guarded call exceeds its budget.
pub struct Counting;
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { note(n.saturating_sub(l.size())); System.realloc(p, l, n) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { note(l.size()); System.alloc_zeroed(l) }
}
fn note(n: usize) {
    let _ = ALLOCATED.try_with(|a| {
        let v = a.get() + n as u64;
        a.set(v);
        let lim = LIMIT.try_with(|l| l.get()).unwrap_or(u64::MAX);
        if v > lim {
            let _ = LIMIT.try_with(|l| l.set(u64::MAX));
            let _ = BLEW.try_with(|b| b.set(true));
            // Cannot unwind out of an allocator: report and leave the process.
            BLOWUP.with_report("allocates out of proportion to its input");
        }
    });
}

pub struct Blow;
static BLOWUP: Blow = Blow;
static CURRENT: Mutex<Option<&'static Check>> = Mutex::new(None);
impl Blow {
    fn with_report(&self, what: &str) -> ! {
        let d = DESC.try_with(|d| d.try_borrow().ok().and_then(|d| d.as_ref().map(|f| f()))).ok().flatten().unwrap_or_default();
        report_and_exit(what, &d)
    }
}
fn report_and_exit(what: &str, d: &str) -> ! {
    let c = CURRENT.lock().map(|g| *g).unwrap_or(None);
    if let Some(c) = c {
        c.violation(format!("{}: {}", what, d), format!("{}\n{}", what, d));
        let r = c.finish();
        std::process::exit(if r == 0 { 3 } else { r });
    }
    std::process::exit(3)
}

/// Registers the running check for the watchdog and installs the silent panic hook.
pub fn install(c: &'static Check) {
    *CURRENT.lock().unwrap() = Some(c);
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let guarded = DESC.try_with(|d| d.borrow().is_some()).unwrap_or(false);
        if guarded { let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("panic at {}: {}", loc, msg)); }
        else { eprintln!("harness panic at {}: {}", loc, msg); }
    }));
    std::thread::spawn(watchdog);
}

static BEATS: Mutex<Vec<&'static Beat>> = Mutex::new(Vec::new());
pub struct Beat { n: AtomicU64, active: AtomicBool, desc: Mutex<String>, want: AtomicBool }
thread_local! { static BEAT: &'static Beat = { let b: &'static Beat = Box::leak(Box::new(Beat { n: 0.into(), active: false.into(), desc: Mutex::new(String::new()), want: false.into() })); BEATS.lock().unwrap().push(b); b } }

fn watchdog() {
    let limit = std::env::var("MC_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(20u64);
    let mut last: Vec<(u64, u64)> = vec![];
    loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let beats: Vec<&'static Beat> = BEATS.lock().unwrap().clone();
        last.resize(beats.len(), (0, 0));
        for (i, b) in beats.iter().enumerate() {
            let n = b.n.load(Ordering::SeqCst);
            if b.active.load(Ordering::SeqCst) && n == last[i].0 { last[i].1 += 1 } else { last[i] = (n, 0) }
            if last[i].1 >= limit {
                let d = b.desc.lock().unwrap().clone();
                report_and_exit(&format!("does not terminate within {} s", limit), &d);
            }
            let _ = &b.want;
        }
    }
}

pub enum Outcome<T> { Done(T), Panicked(String) }

/// Run one call of the code under test. `desc` is evaluated only when needed.
pub fn guarded<T>(limit: u64, desc: impl Fn() -> String, f: impl FnOnce() -> T) -> Outcome<T> {
    guarded_opt(limit, desc, false, f)
}
/// Same; records the description eagerly so that the watchdog can name the case (use for slow cases).
pub fn guarded_opt<T>(limit: u64, desc: impl Fn() -> String, eager: bool, f: impl FnOnce() -> T) -> Outcome<T> {
    BEAT.with(|b| {
        if eager { *b.desc.lock().unwrap() = desc(); }
        b.n.fetch_add(1, Ordering::SeqCst);
        b.active.store(true, Ordering::SeqCst);
    });
    // SAFETY: cleared below before `desc` goes out of scope; the panic hook and the allocator use it in between
    let r: &dyn Fn() -> String = &desc;
    let r: &'static dyn Fn() -> String = unsafe { std::mem::transmute(r) };
    DESC.with(|d| *d.borrow_mut() = Some(r));
    let base = ALLOCATED.with(|a| a.get());
    LIMIT.with(|l| l.set(if limit == u64::MAX { u64::MAX } else { base + limit }));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    LIMIT.with(|l| l.set(u64::MAX));
    DESC.with(|d| *d.borrow_mut() = None);
    BEAT.with(|b| b.active.store(false, Ordering::SeqCst));
    match r { Ok(v) => Outcome::Done(v), Err(_) => Outcome::Panicked(LAST_PANIC.with(|p| p.borrow().clone())) }
}

/// Coarse description of what the current thread is doing, for the watchdog.
pub fn mark(d: String) { BEAT.with(|b| *b.desc.lock().unwrap() = d) }

/// Sharded set of state hashes.
pub struct StateSet(Vec<Mutex<HashSet<u64>>>);
impl StateSet {
    pub fn new() -> Self { StateSet((0..64).map(|_| Mutex::new(HashSet::new())).collect()) }
    pub fn insert(&self, h: u64) -> bool { self.0[(h >> 58) as usize].lock().unwrap().insert(h) }
    /// Add what one work item collected on its own.
    pub fn merge(&self, l: HashSet<u64>) { for h in l { self.0[(h >> 58) as usize].lock().unwrap().insert(h); } }
    pub fn len(&self) -> u64 { self.0.iter().map(|s| s.lock().unwrap().len() as u64).sum() }
}

/// Lift the allocation budget of the current guarded call: what follows is harness work.
pub fn unlimit() { LIMIT.with(|l| l.set(u64::MAX)) }
