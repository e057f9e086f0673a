//! Bounded exhaustive exploration: choice-tree explorer, parallel driver, crash and hang capture,
//! coverage counters, evidence and replay files.
//!
//! Every check in this framework is a body executed once per path of a choice tree.  A choice is either
//! *free* (all alternatives are always explored) or a *deviation* (alternative 0 is the default; taking any
//! other one costs 1 of the deviation bound).  The explorer enumerates all paths within the bound.

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::hash::{BuildHasherDefault, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------------------------------------- hashing
#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v;
    }
}
pub type HashSet64 = HashSet<u64, BuildHasherDefault<IdHasher>>;

#[inline]
pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 32;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^ (x >> 29)
}
pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    b.iter().fold(mix(h, b.len() as u64), |h, &c| mix(h, c as u64))
}
pub fn hash_str(s: &str) -> u64 {
    hash_bytes(0x51, s.as_bytes())
}

// ---------------------------------------------------------------------------------------------- choices
#[derive(Clone, Copy)]
struct Taken {
    choice: u32,
    n: u32,
    deviation: bool,
}

/// The resolver of the environment's choices during one execution.
pub struct Chooser {
    prefix: Vec<u32>,
    taken: Vec<Taken>,
    spent: u32,
    budget: u32,
    node: u64,
    new_states: Vec<u64>,
    fresh_from: usize,
}

impl Chooser {
    /// For replaying one explicit path.
    pub fn fixed(path: &[u32]) -> Chooser {
        Chooser {
            prefix: path.to_vec(),
            taken: vec![],
            spent: 0,
            budget: u32::MAX,
            node: 0,
            new_states: vec![],
            fresh_from: usize::MAX,
        }
    }
    fn step(&mut self, n: u32, deviation: bool) -> u32 {
        assert!(n > 0, "choice point without alternatives");
        let i = self.taken.len();
        let c = if i < self.prefix.len() { self.prefix[i] } else { 0 };
        assert!(c < n, "replayed path does not fit the choice tree");
        if deviation && c != 0 {
            self.spent += 1;
        }
        self.taken.push(Taken { choice: c, n, deviation });
        self.node = mix(self.node, ((n as u64) << 32) | c as u64);
        if i >= self.fresh_from {
            self.new_states.push(self.node);
        }
        c
    }
    /// All `n` alternatives are explored.
    pub fn choose(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        self.step(n as u32, false) as usize
    }
    /// Alternative 0 is the default, any other is a deviation and is explored within the bound.
    pub fn deviate(&mut self, n: usize) -> usize {
        if n == 1 {
            return 0;
        }
        self.step(n as u32, true) as usize
    }
    pub fn flip(&mut self) -> bool {
        self.choose(2) == 1
    }
    pub fn pick<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        &of[self.choose(of.len())]
    }
    pub fn pick_dev<'a, T>(&mut self, of: &'a [T]) -> &'a T {
        &of[self.deviate(of.len())]
    }
    pub fn path(&self) -> Vec<u32> {
        self.taken.iter().map(|t| t.choice).collect()
    }
    /// Identity of the current node of the choice tree.
    pub fn node(&self) -> u64 {
        self.node
    }
    /// Deviations taken so far.
    pub fn spent(&self) -> u32 {
        self.spent
    }
    pub fn depth(&self) -> usize {
        self.taken.len()
    }
}

/// Runs `body` on every path of the choice tree with at most `budget` deviations.
/// `body` returns false to stop.
pub fn explore(cov: &mut Cov, salt: u64, budget: u32, mut body: impl FnMut(&mut Chooser, &mut Cov) -> bool) {
    let mut prefix: Vec<u32> = vec![];
    let mut fresh_from = 0;
    loop {
        let mut ch = Chooser {
            prefix: std::mem::take(&mut prefix),
            taken: Vec::new(),
            spent: 0,
            budget,
            node: salt,
            new_states: Vec::new(),
            fresh_from,
        };
        let go_on = body(&mut ch, cov);
        cov.traces += 1;
        cov.transitions += ch.taken.len() as u64;
        cov.states += ch.new_states.len() as u64;
        if !go_on {
            return;
        }
        // next path in depth-first order
        let mut spent_before: Vec<u32> = Vec::with_capacity(ch.taken.len());
        let mut s = 0;
        for t in &ch.taken {
            spent_before.push(s);
            if t.deviation && t.choice != 0 {
                s += 1;
            }
        }
        let mut next = None;
        for i in (0..ch.taken.len()).rev() {
            let t = ch.taken[i];
            if t.choice + 1 < t.n {
                if t.deviation && t.choice == 0 && spent_before[i] >= ch.budget {
                    continue;
                }
                next = Some(i);
                break;
            }
        }
        let Some(i) = next else { return };
        prefix = ch.taken[..i].iter().map(|t| t.choice).collect();
        prefix.push(ch.taken[i].choice + 1);
        fresh_from = i;
    }
}

// --------------------------------------------------------------------------------------------- coverage
/// Coverage of one worker.  `states` counts distinct nodes of the choice trees (each node is visited for the
/// first time exactly once in depth-first order) plus distinct model states registered with `state`.
#[derive(Default)]
pub struct Cov {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
    pub evaluations: u64,
    seen: HashSet64,
    pub samples: BTreeMap<String, String>,
    pub notes: BTreeMap<String, u64>,
}
impl Cov {
    /// Registers a model state.
    pub fn state(&mut self, h: u64) -> bool {
        self.seen.insert(h)
    }
    pub fn note(&mut self, what: &str, n: u64) {
        *self.notes.entry(what.to_string()).or_insert(0) += n;
    }
    pub fn sample(&mut self, key: &str, f: impl FnOnce() -> String) {
        if self.samples.len() < 24 && !self.samples.contains_key(key) {
            self.samples.insert(key.to_string(), f());
        }
    }
    fn merge(&mut self, o: Cov) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        self.evaluations += o.evaluations;
        self.seen.extend(o.seen);
        for (k, v) in o.samples {
            if self.samples.len() < 24 {
                self.samples.entry(k).or_insert(v);
            }
        }
        for (k, v) in o.notes {
            *self.notes.entry(k).or_insert(0) += v;
        }
    }
}

// ----------------------------------------------------------------------------------- panic and hang guard
thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<u32> = const { Cell::new(0) };
    static SLOT: RefCell<Option<Arc<Slot>>> = const { RefCell::new(None) };
}
struct Slot {
    beat: AtomicU64,
    busy: AtomicBool,
    what: Mutex<String>,
}
static SLOTS: Mutex<Vec<Arc<Slot>>> = Mutex::new(Vec::new());

fn with_slot<R>(f: impl FnOnce(&Slot) -> R) -> R {
    SLOT.with(|s| {
        let mut s = s.borrow_mut();
        let slot = s.get_or_insert_with(|| {
            let a = Arc::new(Slot { beat: AtomicU64::new(0), busy: AtomicBool::new(false), what: Mutex::new(String::new()) });
            SLOTS.lock().unwrap().push(a.clone());
            a
        });
        f(slot)
    })
}

/// Names what this thread is exploring (shown if it hangs or crashes).
pub fn label(what: &str) {
    with_slot(|s| {
        let mut w = s.what.lock().unwrap();
        w.clear();
        w.push_str(what);
    });
}

/// Runs code under test: a panic becomes `Err(message)`; not returning trips the watchdog.
#[inline]
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    with_slot(|s| {
        s.beat.fetch_add(1, Ordering::Relaxed);
        s.busy.store(true, Ordering::Relaxed);
    });
    QUIET.with(|q| q.set(q.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(q.get() - 1));
    with_slot(|s| s.busy.store(false, Ordering::Relaxed));
    r.map_err(|_| PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}").replace('\n', " ");
        if QUIET.with(|q| q.get()) > 0 {
            PANIC.with(|p| *p.borrow_mut() = Some(msg));
        } else {
            eprintln!("harness error: {msg}");
        }
    }));
}

// --------------------------------------------------------------------------------------------- the check
#[derive(Clone)]
pub struct Finding {
    /// Stable identity of the failing input/history class (matched against the known-findings file).
    pub key: String,
    pub detail: String,
}

pub struct Check {
    pub prop: String,
    pub thorough: bool,
    seed: i64,
    start: Instant,
    findings: Mutex<BTreeMap<String, Finding>>,
    total: AtomicUsize,
    unknown: AtomicUsize,
    known_keys: Vec<String>,
    broken: std::sync::atomic::AtomicBool,
    cov: Mutex<Cov>,
    exhaustive_within: Mutex<Vec<String>>,
    assumptions: Mutex<Vec<String>>,
    root: String,
}

static CHECK: OnceLock<Arc<Check>> = OnceLock::new();
const MAX_FINDINGS: usize = 12;

impl Check {
    /// Parses `<prop> [quick|thorough]`.
    pub fn from_args() -> Arc<Check> {
        install_hook();
        let mut a = std::env::args().skip(1);
        let prop = a.next().expect("usage: <property> [quick|thorough]");
        let tier = a.next().or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
        let root = std::env::var("VERIF_ROOT").unwrap_or("/verif".into());
        let known_keys = known(&root, &prop).into_iter().map(|k| k.0).collect();
        let c = Arc::new(Check {
            prop,
            thorough: tier == "thorough",
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            start: Instant::now(),
            findings: Mutex::new(BTreeMap::new()),
            total: AtomicUsize::new(0),
            unknown: AtomicUsize::new(0),
            known_keys,
            broken: std::sync::atomic::AtomicBool::new(false),
            cov: Mutex::new(Cov::default()),
            exhaustive_within: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            root,
        });
        CHECK.set(c.clone()).ok();
        let w = c.clone();
        std::thread::spawn(move || w.watchdog());
        c
    }
    pub fn tier<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }
    fn watchdog(&self) {
        let mut last: Vec<(u64, Instant)> = vec![];
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let slots = SLOTS.lock().unwrap().clone();
            last.resize(slots.len(), (u64::MAX, Instant::now()));
            for (s, l) in slots.iter().zip(last.iter_mut()) {
                let b = s.beat.load(Ordering::Relaxed);
                if b != l.0 || !s.busy.load(Ordering::Relaxed) {
                    *l = (b, Instant::now());
                } else if l.1.elapsed() > Duration::from_secs(60) {
                    let what = s.what.lock().map(|w| w.clone()).unwrap_or_default();
                    self.fail("hang", || format!("code under test did not return for 60 s while exploring: {what}"));
                    let code = self.finish();
                    std::process::exit(code);
                }
            }
        }
    }
    /// Reports a violated property.  Findings are grouped by `key`; the first of each group is kept.
    pub fn fail(&self, key: &str, detail: impl FnOnce() -> String) {
        self.total.fetch_add(1, Ordering::Relaxed);
        if !self.known_keys.iter().any(|k| k == key) {
            self.unknown.fetch_add(1, Ordering::Relaxed);
        }
        let mut f = self.findings.lock().unwrap();
        if !f.contains_key(key) && (f.len() < MAX_FINDINGS || self.known_keys.iter().any(|k| k == key)) {
            f.insert(key.to_string(), Finding { key: key.to_string(), detail: detail() });
        }
    }
    /// Number of reports that no known finding covers.
    pub fn failed_unknown(&self) -> usize {
        self.unknown.load(Ordering::Relaxed)
    }
    pub fn failing(&self) -> bool {
        // keep exploring until enough distinct findings were collected or it got repetitive
        self.unknown.load(Ordering::Relaxed) > 2000
    }
    pub fn failed_count(&self) -> usize {
        self.total.load(Ordering::Relaxed)
    }
    pub fn bound(&self, s: impl Into<String>) {
        self.exhaustive_within.lock().unwrap().push(s.into());
    }
    pub fn assume(&self, s: impl Into<String>) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn add(&self, cov: Cov) {
        self.cov.lock().unwrap().merge(cov);
    }
    /// Runs `items` on all cores; each call gets its own coverage.
    pub fn par<T: Send>(&self, items: Vec<T>, f: impl Fn(&mut Cov, T) + Sync) {
        let n = std::env::var("VERIF_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)
        });
        let queue = Mutex::new(items.into_iter());
        let broken = AtomicBool::new(false);
        std::thread::scope(|sc| {
            for _ in 0..n {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || {
                        let mut cov = Cov::default();
                        loop {
                            let it = queue.lock().unwrap().next();
                            let Some(it) = it else { break };
                            if catch_unwind(AssertUnwindSafe(|| f(&mut cov, it))).is_err() {
                                broken.store(true, Ordering::Relaxed);
                            }
                        }
                        self.add(cov);
                    })
                    .unwrap();
            }
        });
        if broken.load(Ordering::Relaxed) {
            self.broken.store(true, Ordering::Relaxed);
        }
    }
    /// Runs `f` on one thread.
    pub fn run(&self, f: impl FnOnce(&mut Cov) + Send) {
        let mut cov = Cov::default();
        if catch_unwind(AssertUnwindSafe(|| f(&mut cov))).is_err() {
            self.broken.store(true, Ordering::Relaxed);
        }
        self.add(cov);
    }

    /// Writes the evidence, prints the verdict and returns the exit code.
    pub fn finish(&self) -> i32 {
        let findings: Vec<Finding> = self.findings.lock().unwrap().values().cloned().collect();
        let known = known(&self.root, &self.prop);
        let mut bad = vec![];
        for f in &findings {
            if let Some((_, w)) = known.iter().find(|(k, _)| *k == f.key) {
                println!("KNOWN-FINDING: property={} {}", self.prop, w);
            } else {
                bad.push(f.clone());
            }
        }
        let dir = format!("{}/replays", self.root);
        let _ = std::fs::create_dir_all(&dir);
        for (i, f) in bad.iter().enumerate() {
            let path = format!("{dir}/{}-{}.txt", self.prop, i + 1);
            let body = format!(
                "property: {}\nkey: {}\n\n{}\n\nreplay: run `./check.sh {} {}` in /verif (the exploration is deterministic)\n",
                self.prop, f.key, f.detail, self.prop, if self.thorough { "thorough" } else { "quick" }
            );
            if let Err(e) = std::fs::write(&path, body) {
                eprintln!("cannot write {path}: {e}");
            }
            println!("VIOLATION property={} replay={}", self.prop, path);
            println!("  {}: {}", f.key, f.detail.chars().take(600).collect::<String>());
        }
        let cov = self.cov.lock().unwrap();
        let mut j = String::new();
        let tier = if self.thorough { "thorough" } else { "quick" };
        write!(
            j,
            "{{\n \"property\": {},\n \"tier\": \"{tier}\",\n \"seed\": {},\n \"level\": \"model_checking\",\n \"coverage\": {{\n",
            js(&self.prop),
            self.seed
        )
        .unwrap();
        let states = cov.states + cov.seen.len() as u64;
        write!(
            j,
            "  \"states\": {},\n  \"transitions\": {},\n  \"traces_validated_against_impl\": {},\n  \"calls_compared\": {},\n",
            states, cov.transitions, cov.traces, cov.evaluations
        )
        .unwrap();
        write!(j, "  \"exhaustive\": true,\n  \"bounds\": [{}],\n", list(&self.exhaustive_within.lock().unwrap())).unwrap();
        let notes: Vec<String> = cov.notes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        write!(j, "  \"counters\": {{{}}},\n", notes.join(", ")).unwrap();
        let samples: Vec<String> = cov.samples.iter().map(|(k, v)| format!("{k}: {v}")).collect();
        write!(j, "  \"samples\": [{}]\n }},\n", list(&samples)).unwrap();
        write!(
            j,
            " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
            list(&self.assumptions.lock().unwrap()),
            self.start.elapsed().as_secs_f64(),
            bad.len()
        )
        .unwrap();
        let _ = std::fs::create_dir_all(format!("{}/evidence", self.root));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", self.root, self.prop), j) {
            eprintln!("cannot write evidence: {e}");
            return 3;
        }
        println!(
            "{} {tier}: {} states, {} transitions, {} traces replayed, {} calls compared, {} finding(s), {:.1} s",
            self.prop,
            states,
            cov.transitions,
            cov.traces,
            cov.evaluations,
            bad.len(),
            self.start.elapsed().as_secs_f64()
        );
        if bad.is_empty() && self.broken.load(Ordering::Relaxed) {
            eprintln!("harness error: a worker failed outside of the code under test");
            return 3;
        }
        if bad.is_empty() && (states == 0 || cov.traces == 0) {
            eprintln!("harness error: nothing was explored");
            return 3;
        }
        if bad.is_empty() {
            0
        } else {
            1
        }
    }
}

/// The listed known findings of a property: (key, description).
fn known(root: &str, prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    for l in std::fs::read_to_string(format!("{root}/KNOWN_FINDINGS.txt")).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix("known: ") else { continue };
        let mut it = rest.splitn(3, ' ');
        let (Some(p), Some(k), Some(w)) = (it.next(), it.next(), it.next()) else { continue };
        if p == format!("property={prop}") {
            if let Some(k) = k.strip_prefix("key=") {
                v.push((k.to_string(), w.to_string()));
            }
        }
    }
    v
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    v.iter().map(|s| js(s)).collect::<Vec<_>>().join(", ")
}

/// Short hex dump for messages.
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, c) in b.iter().enumerate() {
        if i == 96 {
            write!(s, "..({} bytes)", b.len()).unwrap();
            break;
        }
        write!(s, "{c:02x}").unwrap();
    }
    if b.is_empty() {
        s.push_str("(empty)");
    }
    s
}
