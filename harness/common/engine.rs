//! Stateless exhaustive explorer.
//!
//! An exploration is a function `body(&mut Ctl)` which builds its inputs by calling `ctl.choose(n)`.
//! The explorer runs it for every sequence of choices (depth first, in parallel), so the set of executions
//! is exactly the tree spanned by the choice points. `ctl.deviate(n)` is a choice point whose non-zero values
//! count against the bound on deviations of the exploration.
//! Each execution drives the real code and compares it with a reference model via `ctl.check(...)`.
use std::prelude::v1::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::{Mutex, atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering}};
use std::time::{Duration, Instant};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::RefCell;
use std::hash::{Hash, Hasher};

#[derive(Clone, Debug)]
pub struct Fail { pub key: String, pub what: String }

pub struct Ctl {
    forced: Vec<u32>,
    pub trail: Vec<(u32, u32)>,
    labels: Vec<String>,
    want_labels: bool,
    devs: u32,
    max_dev: u32,
    states: Vec<u64>,
    transitions: u64,
    traces: u64,
    fails: Vec<Fail>,
    diverged: bool,
}

fn mix(mut h: u64) -> u64 { h ^= h >> 33; h = h.wrapping_mul(0xff51afd7ed558ccd); h ^= h >> 33; h = h.wrapping_mul(0xc4ceb9fe1a85ec53); h ^ (h >> 33) }

/// FNV-like deterministic hasher for state fingerprints.
pub struct Fp(u64);
impl Fp { pub fn new() -> Self { Fp(0xcbf29ce484222325) } }
impl Hasher for Fp {
    fn finish(&self) -> u64 { mix(self.0) }
    fn write(&mut self, bytes: &[u8]) {
        for c in bytes.chunks(8) {
            let mut b = [0u8; 8]; b[..c.len()].copy_from_slice(c);
            self.0 = mix(self.0 ^ u64::from_le_bytes(b) ^ ((c.len() as u64) << 56)).wrapping_mul(0x9E3779B97F4A7C15);
        }
    }
}
pub fn fp<T: Hash + ?Sized>(t: &T) -> u64 { let mut h = Fp::new(); t.hash(&mut h); h.finish() }

impl Ctl {
    fn new(forced: Vec<u32>, max_dev: u32, want_labels: bool) -> Self {
        Ctl { forced, trail: vec![], labels: vec![], want_labels, devs: 0, max_dev, states: vec![], transitions: 0, traces: 0, fails: vec![], diverged: false }
    }
    /// A choice point with `n` alternatives.
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "empty choice");
        let i = self.trail.len();
        let mut c = self.forced.get(i).copied().unwrap_or(0);
        if c as usize >= n { self.diverged = true; c = 0; }
        self.trail.push((c, n as u32));
        c as usize
    }
    /// A choice point where taking anything but 0 is a deviation.
    pub fn deviate(&mut self, n: usize) -> usize {
        if self.devs >= self.max_dev { return 0; }
        let c = self.choose(n);
        if c != 0 { self.devs += 1; }
        c
    }
    pub fn devs(&self) -> u32 { self.devs }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { let i = self.choose(xs.len()); &xs[i] }
    /// Describes the choice just made (only evaluated when replaying).
    pub fn label(&mut self, f: impl FnOnce() -> String) { if self.want_labels { let s = f(); self.labels.push(s); } }
    /// Records a distinct state of the system under test (input tuple, protocol state, ...).
    pub fn state<T: Hash + ?Sized>(&mut self, t: &T) { self.states.push(fp(t)); }
    /// Records `n` executed operations of the real code.
    pub fn ops(&mut self, n: u64) { self.transitions += n; }
    /// Records a completed trace, compared with the reference model.
    pub fn trace(&mut self) { self.traces += 1; }
    pub fn check(&mut self, ok: bool, key: &str, what: impl FnOnce() -> String) -> bool {
        if !ok { self.fail(key, what()); }
        ok
    }
    pub fn fail(&mut self, key: &str, what: String) {
        if !self.fails.iter().any(|f| f.key == key) { self.fails.push(Fail { key: key.into(), what }); }
    }
    pub fn failed(&self) -> bool { !self.fails.is_empty() }
    /// Runs `f`; a panic inside is a failure with the given key.
    pub fn guard<T>(&mut self, key: &str, what: impl FnOnce() -> String, f: impl FnOnce() -> T) -> Option<T> {
        match quiet(f) {
            Ok(x) => Some(x),
            Err(p) => { let w = what(); self.fail(key, format!("{w}: panicked: {p}")); None }
        }
    }
}

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); static QUIET: RefCell<bool> = RefCell::new(false); }

/// Runs `f`, turning a panic into an error with its message.
pub fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = old);
    r.map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

fn install_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = info.location().map(|l| { let f = l.file(); let f = f.rsplit("/src/").next().unwrap_or(f); format!("{}:{}", f, l.line()) }).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{} [{}]", msg.lines().next().unwrap_or(""), loc));
        if !QUIET.with(|q| *q.borrow()) { default(info) }
    }));
}

#[derive(Default, Clone)]
pub struct Stats { pub executions: u64, pub states: u64, pub transitions: u64, pub traces: u64, pub max_depth: usize, pub complete: bool, pub secs: f64 }

pub struct Runner {
    pub property: String,
    pub tier: String,
    seed: i64,
    replay: Option<(String, Vec<u32>)>,
    only: Option<String>,
    known: Vec<(String, String)>,
    sections: Vec<(String, String, Stats)>,
    samples: Vec<String>,
    assumptions: Vec<String>,
    violations: Vec<(String, Vec<u32>, Fail)>,
    start: Instant,
    threads: usize,
    error: Option<String>,
    budget: Duration,
    replay_done: bool,
    replay_bad: bool,
}

impl Runner {
    pub fn from_env(property: &str) -> Self {
        install_hook();
        let args: Vec<String> = std::env::args().collect();
        let get = |n: &str| args.iter().position(|a| a == n).and_then(|i| args.get(i + 1).cloned());
        let tier = get("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).filter(|t| t == "thorough").unwrap_or("quick".into());
        let replay = get("--replay").map(|p| {
            let s = std::fs::read_to_string(&p).expect("cannot read the replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay file is not json");
            assert_eq!(v["property"].as_str(), Some(property), "the replay file is for another property");
            (v["section"].as_str().unwrap().to_string(), v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect())
        });
        let mut known = vec![];
        if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.txt", root())) {
            for line in s.lines() {
                if let Some(rest) = line.strip_prefix(&format!("known: property={} key=", property)) {
                    let (k, w) = rest.split_once(" :: ").unwrap_or((rest, ""));
                    known.push((k.trim().to_string(), w.trim().to_string()));
                }
            }
        }
        let budget = Duration::from_secs(get("--budget").and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 780 } else { 480 }));
        Runner {
            property: property.into(), seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1), tier, replay, only: get("--section"), known, sections: vec![], samples: vec![],
            assumptions: vec![], violations: vec![], start: Instant::now(),
            threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4)),
            error: None, budget, replay_done: false, replay_bad: false,
        }
    }
    pub fn thorough(&self) -> bool { self.tier == "thorough" }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn by_tier<T>(&self, q: T, t: T) -> T { if self.thorough() { t } else { q } }
    pub fn assume(&mut self, s: &str) { self.assumptions.push(s.into()); }
    pub fn active(&self, name: &str) -> bool {
        self.error.is_none() && self.only.as_deref().map(|o| name.contains(o)).unwrap_or(true) && self.replay.as_ref().map(|(s, _)| s == name).unwrap_or(true)
    }

    fn run_one<F: Fn(&mut Ctl)>(body: &F, forced: Vec<u32>, max_dev: u32, labels: bool) -> Ctl {
        let mut ctl = Ctl::new(forced, max_dev, labels);
        let r = quiet(|| body(&mut ctl));
        if let Err(p) = r {
            ctl.fails.push(Fail { key: format!("panic {}", strip_line(&p)), what: format!("unexpected panic: {p}") });
        }
        if ctl.trail.len() < ctl.forced.len() { ctl.diverged = true; }
        ctl
    }

    /// Explores all executions of `body` with at most `max_dev` deviations.
    pub fn explore_dev<F: Fn(&mut Ctl) + Sync>(&mut self, name: &str, bound: &str, max_dev: u32, body: F) {
        if !self.active(name) { return; }
        if let Some((_, choices)) = self.replay.clone() {
            let a = Self::run_one(&body, choices.clone(), max_dev, true);
            let b = Self::run_one(&body, choices, max_dev, true);
            for l in &a.labels { println!("  step: {l}"); }
            for f in &a.fails { println!("  FAIL key={} :: {}", f.key, f.what); }
            let keys = |c: &Ctl| c.fails.iter().map(|f| f.key.clone()).collect::<Vec<_>>();
            if a.diverged || keys(&a) != keys(&b) { self.error = Some("replay diverged".into()); }
            self.replay_done = true;
            self.replay_bad = !a.fails.is_empty();
            return;
        }
        let t0 = Instant::now();
        // (forced prefix, number of alternatives of its last element): siblings are generated lazily
        let queue: Mutex<Vec<(Vec<u32>, u32)>> = Mutex::new(vec![(vec![], 1)]);
        let busy = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let capped = AtomicBool::new(false);
        let diverged = AtomicBool::new(false);
        let execs = AtomicU64::new(0);
        let fails: Mutex<BTreeMap<String, (Vec<u32>, Fail)>> = Mutex::new(BTreeMap::new());
        let deadline = self.start + self.budget;
        struct Local { states: HashSet<u64>, transitions: u64, traces: u64, depth: usize }
        let locals: Mutex<Vec<Local>> = Mutex::new(vec![]);
        // what each thread is executing, for the watchdog
        let current: Vec<Mutex<Option<(Instant, Vec<u32>)>>> = (0..self.threads).map(|_| Mutex::new(None)).collect();
        let over = AtomicBool::new(false);
        let left = AtomicUsize::new(self.threads);
        std::thread::scope(|s| {
            let (current, over, left) = (&current, &over, &left);
            let (property, tier) = (&self.property, &self.tier);
            s.spawn(move || while !over.load(Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(5));
                for c in current { if let Ok(c) = c.try_lock() { if let Some((t, prefix)) = &*c { if t.elapsed() > HANG {
                    let f = Fail { key: "an execution does not end".into(), what: format!("the execution with prefix {prefix:?} takes longer than {} s", HANG.as_secs()) };
                    report(property, tier, 0, name, prefix, &f);
                    std::process::exit(1);
                } } } }
            });
            for me in 0..self.threads {
                let (queue, busy, stop, capped, diverged, execs, fails, locals, body) = (&queue, &busy, &stop, &capped, &diverged, &execs, &fails, &locals, &body);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut l = Local { states: HashSet::new(), transitions: 0, traces: 0, depth: 0 };
                    loop {
                        let item = {
                            let mut q = queue.lock().unwrap();
                            match q.pop() {
                                Some((p, n)) => {
                                    if let Some(&last) = p.last() {
                                        if last + 1 < n { let mut sib = p.clone(); *sib.last_mut().unwrap() += 1; q.push((sib, n)); }
                                    }
                                    busy.fetch_add(1, Ordering::SeqCst);
                                    Some(p)
                                }
                                None => None,
                            }
                        };
                        let Some(prefix) = item else {
                            if busy.load(Ordering::SeqCst) == 0 && queue.lock().unwrap().is_empty() { break; }
                            std::thread::sleep(Duration::from_micros(50));
                            continue;
                        };
                        if !stop.load(Ordering::Relaxed) {
                            let plen = prefix.len();
                            *current[me].lock().unwrap() = Some((Instant::now(), prefix.clone()));
                            let ctl = Self::run_one(body, prefix, max_dev, false);
                            *current[me].lock().unwrap() = None;
                            execs.fetch_add(1, Ordering::Relaxed);
                            if ctl.diverged { diverged.store(true, Ordering::Relaxed); }
                            l.transitions += ctl.transitions; l.traces += ctl.traces;
                            l.depth = l.depth.max(ctl.trail.len());
                            l.states.extend(ctl.states.iter());
                            let mut items = vec![];
                            for i in plen..ctl.trail.len() {
                                let (_, n) = ctl.trail[i];
                                if n > 1 {
                                    let mut p: Vec<u32> = ctl.trail[..i].iter().map(|x| x.0).collect();
                                    p.push(1);
                                    items.push((p, n));
                                }
                            }
                            if !items.is_empty() { queue.lock().unwrap().extend(items); }
                            if !ctl.fails.is_empty() {
                                let choices: Vec<u32> = ctl.trail.iter().map(|x| x.0).collect();
                                let mut f = fails.lock().unwrap();
                                for x in ctl.fails {
                                    let e = f.entry(x.key.clone()).or_insert_with(|| (choices.clone(), x.clone()));
                                    if (choices.len(), &choices) < (e.0.len(), &e.0) { *e = (choices.clone(), x); }
                                }
                                if f.len() > 200 { stop.store(true, Ordering::Relaxed); capped.store(true, Ordering::Relaxed); }
                            }
                            if Instant::now() > deadline { stop.store(true, Ordering::Relaxed); capped.store(true, Ordering::Relaxed); }
                        }
                        busy.fetch_sub(1, Ordering::SeqCst);
                    }
                    locals.lock().unwrap().push(l);
                    if left.fetch_sub(1, Ordering::SeqCst) == 1 { over.store(true, Ordering::Relaxed); }
                }).expect("spawn");
            }
        });
        let mut st = Stats { executions: execs.load(Ordering::SeqCst), complete: !capped.load(Ordering::SeqCst), secs: t0.elapsed().as_secs_f64(), ..Default::default() };
        let mut all: HashSet<u64> = HashSet::new();
        for l in locals.into_inner().unwrap() { st.transitions += l.transitions; st.traces += l.traces; st.max_depth = st.max_depth.max(l.depth); if all.is_empty() { all = l.states } else { all.extend(l.states) } }
        st.states = all.len() as u64;
        if diverged.load(Ordering::SeqCst) { self.error = Some(format!("{name}: an execution diverged while replaying its prefix")); }
        for (_, (choices, f)) in fails.into_inner().unwrap() {
            // every reported failure must be reproducible from its choice sequence
            let again = Self::run_one(&body, choices.clone(), max_dev, false);
            if !again.fails.iter().any(|g| g.key == f.key) { self.error = Some(format!("{name}: failure {} is not reproducible", f.key)); }
            self.violations.push((name.to_string(), choices, f));
        }
        // a sample trace: the first execution with its labels
        let sample = Self::run_one(&body, vec![], max_dev, true);
        self.samples.push(format!("{name}: choices {:?} {}", sample.trail.iter().map(|x| x.0).collect::<Vec<_>>(), sample.labels.join("; ")).chars().take(400).collect());
        println!("section {name}: {} executions, {} states, {} transitions, {} traces, depth {}, {:.1}s{}", st.executions, st.states, st.transitions, st.traces, st.max_depth, st.secs, if st.complete { "" } else { " (CAPPED)" });
        self.sections.push((name.into(), bound.into(), st));
        // for experiments: stop at the first section with a violation
        if std::env::var("VERIF_FAILFAST").is_ok() {
            for (sec, choices, f) in &self.violations { if !self.known.iter().any(|(k, _)| *k == format!("{sec}/{}", f.key)) { report(&self.property, &self.tier, 0, sec, choices, f); std::process::exit(1); } }
        }
    }

    pub fn explore<F: Fn(&mut Ctl) + Sync>(&mut self, name: &str, bound: &str, body: F) { self.explore_dev(name, bound, 0, body) }

    pub fn finish(mut self) -> i32 {
        if self.replay.is_some() {
            if !self.replay_done { println!("no section of that name"); return 2; }
            if let Some(e) = &self.error { println!("error: {e}"); return 2; }
            println!("{}", if self.replay_bad { "the violation is reproduced" } else { "no violation on replay" });
            return if self.replay_bad { 1 } else { 0 };
        }
        let mut new = vec![];
        let mut hit: Vec<&(String, String)> = vec![];
        for v in &self.violations {
            match self.known.iter().find(|(k, _)| *k == format!("{}/{}", v.0, v.2.key)) {
                Some(k) => hit.push(k),
                None => new.push(v),
            }
        }
        for (_, w) in &hit { println!("KNOWN-FINDING: property={} {}", self.property, w); }
        for (i, (sec, choices, f)) in new.iter().enumerate().take(50) { report(&self.property, &self.tier, i, sec, choices, f); }
        let sum = |f: fn(&Stats) -> u64| self.sections.iter().map(|s| f(&s.2)).sum::<u64>();
        let exhaustive = self.sections.iter().all(|s| s.2.complete);
        let ev = serde_json::json!({
            "property": self.property, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": new.len(),
            "assumptions": self.assumptions,
            "coverage": {
                "states": sum(|s| s.states), "transitions": sum(|s| s.transitions), "traces_validated_against_impl": sum(|s| s.traces),
                "executions": sum(|s| s.executions), "exhaustive": exhaustive,
                "samples": self.samples,
                "sections": self.sections.iter().map(|(n, b, s)| serde_json::json!({"name": n, "bound": b, "executions": s.executions, "states": s.states, "transitions": s.transitions, "traces": s.traces, "max_depth": s.max_depth, "complete": s.complete, "wall_s": s.secs})).collect::<Vec<_>>(),
                "meaning": "states: distinct fingerprints of explored inputs or protocol states; transitions: operations of the real code executed; traces_validated_against_impl: completed executions of the real code whose results were compared with the reference model",
                "known_findings_reproduced": hit.len(),
            },
        });
        if self.only.is_none() {
            let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
            if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", root(), self.property), serde_json::to_string_pretty(&ev).unwrap()) { self.error = Some(format!("cannot write evidence: {e}")); }
        }
        if let Some(e) = &self.error { println!("error: {e}"); if new.is_empty() { return 2; } }
        if !new.is_empty() { return 1; }
        println!("{}: property held on everything explored ({} tier, {:.1}s)", self.property, self.tier, self.start.elapsed().as_secs_f64());
        0
    }
}

/// Longer than any execution takes, by far.
const HANG: Duration = Duration::from_secs(240);
fn report(property: &str, tier: &str, i: usize, sec: &str, choices: &[u32], f: &Fail) {
    let dir = format!("{}/evidence/replay", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{property}-{i}.json");
    let v = serde_json::json!({"property": property, "section": sec, "choices": choices, "key": f.key, "what": f.what, "tier": tier});
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap());
    println!("  {sec}/{}: {}", f.key, f.what.chars().take(1500).collect::<String>());
    println!("VIOLATION property={property} replay={path}");
}

fn strip_line(p: &str) -> String { match p.rfind(" [") { Some(i) => { let (m, l) = p.split_at(i); format!("{} {}]", m, l.split(':').next().unwrap_or("")) } None => p.into() } }

pub fn root() -> String { std::env::var("VERIF_ROOT").unwrap_or("/verif".into()) }
