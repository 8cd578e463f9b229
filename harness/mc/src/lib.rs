//! Common machinery of the checkers: parallel exhaustive enumeration, counters,
//! violation reporting, evidence files.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::Instant;

use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }

pub struct Ctx {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    start: Instant,
    counters: Mutex<BTreeMap<String, u64>>,
    outcomes: Mutex<BTreeSet<String>>,
    samples: Mutex<Vec<Value>>,
    info: Mutex<BTreeMap<String, Value>>,
    assumptions: Mutex<Vec<String>>,
    violations: Mutex<BTreeMap<String, Value>>,
    known: Vec<(String, String)>,
    known_hit: Mutex<BTreeSet<String>>,
    stop: AtomicBool,
    pub threads: usize,
}

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Runs code under test; a panic becomes `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| {
        let m = if let Some(s) = e.downcast_ref::<&str>() { (*s).to_string() }
            else if let Some(s) = e.downcast_ref::<String>() { s.clone() }
            else { "panic".to_string() };
        let at = LAST_PANIC.with(|l| l.borrow().clone());
        format!("{m} [{at}]")
    })
}

/// Per-thread accumulators, flushed at the end of a parallel region.
#[derive(Default)]
pub struct Local { pub counts: BTreeMap<&'static str, u64>, pub outcomes: BTreeSet<String> }
impl Local {
    #[inline]
    pub fn add(&mut self, k: &'static str, n: u64) { *self.counts.entry(k).or_insert(0) += n; }
    pub fn outcome(&mut self, s: impl Into<String>) { if self.outcomes.len() < 5000 { self.outcomes.insert(s.into()); } }
}

impl Ctx {
    pub fn quick(&self) -> bool { self.tier == Tier::Quick }
    pub fn pick<T>(&self, q: T, t: T) -> T { if self.quick() { q } else { t } }
    pub fn add(&self, k: &str, n: u64) { *self.counters.lock().unwrap().entry(k.into()).or_insert(0) += n; }
    pub fn get(&self, k: &str) -> u64 { self.counters.lock().unwrap().get(k).copied().unwrap_or(0) }
    pub fn outcome(&self, s: impl Into<String>) { let mut o = self.outcomes.lock().unwrap(); if o.len() < 5000 { o.insert(s.into()); } }
    pub fn sample(&self, v: Value) { let mut s = self.samples.lock().unwrap(); if s.len() < 12 { s.push(v); } }
    pub fn info(&self, k: &str, v: impl Into<Value>) { self.info.lock().unwrap().insert(k.into(), v.into()); }
    pub fn assume(&self, s: &str) { self.assumptions.lock().unwrap().push(s.into()); }
    pub fn stopped(&self) -> bool { self.stop.load(Relaxed) }
    pub fn violated(&self) -> bool { !self.violations.lock().unwrap().is_empty() }

    /// Reports a failing case. `key` identifies the specific input or history.
    pub fn violation(&self, key: impl Into<String>, details: Value) {
        let key = key.into();
        if let Some((k, what)) = self.known.iter().find(|(k, _)| *k == key) {
            if self.known_hit.lock().unwrap().insert(k.clone()) {
                println!("KNOWN-FINDING: property={} {} [{}]", self.prop, what, k);
            }
            return;
        }
        let mut v = self.violations.lock().unwrap();
        let max = std::env::var("MC_MAXV").ok().and_then(|s| s.parse().ok()).unwrap_or(5);
        if v.len() < max.max(20) { v.insert(key, details); }
        if v.len() >= max { self.stop.store(true, Relaxed); }
    }
    /// `violation` unless `ok`.
    pub fn check(&self, ok: bool, key: impl FnOnce() -> String, details: impl FnOnce() -> Value) -> bool {
        if !ok { self.violation(key(), details()); }
        ok
    }

    /// Runs `f(i)` for every i in 0..n on all cores. Uncaught panics in `f` count
    /// as violations (code under test panicked where a result was required).
    pub fn par(&self, label: &str, n: usize, f: impl Fn(usize, &mut Local) + Sync) {
        let t0 = Instant::now();
        let next = AtomicUsize::new(0);
        let finished = AtomicBool::new(false);
        let slots: Vec<(AtomicU64, AtomicU64)> = (0..self.threads).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let limit_ms: u64 = std::env::var("MC_ITEM_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(240) * 1000;
        let live = AtomicUsize::new(self.threads.min(n.max(1)));
        std::thread::scope(|s| {
            for t in 0..self.threads.min(n.max(1)) {
                let (next, slots, f, live) = (&next, &slots, &f, &live);
                std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut l = Local::default();
                    loop {
                        let i = next.fetch_add(1, Relaxed);
                        if i >= n || self.stopped() { break; }
                        slots[t].1.store(self.start.elapsed().as_millis() as u64, Relaxed);
                        slots[t].0.store(i as u64, Relaxed);
                        if let Err(m) = guard(|| f(i, &mut l)) {
                            self.violation(format!("{label}:{i}:panic"), json!({"item": i, "region": label, "panic": m}));
                        }
                        slots[t].0.store(u64::MAX, Relaxed);
                    }
                    for (k, v) in l.counts { self.add(k, v); }
                    self.outcomes.lock().unwrap().extend(l.outcomes);
                    live.fetch_sub(1, Relaxed);
                }).unwrap();
            }
            let (finished, slots, live) = (&finished, &slots, &live);
            s.spawn(move || {
                while live.load(Relaxed) > 0 && !finished.load(Relaxed) {
                    std::thread::sleep(std::time::Duration::from_millis(20));
                    let now = self.start.elapsed().as_millis() as u64;
                    for sl in slots {
                        let i = sl.0.load(Relaxed);
                        if i != u64::MAX && now.saturating_sub(sl.1.load(Relaxed)) > limit_ms {
                            // A hang in the code under test cannot be unwound: report and leave.
                            self.violation(format!("{label}:{i}:hang"), json!({"item": i, "region": label, "hang": "did not terminate within the per-case limit"}));
                            let code = self.finish("model_checking");
                            std::process::exit(code);
                        }
                    }
                }
            });
        });
        finished.store(true, Relaxed);
        if std::env::var("MC_TIMES").is_ok() { eprintln!("{label}: {n} items, {:.1}s", t0.elapsed().as_secs_f64()); }
    }

    fn finish(&self, level: &str) -> i32 {
        let viol = self.violations.lock().unwrap();
        let counters = self.counters.lock().unwrap();
        let mut cov = serde_json::Map::new();
        for (k, v) in counters.iter() { cov.insert(k.clone(), json!(v)); }
        for (k, v) in self.info.lock().unwrap().iter() { cov.insert(k.clone(), v.clone()); }
        let oc = self.outcomes.lock().unwrap();
        cov.insert("distinct_outcomes".into(), json!(oc.len()));
        cov.insert("outcome_examples".into(), json!(oc.iter().take(12).collect::<Vec<_>>()));
        cov.insert("samples".into(), json!(*self.samples.lock().unwrap()));
        for k in ["states", "transitions", "traces_validated_against_impl"] {
            cov.entry(k.to_string()).or_insert(json!(0));
        }
        if self.stopped() { cov.insert("exhaustive".into(), json!(false)); }
        let ev = json!({
            "property": self.prop, "tier": if self.quick() { "quick" } else { "thorough" },
            "seed": self.seed, "level": level, "coverage": cov,
            "assumptions": *self.assumptions.lock().unwrap(),
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": viol.len(),
            "known_findings_reproduced": self.known_hit.lock().unwrap().len(),
        });
        let d = self.verif.join("evidence");
        let _ = std::fs::create_dir_all(&d);
        std::fs::write(d.join(format!("{}.json", self.prop)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
        // A listed finding that no longer reproduces is reported (not fatal).
        for (k, w) in &self.known {
            if !self.known_hit.lock().unwrap().contains(k) {
                println!("note: listed finding not reproduced in this run: {k} ({w})");
            }
        }
        println!("{}: {} states={} transitions={} traces={} outcomes={} wall={:.1}s", self.prop,
            if viol.is_empty() { "held" } else { "VIOLATED" },
            counters.get("states").unwrap_or(&0), counters.get("transitions").unwrap_or(&0),
            counters.get("traces_validated_against_impl").unwrap_or(&0), oc.len(), self.start.elapsed().as_secs_f64());
        if viol.is_empty() { return 0; }
        let rd = self.verif.join("evidence").join("replays");
        let _ = std::fs::create_dir_all(&rd);
        let p = rd.join(format!("{}.json", self.prop));
        let body = json!({
            "property": self.prop,
            "how_to_replay": format!("cd /verif && VERIF_TIER={} VERIF_SEED={} ./check.sh {}", if self.quick() {"quick"} else {"thorough"}, self.seed, self.prop),
            "cases": *viol });
        std::fs::write(&p, serde_json::to_string_pretty(&body).unwrap()).unwrap();
        for (k, d) in viol.iter().take(5) { println!("  failing case {k}: {d}"); }
        println!("VIOLATION property={} replay={}", self.prop, p.display());
        1
    }
}

/// Entry point: `prog <PROPERTY>`; tier and seed come from the environment.
pub fn main_with(table: &[(&str, fn(&Ctx))]) -> ! {
    // `anyhow!` captures a backtrace otherwise, which dominates the run time.
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    std::env::set_var("RUST_BACKTRACE", "0");
    let prop = std::env::args().nth(1).unwrap_or_default();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { Tier::Thorough } else { Tier::Quick };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let verif = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()));
    let Some((_, f)) = table.iter().find(|(p, _)| *p == prop) else {
        eprintln!("unknown property {prop}");
        std::process::exit(2);
    };
    let mut known = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("known_findings.txt")) {
        for line in s.lines() {
            // known: property=R09 key=<key> what=<text>
            if let Some(r) = line.strip_prefix("known: ") {
                let Some((p, rest)) = r.split_once(" key=") else { continue };
                if p.trim() != format!("property={prop}") { continue; }
                let (k, w) = rest.split_once(" what=").unwrap_or((rest, ""));
                known.push((k.trim().to_string(), w.trim().to_string()));
            }
        }
    }
    static VERBOSE: OnceLock<bool> = OnceLock::new();
    VERBOSE.get_or_init(|| std::env::var("MC_VERBOSE").is_ok());
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|l| *l.borrow_mut() = loc);
        if *VERBOSE.get().unwrap_or(&false) { eprintln!("{i}"); }
    }));
    let ctx = Ctx {
        prop, tier, seed, verif, start: Instant::now(), counters: Mutex::default(), outcomes: Mutex::default(),
        samples: Mutex::default(), info: Mutex::default(), assumptions: Mutex::default(), violations: Mutex::default(),
        known, known_hit: Mutex::default(), stop: AtomicBool::new(false),
        threads: std::thread::available_parallelism().map_or(8, |n| n.get()),
    };
    if let Err(m) = guard(|| f(&ctx)) {
        // Outside any guarded case: the checker itself failed. Not a verdict.
        eprintln!("checker error: {m}");
        std::process::exit(3);
    }
    let code = ctx.finish("model_checking");
    std::process::exit(code);
}

/// Boundary values for 32-bit quantities.
pub fn boundary32() -> Vec<u32> {
    let mut v = BTreeSet::new();
    for i in 0..32 {
        let p = 1u32 << i;
        for x in [p, p.wrapping_sub(1), p.wrapping_add(1), p.wrapping_neg(), !p, p.wrapping_neg().wrapping_sub(1)] { v.insert(x); }
    }
    for x in [0, 3, 5, 7, 10, 100, 0x7FFF_FFFE, 0x8000_0002, 0x1234_5678, 0x8765_4321, 0xDEAD_BEEF, 0x5555_5555, 0xAAAA_AAAA,
        0xFF00_FF00, 0x00FF_00FF, 0x0000_FF80, 0x8080_8080, 0x7F7F_7F7F, 0xFFFF_FFFD, 0x0001_0001, 0xFFFE_FFFF, 46341, 65521, 0xC000_0000] { v.insert(x); }
    v.into_iter().collect()
}
pub fn small32() -> Vec<u32> {
    vec![0, 1, 2, 3, 4, 5, 7, 31, 32, 33, 0x7F, 0x80, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFFFF, 0x1_0000, 0x1234_5678, 0x7FFF_FFFE, 0x7FFF_FFFF,
        0x8000_0000, 0x8000_0001, 0xAAAA_AAAA, 0xDEAD_BEEF, 0xFFFF_0000, 0xFFFF_8000, 0xFFFF_FF80, 0xFFFF_FFE0, 0xFFFF_FFFC, 0xFFFF_FFFE, 0xFFFF_FFFF]
}
