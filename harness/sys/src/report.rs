//! Verdicts and evidence.
//!
//! A run ends in one of three ways: every observation agreed with the oracle
//! (exit 0), the oracle contradicted an observation (exit 1 and a `VIOLATION`
//! line per distinct signature), or the run observed too little to say
//! anything (exit 2, `INCONCLUSIVE`).

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

use serde_json::{json, Value};

/// Bumped whenever the workload observes anything; the watchdog reads it.
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static CASE: AtomicU64 = AtomicU64::new(0);

/// What has been reported so far, for a run that breaks off.
static NOTED: Mutex<BTreeMap<String, (u64, String)>> = Mutex::new(BTreeMap::new());
static RUN: OnceLock<(String, &'static str, u64)> = OnceLock::new();

/// Signatures listed as known findings of a property.
fn known(root: &str, prop: &str) -> Vec<(String, String)> {
    std::fs::read_to_string(format!("{root}/known_findings.txt"))
        .unwrap_or_default()
        .lines()
        .filter_map(|l| {
            let rest = l.strip_prefix(&format!("known: property={prop} signature="))?;
            let (sig, what) = rest.split_once(" :: ")?;
            Some((sig.trim().to_string(), what.trim().to_string()))
        })
        .collect()
}

/// The workload cannot go on: report what was seen up to here.
pub fn broken_off(why: &str) -> ! {
    let Some((prop, tier, seed)) = RUN.get() else {
        eprintln!("{why}");
        std::process::exit(2)
    };
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let case = CASE.load(Relaxed);
    let mut all = NOTED.try_lock().map(|n| n.clone()).unwrap_or_default();
    for (sig, _) in known(&root, prop) {
        all.remove(&sig);
    }
    all.insert("workload-could-not-continue".into(), (case, why.to_string()));
    let ev = json!({
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {"evaluations": PROGRESS.load(Relaxed), "distinct_nontrivial": case + 1,
                     "rule": "stopped: a sound step of the workload was answered in a way it cannot go on from",
                     "samples": [{"case": case, "text": why}]},
        "wall_s": cpu_seconds(), "violations": all.len(), "assumptions": [],
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
    let _ = std::fs::write(format!("{root}/evidence/{prop}.json"), ev.to_string());
    for (k, (sig, (case, detail))) in all.iter().enumerate() {
        let path = format!("{root}/evidence/replay/{prop}-{k}.json");
        let rep = json!({"property": prop, "tier": tier, "seed": seed, "case": case, "signature": sig, "detail": detail});
        let _ = std::fs::write(&path, rep.to_string());
        let short: String = detail.chars().take(1500).collect();
        println!("  [{sig}] case {case}: {short}");
        println!("VIOLATION property={prop} replay={path}");
    }
    std::process::exit(1)
}

fn no_answer(why: &dyn std::fmt::Display) {
    println!("INCONCLUSIVE: {why}");
    std::process::exit(2)
}

fn cpu_seconds() -> u64 {
    let t = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
    let f: Vec<&str> = t.rsplit(')').next().unwrap_or_default().split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
    (n(11) + n(12)) / 100
}

/// Code under test that burns this much processor time without returning is
/// reported: no single observation takes more than a fraction of a second.
const STUCK: u64 = 150;

fn watch(prop: String, tier: &'static str, seed: u64) {
    std::thread::spawn(move || {
        let (mut seen, mut since) = (0, cpu_seconds());
        loop {
            std::thread::sleep(Duration::from_secs(2));
            let (p, cpu) = (PROGRESS.load(Relaxed), cpu_seconds());
            if p != seen {
                (seen, since) = (p, cpu);
            } else if cpu.saturating_sub(since) > STUCK {
                let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
                let path = format!("{root}/evidence/replay/{prop}-stuck.json");
                let rep = json!({
                    "property": prop, "tier": tier, "seed": seed, "case": CASE.load(Relaxed), "signature": "does-not-return",
                    "detail": format!("no return within {STUCK} s of processor time"),
                });
                let ev = json!({
                    "property": prop, "tier": tier, "seed": seed, "level": "exploration",
                    "coverage": {"evaluations": p, "distinct_nontrivial": p, "rule": "stopped: the code under test did not return",
                                 "samples": [{"case": CASE.load(Relaxed), "text": "does not return"}]},
                    "wall_s": cpu, "violations": 1, "assumptions": [],
                });
                let _ = std::fs::create_dir_all(format!("{root}/evidence/replay"));
                let _ = std::fs::write(&path, rep.to_string());
                let _ = std::fs::write(format!("{root}/evidence/{prop}.json"), ev.to_string());
                println!("  [does-not-return] case {}", CASE.load(Relaxed));
                println!("VIOLATION property={prop} replay={path}");
                std::process::exit(1);
            }
        }
    });
}

pub struct Report {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay_case: Option<u64>,
    evals: u64,
    distinct: HashSet<u64>,
    samples: Vec<Value>,
    counters: BTreeMap<String, u64>,
    sets: BTreeMap<String, HashSet<u64>>,
    violations: BTreeMap<String, (u64, String)>,
    required: Vec<(String, u64)>,
    start: Instant,
    current: u64,
}

/// Command line: `<property> [--replay FILE]`; tier and seed from the
/// environment.
pub fn args() -> (String, Report) {
    crate::silence_panics();
    let argv: Vec<String> = std::env::args().collect();
    let mut prop = argv.get(1).cloned().unwrap_or_default();
    let mut thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let mut seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut replay_case = None;
    if prop == "--replay" {
        let text = std::fs::read_to_string(&argv[2]).expect("replay file");
        let v: Value = serde_json::from_str(&text).expect("replay json");
        prop = v["property"].as_str().unwrap_or_default().to_string();
        thorough = v["tier"] == "thorough";
        seed = v["seed"].as_u64().unwrap_or(1);
        replay_case = v["case"].as_u64();
    }
    let tier = if thorough { "thorough" } else { "quick" };
    let _ = RUN.set((prop.clone(), tier, seed));
    watch(prop.clone(), tier, seed);
    let r = Report {
        prop: prop.clone(),
        thorough,
        seed,
        replay_case,
        evals: 0,
        distinct: HashSet::new(),
        samples: vec![],
        counters: BTreeMap::new(),
        sets: BTreeMap::new(),
        violations: BTreeMap::new(),
        required: vec![],
        start: Instant::now(),
        current: 0,
    };
    (prop, r)
}

impl Report {
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    /// Case indices to run: all of them, or only the replayed one.
    pub fn cases(&self, n: u64) -> std::ops::Range<u64> {
        match self.replay_case {
            Some(c) if c < n => c..c + 1,
            _ => 0..n,
        }
    }

    pub fn elapsed(&self) -> f64 {
        self.start.elapsed().as_secs_f64()
    }

    pub fn begin(&mut self, case: u64) {
        self.current = case;
        CASE.store(case, Relaxed);
        PROGRESS.fetch_add(1, Relaxed);
    }

    /// One evaluation whose canonical description is `case`.
    pub fn eval(&mut self, case: &str, nontrivial: bool) {
        self.evals += 1;
        PROGRESS.fetch_add(1, Relaxed);
        if nontrivial && self.distinct.insert(crate::hash(case)) {
            let d = self.distinct.len();
            if d == 3 || d == 40 || d == 400 || d == 2000 {
                let s: String = case.chars().take(600).collect();
                self.samples.push(json!({"case": self.current, "text": s}));
            }
        }
    }

    pub fn count(&mut self, what: &str) {
        self.add(what, 1);
    }

    pub fn add(&mut self, what: &str, n: u64) {
        PROGRESS.fetch_add(1, Relaxed);
        *self.counters.entry(what.to_string()).or_default() += n;
    }

    /// Count distinct values of something observed.
    pub fn saw(&mut self, set: &str, value: &str) {
        self.sets.entry(set.to_string()).or_default().insert(crate::hash(value));
    }

    /// The run is inconclusive unless counter `what` reaches `n`.
    pub fn require(&mut self, what: &str, n: u64) {
        self.required.push((what.to_string(), n));
    }

    pub fn violation(&mut self, signature: &str, detail: impl Into<String>) {
        let case = self.current;
        self.count("violating_observations");
        if !self.violations.contains_key(signature) {
            let mut detail: String = detail.into();
            if detail.len() > 60_000 {
                let head: String = detail.chars().take(30_000).collect();
                detail = format!("{head} … ({} bytes in all)", detail.len());
            }
            if let Ok(mut n) = NOTED.lock() {
                n.insert(signature.to_string(), (case, detail.clone()));
            }
            self.violations.insert(signature.to_string(), (case, detail));
        }
    }

    pub fn check(&mut self, ok: bool, signature: &str, detail: impl FnOnce() -> String) {
        self.count("oracle_comparisons");
        if !ok {
            self.violation(signature, detail());
        }
    }

    pub fn finish(mut self, rule: &str, assumptions: &[&str]) -> ! {
        let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
        let known = known(&root, &self.prop);
        let mut fresh = vec![];
        for (sig, (case, detail)) in &self.violations {
            if let Some((_, what)) = known.iter().find(|(s, _)| s == sig) {
                println!("KNOWN-FINDING: property={} {what}", self.prop);
            } else {
                fresh.push((sig.clone(), *case, detail.clone()));
            }
        }
        let tier = if self.thorough { "thorough" } else { "quick" };
        let mut coverage = json!({
            "evaluations": self.evals,
            "distinct_nontrivial": self.distinct.len(),
            "rule": rule,
            "observed": self.counters,
        });
        let distinct_seen: BTreeMap<_, _> = self.sets.iter().map(|(k, v)| (k.clone(), v.len())).collect();
        coverage["distinct_observed"] = json!(distinct_seen);
        if self.samples.is_empty() {
            self.samples.push(json!({"case": self.current, "text": "only a few distinct cases in this run"}));
        }
        coverage["samples"] = json!(self.samples);
        let ev = json!({
            "property": self.prop,
            "tier": tier,
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "wall_s": (self.start.elapsed().as_secs_f64() * 1000.0).round() / 1000.0,
            "violations": fresh.len(),
            "assumptions": assumptions,
        });
        if self.replay_case.is_none() {
            std::fs::create_dir_all(format!("{root}/evidence/replay")).unwrap_or_else(|e| no_answer(&e));
            std::fs::write(
                format!("{root}/evidence/{}.json", self.prop),
                serde_json::to_string_pretty(&ev).unwrap() + "\n",
            )
            .unwrap_or_else(|e| no_answer(&e));
        }
        println!(
            "{}: {} evaluations, {} distinct, observed {}",
            self.prop,
            self.evals,
            self.distinct.len(),
            serde_json::to_string(&self.counters).unwrap()
        );
        if !fresh.is_empty() {
            for (k, (sig, case, detail)) in fresh.iter().enumerate() {
                let path = format!("{root}/evidence/replay/{}-{}.json", self.prop, k);
                let rep = json!({
                    "property": self.prop, "tier": tier, "seed": self.seed, "case": case,
                    "signature": sig, "detail": detail,
                });
                if self.replay_case.is_none() {
                    std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap_or_else(|e| no_answer(&e));
                }
                let short: String = detail.chars().take(1500).collect();
                println!("  [{sig}] case {case}: {short}");
                println!("VIOLATION property={} replay={}", self.prop, path);
            }
            std::process::exit(1);
        }
        for (what, n) in &self.required {
            let got = self.counters.get(what).copied().unwrap_or(0);
            if got < *n && self.replay_case.is_none() {
                println!("INCONCLUSIVE property={}: observed {what} {got} times, need {n}", self.prop);
                std::process::exit(2);
            }
        }
        std::process::exit(0);
    }
}
