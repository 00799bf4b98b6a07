//! Shared machinery of the bounded stand-ins / counterexample search.
#![allow(dead_code)]
use serde_json::{json, Value};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    pub fn range(&mut self, a: usize, b: usize) -> usize { a + self.below(b - a + 1) }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}

pub struct Cx {
    pub property: String,
    pub thorough: bool,
    pub seed: u64,
    pub replay_dir: String,
    pub evals: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<Value>,
    pub violations: Vec<Value>,
    pub rules: Vec<String>,
    pub start: Instant,
    pub budget: Duration,
}

pub type Res = Result<bool, String>; // Ok(nontrivial)

impl Cx {
    pub fn new(property: &str, thorough: bool, seed: u64, replay_dir: &str) -> Cx {
        Cx {
            property: property.into(), thorough, seed, replay_dir: replay_dir.into(), evals: 0,
            distinct: HashSet::new(), samples: vec![], violations: vec![], rules: vec![],
            start: Instant::now(), budget: Duration::from_secs(if thorough { 240 } else { 20 }),
        }
    }
    pub fn rng(&self, salt: u64) -> Rng { Rng::new(self.seed ^ salt.wrapping_mul(0x1000193)) }
    pub fn stop(&self) -> bool { self.violations.len() >= 3 || self.start.elapsed() > self.budget }
    pub fn rule(&mut self, s: &str) { self.rules.push(s.to_string()) }
    /// Evaluate one case on the real code.
    pub fn case(&mut self, f: fn(&Value) -> Res, case: Value) {
        if self.violations.len() >= 3 { return; }
        self.evals += 1;
        if self.evals == 1 {
            let (prop, dir) = (self.property.clone(), self.replay_dir.clone());
            std::thread::spawn(move || watchdog(prop, dir));
        }
        *CURRENT.lock().unwrap() = Some((Instant::now(), case.clone()));
        let r = guarded(f, &case);
        *CURRENT.lock().unwrap() = None;
        match r {
            Ok(nontrivial) => {
                if nontrivial {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    case.to_string().hash(&mut h);
                    if self.distinct.insert(h.finish()) && (self.samples.len() < 3 || (self.evals % 5000 == 0 && self.samples.len() < 8)) {
                        self.samples.push(trunc(&case));
                    }
                }
            }
            Err(what) => {
                let n = self.violations.len();
                let path = format!("{}/{}-{}.json", self.replay_dir, self.property, n);
                let _ = std::fs::create_dir_all(&self.replay_dir);
                let doc = json!({"property": self.property, "case": case, "what": what,
                    "how": "bash /verif/replay.sh <this file> runs the case against /repo's current code"});
                let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
                eprintln!("violation: {}", what);
                self.violations.push(json!({"replay": path, "what": what}));
            }
        }
    }
    pub fn report(&self) -> Value {
        json!({"evaluations": self.evals, "distinct_nontrivial": self.distinct.len(), "rule": self.rules.join("; "),
            "samples": self.samples, "violations": self.violations, "wall_s": self.start.elapsed().as_secs_f64()})
    }
}
static CURRENT: std::sync::Mutex<Option<(Instant, Value)>> = std::sync::Mutex::new(None);
pub static OUT: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
/// A case that does not come back within 40 s (they take milliseconds) is a hang of the code under test.
fn watchdog(prop: String, dir: String) {
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let g = CURRENT.lock().unwrap();
        if let Some((t, case)) = &*g {
            if t.elapsed() > Duration::from_secs(40) {
                let what = "the code under test does not come back (hang)";
                let path = format!("{}/{}-hang.json", dir, prop);
                let _ = std::fs::create_dir_all(&dir);
                let _ = std::fs::write(&path, json!({"property": prop, "case": case, "what": what}).to_string());
                let rep = json!({"evaluations": 1, "distinct_nontrivial": 0, "rule": "hang", "samples": [trunc(case)], "violations": [{"replay": path, "what": what}], "wall_s": 40.0});
                let _ = std::fs::write(&*OUT.lock().unwrap(), rep.to_string());
                std::process::exit(1);
            }
        }
    }
}
fn trunc(v: &Value) -> Value {
    let s = v.to_string();
    if s.len() > 600 { json!(format!("{}...", s.chars().take(600).collect::<String>())) } else { v.clone() }
}
pub fn guarded(f: fn(&Value) -> Res, case: &Value) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(case))) {
        Ok(r) => r,
        Err(p) => {
            let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            Err(format!("the code panicked: {}", m))
        }
    }
}

// bytes <-> json: printable latin1-ish escaped string
pub fn enc(b: &[u8]) -> Value { Value::String(b.iter().map(|c| *c as char).collect()) }
pub fn dec(v: &Value) -> Vec<u8> { v.as_str().unwrap_or("").chars().map(|c| c as u32 as u8).collect() }
pub fn us(v: &Value) -> usize { v.as_u64().unwrap_or(0) as usize }
pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(300).map(|c| std::ascii::escape_default(*c).to_string()).collect();
    if b.len() > 300 { format!("{}... ({} octets)", s, b.len()) } else { s }
}

pub fn noop_waker() -> std::task::Waker { futures_util::task::noop_waker() }

/// Split `n` octets in pieces as told by `cuts` (cyclic list of sizes; 0 = not ready once).
pub fn arr(v: &Value) -> Vec<usize> { v.as_array().map(|a| a.iter().map(us).collect()).unwrap_or_default() }
