//! Support for the bounded runs: case bookkeeping, a seeded generator, panic capture, hang watchdog.
pub mod annos;
pub mod confine;
pub mod corpus;
pub mod gs;
pub mod ops;
pub mod query;
pub mod upd;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 { 0 } else { (self.next() % n as u64) as usize }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

pub fn fnv(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Default)]
pub struct Trace {
    lines: Vec<String>,
    pub trivial: bool,
    cur: Option<Arc<Mutex<Current>>>,
}
impl Trace {
    pub fn note(&mut self, label: &str, v: &dyn Debug) {
        let mut s = format!("{label} = {v:?}");
        if s.len() > 6000 {
            s.truncate((0..=6000).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0));
            s.push_str("...");
        }
        if let Some(c) = &self.cur {
            c.lock().unwrap().lines.push(s.clone());
        }
        self.lines.push(s);
    }
    pub fn trivial_if(&mut self, b: bool) {
        self.trivial = b;
    }
}

#[derive(Default)]
struct Current {
    id: String,
    lines: Vec<String>,
    since: Option<Instant>,
}

pub struct Ctx {
    pub seed: u64,
    pub mult: f64,
    pub budget: Duration,
    only: Option<String>,
    start: Instant,
    out: String,
    evaluations: u64,
    distinct: HashSet<u64>,
    per_scenario: BTreeMap<String, u64>,
    samples: Vec<String>,
    failures: Vec<serde_json::Value>,
    cur: Vec<Arc<Mutex<Current>>>,
    rules: Vec<String>,
}

thread_local! { static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

impl Ctx {
    pub fn from_args() -> Ctx {
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
        let out = get("--out").unwrap_or("/dev/stdout".into());
        std::panic::set_hook(Box::new(|i| {
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = i.to_string();
            let _ = PANIC_MSG.try_with(|p| *p.borrow_mut() = i.to_string());
            if std::env::var("RUST_BACKTRACE").is_ok() { eprintln!("{}", std::backtrace::Backtrace::force_capture()); }
        }));
        let threads = get("--threads").and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(1)).clamp(1, 8);
        let cur: Vec<Arc<Mutex<Current>>> = (0..threads).map(|_| Default::default()).collect();
        let c2 = cur.clone();
        let out2 = out.clone();
        let limit = Duration::from_secs(get("--hang").and_then(|x| x.parse().ok()).unwrap_or(100));
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            for c in &c2 {
                let c = c.lock().unwrap();
                if c.since.is_some_and(|t| t.elapsed() > limit) {
                    let v = serde_json::json!({"evaluations": 1, "distinct_nontrivial": 0, "samples": [], "hang": true, "per_scenario": {}, "rules": [],
                        "failures": [{"id": c.id, "detail": format!("no answer after {} s", limit.as_secs()), "input": c.lines}]});
                    let _ = std::fs::write(&out2, v.to_string());
                    std::process::exit(0);
                }
            }
        });
        Ctx {
            seed: get("--seed").and_then(|x| x.parse().ok()).unwrap_or(1),
            mult: get("--mult").and_then(|x| x.parse().ok()).unwrap_or(1.0),
            budget: Duration::from_secs(get("--budget").and_then(|x| x.parse().ok()).unwrap_or(60)),
            only: get("--only"),
            start: Instant::now(),
            out,
            evaluations: 0,
            distinct: HashSet::new(),
            per_scenario: BTreeMap::new(),
            samples: vec![],
            failures: vec![],
            cur,
            rules: vec![],
        }
    }
    /// how cases of this binary are made and what makes one non-trivial
    pub fn rule(&mut self, r: &str) {
        self.rules.push(r.to_string());
    }
    /// Run `n` (times the tier's multiplier) cases of a scenario; each gets its own generator.
    /// At most three failures are kept per scenario.
    pub fn run(&mut self, scenario: &str, n: usize, f: impl Fn(&mut Rng, usize, &mut Trace) -> Result<(), String> + Sync) {
        let n = ((n as f64) * self.mult).ceil() as usize;
        self.run_exact(scenario, n, f)
    }
    /// Same, with a number of cases that does not depend on the tier (enumerations, regressions).
    pub fn run_exact(&mut self, scenario: &str, n: usize, f: impl Fn(&mut Rng, usize, &mut Trace) -> Result<(), String> + Sync) {
        let verbose = std::env::var("REPLAY_VERBOSE").is_ok();
        let t0 = Instant::now();
        let todo: Vec<usize> = (0..n).filter(|idx| self.only.as_ref().is_none_or(|o| *o == format!("{scenario}/{idx}"))).collect();
        let next = AtomicUsize::new(0);
        let failed = AtomicUsize::new(0);
        let done: Mutex<BTreeMap<usize, (Trace, Option<String>)>> = Mutex::new(BTreeMap::new());
        let (seed, start, budget) = (self.seed, self.start, self.budget);
        let work = |slot: usize| loop {
            let k = next.fetch_add(1, Ordering::SeqCst);
            if k >= todo.len() || failed.load(Ordering::SeqCst) >= 3 || (k > 0 && start.elapsed() > budget) {
                break;
            }
            let idx = todo[k];
            let id = format!("{scenario}/{idx}");
            let mut rng = Rng::new(seed.wrapping_mul(0x1000193) ^ fnv(&id));
            let cur = self.cur[slot].clone();
            let mut tr = Trace { cur: Some(cur.clone()), ..Default::default() };
            {
                let mut c = cur.lock().unwrap();
                c.id = id.clone();
                c.lines.clear();
                c.since = Some(Instant::now());
            }
            PANIC_MSG.with(|p| p.borrow_mut().clear());
            let r = catch_unwind(AssertUnwindSafe(|| f(&mut rng, idx, &mut tr)));
            cur.lock().unwrap().since = None;
            let detail = match r {
                Ok(Ok(())) => None,
                Ok(Err(e)) => Some(e),
                Err(_) => {
                    let own = PANIC_MSG.with(|p| p.borrow().clone());
                    Some(format!("panic: {}", if own.is_empty() { LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone() } else { own }))
                }
            };
            if detail.is_some() {
                failed.fetch_add(1, Ordering::SeqCst);
            }
            done.lock().unwrap().insert(idx, (tr, detail));
        };
        std::thread::scope(|s| {
            for slot in 1..self.cur.len().min(todo.len()) {
                std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, {
                    let work = &work;
                    move || work(slot)
                }).unwrap();
            }
            work(0);
        });
        let mut fails = 0;
        for (idx, (tr, detail)) in done.into_inner().unwrap() {
            let id = format!("{scenario}/{idx}");
            self.evaluations += 1;
            *self.per_scenario.entry(scenario.to_string()).or_default() += 1;
            if !tr.trivial {
                self.distinct.insert(fnv(&format!("{scenario} {}", tr.lines.join("\n"))));
            }
            match detail {
                None => {
                    if idx == 0 && self.samples.len() < 12 {
                        let mut s = format!("{id}: {}", tr.lines.join("; "));
                        if s.len() > 500 {
                            s.truncate((0..=500).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(0));
                        }
                        self.samples.push(s);
                    }
                }
                Some(detail) => {
                    if verbose {
                        eprintln!("FAIL {id}: {detail}\n   {}", tr.lines.join("\n   "));
                    }
                    fails += 1;
                    if fails <= 3 {
                        self.failures.push(serde_json::json!({"id": id, "scenario": scenario, "detail": detail, "input": tr.lines}));
                    }
                }
            }
        }
        if verbose {
            eprintln!("{scenario}: {:.2}s", t0.elapsed().as_secs_f64());
        }
    }
    pub fn finish(self) {
        let v = serde_json::json!({
            "evaluations": self.evaluations, "distinct_nontrivial": self.distinct.len(),
            "per_scenario": self.per_scenario, "samples": self.samples, "failures": self.failures,
            "rules": self.rules, "hang": false, "seconds": self.start.elapsed().as_secs_f64(),
        });
        std::fs::write(&self.out, v.to_string()).unwrap();
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
/// unexpected errors of the code under test become failures
pub fn ok<T, E: std::fmt::Debug>(r: Result<T, E>, what: &str) -> Result<T, String> {
    r.map_err(|e| format!("{what}: unexpected error {e:?}"))
}
pub fn eq<T: PartialEq + Debug>(a: T, b: T, what: &str) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{what}: got {a:?}, expected {b:?}")) }
}
