//! Runs the generated-input search of one property, shrinks failures to replay files and writes the
//! evidence file.

use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f` and turns a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let before = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(before));
    r.map_err(|_| {
        LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

static VIOLATED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// An input that fails.
struct Found {
    prop: String,
    sub: String,
    seed: u64,
    root: PathBuf,
    input: Value,
    msg: String,
}

impl Found {
    /// Writes the replay file and prints the violation.
    fn report(&self) -> String {
        VIOLATED.store(true, Ordering::SeqCst);
        let dir = self.root.join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let path = dir.join(format!("{}-{}.json", self.prop, self.sub));
        let body = json!({
            "property": self.prop,
            "sub": self.sub,
            "seed": self.seed,
            "message": self.msg,
            "input": self.input,
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap() + "\n");
        let line = format!("VIOLATION property={} replay={}", self.prop, path.display());
        println!("{}/{}: {}", self.prop, self.sub, self.msg);
        println!("{line}");
        line
    }

    /// What was found is told within that time, also if something else never ends: other cases, the
    /// rest of the check, or the search for a smaller input.
    fn within(self, secs: u64) {
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(secs));
            if !VIOLATED.load(Ordering::SeqCst) {
                self.report();
            }
            std::process::exit(1);
        });
    }
}

/// Threads that panicked and are kept as they were.
static STUCK: AtomicUsize = AtomicUsize::new(0);

/// Runs a case on a thread of its own. If it panics, the thread stops there, without unwinding, since
/// what it leaves behind (such as a scheduler of the thread) cannot be trusted to be dropped.
pub fn isolated(
    f: impl FnOnce(&mut Rec) -> Result<(), String> + Send + 'static,
    rec: &mut Rec,
) -> Result<(), String> {
    if STUCK.load(Ordering::Relaxed) > 4000 {
        // Only while shrinking.
        return Ok(());
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            ISOLATED.with(|i| *i.borrow_mut() = Some(tx.clone()));
            let mut rec = Rec::default();
            let r = f(&mut rec);
            let _ = tx.send((rec, r));
        })
        .map_err(|e| e.to_string())
        .expect("no thread");
    let (got, r) = rx.recv().unwrap_or_else(|_| (Rec::default(), Err("the thread of a case died".into())));
    *rec = got;
    r
}

type Outcome = std::sync::mpsc::Sender<(Rec, Result<(), String>)>;

thread_local! {
    static ISOLATED: std::mem::ManuallyDrop<RefCell<Option<Outcome>>> =
        const { std::mem::ManuallyDrop::new(RefCell::new(None)) };
}

fn install_hook() {
    std::panic::set_hook(Box::new(hook));
}

/// What is done about a panic; for those who must set it again.
pub fn hook(info: &std::panic::PanicHookInfo<'_>) {
    let msg = info.payload_as_str().unwrap_or("panic");
    let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
    if let Some(tx) = ISOLATED.with(|i| i.borrow_mut().take()) {
        STUCK.fetch_add(1, Ordering::Relaxed);
        let _ = tx.send((Rec::default(), Err(format!("panicked: {msg} (at {loc})"))));
        drop(tx);
        loop {
            std::thread::park();
        }
    }
    if QUIET.with(|q| q.get()) {
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("{msg} (at {loc})")));
    } else {
        eprintln!("panicked at {loc}: {msg}");
    }
}

#[derive(Default)]
pub struct Rec {
    pub nontrivial: bool,
    classes: Vec<&'static str>,
}

impl Rec {
    /// Counts the case under a class when `cond` holds.
    pub fn class(&mut self, name: &'static str, cond: bool) {
        if cond {
            self.classes.push(name);
        }
    }
    pub fn nontrivial(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    distinct: HashSet<u64>,
    classes: BTreeMap<String, u64>,
    samples: Vec<Value>,
    subs: BTreeMap<String, Value>,
    violations: Vec<String>,
    errors: Vec<String>,
    notes: BTreeMap<String, Value>,
}

pub struct Check {
    pub prop: &'static str,
    pub tier: Tier,
    pub seed: u64,
    pub root: PathBuf,
    start: Instant,
    rule: &'static str,
    totals: Mutex<Totals>,
    replay: Option<Value>,
    replay_found: std::sync::atomic::AtomicBool,
    assumptions: Vec<String>,
}

pub const SHARDS: u32 = 8;

fn fnv(s: &str) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in s.bytes() {
        h ^= b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h
}

/// A deterministic generator state for (seed, label).
pub fn rng_for(seed: u64, label: &str) -> TestRng {
    let mut bytes = [0u8; 32];
    let mut x = seed ^ fnv(label);
    for c in bytes.chunks_mut(8) {
        // splitmix64
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = x;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^= z >> 31;
        c.copy_from_slice(&z.to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

fn truncate(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 900 {
        v
    } else {
        let mut n = 900;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        Value::String(format!("{}...", &s[..n]))
    }
}

impl Check {
    /// `rule`: how cases are made and what makes one non-trivial.
    pub fn new(prop: &'static str, rule: &'static str) -> Check {
        install_hook();
        let tier = match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.trim().parse::<u64>().ok())
            .unwrap_or(1);
        let root = std::env::var("VERIF_ROOT")
            .map(PathBuf::from)
            .unwrap_or_else(|_| PathBuf::from("/verif"));
        let replay = std::env::var("VERIF_REPLAY").ok().map(|p| {
            let t = std::fs::read_to_string(&p).unwrap_or_else(|e| {
                eprintln!("cannot read replay file {p}: {e}");
                std::process::exit(3)
            });
            serde_json::from_str(&t).unwrap_or_else(|e| {
                eprintln!("cannot read replay file {p}: {e}");
                std::process::exit(3)
            })
        });
        // A run that does not end is inconclusive, never a violation.
        let limit = std::env::var("VERIF_LIMIT_S")
            .ok()
            .and_then(|s| s.parse().ok())
            .unwrap_or(if tier == Tier::Quick { 840 } else { 4 * 3600 });
        std::thread::spawn(move || {
            std::thread::sleep(Duration::from_secs(limit));
            // What was found before stands.
            if VIOLATED.load(Ordering::SeqCst) {
                std::process::exit(1);
            }
            eprintln!("inconclusive: time limit of {limit} s reached");
            std::process::exit(3);
        });
        Check {
            prop,
            tier,
            seed,
            root,
            start: Instant::now(),
            rule,
            totals: Mutex::default(),
            replay,
            replay_found: Default::default(),
            assumptions: vec![],
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }

    pub fn replaying(&self) -> bool {
        self.replay.is_some()
    }

    pub fn pick(&self, quick: u32, thorough: u32) -> u32 {
        let n = if self.thorough() { thorough } else { quick };
        // For development: scale the work.
        match std::env::var("VERIF_SCALE")
            .ok()
            .and_then(|s| s.parse::<f64>().ok())
        {
            Some(f) => ((n as f64) * f).max(1.0) as u32,
            None => n,
        }
    }

    /// The saved input of a replay of `sub`, if that is what this run is.
    pub fn replay_input(&self, sub: &str) -> Option<Value> {
        let r = self.replay.as_ref()?;
        if r["sub"] == sub {
            self.replay_found.store(true, std::sync::atomic::Ordering::SeqCst);
            Some(r["input"].clone())
        } else {
            None
        }
    }

    pub fn note(&self, k: &str, v: Value) {
        self.totals.lock().unwrap().notes.insert(k.into(), v);
    }

    /// Counts one evaluated case.
    pub fn count<V: Serialize>(&self, sub: &str, v: &V, rec: &Rec) {
        let mut t = self.totals.lock().unwrap();
        t.evaluations += 1;
        for c in &rec.classes {
            *t.classes.entry(format!("{sub}/{c}")).or_default() += 1;
        }
        let key = format!("{sub}/cases");
        *t.classes.entry(key).or_default() += 1;
        if rec.nontrivial {
            let js = serde_json::to_string(v).unwrap_or_default();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            sub.hash(&mut h);
            js.hash(&mut h);
            if t.distinct.insert(h.finish()) {
                *t.classes.entry(format!("{sub}/nontrivial")).or_default() += 1;
                let mine = t.samples.iter().filter(|s| s["sub"] == sub).count();
                if mine < 3 {
                    let v = truncate(serde_json::to_value(v).unwrap_or(Value::Null));
                    t.samples.push(json!({"sub": sub, "case": v}));
                }
            }
        }
    }

    /// Records a violation with its minimal input.
    pub fn violation<V: Serialize>(&self, sub: &str, input: &V, msg: &str) {
        let found = self.found(sub, input, msg);
        let line = found.report();
        self.totals.lock().unwrap().violations.push(line);
        found.within(150);
    }

    fn found<V: Serialize>(&self, sub: &str, input: &V, msg: &str) -> Found {
        Found {
            prop: self.prop.to_string(),
            sub: sub.to_string(),
            seed: self.seed,
            root: self.root.clone(),
            input: serde_json::to_value(input).unwrap_or(Value::Null),
            msg: msg.to_string(),
        }
    }

    pub fn error(&self, msg: String) {
        eprintln!("error in check {}: {}", self.prop, msg);
        self.totals.lock().unwrap().errors.push(msg);
    }

    /// Generates `cases` inputs on several threads, tests each, shrinks the first failure.
    pub fn sub<S, M, F>(&self, name: &'static str, cases: (u32, u32), mk: M, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone + Send,
        M: Fn() -> S + Sync,
        F: Fn(&S::Value, &mut Rec) -> Result<(), String> + Sync,
    {
        self.sub_n(name, cases, SHARDS, mk, test)
    }

    pub fn sub_n<S, M, F>(&self, name: &'static str, cases: (u32, u32), shards: u32, mk: M, test: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone + Send,
        M: Fn() -> S + Sync,
        F: Fn(&S::Value, &mut Rec) -> Result<(), String> + Sync,
    {
        if self.replay.is_some() {
            if let Some(v) = self.replay_input(name) {
                let v: S::Value = match serde_json::from_value(v) {
                    Ok(v) => v,
                    Err(e) => return self.error(format!("replay input does not fit {name}: {e}")),
                };
                let r = std::thread::scope(|s| {
                    std::thread::Builder::new()
                        .stack_size(256 << 20)
                        .spawn_scoped(s, {
                            let test = &test;
                            move || {
                                let mut rec = Rec::default();
                                let r = catch(|| test(&v, &mut rec))
                                    .unwrap_or_else(|p| Err(format!("panic: {p}")));
                                self.count(name, &v, &rec);
                                (v, r)
                            }
                        })
                        .unwrap()
                        .join()
                        .unwrap()
                });
                let (v, r) = r;
                match r {
                    Ok(()) => println!("replay {name}: holds"),
                    Err(m) => self.violation(name, &v, &m),
                }
            }
            return;
        }
        let t0 = Instant::now();
        let total = self.pick(cases.0, cases.1).max(shards);
        let failures: Mutex<BTreeMap<u32, (S::Value, String)>> = Mutex::default();
        std::thread::scope(|s| {
            for shard in 0..shards {
                let (mk, test, failures) = (&mk, &test, &failures);
                let n = total / shards + u32::from(shard < total % shards);
                std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(s, move || {
                        let strategy = mk();
                        let config = Config {
                            cases: n,
                            failure_persistence: None,
                            max_shrink_iters: 5000,
                            max_shrink_time: 90_000,
                            max_global_rejects: 1 << 20,
                            max_local_rejects: 1 << 20,
                            ..Config::default()
                        };
                        let rng = rng_for(self.seed, &format!("{}/{}/{}", self.prop, name, shard));
                        let mut runner = TestRunner::new_with_rng(config, rng);
                        let failed = Cell::new(false);
                        let r = runner.run(&strategy, |v| {
                            let mut rec = Rec::default();
                            let r = catch(|| test(&v, &mut rec))
                                .unwrap_or_else(|p| Err(format!("panic: {p}")));
                            if !failed.get() {
                                self.count(name, &v, &rec);
                            }
                            r.map_err(|m| {
                                if !failed.replace(true) {
                                    self.found(name, &v, &m).within(240);
                                }
                                TestCaseError::fail(m)
                            })
                        });
                        match r {
                            Ok(()) => {}
                            Err(TestError::Fail(why, v)) => {
                                self.found(name, &v, why.message()).within(60);
                                failures
                                    .lock()
                                    .unwrap()
                                    .insert(shard, (v, why.message().to_string()));
                            }
                            Err(TestError::Abort(why)) => {
                                self.error(format!("{name}: generation gave up: {why}"))
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let failures = failures.into_inner().unwrap();
        // The smallest failing input of all shards.
        if let Some((v, m)) = failures
            .into_values()
            .min_by_key(|(v, _)| serde_json::to_string(v).map_or(usize::MAX, |s| s.len()))
        {
            self.violation(name, &v, &m);
        }
        self.totals.lock().unwrap().subs.insert(
            name.into(),
            json!({"cases": total, "wall_s": t0.elapsed().as_secs_f64()}),
        );
    }

    /// Generates `cases` inputs, has them tested `per` at a time and shrinks the smallest failure, also
    /// with `test`, within `budget`. For tests that are dear for one input and cheap for many.
    pub fn sub_batch<S, F, C>(
        &self,
        name: &'static str,
        cases: (u32, u32),
        per: u32,
        budget: Duration,
        strategy: S,
        classify: C,
        test: F,
    ) where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Debug + Clone,
        C: Fn(&S::Value, &mut Rec),
        F: Fn(&[S::Value]) -> Result<Vec<Result<(), String>>, String>,
    {
        if self.replay.is_some() {
            if let Some(v) = self.replay_input(name) {
                let v: S::Value = match serde_json::from_value(v) {
                    Ok(v) => v,
                    Err(e) => return self.error(format!("replay input does not fit {name}: {e}")),
                };
                let mut rec = Rec::default();
                classify(&v, &mut rec);
                self.count(name, &v, &rec);
                match test(std::slice::from_ref(&v)) {
                    Err(e) => self.error(format!("{name}: {e}")),
                    Ok(r) => match r.into_iter().next() {
                        Some(Ok(())) => println!("replay {name}: holds"),
                        Some(Err(m)) => self.violation(name, &v, &m),
                        None => self.error(format!("{name}: no answer")),
                    },
                }
            }
            return;
        }
        let t0 = Instant::now();
        let total = self.pick(cases.0, cases.1).max(1);
        let config = Config {
            failure_persistence: None,
            max_global_rejects: 1 << 20,
            max_local_rejects: 1 << 20,
            ..Config::default()
        };
        let rng = rng_for(self.seed, &format!("{}/{}", self.prop, name));
        let mut runner = TestRunner::new_with_rng(config, rng);
        let mut done = 0;
        while done < total {
            let n = per.min(total - done);
            done += n;
            let mut trees = vec![];
            for _ in 0..n {
                match strategy.new_tree(&mut runner) {
                    Ok(t) => trees.push(t),
                    Err(e) => return self.error(format!("{name}: generation gave up: {e}")),
                }
            }
            let values: Vec<S::Value> = trees.iter().map(|t| t.current()).collect();
            for v in &values {
                let mut rec = Rec::default();
                classify(v, &mut rec);
                self.count(name, v, &rec);
            }
            let results = match test(&values) {
                Ok(r) if r.len() == values.len() => r,
                Ok(_) => return self.error(format!("{name}: answers are missing")),
                Err(e) => return self.error(format!("{name}: {e}")),
            };
            let size = |v: &S::Value| serde_json::to_string(v).map_or(usize::MAX, |s| s.len());
            let first = results
                .into_iter()
                .enumerate()
                .filter_map(|(i, r)| r.err().map(|m| (i, m)))
                .min_by_key(|(i, _)| size(&values[*i]));
            let Some((i, mut msg)) = first else { continue };
            let mut tree = trees.swap_remove(i);
            let mut best = values[i].clone();
            let t1 = Instant::now();
            let mut moved = tree.simplify();
            while moved && t1.elapsed() < budget {
                let v = tree.current();
                match test(std::slice::from_ref(&v)) {
                    Ok(r) => match r.into_iter().next() {
                        Some(Err(m)) => {
                            best = v;
                            msg = m;
                            moved = tree.simplify();
                        }
                        _ => moved = tree.complicate(),
                    },
                    Err(_) => break,
                }
            }
            self.violation(name, &best, &msg);
            break;
        }
        self.totals.lock().unwrap().subs.insert(
            name.into(),
            json!({"cases": done, "wall_s": t0.elapsed().as_secs_f64()}),
        );
    }

    /// Writes the evidence file and ends the process.
    pub fn finish(self) -> ! {
        let t = self.totals.into_inner().unwrap();
        if self.replay.is_some() {
            if !self.replay_found.load(std::sync::atomic::Ordering::SeqCst) {
                eprintln!("the replay file names no part of check {}", self.prop);
                std::process::exit(3);
            }
            std::process::exit(if !t.violations.is_empty() {
                1
            } else if !t.errors.is_empty() {
                3
            } else {
                0
            });
        }
        let mut coverage = json!({
            "evaluations": t.evaluations,
            "distinct_nontrivial": t.distinct.len(),
            "rule": self.rule,
            "samples": t.samples,
            "classes": t.classes,
            "parts": t.subs,
        });
        for (k, v) in t.notes {
            coverage[k] = v;
        }
        let ev = json!({
            "property": self.prop,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": coverage,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": t.violations.len(),
        });
        // A check of several programs merges what they write.
        let path = std::env::var("VERIF_EVIDENCE")
            .map(PathBuf::from)
            .unwrap_or_else(|_| self.root.join("evidence").join(format!("{}.json", self.prop)));
        let _ = std::fs::create_dir_all(path.parent().unwrap());
        if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap() + "\n") {
            eprintln!("cannot write {}: {e}", path.display());
            std::process::exit(3);
        }
        println!(
            "{}: {} cases, {} distinct non-trivial, {} violation(s), {:.1} s",
            self.prop,
            t.evaluations,
            t.distinct.len(),
            t.violations.len(),
            self.start.elapsed().as_secs_f64()
        );
        std::process::exit(if !t.violations.is_empty() {
            1
        } else if !t.errors.is_empty() {
            3
        } else {
            0
        });
    }
}
