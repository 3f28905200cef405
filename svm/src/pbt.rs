//! The runner: drives proptest over fixed shards, counts, shrinks, replays.

use proptest::strategy::BoxedStrategy;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;

/// Filled while a single case runs.
#[derive(Default)]
pub struct Stats {
    /// Classes of what happened in this case.
    pub n: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// Free text which may be worth showing with a violation.
    pub trace: Vec<String>,
    pub tracing: bool,
}

impl Stats {
    pub fn hit(&mut self, k: &'static str) {
        *self.n.entry(k).or_default() += 1;
    }
    pub fn by(&mut self, k: &'static str, n: u64) {
        *self.n.entry(k).or_default() += n;
    }
    pub fn note<F: FnOnce() -> String>(&mut self, f: F) {
        if self.tracing {
            self.trace.push(f());
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

pub struct Report {
    pub name: &'static str,
    pub evaluations: u64,
    pub distinct: u64,
    pub classes: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub violation: Option<(Value, String)>,
    pub aborted: Option<String>,
}

pub trait Sub: Sync + Send {
    fn name(&self) -> &'static str;
    fn run(&self, seed: u64, tier: Tier, scale: f64) -> Report;
    /// `show`: also what happens in the case.
    fn replay(&self, case: &Value, show: bool) -> Result<(), String>;
}

/// One generator with its oracle.
pub struct Check<C> {
    pub name: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub strategy: Box<dyn Fn(Tier) -> BoxedStrategy<C> + Sync + Send>,
    pub oracle: Box<dyn Fn(&C, &mut Stats) -> Result<(), String> + Sync + Send>,
}

impl<C> Check<C> {
    pub fn boxed<F>(
        name: &'static str,
        quick: u32,
        thorough: u32,
        strategy: impl Fn(Tier) -> BoxedStrategy<C> + Sync + Send + 'static,
        oracle: F,
    ) -> Box<dyn Sub>
    where
        C: Serialize + DeserializeOwned + Clone + Debug + 'static,
        F: Fn(&C, &mut Stats) -> Result<(), String> + Sync + Send + 'static,
    {
        Box::new(Check { name, quick, thorough, strategy: Box::new(strategy), oracle: Box::new(oracle) })
    }
}

fn fnv(b: &[u8]) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}

const SHARDS: u32 = 16;

struct Acc {
    evaluations: u64,
    seen: HashSet<u64>,
    classes: BTreeMap<&'static str, u64>,
    samples: Vec<(u32, Value)>,
    violation: Option<(Value, String)>,
    aborted: Option<String>,
}

impl<C> Sub for Check<C>
where
    C: Serialize + DeserializeOwned + Clone + Debug + 'static,
{
    fn name(&self) -> &'static str {
        self.name
    }

    fn run(&self, seed: u64, tier: Tier, scale: f64) -> Report {
        let cases = match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        };
        let cases = ((cases as f64 * scale) as u32).max(SHARDS);
        let per_shard = (cases + SHARDS - 1) / SHARDS;
        let stop = AtomicBool::new(false);
        let next = Mutex::new(0u32);
        let acc = Mutex::new(Acc {
            evaluations: 0,
            seen: HashSet::new(),
            classes: BTreeMap::new(),
            samples: vec![],
            violation: None,
            aborted: None,
        });
        let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16);
        std::thread::scope(|s| {
            for _ in 0..threads {
                let builder = std::thread::Builder::new().stack_size(64 << 20);
                builder
                    .spawn_scoped(s, || loop {
                        let shard = {
                            let mut n = next.lock().unwrap();
                            if *n >= SHARDS {
                                return;
                            }
                            *n += 1;
                            *n - 1
                        };
                        self.shard(shard, seed, tier, per_shard, &stop, &acc);
                    })
                    .unwrap();
            }
        });
        let mut acc = acc.into_inner().unwrap();
        acc.samples.sort_by_key(|s| s.0);
        Report {
            name: self.name,
            evaluations: acc.evaluations,
            distinct: acc.seen.len() as u64,
            classes: acc.classes,
            samples: acc.samples.into_iter().take(2).map(|s| s.1).collect(),
            violation: acc.violation,
            aborted: acc.aborted,
        }
    }

    fn replay(&self, case: &Value, show: bool) -> Result<(), String> {
        let case: C = serde_json::from_value(case.clone()).map_err(|e| format!("bad replay file: {}", e))?;
        let mut st = Stats { tracing: show, ..Stats::default() };
        let r = (self.oracle)(&case, &mut st);
        for l in &st.trace {
            println!("  {}", l);
        }
        r
    }
}

impl<C> Check<C>
where
    C: Serialize + DeserializeOwned + Clone + Debug + 'static,
{
    fn shard(&self, shard: u32, seed: u64, tier: Tier, cases: u32, stop: &AtomicBool, acc: &Mutex<Acc>) {
        let mut key = [0u8; 32];
        key[..8].copy_from_slice(&seed.to_le_bytes());
        key[8..12].copy_from_slice(&shard.to_le_bytes());
        key[12..20].copy_from_slice(&fnv(self.name.as_bytes()).to_le_bytes());
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &key);
        let config = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: if std::env::var("VERIF_NOSHRINK").is_ok() { 0 } else { 6000 },
            max_shrink_time: 90_000,
            max_global_rejects: 1 << 20,
            ..Config::default()
        };
        let mut runner = TestRunner::new_with_rng(config, rng);
        let strategy = (self.strategy)(tier);
        let failing = std::cell::Cell::new(false);
        let sampled = std::cell::Cell::new(0);
        let out = runner.run(&strategy, |case: C| {
            if !failing.get() && stop.load(Ordering::Relaxed) {
                // somebody else has found a violation already
                return Ok(());
            }
            let mut st = Stats::default();
            let r = (self.oracle)(&case, &mut st);
            if !failing.get() {
                let mut a = acc.lock().unwrap();
                a.evaluations += 1;
                for (k, v) in &st.n {
                    *a.classes.entry(k).or_default() += v;
                }
                if st.nontrivial {
                    let s = serde_json::to_vec(&case).unwrap();
                    a.seen.insert(fnv(&s));
                    if sampled.get() < 1 && shard < 2 {
                        sampled.set(1);
                        let v = if s.len() > 4000 {
                            json!(format!("{}...", String::from_utf8_lossy(&s[..4000])))
                        } else {
                            serde_json::from_slice(&s).unwrap()
                        };
                        a.samples.push((shard, v));
                    }
                }
            }
            r.map_err(|e| {
                failing.set(true);
                stop.store(true, Ordering::Relaxed);
                TestCaseError::fail(e)
            })
        });
        match out {
            Ok(()) => (),
            Err(TestError::Fail(_, min)) => {
                // the reason after shrinking
                let mut st = Stats { tracing: true, ..Stats::default() };
                let again = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    (self.oracle)(&min, &mut st)
                }));
                let reason = match again {
                    Ok(Err(e)) => e,
                    Ok(Ok(())) => "did not fail again (non-deterministic)".to_string(),
                    Err(_) => "the oracle itself panicked on this case".to_string(),
                };
                let mut a = acc.lock().unwrap();
                if a.violation.is_none() {
                    a.violation = Some((serde_json::to_value(&min).unwrap(), reason));
                }
            }
            Err(TestError::Abort(r)) => {
                acc.lock().unwrap().aborted = Some(r.to_string());
            }
        }
    }
}

/// A property with everything that decides it.
pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub subs: Vec<Box<dyn Sub>>,
    /// Deterministic demonstrations of recorded defects: (signature, probe); a
    /// probe returns Some(what fails) if the defect is still there.
    pub probes: Vec<(&'static str, fn() -> Option<String>)>,
    /// Committed regression cases are replayed first.
    pub min_nontrivial: u64,
}

pub fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Entry of the binaries: `bin <property> [--replay file]`. Returns the exit
/// code.
pub fn main(find: fn(&str) -> Option<Property>) -> i32 {
    crate::vm::init();
    let args: Vec<String> = std::env::args().collect();
    let id = match args.get(1) {
        Some(id) => id.clone(),
        None => {
            eprintln!("usage: {} <property> [--replay file]", args[0]);
            return 2;
        }
    };
    let prop = match find(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        return replay(&prop, Path::new(&args[3]));
    }
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let scale: f64 = std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    run(&prop, seed, tier, scale)
}

fn replay(prop: &Property, path: &Path) -> i32 {
    let v: Value = match std::fs::read(path).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path.display());
            return 2;
        }
    };
    let sub = prop.subs.iter().find(|s| Some(s.name()) == v["check"].as_str());
    match sub {
        None => {
            eprintln!("no check {} in {}", v["check"], prop.id);
            2
        }
        Some(s) => match s.replay(&v["case"], true) {
            Ok(()) => {
                println!("replay of {}: the property holds", path.display());
                0
            }
            Err(e) => {
                println!("{}", e);
                println!("VIOLATION property={} replay={}", prop.id, path.display());
                1
            }
        },
    }
}

/// `known property=F06 sig=xyz <text>` lines of the known findings.
fn known(id: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("known: property=")?;
            let (p, rest) = l.split_once(' ')?;
            let (sig, text) = rest.strip_prefix("sig=")?.split_once(' ')?;
            (p == id).then(|| (sig.to_string(), text.to_string()))
        })
        .collect()
}

fn run(prop: &Property, seed: u64, tier: Tier, scale: f64) -> i32 {
    let t0 = std::time::Instant::now();
    let mut evaluations = 0;
    let mut distinct = 0;
    let mut samples = vec![];
    let mut per = serde_json::Map::new();
    let mut violations: Vec<(String, Value, String)> = vec![];
    let mut broken = None;

    // what failed in the past is tried first
    let dir = root().join("regressions").join(prop.id);
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    let mut replayed = 0;
    for f in files {
        let v: Value = match std::fs::read(&f).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
            Some(v) => v,
            None => continue,
        };
        if let Some(s) = prop.subs.iter().find(|s| Some(s.name()) == v["check"].as_str()) {
            replayed += 1;
            match s.replay(&v["case"], false) {
                Ok(()) => (),
                Err(e) if e.starts_with("bad replay file") => broken = Some(e),
                Err(e) => violations.push((s.name().into(), v["case"].clone(), e)),
            }
        }
    }

    if violations.is_empty() {
        for s in &prop.subs {
            let r = s.run(seed, tier, scale);
            evaluations += r.evaluations;
            distinct += r.distinct;
            for c in r.samples {
                samples.push(json!({"check": r.name, "case": c}));
            }
            per.insert(
                r.name.into(),
                json!({"evaluations": r.evaluations, "distinct_nontrivial": r.distinct, "classes": r.classes}),
            );
            if let Some(a) = r.aborted {
                broken = Some(format!("{}: {}", r.name, a));
            }
            if let Some((case, why)) = r.violation {
                violations.push((r.name.into(), case, why));
                break;
            }
        }
    }

    let mut found = vec![];
    for (sig, text) in known(prop.id) {
        if let Some((_, probe)) = prop.probes.iter().find(|(s, _)| *s == sig) {
            match probe() {
                Some(what) => {
                    println!("KNOWN-FINDING: property={} {} [{}]", prop.id, text, what);
                    found.push(json!({"sig": sig, "what": what}));
                }
                None => println!("note: recorded finding {} no longer reproduces", sig),
            }
        }
    }
    // a defect with a probe which is not recorded (or was fixed) is a violation
    for (sig, probe) in &prop.probes {
        if !known(prop.id).iter().any(|k| k.0 == *sig) {
            if let Some(what) = probe() {
                violations.push((format!("probe:{}", sig), json!(null), what));
            }
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let evidence = json!({
        "property": prop.id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct,
            "rule": prop.rule,
            "samples": samples,
            "per_check": per,
            "regressions_replayed": replayed,
            "known_findings_reproduced": found,
        },
        "assumptions": prop.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let edir = root().join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(
        edir.join(format!("{}.json", prop.id)),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    ) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }

    for (name, r) in per.iter() {
        println!("{} {}: {}", prop.id, name, r);
    }
    println!("{}: {} cases, {} distinct non-trivial, {:.1} s", prop.id, evaluations, distinct, wall);
    for (check, case, why) in &violations {
        let rdir = root().join("replays").join(prop.id);
        let _ = std::fs::create_dir_all(&rdir);
        let body = json!({"property": prop.id, "check": check, "seed": seed, "why": why, "case": case});
        let text = serde_json::to_string_pretty(&body).unwrap() + "\n";
        let path = rdir.join(format!("{:016x}.json", fnv(text.as_bytes())));
        let _ = std::fs::write(&path, text);
        println!("{}: {}", check, why);
        println!("VIOLATION property={} replay={}", prop.id, path.display());
    }
    if !violations.is_empty() {
        return 1;
    }
    if let Some(b) = broken {
        eprintln!("error of the check: {}", b);
        return 3;
    }
    if scale >= 1.0 && distinct < prop.min_nontrivial {
        eprintln!(
            "error of the check: only {} non-trivial cases (expected at least {})",
            distinct, prop.min_nontrivial
        );
        return 3;
    }
    0
}
