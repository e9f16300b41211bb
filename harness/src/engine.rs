//! The search engine: choice-tape generators run by proptest, sharded over threads, with replay
//! files, evidence and known findings.
use proptest::strategy::{NewTree, Strategy, ValueTree};
use proptest::test_runner::{
    Config as PConfig, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner,
};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

use crate::gen::Gen;

/// What one case showed when the property held on it.
#[derive(Default, Debug, Clone)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
    /// keys of known findings this case exhibited (exact signatures)
    pub known: Vec<String>,
}
impl Info {
    pub fn nt(b: bool) -> Info {
        Info { nontrivial: b, ..Default::default() }
    }
    pub fn label<S: Into<String>>(mut self, s: S) -> Info {
        self.labels.push(s.into());
        self
    }
    pub fn label_if<S: Into<String>>(self, c: bool, s: S) -> Info {
        if c {
            self.label(s)
        } else {
            self
        }
    }
}

#[derive(Debug, Clone)]
pub enum Fail {
    /// the property is broken on this case
    Violation(String),
    /// the harness could not decide (I/O trouble, lost control of the random source, ...)
    Harness(String),
}
impl From<String> for Fail {
    fn from(s: String) -> Fail {
        Fail::Violation(s)
    }
}
impl From<&str> for Fail {
    fn from(s: &str) -> Fail {
        Fail::Violation(s.to_string())
    }
}
pub type Outcome = Result<Info, Fail>;

// ---------------------------------------------------------------- choice-tape strategy

pub struct TapeStrategy<C> {
    pub gen: fn(&mut Gen) -> C,
}
impl<C> Debug for TapeStrategy<C> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "TapeStrategy")
    }
}
impl<C: Debug + Clone> Strategy for TapeStrategy<C> {
    type Tree = TapeTree<C>;
    type Value = C;
    fn new_tree(&self, runner: &mut TestRunner) -> NewTree<Self> {
        let seed = proptest::num::u64::ANY.new_tree(runner)?.current();
        let mut g = Gen::fresh(seed);
        let cur = (self.gen)(&mut g);
        let best = g.into_tape();
        Ok(TapeTree { gen: self.gen, cand: best.clone(), best, cur, pass: 0, size: 0, pos: 0 })
    }
}
pub struct TapeTree<C> {
    gen: fn(&mut Gen) -> C,
    best: Vec<u64>,
    cand: Vec<u64>,
    cur: C,
    pass: u32,
    size: usize,
    pos: usize,
}
impl<C: Debug + Clone> TapeTree<C> {
    fn load(&mut self, tape: Vec<u64>) {
        let mut g = Gen::replay(&tape);
        self.cur = (self.gen)(&mut g);
        let used = g.used();
        let mut t = tape;
        t.truncate(used);
        self.cand = t;
    }
    /// Next smaller candidate derived from `best`; false when exhausted.
    fn next_candidate(&mut self) -> bool {
        loop {
            let n = self.best.len();
            if n == 0 {
                return false;
            }
            match self.pass {
                // pass 0: delete blocks; pass 1: zero blocks
                0 | 1 => {
                    if self.size == 0 {
                        self.size = n.next_power_of_two().min(1024);
                        self.pos = 0;
                    }
                    if self.pos >= n {
                        self.pos = 0;
                        self.size /= 2;
                        if self.size == 0 {
                            self.pass += 1;
                        }
                        continue;
                    }
                    let a = self.pos;
                    let b = (a + self.size).min(n);
                    self.pos += self.size;
                    let mut t = self.best.clone();
                    if self.pass == 0 {
                        t.drain(a..b);
                    } else {
                        if t[a..b].iter().all(|x| *x == 0) {
                            continue;
                        }
                        for x in &mut t[a..b] {
                            *x = 0;
                        }
                    }
                    self.load(t);
                    return true;
                }
                // passes 2..: shrink single entries
                2..=9 => {
                    if self.pos >= n {
                        self.pos = 0;
                        self.pass += 1;
                        continue;
                    }
                    let i = self.pos;
                    self.pos += 1;
                    let x = self.best[i];
                    if x == 0 {
                        continue;
                    }
                    let y = match self.pass {
                        2 | 6 => x >> 32,
                        3 | 7 => x >> 8,
                        4 | 8 => x >> 1,
                        _ => x & !(u64::MAX >> 12),
                    };
                    if y == x {
                        continue;
                    }
                    let mut t = self.best.clone();
                    t[i] = y;
                    self.load(t);
                    return true;
                }
                _ => return false,
            }
        }
    }
}
impl<C: Debug + Clone> ValueTree for TapeTree<C> {
    type Value = C;
    fn current(&self) -> C {
        self.cur.clone()
    }
    fn simplify(&mut self) -> bool {
        self.best = self.cand.clone();
        if self.next_candidate() {
            true
        } else {
            let b = self.best.clone();
            self.load(b);
            false
        }
    }
    fn complicate(&mut self) -> bool {
        if self.next_candidate() {
            true
        } else {
            let b = self.best.clone();
            self.load(b);
            false
        }
    }
}

// ---------------------------------------------------------------- families

pub trait AnyFamily: Send + Sync {
    fn name(&self) -> &str;
    fn rule(&self) -> &str;
    fn cases(&self, thorough: bool) -> u32;
    fn shards(&self, thorough: bool) -> u32;
    fn serial(&self) -> bool;
    fn run_shard(&self, seed: [u8; 32], cases: u32, stop: &AtomicBool) -> ShardResult;
    fn replay(&self, case: &Value) -> Result<Outcome, String>;
}

#[derive(Default)]
pub struct ShardResult {
    pub evaluations: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub known: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub failure: Option<(String, Value)>,
    pub harness_error: Option<String>,
}

pub struct Family<C> {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub shrink: u32,
    pub serial: bool,
    pub shard_size: u32,
    pub gen: fn(&mut Gen) -> C,
    pub check: fn(&C) -> Outcome,
}
impl<C: Serialize + DeserializeOwned + Clone + Debug + 'static> Family<C> {
    pub fn new(
        name: &'static str,
        quick: u32,
        thorough: u32,
        gen: fn(&mut Gen) -> C,
        check: fn(&C) -> Outcome,
        rule: &'static str,
    ) -> Family<C> {
        Family {
            name,
            rule,
            quick,
            thorough,
            shrink: 3000,
            serial: false,
            shard_size: 0,
            gen,
            check,
        }
    }
    pub fn shrink(mut self, n: u32) -> Self {
        self.shrink = n;
        self
    }
    pub fn serial(mut self) -> Self {
        self.serial = true;
        self
    }
    pub fn shard_size(mut self, n: u32) -> Self {
        self.shard_size = n;
        self
    }
    pub fn boxed(self) -> Box<dyn AnyFamily> {
        Box::new(self)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = format!("{}", i);
        LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
/// Runs `f`, turning a panic into its message.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

fn checked<C>(check: fn(&C) -> Outcome, c: &C) -> Outcome {
    match guarded(|| check(c)) {
        Ok(r) => r,
        Err(m) => Err(Fail::Violation(format!("panic: {}", m))),
    }
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() <= 1500 {
        v
    } else {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        Value::String(format!("{}... ({} bytes)", &s[..e], s.len()))
    }
}

impl<C: Serialize + DeserializeOwned + Clone + Debug + 'static> AnyFamily for Family<C> {
    fn name(&self) -> &str {
        self.name
    }
    fn rule(&self) -> &str {
        self.rule
    }
    fn cases(&self, thorough: bool) -> u32 {
        if thorough {
            self.thorough
        } else {
            self.quick
        }
    }
    fn shards(&self, thorough: bool) -> u32 {
        let n = self.cases(thorough);
        if self.serial {
            return 1.min(n);
        }
        if self.shard_size > 0 {
            return (n + self.shard_size - 1) / self.shard_size;
        }
        n.min(32)
    }
    fn serial(&self) -> bool {
        self.serial
    }
    fn run_shard(&self, seed: [u8; 32], cases: u32, stop: &AtomicBool) -> ShardResult {
        let res = Rc::new(RefCell::new(ShardResult::default()));
        let cfg = PConfig {
            cases,
            failure_persistence: None,
            max_shrink_iters: self.shrink,
            source_file: None,
            ..PConfig::default()
        };
        let mut runner =
            TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &seed));
        let strat = TapeStrategy { gen: self.gen };
        let check = self.check;
        let r2 = res.clone();
        let failed = Rc::new(RefCell::new(false));
        let f2 = failed.clone();
        let out = runner.run(&strat, move |c: C| {
            let mut r = r2.borrow_mut();
            if r.harness_error.is_some() || (stop.load(Ordering::Relaxed) && !*f2.borrow()) {
                return Ok(());
            }
            let o = checked(check, &c);
            r.evaluations += 1;
            match o {
                Ok(info) => {
                    if !*f2.borrow() {
                        for l in info.labels {
                            *r.labels.entry(l).or_insert(0) += 1;
                        }
                        for k in info.known {
                            *r.known.entry(k).or_insert(0) += 1;
                        }
                        if info.nontrivial {
                            let v = serde_json::to_string(&c).unwrap_or_default();
                            let mut h = DefaultHasher::new();
                            v.hash(&mut h);
                            if r.nontrivial.insert(h.finish()) && r.samples.len() < 1 {
                                r.samples
                                    .push(clip(serde_json::to_value(&c).unwrap_or(Value::Null)));
                            }
                        }
                    }
                    Ok(())
                }
                Err(Fail::Violation(m)) => {
                    *f2.borrow_mut() = true;
                    Err(TestCaseError::fail(m))
                }
                Err(Fail::Harness(m)) => {
                    r.harness_error = Some(m);
                    Ok(())
                }
            }
        });
        let mut r = std::mem::take(&mut *res.borrow_mut());
        match out {
            Ok(()) => {}
            Err(TestError::Fail(why, c)) => {
                // the message of the shrunk case, not of the first one
                let m = match checked(check, &c) {
                    Err(Fail::Violation(m)) => m,
                    other => format!("{} (not reproduced on the second try: {:?})", why, other),
                };
                r.failure = Some((m, serde_json::to_value(&c).unwrap_or(Value::Null)));
            }
            Err(TestError::Abort(m)) => r.harness_error = Some(format!("aborted: {}", m)),
        }
        r
    }
    fn replay(&self, case: &Value) -> Result<Outcome, String> {
        let c: C = serde_json::from_value(case.clone()).map_err(|e| e.to_string())?;
        Ok(checked(self.check, &c))
    }
}

// ---------------------------------------------------------------- running a property

pub fn seed_bytes(parts: &[&str], nums: &[u64]) -> [u8; 32] {
    let mut out = [0u8; 32];
    for k in 0..4u64 {
        // FNV-1a style mixing, independent of std's hasher
        let mut h: u64 = 0xcbf2_9ce4_8422_2325 ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        for p in parts {
            for b in p.bytes() {
                h = (h ^ b as u64).wrapping_mul(0x0000_0100_0000_01b3);
            }
            h = (h ^ 0xff).wrapping_mul(0x0000_0100_0000_01b3);
        }
        for n in nums {
            h = (h ^ n).wrapping_mul(0x0000_0100_0000_01b3);
            h ^= h >> 29;
        }
        h = (h ^ (h >> 32)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        h ^= h >> 31;
        out[8 * k as usize..8 * k as usize + 8].copy_from_slice(&h.to_le_bytes());
    }
    out
}

pub struct Property {
    pub id: &'static str,
    pub families: Vec<Box<dyn AnyFamily>>,
    pub assumptions: Vec<&'static str>,
}

/// Runs all families; returns the process exit code.
pub fn run_property(p: Property, thorough: bool, seed: u64, root: &str) -> i32 {
    let t0 = Instant::now();
    let threads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(16);
    let id = p.id;
    let fams = Arc::new(p.families);
    let mut items: Vec<(usize, u32, u32)> = Vec::new();
    let mut serial_items: Vec<(usize, u32, u32)> = Vec::new();
    for (fi, f) in fams.iter().enumerate() {
        let n = f.cases(thorough);
        let sh = f.shards(thorough);
        for s in 0..sh {
            let c = n / sh + if s < n % sh { 1 } else { 0 };
            if f.serial() {
                serial_items.push((fi, s, c));
            } else {
                items.push((fi, s, c));
            }
        }
    }
    let stop = AtomicBool::new(false);
    let results: Mutex<Vec<(usize, u32, ShardResult)>> = Mutex::new(Vec::new());
    let next = AtomicUsize::new(0);
    let do_item = |it: (usize, u32, u32)| {
        let (fi, s, c) = it;
        let f = &fams[fi];
        let sb = seed_bytes(&[id, f.name()], &[seed, s as u64, thorough as u64]);
        let tt = Instant::now();
        let r = f.run_shard(sb, c, &stop);
        if std::env::var("VERIF_TIMING").is_ok() {
            eprintln!("timing {} {} shard {} {:.2}s", id, f.name(), s, tt.elapsed().as_secs_f64());
        }
        if r.failure.is_some() {
            stop.store(true, Ordering::Relaxed);
        }
        results.lock().unwrap().push((fi, s, r));
    };
    for it in serial_items {
        do_item(it);
    }
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(sc, || loop {
                    let k = next.fetch_add(1, Ordering::SeqCst);
                    if k >= items.len() {
                        break;
                    }
                    do_item(items[k]);
                })
                .expect("spawn");
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|x| (x.0, x.1));

    // known findings listed for this property
    let listed: BTreeMap<String, String> = load_known(root, id);
    let mut evals = 0u64;
    let mut nts = 0u64;
    let mut fam_json = serde_json::Map::new();
    let mut samples: Vec<Value> = Vec::new();
    let mut failures: Vec<(String, String, Value)> = Vec::new();
    let mut herr: Option<String> = None;
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    for (fi, f) in fams.iter().enumerate() {
        let mut e = 0;
        let mut nt: HashSet<u64> = HashSet::new();
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let mut got = 0;
        for (_, _, r) in results.iter().filter(|x| x.0 == fi) {
            e += r.evaluations;
            nt.extend(r.nontrivial.iter());
            for (k, v) in &r.labels {
                *labels.entry(k.clone()).or_insert(0) += v;
            }
            for (k, v) in &r.known {
                *known.entry(k.clone()).or_insert(0) += v;
            }
            if got < 2 {
                if let Some(s) = r.samples.first() {
                    samples.push(json!({"family": f.name(), "case": s}));
                    got += 1;
                }
            }
            if let Some((m, c)) = &r.failure {
                failures.push((f.name().to_string(), m.clone(), c.clone()));
            }
            if let Some(h) = &r.harness_error {
                herr = Some(format!("{}: {}", f.name(), h));
            }
        }
        evals += e;
        nts += nt.len() as u64;
        fam_json.insert(
            f.name().to_string(),
            json!({"evaluations": e, "distinct_nontrivial": nt.len(), "rule": f.rule(), "labels": labels}),
        );
    }
    for (k, v) in &known {
        match listed.get(k) {
            Some(d) => println!("KNOWN-FINDING: property={} {} ({} cases)", id, d, v),
            None => failures.push((
                "unlisted".to_string(),
                format!("finding `{}` is not in known_findings.jsonl", k),
                json!({"key": k}),
            )),
        }
    }
    let rules: Vec<String> =
        fams.iter().map(|f| format!("{}: {}", f.name(), f.rule())).collect();
    let ev = json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nts,
            "rule": format!("cases come from proptest-driven choice-tape generators; a case counts as non-trivial when: {}", rules.join(" | ")),
            "samples": samples,
            "families": fam_json,
            "known_findings_seen": known,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let _ = std::fs::create_dir_all(format!("{}/evidence", root));
    if let Err(e) = std::fs::write(
        format!("{}/evidence/{}.json", root, id),
        serde_json::to_string_pretty(&ev).unwrap(),
    ) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {} families, {:.1} s",
        id,
        evals,
        nts,
        fams.len(),
        t0.elapsed().as_secs_f64()
    );
    if !failures.is_empty() {
        let _ = std::fs::create_dir_all(format!("{}/replays", root));
        let (f, m, c) = &failures[0];
        let path = format!("{}/replays/{}-{}.json", root, id, f);
        let rep = json!({"property": id, "family": f, "seed": seed, "message": m, "case": c,
            "replay_with": format!("./check replay {}", path)});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap());
        println!("  family {}: {}", f, m);
        println!("VIOLATION property={} replay={}", id, path);
        return 1;
    }
    if let Some(h) = herr {
        eprintln!("HARNESS ERROR: {}", h);
        return 2;
    }
    0
}

fn load_known(root: &str, id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(format!("{}/known_findings.jsonl", root)) {
        for l in s.lines() {
            if let Ok(v) = serde_json::from_str::<Value>(l) {
                if v["property"] == id && v["status"] == "known" {
                    if let (Some(k), Some(d)) = (v["key"].as_str(), v["what"].as_str()) {
                        m.insert(k.to_string(), d.to_string());
                    }
                }
            }
        }
    }
    m
}
