//! Clause runner: proptest drives generated cases, plain enumeration drives small finite scopes.
//! Every case is a serde value, so a shrunk failure becomes a JSON replay file that bypasses proptest.
use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Default, Debug)]
pub struct Obs {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    /// oracle comparisons made inside this case beyond the first
    pub inner: u64,
}
impl Obs {
    pub fn nt(b: bool) -> Obs {
        Obs { nontrivial: b, ..Default::default() }
    }
    pub fn l(mut self, s: &'static str) -> Obs {
        self.labels.push(s);
        self
    }
    pub fn lif(mut self, b: bool, s: &'static str) -> Obs {
        if b {
            self.labels.push(s);
        }
        self
    }
    pub fn n(mut self, k: u64) -> Obs {
        self.inner += k;
        self
    }
}
pub type Res = Result<Obs, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = LAST_PANIC.try_with(|c| *c.borrow_mut() = format!("{m}{loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|c| c.borrow().clone())
}
/// Some(value) or None when the call panicked (= was refused)
pub fn attempt<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
/// Runs code of the library that must not panic.
pub fn guarded<C: ?Sized>(f: &dyn Fn(&C) -> Res, c: &C) -> Res {
    match catch_unwind(AssertUnwindSafe(|| f(c))) {
        Ok(r) => r,
        Err(_) => Err(format!("panicked: {}", last_panic())),
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Tier {
    Quick,
    Thorough,
}
#[derive(Default)]
pub struct Stats {
    pub evals: u64,
    pub cases: u64,
    pub nontrivial_cases: u64,
    pub distinct: HashSet<u64>,
    pub labels: BTreeMap<&'static str, u64>,
    pub samples: Vec<Value>,
    pub trivial_sample: Option<Value>,
}
impl Stats {
    fn see<C: Serialize>(&mut self, c: &C, o: &Obs) {
        self.cases += 1;
        self.evals += 1 + o.inner;
        for l in &o.labels {
            *self.labels.entry(l).or_insert(0) += 1;
        }
        if o.nontrivial {
            self.nontrivial_cases += 1;
            let s = serde_json::to_string(c).unwrap();
            let mut h = std::collections::hash_map::DefaultHasher::new();
            s.hash(&mut h);
            self.distinct.insert(h.finish());
            // keep a few spread-out samples
            if self.samples.len() < 2 && (self.nontrivial_cases % 37 == 5 || self.samples.is_empty()) && s.len() < 1500 {
                self.samples.push(serde_json::from_str(&s).unwrap());
            }
        } else if self.trivial_sample.is_none() {
            self.trivial_sample = serde_json::to_value(c).ok();
        }
    }
    fn merge(&mut self, o: Stats) {
        self.evals += o.evals;
        self.cases += o.cases;
        self.nontrivial_cases += o.nontrivial_cases;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_insert(0) += v;
        }
        for s in o.samples {
            if self.samples.len() < 3 {
                self.samples.push(s);
            }
        }
        if self.trivial_sample.is_none() {
            self.trivial_sample = o.trivial_sample;
        }
    }
}
pub struct Failure {
    pub case: Value,
    pub msg: String,
}
type ShardFn = Box<dyn Fn(&Cfg, usize, usize) -> (Stats, Option<Failure>) + Send + Sync>;
pub struct Clause {
    pub name: &'static str,
    pub run: ShardFn,
    pub replay: Box<dyn Fn(&Value) -> Result<Res, String> + Send + Sync>,
    pub shards: usize,
    /// run alone, after the parallel clauses (tests that use many threads or measure the process)
    pub exclusive: bool,
}
#[derive(Clone)]
pub struct Cfg {
    pub seed: u64,
    pub tier: Tier,
    pub prop: String,
    pub scale: f64,
    /// development aid: run every clause to the end and print every failure
    pub all: bool,
}
/// The case each worker is running, so that one that never ends can be reported.
type Active = BTreeMap<u64, (Instant, &'static str, String)>;
static ACTIVE: Mutex<Active> = Mutex::new(BTreeMap::new());
static TICKET: AtomicU64 = AtomicU64::new(0);
static SLOWEST_MS: AtomicU64 = AtomicU64::new(0);
pub fn slowest_ms() -> u64 {
    SLOWEST_MS.load(Ordering::Relaxed)
}
/// (clause, case) of some case that has been running for longer than `secs`
pub fn stuck(secs: u64) -> Option<(&'static str, String)> {
    let a = ACTIVE.lock().unwrap();
    a.values().find(|v| v.0.elapsed().as_secs() >= secs).map(|v| (v.1, v.2.clone()))
}
fn tracked<C: Serialize>(clause: &'static str, f: &dyn Fn(&C) -> Res, c: &C) -> Res {
    let js = serde_json::to_string(c).unwrap();
    let t = TICKET.fetch_add(1, Ordering::Relaxed);
    let t0 = Instant::now();
    if let Some(dir) = std::env::var_os("VERIF_TRACE") {
        // only after a run that died: leave the case behind before running it
        let v = json!({"clause": clause, "case": serde_json::from_str::<Value>(&js).unwrap()});
        let name = format!("{:?}", std::thread::current().id());
        let _ = std::fs::write(std::path::Path::new(&dir).join(name), v.to_string());
    }
    ACTIVE.lock().unwrap().insert(t, (t0, clause, js));
    let r = guarded(f, c);
    ACTIVE.lock().unwrap().remove(&t);
    SLOWEST_MS.fetch_max(t0.elapsed().as_millis() as u64, Ordering::Relaxed);
    r
}
fn seed_bytes(cfg: &Cfg, clause: &str, shard: usize) -> [u8; 32] {
    let mut out = [0u8; 32];
    let mut x: u64 = cfg.seed ^ 0x9e3779b97f4a7c15;
    for b in format!("{}|{}|{}|{}", cfg.prop, clause, shard, cfg.seed).bytes() {
        x = (x ^ b as u64).wrapping_mul(0x100000001b3).rotate_left(17) ^ 0xd6e8feb86659fd93;
    }
    for c in out.chunks_mut(8) {
        x = x.wrapping_add(0x9e3779b97f4a7c15);
        let mut y = x;
        y = (y ^ (y >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        y = (y ^ (y >> 27)).wrapping_mul(0x94d049bb133111eb);
        c.copy_from_slice(&(y ^ (y >> 31)).to_le_bytes());
    }
    out
}
fn mk_replay<C: DeserializeOwned>(
    test: Arc<dyn Fn(&C) -> Res + Send + Sync>,
) -> Box<dyn Fn(&Value) -> Result<Res, String> + Send + Sync>
where
    C: 'static,
{
    Box::new(move |v| {
        let c: C = serde_json::from_value(v.clone()).map_err(|e| e.to_string())?;
        Ok(guarded(&|c| test(c), &c))
    })
}
/// property-based clause; `quick`/`thorough` = total number of generated cases
pub fn pt<C, S, T>(name: &'static str, quick: u32, thorough: u32, strat: S, test: T) -> Clause
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Fn() -> BoxedStrategy<C> + Send + Sync + 'static,
    T: Fn(&C) -> Res + Send + Sync + 'static,
{
    let test: Arc<dyn Fn(&C) -> Res + Send + Sync> = Arc::new(test);
    let t2 = test.clone();
    Clause {
        name,
        shards: 16,
        exclusive: false,
        replay: mk_replay(test),
        run: Box::new(move |cfg, shard, shards| {
            let total = if cfg.tier == Tier::Quick { quick } else { thorough };
            let total = ((total as f64) * cfg.scale).ceil() as u32;
            let n = total / shards as u32 + ((shard as u32) < total % shards as u32) as u32;
            let st = RefCell::new(Stats::default());
            if n == 0 {
                return (st.into_inner(), None);
            }
            let failed = RefCell::new(false);
            let config = Config {
                cases: n,
                failure_persistence: None,
                max_shrink_iters: 4000,
                max_shrink_time: if cfg.all { 3_000 } else if cfg.tier == Tier::Quick { 40_000 } else { 120_000 },
                ..Config::default()
            };
            let mut r = TestRunner::new_with_rng(
                config,
                TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(cfg, name, shard)),
            );
            let res = r.run(&strat(), |c: C| match tracked(name, &|c| t2(c), &c) {
                Ok(o) => {
                    if !*failed.borrow() {
                        st.borrow_mut().see(&c, &o);
                    }
                    Ok(())
                }
                Err(m) => {
                    *failed.borrow_mut() = true;
                    Err(TestCaseError::fail(m))
                }
            });
            let f = match res {
                Ok(()) => None,
                Err(TestError::Fail(_, c)) => {
                    let msg = match guarded(&|c| t2(c), &c) {
                        Err(m) => m,
                        Ok(_) => "failure did not reproduce on the shrunk case".into(),
                    };
                    Some(Failure { case: serde_json::to_value(&c).unwrap(), msg })
                }
                Err(TestError::Abort(m)) => panic!("HARNESS: proptest aborted: {m}"),
            };
            (st.into_inner(), f)
        }),
    }
}
/// exhaustive clause over a finite list of cases
pub fn en<C, S, T>(name: &'static str, cases: S, test: T) -> Clause
where
    C: Serialize + DeserializeOwned + Debug + Clone + 'static,
    S: Fn(Tier) -> Vec<C> + Send + Sync + 'static,
    T: Fn(&C) -> Res + Send + Sync + 'static,
{
    let test: Arc<dyn Fn(&C) -> Res + Send + Sync> = Arc::new(test);
    let t2 = test.clone();
    Clause {
        name,
        shards: 16,
        exclusive: false,
        replay: mk_replay(test),
        run: Box::new(move |cfg, shard, shards| {
            let mut st = Stats::default();
            for (i, c) in cases(cfg.tier).into_iter().enumerate() {
                if i % shards != shard {
                    continue;
                }
                match tracked(name, &|c| t2(c), &c) {
                    Ok(o) => st.see(&c, &o),
                    Err(msg) => {
                        let case = serde_json::to_value(&c).unwrap();
                        return (st, Some(Failure { case, msg }));
                    }
                }
            }
            (st, None)
        }),
    }
}
impl Clause {
    pub fn alone(mut self) -> Clause {
        self.exclusive = true;
        self.shards = 1;
        self
    }
}

pub struct Property {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub clauses: Vec<Clause>,
}

pub fn run_property(p: &Property, cfg: &Cfg, threads: usize) -> (Value, Stats, Option<(String, Failure)>) {
    let mut jobs: Vec<(usize, usize)> = vec![];
    for (i, c) in p.clauses.iter().enumerate() {
        if !c.exclusive {
            for s in 0..c.shards {
                jobs.push((i, s));
            }
        }
    }
    // round robin over clauses so that long ones overlap; the failing job with the lowest
    // (clause, shard) is reported, whatever the thread timing
    jobs.sort_by_key(|&(c, s)| (s, c));
    let next = AtomicUsize::new(0);
    let best: Mutex<Option<(usize, usize)>> = Mutex::new(None);
    let results: Mutex<Vec<(usize, usize, Stats, Option<Failure>)>> = Mutex::new(vec![]);
    let harness_err: Mutex<Option<String>> = Mutex::new(None);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            sc.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::SeqCst);
                if k >= jobs.len() {
                    break;
                }
                let (ci, s) = jobs[k];
                // a job after the first failing one (in job order) cannot change the report
                if !cfg.all && best.lock().unwrap().map_or(false, |b| (b.1, b.0) < (s, ci)) {
                    continue;
                }
                let c = &p.clauses[ci];
                match catch_unwind(AssertUnwindSafe(|| (c.run)(cfg, s, c.shards))) {
                    Ok((st, f)) => {
                        if f.is_some() {
                            let mut b = best.lock().unwrap();
                            if b.map_or(true, |b| (s, ci) < (b.1, b.0)) {
                                *b = Some((ci, s));
                            }
                        }
                        results.lock().unwrap().push((ci, s, st, f));
                    }
                    Err(_) => {
                        *harness_err.lock().unwrap() = Some(format!("{}: {}", c.name, last_panic()));
                    }
                }
            });
        }
    });
    if let Some(e) = harness_err.into_inner().unwrap() {
        eprintln!("HARNESS ERROR {e}");
        std::process::exit(3);
    }
    let mut results = results.into_inner().unwrap();
    for (ci, c) in p.clauses.iter().enumerate() {
        if c.exclusive && (cfg.all || best.lock().unwrap().is_none()) {
            let (st, f) = (c.run)(cfg, 0, 1);
            let bad = f.is_some();
            results.push((ci, 0, st, f));
            if bad && !cfg.all {
                break;
            }
        }
    }
    results.sort_by_key(|r| (r.1, r.0));
    let mut per: Vec<Stats> = p.clauses.iter().map(|_| Stats::default()).collect();
    let mut seen = vec![false; p.clauses.len()];
    let mut fail: Option<(String, Failure)> = None;
    for (ci, _, st, f) in results {
        per[ci].merge(st);
        if let (true, Some(f)) = (cfg.all && !seen[ci], &f) {
            seen[ci] = true;
            println!("FAIL {}: {}\n     {}", p.clauses[ci].name, f.msg, f.case);
        }
        if let (Some(f), true) = (f, fail.is_none()) {
            fail = Some((p.clauses[ci].name.to_string(), f));
        }
    }
    let mut total = Stats::default();
    let mut detail = vec![];
    for (c, st) in p.clauses.iter().zip(per) {
        detail.push(json!({"clause": c.name, "cases": st.cases, "evaluations": st.evals,
            "nontrivial": st.nontrivial_cases, "distinct_nontrivial": st.distinct.len(),
            "labels": st.labels}));
        for s in st.samples.iter().take(2) {
            total.samples.push(json!({"clause": c.name, "case": s}));
        }
        total.evals += st.evals;
        total.cases += st.cases;
        total.nontrivial_cases += st.nontrivial_cases;
        let name = c.name;
        total.distinct.extend(st.distinct.iter().map(|h| {
            let mut x = std::collections::hash_map::DefaultHasher::new();
            (name, h).hash(&mut x);
            x.finish()
        }));
    }
    (Value::Array(detail), total, fail)
}

pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}
