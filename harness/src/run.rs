//! Runs one property: a list of named sub-checks, each a strategy and a predicate, sharded over threads with
//! deterministic seeds. A failing case is shrunk, written to a replay file and reported.
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, RngSeed, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;

pub type Res = Result<(), String>;

pub fn fail<T>(s: impl Into<String>) -> Result<T, String> {
    Err(s.into())
}

#[derive(Default)]
pub struct Obs {
    labels: Vec<&'static str>,
    nontrivial: bool,
    skipped: bool,
}

impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
    /// The case exercises what the property is about, by the rule stated with the sub-check.
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// The case lies outside the domain and was not judged.
    pub fn skip(&mut self) {
        self.skipped = true;
    }
}

#[derive(Default)]
struct Stats {
    evaluations: u64,
    skipped: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<String>,
}

pub enum Mode {
    Run,
    Replay { sub: String, case: String },
}

pub struct Ctx {
    pub prop: String,
    pub tier_thorough: bool,
    pub seed: u64,
    pub build: String,
    pub shards: usize,
    /// divides the case counts
    pub div: u64,
    pub mult: u64,
    pub mode: Mode,
    pub only: Option<String>,
    pub out: Option<PathBuf>,
    pub replay_dir: PathBuf,
    pub journal: Option<PathBuf>,
    subs: Vec<serde_json::Value>,
    total: (u64, u64),
    pub violated: bool,
    found: bool,
    known: Vec<String>,
}

thread_local! {
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.to_string().replace('\n', " ");
        PANIC.with(|p| *p.borrow_mut() = msg.clone());
        *LAST_PANIC.lock().unwrap() = msg;
    }));
}

/// Run `f`; a panic becomes Err with its message and place.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC.with(|p| p.borrow_mut().clear());
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(e) => {
            let own = PANIC.with(|p| p.borrow().clone());
            if !own.is_empty() {
                return Err(own);
            }
            let text = e
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_else(|| LAST_PANIC.lock().unwrap().clone());
            Err(format!("panicked in a worker thread: {text}"))
        }
    }
}

/// A case that is still being judged after this many seconds (of a process that is running) is taken for endless.
/// Ordinary cases take milliseconds, the largest ones a few seconds.
const ENDLESS_S: u64 = 100;
/// Exit code that tells check.py that `hang.json` in the journal holds an endless case.
pub const ENDLESS_CODE: i32 = 77;

struct Watched {
    since: u64,
    sub: String,
    case: String,
}
static WATCHED: [Mutex<Option<Watched>>; 64] = [const { Mutex::new(None) }; 64];
static TICKS: AtomicU64 = AtomicU64::new(0);

fn watch(shard: usize, sub: &str, case: String) {
    let since = TICKS.load(Ordering::Relaxed);
    *WATCHED[shard % 64].lock().unwrap() = Some(Watched { since, sub: sub.into(), case });
}

fn unwatch(shard: usize) -> String {
    WATCHED[shard % 64].lock().unwrap().take().map(|w| w.case).unwrap_or_default()
}

fn start_watchdog(journal: Option<PathBuf>) {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(move || {
        std::thread::spawn(move || loop {
            // ticks rather than a clock: time in which this process does not run does not count
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = TICKS.fetch_add(1, Ordering::Relaxed) + 1;
            for w in &WATCHED {
                let w = w.lock().unwrap();
                if let Some(w) = w.as_ref().filter(|w| now - w.since > ENDLESS_S) {
                    if let Some(j) = &journal {
                        std::fs::create_dir_all(j).ok();
                        std::fs::write(j.join("hang.json"), format!("{{\"sub\":\"{}\",\"case\":{}}}", w.sub, w.case)).ok();
                    }
                    eprintln!("{}: a case does not end within {ENDLESS_S} s", w.sub);
                    std::process::exit(ENDLESS_CODE);
                }
            }
        });
    });
}

fn judge<V: Sync>(f: &(dyn Fn(&V, &mut Obs) -> Res + Sync), v: &V, o: &mut Obs) -> Res {
    match no_panic(|| f(v, o)) {
        Ok(r) => r,
        Err(p) => Err(format!("panic: {p}")),
    }
}

fn hash(s: &[u8]) -> u64 {
    crate::model::digest(s)
}

impl Ctx {
    pub fn from_args(args: &[String]) -> Ctx {
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let tier = get("--tier").unwrap_or_else(|| "quick".into());
        let replay_dir = PathBuf::from(get("--replays").unwrap_or_else(|| "/verif/replays".into()));
        let mode = match get("--replay") {
            None => Mode::Run,
            Some(f) => {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).expect("replay file")).expect("json");
                Mode::Replay { sub: v["sub"].as_str().unwrap().into(), case: v["case"].to_string() }
            }
        };
        Ctx {
            prop: args.get(1).cloned().unwrap_or_default(),
            tier_thorough: tier == "thorough",
            seed,
            build: get("--build").unwrap_or_else(|| "release".into()),
            shards: get("--shards").and_then(|s| s.parse().ok()).unwrap_or(8),
            div: get("--div").and_then(|s| s.parse().ok()).unwrap_or(1),
            mult: get("--mult").and_then(|s| s.parse().ok()).unwrap_or(1),
            mode,
            only: get("--only"),
            out: get("--out").map(PathBuf::from),
            replay_dir,
            journal: get("--journal").map(PathBuf::from),
            subs: vec![],
            total: (0, 0),
            violated: false,
            found: false,
            known: vec![],
        }
    }

    fn report(&mut self, sub: &str, case: serde_json::Value, why: &str) {
        self.violated = true;
        std::fs::create_dir_all(&self.replay_dir).ok();
        let body = serde_json::json!({
            "property": self.prop, "sub": sub, "build": self.build, "seed": self.seed, "why": why, "case": case,
        });
        let text = serde_json::to_string(&body).unwrap();
        let path = self.replay_dir.join(format!("{}-{}-{:016x}.json", self.prop, sub, hash(text.as_bytes())));
        std::fs::write(&path, text).ok();
        println!("  {} / {} [{}]: {}", self.prop, sub, self.build, why.chars().take(1500).collect::<String>());
        println!("VIOLATION property={} replay={}", self.prop, path.display());
        std::io::stdout().flush().ok();
    }

    /// Report a known finding that still fails; it is not a violation.
    pub fn known_finding(&mut self, what: &str) {
        println!("KNOWN-FINDING: property={} {}", self.prop, what);
        self.known.push(what.into());
    }

    /// True when this sub-check is to be run now (rather than another one being replayed or selected).
    fn wanted(&self, sub: &str) -> bool {
        match &self.mode {
            Mode::Replay { sub: s, .. } => s == sub,
            Mode::Run => self.only.as_ref().map_or(true, |o| o.split(',').any(|x| x == sub)),
        }
    }

    pub fn replaying(&self) -> bool {
        matches!(self.mode, Mode::Replay { .. })
    }

    /// `cases`: number of cases in the quick tier with the release build.
    pub fn check<S, F>(&mut self, sub: &'static str, rule: &str, cases: u64, strategy: impl Fn() -> S + Sync, f: F)
    where
        S: Strategy,
        S::Value: Serialize + DeserializeOwned + Clone + Sync + 'static,
        F: Fn(&S::Value, &mut Obs) -> Res + Sync,
    {
        if !self.wanted(sub) || self.violated {
            return;
        }
        if let Mode::Replay { case, .. } = &self.mode {
            self.found = true;
            let v: S::Value = serde_json::from_str(case).expect("case");
            let r = judge(&f, &v, &mut Obs::default());
            let raw = serde_json::from_str(case).unwrap();
            match r {
                Err(why) => self.report(sub, raw, &why),
                Ok(()) => println!("replay: {sub} holds on this case"),
            }
            return;
        }
        start_watchdog(self.journal.clone());
        let factor = if self.tier_thorough { 12 } else { 1 };
        let cases = (cases * factor * self.mult / self.div).max(8);
        let t0 = std::time::Instant::now();
        let shards = self.shards.max(1) as u64;
        let stop = AtomicBool::new(false);
        let stats = Mutex::new(Stats::default());
        type Found = (u64, serde_json::Value, String);
        let failures: Mutex<Vec<Found>> = Mutex::new(vec![]);
        // 64 fixed streams of cases whatever the number of threads, so that a run depends on the seed alone
        let streams = 64u64.min(cases / 8).max(1);
        let next = AtomicUsize::new(0);
        std::thread::scope(|sc| {
            for shard in 0..shards {
                let (stop, stats, failures, f, strategy, next) = (&stop, &stats, &failures, &f, &strategy, &next);
                let (prop, seed, build) = (self.prop.clone(), self.seed, self.build.clone());
                let journal = self.journal.clone();
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, move || {
                        let jf = journal.map(|j| {
                            std::fs::create_dir_all(&j).ok();
                            std::fs::File::create(j.join(format!("{shard}.json"))).unwrap()
                        });
                        // the library's parallel loops run in a small pool of the shard's own: one to three threads
                        let pool = rayon::ThreadPoolBuilder::new()
                            .num_threads(1 + shard as usize % 3)
                            .stack_size(64 << 20)
                            .build()
                            .unwrap();
                        loop {
                            let k = next.fetch_add(1, Ordering::SeqCst) as u64;
                            if k >= streams || stop.load(Ordering::SeqCst) {
                                return;
                            }
                            let n = cases / streams + (k < cases % streams) as u64;
                            let key = format!("{prop}/{sub}/{build}/{seed}/{k}");
                            let mut bytes = [0u8; 32];
                            for (i, c) in bytes.chunks_mut(8).enumerate() {
                                c.copy_from_slice(&hash(format!("{key}/{i}").as_bytes()).to_le_bytes());
                            }
                            let cfg = Config {
                                cases: n as u32,
                                failure_persistence: None,
                                max_shrink_iters: 3000,
                                max_shrink_time: 60_000,
                                rng_seed: RngSeed::Fixed(hash(key.as_bytes())),
                                ..Config::default()
                            };
                            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
                            let mut runner = TestRunner::new_with_rng(cfg, rng);
                            let strat = strategy();
                            let local = RefCell::new(Stats::default());
                            let r = runner.run(&strat, |v| {
                                if stop.load(Ordering::SeqCst) {
                                    return Ok(());
                                }
                                let text = serde_json::to_string(&v).unwrap();
                                if let Some(j) = &jf {
                                    let body = format!("{{\"sub\":\"{sub}\",\"case\":{text}}}");
                                    j.write_all_at(body.as_bytes(), 0).ok();
                                    j.set_len(body.len() as u64).ok();
                                }
                                let mut o = Obs::default();
                                watch(shard as usize, sub, text);
                                let res = pool.install(|| judge(f, &v, &mut o));
                                let text = unwatch(shard as usize);
                                let mut l = local.borrow_mut();
                                l.evaluations += 1;
                                l.skipped += o.skipped as u64;
                                for x in o.labels {
                                    *l.labels.entry(x).or_default() += 1;
                                }
                                if o.nontrivial && !o.skipped {
                                    let fresh = l.distinct.insert(hash(text.as_bytes()));
                                    if fresh && k < 3 && l.samples.is_empty() && l.evaluations > 3 && text.len() < 1500 {
                                        l.samples.push(text);
                                    }
                                }
                                res.map_err(TestCaseError::fail)
                            });
                            let l = local.into_inner();
                            {
                                let mut s = stats.lock().unwrap();
                                s.evaluations += l.evaluations;
                                s.skipped += l.skipped;
                                s.distinct.extend(l.distinct);
                                for (a, b) in l.labels {
                                    *s.labels.entry(a).or_default() += b;
                                }
                                s.samples.extend(l.samples);
                            }
                            match r {
                                Ok(()) => {}
                                Err(TestError::Fail(why, v)) => {
                                    stop.store(true, Ordering::SeqCst);
                                    failures.lock().unwrap().push((k, serde_json::to_value(&v).unwrap(), why.to_string()));
                                }
                                Err(TestError::Abort(why)) => {
                                    eprintln!("generator error in {sub}: {why}");
                                    std::process::exit(3);
                                }
                            }
                        }
                    })
                    .unwrap();
            }
        });
        let s = stats.into_inner().unwrap();
        let mut fl = failures.into_inner().unwrap();
        fl.sort_by_key(|x| x.0);
        self.total.0 += s.evaluations;
        self.total.1 += s.distinct.len() as u64;
        println!(
            "{} {} [{}]: {} cases, {} distinct non-trivial, {} outside the domain, {:.1} s",
            self.prop, sub, self.build, s.evaluations, s.distinct.len(), s.skipped, t0.elapsed().as_secs_f64()
        );
        let mut samples = s.samples;
        samples.sort();
        samples.truncate(2);
        self.subs.push(serde_json::json!({
            "sub_check": sub, "build": self.build, "evaluations": s.evaluations, "distinct_nontrivial": s.distinct.len(),
            "outside_domain": s.skipped, "rule": rule, "classes": s.labels, "samples": samples,
            "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
        if let Some((_, v, why)) = fl.into_iter().next() {
            self.report(sub, v, &why);
        }
    }

    /// A fixed list of cases (regressions and boundary cases written out), judged like generated ones.
    pub fn fixed<V, F>(&mut self, sub: &'static str, rule: &str, cases: Vec<V>, f: F)
    where
        V: Serialize + DeserializeOwned + Clone + Sync,
        F: Fn(&V, &mut Obs) -> Res + Sync,
    {
        if !self.wanted(sub) || self.violated {
            return;
        }
        if let Mode::Replay { case, .. } = &self.mode {
            self.found = true;
            let v: V = serde_json::from_str(case).expect("case");
            let raw = serde_json::from_str(case).unwrap();
            match judge(&f, &v, &mut Obs::default()) {
                Err(why) => self.report(sub, raw, &why),
                Ok(()) => println!("replay: {sub} holds on this case"),
            }
            return;
        }
        start_watchdog(self.journal.clone());
        let t0 = std::time::Instant::now();
        let mut distinct = HashSet::new();
        let mut n = 0u64;
        let mut labels: BTreeMap<&'static str, u64> = BTreeMap::new();
        for v in &cases {
            let text = serde_json::to_string(v).unwrap();
            if let Some(j) = &self.journal {
                std::fs::create_dir_all(j).ok();
                std::fs::write(j.join("0.json"), format!("{{\"sub\":\"{sub}\",\"case\":{text}}}")).ok();
            }
            let mut o = Obs::default();
            n += 1;
            watch(0, sub, text);
            let r = judge(&f, v, &mut o);
            let text = unwatch(0);
            for x in o.labels {
                *labels.entry(x).or_default() += 1;
            }
            if o.nontrivial {
                distinct.insert(hash(text.as_bytes()));
            }
            if let Err(why) = r {
                self.report(sub, serde_json::to_value(v).unwrap(), &why);
                break;
            }
        }
        self.total.0 += n;
        self.total.1 += distinct.len() as u64;
        println!("{} {} [{}]: {} fixed cases, {:.1} s", self.prop, sub, self.build, n, t0.elapsed().as_secs_f64());
        let samples: Vec<String> =
            cases.iter().take(1).map(|v| serde_json::to_string(v).unwrap()).filter(|s| s.len() < 1500).collect();
        self.subs.push(serde_json::json!({
            "sub_check": sub, "build": self.build, "evaluations": n, "distinct_nontrivial": distinct.len(),
            "rule": rule, "classes": labels, "samples": samples,
            "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        }));
    }

    /// Write the partial evidence and return the exit code.
    pub fn finish(self) -> i32 {
        if self.replaying() && !self.found {
            eprintln!("replay: no such sub-check here");
            return 4;
        }
        if let Some(p) = &self.out {
            let v = serde_json::json!({
                "build": self.build, "evaluations": self.total.0, "distinct_nontrivial": self.total.1,
                "sub_checks": self.subs, "violations": self.violated as u32, "known": self.known,
            });
            std::fs::write(p, serde_json::to_string(&v).unwrap()).ok();
        }
        if self.violated {
            1
        } else {
            0
        }
    }
}

/// Generate one value (for helpers that need values outside a run).
pub fn generate<S: Strategy>(s: &S, seed: u64) -> S::Value {
    let mut bytes = [0u8; 32];
    for (i, c) in bytes.chunks_mut(8).enumerate() {
        c.copy_from_slice(&crate::content::mix(seed ^ (i as u64) << 32).to_le_bytes());
    }
    let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &bytes);
    let mut r = TestRunner::new_with_rng(Config::default(), rng);
    s.new_tree(&mut r).unwrap().current()
}
