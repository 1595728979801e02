//! Custom driver around proptest: deterministic seeds, shards, replay files, evidence.
use proptest::{
    strategy::{BoxedStrategy, Strategy},
    test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner},
};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::{
    cell::RefCell,
    collections::{BTreeMap, HashSet},
    fmt::Debug,
    hash::{Hash, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Mutex,
    },
    time::Instant,
};

/// What a successful check reports about its case
#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    pub labels: Vec<String>,
}
impl Info {
    pub fn new(nontrivial: bool) -> Self {
        Info { nontrivial, labels: vec![] }
    }
    pub fn label(mut self, l: impl Into<String>) -> Self {
        self.labels.push(l.into());
        self
    }
    pub fn label_if(self, c: bool, l: &str) -> Self {
        if c {
            self.label(l)
        } else {
            self
        }
    }
}
pub type Outcome = Result<Info, String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr) => { if !($c) { return Err(format!("{}:{}: not satisfied: {}", file!(), line!(), stringify!($c))); } };
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!("{}:{}: {}", file!(), line!(), format!($($a)*))); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr) => { $crate::ensure_eq!($a, $b, "") };
    ($a:expr, $b:expr, $($m:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err(format!("{}:{}: {} != {}: {:.300?} vs {:.300?} {}", file!(), line!(), stringify!($a), stringify!($b), a, b, format!($($m)*)));
        }
    }};
}
/// Unwrap a `Result` of the code under test that has to be `Ok`
#[macro_export]
macro_rules! must {
    ($e:expr) => { match $e { Ok(x) => x, Err(e) => return Err(format!("{}:{}: {} returned error {:?}", file!(), line!(), stringify!($e), e)) } };
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(true) };
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(s.clone());
        LAST_PANIC.with(|l| *l.borrow_mut() = Some(s));
    }));
}

/// Run the closure, turning a panic into an Err with its message
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| {
        let m = LAST_PANIC
            .with(|l| l.borrow_mut().take())
            .or_else(|| ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone())
            .unwrap_or_default();
        format!("panic: {m}")
    })
}

struct Evidence {
    evaluations: u64,
    shrink_evals: u64,
    distinct: HashSet<u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    known: BTreeMap<String, u64>,
}

pub struct Prop {
    id: &'static str,
    title: &'static str,
    pub seed: u64,
    pub thorough: bool,
    replay: Option<(String, serde_json::Value)>,
    regress: Vec<(PathBuf, String, serde_json::Value)>,
    parts: Vec<(String, Evidence, String)>,
    start: Instant,
    known: Vec<(String, String)>,
    only: Option<String>,
    scale: f64,
    assumptions: Vec<String>,
    replay_hit: bool,
}

#[derive(Serialize, Deserialize)]
struct ReplayFile {
    property: String,
    part: String,
    failure: String,
    case: serde_json::Value,
}

fn mix(parts: &[&str], a: u64, b: u64) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut h = Fnv(0xcbf29ce484222325 ^ i.wrapping_mul(0x9E3779B97F4A7C15));
        for p in parts {
            p.as_bytes().hash(&mut h);
        }
        a.hash(&mut h);
        b.hash(&mut h);
        let mut z = h.finish();
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        out[i as usize * 8..][..8].copy_from_slice(&(z ^ (z >> 31)).to_le_bytes());
    }
    out
}
/// Stable hasher (std's is not guaranteed to be stable)
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
pub fn fnv(b: &[u8]) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    h.write(b);
    let z = h.0;
    (z ^ (z >> 29)).wrapping_mul(0xbf58476d1ce4e5b9)
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

pub static PROGRESS: AtomicU64 = AtomicU64::new(0);

impl Prop {
    pub fn new(id: &'static str, title: &'static str) -> Self {
        install_hook();
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
        let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
        let mut args = std::env::args().skip(1);
        let mut replay = None;
        let mut only = None;
        while let Some(a) = args.next() {
            match a.as_str() {
                "--replay" => {
                    let f = args.next().expect("--replay FILE");
                    let r: ReplayFile = serde_json::from_str(&std::fs::read_to_string(&f).expect("read replay file"))
                        .expect("parse replay file");
                    assert_eq!(r.property, id, "replay file is for another property");
                    replay = Some((r.part, r.case));
                }
                "--part" => only = args.next(),
                x => panic!("unknown argument {x}"),
            }
        }
        let mut regress = vec![];
        if let Ok(d) = std::fs::read_dir(verif_dir().join("harness/regress")) {
            let mut files: Vec<_> = d.filter_map(|e| e.ok()).map(|e| e.path()).collect();
            files.sort();
            for f in files {
                let name = f.file_name().unwrap().to_string_lossy().to_string();
                if name.starts_with(id) && name.ends_with(".json") {
                    let r: ReplayFile = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).expect("regress file");
                    regress.push((f, r.part, r.case));
                }
            }
        }
        // lines "known: property=<id> sig=<signature> <text>"
        let known = std::fs::read_to_string(verif_dir().join("known_findings.txt"))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let l = l.strip_prefix("known: property=")?;
                let (p, rest) = l.split_once(' ')?;
                let (sig, text) = rest.strip_prefix("sig=")?.split_once(' ')?;
                (p == id).then(|| (sig.to_string(), text.to_string()))
            })
            .collect();
        // A hang is no verdict: leave with an error exit
        let limit: u64 = std::env::var("DSV_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 6 * 3600 } else { 780 });
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            eprintln!("watchdog: no verdict after {limit} s");
            std::process::exit(3);
        });
        let scale = std::env::var("DSV_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
        Prop {
            id,
            title,
            seed,
            thorough,
            replay,
            regress,
            parts: vec![],
            start: Instant::now(),
            known,
            only,
            scale,
            assumptions: vec![],
            replay_hit: false,
        }
    }

    pub fn assume(&mut self, s: &str) {
        self.assumptions.push(s.to_string());
    }

    /// One generated check. `quick`/`thorough` are numbers of cases.
    pub fn part<C, M, F>(&mut self, name: &str, rule: &str, quick: u32, thorough: u32, mk: M, check: F)
    where
        C: Serialize + DeserializeOwned + Debug + Clone + Send + 'static,
        M: Fn() -> BoxedStrategy<C> + Sync,
        F: Fn(&C) -> Outcome + Sync,
    {
        let known_sigs: Vec<String> = self.known.iter().map(|k| k.0.clone()).collect();
        let run = |c: &C| -> Outcome {
            match no_panic(|| check(c)) {
                Ok(r) => r,
                Err(p) => Err(p),
            }
        };
        if let Some((p, case)) = &self.replay {
            if p == name {
                self.replay_hit = true;
                let c: C = serde_json::from_value(case.clone()).expect("case does not fit the part");
                match run(&c) {
                    Ok(_) => {
                        println!("replay: property {} part {} holds on this case", self.id, name);
                        std::process::exit(0);
                    }
                    Err(e) => {
                        if let Some(k) = known_sigs.iter().find(|s| e.contains(&format!("[{s}]"))) {
                            println!("KNOWN-FINDING: property={} {}", self.id, k);
                            std::process::exit(0);
                        }
                        println!("replay: property {} part {}: {}", self.id, name, e);
                        std::process::exit(1);
                    }
                }
            }
            return;
        }
        if self.only.as_ref().is_some_and(|o| o != name) {
            return;
        }
        let t0 = Instant::now();
        let ev = Mutex::new(Evidence {
            evaluations: 0,
            shrink_evals: 0,
            distinct: HashSet::new(),
            labels: BTreeMap::new(),
            samples: vec![],
            known: BTreeMap::new(),
        });
        let stop = AtomicBool::new(false);
        let failure: Mutex<Option<(C, String)>> = Mutex::new(None);
        let eval = |c: &C, failed_here: &std::cell::Cell<bool>| -> Result<(), String> {
            let r = run(c);
            PROGRESS.fetch_add(1, Ordering::Relaxed);
            let mut e = ev.lock().unwrap();
            if failed_here.get() {
                e.shrink_evals += 1;
            } else {
                e.evaluations += 1;
            }
            match r {
                Ok(i) => {
                    if !failed_here.get() {
                        if i.nontrivial {
                            let s = serde_json::to_vec(c).unwrap();
                            e.distinct.insert(fnv(&s));
                            if e.samples.len() < 2 && s.len() < 3000 {
                                e.samples.push(serde_json::to_value(c).unwrap());
                            }
                        } else {
                            *e.labels.entry("trivial".into()).or_default() += 1;
                        }
                        for l in i.labels {
                            *e.labels.entry(l).or_default() += 1;
                        }
                    }
                    Ok(())
                }
                Err(m) => {
                    if let Some(k) = known_sigs.iter().find(|s| m.contains(&format!("[{s}]"))) {
                        *e.known.entry(k.clone()).or_default() += 1;
                        return Ok(());
                    }
                    Err(m)
                }
            }
        };
        // saved cases first
        for (f, p, case) in &self.regress {
            if p == name {
                if let Ok(c) = serde_json::from_value::<C>(case.clone()) {
                    let cell = std::cell::Cell::new(false);
                    if let Err(m) = eval(&c, &cell) {
                        *failure.lock().unwrap() = Some((c, format!("{m} (saved case {})", f.display())));
                    }
                } else {
                    panic!("saved case {} does not fit part {}", f.display(), name);
                }
            }
        }
        let cases = ((if self.thorough { thorough } else { quick }) as f64 * self.scale).ceil() as u32;
        let shards = 8u32.min(cases).max(1);
        if failure.lock().unwrap().is_none() {
            std::thread::scope(|sc| {
                for sh in 0..shards {
                    let n = cases / shards + u32::from(sh < cases % shards);
                    let (mk, eval, stop, failure) = (&mk, &eval, &stop, &failure);
                    let (id, seed) = (self.id, self.seed);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(sc, move || {
                            let cfg = Config {
                                cases: n,
                                failure_persistence: None,
                                max_shrink_iters: 2000,
                                max_shrink_time: 40_000,
                                max_global_rejects: 1 << 20,
                                max_local_rejects: 1 << 20,
                                ..Config::default()
                            };
                            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &mix(&[id, name], seed, sh as u64));
                            let mut tr = TestRunner::new_with_rng(cfg, rng);
                            let failed = std::cell::Cell::new(false);
                            let last = RefCell::new(String::new());
                            let strat = mk();
                            let r = tr.run(&strat, |c| {
                                if stop.load(Ordering::Relaxed) && !failed.get() {
                                    return Ok(());
                                }
                                match eval(&c, &failed) {
                                    Ok(()) => Ok(()),
                                    Err(m) => {
                                        if !failed.get() {
                                            if stop.swap(true, Ordering::Relaxed) {
                                                // another shard is already shrinking its failure
                                                return Ok(());
                                            }
                                            failed.set(true);
                                        }
                                        *last.borrow_mut() = m.clone();
                                        Err(TestCaseError::fail(m))
                                    }
                                }
                            });
                            match r {
                                Ok(()) => {}
                                Err(TestError::Fail(reason, c)) => {
                                    *failure.lock().unwrap() = Some((c, reason.message().to_string()));
                                }
                                Err(TestError::Abort(r)) => {
                                    eprintln!("{id}/{name}: generator aborted: {r}");
                                    std::process::exit(4);
                                }
                            }
                        })
                        .unwrap();
                }
            });
        }
        let e = ev.into_inner().unwrap();
        let secs = t0.elapsed().as_secs_f64();
        println!(
            "{} {}: {} cases, {} distinct non-trivial, {:.1} s {:?}",
            self.id, name, e.evaluations, e.distinct.len(), secs, e.labels
        );
        let failed = failure.into_inner().unwrap();
        let nt = e.distinct.len();
        self.parts.push((name.to_string(), e, rule.to_string()));
        if let Some((c, m)) = failed {
            self.violation(name, serde_json::to_value(&c).unwrap(), &m);
        }
        if nt == 0 {
            eprintln!("{}/{}: no non-trivial case generated", self.id, name);
            std::process::exit(5);
        }
    }

    fn violation(&mut self, part: &str, case: serde_json::Value, m: &str) -> ! {
        let dir = verif_dir().join("replays");
        let _ = std::fs::create_dir_all(&dir);
        let body = serde_json::to_string_pretty(&ReplayFile {
            property: self.id.into(),
            part: part.into(),
            failure: m.to_string(),
            case,
        })
        .unwrap();
        let path = dir.join(format!("{}-{}-{:016x}.json", self.id, part, fnv(body.as_bytes())));
        std::fs::write(&path, body).expect("write replay file");
        println!("{} {}: {}", self.id, part, m);
        self.write_evidence(1);
        println!("VIOLATION property={} replay={}", self.id, path.display());
        std::process::exit(1);
    }

    fn write_evidence(&self, violations: u64) {
        let evals: u64 = self.parts.iter().map(|p| p.1.evaluations).sum();
        let distinct: u64 = self.parts.iter().map(|p| p.1.distinct.len() as u64).sum();
        let parts: Vec<_> = self
            .parts
            .iter()
            .map(|(n, e, r)| {
                serde_json::json!({"part": n, "rule": r, "evaluations": e.evaluations, "distinct_nontrivial": e.distinct.len(),
                    "shrink_evaluations": e.shrink_evals, "labels": e.labels})
            })
            .collect();
        let samples: Vec<_> = self
            .parts
            .iter()
            .flat_map(|(n, e, _)| e.samples.iter().map(move |s| serde_json::json!({"part": n, "case": s})))
            .collect();
        let known: BTreeMap<&String, u64> = self.parts.iter().flat_map(|p| p.1.known.iter().map(|(k, v)| (k, *v))).collect();
        let rule = self.parts.iter().map(|(n, _, r)| format!("[{n}] {r}")).collect::<Vec<_>>().join("; ");
        let j = serde_json::json!({
            "property": self.id,
            "tier": if self.thorough { "thorough" } else { "quick" },
            "seed": self.seed,
            "level": "exploration",
            "coverage": {
                "title": self.title,
                "evaluations": evals,
                "distinct_nontrivial": distinct,
                "rule": rule,
                "samples": samples,
                "parts": parts,
                "known_findings_hit": known,
            },
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": violations,
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&j).unwrap()).expect("write evidence");
    }

    pub fn finish(self) -> ! {
        if let Some((p, _)) = &self.replay {
            if !self.replay_hit {
                eprintln!("no part named {p}");
                std::process::exit(2);
            }
        }
        for (sig, text) in &self.known {
            let hit: u64 = self.parts.iter().filter_map(|p| p.1.known.get(sig)).sum();
            if hit > 0 {
                println!("KNOWN-FINDING: property={} {} ({} cases)", self.id, text, hit);
            }
        }
        self.write_evidence(0);
        println!("{} holds on everything explored ({:.1} s)", self.id, self.start.elapsed().as_secs_f64());
        std::process::exit(0);
    }
}

/// Convenience: box a strategy
pub fn bx<S: Strategy + 'static>(s: S) -> BoxedStrategy<S::Value> {
    s.boxed()
}
