//! The search driver: deterministic case generation with proptest strategies, parallel
//! evaluation, shrinking, replay files and evidence.

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// What one evaluation reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub excluded: bool,
    /// library calls compared with the oracle
    pub comparisons: u64,
}

impl Ctx {
    pub fn label(&mut self, s: impl Into<String>) {
        self.labels.push(s.into());
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// The case is outside of the domain of the property (counted, never silently dropped).
    pub fn exclude(&mut self, why: &str) {
        self.excluded = true;
        self.labels.push(format!("excluded: {why}"));
    }
}

pub trait Prop: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + Send;
    fn id(&self) -> &'static str;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn cases(&self, tier: Tier) -> usize;
    /// Strategy of the `idx`-th case; small dimensions are stratified over `idx`.
    fn strategy(&self, idx: usize, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn check(&self, case: &Self::Case, ctx: &mut Ctx) -> Result<(), String>;
    fn threads(&self) -> usize {
        8
    }
    /// Seconds of processor time after which a single case (usually milliseconds, at most a few
    /// seconds) has failed because it does not return.
    fn cpu_limit(&self) -> u64 {
        90
    }
    /// Seconds of wall time after which the run is given up without a verdict.
    fn case_limit(&self) -> u64 {
        600
    }
}

pub struct Opts {
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub limit: Option<usize>,
    pub start: usize,
    pub quiet: bool,
    /// do not stop at failures, count them by label (for exploring a domain)
    pub survey: bool,
}

pub trait AnyProp: Sync {
    fn id(&self) -> &'static str;
    fn run(&self, o: &Opts) -> i32;
    fn replay(&self, case: serde_json::Value) -> Result<(), String>;
    /// The case a byte string stands for: the same generators, fed with these bytes instead of
    /// random numbers. The first two bytes stand for the index.
    fn fuzz(&self, data: &[u8], o: &Opts) -> Fuzzed;
    fn fuzz_case(&self, data: &[u8], o: &Opts) -> Option<serde_json::Value>;
    /// The idx-th generated case.
    fn dump(&self, idx: usize, o: &Opts) -> serde_json::Value;
}

pub enum Fuzzed {
    /// the bytes do not make a case
    Nothing,
    /// the hash of the case, if it is one that counts
    Fine(Option<u64>),
    /// already reported
    Violation,
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some((msg, loc)));
    }));
}

pub fn last_panic() -> (String, String) {
    LAST_PANIC
        .with(|p| p.borrow_mut().take())
        .unwrap_or_default()
}

/// A panic raised by the harness's own code is an error of the check, not a violation.
fn harness_location(loc: &str) -> bool {
    loc.starts_with("src/") || loc.starts_with("harness/") || loc.starts_with("/verif/")
}

fn guarded<P: Prop>(p: &P, case: &P::Case, ctx: &mut Ctx) -> Result<(), String> {
    match catch_unwind(AssertUnwindSafe(|| p.check(case, ctx))) {
        Ok(r) => r,
        Err(_) => {
            let (msg, loc) = last_panic();
            if harness_location(&loc) {
                eprintln!("HARNESS ERROR: panic in the harness at {loc}: {msg}\ncase {case:?}");
                std::process::exit(3);
            }
            Err(format!("panic at {loc}: {msg}"))
        }
    }
}

fn runner_for(seed: u64, id: &str, idx: usize) -> TestRunner {
    let mut bytes = [0u8; 32];
    bytes[..8].copy_from_slice(&seed.to_le_bytes());
    bytes[8..16].copy_from_slice(&(idx as u64).to_le_bytes());
    for (i, b) in id.bytes().enumerate().take(16) {
        bytes[16 + i] = b;
    }
    TestRunner::new_with_rng(
        Config {
            failure_persistence: None,
            ..Config::default()
        },
        TestRng::from_seed(RngAlgorithm::ChaCha, &bytes),
    )
}

/// The generator that takes these bytes for random numbers, and the index of the case.
fn runner_from(data: &[u8]) -> Option<(usize, TestRunner)> {
    if data.len() < 3 {
        return None;
    }
    let tr = TestRunner::new_with_rng(
        Config { failure_persistence: None, max_local_rejects: 500, ..Config::default() },
        TestRng::from_seed(RngAlgorithm::PassThrough, &data[2..]),
    );
    Some((usize::from(data[0]) | usize::from(data[1]) << 8, tr))
}

struct Shared {
    next: AtomicUsize,
    done: AtomicUsize,
    stop: AtomicBool,
    comparisons: AtomicU64,
}

#[derive(Default)]
struct Tally {
    labels: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    excluded: u64,
    samples: Vec<(usize, serde_json::Value)>,
    failure: Option<(usize, String)>,
}

fn hash_of(v: &impl Serialize) -> u64 {
    let s = serde_json::to_vec(v).unwrap();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn clip(v: serde_json::Value) -> serde_json::Value {
    use serde_json::Value::{Array, Object, String};
    match v {
        Array(a) => {
            let n = a.len();
            let mut o: Vec<_> = a.into_iter().take(24).map(clip).collect();
            if n > 24 {
                o.push(String(format!("... {} in all", n)));
            }
            Array(o)
        }
        String(s) if s.chars().count() > 160 => {
            let n = s.chars().count();
            String(format!("{}... {} characters", s.chars().take(120).collect::<std::string::String>(), n))
        }
        Object(m) => Object(m.into_iter().map(|(k, v)| (k, clip(v))).collect()),
        o => o,
    }
}

impl<P: Prop> AnyProp for P {
    fn id(&self) -> &'static str {
        Prop::id(self)
    }

    fn replay(&self, case: serde_json::Value) -> Result<(), String> {
        let case: P::Case = serde_json::from_value(case).unwrap_or_else(|e| {
            eprintln!("bad replay file: {e}");
            std::process::exit(3)
        });
        let mut ctx = Ctx::default();
        let r = guarded(self, &case, &mut ctx);
        println!("labels: {:?}", ctx.labels);
        r
    }

    fn dump(&self, idx: usize, o: &Opts) -> serde_json::Value {
        let mut tr = runner_for(o.seed, Prop::id(self), idx);
        let tree = self.strategy(idx, o.tier).new_tree(&mut tr).unwrap();
        serde_json::json!({"property": Prop::id(self), "seed": o.seed, "index": idx,
            "case": serde_json::to_value(tree.current()).unwrap()})
    }

    fn fuzz(&self, data: &[u8], o: &Opts) -> Fuzzed {
        let Some((idx, mut tr)) = runner_from(data) else {
            return Fuzzed::Nothing;
        };
        let Ok(mut tree) = self.strategy(idx, o.tier).new_tree(&mut tr) else {
            return Fuzzed::Nothing;
        };
        let case = tree.current();
        let mut ctx = Ctx::default();
        match guarded(self, &case, &mut ctx) {
            Ok(()) => Fuzzed::Fine((ctx.nontrivial && !ctx.excluded).then(|| hash_of(&case))),
            Err(e) => {
                let (case, msg, steps) = self.minimise(&mut tree, &e, idx, o);
                let path = save_replay(self, &case, &msg, idx, steps, o);
                println!("{}: {msg}", Prop::id(self));
                println!("VIOLATION property={} replay={}", Prop::id(self), path.display());
                Fuzzed::Violation
            }
        }
    }

    fn fuzz_case(&self, data: &[u8], o: &Opts) -> Option<serde_json::Value> {
        let (idx, mut tr) = runner_from(data)?;
        let tree = self.strategy(idx, o.tier).new_tree(&mut tr).ok()?;
        Some(serde_json::json!({"property": Prop::id(self), "seed": o.seed, "index": idx,
            "case": serde_json::to_value(tree.current()).unwrap()}))
    }

    fn run(&self, o: &Opts) -> i32 {
        let t0 = Instant::now();
        let id = Prop::id(self);
        let n = o.limit.unwrap_or_else(|| self.cases(o.tier));
        let shared = Shared {
            next: AtomicUsize::new(o.start),
            done: AtomicUsize::new(0),
            stop: AtomicBool::new(false),
            comparisons: AtomicU64::new(0),
        };
        let end = o.start + n;
        let tally = Mutex::new(Tally::default());
        let nthreads = self.threads();
        let running: Vec<Mutex<Option<Busy>>> =
            (0..nthreads).map(|_| Mutex::new(None)).collect();
        let finished = AtomicUsize::new(0);
        let marks = std::env::var_os("VQ_MARKS").map(|p| std::fs::File::create(p).unwrap());
        std::thread::scope(|s| {
            for w in 0..nthreads {
                let (shared, tally, running, finished) = (&shared, &tally, &running, &finished);
                let marks = &marks;
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(s, move || {
                        let mut local = Tally::default();
                        let task = this_task();
                        loop {
                            if shared.stop.load(Ordering::SeqCst) {
                                break;
                            }
                            let idx = shared.next.fetch_add(1, Ordering::SeqCst);
                            if idx >= end {
                                break;
                            }
                            let mut tr = runner_for(o.seed, id, idx);
                            let tree = match self.strategy(idx, o.tier).new_tree(&mut tr) {
                                Ok(t) => t,
                                Err(e) => {
                                    eprintln!("HARNESS ERROR: generator gave up on case {idx}: {e}");
                                    std::process::exit(3);
                                }
                            };
                            let case = tree.current();
                            let mut ctx = Ctx::default();
                            *running[w].lock().unwrap() = Some(Busy {
                                idx,
                                since: Instant::now(),
                                task: task.clone(),
                                cpu: None,
                            });
                            if let Some(f) = marks {
                                use std::os::unix::fs::FileExt;
                                f.write_all_at(&(idx as u64 + 1).to_le_bytes(), 8 * w as u64).unwrap();
                            }
                            let r = guarded(self, &case, &mut ctx);
                            *running[w].lock().unwrap() = None;
                            shared.done.fetch_add(1, Ordering::SeqCst);
                            shared.comparisons.fetch_add(ctx.comparisons, Ordering::SeqCst);
                            for l in ctx.labels {
                                if o.survey && r.is_err() {
                                    *local.labels.entry(format!("FAILED {l}")).or_default() += 1;
                                }
                                *local.labels.entry(l).or_default() += 1;
                            }
                            if ctx.excluded {
                                local.excluded += 1;
                            } else if ctx.nontrivial {
                                local.nontrivial.insert(hash_of(&case));
                                // a few samples spread over the run
                                if idx % (n / 6 + 1) == 0 || local.samples.is_empty() {
                                    local
                                        .samples
                                        .push((idx, clip(serde_json::to_value(&case).unwrap())));
                                }
                            }
                            if let Err(e) = r {
                                if !o.quiet {
                                    eprintln!("case {idx} failed: {e}");
                                }
                                if o.survey {
                                    *local.labels.entry("FAILED".into()).or_default() += 1;
                                    continue;
                                }
                                local.failure = Some((idx, e));
                                shared.stop.store(true, Ordering::SeqCst);
                                break;
                            }
                        }
                        let mut t = tally.lock().unwrap();
                        for (k, v) in local.labels {
                            *t.labels.entry(k).or_default() += v;
                        }
                        t.nontrivial.extend(local.nontrivial);
                        t.excluded += local.excluded;
                        t.samples.extend(local.samples);
                        if let Some(f) = local.failure {
                            t.failure = Some(match t.failure.take() {
                                Some(g) if g.0 < f.0 => g,
                                _ => f,
                            });
                        }
                        drop(t);
                        finished.fetch_add(1, Ordering::SeqCst);
                    })
                    .unwrap();
            }
            // watchdog
            while finished.load(Ordering::SeqCst) < nthreads {
                std::thread::sleep(Duration::from_millis(20));
                for r in &running {
                    let mut r = r.lock().unwrap();
                    let Some(b) = r.as_mut() else { continue };
                    if b.since.elapsed() < Duration::from_secs(5) {
                        continue;
                    }
                    // only slow cases get to have their processor time looked at
                    let used = cpu_seconds(&b.task);
                    let first = *b.cpu.get_or_insert(used);
                    if used - first > self.cpu_limit() as f64 {
                        self.hangs(b.idx, o);
                    }
                    if b.since.elapsed() > Duration::from_secs(self.case_limit()) {
                        eprintln!(
                            "INCONCLUSIVE: case {} of {id} (seed {}) ran for more than {} s",
                            b.idx,
                            o.seed,
                            self.case_limit()
                        );
                        std::process::exit(4);
                    }
                }
            }
        });
        let mut t = tally.into_inner().unwrap();
        t.samples.sort_by_key(|s| s.0);
        t.samples.truncate(10);
        let evaluations = shared.done.load(Ordering::SeqCst);
        let mut code = 0;
        let mut violations = 0;
        if let Some((idx, first)) = t.failure.take() {
            violations = 1;
            code = 1;
            let (case, msg, steps) = self.shrink(idx, &first, o);
            let path = save_replay(self, &case, &msg, idx, steps, o);
            println!("{id}: {msg}");
            println!("VIOLATION property={id} replay={}", path.display());
        }
        let ev = serde_json::json!({
            "property": id,
            "tier": o.tier.name(),
            "seed": o.seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": t.nontrivial.len(),
                "rule": self.rule(),
                "samples": t.samples.iter().map(|s| &s.1).collect::<Vec<_>>(),
                "comparisons": shared.comparisons.load(Ordering::SeqCst),
                "excluded": t.excluded,
                "labels": t.labels,
            },
            "assumptions": self.assumptions(),
            "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
            "violations": violations,
        });
        write_evidence(&o.verif, id, &ev);
        if !o.quiet {
            println!(
                "{id} {} seed {}: {} cases, {} distinct non-trivial, {} excluded, {} comparisons, {:.1} s",
                o.tier.name(),
                o.seed,
                evaluations,
                t.nontrivial.len(),
                t.excluded,
                shared.comparisons.load(Ordering::SeqCst),
                t0.elapsed().as_secs_f64()
            );
            for (k, v) in &t.labels {
                println!("    {v:8}  {k}");
            }
        }
        code
    }
}

fn save_replay<P: Prop>(p: &P, case: &P::Case, msg: &str, idx: usize, steps: usize, o: &Opts) -> PathBuf {
    let id = Prop::id(p);
    let dir = o.verif.join("out/replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{id}.json"));
    let j = serde_json::json!({
        "property": id, "seed": o.seed, "tier": o.tier.name(), "index": idx,
        "failure": msg, "shrink_steps": steps, "case": case,
    });
    std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
    path
}

pub fn write_evidence(verif: &Path, id: &str, ev: &serde_json::Value) {
    let dir = verif.join("evidence");
    std::fs::create_dir_all(&dir).unwrap();
    std::fs::write(
        dir.join(format!("{id}.json")),
        serde_json::to_string_pretty(ev).unwrap() + "\n",
    )
    .unwrap();
}

/// What a worker thread is doing.
struct Busy {
    idx: usize,
    since: Instant,
    task: PathBuf,
    /// processor seconds of the thread when it was first looked at
    cpu: Option<f64>,
}

fn this_task() -> PathBuf {
    let t = std::fs::read_link("/proc/thread-self").unwrap_or_default();
    Path::new("/proc").join(t).join("stat")
}

fn cpu_seconds(task: &Path) -> f64 {
    let s = std::fs::read_to_string(task).unwrap_or_default();
    let rest = s.rsplit(')').next().unwrap_or_default();
    let f: Vec<&str> = rest.split_whitespace().collect();
    let n = |i: usize| f.get(i).and_then(|v| v.parse::<f64>().ok()).unwrap_or(0.0);
    (n(11) + n(12)) / 100.0
}

trait Shrink: Prop {
    fn shrink(&self, idx: usize, first: &str, o: &Opts) -> (Self::Case, String, usize);
    fn minimise(
        &self,
        tree: &mut dyn ValueTree<Value = Self::Case>,
        first: &str,
        idx: usize,
        o: &Opts,
    ) -> (Self::Case, String, usize);
    fn hangs(&self, idx: usize, o: &Opts) -> !;
}

impl<P: Prop> Shrink for P {
    /// Report a case that does not return, as it is, and end the process.
    fn hangs(&self, idx: usize, o: &Opts) -> ! {
        let id = Prop::id(self);
        let mut tr = runner_for(o.seed, id, idx);
        let case = self.strategy(idx, o.tier).new_tree(&mut tr).unwrap().current();
        let msg = format!("does not return within {} s of processor time", self.cpu_limit());
        let path = save_replay(self, &case, &msg, idx, 0, o);
        println!("{id}: {msg}");
        println!("VIOLATION property={id} replay={}", path.display());
        std::process::exit(1)
    }
    fn shrink(&self, idx: usize, first: &str, o: &Opts) -> (P::Case, String, usize) {
        let mut tr = runner_for(o.seed, Prop::id(self), idx);
        let mut tree = self.strategy(idx, o.tier).new_tree(&mut tr).unwrap();
        self.minimise(&mut tree, first, idx, o)
    }
    fn minimise(
        &self,
        tree: &mut dyn ValueTree<Value = P::Case>,
        first: &str,
        idx: usize,
        o: &Opts,
    ) -> (P::Case, String, usize) {
        let case = tree.current();
        let best = Mutex::new((case.clone(), first.to_string(), 0));
        let done = AtomicBool::new(false);
        std::thread::scope(|s| {
            // a smaller case may be one that does not return
            s.spawn(|| {
                let t0 = Instant::now();
                while !done.load(Ordering::SeqCst) {
                    std::thread::sleep(Duration::from_millis(20));
                    if t0.elapsed() > Duration::from_secs(SHRINK_SECONDS + 30) {
                        let (case, msg, steps) = best.lock().unwrap().clone();
                        let path = save_replay(self, &case, &msg, idx, steps, o);
                        println!("{}: {msg}", Prop::id(self));
                        println!("VIOLATION property={} replay={}", Prop::id(self), path.display());
                        std::process::exit(1);
                    }
                }
            });
            match guarded(self, &case, &mut Ctx::default()) {
                Err(e) => best.lock().unwrap().1 = e,
                // Generation and evaluation are deterministic, so the outcome depends on what
                // the library did before: report the case as it was.
                Ok(()) => {
                    best.lock().unwrap().1 =
                        format!("{first} (not when evaluated again: depends on earlier calls)");
                    done.store(true, Ordering::SeqCst);
                    return;
                }
            }
            let t0 = Instant::now();
            let mut tries = 0;
            // time bounds the quality of the minimisation only, never the verdict
            let enough = |tries: usize| tries >= 4000 || t0.elapsed() >= Duration::from_secs(SHRINK_SECONDS);
            'search: while !enough(tries) && tree.simplify() {
                loop {
                    tries += 1;
                    let c = tree.current();
                    if let Err(e) = guarded(self, &c, &mut Ctx::default()) {
                        let mut b = best.lock().unwrap();
                        *b = (c, e, b.2 + 1);
                        break;
                    }
                    if enough(tries) || !tree.complicate() {
                        break 'search;
                    }
                }
            }
            done.store(true, Ordering::SeqCst);
        });
        best.into_inner().unwrap()
    }
}

const SHRINK_SECONDS: u64 = 60;

/// Run the search in a process of its own, so that one that is killed (stack overflow, memory)
/// can be traced to the case that does it.
pub fn supervise(p: &dyn AnyProp, o: &Opts) -> i32 {
    use std::os::unix::process::ExitStatusExt;
    let marks = o.verif.join(format!("out/current-{}", p.id()));
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let run = |args: &[String]| {
        std::process::Command::new(std::env::current_exe().unwrap())
            .args(args)
            .env("VQ_MARKS", &marks)
            .status()
            .expect("cannot start the search")
    };
    std::fs::create_dir_all(o.verif.join("out")).unwrap();
    let _ = std::fs::remove_file(&marks);
    let st = run(&args);
    if let Some(c) = st.code() {
        let _ = std::fs::remove_file(&marks);
        return c;
    }
    eprintln!("the search was ended by signal {:?}", st.signal());
    let busy = std::fs::read(&marks).unwrap_or_default();
    let mut busy: Vec<u64> = busy.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    busy.sort();
    busy.dedup();
    args.extend(["--cases".into(), "1".into(), "--start".into(), String::new()]);
    for idx in busy.into_iter().filter(|i| *i > 0).map(|i| i - 1) {
        *args.last_mut().unwrap() = idx.to_string();
        let st = run(&args);
        match (st.code(), st.signal()) {
            (None, sig) => {
                let mut j = p.dump(idx as usize, o);
                j["failure"] = format!("the process is ended by signal {sig:?}").into();
                let dir = o.verif.join("out/replays");
                std::fs::create_dir_all(&dir).unwrap();
                let path = dir.join(format!("{}.json", p.id()));
                std::fs::write(&path, serde_json::to_string_pretty(&j).unwrap()).unwrap();
                println!("{}: the process is ended by signal {sig:?} on case {idx}", p.id());
                println!("VIOLATION property={} replay={}", p.id(), path.display());
                return 1;
            }
            (Some(1), _) => return 1,
            _ => {}
        }
    }
    eprintln!("INCONCLUSIVE: no single case does that");
    4
}
