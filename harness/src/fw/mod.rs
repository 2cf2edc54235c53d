//! Case generation, execution, shrinking, replay and evidence.
pub mod exec;
pub mod guard;
pub mod tracked;

use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        match self {
            Tier::Quick => quick,
            Tier::Thorough => thorough,
        }
    }
    fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

/// What one case reports about itself.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    labels: Vec<&'static str>,
}
impl Obs {
    pub fn label(&mut self, l: &'static str) {
        self.labels.push(l)
    }
    /// takes over what `o` says
    pub fn absorb(&mut self, o: Obs) {
        self.nontrivial |= o.nontrivial;
        self.labels.extend(o.labels);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.push(l)
        }
    }
}

pub trait Check: Sync + Send + 'static {
    type Case: Clone + Debug + Serialize + DeserializeOwned + Send + Sync + 'static;
    fn id(&self) -> &'static str;
    /// how cases are made, and what makes one non-trivial
    fn rule(&self) -> &'static str;
    fn strategy(&self, tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(&self, tier: Tier) -> u64;
    fn run(&self, case: &Self::Case, ob: &mut Obs) -> Result<(), String>;
    fn stack_size(&self) -> usize {
        16 << 20
    }
    fn shards(&self) -> u64 {
        8
    }
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
}

pub trait AnyCheck {
    fn id(&self) -> &'static str;
    fn main(&self, args: &Args) -> i32;
}

pub struct Args {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub out: PathBuf,
    pub mode: Mode,
}
pub enum Mode {
    Parent,
    Worker { trace: Option<PathBuf> },
    CaseChild(PathBuf),
    Replay(PathBuf),
    Dump(u64),
}

const EXIT_OK: i32 = 0;
const EXIT_VIOLATION: i32 = 1;
const EXIT_ERROR: i32 = 2;

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {loc}: {msg}")));
    }));
}

pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(_) => Err(LAST_PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())),
    }
}

fn eval<C: Check>(c: &C, case: &C::Case, ob: &mut Obs) -> Result<(), String> {
    guard::take_fault();
    let r = match catch(|| c.run(case, ob)) {
        Ok(r) => r,
        Err(p) => Err(p),
    };
    match guard::take_fault() {
        Some(f) => Err(format!("heap fault: {f}{}", match &r {
            Err(e) => format!(" (also: {e})"),
            Ok(()) => String::new(),
        })),
        None => r,
    }
}

fn rng_for(id: &str, seed: u64, shard: u64) -> TestRng {
    let mut s = [0u8; 32];
    s[..8].copy_from_slice(&seed.to_le_bytes());
    s[8..16].copy_from_slice(&shard.to_le_bytes());
    for (i, b) in id.bytes().enumerate() {
        s[16 + i % 16] ^= b.wrapping_add(i as u8);
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &s)
}

fn runner_for(id: &str, seed: u64, shard: u64) -> TestRunner {
    let config = Config {
        failure_persistence: None,
        max_local_rejects: 1_000_000,
        max_global_rejects: u32::MAX,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, rng_for(id, seed, shard))
}

fn shard_cases(total: u64, shards: u64, shard: u64) -> u64 {
    total / shards + u64::from(shard < total % shards)
}

/// Greedy minimisation along proptest's value tree.
fn shrink<V: ValueTree>(
    tree: &mut V,
    limit: usize,
    budget: Duration,
    mut fails: impl FnMut(&V::Value) -> Option<String>,
) -> (V::Value, Option<String>)
where
    V::Value: Clone,
{
    let start = Instant::now();
    let mut best = tree.current();
    let mut best_msg = None;
    let mut steps = 0;
    if !tree.simplify() {
        return (best, best_msg);
    }
    while steps < limit && start.elapsed() < budget {
        steps += 1;
        let cand = tree.current();
        if let Some(m) = fails(&cand) {
            best = cand;
            best_msg = Some(m);
            if !tree.simplify() {
                break;
            }
        } else if !tree.complicate() {
            break;
        }
    }
    (best, best_msg)
}

#[derive(Default)]
struct ShardStats {
    evals: u64,
    nontrivial: u64,
    seen: HashSet<u64>,
    labels: BTreeMap<&'static str, u64>,
    samples: Vec<(bool, String)>,
}

fn clip(s: String, n: usize) -> String {
    if s.chars().count() <= n {
        s
    } else {
        let mut t: String = s.chars().take(n).collect();
        t.push_str(" …");
        t
    }
}

fn hash_case<T: Serialize>(c: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    serde_json::to_vec(c).unwrap().hash(&mut h);
    h.finish()
}

#[derive(Serialize, serde::Deserialize)]
struct Replay<T> {
    property: String,
    failure: String,
    case: T,
}

impl<C: Check> AnyCheck for C {
    fn id(&self) -> &'static str {
        Check::id(self)
    }
    fn main(&self, args: &Args) -> i32 {
        install_hook();
        match &args.mode {
            Mode::Parent => parent(self, args),
            Mode::Worker { trace } => worker(self, args, trace.as_deref()),
            Mode::CaseChild(f) => case_child(self, f),
            Mode::Replay(f) => replay(self, args, f),
            Mode::Dump(n) => {
                let st = self.strategy(args.tier);
                let mut r = runner_for(Check::id(self), args.seed, 0);
                for _ in 0..*n {
                    println!("{:?}", st.new_tree(&mut r).unwrap().current());
                }
                0
            }
        }
    }
}

fn on_big_stack<R: Send>(size: usize, f: impl FnOnce() -> R + Send) -> R {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(size)
            .spawn_scoped(s, f)
            .unwrap()
            .join()
            .unwrap()
    })
}

fn case_child<C: Check>(c: &C, f: &Path) -> i32 {
    limit_memory(4);
    let text = std::fs::read(f).unwrap();
    let case: Replay<C::Case> = match serde_json::from_slice(&text) {
        Ok(c) => c,
        Err(e) => {
            println!("ERROR unreadable replay file: {e}");
            return EXIT_ERROR;
        }
    };
    let r = on_big_stack(c.stack_size(), || eval(c, &case.case, &mut Obs::default()));
    match r {
        Ok(()) => EXIT_OK,
        Err(m) => {
            println!("{m}");
            EXIT_VIOLATION
        }
    }
}

fn is_crash(sig: i32) -> bool {
    // SIGILL, SIGTRAP, SIGABRT, SIGBUS, SIGFPE, SIGSEGV
    matches!(sig, 4 | 5 | 6 | 7 | 8 | 11)
}

fn self_cmd(args: &Args) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg(&args.id)
        .arg("--out")
        .arg(&args.out)
        .env("VERIF_SEED", args.seed.to_string())
        .env("VERIF_TIER", args.tier.name());
    c
}

/// Runs one case in its own process: Ok(None) passes, Ok(Some) fails, Err is "no answer".
fn run_case_child<C: Check>(c: &C, args: &Args, case: &C::Case, tmp: &Path) -> Result<Option<String>, String> {
    let f = tmp.join(format!("case-{}.json", std::process::id()));
    let rep = Replay { property: Check::id(c).to_string(), failure: String::new(), case };
    std::fs::write(&f, serde_json::to_vec(&rep).unwrap()).map_err(|e| e.to_string())?;
    run_file_child(args, &f)
}

fn run_file_child(args: &Args, f: &Path) -> Result<Option<String>, String> {
    match run_file_child_for(args, f, Duration::from_secs(STUCK))? {
        Child::Passes => Ok(None),
        Child::Fails(m) => Ok(Some(m)),
        Child::Stuck => Ok(Some(stuck_msg())),
    }
}

/// No case takes more than a fraction of a second; one that takes this many seconds, twice, does not end.
const STUCK: u64 = 40;
fn stuck_msg() -> String {
    format!("the case does not end (stopped after {STUCK} s)")
}
enum Child {
    Passes,
    Fails(String),
    Stuck,
}

fn run_file_child_for(args: &Args, f: &Path, limit: Duration) -> Result<Child, String> {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg(&args.id)
        .arg("--case-child")
        .arg(f)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| e.to_string())?;
    let mut pipe = child.stdout.take().unwrap();
    let reader = std::thread::spawn(move || {
        let mut s = vec![];
        let _ = std::io::Read::read_to_end(&mut pipe, &mut s);
        s
    });
    let start = Instant::now();
    let status = loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            break s;
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Ok(Child::Stuck);
        }
        std::thread::sleep(Duration::from_millis(2));
    };
    let out = reader.join().unwrap_or_default();
    if let Some(sig) = status.signal() {
        if is_crash(sig) {
            return Ok(Child::Fails(format!("process killed by signal {sig} (crash, abort or stack overflow)")));
        }
        return Err(format!("case child ended by signal {sig}"));
    }
    match status.code() {
        Some(EXIT_OK) => Ok(Child::Passes),
        Some(EXIT_VIOLATION) => Ok(Child::Fails(String::from_utf8_lossy(&out).trim().to_string())),
        c => Err(format!("case child exit {c:?}")),
    }
}

/// Runaway allocation ends as an abort of this process.
fn limit_memory(gib: u64) {
    #[repr(C)]
    struct Rlimit(u64, u64);
    extern "C" {
        fn setrlimit(resource: i32, limit: *const Rlimit) -> i32;
    }
    const RLIMIT_AS: i32 = 9;
    // SAFETY: plain system call
    unsafe { setrlimit(RLIMIT_AS, &Rlimit(gib << 30, gib << 30)) };
}

/// Case `idx` of a shard has been running for too long: confirms it alone, shrinks it and reports it.
fn stuck<C: Check>(c: &C, args: &Args, shard: u64, idx: u64, evals: u64) -> Option<i32> {
    let tmp = std::env::temp_dir().join(format!("pbt-{}-{}", Check::id(c), std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    let strategy = c.strategy(args.tier);
    let mut runner = runner_for(Check::id(c), args.seed, shard);
    let mut tree = strategy.new_tree(&mut runner).ok()?;
    for _ in 0..idx {
        tree = strategy.new_tree(&mut runner).ok()?;
    }
    let ends = |case: &C::Case, secs: u64| {
        let f = tmp.join("case.json");
        let rep = Replay { property: Check::id(c).to_string(), failure: String::new(), case };
        std::fs::write(&f, serde_json::to_vec(&rep).unwrap()).unwrap();
        !matches!(run_file_child_for(args, &f, Duration::from_secs(secs)), Ok(Child::Stuck))
    };
    let case = tree.current();
    let mut found = None;
    if !ends(&case, STUCK) {
        let (small, _) = shrink(&mut tree, 200, Duration::from_secs(90), |v| (!ends(v, 4)).then(stuck_msg));
        // what was only slow does not count
        found = Some(if ends(&small, STUCK) { case } else { small });
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let case = found?;
    let stats = ShardStats { evals, samples: vec![(true, clip(format!("{case:?}"), 700))], ..Default::default() };
    write_evidence(c, args, &stats, 0.0, 1, serde_json::Value::Null);
    Some(report(c, args, &case, &stuck_msg()))
}

fn write_replay<C: Check>(c: &C, args: &Args, case: &C::Case, msg: &str) -> PathBuf {
    let dir = args.out.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}-{:016x}.json", Check::id(c), hash_case(case)));
    let rep = Replay { property: Check::id(c).to_string(), failure: msg.to_string(), case };
    std::fs::write(&f, serde_json::to_vec_pretty(&rep).unwrap()).unwrap();
    f
}

fn report<C: Check>(c: &C, args: &Args, case: &C::Case, msg: &str) -> i32 {
    let f = write_replay(c, args, case, msg);
    println!("failure: {}", clip(msg.to_string(), 2000));
    println!("case: {}", clip(format!("{case:?}"), 2000));
    println!("VIOLATION property={} replay={}", Check::id(c), f.display());
    EXIT_VIOLATION
}

fn replay<C: Check>(c: &C, args: &Args, f: &Path) -> i32 {
    match run_file_child(args, f) {
        Ok(None) => {
            println!("replay passes: {}", f.display());
            EXIT_OK
        }
        Ok(Some(m)) => {
            println!("failure: {m}");
            println!("VIOLATION property={} replay={}", Check::id(c), f.display());
            EXIT_VIOLATION
        }
        Err(e) => {
            println!("ERROR {e}");
            EXIT_ERROR
        }
    }
}

fn write_evidence<C: Check>(
    c: &C,
    args: &Args,
    stats: &ShardStats,
    wall: f64,
    violations: u64,
    extra: serde_json::Value,
) {
    let mut samples: Vec<&(bool, String)> = stats.samples.iter().collect();
    samples.sort_by_key(|s| !s.0);
    let samples: Vec<&String> = samples.iter().take(6).map(|s| &s.1).collect();
    let mut cov = serde_json::json!({
        "evaluations": stats.evals,
        "distinct_nontrivial": stats.nontrivial,
        "rule": c.rule(),
        "samples": samples,
        "classes": stats.labels,
    });
    if let (Some(o), Some(e)) = (cov.as_object_mut(), extra.as_object()) {
        for (k, v) in e {
            o.insert(k.clone(), v.clone());
        }
    }
    let ev = serde_json::json!({
        "property": Check::id(c),
        "tier": args.tier.name(),
        "seed": args.seed,
        "level": "exploration",
        "coverage": cov,
        "assumptions": c.assumptions(),
        "wall_s": wall,
        "violations": violations,
    });
    let dir = args.out.join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(
        dir.join(format!("{}.json", Check::id(c))),
        serde_json::to_vec_pretty(&ev).unwrap(),
    )
    .unwrap();
}

fn worker<C: Check>(c: &C, args: &Args, trace: Option<&Path>) -> i32 {
    limit_memory(20);
    let start = Instant::now();
    let total = c.cases(args.tier);
    let shards = c.shards();
    let stop = AtomicBool::new(false);
    let merged = Mutex::new(ShardStats::default());
    let failure: Mutex<Option<(u64, C::Case, String)>> = Mutex::new(None);
    let progress = AtomicU64::new(0);
    // per shard: the case it runs, and since when (milliseconds, 0: none)
    let at: Vec<(AtomicU64, AtomicU64)> = (0..shards).map(|_| Default::default()).collect();
    let ended = AtomicU64::new(0);
    // a failure that is still being shrunk (which may run into a case that does not end)
    let pending: Mutex<Option<(C::Case, String)>> = Mutex::new(None);
    std::thread::scope(|s| {
        s.spawn(|| {
            let mut slow = HashSet::new();
            let mut stopped: Option<Instant> = None;
            while ended.load(Ordering::SeqCst) < shards {
                std::thread::sleep(Duration::from_millis(20));
                if stop.load(Ordering::SeqCst) && stopped.get_or_insert_with(Instant::now).elapsed().as_secs() > 100 {
                    if let Some((case, msg)) = pending.lock().unwrap().clone() {
                        let evals = progress.load(Ordering::SeqCst);
                        let stats =
                            ShardStats { evals, samples: vec![(true, clip(format!("{case:?}"), 700))], ..Default::default() };
                        write_evidence(c, args, &stats, start.elapsed().as_secs_f64(), 1, serde_json::Value::Null);
                        std::process::exit(report(c, args, &case, &msg));
                    }
                }
                for (shard, (i, since)) in at.iter().enumerate() {
                    let (i, since) = (i.load(Ordering::SeqCst), since.load(Ordering::SeqCst));
                    let now = start.elapsed().as_millis() as u64;
                    if since == 0 || now < since + STUCK * 1000 || !slow.insert((shard, i)) || stop.load(Ordering::SeqCst) {
                        continue;
                    }
                    println!("shard {shard} has not finished case {i}; running it alone");
                    if let Some(code) = stuck(c, args, shard as u64, i, progress.load(Ordering::SeqCst)) {
                        std::process::exit(code);
                    }
                }
            }
        });
        for shard in 0..shards {
            let (stop, merged, failure, progress, pending) = (&stop, &merged, &failure, &progress, &pending);
            let (at, ended) = (&at[shard as usize], &ended);
            struct End<'a>(&'a AtomicU64);
            impl Drop for End<'_> {
                fn drop(&mut self) {
                    self.0.fetch_add(1, Ordering::SeqCst);
                }
            }
            std::thread::Builder::new()
                .stack_size(c.stack_size())
                .spawn_scoped(s, move || {
                    let _end = End(ended);
                    let st = c.strategy(args.tier);
                    let mut runner = runner_for(Check::id(c), args.seed, shard);
                    let mut stats = ShardStats::default();
                    let n = shard_cases(total, shards, shard);
                    for i in 0..n {
                        if stop.load(Ordering::Relaxed) {
                            break;
                        }
                        let mut tree = match st.new_tree(&mut runner) {
                            Ok(t) => t,
                            Err(e) => panic!("generator: {e}"),
                        };
                        let case = tree.current();
                        if let Some(d) = trace {
                            let _ = std::fs::write(d.join(format!("shard-{shard}")), i.to_string());
                        }
                        let mut ob = Obs::default();
                        at.0.store(i, Ordering::SeqCst);
                        at.1.store(start.elapsed().as_millis() as u64 + 1, Ordering::SeqCst);
                        let r = eval(c, &case, &mut ob);
                        at.1.store(0, Ordering::SeqCst);
                        stats.evals += 1;
                        progress.fetch_add(1, Ordering::Relaxed);
                        for l in ob.labels {
                            *stats.labels.entry(l).or_default() += 1;
                        }
                        if ob.nontrivial {
                            if stats.seen.insert(hash_case(&case)) {
                                stats.nontrivial += 1;
                            }
                        }
                        if stats.samples.len() < 3 && (i == 0 || i % 97 == 13) && (ob.nontrivial || i == 0) {
                            stats.samples.push((ob.nontrivial, clip(format!("{case:?}"), 700)));
                        }
                        if let Err(msg) = r {
                            pending.lock().unwrap().get_or_insert_with(|| (case.clone(), msg.clone()));
                            stop.store(true, Ordering::SeqCst);
                            let (small, m) = if trace.is_some() {
                                (case, None)
                            } else {
                                shrink(&mut tree, 4000, Duration::from_secs(40), |v| {
                                    eval(c, v, &mut Obs::default()).err()
                                })
                            };
                            let mut f = failure.lock().unwrap();
                            if f.as_ref().map_or(true, |f| f.0 > shard) {
                                *f = Some((shard, small, m.unwrap_or(msg)));
                            }
                            break;
                        }
                    }
                    let mut m = merged.lock().unwrap();
                    m.evals += stats.evals;
                    for h in stats.seen {
                        if m.seen.insert(h) {
                            m.nontrivial += 1;
                        }
                    }
                    for (k, v) in stats.labels {
                        *m.labels.entry(k).or_default() += v;
                    }
                    m.samples.extend(stats.samples);
                })
                .unwrap();
        }
    });
    let stats = merged.into_inner().unwrap();
    let fail = failure.into_inner().unwrap();
    write_evidence(
        c,
        args,
        &stats,
        start.elapsed().as_secs_f64(),
        u64::from(fail.is_some()),
        serde_json::Value::Null,
    );
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s, classes {:?}",
        Check::id(c),
        stats.evals,
        stats.nontrivial,
        start.elapsed().as_secs_f64(),
        stats.labels
    );
    match fail {
        None => EXIT_OK,
        Some((_, case, msg)) => report(c, args, &case, &msg),
    }
}

fn parent<C: Check>(c: &C, args: &Args) -> i32 {
    let limit = Duration::from_secs(args.tier.pick(820, 6 * 3600));
    let start = Instant::now();
    let status = match run_limited(self_cmd(args).arg("--worker"), limit) {
        Ok(s) => s,
        Err(e) => {
            println!("ERROR {e}");
            return EXIT_ERROR;
        }
    };
    if let Some(code) = status.code() {
        return code;
    }
    let sig = status.signal().unwrap_or(0);
    if !is_crash(sig) {
        println!("ERROR worker ended by signal {sig}");
        return EXIT_ERROR;
    }
    println!("worker ended by signal {sig}; looking for the case");
    // The run is a pure function of the seed: run it again, recording where each shard is.
    let tmp = std::env::temp_dir().join(format!("pbt-{}-{}", Check::id(c), std::process::id()));
    let _ = std::fs::create_dir_all(&tmp);
    let code = crash_search(c, args, &tmp, limit.saturating_sub(start.elapsed()));
    let _ = std::fs::remove_dir_all(&tmp);
    code
}

fn crash_search<C: Check>(c: &C, args: &Args, tmp: &Path, limit: Duration) -> i32 {
    let start = Instant::now();
    let st = run_limited(self_cmd(args).arg("--worker").arg("--trace").arg(tmp), limit);
    if let Ok(s) = &st {
        if let Some(code) = s.code() {
            println!("ERROR crash did not repeat (exit {code})");
            return if code == EXIT_VIOLATION { code } else { EXIT_ERROR };
        }
    }
    let strategy = c.strategy(args.tier);
    let mut evals = 0;
    let mut found = None;
    for shard in 0..c.shards() {
        let Ok(s) = std::fs::read_to_string(tmp.join(format!("shard-{shard}"))) else { continue };
        let Ok(idx) = s.trim().parse::<u64>() else { continue };
        evals += idx;
        if found.is_some() {
            continue;
        }
        let mut runner = runner_for(Check::id(c), args.seed, shard);
        let mut tree = None;
        for _ in 0..=idx {
            tree = Some(strategy.new_tree(&mut runner).unwrap());
        }
        let mut tree = tree.unwrap();
        let case = tree.current();
        match run_case_child(c, args, &case, tmp) {
            Ok(Some(msg)) => {
                let (small, m) = shrink(&mut tree, 300, Duration::from_secs(60), |v| {
                    run_case_child(c, args, v, tmp).unwrap_or(None)
                });
                found = Some((small, m.unwrap_or(msg)));
            }
            _ => continue,
        }
    }
    match found {
        Some((case, msg)) => {
            let stats = ShardStats {
                evals,
                samples: vec![(true, clip(format!("{case:?}"), 700))],
                ..Default::default()
            };
            write_evidence(c, args, &stats, start.elapsed().as_secs_f64(), 1, serde_json::Value::Null);
            report(c, args, &case, &msg)
        }
        None => {
            println!("ERROR crash could not be attributed to a case");
            EXIT_ERROR
        }
    }
}

fn run_limited(cmd: &mut Command, limit: Duration) -> Result<std::process::ExitStatus, String> {
    let mut child = cmd.stdin(Stdio::null()).spawn().map_err(|e| e.to_string())?;
    let start = Instant::now();
    loop {
        if let Some(s) = child.try_wait().map_err(|e| e.to_string())? {
            return Ok(s);
        }
        if start.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            return Err("time budget exhausted: inconclusive".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

pub fn main(checks: &[&dyn AnyCheck]) -> ! {
    let mut it = std::env::args().skip(1);
    let id = it.next().expect("usage: BIN ID [--replay FILE]");
    let mut mode = Mode::Parent;
    let mut out = PathBuf::from("/verif");
    let mut worker = false;
    let mut trace = None;
    while let Some(a) = it.next() {
        match a.as_str() {
            "--worker" => worker = true,
            "--trace" => trace = Some(PathBuf::from(it.next().unwrap())),
            "--case-child" => mode = Mode::CaseChild(it.next().unwrap().into()),
            "--replay" => mode = Mode::Replay(it.next().unwrap().into()),
            "--dump" => mode = Mode::Dump(it.next().unwrap().parse().unwrap()),
            "--out" => out = it.next().unwrap().into(),
            _ => panic!("unknown argument {a}"),
        }
    }
    if worker {
        mode = Mode::Worker { trace };
    }
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let args = Args { id: id.clone(), tier, seed, out, mode };
    let c = checks
        .iter()
        .find(|c| c.id() == id)
        .unwrap_or_else(|| panic!("no check {id} in this binary"));
    std::process::exit(c.main(&args));
}

/// a size in the range, one in three of them round (powers of two and ten, and next to them): what a block, a buffer or a limit would be
pub fn sizes(r: std::ops::Range<u32>) -> BoxedStrategy<u32> {
    let mut round: Vec<u32> = (2..18).map(|k| 1 << k).chain([10, 20, 50, 100, 200, 500, 1000, 2000, 5000, 10_000, 20_000, 50_000, 100_000]).chain((3..16).map(|k| 3 << k)).collect();
    round = round.iter().flat_map(|&n| [n - 1, n, n, n + 1]).filter(|n| r.contains(n)).collect();
    round.sort();
    if round.is_empty() {
        return r.boxed();
    }
    proptest::strategy::Union::new_weighted(vec![(2, r.boxed()), (1, proptest::sample::select(round).boxed())]).boxed()
}

/// `prop_oneof`-free helper: bounded vec
pub fn vec_of<S: Strategy + 'static>(s: S, r: impl Into<proptest::collection::SizeRange>) -> BoxedStrategy<Vec<S::Value>>
where
    S::Value: Clone + Debug,
{
    proptest::collection::vec(s, r).boxed()
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c { return Err(format!($($t)*)); }
    };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        let (a, b) = (&$a, &$b);
        if a != b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
    }};
}
