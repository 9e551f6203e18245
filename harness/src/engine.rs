//! Property engine: proptest generates and shrinks; worker processes isolate crashes.
//!
//! Every case is a pure function of (property, seed, case index).  A worker process checks a
//! stripe of indices; the parent merges their statistics, shrinks the first failure (in a child
//! process, so that a case that crashes can be shrunk too), writes the replay file and the
//! evidence file and prints the verdict.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, ExitStatus, Stdio};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- allocation accounting

/// Counts allocations, and ends the process with a recognisable status when the live heap passes
/// a bound a thousand times above what any generated case needs.  The bound depends on the code
/// and the case only (not on time or on the machine), so a runaway collection is a reproducible
/// outcome of the case.
pub struct Guard;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static ALLOCS: AtomicU64 = AtomicU64::new(0);
const LIVE_LIMIT: i64 = 1 << 28;
pub const EXIT_RUNAWAY: i32 = 77;
extern "C" {
    fn _exit(code: i32) -> !;
}
unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        ALLOCS.fetch_add(1, Relaxed);
        if LIVE.fetch_add(l.size() as i64, Relaxed) + l.size() as i64 > LIVE_LIMIT {
            _exit(EXIT_RUNAWAY);
        }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GUARD: Guard = Guard;

// ---------------------------------------------------------------- per-case information

#[derive(Default)]
pub struct Info {
    pub nontrivial: bool,
    labels: BTreeMap<String, u64>,
}
impl Info {
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l)
        }
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
}

pub trait CaseT: Clone + Debug + Hash + Serialize + DeserializeOwned + 'static {}
impl<T: Clone + Debug + Hash + Serialize + DeserializeOwned + 'static> CaseT for T {}

pub struct Spec<C> {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    /// `big` selects the larger size bounds of the thorough tier (used by every fourth case there).
    pub strategy: fn(big: bool) -> BoxedStrategy<C>,
    pub check: fn(&C, &mut Info) -> Result<(), String>,
    /// Run once, in one worker, before the generated cases: finite spaces enumerated completely.
    pub enumerate: Option<fn(&mut Info) -> Result<u64, String>>,
}

// ---------------------------------------------------------------- panics

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = payload_text(i.payload());
        let loc = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}
pub fn payload_text(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
/// Run `f`; a panic becomes `Err` with its message and location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
fn run_check<C>(spec: &Spec<C>, case: &C, info: &mut Info) -> Result<(), String> {
    match guarded(|| (spec.check)(case, info)) {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {p}")),
    }
}

// ---------------------------------------------------------------- generation

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}
fn tree_for<C: CaseT>(spec: &Spec<C>, strat: &BoxedStrategy<C>, seed: u64, idx: u64) -> Box<dyn ValueTree<Value = C>> {
    let mut bytes = [0u8; 32];
    let mut z = mix(seed);
    for b in spec.id.bytes() {
        z = mix(z ^ b as u64);
    }
    z = mix(z ^ idx);
    for c in bytes.chunks_mut(8) {
        z = mix(z);
        c.copy_from_slice(&z.to_le_bytes());
    }
    let cfg = Config { failure_persistence: None, ..Config::default() };
    let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &bytes));
    Box::new(strat.new_tree(&mut runner).expect("strategy rejects nothing"))
}
struct Strats<C> {
    small: BoxedStrategy<C>,
    big: BoxedStrategy<C>,
}
impl<C: CaseT> Strats<C> {
    fn new(spec: &Spec<C>) -> Self {
        Strats { small: (spec.strategy)(false), big: (spec.strategy)(true) }
    }
    fn tree(&self, spec: &Spec<C>, thorough: bool, seed: u64, idx: u64) -> Box<dyn ValueTree<Value = C>> {
        let s = if thorough && idx % 4 == 3 { &self.big } else { &self.small };
        tree_for(spec, s, seed, idx)
    }
}

// ---------------------------------------------------------------- worker

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evals: u64,
    nontrivial: u64,
    labels: BTreeMap<String, u64>,
    samples: Vec<String>,
    enumerated: u64,
    fail: Option<(u64, String)>,
    enum_fail: Option<String>,
    corpus_fail: Option<(String, String)>,
    corpus: u64,
}

fn hash_case<C: Hash>(c: &C) -> u64 {
    #[allow(deprecated)]
    let mut h = std::hash::SipHasher::new();
    c.hash(&mut h);
    h.finish()
}

struct Args {
    tier: String,
    seed: u64,
    mode: String,
    rest: Vec<String>,
}

fn corpus_files(id: &str) -> Vec<PathBuf> {
    let dir = verif_dir().join("corpus").join(id);
    let mut v: Vec<PathBuf> = std::fs::read_dir(dir)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map_or(false, |e| e == "json")).collect())
        .unwrap_or_default();
    v.sort();
    v
}

fn worker<C: CaseT>(spec: &Spec<C>, a: &Args) {
    let i: u64 = a.rest[0].parse().unwrap();
    let n: u64 = a.rest[1].parse().unwrap();
    let dir = PathBuf::from(&a.rest[2]);
    let thorough = a.tier == "thorough";
    let total = scaled(if thorough { spec.thorough } else { spec.quick });
    let mut out = WorkerOut::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut info = Info::default();
    let progress = std::fs::File::create(dir.join(format!("progress-{i}"))).unwrap();
    let mark = |v: u64| {
        use std::os::unix::fs::FileExt;
        let _ = progress.write_at(&v.to_le_bytes(), 0);
    };
    // A worker that takes over from one that hung goes on behind the case it hung in.
    let start: Option<u64> = a.rest.get(3).map(|s| s.parse().unwrap());
    if start.is_none() {
        for (k, f) in corpus_files(spec.id).iter().enumerate() {
            if k as u64 % n != i {
                continue;
            }
            mark(u64::MAX - 1 - k as u64);
            match read_replay::<C>(f) {
                Ok(c) => {
                    out.corpus += 1;
                    if let Err(m) = run_check(spec, &c, &mut info) {
                        out.corpus_fail = Some((f.display().to_string(), m));
                        break;
                    }
                }
                Err(e) => {
                    eprintln!("unreadable corpus file {}: {e}", f.display());
                    std::process::exit(3);
                }
            }
        }
        if let (0, Some(e)) = (i, spec.enumerate) {
            mark(u64::MAX);
            match guarded(|| e(&mut info)) {
                Ok(Ok(k)) => out.enumerated = k,
                Ok(Err(m)) => out.enum_fail = Some(m),
                Err(m) => out.enum_fail = Some(format!("panicked: {m}")),
            }
        }
    }
    if out.enum_fail.is_none() && out.corpus_fail.is_none() {
        let strats = Strats::new(spec);
        let mut idx = start.unwrap_or(i);
        while idx < total {
            mark(idx);
            let case = strats.tree(spec, thorough, a.seed, idx).current();
            info.nontrivial = false;
            let r = run_check(spec, &case, &mut info);
            out.evals += 1;
            if let Err(m) = r {
                out.fail = Some((idx, m));
                break;
            }
            if info.nontrivial {
                out.nontrivial += 1;
                distinct.insert(hash_case(&case));
                if out.samples.len() < 2 {
                    let s = serde_json::to_string(&case).unwrap();
                    if s.len() < 1500 {
                        out.samples.push(s);
                    }
                }
            }
            idx += n;
        }
    }
    out.labels = info.labels;
    let bytes: Vec<u8> = distinct.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(dir.join(format!("distinct-{i}")), bytes).unwrap();
    std::fs::write(dir.join(format!("out-{i}.json")), serde_json::to_string(&out).unwrap()).unwrap();
}

fn scaled(n: u64) -> u64 {
    match std::env::var("PBT_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(f) => ((n as f64) * f).max(1.0) as u64,
        None => n,
    }
}

// ---------------------------------------------------------------- replay files

#[derive(Serialize, Deserialize)]
struct Replay<C> {
    property: String,
    what: String,
    case: C,
}
fn read_replay<C: CaseT>(p: &Path) -> Result<C, String> {
    let s = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
    let r: Replay<C> = serde_json::from_str(&s).map_err(|e| e.to_string())?;
    Ok(r.case)
}
fn write_replay<C: CaseT>(p: &Path, id: &str, what: &str, case: &C) {
    let r = Replay { property: id.to_string(), what: what.to_string(), case: case.clone() };
    std::fs::write(p, serde_json::to_string_pretty(&r).unwrap()).expect("write replay");
}

/// A failure that needs the cases before it in the same process: cases from..=idx of one worker.
#[derive(Serialize, Deserialize)]
struct Stripe {
    property: String,
    what: String,
    tier: String,
    seed: u64,
    step: u64,
    from: u64,
    idx: u64,
}
fn run_stripe<C: CaseT>(spec: &Spec<C>, s: &Stripe) -> Result<(), String> {
    let strats = Strats::new(spec);
    let mut i = s.from;
    while i <= s.idx {
        let case = strats.tree(spec, s.tier == "thorough", s.seed, i).current();
        run_check(spec, &case, &mut Info::default()).map_err(|m| format!("case {i} after the cases from {} in the same process: {m}", s.from))?;
        i += s.step;
    }
    Ok(())
}
/// How often a replay runs its case: where threads run freely, one run may miss the failure.
fn repeats(id: &str) -> u32 {
    if id == "P22" {
        60
    } else {
        1
    }
}

// ---------------------------------------------------------------- shrinking (child process)

/// `--shrink IDX OUT HARD`: shrink case IDX; after every improvement rewrite OUT.
fn shrink<C: CaseT>(spec: &Spec<C>, a: &Args) {
    let idx: u64 = a.rest[0].parse().unwrap();
    let out = PathBuf::from(&a.rest[1]);
    let hard = a.rest[2] == "1";
    let strats = Strats::new(spec);
    let mut tree = strats.tree(spec, a.tier == "thorough", a.seed, idx);
    let tmp = out.with_extension("probe");
    let fails = |c: &C| -> Option<String> {
        if hard {
            write_replay(&tmp, spec.id, "", c);
            outcome_of_child(&mut self_cmd(a, &["--inner", tmp.to_str().unwrap()]), Duration::from_secs(30))
        } else {
            run_check(spec, c, &mut Info::default()).err()
        }
    };
    let first = tree.current();
    match fails(&first) {
        None => return,
        Some(m) => write_replay(&out, spec.id, &m, &first),
    }
    let mut left = if hard { 250 } else { 4000 };
    if tree.simplify() {
        loop {
            left -= 1;
            if left == 0 {
                break;
            }
            let c = tree.current();
            match fails(&c) {
                Some(m) => {
                    write_replay(&out, spec.id, &m, &c);
                    if !tree.simplify() {
                        break;
                    }
                }
                None => {
                    if !tree.complicate() {
                        break;
                    }
                }
            }
        }
    }
    let _ = std::fs::remove_file(&tmp);
}

fn self_cmd(a: &Args, args: &[&str]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.args(["--tier", &a.tier, "--seed", &a.seed.to_string()]).args(args);
    c.stdin(Stdio::null());
    c
}
fn wait_for(ch: &mut Child, limit: Duration) -> Option<ExitStatus> {
    let t = Instant::now();
    loop {
        if let Some(s) = ch.try_wait().unwrap() {
            return Some(s);
        }
        if t.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
fn describe(s: ExitStatus) -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    match (s.code(), s.signal()) {
        (Some(EXIT_RUNAWAY), _) => Some("heap use ran away: the operation allocates without bound".into()),
        // SIGILL, SIGABRT, SIGBUS, SIGFPE, SIGSEGV: the process destroyed itself while running the case
        (_, Some(n @ (4 | 6 | 7 | 8 | 11))) => Some(format!("the process crashed with signal {n}")),
        _ => None,
    }
}
/// Some(reason) when the child found a failure; None when it passed or gave no answer.
fn outcome_of_child(c: &mut Command, limit: Duration) -> Option<String> {
    let mut ch = c.stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn");
    let s = wait_for(&mut ch, limit)?;
    if s.code() == Some(1) {
        let mut t = vec![];
        use std::io::Read;
        ch.stdout.take().unwrap().read_to_end(&mut t).ok();
        return Some(String::from_utf8_lossy(&t).trim().to_string());
    }
    describe(s)
}

// ---------------------------------------------------------------- parent

pub fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn main<C: CaseT>(spec: Spec<C>) -> ! {
    let mut a = Args {
        tier: std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()),
        seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).map(|s| s as u64).unwrap_or(1),
        mode: "run".into(),
        rest: vec![],
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        match x.as_str() {
            "--tier" => a.tier = it.next().expect("tier"),
            "--seed" => a.seed = it.next().expect("seed").parse::<i64>().expect("seed") as u64,
            m => {
                a.mode = m.trim_start_matches('-').to_string();
                a.rest = it.by_ref().collect();
            }
        }
    }
    if a.tier != "thorough" {
        a.tier = "quick".into();
    }
    if a.mode != "run" {
        install_hook();
    }
    match a.mode.as_str() {
        "worker" => {
            worker(&spec, &a);
            std::process::exit(0)
        }
        "shrink" => {
            shrink(&spec, &a);
            std::process::exit(0)
        }
        "inner" | "replay" => {
            let stripe: Option<Stripe> = std::fs::read_to_string(&a.rest[0]).ok().and_then(|s| serde_json::from_str(&s).ok());
            if let (Some(s), "inner") = (&stripe, a.mode.as_str()) {
                match run_stripe(&spec, s) {
                    Ok(()) => std::process::exit(0),
                    Err(m) => {
                        println!("{m}");
                        std::process::exit(1)
                    }
                }
            }
            let case = match read_replay::<C>(Path::new(&a.rest[0])) {
                Ok(c) => Some(c),
                Err(_) if stripe.is_some() => None,
                Err(e) => {
                    eprintln!("cannot read {}: {e}", a.rest[0]);
                    std::process::exit(2)
                }
            };
            if a.mode == "inner" {
                for _ in 0..repeats(spec.id) {
                    if let Err(m) = run_check(&spec, case.as_ref().unwrap(), &mut Info::default()) {
                        println!("{m}");
                        std::process::exit(1)
                    }
                }
                std::process::exit(0)
            }
            match outcome_of_child(&mut self_cmd(&a, &["--inner", &a.rest[0]]), Duration::from_secs(120)) {
                None => {
                    println!("property={} replay passes", spec.id);
                    std::process::exit(0)
                }
                Some(m) => {
                    println!("{}: {m}", spec.id);
                    println!("VIOLATION property={} replay={}", spec.id, a.rest[0]);
                    std::process::exit(1)
                }
            }
        }
        "show" => {
            let strats = Strats::new(&spec);
            let idx: u64 = a.rest[0].parse().unwrap();
            println!("{}", serde_json::to_string(&strats.tree(&spec, a.tier == "thorough", a.seed, idx).current()).unwrap());
            std::process::exit(0)
        }
        "run" => run(&spec, &a),
        m => {
            eprintln!("unknown mode {m}");
            std::process::exit(2)
        }
    }
}

fn run<C: CaseT>(spec: &Spec<C>, a: &Args) -> ! {
    let t0 = Instant::now();
    let n = 8u64;
    let dir = std::env::temp_dir().join(format!("pbt-{}-{}", spec.id, std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).expect("scratch directory");
    let limit = Duration::from_secs(if a.tier == "thorough" { 6 * 3600 } else { 600 });
    let mut kids: Vec<(u64, Child)> = (0..n)
        .map(|i| (i, self_cmd(a, &["--worker", &i.to_string(), &n.to_string(), dir.to_str().unwrap()]).spawn().expect("spawn worker")))
        .collect();
    let mut merged = WorkerOut::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut fails: Vec<(u64, String, bool)> = vec![]; // index, message, hard
    let mut error: Option<String> = None;
    // A case that does not end is no verdict, but the cases behind it may give one.
    let patience = Duration::from_secs(if a.tier == "thorough" { 1200 } else { 100 });
    let mut limit = limit;
    let mut seen: Vec<(u64, Instant)> = vec![(0, Instant::now()); n as usize];
    let mut restarts = 0;
    // Once, a case may have been held up by something else: it is run again in a new process.
    let mut again: HashSet<(u64, u64)> = HashSet::new();
    let mut over: Vec<(u64, ExitStatus)> = vec![];
    while !kids.is_empty() {
        std::thread::sleep(Duration::from_millis(2));
        let mut k = 0;
        while k < kids.len() {
            let (i, ch) = &mut kids[k];
            let i = *i;
            if let Some(s) = ch.try_wait().unwrap() {
                let failed = |o: WorkerOut| o.fail.is_some() || o.enum_fail.is_some() || o.corpus_fail.is_some();
                let report = std::fs::read(dir.join(format!("out-{i}.json"))).unwrap_or_default();
                if a.tier != "thorough" && serde_json::from_slice(&report).map_or(true, failed) {
                    // There is something to report: no need to wait long for the rest.
                    limit = limit.min(t0.elapsed() + Duration::from_secs(100));
                }
                over.push((i, s));
                kids.swap_remove(k);
                continue;
            }
            let at = progress(&dir, i);
            let (last, since) = &mut seen[i as usize];
            if at != *last {
                (*last, *since) = (at, Instant::now());
            }
            let stuck = since.elapsed() > patience;
            if stuck || t0.elapsed() > limit {
                let _ = ch.kill();
                let _ = ch.wait();
                if stuck && t0.elapsed() < limit && again.insert((i, at)) {
                    *since = Instant::now();
                    let me = [i.to_string(), n.to_string(), dir.to_str().unwrap().to_string(), at.to_string()];
                    let mut args = vec!["--worker", &me[0], &me[1], &me[2]];
                    if at < u64::MAX - 1000 {
                        args.push(&me[3]);
                    }
                    eprintln!("{}: worker {i} is stuck in case {at}; trying again", spec.id);
                    *ch = self_cmd(a, &args).spawn().expect("spawn worker");
                    k += 1;
                    continue;
                }
                error = Some(format!("worker {i} did not finish within the time limit (case {at})"));
                if stuck && a.tier != "thorough" {
                    limit = limit.min(Duration::from_secs(420));
                }
                if stuck && restarts < 24 && t0.elapsed() < limit {
                    restarts += 1;
                    *since = Instant::now();
                    let next = if at > u64::MAX - 1000 { i } else { at + n };
                    *ch = self_cmd(a, &["--worker", &i.to_string(), &n.to_string(), dir.to_str().unwrap(), &next.to_string()]).spawn().expect("spawn worker");
                } else {
                    kids.swap_remove(k);
                    continue;
                }
            }
            k += 1;
        }
    }
    over.sort_by_key(|o| o.0);
    for (i, s) in over {
        let i = &i;
        match s {
            s if s.success() => {
                // A failing case can leave the worker's memory in disorder, its report included.
                let report = std::fs::read(dir.join(format!("out-{i}.json"))).unwrap_or_default();
                let Ok(o) = serde_json::from_str::<WorkerOut>(&String::from_utf8_lossy(&report)) else {
                    fails.push((progress(&dir, *i), "the process garbled its own report".into(), true));
                    continue;
                };
                merged.evals += o.evals;
                merged.nontrivial += o.nontrivial;
                merged.enumerated += o.enumerated;
                merged.corpus += o.corpus;
                for (k, v) in o.labels {
                    *merged.labels.entry(k).or_insert(0) += v;
                }
                if merged.samples.len() < 4 {
                    merged.samples.extend(o.samples);
                }
                for c in std::fs::read(dir.join(format!("distinct-{i}"))).unwrap().chunks_exact(8) {
                    distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
                }
                if let Some((k, m)) = o.fail {
                    fails.push((k, m, false));
                }
                merged.enum_fail = merged.enum_fail.take().or(o.enum_fail);
                merged.corpus_fail = merged.corpus_fail.take().or(o.corpus_fail);
            }
            s => match describe(s) {
                Some(m) => fails.push((progress(&dir, *i), m, true)),
                None => error = Some(format!("worker {i} ended with {s}")),
            },
        }
    }
    fails.sort();
    let replay_dir = verif_dir().join("replay");
    std::fs::create_dir_all(&replay_dir).expect("replay directory");
    let mut violation: Option<(String, PathBuf)> = None;
    if let Some((f, m)) = &merged.corpus_fail {
        violation = Some((format!("saved case fails: {m}"), PathBuf::from(f)));
    }
    if let Some(m) = &merged.enum_fail {
        let p = replay_dir.join(format!("{}-enumerated.txt", spec.id));
        std::fs::write(&p, m).unwrap();
        violation = Some((m.clone(), p));
    }
    if violation.is_none() {
        for (idx, m, hard) in fails.iter().cloned() {
            if error.is_some() && a.tier != "thorough" && t0.elapsed() > Duration::from_secs(560) {
                break;
            }
            if idx > u64::MAX - 1000 {
                let p = replay_dir.join(format!("{}-fixed.txt", spec.id));
                std::fs::write(&p, &m).unwrap();
                violation = Some((format!("in a saved or enumerated case: {m}"), p));
                break;
            }
            let p = replay_dir.join(format!("{}-seed{}-case{}.json", spec.id, a.seed as i64, idx));
            let _ = std::fs::remove_file(&p);
            let mut ch = self_cmd(a, &["--shrink", &idx.to_string(), p.to_str().unwrap(), if hard { "1" } else { "0" }])
                .stdout(Stdio::null())
                .stderr(Stdio::null())
                .spawn()
                .expect("spawn shrinker");
            wait_for(&mut ch, Duration::from_secs(60));
            if !p.exists() {
                let strats = Strats::new(spec);
                write_replay(&p, spec.id, &m, &strats.tree(spec, a.tier == "thorough", a.seed, idx).current());
            }
            // The verdict rests on the replay file alone, run in a fresh process.
            let verdict = |p: &Path, limit| outcome_of_child(&mut self_cmd(a, &["--inner", p.to_str().unwrap()]), limit);
            if let Some(m2) = verdict(&p, Duration::from_secs(60)) {
                violation = Some((m2, p));
                break;
            }
            // Not by itself: perhaps after the cases before it, which leave something behind.
            let _ = std::fs::remove_file(&p);
            let first = idx % n;
            let mut back = 1u64;
            let t1 = Instant::now();
            while violation.is_none() && t1.elapsed() < Duration::from_secs(180) {
                let from = if back * n > idx { first } else { idx - back * n };
                let s = Stripe { property: spec.id.into(), what: m.clone(), tier: a.tier.clone(), seed: a.seed, step: n, from, idx };
                std::fs::write(&p, serde_json::to_string_pretty(&s).unwrap()).expect("write replay");
                violation = verdict(&p, Duration::from_secs(180)).map(|m2| (m2, p.clone()));
                if from == first {
                    break;
                }
                back *= 4;
            }
            if violation.is_some() {
                break;
            }
            let _ = std::fs::remove_file(&p);
            error = Some(format!("case {idx} failed ({m}) but its replay passes"));
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    let ev = serde_json::json!({
        "property": spec.id,
        "tier": a.tier,
        "seed": a.seed as i64,
        "level": "exploration",
        "coverage": {
            "evaluations": merged.evals + merged.enumerated + merged.corpus,
            "distinct_nontrivial": distinct.len() as u64,
            "rule": spec.rule,
            "samples": merged.samples.iter().take(4).map(|s| serde_json::from_str::<serde_json::Value>(s).unwrap()).collect::<Vec<_>>(),
            "generated": merged.evals,
            "nontrivial": merged.nontrivial,
            "enumerated": merged.enumerated,
            "saved_cases_replayed": merged.corpus,
            "classes": merged.labels,
        },
        "assumptions": spec.assumptions,
        "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0,
        "violations": violation.is_some() as u64,
    });
    let evp = verif_dir().join("evidence");
    std::fs::create_dir_all(&evp).ok();
    std::fs::write(evp.join(format!("{}.json", spec.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    if let Some((m, p)) = violation {
        println!("{}: {m}", spec.id);
        println!("VIOLATION property={} replay={}", spec.id, p.display());
        std::io::stdout().flush().ok();
        std::process::exit(1)
    }
    if let Some(e) = error {
        eprintln!("{}: no verdict: {e}", spec.id);
        std::process::exit(2)
    }
    println!(
        "{} ok: {} cases, {} distinct non-trivial, {:.1} s",
        spec.id,
        merged.evals + merged.enumerated + merged.corpus,
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    std::process::exit(0)
}

fn progress(dir: &Path, i: u64) -> u64 {
    std::fs::read(dir.join(format!("progress-{i}"))).ok().and_then(|b| b.try_into().ok()).map(u64::from_le_bytes).unwrap_or(0)
}
