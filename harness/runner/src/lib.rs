//! Generic driver of the property checks.
//!
//! A check is a proptest strategy for a serialisable *case* plus an oracle over it.  The driver
//! runs it in worker processes, a pure function of (code, VERIF_SEED, tier), shrinks the first
//! failure, writes it as a replay file, and writes the evidence file.

use proptest::strategy::{BoxedStrategy, Strategy};
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value as Json};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// `q` in the quick tier, `t` in the thorough one
    pub fn pick<T>(self, q: T, t: T) -> T {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// why a case fails
#[derive(Debug, Clone)]
pub struct Fail {
    /// exact signature, for the known-findings file
    pub sig: String,
    pub msg: String,
}

impl Fail {
    pub fn new(msg: impl Into<String>) -> Self {
        let msg = msg.into();
        Fail {
            sig: msg.clone(),
            msg,
        }
    }
}

pub type Res = Result<(), Fail>;

#[macro_export]
macro_rules! check {
    ($cond:expr, $($fmt:tt)+) => {
        if !($cond) {
            return Err($crate::Fail::new(format!($($fmt)+)));
        }
    };
}

#[macro_export]
macro_rules! check_eq {
    ($a:expr, $b:expr, $($fmt:tt)+) => {{
        let (a, b) = (&$a, &$b);
        if a != b {
            return Err($crate::Fail::new(format!(
                "{}: {} = {:?}, expected {} = {:?}",
                format!($($fmt)+), stringify!($a), a, stringify!($b), b
            )));
        }
    }};
}

/// turn an unexpected `Err` of the code under test into a failure
pub trait OrFail<T> {
    fn or_fail(self, what: &str) -> Result<T, Fail>;
}
impl<T, E: Debug> OrFail<T> for Result<T, E> {
    fn or_fail(self, what: &str) -> Result<T, Fail> {
        self.map_err(|e| Fail::new(format!("{what}: unexpected error {e:?}")))
    }
}
impl<T> OrFail<T> for Option<T> {
    fn or_fail(self, what: &str) -> Result<T, Fail> {
        self.ok_or_else(|| Fail::new(format!("{what}: unexpected None")))
    }
}

/// per-case context
pub struct Cx {
    labels: Vec<String>,
    nontrivial: bool,
    dir: PathBuf,
    used_dir: bool,
}

impl Cx {
    pub fn label(&mut self, s: impl Into<String>) {
        let s = s.into();
        if !self.labels.contains(&s) {
            self.labels.push(s);
        }
    }
    /// this case exercises what the property is about
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    pub fn nontrivial_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    /// a scratch directory of this case, removed after it
    pub fn dir(&mut self) -> PathBuf {
        if !self.used_dir {
            fs::create_dir_all(&self.dir).expect("scratch");
            self.used_dir = true;
        }
        self.dir.clone()
    }
}

impl Drop for Cx {
    fn drop(&mut self) {
        if self.used_dir {
            let _ = fs::remove_dir_all(&self.dir);
        }
    }
}

pub trait Check: Sync {
    type Case: Serialize + DeserializeOwned + Debug + Clone + 'static;
    const ID: &'static str;
    /// how cases are made and what makes one non-trivial
    const RULE: &'static str;
    const ASSUMPTIONS: &'static [&'static str] = &[];
    /// shrinking re-runs cases; pointless when the failure is a race
    const SHRINK_ITERS: u32 = 3000;
    const WORKERS: u32 = 8;
    /// how often a replay file is re-run (races)
    const REPLAY_RUNS: u32 = 1;
    /// seconds after which a case is taken not to end (it is run once more, then reported); the
    /// longest ones take around a second
    const STUCK_AFTER: u64 = 90;
    fn strategy(tier: Tier) -> BoxedStrategy<Self::Case>;
    fn cases(tier: Tier) -> u32;
    /// fixed cases that always run (boundaries, regressions)
    fn directed(_tier: Tier) -> Vec<Self::Case> {
        vec![]
    }
    fn run(case: &Self::Case, cx: &mut Cx) -> Res;
}

pub trait DynCheck: Sync {
    fn id(&self) -> &'static str;
    fn workers(&self) -> u32;
    fn rule(&self) -> &'static str;
    fn assumptions(&self) -> &'static [&'static str];
    fn worker(&self, k: u32, n: u32, seed: u64, tier: Tier, dir: &Path);
    fn replay(&self, case: Json, dir: &Path) -> Result<Option<Fail>, String>;
    fn stuck_after(&self) -> Duration;
}

pub struct Of<C: Check>(pub std::marker::PhantomData<fn() -> C>);
pub const fn of<C: Check>() -> Of<C> {
    Of(std::marker::PhantomData)
}

#[derive(Serialize, Deserialize, Default)]
struct WorkerOut {
    evaluations: u64,
    nontrivial: u64,
    known_hits: BTreeMap<String, u64>,
    labels: BTreeMap<String, u64>,
    samples: Vec<Json>,
    failure: Option<(Json, String, String)>,
}

fn hash(bytes: &[u8]) -> u64 {
    // FNV-1a with a finalizer: stable across runs
    let mut h: u64 = 0xcbf29ce484222325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x100000001b3);
    }
    h ^= h >> 33;
    h = h.wrapping_mul(0xff51afd7ed558ccd);
    h ^ (h >> 33)
}

fn seed_bytes(id: &str, seed: u64, k: u32) -> [u8; 32] {
    let mut out = [0u8; 32];
    for i in 0..4u64 {
        let mut b = id.as_bytes().to_vec();
        b.extend(seed.to_le_bytes());
        b.extend(k.to_le_bytes());
        b.extend(i.to_le_bytes());
        out[(i * 8) as usize..(i * 8 + 8) as usize].copy_from_slice(&hash(&b).to_le_bytes());
    }
    out
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let s = info.to_string();
        LAST_PANIC.with(|p| *p.borrow_mut() = s);
    }));
}

/// memory that grows without bounds ends the case, not the sandbox
fn limit_memory() {
    let l = libc::rlimit {
        rlim_cur: 3 << 30,
        rlim_max: 3 << 30,
    };
    unsafe {
        libc::setrlimit(libc::RLIMIT_DATA, &l);
    }
}

fn known_signatures(id: &str) -> Vec<(String, String)> {
    let path = verif_root().join("KNOWN_FINDINGS.txt");
    let mut out = vec![];
    for line in fs::read_to_string(path).unwrap_or_default().lines() {
        // known: property=C01 sig="..." what fails
        if let Some(rest) = line.strip_prefix(&format!("known: property={id} sig=\"")) {
            if let Some((sig, what)) = rest.split_once('"') {
                out.push((sig.to_string(), what.trim().to_string()));
            }
        }
    }
    out
}

fn run_caught<C: Check>(case: &C::Case, cx: &mut Cx) -> Res {
    match catch_unwind(AssertUnwindSafe(|| C::run(case, cx))) {
        Ok(r) => r,
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            Err(Fail::new(format!("panicked: {m}")))
        }
    }
}

impl<C: Check> DynCheck for Of<C> {
    fn id(&self) -> &'static str {
        C::ID
    }
    fn workers(&self) -> u32 {
        C::WORKERS
    }
    fn rule(&self) -> &'static str {
        C::RULE
    }
    fn assumptions(&self) -> &'static [&'static str] {
        C::ASSUMPTIONS
    }
    fn stuck_after(&self) -> Duration {
        Duration::from_secs(C::STUCK_AFTER)
    }

    fn worker(&self, k: u32, n: u32, seed: u64, tier: Tier, dir: &Path) {
        quiet_panics();
        limit_memory();
        let known: Vec<String> = known_signatures(C::ID).into_iter().map(|x| x.0).collect();
        let wdir = dir.join(format!("w{k}"));
        fs::create_dir_all(&wdir).expect("worker scratch");
        let out = RefCell::new(WorkerOut::default());
        let hashes: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
        let counter = RefCell::new(0u64);
        let cur = RefCell::new(CurFile::new(&wdir.join("cur.json")));

        let exec = |case: &C::Case| -> Res {
            let text = serde_json::to_vec(case).expect("case serialises");
            cur.borrow_mut().set(&text);
            let i = {
                let mut c = counter.borrow_mut();
                *c += 1;
                *c
            };
            let mut cx = Cx {
                labels: vec![],
                nontrivial: false,
                dir: wdir.join(format!("c{i}")),
                used_dir: false,
            };
            let r = run_caught::<C>(case, &mut cx);
            let mut o = out.borrow_mut();
            let counting = o.failure.is_none();
            if counting {
                o.evaluations += 1;
                for l in &cx.labels {
                    *o.labels.entry(l.clone()).or_insert(0) += 1;
                }
                if cx.nontrivial {
                    o.nontrivial += 1;
                    if hashes.borrow_mut().insert(hash(&text))
                        && o.samples.len() < 3
                        && text.len() < 3000
                    {
                        o.samples.push(serde_json::from_slice(&text).unwrap());
                    }
                }
            }
            match r {
                Err(f) if known.contains(&f.sig) => {
                    *o.known_hits.entry(f.sig).or_insert(0) += 1;
                    Ok(())
                }
                Err(f) => {
                    // remembers the latest (= smallest so far) failing case
                    o.failure = Some((
                        serde_json::from_slice(&text).unwrap(),
                        f.sig.clone(),
                        f.msg.clone(),
                    ));
                    // in case this process does not come to its end
                    let p = dir.join(format!("fail{k}.json"));
                    let _ = fs::write(p.with_extension("new"), json!([o.failure.as_ref().unwrap().0, f.msg]).to_string())
                        .and_then(|_| fs::rename(p.with_extension("new"), &p));
                    Err(f)
                }
                Ok(()) => Ok(()),
            }
        };

        let mut failed = false;
        for (i, case) in C::directed(tier).iter().enumerate() {
            if i as u32 % n == k && exec(case).is_err() {
                failed = true;
                break;
            }
        }
        if !failed {
            let total = C::cases(tier);
            let mine = total / n + if k < total % n { 1 } else { 0 };
            let config = Config {
                cases: mine,
                failure_persistence: None,
                source_file: None,
                max_shrink_iters: C::SHRINK_ITERS,
                max_shrink_time: 60_000,
                max_global_rejects: mine.saturating_mul(4).max(1000),
                ..Config::default()
            };
            let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(C::ID, seed, k));
            let mut runner = TestRunner::new_with_rng(config, rng);
            let strategy = C::strategy(tier);
            if mine > 0 {
                match runner.run(&strategy, |case| {
                    exec(&case).map_err(|f| TestCaseError::fail(f.msg))
                }) {
                    Ok(()) => {}
                    Err(TestError::Fail(_, minimal)) => {
                        // re-run the minimal case so that its message is the one reported
                        let keep = out.borrow().failure.clone();
                        if exec(&minimal).is_ok() {
                            out.borrow_mut().failure = keep;
                        }
                    }
                    Err(TestError::Abort(why)) => {
                        eprintln!("worker {k}: generator aborted: {why}");
                        std::process::exit(3);
                    }
                }
            }
        }
        let mut buf = Vec::with_capacity(hashes.borrow().len() * 8);
        for h in hashes.borrow().iter() {
            buf.extend(h.to_le_bytes());
        }
        fs::write(dir.join(format!("hashes{k}")), buf).expect("write hashes");
        fs::write(
            dir.join(format!("out{k}.json")),
            serde_json::to_vec(&*out.borrow()).unwrap(),
        )
        .expect("write out");
    }

    fn replay(&self, case: Json, dir: &Path) -> Result<Option<Fail>, String> {
        quiet_panics();
        limit_memory();
        let case: C::Case =
            serde_json::from_value(case).map_err(|e| format!("not a case of {}: {e}", C::ID))?;
        for i in 0..C::REPLAY_RUNS {
            let mut cx = Cx {
                labels: vec![],
                nontrivial: false,
                dir: dir.join(format!("r{i}")),
                used_dir: false,
            };
            if let Err(f) = run_caught::<C>(&case, &mut cx) {
                return Ok(Some(f));
            }
        }
        Ok(None)
    }
}

/// the case being run, kept in a file in case it kills the process
struct CurFile {
    file: fs::File,
}
impl CurFile {
    fn new(path: &Path) -> Self {
        CurFile {
            file: fs::File::create(path).expect("cur file"),
        }
    }
    fn set(&mut self, text: &[u8]) {
        use std::os::unix::fs::FileExt;
        let mut buf = (text.len() as u64).to_le_bytes().to_vec();
        buf.extend_from_slice(text);
        self.file.write_all_at(&buf, 0).expect("cur file");
    }
    fn read(path: &Path) -> Option<Json> {
        let b = fs::read(path).ok()?;
        let n = u64::from_le_bytes(b.get(..8)?.try_into().ok()?) as usize;
        serde_json::from_slice(b.get(8..8 + n)?).ok()
    }
}

pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Scratch(PathBuf);
impl Scratch {
    /// how long worker `k` has been at its case
    fn age(&self, k: u32) -> Duration {
        fs::metadata(self.0.join(format!("w{k}")).join("cur.json"))
            .and_then(|m| m.modified())
            .ok()
            .and_then(|t| t.elapsed().ok())
            .unwrap_or_default()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}
fn scratch(id: &str) -> Scratch {
    let p = std::env::temp_dir().join(format!("vh-{id}-{}", std::process::id()));
    let _ = fs::remove_dir_all(&p);
    fs::create_dir_all(&p).expect("scratch dir");
    Scratch(p)
}

const CRASHES: [i32; 5] = [
    libc::SIGSEGV,
    libc::SIGBUS,
    libc::SIGABRT,
    libc::SIGILL,
    libc::SIGFPE,
];

enum ReplayOutcome {
    Pass,
    Fail(String),
    /// stopped at the time limit
    Late,
    Error(String),
}

fn replay_in_child(id: &str, case: &Json, dir: &Path, limit: Duration) -> ReplayOutcome {
    let f = dir.join("child.json");
    fs::write(&f, json!({"property": id, "case": case}).to_string()).expect("write child case");
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["replay-raw", id])
        .arg(&f)
        .arg(dir.join("child"))
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            let _ = fs::remove_dir_all(dir.join("child"));
            if let Some(sig) = st.signal() {
                return if CRASHES.contains(&sig) {
                    ReplayOutcome::Fail(format!("the process died of signal {sig}"))
                } else {
                    ReplayOutcome::Error(format!("signal {sig}"))
                };
            }
            return match st.code() {
                Some(0) => ReplayOutcome::Pass,
                Some(1) => ReplayOutcome::Fail("fails".into()),
                c => ReplayOutcome::Error(format!("exit {c:?}")),
            };
        }
        if t.elapsed() > limit {
            let _ = child.kill();
            let _ = child.wait();
            let _ = fs::remove_dir_all(dir.join("child"));
            return ReplayOutcome::Late;
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}

/// greedy removal of array elements anywhere in the case, keeping it crashing
fn shrink_crash(id: &str, case: Json, dir: &Path) -> Json {
    fn arrays(v: &Json, path: String, out: &mut Vec<String>) {
        match v {
            Json::Array(a) => {
                out.push(path.clone());
                for (i, x) in a.iter().enumerate() {
                    arrays(x, format!("{path}/{i}"), out);
                }
            }
            Json::Object(o) => {
                for (k, x) in o {
                    arrays(x, format!("{path}/{}", k.replace('~', "~0").replace('/', "~1")), out);
                }
            }
            _ => {}
        }
    }
    let mut best = case;
    let t = Instant::now();
    let mut progress = true;
    while progress && t.elapsed() < Duration::from_secs(60) {
        progress = false;
        let mut paths = vec![];
        arrays(&best, String::new(), &mut paths);
        'paths: for p in paths {
            let mut size = match best.pointer(&p) {
                Some(Json::Array(a)) => a.len().div_ceil(2),
                _ => continue,
            };
            while size > 0 {
                let mut at = 0;
                while let Some(Json::Array(a)) = best.pointer(&p) {
                    if at >= a.len() || t.elapsed() > Duration::from_secs(60) {
                        break;
                    }
                    let mut c = best.clone();
                    if let Some(Json::Array(b)) = c.pointer_mut(&p) {
                        let e = (at + size).min(b.len());
                        b.drain(at..e);
                    }
                    if let ReplayOutcome::Fail(_) =
                        replay_in_child(id, &c, dir, Duration::from_secs(20))
                    {
                        best = c;
                        progress = true;
                        if best.pointer(&p).is_none() {
                            continue 'paths;
                        }
                    } else {
                        at += size;
                    }
                }
                size /= 2;
            }
        }
    }
    best
}

fn write_replay(id: &str, seed: u64, tier: Tier, case: &Json, msg: &str) -> PathBuf {
    let dir = verif_root().join("replays");
    fs::create_dir_all(&dir).expect("replays dir");
    let h = hash(case.to_string().as_bytes());
    let p = dir.join(format!("{id}-{h:016x}.json"));
    let body = json!({"property": id, "seed": seed, "tier": tier.name(), "why": msg, "case": case});
    fs::write(&p, serde_json::to_string_pretty(&body).unwrap() + "\n").expect("write replay");
    p
}

pub type Child = (&'static str, fn(&[String]) -> i32);

/// spawn this binary as the named child (see `main`)
pub fn spawn_child(name: &str, args: &[String]) -> Command {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("child").arg(name).args(args).stdin(Stdio::null());
    c
}

/// entry point of a harness binary; `children` are helper processes of the checks (to be killed)
pub fn main(registry: &[&dyn DynCheck], children: &[Child]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(|s| s.as_str()) == Some("child") {
        for (n, f) in children {
            if *n == args[2] {
                return f(&args[3..]);
            }
        }
        return 9;
    }
    let seed: u64 = std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.parse().ok())
        .unwrap_or(1);
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let find = |id: &str| registry.iter().copied().find(|c| c.id() == id);
    match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for c in registry {
                println!("{}", c.id());
            }
            0
        }
        Some("worker") => {
            let c = find(&args[2]).expect("check");
            c.worker(
                args[3].parse().unwrap(),
                args[4].parse().unwrap(),
                seed,
                tier,
                Path::new(&args[5]),
            );
            0
        }
        Some("replay-raw") => {
            let c = find(&args[2]).expect("check");
            let v: Json = serde_json::from_slice(&fs::read(&args[3]).unwrap()).unwrap();
            match c.replay(v["case"].clone(), Path::new(&args[4])) {
                Ok(None) => 0,
                Ok(Some(f)) => {
                    println!("{}", f.msg);
                    1
                }
                Err(_) => 4,
            }
        }
        Some("replay") => {
            // vh replay FILE: exit 0 if the case passes now, 1 with a VIOLATION line if it fails
            let file = PathBuf::from(&args[2]);
            let v: Json = serde_json::from_slice(&fs::read(&file).expect("replay file")).unwrap();
            let id = v["property"].as_str().expect("property").to_string();
            let Some(c) = find(&id) else {
                eprintln!("no check {id} here");
                return 2;
            };
            let s = scratch(&format!("{id}-replay"));
            match replay_in_child(&id, &v["case"], &s.0, Duration::from_secs(300)) {
                ReplayOutcome::Pass => {
                    println!("{id}: the case of {} passes", file.display());
                    0
                }
                ReplayOutcome::Fail(m) => {
                    let m = if m == "fails" {
                        match c.replay(v["case"].clone(), &s.0) {
                            Ok(Some(f)) => f.msg,
                            _ => m,
                        }
                    } else {
                        m
                    };
                    println!("{m}");
                    println!("VIOLATION property={id} replay={}", file.display());
                    1
                }
                ReplayOutcome::Late => {
                    println!("the case does not come to an end");
                    println!("VIOLATION property={id} replay={}", file.display());
                    1
                }
                ReplayOutcome::Error(m) => {
                    eprintln!("replay error: {m}");
                    2
                }
            }
        }
        Some("check") => {
            let id = args[2].clone();
            match find(&id) {
                Some(c) => drive(c, seed, tier),
                None => {
                    eprintln!("no check {id}");
                    2
                }
            }
        }
        _ => {
            eprintln!("usage: vh check ID | replay FILE | list");
            2
        }
    }
}

fn drive(c: &dyn DynCheck, seed: u64, tier: Tier) -> i32 {
    let t0 = Instant::now();
    let id = c.id();
    let n = c.workers();
    let s = scratch(id);
    let limit = tier.pick(Duration::from_secs(600), Duration::from_secs(3 * 3600));
    let known = known_signatures(id);
    for (_, what) in &known {
        println!("KNOWN-FINDING: property={id} {what}");
    }
    let mut kids: Vec<_> = (0..n)
        .map(|k| {
            let child = Command::new(std::env::current_exe().unwrap())
                .args(["worker", id, &k.to_string(), &n.to_string()])
                .arg(&s.0)
                .spawn()
                .expect("spawn worker");
            (k, child, None::<std::process::ExitStatus>)
        })
        .collect();
    let mut timed_out = false;
    // workers stopped in a case that would not end
    let mut stuck: HashSet<u32> = HashSet::new();
    // the others need not go on for long once one has failed
    let mut failed: Option<Instant> = None;
    let mut looked = Instant::now();
    while kids.iter().any(|x| x.2.is_none()) {
        let look = looked.elapsed() > Duration::from_secs(1);
        if look {
            looked = Instant::now();
        }
        for (k, ch, st) in kids.iter_mut() {
            if st.is_none() {
                *st = ch.try_wait().expect("wait");
            }
            if st.is_none() && look && s.age(*k) > c.stuck_after() {
                let _ = ch.kill();
                *st = Some(ch.wait().expect("wait"));
                stuck.insert(*k);
            }
        }
        if look && failed.is_none() && (0..n).any(|k| s.0.join(format!("fail{k}.json")).exists()) {
            failed = Some(Instant::now());
        }
        let late = t0.elapsed() > limit;
        if late || failed.is_some_and(|t| t.elapsed() > Duration::from_secs(150)) {
            timed_out |= late;
            for (_, ch, st) in kids.iter_mut() {
                if st.is_none() {
                    let _ = ch.kill();
                    *st = Some(ch.wait().expect("wait"));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let mut total = WorkerOut::default();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut failures: Vec<(u32, Json, String)> = vec![];
    let mut errors: Vec<String> = vec![];
    for (k, _, st) in &kids {
        let st = st.as_ref().unwrap();
        if st.success() {
            let o: WorkerOut =
                serde_json::from_slice(&fs::read(s.0.join(format!("out{k}.json"))).unwrap())
                    .unwrap();
            for h in fs::read(s.0.join(format!("hashes{k}"))).unwrap().chunks(8) {
                distinct.insert(u64::from_le_bytes(h.try_into().unwrap()));
            }
            total.evaluations += o.evaluations;
            total.nontrivial += o.nontrivial;
            for (l, x) in o.labels {
                *total.labels.entry(l).or_insert(0) += x;
            }
            for (l, x) in o.known_hits {
                *total.known_hits.entry(l).or_insert(0) += x;
            }
            for x in o.samples {
                if total.samples.len() < 6 {
                    total.samples.push(x);
                }
            }
            if let Some((case, _, msg)) = o.failure {
                failures.push((*k, case, msg));
            }
        } else if let Some((case, msg)) = fs::read(s.0.join(format!("fail{k}.json")))
            .ok()
            .and_then(|b| serde_json::from_slice::<(Json, String)>(&b).ok())
        {
            failures.push((*k, case, msg));
        } else if let Some(sig) = st.signal() {
            let cur = CurFile::read(&s.0.join(format!("w{k}")).join("cur.json"));
            match cur {
                // one that does not end is enough
                Some(_) if stuck.contains(k) && !failures.is_empty() => {}
                Some(case) if stuck.contains(k) => {
                    match replay_in_child(id, &case, &s.0, c.stuck_after()) {
                        ReplayOutcome::Late => {
                            failures.push((*k, case, "the case does not come to an end".into()))
                        }
                        ReplayOutcome::Fail(m) => failures.push((*k, case, m)),
                        _ => errors.push(format!("worker {k} took too long for a case")),
                    }
                }
                Some(case) if CRASHES.contains(&sig) => {
                    let case = match replay_in_child(id, &case, &s.0, Duration::from_secs(60)) {
                        ReplayOutcome::Fail(_) => shrink_crash(id, case, &s.0),
                        _ => case,
                    };
                    failures.push((*k, case, format!("the process died of signal {sig}")));
                }
                _ => errors.push(format!("worker {k} ended by signal {sig}")),
            }
        } else {
            errors.push(format!("worker {k} ended with {st}"));
        }
    }
    if timed_out {
        errors.push(format!("time limit of {limit:?}"));
    }
    failures.sort_by_key(|f| f.1.to_string().len());
    let evidence = json!({
        "property": id,
        "tier": tier.name(),
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total.evaluations,
            "distinct_nontrivial": distinct.len(),
            "nontrivial_evaluations": total.nontrivial,
            "rule": c.rule(),
            "samples": total.samples,
            "labels": total.labels,
            "known_finding_hits": total.known_hits,
            "workers": n,
        },
        "assumptions": c.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": failures.len(),
    });
    let ev = verif_root().join("evidence");
    fs::create_dir_all(&ev).expect("evidence dir");
    fs::write(
        ev.join(format!("{id}.json")),
        serde_json::to_string_pretty(&evidence).unwrap() + "\n",
    )
    .expect("write evidence");
    println!(
        "{id}: {} cases, {} distinct non-trivial, {:.1} s",
        total.evaluations,
        distinct.len(),
        t0.elapsed().as_secs_f64()
    );
    if let Some((_, case, msg)) = failures.first() {
        let p = write_replay(id, seed, tier, case, msg);
        println!("{}", msg.chars().take(3000).collect::<String>());
        println!("VIOLATION property={id} replay={}", p.display());
        let _ = std::io::stdout().flush();
        return 1;
    }
    if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR {id}: {e}");
        }
        return 2;
    }
    if total.evaluations > 0 && distinct.is_empty() {
        eprintln!("ERROR {id}: no non-trivial case was generated");
        return 2;
    }
    0
}

/// small helper: an index into a slice from a generated number
pub fn pick<T>(xs: &[T], i: usize) -> Option<&T> {
    if xs.is_empty() {
        None
    } else {
        xs.get(i % xs.len())
    }
}

pub fn boxed<S>(s: S) -> BoxedStrategy<S::Value>
where
    S: Strategy + 'static,
{
    s.boxed()
}
