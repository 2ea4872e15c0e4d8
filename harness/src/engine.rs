//! The property runner: deterministic case generation, parallel execution, shrinking,
//! crash isolation, evidence and replay files.
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    pub fn from_env() -> Tier {
        match std::env::var("VERIF_TIER").as_deref() {
            Ok("thorough") => Tier::Thorough,
            _ => Tier::Quick,
        }
    }
}

pub fn seed_from_env() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse().ok())
        .unwrap_or(1)
}

/// Err(message): the property does not hold for this case.
pub type Verdict = Result<(), String>;

#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: BTreeMap<String, u64>,
    /// Evaluations made inside this case (1 if never set).
    pub evals: u64,
    pub note: Option<String>,
}

impl Ctx {
    pub fn nt(&mut self) {
        self.nontrivial = true;
    }
    pub fn nt_if(&mut self, c: bool) {
        self.nontrivial |= c;
    }
    pub fn label(&mut self, l: &str) {
        *self.labels.entry(l.to_string()).or_insert(0) += 1;
    }
    pub fn label_if(&mut self, c: bool, l: &str) {
        if c {
            self.label(l);
        }
    }
    pub fn eval(&mut self, n: u64) {
        self.evals += n;
    }
}

pub struct Scn<C> {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub strategy: fn(Tier) -> BoxedStrategy<C>,
    pub run: fn(&C, &mut Ctx) -> Verdict,
    /// Labels that have to occur, or the check is vacuous.
    pub need: &'static [&'static str],
}

pub struct Property {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub scenarios: Vec<Box<dyn DynScn>>,
    /// Cases that use more than a minute of CPU time count as non-termination
    /// (only for the property that claims termination).
    pub hang_is_violation: bool,
    /// Probes of the listed known findings: (line to print, still fails?)
    pub known: fn() -> Vec<(String, bool)>,
}

pub fn no_known() -> Vec<(String, bool)> {
    Vec::new()
}

pub enum Outcome {
    Pass,
    Violation(String),
    Harness(String),
}

pub trait DynScn: Sync + Send {
    fn name(&self) -> &'static str;
    fn cases(&self, tier: Tier) -> u64;
    fn need(&self) -> &'static [&'static str];
    fn generate(&self, prop: &str, seed: u64, tier: Tier, idx: u64) -> String;
    fn replay(&self, case: &Value) -> Outcome;
    fn run_thread(&self, job: &Job) -> ThreadStats;
    fn shrink(&self, job: &Job, idx: u64, msg: String) -> (Value, String, u64);
}

pub struct Job<'a> {
    pub prop: &'a str,
    pub seed: u64,
    pub tier: Tier,
    pub scn_idx: usize,
    pub cases: u64,
    pub next: &'a AtomicU64,
    /// Smallest failing case so far.
    pub failed: &'a AtomicU64,
    pub failure: &'a Mutex<Option<(u64, Outcome)>>,
    pub slots: &'a Slots,
    pub thread: usize,
}

#[derive(Default)]
pub struct ThreadStats {
    pub cases: u64,
    pub evals: u64,
    pub nontrivial: HashSet<u64>,
    pub labels: BTreeMap<String, u64>,
    pub samples: Vec<(u64, Value)>,
}

/// Shared page telling the supervisor which case each thread is working on.
pub struct Slots {
    p: *mut u64,
}
unsafe impl Sync for Slots {}
unsafe impl Send for Slots {}

pub const THREADS: usize = 8;

impl Slots {
    pub fn open(path: &Path) -> std::io::Result<Slots> {
        use std::os::unix::io::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)?;
        f.set_len(4096)?;
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                4096,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        if p == libc::MAP_FAILED {
            return Err(std::io::Error::last_os_error());
        }
        Ok(Slots { p: p as *mut u64 })
    }
    fn at(&self, i: usize) -> &AtomicU64 {
        unsafe { &*(self.p.add(i) as *const AtomicU64) }
    }
    pub fn set(&self, thread: usize, scn: usize, idx: u64) {
        self.at(thread)
            .store(((scn as u64 + 1) << 48) | idx, Ordering::SeqCst);
    }
    pub fn clear(&self, thread: usize) {
        self.at(thread).store(0, Ordering::SeqCst);
    }
    pub fn get(&self, thread: usize) -> Option<(usize, u64)> {
        match self.at(thread).load(Ordering::SeqCst) {
            0 => None,
            v => Some(((v >> 48) as usize - 1, v & ((1 << 48) - 1))),
        }
    }
}

fn derive_seed(prop: &str, scn: &str, seed: u64, idx: u64) -> [u8; 32] {
    let mut h = Sha256::new();
    h.update(seed.to_le_bytes());
    h.update(prop.as_bytes());
    h.update([0]);
    h.update(scn.as_bytes());
    h.update([0]);
    h.update(idx.to_le_bytes());
    h.finalize().into()
}

fn runner(prop: &str, scn: &str, seed: u64, idx: u64) -> TestRunner {
    let rng = TestRng::from_seed(
        RngAlgorithm::ChaCha,
        &derive_seed(prop, scn, seed, idx),
    );
    let cfg = Config {
        failure_persistence: None,
        max_shrink_iters: 0,
        ..Config::default()
    };
    TestRunner::new_with_rng(cfg, rng)
}

thread_local! {
    static PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column()))
            .unwrap_or_default();
        let msg = payload_str(info.payload());
        if std::env::var_os("VERIF_DEBUG").is_some() {
            eprintln!("panic at {loc}: {msg}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

fn payload_str(p: &(dyn Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run one closure; panics inside the harness itself are harness errors, panics
/// anywhere else (the library and what it calls) violate the property.
fn guarded(f: impl FnOnce() -> Verdict) -> Outcome {
    PANIC.with(|p| *p.borrow_mut() = None);
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(())) => Outcome::Pass,
        Ok(Err(m)) => Outcome::Violation(m),
        Err(_) => {
            let (loc, msg) = PANIC
                .with(|p| p.borrow_mut().take())
                .unwrap_or((String::new(), "unknown panic".into()));
            if loc.starts_with("src/") || loc.is_empty() {
                Outcome::Harness(format!("harness panic at {loc}: {msg}"))
            } else {
                Outcome::Violation(format!("panic at {loc}: {msg}"))
            }
        }
    }
}

pub fn short(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}… ({} bytes)", &s[..e], s.len())
}

fn hash64(b: &[u8]) -> u64 {
    let d = Sha256::digest(b);
    u64::from_le_bytes(d[..8].try_into().unwrap())
}

impl<C: Serialize + DeserializeOwned + std::fmt::Debug + Clone + 'static> DynScn for Scn<C> {
    fn name(&self) -> &'static str {
        self.name
    }
    fn cases(&self, tier: Tier) -> u64 {
        match tier {
            Tier::Quick => self.quick,
            Tier::Thorough => self.thorough,
        }
    }
    fn need(&self) -> &'static [&'static str] {
        self.need
    }
    fn generate(&self, prop: &str, seed: u64, tier: Tier, idx: u64) -> String {
        let st = (self.strategy)(tier);
        let tree = st
            .new_tree(&mut runner(prop, self.name, seed, idx))
            .expect("strategy");
        serde_json::to_string(&tree.current()).expect("serialise case")
    }
    fn replay(&self, case: &Value) -> Outcome {
        let c: C = match serde_json::from_value(case.clone()) {
            Ok(c) => c,
            Err(e) => return Outcome::Harness(format!("cannot read case: {e}")),
        };
        let mut ctx = Ctx::default();
        guarded(|| (self.run)(&c, &mut ctx))
    }
    fn run_thread(&self, job: &Job) -> ThreadStats {
        let st = (self.strategy)(job.tier);
        let mut stats = ThreadStats::default();
        loop {
            let idx = job.next.fetch_add(1, Ordering::SeqCst);
            if idx >= job.cases || idx > job.failed.load(Ordering::SeqCst) {
                break;
            }
            let tree = st
                .new_tree(&mut runner(job.prop, self.name, job.seed, idx))
                .expect("strategy");
            let case = tree.current();
            drop(tree);
            let mut ctx = Ctx::default();
            job.slots.set(job.thread, job.scn_idx, idx);
            let out = guarded(|| (self.run)(&case, &mut ctx));
            job.slots.clear(job.thread);
            stats.cases += 1;
            stats.evals += ctx.evals.max(1);
            for (k, v) in ctx.labels {
                *stats.labels.entry(k).or_insert(0) += v;
            }
            if ctx.nontrivial {
                let js = serde_json::to_vec(&case).expect("serialise case");
                stats.nontrivial.insert(hash64(&js));
                if stats.samples.len() < 2 {
                    let mut s = short(&String::from_utf8_lossy(&js), 600);
                    if let Some(n) = ctx.note {
                        s = format!("{s} => {n}");
                    }
                    stats
                        .samples
                        .push((idx, json!({"scenario": self.name, "case": s})));
                }
            }
            if !matches!(out, Outcome::Pass) {
                job.failed.fetch_min(idx, Ordering::SeqCst);
                let mut f = job.failure.lock().unwrap();
                if f.as_ref().map_or(true, |(i, _)| idx < *i) {
                    *f = Some((idx, out));
                }
            }
        }
        stats
    }
    fn shrink(&self, job: &Job, idx: u64, msg: String) -> (Value, String, u64) {
        let st = (self.strategy)(job.tier);
        let mut tree = st
            .new_tree(&mut runner(job.prop, self.name, job.seed, idx))
            .expect("strategy");
        let mut best = tree.current();
        let mut best_msg = msg;
        let start = Instant::now();
        let mut steps = 0u64;
        let mut more = tree.simplify();
        // Should a simpler case bring the process down, this one is reported as it is
        job.slots.set(job.thread, job.scn_idx, idx);
        while more && steps < 3000 && start.elapsed() < Duration::from_secs(60) {
            steps += 1;
            let c = tree.current();
            let mut ctx = Ctx::default();
            match guarded(|| (self.run)(&c, &mut ctx)) {
                Outcome::Violation(m) => {
                    best = c;
                    best_msg = m;
                    more = tree.simplify();
                }
                _ => more = tree.complicate(),
            }
        }
        job.slots.clear(job.thread);
        (
            serde_json::to_value(&best).expect("serialise case"),
            best_msg,
            steps,
        )
    }
}

// ---------------------------------------------------------------------------------------

pub fn verif_root() -> PathBuf {
    std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| {
            PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/.."))
                .canonicalize()
                .expect("verif root")
        })
}

/// Scratch directory of this process, removed by the supervisor.
pub fn scratch() -> PathBuf {
    PathBuf::from(std::env::var_os("VERIF_SCRATCH").expect("VERIF_SCRATCH"))
}

fn write_replay(prop: &str, scn: &str, case: &Value, msg: &str, extra: Value) -> PathBuf {
    let dir = verif_root().join("replays");
    std::fs::create_dir_all(&dir).expect("create replays");
    let body = json!({
        "property": prop, "scenario": scn, "message": msg, "case": case, "info": extra,
    });
    let s = serde_json::to_string(&body).unwrap();
    let p = dir.join(format!(
        "{}-{}-{:08x}.json",
        prop,
        scn.replace(' ', "-"),
        hash64(serde_json::to_string(case).unwrap().as_bytes()) as u32
    ));
    std::fs::write(&p, s).expect("write replay");
    p
}

/// Runs in the worker process: all scenarios of one property. Writes the result file.
pub fn worker(p: &Property, tier: Tier, seed: u64, slots: &Path, out: &Path) {
    install_panic_hook();
    let slots = Slots::open(slots).expect("slots");
    let mut total = ThreadStats::default();
    let mut per = Vec::new();
    let mut failure: Option<Value> = None;
    for (si, scn) in p.scenarios.iter().enumerate() {
        if let Ok(only) = std::env::var("VERIF_ONLY") {
            if only != scn.name() {
                continue;
            }
        }
        let started = Instant::now();
        let mut cases = scn.cases(tier);
        if let Some(f) = std::env::var("VERIF_FACTOR")
            .ok()
            .and_then(|f| f.parse::<f64>().ok())
        {
            cases = ((cases as f64 * f) as u64).max(1);
        }
        let next = AtomicU64::new(0);
        let failed = AtomicU64::new(u64::MAX);
        let fail = Mutex::new(None);
        let mk = |t| Job {
            prop: p.id,
            seed,
            tier,
            scn_idx: si,
            cases,
            next: &next,
            failed: &failed,
            failure: &fail,
            slots: &slots,
            thread: t,
        };
        let stats: Vec<ThreadStats> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..THREADS)
                .map(|t| {
                    let job = mk(t);
                    std::thread::Builder::new()
                        .stack_size(64 << 20)
                        .spawn_scoped(s, move || scn.run_thread(&job))
                        .expect("spawn")
                })
                .collect();
            hs.into_iter()
                .map(|h| h.join().expect("worker thread"))
                .collect()
        });
        let mut labels: BTreeMap<String, u64> = BTreeMap::new();
        let (mut n, mut e) = (0, 0);
        let mut nt: HashSet<u64> = HashSet::new();
        let mut samples = Vec::new();
        for s in stats {
            n += s.cases;
            e += s.evals;
            nt.extend(s.nontrivial);
            samples.extend(s.samples);
            for (k, v) in s.labels {
                *labels.entry(k).or_insert(0) += v;
            }
        }
        samples.sort_by_key(|(i, _)| *i);
        samples.truncate(2);
        per.push(json!({
            "scenario": scn.name(), "cases": n, "evaluations": e, "distinct_nontrivial": nt.len(),
            "classes": labels, "wall_s": (started.elapsed().as_millis() as f64) / 1000.0,
        }));
        total.cases += n;
        total.evals += e;
        total.nontrivial.extend(nt);
        total.samples.extend(samples);
        let f = fail.lock().unwrap().take();
        if let Some((idx, o)) = f {
            failure = Some(match o {
                Outcome::Violation(msg) => {
                    let job = mk(0);
                    let (case, msg, steps) = std::thread::scope(|s| {
                        std::thread::Builder::new()
                            .stack_size(64 << 20)
                            .spawn_scoped(s, move || scn.shrink(&job, idx, msg))
                            .expect("spawn")
                            .join()
                            .expect("shrink thread")
                    });
                    let path = write_replay(
                        p.id,
                        scn.name(),
                        &case,
                        &msg,
                        json!({"seed": seed, "index": idx, "tier": tier.name(), "shrink_steps": steps}),
                    );
                    json!({"kind": "violation", "message": msg, "replay": path})
                }
                Outcome::Harness(m) => {
                    json!({"kind": "harness", "message": format!("{} case {}: {}", scn.name(), idx, m)})
                }
                Outcome::Pass => unreachable!(),
            });
            break;
        }
        for need in scn.need() {
            if labels.get(*need).copied().unwrap_or(0) == 0 {
                failure = Some(json!({"kind": "harness",
                    "message": format!("{}: class '{}' never occurred", scn.name(), need)}));
            }
        }
        if failure.is_some() {
            break;
        }
    }
    let res = json!({
        "evaluations": total.evals, "cases": total.cases,
        "distinct_nontrivial": total.nontrivial.len(),
        "samples": total.samples.into_iter().map(|(_, s)| s).collect::<Vec<_>>(),
        "scenarios": per, "failure": failure,
    });
    std::fs::write(out, serde_json::to_vec(&res).unwrap()).expect("write result");
}

fn signal_of(st: &std::process::ExitStatus) -> Option<i32> {
    use std::os::unix::process::ExitStatusExt;
    st.signal()
}

fn is_crash(sig: i32) -> bool {
    [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig)
}

/// Replay a case in a process of its own with a CPU-time limit.
fn replay_child(scratch: &Path, file: &Path, cpu: u64) -> std::process::ExitStatus {
    use std::os::unix::process::CommandExt;
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("replay")
        .arg(file)
        .env("VERIF_SCRATCH", scratch)
        .stdout(Stdio::null())
        .stderr(Stdio::null());
    unsafe {
        c.pre_exec(move || {
            let r = libc::rlimit {
                rlim_cur: cpu,
                rlim_max: cpu + 5,
            };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            let z = libc::rlimit {
                rlim_cur: 0,
                rlim_max: 0,
            };
            libc::setrlimit(libc::RLIMIT_CORE, &z);
            Ok(())
        });
    }
    c.status().expect("replay child")
}

struct RemoveDir(PathBuf);
impl Drop for RemoveDir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Supervises a worker; returns the exit code of the check.
pub fn check(p: &Property) -> i32 {
    let (tier, seed) = (Tier::from_env(), seed_from_env());
    let started = Instant::now();
    let root = verif_root();
    let scratch = std::env::temp_dir().join(format!("kdbx-verif-{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch");
    let _rm = RemoveDir(scratch.clone());
    let slots_path = scratch.join("slots");
    let out = scratch.join("result.json");
    let slots = Slots::open(&slots_path).expect("slots");
    let mut child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", p.id])
        .arg(&slots_path)
        .arg(&out)
        .env("VERIF_SCRATCH", &scratch)
        .env("RUST_BACKTRACE", "0")
        .stdout(Stdio::null())
        .stderr(if std::env::var_os("VERIF_DEBUG").is_some() {
            Stdio::inherit()
        } else {
            Stdio::null()
        })
        .spawn()
        .expect("spawn worker");
    // (case, since, already replayed)
    let mut watch: Vec<(Option<(usize, u64)>, Instant, bool)> =
        vec![(None, Instant::now(), false); THREADS];
    let mut crash: Option<(i32, Vec<(usize, u64)>)> = None;
    let mut hang: Option<(usize, u64)> = None;
    let status = loop {
        if let Some(st) = child.try_wait().expect("wait") {
            break st;
        }
        std::thread::sleep(Duration::from_millis(20));
        for (t, w) in watch.iter_mut().enumerate() {
            let cur = slots.get(t);
            if cur != w.0 {
                *w = (cur, Instant::now(), false);
            } else if let (Some((si, idx)), false) = (cur, w.2) {
                if w.1.elapsed() > Duration::from_secs(90) {
                    w.2 = true;
                    let f = scratch.join("hang.json");
                    let case = p.scenarios[si].generate(p.id, seed, tier, idx);
                    let case: Value = serde_json::from_str(&case).unwrap();
                    std::fs::write(
                        &f,
                        serde_json::to_vec(&json!({"property": p.id,
                            "scenario": p.scenarios[si].name(), "case": case}))
                        .unwrap(),
                    )
                    .unwrap();
                    let st = replay_child(&scratch, &f, 60);
                    if signal_of(&st) == Some(libc::SIGXCPU) {
                        hang = Some((si, idx));
                        let _ = child.kill();
                    }
                }
            }
        }
        if hang.is_some() {
            break child.wait().expect("wait");
        }
    };
    if let Some(sig) = signal_of(&status) {
        if is_crash(sig) {
            crash = Some((sig, (0..THREADS).filter_map(|t| slots.get(t)).collect()));
        }
    }
    let mut evidence = json!({
        "property": p.id, "tier": tier.name(), "seed": seed, "level": p.level,
        "assumptions": p.assumptions, "violations": 0,
    });
    let mut code;
    let write_case = |si: usize, idx: u64, msg: &str| -> PathBuf {
        let case: Value =
            serde_json::from_str(&p.scenarios[si].generate(p.id, seed, tier, idx)).unwrap();
        write_replay(
            p.id,
            p.scenarios[si].name(),
            &case,
            msg,
            json!({"seed": seed, "index": idx, "tier": tier.name()}),
        )
    };
    if let Some((si, idx)) = hang {
        let msg = "uses more than 60 seconds of CPU time without coming to an end";
        let path = write_case(si, idx, msg);
        evidence["coverage"] = json!({"evaluations": idx, "distinct_nontrivial": 0, "rule": p.rule,
            "samples": [path.display().to_string()]});
        if p.hang_is_violation {
            println!("{}: {}", p.scenarios[si].name(), msg);
            println!("VIOLATION property={} replay={}", p.id, path.display());
            evidence["violations"] = json!(1);
            code = 1;
        } else {
            println!("ERROR: case {} {}", path.display(), msg);
            code = 3;
        }
    } else if let Some((sig, cands)) = crash {
        code = 2;
        let mut tried = Vec::new();
        for (si, idx) in cands {
            let msg = format!("process killed by signal {sig}");
            let path = write_case(si, idx, &msg);
            let st = replay_child(&scratch, &path, 300);
            // In a process of its own the same case may be refuted without a crash
            if signal_of(&st).is_some_and(is_crash) || st.code() == Some(1) {
                println!("{}: {}", p.scenarios[si].name(), msg);
                println!("VIOLATION property={} replay={}", p.id, path.display());
                evidence["violations"] = json!(1);
                tried.push(path.display().to_string());
                code = 1;
                break;
            }
            let _ = std::fs::remove_file(&path);
        }
        if code == 2 {
            println!("ERROR: worker killed by signal {sig}, not reproduced");
        }
        evidence["coverage"] = json!({"evaluations": 1, "distinct_nontrivial": 0, "rule": p.rule,
            "samples": tried});
    } else if !status.success() {
        println!("ERROR: worker ended with {status}");
        return 2;
    } else {
        let res: Value =
            serde_json::from_slice(&std::fs::read(&out).expect("result")).expect("result json");
        evidence["coverage"] = json!({
            "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": p.rule, "samples": res["samples"],
            "cases": res["cases"], "scenarios": res["scenarios"],
        });
        code = 0;
        match res["failure"]["kind"].as_str() {
            Some("violation") => {
                println!("{}", short(res["failure"]["message"].as_str().unwrap(), 2000));
                println!(
                    "VIOLATION property={} replay={}",
                    p.id,
                    res["failure"]["replay"].as_str().unwrap()
                );
                evidence["violations"] = json!(1);
                code = 1;
            }
            Some(_) => {
                println!("ERROR: {}", res["failure"]["message"]);
                code = 2;
            }
            None => {}
        }
        if code == 0 {
            let mut lines = Vec::new();
            for (line, fails) in (p.known)() {
                if fails {
                    println!("KNOWN-FINDING: property={} {}", p.id, line);
                    lines.push(line);
                }
            }
            evidence["coverage"]["known_findings_seen"] = json!(lines);
            println!(
                "{}: held on {} evaluations ({} cases, {} distinct non-trivial)",
                p.id, res["evaluations"], res["cases"], res["distinct_nontrivial"]
            );
        }
    }
    evidence["wall_s"] = json!((started.elapsed().as_millis() as f64) / 1000.0);
    let dir = root.join("evidence");
    if let Err(e) = std::fs::create_dir_all(&dir).and_then(|_| {
        std::fs::write(
            dir.join(format!("{}.json", p.id)),
            serde_json::to_string_pretty(&evidence).unwrap(),
        )
    }) {
        println!("ERROR: cannot write evidence: {e}");
        code = if code == 1 { 1 } else { 2 };
    }
    code
}

/// Re-run one saved case.
pub fn replay(props: &[Property], file: &Path) -> i32 {
    install_panic_hook();
    let v: Value = match std::fs::read(file)
        .map_err(|e| e.to_string())
        .and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string()))
    {
        Ok(v) => v,
        Err(e) => {
            println!("ERROR: {e}");
            return 2;
        }
    };
    let own = std::env::var_os("VERIF_SCRATCH").is_none();
    let dir = std::env::temp_dir().join(format!("kdbx-verif-replay-{}", std::process::id()));
    let _rm = own.then(|| {
        std::fs::create_dir_all(&dir).expect("scratch");
        std::env::set_var("VERIF_SCRATCH", &dir);
        RemoveDir(dir)
    });
    let id = v["property"].as_str().unwrap_or_default();
    let name = v["scenario"].as_str().unwrap_or_default();
    for p in props.iter().filter(|p| p.id == id) {
        for s in p.scenarios.iter().filter(|s| s.name() == name) {
            let out = std::thread::scope(|sc| {
                std::thread::Builder::new()
                    .stack_size(64 << 20)
                    .spawn_scoped(sc, || s.replay(&v["case"]))
                    .expect("spawn")
                    .join()
                    .expect("replay thread")
            });
            return match out {
                Outcome::Pass => {
                    println!("{id} {name}: holds");
                    0
                }
                Outcome::Violation(m) => {
                    println!("{}", short(&m, 4000));
                    println!("VIOLATION property={} replay={}", id, file.display());
                    1
                }
                Outcome::Harness(m) => {
                    println!("ERROR: {m}");
                    2
                }
            };
        }
    }
    println!("ERROR: no scenario {name} of {id}");
    2
}
