//! Supervisor / worker machinery: deterministic case generation, process isolation, shrinking, evidence.
use crate::util::*;
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::mpsc::{Receiver, RecvTimeoutError};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        }
    }
    /// quick count, thorough count
    pub fn n(self, q: u64, t: u64) -> u64 {
        match self {
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bin {
    /// optimised, no debug assertions
    Release,
    /// debug assertions + overflow checks
    Checked,
}

#[derive(Clone, Debug)]
pub struct Group {
    pub name: &'static str,
    pub count: u64,
    pub timeout: u64,
    pub bin: Bin,
    /// run at most this many cases of the group at the same time
    pub par: usize,
}
impl Group {
    pub fn new(name: &'static str, count: u64) -> Self {
        Group {
            name,
            count,
            timeout: 90,
            bin: Bin::Release,
            par: 8,
        }
    }
    pub fn timeout(mut self, t: u64) -> Self {
        self.timeout = t;
        self
    }
    pub fn bin(mut self, b: Bin) -> Self {
        self.bin = b;
        self
    }
    pub fn par(mut self, p: usize) -> Self {
        self.par = p;
        self
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Outcome {
    /// (signature, message)
    pub fail: Option<(String, String)>,
    /// A failure of the harness itself (not a statement about jubako)
    pub error: Option<String>,
    pub nontrivial: bool,
    /// number of evaluations inside this case (>=1)
    pub evals: u64,
    /// distinct non trivial evaluations inside this case, if counted by the case itself
    pub inner_nontrivial: u64,
    pub tags: BTreeMap<String, u64>,
    pub sample: Option<String>,
    /// step (sub-evaluation) of the failure, when the case has several
    pub step: Option<u64>,
}
impl Outcome {
    pub fn pass() -> Self {
        Outcome {
            evals: 1,
            ..Default::default()
        }
    }
    pub fn failed(sig: impl Into<String>, msg: impl Into<String>) -> Self {
        Outcome {
            fail: Some((sig.into(), msg.into())),
            evals: 1,
            ..Default::default()
        }
    }
    pub fn tag(&mut self, t: impl Into<String>) {
        *self.tags.entry(t.into()).or_insert(0) += 1;
    }
    pub fn tagn(&mut self, t: impl Into<String>, n: u64) {
        *self.tags.entry(t.into()).or_insert(0) += n;
    }
}

pub struct Ctx {
    pub dir: PathBuf,
    pub checked: bool,
    /// emits a progress line
    pub quiet: bool,
}
impl Ctx {
    pub fn step(&self, k: u64) {
        if !self.quiet {
            emit(&format!("S {k}"));
        }
    }
    /// number of the worker
    pub fn slot(&self) -> usize {
        self.dir
            .parent()
            .and_then(|p| p.file_name())
            .and_then(|n| n.to_str())
            .and_then(|n| n.trim_start_matches('w').parse().ok())
            .unwrap_or(0)
    }
    /// A fresh sub directory
    pub fn sub(&self, name: &str) -> PathBuf {
        let p = self.dir.join(name);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
}

pub trait Check: Sync + Send {
    fn id(&self) -> &'static str;
    fn level(&self) -> &'static str {
        "exploration"
    }
    fn rule(&self) -> String;
    fn assumptions(&self) -> Vec<String> {
        vec![]
    }
    fn groups(&self, tier: Tier) -> Vec<Group>;
    fn strategy(&self, tier: Tier, group: &str, i: u64) -> BoxedStrategy<String>;
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome;
    /// The case restricted to sub-evaluation `step`
    fn reduce(&self, _json: &str, _step: u64) -> Option<String> {
        None
    }
    /// may this (shrunk) case be given to `run`?
    fn valid(&self, _json: &str) -> bool {
        true
    }
    /// domain specific smaller cases, tried before the generic structural ones
    fn candidates(&self, _json: &str) -> Vec<String> {
        vec![]
    }
    /// For schedule-dependent cases: how often the confirmation re-runs the case.
    fn confirm_runs(&self) -> u32 {
        1
    }
    /// is non-termination a violation of this property by its own statement?
    fn worker_threads(&self) -> usize {
        6
    }
    /// environment for the worker processes
    fn env(&self) -> Vec<(String, String)> {
        vec![]
    }
    fn exhaustive(&self) -> bool {
        false
    }
}

/// Turns a strategy over a serialisable case into one over its JSON text.
pub fn js<T: Serialize + std::fmt::Debug + 'static>(
    s: impl Strategy<Value = T> + 'static,
) -> BoxedStrategy<String> {
    s.prop_map(|v| serde_json::to_string(&v).unwrap()).boxed()
}

// ---------------------------------------------------------------- worker side

static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
static EMIT_STEPS: AtomicBool = AtomicBool::new(true);

fn emit(line: &str) {
    if !EMIT_STEPS.load(Ordering::Relaxed) {
        return;
    }
    if let Ok(mut g) = OUT.lock() {
        if let Some(f) = g.as_mut() {
            let _ = f.write_all(format!("{line}\n").as_bytes());
        }
    }
}

/// Detach the protocol stream from fd 1, which the code under test may write to.
fn capture_stdout() {
    use std::os::fd::FromRawFd;
    unsafe {
        let fd = libc::dup(1);
        libc::fcntl(fd, libc::F_SETFD, libc::FD_CLOEXEC);
        let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
        libc::dup2(null, 1);
        libc::close(null);
        *OUT.lock().unwrap() = Some(std::fs::File::from_raw_fd(fd));
    }
}

pub fn no_core() {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        // die with the supervisor
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
}

pub fn worker_main(prop: &dyn Check, dir: &Path) {
    no_core();
    capture_stdout();
    install_panic_hook();
    let stdin = std::io::stdin();
    let mut n = 0u64;
    let checked = cfg!(debug_assertions);
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.is_empty() {
            continue;
        }
        n += 1;
        let case_dir = dir.join(format!("c{n}"));
        std::fs::create_dir_all(&case_dir).unwrap();
        let ctx = Ctx {
            dir: case_dir.clone(),
            checked,
            quiet: false,
        };
        take_panics();
        let out = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            prop.run(&line, &ctx)
        })) {
            Ok(o) => o,
            Err(_) => {
                // A panic that the harness did not expect at that place. A panic whose location is inside
                // the harness sources is an error of the check; otherwise it is a failure of jubako.
                let p = take_panics();
                let first = p
                    .iter()
                    .find(|l| !l.contains("/verif/harness") && !l.contains(" at src/"))
                    .or(p.first())
                    .cloned()
                    .unwrap_or_default();
                if first.contains(" at src/") && p.len() == 1 {
                    Outcome {
                        error: Some(format!("harness panic: {first}")),
                        evals: 1,
                        ..Default::default()
                    }
                } else {
                    Outcome::failed("panic", p.join(" | "))
                }
            }
        };
        let _ = std::fs::remove_dir_all(&case_dir);
        emit(&format!("O {}", serde_json::to_string(&out).unwrap()));
    }
}

// ---------------------------------------------------------------- supervisor side

enum Msg {
    Step(u64),
    Out(Outcome),
    Eof,
}

struct Worker {
    child: Child,
    stdin: ChildStdin,
    rx: Receiver<Msg>,
    stderr_path: PathBuf,
    dir: PathBuf,
}

static WORKER_SEQ: AtomicU64 = AtomicU64::new(0);

#[derive(Clone)]
pub struct Env {
    pub release: PathBuf,
    pub checked: PathBuf,
    pub work: PathBuf,
    pub vars: Vec<(String, String)>,
}

impl Worker {
    fn spawn(id: &str, env: &Env, bin: Bin) -> Worker {
        let seq = WORKER_SEQ.fetch_add(1, Ordering::SeqCst);
        let dir = env.work.join(format!("w{seq}"));
        std::fs::create_dir_all(&dir).unwrap();
        let stderr_path = env.work.join(format!("w{seq}.err"));
        let errf = std::fs::File::create(&stderr_path).unwrap();
        let exe = match bin {
            Bin::Release => &env.release,
            Bin::Checked => &env.checked,
        };
        let mut child = Command::new(exe)
            .arg("worker")
            .arg(id)
            .arg(&dir)
            .envs(env.vars.iter().cloned())
            .env("RUST_BACKTRACE", "0")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(errf)
            .spawn()
            .expect("spawn worker");
        let stdin = child.stdin.take().unwrap();
        let stdout = child.stdout.take().unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(stdout);
            let mut line = String::new();
            loop {
                line.clear();
                match r.read_line(&mut line) {
                    Ok(0) | Err(_) => {
                        let _ = tx.send(Msg::Eof);
                        return;
                    }
                    Ok(_) => {
                        let l = line.trim_end();
                        let m = if let Some(s) = l.strip_prefix("S ") {
                            Msg::Step(s.parse().unwrap_or(0))
                        } else if let Some(s) = l.strip_prefix("O ") {
                            match serde_json::from_str(s) {
                                Ok(o) => Msg::Out(o),
                                Err(_) => Msg::Eof,
                            }
                        } else {
                            continue;
                        };
                        if tx.send(m).is_err() {
                            return;
                        }
                    }
                }
            }
        });
        Worker {
            child,
            stdin,
            rx,
            stderr_path,
            dir,
        }
    }

    fn tail(&self) -> String {
        let s = std::fs::read(&self.stderr_path).unwrap_or_default();
        let s = String::from_utf8_lossy(&s);
        let v: Vec<&str> = s
            .lines()
            .filter(|l| {
                l.contains("PANIC")
                    || l.contains("panic")
                    || l.contains("abort")
                    || l.contains("memory")
                    || l.contains("ERROR")
                    || l.contains("WARNING")
            })
            .collect();
        let n = v.len().saturating_sub(6);
        v[n..].join(" | ")
    }

    fn kill(mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
        let _ = std::fs::remove_file(&self.stderr_path);
    }
}

enum Verdict {
    Done(Outcome),
    /// last step
    Hang(u64),
    Died(u64, String, bool),
}

fn run_on(w: &mut Option<Worker>, id: &str, env: &Env, bin: Bin, json: &str, timeout: u64) -> Verdict {
    use std::os::unix::process::ExitStatusExt;
    if w.is_none() {
        *w = Some(Worker::spawn(id, env, bin));
    }
    let wk = w.as_mut().unwrap();
    let mut step = 0;
    let ok = wk.stdin.write_all(format!("{json}\n").as_bytes()).is_ok() && wk.stdin.flush().is_ok();
    let res = if !ok {
        None
    } else {
        loop {
            match wk.rx.recv_timeout(Duration::from_secs(timeout)) {
                Ok(Msg::Step(k)) => step = k,
                Ok(Msg::Out(o)) => break Some(Verdict::Done(o)),
                Ok(Msg::Eof) | Err(RecvTimeoutError::Disconnected) => break None,
                Err(RecvTimeoutError::Timeout) => break Some(Verdict::Hang(step)),
            }
        }
    };
    match res {
        Some(Verdict::Done(o)) => Verdict::Done(o),
        Some(v) => {
            w.take().unwrap().kill();
            v
        }
        None => {
            let mut wk = w.take().unwrap();
            let st = wk.child.wait();
            let tail = wk.tail();
            let (desc, infra) = match st {
                Ok(st) => match st.signal() {
                    Some(9) => ("signal 9".to_string(), true),
                    Some(s) => (format!("signal {s}"), false),
                    None => (format!("exit code {:?}", st.code()), false),
                },
                Err(e) => (format!("{e}"), true),
            };
            wk.kill();
            Verdict::Died(step, format!("{desc}: {tail}"), infra)
        }
    }
}

/// Result of executing a case with hang confirmation
enum Exec {
    Pass(Outcome),
    Fail {
        sig: String,
        msg: String,
        step: Option<u64>,
    },
    Error(String),
}

fn exec(w: &mut Option<Worker>, prop: &dyn Check, env: &Env, bin: Bin, json: &str, timeout: u64) -> Exec {
    let id = prop.id();
    let mut attempt = 0;
    loop {
        attempt += 1;
        let t = if attempt == 1 { timeout } else { timeout + timeout / 2 };
        match run_on(w, id, env, bin, json, t) {
            Verdict::Done(o) => {
                if let Some(e) = o.error {
                    return Exec::Error(e);
                }
                return match &o.fail {
                    Some((s, m)) => Exec::Fail {
                        sig: s.clone(),
                        msg: m.clone(),
                        step: o.step,
                    },
                    None => Exec::Pass(o),
                };
            }
            Verdict::Hang(k) => {
                if attempt >= 2 {
                    return Exec::Fail {
                        sig: "hang".into(),
                        msg: format!("did not terminate within {t} s (confirmed twice), sub-evaluation {k}"),
                        step: Some(k),
                    };
                }
            }
            Verdict::Died(k, desc, infra) => {
                if infra {
                    if attempt >= 2 {
                        return Exec::Error(format!("worker killed: {desc}"));
                    }
                    continue;
                }
                return Exec::Fail {
                    sig: "died".into(),
                    msg: format!("process died: {desc}"),
                    step: Some(k),
                };
            }
        }
    }
}

fn make_runner(seed: u64, id: &str, group: &str, i: u64) -> TestRunner {
    let h = blake3::hash(format!("{seed}/{id}/{group}/{i}").as_bytes());
    TestRunner::new_with_rng(
        Config {
            failure_persistence: None,
            ..Config::default()
        },
        TestRng::from_seed(RngAlgorithm::ChaCha, h.as_bytes()),
    )
}

pub struct Known {
    pub property: String,
    pub sig: String,
    pub text: String,
}

fn load_known(verif: &Path) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(verif.join("KNOWN_FINDINGS.txt")) {
        for l in s.lines() {
            // known: property=C06 sig=<substring> :: text
            if let Some(r) = l.strip_prefix("known: property=") {
                if let Some((p, rest)) = r.split_once(" sig=") {
                    if let Some((sig, text)) = rest.split_once(" :: ") {
                        v.push(Known {
                            property: p.to_string(),
                            sig: sig.to_string(),
                            text: text.to_string(),
                        });
                    }
                }
            }
        }
    }
    v
}

#[derive(Default)]
struct Stats {
    evals: u64,
    cases: u64,
    nontrivial: HashSet<u64>,
    inner_nontrivial: u64,
    tags: BTreeMap<String, u64>,
    per_group: BTreeMap<String, u64>,
    samples: Vec<String>,
}

struct Found {
    group: Group,
    i: u64,
    json: String,
    sig: String,
    msg: String,
    step: Option<u64>,
}

pub struct CheckArgs {
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub release: PathBuf,
    pub checked: PathBuf,
    pub only_group: Option<String>,
    pub scale: f64,
}

fn budget(tier: Tier) -> Duration {
    match tier {
        Tier::Quick => Duration::from_secs(520),
        Tier::Thorough => Duration::from_secs(4 * 3600),
    }
}

pub fn check_main(prop: &dyn Check, a: &CheckArgs) -> i32 {
    let t0 = Instant::now();
    let id = prop.id();
    let work = scratch_root().join(format!("jbkverif-{id}-{}", std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let env = Env {
        release: a.release.clone(),
        checked: a.checked.clone(),
        work: work.clone(),
        vars: prop.env(),
    };
    let known = load_known(&a.verif);
    let mut groups = prop.groups(a.tier);
    if let Some(g) = &a.only_group {
        groups.retain(|x| x.name == g);
    }
    if a.scale != 1.0 {
        for g in &mut groups {
            g.count = ((g.count as f64 * a.scale).ceil() as u64).max(1);
        }
    }
    // Work list: groups in order, interleaving is left to the worker threads.
    let items: Vec<(usize, u64)> = groups
        .iter()
        .enumerate()
        .flat_map(|(g, gr)| (0..gr.count).map(move |i| (g, i)))
        .collect();
    let running: Vec<AtomicU64> = groups.iter().map(|_| AtomicU64::new(0)).collect();
    let queue = Mutex::new(items.into_iter().map(Some).collect::<Vec<_>>());
    let qstart = Mutex::new(0usize);
    let stats = Mutex::new(Stats::default());
    let found: Mutex<Vec<Found>> = Mutex::new(vec![]);
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let known_hits: Mutex<BTreeMap<String, u64>> = Mutex::new(BTreeMap::new());
    let stop = AtomicBool::new(false);
    let truncated = AtomicU64::new(0);
    let nthreads = prop.worker_threads();
    std::thread::scope(|sc| {
        for _ in 0..nthreads {
            sc.spawn(|| {
                let mut wr: Option<Worker> = None;
                let mut wc: Option<Worker> = None;
                loop {
                    if stop.load(Ordering::SeqCst) {
                        break;
                    }
                    // next item whose group is not saturated
                    let next = {
                        let mut q = queue.lock().unwrap();
                        let mut s = qstart.lock().unwrap();
                        while *s < q.len() && q[*s].is_none() {
                            *s += 1;
                        }
                        if *s >= q.len() {
                            None
                        } else {
                            let mut pick = None;
                            let mut seen = 0;
                            for k in *s..q.len() {
                                if let Some((g, _)) = q[k] {
                                    if running[g].load(Ordering::SeqCst) < groups[g].par as u64 {
                                        pick = Some(k);
                                        break;
                                    }
                                    seen += 1;
                                    if seen > 200_000 {
                                        break;
                                    }
                                }
                            }
                            match pick {
                                Some(k) => {
                                    let it = q[k].take().unwrap();
                                    running[it.0].fetch_add(1, Ordering::SeqCst);
                                    Some(Ok(it))
                                }
                                None => Some(Err(())),
                            }
                        }
                    };
                    let (g, i) = match next {
                        None => break,
                        Some(Err(())) => {
                            std::thread::sleep(Duration::from_millis(20));
                            continue;
                        }
                        Some(Ok(x)) => x,
                    };
                    if t0.elapsed() > budget(a.tier) {
                        truncated.fetch_add(1, Ordering::SeqCst);
                        running[g].fetch_sub(1, Ordering::SeqCst);
                        continue;
                    }
                    let gr = &groups[g];
                    let mut runner = make_runner(a.seed, id, gr.name, i);
                    let strat = prop.strategy(a.tier, gr.name, i);
                    let tree = match strat.new_tree(&mut runner) {
                        Ok(t) => t,
                        Err(e) => {
                            errors.lock().unwrap().push(format!("generator: {e}"));
                            stop.store(true, Ordering::SeqCst);
                            break;
                        }
                    };
                    let json = tree.current();
                    drop(tree);
                    let w = if gr.bin == Bin::Release { &mut wr } else { &mut wc };
                    let r = exec(w, prop, &env, gr.bin, &json, gr.timeout);
                    running[g].fetch_sub(1, Ordering::SeqCst);
                    match r {
                        Exec::Pass(o) => {
                            let mut s = stats.lock().unwrap();
                            s.evals += o.evals.max(1);
                            s.cases += 1;
                            s.inner_nontrivial += o.inner_nontrivial;
                            *s.per_group.entry(gr.name.to_string()).or_insert(0) += o.evals.max(1);
                            if o.nontrivial {
                                let fresh = s.nontrivial.insert(hash_str(&json));
                                if fresh && s.samples.len() < 8 && (s.cases % 7 == 1 || s.samples.len() < 3) {
                                    let t = o.sample.clone().unwrap_or_else(|| json.clone());
                                    s.samples.push(t.chars().take(700).collect());
                                }
                            }
                            for (k, v) in o.tags {
                                *s.tags.entry(k).or_insert(0) += v;
                            }
                        }
                        Exec::Fail { sig, msg, step } => {
                            let full = format!("{sig} {msg}");
                            if let Some(k) = known.iter().find(|k| k.property == id && full.contains(&k.sig)) {
                                *known_hits.lock().unwrap().entry(k.text.clone()).or_insert(0) += 1;
                            } else {
                                found.lock().unwrap().push(Found {
                                    group: gr.clone(),
                                    i,
                                    json,
                                    sig,
                                    msg,
                                    step,
                                });
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                        Exec::Error(e) => {
                            errors.lock().unwrap().push(format!("group {} case {i}: {e}", gr.name));
                            if errors.lock().unwrap().len() > 3 {
                                stop.store(true, Ordering::SeqCst);
                            }
                        }
                    }
                }
                if let Some(w) = wr {
                    w.kill();
                }
                if let Some(w) = wc {
                    w.kill();
                }
            });
        }
    });

    let stats = stats.into_inner().unwrap();
    let mut found = found.into_inner().unwrap();
    let errors = errors.into_inner().unwrap();
    let known_hits = known_hits.into_inner().unwrap();
    for k in known.iter().filter(|k| k.property == id) {
        println!("KNOWN-FINDING: property={id} {}", k.text);
    }
    let mut code = 0;
    let mut violation_text = None;
    found.sort_by(|x, y| (x.group.name, x.i).cmp(&(y.group.name, y.i)));
    if let Some(f) = found.first() {
        let (json, sig, msg, note) = shrink(prop, &env, a, f);
        let rdir = a.verif.join("replays").join(id);
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{:016x}.json", f.group.name, hash_str(&json)));
        let rep = serde_json::json!({
            "property": id,
            "bin": if f.group.bin == Bin::Release {"release"} else {"checked"},
            "timeout": f.group.timeout,
            "seed": a.seed, "group": f.group.name, "index": f.i,
            "signature": sig, "message": msg, "note": note,
            "case": serde_json::from_str::<serde_json::Value>(&json).unwrap_or(serde_json::Value::String(json.clone())),
        });
        std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).unwrap();
        println!("  {id}: [{sig}] {msg}");
        println!("  {note}");
        println!("VIOLATION property={id} replay={}", path.display());
        violation_text = Some(msg);
        code = 1;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("check error: {e}");
        }
        code = 2;
    }
    let distinct = if stats.inner_nontrivial > 0 {
        stats.inner_nontrivial
    } else {
        stats.nontrivial.len() as u64
    };
    let mut cov = serde_json::json!({
        "evaluations": stats.evals,
        "cases": stats.cases,
        "distinct_nontrivial": distinct,
        "rule": prop.rule(),
        "samples": stats.samples,
        "evaluations_per_group": stats.per_group,
        "classification": stats.tags,
        "truncated_cases": truncated.load(Ordering::SeqCst),
        "known_finding_hits": known_hits,
    });
    if prop.exhaustive() {
        cov["exhaustive"] = serde_json::Value::Bool(true);
    }
    let ev = serde_json::json!({
        "property": id, "tier": a.tier.name(), "seed": a.seed, "level": prop.level(),
        "coverage": cov,
        "assumptions": prop.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": found.len(),
        "violation": violation_text,
        "errors": errors,
    });
    let evp = a.verif.join("evidence").join(format!("{id}.json"));
    let _ = std::fs::create_dir_all(evp.parent().unwrap());
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{id} {}: {} cases, {} evaluations, {} distinct non-trivial, {:.1}s, exit {code}",
        a.tier.name(),
        stats.cases,
        stats.evals,
        distinct,
        t0.elapsed().as_secs_f64()
    );
    let _ = std::fs::remove_dir_all(&work);
    code
}

/// Failures are "the same" when kind and panic location agree.
fn fail_class(sig: &str, msg: &str) -> String {
    let s = sig.split(':').next().unwrap_or("");
    let loc = if s == "panic" || s == "died" {
        msg.split(" at ")
            .nth(1)
            .map(|x| x.split(": ").next().unwrap_or("").to_string())
            .unwrap_or_default()
    } else {
        String::new()
    };
    format!("{s}@{loc}")
}

/// Structurally smaller variants of a JSON case: shorter arrays, smaller numbers, shorter strings.
fn json_candidates(json: &str) -> Vec<String> {
    use serde_json::Value as J;
    let Ok(root) = serde_json::from_str::<J>(json) else {
        return vec![];
    };
    // collect paths
    fn walk(v: &J, path: &mut Vec<String>, out: &mut Vec<(usize, Vec<String>)>) {
        if out.len() > 4000 {
            return;
        }
        match v {
            J::Array(a) => {
                out.push((0, path.clone()));
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    walk(x, path, out);
                    path.pop();
                }
            }
            J::Object(o) => {
                for (k, x) in o {
                    path.push(k.clone());
                    walk(x, path, out);
                    path.pop();
                }
            }
            J::Number(_) => out.push((1, path.clone())),
            J::Bool(true) => out.push((2, path.clone())),
            _ => {}
        }
    }
    let mut paths = vec![];
    walk(&root, &mut vec![], &mut paths);
    let ptr = |p: &[String]| p.iter().map(|x| format!("/{}", x.replace('~', "~0").replace('/', "~1"))).collect::<String>();
    let mut out = vec![];
    let mut push = |p: &[String], nv: J| {
        if out.len() < 6000 {
            let mut r = root.clone();
            if let Some(slot) = r.pointer_mut(&ptr(p)) {
                *slot = nv;
                out.push(r.to_string());
            }
        }
    };
    for (kind, p) in paths.iter().filter(|x| x.0 == 0) {
        let _ = kind;
        let J::Array(a) = root.pointer(&ptr(p)).unwrap() else { continue };
        let n = a.len();
        let mut chunk = n;
        while chunk >= 1 {
            let mut at = 0;
            let mut cnt = 0;
            while at < n && cnt < 24 {
                let mut b = a.clone();
                b.drain(at..(at + chunk).min(n));
                push(p, J::Array(b));
                at += chunk;
                cnt += 1;
            }
            chunk /= 2;
        }
    }
    for (_, p) in paths.iter().filter(|x| x.0 == 2) {
        push(p, J::Bool(false));
    }
    for (_, p) in paths.iter().filter(|x| x.0 == 1) {
        let J::Number(x) = root.pointer(&ptr(p)).unwrap() else { continue };
        if let Some(u) = x.as_u64() {
            let mut c = vec![0, 1, u / 2, u.saturating_sub(u / 8), u.saturating_sub(1)];
            c.retain(|v| *v < u);
            c.dedup();
            for v in c {
                push(p, J::from(v));
            }
        } else if let Some(i) = x.as_i64() {
            for v in [0, -1, i / 2, i + 1] {
                if v > i {
                    push(p, J::from(v));
                }
            }
        }
    }
    out
}

/// Shrinks inside fresh workers; bounded in time and runs.
fn shrink(prop: &dyn Check, env: &Env, a: &CheckArgs, f: &Found) -> (String, String, String, String) {
    let t0 = Instant::now();
    let limit = Duration::from_secs(if f.sig == "hang" { 30 } else { 75 });
    let mut w: Option<Worker> = None;
    let mut best = (f.json.clone(), f.sig.clone(), f.msg.clone());
    let mut runs = 0u32;
    // 1. restrict to the failing sub-evaluation
    if let Some(k) = f.step {
        if let Some(j) = prop.reduce(&f.json, k) {
            runs += 1;
            if let Exec::Fail { sig, msg, .. } = exec(&mut w, prop, env, f.group.bin, &j, f.group.timeout) {
                best = (j, sig, msg);
            }
        }
    }
    let class = |s: &str| s.split(':').next().unwrap_or("").to_string();
    let want = class(&best.1);
    // 2. walk the value tree (for the unreduced case)
    if f.sig != "hang" && f.group.timeout <= 300 {
        let mut runner = make_runner(a.seed, prop.id(), f.group.name, f.i);
        if let Ok(mut tree) = prop.strategy(a.tier, f.group.name, f.i).new_tree(&mut runner) {
            let mut cur = tree.simplify();
            while cur && runs < 600 && t0.elapsed() < limit {
                let j = tree.current();
                runs += 1;
                let ok = match exec(&mut w, prop, env, f.group.bin, &j, f.group.timeout.min(30)) {
                    Exec::Fail { sig, msg, step } if class(&sig) == want => {
                        let mut cand = (j.clone(), sig, msg);
                        if let Some(k) = step {
                            if let Some(rj) = prop.reduce(&j, k) {
                                if let Exec::Fail { sig, msg, .. } =
                                    exec(&mut w, prop, env, f.group.bin, &rj, f.group.timeout.min(30))
                                {
                                    cand = (rj, sig, msg);
                                }
                            }
                        }
                        best = cand;
                        true
                    }
                    _ => false,
                };
                cur = if ok { tree.simplify() } else { tree.complicate() };
            }
        }
    }
    // 3. structural shrinking of the case itself
    if f.sig != "hang" {
        let want = fail_class(&best.1, &best.2);
        let mut progress = true;
        while progress && t0.elapsed() < limit {
            progress = false;
            let mut k = 0;
            let mut domain = true;
            let mut list = prop.candidates(&best.0);
            loop {
                if k >= list.len() {
                    if !domain {
                        break;
                    }
                    domain = false;
                    k = 0;
                    list = json_candidates(&best.0);
                    continue;
                }
                if t0.elapsed() > limit || runs > 20000 {
                    break;
                }
                let j = list[k].clone();
                k += 1;
                if j == best.0 || !prop.valid(&j) {
                    continue;
                }
                runs += 1;
                if let Exec::Fail { sig, msg, .. } = exec(&mut w, prop, env, f.group.bin, &j, f.group.timeout.min(30)) {
                    if fail_class(&sig, &msg) == want {
                        best = (j, sig, msg);
                        progress = true;
                        list = if domain { prop.candidates(&best.0) } else { json_candidates(&best.0) };
                        // continue from about the same place
                        k = k.saturating_sub(1).min(list.len());
                    }
                }
            }
        }
    }
    if let Some(w) = w {
        w.kill();
    }
    // 4. confirm in a fresh process
    let mut w: Option<Worker> = None;
    let mut hits = 0;
    let n = prop.confirm_runs();
    for _ in 0..n {
        if let Exec::Fail { .. } = exec(&mut w, prop, env, f.group.bin, &best.0, f.group.timeout) {
            hits += 1;
        }
    }
    if let Some(w) = w {
        w.kill();
    }
    let note = format!("{runs} shrink runs; the minimal case failed again in {hits} of {n} fresh confirmation run(s)");
    (best.0, best.1, best.2, note)
}

pub fn replay_main(prop: &dyn Check, a: &CheckArgs, file: &Path) -> i32 {
    let txt = std::fs::read_to_string(file).expect("replay file");
    let v: serde_json::Value = serde_json::from_str(&txt).expect("replay json");
    let (case, bin, timeout) = if v.get("case").is_some() && v.get("property").is_some() {
        let case = match &v["case"] {
            serde_json::Value::String(s) => s.clone(),
            o => serde_json::to_string(o).unwrap(),
        };
        (
            case,
            if v["bin"] == "checked" { Bin::Checked } else { Bin::Release },
            v["timeout"].as_u64().unwrap_or(90),
        )
    } else {
        (serde_json::to_string(&v).unwrap(), Bin::Release, 90)
    };
    let work = scratch_root().join(format!("jbkverif-replay-{}", std::process::id()));
    std::fs::create_dir_all(&work).unwrap();
    let env = Env {
        release: a.release.clone(),
        checked: a.checked.clone(),
        work: work.clone(),
        vars: prop.env(),
    };
    let mut w = None;
    let mut code = 0;
    for _ in 0..prop.confirm_runs() {
        match exec(&mut w, prop, &env, bin, &case, timeout) {
            Exec::Pass(o) => println!("replay: pass {:?}", o.tags),
            Exec::Fail { sig, msg, .. } => {
                println!("  {}: [{sig}] {msg}", prop.id());
                println!("VIOLATION property={} replay={}", prop.id(), file.display());
                code = 1;
                break;
            }
            Exec::Error(e) => {
                eprintln!("check error: {e}");
                code = 2;
                break;
            }
        }
    }
    if let Some(w) = w {
        w.kill();
    }
    let _ = std::fs::remove_dir_all(&work);
    code
}

pub type PropBox = Arc<dyn Check>;

pub fn gen_case(prop: &dyn Check, seed: u64, group: &str, i: u64) -> String {
    let mut runner = make_runner(seed, prop.id(), group, i);
    prop.strategy(Tier::Quick, group, i).new_tree(&mut runner).unwrap().current()
}

pub fn no_core_soft() {
    unsafe {
        let lim = libc::rlimit {
            rlim_cur: 0,
            rlim_max: 0,
        };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
}
