//! C09: creation is all-or-nothing at the destination path.
use super::*;
use crate::damage::{tiny_dir, tiny_spec};
use crate::gen::*;
use crate::model::*;
use crate::trace::*;
use crate::util::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::time::Duration;

pub struct C09;

/// What is at the destination before
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Old {
    Nothing,
    /// a complete container of the same packaging
    Container,
    /// another file, of that many bytes
    Other(u32),
    /// a link to a complete container elsewhere
    Link,
}

/// How the creation ends by itself
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
enum Quit {
    No,
    /// dropped before the end
    Drop,
    /// panic while the entry store is finalised
    PanicFinal,
    /// panic in the progress callback number n
    PanicProgress(u32),
    /// an input fails to be read
    Input(u32),
    /// exit() before the end
    Exit,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Mode {
    /// bytes k, k + of, ...: death, lasting and transient errors
    Bytes { k: u64, of: u64 },
    /// operations k, k + of, ...
    Ops { k: u64, of: u64 },
    /// n random sequences of faults
    Rand { seed: u64, n: u64 },
    /// the other ends
    Quits,
    One(Vec<Fault>),
    OneQuit(Quit),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Case {
    spec: Spec,
    old: Old,
    /// name of the destination
    name: String,
    /// given relative to the current directory
    relative: bool,
    mode: Mode,
}

#[derive(Serialize, Deserialize)]
struct Job {
    spec: Spec,
    path: PathBuf,
    inputs: PathBuf,
    result: PathBuf,
    quit: Quit,
    dir: PathBuf,
    stderr: PathBuf,
    limit_ms: u64,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
struct JobResult {
    addrs: Vec<(u16, u32)>,
    extra_addrs: Vec<Vec<(u16, u32)>>,
    positions: Vec<Vec<u32>>,
}

struct Panicking(std::sync::atomic::AtomicU32, u32);
impl Panicking {
    fn tick(&self) {
        if self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst) == self.1 {
            panic!("asked");
        }
    }
}
impl jubako::creator::Progress for Panicking {
    fn new_cluster(&self, _: u32, _: bool) {
        self.tick()
    }
    fn handle_cluster(&self, _: u32, _: bool) {
        self.tick()
    }
    fn handle_cluster_written(&self, _: u32) {
        self.tick()
    }
    fn content_added(&self, _: jubako::Size) {
        self.tick()
    }
}

/// The child: creates one container. Ends with 0 (success), 3 (error) or 101 (panic).
pub fn create(job: &Path) {
    let j: Job = serde_json::from_slice(&std::fs::read(job).unwrap()).unwrap();
    enter(&j.dir, &j.stderr, Duration::from_millis(j.limit_ms));
    // fewer threads to start
    super::c08::CPUS.store(3, std::sync::atomic::Ordering::SeqCst);
    match j.quit {
        Quit::No => {}
        Quit::PanicProgress(_) => {}
        q => return quit(&j, q),
    }
    let progress: Arc<dyn jubako::creator::Progress> = match j.quit {
        Quit::PanicProgress(n) => Arc::new(Panicking(Default::default(), n)),
        _ => Arc::new(()),
    };
    match build_with(&j.spec, &j.path, &j.inputs, progress) {
        Ok(b) => {
            let r = JobResult {
                addrs: b.addrs,
                extra_addrs: b.extra_addrs,
                positions: b.positions,
            };
            std::fs::write(&j.result, serde_json::to_vec(&r).unwrap()).unwrap();
        }
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(3);
        }
    }
}

struct PanicStore;
impl jubako::creator::EntryStoreTrait for PanicStore {
    fn finalize(self: Box<Self>, _: &mut jubako::creator::DirectoryPackCreator) {
        panic!("asked");
    }
}

fn quit(j: &Job, q: Quit) {
    use jubako::creator as jc;
    let mut c = jc::BasicCreator::new(utf8(&j.path), j.spec.packaging.get(), vendor(), j.spec.comp.get(), Arc::new(()))
        .unwrap();
    let ins = expand(&j.spec.contents);
    if let Quit::Input(n) = q {
        for (k, i) in ins.iter().enumerate() {
            let r: Box<dyn jc::InputReader> = if k as u32 == n {
                // a file which shrinks before it is read
                let p = j.inputs.join("shrink");
                std::fs::write(&p, vec![7u8; 5000 + i.blob.len as usize]).unwrap();
                let f = jc::InputFile::open(&p).unwrap();
                std::fs::OpenOptions::new().write(true).open(&p).unwrap().set_len(10).unwrap();
                Box::new(f)
            } else {
                reader_for(&i.blob.bytes(), &i.src, &j.inputs, k).unwrap()
            };
            if let Err(e) = c.add_content(r, i.hint.get()) {
                eprintln!("{e}");
                std::process::exit(3);
            }
        }
        let db = DirBox(j.spec.dir.clone());
        match c.finalize(Box::new(db), vec![]) {
            // what it is then is not specified, but it must open and verify
            Ok(()) => std::process::exit(4),
            Err(e) => {
                eprintln!("{e}");
                std::process::exit(3);
            }
        }
    }
    add_all(&mut c, &ins, &j.inputs).unwrap();
    match q {
        Quit::Drop => drop(c),
        Quit::Exit => {}
        _ => {
            let _ = c.finalize(Box::new(PanicStore), vec![]);
        }
    }
    std::process::exit(3);
}

struct DirBox(Dir);
impl jubako::creator::EntryStoreTrait for DirBox {
    fn finalize(self: Box<Self>, dp: &mut jubako::creator::DirectoryPackCreator) {
        let mut d = self.0;
        // the addresses do not matter
        let n = 1 << 16;
        for e in &mut d.estores {
            for x in &mut e.entries {
                for v in &mut x.vals {
                    if let V::CI(_) = v {
                        *v = V::C(1, 0);
                    }
                }
            }
        }
        build_dir(&d, &vec![(1, 0); n]).into_pack(dp);
    }
}

// ------------------------------------------------------------------ faults

const ERRS: [i32; 4] = [libc::ENOSPC, libc::EIO, libc::EINTR, libc::EDQUOT];

fn gen_how(r: &mut Rng) -> How {
    match r.below(6) {
        0 | 1 => How::Kill,
        2 => How::KillAfter,
        _ => How::Err(*pick(r, &ERRS), *pick(r, &[0u32, 1, 1, 2, 7])),
    }
}

fn random_faults(seed: u64, step: u64, bytes: u64, ops: &[Op]) -> Vec<Fault> {
    let mut r = Rng::new(mix(seed ^ mix(step)));
    let n = *pick(&mut r, &[1usize, 1, 2, 2, 3, 4]);
    let mut at_op = 0u64;
    let mut v: Vec<Fault> = vec![];
    for _ in 0..n {
        let how = gen_how(&mut r);
        let left = (ops.len() as u64 + 3).saturating_sub(at_op).max(1);
        let f = if v.is_empty() && r.chance(1, 2) {
            Fault {
                at: At::Byte(r.below(bytes + 1)),
                how,
            }
        } else {
            // the next one, one of the last, any
            at_op += match r.below(3) {
                0 => 1,
                1 => left.saturating_sub(r.below(10)),
                _ => r.below(left),
            };
            Fault {
                at: At::Op(at_op as u32),
                how,
            }
        };
        let last = !matches!(f.how, How::Err(..));
        v.push(f);
        if last {
            break;
        }
    }
    v
}

/// sub-evaluation number -> faults, for the enumerations
const HOWS: [How; 6] = [
    How::Kill,
    How::Err(libc::ENOSPC, 0),
    How::Err(libc::EIO, 1),
    How::KillAfter,
    How::Err(libc::EINTR, 1),
    How::Err(libc::EIO, 0),
];

fn faults(mode: &Mode, step: u64, bytes: u64, ops: &[Op]) -> Vec<Fault> {
    match mode {
        Mode::Bytes { .. } => vec![Fault {
            at: At::Byte(step / 8),
            how: HOWS[(step % 8) as usize],
        }],
        Mode::Ops { .. } => vec![Fault {
            at: At::Op((step / 8) as u32),
            how: HOWS[(step % 8) as usize],
        }],
        Mode::Rand { seed, .. } => random_faults(*seed, step, bytes, ops),
        Mode::One(f) => f.clone(),
        _ => vec![],
    }
}

fn steps(mode: &Mode, bytes: u64, ops: &[Op], ncb: u64) -> Vec<u64> {
    match mode {
        // at the end nothing is left to write
        Mode::Bytes { k, of } => (0..bytes)
            .filter(|b| b % of == *k)
            .flat_map(|b| (0..if b % 3 == 0 { 3 } else { 2 }).map(move |h| b * 8 + h))
            .collect(),
        Mode::Ops { k, of } => (0..ops.len() as u64)
            .filter(|o| o % of == *k)
            .filter(|o| ops[*o as usize].output || ops[*o as usize].name.contains("read"))
            .flat_map(|o| (0..6).map(move |h| o * 8 + h))
            .collect(),
        Mode::Rand { n, .. } => (0..*n).collect(),
        Mode::Quits => (0..4 + ncb).collect(),
        _ => vec![0],
    }
}

fn quit_of(step: u64, nin: u64) -> Quit {
    match step {
        0 => Quit::Drop,
        1 => Quit::PanicFinal,
        2 => Quit::Exit,
        s if s < 3 + nin => Quit::Input((s - 3) as u32),
        s => Quit::PanicProgress((s - 3 - nin) as u32),
    }
}

// ------------------------------------------------------------------ one creation

/// names and bytes; links are followed
fn listing(d: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let n = e.file_name().to_string_lossy().into_owned();
        if let Ok(b) = std::fs::read(e.path()) {
            m.insert(n, b);
        }
    }
    m
}

struct World {
    out: PathBuf,
    inp: PathBuf,
    aux: PathBuf,
    /// what is there before each creation
    old: BTreeMap<String, Vec<u8>>,
    link: bool,
    name: String,
    relative: bool,
    spec: Spec,
}

impl World {
    fn reset(&self) {
        let _ = std::fs::remove_dir_all(&self.out);
        std::fs::create_dir_all(&self.out).unwrap();
        let _ = std::fs::remove_dir_all(&self.inp);
        std::fs::create_dir_all(&self.inp).unwrap();
        for (n, b) in &self.old {
            if self.link && *n == self.name {
                let t = self.aux.join("target");
                std::fs::write(&t, b).unwrap();
                std::os::unix::fs::symlink(&t, self.out.join(n)).unwrap();
            } else {
                std::fs::write(self.out.join(n), b).unwrap();
            }
        }
    }
    fn create(&self, faults: &[Fault], quit: Quit, limit: Duration) -> Result<Run, String> {
        let result = self.aux.join("result");
        let _ = std::fs::remove_file(&result);
        let stderr = self.aux.join("stderr");
        let job = Job {
            spec: self.spec.clone(),
            path: if self.relative { PathBuf::from(&self.name) } else { self.out.join(&self.name) },
            inputs: self.inp.clone(),
            result,
            quit,
            dir: self.out.clone(),
            stderr: stderr.clone(),
            limit_ms: limit.as_millis() as u64,
        };
        let jp = self.aux.join("job");
        std::fs::write(&jp, serde_json::to_vec(&job).unwrap()).map_err(|e| e.to_string())?;
        run(&jp, &stderr, &self.out, &self.inp, faults)
    }
    fn result(&self) -> Option<JobResult> {
        serde_json::from_slice(&std::fs::read(self.aux.join("result")).ok()?).ok()
    }
    fn dest(&self) -> PathBuf {
        self.out.join(&self.name)
    }
}

/// What is at the final names: (state of the destination, complaint)
fn judge(w: &World, finals: &[String], want: Option<&Dump>, success: bool) -> (&'static str, Option<String>) {
    let now = listing(&w.out);
    let old = w.old.get(&w.name);
    let complete = || -> Result<(), String> {
        match want {
            Some(want) => guard(|| crate::read::verify(&w.dest(), want, true)).and_then(|x| x),
            None => guard(|| {
                let c = crate::read::open(&w.dest())?;
                match c.check() {
                    Ok(true) => Ok(()),
                    o => Err(format!("check() answers {o:?}")),
                }
            })
            .and_then(|x| x),
        }
    };
    let state = match (now.get(&w.name), old) {
        (None, None) => "absent",
        (None, Some(_)) => return ("gone", Some("the previous file is not there any more".into())),
        (Some(n), Some(o)) if n == o => "previous file",
        (Some(n), o) => match complete() {
            Ok(()) => "complete",
            Err(e) => {
                return (
                    "incomplete",
                    Some(format!(
                        "the destination holds {} bytes which are neither the previous file ({:?} bytes) nor a complete container: {e}",
                        n.len(),
                        o.map(|o| o.len())
                    )),
                )
            }
        },
    };
    if success && state != "complete" {
        return (state, Some(format!("the creation reports a success, and the destination is: {state}")));
    }
    if state != "complete" {
        // the packs of the other files: as before, or complete
        for f in finals {
            let Some(n) = now.get(f) else {
                if w.old.contains_key(f) {
                    return ("gone", Some(format!("the previous file {f} is not there any more")));
                }
                continue;
            };
            if *f == w.name || w.old.get(f) == Some(n) {
                continue;
            }
            let p = w.out.join(f);
            let r = guard(|| -> Result<(), String> {
                let pk = jubako::tools::open_pack(&p).map_err(|e| e.to_string())?;
                match pk.check() {
                    Ok(true) => Ok(()),
                    o => Err(format!("check() answers {o:?}")),
                }
            })
            .and_then(|x| x);
            if let Err(e) = r {
                return ("partial pack", Some(format!("{f} holds {} bytes which are not a complete pack: {e}", n.len())));
            }
        }
    }
    (state, None)
}

fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    let packaging = [Packaging::One, Packaging::Two, Packaging::No][(i % 3) as usize];
    let old = match (i / 3) % 4 {
        0 => Old::Nothing,
        1 | 2 => Old::Container,
        _ => {
            if r.chance(1, 2) {
                Old::Link
            } else {
                Old::Other(*pick(r, &[0u32, 1, 64, 128, 700, 5000, 100_000]))
            }
        }
    };
    let mut spec = match group {
        "bytes" => {
            let mut s = tiny_spec(r);
            s.contents.truncate(2);
            s.extra.truncate(if i % 4 == 3 { 1 } else { 0 });
            let dir = gen_dir(
                r,
                &DirOpts {
                    max_entries: 3,
                    ncontents: s.contents.len(),
                    max_array: 8,
                    max_estores: 1,
                    max_stores: 1,
                    max_props: 2,
                    ..Default::default()
                },
            );
            Spec { packaging, dir, ..s }
        }
        "ops" | "rand" | "quits" => Spec {
            packaging,
            ..tiny_spec(r)
        },
        _ => {
            let big = r.chance(1, 4);
            let mut contents = if big {
                gen_inserts(r, 12, 4_000_000, 12_000_000)
            } else {
                gen_inserts(r, 20, 60_000, 300_000)
            };
            if r.chance(1, 4) {
                // several clusters
                for c in &mut contents {
                    c.times = c.times.max(r.range(1, 700) as u32);
                    c.blob.len = c.blob.len.min(300);
                    if let Fill::Lit(_) = c.blob.fill {
                        c.blob.fill = Fill::Rand;
                    }
                    c.src = Src::Mem;
                }
            }
            let nc = expand(&contents).len();
            let dir = if r.chance(1, 2) { small_dir(r, nc) } else { tiny_dir(r, nc) };
            Spec {
                comp: gen_comp(r),
                packaging,
                cached: r.chance(1, 5),
                contents,
                extra: vec![],
                dir,
            }
        }
    };
    if group == "ops" && r.chance(1, 3) {
        // two extra packs
        let mut v = vec![];
        for id in [2u16, 9] {
            v.push(ExtraPack {
                id,
                comp: gen_comp(r),
                contents: spec.contents.iter().take(2).cloned().collect(),
            });
        }
        spec.extra = v;
    }
    let name = pick(r, &["a.jbk", "a", "é b.tar.jbk", ".h", "a.x", "a.jbkm"]).to_string();
    let relative = spec.extra.is_empty() && r.chance(1, 4);
    let mode = match group {
        "bytes" => Mode::Bytes { k: 0, of: 1 },
        "ops" => Mode::Ops { k: 0, of: 1 },
        "rand" => Mode::Rand {
            seed: r.next(),
            n: 150,
        },
        "quits" => Mode::Quits,
        _ => Mode::Rand { seed: r.next(), n: 40 },
    };
    Case {
        spec,
        old,
        name,
        relative,
        mode,
    }
}

impl Check for C09 {
    fn id(&self) -> &'static str {
        "C09"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> String {
        "one evaluation = one creation in a child process disturbed by one sequence of faults; non-trivial when a fault did happen before the child reported a success".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the process dies, the machine does not: what was written before is there afterwards".into(),
            "the faults are those of the system calls on the output and input files; temporary files may be left behind".into(),
            "a creation which does not end (in 8 times the duration of an undisturbed one, at least 0.5 s) is killed, and judged as a death".into(),
            "a file of the other packs which is at its final name must be a complete pack too".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("bytes", t.n(12, 1200)).timeout(900),
            Group::new("ops", t.n(18, 2000)).timeout(900),
            Group::new("rand", t.n(48, 4000)).timeout(900),
            Group::new("large", t.n(24, 1200)).timeout(900),
            Group::new("quits", t.n(36, 1500)).timeout(900),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        let mut out = Outcome::pass();
        pin(ctx.slot());
        let mut w = World {
            out: ctx.sub("out"),
            inp: ctx.sub("inp"),
            aux: ctx.sub("aux"),
            old: BTreeMap::new(),
            link: c.old == Old::Link,
            name: c.name.clone(),
            relative: c.relative,
            spec: c.spec.clone(),
        };
        macro_rules! tri {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => {
                        out.error = Some(format!("{e}"));
                        return out;
                    }
                }
            };
        }
        // what is there before
        match &c.old {
            Old::Nothing => {}
            Old::Container | Old::Link => {
                let mut spec = c.spec.clone();
                spec.comp = Comp::None;
                for k in &mut spec.contents {
                    k.blob.seed = k.blob.seed.wrapping_add(1000);
                }
                w.spec = spec;
                w.reset();
                let r = tri!(w.create(&[], Quit::No, Duration::from_secs(60)));
                if r.end != End::Exit(0) {
                    out.tag(format!("not created: {}", cut(&r.stderr, 60)));
                    return out;
                }
                let l = listing(&w.out);
                w.old = l;
                w.spec = c.spec.clone();
            }
            Old::Other(n) => {
                let mut r = Rng::new(*n as u64);
                w.old.insert(c.name.clone(), (0..*n).map(|_| r.next() as u8).collect());
            }
        }
        // undisturbed
        w.reset();
        let t0 = std::time::Instant::now();
        let free = tri!(w.create(&[], Quit::No, Duration::from_secs(60)));
        let took = t0.elapsed();
        if free.end != End::Exit(0) {
            out.tag(format!("not created: {}", cut(&free.stderr, 60)));
            return out;
        }
        let Some(res) = w.result() else {
            out.error = Some("no result of the child".into());
            return out;
        };
        let want = expect_dump(
            &c.spec,
            &Built {
                path: w.dest(),
                addrs: res.addrs.clone(),
                extra_addrs: res.extra_addrs.clone(),
                extra_paths: vec![],
                positions: res.positions.clone(),
            },
        );
        let mut finals: Vec<String> = listing(&w.out).into_keys().collect();
        for n in w.old.keys() {
            if !finals.contains(n) {
                finals.push(n.clone());
            }
        }
        let (st, bad) = judge(&w, &finals, Some(&want), true);
        if st != "complete" || bad.is_some() {
            out.fail = Some(("undisturbed".into(), format!("an undisturbed creation: {st}, {bad:?}")));
            return out;
        }
        let bytes: u64 = free.ops.iter().filter(|o| o.result > 0).map(|o| o.bytes).sum();
        // a creation which is still running then is killed: one more death
        let limit = (took * 8).clamp(Duration::from_millis(500), Duration::from_secs(10));
        let nin = expand(&c.spec.contents).len().min(3) as u64;
        let ncb = nin + 3 * expand(&c.spec.contents).len().min(8) as u64 + 4;
        let mut kinds: BTreeMap<String, u64> = BTreeMap::new();
        for step in steps(&c.mode, bytes, &free.ops, ncb) {
            ctx.step(step);
            w.reset();
            let (fs, q) = match &c.mode {
                Mode::Quits => (vec![], quit_of(step, nin)),
                Mode::OneQuit(q) => (vec![], *q),
                m => (faults(m, step, bytes, &free.ops), Quit::No),
            };
            let r = tri!(w.create(&fs, q, limit));
            out.evals += 1;
            let success = r.end == End::Exit(0) && matches!(q, Quit::No);
            if r.hit > 0 || (q != Quit::No && r.end != End::Exit(0)) {
                out.inner_nontrivial += 1;
            }
            *kinds
                .entry(match r.end {
                    End::Exit(0) => "success".into(),
                    End::Exit(3) => "error".into(),
                    End::Exit(101) => "panic".into(),
                    End::Exit(4) => "success with a short input".into(),
                    End::Exit(n) => format!("exit {n}"),
                    End::Signal(9) => "killed".into(),
                    End::Signal(n) => format!("signal {n}"),
                    End::TooLong => "blocked".into(),
                })
                .or_insert(0) += 1;
            // a short input: nobody knows what the content should be
            let short = matches!(q, Quit::Input(_));
            let (st, bad) = judge(&w, &finals, if short { None } else { Some(&want) }, success);
            *kinds.entry(format!("destination: {st}")).or_insert(0) += 1;
            let describe = |r: &Run| {
                let at: Vec<String> = r
                    .ops
                    .iter()
                    .rev()
                    .take(4)
                    .map(|o| format!("{} {} -> {}", o.name, if o.path.starts_with(".tmp") { "(temporary)" } else { &o.path }, o.result))
                    .collect();
                format!("{:?}, last operations (latest first): {}", r.end, at.join(", "))
            };
            if let Some(b) = bad {
                out.step = Some(step);
                out.fail = Some((
                    "not atomic".into(),
                    format!(
                        "{b}; {:?}, before: {:?}, {} contents, faults {fs:?} {q:?}, the creation ended with {}",
                        c.spec.packaging,
                        c.old,
                        expand(&c.spec.contents).len(),
                        describe(&r)
                    ),
                ));
                break;
            }
            // what is left behind does not prevent the next creation
            if step % 16 == 1 || matches!(c.mode, Mode::One(_)) {
                let r2 = tri!(w.create(&[], Quit::No, Duration::from_secs(60)));
                out.evals += 1;
                let ok = r2.end == End::Exit(0);
                let (st, bad) = judge(&w, &finals, Some(&want), ok);
                if !ok || bad.is_some() {
                    out.step = Some(step);
                    out.fail = Some((
                        "after".into(),
                        format!("a creation after an interrupted one: {st}, {bad:?}, {}; {}", describe(&r2), r2.stderr),
                    ));
                    break;
                }
            }
        }
        out.nontrivial = out.inner_nontrivial > 0;
        for (k, n) in kinds {
            out.tagn(k, n);
        }
        out.tag(c.spec.packaging.name());
        out.tag(match c.old {
            Old::Nothing => "before: nothing",
            Old::Container => "before: a container",
            Old::Link => "before: a link",
            Old::Other(_) => "before: another file",
        });
        out.sample = Some(format!(
            "{} at {:?}{}, {} contents, {bytes} bytes in {} operations, {}, before: {:?}; {}: {} creations",
            c.spec.packaging.name(),
            c.name,
            if c.relative { " (relative)" } else { "" },
            expand(&c.spec.contents).len(),
            free.ops.len(),
            c.spec.comp.name(),
            c.old,
            match &c.mode {
                Mode::Bytes { .. } => "a fault at every byte".to_string(),
                Mode::Ops { .. } => "a fault at every operation".to_string(),
                m => format!("{m:?}"),
            },
            out.evals
        ));
        out
    }
    fn reduce(&self, json: &str, step: u64) -> Option<String> {
        let c: Case = serde_json::from_str(json).ok()?;
        let mode = match &c.mode {
            Mode::Bytes { .. } | Mode::Ops { .. } => Mode::One(faults(&c.mode, step, 0, &[])),
            _ => return None,
        };
        serde_json::to_string(&Case { mode, ..c }).ok()
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json)
            .map(|c| {
                c.spec.valid()
                    && !c.name.is_empty()
                    && !c.name.contains('/')
                    && !c.name.contains("jbkc")
                    && (!c.relative || c.spec.extra.is_empty())
                    && match c.mode {
                        Mode::Bytes { of, .. } | Mode::Ops { of, .. } => of > 0,
                        _ => true,
                    }
            })
            .unwrap_or(false)
    }
    fn worker_threads(&self) -> usize {
        8
    }
    fn confirm_runs(&self) -> u32 {
        3
    }
}
