//! C08: the container does not depend on how the compression workers and the writer are scheduled.
use super::*;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::creator as jc;
use jubako::reader::{ContentPack, MayMissPack};
use jubako::Pack;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

pub struct C08;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Item {
    blob: Blob,
    hint: Hint,
    times: u32,
    /// microseconds lost each time the input is read
    slow: u16,
    /// from a file
    file: bool,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Order {
    /// no order is forced
    Free,
    /// the cluster the workers got first ends first / last
    First,
    Last,
    Random,
    /// this cluster stays with its worker as long as something else happens
    Hold(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    comp: Comp,
    items: Vec<Item>,
    workers: u32,
    order: Order,
    /// wait until a cluster is written before another one is let go
    strict: bool,
    /// random delays in each step: probability (/256), microseconds
    delays: (u8, u32),
    /// the writer waits for all the insertions before its first (compressed) cluster is accounted
    late_writer: bool,
    basic: bool,
    seed: u64,
}

// ------------------------------------------------------------------ number of workers

pub static CPUS: AtomicUsize = AtomicUsize::new(0);

/// Seen by the standard library instead of the one of libc.
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: libc::pid_t, size: usize, set: *mut libc::cpu_set_t) -> libc::c_int {
    let n = CPUS.load(Relaxed);
    if n == 0 {
        let r = libc::syscall(libc::SYS_sched_getaffinity, pid, size, set);
        if r < 0 {
            return -1;
        }
        let r = r as usize;
        if r < size {
            std::ptr::write_bytes((set as *mut u8).add(r), 0, size - r);
        }
        return 0;
    }
    std::ptr::write_bytes(set as *mut u8, 0, size);
    for k in 0..n.min(size * 8) {
        *(set as *mut u8).add(k / 8) |= 1 << (k % 8);
    }
    0
}

// ------------------------------------------------------------------ the schedule

#[derive(Default)]
struct St {
    held: Vec<u32>,
    free: BTreeSet<u32>,
    written: Vec<u32>,
    workers: BTreeSet<String>,
    last_event: Option<Instant>,
    added: u64,
    opened: u32,
    inserted_all: bool,
    over: bool,
    queue_full: bool,
}

struct Sched {
    c: Case,
    st: Mutex<St>,
    cv: Condvar,
}

impl Sched {
    fn nap(&self, what: u64, idx: u64) {
        let (p, us) = self.c.delays;
        let h = mix(self.c.seed ^ mix(what * 1_000_003 + idx));
        if us > 0 && (h & 0xff) < p as u64 {
            std::thread::sleep(Duration::from_micros((h >> 8) % us as u64));
        }
    }
    /// Lets the held workers go, one at a time.
    fn release(&self) {
        let mut rng = Rng::new(self.c.seed);
        let mut g = self.st.lock().unwrap();
        let mut last: Option<u32> = None;
        loop {
            if g.over {
                let h = std::mem::take(&mut g.held);
                g.free.extend(h);
                self.cv.notify_all();
                return;
            }
            g = self.cv.wait_timeout(g, Duration::from_micros(300)).unwrap().0;
            if g.held.is_empty() {
                continue;
            }
            let quiet = g.last_event.map(|t| t.elapsed()).unwrap_or_default();
            let all_busy = g.held.len() >= self.c.workers as usize;
            if !(all_busy && quiet > Duration::from_micros(100)) && quiet < Duration::from_millis(3) {
                continue;
            }
            if let (true, Some(l)) = (self.c.strict, last) {
                if !g.written.contains(&l) && quiet < Duration::from_millis(8) {
                    continue;
                }
            }
            let n = g.held.len();
            let k = match self.c.order {
                Order::First | Order::Free => (0..n).min_by_key(|k| g.held[*k]).unwrap(),
                Order::Last => (0..n).max_by_key(|k| g.held[*k]).unwrap(),
                Order::Random => rng.below(n as u64) as usize,
                Order::Hold(h) => match (0..n).find(|k| g.held[*k] != h) {
                    Some(k) => k,
                    // nothing else to let go
                    None if quiet > Duration::from_millis(6) => 0,
                    None => continue,
                },
            };
            let idx = g.held.swap_remove(k);
            g.free.insert(idx);
            last = Some(idx);
            g.last_event = Some(Instant::now());
            self.cv.notify_all();
        }
    }
}

impl jc::Progress for Sched {
    fn new_cluster(&self, idx: u32, compressed: bool) {
        self.nap(1, idx as u64);
        let mut g = self.st.lock().unwrap();
        g.opened += 1;
        let _ = compressed;
        g.last_event = Some(Instant::now());
    }
    fn handle_cluster(&self, idx: u32, compressed: bool) {
        if compressed {
            let mut g = self.st.lock().unwrap();
            g.workers.insert(std::thread::current().name().unwrap_or("?").to_string());
            g.last_event = Some(Instant::now());
            if self.c.order != Order::Free {
                g.held.push(idx);
                self.cv.notify_all();
                while !g.free.contains(&idx) && !g.over {
                    g = self.cv.wait(g).unwrap();
                }
            }
            drop(g);
            self.nap(2, idx as u64);
        } else {
            self.nap(3, idx as u64);
        }
    }
    fn handle_cluster_written(&self, idx: u32) {
        self.nap(4, idx as u64);
        let mut g = self.st.lock().unwrap();
        if self.c.late_writer && g.written.is_empty() {
            let t0 = Instant::now();
            while !g.inserted_all && t0.elapsed() < Duration::from_millis(150) {
                g = self.cv.wait_timeout(g, Duration::from_millis(10)).unwrap().0;
            }
        }
        g.written.push(idx);
        g.last_event = Some(Instant::now());
        self.cv.notify_all();
    }
    fn content_added(&self, _size: jbk::Size) {
        let k = {
            let mut g = self.st.lock().unwrap();
            g.added += 1;
            g.added
        };
        if k % 4095 == 0 {
            self.nap(5, k);
        }
    }
}

struct Slow(Vec<u8>, u16);
impl AsRef<[u8]> for Slow {
    fn as_ref(&self) -> &[u8] {
        if self.1 > 0 && std::thread::current().name().map(|n| n.starts_with("Cluster")).unwrap_or(false) {
            std::thread::sleep(Duration::from_micros(self.1 as u64));
        }
        &self.0
    }
}

impl Case {
    fn blob(&self, i: usize, k: u32) -> Blob {
        let mut b = self.items[i].blob.clone();
        b.seed = b.seed.wrapping_add(k);
        b
    }
    fn total(&self) -> u64 {
        self.items.iter().map(|i| i.times as u64 * i.blob.len as u64).sum()
    }
    fn count(&self) -> u64 {
        self.items.iter().map(|i| i.times as u64).sum()
    }
    fn ok(&self) -> bool {
        self.items.iter().all(|i| !matches!(i.blob.fill, Fill::Lit(_)))
            && self.total() < 400 << 20
            && self.count() < 700_000
            && (1..=15).contains(&self.workers)
            && self.items.iter().all(|i| i.slow < 3000)
    }
}

fn insert(c: &Case, adder: &mut dyn jc::ContentAdder, dir: &std::path::Path) -> Result<Vec<(u16, u32)>, String> {
    let mut addrs = vec![];
    for (i, item) in c.items.iter().enumerate() {
        for k in 0..item.times {
            let data = c.blob(i, k).bytes();
            let r: Box<dyn jc::InputReader> = if item.file {
                reader_for(&data, if k % 2 == 0 { &Src::File } else { &Src::Range(3, 5) }, dir, i).map_err(|e| e.to_string())?
            } else {
                Box::new(std::io::Cursor::new(Slow(data, item.slow)))
            };
            let a = adder.add_content(r, item.hint.get()).map_err(|e| format!("insertion: {e}"))?;
            addrs.push((a.pack_id.into_u16(), a.content_id.into_u32()));
        }
    }
    Ok(addrs)
}

fn gen_case(group: &str, r: &mut Rng) -> Case {
    let comp = match r.below(8) {
        0 => Comp::None,
        1 | 2 => Comp::Lz4(1),
        3 => Comp::Lzma(0),
        _ => Comp::Zstd(*pick(r, &[-5, 1, 3])),
    };
    let workers = match r.below(4) {
        0 => 1,
        1 => r.range(2, 4),
        2 => r.range(2, 7),
        _ => r.range(5, 15),
    } as u32;
    let big = 4 << 20;
    let mut items: Vec<Item> = vec![];
    let n = match group {
        // clusters of 4 MiB
        "large" => r.range(2, 24),
        _ => *pick(r, &[1, 3, 8, 2 * workers as u64 + 1, 2 * workers as u64 + 4, 3 * workers as u64 + 2, 40]),
    }
    .min(46);
    let raw_part = *pick(r, &[0, 1, 2, 5, 9]);
    let mut budget: i64 = if group == "large" { 110 << 20 } else { 60 << 20 };
    for k in 0..n {
        let hint = if r.below(10) < raw_part { Hint::No } else { *pick(r, &[Hint::Yes, Hint::Yes, Hint::Yes, Hint::Detect]) };
        let (len, times) = if group == "large" {
            match r.below(6) {
                0 => (r.below(30) as u32, r.range(1, 5) as u32),
                1 => (r.range(1 << 20, big - 1) as u32, 1),
                2 => ((big - 1 + r.below(3)) as u32, 1),
                3 => ((big + r.below(1 << 20)) as u32, 1),
                4 => (big as u32 / 4 + 1, 4),
                _ => (big as u32 - 5, 2),
            }
        } else {
            match r.below(5) {
                0 => (r.below(2000) as u32, r.range(1, 30) as u32),
                1 => (r.below(40) as u32, 4095),
                // clusters of very different sizes
                2 => (big as u32, 1),
                _ => (r.below(8) as u32, *pick(r, &[4095, 4095, 4096, 4094])),
            }
        };
        budget -= (len * times) as i64;
        if budget < 0 {
            break;
        }
        let fill = if len > 100_000 {
            match r.below(3) {
                0 => Fill::Zero,
                1 => Fill::Half,
                _ => Fill::Period(r.range(1, 99) as u16),
            }
        } else {
            gen_fill(r)
        };
        items.push(Item {
            blob: Blob::new(len as usize, fill, k as u32 * 10_000 + r.below(100) as u32),
            hint,
            times,
            slow: if times < 50 && r.chance(1, 6) { r.below(1500) as u16 } else { 0 },
            file: times < 50 && r.chance(1, 5),
        });
    }
    if items.is_empty() {
        items.push(Item {
            blob: Blob::new(3, Fill::Rand, 1),
            hint: Hint::Yes,
            times: 4096,
            slow: 0,
            file: false,
        });
    }
    Case {
        comp,
        items,
        workers,
        order: match r.below(8) {
            0 | 1 => Order::Free,
            2 => Order::First,
            3 | 4 => Order::Last,
            5 | 6 => Order::Random,
            _ => Order::Hold(r.below(4) as u32),
        },
        strict: r.chance(1, 3),
        delays: match r.below(4) {
            0 => (0, 0),
            1 => (255, 300),
            2 => (60, 4000),
            _ => (120, 1500),
        },
        late_writer: r.chance(1, 4),
        basic: r.chance(1, 4),
        seed: r.next(),
    }
}

impl Check for C08 {
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> String {
        "one evaluation = one container created under one schedule, read back entirely and checked; it is non-trivial when at least two clusters were written in another order than the one they were opened in".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the workers and the writer are held or delayed in the Progress callbacks and in the reads of the inputs; between these points the schedule is the one of the operating system".into(),
            "the number of workers follows the number of available processors, which is simulated".into(),
            "a creation that is still running after 40 s (twice) is said not to terminate".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("small", t.n(800, 100_000)).timeout(40),
            Group::new("large", t.n(90, 8000)).timeout(40).par(4),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, _i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen_case(&g, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        let mut out = Outcome::pass();
        let dir = ctx.sub("out");
        let inputs = ctx.sub("in");
        let sched = Arc::new(Sched {
            c: c.clone(),
            st: Default::default(),
            cv: Condvar::new(),
        });
        CPUS.store(c.workers as usize + 1, SeqCst);
        let releaser = {
            let s = Arc::clone(&sched);
            (c.order != Order::Free).then(|| std::thread::spawn(move || s.release()))
        };
        let path = dir.join("p.jbk");
        let res = guard(|| -> Result<(Vec<(u16, u32)>, Option<u64>), String> {
            let all_inserted = || {
                sched.st.lock().unwrap().inserted_all = true;
                sched.cv.notify_all();
            };
            if c.basic {
                let mut creator = jc::BasicCreator::new(
                    utf8(&path),
                    [jc::ConcatMode::OneFile, jc::ConcatMode::TwoFiles, jc::ConcatMode::NoConcat][c.seed as usize % 3],
                    vendor(),
                    c.comp.get(),
                    Arc::clone(&sched) as Arc<dyn jc::Progress>,
                )
                .map_err(|e| format!("creator: {e}"))?;
                let a = insert(&c, &mut creator, &inputs)?;
                all_inserted();
                creator
                    .finalize(empty_dir(), vec![])
                    .map_err(|e| format!("finalize: {e}"))?;
                Ok((a, None))
            } else {
                let mut creator = jc::ContentPackCreator::<jc::NamedFile>::new_with_progress(
                    utf8(&path),
                    1.into(),
                    vendor(),
                    Default::default(),
                    c.comp.get(),
                    Arc::clone(&sched) as Arc<dyn jc::Progress>,
                )
                .map_err(|e| format!("creator: {e}"))?;
                let a = insert(&c, &mut creator, &inputs)?;
                all_inserted();
                let (_file, pd) = creator.finalize().map_err(|e| format!("finalize: {e}"))?;
                Ok((a, Some(pd.pack_size.into_u64())))
            }
        });
        CPUS.store(0, SeqCst);
        {
            let mut g = sched.st.lock().unwrap();
            g.over = true;
            sched.cv.notify_all();
        }
        if let Some(r) = releaser {
            r.join().unwrap();
        }
        let st = sched.st.lock().unwrap();
        let order = st.written.clone();
        let inversions = order.windows(2).filter(|w| w[0] > w[1]).count();
        out.nontrivial = inversions > 0;
        out.tag(format!("{} workers", c.workers));
        if c.comp != Comp::None && !st.workers.is_empty() {
            out.tag(format!("{} threads have compressed", st.workers.len()));
            if st.workers.len() > c.workers as usize {
                out.tag("more threads than expected");
            }
        }
        if order.len() as u32 > 2 * c.workers {
            out.tag("more clusters than the queue holds");
        }
        out.tag(match c.order {
            Order::Hold(_) => "order Hold".to_string(),
            o => format!("order {o:?}"),
        });
        if inversions > 0 {
            out.tag("other order");
        }
        out.sample = Some(format!(
            "{} contents ({} bytes), {}, {} workers, order {:?}{}, {} clusters written as {:?}",
            c.count(),
            c.total(),
            c.comp.name(),
            c.workers,
            c.order,
            if c.strict { " strict" } else { "" },
            order.len(),
            order.iter().take(24).collect::<Vec<_>>()
        ));
        let desc = format!("{} clusters written in the order {:?}", order.len(), order.iter().take(60).collect::<Vec<_>>());
        drop(st);
        let addrs = match res {
            Ok(Ok((a, size))) => {
                if let Some(s) = size {
                    let len = std::fs::metadata(&path).unwrap().len();
                    if s != len {
                        out.fail = Some(("size".into(), format!("the pack has {len} bytes but is said to have {s}; {desc}")));
                        return out;
                    }
                }
                a
            }
            Ok(Err(e)) => {
                out.fail = Some(("creation".into(), format!("{e}; {desc}")));
                return out;
            }
            Err(e) => {
                out.fail = Some(("panic".into(), format!("{e}; {desc}")));
                return out;
            }
        };
        let panics = take_panics();
        if let Some(p) = panics.first() {
            out.fail = Some(("panic".into(), format!("{p}; {desc}")));
            return out;
        }
        let verdict = guard(|| verify(&c, &path, &addrs));
        if let Err((sig, m)) = verdict.unwrap_or_else(|p| Err(("panic".into(), p))) {
            out.fail = Some((sig, format!("{m}; {desc}")));
        }
        out
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json).map(|c| c.ok()).unwrap_or(false)
    }
    fn confirm_runs(&self) -> u32 {
        4
    }
    fn worker_threads(&self) -> usize {
        7
    }
}

struct Nothing;
impl jc::EntryStoreTrait for Nothing {
    fn finalize(self: Box<Self>, _d: &mut jc::DirectoryPackCreator) {}
}
fn empty_dir() -> Box<dyn jc::EntryStoreTrait> {
    Box::new(Nothing)
}

fn verify(c: &Case, path: &std::path::Path, addrs: &[(u16, u32)]) -> Result<(), (String, String)> {
    let e = |s: &str, m: String| (s.to_string(), m);
    let cont;
    let own;
    let pack: &ContentPack = if c.basic {
        cont = crate::read::open(path).map_err(|m| e("open", m))?;
        match cont.check() {
            Ok(true) => {}
            Ok(false) => return Err(e("check", "Container::check() answers false".into())),
            Err(x) => return Err(e("check", format!("Container::check(): {x}"))),
        }
        match cont.get_pack(1.into()) {
            Ok(Some(MayMissPack::FOUND(p))) => p,
            Ok(_) => return Err(e("none", "the content pack is not found".into())),
            Err(x) => return Err(e("open", format!("content pack: {x}"))),
        }
    } else {
        own = ContentPack::new(jbk::FileSource::open(path).map_err(|x| e("open", x.to_string()))?.into())
            .map_err(|x| e("open", format!("content pack: {x}")))?;
        &own
    };
    match pack.check() {
        Ok(true) => {}
        Ok(false) => return Err(e("check", "the check of the pack answers false".into())),
        Err(x) => return Err(e("check", format!("check of the pack: {x}"))),
    }
    let n = pack.get_content_count().into_u32();
    if n as u64 != c.count() {
        return Err(e("count", format!("{n} contents instead of {}", c.count())));
    }
    let mut at = 0;
    for (i, item) in c.items.iter().enumerate() {
        for k in 0..item.times {
            let a = addrs[at];
            at += 1;
            if a.0 != 1 {
                return Err(e("address", format!("content {} has the address {a:?}", at - 1)));
            }
            let want = c.blob(i, k).bytes();
            let reg = match pack.get_content(a.1.into()) {
                Ok(Some(r)) => r,
                Ok(None) => return Err(e("none", format!("no content at {a:?}"))),
                Err(x) => return Err(e("error", format!("content {a:?}: {x}"))),
            };
            let len = reg.size().into_u64();
            let got = if len == want.len() as u64 {
                reg.get_slice(jbk::Offset::zero(), want.len())
                    .map_err(|x| e("error", format!("content {a:?}: {x}")))?
            } else {
                return Err(e("bytes", format!("content {a:?} has {len} bytes instead of {}", want.len())));
            };
            if *got != want[..] {
                return Err(e(
                    "bytes",
                    format!("content {a:?}: inserted {}, read {}", brief(&want), brief(&got)),
                ));
            }
        }
    }
    Ok(())
}
