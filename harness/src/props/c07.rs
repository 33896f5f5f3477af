//! C07: threads reading one opened container get exactly the stored bytes, whatever the schedule.
use super::*;
use crate::encode::*;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::reader::{ByteRegion, ContentPack, MayMissPack};
use jubako::verif::Point;
use jubako::Pack;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::io::Read;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicU8, AtomicUsize, Ordering::*};
use std::sync::{Barrier, Condvar, Mutex};
use std::time::Duration;

pub struct C07;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Cl {
    comp: Comp,
    fill: Fill,
    seed: u32,
    /// sizes of the blobs
    sizes: Vec<u32>,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Free {
    clusters: Vec<Cl>,
    /// 0 memory, 1 file, 2 memory which takes its time
    store: u8,
    threads: u8,
    ops: u32,
    pattern: u8,
    style: u8,
    seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Tree {
    spec: Spec,
    threads: u8,
    rounds: u32,
    ops: u32,
    style: u8,
    seed: u64,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Choose {
    /// every schedule beginning with these choices
    All(Vec<u8>),
    /// that many schedules, chosen at random
    Rand { seed: u64, from: u32, to: u32 },
    /// one schedule (the remaining choices are 0)
    Fixed(Vec<u8>),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Steer {
    cl: Cl,
    /// the ranges read by each reader
    reads: Vec<Vec<(u32, u32)>>,
    /// readers also ask for the content (else they share a region)
    get: bool,
    file: bool,
    choose: Choose,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    Free(Free),
    Tree(Tree),
    Steer(Steer),
}

// ------------------------------------------------------------------ what happens at the schedule points

/// 0 nothing, 1 random delays, 2 steered
static MODE: AtomicU8 = AtomicU8::new(0);
static STYLE: AtomicU8 = AtomicU8::new(0);
static SEED: AtomicU64 = AtomicU64::new(0);
static TICK: AtomicU64 = AtomicU64::new(0);
static POINTS: [AtomicU64; 16] = [const { AtomicU64::new(0) }; 16];
/// readers which were waiting for bytes that were not there
static DECODING: AtomicUsize = AtomicUsize::new(0);
static MAX_DECODING: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static ROLE: Cell<usize> = const { Cell::new(0) };
    static RND: Cell<u64> = const { Cell::new(0) };
}

fn rnd() -> u64 {
    RND.with(|c| {
        let mut x = c.get();
        if x == 0 {
            x = mix(SEED.load(Relaxed) ^ mix(TICK.fetch_add(1, Relaxed)));
        }
        x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
        c.set(x | 1);
        mix(x)
    })
}

fn nap(us: u64) {
    if us < 60 {
        let t = std::time::Instant::now();
        while t.elapsed() < Duration::from_micros(us) {
            std::hint::spin_loop();
        }
    } else {
        std::thread::sleep(Duration::from_micros(us));
    }
}

fn delay(p: Point) {
    let r = rnd();
    let k = r >> 8 & 0xff;
    let n = r >> 16;
    let writer = matches!(p, Point::Decode | Point::Decoded | Point::Published | Point::Ended);
    match STYLE.load(Relaxed) {
        1 => {
            if k < 128 {
                std::thread::yield_now()
            } else if k < 140 {
                nap(n % 40)
            }
        }
        2 => {
            if writer && k < 200 {
                nap(n % 400)
            }
        }
        3 => {
            if !writer && k < 100 {
                nap(n % 150)
            }
        }
        4 => {
            if k < 40 {
                nap(n % 500)
            } else if k < 120 {
                std::thread::yield_now()
            }
        }
        5 => match p {
            Point::PackSet | Point::CacheSet | Point::Plain => nap(n % 300),
            Point::FileRead | Point::ClusterLocked if k < 60 => nap(n % 100),
            Point::PlainDone | Point::Cluster if k < 60 => nap(n % 200),
            _ => {}
        },
        // now and then the decoding stops for long
        6 => {
            if writer && k < 12 {
                nap(3000 + n % 4000)
            }
        }
        _ => {}
    }
}

fn hook(p: Point, _who: usize, value: u64) {
    match MODE.load(Relaxed) {
        1 => {
            POINTS[p as usize].fetch_add(1, Relaxed);
            match p {
                Point::Decode if value == 0 => {
                    let n = DECODING.fetch_add(1, Relaxed) + 1;
                    MAX_DECODING.fetch_max(n, Relaxed);
                }
                Point::Ended => {
                    let _ = DECODING.fetch_update(Relaxed, Relaxed, |n| n.checked_sub(1));
                }
                _ => {}
            }
            delay(p)
        }
        2 => steer(p, value),
        _ => {}
    }
}

/// A byte source which may be slow to answer.
#[derive(Debug)]
struct Slow(Vec<u8>);
impl AsRef<[u8]> for Slow {
    fn as_ref(&self) -> &[u8] {
        if MODE.load(Relaxed) == 1 {
            let r = rnd();
            if r & 7 == 0 {
                nap(r >> 20 & 0x1ff)
            }
        }
        &self.0
    }
}

// ------------------------------------------------------------------ the packs

impl Cl {
    fn blobs(&self) -> Vec<Vec<u8>> {
        self.sizes
            .iter()
            .enumerate()
            .map(|(k, n)| Blob::new(*n as usize, self.fill.clone(), self.seed.wrapping_add(k as u32 * 1009)).bytes())
            .collect()
    }
    fn valid(&self) -> bool {
        !self.sizes.is_empty()
            && self.sizes.len() <= 4000
            && self.sizes.iter().map(|x| *x as u64).sum::<u64>() < 6 << 20
            && !matches!(self.fill, Fill::Lit(_))
    }
}

/// pack, content of each id
fn hand_made(clusters: &[Cl], seed: u64) -> (Vec<u8>, Vec<Vec<u8>>) {
    let all: Vec<(Comp, Vec<Vec<u8>>)> = clusters.iter().map(|c| (c.comp, c.blobs())).collect();
    let mut contents = vec![];
    for (c, (_, b)) in all.iter().enumerate() {
        for k in 0..b.len() {
            contents.push((c as u32, k as u32));
        }
    }
    if seed & 1 == 1 {
        Rng::new(seed).shuffle(&mut contents);
    }
    let pack = content_pack(&[7; 16], &all, &contents);
    let want = contents.iter().map(|(c, b)| all[*c as usize].1[*b as usize].clone()).collect();
    (pack, want)
}

fn gen_cl(r: &mut Rng, big: bool) -> Cl {
    let comp = match r.below(10) {
        0 | 1 => Comp::None,
        2 | 3 => Comp::Lz4(*pick(r, &[1, 3])),
        4 => Comp::Lzma(0),
        _ => Comp::Zstd(*pick(r, &[-5, 1, 3])),
    };
    let n = r.range(1, 6);
    let sizes = (0..n)
        .map(|_| match r.below(if big { 12 } else { 10 }) {
            0 => 0,
            1 => r.below(3) as u32,
            2..=4 => (4096 * r.range(1, 3) + r.below(3) - 1) as u32,
            5 | 6 => r.below(300) as u32,
            7 | 8 => r.below(9000) as u32,
            9 => r.below(30_000) as u32,
            _ => r.below(400_000) as u32,
        })
        .collect();
    let fill = match r.below(5) {
        0 => Fill::Rand,
        1 => Fill::Half,
        2 => Fill::Period(r.range(3, 50) as u16),
        _ => Fill::Text,
    };
    Cl {
        comp,
        fill,
        seed: r.below(1 << 30) as u32,
        sizes,
    }
}

fn gen_free(r: &mut Rng) -> Free {
    let shape = r.below(8);
    let n = match shape {
        0 => 1,
        1 => r.range(2, 12),
        2 | 3 => r.range(12, 39),
        // more than the cache holds
        _ => r.range(41, 90),
    };
    let mut clusters: Vec<Cl> = (0..n).map(|_| gen_cl(r, n < 20)).collect();
    match r.below(6) {
        // the same kind everywhere
        0 => {
            let c = clusters[0].comp;
            clusters.iter_mut().for_each(|x| x.comp = c)
        }
        // contents which may not be confused: all have the same sizes
        1 | 2 => {
            let s = clusters[0].sizes.clone();
            clusters.iter_mut().for_each(|x| x.sizes = s.clone())
        }
        _ => {}
    }
    Free {
        clusters,
        store: r.below(3) as u8,
        threads: *pick(r, &[2, 2, 3, 4, 6, 8, 12, 16]),
        ops: r.range(20, 90) as u32,
        pattern: r.below(7) as u8,
        style: r.below(7) as u8,
        seed: r.next(),
    }
}

struct Shared {
    pack: ContentPack,
    want: Vec<Vec<u8>>,
    slots: Vec<Mutex<Option<(usize, ByteRegion)>>>,
    stop: AtomicBool,
    fail: Mutex<Option<(String, String)>>,
    barrier: Barrier,
    reads: AtomicU64,
    held: AtomicU64,
}

type Res = Result<(), (String, String)>;

fn bad(sig: &str, msg: String) -> (String, String) {
    (sig.into(), msg)
}

fn differs(id: usize, what: &str, want: &[u8], got: &[u8]) -> Res {
    if want == got {
        return Ok(());
    }
    let at = want.iter().zip(got).position(|(a, b)| a != b).unwrap_or(want.len().min(got.len()));
    Err(bad(
        "bytes",
        format!(
            "content {id}, {what}: {} bytes instead of {}, first difference at {at} (stored {}, read {})",
            got.len(),
            want.len(),
            brief(&want[at.min(want.len())..(at + 16).min(want.len())]),
            brief(&got[at.min(got.len())..(at + 16).min(got.len())])
        ),
    ))
}

fn range_of(r: &mut Rng, n: usize) -> (usize, usize) {
    let n = n as u64;
    let o = match r.below(4) {
        0 => 0,
        1 => (4096 * r.below(n / 4096 + 1)).min(n),
        _ => r.below(n + 1),
    };
    let l = match r.below(4) {
        0 => n - o,
        1 => r.below(20).min(n - o),
        _ => r.below(n - o + 1),
    };
    (o as usize, l as usize)
}

/// Reads (a part of) a region in one of the possible ways.
fn read_one(r: &mut Rng, id: usize, reg: &ByteRegion, want: &[u8]) -> Res {
    let e = |what: &str, x: &dyn std::fmt::Display| bad("error", format!("content {id}, {what}: {x}"));
    if reg.size().into_u64() != want.len() as u64 {
        return Err(bad(
            "size",
            format!("content {id} has {} bytes instead of {}", reg.size().into_u64(), want.len()),
        ));
    }
    let (o, l) = range_of(r, want.len());
    match r.below(8) {
        0 | 1 => {
            let mut v = vec![];
            reg.stream().read_to_end(&mut v).map_err(|x| e("whole", &x))?;
            differs(id, "whole", want, &v)
        }
        2 => {
            let v = reg.get_slice(o.into(), l).map_err(|x| e("slice", &x))?;
            // look at it again later
            let first = *v == want[o..o + l];
            if r.chance(1, 3) {
                std::thread::yield_now();
            }
            if !first && *v == want[o..o + l] {
                return Err(bad("torn", format!("content {id}, the slice {o}+{l} changes while it is held")));
            }
            differs(id, &format!("slice {o}+{l}"), &want[o..o + l], &v)
        }
        3 => {
            let mut s = reg.stream();
            let step = *pick(r, &[1usize, 7, 100, 4095, 4096, 5000]);
            let mut v = vec![];
            let mut buf = vec![0u8; step];
            let max = if step < 100 { 3000 } else { usize::MAX };
            while v.len() < max {
                let n = s.read(&mut buf).map_err(|x| e("stream", &x))?;
                if n == 0 {
                    break;
                }
                v.extend_from_slice(&buf[..n]);
            }
            let w = &want[..want.len().min(v.len().max(max.min(want.len())))];
            differs(id, &format!("stream by {step}"), w, &v[..v.len()])
        }
        4 => {
            let c = reg.cut(o.into(), (l as u64).into());
            let (o2, l2) = range_of(r, l);
            let v = c.get_slice(o2.into(), l2).map_err(|x| e("cut", &x))?;
            differs(id, &format!("cut {o}+{l} slice {o2}+{l2}"), &want[o + o2..o + o2 + l2], &v)
        }
        5 => {
            let c = reg.cut(o.into(), (l as u64).into());
            let mut v = vec![];
            c.stream().read_to_end(&mut v).map_err(|x| e("cut stream", &x))?;
            differs(id, &format!("cut {o}+{l} stream"), &want[o..o + l], &v)
        }
        6 => {
            let mut v = vec![0; l];
            jbk::verif::rp_read_data(reg, o.into(), &mut v).map_err(|x| e("read_data", &x))?;
            differs(id, &format!("read_data {o}+{l}"), &want[o..o + l], &v)
        }
        _ => {
            let mut s = reg.as_slice().stream();
            let mut v = vec![0; l];
            s.read_exact(&mut v).map_err(|x| e("read_exact", &x))?;
            differs(id, &format!("read_exact {l}"), &want[..l], &v)
        }
    }
}

fn reader_thread(s: &Shared, f: &Free, t: usize) -> Res {
    let mut r = Rng::new(f.seed ^ mix(t as u64 + 1));
    let n = s.want.len();
    let mut held: Vec<(usize, ByteRegion)> = vec![];
    let hot: Vec<usize> = (0..3).map(|k| (mix(f.seed ^ k) % n as u64) as usize).collect();
    s.barrier.wait();
    for k in 0..f.ops as usize {
        if f.pattern != 4 && s.stop.load(Relaxed) {
            break;
        }
        let id = match f.pattern {
            // everyone walks through the contents
            0 => k * n / f.ops as usize,
            1 => r.below(n as u64) as usize,
            2 => hot[r.below(3) as usize],
            // each thread has its own part
            3 => (t * n / f.threads as usize + k) % n,
            // all at once on the same content
            4 => {
                s.barrier.wait();
                (mix(f.seed ^ k as u64) % n as u64) as usize
            }
            // forward and backward
            5 => {
                if t % 2 == 0 {
                    k % n
                } else {
                    n - 1 - k % n
                }
            }
            _ => {
                if r.chance(1, 2) {
                    hot[r.below(3) as usize]
                } else {
                    r.below(n as u64) as usize
                }
            }
        } % n;
        let res = (|| {
            if f.pattern != 4 && r.chance(1, 40) {
                return match s.pack.check() {
                    Ok(true) => Ok(()),
                    Ok(false) => Err(bad("check", "check() answers false on an intact pack".into())),
                    Err(e) => Err(bad("error", format!("check(): {e}"))),
                };
            }
            // something got before, here or by another thread
            if r.chance(1, 5) && !held.is_empty() {
                let (id, reg) = &held[r.below(held.len() as u64) as usize];
                s.held.fetch_add(1, Relaxed);
                return read_one(&mut r, *id, reg, &s.want[*id]);
            }
            if r.chance(1, 6) {
                let got = s.slots[r.below(s.slots.len() as u64) as usize].lock().unwrap().clone();
                if let Some((id, reg)) = got {
                    s.held.fetch_add(1, Relaxed);
                    return read_one(&mut r, id, &reg, &s.want[id]);
                }
            }
            let reg = match s.pack.get_content((id as u32).into()) {
                Ok(Some(x)) => x,
                Ok(None) => return Err(bad("none", format!("content {id} is unknown"))),
                Err(e) => return Err(bad("error", format!("content {id}: {e}"))),
            };
            match r.below(4) {
                0 => {
                    *s.slots[r.below(s.slots.len() as u64) as usize].lock().unwrap() = Some((id, reg.clone()));
                }
                1 => held.push((id, reg.clone())),
                _ => {}
            }
            read_one(&mut r, id, &reg, &s.want[id])
        })();
        s.reads.fetch_add(1, Relaxed);
        if let Err(x) = res {
            s.fail.lock().unwrap().get_or_insert(x);
            s.stop.store(true, Relaxed);
            if f.pattern != 4 {
                break;
            }
        }
        if f.pattern == 4 {
            // every thread takes the same decision
            s.barrier.wait();
            if s.fail.lock().unwrap().is_some() {
                s.barrier.wait();
                break;
            }
            s.barrier.wait();
        }
    }
    Ok(())
}

fn start(mode: u8, style: u8, seed: u64) {
    jbk::verif::set_hook(hook);
    SEED.store(seed, Relaxed);
    STYLE.store(style, Relaxed);
    MAX_DECODING.store(0, Relaxed);
    DECODING.store(0, Relaxed);
    for p in &POINTS {
        p.store(0, Relaxed);
    }
    MODE.store(mode, SeqCst);
}

fn finish(out: &mut Outcome) {
    MODE.store(0, SeqCst);
    for p in [
        Point::Published,
        Point::Waited,
        Point::Plain,
        Point::PackSet,
        Point::CacheSet,
        Point::FileRead,
    ] {
        out.tagn(format!("{p:?} events"), POINTS[p as usize].load(Relaxed));
    }
    if MAX_DECODING.load(Relaxed) >= 8 {
        out.tag("8 clusters decoding at once");
    }
    // a panic in any thread
    let p = take_panics();
    if out.fail.is_none() {
        if let Some(x) = p.first() {
            out.fail = Some(bad("panic", x.clone()));
        }
    }
}

fn run_free(f: &Free, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::pass();
    let (bytes, want) = hand_made(&f.clusters, f.seed);
    let len = bytes.len();
    let reader: jbk::Reader = match f.store {
        1 => {
            let p = ctx.sub("free").join("p.jbkc");
            std::fs::write(&p, &bytes).unwrap();
            jbk::FileSource::open(&p).unwrap().into()
        }
        2 => Slow(bytes).into(),
        _ => bytes.into(),
    };
    let pack = match guard(|| ContentPack::new(reader)) {
        Ok(Ok(p)) => p,
        Ok(Err(e)) => return Outcome::failed("open", format!("the pack is refused: {e}")),
        Err(e) => return Outcome::failed("panic", e),
    };
    let s = Shared {
        pack,
        want,
        slots: (0..4).map(|_| Mutex::new(None)).collect(),
        stop: AtomicBool::new(false),
        fail: Mutex::new(None),
        barrier: Barrier::new(f.threads as usize),
        reads: AtomicU64::new(0),
        held: AtomicU64::new(0),
    };
    start(1, f.style, f.seed);
    // In pattern 4 a panic in one thread would leave the others at the barrier: catch it.
    std::thread::scope(|sc| {
        for t in 0..f.threads as usize {
            let s = &s;
            sc.spawn(move || {
                RND.with(|c| c.set(mix(f.seed ^ mix(t as u64 + 99)) | 1));
                if let Err(x) = guard(|| reader_thread(s, f, t)) {
                    s.fail.lock().unwrap().get_or_insert(bad("panic", x));
                    s.stop.store(true, Relaxed);
                    if f.pattern == 4 {
                        // give up: the process is ended, the supervisor reports it
                        eprintln!("{}", s.fail.lock().unwrap().as_ref().unwrap().1);
                        std::process::abort();
                    }
                }
            });
        }
    });
    out.fail = s.fail.lock().unwrap().clone();
    drop(s.slots);
    finish(&mut out);
    let reads = s.reads.load(Relaxed);
    out.evals = reads.max(1);
    let comp = f.clusters.iter().filter(|c| c.comp != Comp::None).count();
    out.nontrivial = f.threads > 1 && comp > 0 && reads > 1;
    out.inner_nontrivial = if out.nontrivial { reads } else { 0 };
    out.tagn("reads of a region got earlier or by another thread", s.held.load(Relaxed));
    if f.clusters.len() > 40 {
        out.tag("more clusters than cache slots");
    }
    out.tag(format!("pattern {}", f.pattern));
    out.tag(format!("delays {}", f.style));
    out.tag(["in memory", "in a file", "in slow memory"][f.store as usize % 3]);
    out.sample = Some(format!(
        "{} threads, {} clusters ({comp} compressed) in {len} bytes, pattern {}, delays {}, {} reads, at most {} clusters decoding at once",
        f.threads,
        f.clusters.len(),
        f.pattern,
        f.style,
        reads,
        MAX_DECODING.load(Relaxed)
    ));
    if let Some((_, m)) = &mut out.fail {
        *m = format!("{} threads on a pack of {} clusters: {m}", f.threads, f.clusters.len());
    }
    out
}

// ------------------------------------------------------------------ whole containers

fn gen_tree(r: &mut Rng, big: bool) -> Tree {
    let mut contents = if big {
        // more clusters than the cache holds
        let n = r.range(42, 60) as u32;
        (0..n)
            .map(|k| Insert {
                blob: Blob::new(r.below(9) as usize + 1, pick(r, &[Fill::Rand, Fill::Rand, Fill::Text]).clone(), k * 5000),
                hint: *pick(r, &[Hint::Yes, Hint::Yes, Hint::No]),
                src: Src::Mem,
                times: 4095,
            })
            .collect()
    } else {
        let mut v = gen_inserts(r, 60, 30_000, 400_000);
        v.iter_mut().for_each(|i| i.src = Src::Mem);
        v
    };
    if contents.is_empty() {
        contents.push(Insert {
            blob: Blob::new(20_000, Fill::Text, 1),
            hint: Hint::Yes,
            src: Src::Mem,
            times: 1,
        });
    }
    let ncontents = contents.iter().map(|i| i.times as usize).sum();
    let dir = gen_dir(
        r,
        &DirOpts {
            max_entries: 40,
            ncontents,
            max_array: 300,
            max_estores: 3,
            max_stores: 3,
            max_props: 4,
            ..Default::default()
        },
    );
    let extra = (0..if big { 0 } else { r.below(4) })
        .map(|k| ExtraPack {
            id: 2 + k as u16,
            comp: gen_comp(r),
            contents: {
                let mut v = gen_inserts(r, 10, 20_000, 60_000);
                v.iter_mut().for_each(|i| i.src = Src::Mem);
                v
            },
        })
        .collect();
    Tree {
        spec: Spec {
            comp: match gen_comp(r) {
                Comp::Lzma(_) if big => Comp::Zstd(1),
                c => c,
            },
            packaging: gen_packaging(r),
            cached: false,
            contents,
            extra,
            dir,
        },
        threads: *pick(r, &[2, 3, 4, 8, 16]),
        rounds: if big { 1 } else { r.range(3, 12) as u32 },
        ops: if big { 400 } else { r.range(3, 30) as u32 },
        style: *pick(r, &[0, 1, 4, 5, 5, 5, 6]),
        seed: r.next(),
    }
}

fn run_tree(c: &Tree, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::pass();
    MODE.store(0, SeqCst);
    let path = ctx.sub("tree").join("a.jbk");
    let b = match guard(|| build(&c.spec, &path, &ctx.sub("in"))) {
        Ok(Ok(b)) => b,
        Ok(Err(x)) | Err(x) => {
            out.tag(format!("not created: {}", cut(&x, 60)));
            return out;
        }
    };
    let want = expect_dump(&c.spec, &b);
    let mut contents: Vec<((u16, u32), Vec<u8>)> = vec![];
    for (i, a) in expand(&c.spec.contents).iter().zip(&b.addrs) {
        contents.push((*a, i.blob.bytes()));
    }
    for (e, addrs) in c.spec.extra.iter().zip(&b.extra_addrs) {
        for (i, a) in expand(&e.contents).iter().zip(addrs) {
            contents.push((*a, i.blob.bytes()));
        }
    }
    // alone, it must be fine: otherwise other properties are concerned
    if contents.len() < 1000 {
        if let Err(x) | Ok(Err(x)) = guard(|| crate::read::verify(&path, &want, true)) {
            out.tag(format!("not readable by one thread: {}", cut(&x, 60)));
            return out;
        }
    }
    let fail: Mutex<Option<(String, String)>> = Mutex::new(None);
    let reads = AtomicU64::new(0);
    for round in 0..c.rounds {
        ctx.step(round as u64);
        let Ok(Ok(cont)) = guard(|| crate::read::open(&path)) else {
            return Outcome::failed("open", "the container does not open again");
        };
        start(1, c.style, c.seed ^ mix(round as u64));
        let go = Barrier::new(c.threads as usize);
        std::thread::scope(|sc| {
            for t in 0..c.threads as usize {
                let (cont, fail, reads, want, contents, go) = (&cont, &fail, &reads, &want, &contents, &go);
                sc.spawn(move || {
                    let seed = c.seed ^ mix(round as u64) ^ mix(t as u64 + 5);
                    RND.with(|c| c.set(seed | 1));
                    go.wait();
                    let res = guard(|| {
                        let mut r = Rng::new(seed);
                        // the same things first, at the same time
                        let mut first = Rng::new(c.seed ^ mix(round as u64));
                        for k in 0..c.ops {
                            let r = if k < 2 { &mut first } else { &mut r };
                            if fail.lock().unwrap().is_some() {
                                return Ok(());
                            }
                            tree_op(r, cont, want, contents)?;
                            reads.fetch_add(1, Relaxed);
                        }
                        Ok(())
                    });
                    match res {
                        Ok(Ok(())) => {}
                        Ok(Err(x)) => {
                            fail.lock().unwrap().get_or_insert(x);
                        }
                        Err(x) => {
                            fail.lock().unwrap().get_or_insert(bad("panic", x));
                        }
                    }
                });
            }
        });
        drop(cont);
        if fail.lock().unwrap().is_some() {
            break;
        }
    }
    out.fail = fail.into_inner().unwrap();
    finish(&mut out);
    out.evals = reads.load(Relaxed).max(1);
    out.nontrivial = c.threads > 1 && out.evals > 1;
    out.inner_nontrivial = if out.nontrivial { out.evals } else { 0 };
    out.tag(c.spec.packaging.name());
    out.tag(format!("delays {}", c.style));
    if contents.len() > 100_000 {
        out.tag("creator made pack with more clusters than cache slots");
    }
    out.sample = Some(format!(
        "container {} with {} contents, {} indexes, {} extra packs: {} threads, opened {} times, {} operations",
        c.spec.packaging.name(),
        contents.len(),
        c.spec.dir.indexes.len(),
        c.spec.extra.len(),
        c.threads,
        c.rounds,
        out.evals
    ));
    if let Some((_, m)) = &mut out.fail {
        *m = format!("{} threads on one {} container: {m}", c.threads, c.spec.packaging.name());
    }
    out
}

fn tree_op(r: &mut Rng, c: &jbk::reader::Container, want: &Dump, contents: &[((u16, u32), Vec<u8>)]) -> Res {
    match r.below(12) {
        0..=6 if !contents.is_empty() => {
            let (a, w) = pick(r, contents);
            match c.get_bytes(crate::read::addr(*a)) {
                Ok(Some(MayMissPack::FOUND(Some(reg)))) => read_one(r, a.1 as usize, &reg, w),
                Ok(Some(MayMissPack::FOUND(None))) => Err(bad("none", format!("no content {a:?}"))),
                Ok(Some(MayMissPack::MISSING(_))) => Err(bad("none", format!("the pack of {a:?} is missing"))),
                Ok(None) => Err(bad("none", format!("the pack of {a:?} is unknown"))),
                Err(e) => Err(bad("error", format!("content {a:?}: {e}"))),
            }
        }
        7 | 8 if !want.indexes.is_empty() => {
            let w = pick(r, &want.indexes);
            match crate::read::read_index(c, &w.name) {
                Ok(Some(g)) if g == *w => Ok(()),
                Ok(Some(g)) => {
                    let d = w.entries.iter().zip(&g.entries).find_map(|(a, b)| diff_entry(a, b));
                    Err(bad("entry", format!("index {}: {}", w.name, d.unwrap_or("other header".into()))))
                }
                Ok(None) => Err(bad("none", format!("no index {}", w.name))),
                Err(e) => Err(bad("error", format!("index {}: {e}", w.name))),
            }
        }
        9 | 10 => {
            let ids: Vec<u16> = contents.iter().map(|x| x.0 .0).collect();
            let id = if ids.is_empty() { 1 } else { *pick(r, &ids) };
            let n = contents.iter().filter(|x| x.0 .0 == id).map(|x| x.0 .1 + 1).max().unwrap_or(0);
            match c.get_pack(id.into()) {
                Ok(Some(MayMissPack::FOUND(p))) => {
                    let k = p.get_content_count().into_u32();
                    if k != n {
                        return Err(bad("count", format!("pack {id} has {k} contents instead of {n}")));
                    }
                    Ok(())
                }
                Ok(_) => Err(bad("none", format!("pack {id} is not found"))),
                Err(e) => Err(bad("error", format!("pack {id}: {e}"))),
            }
        }
        _ => {
            if !r.chance(1, 3) {
                return Ok(());
            }
            match c.check() {
                Ok(true) => Ok(()),
                Ok(false) => Err(bad("check", "check() answers false".into())),
                Err(e) => Err(bad("error", format!("check(): {e}"))),
            }
        }
    }
}

// ------------------------------------------------------------------ steered

const MAXR: usize = 4;

#[derive(Default)]
struct Ctl {
    on: bool,
    /// what the thread is about to do
    parked: [Option<(Point, u64)>; MAXR],
    granted: [bool; MAXR],
    done: [bool; MAXR],
    /// the decoding thread exists
    writer: bool,
    /// the decoding thread ended
    ended: bool,
    get: bool,
    file: bool,
}
static CTL: Mutex<Option<Ctl>> = Mutex::new(None);
static CV: Condvar = Condvar::new();

fn steer(p: Point, value: u64) {
    let role = ROLE.with(|r| r.get());
    if role >= MAXR {
        return;
    }
    let mut g = CTL.lock().unwrap();
    let Some(c) = g.as_mut() else { return };
    if role == 0 && p == Point::Ended {
        c.ended = true;
        c.done[0] = true;
        CV.notify_all();
        return;
    }
    if !c.on {
        return;
    }
    let stop = match p {
        Point::Decode | Point::Decoded => role == 0,
        Point::FileRead => role == 0 && c.file && c.writer,
        Point::Wait | Point::Waited => role != 0,
        Point::Plain | Point::PlainDone => role != 0 && c.get,
        _ => false,
    };
    if !stop {
        return;
    }
    if role == 0 {
        c.writer = true;
    }
    c.parked[role] = Some((p, value));
    CV.notify_all();
    while let Some(c) = g.as_mut() {
        if !c.on || c.granted[role] {
            c.granted[role] = false;
            c.parked[role] = None;
            CV.notify_all();
            break;
        }
        g = CV.wait(g).unwrap();
    }
}

struct Played {
    /// (chosen, among)
    choices: Vec<(u8, u8)>,
    lost: bool,
    /// a reader went to wait before its bytes were published
    waited: bool,
    fail: Option<(String, String)>,
}

/// Runs one schedule. `next` chooses among n possibilities; None: this schedule is of no interest.
fn play(s: &Steer, bytes: &[u8], want: &[u8], dir: &std::path::Path, next: &mut dyn FnMut(usize, usize) -> Option<usize>) -> Option<Played> {
    let mut out = Played {
        choices: vec![],
        lost: false,
        waited: false,
        fail: None,
    };
    let reader: jbk::Reader = if s.file {
        let p = dir.join("s.jbkc");
        if !p.exists() {
            std::fs::write(&p, bytes).unwrap();
        }
        jbk::FileSource::open(&p).unwrap().into()
    } else {
        bytes.to_vec().into()
    };
    let n = s.reads.len();
    ROLE.with(|r| r.set(MAXR));
    let mut ctl = Ctl {
        on: true,
        get: s.get,
        file: s.file,
        ..Default::default()
    };
    for k in n + 1..MAXR {
        ctl.done[k] = true;
    }
    *CTL.lock().unwrap() = Some(ctl);
    MODE.store(2, SeqCst);
    let pack = match ContentPack::new(reader) {
        Ok(p) => p,
        Err(e) => {
            MODE.store(0, SeqCst);
            out.fail = Some(bad("open", format!("{e}")));
            return Some(out);
        }
    };
    // the decoding is going to start
    let mut expect_writer = false;
    let region = if s.get {
        None
    } else {
        match pack.get_content(0.into()) {
            Ok(Some(r)) => {
                expect_writer = true;
                Some(r)
            }
            _ => {
                MODE.store(0, SeqCst);
                out.fail = Some(bad("none", "content 0 is not found".into()));
                return Some(out);
            }
        }
    };
    let fail: Mutex<Option<(String, String)>> = Mutex::new(None);
    let mut cancelled = false;
    std::thread::scope(|sc| {
        for (k, ranges) in s.reads.iter().enumerate() {
            let (pack, region, fail) = (&pack, &region, &fail);
            sc.spawn(move || {
                ROLE.with(|r| r.set(k + 1));
                let res = guard(|| -> Res {
                    for (o, l) in ranges {
                        let (o, l) = (*o as usize, *l as usize);
                        let reg = match region {
                            Some(r) => r.clone(),
                            None => match pack.get_content(0.into()) {
                                Ok(Some(r)) => r,
                                Ok(None) => return Err(bad("none", "content 0 is not found".into())),
                                Err(e) => return Err(bad("error", format!("content 0: {e}"))),
                            },
                        };
                        let v = reg.get_slice(o.into(), l).map_err(|e| bad("error", format!("slice {o}+{l}: {e}")))?;
                        differs(0, &format!("slice {o}+{l}"), &want[o..o + l], &v)?;
                    }
                    Ok(())
                });
                if let Err(x) | Ok(Err(x)) = res.map_err(|x| bad("panic", x)) {
                    fail.lock().unwrap().get_or_insert(x);
                }
                let mut g = CTL.lock().unwrap();
                if let Some(c) = g.as_mut() {
                    c.done[k + 1] = true;
                }
                CV.notify_all();
            });
        }
        // the controller
        let mut published = 0u64;
        // the bytes a granted reader is waiting for
        let mut waiting: [Option<u64>; MAXR] = [None; MAXR];
        let mut g = CTL.lock().unwrap();
        loop {
            // until every thread is stopped, as far as it can be known
            let t0 = std::time::Instant::now();
            loop {
                let c = g.as_mut().unwrap();
                let settled = (0..=n).all(|k| {
                    c.done[k]
                        || (c.parked[k].is_some() && !c.granted[k])
                        || (k == 0 && !expect_writer && !c.writer)
                        || (k > 0 && waiting[k].map(|e| e > published).unwrap_or(false) && !c.granted[k])
                });
                if settled {
                    break;
                }
                if t0.elapsed() > Duration::from_secs(3) {
                    out.lost = true;
                    break;
                }
                g = CV.wait_timeout(g, Duration::from_millis(200)).unwrap().0;
            }
            let c = g.as_mut().unwrap();
            let options: Vec<usize> = (0..=n).filter(|k| c.parked[*k].is_some() && !c.granted[*k]).collect();
            if out.lost || options.is_empty() {
                c.on = false;
                CV.notify_all();
                break;
            }
            let k = if options.len() == 1 {
                0
            } else {
                match next(out.choices.len(), options.len()) {
                    Some(k) => {
                        out.choices.push((k as u8, options.len() as u8));
                        k
                    }
                    None => {
                        cancelled = true;
                        c.on = false;
                        CV.notify_all();
                        break;
                    }
                }
            };
            let role = options[k];
            let (p, v) = c.parked[role].unwrap();
            waiting[role] = None;
            match p {
                Point::Decoded => published = published.max(v),
                Point::Wait => {
                    waiting[role] = Some(v);
                    if v > published {
                        out.waited = true;
                    }
                }
                Point::Plain => expect_writer = true,
                _ => {}
            }
            c.granted[role] = true;
            CV.notify_all();
        }
        drop(g);
    });
    // let the decoding thread go away
    let mut g = CTL.lock().unwrap();
    let t0 = std::time::Instant::now();
    while g.as_ref().map(|c| c.writer && !c.ended).unwrap_or(false) && t0.elapsed() < Duration::from_secs(2) {
        g = CV.wait_timeout(g, Duration::from_millis(100)).unwrap().0;
    }
    *g = None;
    drop(g);
    MODE.store(0, SeqCst);
    if cancelled {
        return None;
    }
    out.fail = fail.into_inner().unwrap();
    Some(out)
}

fn run_steer(s: &Steer, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::pass();
    out.evals = 0;
    let (bytes, want) = hand_made(std::slice::from_ref(&s.cl), 0);
    let want = &want[0];
    let dir = ctx.sub("steer");
    jbk::verif::set_hook(hook);
    let lost = Cell::new(0u64);
    let mut longest = 0;
    let mut one = |out: &mut Outcome, next: &mut dyn FnMut(usize, usize) -> Option<usize>| -> Option<Vec<(u8, u8)>> {
        if out.evals % 64 == 0 {
            ctx.step(out.evals);
        }
        let p = play(s, &bytes, want, &dir, next)?;
        out.evals += 1;
        if p.waited {
            out.inner_nontrivial += 1;
        }
        longest = longest.max(p.choices.len());
        if p.lost {
            lost.set(lost.get() + 1);
        }
        let fail = p.fail.or_else(|| take_panics().first().map(|x| bad("panic", x.clone())));
        if let Some((sig, m)) = fail {
            let mut code = 0u64;
            for (i, (c, _)) in p.choices.iter().enumerate().take(31) {
                code |= (*c as u64 & 3) << (2 * i);
            }
            out.step = Some(code);
            out.fail = Some((sig, format!("schedule {:?}: {m}", p.choices.iter().map(|c| c.0).collect::<Vec<_>>())));
        }
        Some(p.choices)
    };
    match &s.choose {
        Choose::Fixed(v) => {
            // several times: what happens between two points is not decided here
            for _ in 0..5 {
                one(&mut out, &mut |k, n| Some((v.get(k).copied().unwrap_or(0) as usize).min(n - 1)));
                if out.fail.is_some() {
                    break;
                }
            }
        }
        Choose::Rand { seed, from, to } => {
            for i in *from..*to {
                let mut r = Rng::new(seed ^ mix(i as u64));
                one(&mut out, &mut |_, n| Some(r.below(n as u64) as usize));
                if out.fail.is_some() || lost.get() > 2 {
                    break;
                }
            }
        }
        Choose::All(prefix) => {
            let mut forced: Vec<u8> = prefix.clone();
            let mut complete = true;
            loop {
                let f = forced.clone();
                let done = one(&mut out, &mut |k, n| match f.get(k) {
                    Some(c) if (*c as usize) < n => Some(*c as usize),
                    Some(_) => None,
                    None => Some(0),
                });
                let Some(mut ch) = done else {
                    // there are fewer possibilities than this prefix says
                    if forced.len() > prefix.len() {
                        complete = false;
                    }
                    break;
                };
                if out.fail.is_some() || lost.get() > 2 {
                    complete = false;
                    break;
                }
                // the next one in lexical order
                while ch.len() > prefix.len() && ch.last().map(|(c, n)| c + 1 >= *n).unwrap_or(false) {
                    ch.pop();
                }
                if ch.len() <= prefix.len() {
                    break;
                }
                forced = ch.iter().map(|c| c.0).collect();
                *forced.last_mut().unwrap() += 1;
            }
            if complete && out.evals > 0 {
                out.tag(format!("all schedules of {} readers enumerated (with a prefix)", s.reads.len()));
            }
        }
    }
    out.nontrivial = out.inner_nontrivial > 0;
    out.tagn(format!("schedules of {} readers", s.reads.len()), out.evals);
    if lost.get() > 0 {
        out.tagn("schedules out of control", lost.get());
    }
    out.sample = Some(format!(
        "{} readers {:?} of a {} bytes {} cluster, {:?}: {} schedules of up to {} choices, {} with a wait",
        s.reads.len(),
        s.reads,
        want.len(),
        s.cl.comp.name(),
        s.choose,
        out.evals,
        longest,
        out.inner_nontrivial
    ));
    out.evals = out.evals.max(1);
    out
}

/// The end of each range with regard to the chunks
fn steer_range(r: &mut Rng, total: u32) -> (u32, u32) {
    let end = match r.below(8) {
        0 => 1,
        1 => 4095,
        2 => 4096,
        3 => 4097,
        4 => 8192,
        5 => 8193,
        6 => total - 1,
        _ => total,
    }
    .min(total);
    let off = match r.below(3) {
        0 => 0,
        1 => end - 1,
        _ => r.below(end as u64) as u32,
    };
    (off, end - off)
}

fn gen_steer(group: &str, i: u64, r: &mut Rng) -> Steer {
    // the cases of a group that share a configuration are consecutive
    let per = match group {
        "steer2" => 4,
        "steer3" => 16,
        _ => 1,
    };
    let mut q = Rng::new(mix(i / per) ^ hash_str(group));
    let r = if per > 1 { &mut q } else { r };
    let nr = match group {
        "steer2" => 2,
        "steer3" => 3,
        _ => r.range(1, 3) as usize,
    };
    let chunks = if group == "steer" { r.range(1, 4) } else { 3 };
    let total = match r.below(3) {
        0 => 4096 * chunks,
        1 => 4096 * (chunks - 1) + 1,
        _ => 4096 * (chunks - 1) + r.range(1, 4096),
    } as u32;
    let comp = *pick(r, &[Comp::Zstd(1), Comp::Zstd(1), Comp::Lz4(1), Comp::Lzma(0)]);
    let random = group == "steer";
    // in which chunk the range of each reader ends: all the combinations
    const ENDS: [[u32; 3]; 10] = [
        [0, 0, 0],
        [0, 0, 1],
        [0, 0, 2],
        [0, 1, 1],
        [0, 1, 2],
        [0, 2, 2],
        [1, 1, 1],
        [1, 1, 2],
        [1, 2, 2],
        [2, 2, 2],
    ];
    let reads = (0..nr)
        .map(|k| {
            if group == "steer3" {
                let c = ENDS[(i / per % 10) as usize][k];
                let last = (4096 * (c + 1)).min(total);
                let end = match r.below(3) {
                    0 => 4096 * c + 1,
                    1 => last,
                    _ => r.range(4096 * c as u64 + 1, last as u64) as u32,
                };
                let off = if r.chance(1, 2) { 0 } else { r.below(end as u64) as u32 };
                return vec![(off, end - off)];
            }
            let n = if random { r.range(1, 3) } else { 1 };
            (0..n).map(|_| steer_range(r, total)).collect()
        })
        .collect();
    Steer {
        cl: Cl {
            comp,
            fill: if r.chance(1, 2) { Fill::Rand } else { Fill::Text },
            seed: r.below(1 << 30) as u32,
            sizes: vec![total],
        },
        reads,
        get: random && r.chance(1, 2),
        file: random && r.chance(1, 2),
        choose: match group {
            "steer2" => Choose::All(vec![(i % 4) as u8]),
            "steer3" => Choose::All(vec![(i % 4) as u8, (i / 4 % 4) as u8]),
            _ => Choose::Rand {
                seed: r.next(),
                from: 0,
                to: 300,
            },
        },
    }
}

impl Case {
    fn ok(&self) -> bool {
        match self {
            Case::Free(f) => {
                !f.clusters.is_empty()
                    && f.clusters.len() <= 200
                    && f.clusters.iter().all(|c| c.valid())
                    && (1..=32).contains(&f.threads)
                    && f.ops > 0
                    && f.ops <= 5000
            }
            Case::Tree(t) => t.spec.valid() && (1..=32).contains(&t.threads),
            Case::Steer(s) => {
                s.cl.valid()
                    && s.cl.sizes.len() == 1
                    && s.cl.sizes[0] > 0
                    && s.cl.sizes[0] < 100_000
                    && s.cl.comp != Comp::None
                    && !s.reads.is_empty()
                    && s.reads.len() < MAXR
                    && s.reads.iter().all(|v| v.iter().all(|(o, l)| *o as u64 + *l as u64 <= s.cl.sizes[0] as u64 && *l > 0))
            }
        }
    }
}

impl Check for C07 {
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> String {
        "one evaluation = one read (or other reader operation) by one of several threads, or, for the steered groups, one whole schedule of the decoding thread and its readers; it is non-trivial when several threads are reading and a cluster is compressed, or, for the steered groups, when in that schedule a reader has to wait for bytes which are not yet published".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a schedule out of the reach of the delays and of the steered points, which the operating system never produces here, is not seen".into(),
            "a reader that is still blocked after the time limit of its case (three times) is said not to terminate".into(),
            "misuses of memory are seen as wrong bytes (fresh and freed blocks are filled), broken guards after a block, writes in freed blocks, or the death of the process".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("steer2", t.n(240, 4000)).timeout(60),
            Group::new("steer3", t.n(16 * 10, 16 * 200)).timeout(300),
            Group::new("steer", t.n(150, 20_000)).timeout(60),
            Group::new("free", t.n(500, 60_000)).timeout(30),
            Group::new("tree", t.n(240, 30_000)).timeout(30),
            Group::new("big", t.n(5, 400)).timeout(60),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| match g.as_str() {
            "free" => Case::Free(gen_free(r)),
            "tree" => Case::Tree(gen_tree(r, false)),
            "big" => Case::Tree(gen_tree(r, true)),
            g => Case::Steer(gen_steer(g, i, r)),
        })
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        match &c {
            Case::Free(f) => run_free(f, ctx),
            Case::Tree(t) => run_tree(t, ctx),
            Case::Steer(s) => run_steer(s, ctx),
        }
    }
    fn reduce(&self, json: &str, step: u64) -> Option<String> {
        let c: Case = serde_json::from_str(json).ok()?;
        let Case::Steer(s) = c else { return None };
        if matches!(s.choose, Choose::Fixed(_)) {
            return None;
        }
        let mut v: Vec<u8> = (0..31).map(|i| (step >> (2 * i) & 3) as u8).collect();
        while v.last() == Some(&0) {
            v.pop();
        }
        serde_json::to_string(&Case::Steer(Steer {
            choose: Choose::Fixed(v),
            ..s
        }))
        .ok()
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json).map(|c| c.ok()).unwrap_or(false)
    }
    fn confirm_runs(&self) -> u32 {
        10
    }
    fn worker_threads(&self) -> usize {
        5
    }
    fn env(&self) -> Vec<(String, String)> {
        vec![
            ("MALLOC_PERTURB_".into(), "165".into()),
            ("JBKVERIF_ALLOC".into(), "1".into()),
        ]
    }
}
