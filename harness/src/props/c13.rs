//! C13: every view of a stored content (region, slice, stream, sub-cut, conversion) shows the same bytes.
use super::*;

use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::reader::{ByteRegion, ByteSlice, ByteStream};
use jubako::verif as jv;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::io::Read;
use std::path::Path;

pub struct C13;

/// Where the bytes come from.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Origin {
    /// a content of a pack among others, read through ContentPack
    Stored {
        comp: Comp,
        before: Vec<Insert>,
        it: Insert,
        after: Vec<Insert>,
        /// whole file in memory instead of a file
        mem: bool,
        /// foreign bytes before the pack
        prefix: u32,
    },
    /// bytes of a bare file or buffer
    Plain { blob: Blob, mem: bool },
}

/// A position: `.0` is exact (clipped) when small, a fraction of the room otherwise
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub struct At(pub u32);
impl At {
    fn of(self, room: u64) -> u64 {
        if self.0 < 1 << 30 {
            (self.0 as u64).min(room)
        } else if self.0 >= 3 << 30 {
            room - ((self.0 & 0x3fff_ffff) as u64).min(room)
        } else {
            ((self.0 - (1 << 30)) as u64 * room) >> 31
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// sub range; of a region gives a slice, of a reader another reader (in memory or not)
    Cut(u32, At, At, bool),
    /// sub range of a reader, as a slice
    ByteSlice(u32, At, At),
    AsSlice(u32),
    ToRegion(u32),
    Clone(u32),
    /// `stream()`, or `create_stream` of a reader
    Stream(u32, At, At, bool),
    /// `ByteStream::from(region)`
    IntoStream(u32),
    GetSlice(u32, At, At),
    Read(u32, u32),
    ReadExact(u32, At),
    ReadToEnd(u32),
    Chunks(u32, u32),
    /// like `by_ref().take(n).read_to_end()`
    Take(u32, u32),
    Vectored(u32, u32, u32),
    RpSlice(u32, At, At),
    RpData(u32, At, At),
    RpInt(u32, At, u8),
    RpParser(u32, At, Vec<u32>),
    Drop(u32),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub origin: Origin,
    pub ops: Vec<Op>,
}

fn gen_at(r: &mut Rng) -> At {
    At(match r.below(8) {
        0 => 0,
        1 => r.range(1, 3) as u32,
        2 => (3 << 30) + r.below(4) as u32,
        3 => *pick(r, &[4095u32, 4096, 4097, 8192, 65535, 65536, 1023, 1024]),
        4 => r.below(200) as u32,
        _ => (1 << 30) + r.below(1 << 31) as u32,
    })
}

fn gen_n(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.below(3) as u32,
        1 => *pick(r, &[1023u32, 1024, 1025, 4095, 4096, 4097, 65536]),
        2 => 1 << 24,
        _ => log_len(r, 16) as u32,
    }
}

fn gen_op(r: &mut Rng) -> Op {
    let v = r.next() as u32;
    match r.below(30) {
        0 | 1 | 2 => Op::Cut(v, gen_at(r), gen_at(r), r.chance(1, 2)),
        3 => Op::ByteSlice(v, gen_at(r), gen_at(r)),
        4 => Op::AsSlice(v),
        5 | 6 => Op::ToRegion(v),
        7 => Op::Clone(v),
        8 | 26 | 27 => Op::Stream(v, gen_at(r), gen_at(r), r.chance(1, 2)),
        9 | 10 => Op::IntoStream(v),
        11 | 12 => Op::GetSlice(v, gen_at(r), gen_at(r)),
        13 | 14 | 22 | 23 => Op::Read(v, gen_n(r)),
        15 | 24 => Op::ReadExact(v, gen_at(r)),
        16 | 25 => {
            if r.chance(1, 2) {
                Op::ReadToEnd(v)
            } else {
                Op::Chunks(v, gen_n(r).max(1))
            }
        }
        17 => Op::Take(v, gen_n(r)),
        18 => Op::Vectored(v, gen_n(r), gen_n(r)),
        19 => Op::RpSlice(v, gen_at(r), gen_at(r)),
        20 => {
            if r.chance(1, 2) {
                Op::RpData(v, gen_at(r), gen_at(r))
            } else {
                Op::RpInt(v, gen_at(r), r.range(0, 16) as u8)
            }
        }
        _ => {
            if r.chance(1, 2) {
                Op::RpParser(v, gen_at(r), (0..r.range(1, 6)).map(|_| gen_n(r)).collect())
            } else {
                Op::Drop(v)
            }
        }
    }
}

pub fn gen(group: &str, r: &mut Rng) -> Case {
    let max = if group == "big" { 3_000_000 } else { 20_000 };
    let origin = if r.chance(1, 4) {
        let len = gen_len(r, max);
        Origin::Plain {
            blob: Blob::new(len, gen_fill(r), r.next() as u32),
            mem: r.chance(1, 2),
        }
    } else {
        let it = Insert {
            blob: Blob::new(
                if r.chance(1, 3) { r.range(0, max as u64) as usize } else { gen_len(r, max) },
                gen_fill(r),
                r.next() as u32,
            ),
            hint: if r.chance(1, 2) { Hint::Yes } else { gen_hint(r) },
            src: Src::Mem,
            times: 1,
        };
        Origin::Stored {
            comp: gen_comp(r),
            before: gen_inserts(r, 5, max / 3, max),
            it,
            after: gen_inserts(r, 3, max / 3, max),
            mem: r.chance(1, 3),
            prefix: if r.chance(1, 3) { r.range(1, 5000) as u32 } else { 0 },
        }
    };
    let n = r.range(3, 30);
    Case {
        origin,
        ops: (0..n).map(|_| gen_op(r)).collect(),
    }
}

enum Obj {
    Region(Box<ByteRegion>),
    /// the region it borrows from lives in `keep`
    Slice(ByteSlice<'static>),
    Stream(ByteStream, u64),
    Reader(Box<jbk::Reader>),
}

struct View {
    obj: Obj,
    lo: u64,
    hi: u64,
    /// distance of the absolute offset reported by the view to the one of the content
    base: Option<u64>,
    how: String,
}

struct Pool<'a> {
    bytes: &'a [u8],
    // dropped in that order
    views: Vec<View>,
    keep: Vec<Box<ByteRegion>>,
    keep_readers: Vec<Box<jbk::Reader>>,
}

type F = (&'static str, String);

impl Pool<'_> {
    fn describe(&self, v: &View) -> String {
        let k = match v.obj {
            Obj::Region(_) => "region",
            Obj::Slice(_) => "slice",
            Obj::Stream(..) => "stream",
            Obj::Reader(_) => "reader",
        };
        format!("{k} on {}..{} of {} ({})", v.lo, v.hi, self.bytes.len(), v.how)
    }

    fn sizes(&self, v: &View) -> Result<(), F> {
        let n = v.hi - v.lo;
        let bad = |what: &str, got: u64, want: u64| -> F { ("sizes", format!("{}: {what} is {got} instead of {want}", self.describe(v))) };
        match &v.obj {
            Obj::Region(r) => {
                if r.size().into_u64() != n {
                    return Err(bad("size()", r.size().into_u64(), n));
                }
                if let Some(b) = v.base {
                    let g = jv::rp_global_offset(&**r);
                    if g != b + v.lo {
                        return Err(bad("global_offset()", g, b + v.lo));
                    }
                }
            }
            Obj::Slice(r) => {
                if r.size().into_u64() != n {
                    return Err(bad("size()", r.size().into_u64(), n));
                }
                if let Some(b) = v.base {
                    let g = jv::rp_global_offset(r);
                    if g != b + v.lo {
                        return Err(bad("global_offset()", g, b + v.lo));
                    }
                }
            }
            Obj::Stream(s, cur) => {
                if s.size() != n {
                    return Err(bad("size()", s.size(), n));
                }
                if s.offset() != *cur {
                    return Err(bad("offset()", s.offset(), *cur));
                }
                if s.size_left() != n - cur {
                    return Err(bad("size_left()", s.size_left(), n - cur));
                }
            }
            Obj::Reader(r) => {
                let s = jv::reader_size(r).into_u64();
                if s != n {
                    return Err(bad("size()", s, n));
                }
            }
        }
        Ok(())
    }

    fn same(&self, v: &View, what: &str, got: &[u8], from: u64, n: u64) -> Result<(), F> {
        let want = &self.bytes[(v.lo + from) as usize..(v.lo + from + n) as usize];
        if got != want {
            let at = got.iter().zip(want).position(|(a, b)| a != b);
            return Err((
                "bytes",
                format!(
                    "{}: {what} of {n} bytes at {from} gives {} bytes, first difference at {at:?}: {} instead of {}",
                    self.describe(v),
                    got.len(),
                    brief(got),
                    brief(want)
                ),
            ));
        }
        Ok(())
    }
}

fn fail(d: String, what: &str, e: &dyn std::fmt::Display) -> F {
    ("error", format!("{d}: {what}: {e}"))
}

/// Reads `n` bytes at most with one `read`.
fn one_read(s: &mut ByteStream, n: usize) -> std::io::Result<Vec<u8>> {
    let mut b = vec![0xEE; n];
    let k = s.read(&mut b)?;
    if k > n {
        return Err(std::io::Error::new(std::io::ErrorKind::Other, format!("read answers {k} for a buffer of {n}")));
    }
    b.truncate(k);
    Ok(b)
}

impl Pool<'_> {
    fn apply(&mut self, op: &Op, out: &mut Outcome) -> Result<(), F> {
        let nv = self.views.len();
        let idx = |k: u32, ok: &dyn Fn(&Obj) -> bool| -> Option<usize> {
            let c: Vec<usize> = (0..nv).filter(|i| ok(&self.views[*i].obj)).collect();
            if c.is_empty() {
                None
            } else {
                Some(c[k as usize % c.len()])
            }
        };
        let range = |v: &View, a: At, b: At| -> (u64, u64) {
            let n = v.hi - v.lo;
            let o = a.of(n);
            let s = b.of(n - o);
            (o, s)
        };
        let region_or_slice = |o: &Obj| matches!(o, Obj::Region(_) | Obj::Slice(_));
        let not_stream = |o: &Obj| !matches!(o, Obj::Stream(..));
        let any = |_: &Obj| true;
        let stream = |o: &Obj| matches!(o, Obj::Stream(..));
        let region = |o: &Obj| matches!(o, Obj::Region(_));
        let reader = |o: &Obj| matches!(o, Obj::Reader(_));
        // SAFETY: the pointee lives in a box of `keep`, which outlives the views
        fn forever(r: &ByteRegion) -> &'static ByteRegion {
            unsafe { &*(r as *const ByteRegion) }
        }
        let mut new: Option<View> = None;
        match op {
            Op::Cut(k, a, b, mem) => {
                let Some(i) = idx(*k, &not_stream) else { return Ok(()) };
                let v = &self.views[i];
                let (o, s) = range(v, *a, *b);
                let (lo, hi) = (v.lo + o, v.lo + o + s);
                let how = format!("{} cut({o},{s})", v.how);
                let (base, obj) = match &v.obj {
                    Obj::Region(r) => {
                        let keep = r.clone();
                        let st = forever(&keep).cut(o.into(), s.into());
                        let base = v.base;
                        self.keep.push(keep);
                        (base, Obj::Slice(st))
                    }
                    Obj::Slice(r) => (v.base, Obj::Slice(r.cut(o.into(), s.into()))),
                    Obj::Reader(r) => (
                        None,
                        Obj::Reader(Box::new(
                            jv::reader_cut(r, o.into(), s.into(), *mem).map_err(|e| fail(self.describe(v), &how, &e))?,
                        )),
                    ),
                    Obj::Stream(..) => unreachable!(),
                };
                new = Some(View { obj, lo, hi, base, how });
            }
            Op::ByteSlice(k, a, b) => {
                let Some(i) = idx(*k, &reader) else { return Ok(()) };
                let v = &self.views[i];
                let (o, s) = range(v, *a, *b);
                let (lo, hi) = (v.lo + o, v.lo + o + s);
                let how = format!("{} slice({o},{s})", v.how);
                let Obj::Reader(r) = &v.obj else { unreachable!() };
                let keep = r.clone();
                // SAFETY: as above
                let st: &'static jbk::Reader = unsafe { &*(&*keep as *const jbk::Reader) };
                let sl = jv::reader_byte_slice(st, o.into(), s.into());
                self.keep_readers.push(keep);
                new = Some(View {
                    obj: Obj::Slice(sl),
                    lo,
                    hi,
                    base: None,
                    how,
                });
            }
            Op::AsSlice(k) => {
                let Some(i) = idx(*k, &region) else { return Ok(()) };
                let v = &self.views[i];
                let Obj::Region(r) = &v.obj else { unreachable!() };
                let keep = r.clone();
                let st = forever(&keep).as_slice();
                let (lo, hi, base, how) = (v.lo, v.hi, v.base, format!("{} as_slice", v.how));
                self.keep.push(keep);
                new = Some(View {
                    obj: Obj::Slice(st),
                    lo,
                    hi,
                    base,
                    how,
                });
            }
            Op::ToRegion(k) => {
                let Some(i) = idx(*k, &region_or_slice) else { return Ok(()) };
                let v = &self.views[i];
                let obj = match &v.obj {
                    Obj::Slice(s) => Obj::Region(Box::new(ByteRegion::from(s.clone()))),
                    Obj::Region(r) => Obj::Region(Box::new(ByteRegion::from(r.as_slice()))),
                    _ => unreachable!(),
                };
                new = Some(View {
                    obj,
                    lo: v.lo,
                    hi: v.hi,
                    base: v.base,
                    how: format!("{} into region", v.how),
                });
            }
            Op::Clone(k) => {
                let Some(i) = idx(*k, &not_stream) else { return Ok(()) };
                let v = &self.views[i];
                let obj = match &v.obj {
                    Obj::Slice(s) => Obj::Slice(s.clone()),
                    Obj::Region(r) => Obj::Region(r.clone()),
                    Obj::Reader(r) => Obj::Reader(r.clone()),
                    _ => unreachable!(),
                };
                new = Some(View {
                    obj,
                    lo: v.lo,
                    hi: v.hi,
                    base: v.base,
                    how: v.how.clone(),
                });
            }
            Op::Stream(k, a, b, mem) => {
                let Some(i) = idx(*k, &not_stream) else { return Ok(()) };
                let v = &self.views[i];
                let (mut lo, mut hi) = (v.lo, v.hi);
                let s = match &v.obj {
                    Obj::Slice(s) => s.stream(),
                    Obj::Region(r) => r.stream(),
                    Obj::Reader(r) => {
                        let (o, s) = range(v, *a, *b);
                        lo = v.lo + o;
                        hi = lo + s;
                        jv::reader_stream(r, o.into(), s.into(), *mem).map_err(|e| fail(self.describe(v), "create_stream", &e))?
                    }
                    _ => unreachable!(),
                };
                new = Some(View {
                    obj: Obj::Stream(s, 0),
                    lo,
                    hi,
                    base: v.base,
                    how: format!("{} stream", v.how),
                });
            }
            Op::IntoStream(k) => {
                let Some(i) = idx(*k, &region) else { return Ok(()) };
                let v = &self.views[i];
                let Obj::Region(r) = &v.obj else { unreachable!() };
                new = Some(View {
                    obj: Obj::Stream(ByteStream::from((**r).clone()), 0),
                    lo: v.lo,
                    hi: v.hi,
                    base: v.base,
                    how: format!("{} into stream", v.how),
                });
            }
            Op::GetSlice(k, a, b) | Op::RpSlice(k, a, b) => {
                let Some(i) = idx(*k, &region_or_slice) else { return Ok(()) };
                let v = &self.views[i];
                let (o, s) = range(v, *a, *b);
                let rp = matches!(op, Op::RpSlice(..));
                let got = match &v.obj {
                    Obj::Slice(x) if rp => jv::rp_read_slice(x, o.into(), s as usize),
                    Obj::Region(x) if rp => jv::rp_read_slice(&**x, o.into(), s as usize),
                    Obj::Slice(x) => x.get_slice(o.into(), s as usize),
                    Obj::Region(x) => x.get_slice(o.into(), s as usize),
                    _ => unreachable!(),
                }
                .map_err(|e| fail(self.describe(v), &format!("get_slice({o},{s})"), &e))?;
                self.same(v, "get_slice", &got, o, s)?;
            }
            Op::RpData(k, a, b) => {
                let Some(i) = idx(*k, &region_or_slice) else { return Ok(()) };
                let v = &self.views[i];
                let (o, s) = range(v, *a, *b);
                let mut got = vec![0xEE; s as usize];
                match &v.obj {
                    Obj::Slice(x) => jv::rp_read_data(x, o.into(), &mut got),
                    Obj::Region(x) => jv::rp_read_data(&**x, o.into(), &mut got),
                    _ => unreachable!(),
                }
                .map_err(|e| fail(self.describe(v), &format!("read_data({o},{s})"), &e))?;
                self.same(v, "read_data", &got, o, s)?;
            }
            Op::RpInt(k, a, w) => {
                let Some(i) = idx(*k, &region_or_slice) else { return Ok(()) };
                let v = &self.views[i];
                let width = if *w < 8 { *w as u64 + 1 } else { [1u64, 2, 4, 8][*w as usize % 4] };
                if v.hi - v.lo < width {
                    return Ok(());
                }
                let o = a.of(v.hi - v.lo - width);
                let got = match &v.obj {
                    Obj::Slice(x) => jv::rp_read_int(x, o.into(), *w),
                    Obj::Region(x) => jv::rp_read_int(&**x, o.into(), *w),
                    _ => unreachable!(),
                }
                .map_err(|e| fail(self.describe(v), &format!("read of an integer of {width} bytes at {o}"), &e))?;
                let b = &self.bytes[(v.lo + o) as usize..(v.lo + o + width) as usize];
                let mut u = [0u8; 8];
                u[..b.len()].copy_from_slice(b);
                let u = u64::from_le_bytes(u);
                let sh = 64 - 8 * width as u32;
                let s = ((u << sh) as i64) >> sh;
                if got != (u, s) {
                    return Err(("bytes", format!("{}: integer of {width} bytes at {o} read as {got:?} instead of {:?}", self.describe(v), (u, s))));
                }
            }
            Op::RpParser(k, a, ns) => {
                let Some(i) = idx(*k, &region_or_slice) else { return Ok(()) };
                let v = &self.views[i];
                let o = a.of(v.hi - v.lo);
                let room = (v.hi - v.lo - o).min(0xFFFF) as usize;
                let mut left = room;
                let mut want_sizes = vec![];
                for n in ns {
                    let n = (*n as usize).min(left);
                    left -= n;
                    want_sizes.push(n);
                }
                let got = match &v.obj {
                    Obj::Slice(x) => jv::rp_parser(x, o.into(), &want_sizes),
                    Obj::Region(x) => jv::rp_parser(&**x, o.into(), &want_sizes),
                    _ => unreachable!(),
                }
                .map_err(|e| fail(self.describe(v), &format!("parser at {o} reading {want_sizes:?}"), &e))?;
                let mut at = o;
                for (n, g) in want_sizes.iter().zip(&got.0) {
                    match g {
                        Some(g) => self.same(v, "parser", g, at, *n as u64)?,
                        None => {}
                    }
                    at += *n as u64;
                }
                if let Some(b) = v.base {
                    if got.1 != b + v.lo + at {
                        return Err(("sizes", format!("{}: parser is at {} instead of {}", self.describe(v), got.1, b + v.lo + at)));
                    }
                }
            }
            Op::Drop(k) => {
                // the first view stays
                if nv > 3 {
                    let i = 1 + *k as usize % (nv - 1);
                    self.views.swap_remove(i);
                }
            }
            Op::Read(k, _) | Op::ReadExact(k, _) | Op::ReadToEnd(k) | Op::Chunks(k, _) | Op::Take(k, _) | Op::Vectored(k, _, _) => {
                let Some(i) = idx(*k, &stream) else { return Ok(()) };
                let d = self.describe(&self.views[i]);
                let (lo, hi) = (self.views[i].lo, self.views[i].hi);
                let Obj::Stream(s, cur) = &mut self.views[i].obj else { unreachable!() };
                let at = *cur;
                let left = hi - lo - at;
                // read until told it is over, each piece must follow
                let mut got: Vec<u8> = vec![];
                let err = |e: std::io::Error| fail(d.clone(), &format!("{op:?} at {at}"), &e);
                match op {
                    Op::Read(_, n) => {
                        let n = (*n as usize).min(left as usize + 4096);
                        got = one_read(s, n).map_err(err)?;
                        if got.is_empty() && n > 0 && left > 0 {
                            return Err(("bytes", format!("{d}: read answers 0 with {left} bytes left")));
                        }
                    }
                    Op::ReadExact(_, a) => {
                        got = vec![0xEE; a.of(left) as usize];
                        s.read_exact(&mut got).map_err(err)?;
                    }
                    Op::ReadToEnd(_) => {
                        s.read_to_end(&mut got).map_err(err)?;
                        if got.len() as u64 != left {
                            return Err(("bytes", format!("{d}: read_to_end gives {} bytes instead of {left}", got.len())));
                        }
                    }
                    Op::Chunks(_, n) => {
                        let n = (*n as usize).max(left as usize / 2000).min(1 << 20);
                        loop {
                            let c = one_read(s, n).map_err(err)?;
                            if c.is_empty() {
                                break;
                            }
                            got.extend(c);
                            if got.len() as u64 > left {
                                break;
                            }
                        }
                        if got.len() as u64 != left {
                            return Err(("bytes", format!("{d}: reads of {n} bytes give {} bytes instead of {left}", got.len())));
                        }
                    }
                    Op::Take(_, n) => {
                        s.by_ref().take(*n as u64).read_to_end(&mut got).map_err(err)?;
                        if got.len() as u64 != left.min(*n as u64) {
                            return Err(("bytes", format!("{d}: take({n}) gives {} bytes instead of {}", got.len(), left.min(*n as u64))));
                        }
                    }
                    Op::Vectored(_, a, b) => {
                        let mut x = vec![0xEE; (*a as usize).min(70_000)];
                        let mut y = vec![0xEE; (*b as usize).min(70_000)];
                        let n = s
                            .read_vectored(&mut [std::io::IoSliceMut::new(&mut x), std::io::IoSliceMut::new(&mut y)])
                            .map_err(err)?;
                        got = x;
                        got.extend(y);
                        if n > got.len() {
                            return Err(("bytes", format!("{d}: read_vectored answers {n} for {} bytes", got.len())));
                        }
                        got.truncate(n);
                    }
                    _ => unreachable!(),
                }
                let n = got.len() as u64;
                if n > left {
                    return Err(("bytes", format!("{d}: {op:?} gives {n} bytes where {left} are left")));
                }
                *cur += n;
                let v = &self.views[i];
                self.same(v, &format!("{op:?}"), &got, at, n)?;
                if n > 0 && v.lo > 0 {
                    out.tag("stream_in_the_middle");
                }
            }
        }
        if let Some(v) = new {
            if v.lo > 0 && v.hi > v.lo {
                out.nontrivial = true;
            }
            out.tag(match v.obj {
                Obj::Region(_) => "region",
                Obj::Slice(_) => "slice",
                Obj::Stream(..) => "stream",
                Obj::Reader(_) => "reader",
            });
            self.sizes(&v)?;
            self.views.push(v);
        }
        let _ = any;
        for v in &self.views {
            self.sizes(v)?;
        }
        out.evals += 1;
        Ok(())
    }
}

fn open_reader(path: &Path, prefix: u32, mem: bool) -> Result<jbk::Reader, String> {
    let b = std::fs::read(path).map_err(|e| e.to_string())?;
    let n = b.len() as u64;
    let mut all = Blob::new(prefix as usize, Fill::Rand, prefix).bytes();
    all.extend(b);
    let r: jbk::Reader = if mem {
        all.into()
    } else {
        let p = path.with_extension("prefixed");
        std::fs::write(&p, &all).map_err(|e| e.to_string())?;
        jbk::FileSource::open(&p).map_err(|e| e.to_string())?.into()
    };
    jv::reader_cut(&r, (prefix as u64).into(), n.into(), false).map_err(|e| e.to_string())
}

fn run_case(c: &Case, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::pass();
    out.evals = 0;
    let dir = ctx.sub("w");
    let inputs = ctx.sub("in");
    let bytes;
    let first: Vec<(Obj, Option<u64>, &str)>;
    // keeps the pack open
    let mut _pack = None;
    match &c.origin {
        Origin::Plain { blob, mem } => {
            bytes = blob.bytes();
            let r: jbk::Reader = if *mem {
                bytes.clone().into()
            } else {
                let p = dir.join("plain");
                std::fs::write(&p, &bytes).unwrap();
                match jbk::FileSource::open(&p) {
                    Ok(f) => f.into(),
                    Err(e) => return Outcome::failed("error", format!("opening a file: {e}")),
                }
            };
            first = vec![(Obj::Reader(Box::new(r)), None, if *mem { "memory" } else { "file" })];
            out.tag(if *mem { "from_memory" } else { "from_file" });
        }
        Origin::Stored {
            comp,
            before,
            it,
            after,
            mem,
            prefix,
        } => {
            let path = dir.join("pack");
            let r = || -> Result<(u32, u8), String> {
                let e = |x: &dyn std::fmt::Display| format!("create: {x}");
                let mut p =
                    jbk::creator::ContentPackCreator::new(utf8(&path), 1.into(), vendor(), Default::default(), comp.get())
                        .map_err(|x| e(&x))?;
                let mut at = 0;
                let all: Vec<Insert> = expand(before)
                    .into_iter()
                    .chain(std::iter::once(it.clone()))
                    .chain(expand(after))
                    .collect();
                let k = expand(before).len();
                for (n, i) in all.iter().enumerate() {
                    let a = p
                        .add_content(reader_for(&i.blob.bytes(), &i.src, &inputs, n).map_err(|x| e(&x))?, i.hint.get())
                        .map_err(|x| e(&x))?;
                    if n == k {
                        at = a.content_id.into_u32();
                    }
                }
                p.finalize().map_err(|x| e(&x))?;
                let b = std::fs::read(&path).map_err(|x| e(&x))?;
                let d = crate::decoder::decode_file(&b, false).map_err(|x| e(&x))?;
                let crate::decoder::Body::Content(cd) = d.body else {
                    return Err("not a content pack".into());
                };
                Ok((at, cd.clusters[cd.contents[at as usize].0 as usize].comp))
            };
            let (at, stored) = match r() {
                Ok(x) => x,
                Err(e) => return Outcome::failed("create", e),
            };
            bytes = it.blob.bytes();
            let pack = open_reader(&path, *prefix, *mem).and_then(|r| jbk::reader::ContentPack::new(r).map_err(|e| e.to_string()));
            let pack = match pack {
                Ok(p) => p,
                Err(e) => return Outcome::failed("error", format!("opening the pack: {e}")),
            };
            let region = match pack.get_content(at.into()) {
                Ok(Some(r)) => r,
                Ok(None) => return Outcome::failed("error", "no such content".to_string()),
                Err(e) => return Outcome::failed("error", format!("get_content: {e}")),
            };
            _pack = Some(pack);
            let base = jv::rp_global_offset(&region);
            first = vec![(Obj::Region(Box::new(region)), Some(base), "content")];
            out.tag(match stored {
                0 => "stored_raw",
                1 => "stored_lz4",
                2 => "stored_lzma",
                _ => "stored_zstd",
            });
        }
    }
    let n = bytes.len() as u64;
    let mut pool = Pool {
        bytes: &bytes,
        views: first
            .into_iter()
            .map(|(obj, base, how)| View {
                obj,
                lo: 0,
                hi: n,
                base,
                how: how.into(),
            })
            .collect(),
        keep: vec![],
        keep_readers: vec![],
    };
    if let Err((s, e)) = pool.sizes(&pool.views[0]) {
        return Outcome::failed(s, e);
    }
    for (k, op) in c.ops.iter().enumerate() {
        if let Err((s, e)) = pool.apply(op, &mut out) {
            return Outcome::failed(s, format!("operation {k} {op:?}: {e}"));
        }
    }
    // every view still shows its bytes
    let total: u64 = pool.views.iter().map(|v| v.hi - v.lo).sum();
    if total < 30_000_000 {
        for i in 0..pool.views.len() {
            let v = &pool.views[i];
            let (got, from) = match &v.obj {
                Obj::Slice(s) => (s.get_slice(0u64.into(), (v.hi - v.lo) as usize).map(|c| c.to_vec()), 0),
                Obj::Region(s) => (s.get_slice(0u64.into(), (v.hi - v.lo) as usize).map(|c| c.to_vec()), 0),
                Obj::Reader(r) => {
                    let mut b = vec![];
                    let s = jv::reader_stream(r, 0u64.into(), (v.hi - v.lo).into(), i % 2 == 0);
                    match s {
                        Err(e) => (Err(e), 0),
                        Ok(mut s) => {
                            if let Err(e) = s.read_to_end(&mut b) {
                                return Outcome::failed("error", format!("{}: read_to_end: {e}", pool.describe(v)));
                            }
                            (Ok(b), 0)
                        }
                    }
                }
                Obj::Stream(..) => (Ok(vec![]), u64::MAX),
            };
            let d = pool.describe(v);
            if from == u64::MAX {
                let hi = v.hi;
                let lo = v.lo;
                let Obj::Stream(s, cur) = &mut pool.views[i].obj else { unreachable!() };
                let mut b = vec![];
                let at = *cur;
                if let Err(e) = s.read_to_end(&mut b) {
                    return Outcome::failed("error", format!("{d}: read_to_end: {e}"));
                }
                let want = &bytes[(lo + at) as usize..hi as usize];
                if b != want {
                    return Outcome::failed("bytes", format!("{d}: the rest of the stream at {at} is {} instead of {}", brief(&b), brief(want)));
                }
                if s.size_left() != 0 || s.offset() != hi - lo {
                    return Outcome::failed("sizes", format!("{d}: at its end, the stream tells offset {} and {} left", s.offset(), s.size_left()));
                }
            } else {
                match got {
                    Err(e) => return Outcome::failed("error", format!("{d}: {e}")),
                    Ok(g) => {
                        if let Err((s, e)) = pool.same(v, "whole", &g, 0, v.hi - v.lo) {
                            return Outcome::failed(s, e);
                        }
                    }
                }
            }
            out.evals += 1;
        }
    }
    if ctx.checked {
        out.tag("with_debug_assertions");
    }
    out.evals = out.evals.max(1);
    out
}

impl Check for C13 {
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when it made at least one non-empty view starting inside the content; one evaluation = one operation after which the sizes of every view were compared with the model (and the bytes it returned)".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["requests reaching outside of a view are not generated: the property says nothing of them".into()]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("small", t.n(90_000, 1_500_000)),
            Group::new("checked", t.n(25_000, 400_000)).bin(Bin::Checked),
            Group::new("big", t.n(1_000, 20_000)).par(6),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, _i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        run_case(&c, ctx)
    }
    fn valid(&self, json: &str) -> bool {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return false;
        };
        let ok = |b: &Blob| match &b.fill {
            Fill::Lit(l) => l.len() == b.len as usize,
            _ => true,
        };
        match &c.origin {
            Origin::Plain { blob, .. } => ok(blob),
            Origin::Stored { before, it, after, .. } => {
                it.times == 1 && before.iter().chain(after).chain([it]).all(|i| ok(&i.blob))
            }
        }
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        let mut v: Vec<Case> = vec![];
        let n = c.ops.len();
        if n > 4 {
            v.push(Case {
                ops: c.ops[..n / 2].to_vec(),
                ..c.clone()
            });
            v.push(Case {
                ops: c.ops[n / 2..].to_vec(),
                ..c.clone()
            });
        }
        for k in 0..n {
            let mut d = c.clone();
            d.ops.remove(k);
            v.push(d);
        }
        if let Origin::Stored { .. } = &c.origin {
            let mut d = c.clone();
            if let Origin::Stored { before, after, prefix, .. } = &mut d.origin {
                after.clear();
                before.clear();
                *prefix = 0;
            }
            v.push(d);
            let mut d = c.clone();
            if let Origin::Stored { after, .. } = &mut d.origin {
                after.clear();
            }
            v.push(d);
            let mut d = c.clone();
            if let Origin::Stored { comp, .. } = &mut d.origin {
                *comp = Comp::None;
            }
            v.push(d);
        }
        v.iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
