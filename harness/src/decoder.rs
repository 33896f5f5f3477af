//! Independent decoder of the on-disk format. Shares no code with jubako: own CRC, own integer and
//! structure parsing; only the public codec crates (lz4, xz2, zstd) and blake3 are used.
use crate::model::{Dump, EntryD, IndexD, Val};
use std::collections::BTreeMap;
use std::io::Read;
use std::ops::Range;

pub type R<T> = Result<T, String>;

macro_rules! bail {
    ($($a:tt)*) => { return Err(format!($($a)*)) };
}

/// CRC-32C polynomial, most significant bit first, init all ones, no final xor.
pub fn crc(data: &[u8]) -> u32 {
    static T: std::sync::OnceLock<[u32; 256]> = std::sync::OnceLock::new();
    let t = T.get_or_init(|| {
        let mut t = [0u32; 256];
        for (i, e) in t.iter_mut().enumerate() {
            let mut c = (i as u32) << 24;
            for _ in 0..8 {
                c = if c & 0x8000_0000 != 0 { (c << 1) ^ 0x1EDC_6F41 } else { c << 1 };
            }
            *e = c;
        }
        t
    });
    let mut c = u32::MAX;
    for b in data {
        c = (c << 8) ^ t[((c >> 24) as u8 ^ b) as usize];
    }
    c
}

pub fn le(b: &[u8]) -> u64 {
    b.iter().rev().fold(0, |a, x| (a << 8) | *x as u64)
}

fn sle(b: &[u8]) -> i64 {
    let v = le(b);
    let s = 64 - 8 * b.len() as u32;
    if s == 64 {
        0
    } else {
        ((v << s) as i64) >> s
    }
}

/// Kind of byte range, in file coordinates. Used to drive the alteration checks.
#[derive(Clone, Debug, PartialEq)]
pub struct Region {
    pub range: Range<usize>,
    pub what: &'static str,
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    what: &'static str,
}
impl<'a> Cur<'a> {
    fn new(b: &'a [u8], what: &'static str) -> Self {
        Cur { b, p: 0, what }
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.b.len() - self.p < n {
            bail!("{}: truncated at {}", self.what, self.p);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }
    fn u(&mut self, n: usize) -> R<u64> {
        Ok(le(self.take(n)?))
    }
    fn zero(&mut self, n: usize) -> R<()> {
        if self.take(n)?.iter().any(|x| *x != 0) {
            bail!("{}: reserved bytes at {} are not zero", self.what, self.p - n);
        }
        Ok(())
    }
    fn pstring(&mut self) -> R<String> {
        let n = self.u(1)? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|_| format!("{}: string is not utf8", self.what))
    }
    fn end(&self) -> R<()> {
        if self.p != self.b.len() {
            bail!("{}: {} bytes left", self.what, self.b.len() - self.p);
        }
        Ok(())
    }
}

/// One pack inside a file.
struct Pack<'a> {
    b: &'a [u8],
    base: usize,
    regions: Vec<Region>,
}
impl<'a> Pack<'a> {
    fn mark(&mut self, r: Range<usize>, what: &'static str) {
        self.regions.push(Region {
            range: self.base + r.start..self.base + r.end,
            what,
        })
    }
    /// `size` bytes at `pos` followed by their crc
    fn block(&mut self, pos: u64, size: u64, what: &'static str) -> R<&'a [u8]> {
        let (p, s) = (pos as usize, size as usize);
        if pos > self.b.len() as u64 || size > self.b.len() as u64 || p + s + 4 > self.b.len() {
            bail!("{what}: block {pos}+{size}+4 is out of the pack ({} bytes)", self.b.len());
        }
        let d = &self.b[p..p + s];
        let want = crc(d).to_be_bytes();
        if self.b[p + s..p + s + 4] != want {
            bail!("{what}: wrong crc for the block {pos}+{size}");
        }
        self.mark(p..p + s + 4, what);
        Ok(d)
    }
}

#[derive(Clone, Debug)]
pub struct PackD {
    /// in the file
    pub range: Range<usize>,
    pub kind: u8,
    pub vendor: [u8; 4],
    pub uuid: [u8; 16],
    pub check_pos: usize,
    pub check: Option<[u8; 32]>,
    pub body: Body,
    pub regions: Vec<Region>,
}

#[derive(Clone, Debug)]
pub enum Body {
    Container(Vec<PackD>),
    Manifest(ManifestD),
    Directory(DirectoryD),
    Content(ContentD),
}

#[derive(Clone, Debug, PartialEq)]
pub struct InfoD {
    pub uuid: [u8; 16],
    pub size: u64,
    pub check: Option<[u8; 32]>,
    pub id: u16,
    pub kind: u8,
    pub group: u8,
    pub free: Vec<u8>,
    pub location: String,
    /// file position of the 256 bytes
    pub pos: usize,
}

#[derive(Clone, Debug)]
pub struct ManifestD {
    pub infos: Vec<InfoD>,
    pub free: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct ClusterD {
    pub comp: u8,
    /// stored bytes, in the file
    pub stored: Range<usize>,
    pub data: Vec<u8>,
    pub bounds: Vec<usize>,
}

#[derive(Clone, Debug)]
pub struct ContentD {
    pub free: Vec<u8>,
    pub clusters: Vec<ClusterD>,
    /// cluster, blob
    pub contents: Vec<(u32, u32)>,
}
impl ContentD {
    pub fn get(&self, i: usize) -> &[u8] {
        let (c, b) = self.contents[i];
        let c = &self.clusters[c as usize];
        &c.data[c.bounds[b as usize]..c.bounds[b as usize + 1]]
    }
}

#[derive(Clone, Debug)]
pub enum StoreD {
    Plain(Vec<u8>),
    Indexed(Vec<Vec<u8>>),
}

#[derive(Clone, Debug)]
pub struct EntryStoreD {
    pub entry_size: usize,
    pub props: Vec<PropD>,
    pub variants: Vec<(String, Vec<PropD>)>,
    pub entries: Vec<EntryD>,
}

#[derive(Clone, Debug)]
pub struct DirectoryD {
    pub free: Vec<u8>,
    pub stores: Vec<StoreD>,
    pub estores: Vec<EntryStoreD>,
    pub indexes: Vec<IndexD>,
    pub index_keys: Vec<u8>,
    pub index_free: Vec<[u8; 4]>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum PropT {
    Pad,
    Variant,
    U(usize, Option<u64>),
    S(usize, Option<i64>),
    C {
        pack: usize,
        content: usize,
        default: Option<u16>,
    },
    A {
        len: usize,
        fixed: usize,
        key: usize,
        store: usize,
    },
}
#[derive(Clone, Debug, PartialEq)]
pub struct PropD {
    pub name: String,
    pub t: PropT,
    pub size: usize,
}

const HDR: usize = 64;

/// Decodes the pack starting at `base` of `file`, of `avail` bytes at most.
pub fn decode_pack(file: &[u8], base: usize, size: Option<usize>, legacy: bool) -> R<PackD> {
    let rest = file.get(base..).ok_or("pack start is out of the file")?;
    if rest.len() < 2 * HDR {
        bail!("not enough bytes for a pack at {base}");
    }
    let mut p = Pack {
        b: &rest[..HDR],
        base,
        regions: vec![],
    };
    let h = p.block(0, 60, "pack header")?;
    let mut c = Cur::new(h, "pack header");
    let magic = c.take(4)?;
    if &magic[..3] != b"jbk" || !b"mdcC".contains(&magic[3]) {
        bail!("bad magic {magic:?}");
    }
    let kind = magic[3];
    let vendor: [u8; 4] = c.take(4)?.try_into().unwrap();
    let (major, minor) = (c.u(1)?, c.u(1)?);
    if (major, minor) != (0, 2) {
        bail!("version {major}.{minor}");
    }
    let uuid: [u8; 16] = c.take(16)?.try_into().unwrap();
    c.zero(1 + 5)?;
    let mut psize = c.u(8)?;
    let check_pos = c.u(8)?;
    c.zero(12)?;
    c.end()?;
    if legacy && kind == b'C' {
        // the pinned version left the check info out of the size of container packs
        psize += 5;
    }
    if let Some(s) = size {
        if s as u64 != psize {
            bail!("the header says {psize} bytes, there are {s}");
        }
    }
    if psize > rest.len() as u64 || psize < (2 * HDR) as u64 {
        bail!("pack size {psize} does not fit ({} bytes available)", rest.len());
    }
    let psize = psize as usize;
    p.b = &rest[..psize];
    let b = p.b;
    // tail is the mirror of the header
    if !b[..HDR].iter().eq(b[psize - HDR..].iter().rev()) {
        bail!("the pack tail is not the mirror of its header");
    }
    p.mark(psize - HDR..psize, "pack tail");
    // check info
    if check_pos > (psize - HDR) as u64 {
        bail!("check info position {check_pos} is out of the pack");
    }
    let check_pos = check_pos as usize;
    let ck = b[check_pos];
    let check = match ck {
        0 => {
            p.block(check_pos as u64, 1, "check info")?;
            None
        }
        1 => Some(p.block(check_pos as u64, 33, "check info")?[1..33].try_into().unwrap()),
        _ => bail!("check kind {ck}"),
    };
    let check_end = check_pos + if check.is_some() { 37 } else { 5 };
    if check_end != psize - HDR {
        bail!("{} bytes between the check info and the tail", psize as i64 - HDR as i64 - check_end as i64);
    }
    let body = match kind {
        b'C' => {
            if check.is_some() {
                bail!("a container pack with a checksum");
            }
            Body::Container(container(&mut p, file, legacy)?)
        }
        b'm' => Body::Manifest(manifest(&mut p, check_pos)?),
        b'd' => Body::Directory(directory(&mut p)?),
        _ => Body::Content(content(&mut p)?),
    };
    if let Some(want) = check {
        let mut v = b[..check_pos].to_vec();
        if let Body::Manifest(m) = &body {
            for i in &m.infos {
                let s = i.pos - base;
                v[s + 38..s + 256].fill(0);
            }
        }
        if blake3::hash(&v).as_bytes() != &want {
            bail!("wrong blake3 for the pack of kind {}", kind as char);
        }
    } else if kind != b'C' {
        bail!("pack of kind {} without a checksum", kind as char);
    }
    // no two blocks share a byte
    let mut rs: Vec<&Region> = p.regions.iter().filter(|r| !r.range.is_empty()).collect();
    rs.sort_by_key(|r| r.range.start);
    for w in rs.windows(2) {
        if w[0].range.end > w[1].range.start {
            bail!("{} {:?} and {} {:?} overlap", w[0].what, w[0].range, w[1].what, w[1].range);
        }
    }
    Ok(PackD {
        range: base..base + psize,
        kind,
        vendor,
        uuid,
        check_pos: base + check_pos,
        check,
        body,
        regions: p.regions,
    })
}

fn container(p: &mut Pack, file: &[u8], legacy: bool) -> R<Vec<PackD>> {
    let h = p.block(64, 60, "container header")?;
    let mut c = Cur::new(h, "container header");
    let pos = c.u(8)?;
    let n = c.u(2)?;
    c.zero(26)?;
    c.take(24)?;
    c.end()?;
    let mut v = vec![];
    for i in 0..n {
        let l = p.block(pos + i * 36, 32, "pack locator")?;
        let mut c = Cur::new(l, "pack locator");
        let uuid = c.take(16)?.to_vec();
        let size = c.u(8)? as usize;
        let at = c.u(8)? as usize;
        if at > p.b.len() || size > p.b.len() - at {
            bail!("pack locator {i}: {at}+{size} is out of the container");
        }
        let k = decode_pack(file, p.base + at, Some(size), legacy).map_err(|e| format!("pack {i} of the container: {e}"))?;
        if k.uuid[..] != uuid[..] {
            bail!("pack locator {i}: uuid is not the one of the pack");
        }
        if k.kind == b'C' {
            bail!("a container inside a container");
        }
        p.mark(at..at + size, "embedded pack");
        v.push(k);
    }
    Ok(v)
}

fn so(v: u64) -> (u64, u64) {
    (v >> 16, v & 0xffff)
}

fn manifest(p: &mut Pack, check_pos: usize) -> R<ManifestD> {
    let h = p.block(64, 60, "manifest header")?;
    let mut c = Cur::new(h, "manifest header");
    let n = c.u(2)? as usize;
    let vs = so(c.u(8)?);
    c.zero(26)?;
    let free = c.take(24)?.to_vec();
    c.end()?;
    let StoreD::Indexed(vals) = value_store(p, vs)? else {
        bail!("the manifest value store is not indexed")
    };
    let start = check_pos
        .checked_sub(n * 256)
        .ok_or("pack infos do not fit before the check info")?;
    let mut infos = vec![];
    for i in 0..n {
        let at = start + i * 256;
        let b = p.block(at as u64, 252, "pack info")?;
        let mut c = Cur::new(b, "pack info");
        let uuid = c.take(16)?.try_into().unwrap();
        let size = c.u(8)?;
        let ck = so(c.u(8)?);
        let id = c.u(2)? as u16;
        let kind = c.u(1)? as u8;
        let group = c.u(1)? as u8;
        let fd = c.u(2)? as usize;
        let location = c.pstring()?;
        if location.len() > 213 {
            bail!("pack info {i}: location of {} bytes", location.len());
        }
        c.zero(213 - location.len())?;
        c.end()?;
        // the recorded size counts the crc (37), contrary to every other sized offset
        let cs = match ck.1 {
            37 | 33 => 33,
            5 | 1 => 1,
            n => bail!("pack info {i}: check info of {n} bytes"),
        };
        let cb = p.block(ck.0, cs, "pack check info")?;
        let check = match (cb[0], cb.len()) {
            (0, 1) => None,
            (1, 33) => Some(cb[1..33].try_into().unwrap()),
            x => bail!("pack info {i}: check info {x:?}"),
        };
        infos.push(InfoD {
            uuid,
            size,
            check,
            id,
            kind,
            group,
            free: vals.get(fd).ok_or(format!("pack info {i}: free data {fd}"))?.clone(),
            location,
            pos: p.base + at,
        });
    }
    Ok(ManifestD { infos, free })
}

fn value_store(p: &mut Pack, (off, size): (u64, u64)) -> R<StoreD> {
    let t = p.block(off, size, "value store tail")?;
    let mut c = Cur::new(t, "value store tail");
    match c.u(1)? {
        0 => {
            let n = c.u(8)?;
            c.end()?;
            let at = off.checked_sub(n + 4).ok_or("value store data before the pack")?;
            Ok(StoreD::Plain(p.block(at, n, "value store data")?.to_vec()))
        }
        1 => {
            let n = c.u(8)? as usize;
            let os = c.u(1)? as usize;
            if !(1..=8).contains(&os) {
                bail!("value store offset size {os}");
            }
            let ds = c.u(os)?;
            let mut bounds = vec![0usize];
            for _ in 1..n {
                bounds.push(c.u(os)? as usize);
            }
            c.end()?;
            let at = off.checked_sub(ds + 4).ok_or("value store data before the pack")?;
            let d = p.block(at, ds, "value store data")?;
            bounds.push(d.len());
            let mut v = vec![];
            for k in 0..n {
                v.push(
                    d.get(bounds[k]..bounds[k + 1])
                        .ok_or(format!("value store offsets {}..{}", bounds[k], bounds[k + 1]))?
                        .to_vec(),
                );
            }
            Ok(StoreD::Indexed(v))
        }
        k => bail!("value store kind {k}"),
    }
}

fn ptrs(p: &mut Pack, pos: u64, n: usize, what: &'static str) -> R<Vec<(u64, u64)>> {
    let b = p.block(pos, n as u64 * 8, what)?;
    Ok(b.chunks(8).map(|c| so(le(c))).collect())
}

fn prop(c: &mut Cur) -> R<PropD> {
    let b = c.u(1)? as u8;
    let d = (b & 0xf) as usize;
    Ok(match b & 0xf0 {
        0 => PropD {
            name: String::new(),
            t: PropT::Pad,
            size: d + 1,
        },
        0x10 => {
            let content = (d & 3) + 1;
            let pack = if d & 4 != 0 { 2 } else { 1 };
            let default = if d & 8 != 0 { Some(c.u(pack)? as u16) } else { None };
            PropD {
                name: c.pstring()?,
                t: PropT::C { pack, content, default },
                size: content + if default.is_some() { 0 } else { pack },
            }
        }
        0x20 => {
            let n = (d & 7) + 1;
            let default = if d & 8 != 0 { Some(c.u(n)?) } else { None };
            PropD {
                name: c.pstring()?,
                t: PropT::U(n, default),
                size: if default.is_some() { 0 } else { n },
            }
        }
        0x30 => {
            let n = (d & 7) + 1;
            let default = if d & 8 != 0 { Some(sle(c.take(n)?)) } else { None };
            PropD {
                name: c.pstring()?,
                t: PropT::S(n, default),
                size: if default.is_some() { 0 } else { n },
            }
        }
        0x50 => {
            if d > 3 {
                bail!("array property with info {d}");
            }
            let x = c.u(1)? as usize;
            let key = x >> 5;
            let fixed = x & 31;
            let store = if key > 0 { c.u(1)? as usize } else { 0 };
            PropD {
                name: c.pstring()?,
                t: PropT::A {
                    len: d,
                    fixed,
                    key,
                    store,
                },
                size: d + fixed + key,
            }
        }
        0x80 => {
            if d != 0 {
                bail!("variant id property with info {d}");
            }
            PropD {
                name: c.pstring()?,
                t: PropT::Variant,
                size: 1,
            }
        }
        _ => bail!("property byte {b:#x}"),
    })
}

fn read_prop(p: &PropD, b: &[u8], stores: &[StoreD]) -> R<Val> {
    Ok(match &p.t {
        PropT::U(_, d) => Val::U(d.unwrap_or_else(|| le(b))),
        PropT::S(_, d) => Val::S(d.unwrap_or_else(|| sle(b))),
        PropT::C { pack, default, .. } => {
            let (pk, c) = match default {
                Some(d) => (*d, le(b)),
                None => (le(&b[..*pack]) as u16, le(&b[*pack..])),
            };
            Val::C(pk, c as u32)
        }
        PropT::A { len, fixed, key, store } => {
            let mut c = Cur::new(b, "array");
            let n = if *len > 0 { Some(c.u(*len)? as usize) } else { None };
            let pre = c.take(*fixed)?;
            let k = c.u(*key)? as usize;
            let mut v = match n {
                Some(n) => {
                    if pre[n.min(*fixed)..].iter().any(|x| *x != 0) {
                        bail!("unused inline bytes are not zero");
                    }
                    pre[..n.min(*fixed)].to_vec()
                }
                None => pre.to_vec(),
            };
            let rest = n.map(|n| n.saturating_sub(*fixed));
            if *key == 0 {
                if rest.unwrap_or(0) > 0 {
                    bail!("array with {rest:?} bytes nowhere");
                }
            } else {
                let st = stores.get(*store).ok_or(format!("value store {store}"))?;
                match (st, rest) {
                    (_, Some(0)) => {}
                    (StoreD::Plain(d), Some(r)) => {
                        v.extend_from_slice(d.get(k..k + r).ok_or(format!("value {k}+{r} of {}", d.len()))?)
                    }
                    (StoreD::Plain(_), None) => bail!("array of unknown length in a plain store"),
                    (StoreD::Indexed(d), r) => {
                        let x = d.get(k).ok_or(format!("value {k} of {}", d.len()))?;
                        if r.map(|r| r != x.len()).unwrap_or(false) {
                            bail!("array remainder of {r:?} bytes, value {k} holds {}", x.len());
                        }
                        v.extend_from_slice(x)
                    }
                }
            }
            Val::A(v)
        }
        _ => unreachable!(),
    })
}

fn entry_store(p: &mut Pack, (off, size): (u64, u64), stores: &[StoreD]) -> R<EntryStoreD> {
    let t = p.block(off, size, "entry store tail")?;
    let mut c = Cur::new(t, "entry store tail");
    if c.u(1)? != 0 {
        bail!("entry store kind");
    }
    let n = c.u(4)? as usize;
    if c.u(1)? != 0 {
        bail!("entry store flag");
    }
    let es = c.u(2)? as usize;
    let nv = c.u(1)? as usize;
    let nk = c.u(1)? as usize;
    let mut props: Vec<PropD> = vec![];
    let mut variants: Vec<(String, Vec<PropD>)> = vec![];
    for _ in 0..nk {
        let k = prop(&mut c)?;
        if k.t == PropT::Variant {
            variants.push((k.name, vec![]));
        } else if let Some(v) = variants.last_mut() {
            v.1.push(k);
        } else {
            props.push(k);
        }
    }
    c.end()?;
    if variants.len() != nv {
        bail!("{nv} variants declared, {} described", variants.len());
    }
    let cs: usize = props.iter().map(|k| k.size).sum();
    if variants.is_empty() && cs != es {
        bail!("entry size {es}, properties sum to {cs}");
    }
    for (k, v) in &variants {
        let s = cs + 1 + v.iter().map(|k| k.size).sum::<usize>();
        if s != es {
            bail!("entry size {es}, properties of variant {k} sum to {s}");
        }
    }
    let at = off
        .checked_sub((n * es + 4) as u64)
        .ok_or("entries before the start of the pack")?;
    let d = p.block(at, (n * es) as u64, "entries")?;
    let mut entries = vec![];
    for i in 0..n {
        let b = &d[i * es..(i + 1) * es];
        let mut o = 0;
        let mut e = EntryD::default();
        let mut one = |e: &mut EntryD, k: &PropD, o: &mut usize| -> R<()> {
            let x = &b[*o..*o + k.size];
            *o += k.size;
            if k.t == PropT::Pad {
                if x.iter().any(|x| *x != 0) {
                    bail!("entry {i}: padding is not zero");
                }
                return Ok(());
            }
            let v = read_prop(k, x, stores).map_err(|m| format!("entry {i} property {}: {m}", k.name))?;
            if e.props.insert(k.name.clone(), v).is_some() {
                bail!("property {} twice", k.name);
            }
            Ok(())
        };
        for k in &props {
            one(&mut e, k, &mut o)?;
        }
        if !variants.is_empty() {
            let v = b[o];
            o += 1;
            e.variant = Some(v);
            let (_, ks) = variants.get(v as usize).ok_or(format!("entry {i}: variant {v}"))?;
            for k in ks {
                one(&mut e, k, &mut o)?;
            }
        }
        entries.push(e);
    }
    Ok(EntryStoreD {
        entry_size: es,
        props,
        variants,
        entries,
    })
}

fn directory(p: &mut Pack) -> R<DirectoryD> {
    let h = p.block(64, 60, "directory header")?;
    let mut c = Cur::new(h, "directory header");
    let (ip, ep, vp) = (c.u(8)?, c.u(8)?, c.u(8)?);
    let (ni, ne, nv) = (c.u(4)?, c.u(4)?, c.u(1)?);
    c.zero(3)?;
    let free = c.take(24)?.to_vec();
    c.zero(60 - 24 - 9 - 3 - 24)?;
    c.end()?;
    let ip = ptrs(p, ip, ni as usize, "index pointers")?;
    let vp = ptrs(p, vp, nv as usize, "value store pointers")?;
    let ep = ptrs(p, ep, ne as usize, "entry store pointers")?;
    let mut stores = vec![];
    for (k, x) in vp.into_iter().enumerate() {
        stores.push(value_store(p, x).map_err(|e| format!("value store {k}: {e}"))?);
    }
    let mut estores = vec![];
    for (k, x) in ep.into_iter().enumerate() {
        estores.push(entry_store(p, x, &stores).map_err(|e| format!("entry store {k}: {e}"))?);
    }
    let mut indexes = vec![];
    let mut index_keys = vec![];
    let mut index_free = vec![];
    for (k, (off, size)) in ip.into_iter().enumerate() {
        let t = p.block(off, size, "index")?;
        let mut c = Cur::new(t, "index");
        let (store, count, offset) = (c.u(4)? as u32, c.u(4)? as u32, c.u(4)? as u32);
        index_free.push(c.take(4)?.try_into().unwrap());
        index_keys.push(c.u(1)? as u8);
        let name = c.pstring()?;
        c.end()?;
        let es: &EntryStoreD = estores
            .get(store as usize)
            .ok_or(format!("index {k}: entry store {store}"))?;
        let lo = (offset as usize).min(es.entries.len());
        let hi = (offset as usize + count as usize).min(es.entries.len());
        indexes.push(IndexD {
            name,
            store,
            offset,
            count,
            entries: es.entries[lo..hi].to_vec(),
        });
    }
    Ok(DirectoryD {
        free,
        stores,
        estores,
        indexes,
        index_keys,
        index_free,
    })
}

pub fn decompress(comp: u8, b: &[u8], size: usize) -> R<Vec<u8>> {
    let mut v = Vec::new();
    let lim = size as u64 + 1;
    let r = match comp {
        0 => {
            v.extend_from_slice(b);
            Ok(v.len())
        }
        1 => match lz4::Decoder::new(b) {
            Ok(d) => d.take(lim).read_to_end(&mut v),
            Err(e) => Err(e),
        },
        2 => match xz2::stream::Stream::new_lzma_decoder(u64::MAX) {
            Ok(s) => xz2::read::XzDecoder::new_stream(b, s).take(lim).read_to_end(&mut v),
            Err(e) => Err(std::io::Error::other(e.to_string())),
        },
        3 => match zstd::Decoder::new(b) {
            Ok(d) => d.take(lim).read_to_end(&mut v),
            Err(e) => Err(e),
        },
        k => bail!("compression {k}"),
    };
    r.map_err(|e| format!("cluster data does not decompress: {e}"))?;
    if v.len() != size {
        bail!("cluster data decompresses to {} bytes or more, {size} declared", v.len());
    }
    Ok(v)
}

fn content(p: &mut Pack) -> R<ContentD> {
    let h = p.block(64, 60, "content pack header")?;
    let mut c = Cur::new(h, "content pack header");
    let (cp, kp) = (c.u(8)?, c.u(8)?);
    let (nc, nk) = (c.u(4)? as usize, c.u(4)? as usize);
    c.zero(12)?;
    let free = c.take(24)?.to_vec();
    c.end()?;
    let b = p.block(cp, nc as u64 * 4, "content infos")?;
    let contents: Vec<(u32, u32)> = b
        .chunks(4)
        .map(|c| {
            let v = le(c) as u32;
            (v >> 12, v & 0xfff)
        })
        .collect();
    let kp = ptrs(p, kp, nk, "cluster pointers")?;
    let mut clusters = vec![];
    for (k, (off, size)) in kp.into_iter().enumerate() {
        let t = p.block(off, size, "cluster tail")?;
        let mut c = Cur::new(t, "cluster tail");
        let comp = c.u(1)? as u8;
        let os = c.u(1)? as usize;
        let n = c.u(2)? as usize;
        if !(1..=8).contains(&os) || n == 0 {
            bail!("cluster {k}: offset size {os}, {n} blobs");
        }
        let raw = c.u(os)?;
        let ds = c.u(os)? as usize;
        let mut bounds = vec![0usize];
        for _ in 1..n {
            bounds.push(c.u(os)? as usize);
        }
        bounds.push(ds);
        c.end()?;
        if bounds.windows(2).any(|w| w[0] > w[1]) {
            bail!("cluster {k}: offsets decrease");
        }
        let at = off.checked_sub(raw).ok_or(format!("cluster {k}: data before the pack"))? as usize;
        let stored = &p.b[at..at + raw as usize];
        if comp == 0 && stored.len() != ds {
            bail!("cluster {k}: uncompressed, {} bytes stored for {ds}", stored.len());
        }
        let data = decompress(comp, stored, ds).map_err(|e| format!("cluster {k}: {e}"))?;
        p.mark(at..at + raw as usize, "cluster data");
        clusters.push(ClusterD {
            comp,
            stored: p.base + at..p.base + at + raw as usize,
            data,
            bounds,
        });
    }
    for (i, (c, b)) in contents.iter().enumerate() {
        let n = clusters.get(*c as usize).map(|c| c.bounds.len() - 1).unwrap_or(0);
        if *b as usize >= n {
            bail!("content {i} is blob {b} of cluster {c}, which has {n}");
        }
    }
    Ok(ContentD {
        free,
        clusters,
        contents,
    })
}

/// All the packs of a file made of one pack or one container pack.
pub fn decode_file(b: &[u8], legacy: bool) -> R<PackD> {
    let p = decode_pack(b, 0, Some(b.len()), legacy)?;
    Ok(p)
}

impl PackD {
    /// itself, or the packs it contains
    pub fn leaves(&self) -> Vec<&PackD> {
        match &self.body {
            Body::Container(v) => v.iter().collect(),
            _ => vec![self],
        }
    }
}

/// A whole container decoded from its entry point file.
pub struct Decoded {
    pub entry: PackD,
    pub files: Vec<(std::path::PathBuf, PackD)>,
    pub manifest: ManifestD,
    pub directory: DirectoryD,
    pub contents: BTreeMap<u16, ContentD>,
}

/// Follows the packs listed by the manifest: inside the file first, then at the recorded location.
pub fn decode_all(path: &std::path::Path, legacy: bool) -> R<Decoded> {
    let b = std::fs::read(path).map_err(|e| format!("{path:?}: {e}"))?;
    let entry = decode_file(&b, legacy)?;
    let mut ms = entry.leaves().into_iter().filter_map(|p| match &p.body {
        Body::Manifest(m) => Some(m.clone()),
        _ => None,
    });
    let manifest = ms.next().ok_or("no manifest in the file")?;
    if ms.next().is_some() {
        bail!("two manifests in the file");
    }
    let mut files: Vec<(std::path::PathBuf, PackD)> = vec![];
    let mut directory = None;
    let mut contents = BTreeMap::new();
    for i in &manifest.infos {
        let inside = entry.leaves().into_iter().find(|p| p.uuid == i.uuid).cloned();
        let found = match inside {
            Some(p) => p,
            None => {
                if i.location.is_empty() {
                    bail!("pack {} is not in the file and has no location", i.id);
                }
                let at = path.parent().unwrap().join(&i.location);
                let b = std::fs::read(&at).map_err(|e| format!("{at:?}: {e}"))?;
                let f = decode_file(&b, legacy).map_err(|e| format!("{}: {e}", i.location))?;
                let p = f
                    .leaves()
                    .into_iter()
                    .find(|p| p.uuid == i.uuid)
                    .cloned()
                    .ok_or(format!("pack {} is not at its location {}", i.id, i.location))?;
                files.push((at, f));
                p
            }
        };
        if found.kind != i.kind {
            bail!("pack {}: kind {} recorded as {}", i.id, found.kind as char, i.kind as char);
        }
        if found.check != i.check {
            bail!("pack {}: the check info in the manifest is not the one of the pack", i.id);
        }
        if found.range.len() as u64 != i.size {
            bail!("pack {}: size {} recorded as {}", i.id, found.range.len(), i.size);
        }
        match found.body {
            Body::Directory(d) => {
                if directory.replace(d).is_some() {
                    bail!("two directory packs");
                }
            }
            Body::Content(c) => {
                if contents.insert(i.id, c).is_some() {
                    bail!("pack id {} twice", i.id);
                }
            }
            _ => bail!("pack {} is of kind {}", i.id, found.kind as char),
        }
    }
    Ok(Decoded {
        entry,
        files,
        manifest,
        directory: directory.ok_or("no directory pack")?,
        contents,
    })
}

impl Decoded {
    pub fn dump(&self) -> Dump {
        let mut d = Dump {
            indexes: self.directory.indexes.clone(),
            ..Default::default()
        };
        for (id, c) in &self.contents {
            for i in 0..c.contents.len() {
                d.contents
                    .insert(crate::model::content_key((*id, i as u32)), crate::model::digest(c.get(i)));
            }
        }
        d
    }
}
