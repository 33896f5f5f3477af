//! Containers to damage, damages, and a probe reading everything the reader gives.
use crate::asm::*;
use crate::gen::*;
use crate::model::*;
use crate::read;
use crate::util::*;
use jubako as jbk;
use jubako::reader::{PackLocatorTrait, Range as _};
use jubako::Pack;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};

// ------------------------------------------------------------------ what is damaged

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Source {
    Basic(Spec),
    /// files[0] is the entry point; each part is in exactly one file
    Asm { asm: Asm, files: Vec<FileL>, order: u32 },
}

pub struct PFile {
    pub path: PathBuf,
    pub name: String,
    pub prefix: usize,
    pub bytes: Vec<u8>,
    /// the packs of the file (not the container pack)
    pub packs: Vec<PackPos>,
    /// byte ranges of the structures, if the file could be decoded
    pub regions: Vec<(std::ops::Range<usize>, &'static str)>,
}

/// Where a pack is in its file
#[derive(Clone, Debug)]
pub struct PackPos {
    pub kind: u8,
    pub uuid: uuid::Uuid,
    pub base: usize,
    pub size: usize,
    /// in the file
    pub check_pos: usize,
    /// pack infos of a manifest, in the file
    pub infos: Vec<usize>,
}

pub struct Placed {
    pub entry: PathBuf,
    pub files: Vec<PFile>,
    pub want: Dump,
    /// content packs: id, number of contents
    pub packs: BTreeMap<u16, u32>,
}

fn le(b: &[u8]) -> u64 {
    crate::decoder::le(b)
}

/// Packs of a file, from the headers only.
pub fn packs_of(b: &[u8], base: usize) -> Option<Vec<PackPos>> {
    let h = b.get(base..base + 64)?;
    if &h[..3] != b"jbk" {
        return None;
    }
    let kind = h[3];
    if kind == b'C' {
        let h2 = b.get(base + 64..base + 128)?;
        let pos = base + le(&h2[..8]) as usize;
        let n = le(&h2[8..10]) as usize;
        let mut v = vec![];
        for k in 0..n {
            let l = b.get(pos + 36 * k..pos + 36 * k + 36)?;
            let at = base + le(&l[24..32]) as usize;
            v.extend(packs_of(b, at)?);
        }
        return Some(v);
    }
    let size = le(&h[32..40]) as usize;
    let check_pos = base + le(&h[40..48]) as usize;
    let infos = if kind == b'm' {
        let n = le(b.get(base + 64..base + 66)?) as usize;
        (0..n).map(|k| check_pos - 256 * (n - k)).collect()
    } else {
        vec![]
    };
    if base + size > b.len() || check_pos > base + size {
        return None;
    }
    Some(vec![PackPos {
        kind,
        uuid: uuid::Uuid::from_slice(&h[10..26]).ok()?,
        base,
        size,
        check_pos,
        infos,
    }])
}

impl Source {
    pub fn place(&self, work: &Path, out: &Path) -> Result<Placed, String> {
        std::fs::create_dir_all(work).map_err(|e| e.to_string())?;
        std::fs::create_dir_all(out).map_err(|e| e.to_string())?;
        let mut paths: Vec<(String, usize)> = vec![];
        let want;
        match self {
            Source::Basic(spec) => {
                let entry = out.join("e.jbk");
                let b = build(spec, &entry, work)?;
                want = expect_dump(spec, &b);
                let mut names: Vec<String> = std::fs::read_dir(out)
                    .map_err(|e| e.to_string())?
                    .filter_map(|x| x.ok())
                    .map(|x| x.file_name().to_string_lossy().to_string())
                    .collect();
                names.sort_by_key(|n| (n != "e.jbk", n.clone()));
                paths.extend(names.into_iter().map(|n| (n, 0)));
            }
            Source::Asm { asm, files, order } => {
                let mut m = make(asm, work)?;
                let mut loc: BTreeMap<Part, String> = BTreeMap::new();
                for (k, f) in files.iter().enumerate() {
                    for p in &f.parts {
                        loc.insert(*p, if k == 0 { String::new() } else { f.name.clone() });
                    }
                }
                let mut parts: Vec<Part> = asm.parts().into_iter().filter(|p| *p != Part::M).collect();
                Rng::new(*order as u64).shuffle(&mut parts);
                m.manifest(work, &parts, &|p| loc[&p].clone())?;
                for f in files {
                    m.write_file(f, out)?;
                    paths.push((f.name.clone(), f.prefix as usize));
                }
                want = asm.expect(&m);
            }
        }
        let mut files = vec![];
        for (name, prefix) in paths {
            let path = out.join(&name);
            let bytes = std::fs::read(&path).map_err(|e| e.to_string())?;
            let packs = packs_of(&bytes, prefix).ok_or(format!("cannot find the packs of {name}"))?;
            let mut regions = vec![];
            if let Ok(p) = crate::decoder::decode_pack(&bytes, prefix, Some(bytes.len() - prefix), false) {
                for r in &p.regions {
                    regions.push((r.range.clone(), r.what));
                }
                if let crate::decoder::Body::Container(v) = &p.body {
                    for l in v {
                        for r in &l.regions {
                            regions.push((r.range.clone(), r.what));
                        }
                    }
                }
            }
            files.push(PFile {
                path,
                name,
                prefix,
                bytes,
                packs,
                regions,
            });
        }
        let mut packs: BTreeMap<u16, u32> = BTreeMap::new();
        match self {
            Source::Basic(s) => {
                packs.insert(1, 0);
                for e in &s.extra {
                    packs.insert(e.id, 0);
                }
            }
            Source::Asm { asm, .. } => {
                for p in &asm.packs {
                    packs.insert(p.id, 0);
                }
            }
        }
        for k in want.contents.keys() {
            let (p, _) = k.split_once('/').unwrap();
            *packs.entry(p.parse().unwrap()).or_insert(0) += 1;
        }
        Ok(Placed {
            entry: files[0].path.clone(),
            files,
            want,
            packs,
        })
    }

    pub fn valid(&self) -> bool {
        match self {
            Source::Basic(s) => s.valid(),
            Source::Asm { asm, files, .. } => {
                let mut got: Vec<Part> = files.iter().flat_map(|f| f.parts.clone()).collect();
                got.sort();
                let mut want = asm.parts();
                want.sort();
                asm.valid()
                    && got == want
                    && !files.is_empty()
                    && files[0].parts.contains(&Part::M)
                    && files.iter().all(|f| !f.parts.is_empty() && (f.container || f.parts.len() == 1))
            }
        }
    }

    pub fn smaller(&self) -> Vec<Source> {
        match self {
            Source::Basic(s) => {
                let mut v = vec![];
                for k in 0..s.extra.len() {
                    let mut t = s.clone();
                    t.extra.remove(k);
                    v.push(t);
                }
                for k in 0..s.contents.len() {
                    let mut t = s.clone();
                    t.contents.remove(k);
                    v.push(t);
                }
                for d in s.dir.smaller() {
                    v.push(Spec { dir: d, ..s.clone() });
                }
                if s.cached {
                    v.push(Spec {
                        cached: false,
                        ..s.clone()
                    });
                }
                v.into_iter().map(Source::Basic).collect()
            }
            Source::Asm { asm, files, order } => {
                let mut v: Vec<Source> = asm
                    .smaller()
                    .into_iter()
                    .map(|a| Source::Asm {
                        asm: a,
                        files: files.clone(),
                        order: *order,
                    })
                    .collect();
                for k in 0..asm.packs.len() {
                    if asm.packs.len() > 1 {
                        let mut a = asm.clone();
                        let id = a.packs.remove(k).id;
                        let mut f = files.clone();
                        for x in &mut f {
                            x.parts.retain(|p| *p != Part::P(id));
                        }
                        f.retain(|x| !x.parts.is_empty());
                        v.push(Source::Asm {
                            asm: a,
                            files: f,
                            order: *order,
                        });
                    }
                }
                for k in 0..files.len() {
                    if files[k].prefix > 0 {
                        let mut f = files.clone();
                        f[k].prefix = 0;
                        v.push(Source::Asm {
                            asm: asm.clone(),
                            files: f,
                            order: *order,
                        });
                    }
                }
                v
            }
        }
    }

    pub fn name(&self) -> &'static str {
        match self {
            Source::Basic(s) => s.packaging.name(),
            Source::Asm { .. } => "assembled",
        }
    }
}

// ------------------------------------------------------------------ generators of small sources

/// Contents of `total` bytes about
fn few_contents(r: &mut Rng, n: u64, max: u64) -> Vec<Insert> {
    (0..r.below(n + 1))
        .map(|_| Insert {
            blob: Blob::new(
                match r.below(4) {
                    0 => 0,
                    1 => r.below(4) as usize,
                    _ => r.below(max) as usize,
                },
                gen_fill(r),
                r.below(99) as u32,
            ),
            hint: gen_hint(r),
            src: Src::Mem,
            times: 1,
        })
        .collect()
}

pub fn tiny_dir(r: &mut Rng, nc: usize) -> Dir {
    gen_dir(
        r,
        &DirOpts {
            max_entries: 5,
            ncontents: nc,
            max_array: 20,
            max_estores: 2,
            max_stores: 2,
            max_props: 2,
            ..Default::default()
        },
    )
}

pub fn tiny_spec(r: &mut Rng) -> Spec {
    let contents = few_contents(r, 4, 120);
    let dir = tiny_dir(r, contents.len());
    Spec {
        comp: gen_comp(r),
        packaging: gen_packaging(r),
        cached: false,
        contents,
        extra: if r.chance(1, 6) {
            vec![ExtraPack {
                id: *pick(r, &[2u16, 3, 7]),
                comp: gen_comp(r),
                contents: few_contents(r, 2, 40),
            }]
        } else {
            vec![]
        },
        dir,
    }
}

pub fn gen_files(r: &mut Rng, asm: &Asm) -> Vec<FileL> {
    let parts = asm.parts();
    let nf = r.range(1, parts.len() as u64) as usize;
    let mut files: Vec<FileL> = (0..nf)
        .map(|k| FileL {
            name: if k == 0 { "e.jbk".into() } else { format!("f{k}.jbkc") },
            parts: vec![],
            container: true,
            prefix: match r.below(6) {
                0 => r.range(1, 80) as u32,
                1 => *pick(r, &[63u32, 64, 65, 128, 4096]),
                _ => 0,
            },
            text: r.chance(1, 2),
            concat: r.chance(1, 2),
        })
        .collect();
    for p in &parts {
        let k = if *p == Part::M { 0 } else { r.below(nf as u64) as usize };
        files[k].parts.push(*p);
    }
    files.retain(|f| !f.parts.is_empty());
    for f in &mut files {
        r.shuffle(&mut f.parts);
        if f.parts.len() == 1 && r.chance(1, 2) {
            f.container = false;
        }
    }
    files
}

pub fn tiny_asm(r: &mut Rng) -> Source {
    let n = r.range(1, 3);
    let packs: Vec<AsmPack> = (0..n)
        .map(|k| AsmPack {
            id: k as u16 + r.below(2) as u16 * 10,
            comp: gen_comp(r),
            contents: few_contents(r, 3, 60),
        })
        .collect();
    let mut packs = packs;
    packs.dedup_by_key(|p| p.id);
    let nc = packs.iter().map(|p| p.contents.len()).sum();
    let asm = Asm {
        dir: tiny_dir(r, nc),
        packs,
        dir_id: 0,
        free: if r.chance(1, 3) { 0 } else { r.range(1, 1 << 20) as u32 },
    };
    let files = gen_files(r, &asm);
    Source::Asm {
        files,
        order: r.below(9) as u32,
        asm,
    }
}

pub fn tiny_source(r: &mut Rng) -> Source {
    if r.chance(1, 3) {
        tiny_asm(r)
    } else {
        Source::Basic(tiny_spec(r))
    }
}

/// One table or store of about 4096 bytes, where the reader changes its way of loading
pub fn edge_source(r: &mut Rng) -> Source {
    let near = |r: &mut Rng, n: u64| n - 5 + r.below(8);
    let mut contents = few_contents(r, 3, 60);
    let mut stores = vec![];
    let mut common = vec![Prop {
        name: "x".into(),
        kind: PKind::U,
    }];
    let mut vals: Vec<Vec<V>> = (0..r.below(6)).map(|k| vec![V::U(k * 7)]).collect();
    match r.below(4) {
        0 => {
            // content table
            contents = vec![Insert {
                blob: Blob::new(r.below(2) as usize, Fill::Rand, 1),
                hint: gen_hint(r),
                src: Src::Mem,
                times: near(r, 1026) as u32,
            }]
        }
        1 => vals = (0..near(r, 4096)).map(|k| vec![V::U(k * 31 % 251)]).collect(),
        2 => {
            // one big value store
            stores.push(r.chance(1, 2));
            let n = near(r, 4096) as usize;
            let k = r.below(n as u64 / 2) as usize;
            common = vec![Prop {
                name: "a".into(),
                kind: PKind::A(r.below(3) as u8, 0),
            }];
            vals = [k, n - k]
                .iter()
                .map(|l| vec![V::B(Blob::new(*l, Fill::Rand, r.next() as u32))])
                .collect();
        }
        _ => {
            // long tail of a value store or of a cluster
            let n = near(r, 2048);
            if r.chance(1, 2) {
                stores.push(true);
                common = vec![Prop {
                    name: "a".into(),
                    kind: PKind::A(0, 0),
                }];
                vals = (0..n).map(|k| vec![V::A(vec![k as u8, (k >> 8) as u8])]).collect();
            } else {
                contents = vec![Insert {
                    blob: Blob::new(r.range(1, 3) as usize, Fill::Rand, 1),
                    hint: gen_hint(r),
                    src: Src::Mem,
                    times: n as u32,
                }]
            }
        }
    }
    let n = vals.len() as u32;
    Source::Basic(Spec {
        comp: gen_comp(r),
        packaging: gen_packaging(r),
        cached: false,
        contents,
        extra: vec![],
        dir: Dir {
            stores,
            estores: vec![EStore {
                common,
                variants: vec![],
                sort: None,
                entries: vals.into_iter().map(|vals| Entry { variant: 0, vals }).collect(),
            }],
            indexes: vec![Idx {
                name: "i".into(),
                store: 0,
                offset: 0,
                count: n,
                offset_of: None,
                key: 0,
            }],
        },
    })
}

/// Some tables, stores, clusters bigger than 4 KiB
pub fn medium_source(r: &mut Rng) -> Source {
    if r.chance(1, 3) {
        return edge_source(r);
    }
    let big = r.below(5);
    let mut contents = if big == 0 {
        // long content and cluster tables
        vec![
            Insert {
                blob: Blob::new(r.below(3) as usize, Fill::Rand, 1),
                hint: gen_hint(r),
                src: Src::Mem,
                times: r.range(1100, 1800) as u32,
            },
        ]
    } else {
        gen_inserts(r, 12, 40_000, 150_000)
    };
    for c in &mut contents {
        c.src = Src::Mem;
    }
    if big == 1 {
        contents.push(Insert {
            blob: Blob::new(r.range(4000, 300_000) as usize, gen_fill(r), 5),
            hint: gen_hint(r),
            src: Src::Mem,
            times: 1,
        });
    }
    let nc = expand(&contents).len();
    let o = DirOpts {
        max_entries: if big >= 2 { 1500 } else { 60 },
        ncontents: nc,
        max_array: if big == 3 { 2000 } else { 60 },
        max_estores: 2,
        max_stores: 3,
        max_props: 5,
        ..Default::default()
    };
    let dir = gen_dir(r, &o);
    if r.chance(1, 3) {
        let asm = Asm {
            packs: vec![AsmPack {
                id: 1,
                comp: gen_comp(r),
                contents,
            }],
            dir,
            dir_id: 0,
            free: r.below(9) as u32,
        };
        let files = gen_files(r, &asm);
        return Source::Asm {
            asm,
            files,
            order: r.below(5) as u32,
        };
    }
    Source::Basic(Spec {
        comp: gen_comp(r),
        packaging: gen_packaging(r),
        cached: false,
        contents,
        extra: vec![],
        dir,
    })
}

// ------------------------------------------------------------------ damages

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Op {
    /// xor the byte at
    Flip { at: u32, mask: u8 },
    Zero { at: u32, len: u32 },
    /// pseudo random bytes
    Noise { at: u32, len: u32, seed: u32 },
    /// constant byte
    Set { at: u32, len: u32, val: u8 },
    /// keep that many bytes
    Cut { len: u32 },
    /// append
    Append { len: u32, seed: u32, style: u8 },
    /// replace the whole file
    Replace { len: u32, seed: u32, style: u8 },
    /// xor the byte at `at` of the block start..end and update the CRC-32 ending it, but for some bits of it
    Near { start: u32, end: u32, at: u32, mask: u8, bits: u32 },
}

pub fn garbage(len: usize, seed: u32, style: u8) -> Vec<u8> {
    let mut v = match style {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => Blob::new(len, Fill::Text, seed).bytes(),
        3..=6 => {
            let mut v = Blob::new(len, Fill::Rand, seed).bytes();
            let m = [b"jbkC", b"jbkm", b"jbkd", b"jbkc"][style as usize - 3];
            for (k, x) in m.iter().enumerate() {
                if k < v.len() {
                    v[k] = *x;
                }
            }
            if v.len() > 9 {
                v[8] = 0;
                v[9] = 2;
            }
            v
        }
        7 => {
            // ends like a mirrored header
            let mut v = Blob::new(len, Fill::Rand, seed).bytes();
            let n = v.len();
            for (k, x) in b"jbkC".iter().enumerate() {
                if k < n {
                    v[n - 1 - k] = *x;
                }
            }
            if n > 9 {
                v[n - 9] = 0;
                v[n - 10] = 2;
            }
            v
        }
        _ => Blob::new(len, Fill::Rand, seed).bytes(),
    };
    v.truncate(len);
    v
}

pub fn apply(b: &mut Vec<u8>, op: &Op) {
    let n = b.len();
    let span = |at: u32, len: u32| (at as usize).min(n)..((at as usize).saturating_add(len as usize)).min(n);
    match op {
        Op::Flip { at, mask } => {
            if (*at as usize) < n {
                b[*at as usize] ^= mask;
            }
        }
        Op::Zero { at, len } => b[span(*at, *len)].fill(0),
        Op::Set { at, len, val } => b[span(*at, *len)].fill(*val),
        Op::Noise { at, len, seed } => {
            let s = span(*at, *len);
            let g = Blob::new(s.len(), Fill::Rand, *seed).bytes();
            b[s].copy_from_slice(&g);
        }
        Op::Cut { len } => b.truncate(*len as usize),
        Op::Append { len, seed, style } => b.extend(garbage(*len as usize, *seed, *style)),
        Op::Replace { len, seed, style } => *b = garbage(*len as usize, *seed, *style),
        Op::Near {
            start,
            end,
            at,
            mask,
            bits,
        } => {
            let (s, t, a) = (*start as usize, *end as usize, *at as usize);
            if t <= n && s + 4 < t && (s..t - 4).contains(&a) {
                b[a] ^= mask;
                let c = crate::decoder::crc(&b[s..t - 4]) ^ bits;
                b[t - 4..t].copy_from_slice(&c.to_be_bytes());
            }
        }
    }
}

/// the mask of sweep number k at position `at`
pub fn sweep_mask(k: u64, at: usize) -> u8 {
    match k {
        0 => 1 << (at % 8),
        1 => 0xff,
        2 => 0x80,
        3 => 0x01,
        4 => 0x10,
        _ => (mix(at as u64 * 31 + k) as u8).max(1),
    }
}

/// In-place modification of a file, undone by `restore`.
pub struct Patch<'a> {
    f: std::fs::File,
    orig: &'a [u8],
}
impl<'a> Patch<'a> {
    pub fn new(p: &'a PFile) -> Self {
        let f = std::fs::OpenOptions::new().read(true).write(true).open(&p.path).unwrap();
        Patch { f, orig: &p.bytes }
    }
    pub fn flip(&self, at: usize, mask: u8) {
        self.f.write_all_at(&[self.orig[at] ^ mask], at as u64).unwrap();
    }
    pub fn unflip(&self, at: usize) {
        self.f.write_all_at(&self.orig[at..at + 1], at as u64).unwrap();
    }
    pub fn write(&self, b: &[u8]) {
        self.f.write_all_at(b, 0).unwrap();
        self.f.set_len(b.len() as u64).unwrap();
    }
    pub fn restore(&self) {
        self.write(self.orig);
    }
}

/// A random damage of these bytes; `any` includes truncations and extensions.
pub fn gen_ops(r: &mut Rng, f: &PFile, any: bool) -> Vec<Op> {
    let n = f.bytes.len() as u64;
    let pos = |r: &mut Rng| -> u32 {
        if !f.regions.is_empty() && r.chance(2, 3) {
            let (g, _) = pick(r, &f.regions);
            (match r.below(5) {
                0 => g.start,
                1 => g.end.saturating_sub(1),
                2 => g.end.saturating_sub(5),
                3 => g.end,
                _ => g.start + r.below(g.len().max(1) as u64) as usize,
            }) as u32
        } else {
            r.below(n) as u32
        }
    };
    let len = |r: &mut Rng| -> u32 {
        match r.below(5) {
            0 => r.range(1, 8) as u32,
            1 => *pick(r, &[64u32, 128, 512, 4096, 256]),
            2 => r.range(1, 300) as u32,
            3 => r.below(n + 1) as u32,
            _ => log_len(r, 16) as u32 + 1,
        }
    };
    let one = |r: &mut Rng| -> Op {
        if r.chance(1, 8) && !f.regions.is_empty() {
            let (g, _) = pick(r, &f.regions);
            if g.len() > 4 && g.end <= f.bytes.len() {
                return Op::Near {
                    start: g.start as u32,
                    end: g.end as u32,
                    at: (g.start as u64 + r.below(g.len() as u64 - 4)) as u32,
                    mask: if r.chance(1, 2) { 1 << r.below(8) } else { r.range(1, 255) as u8 },
                    bits: match r.below(3) {
                        0 => 1 << r.below(32),
                        1 => (r.range(1, 255) as u32) << (8 * r.below(4)),
                        _ => (r.range(1, 65535) as u32) << (16 * r.below(2)),
                    },
                };
            }
        }
        match r.below(if any { 12 } else { 8 }) {
            0..=3 => Op::Flip {
                at: pos(r),
                mask: r.range(1, 255) as u8,
            },
            4 => Op::Zero { at: pos(r), len: len(r) },
            5 | 6 => Op::Noise {
                at: pos(r),
                len: len(r),
                seed: r.below(1 << 20) as u32,
            },
            7 => Op::Set {
                at: pos(r),
                len: len(r),
                // four bytes 0xff then zeros have a CRC-32 of 0
                val: *pick(r, &[0xfeu8, 1, 0x80, b'j', 0x20]),
            },
            8 | 9 => Op::Cut {
                len: match r.below(4) {
                    0 => pos(r),
                    1 => (n as u32).saturating_sub(r.below(200) as u32),
                    _ => r.below(n + 1) as u32,
                },
            },
            10 => Op::Append {
                len: len(r),
                seed: r.below(1 << 20) as u32,
                style: r.below(10) as u8,
            },
            _ => Op::Append {
                len: *pick(r, &[1u32, 63, 64, 65, 4096]),
                seed: r.below(1 << 20) as u32,
                style: r.below(10) as u8,
            },
        }
    };
    let k = match r.below(4) {
        0 | 1 => 1,
        2 => 2,
        _ => r.range(1, 6),
    };
    (0..k).map(|_| one(r)).collect()
}

// ------------------------------------------------------------------ the probe

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// anything about structure
    Struct,
    /// raw bytes of stored contents
    Bytes,
    /// result of an integrity check
    Check,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub key: String,
    pub kind: Kind,
    pub val: Result<String, String>,
}

pub struct Probe<'a> {
    pub p: &'a Placed,
    /// partial reads too
    pub deep: bool,
    pub out: Vec<Obs>,
}

fn e(x: impl std::fmt::Display) -> String {
    let mut s = x.to_string();
    if s.len() > 120 {
        let mut k = 120;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        s.truncate(k);
    }
    if s.is_empty() {
        s.push('?');
    }
    s
}

impl<'a> Probe<'a> {
    pub fn new(p: &'a Placed, deep: bool) -> Self {
        Probe { p, deep, out: vec![] }
    }
    fn put(&mut self, key: impl Into<String>, kind: Kind, val: Result<String, String>) {
        self.out.push(Obs {
            key: key.into(),
            kind,
            val,
        });
    }

    /// Everything. Panics of jubako are left to the caller.
    pub fn run(mut self) -> Vec<Obs> {
        self.container();
        self.files();
        self.out
    }

    pub fn container(&mut self) {
        use Kind::*;
        let c = match jbk::reader::Container::new(&self.p.entry) {
            Ok(c) => c,
            Err(x) => {
                self.put("container", Struct, Err(e(x)));
                return;
            }
        };
        self.put(
            "container",
            Struct,
            Ok(format!("{} with {} packs", c.uuid(), c.pack_count().into_u16())),
        );
        let d = c.get_directory_pack();
        self.directory("container", d);
        let p = self.p;
        for (n, i) in p.want.indexes.iter().enumerate() {
            self.index(&c, n, &i.name);
        }
        self.put(
            "no index",
            Struct,
            match c.get_index_for_name("no such name") {
                Ok(x) => Ok(x.is_some().to_string()),
                Err(x) => Err(e(x)),
            },
        );
        let mut ids: Vec<u16> = p.packs.keys().copied().collect();
        for x in [0, 1, ids.last().unwrap_or(&0).saturating_add(1), 65535] {
            if !ids.contains(&x) {
                ids.push(x);
            }
        }
        for id in ids {
            let key = format!("pack {id}");
            match c.get_pack(id.into()) {
                Err(x) => self.put(key, Struct, Err(e(x))),
                Ok(None) => self.put(key, Struct, Ok("no such pack".into())),
                Ok(Some(jbk::reader::MayMissPack::MISSING(i))) => {
                    self.put(key, Struct, Ok(format!("missing {} {:?}", i.uuid, i.pack_location)))
                }
                Ok(Some(jbk::reader::MayMissPack::FOUND(cp))) => {
                    let count = p.packs.get(&id).copied().unwrap_or(0);
                    self.content_pack(&key, cp, count);
                    if self.deep {
                        let a = read::addr((id, 0));
                        let v = match c.get_bytes(a) {
                            Ok(Some(jbk::reader::MayMissPack::FOUND(Some(r)))) => Ok(r.size().into_u64().to_string()),
                            Ok(_) => Ok("none".into()),
                            Err(x) => Err(e(x)),
                        };
                        self.put(format!("{key} get_bytes"), Struct, v);
                    }
                }
            }
        }
        self.put("container check", Check, c.check().map(|b| b.to_string()).map_err(e));
    }

    fn directory(&mut self, at: &str, d: &jbk::reader::DirectoryPack) {
        use Kind::*;
        self.put(
            format!("{at} directory"),
            Struct,
            Ok(format!(
                "{} {} {:?} {:?} {}",
                d.uuid(),
                d.size(),
                d.version(),
                d.app_vendor_id(),
                hex(d.get_free_data())
            )),
        );
        for i in 0..self.p.want.indexes.len() {
            let v = d
                .get_index((i as u32).into())
                .map(|x| {
                    format!(
                        "{} {} {}",
                        x.get_store_id().into_u32(),
                        x.offset().into_u32(),
                        x.count().into_u32()
                    )
                })
                .map_err(e);
            self.put(format!("{at} index #{i}"), Struct, v);
        }
        self.put(format!("{at} directory check"), Check, d.check().map(|b| b.to_string()).map_err(e));
    }

    fn index(&mut self, c: &jbk::reader::Container, n: usize, name: &str) {
        use Kind::*;
        let key = format!("index {name}");
        let index = match c.get_index_for_name(name) {
            Err(x) => return self.put(key, Struct, Err(e(x))),
            Ok(None) => return self.put(key, Struct, Ok("absent".into())),
            Ok(Some(x)) => x,
        };
        self.put(
            &*key,
            Struct,
            Ok(format!(
                "{} {} {}",
                index.get_store_id().into_u32(),
                index.offset().into_u32(),
                index.count().into_u32()
            )),
        );
        let store = match index.get_store(c.get_entry_storage()) {
            Ok(x) => x,
            Err(x) => return self.put(format!("{key} store"), Struct, Err(e(x))),
        };
        let names = read::names_of(&store);
        self.put(
            format!("{key} store"),
            Struct,
            Ok(format!("{:?} {:?} {:?}", names.common, names.variants, names.variant_names)),
        );
        let builder = match jbk::reader::builder::AnyBuilder::new(store, c.get_value_storage().as_ref()) {
            Ok(x) => x,
            Err(x) => return self.put(format!("{key} builder"), Struct, Err(e(x))),
        };
        let most = self.p.want.indexes[n].count + 1;
        let mut text = String::new();
        for i in 0..index.count().into_u32().min(most) {
            let v = match index.get_entry(&builder, i.into()) {
                Err(x) => Err(e(x)),
                Ok(None) => Ok("none".to_string()),
                Ok(Some(en)) => read::read_entry(&en, &names).map(|d| d.show()).map_err(e),
            };
            match v {
                // one observation per index as long as everything goes well
                Ok(v) => {
                    text.push_str(&v);
                    text.push('\n');
                }
                Err(x) => {
                    return self.put(format!("{key} entries"), Struct, Err(format!("entry {i}: {x}")));
                }
            }
        }
        self.put(format!("{key} entries"), Struct, Ok(text));
    }

    fn content_pack(&mut self, at: &str, cp: &jbk::reader::ContentPack, count: u32) {
        use Kind::*;
        self.put(
            at,
            Struct,
            Ok(format!(
                "{} {} {:?} {:?} {} contents {}",
                cp.uuid(),
                cp.size(),
                cp.version(),
                cp.app_vendor_id(),
                cp.get_content_count().into_u32(),
                hex(cp.get_free_data())
            )),
        );
        // long tables: a sample of the contents
        let step = if count > 200 { count / 97 + 1 } else { 1 };
        let mut k = 0;
        while k <= count {
            let key = format!("{at} content {k}");
            match cp.get_content(k.into()) {
                Err(x) => self.put(key, Struct, Err(e(x))),
                Ok(None) => self.put(key, Struct, Ok("none".into())),
                Ok(Some(r)) => {
                    let size = r.size().into_u64();
                    self.put(&*key, Struct, Ok(size.to_string()));
                    let mut v = vec![];
                    let got = r.stream().read_to_end(&mut v);
                    self.put(
                        format!("{key} bytes"),
                        Bytes,
                        match got {
                            Ok(_) => Ok(brief(&v)),
                            Err(x) => Err(e(x)),
                        },
                    );
                    if self.deep {
                        let n = size as usize;
                        for (o, l) in [(0, n), (n / 2, n - n / 2), (n / 3, 1.min(n - n / 3)), (n, 0)] {
                            let v = r
                                .get_slice(jbk::Offset::new(o as u64), l)
                                .map(|x| brief(&x))
                                .map_err(e);
                            self.put(format!("{key} bytes {o}+{l}"), Bytes, v);
                        }
                        let mut b = [0u8; 7];
                        let v = r.stream().read(&mut b).map(|x| hex(&b[..x])).map_err(e);
                        self.put(format!("{key} first bytes"), Bytes, v);
                    }
                }
            }
            k = if k < count && k + step > count { count } else { k + step };
        }
        self.put(format!("{at} check"), Check, cp.check().map(|b| b.to_string()).map_err(e));
    }

    /// Each pack of each file opened for itself
    pub fn files(&mut self) {
        use Kind::*;
        let p = self.p;
        for f in &p.files {
            let name = &f.name;
            if f.prefix == 0 {
                match jbk::tools::open_pack(&f.path) {
                    Err(x) => self.put(format!("file {name}"), Struct, Err(e(x))),
                    Ok(cp) => {
                        let mut uuids: Vec<String> = cp.iter().map(|x| x.0.to_string()).collect();
                        uuids.sort();
                        self.put(format!("file {name}"), Struct, Ok(uuids.join(" ")));
                        self.put(
                            format!("file {name} check"),
                            Check,
                            cp.check().map(|b| b.to_string()).map_err(e),
                        );
                    }
                }
            }
            for pk in &f.packs {
                self.pack(f, pk);
            }
            if let Ok(now) = std::fs::read(&f.path) {
                self.memory(f, &now);
            }
        }
    }

    /// the same from readers over memory
    fn memory(&mut self, f: &PFile, now: &[u8]) {
        use Kind::*;
        let name = &f.name;
        if f.bytes[f.prefix..].starts_with(b"jbkC") && now.len() >= f.prefix {
            let key = format!("memory {name}");
            match jbk::reader::ContainerPack::new(now[f.prefix..].to_vec().into()) {
                Err(x) => self.put(key, Struct, Err(e(x))),
                Ok(cp) => {
                    let mut uuids: Vec<String> = cp.iter().map(|x| x.0.to_string()).collect();
                    uuids.sort();
                    self.put(&*key, Struct, Ok(uuids.join(" ")));
                    self.put(format!("{key} check"), Check, cp.check().map(|b| b.to_string()).map_err(e));
                }
            }
        }
        for pk in &f.packs {
            let lo = pk.base.min(now.len());
            let hi = (pk.base + pk.size).min(now.len());
            let r: jbk::Reader = now[lo..hi].to_vec().into();
            self.one_pack(&format!("memory {name} pack {}", pk.uuid), pk.kind, r);
        }
    }

    pub fn pack(&mut self, f: &PFile, pk: &PackPos) {
        use Kind::*;
        let key = format!("file {} pack {}", f.name, pk.uuid);
        let loc = jbk::reader::FsLocator::new(f.path.parent().unwrap().to_path_buf());
        match loc.locate(pk.uuid, f.path.file_name().unwrap().to_str().unwrap()) {
            Err(x) => self.put(key, Struct, Err(e(x))),
            Ok(None) => self.put(key, Struct, Ok("absent".into())),
            Ok(Some(r)) => self.one_pack(&key, pk.kind, r),
        }
    }

    fn one_pack(&mut self, key: &str, kind: u8, r: jbk::Reader) {
        use Kind::*;
        match kind {
            b'm' => match jbk::reader::ManifestPack::new(r) {
                Err(x) => self.put(key, Struct, Err(e(x))),
                Ok(m) => {
                    let mut t = format!(
                        "{} {} {:?} {:?} {} max {} free {}",
                        m.uuid(),
                        m.size(),
                        m.version(),
                        m.app_vendor_id(),
                        m.pack_count().into_u16(),
                        m.max_id(),
                        hex(&m.get_free_data()[..])
                    );
                    for i in m.get_pack_infos().iter().chain([m.get_directory_pack_info()]) {
                        t.push_str(&format!(
                            "\n{} {} {} {:?}",
                            i.uuid,
                            i.pack_size,
                            i.pack_id.into_u16(),
                            i.pack_location
                        ));
                    }
                    self.put(key, Struct, Ok(t));
                    let us: Vec<_> = m
                        .get_pack_infos()
                        .iter()
                        .chain([m.get_directory_pack_info()])
                        .map(|i| i.uuid)
                        .collect();
                    for id in self.p.packs.keys() {
                        let i = m.get_content_pack_info((*id).into()).map(|i| i.uuid);
                        let v = m
                            .get_pack_free_data((*id).into())
                            .map(|x| format!("{i:?} {:?}", x.map(hex)))
                            .map_err(e);
                        self.out.push(Obs {
                            key: format!("{key} free of {id}"),
                            kind: Struct,
                            val: v,
                        });
                    }
                    for u in us {
                        let v = m
                            .get_pack_free_data_uuid(u)
                            .map(|x| format!("{:?}", x.map(hex)))
                            .map_err(e);
                        self.put(format!("{key} free of {u}"), Struct, v);
                    }
                    self.put(format!("{key} check"), Check, m.check().map(|b| b.to_string()).map_err(e));
                }
            },
            b'd' => match jbk::reader::DirectoryPack::new(r) {
                Err(x) => self.put(key, Struct, Err(e(x))),
                Ok(d) => self.directory(key, &d),
            },
            _ => match jbk::reader::ContentPack::new(r) {
                Err(x) => self.put(key, Struct, Err(e(x))),
                Ok(c) => {
                    // its contents are read through the container
                    self.content_pack(key, &c, 1.min(c.get_content_count().into_u32()))
                }
            },
        }
    }
}

// ------------------------------------------------------------------ sequences of damages

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Mode {
    /// every truncation length of a file
    Cuts { file: u32 },
    /// every byte of a file with the mask of that number
    Sweep { file: u32, k: u64 },
    /// garbage instead of a file, of each length up to `max`
    Junk { file: u32, style: u8, max: u32 },
    /// seeded random damages
    Rand { seed: u64, from: u64, to: u64, any: bool },
    /// every byte of the manifest with the mask of that number
    Manifest { k: u64 },
    /// seeded alterations followed by the update of the CRC-32 of the block
    Fixed { seed: u64, from: u64, to: u64 },
    /// one damage: operations on files
    Ops(Vec<(u32, Op)>),
}

fn manifest_of(p: &Placed) -> Option<(usize, &PackPos)> {
    p.files
        .iter()
        .enumerate()
        .find_map(|(k, f)| f.packs.iter().find(|x| x.kind == b'm').map(|x| (k, x)))
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub src: Source,
    pub mode: Mode,
    pub deep: bool,
}

pub type Damage = Vec<(usize, Op)>;

impl Mode {
    pub fn count(&self, p: &Placed) -> std::ops::Range<u64> {
        let size = |f: u32| p.files[f as usize % p.files.len()].bytes.len() as u64;
        match self {
            Mode::Cuts { file } | Mode::Sweep { file, .. } => 0..size(*file),
            Mode::Junk { max, .. } => 0..*max as u64,
            Mode::Manifest { .. } => 0..manifest_of(p).map(|x| x.1.size as u64).unwrap_or(0),
            Mode::Rand { from, to, .. } | Mode::Fixed { from, to, .. } => *from..*to,
            Mode::Ops(_) => 0..1,
        }
    }
    pub fn damage(&self, p: &Placed, step: u64) -> Damage {
        let nf = p.files.len();
        match self {
            Mode::Cuts { file } => vec![(*file as usize % nf, Op::Cut { len: step as u32 })],
            Mode::Sweep { file, k } => vec![(
                *file as usize % nf,
                Op::Flip {
                    at: step as u32,
                    mask: sweep_mask(*k, step as usize),
                },
            )],
            Mode::Junk { file, style, .. } => vec![(
                *file as usize % nf,
                Op::Replace {
                    len: step as u32,
                    seed: step as u32,
                    style: *style,
                },
            )],
            Mode::Rand { seed, any, .. } => {
                let mut r = Rng::new(seed.wrapping_add(step.wrapping_mul(0x1234_5677)));
                let mut v = vec![];
                for _ in 0..if r.chance(1, 8) { 2 } else { 1 } {
                    // the entry point more often
                    let f = if r.chance(1, 3) { 0 } else { r.below(nf as u64) as usize };
                    if p.files[f].bytes.is_empty() {
                        continue;
                    }
                    v.extend(gen_ops(&mut r, &p.files[f], *any).into_iter().map(|o| (f, o)));
                }
                v
            }
            Mode::Manifest { k } => {
                let (f, m) = manifest_of(p).unwrap();
                vec![(
                    f,
                    Op::Flip {
                        at: (m.base as u64 + step) as u32,
                        mask: sweep_mask(*k, step as usize),
                    },
                )]
            }
            Mode::Fixed { seed, .. } => {
                let mut r = Rng::new(seed.wrapping_add(step.wrapping_mul(0x1234_5677)));
                let mut v = vec![];
                for _ in 0..r.range(1, 2) {
                    let f = r.below(nf as u64) as usize;
                    let blocks: Vec<_> = p.files[f]
                        .regions
                        .iter()
                        .filter(|g| {
                            // the count of values of the store of the manifest decides of an allocation
                            // before any check: with a good CRC-32, the process may end there
                            let m = |x: &PackPos| x.kind == b'm' && (x.base..x.check_pos).contains(&g.0.start);
                            // only what belongs to a pack
                            let i = |x: &PackPos| (x.base..x.base + x.size - 64).contains(&g.0.start);
                            g.0.len() > 4 && p.files[f].packs.iter().any(i) && !(g.1 == "value store tail" && p.files[f].packs.iter().any(m))
                        })
                        .collect();
                    if blocks.is_empty() {
                        continue;
                    }
                    let (g, _) = *pick(&mut r, &blocks);
                    let n = g.len() as u64 - 4;
                    v.push((
                        f,
                        Op::Near {
                            start: g.start as u32,
                            end: g.end as u32,
                            at: (g.start as u64 + r.below(n)) as u32,
                            mask: match r.below(3) {
                                0 => 1 << r.below(8),
                                1 => 1,
                                _ => r.range(1, 255) as u8,
                            },
                            bits: 0,
                        },
                    ));
                }
                v
            }
            Mode::Ops(v) => v.iter().map(|(f, o)| (*f as usize % nf, o.clone())).collect(),
        }
    }
    pub fn reduce(&self, step: u64) -> Option<Mode> {
        Some(match self {
            Mode::Cuts { file } => Mode::Ops(vec![(*file, Op::Cut { len: step as u32 })]),
            Mode::Sweep { file, k } => Mode::Ops(vec![(
                *file,
                Op::Flip {
                    at: step as u32,
                    mask: sweep_mask(*k, step as usize),
                },
            )]),
            Mode::Junk { file, style, .. } => Mode::Ops(vec![(
                *file,
                Op::Replace {
                    len: step as u32,
                    seed: step as u32,
                    style: *style,
                },
            )]),
            Mode::Rand { seed, any, .. } => Mode::Rand {
                seed: *seed,
                from: step,
                to: step + 1,
                any: *any,
            },
            Mode::Fixed { seed, .. } => Mode::Fixed {
                seed: *seed,
                from: step,
                to: step + 1,
            },
            Mode::Manifest { .. } | Mode::Ops(_) => return None,
        })
    }
}

/// Gives each damage of the case to `f`, with the files damaged on disk. Stops when `f` answers something.
pub fn each<T>(mode: &Mode, p: &Placed, mut f: impl FnMut(u64, &Damage, bool) -> Option<T>) -> Option<T> {
    let patches: Vec<Patch> = p.files.iter().map(Patch::new).collect();
    for step in mode.count(p) {
        let d = mode.damage(p, step);
        if let [(k, Op::Flip { at, mask })] = &d[..] {
            let at = *at as usize;
            if at >= p.files[*k].bytes.len() {
                continue;
            }
            patches[*k].flip(at, *mask);
            let r = f(step, &d, *mask != 0);
            patches[*k].unflip(at);
            if r.is_some() {
                return r;
            }
            continue;
        }
        let mut new: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        for (k, o) in &d {
            apply(new.entry(*k).or_insert_with(|| p.files[*k].bytes.clone()), o);
        }
        let changed = new.iter().any(|(k, b)| *b != p.files[*k].bytes);
        for (k, b) in &new {
            patches[*k].write(b);
        }
        let r = f(step, &d, changed);
        for k in new.keys() {
            patches[*k].restore();
        }
        if r.is_some() {
            return r;
        }
    }
    None
}

impl Case {
    pub fn valid(&self) -> bool {
        let near = |o: &Op| matches!(o, Op::Near { bits: 0, .. });
        self.src.valid()
            && match &self.mode {
                // a recomputed checksum is another matter
                Mode::Ops(v) => !v.iter().any(|x| near(&x.1)),
                _ => true,
            }
    }
    /// Smaller cases to try when shrinking
    pub fn smaller(&self) -> Vec<Case> {
        let mut v = vec![];
        if let Mode::Rand { from, to, .. } | Mode::Fixed { from, to, .. } = &self.mode {
            if to - from == 1 {
                let d = tempdir();
                if let Ok(p) = self.src.place(&d.join("w"), &d.join("o")) {
                    let ops = self.mode.damage(&p, *from);
                    v.push(Case {
                        mode: Mode::Ops(ops.into_iter().map(|(k, o)| (k as u32, o)).collect()),
                        ..self.clone()
                    });
                }
                let _ = std::fs::remove_dir_all(&d);
            }
        }
        if let Mode::Ops(ops) = &self.mode {
            for k in 0..ops.len() {
                if ops.len() > 1 {
                    let mut o = ops.clone();
                    o.remove(k);
                    v.push(Case {
                        mode: Mode::Ops(o),
                        ..self.clone()
                    });
                }
            }
        }
        for s in self.src.smaller() {
            v.push(Case { src: s, ..self.clone() });
        }
        v
    }
}

fn tempdir() -> PathBuf {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    scratch_root().join(format!(
        "jbkverif-shrink-{}-{}",
        std::process::id(),
        N.fetch_add(1, Ordering::Relaxed)
    ))
}

// ------------------------------------------------------------------ judging

/// What is wrong with `got`, knowing `good`: structure must be the same or fail, contents may only
/// differ when the checks covering them do not succeed.
pub fn judge(good: &[Obs], got: &[Obs]) -> Option<(&'static str, String)> {
    // the most common case
    if good == got {
        return None;
    }
    let pristine: std::collections::HashMap<&str, &Obs> = good.iter().map(|o| (&*o.key, o)).collect();
    let now: std::collections::HashMap<&str, &Obs> = got.iter().map(|o| (&*o.key, o)).collect();
    let mut failed = false;
    for o in got {
        let was = pristine.get(&*o.key);
        match (&o.val, o.kind) {
            (Err(_), _) => failed = true,
            (Ok(v), Kind::Struct) => match was {
                Some(Obs { val: Ok(w), .. }) if w == v => (),
                Some(w) => return Some(("structure", format!("{}: {v:?} instead of {:?}", o.key, w.val))),
                None => return Some(("structure", format!("{}: {v:?} which was not there", o.key))),
            },
            (Ok(v), Kind::Bytes) => {
                if let Some(Obs { val: Ok(w), .. }) = was {
                    if w == v {
                        continue;
                    }
                }
                let pack = o.key.split(" content ").next().unwrap();
                let mut checks = vec![format!("{pack} check")];
                if pack.starts_with("pack ") {
                    checks.push("container check".into());
                }
                for c in checks {
                    if let Some(Obs { val: Ok(t), .. }) = now.get(&*c) {
                        if t == "true" {
                            return Some(("unnoticed", format!("{}: {v} instead of {:?} but {c} succeeds", o.key, was.map(|w| &w.val))));
                        }
                    }
                }
            }
            (Ok(_), Kind::Check) => (),
        }
    }
    if !failed {
        for o in good {
            if o.kind == Kind::Struct && !now.contains_key(&*o.key) {
                return Some(("structure", format!("{} is not there any more and nothing failed", o.key)));
            }
        }
    }
    None
}
