//! Containers assembled from separately created packs: any number of packs, any packaging, any location.
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::creator as jc;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::io::Write;
use std::path::{Path, PathBuf};

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct AsmPack {
    pub id: u16,
    pub comp: Comp,
    pub contents: Vec<Insert>,
}

/// The logical container.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Asm {
    /// id 0 is usable too
    pub packs: Vec<AsmPack>,
    /// `V::CI(k)` numbers the insertions of all the packs in order
    pub dir: Dir,
    pub dir_id: u16,
    /// 0: default free data everywhere, otherwise a seed
    pub free: u32,
}

/// A pack of the logical container: the manifest, the directory, a content pack
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Part {
    M,
    D,
    P(u16),
}

/// One file: packs in that order, as a container pack or (one pack) bare, preceded by foreign bytes.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct FileL {
    pub name: String,
    pub parts: Vec<Part>,
    pub container: bool,
    /// foreign bytes before
    pub prefix: u32,
    /// text-like prefix instead of random bytes
    pub text: bool,
    /// assembled with tools::concat instead of ContainerPackCreator
    pub concat: bool,
}

pub struct Made {
    pub pd: BTreeMap<Part, jc::PackData>,
    pub files: BTreeMap<Part, PathBuf>,
    pub addrs: Vec<(u16, u32)>,
    pub positions: Vec<Vec<u32>>,
    pub manifest_free: [u8; 24],
    pub pack_free: BTreeMap<Part, Vec<u8>>,
}

pub fn free24(seed: u32, k: u32) -> [u8; 24] {
    if seed == 0 {
        return [0; 24];
    }
    let mut r = Rng::new(seed as u64 * 31 + k as u64);
    let mut v = [0; 24];
    for x in &mut v {
        *x = r.next() as u8;
    }
    v
}

pub fn clone_pd(p: &jc::PackData) -> jc::PackData {
    jc::PackData {
        uuid: p.uuid,
        pack_size: p.pack_size,
        pack_kind: p.pack_kind,
        pack_id: p.pack_id,
        free_data: p.free_data.clone(),
        check_info: p.check_info,
    }
}

/// Creates the content packs and the directory pack in `dir`, as bare files.
pub fn make(a: &Asm, dir: &Path) -> Result<Made, String> {
    let e = |x: &dyn std::fmt::Display| format!("create: {x}");
    let mut m = Made {
        pd: Default::default(),
        files: Default::default(),
        addrs: vec![],
        positions: vec![],
        manifest_free: free24(a.free, 1000),
        pack_free: Default::default(),
    };
    let inputs = dir.join("in");
    std::fs::create_dir_all(&inputs).map_err(|x| e(&x))?;
    for (n, p) in a.packs.iter().enumerate() {
        let path = dir.join(format!("part{n}"));
        let mut c = jc::ContentPackCreator::new(
            utf8(&path),
            jbk::PackId::from(p.id),
            vendor(),
            free24(a.free, n as u32).into(),
            p.comp.get(),
        )
        .map_err(|x| e(&x))?;
        for (k, i) in expand(&p.contents).iter().enumerate() {
            let ad = c
                .add_content(
                    reader_for(&i.blob.bytes(), &i.src, &inputs, k).map_err(|x| e(&x))?,
                    i.hint.get(),
                )
                .map_err(|x| e(&x))?;
            m.addrs.push((ad.pack_id.into_u16(), ad.content_id.into_u32()));
        }
        let (f, mut pd) = c.finalize().map_err(|x| e(&x))?;
        drop(f);
        if a.free != 0 {
            // shared or not between packs
            let k = (a.free as usize + n) % 3;
            pd.free_data = free24(a.free, 2000 + k as u32)[..(a.free as usize * 7 + k * 5) % 25].to_vec();
        }
        m.pack_free.insert(Part::P(p.id), pd.free_data.clone());
        m.pd.insert(Part::P(p.id), pd);
        m.files.insert(Part::P(p.id), path);
    }
    let db = build_dir(&a.dir, &m.addrs);
    let bounds: Vec<Vec<_>> = db.bounds.iter().map(|b| b.to_vec()).collect();
    let mut dp = jc::DirectoryPackCreator::new(a.dir_id.into(), vendor(), free24(a.free, 3000).into());
    db.into_pack(&mut dp);
    let path = dir.join("partd");
    let mut f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(&path)
        .map_err(|x| e(&x))?;
    let pd = dp.finalize().map_err(|x| e(&x))?.write(&mut f).map_err(|x| e(&x))?;
    m.pack_free.insert(Part::D, pd.free_data.clone());
    m.pd.insert(Part::D, pd);
    m.files.insert(Part::D, path);
    m.positions = bounds
        .iter()
        .map(|b| b.iter().map(|x| x.get().into_u32()).collect())
        .collect();
    Ok(m)
}

impl Made {
    /// (Re)creates the manifest with these locations, packs listed in that order.
    pub fn manifest(&mut self, dir: &Path, order: &[Part], loc: &dyn Fn(Part) -> String) -> Result<uuid::Uuid, String> {
        let e = |x: &dyn std::fmt::Display| format!("create manifest: {x}");
        let mut mc = jc::ManifestPackCreator::new(vendor(), self.manifest_free.into());
        for p in order {
            mc.add_pack(clone_pd(&self.pd[p]), loc(*p));
        }
        let path = dir.join("partm");
        let mut f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(true)
            .open(&path)
            .map_err(|x| e(&x))?;
        let u = mc.finalize(&mut f).map_err(|x| e(&x))?;
        self.files.insert(Part::M, path);
        self.muuid(u);
        Ok(u)
    }
    fn muuid(&mut self, u: uuid::Uuid) {
        let d = &self.pd[&Part::D];
        let mut x = clone_pd(d);
        x.uuid = u;
        self.pd.insert(Part::M, x);
    }
    pub fn uuid(&self, p: Part) -> uuid::Uuid {
        self.pd[&p].uuid
    }

    /// Writes one file of a packaging.
    pub fn write_file(&self, f: &FileL, dir: &Path) -> Result<PathBuf, String> {
        let e = |x: &dyn std::fmt::Display| format!("packaging {}: {x}", f.name);
        let path = dir.join(&f.name);
        if let Some(p) = path.parent() {
            std::fs::create_dir_all(p).map_err(|x| e(&x))?;
        }
        let plain = if f.prefix > 0 { dir.join(format!("{}.tmp", f.name)) } else { path.clone() };
        if f.container {
            if f.concat {
                let ins: Vec<&PathBuf> = f.parts.iter().map(|p| &self.files[p]).collect();
                jbk::tools::concat(&ins, utf8(&plain)).map_err(|x| e(&x))?;
            } else {
                let mut c = jc::ContainerPackCreator::new(utf8(&plain), Default::default()).map_err(|x| e(&x))?;
                for p in &f.parts {
                    let mut r = std::fs::File::open(&self.files[p]).map_err(|x| e(&x))?;
                    c.add_pack(self.uuid(*p), &mut r).map_err(|x| e(&x))?;
                }
                c.finalize().map_err(|x| e(&x))?;
            }
        } else {
            std::fs::copy(&self.files[&f.parts[0]], &plain).map_err(|x| e(&x))?;
        }
        if f.prefix > 0 {
            let b = std::fs::read(&plain).map_err(|x| e(&x))?;
            std::fs::remove_file(&plain).map_err(|x| e(&x))?;
            let fill = if f.text { Fill::Text } else { Fill::Rand };
            let mut pre = Blob::new(f.prefix as usize, fill, f.prefix).bytes();
            if pre.starts_with(b"jbk") {
                pre[0] = 0;
            }
            let mut o = std::fs::File::create(&path).map_err(|x| e(&x))?;
            o.write_all(&pre).map_err(|x| e(&x))?;
            o.write_all(&b).map_err(|x| e(&x))?;
        }
        Ok(path)
    }
}

impl Asm {
    pub fn parts(&self) -> Vec<Part> {
        let mut v = vec![Part::M, Part::D];
        v.extend(self.packs.iter().map(|p| Part::P(p.id)));
        v
    }
    /// What it reads as
    pub fn expect(&self, m: &Made) -> Dump {
        let spec = Spec {
            comp: Comp::None,
            packaging: Packaging::One,
            cached: false,
            contents: self.packs.iter().flat_map(|p| p.contents.clone()).collect(),
            extra: vec![],
            dir: self.dir.clone(),
        };
        expect_dump(
            &spec,
            &Built {
                path: PathBuf::new(),
                addrs: m.addrs.clone(),
                extra_addrs: vec![],
                extra_paths: vec![],
                positions: m.positions.clone(),
            },
        )
    }
    pub fn ncontents(&self) -> u64 {
        self.packs
            .iter()
            .map(|p| p.contents.iter().map(|i| i.times as u64).sum::<u64>())
            .sum()
    }
    pub fn valid(&self) -> bool {
        let mut ids: Vec<u16> = self.packs.iter().map(|p| p.id).collect();
        ids.sort();
        ids.windows(2).all(|w| w[0] != w[1])
            && self.dir.valid(self.ncontents())
            && self.packs.iter().all(|p| {
                p.contents.iter().all(|i| match &i.blob.fill {
                    Fill::Lit(b) => b.len() == i.blob.len as usize,
                    _ => true,
                })
            })
    }
    pub fn smaller(&self) -> Vec<Asm> {
        let mut v = vec![];
        for d in self.dir.smaller() {
            v.push(Asm { dir: d, ..self.clone() });
        }
        for k in 0..self.packs.len() {
            for j in 0..self.packs[k].contents.len() {
                let mut a = self.clone();
                a.packs[k].contents.remove(j);
                v.push(a);
            }
            if self.packs[k].comp != Comp::None {
                let mut a = self.clone();
                a.packs[k].comp = Comp::None;
                v.push(a);
            }
        }
        if self.free != 0 {
            v.push(Asm { free: 0, ..self.clone() });
        }
        v
    }
}

pub fn gen_asm(r: &mut Rng, max_packs: u64, max_len: usize) -> Asm {
    let n = r.range(1, max_packs);
    let mut ids: Vec<u16> = vec![];
    while (ids.len() as u64) < n {
        let id = match r.below(8) {
            0 => r.range(1, 400) as u16,
            1 => r.range(0, 3) as u16,
            2 if max_packs <= 4 => *pick(r, &[255u16, 256, 65535, 65534]),
            _ => ids.len() as u16 + 1,
        };
        if !ids.contains(&id) {
            ids.push(id);
        }
    }
    let packs: Vec<AsmPack> = ids
        .into_iter()
        .map(|id| AsmPack {
            id,
            comp: gen_comp(r),
            contents: gen_inserts(r, 8, max_len, max_len * 5),
        })
        .collect();
    let nc: usize = packs
        .iter()
        .map(|p| p.contents.iter().map(|i| i.times as usize).sum::<usize>())
        .sum();
    Asm {
        dir: small_dir(r, nc),
        packs,
        dir_id: if r.chance(1, 6) { r.below(5) as u16 } else { 0 },
        free: if r.chance(1, 2) { 0 } else { r.range(1, 1 << 20) as u32 },
    }
}
