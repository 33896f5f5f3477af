//! C10: a container reads the same however its packs are packaged.
use super::*;

use crate::asm::*;
use crate::gen::*;
use crate::model::*;
use crate::read;
use crate::util::*;
use jubako as jbk;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};

pub struct C10;

/// Where a part which is in the entry file is said to be.
#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Said {
    Empty,
    /// no such file
    Nowhere,
    /// a file holding a pack of the same identity and other bytes
    Decoy,
    /// a file holding another pack
    Foreign,
    /// a file which is no pack at all
    Garbage,
    /// a directory
    Folder,
    /// the entry file itself
    Itself,
}

/// One packaging of the container. files[0] is the entry point.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Layout {
    pub files: Vec<FileL>,
    /// order of the packs in the manifest (shuffle seed)
    pub order: u32,
    /// recorded location of the parts held by the entry file
    pub said: Vec<(Part, Said)>,
    /// remove the original file of parts which are in the entry file too
    #[serde(default)]
    pub decoy_seed: u32,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    /// several packagings of the same packs
    Asm { asm: Asm, layouts: Vec<Layout> },
    /// made by BasicCreator, then re-assembled with the concat tool (twice for nested ones), then embedded
    Basic {
        spec: Spec,
        /// shuffle of the files given to concat
        order: u32,
        /// concat in two steps
        nested: bool,
        prefix: u32,
        text: bool,
    },
}

fn gen_prefix(r: &mut Rng) -> u32 {
    match r.below(6) {
        0 => r.range(1, 70) as u32,
        1 => *pick(r, &[1u32, 3, 59, 60, 63, 64, 65, 127, 128, 4095, 4096, 4097]),
        2 => r.range(1, 70_000) as u32,
        _ => 0,
    }
}

fn gen_fname(r: &mut Rng, k: usize, ext: &str) -> String {
    match r.below(8) {
        0 => format!("sub/f{k}.{ext}"),
        1 => format!("a b/é{k}/x.{ext}"),
        2 => format!("{}{k}.{ext}", "n".repeat(r.range(1, 150) as usize)),
        3 => format!("f{k}"),
        4 => format!("deep/er/and/deeper/p{k}.{ext}"),
        _ => format!("p{k}.{ext}"),
    }
}

pub fn gen_layout(r: &mut Rng, asm: &Asm) -> Layout {
    let parts = asm.parts();
    // each part goes to a file; the entry file is 0
    let nfiles = r.range(1, parts.len() as u64) as usize;
    let mut files: Vec<FileL> = (0..nfiles)
        .map(|k| FileL {
            name: if k == 0 {
                if r.chance(1, 4) {
                    "entry".into()
                } else {
                    "e.jbk".into()
                }
            } else {
                gen_fname(r, k, "jbkc")
            },
            parts: vec![],
            container: true,
            prefix: gen_prefix(r),
            text: r.chance(1, 2),
            concat: r.chance(1, 2),
        })
        .collect();
    files[0].parts.push(Part::M);
    for p in &parts {
        if *p == Part::M {
            continue;
        }
        let k = r.below(nfiles as u64) as usize;
        files[k].parts.push(*p);
        // also elsewhere
        if nfiles > 1 && r.chance(1, 10) {
            let o = r.below(nfiles as u64) as usize;
            if !files[o].parts.contains(p) {
                files[o].parts.push(*p);
            }
        }
    }
    let mut files: Vec<FileL> = files.into_iter().filter(|f| !f.parts.is_empty()).collect();
    for f in &mut files {
        r.shuffle(&mut f.parts);
        if f.parts.len() == 1 && r.chance(1, 2) {
            f.container = false;
            f.concat = false;
        }
    }
    let said = files[0]
        .parts
        .iter()
        .map(|p| {
            (
                *p,
                *pick(
                    r,
                    &[
                        Said::Empty,
                        Said::Empty,
                        Said::Nowhere,
                        Said::Decoy,
                        Said::Decoy,
                        Said::Foreign,
                        Said::Garbage,
                        Said::Folder,
                        Said::Itself,
                    ],
                ),
            )
        })
        .collect();
    Layout {
        files,
        order: r.next() as u32,
        said,
        decoy_seed: r.next() as u32,
    }
}

fn one_file(asm: &Asm, prefix: u32) -> Layout {
    Layout {
        files: vec![FileL {
            name: "one.jbk".into(),
            parts: asm.parts(),
            container: true,
            prefix,
            text: false,
            concat: false,
        }],
        order: 0,
        said: vec![],
        decoy_seed: 0,
    }
}

fn separate(asm: &Asm, prefix: u32) -> Layout {
    Layout {
        files: asm
            .parts()
            .into_iter()
            .enumerate()
            .map(|(k, p)| FileL {
                name: format!("s{k}.jbk"),
                parts: vec![p],
                container: false,
                prefix,
                text: true,
                concat: false,
            })
            .collect(),
        order: 0,
        said: vec![],
        decoy_seed: 0,
    }
}

fn content_separate(asm: &Asm, prefix: u32) -> Layout {
    let mut l = separate(asm, prefix);
    l.files.remove(0);
    l.files[0] = FileL {
        name: "e.jbk".into(),
        parts: vec![Part::M, Part::D],
        container: true,
        prefix,
        text: false,
        concat: true,
    };
    l
}

pub fn gen(group: &str, r: &mut Rng) -> Case {
    match group {
        "basic" => {
            let mut spec = small_spec(r);
            if r.chance(1, 3) {
                for k in 0..r.range(1, 2) {
                    spec.extra.push(ExtraPack {
                        id: 2 + k as u16,
                        comp: gen_comp(r),
                        contents: gen_inserts(r, 5, 2000, 6000),
                    });
                }
            }
            Case::Basic {
                spec,
                order: r.next() as u32,
                nested: r.chance(1, 2),
                prefix: gen_prefix(r),
                text: r.chance(1, 2),
            }
        }
        _ => {
            let asm = match group {
                "many" => gen_asm(r, 40, 200),
                _ => gen_asm(r, 4, 4000),
            };
            let mut layouts = vec![];
            let p = gen_prefix(r);
            match r.below(4) {
                0 => layouts.push(one_file(&asm, p)),
                1 => layouts.push(separate(&asm, p)),
                2 => layouts.push(content_separate(&asm, p)),
                _ => {}
            }
            for _ in 0..3 {
                layouts.push(gen_layout(r, &asm));
            }
            Case::Asm { asm, layouts }
        }
    }
}

/// The rest of the answers of the reader: unknown packs, past-end contents, pack list.
pub fn check_edges(c: &jbk::reader::Container, asm: &Asm) -> Result<(), String> {
    let mut counts: BTreeMap<u16, u32> = BTreeMap::new();
    for p in &asm.packs {
        counts.insert(p.id, p.contents.iter().map(|i| i.times).sum());
    }
    if c.pack_count().into_u16() as usize != asm.packs.len() + 1 {
        return Err(format!("{} packs instead of {}", c.pack_count().into_u16(), asm.packs.len() + 1));
    }
    let mut ids: BTreeSet<u16> = counts.keys().flat_map(|i| [i.wrapping_sub(1), *i, i.wrapping_add(1)]).collect();
    ids.extend([0, 1, 2, 3, 255, 256, 400, 65535]);
    for id in ids {
        match (counts.get(&id), c.get_pack(id.into()).map_err(|e| format!("pack {id}: {e}"))?) {
            (None, None) => {}
            (None, Some(_)) => return Err(format!("unknown pack {id} is answered")),
            (Some(n), Some(jbk::reader::MayMissPack::FOUND(p))) => {
                if p.get_content_count().into_u32() != *n {
                    return Err(format!("pack {id}: {} contents instead of {n}", p.get_content_count().into_u32()));
                }
                match read::get_bytes(c, (id, *n)).map_err(|e| format!("content {n} of pack {id}: {e}"))? {
                    read::Got::NoContent => {}
                    _ => return Err(format!("content {n} of pack {id} does not answer 'no such content'")),
                }
            }
            (Some(_), Some(_)) => return Err(format!("pack {id} is reported missing")),
            (Some(_), None) => return Err(format!("pack {id} is unknown")),
        }
    }
    Ok(())
}

fn write_decoy(m: &Made, asm: &Asm, p: Part, said: Said, to: &Path, seed: u32) -> Result<(), String> {
    let e = |x: &dyn std::fmt::Display| format!("decoy: {x}");
    std::fs::create_dir_all(to.parent().unwrap()).map_err(|x| e(&x))?;
    match said {
        Said::Decoy => {
            // same identity, other content: a pack made of other bytes with that uuid
            let b = std::fs::read(&m.files[&p]).map_err(|x| e(&x))?;
            let mut r = Rng::new(seed as u64);
            let mut o = b.clone();
            match r.below(3) {
                0 if b.len() > 200 => {
                    // everything between the header and the tail
                    let n = o.len();
                    for x in &mut o[64..n - 64] {
                        *x = r.next() as u8;
                    }
                }
                1 => o.truncate(64),
                _ => {
                    let n = o.len() as u64;
                    for _ in 0..8 {
                        o[64 + r.below(n - 64) as usize] ^= 1 << r.below(8);
                    }
                }
            }
            std::fs::write(to, o).map_err(|x| e(&x))?;
        }
        Said::Foreign => {
            match asm.parts().into_iter().find(|o| *o != p && *o != Part::M) {
                Some(other) => {
                    std::fs::copy(&m.files[&other], to).map_err(|x| e(&x))?;
                }
                None => std::fs::write(to, b"").map_err(|x| e(&x))?,
            }
        }
        Said::Garbage => std::fs::write(to, b"certainly not a pack").map_err(|x| e(&x))?,
        Said::Folder => std::fs::create_dir_all(to).map_err(|x| e(&x))?,
        _ => {}
    }
    Ok(())
}

/// Puts that packaging in `out`; returns the entry path.
pub fn place(m: &mut Made, asm: &Asm, l: &Layout, work: &Path, out: &Path) -> Result<PathBuf, String> {
    let mut loc: BTreeMap<Part, String> = BTreeMap::new();
    for f in &l.files {
        for p in &f.parts {
            // (any of the files holding it)
            loc.insert(*p, f.name.clone());
        }
    }
    for (n, p) in l.files[0].parts.iter().enumerate() {
        let said = l.said.iter().find(|s| s.0 == *p).map(|s| s.1).unwrap_or(Said::Empty);
        let name = format!("said/d{n}");
        loc.insert(
            *p,
            match said {
                Said::Empty => String::new(),
                Said::Itself => l.files[0].name.clone(),
                _ => name.clone(),
            },
        );
        if !matches!(p, Part::M) {
            write_decoy(m, asm, *p, said, &out.join(&name), l.decoy_seed.wrapping_add(n as u32))?;
        }
    }
    let mut order: Vec<Part> = asm.parts().into_iter().filter(|p| *p != Part::M).collect();
    if l.order != 0 {
        Rng::new(l.order as u64).shuffle(&mut order);
    }
    m.manifest(work, &order, &|p| loc[&p].clone())?;
    for f in &l.files {
        m.write_file(f, out)?;
    }
    Ok(out.join(&l.files[0].name))
}

fn run_asm(asm: &Asm, layouts: &[Layout], ctx: &Ctx) -> Outcome {
    let mut out = Outcome::pass();
    out.evals = 0;
    let work = ctx.sub("work");
    let mut m = match make(asm, &work) {
        Ok(m) => m,
        Err(e) => return Outcome::failed("create", e),
    };
    let want = asm.expect(&m);
    for (n, l) in layouts.iter().enumerate() {
        ctx.step(n as u64);
        let dir = ctx.sub(&format!("out{n}"));
        let path = match place(&mut m, asm, l, &work, &dir) {
            Ok(p) => p,
            Err(e) => return Outcome::failed("package", e),
        };
        let r = || -> Result<(), (&'static str, String)> {
            read::verify(&path, &want, true).map_err(|e| ("differs", e))?;
            let c = read::open(&path).map_err(|e| ("open", e))?;
            check_edges(&c, asm).map_err(|e| ("edges", e))?;
            if c.uuid() != m.uuid(Part::M) {
                return Err(("uuid", "the container is not identified as its manifest".into()));
            }
            // the tool sees the packs of each file that is not embedded
            for f in l.files.iter().filter(|f| f.prefix == 0) {
                let cp = jbk::tools::open_pack(dir.join(&f.name)).map_err(|e| ("open_pack", e.to_string()))?;
                let got: BTreeSet<uuid::Uuid> = cp.iter().map(|x| *x.0).collect();
                let w: BTreeSet<uuid::Uuid> = f.parts.iter().map(|p| m.uuid(*p)).collect();
                if got != w {
                    return Err(("open_pack", format!("{}: packs {got:?} instead of {w:?}", f.name)));
                }
                if !cp.check().map_err(|e| ("check", format!("{}: {e}", f.name)))? {
                    return Err(("check", format!("{} does not pass its check", f.name)));
                }
            }
            Ok(())
        }();
        if let Err((s, e)) = r {
            return Outcome::failed(s, format!("packaging {n} ({}): {e}", describe(l)));
        }
        out.evals += want.contents.len() as u64 + want.indexes.iter().map(|i| i.entries.len() as u64).sum::<u64>();
        out.tag(match l.files.len() {
            1 => "one_file",
            n if n == asm.packs.len() + 2 => "every_pack_separate",
            _ => "several_files",
        });
        for f in &l.files {
            if f.prefix > 0 {
                out.tag("embedded");
            }
            if f.concat {
                out.tag("concatenated");
            }
            if !f.container {
                out.tag("bare_pack");
            }
        }
        for (p, s) in &l.said {
            if *p != Part::M && *s != Said::Empty {
                out.tag("location_must_not_be_followed");
            }
        }
    }
    out.nontrivial = layouts.len() >= 2 && !want.contents.is_empty();
    out.evals = out.evals.max(1);
    out
}

fn describe(l: &Layout) -> String {
    l.files
        .iter()
        .map(|f| {
            format!(
                "{}{}{:?}",
                if f.prefix > 0 { format!("{} bytes + ", f.prefix) } else { String::new() },
                if f.container {
                    if f.concat {
                        "concat"
                    } else {
                        "container"
                    }
                } else {
                    "bare"
                },
                f.parts
            )
        })
        .collect::<Vec<_>>()
        .join(", ")
}

fn run_basic(spec: &Spec, order: u32, nested: bool, prefix: u32, text: bool, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::pass();
    let inputs = ctx.sub("in");
    let dir = ctx.sub("made");
    let path = dir.join("c.jbk");
    let b = match build(spec, &path, &inputs) {
        Ok(b) => b,
        Err(e) => return Outcome::failed("create", e),
    };
    let want = expect_dump(spec, &b);
    if let Err(e) = read::verify(&path, &want, true) {
        return Outcome::failed("differs", format!("{}: {e}", spec.packaging.name()));
    }
    let mut files: Vec<PathBuf> = std::fs::read_dir(&dir).unwrap().map(|f| f.unwrap().path()).collect();
    files.sort();
    let nfiles = files.len();
    Rng::new(order as u64).shuffle(&mut files);
    let other = ctx.sub("other");
    let joined = other.join("joined.jbk");
    let r = || -> Result<(), String> {
        if nested && files.len() > 1 {
            let k = 1 + order as usize % (files.len() - 1);
            let part = other.join("part.jbk");
            jbk::tools::concat(&files[..k], utf8(&part)).map_err(|e| format!("concat: {e}"))?;
            let mut rest: Vec<PathBuf> = files[k..].to_vec();
            if order % 3 == 0 {
                rest.push(part);
            } else {
                rest.insert(0, part);
            }
            jbk::tools::concat(&rest, utf8(&joined)).map_err(|e| format!("concat: {e}"))?;
        } else {
            jbk::tools::concat(&files, utf8(&joined)).map_err(|e| format!("concat: {e}"))?;
        }
        Ok(())
    };
    if let Err(e) = r() {
        return Outcome::failed("concat", e);
    }
    // alone in its directory: nothing else to find
    let alone = ctx.sub("alone").join("x.jbk");
    std::fs::rename(&joined, &alone).unwrap();
    if let Err(e) = read::verify(&alone, &want, true) {
        return Outcome::failed("differs", format!("{} then concatenated: {e}", spec.packaging.name()));
    }
    if prefix > 0 {
        let fill = if text { Fill::Text } else { Fill::Rand };
        let emb = ctx.sub("emb").join("host");
        let mut f = std::fs::File::create(&emb).unwrap();
        f.write_all(&Blob::new(prefix as usize, fill.clone(), prefix).bytes()).unwrap();
        f.write_all(&std::fs::read(&alone).unwrap()).unwrap();
        drop(f);
        if let Err(e) = read::verify(&emb, &want, true) {
            return Outcome::failed("differs", format!("concatenated then embedded after {prefix} bytes: {e}"));
        }
        // each file of the packaging embedded, at the same place
        let dir2 = ctx.sub("made2");
        for f in &files {
            let mut o = std::fs::File::create(dir2.join(f.file_name().unwrap())).unwrap();
            o.write_all(&Blob::new(prefix as usize, fill.clone(), prefix + 1).bytes()).unwrap();
            o.write_all(&std::fs::read(f).unwrap()).unwrap();
        }
        if let Err(e) = read::verify(&dir2.join("c.jbk"), &want, true) {
            return Outcome::failed("differs", format!("{} with each file embedded after {prefix} bytes: {e}", spec.packaging.name()));
        }
        out.tag("embedded");
    }
    out.tag(format!("{}_then_concatenated", spec.packaging.name()));
    if nested && nfiles > 1 {
        out.tag("nested_concat");
    }
    out.nontrivial = !want.contents.is_empty();
    out.evals = (want.contents.len() as u64 + want.indexes.iter().map(|i| i.entries.len() as u64).sum::<u64>()) * 2 + 1;
    out
}

impl Check for C10 {
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when the container has contents and at least two packagings of it are read; one evaluation = one entry or content compared in one packaging".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "foreign bytes in front of an embedded container do not start with the magic of a pack".into(),
            "uuids are unique".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("asm", t.n(20_000, 400_000)),
            Group::new("basic", t.n(10_000, 200_000)),
            Group::new("many", t.n(600, 12000)).par(4),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, _i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        match case!(json) {
            Case::Asm { asm, layouts } => run_asm(&asm, &layouts, ctx),
            Case::Basic {
                spec,
                order,
                nested,
                prefix,
                text,
            } => run_basic(&spec, order, nested, prefix, text, ctx),
        }
    }
    fn valid(&self, json: &str) -> bool {
        match serde_json::from_str::<Case>(json) {
            Ok(Case::Asm { asm, layouts }) => {
                asm.valid()
                    && layouts.iter().all(|l| {
                        !l.files.is_empty()
                            && l.files[0].parts.contains(&Part::M)
                            && asm.parts().iter().all(|p| l.files.iter().any(|f| f.parts.contains(p)))
                            && l.files.iter().all(|f| {
                                !f.parts.is_empty()
                                    && (f.container || f.parts.len() == 1)
                                    && f.parts.iter().all(|p| asm.parts().contains(p))
                            })
                    })
            }
            Ok(Case::Basic { spec, .. }) => spec.valid(),
            Err(_) => false,
        }
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        let mut v: Vec<Case> = vec![];
        match c {
            Case::Asm { asm, layouts } => {
                if layouts.len() > 1 {
                    for l in &layouts {
                        v.push(Case::Asm {
                            asm: asm.clone(),
                            layouts: vec![l.clone()],
                        });
                    }
                }
                for a in asm.smaller() {
                    v.push(Case::Asm {
                        asm: a,
                        layouts: layouts.clone(),
                    });
                }
                for k in 0..layouts.len() {
                    let l = &layouts[k];
                    let mut put = |l: Layout| {
                        let mut ls = layouts.clone();
                        ls[k] = l;
                        v.push(Case::Asm {
                            asm: asm.clone(),
                            layouts: ls,
                        });
                    };
                    for f in 0..l.files.len() {
                        if l.files[f].prefix > 0 {
                            let mut m = l.clone();
                            m.files[f].prefix = 0;
                            put(m);
                        }
                        if l.files[f].prefix > 1 {
                            let mut m = l.clone();
                            m.files[f].prefix = 1;
                            put(m);
                        }
                        if l.files[f].concat {
                            let mut m = l.clone();
                            m.files[f].concat = false;
                            put(m);
                        }
                    }
                    for s in 0..l.said.len() {
                        if l.said[s].1 != Said::Empty {
                            let mut m = l.clone();
                            m.said[s].1 = Said::Empty;
                            put(m);
                        }
                    }
                    if l.order != 0 {
                        put(Layout { order: 0, ..l.clone() });
                    }
                }
            }
            Case::Basic {
                spec,
                order,
                nested,
                prefix,
                text,
            } => {
                for dir in spec.dir.smaller() {
                    v.push(Case::Basic {
                        spec: Spec { dir, ..spec.clone() },
                        order,
                        nested,
                        prefix,
                        text,
                    });
                }
                if prefix > 0 {
                    v.push(Case::Basic {
                        spec: spec.clone(),
                        order,
                        nested,
                        prefix: 0,
                        text,
                    });
                }
                if nested {
                    v.push(Case::Basic {
                        spec,
                        order,
                        nested: false,
                        prefix,
                        text,
                    });
                }
            }
        }
        v.iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
