//! C14: written bytes follow the documented layout (independent decoder); old files keep reading the same.
use super::*;

use crate::asm::*;
use crate::decoder::{self, Body, Decoded, PropT};
use crate::gen::*;
use crate::model::*;
use crate::read;
use crate::util::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub struct C14;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Case {
    /// through BasicCreator
    Basic(Spec),
    /// through the creators of each pack
    Asm { asm: Asm, one: bool, concat: bool, order: u32 },
    /// reference container number k
    Ref(String),
}

pub fn full_dir(r: &mut Rng, nc: usize, max_entries: usize) -> Dir {
    gen_dir(
        r,
        &DirOpts {
            max_entries,
            ncontents: nc,
            max_array: 300,
            max_estores: 3,
            max_stores: 4,
            max_props: 5,
            ..Default::default()
        },
    )
}

pub fn gen(group: &str, r: &mut Rng) -> Case {
    match group {
        "basic" | "wide" => {
            let contents = if group == "basic" {
                gen_inserts(r, 30, 9000, 60_000)
            } else {
                gen_inserts(r, 300, 400_000, 3_000_000)
            };
            let mut n: usize = contents.iter().map(|i| i.times as usize).sum();
            let me = if group == "basic" { 40 } else { 3000 };
            let mut extra = vec![];
            if r.chance(1, 3) {
                for k in 0..r.range(1, 3) {
                    extra.push(ExtraPack {
                        id: (k as u16 + 1) * *pick(r, &[2u16, 100, 300]) + k as u16,
                        comp: gen_comp(r),
                        contents: gen_inserts(r, 8, 3000, 10_000),
                    });
                }
                let mut ids: Vec<u16> = extra.iter().map(|e| e.id).collect();
                ids.dedup();
                if ids.len() != extra.len() || ids.contains(&1) {
                    extra.clear();
                }
            }
            if n == 0 {
                n = 0;
            }
            Case::Basic(Spec {
                comp: gen_comp(r),
                packaging: gen_packaging(r),
                cached: r.chance(1, 4),
                dir: full_dir(r, n, me),
                contents,
                extra,
            })
        }
        _ => {
            let mut asm = gen_asm(r, 4, 4000);
            if r.chance(1, 2) {
                let n = asm.ncontents() as usize;
                asm.dir = full_dir(r, n, 60);
            }
            Case::Asm {
                asm,
                one: r.chance(1, 2),
                concat: r.chance(1, 2),
                order: r.next() as u32,
            }
        }
    }
}

fn check_schema(dir: &Dir, d: &Decoded) -> Result<(), String> {
    if d.directory.stores.len() != dir.stores.len() {
        return Err(format!("{} value stores instead of {}", d.directory.stores.len(), dir.stores.len()));
    }
    for (k, (w, g)) in dir.stores.iter().zip(&d.directory.stores).enumerate() {
        if *w != matches!(g, decoder::StoreD::Indexed(_)) {
            return Err(format!("value store {k}: wrong kind"));
        }
    }
    if d.directory.estores.len() != dir.estores.len() {
        return Err(format!("{} entry stores instead of {}", d.directory.estores.len(), dir.estores.len()));
    }
    for (k, (w, g)) in dir.estores.iter().zip(&d.directory.estores).enumerate() {
        let same = |ws: &[Prop], gs: &[decoder::PropD]| -> bool {
            let gs: Vec<_> = gs.iter().filter(|p| p.t != PropT::Pad).collect();
            ws.len() == gs.len()
                && ws.iter().zip(gs).all(|(w, g)| {
                    w.name == g.name
                        && match (&w.kind, &g.t) {
                            (PKind::U, PropT::U(..)) | (PKind::S, PropT::S(..)) | (PKind::C, PropT::C { .. }) => true,
                            (PKind::A(n, s), PropT::A { fixed, key, store, .. }) => {
                                *n as usize == *fixed && (*key == 0 || *s as usize == *store)
                            }
                            _ => false,
                        }
                })
        };
        if !same(&w.common, &g.props) {
            return Err(format!("entry store {k}: common properties {:?} stored as {:?}", w.common, g.props));
        }
        if w.variants.len() != g.variants.len() {
            return Err(format!("entry store {k}: {} variants", g.variants.len()));
        }
        for (a, b) in w.variants.iter().zip(&g.variants) {
            if a.0 != b.0 || !same(&a.1, &b.1) {
                return Err(format!("entry store {k}: variant {a:?} stored as {b:?}"));
            }
        }
    }
    for (w, g) in dir.indexes.iter().zip(&d.directory.index_keys) {
        if w.key != *g {
            return Err(format!("index {}: key {} stored as {g}", w.name, w.key));
        }
    }
    Ok(())
}

fn check_stores(dir: &Dir, addrs: &[(u16, u32)], pos: &[Vec<u32>], d: &Decoded) -> Result<(), String> {
    for (s, (es, g)) in dir.estores.iter().zip(&d.directory.estores).enumerate() {
        let want = expect_store(es, addrs, pos, s);
        if want.len() != g.entries.len() {
            return Err(format!("entry store {s}: {} entries instead of {}", g.entries.len(), want.len()));
        }
        for (k, (w, g)) in want.iter().zip(&g.entries).enumerate() {
            if let Some(m) = diff_entry(w, g) {
                return Err(format!("entry store {s} entry {k}: {m}"));
            }
        }
    }
    Ok(())
}

/// Every content of the dump, and nothing else, is decoded.
fn check_dump(want: &Dump, d: &Decoded) -> Result<(), String> {
    let got = d.dump();
    if let Some(m) = diff_dump(want, &got) {
        return Err(m);
    }
    if got.contents.len() != want.contents.len() {
        return Err(format!(
            "{} contents are stored, {} were returned an address",
            got.contents.len(),
            want.contents.len()
        ));
    }
    Ok(())
}

fn tags(d: &Decoded, out: &mut Outcome) {
    for c in d.contents.values() {
        for k in &c.clusters {
            out.tag(match k.comp {
                0 => "raw_cluster",
                1 => "lz4_cluster",
                2 => "lzma_cluster",
                _ => "zstd_cluster",
            });
        }
        if c.clusters.len() > 1 {
            out.tag("several_clusters");
        }
    }
    for e in &d.directory.estores {
        if !e.variants.is_empty() {
            out.tag("variants");
        }
        if e.variants.iter().any(|v| v.1.iter().any(|p| p.t == PropT::Pad)) {
            out.tag("padding");
        }
        for p in e.props.iter().chain(e.variants.iter().flat_map(|v| &v.1)) {
            match p.t {
                PropT::U(_, Some(_)) | PropT::S(_, Some(_)) | PropT::C { default: Some(_), .. } => out.tag("default_value"),
                PropT::A { len: 0, .. } => out.tag("indirect_array"),
                PropT::A { .. } => out.tag("array"),
                _ => {}
            }
        }
    }
}

fn common(d: &Decoded) -> Result<(), String> {
    // distinct identities, one vendor
    let mut us: Vec<[u8; 16]> = vec![];
    for p in std::iter::once(&d.entry).chain(d.files.iter().map(|f| &f.1)) {
        for l in p.leaves() {
            us.push(l.uuid);
            if l.vendor != VENDOR {
                return Err(format!("vendor id {:?} instead of {VENDOR:?}", l.vendor));
            }
        }
        if matches!(p.body, Body::Container(_)) {
            us.push(p.uuid);
        }
    }
    us.sort();
    us.dedup();
    let mut n = 1 + d.manifest.infos.len();
    // containers, counted once per file
    let mut seen: Vec<&Path> = vec![];
    if matches!(d.entry.body, Body::Container(_)) {
        n += 1;
    }
    for (p, f) in &d.files {
        if !seen.contains(&p.as_path()) {
            seen.push(p);
            if matches!(f.body, Body::Container(_)) {
                n += 1;
            }
        }
    }
    if us.len() != n {
        return Err(format!("{} distinct pack identities for {n} packs", us.len()));
    }
    Ok(())
}

fn run_basic(spec: &Spec, dir: &Path) -> Outcome {
    let inputs = dir.join("in");
    std::fs::create_dir_all(&inputs).unwrap();
    let path = dir.join("c.jbk");
    let b = match build(spec, &path, &inputs) {
        Ok(b) => b,
        Err(e) => return Outcome::failed("create", e),
    };
    let d = match decoder::decode_all(&path, false) {
        Ok(d) => d,
        Err(e) => return Outcome::failed("layout", format!("the independent decoder refuses the written file: {e}")),
    };
    let want = expect_dump(spec, &b);
    let mut out = Outcome::pass();
    let r = check_dump(&want, &d)
        .and_then(|_| check_stores(&spec.dir, &b.addrs, &b.positions, &d))
        .and_then(|_| check_schema(&spec.dir, &d))
        .and_then(|_| common(&d));
    if let Err(e) = r {
        return Outcome::failed("decoded", format!("decoded independently: {e}"));
    }
    out.tag(spec.packaging.name());
    tags(&d, &mut out);
    out.nontrivial = !want.contents.is_empty() && want.indexes.iter().any(|i| !i.entries.is_empty());
    out.evals = (want.contents.len() + want.indexes.iter().map(|i| i.entries.len()).sum::<usize>()) as u64 + 1;
    out
}

pub fn layout_one(asm: &Asm, concat: bool, order: u32) -> Vec<Part> {
    let mut parts = asm.parts();
    let _ = concat;
    Rng::new(order as u64).shuffle(&mut parts);
    parts
}

fn run_asm(asm: &Asm, one: bool, concat: bool, order: u32, dir: &Path) -> Outcome {
    let mut m = match make(asm, dir) {
        Ok(m) => m,
        Err(e) => return Outcome::failed("create", e),
    };
    let parts = layout_one(asm, concat, order);
    let listed: Vec<Part> = parts.iter().copied().filter(|p| *p != Part::M).collect();
    let name = |p: Part| match p {
        Part::M => "m.jbkm".to_string(),
        Part::D => "d.jbkd".into(),
        Part::P(n) => format!("c{n}.jbkc"),
    };
    let loc = |p: Part| if one { String::new() } else { name(p) };
    if let Err(e) = m.manifest(dir, &listed, &loc) {
        return Outcome::failed("create", e);
    }
    let outd = dir.join("out");
    std::fs::create_dir_all(&outd).unwrap();
    let files: Vec<FileL> = if one {
        vec![FileL {
            name: "m.jbkm".into(),
            parts: parts.clone(),
            container: true,
            prefix: 0,
            text: false,
            concat,
        }]
    } else {
        parts
            .iter()
            .map(|p| FileL {
                name: name(*p),
                parts: vec![*p],
                container: concat,
                prefix: 0,
                text: false,
                concat: false,
            })
            .collect()
    };
    for f in &files {
        if let Err(e) = m.write_file(f, &outd) {
            return Outcome::failed("create", e);
        }
    }
    let d = match decoder::decode_all(&outd.join("m.jbkm"), legacy()) {
        Ok(d) => d,
        Err(e) => return Outcome::failed("layout", format!("the independent decoder refuses the written file: {e}")),
    };
    let want = asm.expect(&m);
    let mut out = Outcome::pass();
    let frees = || -> Result<(), String> {
        if d.manifest.free != m.manifest_free {
            return Err("free data of the manifest".into());
        }
        if d.directory.free != free24(asm.free, 3000) {
            return Err("free data of the directory pack".into());
        }
        for (n, p) in asm.packs.iter().enumerate() {
            if d.contents.get(&p.id).map(|c| c.free.clone()) != Some(free24(asm.free, n as u32).to_vec()) {
                return Err(format!("free data of content pack {}", p.id));
            }
        }
        if d.manifest.infos.len() != listed.len() {
            return Err(format!("{} packs listed instead of {}", d.manifest.infos.len(), listed.len()));
        }
        for (i, p) in d.manifest.infos.iter().zip(&listed) {
            let pd = &m.pd[p];
            let id = match p {
                Part::P(n) => *n,
                _ => asm.dir_id,
            };
            if &i.uuid != pd.uuid.as_bytes() || i.id != id || i.free != m.pack_free[p] || i.location != loc(*p) || i.group != 0 {
                return Err(format!("description of pack {p:?}: {i:?}"));
            }
        }
        Ok(())
    };
    let r = check_dump(&want, &d)
        .and_then(|_| check_stores(&asm.dir, &m.addrs, &m.positions, &d))
        .and_then(|_| check_schema(&asm.dir, &d))
        .and_then(|_| {
            // containers have no vendor of their own
            Ok(())
        })
        .and_then(|_| frees().map_err(|e| format!("wrong {e}")));
    if let Err(e) = r {
        return Outcome::failed("decoded", format!("decoded independently: {e}"));
    }
    out.tag(if one { "asm_one_file" } else { "asm_separate" });
    tags(&d, &mut out);
    out.nontrivial = !want.contents.is_empty() && want.indexes.iter().any(|i| !i.entries.is_empty());
    out.evals = (want.contents.len() + want.indexes.iter().map(|i| i.entries.len()).sum::<usize>()) as u64 + 1;
    out
}

// ------------------------------------------------------------------ reference containers

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct RefInfo {
    pub entry: String,
    pub what: String,
    pub dump: Dump,
    /// pack id, kind, location, uuid
    pub packs: Vec<(u16, u8, String, String)>,
    /// number of contents per pack
    pub counts: BTreeMap<u16, u32>,
    /// variant names of the store of each index
    pub variants: Vec<Vec<String>>,
}

pub fn corpus() -> PathBuf {
    let v = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    Path::new(&v).join("corpus/ref")
}

fn run_ref(name: &str) -> Outcome {
    let dir = corpus().join(name);
    let info: RefInfo = match std::fs::read(dir.join("expect.json")).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(i) => i,
        Err(e) => {
            return Outcome {
                error: Some(format!("reference container {name}: {e}")),
                evals: 1,
                ..Default::default()
            }
        }
    };
    let path = dir.join(&info.entry);
    let r = || -> Result<(), String> {
        read::verify(&path, &info.dump, true)?;
        let c = read::open(&path)?;
        if c.pack_count().into_u16() as usize != info.packs.len() {
            return Err(format!("{} packs instead of {}", c.pack_count().into_u16(), info.packs.len()));
        }
        for (id, n) in &info.counts {
            match c.get_pack((*id).into()) {
                Ok(Some(jubako::reader::MayMissPack::FOUND(p))) => {
                    if p.get_content_count().into_u32() != *n {
                        return Err(format!("pack {id}: {} contents instead of {n}", p.get_content_count().into_u32()));
                    }
                }
                _ => return Err(format!("pack {id} is not readable")),
            }
            match read::get_bytes(&c, (*id, *n)) {
                Ok(read::Got::NoContent) => {}
                _ => return Err(format!("content {n} of pack {id} does not answer 'no such content'")),
            }
        }
        Ok(())
    };
    if let Err(e) = r() {
        return Outcome::failed("reference", format!("reference container {name} ({}): {e}", info.what));
    }
    // the decoder reads it too: it is not fitted to the current writer
    match decoder::decode_all(&path, true) {
        Ok(d) => {
            if let Err(e) = check_dump(&info.dump, &d) {
                return Outcome {
                    error: Some(format!("the decoder disagrees with reference container {name}: {e}")),
                    evals: 1,
                    ..Default::default()
                };
            }
        }
        Err(e) => {
            return Outcome {
                error: Some(format!("the decoder refuses reference container {name}: {e}")),
                evals: 1,
                ..Default::default()
            }
        }
    }
    let mut out = Outcome::pass();
    out.tag("reference_container");
    out.nontrivial = true;
    out.evals = (info.dump.contents.len() + info.dump.indexes.iter().map(|i| i.entries.len()).sum::<usize>()) as u64 + 1;
    out
}

fn ref_names() -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(corpus())
        .map(|d| d.filter_map(|e| e.ok()?.file_name().into_string().ok()).collect())
        .unwrap_or_default();
    v.sort();
    v
}

/// set when writing reference containers with the pinned version
fn legacy() -> bool {
    std::env::var("JBKVERIF_LEGACY").is_ok()
}

/// Writes reference containers with the library this harness is built against.
pub fn mkref(out: &Path, count: u64) {
    let mut r = Rng::new(20261119);
    let mut done = 0;
    let mut k = 0;
    while done < count {
        k += 1;
        let mut c = gen(if k % 3 == 0 { "asm" } else { "basic" }, &mut r);
        // small ones
        match &mut c {
            Case::Basic(s) => {
                let n = gen_inserts(&mut r, 12, 2500, 9000);
                s.contents = n;
                s.dir = full_dir(&mut r, s.contents.iter().map(|i| i.times as usize).sum(), 25);
            }
            Case::Asm { .. } => {}
            _ => {}
        }
        let tmp = scratch_root().join("mkref");
        let _ = std::fs::remove_dir_all(&tmp);
        std::fs::create_dir_all(&tmp).unwrap();
        let (entry, want, what): (PathBuf, Dump, String) = match &c {
            Case::Basic(s) => {
                let inputs = tmp.join("in");
                std::fs::create_dir_all(&inputs).unwrap();
                let outd = tmp.join("out");
                std::fs::create_dir_all(&outd).unwrap();
                let path = outd.join("c.jbk");
                let Ok(Ok(b)) = guard(|| build(s, &path, &inputs)) else { continue };
                (path, expect_dump(s, &b), format!("BasicCreator, {}, {:?}", s.packaging.name(), s.comp))
            }
            Case::Asm { asm, one, concat, order } => {
                let Ok(o) = guard(|| run_asm(asm, *one, *concat, *order, &tmp)) else { continue };
                if o.fail.is_some() {
                    println!("skip {:?}", o.fail);
                    continue;
                }
                let p = tmp.join("out/m.jbkm");
                let d = decoder::decode_all(&p, legacy()).unwrap();
                (p, d.dump(), format!("assembled, one file: {one}, {} packs", asm.packs.len()))
            }
            _ => continue,
        };
        let d = match decoder::decode_all(&entry, legacy()) {
            Ok(d) => d,
            Err(e) => {
                println!("skip: {e}");
                continue;
            }
        };
        if let Err(e) = check_dump(&want, &d) {
            println!("skip: {e}");
            continue;
        }
        // (the pinned reader does not read all its own packagings: the decoder's word is enough)
        if let Err(e) = guard(|| read::verify(&entry, &want, true)).and_then(|x| x) {
            println!("{done}: not read back: {e}");
        }
        let o = out.join(format!("{done:03}"));
        std::fs::create_dir_all(&o).unwrap();
        for f in std::fs::read_dir(entry.parent().unwrap()).unwrap() {
            let f = f.unwrap();
            if f.path().is_file() {
                std::fs::copy(f.path(), o.join(f.file_name())).unwrap();
            }
        }
        let info = RefInfo {
            entry: entry.file_name().unwrap().to_str().unwrap().into(),
            what,
            packs: d
                .manifest
                .infos
                .iter()
                .map(|i| (i.id, i.kind, i.location.clone(), hex(&i.uuid)))
                .collect(),
            counts: d.contents.iter().map(|(k, c)| (*k, c.contents.len() as u32)).collect(),
            variants: want
                .indexes
                .iter()
                .map(|i| d.directory.estores[i.store as usize].variants.iter().map(|v| v.0.clone()).collect())
                .collect(),
            dump: want,
        };
        std::fs::write(o.join("expect.json"), serde_json::to_vec(&info).unwrap()).unwrap();
        done += 1;
    }
}

impl Check for C14 {
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when the decoded container holds at least one content and one entry; one evaluation = one decoded entry or content compared with what was written".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the layout is the one of spec/*.rst, with the details the text leaves out or has wrong (CRC polynomial, table order, store tails) taken from files of the pinned version".into(),
            "bytes belonging to no block are not constrained; no two blocks may overlap".into(),
            "lz4, xz2 and zstd codec crates and blake3 are trusted".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("ref", ref_names().len() as u64),
            Group::new("basic", t.n(20_000, 400_000)),
            Group::new("asm", t.n(15_000, 300_000)),
            Group::new("wide", t.n(400, 8000)).par(4),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        if g == "ref" {
            let n = ref_names()[i as usize].clone();
            return from_rng(move |_| Case::Ref(n.clone()));
        }
        from_rng(move |r| gen(&g, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        match case!(json) {
            Case::Basic(s) => run_basic(&s, &ctx.dir),
            Case::Asm {
                asm,
                one,
                concat,
                order,
            } => run_asm(&asm, one, concat, order, &ctx.dir),
            Case::Ref(n) => run_ref(&n),
        }
    }
    fn valid(&self, json: &str) -> bool {
        match serde_json::from_str::<Case>(json) {
            Ok(Case::Basic(s)) => s.valid(),
            Ok(Case::Asm { asm, .. }) => asm.valid(),
            Ok(Case::Ref(_)) => true,
            Err(_) => false,
        }
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        let v: Vec<Case> = match c {
            Case::Basic(s) => s.dir.smaller().into_iter().map(|dir| Case::Basic(Spec { dir, ..s.clone() })).collect(),
            Case::Asm {
                asm,
                one,
                concat,
                order,
            } => asm
                .smaller()
                .into_iter()
                .map(|asm| Case::Asm {
                    asm,
                    one,
                    concat,
                    order,
                })
                .collect(),
            _ => vec![],
        };
        v.iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
