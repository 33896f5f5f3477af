//! C11: an unavailable pack is reported missing, and everything else still reads.
use super::c10::{gen_layout, place, Layout};
use super::*;

use crate::asm::*;
use crate::gen::*;
use crate::model::*;
use crate::read;
use crate::util::*;
use jubako as jbk;
use jubako::reader::MayMissPack;
use jubako::Pack;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

pub struct C11;

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum How {
    /// no file at the location
    Absent,
    /// no location
    NoLocation,
    /// a directory there
    Folder,
    /// its parent directory does not exist
    NoParent,
    /// the file there is a bare pack of another identity
    Foreign,
    /// the file there is a container of other packs
    ForeignContainer,
    /// dangling symbolic link
    Dangling,
    /// a path going through a regular file
    Through,
}
const HOWS: &[How] = &[
    How::Absent,
    How::NoLocation,
    How::Folder,
    How::NoParent,
    How::Foreign,
    How::ForeignContainer,
    How::Dangling,
    How::Through,
];

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub asm: Asm,
    /// packaging of the packs which are present
    pub layout: Layout,
    pub missing: Vec<(u16, How)>,
    /// order of accesses (seed)
    pub accesses: u32,
    /// alter the pack of that rank among the present ones, to see that check looks at it
    pub harm: Option<(u32, u32)>,
}

pub fn gen(group: &str, r: &mut Rng) -> Case {
    let mut asm = match group {
        "many" => gen_asm(r, 30, 200),
        _ => gen_asm(r, 6, 3000),
    };
    if asm.packs.iter().all(|p| p.contents.is_empty()) {
        asm.packs[0].contents = vec![Insert {
            blob: Blob::new(r.range(1, 2000) as usize, gen_fill(r), 3),
            hint: gen_hint(r),
            src: Src::Mem,
            times: r.range(1, 5) as u32,
        }];
    }
    let all: Vec<u16> = asm.packs.iter().map(|p| p.id).collect();
    let mut missing: Vec<(u16, How)> = vec![];
    let den = r.range(1, 4);
    for id in &all {
        if r.chance(1, den) {
            missing.push((*id, *pick(r, HOWS)));
        }
    }
    if missing.is_empty() && r.chance(9, 10) {
        missing.push((*pick(r, &all), *pick(r, HOWS)));
    }
    let mut there = asm.clone();
    there.packs.retain(|p| !missing.iter().any(|m| m.0 == p.id));
    let layout = gen_layout(r, &there);
    let harm = if r.chance(1, 3) { Some((r.next() as u32, r.next() as u32)) } else { None };
    Case {
        asm,
        layout,
        missing,
        accesses: r.next() as u32,
        harm,
    }
}

fn run_case(c: &Case, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::pass();
    let work = ctx.sub("work");
    let dir = ctx.sub("out");
    let asm = &c.asm;
    let mut m = match make(asm, &work) {
        Ok(m) => m,
        Err(e) => return Outcome::failed("create", e),
    };
    let want = asm.expect(&m);
    let gone: BTreeMap<u16, How> = c.missing.iter().copied().collect();
    // the present packs are placed by the same code as in C10, the manifest then says more
    let mut there = asm.clone();
    there.packs.retain(|p| !gone.contains_key(&p.id));
    let mut loc: BTreeMap<Part, String> = BTreeMap::new();
    for (n, (id, how)) in c.missing.iter().enumerate() {
        let l = match how {
            How::Absent => format!("gone{n}.jbkc"),
            How::NoLocation => String::new(),
            How::Folder => {
                std::fs::create_dir_all(dir.join(format!("folder{n}"))).unwrap();
                format!("folder{n}")
            }
            How::NoParent => format!("no/such/place{n}.jbkc"),
            How::Foreign => {
                std::fs::copy(&m.files[&Part::D], dir.join(format!("foreign{n}.jbkc"))).unwrap();
                format!("foreign{n}.jbkc")
            }
            How::ForeignContainer => {
                let f = FileL {
                    name: format!("foreignc{n}.jbkc"),
                    parts: std::iter::once(Part::D).chain(there.packs.iter().map(|p| Part::P(p.id))).collect(),
                    container: true,
                    prefix: 0,
                    text: false,
                    concat: n % 2 == 0,
                };
                if let Err(e) = m.write_file(&f, &dir) {
                    return Outcome::failed("create", e);
                }
                f.name
            }
            How::Dangling => {
                std::os::unix::fs::symlink("nothing-there", dir.join(format!("link{n}"))).unwrap();
                format!("link{n}")
            }
            How::Through => {
                std::fs::write(dir.join(format!("plain{n}")), b"text").unwrap();
                format!("plain{n}/pack.jbkc")
            }
        };
        loc.insert(Part::P(*id), l);
    }
    // locations of the present ones
    let mut l = c.layout.clone();
    l.files.iter_mut().for_each(|f| f.parts.retain(|p| there.parts().contains(p)));
    l.files.retain(|f| !f.parts.is_empty());
    for f in &l.files {
        for p in &f.parts {
            loc.insert(*p, if std::ptr::eq(f, &l.files[0]) { String::new() } else { f.name.clone() });
        }
    }
    // a pack in the entry file needs no location: `place` says where, decoys included, then the manifest is redone
    let path = match place(&mut m, &there, &l, &work, &dir) {
        Ok(p) => p,
        Err(e) => return Outcome::failed("package", e),
    };
    let mut order: Vec<Part> = asm.parts().into_iter().filter(|p| *p != Part::M).collect();
    if l.order != 0 {
        Rng::new(l.order as u64).shuffle(&mut order);
    }
    if let Err(e) = m.manifest(&work, &order, &|p| loc[&p].clone()) {
        return Outcome::failed("create", e);
    }
    for f in l.files.iter().filter(|f| f.parts.contains(&Part::M)) {
        if let Err(e) = m.write_file(f, &dir) {
            return Outcome::failed("package", e);
        }
    }
    let pristine_check = |c: &jbk::reader::Container| -> Result<(), String> {
        match c.check() {
            Ok(true) => Ok(()),
            Ok(false) => Err("Container::check() answers false with every present pack intact".into()),
            Err(e) => Err(format!("Container::check() fails with every present pack intact: {e}")),
        }
    };
    let want_info = |id: u16, i: &jbk::reader::PackInfo| -> Result<(), String> {
        let p = Part::P(id);
        let pd = &m.pd[&p];
        if i.uuid != pd.uuid
            || i.pack_id != jbk::PackId::from(id)
            || i.pack_kind != pd.pack_kind
            || i.pack_size != pd.pack_size
            || i.pack_location.as_str() != loc[&p]
            || i.pack_group != 0
        {
            return Err(format!("pack {id} is missing with description {i:?}"));
        }
        Ok(())
    };
    let r = || -> Result<(u64, u64), (&'static str, String)> {
        let cont = read::open(&path).map_err(|e| ("open", e))?;
        let mut keys: Vec<(u16, u32)> = vec![];
        for k in want.contents.keys() {
            let (p, n) = k.split_once('/').unwrap();
            keys.push((p.parse().unwrap(), n.parse().unwrap()));
        }
        // addresses that were never given in missing packs too
        for id in gone.keys() {
            keys.push((*id, 0));
            keys.push((*id, 4096));
            keys.push((*id, u32::MAX));
        }
        let mut rr = Rng::new(c.accesses as u64);
        keys.extend(keys.clone().into_iter().filter(|_| rr.chance(1, 4)));
        rr.shuffle(&mut keys);
        let early_check = rr.chance(1, 2);
        if early_check {
            pristine_check(&cont).map_err(|e| ("check", e))?;
        }
        let (mut nmiss, mut nfound) = (0, 0);
        let half = keys.len() / 2;
        for (step, a) in keys.iter().enumerate() {
            if step == half {
                // entries, in the middle of all that
                for i in &want.indexes {
                    let g = read::read_index(&cont, &i.name).map_err(|e| ("entries", format!("index {}: {e}", i.name)))?;
                    let g = g.ok_or(("entries", format!("index {} not found", i.name)))?;
                    if let Some(d) = diff_dump(
                        &Dump {
                            indexes: vec![i.clone()],
                            ..Default::default()
                        },
                        &Dump {
                            indexes: vec![g],
                            ..Default::default()
                        },
                    ) {
                        return Err(("entries", d));
                    }
                }
            }
            let got = read::get_bytes(&cont, *a).map_err(|e| ("access", format!("content {a:?}: {e}")))?;
            match (gone.get(&a.0), got) {
                (Some(_), read::Got::Missing(i)) => {
                    nmiss += 1;
                    want_info(a.0, &i).map_err(|e| ("description", e))?;
                }
                (Some(how), g) => {
                    return Err((
                        "not-missing",
                        format!(
                            "content {a:?} of an unavailable pack ({how:?}) is answered {}",
                            match g {
                                read::Got::Bytes(b) => format!("with bytes {}", brief(&b)),
                                read::Got::NoContent => "'no such content'".into(),
                                _ => "'unknown pack'".into(),
                            }
                        ),
                    ))
                }
                (None, read::Got::Bytes(b)) => {
                    nfound += 1;
                    if want.contents.get(&content_key(*a)) != Some(&digest(&b)) {
                        return Err(("wrong-bytes", format!("content {a:?} of an available pack reads as {}", brief(&b))));
                    }
                }
                (None, g) => {
                    return Err((
                        "unreadable",
                        format!(
                            "content {a:?} of an available pack is answered {}",
                            match g {
                                read::Got::Missing(i) => format!("missing ({i:?})"),
                                read::Got::NoContent => "'no such content'".into(),
                                _ => "'unknown pack'".into(),
                            }
                        ),
                    ))
                }
            }
        }
        for p in &asm.packs {
            let g = cont
                .get_pack(p.id.into())
                .map_err(|e| ("access", format!("pack {}: {e}", p.id)))?
                .ok_or(("unknown", format!("pack {} is unknown", p.id)))?;
            let n: u32 = p.contents.iter().map(|i| i.times).sum();
            match (gone.contains_key(&p.id), g) {
                (true, MayMissPack::MISSING(i)) => want_info(p.id, &i).map_err(|e| ("description", e))?,
                (false, MayMissPack::FOUND(f)) => {
                    if f.get_content_count().into_u32() != n || f.uuid() != m.uuid(Part::P(p.id)) {
                        return Err(("wrong-pack", format!("another pack is found for {}", p.id)));
                    }
                }
                (g, _) => return Err(("get_pack", format!("pack {}: unavailable: {g}, answered otherwise", p.id))),
            }
        }
        // packs that are not listed
        for id in [0u16, 1, 2, 3, 254, 257, 399, 401, 65533, 65535] {
            if asm.packs.iter().all(|p| p.id != id) {
                match cont.get_pack(id.into()) {
                    Ok(None) => {}
                    Ok(Some(_)) => return Err(("unlisted", format!("pack {id} is not listed and is answered"))),
                    Err(e) => return Err(("unlisted", format!("pack {id} is not listed: {e}"))),
                }
                match read::get_bytes(&cont, (id, 0)) {
                    Ok(read::Got::NoPack) => {}
                    _ => return Err(("unlisted", format!("a content of unlisted pack {id} is answered"))),
                }
            }
        }
        pristine_check(&cont).map_err(|e| ("check", e))?;
        Ok((nmiss, nfound))
    };
    match r() {
        Err((s, e)) => return Outcome::failed(s, format!("{} of {} packs missing: {e}", gone.len(), asm.packs.len())),
        Ok((a, b)) => {
            out.evals = a + b + 1;
            out.nontrivial = a > 0;
            out.tagn("missing_answers", a);
            out.tagn("found_answers", b);
            if b > 0 && a > 0 {
                out.tag("both_kinds");
            }
        }
    }
    for (_, h) in &gone {
        out.tag(format!("{h:?}"));
    }
    if gone.len() == asm.packs.len() {
        out.tag("all_missing");
    }
    // the check covers what is present: alter a byte of a present pack
    if let Some((which, at)) = c.harm {
        let mut parts = vec![];
        for (k, f) in l.files.iter().enumerate() {
            for p in &f.parts {
                // the copy which is read: the one of the entry file, else the one at the location
                let in_entry = l.files[0].parts.contains(p);
                if (in_entry && k == 0) || (!in_entry && loc[p] == f.name) {
                    parts.push((*p, f.name.clone()));
                }
            }
        }
        let (p, name) = parts[which as usize % parts.len()].clone();
        let whole = std::fs::read(&m.files[&p]).unwrap();
        let f = dir.join(&name);
        let mut b = std::fs::read(&f).unwrap();
        let Some(pos) = b.windows(whole.len()).position(|w| w == &whole[..]) else {
            return Outcome {
                error: Some(format!("{p:?} not found in {name}")),
                ..Default::default()
            };
        };
        // covered bytes: before the check info
        let ck = u64::from_le_bytes(whole[40..48].try_into().unwrap()) as usize;
        let mut k = 64 + at as usize % (ck - 64);
        if p == Part::M {
            // not a location
            k = 64 + at as usize % 64;
        }
        b[pos + k] ^= 1 << (at % 8);
        std::fs::write(&f, b).unwrap();
        let r = read::open(&path).and_then(|c| c.check().map_err(|e| e.to_string()));
        if let Ok(true) = r {
            return Outcome::failed(
                "check-skips",
                format!("byte {k} of present pack {p:?} altered ({} of {} packs missing), Container::check() answers true", gone.len(), asm.packs.len()),
            );
        }
        out.tag("harmed_present_pack");
        out.evals += 1;
    }
    out
}

impl Check for C11 {
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when at least one content of an unavailable pack was asked for; one evaluation = one access judged (bytes, missing with description, unknown) or one check".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "a pack is unavailable when nothing at its recorded location holds its identity: no file, a directory, a dangling link, another pack; a file that is not a pack at all is not generated here (an error is as good an answer)".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![Group::new("few", t.n(20_000, 400_000)), Group::new("many", t.n(600, 12_000)).par(4)]
    }
    fn strategy(&self, _t: Tier, group: &str, _i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        run_case(&c, ctx)
    }
    fn valid(&self, json: &str) -> bool {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return false;
        };
        let mut there = c.asm.clone();
        there.packs.retain(|p| !c.missing.iter().any(|m| m.0 == p.id));
        c.asm.valid()
            && c.missing.iter().all(|m| c.asm.packs.iter().any(|p| p.id == m.0))
            && !c.layout.files.is_empty()
            && c.layout.files[0].parts.contains(&Part::M)
            && there.parts().iter().all(|p| c.layout.files.iter().any(|f| f.parts.contains(p)))
            && c.layout
                .files
                .iter()
                .all(|f| f.parts.len() == 1 || f.container)
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        let mut v: Vec<Case> = vec![];
        for asm in c.asm.smaller() {
            v.push(Case { asm, ..c.clone() });
        }
        // drop a missing pack altogether
        for k in 0..c.missing.len() {
            let id = c.missing[k].0;
            let n: u32 = c.asm.packs.iter().find(|p| p.id == id).map(|p| p.contents.iter().map(|i| i.times).sum()).unwrap_or(0);
            if n == 0 && c.missing.len() > 1 {
                let mut d = c.clone();
                d.missing.remove(k);
                d.asm.packs.retain(|p| p.id != id);
                v.push(d);
            }
        }
        for k in 0..c.missing.len() {
            if c.missing[k].1 != How::Absent {
                let mut d = c.clone();
                d.missing[k].1 = How::Absent;
                v.push(d);
            }
        }
        for f in 0..c.layout.files.len() {
            if c.layout.files[f].prefix > 0 {
                let mut d = c.clone();
                d.layout.files[f].prefix = 0;
                v.push(d);
            }
        }
        if c.harm.is_some() {
            v.push(Case { harm: None, ..c.clone() });
        }
        v.iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
