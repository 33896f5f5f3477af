//! C04: created packs verify, and altering any checksummed byte makes the checks fail.
use super::*;
use crate::asm::*;
use crate::damage::*;
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::reader::PackLocatorTrait;
use jubako::Pack;
use proptest::strategy::BoxedStrategy;

pub struct C04;

fn many_packs(r: &mut Rng) -> Source {
    let n = match r.below(3) {
        0 => r.range(1, 4),
        1 => r.range(5, 30),
        _ => r.range(31, 80),
    };
    let packs: Vec<AsmPack> = (0..n)
        .map(|k| AsmPack {
            id: k as u16 + 1,
            comp: Comp::None,
            contents: if r.chance(1, 3) {
                vec![Insert {
                    blob: Blob::new(r.below(40) as usize, Fill::Rand, k as u32),
                    hint: Hint::No,
                    src: Src::Mem,
                    times: 1,
                }]
            } else {
                vec![]
            },
        })
        .collect();
    let nc = packs.iter().map(|p| p.contents.len()).sum();
    let asm = Asm {
        dir: tiny_dir(r, nc),
        packs,
        dir_id: 0,
        free: if r.chance(1, 3) { 0 } else { r.range(1, 1 << 20) as u32 },
    };
    Source::Asm {
        files: gen_files(r, &asm),
        order: r.below(99) as u32,
        asm,
    }
}

fn big(r: &mut Rng) -> Source {
    let mut contents = gen_inserts(r, 30, 3_000_000, 9_000_000);
    for c in &mut contents {
        c.src = Src::Mem;
    }
    let nc = expand(&contents).len();
    let o = DirOpts {
        max_entries: 6000,
        ncontents: nc,
        max_array: 3000,
        max_estores: 2,
        max_stores: 3,
        max_props: 6,
        ..Default::default()
    };
    Source::Basic(Spec {
        comp: gen_comp(r),
        packaging: gen_packaging(r),
        cached: r.chance(1, 5),
        contents,
        extra: vec![],
        dir: gen_dir(r, &o),
    })
}

pub fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    let src = match group {
        "created" if r.chance(1, 2) => Source::Basic(Spec {
            packaging: gen_packaging(r),
            ..small_spec(r)
        }),
        "created" => tiny_source(r),
        "medium" => medium_source(r),
        "manifest" => many_packs(r),
        "big" => big(r),
        _ => tiny_source(r),
    };
    let seed = r.next();
    let k = i % 6 + if i % 6 == 5 { r.below(100) } else { 0 };
    let rand = |to| Mode::Rand {
        seed,
        from: 0,
        to,
        any: false,
    };
    let mode = match group {
        "created" => rand(3),
        "sweep" => Mode::Sweep {
            file: r.below(6) as u32,
            k,
        },
        "fixed" => Mode::Fixed { seed, from: 0, to: 300 },
        "manifest" => Mode::Manifest { k },
        "medium" => rand(60),
        "big" => rand(15),
        _ => rand(150),
    };
    Case {
        src,
        mode,
        deep: false,
    }
}

/// Is the byte covered by the checksum of the pack, or in its check block?
fn covered(pk: &PackPos, at: usize) -> bool {
    at >= pk.base && at < pk.base + pk.size - 64 && !pk.infos.iter().any(|i| (i + 38..i + 256).contains(&at))
}

fn altered(pk: &PackPos, old: &[u8], new: &[u8]) -> bool {
    let end = pk.base + pk.size - 64;
    let mut at = pk.base;
    let mut infos = pk.infos.clone();
    infos.sort();
    for i in infos {
        if old[at..i + 38] != new[at..i + 38] {
            return true;
        }
        at = i + 256;
    }
    old[at..end] != new[at..end]
}

/// Judged on the bytes: is the file another pack, or a container without this one?
fn lost(f: &PFile, pk: &PackPos, now: &[u8]) -> bool {
    let ok = |at: usize, n: usize| -> Option<&[u8]> {
        let b = now.get(at..at + n)?;
        let c = u32::from_be_bytes(b[n - 4..].try_into().unwrap());
        (crate::decoder::crc(&b[..n - 4]) == c).then_some(b)
    };
    let found = || -> Option<bool> {
        let h = ok(f.prefix, 64)?;
        if !f.bytes[f.prefix..].starts_with(b"jbkC") {
            return Some(h[10..26] == *pk.uuid.as_bytes());
        }
        let h = ok(f.prefix + 64, 64)?;
        let pos = f.prefix + crate::decoder::le(&h[..8]) as usize;
        let n = crate::decoder::le(&h[8..10]) as usize;
        let mut seen = false;
        for k in 0..n {
            seen |= ok(pos + 36 * k, 36)?[..16] == *pk.uuid.as_bytes();
        }
        Some(seen)
    };
    found() == Some(false)
}

type R = Result<Option<bool>, String>;

/// Asking again does not change the answer
fn twice(f: &dyn Fn() -> jbk::Result<bool>) -> jbk::Result<bool> {
    match (f(), f()) {
        (Ok(true), Ok(true)) => Ok(true),
        (Ok(a), Ok(b)) if a == b => Ok(a),
        (Err(e), Err(_)) => Err(e),
        (a, b) => panic!("unsteady check: {a:?} then {b:?}"),
    }
}

fn checks(p: &Placed, fi: usize, pk: &PackPos, now: &[u8], light: bool) -> Vec<(&'static str, R)> {
    let f = &p.files[fi];
    let mut v: Vec<(&'static str, R)> = vec![];
    let one = |r: jbk::Reader| -> jbk::Result<Option<bool>> {
        Ok(Some(match pk.kind {
            b'm' => {
                let p = jbk::reader::ManifestPack::new(r)?;
                twice(&|| p.check())?
            }
            b'd' => {
                let p = jbk::reader::DirectoryPack::new(r)?;
                twice(&|| p.check())?
            }
            _ => {
                let p = jbk::reader::ContentPack::new(r)?;
                twice(&|| p.check())?
            }
        }))
    };
    let mut put = |name: &'static str, g: &dyn Fn() -> jbk::Result<Option<bool>>| {
        let x = match guard(g) {
            Ok(Ok(b)) => Ok(b),
            Ok(Err(x)) => Err(x.to_string()),
            // sometimes a success
            Err(x) if x.contains("unsteady") => Ok(Some(true)),
            Err(x) => Err(x),
        };
        v.push((name, x));
    };
    put("its pack, located", &|| {
        let loc = jbk::reader::FsLocator::new(f.path.parent().unwrap().to_path_buf());
        match loc.locate(pk.uuid, f.path.file_name().unwrap().to_str().unwrap())? {
            None => Ok(None),
            Some(r) => one(r),
        }
    });
    put("its pack, in memory", &|| {
        one(now[pk.base..pk.base + pk.size].to_vec().into())
    });
    put("the container", &|| {
        let c = jbk::reader::Container::new(&p.entry)?;
        Ok(Some(twice(&|| c.check())?))
    });
    if !light {
        if f.prefix == 0 {
            put("the file", &|| Ok(Some(jbk::tools::open_pack(&f.path)?.check()?)));
        }
        if f.bytes[f.prefix..].starts_with(b"jbkC") {
            put("the container pack, in memory", &|| {
                let c = jbk::reader::ContainerPack::new(now[f.prefix..].to_vec().into())?;
                Ok(Some(c.check()?))
            });
        }
    }
    v
}

impl Check for C04 {
    fn id(&self) -> &'static str {
        "C04"
    }
    fn level(&self) -> &'static str {
        "fault_enumeration"
    }
    fn rule(&self) -> String {
        "one evaluation = the checks concerned by one alteration, or all the checks of an intact container; non-trivial when at least one byte covered by the checksum of a pack was altered".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "alterations keep the length of the files and are made while nothing is open".into(),
            "a panic is not a success (C06 is about them); blake3 is trusted".into(),
            "CRC-32 are recomputed inside the packs only, not in the container header and locators, which no checksum covers".into(),
            "recomputed CRC-32 are not tried on the tail of the value store of the manifest, where a wrong count ends the process on an allocation".into(),
            "with a recomputed CRC-32, turning the check block into the one of a pack without checksum cannot be noticed and is left out; so is, for the check of the container only, altering the uuid in the header of a pack alone in its file, which makes it another pack and its pack a missing one".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("created", t.n(4000, 200_000)),
            Group::new("sweep", t.n(300, 20_000)),
            Group::new("rand", t.n(300, 20_000)),
            Group::new("fixed", t.n(300, 20_000)),
            Group::new("manifest", t.n(150, 6000)),
            Group::new("medium", t.n(250, 12_000)),
            Group::new("big", t.n(60, 3000)).par(6),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        let p = match guard(|| c.src.place(&ctx.sub("work"), &ctx.sub("out"))) {
            Ok(Ok(p)) => p,
            Ok(Err(x)) | Err(x) => {
                let mut o = Outcome::pass();
                o.tag(format!("not created: {}", crate::util::cut(&x, 60)));
                return o;
            }
        };
        let mut out = Outcome::pass();
        let total: usize = p.files.iter().map(|f| f.bytes.len()).sum();
        let npacks: usize = p.files.iter().map(|f| f.packs.len()).sum();
        for (k, f) in p.files.iter().enumerate() {
            for pk in &f.packs {
                for (name, r) in checks(&p, k, pk, &f.bytes, npacks > 8) {
                    if r != Ok(Some(true)) {
                        out.fail = Some((
                            "created".into(),
                            format!(
                                "the check of {name} answers {r:?} on what was just created ({}, {total} bytes, pack of kind {} in {})",
                                c.src.name(),
                                pk.kind as char,
                                f.name
                            ),
                        ));
                        return out;
                    }
                }
            }
        }
        take_panics();
        let light = npacks > 8;
        let fail = each(&c.mode, &p, |step, d, changed| {
            if !changed {
                return None;
            }
            // what was really altered
            let mut concerned: Vec<(usize, &PackPos)> = vec![];
            let mut now: std::collections::BTreeMap<usize, Vec<u8>> = Default::default();
            match &d[..] {
                [(k, Op::Flip { at, .. })] => {
                    let at = *at as usize;
                    match p.files[*k].packs.iter().find(|pk| covered(pk, at)) {
                        None => return None,
                        Some(pk) => concerned.push((*k, pk)),
                    }
                    now.insert(*k, std::fs::read(&p.files[*k].path).unwrap());
                }
                _ => {
                    for (k, f) in p.files.iter().enumerate() {
                        if d.iter().any(|x| x.0 == k) {
                            let b = std::fs::read(&f.path).unwrap();
                            for pk in &f.packs {
                                if altered(pk, &f.bytes, &b) {
                                    concerned.push((k, pk));
                                }
                            }
                            now.insert(k, b);
                        }
                    }
                }
            }
            ctx.step(step);
            out.evals += 1;
            if concerned.is_empty() {
                out.tag("nothing covered");
            } else {
                out.inner_nontrivial += 1;
            }
            // a location was rewritten: its pack may be a missing one
            let moved = now.iter().any(|(k, b)| {
                let f = &p.files[*k];
                let mut i = f.packs.iter().flat_map(|x| &x.infos);
                i.any(|i| f.bytes[i + 38..i + 252] != b[i + 38..i + 252])
            });
            for (k, pk) in concerned {
                let b = &now[&k];
                let old = &p.files[k].bytes;
                let fixed = d.iter().any(|x| matches!(x.1, Op::Near { bits: 0, .. }));
                if fixed && b[pk.check_pos] == 0 && old[pk.check_pos] != 0 {
                    out.tag("no checksum any more");
                    continue;
                }
                let other = fixed && (moved || lost(&p.files[k], pk, b));
                for (name, r) in checks(&p, k, pk, b, light) {
                    match r {
                        Ok(Some(true)) => {
                            if name == "the container" && other {
                                out.tag("became another pack");
                                continue;
                            }
                            return Some((
                                step,
                                d.clone(),
                                name,
                                format!("pack of kind {} at {}..{} of {}", pk.kind as char, pk.base, pk.base + pk.size, p.files[k].name),
                            ));
                        }
                        Ok(Some(false)) => out.tag("false"),
                        Ok(None) => out.tag("not found"),
                        Err(x) if x.starts_with("PANIC") => out.tag("panic"),
                        Err(_) => out.tag("error"),
                    }
                }
            }
            take_panics();
            None
        });
        out.nontrivial = out.inner_nontrivial > 0;
        out.tag(c.src.name());
        out.sample = Some(format!(
            "{} in {} files, {npacks} packs, {total} bytes; {:?}: {} evaluations",
            c.src.name(),
            p.files.len(),
            c.mode,
            out.evals
        ));
        if let Some((step, d, name, x)) = fail {
            out.step = Some(step);
            let d: Vec<String> = d.iter().map(|(k, o)| format!("{} {o:?}", p.files[*k].name)).collect();
            out.fail = Some((
                "unnoticed".into(),
                format!(
                    "the check of {name} succeeds after the alteration {} of a {} container of {total} bytes: {x}",
                    d.join(", "),
                    c.src.name(),
                ),
            ));
        }
        out
    }
    fn reduce(&self, json: &str, step: u64) -> Option<String> {
        let c: Case = serde_json::from_str(json).ok()?;
        let mode = c.mode.reduce(step)?;
        serde_json::to_string(&Case { mode, ..c }).ok()
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json)
            .map(|c| c.src.valid() && !matches!(&c.mode, Mode::Ops(v) if v.iter().any(|x| matches!(x.1, Op::Cut{..}|Op::Append{..}|Op::Replace{..}))))
            .unwrap_or(false)
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        c.smaller().iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
