//! C12: rewriting a pack location changes only that location.
use super::c10::{gen_layout, place, Layout};
use super::*;

use crate::asm::*;
use crate::decoder::{self, Body, InfoD};
use crate::gen::*;
use crate::model::*;
use crate::read;
use crate::util::*;
use jubako as jbk;
use jubako::Pack;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};

pub struct C12;

/// What the file at hand is made of.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum What {
    Asm { asm: Asm, layout: Layout },
    Basic { spec: Spec },
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
pub enum Who {
    /// rank in the manifest, modulo
    Pack(u32),
    /// the manifest's own identity
    Manifest,
    /// identity made of that seed
    Nobody(u32),
    /// identity of the pack of that rank with one bit changed
    Almost(u32, u8),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Op {
    pub who: Who,
    pub to: String,
    /// with the jbk program
    pub tool: bool,
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub what: What,
    pub ops: Vec<Op>,
    /// finally move the separate files and record their new names
    pub moves: bool,
}

fn repeat_to(unit: &str, len: usize) -> String {
    let mut s = String::new();
    while s.len() + unit.len() <= len {
        s.push_str(unit);
    }
    while s.len() < len {
        s.push('x');
    }
    s
}

fn gen_loc(r: &mut Rng) -> String {
    match r.below(12) {
        0 => String::new(),
        1 => repeat_to(*pick(r, &["a", "é", "\u{10348}", "/", "漢", " "]), *pick(r, &[211usize, 212, 213])),
        2 => repeat_to(*pick(r, &["a", "é", "\u{10348}", "漢"]), *pick(r, &[214usize, 215, 217, 218, 255, 256, 257, 300, 469, 512, 70_000])),
        3 => repeat_to(*pick(r, &["b", "ab/", "é/", "../"]), r.range(1, 213) as usize),
        4 => {
            let n = r.range(1, 213) as usize;
            let mut s = String::new();
            while s.len() < n {
                let c = match r.below(4) {
                    0 => char::from_u32(r.below(128) as u32),
                    1 => char::from_u32(r.below(0x800) as u32),
                    2 => char::from_u32(r.below(0x1_0000) as u32),
                    _ => char::from_u32(r.below(0x11_0000) as u32),
                };
                if let Some(c) = c {
                    if s.len() + c.len_utf8() > 213 {
                        break;
                    }
                    s.push(c);
                }
            }
            s
        }
        5 => "\0".repeat(r.range(1, 213) as usize),
        6 => (*pick(r, &["-x", "--help", "/abs/path.jbkc", "../up", ".", "..", "a\nb", "pack\0tail", "http://x/y?z", " ", "C:\\x"])).to_string(),
        _ => format!("{}{}.jbkc", *pick(r, &["p", "dir/p", "a b", "é"]), r.below(100)),
    }
}

fn gen_op(r: &mut Rng, tool: bool) -> Op {
    Op {
        who: match r.below(10) {
            0 => Who::Manifest,
            1 => Who::Nobody(r.next() as u32),
            2 => Who::Almost(r.next() as u32, r.below(128) as u8),
            _ => Who::Pack(r.next() as u32),
        },
        to: gen_loc(r),
        tool,
    }
}

pub fn gen(group: &str, r: &mut Rng) -> Case {
    let what = match group {
        "basic" => {
            let mut spec = small_spec(r);
            if r.chance(1, 3) {
                spec.extra.push(ExtraPack {
                    id: 2,
                    comp: gen_comp(r),
                    contents: gen_inserts(r, 4, 1000, 3000),
                });
            }
            What::Basic { spec }
        }
        _ => {
            let asm = match group {
                "many" => gen_asm(r, 40, 100),
                _ => gen_asm(r, 4, 1500),
            };
            let mut layout = gen_layout(r, &asm);
            if !r.chance(1, 6) {
                layout.files[0].prefix = 0;
            }
            What::Asm { asm, layout }
        }
    };
    let tool = group == "tool";
    let n = match group {
        "long" => r.range(20, 60),
        "many" => r.range(1, 12),
        _ => r.range(1, 6),
    };
    let mut ops: Vec<Op> = (0..n).map(|_| {
            let t = tool && r.chance(4, 5);
            gen_op(r, t)
        }).collect();
    // shorter after longer on the same pack, and back
    if r.chance(1, 3) {
        let k = r.next() as u32;
        for l in [213, 3, 0, 100] {
            ops.push(Op {
                who: Who::Pack(k),
                to: repeat_to("z", l),
                tool,
            });
        }
    }
    Case {
        what,
        ops,
        moves: r.chance(2, 3),
    }
}

fn all_files(dir: &Path, into: &mut BTreeMap<PathBuf, blake3::Hash>) {
    let Ok(d) = std::fs::read_dir(dir) else { return };
    for e in d.flatten() {
        let p = e.path();
        if p.is_dir() {
            all_files(&p, into);
        } else {
            into.insert(p.clone(), blake3::hash(&std::fs::read(&p).unwrap_or_default()));
        }
    }
}

/// The manifest of that file, with the positions of the pack infos in the file.
fn infos(path: &Path, base: usize) -> Result<(uuid::Uuid, Vec<InfoD>), String> {
    let b = std::fs::read(path).map_err(|e| e.to_string())?;
    let d = decoder::decode_file(&b[base..], false)?;
    for l in d.leaves() {
        if let Body::Manifest(m) = &l.body {
            let mut v = m.infos.clone();
            for i in &mut v {
                i.pos += base;
            }
            return Ok((uuid::Uuid::from_bytes(l.uuid), v));
        }
    }
    Err("no manifest".into())
}

fn without_location(i: &InfoD) -> InfoD {
    InfoD {
        location: String::new(),
        ..i.clone()
    }
}

/// The manifest as jubako reads it.
fn manifest(path: &Path, base: usize, work: &Path) -> Result<jbk::reader::ManifestPack, String> {
    let e = |x: jbk::Error| format!("opening the manifest: {x}");
    let c = if base > 0 {
        let b = std::fs::read(path).map_err(|x| x.to_string())?;
        let alone = work.join("alone");
        std::fs::write(&alone, &b[base..]).map_err(|x| x.to_string())?;
        jbk::tools::open_pack(alone).map_err(e)?
    } else {
        jbk::tools::open_pack(path).map_err(e)?
    };
    let r = c.get_manifest_pack_reader().map_err(e)?.ok_or("no manifest in the file")?;
    jbk::reader::ManifestPack::new(r).map_err(e)
}

fn run_tool(bin: &str, path: &Path, uuid: &uuid::Uuid, to: &str) -> Result<(), String> {
    let o = std::process::Command::new(bin)
        .arg("locate")
        .arg("--")
        .arg(path)
        .arg(uuid.to_string())
        .arg(to)
        .output()
        .map_err(|e| format!("running {bin}: {e}"))?;
    use std::os::unix::process::ExitStatusExt;
    if let Some(s) = o.status.signal() {
        return Err(format!("the jbk program was killed by signal {s}"));
    }
    let err = String::from_utf8_lossy(&o.stderr);
    if err.contains("panicked at") {
        return Err(format!("the jbk program panicked: {err}"));
    }
    Ok(())
}

fn run_case(c: &Case, ctx: &Ctx) -> Outcome {
    let mut out = Outcome::pass();
    out.evals = 0;
    let dir = ctx.sub("out");
    let work = ctx.sub("work");
    let bin = std::env::var("JBKVERIF_JBK").ok();
    // ---- the container
    let (path, want, base) = match &c.what {
        What::Asm { asm, layout } => {
            let mut m = match make(asm, &work) {
                Ok(m) => m,
                Err(e) => return Outcome::failed("create", e),
            };
            let want = asm.expect(&m);
            match place(&mut m, asm, layout, &work, &dir) {
                Ok(p) => (p, want, layout.files[0].prefix as usize),
                Err(e) => return Outcome::failed("package", e),
            }
        }
        What::Basic { spec } => {
            let path = dir.join("c.jbk");
            match build(spec, &path, &work) {
                Ok(b) => (path, expect_dump(spec, &b), 0),
                Err(e) => return Outcome::failed("create", e),
            }
        }
    };
    if let Err(e) = read::verify(&path, &want, true) {
        return Outcome::failed("fresh", format!("before any rewriting: {e}"));
    }
    let (muuid, first) = match infos(&path, base) {
        Ok(i) => i,
        Err(e) => return Outcome::failed("layout", format!("before any rewriting: {e}")),
    };
    let mut model: Vec<String> = first.iter().map(|i| i.location.clone()).collect();
    let mut bytes = std::fs::read(&path).unwrap();
    let mut before = BTreeMap::new();
    all_files(&dir, &mut before);
    before.remove(&path);
    let inside: Vec<bool> = {
        let d = decoder::decode_file(&bytes[base..], false).unwrap();
        let l: Vec<[u8; 16]> = d.leaves().iter().map(|p| p.uuid).collect();
        first.iter().map(|i| l.contains(&i.uuid)).collect()
    };

    // ---- one rewriting, judged
    let mut step = |who: Who, to: &str, tool: bool, model: &mut Vec<String>, out: &mut Outcome| -> Result<bool, (&'static str, String)> {
        let target: Option<usize> = match who {
            Who::Pack(k) => Some(k as usize % first.len()),
            _ => None,
        };
        let uuid = match who {
            Who::Pack(_) => uuid::Uuid::from_bytes(first[target.unwrap()].uuid),
            Who::Manifest => muuid,
            Who::Nobody(s) => {
                let mut r = Rng::new(s as u64);
                uuid::Uuid::from_u64_pair(r.next(), r.next())
            }
            Who::Almost(k, bit) => {
                let mut b = first[k as usize % first.len()].uuid;
                b[bit as usize / 8] ^= 1 << (bit % 8);
                uuid::Uuid::from_bytes(b)
            }
        };
        let fits = to.len() <= 213;
        let by_tool = tool && !to.contains('\0') && to.len() < 100_000 && bin.is_some();
        let said: Option<jbk::Result<Option<(String, jbk::SmallString)>>> = if by_tool {
            run_tool(bin.as_ref().unwrap(), &path, &uuid, to).map_err(|e| ("tool", e))?;
            out.tag("by_jbk_program");
            None
        } else {
            match guard(|| jbk::tools::set_location(&path, uuid, to.into()).map(|o| o.map(|(k, l)| (format!("{k:?}"), l)))) {
                Ok(r) => Some(r),
                Err(p) => return Err(("panic", p)),
            }
        };
        let now = std::fs::read(&path).map_err(|e| ("file", e.to_string()))?;
        let mut changed = false;
        let expected = match (target, fits) {
            (Some(k), true) => {
                let mut e = bytes.clone();
                let p = first[k].pos;
                e[p + 38] = to.len() as u8;
                e[p + 39..p + 39 + to.len()].copy_from_slice(to.as_bytes());
                e[p + 39 + to.len()..p + 252].fill(0);
                let crc = decoder::crc(&e[p..p + 252]).to_be_bytes();
                e[p + 252..p + 256].copy_from_slice(&crc);
                changed = true;
                e
            }
            _ => bytes.clone(),
        };
        // an embedded manifest may be refused, then nothing moves
        let refused_embedded = base > 0 && now == bytes && !matches!(said, Some(Ok(Some(_))));
        if refused_embedded && changed {
            out.tag("embedded_refused");
            return Ok(false);
        }
        if now != expected {
            let at: Vec<usize> = (0..now.len().max(expected.len()))
                .filter(|i| now.get(*i) != expected.get(*i))
                .take(12)
                .collect();
            let near = first
                .iter()
                .enumerate()
                .find(|(_, i)| at.first().map(|a| *a >= i.pos && *a < i.pos + 256).unwrap_or(false))
                .map(|(k, i)| format!("byte {} of the description of pack {k}", at[0] - i.pos))
                .unwrap_or_else(|| "outside any pack description".into());
            return Err((
                if target.is_none() || !fits { "changed" } else { "bytes" },
                format!(
                    "the file is not what it was {}: {} bytes instead of {}, first differences at {at:?} ({near})",
                    if changed { "with that location replaced" } else { "before" },
                    now.len(),
                    expected.len()
                ),
            ));
        }
        if let Some(said) = said {
            match (target, fits, said) {
                (Some(k), true, Ok(Some((kind, old)))) => {
                    let wk = if first[k].kind == b'd' { "Directory" } else { "Content" };
                    if kind != wk || old.as_str() != model[k] {
                        return Err(("answer", format!("answers ({kind:?}, {old:?}) for {wk:?} formerly at {:?}", model[k])));
                    }
                }
                (Some(_), true, Ok(None)) => return Err(("answer", "answers that the pack is not in the manifest".into())),
                (Some(_), true, Err(e)) => return Err(("answer", format!("an admissible location is refused: {e}"))),
                (Some(_), false, Ok(a)) => return Err(("answer", format!("a location of {} bytes is answered {a:?}", to.len()))),
                (Some(_), false, Err(_)) => {}
                (None, _, Ok(None)) => {}
                (None, false, Err(_)) => {}
                (None, _, Ok(Some(a))) => return Err(("answer", format!("a pack which is not listed is answered {a:?}"))),
                (None, true, Err(e)) => {
                    if base == 0 {
                        return Err(("answer", format!("a pack which is not listed: {e}")));
                    }
                }
            }
        }
        if changed {
            model[target.unwrap()] = to.to_string();
            bytes = expected;
        }
        out.evals += 1;
        match who {
            Who::Pack(_) if fits => out.tag(match to.len() {
                0 => "emptied",
                213 => "longest_location",
                _ => "location",
            }),
            Who::Pack(_) => out.tag("too_long"),
            _ => out.tag("not_listed"),
        }
        Ok(changed)
    };
    // ---- what the manifest says
    let judge = |model: &[String]| -> Result<(), (&'static str, String)> {
        let (u, now) = infos(&path, base).map_err(|e| ("layout", e))?;
        if u != muuid || now.iter().map(without_location).ne(first.iter().map(without_location)) {
            return Err(("descriptions", "the pack descriptions differ beside the locations".into()));
        }
        if now.iter().map(|i| &i.location).ne(model.iter()) {
            return Err((
                "location",
                format!("locations {:?} instead of {model:?}", now.iter().map(|i| &i.location).collect::<Vec<_>>()),
            ));
        }
        let m = manifest(&path, base, &work).map_err(|e| ("open", e))?;
        match m.check() {
            Ok(true) => {}
            Ok(false) => return Err(("check", "the check of the manifest fails".into())),
            Err(e) => return Err(("check", format!("the check of the manifest fails: {e}"))),
        }
        if m.uuid() != muuid {
            return Err(("descriptions", "the manifest changed its identity".into()));
        }
        let mut n = 0;
        for (k, i) in first.iter().enumerate() {
            let u = uuid::Uuid::from_bytes(i.uuid);
            let got = if i.kind == b'd' {
                m.get_directory_pack_info()
            } else {
                n += 1;
                m.get_content_pack_info_uuid(u)
                    .ok_or(("descriptions", format!("pack {u} is not listed any more")))?
            };
            if got.uuid != u
                || got.pack_id.into_u16() != i.id
                || got.pack_group != i.group
                || got.pack_size.into_u64() != i.size
                || got.pack_location.as_str() != model[k]
            {
                return Err(("descriptions", format!("pack {k} is read as {got:?} (location wanted {:?})", model[k])));
            }
            let f = m.get_pack_free_data_uuid(u).map_err(|e| ("descriptions", format!("free data: {e}")))?;
            if f.unwrap_or(&[]) != &i.free[..] {
                return Err(("descriptions", format!("free data of pack {k} changed")));
            }
        }
        if m.get_pack_infos().len() != n {
            return Err(("descriptions", "the number of packs changed".into()));
        }
        Ok(())
    };
    let mut rewritten = 0u64;
    for (n, op) in c.ops.iter().enumerate() {
        ctx.step(n as u64);
        let r = step(op.who, &op.to, op.tool, &mut model, &mut out).and_then(|ch| {
            rewritten += ch as u64;
            judge(&model)
        });
        if let Err((s, e)) = r {
            return Outcome::failed(
                s,
                format!("rewriting {n}: {:?} to {} ({} bytes): {e}", op.who, brief(op.to.as_bytes()), op.to.len()),
            );
        }
    }
    // other files are untouched
    let mut after = BTreeMap::new();
    all_files(&dir, &mut after);
    after.remove(&path);
    if after != before {
        return Outcome::failed("other-files", "other files of the folder changed");
    }
    // contents held by the file itself do not depend on the locations; the others are found again once the
    // location says where they are (moved or not)
    let mut moved: BTreeMap<String, String> = BTreeMap::new();
    for k in 0..first.len() {
        if inside[k] {
            continue;
        }
        let old = first[k].location.clone();
        let new = match moved.get(&old) {
            Some(n) => n.clone(),
            None => {
                let n = if c.moves {
                    let n = match k % 3 {
                        0 => format!("moved {k}"),
                        1 => format!("newdir/é{k}/moved.jbkc"),
                        _ => format!("{}{k}", "m".repeat(180)),
                    };
                    let to = dir.join(&n);
                    std::fs::create_dir_all(to.parent().unwrap()).unwrap();
                    if let Err(e) = std::fs::rename(dir.join(&old), &to) {
                        return Outcome {
                            error: Some(format!("moving {old:?}: {e}")),
                            ..Default::default()
                        };
                    }
                    n
                } else {
                    old.clone()
                };
                moved.insert(old, n.clone());
                n
            }
        };
        let r = step(Who::Pack(k as u32), &new, false, &mut model, &mut out);
        match r {
            Ok(true) => out.tag(if c.moves { "pack_moved" } else { "location_restored" }),
            Ok(false) => {
                // refused: there is no way to tell where that pack is now
                out.nontrivial = rewritten > 0;
                return out;
            }
            Err((s, e)) => return Outcome::failed(s, format!("recording {new:?} for pack {k}: {e}")),
        }
    }
    if let Err((s, e)) = judge(&model) {
        return Outcome::failed(s, e);
    }
    if let Err(e) = read::verify(&path, &want, true) {
        return Outcome::failed("contents", format!("after {rewritten} rewritings: {e}"));
    }
    if rewritten > 1 {
        out.tag("several_rewritings");
    }
    if base > 0 {
        out.tag("embedded");
    }
    out.nontrivial = rewritten > 0;
    out.evals = out.evals.max(1);
    out
}

impl Check for C12 {
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when at least one location was really rewritten; one evaluation = one rewriting whose whole file was compared byte for byte with the expected one".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "admissible locations are UTF-8 strings of at most 213 bytes, the room of the format; a longer one must be refused and change nothing".into(),
            "a manifest embedded at the end of another file may be refused, if nothing changes".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("asm", t.n(12_000, 300_000)),
            Group::new("basic", t.n(3_000, 60_000)),
            Group::new("long", t.n(600, 12_000)),
            Group::new("many", t.n(400, 8_000)).par(4),
            Group::new("tool", t.n(1500, 20_000)),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, _i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        run_case(&c, ctx)
    }
    fn valid(&self, json: &str) -> bool {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return false;
        };
        match &c.what {
            What::Asm { asm, layout } => {
                asm.valid()
                    && !layout.files.is_empty()
                    && layout.files[0].parts.contains(&Part::M)
                    && asm.parts().iter().all(|p| layout.files.iter().any(|f| f.parts.contains(p)))
                    && layout.files.iter().all(|f| {
                        !f.parts.is_empty()
                            && !f.name.is_empty()
                            && (f.parts.len() == 1 || f.container)
                            && f.parts.iter().all(|p| asm.parts().contains(p))
                    })
                    && layout
                        .files
                        .iter()
                        .map(|f| &f.name)
                        .collect::<std::collections::BTreeSet<_>>()
                        .len()
                        == layout.files.len()
            }
            What::Basic { spec } => spec.valid(),
        }
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        let mut v: Vec<Case> = vec![];
        for k in 0..c.ops.len() {
            let mut d = c.clone();
            d.ops.remove(k);
            v.push(d);
        }
        if let What::Asm { asm, layout } = &c.what {
            for a in asm.smaller() {
                v.push(Case {
                    what: What::Asm {
                        asm: a,
                        layout: layout.clone(),
                    },
                    ..c.clone()
                });
            }
            for k in 0..layout.files.len() {
                if layout.files[k].prefix > 0 {
                    let mut l = layout.clone();
                    l.files[k].prefix = 0;
                    v.push(Case {
                        what: What::Asm {
                            asm: asm.clone(),
                            layout: l,
                        },
                        ..c.clone()
                    });
                }
            }
        }
        for k in 0..c.ops.len() {
            if c.ops[k].tool {
                let mut d = c.clone();
                d.ops[k].tool = false;
                v.push(d);
            }
            let n = c.ops[k].to.len();
            for m in [0, 1, n / 2, n.saturating_sub(1)] {
                if m < n {
                    let mut d = c.clone();
                    d.ops[k].to = "z".repeat(m);
                    v.push(d);
                }
            }
        }
        if c.moves {
            v.push(Case {
                moves: false,
                ..c.clone()
            });
        }
        v.iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
