//! C01: stored content reads back byte-identical at the returned address.
use super::*;

use crate::gen::*;
use crate::model::*;
use crate::read;
use crate::util::*;
use jubako as jbk;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;

pub struct C01;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    /// only the content pack, no container
    pub standalone: bool,
    pub order_seed: u32,
    pub spec: Spec,
}

fn mini_dir() -> Dir {
    Dir {
        stores: vec![],
        estores: vec![EStore {
            common: vec![Prop {
                name: "a".into(),
                kind: PKind::U,
            }],
            variants: vec![],
            sort: None,
            entries: vec![Entry {
                variant: 0,
                vals: vec![V::U(7)],
            }],
        }],
        indexes: vec![Idx {
            name: "i".into(),
            store: 0,
            offset: 0,
            count: 1,
            offset_of: None,
            key: 0,
        }],
    }
}

fn ins(len: usize, fill: Fill, seed: u32, hint: Hint) -> Insert {
    Insert {
        blob: Blob::new(len, fill, seed),
        hint,
        src: Src::Mem,
        times: 1,
    }
}

fn case(r: &mut Rng, comp: Comp, contents: Vec<Insert>) -> Case {
    Case {
        standalone: r.chance(1, 3),
        order_seed: r.next() as u32,
        spec: Spec {
            comp,
            packaging: gen_packaging(r),
            cached: r.chance(1, 5),
            contents,
            extra: vec![],
            dir: mini_dir(),
        },
    }
}

const LENS: &[usize] = &[
    0, 1, 2, 127, 254, 255, 256, 257, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 131072,
];
const BIG: &[usize] = &[
    (1 << 24) - 1,
    1 << 24,
    (1 << 24) + 1,
    (1 << 22) - 1,
    1 << 22,
    (1 << 22) + 1,
    5_000_000,
    9_000_000,
];
const COMPS: &[Comp] = &[Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)];
const FILLS: &[Fill] = &[Fill::Rand, Fill::Text, Fill::Zero];
const HINTS: &[Hint] = &[Hint::Yes, Hint::No, Hint::Detect];

pub fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    match group {
        "mixed" => {
            let (mc, ml, bu) = *pick(r, &[(60, 70_000, 400_000), (12, 300_000, 900_000), (400, 300, 60_000)]);
            let c = gen_inserts(r, mc, ml, bu);
            let comp = gen_comp(r);
            case(r, comp, c)
        }
        "lens" => {
            // exhaustive product
            let len = LENS[(i % 16) as usize];
            let comp = COMPS[(i / 16 % 4) as usize];
            let hint = HINTS[(i / 64 % 3) as usize];
            let fill = FILLS[(i / 192 % 3) as usize].clone();
            let mut v = vec![];
            let shape = r.below(4);
            if shape == 1 || shape == 3 {
                v.push(ins(r.below(5) as usize, Fill::Rand, 3, hint));
            }
            if shape == 2 && len > 1 {
                let k = 1 + r.below(len as u64 - 1) as usize;
                v.push(ins(k, fill.clone(), 1, hint));
                v.push(ins(len - k, fill, 2, hint));
            } else {
                v.push(ins(len, fill, 1, hint));
            }
            if shape == 3 {
                v.push(ins(r.below(3) as usize, Fill::Rand, 4, hint));
            }
            for x in &mut v {
                x.src = gen_src(r, x.blob.len as usize);
            }
            let mut c = case(r, comp, v);
            c.spec.cached = false;
            c
        }
        "big" => {
            let len = BIG[(i % 8) as usize];
            let comp = COMPS[((i / 8 + i) % 4) as usize];
            let hint = *pick(r, HINTS);
            let fill = FILLS[((i / 3) % 3) as usize].clone();
            let mut v = vec![ins(100, Fill::Text, 1, hint), ins(len, fill, 2, hint), ins(100, Fill::Rand, 3, hint)];
            if r.chance(1, 2) {
                v.remove(0);
            }
            v[0].src = gen_src(r, len);
            case(r, comp, v)
        }
        "many" => {
            let n = [4094u32, 4095, 4096, 8190, 8191, 9000][(i % 6) as usize];
            let comp = COMPS[(i / 6 % 4) as usize];
            let hint = *pick(r, HINTS);
            let len = *pick(r, &[0usize, 1, 9, 17]);
            let mut v = vec![Insert {
                blob: Blob::new(len, if r.chance(1, 2) { Fill::Rand } else { Fill::Zero }, 5),
                hint,
                src: Src::Mem,
                times: n,
            }];
            if r.chance(1, 2) {
                // the other cluster kind is filled in parallel
                v.push(Insert {
                    blob: Blob::new(3, Fill::Rand, 99999),
                    hint: gen_hint(r),
                    src: Src::Mem,
                    times: r.range(1, 4200) as u32,
                });
            }
            v.push(ins(33, Fill::Text, 7, hint));
            case(r, comp, v)
        }
        "clusters" => {
            // many contents crossing the 4 MiB limit of compressed clusters, mixed with raw ones
            let n = r.range(4, 26) as usize;
            let v = (0..n)
                .map(|k| {
                    let len = *pick(r, &[700_000usize, 1_048_576, 1_398_101, 2_097_152, 4_194_304, 1000]);
                    ins(
                        len.min(40_000_000 / n),
                        pick(r, FILLS).clone(),
                        k as u32,
                        if r.chance(3, 4) { Hint::Yes } else { gen_hint(r) },
                    )
                })
                .collect();
            let comp = COMPS[(i % 3) as usize + 1];
            case(r, comp, v)
        }
        "levels" => {
            let i = i % 71;
            let comp = match i {
                0..=15 => Comp::Lz4(i as u32),
                16..=25 => Comp::Lzma((i - 16) as u32),
                _ => Comp::Zstd((i as i32 - 26).min(44) - 22),
            };
            let mut v = vec![];
            for k in 0..r.range(2, 7) {
                let len = gen_len(r, 120_000);
                v.push(ins(len, gen_fill(r), k as u32, *pick(r, &[Hint::Yes, Hint::Yes, Hint::Detect])));
            }
            case(r, comp, v)
        }
        _ => unreachable!(),
    }
}

/// (want, pack) equality over all contents in a pseudo random order
pub fn check_contents(
    want: &[Vec<u8>],
    addrs: &[(u16, u32)],
    order_seed: u64,
    get: &dyn Fn((u16, u32)) -> Result<Option<Vec<u8>>, String>,
) -> Result<(), String> {
    let mut order: Vec<usize> = (0..want.len()).collect();
    Rng::new(order_seed).shuffle(&mut order);
    for k in order {
        match get(addrs[k]).map_err(|e| format!("content {k} (address {:?}): {e}", addrs[k]))? {
            None => return Err(format!("content {k}: address {:?} answers 'no such content'", addrs[k])),
            Some(b) => {
                if b != want[k] {
                    let at = b.iter().zip(&want[k]).position(|(x, y)| x != y);
                    return Err(format!(
                        "content {k} (address {:?}): written {}, read {} (first difference at {:?})",
                        addrs[k],
                        brief(&want[k]),
                        brief(&b),
                        at
                    ));
                }
            }
        }
    }
    Ok(())
}

pub fn past(count: u32) -> Vec<u32> {
    let mut v = vec![count, count.wrapping_add(1), count + 4096, 0xfff_fff, u32::MAX / 2, u32::MAX - 1, u32::MAX];
    v.retain(|x| *x >= count);
    v
}

fn run_case(c: &Case, dir: &Path) -> Outcome {
    let e = expand(&c.spec.contents);
    let want: Vec<Vec<u8>> = e.iter().map(|i| i.blob.bytes()).collect();
    let total: u64 = want.iter().map(|w| w.len() as u64).sum();
    let mut out = Outcome::pass();
    let inputs = dir.join("in");
    std::fs::create_dir_all(&inputs).unwrap();
    let distinct: std::collections::HashSet<&Vec<u8>> = want.iter().collect();
    let ndistinct = distinct.len();
    drop(distinct);
    let fail = |s: &str, m: String| Outcome::failed(s, m);
    if c.standalone {
        let path = dir.join("pack.jbkc");
        let mut cr = match jbk::creator::ContentPackCreator::new(
            utf8(&path),
            jbk::PackId::from(1u16),
            vendor(),
            Default::default(),
            c.spec.comp.get(),
        ) {
            Ok(c) => c,
            Err(e) => return fail("create", format!("cannot create: {e}")),
        };
        let addrs = match add_all(&mut cr, &e, &inputs) {
            Ok(a) => a,
            Err(e) => return fail("create", format!("add_content: {e}")),
        };
        match cr.finalize() {
            Ok(_) => {}
            Err(e) => return fail("create", format!("finalize: {e}")),
        }
        if let Some((k, a)) = addrs.iter().enumerate().find(|(k, a)| a.0 != 1 || a.1 != *k as u32) {
            // addresses must be distinct at least (dedup is not in use)
            let set: std::collections::HashSet<_> = addrs.iter().collect();
            if set.len() != addrs.len() {
                return fail("address", format!("insertion {k} returned {a:?}, addresses are not distinct"));
            }
        }
        let pack = match jbk::FileSource::open(&path)
            .map_err(|e| e.to_string())
            .and_then(|f| jbk::reader::ContentPack::new(f.into()).map_err(|e| e.to_string()))
        {
            Ok(p) => p,
            Err(e) => return fail("open", e),
        };
        let n = pack.get_content_count().into_u32();
        if n as usize != want.len() {
            return fail("count", format!("the pack reports {n} contents, {} were inserted", want.len()));
        }
        if let Err(m) = check_contents(&want, &addrs, c.order_seed as u64, &|a| {
            pack.get_content(jbk::ContentIdx::from(a.1))
                .and_then(|r| r.map(|r| read::read_all(&r)).transpose())
                .map_err(|e| e.to_string())
        }) {
            return fail("content", m);
        }
        for p in past(n) {
            match pack.get_content(jbk::ContentIdx::from(p)) {
                Ok(None) => {}
                Ok(Some(_)) => return fail("past", format!("address {p} of {n} answers with bytes")),
                Err(e) => return fail("past", format!("address {p} of {n} answers with an error: {e}")),
            }
        }
    } else {
        let path = dir.join("c.jbk");
        let b = match build(&c.spec, &path, &inputs) {
            Ok(b) => b,
            Err(e) => return fail("create", e),
        };
        let cont = match read::open(&path) {
            Ok(c) => c,
            Err(e) => return fail("open", e),
        };
        let expected = if c.spec.cached { ndistinct } else { want.len() };
        if !want.is_empty() || true {
            let n = match cont.get_pack(jbk::PackId::from(1u16)) {
                Ok(Some(jbk::reader::MayMissPack::FOUND(p))) => p.get_content_count().into_u32(),
                Ok(_) => return fail("pack", "content pack not found".into()),
                Err(e) => return fail("pack", format!("content pack: {e}")),
            };
            if n as usize != expected {
                return fail("count", format!("the pack reports {n} contents, {expected} were inserted"));
            }
            for p in past(n) {
                match read::get_bytes(&cont, (1, p)) {
                    Ok(read::Got::NoContent) => {}
                    Ok(_) => return fail("past", format!("address {p} of {n} is not answered 'no such content'")),
                    Err(e) => return fail("past", format!("address {p} of {n} answers with an error: {e}")),
                }
            }
        }
        if let Err(m) = check_contents(&want, &b.addrs, c.order_seed as u64, &|a| {
            match read::get_bytes(&cont, a).map_err(|e| e.to_string())? {
                read::Got::Bytes(b) => Ok(Some(b)),
                read::Got::NoContent => Ok(None),
                read::Got::NoPack => Err("unknown pack".into()),
                read::Got::Missing(_) => Err("pack reported missing".into()),
            }
        }) {
            return fail("content", m);
        }
    }
    out.nontrivial = want.len() >= 2 || total >= 255;
    out.evals = (want.len() as u64).max(1);
    out.tag(format!("comp_{}", c.spec.comp.name()));
    out.tag(if c.standalone { "standalone" } else { c.spec.packaging.name() });
    out.tagn("contents", want.len() as u64);
    if want.len() > 4095 {
        out.tag("several_clusters_by_count");
    }
    if total > 4 << 20 {
        out.tag("over_4MiB");
    }
    for i in &c.spec.contents {
        out.tag(match i.src {
            Src::Mem => "src_mem",
            Src::File => "src_file",
            Src::Range(..) => "src_range",
        });
    }
    out
}

impl Check for C01 {
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> String {
        "a generated insertion sequence counts as non-trivial when it has >= 2 contents or >= 255 bytes in total; one evaluation = one content read back and compared".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "file system of the sandbox returns what was written".into(),
            "contents up to 16 MiB and packs up to ~48 MiB are generated; larger ones are not".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("levels", t.n(71, 710)).par(3),
            Group::new("clusters", t.n(40, 400)).par(3),
            Group::new("big", t.n(64, 256)).par(4),
            Group::new("many", t.n(72, 400)),
            Group::new("lens", t.n(1728, 11520)),
            Group::new("mixed", t.n(4000, 60000)),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        run_case(&c, &ctx.dir)
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json).map(|c| c.spec.valid()).unwrap_or(false)
    }
}
