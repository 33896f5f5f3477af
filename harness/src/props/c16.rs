//! C16: the compression hint decides how a content is stored; the deduplicating adder stores once.
use super::*;

use crate::decoder::{self, ContentD};
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use jubako as jbk;
use jubako::creator::ContentAdder;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, HashMap};
use std::path::Path;
use std::rc::Rc;

pub struct C16;

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Item {
    pub blob: Blob,
    /// bytes removed at the end
    #[serde(default)]
    pub cut: u32,
    /// position of an altered byte
    #[serde(default)]
    pub flip: Option<u32>,
    pub hint: Hint,
    pub src: Src,
}
impl Item {
    fn bytes(&self) -> Vec<u8> {
        let mut b = self.blob.bytes();
        b.truncate(b.len().saturating_sub(self.cut as usize));
        if let Some(f) = self.flip {
            if let Some(x) = b.get_mut(f as usize) {
                *x ^= 1 << (f % 8);
            }
        }
        b
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Through {
    /// ContentPackCreator
    Pack,
    /// BasicCreator, packaged like that, with a pack created apart of that compression
    Basic(Packaging, Option<Comp>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Case {
    pub through: Through,
    pub dedup: bool,
    pub comp: Comp,
    pub items: Vec<Item>,
    /// contents of the extra pack
    #[serde(default)]
    pub extra: Vec<Item>,
}

fn item(r: &mut Rng, max: usize) -> Item {
    let len = gen_len(r, max);
    Item {
        blob: Blob::new(len, gen_fill(r), r.below(500) as u32),
        cut: 0,
        flip: None,
        hint: gen_hint(r),
        src: gen_src(r, len),
    }
}

fn items(r: &mut Rng, n: usize, max: usize, budget: usize, one_hint: Option<Hint>) -> Vec<Item> {
    let mut v: Vec<Item> = vec![];
    let mut left = budget;
    for _ in 0..n {
        let mut it = if !v.is_empty() && r.chance(2, 5) {
            // identical, or nearly, to a previous one
            let mut it = pick(r, &v).clone();
            let l = it.blob.len as u64 - (it.cut as u64).min(it.blob.len as u64);
            match r.below(6) {
                0 if l > 0 => it.flip = Some(r.below(l) as u32),
                1 if l > 0 => it.flip = Some(l as u32 - 1),
                2 if l > 0 => it.cut += 1,
                _ => {}
            }
            it.src = gen_src(r, it.blob.len as usize);
            if r.chance(1, 2) {
                it.hint = gen_hint(r);
            }
            it
        } else {
            item(r, max.min(left))
        };
        if let Some(h) = one_hint {
            it.hint = h;
        }
        let l = it.blob.len as usize;
        if l > left {
            continue;
        }
        left -= l;
        v.push(it);
    }
    v
}

pub fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    let through = if r.chance(1, 2) {
        Through::Pack
    } else {
        Through::Basic(gen_packaging(r), if r.chance(1, 2) { Some(gen_comp(r)) } else { None })
    };
    let dedup = r.chance(2, 3);
    let one = if r.chance(1, 3) { Some(gen_hint(r)) } else { None };
    match group {
        "table" => {
            // compression x hint x fill x length, all of them
            let comp = [Comp::None, Comp::Lz4(3), Comp::Lzma(1), Comp::Zstd(3)][(i % 4) as usize];
            let hint = [Hint::Yes, Hint::No, Hint::Detect][(i / 4 % 3) as usize];
            let fill = [Fill::Zero, Fill::Rand, Fill::Text, Fill::Half][(i / 12 % 4) as usize].clone();
            let len = [0usize, 1, 2, 100, 4095, 4096, 4097, 100_000][(i / 48 % 8) as usize];
            let mut it = Item {
                blob: Blob::new(len, fill, 5),
                cut: 0,
                flip: None,
                hint,
                src: gen_src(r, len),
            };
            let mut v = vec![it.clone()];
            if r.chance(1, 2) {
                it.src = gen_src(r, len);
                v.push(it);
            }
            if r.chance(1, 2) {
                let k = r.below(v.len() as u64 + 1) as usize;
                let o = item(r, 300);
                v.insert(k, o);
            }
            Case {
                through,
                dedup,
                comp,
                items: v,
                extra: vec![],
            }
        }
        "small" => {
            let n = log_len(r, 6) + 1;
            let max = *pick(r, &[3usize, 40, 9000]);
            let extra = if matches!(through, Through::Basic(_, Some(_))) {
                items(r, 4, 300, 2000, one)
            } else {
                vec![]
            };
            Case {
                comp: gen_comp(r),
                items: items(r, n, max, 100_000, one),
                through,
                dedup,
                extra,
            }
        }
        "many" => {
            // several clusters by count, of both kinds, with duplicates far away
            let n = r.range(4000, 9500) as usize;
            let pool = *pick(r, &[300u64, 5000, 100_000]);
            let fills = [Fill::Rand, Fill::Text];
            let v = (0..n)
                .map(|_| Item {
                    blob: Blob::new(1 + r.below(12) as usize, pick(r, &fills).clone(), r.below(pool) as u32),
                    cut: 0,
                    flip: None,
                    hint: one.unwrap_or_else(|| gen_hint(r)),
                    src: Src::Mem,
                })
                .collect();
            Case {
                through: Through::Pack,
                dedup,
                comp: gen_comp(r),
                items: v,
                extra: vec![],
            }
        }
        _ => {
            // contents around and above the size of a cluster (the adder does not keep these in memory)
            let big = *pick(r, &[(4usize << 20) - 1, 4 << 20, (4 << 20) + 1, 5_000_000, 8_500_000]);
            let base = Item {
                blob: Blob::new(big, pick(r, &[Fill::Rand, Fill::Text, Fill::Zero]).clone(), 3),
                cut: 0,
                flip: None,
                hint: gen_hint(r),
                src: Src::Mem,
            };
            let mut v = vec![base.clone()];
            for _ in 0..r.range(1, 4) {
                let mut b = base.clone();
                match r.below(5) {
                    0 => b.flip = Some(big as u32 - 1),
                    1 => b.flip = Some(r.below(big as u64) as u32),
                    2 => b.cut = 1,
                    _ => {}
                }
                b.src = match r.below(4) {
                    0 => Src::Mem,
                    1 => Src::File,
                    2 => Src::Range(r.range(1, 9000) as u32, r.range(0, 9000) as u32),
                    _ => Src::Range(0, r.range(1, 90) as u32),
                };
                if r.chance(1, 3) {
                    b.hint = gen_hint(r);
                }
                v.push(b);
            }
            if r.chance(1, 2) {
                let o = item(r, 5000);
                let k = r.below(v.len() as u64) as usize;
                v.insert(k, o);
            }
            if let Some(h) = one {
                v.iter_mut().for_each(|x| x.hint = h);
            }
            Case {
                through: Through::Pack,
                dedup: r.chance(4, 5),
                comp: if r.chance(1, 3) { Comp::None } else { *pick(r, &[Comp::Lz4(1), Comp::Zstd(1), Comp::Lzma(0)]) },
                items: v,
                extra: vec![],
            }
        }
    }
}

fn add(adder: &mut dyn ContentAdder, its: &[Item], data: &[Vec<u8>], dir: &Path) -> std::io::Result<Vec<(u16, u32)>> {
    let mut v = vec![];
    for (n, (i, d)) in its.iter().zip(data).enumerate() {
        let a = adder.add_content(reader_for(d, &i.src, dir, n)?, i.hint.get())?;
        v.push((a.pack_id.into_u16(), a.content_id.into_u32()));
    }
    Ok(v)
}

/// What must be the case of the contents of one pack.
#[allow(clippy::too_many_arguments)]
fn judge(
    comp: Comp,
    dedup: bool,
    its: &[Item],
    data: &[Vec<u8>],
    addrs: &[(u16, u32)],
    id: u16,
    p: &ContentD,
    file: &[u8],
    out: &mut Outcome,
) -> Result<(), (&'static str, String)> {
    // identical contents share the address, others do not
    let mut by_content: HashMap<&[u8], Vec<usize>> = HashMap::new();
    for (k, d) in data.iter().enumerate() {
        by_content.entry(d).or_default().push(k);
    }
    let groups: Vec<Vec<usize>> = if dedup {
        let mut g: Vec<Vec<usize>> = by_content.into_values().collect();
        g.sort();
        g
    } else {
        (0..data.len()).map(|k| vec![k]).collect()
    };
    let mut owner: BTreeMap<(u16, u32), usize> = BTreeMap::new();
    for (n, g) in groups.iter().enumerate() {
        for k in g {
            if addrs[*k] != addrs[g[0]] {
                return Err((
                    "dedup-address",
                    format!("contents {} and {k} are identical and have addresses {:?} and {:?}", g[0], addrs[g[0]], addrs[*k]),
                ));
            }
        }
        if let Some(o) = owner.insert(addrs[g[0]], n) {
            return Err((
                "address",
                format!("contents {} and {} share address {:?}", groups[o][0], g[0], addrs[g[0]]),
            ));
        }
    }
    if p.contents.len() != groups.len() {
        return Err((
            "stored-count",
            format!("{} contents are stored for {} to store", p.contents.len(), groups.len()),
        ));
    }
    let blobs: usize = p.clusters.iter().map(|c| c.bounds.len() - 1).sum();
    if blobs != groups.len() {
        return Err(("stored-count", format!("the clusters hold {blobs} blobs for {} contents", groups.len())));
    }
    for (n, c) in p.clusters.iter().enumerate() {
        if c.comp != 0 && c.comp != comp.code() {
            return Err((
                "algorithm",
                format!("cluster {n} is stored with compression {} in a pack of {}", c.comp, comp.name()),
            ));
        }
    }
    for g in &groups {
        let a = addrs[g[0]];
        if a.0 != id {
            return Err(("address", format!("address {a:?} in pack {id}")));
        }
        let Some(&(cl, bl)) = p.contents.get(a.1 as usize) else {
            return Err(("address", format!("address {a:?} of {} contents", p.contents.len())));
        };
        let want = &data[g[0]];
        if p.get(a.1 as usize) != &want[..] {
            return Err((
                "bytes",
                format!("content {} stored as {} instead of {}", g[0], brief(p.get(a.1 as usize)), brief(want)),
            ));
        }
        let c = &p.clusters[cl as usize];
        let yes = g.iter().any(|k| its[*k].hint == Hint::Yes);
        let no = g.iter().any(|k| its[*k].hint == Hint::No);
        let first = its[g[0]].hint;
        if comp == Comp::None || (no && !yes && first == Hint::No) {
            if c.comp != 0 {
                return Err((
                    "hint-no",
                    format!("content {} must not be compressed and is in cluster {cl} of compression {}", g[0], c.comp),
                ));
            }
            // verbatim in the file
            let lo = c.stored.start + c.bounds[bl as usize];
            if &file[lo..lo + want.len()] != &want[..] {
                return Err(("hint-no", format!("content {} is not verbatim in the file", g[0])));
            }
            out.tag("verbatim");
        } else if yes && !no && first == Hint::Yes {
            if c.comp != comp.code() {
                return Err((
                    "hint-yes",
                    format!(
                        "content {} must be compressed with {} and is in cluster {cl} of compression {}",
                        g[0],
                        comp.name(),
                        c.comp
                    ),
                ));
            }
            out.tag(format!("compressed_{}", comp.name()));
        } else {
            out.tag("free_choice");
        }
        if g.len() > 1 {
            out.tagn("shared_address", g.len() as u64);
        }
    }
    Ok(())
}

fn mini_dir() -> Dir {
    Dir {
        stores: vec![],
        estores: vec![EStore {
            common: vec![Prop {
                name: "a".into(),
                kind: PKind::U,
            }],
            variants: vec![],
            sort: None,
            entries: vec![Entry {
                variant: 0,
                vals: vec![V::U(7)],
            }],
        }],
        indexes: vec![],
    }
}

struct Fin(Dir);
impl jbk::creator::EntryStoreTrait for Fin {
    fn finalize(self: Box<Self>, dp: &mut jbk::creator::DirectoryPackCreator) {
        build_dir(&self.0, &[]).into_pack(dp);
    }
}

fn run_case(c: &Case, dir: &Path) -> Outcome {
    let mut out = Outcome::pass();
    let data: Vec<Vec<u8>> = c.items.iter().map(|i| i.bytes()).collect();
    let xdata: Vec<Vec<u8>> = c.extra.iter().map(|i| i.bytes()).collect();
    let create = |e: &dyn std::fmt::Display| Outcome::failed("create", format!("create: {e}"));
    macro_rules! t {
        ($e:expr) => {
            match $e {
                Ok(v) => v,
                Err(e) => return create(&e),
            }
        };
    }
    let inputs = dir.join("in");
    std::fs::create_dir_all(&inputs).unwrap();
    let path = dir.join("c.jbk");
    let mut xaddrs = vec![];
    let addrs;
    // pack id -> file, decoded pack
    let mut found: BTreeMap<u16, (std::path::PathBuf, ContentD)> = BTreeMap::new();
    match &c.through {
        Through::Pack => {
            let cr = t!(jbk::creator::ContentPackCreator::new(
                utf8(&path),
                jbk::PackId::from(1u16),
                vendor(),
                Default::default(),
                c.comp.get(),
            ));
            let cr = if c.dedup {
                let mut a = jbk::creator::CachedContentAdder::new(cr, Rc::new(()));
                addrs = t!(add(&mut a, &c.items, &data, &inputs));
                a.into_inner()
            } else {
                let mut a = cr;
                addrs = t!(add(&mut a, &c.items, &data, &inputs));
                a
            };
            t!(cr.finalize());
            let b = std::fs::read(&path).unwrap();
            let d = match decoder::decode_file(&b, false) {
                Ok(d) => d,
                Err(e) => return Outcome::failed("layout", format!("the written pack does not decode: {e}")),
            };
            match d.body {
                decoder::Body::Content(p) => {
                    found.insert(1, (path.clone(), p));
                }
                _ => return Outcome::failed("layout", "not a content pack"),
            }
        }
        Through::Basic(pk, extra) => {
            let mut cr = t!(jbk::creator::BasicCreator::new(
                utf8(&path),
                pk.get(),
                vendor(),
                c.comp.get(),
                Arc::new(())
            ));
            let mut extras: Vec<jbk::creator::ContentPackCreator<dyn jbk::creator::PackRecipient>> = vec![];
            if let Some(comp) = extra {
                let o: Box<dyn jbk::creator::PackRecipient> =
                    t!(jbk::creator::AtomicOutFile::new(utf8(&dir.join("x.jbkc"))));
                let x = t!(jbk::creator::ContentPackCreator::<dyn jbk::creator::PackRecipient>::new_from_output(
                    o,
                    2u16.into(),
                    vendor(),
                    Default::default(),
                    comp.get()
                ));
                let xin = dir.join("xin");
                std::fs::create_dir_all(&xin).unwrap();
                if c.dedup {
                    let mut a = jbk::creator::CachedContentAdder::new(x, Rc::new(()));
                    xaddrs = t!(add(&mut a, &c.extra, &xdata, &xin));
                    extras.push(a.into_inner());
                } else {
                    let mut a = x;
                    xaddrs = t!(add(&mut a, &c.extra, &xdata, &xin));
                    extras.push(a);
                }
            }
            let cr = if c.dedup {
                let mut a = jbk::creator::CachedContentAdder::new(cr, Rc::new(()));
                addrs = t!(add(&mut a, &c.items, &data, &inputs));
                a.into_inner()
            } else {
                addrs = t!(add(&mut cr, &c.items, &data, &inputs));
                cr
            };
            t!(cr.finalize(Box::new(Fin(mini_dir())), extras));
            let d = match decoder::decode_all(&path, false) {
                Ok(d) => d,
                Err(e) => return Outcome::failed("layout", format!("the written container does not decode: {e}")),
            };
            // which file holds which pack
            for i in &d.manifest.infos {
                let f = std::iter::once((&path, &d.entry))
                    .chain(d.files.iter().map(|(p, f)| (p, f)))
                    .find(|(_, f)| f.leaves().iter().any(|l| l.uuid == i.uuid))
                    .map(|x| x.0.clone());
                if let (Some(f), Some(p)) = (f, d.contents.get(&i.id)) {
                    if i.kind == b'c' {
                        found.insert(i.id, (f, p.clone()));
                    }
                }
            }
            out.tag(pk.name());
        }
    }
    let mut todo = vec![(1u16, c.comp, &c.items, &data, &addrs)];
    if let Through::Basic(_, Some(comp)) = &c.through {
        todo.push((2, *comp, &c.extra, &xdata, &xaddrs));
    }
    for (id, comp, its, data, addrs) in todo {
        let Some((f, p)) = found.get(&id) else {
            return Outcome::failed("layout", format!("pack {id} is not in the container"));
        };
        let b = std::fs::read(f).unwrap();
        if let Err((s, m)) = judge(comp, c.dedup, its, data, addrs, id, p, &b, &mut out) {
            return Outcome::failed(s, format!("pack {id} ({}): {m}", comp.name()));
        }
    }
    if c.dedup {
        out.tag("dedup");
    }
    out.evals = (c.items.len() + c.extra.len()).max(1) as u64;
    out.nontrivial = !c.items.is_empty() && c.items.iter().any(|i| i.hint != Hint::Detect);
    out
}

impl Check for C16 {
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when at least one content is inserted with an explicit hint; one evaluation = one insertion whose stored form is looked at by the independent decoder".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "where identical contents are added through the deduplicating adder with opposite hints, either form is accepted".into(),
            "the hint 'detect' leaves the choice to the creator".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("big", t.n(240, 3000)).par(5),
            Group::new("table", t.n(384 * 4, 384 * 40)),
            Group::new("many", t.n(150, 1500)).par(6),
            Group::new("small", t.n(40_000, 800_000)),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        run_case(&c, &ctx.dir)
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        let mut v = vec![];
        let n = c.items.len();
        let mut k = n / 2;
        while k >= 1 {
            for lo in (0..n).step_by(k) {
                let mut d = c.clone();
                d.items.drain(lo..(lo + k).min(n));
                v.push(d);
            }
            k /= 2;
        }
        if c.through != Through::Pack && c.extra.is_empty() {
            v.push(Case {
                through: Through::Pack,
                ..c.clone()
            });
        }
        if !c.extra.is_empty() {
            v.push(Case {
                extra: vec![],
                ..c.clone()
            });
        }
        for k in 0..n.min(30) {
            let mut d = c.clone();
            if d.items[k].src != Src::Mem {
                d.items[k].src = Src::Mem;
                v.push(d);
            }
        }
        v.iter().map(|c| serde_json::to_string(c).unwrap()).collect()
    }
}
