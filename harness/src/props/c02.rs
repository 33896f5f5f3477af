//! C02: entries read back with exactly the property values they were written with.
use super::*;

use crate::gen::*;
use crate::model::*;
use crate::read;
use crate::util::*;
use jubako as jbk;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::collections::{HashMap, HashSet};
use std::path::Path;

pub struct C02;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub dir: Dir,
    /// written as a bare directory pack instead of inside a container
    #[serde(default)]
    pub standalone: bool,
}

fn prop(name: impl Into<String>, kind: PKind) -> Prop {
    Prop { name: name.into(), kind }
}

fn one_store(es: EStore, stores: Vec<bool>) -> Dir {
    let n = es.entries.len() as u32;
    Dir {
        stores,
        estores: vec![es],
        indexes: vec![Idx {
            name: "i".into(),
            store: 0,
            offset: 0,
            count: n,
            offset_of: None,
            key: 0,
        }],
    }
}

pub fn s_bounds() -> Vec<i64> {
    let mut v = vec![0i64, 1, -1, 2, -2];
    for b in [7u32, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 63] {
        let p = 1i128 << b;
        for d in [-1i128, 0, 1] {
            for x in [p + d, -p + d] {
                if let Ok(y) = i64::try_from(x) {
                    v.push(y);
                }
            }
        }
    }
    v.sort();
    v.dedup();
    v
}
pub fn u_bounds() -> Vec<u64> {
    let mut v = vec![0u64, 1, 2];
    for b in [7u32, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 63, 64] {
        let p = 1i128 << b;
        for d in [-1i128, 0, 1] {
            if let Ok(y) = u64::try_from(p + d) {
                v.push(y);
            }
        }
    }
    v.sort();
    v.dedup();
    v
}

fn windows(r: &mut Rng, d: &mut Dir) {
    // windows at the edges and beyond the store
    let n = d.estores[0].entries.len() as u32;
    for k in 0..r.below(4) {
        let (o, c) = match r.below(6) {
            0 => (n, 0),
            1 => (0, 0),
            2 => (0, n + r.below(5) as u32),
            3 => (r.below(n as u64 + 1) as u32, n),
            4 => (n + r.below(3) as u32, r.below(4) as u32),
            _ => {
                let o = r.below(n as u64 + 1) as u32;
                (o, r.below((n - o) as u64 + 1) as u32)
            }
        };
        d.indexes.push(Idx {
            name: format!("w{k}"),
            store: 0,
            offset: o,
            count: c,
            offset_of: None,
            key: r.below(3) as u8,
        });
    }
}

pub fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    let mut d = match group {
        "dirs" => {
            let (me, mp, ma) = *pick(r, &[(30, 5, 300), (120, 4, 60), (8, 9, 600), (3, 12, 60)]);
            gen_dir(
                r,
                &DirOpts {
                    max_entries: me,
                    max_props: mp,
                    max_array: ma,
                    ..Default::default()
                },
            )
        }
        "bigarr" => gen_dir(
            r,
            &DirOpts {
                max_entries: 20,
                max_props: 3,
                max_array: 70_000,
                max_estores: 1,
                ..Default::default()
            },
        ),
        "entries" => gen_dir(
            r,
            &DirOpts {
                max_entries: 5000,
                max_props: 3,
                max_array: 12,
                max_estores: 1,
                ..Default::default()
            },
        ),
        "ints" => {
            // columns over pairs of boundaries; the pairs are enumerated by i
            let (sb, ub) = (s_bounds(), u_bounds());
            let mut common = vec![];
            let mut rows: Vec<Vec<V>> = vec![vec![], vec![], vec![]];
            for k in 0..24u64 {
                let idx = i * 24 + k;
                if k % 3 < 2 {
                    let n = sb.len() as u64;
                    let (a, b) = (sb[(idx % n) as usize], sb[(idx / n % n) as usize]);
                    common.push(prop(format!("s{k}"), PKind::S));
                    let c = if r.chance(1, 2) { a } else { *pick(r, &sb) };
                    for (row, x) in rows.iter_mut().zip([a, b, c]) {
                        row.push(V::S(x));
                    }
                } else {
                    let n = ub.len() as u64;
                    let (a, b) = (ub[(idx % n) as usize], ub[(idx / n % n) as usize]);
                    common.push(prop(format!("u{k}"), PKind::U));
                    let c = if r.chance(1, 2) { a } else { *pick(r, &ub) };
                    for (row, x) in rows.iter_mut().zip([a, b, c]) {
                        row.push(V::U(x));
                    }
                }
            }
            rows.truncate(r.range(1, 3) as usize);
            one_store(
                EStore {
                    common,
                    variants: vec![],
                    sort: None,
                    entries: rows.into_iter().map(|vals| Entry { variant: 0, vals }).collect(),
                },
                vec![],
            )
        }
        "variants" => {
            // many variants, some without property or with constant columns only, some never used
            let nv = *pick(r, &[1usize, 2, 3, 7, 30, 63, 126, 127, 128, 200, 254, 255, 256, 257, 300]);
            let wide = r.chance(1, 4);
            let mut common = vec![];
            if r.chance(2, 3) {
                common.push(prop("c0", PKind::U));
            }
            let variants: Vec<(String, Vec<Prop>)> = (0..nv)
                .map(|k| {
                    let n = if nv > 128 { 0 } else { r.below(if nv > 60 { 2 } else { 4 }) };
                    (
                        format!("var{k}"),
                        (0..n)
                            .map(|p| {
                                prop(
                                    if r.chance(1, 2) { format!("x{p}") } else { format!("v{k}x{p}") },
                                    match r.below(4) {
                                        0 => PKind::A(if wide { 31 } else { r.below(5) as u8 }, 0),
                                        1 => PKind::S,
                                        2 => PKind::C,
                                        _ => PKind::U,
                                    },
                                )
                            })
                            .collect(),
                    )
                })
                .collect();
            let konst = r.chance(1, 3);
            let ne = r.below(60);
            let entries = (0..ne)
                .map(|_| {
                    let v = match r.below(4) {
                        0 => nv - 1,
                        1 => 0,
                        _ => r.below(nv as u64) as usize,
                    };
                    // numbered from 256 on, the id itself is not representable
                    let v = v.min(255) as u8;
                    let val = |r: &mut Rng, p: &Prop| match p.kind {
                        PKind::U => V::U(if konst { 5 } else { edge_u(r, 3) }),
                        PKind::S => V::S(if konst { -5 } else { edge_s(r, 3) }),
                        PKind::A(..) => {
                            let n = r.below(40) as usize;
                            V::A(bytes_of(r, n, 2))
                        }
                        PKind::C => V::C(if konst { 1 } else { r.below(300) as u16 }, r.below(70000) as u32),
                    };
                    let mut vals: Vec<V> = common.iter().map(|p| val(r, p)).collect();
                    vals.extend(variants[v as usize].1.iter().map(|p| val(r, p)));
                    Entry { variant: v, vals }
                })
                .collect();
            one_store(
                EStore {
                    common,
                    variants,
                    sort: None,
                    entries,
                },
                vec![r.chance(1, 2)],
            )
        }
        "columns" => {
            // many properties, long names: around the limits of the layout description
            let n = *pick(r, &[60usize, 120, 200, 250, 254, 255, 256, 257, 300]);
            let nl = *pick(r, &[4usize, 4, 40, 200, 250, 255, 256]);
            let common: Vec<Prop> = (0..n)
                .map(|k| {
                    let mut s = format!("{k}-");
                    while s.len() < nl && k < 258 {
                        s.push('n');
                    }
                    prop(s, if r.chance(1, 2) { PKind::U } else { PKind::S })
                })
                .collect();
            let konst = r.chance(1, 2);
            let entries = (0..r.range(0, 3))
                .map(|_| Entry {
                    variant: 0,
                    vals: common
                        .iter()
                        .map(|p| match p.kind {
                            PKind::U => V::U(if konst { 3 } else { edge_u(r, 2) }),
                            _ => V::S(if konst { 3 } else { edge_s(r, 2) }),
                        })
                        .collect(),
                })
                .collect();
            one_store(
                EStore {
                    common,
                    variants: vec![],
                    sort: None,
                    entries,
                },
                vec![],
            )
        }
        "arrays" => {
            // exhaustive: inline prefix 0..=40 x store kind; lengths around it. Above 31 is not representable
            let p = (i % 41) as u8;
            let indexed = i / 41 % 2 == 1;
            let nb = r.range(1, 3) as usize;
            let common: Vec<Prop> = (0..nb)
                .map(|k| prop(format!("a{k}"), PKind::A(if k == 0 { p } else { r.below(32) as u8 }, 0)))
                .collect();
            let alpha = r.below(5) as u8;
            let ne = r.range(1, 40);
            let entries = (0..ne)
                .map(|_| Entry {
                    variant: 0,
                    vals: common
                        .iter()
                        .map(|_| {
                            let n = match r.below(4) {
                                0 => p as usize,
                                1 => r.below(p as u64 + 1) as usize,
                                2 => p as usize + r.below(5) as usize,
                                _ => r.below(60) as usize,
                            };
                            V::A(bytes_of(r, n, alpha))
                        })
                        .collect(),
                })
                .collect();
            one_store(
                EStore {
                    common,
                    variants: vec![],
                    sort: if r.chance(1, 2) { Some(vec!["a0".into()]) } else { None },
                    entries,
                },
                vec![indexed],
            )
        }
        "addresses" => {
            let common = (0..4).map(|k| prop(format!("c{k}"), PKind::C)).collect::<Vec<_>>();
            let w: Vec<(u64, u64)> = (0..4).map(|_| (r.range(0, 2), r.range(1, 4))).collect();
            let ne = r.range(1, 12);
            let entries = (0..ne)
                .map(|_| Entry {
                    variant: 0,
                    vals: w
                        .iter()
                        .map(|(a, b)| {
                            V::C(
                                if *a == 0 { 513 } else { edge_u(r, *a) as u16 },
                                edge_u(r, *b) as u32,
                            )
                        })
                        .collect(),
                })
                .collect();
            one_store(
                EStore {
                    common,
                    variants: vec![],
                    sort: None,
                    entries,
                },
                vec![],
            )
        }
        "stores" => {
            // many distinct values in one indexed store, or many value stores
            if i % 3 == 0 {
                let ns = *pick(r, &[100usize, 254, 255, 256, 257, 300]);
                let common: Vec<Prop> = (0..ns.min(200))
                    .map(|k| prop(format!("a{k}"), PKind::A(r.below(3) as u8, (k + ns - ns.min(200)).min(255) as u8)))
                    .collect();
                let entries = (0..2)
                    .map(|_| Entry {
                        variant: 0,
                        vals: common
                            .iter()
                            .map(|_| {
                                let n = r.below(6) as usize;
                                V::A(bytes_of(r, n, 0))
                            })
                            .collect(),
                    })
                    .collect();
                let es = EStore {
                    common,
                    variants: vec![],
                    sort: None,
                    entries,
                };
                one_store(es, (0..ns).map(|k| k % 2 == 0).collect())
            } else {
                // tail of the store description is 16 bits wide
                let n = *pick(r, &[1000u32, 8000, 16_000, 16_400, 21_000, 22_000, 32_700, 32_800, 33_000, 66_000]);
                let len = *pick(r, &[2usize, 3, 4, 9]);
                let entries = (0..n)
                    .map(|k| {
                        let mut b = (k as u64).to_be_bytes()[8 - len.min(8)..].to_vec();
                        b.resize(len, 7);
                        Entry {
                            variant: 0,
                            vals: vec![V::A(b)],
                        }
                    })
                    .collect();
                one_store(
                    EStore {
                        common: vec![prop("a", PKind::A(if i % 2 == 0 { 0 } else { r.below(3) as u8 }, 0))],
                        variants: vec![],
                        sort: None,
                        entries,
                    },
                    vec![i % 3 == 1],
                )
            }
        }
        "long" => {
            // 16 MiB is the longest array
            let n = [0xff_fffeusize, 0xff_ffff, 0x100_0000, 0x100_0001][(i % 4) as usize];
            let p = *pick(r, &[0u8, 1, 2, 3, 31]);
            one_store(
                EStore {
                    common: vec![prop("a", PKind::A(p, 0))],
                    variants: vec![],
                    sort: None,
                    entries: vec![
                        Entry {
                            variant: 0,
                            vals: vec![V::B(Blob::new(n, Fill::Rand, 1))],
                        },
                        Entry {
                            variant: 0,
                            vals: vec![V::A(vec![1, 2, 3])],
                        },
                    ],
                },
                vec![i / 4 % 2 == 0],
            )
        }
        _ => unreachable!(),
    };
    windows(r, &mut d);
    Case {
        dir: d,
        standalone: r.chance(1, 3),
    }
}

/// Is the directory certainly representable in the format? (documented widths only: 255 properties and variants,
/// 31 inline bytes, 255 stores, 24 bits array lengths, 16 bits for the size of a table description)
pub fn representable(d: &Dir) -> bool {
    if d.stores.len() > 255 || d.indexes.iter().any(|i| i.name.len() > 255) {
        return false;
    }
    let mut distinct: HashMap<usize, (HashSet<Vec<u8>>, u64)> = HashMap::new();
    for es in &d.estores {
        let psize = |p: &Prop| match p.kind {
            PKind::U | PKind::S => 8usize,
            PKind::A(n, _) => n as usize + 3 + 7,
            PKind::C => 6,
        };
        let all: Vec<&Prop> = es.common.iter().chain(es.variants.iter().flat_map(|v| v.1.iter())).collect();
        if all
            .iter()
            .any(|p| p.name.len() > 255 || matches!(p.kind, PKind::A(n, _) if n > 31))
        {
            return false;
        }
        let vmax = es
            .variants
            .iter()
            .map(|v| v.1.iter().map(psize).sum::<usize>())
            .max()
            .unwrap_or(0);
        let keys = all.len() + es.variants.len() * (1 + vmax.div_ceil(16));
        if es.variants.len() > 255 || keys > 255 {
            return false;
        }
        let names: usize = all.iter().map(|p| p.name.len() + 12).sum::<usize>()
            + es.variants.iter().map(|v| v.0.len() + 2 + vmax / 16).sum::<usize>();
        if names > 65_000 {
            return false;
        }
        for e in &es.entries {
            let ps: Vec<&Prop> = if es.variants.is_empty() {
                es.common.iter().collect()
            } else {
                match es.variants.get(e.variant as usize) {
                    None => return false,
                    Some(v) => es.common.iter().chain(v.1.iter()).collect(),
                }
            };
            for (p, v) in ps.iter().zip(&e.vals) {
                if let PKind::A(n, s) = p.kind {
                    let b = match v {
                        V::A(b) => b.clone(),
                        V::B(b) => b.bytes(),
                        _ => return false,
                    };
                    if b.len() > 0xff_ffff {
                        return false;
                    }
                    let e = distinct.entry(s as usize).or_default();
                    let rest = b[(n as usize).min(b.len())..].to_vec();
                    e.1 += rest.len() as u64;
                    e.0.insert(rest);
                }
            }
        }
    }
    for (s, (set, size)) in &distinct {
        if d.stores[*s] {
            let w = (64 - size.leading_zeros() as u64).div_ceil(8).max(1);
            if set.len() as u64 * w + 40 > 0xffff {
                return false;
            }
        }
    }
    true
}

pub struct Opened {
    pub store: Box<dyn Fn(&jbk::reader::Index) -> jbk::Result<jbk::reader::EntryStore>>,
    pub vstorage: std::sync::Arc<jbk::reader::ValueStorage>,
    pub index: Box<dyn Fn(&str) -> jbk::Result<Option<jbk::reader::Index>>>,
}

pub fn open_dir(path: &Path, standalone: bool) -> Result<Opened, String> {
    if standalone {
        let f = jbk::FileSource::open(path).map_err(|e| e.to_string())?;
        let d = std::sync::Arc::new(
            jbk::reader::DirectoryPack::new(f.into()).map_err(|e| format!("directory pack: {e}"))?,
        );
        let es = d.create_entry_storage();
        Ok(Opened {
            store: Box::new(move |i| i.get_store(&es)),
            vstorage: d.create_value_storage(),
            index: Box::new(move |n| d.get_index_from_name(n)),
        })
    } else {
        let c = read::open(path)?;
        let es = std::sync::Arc::clone(c.get_entry_storage());
        Ok(Opened {
            store: Box::new(move |i| i.get_store(&es)),
            vstorage: std::sync::Arc::clone(c.get_value_storage()),
            index: Box::new(move |n| c.get_index_for_name(n)),
        })
    }
}

/// Builds the directory alone: (positions per store)
pub fn build_standalone(d: &Dir, path: &Path) -> Result<Vec<Vec<u32>>, String> {
    let mut dp = jbk::creator::DirectoryPackCreator::new(jbk::PackId::from(0u16), vendor(), Default::default());
    let db = build_dir(d, &[]);
    let bounds: Vec<Vec<_>> = db.bounds.iter().map(|b| b.to_vec()).collect();
    db.into_pack(&mut dp);
    let fin = dp.finalize().map_err(|e| format!("finalize: {e}"))?;
    let mut f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path)
        .map_err(|e| e.to_string())?;
    fin.write(&mut f).map_err(|e| format!("write: {e}"))?;
    Ok(bounds
        .iter()
        .map(|b| b.iter().map(|x| x.get().into_u32()).collect())
        .collect())
}

pub fn container_spec(d: &Dir) -> Spec {
    Spec {
        comp: Comp::None,
        packaging: Packaging::One,
        cached: false,
        contents: vec![],
        extra: vec![],
        dir: d.clone(),
    }
}

pub fn build_any(d: &Dir, standalone: bool, dir: &Path) -> Result<(std::path::PathBuf, Vec<Vec<u32>>), String> {
    if standalone {
        let p = dir.join("d.jbkd");
        guard(|| build_standalone(d, &p)).and_then(|x| x).map(|x| (p, x))
    } else {
        let p = dir.join("c.jbk");
        let s = container_spec(d);
        guard(|| build(&s, &p, dir)).and_then(|x| x).map(|b| (p, b.positions))
    }
}

/// reads all indexes through both builders; Err((signature, message))
pub fn compare_dir(d: &Dir, o: &Opened, positions: &[Vec<u32>], any: bool, typed: bool) -> Result<u64, (String, String)> {
    let mut values = 0;
    let f = |s: &str, m: String| Err((s.to_string(), m));
    let mut cache: HashMap<u32, Vec<EntryD>> = HashMap::new();
    for i in &d.indexes {
        let es = &d.estores[i.store as usize];
        let all = cache
            .entry(i.store)
            .or_insert_with(|| expect_store(es, &[], positions, i.store as usize));
        let n = all.len();
        let want_off = match i.offset_of {
            None => i.offset,
            Some(k) => positions[i.store as usize][k as usize],
        };
        let index = match (o.index)(&i.name) {
            Ok(Some(x)) => x,
            Ok(None) => return f("index", format!("index {} not found", i.name)),
            Err(e) => return f("index", format!("index {}: {e}", i.name)),
        };
        let got = (
            index.get_store_id().into_u32(),
            index.offset().into_u32(),
            index.count().into_u32(),
        );
        if got != (i.store, want_off, i.count) {
            return f(
                "window",
                format!("index {}: (store, offset, count) declared {:?}, read {got:?}", i.name, (i.store, want_off, i.count)),
            );
        }
        let store = match (o.store)(&index) {
            Ok(s) => s,
            Err(e) => return f("open", format!("entry store {}: {e}", i.store)),
        };
        let names = read::names_of(&store);
        {
            // schema shape
            let mut wc: Vec<String> = es.common.iter().map(|p| p.name.clone()).collect();
            wc.sort();
            let wv: Vec<String> = es.variants.iter().map(|v| v.0.clone()).collect();
            if names.common != wc || names.variant_names != wv {
                return f("schema", format!("store {}: schema written common {wc:?} variants {wv:?}, read {:?} {:?}", i.store, names.common, names.variant_names));
            }
            for (k, v) in es.variants.iter().enumerate() {
                let mut w: Vec<String> = v.1.iter().map(|p| p.name.clone()).collect();
                w.sort();
                if names.variants[k] != w {
                    return f("schema", format!("variant {}: written {w:?}, read {:?}", v.0, names.variants[k]));
                }
            }
        }
        use jbk::reader::Range;
        let mut ids: Vec<u32> = (0..i.count).collect();
        ids.extend([i.count, i.count + 1, i.count.wrapping_add(n as u32), u32::MAX - 1]);
        let check = |k: u32, e: jbk::Result<Option<EntryD>>, how: &str| -> Result<u64, (String, String)> {
            let want = if k < i.count { all.get(want_off as usize + k as usize) } else { None };
            match (want, e) {
                (None, Ok(None)) => Ok(0),
                // beyond the window an error is an honest answer, except when the store simply ends
                (None, Err(_)) if k >= i.count => Ok(0),
                (None, Err(e)) => f("beyond", format!("index {} entry {k} of {}: error {e} ({how})", i.name, i.count)),
                (None, Ok(Some(_))) => f(
                    "beyond",
                    format!("index {} exposes an entry at {k}, its window has {} entries ({how})", i.name, i.count),
                ),
                (Some(_), Ok(None)) => f("value", format!("index {} entry {k}: absent ({how})", i.name)),
                (Some(_), Err(e)) => f("value", format!("index {} entry {k}: {e} ({how})", i.name)),
                (Some(w), Ok(Some(g))) => match diff_entry(w, &g) {
                    None => Ok(w.props.len() as u64),
                    Some(m) => f("value", format!("index {} entry {k}: {m} ({how})", i.name)),
                },
            }
        };
        let beyond_ok = |k: u32| k as u64 + (want_off as u64) < u32::MAX as u64;
        if any {
            let b = match jbk::reader::builder::AnyBuilder::new(std::sync::Arc::clone(&store), o.vstorage.as_ref()) {
                Ok(b) => b,
                Err(e) => return f("open", format!("AnyBuilder: {e}")),
            };
            for k in ids.iter().filter(|k| beyond_ok(**k)) {
                let e = match index.get_entry(&b, (*k).into()) {
                    Ok(None) => Ok(None),
                    Ok(Some(e)) => read::read_entry(&e, &names).map(Some),
                    Err(e) => Err(e),
                };
                values += check(*k, e, "AnyBuilder")?;
            }
        }
        if typed {
            let t = match read::TypedBuilder::new(es, store, o.vstorage.as_ref()) {
                Ok(b) => b,
                Err(e) => return f("typed", e),
            };
            for k in ids.iter().filter(|k| beyond_ok(**k)) {
                values += check(*k, index.get_entry(&t, (*k).into()), "typed builder")?;
            }
        }
    }
    Ok(values)
}

fn run_case(c: &Case, dir: &Path) -> Outcome {
    let rep = representable(&c.dir);
    let mut out = Outcome::pass();
    let (path, positions) = match build_any(&c.dir, c.standalone, dir) {
        Ok(x) => x,
        Err(e) => {
            if rep {
                return Outcome::failed("create", format!("creation of a representable directory fails: {e}"));
            }
            out.tag("unrepresentable_creation_failed");
            out.nontrivial = true;
            return out;
        }
    };
    take_panics();
    for (es, pos) in c.dir.estores.iter().zip(&positions) {
        let mut p = pos.clone();
        p.sort();
        if p != (0..es.entries.len() as u32).collect::<Vec<_>>() {
            return Outcome::failed("positions", format!("reported positions {pos:?} are not a permutation"));
        }
        if es.sort.is_none() && pos.windows(2).any(|w| w[0] > w[1]) {
            return Outcome::failed("order", "entries of an unsorted store are not kept in insertion order");
        }
    }
    let o = match open_dir(&path, c.standalone) {
        Ok(o) => o,
        Err(e) => return Outcome::failed("open", e),
    };
    match compare_dir(&c.dir, &o, &positions, true, true) {
        Err((s, m)) => return Outcome::failed(s, m),
        Ok(n) => {
            out.evals = n.max(1);
            out.tagn("values", n);
        }
    }
    if !rep {
        out.tag("at_the_limit_creation_succeeded");
    }
    let n: usize = c.dir.estores.iter().map(|e| e.entries.len()).sum();
    out.nontrivial = n >= 1;
    out.tag(if c.standalone { "standalone" } else { "container" });
    for e in &c.dir.estores {
        out.tag(match e.variants.len() {
            0 => "no_variant",
            1..=10 => "variants",
            _ => "many_variants",
        });
        if e.sort.is_some() {
            out.tag("sorted");
        }
        for p in e.common.iter().chain(e.variants.iter().flat_map(|v| v.1.iter())) {
            out.tag(match p.kind {
                PKind::U => "col_unsigned",
                PKind::S => "col_signed",
                PKind::C => "col_content",
                PKind::A(0, s) if c.dir.stores[s as usize] => "col_array_indirect",
                PKind::A(_, s) if c.dir.stores[s as usize] => "col_array_indexed",
                PKind::A(..) => "col_array_plain",
            });
        }
    }
    out
}

fn valid(d: &Dir) -> bool {
    let mut x = d.clone();
    for i in &mut x.indexes {
        if i.store as usize >= x.estores.len() {
            return false;
        }
        if i.offset_of.is_none() {
            i.offset = 0;
            i.count = 0;
        }
    }
    x.valid(0)
}

impl Check for C02 {
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when it has at least one entry, or is a directed unrepresentable schema/value whose creation failed; one evaluation = one property value read back and compared (through AnyBuilder or through the typed builders)".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["representability is judged from the documented field widths; a creation that fails outside of them is not a violation".into()]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("long", t.n(8, 16)).par(2),
            Group::new("stores", t.n(36, 300)),
            Group::new("bigarr", t.n(200, 4000)),
            Group::new("entries", t.n(100, 1500)),
            Group::new("columns", t.n(150, 1500)),
            Group::new("ints", t.n(400, 2000)),
            Group::new("variants", t.n(400, 6000)),
            Group::new("arrays", t.n(820, 8200)),
            Group::new("addresses", t.n(300, 3000)),
            Group::new("dirs", t.n(5000, 100_000)),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        run_case(&c, &ctx.dir)
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json).map(|c| valid(&c.dir)).unwrap_or(false)
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        c.dir
            .smaller()
            .into_iter()
            .map(|dir| {
                serde_json::to_string(&Case {
                    dir,
                    standalone: c.standalone,
                })
                .unwrap()
            })
            .collect()
    }
}
