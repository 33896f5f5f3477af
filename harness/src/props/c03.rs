//! C03: sorted stores follow the reader's order; lookup finds exactly what was written.
use super::*;

use super::c02::{build_any, open_dir, Opened};
use crate::gen::*;
use crate::model::*;
use crate::read;
use crate::util::*;
use jubako as jbk;
use jbk::reader::{CompareTrait, Range};
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::path::Path;

pub struct C03;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub dir: Dir,
    pub standalone: bool,
    /// extra keys looked up, in the order of the sort properties
    pub probes: Vec<Vec<V>>,
}

fn key_of(es: &EStore, e: &Entry, names: &[String]) -> Vec<Val> {
    names
        .iter()
        .map(|n| {
            let k = es.common.iter().position(|p| &p.name == n).unwrap();
            expect_val(&e.vals[k], &[], &[], 0)
        })
        .collect()
}

fn all_strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for s in &last {
            for a in alpha {
                let mut t: Vec<u8> = s.clone();
                t.push(*a);
                next.push(t);
            }
        }
        v.extend(next.clone());
        last = next;
    }
    v
}

fn full_index(n: usize) -> Vec<Idx> {
    vec![Idx {
        name: "i".into(),
        store: 0,
        offset: 0,
        count: n as u32,
        offset_of: None,
        key: 0,
    }]
}

fn add_windows(r: &mut Rng, d: &mut Dir) {
    let n = d.estores[0].entries.len() as u64;
    for k in 0..r.below(3) {
        let o = r.below(n + 1);
        d.indexes.push(Idx {
            name: format!("w{k}"),
            store: 0,
            offset: o as u32,
            count: r.below(n - o + 1) as u32,
            offset_of: None,
            key: 0,
        });
    }
}

pub fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    let mut probes: Vec<Vec<V>> = vec![];
    let mut d = match group {
        // every string over a tiny alphabet, present or not, for every inline prefix length and store kind
        "strings" => {
            let p = (i % 6) as u8;
            let indexed = i / 6 % 2 == 1;
            let (alpha, max): (&[u8], usize) =
                *pick(r, &[(&[0u8, 0xff][..], 5), (&[b'a', b'b', 0][..], 3), (&[0x7f, 0x80, 0xff, 0][..], 3), (&[b'a'][..], 12)]);
            let mut all = all_strings(alpha, max);
            probes = all.iter().map(|s| vec![V::A(s.clone())]).collect();
            r.shuffle(&mut all);
            all.truncate(r.below(all.len() as u64 + 1) as usize);
            if r.chance(1, 2) {
                // duplicates
                for _ in 0..r.below(all.len() as u64 + 1) {
                    let x = pick(r, &all).clone();
                    all.push(x);
                }
            }
            let other = r.chance(1, 2);
            let mut common = vec![Prop {
                name: "k".into(),
                kind: PKind::A(p, 0),
            }];
            if other {
                common.push(Prop {
                    name: "o".into(),
                    kind: PKind::A(r.below(3) as u8, 0),
                });
            }
            let entries: Vec<Entry> = all
                .into_iter()
                .map(|s| {
                    let mut vals = vec![V::A(s)];
                    if other {
                        let n = r.below(4) as usize;
                        vals.push(V::A(bytes_of(r, n, 2)));
                    }
                    Entry { variant: 0, vals }
                })
                .collect();
            Dir {
                stores: vec![indexed],
                indexes: full_index(entries.len()),
                estores: vec![EStore {
                    common,
                    variants: vec![],
                    sort: Some(vec!["k".into()]),
                    entries,
                }],
            }
        }
        "ints" => {
            let signed = i % 2 == 0;
            let sb = super::c02::s_bounds();
            let ub = super::c02::u_bounds();
            let mut vals: Vec<V> = if signed {
                sb.iter().map(|x| V::S(*x)).collect()
            } else {
                ub.iter().map(|x| V::U(*x)).collect()
            };
            // keep the values that fit some width, so that every stored width is met
            let w = r.range(1, 8) as u32;
            vals.retain(|v| match v {
                V::S(x) => w == 8 || (x.unsigned_abs() >> (8 * w - 1)) <= 1,
                V::U(x) => w == 8 || (x >> (8 * w)) == 0,
                _ => true,
            });
            probes = vals.iter().map(|v| vec![v.clone()]).collect();
            r.shuffle(&mut vals);
            vals.truncate(r.below(vals.len() as u64 + 1) as usize);
            let entries: Vec<Entry> = vals.into_iter().map(|v| Entry { variant: 0, vals: vec![v] }).collect();
            Dir {
                stores: vec![],
                indexes: full_index(entries.len()),
                estores: vec![EStore {
                    common: vec![Prop {
                        name: "k".into(),
                        kind: if signed { PKind::S } else { PKind::U },
                    }],
                    variants: vec![],
                    sort: Some(vec!["k".into()]),
                    entries,
                }],
            }
        }
        "random" | "large" => {
            let o = DirOpts {
                max_entries: if group == "large" { 4000 } else { *pick(r, &[6, 40, 200]) },
                max_estores: 1,
                max_array: if group == "large" { 12 } else { *pick(r, &[4, 40, 300]) },
                max_props: if group == "large" { 2 } else { 4 },
                ..Default::default()
            };
            let mut d = gen_dir(r, &o);
            for _ in 0..40 {
                if d.estores[0].sort.is_some() && (group != "large" || d.estores[0].entries.len() > 300) {
                    break;
                }
                d = gen_dir(r, &o);
            }
            if d.estores[0].sort.is_none() {
                let es = EStore {
                    common: vec![Prop {
                        name: "k".into(),
                        kind: PKind::U,
                    }],
                    variants: vec![],
                    sort: Some(vec!["k".into()]),
                    entries: (0..r.below(30))
                        .map(|_| Entry {
                            variant: 0,
                            vals: vec![V::U(r.below(20))],
                        })
                        .collect(),
                };
                d = Dir {
                    stores: vec![],
                    indexes: full_index(es.entries.len()),
                    estores: vec![es],
                };
            }
            let es = &d.estores[0];
            let names = es.sort.clone().unwrap();
            // neighbours of the written keys
            let n = es.entries.len();
            for _ in 0..30.min(n * 3 + 2) {
                let key: Vec<V> = names
                    .iter()
                    .map(|nm| {
                        let k = es.common.iter().position(|p| &p.name == nm).unwrap();
                        let base = if n > 0 && r.chance(7, 8) {
                            es.entries[r.below(n as u64) as usize].vals[k].clone()
                        } else {
                            match es.common[k].kind {
                                PKind::U => V::U(edge_u(r, 8)),
                                PKind::S => V::S(edge_s(r, 8)),
                                _ => {
                                    let n = r.below(6) as usize;
                                    V::A(bytes_of(r, n, 0))
                                }
                            }
                        };
                        match base {
                            V::U(x) | V::UW(x) => V::U(match r.below(4) {
                                0 => x.wrapping_add(1),
                                1 => x.wrapping_sub(1),
                                2 => x & 0xff,
                                _ => x,
                            }),
                            V::S(x) | V::SW(x) => V::S(match r.below(4) {
                                0 => x.wrapping_add(1),
                                1 => x.wrapping_sub(1),
                                2 => x.wrapping_neg(),
                                _ => x,
                            }),
                            V::A(mut b) => {
                                match r.below(6) {
                                    0 => {
                                        b.pop();
                                    }
                                    1 => b.push(0),
                                    2 => b.push(0xff),
                                    3 => {
                                        if let Some(x) = b.last_mut() {
                                            *x = x.wrapping_add(1);
                                        }
                                    }
                                    4 => {
                                        let l = b.len() as u64;
                                        if l > 0 {
                                            let k = r.below(l) as usize;
                                            b[k] ^= 0x80;
                                        }
                                    }
                                    _ => {}
                                }
                                V::A(b)
                            }
                            o => o,
                        }
                    })
                    .collect();
                probes.push(key);
            }
            d
        }
        _ => unreachable!(),
    };
    d.indexes.truncate(1);
    add_windows(r, &mut d);
    Case {
        dir: d,
        standalone: r.chance(1, 2),
        probes,
    }
}

/// the library's comparator (which always asks for a linear scan) used for a binary search
struct Ordered<C: CompareTrait>(C, bool);
impl<C: CompareTrait> CompareTrait for Ordered<C> {
    fn ordered(&self) -> bool {
        self.1
    }
    fn compare_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<Ordering> {
        self.0.compare_entry(idx)
    }
}

fn to_jbk(v: &Val) -> jbk::Value {
    match v {
        Val::U(x) => jbk::Value::Unsigned(*x),
        Val::S(x) => jbk::Value::Signed(*x),
        Val::A(b) => jbk::Value::Array(b.as_slice().into()),
        Val::C(p, c) => jbk::Value::Content(jbk::ContentAddress::new((*p).into(), (*c).into())),
    }
}

fn show(k: &[Val]) -> String {
    k.iter().map(|v| v.show()).collect::<Vec<_>>().join(",")
}

/// Returns number of lookups
fn check_sorted(c: &Case, o: &Opened, positions: &[Vec<u32>], out: &mut Outcome) -> Result<u64, (String, String)> {
    let f = |s: &str, m: String| Err((s.to_string(), m));
    let es = &c.dir.estores[0];
    let names = es.sort.clone().unwrap();
    let written: Vec<Vec<Val>> = es.entries.iter().map(|e| key_of(es, e, &names)).collect();
    let wanted_entries = expect_store(es, &[], positions, 0);
    let mut lookups = 0;
    for i in &c.dir.indexes {
        let index = match (o.index)(&i.name) {
            Ok(Some(x)) => x,
            Ok(None) => return f("index", "index not found".into()),
            Err(e) => return f("index", e.to_string()),
        };
        let store = (o.store)(&index).map_err(|e| ("open".to_string(), e.to_string()))?;
        let lnames = read::names_of(&store);
        let b = jbk::reader::builder::AnyBuilder::new(std::sync::Arc::clone(&store), o.vstorage.as_ref())
            .map_err(|e| ("open".to_string(), e.to_string()))?;
        // stored order as read
        let mut keys: Vec<Vec<Val>> = vec![];
        for k in 0..i.count {
            let e = match index.get_entry(&b, k.into()) {
                Ok(Some(e)) => read::read_entry(&e, &lnames).map_err(|e| ("read".to_string(), e.to_string()))?,
                Ok(None) => return f("read", format!("index {} entry {k} absent", i.name)),
                Err(e) => return f("read", format!("index {} entry {k}: {e}", i.name)),
            };
            if let Some(d) = diff_entry(&wanted_entries[(i.offset + k) as usize], &e) {
                return f("entry", format!("index {} entry {k}: {d}", i.name));
            }
            keys.push(names.iter().map(|n| e.props[n].clone()).collect());
        }
        if let Some(k) = keys.windows(2).position(|w| w[0] > w[1]) {
            return f(
                "order",
                format!(
                    "index {}: entry {k} has key ({}) and entry {} has the smaller key ({})",
                    i.name,
                    show(&keys[k]),
                    k + 1,
                    show(&keys[k + 1])
                ),
            );
        }
        // probes
        let mut probes: Vec<Vec<Val>> = written.clone();
        probes.extend(c.probes.iter().map(|k| k.iter().map(|v| expect_val(v, &[], &[], 0)).collect()));
        probes.sort();
        probes.dedup();
        if probes.len() > 120 {
            // spread
            let step = probes.len() as f64 / 120.0;
            probes = (0..120).map(|k| probes[(k as f64 * step) as usize].clone()).collect();
        }
        for p in &probes {
            for cols in (1..=names.len()).rev() {
                if cols < names.len() && names.len() > 1 && lookups % 3 != 0 {
                    // prefixes of the key on a third of the lookups
                    lookups += 1;
                    continue;
                }
                let key = &p[..cols];
                let present: Vec<usize> = keys
                    .iter()
                    .enumerate()
                    .filter(|(_, k)| &k[..cols] == key)
                    .map(|(n, _)| n)
                    .collect();
                let mut found: Vec<Option<u32>> = vec![];
                for ordered in [true, false] {
                    let cmp = Ordered(
                        b.new_multiple_property_compare(names[..cols].to_vec(), key.iter().map(to_jbk).collect()),
                        ordered,
                    );
                    // the comparator itself against the reference order, on a sample
                    if ordered {
                        let n = keys.len();
                        let step = (n / 24).max(1);
                        for k in (0..n).step_by(step) {
                            let want = keys[k][..cols].cmp(key);
                            match cmp.compare_entry(jbk::EntryIdx::from(i.offset + k as u32)) {
                                Ok(g) if g == want => {}
                                Ok(g) => {
                                    return f(
                                        "compare",
                                        format!(
                                            "comparing entry {k} (key ({})) with ({}): reader says {g:?}, should be {want:?}",
                                            show(&keys[k]),
                                            show(key)
                                        ),
                                    )
                                }
                                Err(e) => return f("compare", format!("comparing entry {k}: {e}")),
                            }
                        }
                    }
                    let how = if ordered { "binary search" } else { "linear scan" };
                    let got = match index.find(&cmp) {
                        Ok(x) => x.map(|x| x.into_u32()),
                        Err(e) => return f("find", format!("{how} of ({}): {e}", show(key))),
                    };
                    match (got, present.is_empty()) {
                        (None, true) => {}
                        (Some(k), true) => {
                            return f(
                                "find",
                                format!("{how} of ({}) answers entry {k}, no entry of the index has that key", show(key)),
                            )
                        }
                        (None, false) => {
                            return f(
                                "find",
                                format!("{how} of ({}) finds nothing, entry {} of {} has that key", show(key), present[0], keys.len()),
                            )
                        }
                        (Some(k), false) => {
                            if !present.contains(&(k as usize)) {
                                return f(
                                    "find",
                                    format!(
                                        "{how} of ({}) answers entry {k} with another key ({})",
                                        show(key),
                                        keys.get(k as usize).map(|x| show(x)).unwrap_or("none".into())
                                    ),
                                );
                            }
                        }
                    }
                    found.push(got);
                    lookups += 1;
                    out.tag(if got.is_some() { "lookup_present" } else { "lookup_absent" });
                }
                if cols == 1 && key.len() == 1 {
                    // the library's own single property comparator
                    let cmp = b.new_property_compare(names[0].clone(), to_jbk(&key[0]));
                    match index.find(&cmp) {
                        Ok(x) if x.is_some() == found[0].is_some() => {}
                        Ok(x) => {
                            return f(
                                "find",
                                format!(
                                    "new_property_compare of ({}) answers {:?}, binary search {:?}",
                                    show(key),
                                    x.map(|x| x.into_u32()),
                                    found[0]
                                ),
                            )
                        }
                        Err(e) => return f("find", format!("new_property_compare of ({}): {e}", show(key))),
                    }
                }
            }
        }
    }
    Ok(lookups)
}

fn run_case(c: &Case, dir: &Path) -> Outcome {
    let mut out = Outcome::pass();
    let (path, positions) = match build_any(&c.dir, c.standalone, dir) {
        Ok(x) => x,
        Err(e) => return Outcome::failed("create", format!("creation fails: {e}")),
    };
    let o = match open_dir(&path, c.standalone) {
        Ok(o) => o,
        Err(e) => return Outcome::failed("open", e),
    };
    match check_sorted(c, &o, &positions, &mut out) {
        Err((s, m)) => return Outcome::failed(s, m),
        Ok(n) => out.evals = n.max(1),
    }
    let es = &c.dir.estores[0];
    let names = es.sort.clone().unwrap();
    let mut keys: Vec<Vec<Val>> = es.entries.iter().map(|e| key_of(es, e, &names)).collect();
    let n = keys.len();
    keys.sort();
    keys.dedup();
    if keys.len() < n {
        out.tag("duplicate_keys");
    }
    if names.len() > 1 {
        out.tag("compound_key");
    }
    for nm in &names {
        let p = es.common.iter().find(|p| &p.name == nm).unwrap();
        out.tag(match p.kind {
            PKind::U => "key_unsigned",
            PKind::S => "key_signed",
            PKind::C => "key_content",
            PKind::A(0, s) if c.dir.stores[s as usize] => "key_array_indirect",
            PKind::A(_, s) if c.dir.stores[s as usize] => "key_array_indexed",
            PKind::A(..) => "key_array_plain",
        });
    }
    out.nontrivial = keys.len() >= 2;
    out
}

impl Check for C03 {
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when its sorted store has at least two distinct keys; one evaluation = one lookup (binary search or linear scan) whose answer is compared with the reference".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["content addresses have no order and are not used as sort keys; sorting on a reference to another entry is not generated".into()]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("large", t.n(200, 2000)),
            Group::new("ints", t.n(1000, 10_000)),
            Group::new("strings", t.n(4800, 48_000)),
            Group::new("random", t.n(15_000, 200_000)),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        run_case(&c, &ctx.dir)
    }
    fn valid(&self, json: &str) -> bool {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return false;
        };
        if c.dir.estores.is_empty() || !c.dir.valid(0) {
            return false;
        }
        let es = &c.dir.estores[0];
        let Some(s) = &es.sort else { return false };
        c.probes.iter().all(|p| {
            p.len() == s.len()
                && p.iter().zip(s).all(|(v, n)| {
                    let k = &es.common.iter().find(|p| &p.name == n).unwrap().kind;
                    matches!((k, v), (PKind::U, V::U(_)) | (PKind::S, V::S(_)) | (PKind::A(..), V::A(_)))
                })
        })
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        let old = c.dir.estores[0].sort.clone();
        c.dir
            .smaller()
            .into_iter()
            .filter_map(|dir| {
                let s = dir.estores.first()?.sort.clone()?;
                let mut probes = c.probes.clone();
                if Some(&s) != old.as_ref() {
                    let old = old.as_ref()?;
                    for p in &mut probes {
                        let q = s.iter().filter_map(|n| old.iter().position(|o| o == n)).map(|k| p[k].clone()).collect();
                        *p = q;
                    }
                }
                serde_json::to_string(&Case {
                    dir,
                    standalone: c.standalone,
                    probes,
                })
                .ok()
            })
            .collect()
    }
}
