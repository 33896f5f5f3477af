//! C15: references between entries resolve to the referenced entry's final position.
use super::*;

use super::c02::{build_any, compare_dir, open_dir};
use crate::gen::*;
use crate::model::*;
use crate::util::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use std::path::Path;

pub struct C15;

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Case {
    pub dir: Dir,
    pub standalone: bool,
}

fn p(n: &str, kind: PKind) -> Prop {
    Prop { name: n.into(), kind }
}

/// target of entry k among n for a reference pattern
fn target(r: &mut Rng, pat: u64, k: u64, n: u64) -> u32 {
    (match pat {
        0 => k,                             // self
        1 => (k + 1) % n,                   // one cycle
        2 => k.saturating_sub(1),           // chain backwards
        3 => (k + 1).min(n - 1),            // chain forwards
        4 => n - 1,                         // all to the last added
        5 => 0,                             // all to the first added
        6 => n - 1 - k,                     // mirror (2-cycles)
        7 => r.below(n),                    // random
        8 => k / 2,                         // tree
        9 => (k * 7 + 3) % n,               // permutation-like
        _ => (k + n / 2) % n,
    }) as u32
}

fn sort_val(r: &mut Rng, kind: &PKind, style: u64, k: u64, n: u64) -> V {
    let x = match style {
        0 => r.below(n * 4),     // mostly distinct
        1 => r.below(3),         // many ties
        2 => n - k,              // reversed
        3 => 5,                  // all equal
        4 => k,                  // already sorted
        _ => r.below(n),
    };
    match kind {
        PKind::U => V::U(x),
        PKind::S => V::S(x as i64 - n as i64 / 2),
        _ => V::A(format!("{x:x}").into_bytes()),
    }
}

pub fn gen(group: &str, i: u64, r: &mut Rng) -> Case {
    let d = match group {
        // one store, several reference columns, optional variants
        "one" | "width" => {
            let n: u64 = if group == "width" {
                *pick(r, &[255u64, 256, 257, 258, 300, 511, 1000])
            } else {
                match r.below(4) {
                    0 => r.range(1, 3),
                    1 => r.range(2, 12),
                    _ => r.range(2, 80),
                }
            };
            gen_one(r, n)
        }
        "huge" => gen_one(r, *[65_535u64, 65_536, 65_537, 66_000].get((i % 4) as usize).unwrap()),
        // several stores naming each other's entries
        "cross" => {
            let ns = r.range(2, 3) as usize;
            let counts: Vec<u64> = (0..ns).map(|_| *pick(r, &[1u64, 2, 5, 20, 60, 256, 300])).collect();
            let mut estores = vec![];
            for s in 0..ns {
                let kind = pick(r, &[PKind::U, PKind::S, PKind::A(2, 0)]).clone();
                let nr = r.range(1, 2);
                let mut common = vec![p("id", PKind::U), p("key", kind.clone())];
                let mut cols = vec![];
                for c in 0..nr {
                    common.push(p(&format!("r{c}"), PKind::U));
                    let t = loop {
                        let t = r.below(ns as u64);
                        if t as usize != s || r.chance(1, 3) {
                            break t;
                        }
                    };
                    cols.push((t, r.below(11)));
                }
                let style = r.below(6);
                let n = counts[s];
                let entries = (0..n)
                    .map(|k| {
                        let mut vals = vec![V::U(k), sort_val(r, &kind, style, k, n)];
                        for (t, pat) in &cols {
                            let tn = counts[*t as usize];
                            let k2 = target(r, *pat, k % tn, tn);
                            vals.push(if *t as usize == s {
                                V::Ref(k2)
                            } else {
                                V::XRef(*t as u32, k2)
                            });
                        }
                        Entry { variant: 0, vals }
                    })
                    .collect();
                estores.push(EStore {
                    common,
                    variants: vec![],
                    sort: if r.chance(3, 4) { Some(vec!["key".into()]) } else { None },
                    entries,
                });
            }
            let indexes = (0..ns)
                .map(|s| Idx {
                    name: format!("i{s}"),
                    store: s as u32,
                    offset: 0,
                    count: counts[s] as u32,
                    offset_of: None,
                    key: 0,
                })
                .collect();
            Dir {
                stores: vec![r.chance(1, 2)],
                estores,
                indexes,
            }
        }
        // sorted on the reference itself: a forest kept breadth first
        "forest" => {
            let n = *pick(r, &[1u64, 2, 5, 12, 40, 120, 300]);
            let maxd = r.range(1, 9);
            let mut depth = vec![];
            let mut parent: Vec<Option<usize>> = vec![];
            for k in 0..n as usize {
                if k == 0 || r.chance(1, 5) {
                    depth.push(0u64);
                    parent.push(None);
                } else {
                    let q = r.below(k as u64) as usize;
                    if depth[q] + 1 > maxd {
                        depth.push(0);
                        parent.push(None);
                    } else {
                        depth.push(depth[q] + 1);
                        parent.push(Some(q));
                    }
                }
            }
            // added in a random order
            let mut order: Vec<usize> = (0..n as usize).collect();
            r.shuffle(&mut order);
            let mut at = vec![0u32; n as usize];
            for (k, o) in order.iter().enumerate() {
                at[*o] = k as u32;
            }
            let al = r.range(1, 4);
            let entries = order
                .iter()
                .map(|o| {
                    let len = r.below(al + 1) as usize;
                    Entry {
                        variant: 0,
                        vals: vec![
                            V::U(*o as u64),
                            V::U(depth[*o]),
                            match parent[*o] {
                                None => V::U(0),
                                Some(q) => V::Ref(at[q]),
                            },
                            V::A(bytes_of(r, len, 2)),
                        ],
                    }
                })
                .collect();
            Dir {
                stores: vec![r.chance(1, 2)],
                estores: vec![EStore {
                    common: vec![
                        p("id", PKind::U),
                        p("depth", PKind::U),
                        p("parent", PKind::U),
                        p("name", PKind::A(r.below(4) as u8, 0)),
                    ],
                    variants: vec![],
                    sort: Some(vec!["depth".into(), "parent".into(), "name".into()]),
                    entries,
                }],
                indexes: vec![Idx {
                    name: "i".into(),
                    store: 0,
                    offset: 0,
                    count: n as u32,
                    offset_of: None,
                    key: 0,
                }],
            }
        }
        _ => unreachable!(),
    };
    Case {
        dir: d,
        standalone: r.chance(2, 3),
    }
}

fn gen_one(r: &mut Rng, n: u64) -> Dir {
    let kind = pick(r, &[PKind::U, PKind::S, PKind::A(2, 0), PKind::A(0, 0)]).clone();
    let nv = if r.chance(1, 3) { r.range(1, 3) as usize } else { 0 };
    let nr = r.range(1, 3);
    let mut common = vec![p("id", PKind::U), p("key", kind.clone())];
    let mut variants: Vec<(String, Vec<Prop>)> = (0..nv).map(|k| (format!("v{k}"), vec![])).collect();
    let mut pats = vec![];
    let mut vpats = vec![vec![]; nv];
    for c in 0..nr {
        if nv > 0 && r.chance(1, 2) {
            let v = r.below(nv as u64) as usize;
            variants[v].1.push(p(&format!("w{c}"), PKind::U));
            vpats[v].push(r.below(11));
        } else {
            common.push(p(&format!("r{c}"), PKind::U));
            pats.push(r.below(11));
        }
    }
    let style = r.below(6);
    let none = r.below(4);
    let entries = (0..n)
        .map(|k| {
            let mut vals = vec![V::U(k), sort_val(r, &kind, style, k, n)];
            let variant = if nv > 0 { r.below(nv as u64) as u8 } else { 0 };
            let mut all = pats.clone();
            if nv > 0 {
                all.extend(vpats[variant as usize].iter());
            }
            for pat in all {
                // some entries hold a plain number instead of a reference
                vals.push(if none == 0 && r.chance(1, 4) {
                    V::U(r.below(10))
                } else {
                    V::Ref(target(r, pat, k, n))
                });
            }
            Entry { variant, vals }
        })
        .collect();
    let mut indexes = vec![Idx {
        name: "i".into(),
        store: 0,
        offset: 0,
        count: n as u32,
        offset_of: None,
        key: 0,
    }];
    for k in 0..r.below(3) {
        indexes.push(Idx {
            name: format!("b{k}"),
            store: 0,
            offset: 0,
            count: r.range(0, 2) as u32,
            offset_of: Some(r.below(n) as u32),
            key: 0,
        });
    }
    Dir {
        // an indexed store cannot hold that many distinct values
        stores: vec![n <= 2000 && r.chance(1, 2)],
        estores: vec![EStore {
            common,
            variants,
            sort: if r.chance(5, 6) { Some(vec!["key".into()]) } else { None },
            entries,
        }],
        indexes,
    }
}

fn run_case(c: &Case, dir: &Path) -> Outcome {
    let mut out = Outcome::pass();
    let (path, positions) = match build_any(&c.dir, c.standalone, dir) {
        Ok(x) => x,
        Err(e) => return Outcome::failed("create", format!("creation fails: {e}")),
    };
    let mut moved = 0;
    for (s, (es, pos)) in c.dir.estores.iter().zip(&positions).enumerate() {
        let mut q = pos.clone();
        q.sort();
        if q != (0..es.entries.len() as u32).collect::<Vec<_>>() {
            return Outcome::failed(
                "handle",
                format!("store {s}: the positions reported by the entry handles are not a permutation: {:?}", &pos[..pos.len().min(20)]),
            );
        }
        moved += pos.iter().enumerate().filter(|(k, x)| *k as u32 != **x).count();
    }
    let o = match open_dir(&path, c.standalone) {
        Ok(o) => o,
        Err(e) => return Outcome::failed("open", e),
    };
    // entries are recognisable by their id: expectation = entry k at the position its handle reports, with every
    // reference equal to the position reported by the handle of its target
    match compare_dir(&c.dir, &o, &positions, true, true) {
        Err((s, m)) => return Outcome::failed(s, format!("{m} (entries are placed where their handle says)")),
        Ok(_) => {}
    }
    let mut refs = 0;
    for es in &c.dir.estores {
        for v in es.entries.iter().flat_map(|e| &e.vals) {
            match v {
                V::Ref(_) => refs += 1,
                V::XRef(..) => {
                    refs += 1;
                    out.tagn("cross_store_references", 1)
                }
                _ => {}
            }
        }
    }
    out.tagn("references", refs);
    out.tagn("entries_moved_by_sorting", moved as u64);
    if c.dir.indexes.iter().any(|i| i.offset_of.is_some()) {
        out.tag("index_bound_to_an_entry");
    }
    out.evals = refs.max(1);
    out.nontrivial = refs > 0 && moved > 0;
    out
}

fn valid(d: &Dir) -> bool {
    d.valid(0)
        && d.estores.iter().all(|e| {
            // recognisable entries
            // sorting on references is only asked for when each names an entry of a smaller depth
            let ref_key = e.sort.iter().flatten().any(|n| {
                let k = e.common.iter().position(|p| &p.name == n).unwrap();
                e.entries.iter().any(|x| matches!(x.vals[k], V::Ref(_) | V::XRef(..)))
            });
            if ref_key {
                let ok = e.common.iter().map(|p| p.name.as_str()).take(3).eq(["id", "depth", "parent"])
                    && e.sort.as_ref().unwrap().iter().map(|n| n.as_str()).take(2).eq(["depth", "parent"])
                    && e.entries.iter().all(|x| match (&x.vals[1], &x.vals[2]) {
                        (V::U(d), V::Ref(k)) => match &e.entries[*k as usize].vals[1] {
                            V::U(q) => q < d,
                            _ => false,
                        },
                        (V::U(d), V::U(_)) => *d == 0,
                        _ => false,
                    });
                if !ok {
                    return false;
                }
            }
            e.common.first().map(|p| p.name == "id").unwrap_or(false) && {
                let mut ids: Vec<String> = e.entries.iter().map(|e| format!("{:?}", e.vals[0])).collect();
                ids.sort();
                ids.windows(2).all(|w| w[0] != w[1])
            }
        })
}

impl Check for C15 {
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> String {
        "a case counts as non-trivial when it holds at least one reference and sorting moved at least one entry; one evaluation = one reference compared with the final position of its target".into()
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "every generated entry carries a unique id, so that an entry found at a position is recognisable".into(),
            "stores sorted on a reference are generated only where a sorted order exists (breadth-first forests)".into(),
        ]
    }
    fn groups(&self, t: Tier) -> Vec<Group> {
        vec![
            Group::new("huge", t.n(8, 60)).par(4),
            Group::new("width", t.n(400, 6000)),
            Group::new("cross", t.n(2000, 30_000)),
            Group::new("forest", t.n(1500, 30_000)),
            Group::new("one", t.n(8000, 150_000)),
        ]
    }
    fn strategy(&self, _t: Tier, group: &str, i: u64) -> BoxedStrategy<String> {
        let g = group.to_string();
        from_rng(move |r| gen(&g, i, r))
    }
    fn run(&self, json: &str, ctx: &Ctx) -> Outcome {
        let c: Case = case!(json);
        run_case(&c, &ctx.dir)
    }
    fn valid(&self, json: &str) -> bool {
        serde_json::from_str::<Case>(json).map(|c| valid(&c.dir)).unwrap_or(false)
    }
    fn candidates(&self, json: &str) -> Vec<String> {
        let Ok(c) = serde_json::from_str::<Case>(json) else {
            return vec![];
        };
        c.dir
            .smaller()
            .into_iter()
            .map(|dir| {
                serde_json::to_string(&Case {
                    dir,
                    standalone: c.standalone,
                })
                .unwrap()
            })
            .collect()
    }
}
