//! Generators shared by the properties.
use crate::model::*;
use crate::runner::js;
use crate::util::*;
use proptest::prelude::{any, Strategy};
use proptest::strategy::BoxedStrategy;
use serde::Serialize;

/// Strategy from an imperative generator; shrinking is done structurally on the case itself (runner).
pub fn from_rng<T: Serialize + std::fmt::Debug + 'static>(f: impl Fn(&mut Rng) -> T + 'static) -> BoxedStrategy<String> {
    js(any::<u64>().no_shrink().prop_map(move |s| f(&mut Rng::new(s))))
}

pub fn pick<'a, T>(r: &mut Rng, v: &'a [T]) -> &'a T {
    &v[r.below(v.len() as u64) as usize]
}

pub fn log_len(r: &mut Rng, max_bits: u64) -> usize {
    let b = r.below(max_bits + 1);
    r.below(1u64 << b) as usize
}

pub fn edge_len(r: &mut Rng, max: usize) -> usize {
    const E: &[usize] = &[
        0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 64, 127, 128, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025,
        4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65534, 65535, 65536, 65537, 131071, 131072, 1 << 20,
    ];
    for _ in 0..20 {
        let e = *pick(r, E);
        if e <= max {
            return e;
        }
    }
    0
}

pub fn gen_len(r: &mut Rng, max: usize) -> usize {
    match r.below(4) {
        0 => edge_len(r, max),
        1 => r.below(40).min(max as u64) as usize,
        _ => {
            let bits = 63 - (max.max(1) as u64).leading_zeros() as u64;
            log_len(r, bits).min(max)
        }
    }
}

pub fn gen_fill(r: &mut Rng) -> Fill {
    match r.below(8) {
        0 => Fill::Zero,
        1 | 2 => Fill::Rand,
        3 | 4 => Fill::Text,
        5 => Fill::Period(r.range(1, 300) as u16),
        6 => Fill::Half,
        _ => Fill::Period(r.range(1, 8) as u16),
    }
}

pub fn gen_hint(r: &mut Rng) -> Hint {
    *pick(r, &[Hint::Yes, Hint::No, Hint::Detect])
}

pub fn gen_src(r: &mut Rng, len: usize) -> Src {
    if len > 1 << 20 {
        return if r.chance(1, 4) { Src::File } else { Src::Mem };
    }
    match r.below(10) {
        0..=4 => Src::Mem,
        5 | 6 => Src::File,
        7 => Src::Range(0, r.below(40) as u32),
        8 => Src::Range(r.range(1, 5000) as u32, 0),
        _ => Src::Range(r.range(1, 300) as u32, r.range(1, 300) as u32),
    }
}

/// cheap levels only
pub fn gen_comp(r: &mut Rng) -> Comp {
    match r.below(9) {
        0 => Comp::None,
        1 | 2 => Comp::Lz4(*pick(r, &[0, 1, 3, 9])),
        3 | 4 => Comp::Lzma(*pick(r, &[0, 1, 2])),
        _ => Comp::Zstd(*pick(r, &[-7, -1, 1, 3, 5])),
    }
}

pub fn gen_inserts(r: &mut Rng, max_count: usize, max_len: usize, budget: usize) -> Vec<Insert> {
    let n = match r.below(6) {
        0 => r.below(3) as usize,
        1 => r.range(1, 6) as usize,
        _ => log_len(r, 63 - (max_count.max(1) as u64).leading_zeros() as u64).min(max_count),
    };
    let mut left = budget;
    let mut v = vec![];
    let style = r.below(4);
    let fixed_hint = gen_hint(r);
    let mut seen: Vec<Blob> = vec![];
    for _ in 0..n {
        let len = gen_len(r, max_len.min(left));
        left -= len;
        let blob = if !seen.is_empty() && r.chance(1, 8) {
            let b = pick(r, &seen).clone();
            if (b.len as usize) > left {
                Blob::new(len, gen_fill(r), r.below(1000) as u32)
            } else {
                left -= b.len as usize;
                b
            }
        } else {
            Blob::new(len, gen_fill(r), r.below(1000) as u32)
        };
        if seen.len() < 8 {
            seen.push(blob.clone());
        }
        let hint = if style == 0 { fixed_hint } else { gen_hint(r) };
        let l = blob.len as usize;
        v.push(Insert {
            blob,
            hint,
            src: gen_src(r, l),
            times: 1,
        });
    }
    v
}

// ------------------------------------------------------------------ directories

pub struct DirOpts {
    pub max_entries: usize,
    pub sort: bool,
    pub refs: bool,
    /// number of contents that V::CI may name
    pub ncontents: usize,
    pub max_array: usize,
    pub max_stores: usize,
    pub max_estores: usize,
    pub max_props: usize,
}
impl Default for DirOpts {
    fn default() -> Self {
        DirOpts {
            max_entries: 60,
            sort: true,
            refs: true,
            ncontents: 0,
            max_array: 300,
            max_stores: 3,
            max_estores: 3,
            max_props: 5,
        }
    }
}

pub fn edge_u(r: &mut Rng, width: u64) -> u64 {
    let max = if width >= 8 { u64::MAX } else { (1u64 << (8 * width)) - 1 };
    match r.below(6) {
        0 => max,
        1 => max - r.below(3).min(max),
        2 => {
            let w = r.below(width + 1);
            if w >= 8 {
                u64::MAX
            } else {
                (1u64 << (8 * w)).wrapping_add(r.below(3)).wrapping_sub(1) & max
            }
        }
        3 => r.below(3),
        _ => r.next() & max,
    }
}

pub fn edge_s(r: &mut Rng, width: u64) -> i64 {
    let half: i128 = 1i128 << (8 * width - 1);
    let v: i128 = match r.below(8) {
        0 => half - 1,
        1 => -half,
        2 => half - 1 - r.below(3) as i128,
        3 => -half + r.below(3) as i128,
        4 => {
            let w = r.range(1, width);
            let h = 1i128 << (8 * w - 1);
            (if r.chance(1, 2) { h } else { -h }) + r.below(3) as i128 - 1
        }
        5 => r.below(5) as i128 - 2,
        6 => {
            let w = r.range(1, width);
            let h = 1i128 << (8 * w);
            (if r.chance(1, 2) { h } else { -h }) + r.below(3) as i128 - 1
        }
        _ => (r.next() as i128) % half * if r.chance(1, 2) { 1 } else { -1 },
    };
    v.clamp(i64::MIN as i128, i64::MAX as i128).clamp(-half, half - 1) as i64
}

#[derive(Clone, Debug)]
pub enum Prof {
    ConstU(u64),
    U(u64),
    ConstS(i64),
    S(u64),
    SPos(u64),
    /// constant array
    ConstA(Vec<u8>),
    /// max length, alphabet
    A(usize, u8),
    /// common prefix, tail max, alphabet
    APre(Vec<u8>, usize, u8),
    /// around these lengths
    ALens(Vec<usize>, u8),
    ConstC(u16, u32),
    /// pack bytes, id bytes
    C(u8, u8),
    CI,
    Ref,
}

pub fn bytes_of(r: &mut Rng, n: usize, alpha: u8) -> Vec<u8> {
    (0..n)
        .map(|_| match alpha {
            0 => r.next() as u8,
            1 => *pick(r, &[0u8, 0xff]),
            2 => *pick(r, b"ab"),
            3 => *pick(r, &[0u8, 1, 0x7f, 0x80, 0xfe, 0xff]),
            _ => *pick(r, b"abcdefgh"),
        })
        .collect()
}

pub fn gen_prof(r: &mut Rng, k: &PKind, o: &DirOpts, refs_ok: bool) -> Prof {
    match k {
        PKind::U => match r.below(8) {
            0 => Prof::ConstU({
                let w = r.range(1, 8);
                edge_u(r, w)
            }),
            1 => Prof::ConstU(0),
            2 if refs_ok => Prof::Ref,
            _ => Prof::U(r.range(1, 8)),
        },
        PKind::S => match r.below(8) {
            0 => Prof::ConstS({
                let w = r.range(1, 8);
                edge_s(r, w)
            }),
            1 => Prof::ConstS(-1),
            2 => Prof::SPos(r.range(1, 8)),
            _ => Prof::S(r.range(1, 8)),
        },
        PKind::A(p, _) => {
            let alpha = r.below(5) as u8;
            let p = *p as usize;
            match r.below(8) {
                0 => {
                    let n = r.below(40).min(o.max_array as u64) as usize;
                    Prof::ConstA(bytes_of(r, n, alpha))
                }
                1 => Prof::A(0, alpha),
                2 => Prof::A((p + r.below(4) as usize).min(o.max_array), alpha),
                3 => {
                    let n = r.below(p as u64 + 4).min(o.max_array as u64) as usize;
                    let b = bytes_of(r, n, alpha);
                    Prof::APre(b, 4, alpha)
                }
                4 => Prof::ALens(
                    [p.saturating_sub(1), p, p + 1, 255, 256, 257, 254]
                        .iter()
                        .copied()
                        .filter(|x| *x <= o.max_array)
                        .collect(),
                    alpha,
                ),
                5 if o.max_array > 300 => Prof::ALens(
                    [0usize, 65535, 65536, 65537, 70000]
                        .iter()
                        .copied()
                        .filter(|x| *x <= o.max_array)
                        .collect(),
                    alpha,
                ),
                _ => Prof::A(r.range(1, 24).min(o.max_array as u64) as usize, alpha),
            }
        }
        PKind::C => match r.below(6) {
            0 => Prof::ConstC(r.next() as u16, r.next() as u32 & 0xffffff),
            1 | 2 if o.ncontents > 0 => Prof::CI,
            _ => Prof::C(*pick(r, &[0, 1, 2]), *pick(r, &[1, 2, 3])),
        },
    }
}

pub fn gen_val(r: &mut Rng, p: &Prof, nentries: usize, o: &DirOpts) -> V {
    let word = r.chance(1, 10);
    match p {
        Prof::ConstU(x) => {
            if word {
                V::UW(*x)
            } else {
                V::U(*x)
            }
        }
        Prof::U(w) => {
            let x = edge_u(r, *w);
            if word {
                V::UW(x)
            } else {
                V::U(x)
            }
        }
        Prof::ConstS(x) => {
            if word {
                V::SW(*x)
            } else {
                V::S(*x)
            }
        }
        Prof::S(w) => {
            let x = edge_s(r, *w);
            if word {
                V::SW(x)
            } else {
                V::S(x)
            }
        }
        Prof::SPos(w) => V::S(edge_s(r, *w).unsigned_abs().min(i64::MAX as u64) as i64),
        Prof::ConstA(b) => V::A(b.clone()),
        Prof::A(n, a) => {
            let n = r.below(*n as u64 + 1) as usize;
            V::A(bytes_of(r, n, *a))
        }
        Prof::APre(b, n, a) => {
            let mut v = b.clone();
            if r.chance(1, 6) {
                v.truncate(r.below(v.len() as u64 + 1) as usize);
            }
            let n = r.below(*n as u64 + 1) as usize;
            v.extend(bytes_of(r, n, *a));
            V::A(v)
        }
        Prof::ALens(ls, a) => {
            if ls.is_empty() {
                return V::A(vec![]);
            }
            let n = *pick(r, ls);
            if n > 300 {
                V::B(Blob::new(n, Fill::Rand, r.below(5) as u32))
            } else {
                V::A(bytes_of(r, n, *a))
            }
        }
        Prof::ConstC(p, c) => V::C(*p, *c),
        Prof::C(pb, cb) => V::C(
            match pb {
                0 => 1,
                1 => r.below(256) as u16,
                _ => edge_u(r, 2) as u16,
            },
            edge_u(r, *cb as u64) as u32,
        ),
        Prof::CI => V::CI(r.below(o.ncontents as u64) as u32),
        Prof::Ref => V::Ref(r.below(nentries as u64) as u32),
    }
}

pub fn gen_name(r: &mut Rng, n: usize) -> String {
    match r.below(12) {
        0 => format!("propriété-{n}"),
        1 => format!("{}{n}", "x".repeat(r.below(60) as usize)),
        2 => format!("{n}"),
        _ => format!("p{n}"),
    }
}

fn gen_props(r: &mut Rng, max: usize, nstores: usize, next: &mut usize) -> Vec<Prop> {
    let n = r.below(max as u64 + 1) as usize;
    (0..n)
        .map(|_| {
            *next += 1;
            let kind = loop {
                break match r.below(7) {
                    0 | 1 => PKind::U,
                    2 | 3 => PKind::S,
                    4 | 5 => {
                        if nstores == 0 {
                            continue;
                        }
                        PKind::A(
                            match r.below(5) {
                                0 => 0,
                                1 => 31,
                                _ => r.below(32) as u8,
                            },
                            r.below(nstores as u64) as u8,
                        )
                    }
                    _ => PKind::C,
                };
            };
            Prop {
                name: gen_name(r, *next),
                kind,
            }
        })
        .collect()
}

pub fn gen_estore(r: &mut Rng, o: &DirOpts, nstores: usize) -> EStore {
    let mut next = 0;
    let mut common = gen_props(r, o.max_props, nstores, &mut next);
    let nv = match r.below(4) {
        0 | 1 => 0,
        2 => r.range(1, 3) as usize,
        _ => r.range(1, 6) as usize,
    };
    if common.is_empty() && nv == 0 {
        common.push(Prop {
            name: "p0".into(),
            kind: PKind::U,
        });
    }
    let mut variants = vec![];
    for k in 0..nv {
        let base = next;
        let ps = gen_props(r, o.max_props, nstores, &mut next);
        if r.chance(1, 3) {
            next = base; // same names may appear in several variants
        }
        let mut ps = ps;
        // names must be unique inside common + variant
        let mut used: Vec<String> = common.iter().map(|p| p.name.clone()).collect();
        for p in &mut ps {
            while used.contains(&p.name) {
                p.name = format!("{}'", p.name);
            }
            used.push(p.name.clone());
        }
        variants.push((format!("v{k}"), ps));
    }
    let n = match r.below(6) {
        0 => r.below(3) as usize,
        _ => gen_len(r, o.max_entries),
    };
    let sortable: Vec<&Prop> = common.iter().filter(|p| !matches!(p.kind, PKind::C)).collect();
    let sort = if o.sort && !sortable.is_empty() && r.chance(1, 2) {
        let k = r.range(1, sortable.len().min(3) as u64) as usize;
        let mut names: Vec<String> = sortable.iter().map(|p| p.name.clone()).collect();
        r.shuffle(&mut names);
        names.truncate(k);
        Some(names)
    } else {
        None
    };
    let refs_ok = o.refs && n > 0;
    let prof = |r: &mut Rng, ps: &Vec<Prop>, sort: &Option<Vec<String>>| -> Vec<Prof> {
        ps.iter()
            .map(|p| {
                let is_key = sort.as_ref().map(|s| s.contains(&p.name)).unwrap_or(false);
                gen_prof(r, &p.kind, o, refs_ok && !is_key)
            })
            .collect()
    };
    let cp = prof(r, &common, &sort);
    let vp: Vec<Vec<Prof>> = variants.iter().map(|(_, ps)| prof(r, ps, &None)).collect();
    let single_variant = r.chance(1, 5);
    let entries = (0..n)
        .map(|_| {
            let variant = if nv == 0 || single_variant { 0 } else { r.below(nv as u64) as u8 };
            let mut vals: Vec<V> = cp.iter().map(|p| gen_val(r, p, n, o)).collect();
            if nv > 0 {
                vals.extend(vp[variant as usize].iter().map(|p| gen_val(r, p, n, o)));
            }
            Entry { variant, vals }
        })
        .collect();
    EStore {
        common,
        variants,
        sort,
        entries,
    }
}

pub fn gen_dir(r: &mut Rng, o: &DirOpts) -> Dir {
    let ns = r.below(o.max_stores as u64 + 1) as usize;
    let stores = (0..ns).map(|_| r.chance(1, 2)).collect();
    let ne = r.range(1, o.max_estores as u64) as usize;
    let estores: Vec<EStore> = (0..ne).map(|_| gen_estore(r, o, ns)).collect();
    let mut indexes = vec![];
    for (k, es) in estores.iter().enumerate() {
        let n = es.entries.len() as u64;
        let ni = r.range(1, 3);
        for i in 0..ni {
            let (offset, count) = if i == 0 {
                (0, n)
            } else {
                let o = r.below(n + 1);
                (o, r.below(n - o + 1))
            };
            indexes.push(Idx {
                name: format!("idx{k}-{i}"),
                store: k as u32,
                offset: offset as u32,
                count: count as u32,
                offset_of: None,
                key: 0,
            });
        }
    }
    Dir {
        stores,
        estores,
        indexes,
    }
}

pub fn small_dir(r: &mut Rng, ncontents: usize) -> Dir {
    gen_dir(
        r,
        &DirOpts {
            max_entries: 12,
            ncontents,
            max_array: 60,
            max_estores: 2,
            max_stores: 2,
            max_props: 3,
            ..Default::default()
        },
    )
}

pub fn gen_packaging(r: &mut Rng) -> Packaging {
    *pick(r, &[Packaging::One, Packaging::Two, Packaging::No])
}

/// A small but complete container
pub fn small_spec(r: &mut Rng) -> Spec {
    let contents = gen_inserts(r, 12, 3000, 20_000);
    let dir = small_dir(r, contents.len());
    Spec {
        comp: gen_comp(r),
        packaging: Packaging::One,
        cached: r.chance(1, 4),
        contents,
        extra: vec![],
        dir,
    }
}

// ------------------------------------------------------------------ validity and structural shrinking of specs

impl Spec {
    pub fn valid(&self) -> bool {
        let n: u64 = self.contents.iter().map(|i| i.times as u64).sum();
        let blob_ok = |i: &Insert| match &i.blob.fill {
            Fill::Lit(b) => b.len() == i.blob.len as usize,
            _ => true,
        };
        self.contents.iter().all(blob_ok)
            && self.extra.iter().all(|e| e.contents.iter().all(blob_ok) && e.id > 1)
            && {
                let mut ids: Vec<u16> = self.extra.iter().map(|e| e.id).collect();
                ids.sort();
                ids.windows(2).all(|w| w[0] != w[1])
            }
            && self.dir.valid(n)
    }
}
impl Dir {
    pub fn valid(&self, ncontents: u64) -> bool {
        let names: std::collections::HashSet<&String> = self.indexes.iter().map(|i| &i.name).collect();
        if names.len() != self.indexes.len() {
            return false;
        }
        for i in &self.indexes {
            let Some(es) = self.estores.get(i.store as usize) else {
                return false;
            };
            let n = es.entries.len() as u64;
            if i.offset as u64 + i.count as u64 > n && i.offset_of.is_none() {
                return false;
            }
            if let Some(k) = i.offset_of {
                if k as u64 >= n {
                    return false;
                }
            }
        }
        for (n, es) in self.estores.iter().enumerate() {
            for v in es.entries.iter().flat_map(|e| e.vals.iter()) {
                if let V::XRef(s, k) = v {
                    let ok = *s as usize != n
                        && self.estores.get(*s as usize).map(|t| (*k as usize) < t.entries.len()).unwrap_or(false);
                    if !ok {
                        return false;
                    }
                }
            }
        }
        self.estores.iter().all(|e| e.valid(self.stores.len(), ncontents))
    }
}
impl EStore {
    pub fn valid(&self, nstores: usize, ncontents: u64) -> bool {
        if self.common.is_empty() && self.variants.is_empty() {
            return false;
        }
        let uniq = |ps: Vec<&Prop>| {
            let s: std::collections::HashSet<&String> = ps.iter().map(|p| &p.name).collect();
            s.len() == ps.len()
                && ps.iter().all(|p| match p.kind {
                    PKind::A(_, s) => (s as usize) < nstores,
                    _ => true,
                })
        };
        if !uniq(self.common.iter().collect()) {
            return false;
        }
        for (_, ps) in &self.variants {
            if !uniq(self.common.iter().chain(ps.iter()).collect()) {
                return false;
            }
        }
        if let Some(s) = &self.sort {
            if s.is_empty() || !s.iter().all(|n| self.common.iter().any(|p| &p.name == n && p.kind != PKind::C)) {
                return false;
            }
        }
        let n = self.entries.len() as u32;
        self.entries.iter().all(|e| {
            let ps: Vec<&Prop> = if self.variants.is_empty() {
                if e.variant != 0 {
                    return false;
                }
                self.common.iter().collect()
            } else {
                match self.variants.get(e.variant as usize) {
                    None => return false,
                    Some((_, v)) => self.common.iter().chain(v.iter()).collect(),
                }
            };
            ps.len() == e.vals.len()
                && ps.iter().zip(&e.vals).all(|(p, v)| match (&p.kind, v) {
                    (PKind::U, V::U(_) | V::UW(_)) => true,
                    (PKind::U, V::Ref(k)) => *k < n,
                    (PKind::U, V::XRef(..)) => true, // see Dir::valid
                    (PKind::S, V::S(_) | V::SW(_)) => true,
                    (PKind::A(..), V::A(_)) => true,
                    (PKind::A(..), V::B(b)) => !matches!(b.fill, Fill::Lit(_)),
                    (PKind::C, V::C(_, c)) => *c <= 0xffffff || true,
                    (PKind::C, V::CI(k)) => (*k as u64) < ncontents,
                    _ => false,
                })
        })
    }

    /// the store without one property / one variant
    pub fn smaller(&self) -> Vec<EStore> {
        let mut out = vec![];
        for k in 0..self.common.len() {
            let mut e = self.clone();
            let name = e.common.remove(k).name;
            if let Some(s) = &mut e.sort {
                s.retain(|n| *n != name);
                if s.is_empty() {
                    e.sort = None;
                }
            }
            for en in &mut e.entries {
                en.vals.remove(k);
            }
            out.push(e);
        }
        for v in 0..self.variants.len() {
            let mut e = self.clone();
            e.variants.remove(v);
            e.entries.retain(|x| x.variant as usize != v);
            if e.entries.len() != self.entries.len()
                && self.entries.iter().any(|x| x.vals.iter().any(|v| matches!(v, V::Ref(_))))
            {
                continue;
            }
            for x in &mut e.entries {
                if x.variant as usize > v {
                    x.variant -= 1;
                }
            }
            out.push(e);
            for p in 0..self.variants[v].1.len() {
                let mut e = self.clone();
                e.variants[v].1.remove(p);
                let at = self.common.len() + p;
                for x in &mut e.entries {
                    if x.variant as usize == v {
                        x.vals.remove(at);
                    }
                }
                out.push(e);
            }
        }
        // drop each half / each single entry, remapping references
        let n = self.entries.len();
        let mut spans = vec![];
        if n > 1 {
            spans.push((0, n / 2));
            spans.push((n / 2, n));
        }
        if n <= 40 {
            spans.extend((0..n).map(|k| (k, k + 1)));
        } else {
            let q = n / 8;
            spans.extend((0..8).map(|k| (k * q, (k + 1) * q)));
        }
        for (a, b) in spans {
            let mut e = self.clone();
            e.entries.drain(a..b);
            let m = e.entries.len() as u32;
            let mut ok = true;
            for x in &mut e.entries {
                for v in &mut x.vals {
                    if let V::Ref(k) = v {
                        if *k as usize >= b {
                            *k -= (b - a) as u32;
                        } else if *k as usize >= a {
                            *k = 0;
                        }
                        ok &= *k < m;
                    }
                }
            }
            if ok {
                out.push(e);
            }
        }
        if self.sort.is_some() {
            let mut e = self.clone();
            e.sort = None;
            out.push(e);
        }
        out
    }
}
impl Dir {
    pub fn smaller(&self) -> Vec<Dir> {
        let mut out = vec![];
        if self.estores.len() > 1 {
            for k in 0..self.estores.len() {
                let mut d = self.clone();
                d.estores.remove(k);
                if d.estores
                    .iter()
                    .any(|e| e.entries.iter().any(|e| e.vals.iter().any(|v| matches!(v, V::XRef(s, _) if *s as usize == k))))
                {
                    continue;
                }
                for v in d.estores.iter_mut().flat_map(|e| e.entries.iter_mut()).flat_map(|e| e.vals.iter_mut()) {
                    if let V::XRef(s, _) = v {
                        if *s as usize > k {
                            *s -= 1;
                        }
                    }
                }
                d.indexes.retain(|i| i.store as usize != k);
                for i in &mut d.indexes {
                    if i.store as usize > k {
                        i.store -= 1;
                    }
                }
                out.push(d);
            }
        }
        for k in 0..self.indexes.len() {
            if self.indexes.len() > 1 {
                let mut d = self.clone();
                d.indexes.remove(k);
                out.push(d);
            }
        }
        for (k, es) in self.estores.iter().enumerate() {
            for e in es.smaller() {
                let mut d = self.clone();
                let n = e.entries.len() as u32;
                d.estores[k] = e;
                for i in &mut d.indexes {
                    if i.store as usize == k && i.offset_of.is_none() {
                        i.offset = i.offset.min(n);
                        i.count = i.count.min(n - i.offset);
                    } else if i.store as usize == k {
                        i.offset_of = i.offset_of.map(|x| x.min(n.saturating_sub(1)));
                    }
                }
                out.push(d);
            }
        }
        // value stores that nobody uses
        for s in 0..self.stores.len() {
            let used = |p: &Prop| matches!(p.kind, PKind::A(_, x) if x as usize == s);
            if self
                .estores
                .iter()
                .any(|e| e.common.iter().any(used) || e.variants.iter().any(|v| v.1.iter().any(used)))
            {
                continue;
            }
            let mut d = self.clone();
            d.stores.remove(s);
            for e in &mut d.estores {
                for p in e.common.iter_mut().chain(e.variants.iter_mut().flat_map(|v| v.1.iter_mut())) {
                    if let PKind::A(_, x) = &mut p.kind {
                        if *x as usize > s {
                            *x -= 1;
                        }
                    }
                }
            }
            out.push(d);
        }
        out
    }
}
