//! Case descriptions ("specs"), how to build them with jubako, and what they must read back as.
use crate::util::*;
use jubako as jbk;
use jubako::creator as jc;
use jubako::creator::schema;
use jubako::creator::ContentAdder;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ contents

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Fill {
    Zero,
    /// incompressible
    Rand,
    /// low entropy text-like
    Text,
    /// short repeated pattern of that period
    Period(u16),
    /// first half random, second half zero
    Half,
    Lit(Vec<u8>),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Blob {
    pub len: u32,
    pub fill: Fill,
    pub seed: u32,
}

impl Blob {
    pub fn lit(b: &[u8]) -> Self {
        Blob {
            len: b.len() as u32,
            fill: Fill::Lit(b.to_vec()),
            seed: 0,
        }
    }
    pub fn new(len: usize, fill: Fill, seed: u32) -> Self {
        Blob {
            len: len as u32,
            fill,
            seed,
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        let n = self.len as usize;
        let mut r = Rng::new(self.seed as u64 * 7919 + 13);
        let rand = |r: &mut Rng, n: usize| {
            let mut v = Vec::with_capacity(n + 8);
            while v.len() < n {
                v.extend_from_slice(&r.next().to_le_bytes());
            }
            v.truncate(n);
            v
        };
        match &self.fill {
            Fill::Zero => vec![(self.seed & 0xff) as u8; n],
            Fill::Rand => rand(&mut r, n),
            Fill::Text => {
                const W: &[&str] = &[
                    "the ", "of ", "and ", "jubako ", "pack ", "content ", "a ", "in ", "is ", "to ", "12 ", "\n",
                ];
                let mut v = Vec::with_capacity(n + 10);
                while v.len() < n {
                    v.extend_from_slice(W[r.below(W.len() as u64) as usize].as_bytes());
                }
                v.truncate(n);
                v
            }
            Fill::Period(p) => {
                let p = (*p).max(1) as usize;
                let pat = rand(&mut r, p);
                let mut v = Vec::with_capacity(n + p);
                while v.len() < n {
                    v.extend_from_slice(&pat);
                }
                v.truncate(n);
                v
            }
            Fill::Half => {
                let mut v = rand(&mut r, n / 2);
                v.resize(n, 0);
                v
            }
            Fill::Lit(b) => b.clone(),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum Src {
    Mem,
    File,
    /// sub-range of a larger file: bytes before, bytes after
    Range(u32, u32),
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Hint {
    Yes,
    No,
    Detect,
}
impl Hint {
    pub fn get(self) -> jc::CompHint {
        match self {
            Hint::Yes => jc::CompHint::Yes,
            Hint::No => jc::CompHint::No,
            Hint::Detect => jc::CompHint::Detect,
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Insert {
    pub blob: Blob,
    pub hint: Hint,
    pub src: Src,
    /// insert `times` consecutive contents (blob seeds incremented)
    #[serde(default = "one")]
    pub times: u32,
}
fn one() -> u32 {
    1
}

/// Expands `times`.
pub fn expand(ins: &[Insert]) -> Vec<Insert> {
    let mut v = vec![];
    for i in ins {
        for k in 0..i.times {
            let mut j = i.clone();
            j.times = 1;
            j.blob.seed = j.blob.seed.wrapping_add(k);
            v.push(j);
        }
    }
    v
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Comp {
    None,
    Lz4(u32),
    Lzma(u32),
    Zstd(i32),
}
impl Comp {
    pub fn get(self) -> jc::Compression {
        match self {
            Comp::None => jc::Compression::None,
            Comp::Lz4(l) => jc::Compression::Lz4(l.to_string().parse().unwrap()),
            Comp::Lzma(l) => jc::Compression::Lzma(l.to_string().parse().unwrap()),
            Comp::Zstd(l) => jc::Compression::Zstd(l.to_string().parse().unwrap()),
        }
    }
    /// byte used by the format
    pub fn code(self) -> u8 {
        match self {
            Comp::None => 0,
            Comp::Lz4(_) => 1,
            Comp::Lzma(_) => 2,
            Comp::Zstd(_) => 3,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Comp::None => "none",
            Comp::Lz4(_) => "lz4",
            Comp::Lzma(_) => "lzma",
            Comp::Zstd(_) => "zstd",
        }
    }
}

pub fn reader_for(data: &[u8], src: &Src, dir: &Path, n: usize) -> std::io::Result<Box<dyn jc::InputReader>> {
    Ok(match src {
        Src::Mem => Box::new(std::io::Cursor::new(data.to_vec())),
        Src::File => {
            let p = dir.join(format!("in{n}"));
            std::fs::write(&p, data)?;
            let f = jc::InputFile::open(&p)?;
            std::fs::remove_file(&p)?;
            Box::new(f)
        }
        Src::Range(a, b) => {
            let p = dir.join(format!("in{n}"));
            let mut v = Vec::with_capacity(data.len() + (*a + *b) as usize);
            let mut r = Rng::new(n as u64 + 77);
            v.extend((0..*a).map(|_| r.next() as u8));
            v.extend_from_slice(data);
            v.extend((0..*b).map(|_| r.next() as u8));
            std::fs::write(&p, v)?;
            let f = std::fs::File::open(&p)?;
            let f = if *b == 0 {
                jc::InputFile::new_range(f, *a as u64, None)?
            } else {
                jc::InputFile::new_range(f, *a as u64, Some(data.len() as u64))?
            };
            std::fs::remove_file(&p)?;
            Box::new(f)
        }
    })
}

// ------------------------------------------------------------------ directory

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum PKind {
    U,
    S,
    /// inline prefix length, value store
    A(u8, u8),
    C,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Prop {
    pub name: String,
    pub kind: PKind,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum V {
    U(u64),
    /// the same through a deferred word
    UW(u64),
    S(i64),
    SW(i64),
    A(Vec<u8>),
    /// array described as blob
    B(Blob),
    C(u16, u32),
    /// address returned for insertion k (0 based, expanded) of the main content pack
    CI(u32),
    /// position of entry k of the same entry store, after sorting
    Ref(u32),
    /// position of entry k of another entry store
    XRef(u32, u32),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Entry {
    pub variant: u8,
    pub vals: Vec<V>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct EStore {
    pub common: Vec<Prop>,
    pub variants: Vec<(String, Vec<Prop>)>,
    /// names of common properties
    pub sort: Option<Vec<String>>,
    pub entries: Vec<Entry>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Idx {
    pub name: String,
    pub store: u32,
    pub offset: u32,
    pub count: u32,
    /// take the offset from the handle of that entry instead
    #[serde(default)]
    pub offset_of: Option<u32>,
    #[serde(default)]
    pub key: u8,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Default)]
pub struct Dir {
    /// true = indexed
    pub stores: Vec<bool>,
    pub estores: Vec<EStore>,
    pub indexes: Vec<Idx>,
}

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq, Eq)]
pub enum Packaging {
    One,
    Two,
    No,
}
impl Packaging {
    pub fn get(self) -> jc::ConcatMode {
        match self {
            Packaging::One => jc::ConcatMode::OneFile,
            Packaging::Two => jc::ConcatMode::TwoFiles,
            Packaging::No => jc::ConcatMode::NoConcat,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Packaging::One => "one_file",
            Packaging::Two => "two_files",
            Packaging::No => "no_concat",
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct ExtraPack {
    pub id: u16,
    pub comp: Comp,
    pub contents: Vec<Insert>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Spec {
    pub comp: Comp,
    pub packaging: Packaging,
    pub cached: bool,
    pub contents: Vec<Insert>,
    #[serde(default)]
    pub extra: Vec<ExtraPack>,
    pub dir: Dir,
}

pub const VENDOR: [u8; 4] = [0x4a, 0x56, 0x01, 0x7f];

pub fn vendor() -> jbk::VendorId {
    jbk::VendorId::new(VENDOR)
}

pub type PN = &'static str;
pub type JEntry = jc::BasicEntry<PN, PN>;
pub type JStore = jc::EntryStore<PN, PN, JEntry>;

pub fn mk_props(ps: &[Prop], stores: &[jc::StoreHandle]) -> Vec<schema::Property<PN>> {
    ps.iter()
        .map(|p| {
            let n = intern(&p.name);
            match &p.kind {
                PKind::U => schema::Property::new_uint(n),
                PKind::S => schema::Property::new_sint(n),
                PKind::A(l, s) => schema::Property::new_array(*l as usize, stores[*s as usize].clone(), n),
                PKind::C => schema::Property::new_content_address(n),
            }
        })
        .collect()
}

pub fn to_value(
    v: &V,
    addrs: &[(u16, u32)],
    own: usize,
    bound: &dyn Fn(usize, usize) -> jbk::Bound<jbk::EntryIdx>,
) -> jbk::Value {
    match v {
        V::U(x) => jbk::Value::Unsigned(*x),
        V::UW(x) => jbk::Value::UnsignedWord((*x).into()),
        V::S(x) => jbk::Value::Signed(*x),
        V::SW(x) => jbk::Value::SignedWord((*x).into()),
        V::A(b) => jbk::Value::Array(b.as_slice().into()),
        V::B(b) => jbk::Value::Array(b.bytes().as_slice().into()),
        V::C(p, c) => jbk::Value::Content(jbk::ContentAddress::new((*p).into(), (*c).into())),
        V::CI(k) => {
            let (p, c) = addrs[*k as usize];
            jbk::Value::Content(jbk::ContentAddress::new(p.into(), c.into()))
        }
        V::Ref(k) => jbk::Value::UnsignedWord(bound(own, *k as usize).into()),
        V::XRef(s, k) => jbk::Value::UnsignedWord(bound(*s as usize, *k as usize).into()),
    }
}

pub struct DirBuild {
    pub stores: Vec<jc::StoreHandle>,
    pub estores: Vec<Box<JStore>>,
    pub bounds: Vec<Vec<jbk::Bound<jbk::EntryIdx>>>,
    pub indexes: Vec<Idx>,
}

pub fn build_dir(d: &Dir, addrs: &[(u16, u32)]) -> DirBuild {
    let stores: Vec<jc::StoreHandle> = d
        .stores
        .iter()
        .map(|i| {
            if *i {
                jc::ValueStore::new_indexed()
            } else {
                jc::ValueStore::new_plain(None)
            }
        })
        .collect();
    let mut estores = vec![];
    let mut handles: Vec<Vec<jbk::Bound<jbk::EntryIdx>>> = vec![vec![]; d.estores.len()];
    // entries whose position is used before (or at the time) they are added need their own Vow
    let mut vows: Vec<Option<Vec<jbk::Vow<jbk::EntryIdx>>>> = vec![];
    let mut bounds: Vec<Vec<jbk::Bound<jbk::EntryIdx>>> = vec![];
    for (n, es) in d.estores.iter().enumerate() {
        let named = es.entries.iter().any(|e| e.vals.iter().any(|v| matches!(v, V::Ref(_))))
            || d.estores[..n.min(d.estores.len())]
                .iter()
                .any(|o| o.entries.iter().any(|e| e.vals.iter().any(|v| matches!(v, V::XRef(s, _) if *s as usize == n))));
        if named {
            let vs: Vec<jbk::Vow<jbk::EntryIdx>> = es.entries.iter().map(|_| jbk::Vow::default()).collect();
            bounds.push(vs.iter().map(|v| v.bind()).collect());
            vows.push(Some(vs));
        } else {
            bounds.push(vec![]);
            vows.push(None);
        }
    }
    for (n, es) in d.estores.iter().enumerate() {
        let sch = schema::Schema::<PN, PN>::new(
            schema::CommonProperties::new(mk_props(&es.common, &stores)),
            es.variants
                .iter()
                .map(|(n, ps)| (intern(n), schema::VariantProperties::new(mk_props(ps, &stores))))
                .collect(),
            es.sort.as_ref().map(|s| s.iter().map(|n| intern(n)).collect()),
        );
        let mut store: Box<JStore> = Box::new(jc::EntryStore::new(sch, None));
        let mut my_vows = vows[n].take().map(|v| v.into_iter());
        for (k, e) in es.entries.iter().enumerate() {
            let (vn, props): (Option<PN>, Vec<&Prop>) = if es.variants.is_empty() {
                (None, es.common.iter().collect())
            } else {
                let (n, ps) = &es.variants[e.variant as usize];
                (Some(intern(n)), es.common.iter().chain(ps.iter()).collect())
            };
            let bound = |s: usize, t: usize| -> jbk::Bound<jbk::EntryIdx> {
                // through the handle of the added entry or through the Vow given to it
                let added = handles[s].len();
                if t < added && (bounds[s].is_empty() || (t + k) % 2 == 0) {
                    handles[s][t].clone()
                } else {
                    bounds[s][t].clone()
                }
            };
            let map: HashMap<PN, jbk::Value> = props
                .iter()
                .zip(&e.vals)
                .map(|(p, v)| (intern(&p.name), to_value(v, addrs, n, &bound)))
                .collect();
            let entry = match &mut my_vows {
                Some(v) => JEntry::new_from_schema_idx(&store.schema, v.next().unwrap(), vn, map),
                None => JEntry::new_from_schema(&store.schema, vn, map),
            };
            handles[n].push(store.add_entry(entry));
        }
        estores.push(store);
    }
    let bounds = handles;
    DirBuild {
        stores,
        estores,
        bounds,
        indexes: d.indexes.clone(),
    }
}

impl DirBuild {
    pub fn into_pack(self, dp: &mut jc::DirectoryPackCreator) {
        for s in self.stores {
            dp.add_value_store(s);
        }
        let mut ids = vec![];
        for e in self.estores {
            ids.push(dp.add_entry_store(e));
        }
        for i in &self.indexes {
            let off: jbk::EntryIdx = i.offset.into();
            let offset = match i.offset_of {
                None => off.into(),
                Some(k) => self.bounds[i.store as usize][k as usize].clone().into(),
            };
            dp.create_index(
                &i.name,
                Default::default(),
                (i.key).into(),
                ids[i.store as usize],
                i.count.into(),
                offset,
            );
        }
    }
}

struct DirFinal(RefCell<Option<DirBuild>>);
impl jc::EntryStoreTrait for DirFinal {
    fn finalize(self: Box<Self>, dp: &mut jc::DirectoryPackCreator) {
        self.0.borrow_mut().take().unwrap().into_pack(dp);
    }
}

#[derive(Clone, Debug)]
pub struct Built {
    pub path: PathBuf,
    /// addresses returned by the insertions of the main pack (expanded)
    pub addrs: Vec<(u16, u32)>,
    /// addresses per extra pack
    pub extra_addrs: Vec<Vec<(u16, u32)>>,
    pub extra_paths: Vec<PathBuf>,
    /// final positions reported by the entry handles
    pub positions: Vec<Vec<u32>>,
}

pub fn add_all(adder: &mut dyn ContentAdder, ins: &[Insert], dir: &Path) -> std::io::Result<Vec<(u16, u32)>> {
    let mut addrs = vec![];
    for (n, i) in ins.iter().enumerate() {
        let data = i.blob.bytes();
        let a = adder.add_content(reader_for(&data, &i.src, dir, n)?, i.hint.get())?;
        addrs.push((a.pack_id.into_u16(), a.content_id.into_u32()));
    }
    Ok(addrs)
}

pub fn utf8(p: &Path) -> camino::Utf8PathBuf {
    camino::Utf8PathBuf::from_path_buf(p.to_path_buf()).unwrap()
}

pub fn build(spec: &Spec, path: &Path, inputs: &Path) -> Result<Built, String> {
    build_with(spec, path, inputs, Arc::new(()))
}

/// Creates the container at `path` with the high level creator.
pub fn build_with(
    spec: &Spec,
    path: &Path,
    inputs: &Path,
    progress: Arc<dyn jc::Progress>,
) -> Result<Built, String> {
    let e = |x: &dyn std::fmt::Display| format!("create: {x}");
    let mut creator = jc::BasicCreator::new(
        utf8(path),
        spec.packaging.get(),
        vendor(),
        spec.comp.get(),
        progress,
    )
    .map_err(|x| e(&x))?;
    let ins = expand(&spec.contents);
    let addrs;
    let creator = if spec.cached {
        let mut c = jc::CachedContentAdder::new(creator, Rc::new(()));
        addrs = add_all(&mut c, &ins, inputs).map_err(|x| e(&x))?;
        c.into_inner()
    } else {
        addrs = add_all(&mut creator, &ins, inputs).map_err(|x| e(&x))?;
        creator
    };
    let mut extra = vec![];
    let mut extra_addrs = vec![];
    let mut extra_paths = vec![];
    for (n, ep) in spec.extra.iter().enumerate() {
        let p = path.parent().unwrap().join(format!("extra{n}.jbkc"));
        let out: Box<dyn jc::PackRecipient> = jc::AtomicOutFile::new(utf8(&p)).map_err(|x| e(&x))?;
        let mut c = jc::ContentPackCreator::<dyn jc::PackRecipient>::new_from_output(
            out,
            jbk::PackId::from(ep.id),
            vendor(),
            Default::default(),
            ep.comp.get(),
        )
        .map_err(|x| e(&x))?;
        let mut v = vec![];
        for (k, i) in expand(&ep.contents).iter().enumerate() {
            let a = c
                .add_content(
                    reader_for(&i.blob.bytes(), &i.src, inputs, k).map_err(|x| e(&x))?,
                    i.hint.get(),
                )
                .map_err(|x| e(&x))?;
            v.push((a.pack_id.into_u16(), a.content_id.into_u32()));
        }
        extra.push(c);
        extra_addrs.push(v);
        extra_paths.push(p);
    }
    let db = build_dir(&spec.dir, &addrs);
    let bounds: Vec<Vec<_>> = db.bounds.iter().map(|b| b.to_vec()).collect();
    let fin = Box::new(DirFinal(RefCell::new(Some(db))));
    creator.finalize(fin, extra).map_err(|x| e(&x))?;
    Ok(Built {
        path: path.to_path_buf(),
        addrs,
        extra_addrs,
        extra_paths,
        positions: bounds
            .iter()
            .map(|b| b.iter().map(|x| x.get().into_u32()).collect())
            .collect(),
    })
}

// ------------------------------------------------------------------ logical dump

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Val {
    U(u64),
    S(i64),
    #[serde(with = "hexbytes")]
    A(Vec<u8>),
    C(u16, u32),
}
impl Val {
    pub fn show(&self) -> String {
        match self {
            Val::A(b) => format!("A({})", brief(b)),
            o => format!("{o:?}"),
        }
    }
}

mod hexbytes {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer>(v: &Vec<u8>, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::util::hex(v))
    }
    pub fn deserialize<'de, D: Deserializer<'de>>(d: D) -> Result<Vec<u8>, D::Error> {
        let s = String::deserialize(d)?;
        Ok((0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect())
    }
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug, Default)]
pub struct EntryD {
    pub variant: Option<u8>,
    pub props: BTreeMap<String, Val>,
}
impl EntryD {
    pub fn show(&self) -> String {
        let p: Vec<String> = self.props.iter().map(|(k, v)| format!("{k}={}", v.show())).collect();
        format!("variant {:?} {{{}}}", self.variant, p.join(", "))
    }
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug, Default)]
pub struct IndexD {
    pub name: String,
    pub store: u32,
    pub offset: u32,
    pub count: u32,
    pub entries: Vec<EntryD>,
}

#[derive(Serialize, Deserialize, Clone, PartialEq, Eq, Debug, Default)]
pub struct Dump {
    pub indexes: Vec<IndexD>,
    /// (pack, content) -> (length, blake3)
    pub contents: BTreeMap<String, (u64, String)>,
}

/// `pos`: final positions per entry store; `own`: the store the value belongs to
pub fn expect_val(v: &V, addrs: &[(u16, u32)], pos: &[Vec<u32>], own: usize) -> Val {
    match v {
        V::U(x) | V::UW(x) => Val::U(*x),
        V::S(x) | V::SW(x) => Val::S(*x),
        V::A(b) => Val::A(b.clone()),
        V::B(b) => Val::A(b.bytes()),
        V::C(p, c) => Val::C(*p, *c),
        V::CI(k) => {
            let (p, c) = addrs[*k as usize];
            Val::C(p, c)
        }
        V::Ref(k) => Val::U(pos[own][*k as usize] as u64),
        V::XRef(s, k) => Val::U(pos[*s as usize][*k as usize] as u64),
    }
}

pub fn expect_entry(es: &EStore, e: &Entry, addrs: &[(u16, u32)], pos: &[Vec<u32>], own: usize) -> EntryD {
    let props: Vec<&Prop> = if es.variants.is_empty() {
        es.common.iter().collect()
    } else {
        es.common.iter().chain(es.variants[e.variant as usize].1.iter()).collect()
    };
    EntryD {
        variant: if es.variants.is_empty() { None } else { Some(e.variant) },
        props: props
            .iter()
            .zip(&e.vals)
            .map(|(p, v)| (p.name.clone(), expect_val(v, addrs, pos, own)))
            .collect(),
    }
}

/// Entries of each store in their final order, where the order is the one given by `positions`.
pub fn expect_store(es: &EStore, addrs: &[(u16, u32)], pos: &[Vec<u32>], own: usize) -> Vec<EntryD> {
    let mut v: Vec<Option<EntryD>> = vec![None; es.entries.len()];
    for (k, e) in es.entries.iter().enumerate() {
        let d = expect_entry(es, e, addrs, pos, own);
        let p = pos[own][k] as usize;
        if p < v.len() {
            v[p] = Some(d);
        }
    }
    v.into_iter().map(|x| x.unwrap_or_default()).collect()
}

pub fn content_key(a: (u16, u32)) -> String {
    format!("{}/{}", a.0, a.1)
}

pub fn digest(b: &[u8]) -> (u64, String) {
    (b.len() as u64, blake3::hash(b).to_hex().to_string())
}

/// What the whole container must read as.
pub fn expect_dump(spec: &Spec, b: &Built) -> Dump {
    let mut d = Dump::default();
    for i in &spec.dir.indexes {
        let es = &spec.dir.estores[i.store as usize];
        let all = expect_store(es, &b.addrs, &b.positions, i.store as usize);
        let off = match i.offset_of {
            None => i.offset,
            Some(k) => b.positions[i.store as usize][k as usize],
        };
        let lo = (off as usize).min(all.len());
        let hi = (off as usize + i.count as usize).min(all.len());
        d.indexes.push(IndexD {
            name: i.name.clone(),
            store: i.store,
            offset: off,
            count: i.count,
            entries: all[lo..hi].to_vec(),
        });
    }
    for (i, a) in expand(&spec.contents).iter().zip(&b.addrs) {
        d.contents.insert(content_key(*a), digest(&i.blob.bytes()));
    }
    for (ep, addrs) in spec.extra.iter().zip(&b.extra_addrs) {
        for (i, a) in expand(&ep.contents).iter().zip(addrs) {
            d.contents.insert(content_key(*a), digest(&i.blob.bytes()));
        }
    }
    d
}

pub fn diff_entry(want: &EntryD, got: &EntryD) -> Option<String> {
    if want == got {
        return None;
    }
    let mut s = String::new();
    if want.variant != got.variant {
        s += &format!("variant: written {:?}, read {:?}; ", want.variant, got.variant);
    }
    for (k, v) in &want.props {
        match got.props.get(k) {
            None => s += &format!("{k}: written {}, absent when read; ", v.show()),
            Some(g) if g != v => s += &format!("{k}: written {}, read {}; ", v.show(), g.show()),
            _ => {}
        }
    }
    for k in got.props.keys() {
        if !want.props.contains_key(k) {
            s += &format!("unexpected property {k}; ");
        }
    }
    Some(s)
}

pub fn diff_dump(want: &Dump, got: &Dump) -> Option<String> {
    if want.indexes.len() != got.indexes.len() {
        return Some(format!("{} indexes instead of {}", got.indexes.len(), want.indexes.len()));
    }
    for (w, g) in want.indexes.iter().zip(&got.indexes) {
        if (&w.name, w.store, w.offset, w.count) != (&g.name, g.store, g.offset, g.count) {
            return Some(format!(
                "index header: want {:?} got {:?}",
                (&w.name, w.store, w.offset, w.count),
                (&g.name, g.store, g.offset, g.count)
            ));
        }
        if w.entries.len() != g.entries.len() {
            return Some(format!(
                "index {}: {} entries readable instead of {}",
                w.name,
                g.entries.len(),
                w.entries.len()
            ));
        }
        for (k, (we, ge)) in w.entries.iter().zip(&g.entries).enumerate() {
            if let Some(d) = diff_entry(we, ge) {
                return Some(format!("index {} entry {k}: {d}", w.name));
            }
        }
    }
    for (k, v) in &want.contents {
        match got.contents.get(k) {
            None => return Some(format!("content {k} absent")),
            Some(g) if g != v => {
                return Some(format!(
                    "content {k}: written (len {}, {}), read (len {}, {})",
                    v.0,
                    &v.1[..8],
                    g.0,
                    &g.1[..8]
                ))
            }
            _ => {}
        }
    }
    None
}
