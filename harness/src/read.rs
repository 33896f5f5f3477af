//! Reading through jubako's public reader API.
use crate::model::*;
use jubako as jbk;
use jubako::reader::builder::{
    AnyBuilder, ArrayProperty, BuilderTrait, ContentProperty, IntProperty, PropertyBuilderTrait, SignedProperty,
};
use jubako::reader::{EntryTrait, Range, RawValue};
use std::io::Read;
use std::path::Path;

pub fn raw_to_val(v: &RawValue) -> jbk::Result<Val> {
    Ok(match v {
        RawValue::Content(a) => Val::C(a.pack_id.into_u16(), a.content_id.into_u32()),
        RawValue::U8(_) | RawValue::U16(_) | RawValue::U32(_) | RawValue::U64(_) => Val::U(v.as_unsigned()),
        RawValue::I8(_) | RawValue::I16(_) | RawValue::I32(_) | RawValue::I64(_) => Val::S(v.as_signed()),
        RawValue::Array(_) => Val::A(v.as_vec()?.to_vec()),
    })
}

pub fn value_to_val(v: &jbk::Value) -> Val {
    match v {
        jbk::Value::Content(a) => Val::C(a.pack_id.into_u16(), a.content_id.into_u32()),
        jbk::Value::Unsigned(u) => Val::U(*u),
        jbk::Value::Signed(u) => Val::S(*u),
        jbk::Value::UnsignedWord(w) => Val::U(w.get()),
        jbk::Value::SignedWord(w) => Val::S(w.get()),
        jbk::Value::Array(b) => Val::A(b.to_vec()),
    }
}

/// names of (common, per variant) properties as found in the layout
pub struct Names {
    pub common: Vec<String>,
    pub variants: Vec<Vec<String>>,
    pub variant_names: Vec<String>,
}

pub fn names_of(store: &jbk::reader::EntryStore) -> Names {
    let l = store.layout();
    let mut common: Vec<String> = l.common.iter().map(|(n, _)| n.to_string()).collect();
    common.sort();
    let mut variants = vec![];
    let mut variant_names = vec![];
    if let Some(vp) = &l.variant_part {
        variant_names = vec![String::new(); vp.variants.len()];
        for (n, i) in &vp.names {
            if (*i as usize) < variant_names.len() {
                variant_names[*i as usize] = n.to_string();
            }
        }
        for v in vp.variants.iter() {
            let mut ns: Vec<String> = v.iter().map(|(n, _)| n.to_string()).collect();
            ns.sort();
            variants.push(ns);
        }
    }
    Names {
        common,
        variants,
        variant_names,
    }
}

pub fn read_entry(e: &impl EntryTrait, names: &Names) -> jbk::Result<EntryD> {
    let vid = e.get_variant_id()?;
    let mut d = EntryD {
        variant: vid.map(|v| v.into_u8()),
        ..Default::default()
    };
    let mut all: Vec<&String> = names.common.iter().collect();
    if let Some(v) = d.variant {
        if let Some(ns) = names.variants.get(v as usize) {
            all.extend(ns.iter());
        }
    }
    for n in all {
        if let Some(v) = e.get_value(n)? {
            d.props.insert(n.clone(), raw_to_val(&v)?);
        }
    }
    Ok(d)
}

pub fn read_index(c: &jbk::reader::Container, name: &str) -> jbk::Result<Option<IndexD>> {
    let Some(index) = c.get_index_for_name(name)? else {
        return Ok(None);
    };
    let store = index.get_store(c.get_entry_storage())?;
    let names = names_of(&store);
    let builder = AnyBuilder::new(store, c.get_value_storage().as_ref())?;
    read_index_with(&index, &builder, &names, name).map(Some)
}

pub fn read_index_with(
    index: &jbk::reader::Index,
    builder: &AnyBuilder,
    names: &Names,
    name: &str,
) -> jbk::Result<IndexD> {
    let count = index.count().into_u32();
    let mut d = IndexD {
        name: name.to_string(),
        store: index.get_store_id().into_u32(),
        offset: index.offset().into_u32(),
        count,
        entries: vec![],
    };
    for i in 0..count {
        if let Some(e) = index.get_entry(builder, i.into())? {
            d.entries.push(read_entry(&e, names)?);
        }
    }
    Ok(d)
}

/// Typed view of one entry store: reads every entry with the specialised property builders.
pub enum Typed {
    U(IntProperty),
    S(SignedProperty),
    A(ArrayProperty),
    C(ContentProperty),
}

pub struct TypedBuilder {
    pub store: jbk::reader::EntryStore,
    pub common: Vec<(String, Typed)>,
    pub variants: Vec<Vec<(String, Typed)>>,
    pub variant_id: Option<jbk::reader::builder::VariantIdBuilder<VarName>>,
}

/// variant name hashed, to have a Copy type built from the name
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct VarName(pub u64);
impl TryFrom<&str> for VarName {
    type Error = ();
    fn try_from(s: &str) -> Result<Self, ()> {
        Ok(VarName(crate::util::hash_str(s)))
    }
}

impl TypedBuilder {
    pub fn new(
        es: &EStore,
        store: jbk::reader::EntryStore,
        vs: &jbk::reader::ValueStorage,
    ) -> Result<Self, String> {
        let e = |x: &dyn std::fmt::Display| format!("typed builder: {x}");
        macro_rules! mk {
            ($props:expr, $p:expr) => {{
                let lp = $props
                    .get(crate::util::intern(&$p.name))
                    .ok_or_else(|| format!("property {} not in layout", $p.name))?;
                (
                    $p.name.clone(),
                    match $p.kind {
                        PKind::U => Typed::U(
                            lp.as_builder(vs)
                                .map_err(|x| e(&x))?
                                .ok_or_else(|| format!("{} is not an unsigned int in the layout", $p.name))?,
                        ),
                        PKind::S => Typed::S(
                            lp.as_builder(vs)
                                .map_err(|x| e(&x))?
                                .ok_or_else(|| format!("{} is not a signed int in the layout", $p.name))?,
                        ),
                        PKind::A(..) => Typed::A(
                            lp.as_builder(vs)
                                .map_err(|x| e(&x))?
                                .ok_or_else(|| format!("{} is not an array in the layout", $p.name))?,
                        ),
                        PKind::C => Typed::C(
                            lp.as_builder(vs)
                                .map_err(|x| e(&x))?
                                .ok_or_else(|| format!("{} is not a content address in the layout", $p.name))?,
                        ),
                    },
                )
            }};
        }
        let mut common = vec![];
        let mut variants = vec![];
        let variant_id;
        {
            let l = store.layout();
            for p in &es.common {
                common.push(mk!(l.common, p));
            }
            if l.variant_len() != es.variants.len() {
                return Err(format!("{} variants in the layout instead of {}", l.variant_len(), es.variants.len()));
            }
            variant_id = l.variant_id_builder::<VarName>();
            for (n, ps) in &es.variants {
                let lv = l
                    .get_variant(crate::util::intern(n))
                    .ok_or_else(|| format!("variant {n} not in layout"))?;
                let mut v = vec![];
                for p in ps {
                    v.push(mk!(lv, p));
                }
                variants.push(v);
            }
        }
        Ok(TypedBuilder {
            store,
            common,
            variants,
            variant_id,
        })
    }
}

impl BuilderTrait for TypedBuilder {
    type Entry = EntryD;
    type Error = jbk::Error;
    fn create_entry(&self, idx: jbk::EntryIdx) -> jbk::Result<Option<EntryD>> {
        let Some(reader) = self.store.get_entry_reader(idx) else {
            return Ok(None);
        };
        let mut d = EntryD::default();
        let mut rd = |ps: &Vec<(String, Typed)>| -> jbk::Result<()> {
            for (n, t) in ps {
                let v = match t {
                    Typed::U(p) => Val::U(p.create(&reader)?),
                    Typed::S(p) => Val::S(p.create(&reader)?),
                    Typed::A(p) => {
                        let mut b = jbk::SmallBytes::new();
                        p.create(&reader)?.resolve_to_vec(&mut b)?;
                        Val::A(b.to_vec())
                    }
                    Typed::C(p) => {
                        let a = p.create(&reader)?;
                        Val::C(a.pack_id.into_u16(), a.content_id.into_u32())
                    }
                };
                d.props.insert(n.clone(), v);
            }
            Ok(())
        };
        rd(&self.common)?;
        let mut variant = None;
        if let Some(vb) = &self.variant_id {
            // the builder answers the variant through its name
            let vn = vb.create(&reader)?;
            if let Some(vn) = vn {
                let l = self.store.layout().variant_part.as_ref().unwrap();
                for (n, i) in &l.names {
                    if VarName(crate::util::hash_str(n)) == vn {
                        variant = Some(*i);
                    }
                }
            }
        }
        if let Some(v) = variant {
            rd(&self.variants[v as usize])?;
        }
        d.variant = variant;
        Ok(Some(d))
    }
}

pub fn read_all(r: &jbk::reader::ByteRegion) -> jbk::Result<Vec<u8>> {
    let mut v = Vec::new();
    r.stream().read_to_end(&mut v)?;
    Ok(v)
}

pub fn addr(a: (u16, u32)) -> jbk::ContentAddress {
    jbk::ContentAddress::new(a.0.into(), a.1.into())
}

pub enum Got {
    NoPack,
    Missing(jbk::reader::PackInfo),
    NoContent,
    Bytes(Vec<u8>),
}

pub fn get_bytes(c: &jbk::reader::Container, a: (u16, u32)) -> jbk::Result<Got> {
    use jbk::reader::MayMissPack::*;
    Ok(match c.get_bytes(addr(a))? {
        None => Got::NoPack,
        Some(MISSING(p)) => Got::Missing(p),
        Some(FOUND(None)) => Got::NoContent,
        Some(FOUND(Some(r))) => Got::Bytes(read_all(&r)?),
    })
}

/// Full logical dump of the indexes and contents named in `want`.
pub fn dump_like(c: &jbk::reader::Container, want: &Dump) -> Result<Dump, String> {
    let mut d = Dump::default();
    for i in &want.indexes {
        match read_index(c, &i.name).map_err(|e| format!("reading index {}: {e}", i.name))? {
            Some(x) => d.indexes.push(x),
            None => return Err(format!("index {} not found", i.name)),
        }
    }
    for k in want.contents.keys() {
        let (p, n) = k.split_once('/').unwrap();
        let a = (p.parse().unwrap(), n.parse().unwrap());
        match get_bytes(c, a).map_err(|e| format!("reading content {k}: {e}"))? {
            Got::Bytes(b) => {
                d.contents.insert(k.clone(), digest(&b));
            }
            Got::NoPack => return Err(format!("content {k}: unknown pack")),
            Got::Missing(_) => return Err(format!("content {k}: pack reported missing")),
            Got::NoContent => return Err(format!("content {k}: no such content")),
        }
    }
    Ok(d)
}

pub fn open(path: &Path) -> Result<jbk::reader::Container, String> {
    jbk::reader::Container::new(path).map_err(|e| format!("open {}: {e}", path.display()))
}

/// Opens, dumps, compares and checks.
pub fn verify(path: &Path, want: &Dump, check: bool) -> Result<(), String> {
    let c = open(path)?;
    let got = dump_like(&c, want)?;
    if let Some(d) = diff_dump(want, &got) {
        return Err(d);
    }
    if check {
        match c.check() {
            Ok(true) => {}
            Ok(false) => return Err("Container::check() answers false on a pristine container".into()),
            Err(e) => return Err(format!("Container::check() fails on a pristine container: {e}")),
        }
    }
    Ok(())
}
