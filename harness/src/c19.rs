use crate::hooks::*;
use crate::places::dump;
use crate::util::*;
use core::fmt;
use nondestructive::yaml::{self, Any, Block, Chomp, Document, Id, Null, Separator};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize, Serializer};
use serde::Deserialize;

/// A self-describing format which keeps what it was given.
#[derive(Clone)]
enum C {
    Unit,
    Bool(bool),
    Unsigned(u32, u128),
    Signed(u32, i128),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    Seq(Vec<C>),
    Map(Vec<(C, C)>),
}

#[inline(never)]
fn equal(a: &C, b: &C) -> bool {
    match (a, b) {
        (C::Unit, C::Unit) => true,
        (C::Bool(a), C::Bool(b)) => a == b,
        (C::Unsigned(v, a), C::Unsigned(w, b)) => v == w && a == b,
        (C::Signed(v, a), C::Signed(w, b)) => v == w && a == b,
        (C::F32(a), C::F32(b)) => a == b,
        (C::F64(a), C::F64(b)) => a == b,
        (C::Str(a), C::Str(b)) | (C::Bytes(a), C::Bytes(b)) => same(a, b),
        (C::Seq(a), C::Seq(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (C::Map(a), C::Map(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(&a.0, &b.0) && equal(&a.1, &b.1)),
        _ => false,
    }
}

#[derive(Debug)]
struct Failed;

impl fmt::Display for Failed {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

impl std::error::Error for Failed {}

impl ser::Error for Failed {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Failed
    }
}

impl de::Error for Failed {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Failed
    }
}

// ---- serializing ----

struct Ser;
struct SeqSer(Vec<C>);
struct MapSer(Vec<(C, C)>, Option<C>);
/// The variant's name and its content.
struct Variant<T>(&'static str, T);

fn text(s: &str) -> C {
    C::Str(s.as_bytes().to_vec())
}

macro_rules! seqs {
    ($($t:ident $f:ident;)*) => {$(
        impl ser::$t for SeqSer {
            type Ok = C;
            type Error = Failed;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Failed> {
                self.0.push(v.serialize(Ser)?);
                Ok(())
            }
            fn end(self) -> Result<C, Failed> {
                Ok(C::Seq(self.0))
            }
        }
    )*};
}

seqs! {
    SerializeSeq serialize_element;
    SerializeTuple serialize_element;
    SerializeTupleStruct serialize_field;
}

impl ser::SerializeTupleVariant for Variant<SeqSer> {
    type Ok = C;
    type Error = Failed;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        self.1 .0.push(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<C, Failed> {
        Ok(C::Map(vec![(text(self.0), C::Seq(self.1 .0))]))
    }
}

impl ser::SerializeMap for MapSer {
    type Ok = C;
    type Error = Failed;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        self.1 = Some(v.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        let Some(k) = self.1.take() else { return Err(Failed) };
        self.0.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<C, Failed> {
        Ok(C::Map(self.0))
    }
}

impl ser::SerializeStruct for MapSer {
    type Ok = C;
    type Error = Failed;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Failed> {
        self.0.push((text(k), v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<C, Failed> {
        Ok(C::Map(self.0))
    }
}

impl ser::SerializeStructVariant for Variant<MapSer> {
    type Ok = C;
    type Error = Failed;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Failed> {
        self.1 .0.push((text(k), v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<C, Failed> {
        Ok(C::Map(vec![(text(self.0), C::Map(self.1 .0))]))
    }
}

macro_rules! ints {
    ($($f:ident $t:ident $v:ident $w:literal $c:ty;)*) => { $(fn $f(self, v: $t) -> Result<C, Failed> { Ok(C::$v($w, v as $c)) })* }
}

impl Serializer for Ser {
    type Ok = C;
    type Error = Failed;
    type SerializeSeq = SeqSer;
    type SerializeMap = MapSer;
    type SerializeTuple = SeqSer;
    type SerializeTupleStruct = SeqSer;
    type SerializeTupleVariant = Variant<SeqSer>;
    type SerializeStruct = MapSer;
    type SerializeStructVariant = Variant<MapSer>;

    ints! {
        serialize_i8 i8 Signed 8 i128; serialize_i16 i16 Signed 16 i128; serialize_i32 i32 Signed 32 i128;
        serialize_i64 i64 Signed 64 i128; serialize_i128 i128 Signed 128 i128;
        serialize_u8 u8 Unsigned 8 u128; serialize_u16 u16 Unsigned 16 u128; serialize_u32 u32 Unsigned 32 u128;
        serialize_u64 u64 Unsigned 64 u128; serialize_u128 u128 Unsigned 128 u128;
    }
    fn serialize_bool(self, v: bool) -> Result<C, Failed> {
        Ok(C::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<C, Failed> {
        Ok(C::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<C, Failed> {
        Ok(C::F64(v.to_bits()))
    }
    fn serialize_char(self, v: char) -> Result<C, Failed> {
        Ok(C::Str(String::from(v).into_bytes()))
    }
    fn serialize_str(self, v: &str) -> Result<C, Failed> {
        Ok(text(v))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<C, Failed> {
        Ok(C::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<C, Failed> {
        Ok(C::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<C, Failed> {
        v.serialize(Ser)
    }
    fn serialize_unit(self) -> Result<C, Failed> {
        Ok(C::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<C, Failed> {
        Ok(C::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<C, Failed> {
        Ok(text(v))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<C, Failed> {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, k: &'static str, v: &T) -> Result<C, Failed> {
        Ok(C::Map(vec![(text(k), v.serialize(Ser)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer, Failed> {
        Ok(SeqSer(Vec::new()))
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer, Failed> {
        Ok(SeqSer(Vec::new()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<SeqSer, Failed> {
        Ok(SeqSer(Vec::new()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, k: &'static str, _: usize) -> Result<Variant<SeqSer>, Failed> {
        Ok(Variant(k, SeqSer(Vec::new())))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer, Failed> {
        Ok(MapSer(Vec::new(), None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<MapSer, Failed> {
        Ok(MapSer(Vec::new(), None))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, k: &'static str, _: usize) -> Result<Variant<MapSer>, Failed> {
        Ok(Variant(k, MapSer(Vec::new(), None)))
    }
}

// ---- deserializing ----

struct De<'a>(&'a C);
struct SeqDe<'a>(core::slice::Iter<'a, C>);
struct MapDe<'a>(core::slice::Iter<'a, (C, C)>, Option<&'a C>);
struct EnumDe<'a>(&'a C, Option<&'a C>);

impl<'de> SeqAccess<'de> for SeqDe<'_> {
    type Error = Failed;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Failed> {
        match self.0.next() {
            Some(c) => Ok(Some(seed.deserialize(De(c))?)),
            None => Ok(None),
        }
    }
}

impl<'de> MapAccess<'de> for MapDe<'_> {
    type Error = Failed;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Failed> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                Ok(Some(seed.deserialize(De(k))?))
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Failed> {
        match self.1.take() {
            Some(v) => seed.deserialize(De(v)),
            None => Err(Failed),
        }
    }
}

impl<'a, 'de> EnumAccess<'de> for EnumDe<'a> {
    type Error = Failed;
    type Variant = EnumDe<'a>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, EnumDe<'a>), Failed> {
        Ok((seed.deserialize(De(self.0))?, self))
    }
}

impl<'de> VariantAccess<'de> for EnumDe<'_> {
    type Error = Failed;
    fn unit_variant(self) -> Result<(), Failed> {
        match self.1 {
            None => Ok(()),
            Some(_) => Err(Failed),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, Failed> {
        seed.deserialize(De(self.1.ok_or(Failed)?))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Failed> {
        De(self.1.ok_or(Failed)?).deserialize_any(v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Failed> {
        De(self.1.ok_or(Failed)?).deserialize_any(v)
    }
}

impl<'de> Deserializer<'de> for De<'_> {
    type Error = Failed;

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        match self.0 {
            C::Unit => v.visit_unit(),
            C::Bool(b) => v.visit_bool(*b),
            C::Unsigned(128, n) => v.visit_u128(*n),
            C::Signed(128, n) => v.visit_i128(*n),
            C::Unsigned(_, n) => v.visit_u64(*n as u64),
            C::Signed(_, n) => v.visit_i64(*n as i64),
            C::F32(n) => v.visit_f32(f32::from_bits(*n)),
            C::F64(n) => v.visit_f64(f64::from_bits(*n)),
            C::Str(s) => match core::str::from_utf8(s) {
                Ok(s) => v.visit_str(s),
                Err(_) => Err(Failed),
            },
            C::Bytes(b) => v.visit_bytes(b),
            C::Seq(l) => v.visit_seq(SeqDe(l.iter())),
            C::Map(l) => v.visit_map(MapDe(l.iter(), None)),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Failed> {
        match self.0 {
            C::Unit => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Failed> {
        v.visit_newtype_struct(self)
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Failed> {
        match self.0 {
            C::Str(_) => v.visit_enum(EnumDe(self.0, None)),
            C::Map(l) if l.len() == 1 => v.visit_enum(EnumDe(&l[0].0, Some(&l[0].1))),
            _ => Err(Failed),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map struct identifier ignored_any
    }
}

// ---- the property ----

/// Every value's id.
#[inline(never)]
fn ids(d: &Document, id: Id, out: &mut Vec<Id>) {
    out.push(id);
    match d.value(id).as_any() {
        Any::Mapping(m) => {
            for (_, v) in m {
                ids(d, v.id(), out);
            }
        }
        Any::Sequence(s) => {
            for v in s {
                ids(d, v.id(), out);
            }
        }
        _ => {}
    }
}

#[inline(never)]
fn snapshot(d: &Document) -> Document {
    let c = match d.serialize(Ser) {
        Ok(c) => c,
        Err(_) => fail("a document can't be serialized"),
    };
    match Document::deserialize(De(&c)) {
        Ok(d) => d,
        Err(_) => fail("a serialized document can't be deserialized"),
    }
}

/// The same document, and every id names the same value. After an edit new values may have other
/// ids, so that only the ones which the edit didn't concern are compared.
#[inline(never)]
fn alike(d: &Document, e: &Document, kept: Option<&[Id]>) {
    check!(same(&write(d), &write(e)), "a restored document has another text");
    let root = d.as_ref().id();
    check!(e.as_ref().id() == root, "a restored document's root has another id");
    let (mut x, mut y) = (Vec::new(), Vec::new());
    ids(d, root, &mut x);
    ids(e, root, &mut y);
    check!(x.len() == y.len(), "a restored document has another number of values");
    for (x, y) in x.iter().zip(&y) {
        if kept.map_or(true, |k| k.contains(x)) {
            check!(x == y, "a restored value has another id");
        }
    }
    let (mut a, mut b) = (Vec::new(), Vec::new());
    dump(d, root, None, &mut a);
    dump(e, root, None, &mut b);
    check!(same(&a, &b), "a restored document has other values");
    for (x, y) in x.into_iter().zip(y) {
        let (Ok(v), Ok(w)) = (d.value(x).serialize(Ser), e.value(y).serialize(Ser)) else { fail("a value can't be serialized") };
        check!(equal(&v, &w), "an id names another value in a restored document");
    }
}

/// An edit of one value, to be made on several documents.
#[derive(Clone)]
struct Edit {
    id: Id,
    op: u32,
    key: &'static str,
    at: usize,
    s: String,
}

#[inline(never)]
fn edit(d: &Document) -> Edit {
    let mut all = Vec::new();
    ids(d, d.as_ref().id(), &mut all);
    let id = all[choose(all.len() as u32) as usize];
    let v = d.value(id);
    let (first, more) = match v.as_any() {
        Any::Mapping(_) => (9, 5),
        Any::Sequence(_) => (14, 5),
        _ => (0, 0),
    };
    let mut op = choose(9 + more);
    if op >= 9 {
        op = op - 9 + first;
    }
    let key = if matches!(op, 9..=11) { ["a", "n"][choose(2) as usize] } else { "" };
    let at = if matches!(op, 16..=17) { choose(2) as usize } else { 0 };
    let mut s = String::new();
    if matches!(op, 0 | 7 | 9 | 11 | 14 | 17) {
        let b = byte();
        assume(b >= b'p' && b <= b'z');
        s.push(b as char);
    }
    Edit { id, op, key, at, s }
}

#[inline(never)]
fn apply(d: &mut Document, e: &Edit) {
    let mut v = d.value_mut(e.id);
    match e.op {
        0 => v.set_string(&e.s),
        1 => v.set_string("'#\n"),
        2 => v.set_i16(-7),
        3 => v.set_block(["l", "", "m"], Block::Literal(Chomp::Keep)),
        4 => v.set_block(["l", "m"], Block::Folded(Chomp::Strip)),
        5 => v.set_null(Null::Empty),
        6 => v.set_f32(1.5),
        7 => {
            let mut m = v.make_mapping();
            m.insert_str("n", &e.s);
            m.insert("o", Separator::Auto).make_sequence().push_bool(true);
        }
        8 => {
            let mut s = v.make_sequence();
            s.push_u64(1);
            s.push(Separator::Auto).make_mapping().insert("p", Separator::Auto).set_null(Null::Tilde);
        }
        9..=13 => {
            let Some(mut m) = v.into_mapping_mut() else { fail("a mapping isn't one in a restored document") };
            match e.op {
                9 => m.insert_str(e.key, &e.s),
                10 => {
                    m.remove(e.key);
                }
                11 => match m.get_mut(e.key) {
                    Some(mut v) => v.set_string(&e.s),
                    None => m.insert(e.key, Separator::Custom("   ")).set_string(&e.s),
                },
                12 => m.clear(),
                _ => {
                    m.insert("n", Separator::Auto).make_mapping().insert_u32("m", 1);
                }
            }
        }
        _ => {
            let Some(mut s) = v.into_sequence_mut() else { fail("a sequence isn't one in a restored document") };
            match e.op {
                14 => s.push_string(&e.s),
                15 => {
                    s.push(Separator::Auto).make_sequence().push_u32(1);
                }
                16 => {
                    s.remove(e.at);
                }
                17 => match s.get_mut(e.at) {
                    Some(mut v) => v.set_string(&e.s),
                    None => s.push(Separator::Custom("   ")).set_string(&e.s),
                },
                _ => s.clear(),
            }
        }
    }
}

/// Documents of every style; `?` is an unconstrained byte.
const DOCS: &[&[u8]] = &[
    b"---\na: x\nb:\n  - ?\n  - a: z\n...\n",
    b"{a: [x, {b: ?}], b: , c : 1 , }  # c\n",
    b"- [x , ?]\n# c\n- a: y\n  b: ~\n",
    b"??",
    b"[[], {}, 'x?', \"\\n?\" , ]\n",
    b"b:\n  a: |+\n    x?\n\n  b:\n    b: >-\n      5\n\n      ?\na: 'it''s'\n",
    b"  - - - x\n  - ?",
    b"a: null\nb: TRUE\n? : -1.5\nc: 12?\nd:\ne: NULL\n",
    b"\xef\xbb\xbf%YAML 1.2\n--- ?\n",
];

const EDITED: usize = 7;

pub fn run() {
    let deep = tier() == 1;
    let n = choose(DOCS.len() as u32) as usize;
    let doc = tmpl(DOCS[n]);
    note("document", &doc);
    // an edit before and after the snapshot; unconstrained bytes in the document without edits
    let edits = if n < EDITED { choose(if deep && matches!(n, 3 | 6) { 4 } else { 3 }) } else { 0 };
    if edits > 0 {
        let mut i = 0;
        while i < doc.len() {
            if DOCS[n][i] == b'?' {
                assume(doc[i] == b'y');
            }
            i += 1;
        }
    }
    let Ok(mut d) = yaml::from_slice(&doc) else { return };
    if edits >= 2 {
        let x = edit(&d);
        apply(&mut d, &x);
        reach(2);
    }
    if edits == 3 {
        let x = edit(&d);
        apply(&mut d, &x);
        reach(4);
    }
    let mut e = snapshot(&d);
    alike(&d, &e, None);
    reach(1);
    if edits == 0 {
        observe_bytes(&write(&e));
    }
    if edits >= 1 {
        let x = edit(&d);
        let (mut all, mut within) = (Vec::new(), Vec::new());
        ids(&d, d.as_ref().id(), &mut all);
        ids(&d, x.id, &mut within);
        all.retain(|id| !within.contains(id));
        apply(&mut d, &x);
        apply(&mut e, &x);
        alike(&d, &e, Some(&all));
        reach(3);
    }
}
