use crate::gen::Gen;
use crate::hooks::*;
use crate::util::*;
use core::fmt;
use nondestructive::yaml::{self, Any, Document, Null, Value};
use serde::de::{Deserialize, DeserializeSeed, Deserializer, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible, Serialize, Serializer};

/// What a serializer or a visitor was given.
#[derive(Clone)]
enum Got {
    None,
    Unit,
    Some(Box<Got>),
    Bool(bool),
    /// The type's width, negative if it is signed, and the value.
    Int(i32, i128),
    U128(u128),
    F32(u32),
    F64(u64),
    Str(Vec<u8>),
    Bytes(Vec<u8>),
    Seq(Option<usize>, Vec<Got>),
    Map(Option<usize>, Vec<(Got, Got)>),
    Other,
}

#[derive(Debug)]
struct Failed;

impl fmt::Display for Failed {
    fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
}

impl std::error::Error for Failed {}

impl ser::Error for Failed {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Failed
    }
}

// ---- serializing ----

struct Ser;
struct SeqSer(Option<usize>, Vec<Got>);
struct MapSer(Option<usize>, Vec<(Got, Got)>, Option<Got>);

impl ser::SerializeSeq for SeqSer {
    type Ok = Got;
    type Error = Failed;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        self.1.push(v.serialize(Ser)?);
        Ok(())
    }
    fn end(self) -> Result<Got, Failed> {
        Ok(Got::Seq(self.0, self.1))
    }
}

impl ser::SerializeMap for MapSer {
    type Ok = Got;
    type Error = Failed;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        self.2 = Some(v.serialize(Ser)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Failed> {
        let Some(k) = self.2.take() else { return Err(Failed) };
        self.1.push((k, v.serialize(Ser)?));
        Ok(())
    }
    fn end(self) -> Result<Got, Failed> {
        Ok(Got::Map(self.0, self.1))
    }
}

macro_rules! ints {
    ($($f:ident $t:ident $w:literal;)*) => { $(fn $f(self, v: $t) -> Result<Got, Failed> { Ok(Got::Int($w, v as i128)) })* }
}

impl Serializer for Ser {
    type Ok = Got;
    type Error = Failed;
    type SerializeSeq = SeqSer;
    type SerializeMap = MapSer;
    type SerializeTuple = Impossible<Got, Failed>;
    type SerializeTupleStruct = Impossible<Got, Failed>;
    type SerializeTupleVariant = Impossible<Got, Failed>;
    type SerializeStruct = Impossible<Got, Failed>;
    type SerializeStructVariant = Impossible<Got, Failed>;

    ints! {
        serialize_i8 i8 -8; serialize_i16 i16 -16; serialize_i32 i32 -32; serialize_i64 i64 -64; serialize_i128 i128 -128;
        serialize_u8 u8 8; serialize_u16 u16 16; serialize_u32 u32 32; serialize_u64 u64 64;
    }
    fn serialize_u128(self, v: u128) -> Result<Got, Failed> {
        Ok(Got::U128(v))
    }
    fn serialize_bool(self, v: bool) -> Result<Got, Failed> {
        Ok(Got::Bool(v))
    }
    fn serialize_f32(self, v: f32) -> Result<Got, Failed> {
        Ok(Got::F32(v.to_bits()))
    }
    fn serialize_f64(self, v: f64) -> Result<Got, Failed> {
        Ok(Got::F64(v.to_bits()))
    }
    fn serialize_char(self, _: char) -> Result<Got, Failed> {
        Ok(Got::Other)
    }
    fn serialize_str(self, v: &str) -> Result<Got, Failed> {
        Ok(Got::Str(v.as_bytes().to_vec()))
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Got, Failed> {
        Ok(Got::Bytes(v.to_vec()))
    }
    fn serialize_none(self) -> Result<Got, Failed> {
        Ok(Got::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Got, Failed> {
        Ok(Got::Some(Box::new(v.serialize(Ser)?)))
    }
    fn serialize_unit(self) -> Result<Got, Failed> {
        Ok(Got::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Got, Failed> {
        Ok(Got::Other)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> Result<Got, Failed> {
        Ok(Got::Other)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Got, Failed> {
        v.serialize(Ser)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Got, Failed> {
        Ok(Got::Other)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqSer, Failed> {
        Ok(SeqSer(n, Vec::new()))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<MapSer, Failed> {
        Ok(MapSer(n, Vec::new(), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Impossible<Got, Failed>, Failed> {
        Err(Failed)
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Impossible<Got, Failed>, Failed> {
        Err(Failed)
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Got, Failed>, Failed> {
        Err(Failed)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<Got, Failed>, Failed> {
        Err(Failed)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Got, Failed>, Failed> {
        Err(Failed)
    }
    fn collect_str<T: ?Sized + fmt::Display>(self, _: &T) -> Result<Got, Failed> {
        Ok(Got::Other)
    }
}

// ---- deserializing ----

/// Takes whatever it is given; the values of a container are requested as whatever they are.
struct Any_;

/// A key of a mapping, requested in one of several ways.
struct Key(u32);

macro_rules! visits {
    ($($f:ident $t:ident $w:literal;)*) => { $(fn $f<E>(self, v: $t) -> Result<Got, E> { Ok(Got::Int($w, v as i128)) })* }
}

impl<'de> Visitor<'de> for Any_ {
    type Value = Got;
    fn expecting(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result {
        Ok(())
    }
    visits! {
        visit_i8 i8 -8; visit_i16 i16 -16; visit_i32 i32 -32; visit_i64 i64 -64; visit_i128 i128 -128;
        visit_u8 u8 8; visit_u16 u16 16; visit_u32 u32 32; visit_u64 u64 64;
    }
    fn visit_u128<E>(self, v: u128) -> Result<Got, E> {
        Ok(Got::U128(v))
    }
    fn visit_bool<E>(self, v: bool) -> Result<Got, E> {
        Ok(Got::Bool(v))
    }
    fn visit_f32<E>(self, v: f32) -> Result<Got, E> {
        Ok(Got::F32(v.to_bits()))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Got, E> {
        Ok(Got::F64(v.to_bits()))
    }
    fn visit_char<E>(self, _: char) -> Result<Got, E> {
        Ok(Got::Other)
    }
    fn visit_str<E>(self, v: &str) -> Result<Got, E> {
        Ok(Got::Str(v.as_bytes().to_vec()))
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Got, E> {
        Ok(Got::Bytes(v.to_vec()))
    }
    fn visit_none<E>(self) -> Result<Got, E> {
        Ok(Got::None)
    }
    fn visit_unit<E>(self) -> Result<Got, E> {
        Ok(Got::Unit)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        Ok(Got::Some(Box::new(d.deserialize_any(Any_)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        d.deserialize_any(Any_)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let mut v = Vec::new();
        while let Some(x) = a.next_element::<Got>()? {
            v.push(x);
        }
        // and none after the last one
        if a.next_element::<Got>()?.is_some() {
            return Ok(Got::Other);
        }
        Ok(Got::Seq(None, v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let mut v = Vec::new();
        let mut how = 0;
        while let Some(k) = a.next_key_seed(Key(how))? {
            how += 1;
            v.push((k, a.next_value::<Got>()?));
        }
        if a.next_key::<Got>()?.is_some() {
            return Ok(Got::Other);
        }
        Ok(Got::Map(None, v))
    }
}

impl<'de> Deserialize<'de> for Got {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Got, D::Error> {
        d.deserialize_any(Any_)
    }
}

impl<'de> DeserializeSeed<'de> for Key {
    type Value = Got;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        match self.0 % 6 {
            0 => d.deserialize_any(Any_),
            1 => d.deserialize_string(Any_),
            2 => d.deserialize_identifier(Any_),
            3 => d.deserialize_str(Any_),
            4 => d.deserialize_bytes(Any_),
            _ => d.deserialize_ignored_any(Any_),
        }
    }
}

type Back = Result<Got, yaml::serde::Error>;

#[inline(never)]
fn request(v: Value<'_>, how: u32) -> Back {
    let d = v.into_deserializer();
    match how {
        0 => d.deserialize_any(Any_),
        1 => d.deserialize_bool(Any_),
        2 => d.deserialize_i8(Any_),
        3 => d.deserialize_i16(Any_),
        4 => d.deserialize_i32(Any_),
        5 => d.deserialize_i64(Any_),
        6 => d.deserialize_i128(Any_),
        7 => d.deserialize_u8(Any_),
        8 => d.deserialize_u16(Any_),
        9 => d.deserialize_u32(Any_),
        10 => d.deserialize_u64(Any_),
        11 => d.deserialize_u128(Any_),
        12 => d.deserialize_str(Any_),
        13 => d.deserialize_string(Any_),
        14 => d.deserialize_char(Any_),
        15 => d.deserialize_bytes(Any_),
        16 => d.deserialize_byte_buf(Any_),
        17 => d.deserialize_option(Any_),
        18 => d.deserialize_seq(Any_),
        19 => d.deserialize_tuple(2, Any_),
        20 => d.deserialize_map(Any_),
        21 => d.deserialize_unit(Any_),
        22 => d.deserialize_unit_struct("s", Any_),
        23 => d.deserialize_newtype_struct("s", Any_),
        24 => d.deserialize_tuple_struct("s", 1, Any_),
        25 => d.deserialize_struct("s", &["a"], Any_),
        26 => d.deserialize_enum("s", &["a"], Any_),
        27 => d.deserialize_identifier(Any_),
        28 => d.deserialize_ignored_any(Any_),
        29 => d.deserialize_f32(Any_),
        _ => d.deserialize_f64(Any_),
    }
}

const REQUESTS: u32 = 29;

// ---- what they should be given ----

#[inline(never)]
fn number_is(v: &Value<'_>, got: &Got) -> bool {
    match got {
        Got::Int(w, x) => match *w {
            w if w > 0 => v.as_u64().map(|v| v as i128) == Some(*x),
            _ => v.as_i128() == Some(*x),
        },
        Got::U128(x) => v.as_u128() == Some(*x),
        Got::F64(x) => v.as_f64().map(f64::to_bits) == Some(*x),
        Got::F32(x) => v.as_f32().map(f32::to_bits) == Some(*x),
        _ => false,
    }
}

/// Whether a number's text fits its natural width: 64 bits, signed if it starts with a `-`, for a
/// parsed number, and the width it was set with for one that was set.
#[inline(never)]
fn fits(v: &Value<'_>, width: i32) -> bool {
    let Some(n) = v.as_number() else { return false };
    if n.as_raw().iter().any(|b| matches!(b, b'.' | b'e' | b'E')) {
        return v.as_f64().is_some();
    }
    match width {
        0 if n.as_raw().starts_with(b"-") => v.as_i64().is_some(),
        0 => v.as_u64().is_some(),
        _ => true,
    }
}

#[inline(never)]
fn same_type(d: &Document, id: yaml::Id, width: i32, got: &Got, ser: bool) {
    let v = d.value(id);
    match v.as_any() {
        Any::Null => check!(matches!(got, Got::None), "a null is something else"),
        Any::Bool(b) => check!(matches!(got, Got::Bool(x) if *x == b), "a boolean is something else"),
        Any::Number(_) => {
            if fits(&v, width) {
                check!(number_is(&v, got), "a number is something else");
            } else {
                check!(ser && matches!(got, Got::None), "a number which doesn't fit is something else");
            }
        }
        Any::String(_) => match (v.as_str(), v.as_bstr(), got) {
            (Some(a), _, Got::Str(b)) => check!(same(a.as_bytes(), b), "a string is another one"),
            (None, Some(a), Got::Bytes(b)) => check!(same(a, b), "a string is another one"),
            _ => fail("a string is something else"),
        },
        Any::Sequence(s) => {
            let Got::Seq(len, l) = got else { fail("a sequence is something else") };
            check!(len.is_none() || *len == Some(s.len()), "a sequence has another length");
            check!(l.len() == s.len(), "a sequence has another number of items");
            let mut i = 0;
            for x in s.iter() {
                same_type(d, x.id(), 0, &l[i], ser);
                i += 1;
            }
        }
        Any::Mapping(m) => {
            let Got::Map(len, l) = got else { fail("a mapping is something else") };
            check!(len.is_none() || *len == Some(m.len()), "a mapping has another length");
            check!(l.len() == m.len(), "a mapping has another number of entries");
            let mut i = 0;
            for (k, x) in m.iter() {
                match &l[i].0 {
                    Got::Str(b) | Got::Bytes(b) => check!(same(k, b), "a key is another one"),
                    _ => fail("a key is something else"),
                }
                same_type(d, x.id(), 0, &l[i].1, ser);
                i += 1;
            }
        }
        _ => fail("unknown type"),
    }
}

/// Whether there is a number which doesn't fit, so that deserializing it is an error.
#[inline(never)]
fn misfit(d: &Document, id: yaml::Id, width: i32) -> bool {
    let v = d.value(id);
    match v.as_any() {
        Any::Number(_) => !fits(&v, width),
        Any::Sequence(s) => s.iter().any(|x| misfit(d, x.id(), 0)),
        Any::Mapping(m) => m.iter().any(|(_, x)| misfit(d, x.id(), 0)),
        _ => false,
    }
}

#[inline(never)]
fn any_type(d: &Document, id: yaml::Id, width: i32, got: Back) {
    match got {
        Ok(got) => same_type(d, id, width, &got, false),
        Err(_) => check!(misfit(d, id, width), "deserializing is an error"),
    }
}

macro_rules! exact {
    ($d:expr, $id:expr, $width:expr, $got:expr, $as:ident, $w:literal) => {
        match ($d.value($id).$as(), $got) {
            (Some(x), Ok(Got::Int(w, y))) => check!(w == $w && y == x as i128, "an integer is another one than the accessor's"),
            (Some(_), _) => fail("an integer which fits isn't given as one of the type that was asked for"),
            (None, got) => any_type($d, $id, $width, got),
        }
    };
}

#[inline(never)]
fn expect(d: &Document, id: yaml::Id, width: i32, how: u32) {
    let got = request(d.value(id), how);
    let v = d.value(id);
    match how {
        1 => match (v.as_bool(), got) {
            (Some(x), Ok(Got::Bool(y))) => check!(x == y, "a boolean is another one"),
            (Some(_), _) => fail("a boolean is something else"),
            (None, got) => any_type(d, id, width, got),
        },
        2 => exact!(d, id, width, got, as_i8, -8),
        3 => exact!(d, id, width, got, as_i16, -16),
        4 => exact!(d, id, width, got, as_i32, -32),
        5 => exact!(d, id, width, got, as_i64, -64),
        6 => exact!(d, id, width, got, as_i128, -128),
        7 => exact!(d, id, width, got, as_u8, 8),
        8 => exact!(d, id, width, got, as_u16, 16),
        9 => exact!(d, id, width, got, as_u32, 32),
        10 => exact!(d, id, width, got, as_u64, 64),
        11 => match (v.as_u128(), got) {
            (Some(x), Ok(Got::U128(y))) => check!(y == x, "an integer is another one than the accessor's"),
            (Some(_), _) => fail("an integer which fits isn't given as one of the type that was asked for"),
            (None, got) => any_type(d, id, width, got),
        },
        12..=14 => match (v.as_str(), got) {
            (Some(x), Ok(Got::Str(y))) => check!(same(x.as_bytes(), &y), "a string is another one"),
            (Some(_), _) => fail("a string isn't given as one"),
            (None, got) => any_type(d, id, width, got),
        },
        15 | 16 => match (v.as_bstr(), got) {
            (Some(x), Ok(Got::Bytes(y) | Got::Str(y))) => check!(same(x, &y), "bytes are other ones"),
            (Some(_), _) => fail("bytes aren't given as such"),
            (None, got) => any_type(d, id, width, got),
        },
        17 => match (v.as_any(), got) {
            (Any::Null, Ok(got)) => check!(matches!(got, Got::None), "an option of a null isn't none"),
            (Any::Null, Err(_)) => fail("an option of a null is an error"),
            (_, Ok(Got::Some(got))) => any_type(d, id, width, Ok(*got)),
            (_, Ok(_)) => fail("an option of a value isn't some"),
            (_, Err(e)) => any_type(d, id, width, Err(e)),
        },
        29 => match (v.as_f32(), got) {
            (Some(x), Ok(Got::F32(y))) => check!(x.to_bits() == y, "a float is another one than the accessor's"),
            (Some(_), _) => fail("a float isn't given as one"),
            (None, got) => any_type(d, id, width, got),
        },
        30 => match (v.as_f64(), got) {
            (Some(x), Ok(Got::F64(y))) => check!(x.to_bits() == y, "a float is another one than the accessor's"),
            (Some(_), _) => fail("a float isn't given as one"),
            (None, got) => any_type(d, id, width, got),
        },
        _ => any_type(d, id, width, got),
    }
}

/// Serialize the value and deserialize it as anything.
#[inline(never)]
fn both(d: &Document, id: yaml::Id, width: i32, floats: bool) {
    let how = choose(1 + if floats { REQUESTS + 2 } else { REQUESTS });
    if how == 0 {
        match d.value(id).serialize(Ser) {
            Ok(got) => same_type(d, id, width, &got, true),
            Err(_) => fail("serializing is an error"),
        }
        reach(1);
    } else {
        expect(d, id, width, how - 1);
        reach(2);
    }
}

#[inline(never)]
fn parse(t: &[u8]) -> Document {
    note("input", t);
    match yaml::from_slice(t) {
        Ok(d) => d,
        Err(_) => {
            assume(false);
            unreachable!()
        }
    }
}

const NUMBERS: &[&[u8]] = &[
    b"1?", b"-?", b"25?", b"-12?", b"3276?", b"-3276?", b"6553?", b"214748364?", b"-214748364?", b"429496729?",
    b"922337203685477580?", b"-922337203685477580?", b"1844674407370955161?", b"17014118346046923173168730371588410572?",
    b"-17014118346046923173168730371588410572?", b"34028236692093846346337460743176821145?", b"0?", b"-0?",
];

const FLOATS: &[&[u8]] = &[b"1.5", b"-0.0", b"1e400", b"-1e5", b".5", b"1e-400", b"5.", b"123456789012345678901234567890e2", b"- 1.5\n- x\n", b"{a: 1.5}"];

const OTHERS: &[&[u8]] = &[
    b"?", b"??", b"'?'", b"\"?\"", b"a: ?", b"- ?", b"[?, 1]", b"{?: x}", b"'?': x", b"nul?", b"Tru?", b"fals?", b"~?", b"a: |\n  ?\n", b"?: ~",
];

pub fn run() {
    let deep = tier() == 1;
    match choose(5) {
        0 => {
            let t = NUMBERS[choose(NUMBERS.len() as u32) as usize];
            let t = tmpl(t);
            assume(t[t.len() - 1].is_ascii_digit());
            let d = parse(&t);
            both(&d, d.as_ref().id(), 0, false);
            reach(3);
        }
        1 => {
            let t = OTHERS[choose(OTHERS.len() as u32) as usize];
            let t = tmpl(if deep && t[0] == b'?' && t.len() == 2 { b"???" } else { t });
            let d = parse(&t);
            // not a float
            let mut i = 0;
            while i < t.len() {
                if matches!(t[i], b'.' | b'e' | b'E') {
                    let mut digit = false;
                    for b in &t {
                        digit |= b.is_ascii_digit();
                    }
                    assume(!digit);
                }
                i += 1;
            }
            both(&d, d.as_ref().id(), 0, false);
            reach(4);
        }
        2 => {
            let mut g = match choose(if deep { 5 } else { 2 }) {
                0 => Gen::new(3, 0, 0),
                4 => Gen::new(3, 0, 1),
                // one scalar with an unconstrained byte
                1 => Gen::new(1, 0, 1),
                2 => Gen::new(2, 0, 1),
                _ => Gen::new(3, 1, 0),
            };
            g.again = true;
            g.document();
            let d = parse(&g.out);
            both(&d, d.as_ref().id(), 0, false);
            reach(5);
        }
        3 => {
            let d = parse(FLOATS[choose(FLOATS.len() as u32) as usize]);
            both(&d, d.as_ref().id(), 0, true);
            reach(6);
        }
        _ => {
            let mut d = parse(b"x");
            let x = byte();
            let hi = choose(3);
            let mut v = d.as_mut();
            macro_rules! set {
                ($set:ident $t:ident) => {
                    v.$set(match hi {
                        0 => $t::MAX & !0xff | x as $t,
                        1 => $t::MIN | x as $t,
                        _ => x as $t,
                    })
                };
            }
            let w = match choose(12) {
                0 => {
                    v.set_u8(x);
                    8
                }
                1 => {
                    v.set_i8(x as i8);
                    -8
                }
                2 => {
                    set!(set_u16 u16);
                    16
                }
                3 => {
                    set!(set_i16 i16);
                    -16
                }
                4 => {
                    set!(set_u32 u32);
                    32
                }
                5 => {
                    set!(set_i32 i32);
                    -32
                }
                6 => {
                    set!(set_u64 u64);
                    64
                }
                7 => {
                    set!(set_i64 i64);
                    -64
                }
                8 => {
                    set!(set_u128 u128);
                    128
                }
                9 => {
                    set!(set_i128 i128);
                    -128
                }
                10 => {
                    v.set_bool(x & 1 == 1);
                    0
                }
                _ => {
                    v.set_null([Null::Tilde, Null::Keyword, Null::Empty][choose(3) as usize]);
                    0
                }
            };
            both(&d, d.as_ref().id(), w, false);
            reach(7);
        }
    }
}
