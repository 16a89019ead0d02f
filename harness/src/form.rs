//! A serde data format that keeps exactly what it is told, as a tree, and gives it back in any of the ways formats do:
//! fields by position or by name in any order, borrowed or passing texts, human readable or not. Numbers keep
//! the type they were written with and can be read as that type only, as in formats that write no types; or as what they are,
//! as in formats that do.

use crate::shape::J;
use serde::de::{self, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum V {
    Unit,
    None,
    Some(Box<V>),
    Bool(bool),
    /// type and value
    Int(&'static str, i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<V>),
    Tuple(Vec<V>),
    Map(Vec<(V, V)>),
    Newtype(Box<V>),
    Struct(Vec<(&'static str, V)>),
    Variant(u32, &'static str, Box<V>),
}

#[derive(Debug)]
pub struct E(pub String);
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}
impl de::Error for E {
    fn custom<T: fmt::Display>(m: T) -> E {
        E(m.to_string())
    }
}

// ---------------------------------------------------------------- writing

#[derive(Clone, Copy)]
pub struct Ser {
    pub human: bool,
}

pub fn write<T: Serialize + ?Sized>(x: &T, human: bool) -> Result<V, E> {
    x.serialize(Ser { human })
}

pub enum Kind {
    Seq,
    Tuple,
    Map,
    Struct,
    TupleVariant(u32, &'static str),
    StructVariant(u32, &'static str),
}

pub struct Many {
    s: Ser,
    kind: Kind,
    announced: Option<usize>,
    items: Vec<V>,
    keys: Vec<V>,
    names: Vec<&'static str>,
}

impl Many {
    fn new(s: Ser, kind: Kind, announced: Option<usize>) -> Result<Many, E> {
        Ok(Many { s, kind, announced, items: vec![], keys: vec![], names: vec![] })
    }
    fn add<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), E> {
        self.items.push(x.serialize(self.s)?);
        Ok(())
    }
    fn done(self) -> Result<V, E> {
        if let Some(n) = self.announced {
            if n != self.items.len() {
                return Err(E(format!("announced {n} elements, gave {}", self.items.len())));
            }
        }
        let fields = |names: Vec<&'static str>, items: Vec<V>| {
            for (i, n) in names.iter().enumerate() {
                if names[..i].contains(n) {
                    return Err(E(format!("field {n} twice")));
                }
            }
            Ok(V::Struct(names.into_iter().zip(items).collect()))
        };
        Ok(match self.kind {
            Kind::Seq => V::Seq(self.items),
            Kind::Tuple => V::Tuple(self.items),
            Kind::Map => {
                if self.keys.len() != self.items.len() {
                    return Err(E("a key without its value".into()));
                }
                V::Map(self.keys.into_iter().zip(self.items).collect())
            }
            Kind::Struct => fields(self.names, self.items)?,
            Kind::TupleVariant(i, n) => V::Variant(i, n, Box::new(V::Tuple(self.items))),
            Kind::StructVariant(i, n) => V::Variant(i, n, Box::new(fields(self.names, self.items)?)),
        })
    }
}

macro_rules! many {
    ($($tr:ident $f:ident),*) => {$(
        impl ser::$tr for Many {
            type Ok = V;
            type Error = E;
            fn $f<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), E> {
                self.add(x)
            }
            fn end(self) -> Result<V, E> {
                self.done()
            }
        }
    )*};
}
many!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);

macro_rules! named {
    ($($tr:ident),*) => {$(
        impl ser::$tr for Many {
            type Ok = V;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, name: &'static str, x: &T) -> Result<(), E> {
                self.names.push(name);
                self.add(x)
            }
            fn end(self) -> Result<V, E> {
                self.done()
            }
        }
    )*};
}
named!(SerializeStruct, SerializeStructVariant);

impl ser::SerializeMap for Many {
    type Ok = V;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), E> {
        if self.keys.len() != self.items.len() {
            return Err(E("two keys in a row".into()));
        }
        self.keys.push(x.serialize(self.s)?);
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, x: &T) -> Result<(), E> {
        if self.keys.len() != self.items.len() + 1 {
            return Err(E("a value without its key".into()));
        }
        self.add(x)
    }
    fn end(self) -> Result<V, E> {
        self.done()
    }
}

macro_rules! ser_ints {
    ($($f:ident $t:ident),*) => {$(
        fn $f(self, x: $t) -> Result<V, E> {
            Ok(V::Int(stringify!($t), x as i128))
        }
    )*};
}

impl ser::Serializer for Ser {
    type Ok = V;
    type Error = E;
    type SerializeSeq = Many;
    type SerializeTuple = Many;
    type SerializeTupleStruct = Many;
    type SerializeTupleVariant = Many;
    type SerializeMap = Many;
    type SerializeStruct = Many;
    type SerializeStructVariant = Many;

    ser_ints!(serialize_i8 i8, serialize_i16 i16, serialize_i32 i32, serialize_i64 i64, serialize_u8 u8, serialize_u16 u16, serialize_u32 u32, serialize_u64 u64);
    fn serialize_bool(self, x: bool) -> Result<V, E> {
        Ok(V::Bool(x))
    }
    fn serialize_f32(self, x: f32) -> Result<V, E> {
        Ok(V::F32(x.to_bits()))
    }
    fn serialize_f64(self, x: f64) -> Result<V, E> {
        Ok(V::F64(x.to_bits()))
    }
    fn serialize_char(self, x: char) -> Result<V, E> {
        Ok(V::Char(x))
    }
    fn serialize_str(self, x: &str) -> Result<V, E> {
        Ok(V::Str(x.into()))
    }
    fn serialize_bytes(self, x: &[u8]) -> Result<V, E> {
        Ok(V::Bytes(x.into()))
    }
    fn serialize_none(self) -> Result<V, E> {
        Ok(V::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, x: &T) -> Result<V, E> {
        Ok(V::Some(Box::new(x.serialize(self)?)))
    }
    fn serialize_unit(self) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, E> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<V, E> {
        Ok(V::Variant(i, n, Box::new(V::Unit)))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, x: &T) -> Result<V, E> {
        Ok(V::Newtype(Box::new(x.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, i: u32, n: &'static str, x: &T) -> Result<V, E> {
        Ok(V::Variant(i, n, Box::new(V::Newtype(Box::new(x.serialize(self)?)))))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Many, E> {
        Many::new(self, Kind::Seq, n)
    }
    fn serialize_tuple(self, n: usize) -> Result<Many, E> {
        Many::new(self, Kind::Tuple, Some(n))
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Many, E> {
        Many::new(self, Kind::Tuple, Some(n))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, name: &'static str, n: usize) -> Result<Many, E> {
        Many::new(self, Kind::TupleVariant(i, name), Some(n))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Many, E> {
        Many::new(self, Kind::Map, n)
    }
    fn serialize_struct(self, _: &'static str, n: usize) -> Result<Many, E> {
        Many::new(self, Kind::Struct, Some(n))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, name: &'static str, n: usize) -> Result<Many, E> {
        Many::new(self, Kind::StructVariant(i, name), Some(n))
    }
    fn is_human_readable(&self) -> bool {
        self.human
    }
}

/// Does the tree hold what the JSON says?
pub fn same(want: &J, got: &V, path: &mut String) -> Result<(), String> {
    let inside = |name: &str, path: &mut String, a: &J, b: &V| {
        let l = path.len();
        path.push('.');
        path.push_str(name);
        same(a, b, path)?;
        path.truncate(l);
        Ok::<_, String>(())
    };
    let ok = match (want, got) {
        (_, V::Some(x) | V::Newtype(x)) => return same(want, x, path),
        (J::Null, V::None | V::Unit) => true,
        (J::Null, V::F32(b)) => !f32::from_bits(*b).is_finite(),
        (J::Bool(a), V::Bool(b)) => a == b,
        (J::Int(a), V::Int(_, b)) => a == b,
        (J::F32(a), V::F32(b)) => a == b,
        (J::Str(a), V::Str(b)) => a == b,
        (J::Str(a), V::Variant(_, n, x)) => a == n && **x == V::Unit,
        (J::Arr(a), V::Seq(b) | V::Tuple(b)) => {
            if a.len() != b.len() {
                return Err(format!("{path}: {} elements, want {}", b.len(), a.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                inside(&i.to_string(), path, x, y)?;
            }
            true
        }
        (J::Obj(a), V::Variant(_, n, x)) => a.len() == 1 && a[0].0 == *n && return inside(n, path, &a[0].1, x),
        (J::Obj(a), V::Struct(b)) => {
            if a.iter().map(|x| x.0.as_str()).ne(b.iter().map(|x| x.0)) {
                return Err(format!("{path}: fields {:?}, want {:?}", b.iter().map(|x| x.0).collect::<Vec<_>>(), a.iter().map(|x| &x.0).collect::<Vec<_>>()));
            }
            for ((k, x), (_, y)) in a.iter().zip(b) {
                inside(k, path, x, y)?;
            }
            true
        }
        (J::Obj(a), V::Map(b)) => {
            if a.len() != b.len() {
                return Err(format!("{path}: {} entries, want {}", b.len(), a.len()));
            }
            for ((k, x), (l, y)) in a.iter().zip(b) {
                if *l != V::Str(k.clone()) {
                    return Err(format!("{path}: key {l:?}, want {k:?}"));
                }
                inside(k, path, x, y)?;
            }
            true
        }
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        let mut s = format!("{got:?}");
        s.truncate((0..=200.min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap());
        Err(format!("{path}: got {s}, want {want:?}"))
    }
}

// ---------------------------------------------------------------- reading

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum By {
    Position,
    Name,
    /// the last field first
    Backwards,
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Text {
    Borrowed,
    Passing,
    Owned,
}

#[derive(Debug, Clone, Copy)]
pub struct How {
    pub human: bool,
    pub by: By,
    pub text: Text,
    /// says how many elements are left
    pub hints: bool,
    /// what comes next is known to the format, which gives it as what it is, whatever was asked for
    pub told: bool,
}

#[derive(Clone, Copy)]
pub struct De<'a> {
    v: &'a V,
    h: How,
}

pub fn read<'a, T: de::Deserialize<'a>>(v: &'a V, h: How) -> Result<T, E> {
    T::deserialize(De { v, h })
}

struct Items<'a> {
    it: std::slice::Iter<'a, V>,
    h: How,
}
impl<'a> de::SeqAccess<'a> for Items<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        self.it.next().map(|v| s.deserialize(De { v, h: self.h })).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        self.h.hints.then(|| self.it.len())
    }
}

/// Fields of a struct by position.
struct Fields<'a> {
    it: std::slice::Iter<'a, (&'static str, V)>,
    h: How,
}
impl<'a> de::SeqAccess<'a> for Fields<'a> {
    type Error = E;
    fn next_element_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<Option<T::Value>, E> {
        self.it.next().map(|(_, v)| s.deserialize(De { v, h: self.h })).transpose()
    }
    fn size_hint(&self) -> Option<usize> {
        self.h.hints.then(|| self.it.len())
    }
}

/// Fields of a struct by name or number.
struct Named<'a> {
    fields: &'a [(&'static str, V)],
    order: std::vec::IntoIter<usize>,
    at: usize,
    h: How,
}
struct Name {
    name: &'static str,
    h: How,
}
impl<'de> de::Deserializer<'de> for Name {
    type Error = E;
    fn deserialize_any<W: Visitor<'de>>(self, w: W) -> Result<W::Value, E> {
        match self.h.text {
            Text::Borrowed => w.visit_borrowed_str(self.name),
            Text::Passing => w.visit_str(&String::from(self.name)),
            Text::Owned => w.visit_string(self.name.into()),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'a> de::MapAccess<'a> for Named<'a> {
    type Error = E;
    fn next_key_seed<K: DeserializeSeed<'a>>(&mut self, s: K) -> Result<Option<K::Value>, E> {
        let Some(i) = self.order.next() else { return Ok(None) };
        self.at = i;
        s.deserialize(Name { name: self.fields[i].0, h: self.h }).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'a>>(&mut self, s: T) -> Result<T::Value, E> {
        s.deserialize(De { v: &self.fields[self.at].1, h: self.h })
    }
}

struct Case<'a> {
    number: u32,
    name: &'static str,
    v: &'a V,
    h: How,
}
impl<'a> de::EnumAccess<'a> for Case<'a> {
    type Error = E;
    type Variant = De<'a>;
    fn variant_seed<T: DeserializeSeed<'a>>(self, s: T) -> Result<(T::Value, De<'a>), E> {
        // formats without names number the variants
        let x = if self.h.by == By::Position {
            s.deserialize(de::value::U32Deserializer::<E>::new(self.number))?
        } else {
            s.deserialize(Name { name: self.name, h: self.h })?
        };
        Ok((x, De { v: self.v, h: self.h }))
    }
}
impl<'a> de::VariantAccess<'a> for De<'a> {
    type Error = E;
    fn unit_variant(self) -> Result<(), E> {
        match self.v {
            V::Unit => Ok(()),
            v => Err(E(format!("a variant without data holds {v:?}"))),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'a>>(self, s: T) -> Result<T::Value, E> {
        match self.v {
            V::Newtype(v) => s.deserialize(De { v, h: self.h }),
            v => Err(E(format!("a variant of one value holds {v:?}"))),
        }
    }
    fn tuple_variant<W: Visitor<'a>>(self, n: usize, w: W) -> Result<W::Value, E> {
        de::Deserializer::deserialize_tuple(self, n, w)
    }
    fn struct_variant<W: Visitor<'a>>(self, f: &'static [&'static str], w: W) -> Result<W::Value, E> {
        de::Deserializer::deserialize_struct(self, "", f, w)
    }
}

macro_rules! de_ints {
    ($($f:ident $t:ident $visit:ident),*) => {$(
        fn $f<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
            match self.v {
                _ if self.h.told => self.own(w),
                V::Int(stringify!($t), x) => w.$visit(*x as $t),
                v => self.wrong(stringify!($t), v),
            }
        }
    )*};
}

impl<'a> De<'a> {
    fn own<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            V::Unit => w.visit_unit(),
            V::None => w.visit_none(),
            V::Some(v) | V::Newtype(v) => De { v, h: self.h }.own(w),
            V::Bool(x) => w.visit_bool(*x),
            V::Int(_, x) if *x < 0 => w.visit_i64(*x as i64),
            V::Int(_, x) => w.visit_u64(*x as u64),
            V::F32(x) => w.visit_f64(f64::from(f32::from_bits(*x))),
            V::F64(x) => w.visit_f64(f64::from_bits(*x)),
            V::Char(x) => w.visit_char(*x),
            V::Str(_) => self.text(w),
            V::Bytes(_) => self.bytes(w),
            V::Seq(v) | V::Tuple(v) => self.items(v, w),
            V::Map(v) => w.visit_map(de::value::MapDeserializer::new(v.iter().map(|(k, x)| (De { v: k, h: self.h }, De { v: x, h: self.h })))),
            V::Struct(fields) => w.visit_map(Named { fields, order: (0..fields.len()).collect::<Vec<_>>().into_iter(), at: 0, h: self.h }),
            V::Variant(i, n, v) => w.visit_enum(Case { number: *i, name: n, v, h: self.h }),
        }
    }
    fn wrong<T>(self, want: &str, v: &V) -> Result<T, E> {
        let mut s = format!("{v:?}");
        s.truncate((0..=80.min(s.len())).rev().find(|i| s.is_char_boundary(*i)).unwrap());
        Err(E(format!("reads {want} where {s} was written")))
    }
    fn text<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            V::Str(s) => match self.h.text {
                Text::Borrowed => w.visit_borrowed_str(s),
                Text::Passing => w.visit_str(&s.clone()),
                Text::Owned => w.visit_string(s.clone()),
            },
            v => self.wrong("a text", v),
        }
    }
    fn bytes<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            V::Bytes(s) => match self.h.text {
                Text::Borrowed => w.visit_borrowed_bytes(s),
                Text::Passing => w.visit_bytes(&s.clone()),
                Text::Owned => w.visit_byte_buf(s.clone()),
            },
            v => self.wrong("bytes", v),
        }
    }
    fn items<W: Visitor<'a>>(self, items: &'a [V], w: W) -> Result<W::Value, E> {
        let mut it = Items { it: items.iter(), h: self.h };
        let x = w.visit_seq(&mut it)?;
        match it.it.len() {
            0 => Ok(x),
            n => Err(E(format!("{n} elements are not read"))),
        }
    }
}

impl<'a> de::Deserializer<'a> for De<'a> {
    type Error = E;
    de_ints!(deserialize_i8 i8 visit_i8, deserialize_i16 i16 visit_i16, deserialize_i32 i32 visit_i32, deserialize_i64 i64 visit_i64,
        deserialize_u8 u8 visit_u8, deserialize_u16 u16 visit_u16, deserialize_u32 u32 visit_u32, deserialize_u64 u64 visit_u64);
    fn deserialize_any<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        if self.h.told {
            return self.own(w);
        }
        Err(E("asks what comes next, which not every format knows".into()))
    }
    fn deserialize_ignored_any<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        if self.h.by == By::Position {
            return Err(E("skips what it knows no size of".into()));
        }
        w.visit_unit()
    }
    fn deserialize_bool<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            _ if self.h.told => self.own(w),
            V::Bool(x) => w.visit_bool(*x),
            v => self.wrong("a flag", v),
        }
    }
    fn deserialize_f32<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            _ if self.h.told => self.own(w),
            V::F32(x) => w.visit_f32(f32::from_bits(*x)),
            v => self.wrong("f32", v),
        }
    }
    fn deserialize_f64<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            _ if self.h.told => self.own(w),
            V::F64(x) => w.visit_f64(f64::from_bits(*x)),
            v => self.wrong("f64", v),
        }
    }
    fn deserialize_char<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            _ if self.h.told => self.own(w),
            V::Char(x) => w.visit_char(*x),
            v => self.wrong("a letter", v),
        }
    }
    fn deserialize_str<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        if self.h.told {
            return self.own(w);
        }
        self.text(w)
    }
    fn deserialize_string<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        self.deserialize_str(w)
    }
    fn deserialize_bytes<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        self.bytes(w)
    }
    fn deserialize_byte_buf<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        self.bytes(w)
    }
    fn deserialize_option<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            V::None => w.visit_none(),
            V::Some(v) => w.visit_some(De { v, h: self.h }),
            _ if self.h.told => w.visit_some(self),
            v => self.wrong("an option", v),
        }
    }
    fn deserialize_unit<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            _ if self.h.told => self.own(w),
            V::Unit => w.visit_unit(),
            v => self.wrong("nothing", v),
        }
    }
    fn deserialize_unit_struct<W: Visitor<'a>>(self, _: &'static str, w: W) -> Result<W::Value, E> {
        self.deserialize_unit(w)
    }
    fn deserialize_newtype_struct<W: Visitor<'a>>(self, _: &'static str, w: W) -> Result<W::Value, E> {
        match self.v {
            V::Newtype(v) => w.visit_newtype_struct(De { v, h: self.h }),
            _ if self.h.told => w.visit_newtype_struct(self),
            v => self.wrong("a wrapped value", v),
        }
    }
    fn deserialize_seq<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            _ if self.h.told => self.own(w),
            V::Seq(v) => self.items(v, w),
            v => self.wrong("a list", v),
        }
    }
    fn deserialize_tuple<W: Visitor<'a>>(self, n: usize, w: W) -> Result<W::Value, E> {
        match self.v {
            _ if self.h.told => self.own(w),
            V::Tuple(v) if v.len() == n => self.items(v, w),
            v => self.wrong("a tuple", v),
        }
    }
    fn deserialize_tuple_struct<W: Visitor<'a>>(self, _: &'static str, n: usize, w: W) -> Result<W::Value, E> {
        self.deserialize_tuple(n, w)
    }
    fn deserialize_map<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        match self.v {
            _ if self.h.told => self.own(w),
            V::Map(v) => w.visit_map(de::value::MapDeserializer::new(v.iter().map(|(k, x)| (De { v: k, h: self.h }, De { v: x, h: self.h })))),
            v => self.wrong("a map", v),
        }
    }
    fn deserialize_struct<W: Visitor<'a>>(self, _: &'static str, names: &'static [&'static str], w: W) -> Result<W::Value, E> {
        let V::Struct(fields) = self.v else {
            return if self.h.told { self.own(w) } else { self.wrong("a struct", self.v) };
        };
        let order: Vec<usize> = match self.h.by {
            By::Position => {
                // such a format reads as many fields as are asked for
                if names.len() != fields.len() {
                    return Err(E(format!("reads {} fields of {}", names.len(), fields.len())));
                }
                let mut it = Fields { it: fields.iter(), h: self.h };
                let x = w.visit_seq(&mut it)?;
                return match it.it.len() {
                    0 => Ok(x),
                    n => Err(E(format!("{n} fields are not read"))),
                };
            }
            By::Name => (0..fields.len()).collect(),
            By::Backwards => (0..fields.len()).rev().collect(),
        };
        w.visit_map(Named { fields, order: order.into_iter(), at: 0, h: self.h })
    }
    fn deserialize_enum<W: Visitor<'a>>(self, _: &'static str, _: &'static [&'static str], w: W) -> Result<W::Value, E> {
        match self.v {
            V::Variant(i, n, v) => w.visit_enum(Case { number: *i, name: n, v, h: self.h }),
            v => self.wrong("one of several", v),
        }
    }
    fn deserialize_identifier<W: Visitor<'a>>(self, w: W) -> Result<W::Value, E> {
        self.text(w)
    }
    fn is_human_readable(&self) -> bool {
        self.h.human
    }
}

impl<'a> IntoDeserializer<'a, E> for De<'a> {
    type Deserializer = De<'a>;
    fn into_deserializer(self) -> De<'a> {
        self
    }
}

/// How many values the tree has.
pub fn size(v: &V) -> usize {
    1 + match v {
        V::Some(x) | V::Newtype(x) | V::Variant(_, _, x) => size(x),
        V::Seq(x) | V::Tuple(x) => x.iter().map(size).sum(),
        V::Map(x) => x.iter().map(|x| size(&x.1)).sum(),
        V::Struct(x) => x.iter().map(|x| size(&x.1)).sum(),
        _ => 0,
    }
}

/// Trees of which one place is damaged in one way that is to be noticed, and if so even by a format that knows what comes next
/// (names without a capital).
pub fn damage(v: &V) -> Vec<(&'static str, V)> {
    let mut out = vec![];
    fn go(v: &V, wrap: &mut dyn FnMut(&'static str, V)) {
        match v {
            V::Unit => wrap("no unit", V::Bool(true)),
            V::None => wrap("A number for none", V::Int("i8", 0)),
            V::Some(x) => {
                wrap("Not an option", (**x).clone());
                go(x, &mut |w, y| wrap(w, V::Some(Box::new(y))));
            }
            V::Newtype(x) => {
                wrap("not wrapped", V::Bytes(vec![]));
                go(x, &mut |w, y| wrap(w, V::Newtype(Box::new(y))));
            }
            V::Bool(_) => wrap("no flag", V::Int("u8", 1)),
            V::Int(t, _) => {
                wrap("a text for a number", V::Str("1".into()));
                if !t.ends_with("64") {
                    wrap("out of range", V::Int("i64", 1 << 40));
                    wrap("out of range", V::Int("i64", -(1 << 40)));
                }
            }
            V::F32(b) => wrap("F64", V::F64(f64::from(f32::from_bits(*b)).to_bits())),
            V::F64(_) | V::Char(_) | V::Bytes(_) => wrap("another", V::Unit),
            V::Str(s) => {
                wrap("a number for a text", V::Int("u64", 1));
                if s.parse::<i128>().is_ok() {
                    wrap("no number", V::Str(format!("{s}x")));
                    wrap("too large", V::Str("340282366920938463463".into()));
                    wrap("nothing in it", V::Str(String::new()));
                }
            }
            V::Seq(x) | V::Tuple(x) => {
                let is_seq = matches!(v, V::Seq(_));
                let make = move |x: Vec<V>| if is_seq { V::Seq(x) } else { V::Tuple(x) };
                wrap("not a list", V::Bool(true));
                if !is_seq && !x.is_empty() {
                    wrap("one element less", make(x[..x.len() - 1].to_vec()));
                    let mut y = x.clone();
                    y.push(V::Unit);
                    wrap("one element more", make(y));
                }
                for i in 0..x.len().min(4) {
                    go(&x[i], &mut |w, y| {
                        let mut x = x.clone();
                        x[i] = y;
                        wrap(w, make(x))
                    });
                }
            }
            V::Map(x) => {
                for i in 0..x.len() {
                    go(&x[i].1, &mut |w, y| {
                        let mut x = x.clone();
                        x[i].1 = y;
                        wrap(w, V::Map(x))
                    });
                }
            }
            V::Struct(x) => {
                wrap("not a struct", V::Bool(true));
                for i in 0..x.len() {
                    if !matches!(x[i].1, V::None | V::Some(_)) {
                        let mut y = x.clone();
                        y.remove(i);
                        wrap("one field less", V::Struct(y));
                    }
                    let mut y = x.clone();
                    y.insert(i, x[i].clone());
                    wrap("one field twice", V::Struct(y));
                    go(&x[i].1, &mut |w, y| {
                        let mut x = x.clone();
                        x[i].1 = y;
                        wrap(w, V::Struct(x))
                    });
                }
            }
            V::Variant(i, n, x) => {
                wrap("no such variant", V::Variant(10_000, "NoSuch", x.clone()));
                wrap("not a variant", V::Bool(true));
                go(x, &mut |w, y| wrap(w, V::Variant(*i, n, Box::new(y))));
            }
        }
    }
    go(v, &mut |w, y| out.push((w, y)));
    out
}
