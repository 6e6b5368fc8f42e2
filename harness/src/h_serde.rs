//! Notations that are serialized and read back (the `serialization` feature).

use crate::all::ast::*;
use crate::all::h_misc::same_notation;
use crate::all::sx;
use partial_pretty_printer as ppp;
use ppp::{CheckPos, Notation};
use serde::de::{self, value, Deserialize, DeserializeSeed, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};
use std::fmt;

/// What a format records: names and numbers of variants, names of fields.
#[derive(Debug)]
enum V {
    Unit,
    Bool(bool),
    Int(i64),
    Uint(u64),
    Str(String),
    None,
    Some(Box<V>),
    Seq(Vec<V>),
    Map(Vec<(&'static str, V)>),
    Variant(u32, &'static str, Box<V>),
}

#[derive(Debug)]
struct Wrong;
impl fmt::Display for Wrong {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Wrong {}
impl ser::Error for Wrong {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Wrong
    }
}
impl de::Error for Wrong {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Wrong
    }
    fn invalid_type(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Wrong
    }
    fn invalid_value(_: de::Unexpected, _: &dyn de::Expected) -> Self {
        Wrong
    }
    fn invalid_length(_: usize, _: &dyn de::Expected) -> Self {
        Wrong
    }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Self {
        Wrong
    }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Self {
        Wrong
    }
    fn missing_field(_: &'static str) -> Self {
        Wrong
    }
    fn duplicate_field(_: &'static str) -> Self {
        Wrong
    }
}

// ------------------------------------------------------------------ writing

struct Ser;
struct Parts {
    seq: Vec<V>,
    map: Vec<(&'static str, V)>,
    is_map: bool,
    variant: Option<(u32, &'static str)>,
}
impl Parts {
    fn new(is_map: bool, variant: Option<(u32, &'static str)>) -> Parts {
        Parts { seq: vec![], map: vec![], is_map, variant }
    }
    fn done(self) -> Result<V, Wrong> {
        let v = if self.is_map { V::Map(self.map) } else { V::Seq(self.seq) };
        Ok(match self.variant {
            None => v,
            Some((i, n)) => V::Variant(i, n, Box::new(v)),
        })
    }
    fn item<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
        self.seq.push(x.serialize(Ser)?);
        Ok(())
    }
    fn field<T: ?Sized + Serialize>(&mut self, k: &'static str, x: &T) -> Result<(), Wrong> {
        self.map.push((k, x.serialize(Ser)?));
        Ok(())
    }
}
macro_rules! seqs {
    ($($t:ident $f:ident),*) => {
        $(impl ser::$t for Parts {
            type Ok = V;
            type Error = Wrong;
            fn $f<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Wrong> {
                self.item(x)
            }
            fn end(self) -> Result<V, Wrong> {
                self.done()
            }
        })*
    };
}
seqs!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! maps {
    ($($t:ident),*) => {
        $(impl ser::$t for Parts {
            type Ok = V;
            type Error = Wrong;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, x: &T) -> Result<(), Wrong> {
                self.field(k, x)
            }
            fn end(self) -> Result<V, Wrong> {
                self.done()
            }
        })*
    };
}
maps!(SerializeStruct, SerializeStructVariant);
macro_rules! nums {
    ($($f:ident $t:ty, $v:ident);*) => { $(fn $f(self, x: $t) -> Result<V, Wrong> { Ok(V::$v(x as _)) })* };
}
impl ser::Serializer for Ser {
    type Ok = V;
    type Error = Wrong;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = ser::Impossible<V, Wrong>;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;
    nums!(serialize_i8 i8, Int; serialize_i16 i16, Int; serialize_i32 i32, Int; serialize_i64 i64, Int;
          serialize_u8 u8, Uint; serialize_u16 u16, Uint; serialize_u32 u32, Uint; serialize_u64 u64, Uint);
    fn serialize_bool(self, x: bool) -> Result<V, Wrong> {
        Ok(V::Bool(x))
    }
    fn serialize_f32(self, _: f32) -> Result<V, Wrong> {
        Err(Wrong)
    }
    fn serialize_f64(self, _: f64) -> Result<V, Wrong> {
        Err(Wrong)
    }
    fn serialize_char(self, c: char) -> Result<V, Wrong> {
        Ok(V::Str(c.to_string()))
    }
    fn serialize_str(self, s: &str) -> Result<V, Wrong> {
        Ok(V::Str(s.to_owned()))
    }
    fn serialize_bytes(self, _: &[u8]) -> Result<V, Wrong> {
        Err(Wrong)
    }
    fn serialize_none(self) -> Result<V, Wrong> {
        Ok(V::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<V, Wrong> {
        Ok(V::Some(Box::new(x.serialize(Ser)?)))
    }
    fn serialize_unit(self) -> Result<V, Wrong> {
        Ok(V::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<V, Wrong> {
        Ok(V::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> Result<V, Wrong> {
        Ok(V::Variant(i, n, Box::new(V::Unit)))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<V, Wrong> {
        x.serialize(Ser)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, x: &T) -> Result<V, Wrong> {
        Ok(V::Variant(i, n, Box::new(x.serialize(Ser)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Parts, Wrong> {
        Ok(Parts::new(false, None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Parts, Wrong> {
        Ok(Parts::new(false, None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts, Wrong> {
        Ok(Parts::new(false, None))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Parts, Wrong> {
        Ok(Parts::new(false, Some((i, n))))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Wrong> {
        Err(Wrong)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Parts, Wrong> {
        Ok(Parts::new(true, None))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Parts, Wrong> {
        Ok(Parts::new(true, Some((i, n))))
    }
}

// ------------------------------------------------------------------ reading

/// How the format tells variants and fields.
#[derive(Clone, Copy)]
enum Mode {
    Names,
    /// Names; fields come in another order.
    NamesReversed,
    /// Numbers of variants; fields without names, in order; numbers in as few bytes as they need.
    Numbers,
}

/// A number as a compact format has it: seven bits in each byte, and the sign in the lowest bit.
fn to_bytes(x: i64) -> Vec<u8> {
    let mut z = ((x << 1) ^ (x >> 63)) as u64;
    let mut out = vec![];
    while z >= 128 {
        out.push(z as u8 | 128);
        z >>= 7;
    }
    out.push(z as u8);
    out
}
fn from_bytes(b: &[u8]) -> i64 {
    let z = b.iter().rev().fold(0u64, |z, b| z << 7 | (b & 127) as u64);
    (z >> 1) as i64 ^ -((z & 1) as i64)
}

struct De(V, Mode);

impl De {
    fn seq<'de, W: Visitor<'de>>(v: Vec<V>, m: Mode, visitor: W) -> Result<W::Value, Wrong> {
        let mut s = value::SeqDeserializer::new(v.into_iter().map(move |x| De(x, m)));
        let out = visitor.visit_seq(&mut s)?;
        s.end()?; // nothing may be left
        Ok(out)
    }
    fn map<'de, W: Visitor<'de>>(mut v: Vec<(&'static str, V)>, m: Mode, visitor: W) -> Result<W::Value, Wrong> {
        match m {
            Mode::Numbers => return De::seq(v.into_iter().map(|(_, x)| x).collect(), m, visitor),
            Mode::NamesReversed => v.reverse(),
            Mode::Names => (),
        }
        let mut s = value::MapDeserializer::new(v.into_iter().map(move |(k, x)| (k, De(x, m))));
        let out = visitor.visit_map(&mut s)?;
        s.end()?;
        Ok(out)
    }
}
impl<'de> IntoDeserializer<'de, Wrong> for De {
    type Deserializer = De;
    fn into_deserializer(self) -> De {
        self
    }
}
impl<'de> de::Deserializer<'de> for De {
    type Error = Wrong;
    fn deserialize_any<W: Visitor<'de>>(self, visitor: W) -> Result<W::Value, Wrong> {
        match self.0 {
            V::Unit => visitor.visit_unit(),
            V::Bool(x) => visitor.visit_bool(x),
            V::Int(x) => match self.1 {
                Mode::Numbers => visitor.visit_i64(from_bytes(&to_bytes(x))),
                _ => visitor.visit_i64(x),
            },
            V::Uint(x) => visitor.visit_u64(x),
            V::Str(x) => visitor.visit_str(&x),
            V::None => visitor.visit_none(),
            V::Some(x) => visitor.visit_some(De(*x, self.1)),
            V::Seq(v) => De::seq(v, self.1, visitor),
            V::Map(v) => De::map(v, self.1, visitor),
            V::Variant(..) => visitor.visit_enum(self),
        }
    }
    fn deserialize_newtype_struct<W: Visitor<'de>>(self, _: &'static str, visitor: W) -> Result<W::Value, Wrong> {
        visitor.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> de::EnumAccess<'de> for De {
    type Error = Wrong;
    type Variant = De;
    fn variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<(S::Value, De), Wrong> {
        let V::Variant(i, n, x) = self.0 else { return Err(Wrong) };
        let which = match self.1 {
            Mode::Numbers => seed.deserialize(<u32 as IntoDeserializer<Wrong>>::into_deserializer(i))?,
            _ => seed.deserialize(<&str as IntoDeserializer<Wrong>>::into_deserializer(n))?,
        };
        Ok((which, De(*x, self.1)))
    }
}
impl<'de> de::VariantAccess<'de> for De {
    type Error = Wrong;
    fn unit_variant(self) -> Result<(), Wrong> {
        match self.0 {
            V::Unit => Ok(()),
            _ => Err(Wrong),
        }
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, seed: S) -> Result<S::Value, Wrong> {
        seed.deserialize(self)
    }
    fn tuple_variant<W: Visitor<'de>>(self, _: usize, visitor: W) -> Result<W::Value, Wrong> {
        match self.0 {
            V::Seq(v) => De::seq(v, self.1, visitor),
            _ => Err(Wrong),
        }
    }
    fn struct_variant<W: Visitor<'de>>(self, _: &'static [&'static str], visitor: W) -> Result<W::Value, Wrong> {
        match self.0 {
            V::Map(v) => De::map(v, self.1, visitor),
            _ => Err(Wrong),
        }
    }
}

// ------------------------------------------------------------------ the property

fn string() -> String {
    (0..sx::pick(3)).map(|_| (b' ' + sx::var(0, 94) as u8) as char).collect()
}
fn notation(left: &mut usize) -> Real {
    let leaf = *left == 0;
    if !leaf {
        *left -= 1;
    }
    let sub = |left: &mut usize| Box::new(notation(left));
    match sx::pick(if leaf { 9 } else { 17 }) {
        0 => Notation::Empty,
        1 => Notation::Newline,
        2 => Notation::EndOfLine,
        3 => Notation::Text,
        4 => Notation::FocusMark,
        5 => Notation::Left,
        6 => Notation::Right,
        7 => Notation::Literal(string()),
        8 => Notation::Child(sx::var64() as isize),
        9 => Notation::Flat(sub(left)),
        10 => Notation::Style(sx::var(0, 255) as u8, sub(left)),
        11 => {
            let l = if sx::pick(2) == 1 { Some(sx::var(0, 255) as u8) } else { None };
            Notation::Indent(string(), l, sub(left))
        }
        12 => Notation::Concat(sub(left), sub(left)),
        13 => Notation::Choice(sub(left), sub(left)),
        14 => {
            let at = match sx::pick(4) {
                0 => CheckPos::Here,
                1 => CheckPos::Child(sx::var64() as isize),
                2 => CheckPos::LeftChild,
                _ => CheckPos::RightChild,
            };
            Notation::Check(sx::var(0, 255) as u8, at, sub(left), sub(left))
        }
        15 => Notation::Count { zero: sub(left), one: sub(left), many: sub(left) },
        _ => Notation::Fold { first: sub(left), join: sub(left) },
    }
}

/// params: number of notations that contain others, how the format tells variants and fields
pub fn round_trip() {
    let mut left = sx::param(0) as usize;
    let n = notation(&mut left);
    sx::assume(left == 0);
    let mode = match sx::param(1) {
        0 => Mode::Names,
        1 => Mode::NamesReversed,
        _ => Mode::Numbers,
    };
    let Ok(v) = n.serialize(Ser) else {
        sx::check(false, "serialization-fails");
        return;
    };
    match Real::deserialize(De(v, mode)) {
        Err(Wrong) => sx::check(false, "deserialization-fails"),
        Ok(back) => {
            sx::cover(1);
            same_notation(&n, &back)
        }
    }
}
