//! A serde data format of the harness: keeps the structure a type describes, can fail at any callback and
//! can present the same record in the different ways real formats do.
use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser;
use simrt::shm;
use std::cell::Cell;
use std::fmt::Display;

pub const HUMAN: u32 = 1;
pub const POSITIONAL: u32 = 2;
pub const NO_HINT: u32 = 4;
pub const HUGE_HINT: u32 = 8;
/// two bits: field names as owned string, borrowed string, bytes or number
pub const NAMES: u32 = 16 + 32;
pub const INTS: u32 = 64;
pub const REVERSED: u32 = 128;

#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Bool(bool),
    U(u64),
    I(i64),
    F(f64),
    Str(String),
    Bytes(Vec<u8>),
    Opt(Option<Box<Val>>),
    Seq(Vec<Val>),
    Tuple(Vec<Val>),
    Map(Vec<(Val, Val)>),
    Struct(String, Vec<(String, Val)>),
    New(String, Box<Val>),
    Variant(u32, String, Box<Val>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub String);
impl Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl de::Error for Error {
    fn custom<T: Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

/// Counts callbacks and fails the chosen one.
pub struct Ctl {
    pub style: u32,
    seen: Cell<u64>,
    fail_at: Option<u64>,
    pub fired: Cell<bool>,
}
impl Ctl {
    pub fn new(style: u32, fail_at: Option<u64>) -> Ctl {
        Ctl { style, seen: Cell::new(0), fail_at, fired: Cell::new(false) }
    }
    pub fn seen(&self) -> u64 {
        self.seen.get()
    }
    fn tick(&self) -> Result<(), Error> {
        let k = self.seen.get();
        self.seen.set(k + 1);
        if self.fail_at == Some(k) {
            self.fired.set(true);
            shm::stats().f_codec_err += 1;
            return Err(Error("injected".into()));
        }
        Ok(())
    }
}

#[derive(Clone, Copy)]
pub struct Ser<'a>(pub &'a Ctl);

pub struct SeqSer<'a> {
    c: &'a Ctl,
    v: Vec<Val>,
    kind: u8,
    name: String,
}
pub struct MapSer<'a> {
    c: &'a Ctl,
    v: Vec<(Val, Val)>,
    key: Option<Val>,
}
pub struct StructSer<'a> {
    c: &'a Ctl,
    name: String,
    v: Vec<(String, Val)>,
    variant: Option<(u32, String)>,
}

macro_rules! prim {
    ($($f:ident $t:ty => $e:expr;)*) => {
        $(fn $f(self, v: $t) -> Result<Val, Error> {
            self.0.tick()?;
            Ok($e(v))
        })*
    };
}

impl<'a> ser::Serializer for Ser<'a> {
    type Ok = Val;
    type Error = Error;
    type SerializeSeq = SeqSer<'a>;
    type SerializeTuple = SeqSer<'a>;
    type SerializeTupleStruct = SeqSer<'a>;
    type SerializeTupleVariant = SeqSer<'a>;
    type SerializeMap = MapSer<'a>;
    type SerializeStruct = StructSer<'a>;
    type SerializeStructVariant = StructSer<'a>;
    prim! {
        serialize_bool bool => Val::Bool;
        serialize_i8 i8 => |v| Val::I(v as i64);
        serialize_i16 i16 => |v| Val::I(v as i64);
        serialize_i32 i32 => |v| Val::I(v as i64);
        serialize_i64 i64 => Val::I;
        serialize_u8 u8 => |v| Val::U(v as u64);
        serialize_u16 u16 => |v| Val::U(v as u64);
        serialize_u32 u32 => |v| Val::U(v as u64);
        serialize_u64 u64 => Val::U;
        serialize_f32 f32 => |v| Val::F(v as f64);
        serialize_f64 f64 => Val::F;
        serialize_char char => |v: char| Val::Str(v.to_string());
        serialize_str &str => |v: &str| Val::Str(v.to_string());
        serialize_bytes &[u8] => |v: &[u8]| Val::Bytes(v.to_vec());
    }
    fn serialize_none(self) -> Result<Val, Error> {
        self.0.tick()?;
        Ok(Val::Opt(None))
    }
    fn serialize_some<T: ?Sized + ser::Serialize>(self, v: &T) -> Result<Val, Error> {
        self.0.tick()?;
        Ok(Val::Opt(Some(Box::new(v.serialize(self)?))))
    }
    fn serialize_unit(self) -> Result<Val, Error> {
        self.0.tick()?;
        Ok(Val::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Val, Error> {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, v: &'static str) -> Result<Val, Error> {
        self.0.tick()?;
        Ok(Val::Variant(i, v.into(), Box::new(Val::Unit)))
    }
    fn serialize_newtype_struct<T: ?Sized + ser::Serialize>(self, n: &'static str, v: &T) -> Result<Val, Error> {
        self.0.tick()?;
        Ok(Val::New(n.into(), Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: ?Sized + ser::Serialize>(
        self,
        _: &'static str,
        i: u32,
        n: &'static str,
        v: &T,
    ) -> Result<Val, Error> {
        self.0.tick()?;
        Ok(Val::Variant(i, n.into(), Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<SeqSer<'a>, Error> {
        self.0.tick()?;
        Ok(SeqSer { c: self.0, v: vec![], kind: 0, name: String::new() })
    }
    fn serialize_tuple(self, _: usize) -> Result<SeqSer<'a>, Error> {
        self.0.tick()?;
        Ok(SeqSer { c: self.0, v: vec![], kind: 1, name: String::new() })
    }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<SeqSer<'a>, Error> {
        self.serialize_tuple(n)
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, v: &'static str, _: usize) -> Result<SeqSer<'a>, Error> {
        self.0.tick()?;
        Ok(SeqSer { c: self.0, v: vec![Val::U(i as u64)], kind: 2, name: v.into() })
    }
    fn serialize_map(self, _: Option<usize>) -> Result<MapSer<'a>, Error> {
        self.0.tick()?;
        Ok(MapSer { c: self.0, v: vec![], key: None })
    }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<StructSer<'a>, Error> {
        self.0.tick()?;
        Ok(StructSer { c: self.0, name: n.into(), v: vec![], variant: None })
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, v: &'static str, _: usize) -> Result<StructSer<'a>, Error> {
        self.0.tick()?;
        Ok(StructSer { c: self.0, name: v.into(), v: vec![], variant: Some((i, v.into())) })
    }
    fn is_human_readable(&self) -> bool {
        self.0.style & HUMAN != 0
    }
}

impl SeqSer<'_> {
    fn add<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.c.tick()?;
        self.v.push(v.serialize(Ser(self.c))?);
        Ok(())
    }
    fn done(self) -> Result<Val, Error> {
        self.c.tick()?;
        Ok(match self.kind {
            0 => Val::Seq(self.v),
            1 => Val::Tuple(self.v),
            _ => {
                let i = if let Some(Val::U(i)) = self.v.first() { *i as u32 } else { 0 };
                Val::Variant(i, self.name, Box::new(Val::Tuple(self.v[1..].to_vec())))
            }
        })
    }
}
impl ser::SerializeSeq for SeqSer<'_> {
    type Ok = Val;
    type Error = Error;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.add(v)
    }
    fn end(self) -> Result<Val, Error> {
        self.done()
    }
}
impl ser::SerializeTuple for SeqSer<'_> {
    type Ok = Val;
    type Error = Error;
    fn serialize_element<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.add(v)
    }
    fn end(self) -> Result<Val, Error> {
        self.done()
    }
}
impl ser::SerializeTupleStruct for SeqSer<'_> {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.add(v)
    }
    fn end(self) -> Result<Val, Error> {
        self.done()
    }
}
impl ser::SerializeTupleVariant for SeqSer<'_> {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.add(v)
    }
    fn end(self) -> Result<Val, Error> {
        self.done()
    }
}
impl ser::SerializeMap for MapSer<'_> {
    type Ok = Val;
    type Error = Error;
    fn serialize_key<T: ?Sized + ser::Serialize>(&mut self, k: &T) -> Result<(), Error> {
        self.c.tick()?;
        self.key = Some(k.serialize(Ser(self.c))?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + ser::Serialize>(&mut self, v: &T) -> Result<(), Error> {
        self.c.tick()?;
        let k = self.key.take().ok_or_else(|| Error("value without key".into()))?;
        self.v.push((k, v.serialize(Ser(self.c))?));
        Ok(())
    }
    fn end(self) -> Result<Val, Error> {
        self.c.tick()?;
        Ok(Val::Map(self.v))
    }
}
impl StructSer<'_> {
    fn add<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.c.tick()?;
        self.v.push((k.into(), v.serialize(Ser(self.c))?));
        Ok(())
    }
    fn done(self) -> Result<Val, Error> {
        self.c.tick()?;
        let s = Val::Struct(self.name, self.v);
        Ok(match self.variant {
            None => s,
            Some((i, n)) => Val::Variant(i, n, Box::new(s)),
        })
    }
}
impl ser::SerializeStruct for StructSer<'_> {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.add(k, v)
    }
    fn end(self) -> Result<Val, Error> {
        self.done()
    }
}
impl ser::SerializeStructVariant for StructSer<'_> {
    type Ok = Val;
    type Error = Error;
    fn serialize_field<T: ?Sized + ser::Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
        self.add(k, v)
    }
    fn end(self) -> Result<Val, Error> {
        self.done()
    }
}

#[derive(Clone, Copy)]
pub struct De<'a> {
    pub v: &'a Val,
    pub c: &'a Ctl,
}

struct Elems<'a> {
    it: std::slice::Iter<'a, Val>,
    c: &'a Ctl,
}
struct Positional<'a> {
    it: std::slice::Iter<'a, (String, Val)>,
    c: &'a Ctl,
}
struct Entries<'a> {
    it: std::slice::Iter<'a, (Val, Val)>,
    val: Option<&'a Val>,
    c: &'a Ctl,
}
struct Fields<'a> {
    f: Vec<(usize, &'a str, &'a Val)>,
    at: usize,
    c: &'a Ctl,
    known: &'static [&'static str],
}

fn hint(c: &Ctl, n: usize) -> Option<usize> {
    if c.style & HUGE_HINT != 0 {
        Some(usize::MAX)
    } else if c.style & NO_HINT != 0 {
        None
    } else {
        Some(n)
    }
}

impl<'de, 'a: 'de> SeqAccess<'de> for Elems<'a> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.c.tick()?;
        match self.it.next() {
            None => Ok(None),
            Some(v) => s.deserialize(De { v, c: self.c }).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.c, self.it.len())
    }
}
impl<'de, 'a: 'de> SeqAccess<'de> for Positional<'a> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        self.c.tick()?;
        match self.it.next() {
            None => Ok(None),
            Some((_, v)) => s.deserialize(De { v, c: self.c }).map(Some),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.c, self.it.len())
    }
}
impl<'de, 'a: 'de> MapAccess<'de> for Entries<'a> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        self.c.tick()?;
        match self.it.next() {
            None => Ok(None),
            Some((k, v)) => {
                self.val = Some(v);
                s.deserialize(De { v: k, c: self.c }).map(Some)
            }
        }
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Error> {
        self.c.tick()?;
        let v = self.val.take().ok_or_else(|| Error("value before key".into()))?;
        s.deserialize(De { v, c: self.c })
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.c, self.it.len())
    }
}
impl<'de, 'a: 'de> MapAccess<'de> for Fields<'a> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        self.c.tick()?;
        let (_, name, _) = match self.f.get(self.at) {
            None => return Ok(None),
            Some(f) => *f,
        };
        let pos = self.known.iter().position(|k| *k == name);
        let r = match ((self.c.style & NAMES) / 16, pos) {
            (1, _) => s.deserialize(de::value::StringDeserializer::<Error>::new(name.to_string())),
            (2, _) => s.deserialize(de::value::BytesDeserializer::<Error>::new(name.as_bytes())),
            (3, Some(p)) => s.deserialize((p as u64).into_deserializer()),
            _ => s.deserialize(de::value::BorrowedStrDeserializer::<Error>::new(name)),
        };
        r.map(Some)
    }
    fn next_value_seed<V: DeserializeSeed<'de>>(&mut self, s: V) -> Result<V::Value, Error> {
        self.c.tick()?;
        let v = self.f.get(self.at).ok_or_else(|| Error("value after the end".into()))?.2;
        self.at += 1;
        s.deserialize(De { v, c: self.c })
    }
    fn size_hint(&self) -> Option<usize> {
        hint(self.c, self.f.len() - self.at)
    }
}

impl<'a> De<'a> {
    fn any<'de, V: Visitor<'de>>(self, known: &'static [&'static str], vis: V) -> Result<V::Value, Error>
    where
        'a: 'de,
    {
        self.c.tick()?;
        let c = self.c;
        match self.v {
            Val::Unit => vis.visit_unit(),
            Val::Bool(b) => vis.visit_bool(*b),
            Val::U(u) => vis.visit_u64(*u),
            Val::I(i) => vis.visit_i64(*i),
            Val::F(f) => {
                let whole = f.fract() == 0.0 && f.abs() < 9e15 && !(*f == 0.0 && f.is_sign_negative());
                if c.style & INTS != 0 && whole {
                    if *f < 0.0 {
                        vis.visit_i64(*f as i64)
                    } else {
                        vis.visit_u64(*f as u64)
                    }
                } else {
                    vis.visit_f64(*f)
                }
            }
            Val::Str(s) => vis.visit_borrowed_str(s),
            Val::Bytes(b) => vis.visit_borrowed_bytes(b),
            Val::Opt(None) => vis.visit_none(),
            Val::Opt(Some(v)) => vis.visit_some(De { v, c }),
            Val::Seq(v) | Val::Tuple(v) => {
                let mut e = Elems { it: v.iter(), c };
                let r = vis.visit_seq(&mut e)?;
                if e.it.len() > 0 {
                    return Err(Error(format!("{} elements too many", e.it.len())));
                }
                Ok(r)
            }
            Val::Map(v) => vis.visit_map(Entries { it: v.iter(), val: None, c }),
            Val::Struct(_, f) => {
                if c.style & POSITIONAL != 0 {
                    let mut e = Positional { it: f.iter(), c };
                    let r = vis.visit_seq(&mut e)?;
                    if e.it.len() > 0 {
                        return Err(Error(format!("{} fields too many", e.it.len())));
                    }
                    Ok(r)
                } else {
                    let mut v: Vec<_> = f.iter().enumerate().map(|(i, (n, x))| (i, n.as_str(), x)).collect();
                    if c.style & REVERSED != 0 {
                        v.reverse();
                    }
                    vis.visit_map(Fields { f: v, at: 0, c, known })
                }
            }
            Val::New(_, v) => De { v, c }.any(known, vis),
            Val::Variant(..) => Err(Error("enum".into())),
        }
    }
}

impl<'de, 'a: 'de> de::Deserializer<'de> for De<'a> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        self.any(&[], vis)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Error> {
        self.c.tick()?;
        match self.v {
            Val::New(_, v) => vis.visit_newtype_struct(De { v, c: self.c }),
            _ => vis.visit_newtype_struct(self),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        match self.v {
            Val::Opt(_) => self.any(&[], vis),
            Val::Unit => vis.visit_none(),
            _ => vis.visit_some(self),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(
        self,
        _: &'static str,
        known: &'static [&'static str],
        vis: V,
    ) -> Result<V::Value, Error> {
        self.any(known, vis)
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        vis.visit_unit()
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map enum identifier
    }
    fn is_human_readable(&self) -> bool {
        self.c.style & HUMAN != 0
    }
}

// The byte form, for the simulated disk.

pub fn encode(v: &Val, out: &mut Vec<u8>) {
    fn s(out: &mut Vec<u8>, x: &[u8]) {
        out.extend_from_slice(&(x.len() as u32).to_le_bytes());
        out.extend_from_slice(x);
    }
    fn n(out: &mut Vec<u8>, t: u8, k: usize) {
        out.push(t);
        out.extend_from_slice(&(k as u32).to_le_bytes());
    }
    match v {
        Val::Unit => out.push(0),
        Val::Bool(b) => out.extend_from_slice(&[1, *b as u8]),
        Val::U(x) => {
            out.push(2);
            out.extend_from_slice(&x.to_le_bytes());
        }
        Val::I(x) => {
            out.push(3);
            out.extend_from_slice(&x.to_le_bytes());
        }
        Val::F(x) => {
            out.push(4);
            out.extend_from_slice(&x.to_bits().to_le_bytes());
        }
        Val::Str(x) => {
            out.push(5);
            s(out, x.as_bytes());
        }
        Val::Bytes(x) => {
            out.push(6);
            s(out, x);
        }
        Val::Opt(None) => out.push(7),
        Val::Opt(Some(x)) => {
            out.push(8);
            encode(x, out);
        }
        Val::Seq(x) => {
            n(out, 9, x.len());
            x.iter().for_each(|y| encode(y, out));
        }
        Val::Tuple(x) => {
            n(out, 10, x.len());
            x.iter().for_each(|y| encode(y, out));
        }
        Val::Map(x) => {
            n(out, 11, x.len());
            for (a, b) in x {
                encode(a, out);
                encode(b, out);
            }
        }
        Val::Struct(k, x) => {
            n(out, 12, x.len());
            s(out, k.as_bytes());
            for (a, b) in x {
                s(out, a.as_bytes());
                encode(b, out);
            }
        }
        Val::New(k, x) => {
            out.push(13);
            s(out, k.as_bytes());
            encode(x, out);
        }
        Val::Variant(i, k, x) => {
            out.push(14);
            out.extend_from_slice(&i.to_le_bytes());
            s(out, k.as_bytes());
            encode(x, out);
        }
    }
}

pub fn decode(b: &[u8]) -> Result<Val, Error> {
    let mut at = 0;
    let v = dec(b, &mut at, 0)?;
    if at != b.len() {
        return Err(Error("trailing bytes".into()));
    }
    Ok(v)
}

fn dec(b: &[u8], at: &mut usize, depth: u32) -> Result<Val, Error> {
    fn take<'a>(b: &'a [u8], at: &mut usize, n: usize) -> Result<&'a [u8], Error> {
        let r = b.get(*at..at.checked_add(n).ok_or_else(|| Error("length".into()))?).ok_or_else(|| Error("end of record".into()))?;
        *at += n;
        Ok(r)
    }
    fn u4(b: &[u8], at: &mut usize) -> Result<usize, Error> {
        let x = take(b, at, 4)?;
        Ok(u32::from_le_bytes([x[0], x[1], x[2], x[3]]) as usize)
    }
    fn u8_(b: &[u8], at: &mut usize) -> Result<u64, Error> {
        let x = take(b, at, 8)?;
        let mut y = [0; 8];
        y.copy_from_slice(x);
        Ok(u64::from_le_bytes(y))
    }
    fn st(b: &[u8], at: &mut usize) -> Result<String, Error> {
        let n = u4(b, at)?;
        String::from_utf8(take(b, at, n)?.to_vec()).map_err(|_| Error("text".into()))
    }
    if depth > 30 {
        return Err(Error("too deep".into()));
    }
    let d = depth + 1;
    Ok(match take(b, at, 1)?[0] {
        0 => Val::Unit,
        1 => Val::Bool(take(b, at, 1)?[0] != 0),
        2 => Val::U(u8_(b, at)?),
        3 => Val::I(u8_(b, at)? as i64),
        4 => Val::F(f64::from_bits(u8_(b, at)?)),
        5 => Val::Str(st(b, at)?),
        6 => {
            let n = u4(b, at)?;
            Val::Bytes(take(b, at, n)?.to_vec())
        }
        7 => Val::Opt(None),
        8 => Val::Opt(Some(Box::new(dec(b, at, d)?))),
        t @ (9 | 10) => {
            let n = u4(b, at)?;
            let mut v = vec![];
            for _ in 0..n {
                v.push(dec(b, at, d)?);
            }
            if t == 9 {
                Val::Seq(v)
            } else {
                Val::Tuple(v)
            }
        }
        11 => {
            let n = u4(b, at)?;
            let mut v = vec![];
            for _ in 0..n {
                let k = dec(b, at, d)?;
                v.push((k, dec(b, at, d)?));
            }
            Val::Map(v)
        }
        12 => {
            let n = u4(b, at)?;
            let name = st(b, at)?;
            let mut v = vec![];
            for _ in 0..n {
                let k = st(b, at)?;
                v.push((k, dec(b, at, d)?));
            }
            Val::Struct(name, v)
        }
        13 => {
            let n = st(b, at)?;
            Val::New(n, Box::new(dec(b, at, d)?))
        }
        14 => {
            let i = u4(b, at)? as u32;
            let n = st(b, at)?;
            Val::Variant(i, n, Box::new(dec(b, at, d)?))
        }
        _ => return Err(Error("unknown tag".into())),
    })
}
