//! Simulated sinks and sources: writers and readers that fail, stall, accept or return less than
//! asked, and are interrupted; and a token-level serializer/deserializer that may lie about lengths.

use crate::elem::INJECTED;
use serde::de::{self, DeserializeSeed, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{self, Impossible};
use simrt::{fault, point, site, Rng};
use std::fmt;
use std::io;

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct TokErr(pub String);
impl fmt::Display for TokErr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TokErr {}
impl ser::Error for TokErr {
    fn custom<T: fmt::Display>(m: T) -> TokErr {
        TokErr(m.to_string())
    }
}
impl de::Error for TokErr {
    fn custom<T: fmt::Display>(m: T) -> TokErr {
        TokErr(m.to_string())
    }
}

// --- token serializer -------------------------------------------------------------------------

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum T {
    Seq(Option<usize>),
    Map(Option<usize>),
    U(u32),
    End,
    Other,
}

#[derive(Default)]
pub struct Tok {
    pub out: Vec<T>,
    pub failed: bool,
    pub after_failure: u32,
    /// A binary format.
    pub compact: bool,
}
impl Tok {
    fn put(&mut self, t: T) -> Result<(), TokErr> {
        point(site::Sink);
        if self.failed {
            self.after_failure += 1;
        }
        if fault(site::Sink) {
            self.failed = true;
            return Err(TokErr(INJECTED.into()));
        }
        simrt::untracked(|| self.out.push(t));
        Ok(())
    }
}
pub struct Sub<'a>(&'a mut Tok);

macro_rules! other {
    ($($f:ident($($t:ty),*);)*) => {
        $(fn $f(self, $(_: $t),*) -> Result<(), TokErr> { self.put(T::Other) })*
    };
}
impl<'a> ser::Serializer for &'a mut Tok {
    type Ok = ();
    type Error = TokErr;
    type SerializeSeq = Sub<'a>;
    type SerializeTuple = Sub<'a>;
    type SerializeTupleStruct = Impossible<(), TokErr>;
    type SerializeTupleVariant = Impossible<(), TokErr>;
    type SerializeMap = Sub<'a>;
    type SerializeStruct = Impossible<(), TokErr>;
    type SerializeStructVariant = Impossible<(), TokErr>;
    fn is_human_readable(&self) -> bool {
        !self.compact
    }
    other! {
        serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32);
        serialize_i64(i64); serialize_u8(u8); serialize_u16(u16); serialize_u64(u64);
        serialize_f32(f32); serialize_f64(f64); serialize_char(char); serialize_str(&str);
        serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
        serialize_unit_variant(&'static str, u32, &'static str);
    }
    fn serialize_u32(self, v: u32) -> Result<(), TokErr> {
        self.put(T::U(v))
    }
    fn serialize_some<X: ?Sized + ser::Serialize>(self, v: &X) -> Result<(), TokErr> {
        v.serialize(self)
    }
    fn serialize_newtype_struct<X: ?Sized + ser::Serialize>(self, _: &'static str, v: &X) -> Result<(), TokErr> {
        v.serialize(self)
    }
    fn serialize_newtype_variant<X: ?Sized + ser::Serialize>(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: &X,
    ) -> Result<(), TokErr> {
        self.put(T::Other)
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Sub<'a>, TokErr> {
        self.put(T::Seq(n))?;
        Ok(Sub(self))
    }
    fn serialize_tuple(self, n: usize) -> Result<Sub<'a>, TokErr> {
        self.put(T::Seq(Some(n)))?;
        Ok(Sub(self))
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Sub<'a>, TokErr> {
        self.put(T::Map(n))?;
        Ok(Sub(self))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeTupleStruct, TokErr> {
        Err(TokErr("unexpected tuple struct".into()))
    }
    fn serialize_tuple_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeTupleVariant, TokErr> {
        Err(TokErr("unexpected tuple variant".into()))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Self::SerializeStruct, TokErr> {
        Err(TokErr("unexpected struct".into()))
    }
    fn serialize_struct_variant(
        self,
        _: &'static str,
        _: u32,
        _: &'static str,
        _: usize,
    ) -> Result<Self::SerializeStructVariant, TokErr> {
        Err(TokErr("unexpected struct variant".into()))
    }
}
impl ser::SerializeSeq for Sub<'_> {
    type Ok = ();
    type Error = TokErr;
    fn serialize_element<X: ?Sized + ser::Serialize>(&mut self, v: &X) -> Result<(), TokErr> {
        v.serialize(&mut *self.0)
    }
    fn end(self) -> Result<(), TokErr> {
        self.0.put(T::End)
    }
}
impl ser::SerializeTuple for Sub<'_> {
    type Ok = ();
    type Error = TokErr;
    fn serialize_element<X: ?Sized + ser::Serialize>(&mut self, v: &X) -> Result<(), TokErr> {
        v.serialize(&mut *self.0)
    }
    fn end(self) -> Result<(), TokErr> {
        self.0.put(T::End)
    }
}
impl ser::SerializeMap for Sub<'_> {
    type Ok = ();
    type Error = TokErr;
    fn serialize_key<X: ?Sized + ser::Serialize>(&mut self, v: &X) -> Result<(), TokErr> {
        v.serialize(&mut *self.0)
    }
    fn serialize_value<X: ?Sized + ser::Serialize>(&mut self, v: &X) -> Result<(), TokErr> {
        v.serialize(&mut *self.0)
    }
    fn end(self) -> Result<(), TokErr> {
        self.0.put(T::End)
    }
}

// --- byte sinks -------------------------------------------------------------------------------

/// A disk that accepts short writes, is interrupted, and fills up after `cap` bytes.
pub struct SimWrite {
    pub out: Vec<u8>,
    pub cap: usize,
    pub short: bool,
    pub eintr: bool,
    pub zero: bool,
    pub failed: bool,
    pub after_failure: u32,
    pub shorts: u32,
    pub eintrs: u32,
    rng: Rng,
}
impl SimWrite {
    pub fn new(seed: u64, cap: usize) -> SimWrite {
        let mut rng = Rng::new(seed);
        let short = rng.chance(1, 2);
        let eintr = rng.chance(1, 2);
        let zero = rng.chance(1, 4);
        SimWrite { out: Vec::new(), cap, short, eintr, zero, failed: false, after_failure: 0, shorts: 0, eintrs: 0, rng }
    }
}
impl io::Write for SimWrite {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        point(site::Sink);
        if self.failed {
            self.after_failure += 1;
        }
        if b.is_empty() {
            return Ok(0);
        }
        if self.eintr && self.rng.chance(1, 5) {
            self.eintrs += 1;
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        let room = self.cap.saturating_sub(self.out.len());
        if room == 0 {
            self.failed = true;
            if self.zero {
                return Ok(0);
            }
            return Err(io::Error::from(io::ErrorKind::StorageFull));
        }
        let mut n = b.len().min(room);
        if self.short && n > 1 && self.rng.chance(1, 2) {
            n = self.rng.range(1, n as u64 - 1) as usize;
            self.shorts += 1;
        }
        simrt::untracked(|| self.out.extend_from_slice(&b[..n]));
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A text sink that fails once `cap` bytes would be exceeded.
pub struct SimFmt {
    pub out: String,
    pub cap: usize,
    pub failed: bool,
    pub after_failure: u32,
}
impl fmt::Write for SimFmt {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        point(site::Sink);
        if self.failed {
            self.after_failure += 1;
        }
        if self.out.len() + s.len() > self.cap {
            self.failed = true;
            return Err(fmt::Error);
        }
        simrt::untracked(|| self.out.push_str(s));
        Ok(())
    }
}

// --- byte source ------------------------------------------------------------------------------

/// A reader that returns less than asked, is interrupted, and fails at byte `err_at`.
pub struct SimRead<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub err_at: Option<usize>,
    pub noisy: bool,
    rng: Rng,
}
impl<'a> SimRead<'a> {
    pub fn new(data: &'a [u8], seed: u64, err_at: Option<usize>) -> SimRead<'a> {
        let mut rng = Rng::new(seed);
        let noisy = rng.chance(1, 2);
        SimRead { data, pos: 0, err_at, noisy, rng }
    }
}
impl io::Read for SimRead<'_> {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        point(site::Source);
        if self.noisy && self.rng.chance(1, 8) {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.err_at.is_some_and(|e| self.pos >= e) {
            return Err(io::Error::other(INJECTED));
        }
        let mut n = b.len().min(self.data.len() - self.pos);
        if n > 1 && self.noisy {
            n = self.rng.range(1, n as u64) as usize;
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

// --- token source -----------------------------------------------------------------------------

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Cellv {
    U(u32),
    /// Something that is not an element.
    Bad,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Shape {
    Seq,
    Map,
    /// Not a collection at all.
    Scalar,
}

/// A deserializer over a scripted stream with an arbitrary announced length.
#[derive(Clone, Debug)]
pub struct Src {
    pub shape: Shape,
    pub items: Vec<Cellv>,
    pub hint: Option<usize>,
    /// Failure of the stream itself before this item.
    pub err_at: Option<usize>,
    pub panic_at: Option<usize>,
    /// A binary format, which cannot tell what comes next.
    pub compact: bool,
}
impl Src {
    fn visit<'de, V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        match self.shape {
            Shape::Seq => v.visit_seq(Acc { s: self, i: 0 }),
            Shape::Map => v.visit_map(Acc { s: self, i: 0 }),
            Shape::Scalar => v.visit_bool(true),
        }
    }
}
struct Acc {
    s: Src,
    i: usize,
}
impl Acc {
    fn step(&mut self) -> Result<Option<Cellv>, TokErr> {
        point(site::Source);
        if self.s.err_at == Some(self.i) {
            return Err(TokErr(INJECTED.into()));
        }
        if self.s.panic_at == Some(self.i) {
            std::panic::panic_any(simrt::Injected(site::Source));
        }
        let x = self.s.items.get(self.i).copied();
        self.i += 1;
        Ok(x)
    }
    fn hint(&self, per: usize) -> Option<usize> {
        // Exact counts shrink as items are read; lies stay what they are.
        match self.s.hint {
            Some(h) if h == self.s.items.len() / per => Some(h.saturating_sub(self.i / per)),
            h => h,
        }
    }
}
struct ElDe(Cellv);
impl<'de> de::Deserializer<'de> for ElDe {
    type Error = TokErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        match self.0 {
            Cellv::U(x) => v.visit_u32(x),
            Cellv::Bad => v.visit_bool(true),
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> IntoDeserializer<'de, TokErr> for ElDe {
    type Deserializer = ElDe;
    fn into_deserializer(self) -> ElDe {
        self
    }
}
impl<'de> SeqAccess<'de> for Acc {
    type Error = TokErr;
    fn next_element_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, TokErr> {
        match self.step()? {
            Some(c) => s.deserialize(ElDe(c)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint(1)
    }
}
impl<'de> MapAccess<'de> for Acc {
    type Error = TokErr;
    fn next_key_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<Option<S::Value>, TokErr> {
        match self.step()? {
            Some(c) => s.deserialize(ElDe(c)).map(Some),
            None => Ok(None),
        }
    }
    fn next_value_seed<S: DeserializeSeed<'de>>(&mut self, s: S) -> Result<S::Value, TokErr> {
        match self.step()? {
            Some(c) => s.deserialize(ElDe(c)),
            None => Err(TokErr("value missing".into())),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint(2)
    }
}
impl<'de> de::Deserializer<'de> for Src {
    type Error = TokErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        if self.compact {
            return Err(TokErr("the format is not self-describing".into()));
        }
        self.visit(v)
    }
    fn is_human_readable(&self) -> bool {
        !self.compact
    }
    fn deserialize_seq<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        self.visit(v)
    }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        self.visit(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, TokErr> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit
        unit_struct tuple tuple_struct struct enum identifier ignored_any
    }
}

// --- reference decoding -----------------------------------------------------------------------

/// A plain array or list of pairs, decoded by code that has nothing to do with the code under test.
pub struct Plain(pub Vec<(u32, u32)>);
pub struct PlainMap(pub Vec<(u32, u32)>);
impl<'de> de::Deserialize<'de> for Plain {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Plain, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = Plain;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a sequence")
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Plain, A::Error> {
                let mut v = Vec::new();
                while let Some(x) = a.next_element::<u32>()? {
                    v.push((x, 0));
                }
                Ok(Plain(v))
            }
        }
        d.deserialize_seq(V)
    }
}
impl<'de> de::Deserialize<'de> for PlainMap {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<PlainMap, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = PlainMap;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<PlainMap, A::Error> {
                let mut v = Vec::new();
                while let Some(k) = a.next_key::<u32>()? {
                    v.push((k, a.next_value::<u32>()?));
                }
                Ok(PlainMap(v))
            }
        }
        d.deserialize_map(V)
    }
}
