//! A serde data format kept as a tree, as strict as MessagePack: byte strings, sequences and numbers are different
//! things, and a value is given to the reader as what it was written, whatever the reader asks for.
use serde::de::value::{MapDeserializer, SeqDeserializer};
use serde::de::{self, IntoDeserializer, Visitor};
use serde::ser::{self, Serialize};

#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Unit,
    Bool(bool),
    Unsigned(u64),
    Signed(i64),
    Float(f64),
    Str(String),
    Bytes(Vec<u8>),
    Seq(Vec<Tok>),
    Map(Vec<(Tok, Tok)>),
}
/// How values are written
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub human_readable: bool,
    /// structs as maps with names, else as sequences of their fields
    pub named: bool,
}
#[derive(Debug)]
pub struct TokErr(pub String);
impl std::fmt::Display for TokErr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for TokErr {}
impl ser::Error for TokErr {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        TokErr(m.to_string())
    }
}
impl de::Error for TokErr {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        TokErr(m.to_string())
    }
}
pub fn to_tok<T: Serialize + ?Sized>(x: &T, s: Style) -> Result<Tok, TokErr> {
    x.serialize(s)
}
pub fn from_tok<T: de::DeserializeOwned>(t: &Tok, s: Style) -> Result<T, TokErr> {
    T::deserialize(Reader(t.clone(), s))
}
pub struct Parts(Style, Vec<Tok>, Vec<Tok>);
macro_rules! prim {
    ($($f:ident $t:ty => $v:ident as $u:ty),*) => { $(fn $f(self, x: $t) -> Result<Tok, TokErr> { Ok(Tok::$v(x as $u)) })* };
}
impl ser::Serializer for Style {
    type Ok = Tok;
    type Error = TokErr;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = ser::Impossible<Tok, TokErr>;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = ser::Impossible<Tok, TokErr>;
    prim!(serialize_bool bool => Bool as bool, serialize_u8 u8 => Unsigned as u64, serialize_u16 u16 => Unsigned as u64, serialize_u32 u32 => Unsigned as u64,
        serialize_u64 u64 => Unsigned as u64, serialize_i8 i8 => Signed as i64, serialize_i16 i16 => Signed as i64, serialize_i32 i32 => Signed as i64,
        serialize_i64 i64 => Signed as i64, serialize_f32 f32 => Float as f64, serialize_f64 f64 => Float as f64);
    fn serialize_char(self, c: char) -> Result<Tok, TokErr> {
        Ok(Tok::Str(c.to_string()))
    }
    fn serialize_str(self, s: &str) -> Result<Tok, TokErr> {
        Ok(Tok::Str(s.into()))
    }
    fn serialize_bytes(self, b: &[u8]) -> Result<Tok, TokErr> {
        Ok(Tok::Bytes(b.to_vec()))
    }
    fn serialize_none(self) -> Result<Tok, TokErr> {
        Ok(Tok::Unit)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, x: &T) -> Result<Tok, TokErr> {
        x.serialize(self)
    }
    fn serialize_unit(self) -> Result<Tok, TokErr> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Tok, TokErr> {
        Ok(Tok::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Tok, TokErr> {
        Ok(Tok::Str(v.into()))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, x: &T) -> Result<Tok, TokErr> {
        x.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, v: &'static str, x: &T) -> Result<Tok, TokErr> {
        Ok(Tok::Map(vec![(Tok::Str(v.into()), x.serialize(self)?)]))
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Parts, TokErr> {
        Ok(Parts(self, vec![], vec![]))
    }
    fn serialize_tuple(self, _: usize) -> Result<Parts, TokErr> {
        Ok(Parts(self, vec![], vec![]))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Parts, TokErr> {
        Ok(Parts(self, vec![], vec![]))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeTupleVariant, TokErr> {
        Err(TokErr("enums with fields are not used".into()))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Parts, TokErr> {
        Ok(Parts(self, vec![], vec![]))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Parts, TokErr> {
        Ok(Parts(self, vec![], vec![]))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self::SerializeStructVariant, TokErr> {
        Err(TokErr("enums with fields are not used".into()))
    }
    fn is_human_readable(&self) -> bool {
        self.human_readable
    }
}
macro_rules! seq {
    ($($t:ident $f:ident),*) => { $(impl ser::$t for Parts {
        type Ok = Tok;
        type Error = TokErr;
        fn $f<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), TokErr> { self.1.push(x.serialize(self.0)?); Ok(()) }
        fn end(self) -> Result<Tok, TokErr> { Ok(Tok::Seq(self.1)) }
    })* };
}
seq!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field);
impl ser::SerializeMap for Parts {
    type Ok = Tok;
    type Error = TokErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), TokErr> {
        self.2.push(x.serialize(self.0)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), TokErr> {
        self.1.push(x.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Tok, TokErr> {
        Ok(Tok::Map(self.2.into_iter().zip(self.1).collect()))
    }
}
impl ser::SerializeStruct for Parts {
    type Ok = Tok;
    type Error = TokErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, x: &T) -> Result<(), TokErr> {
        self.2.push(Tok::Str(k.into()));
        self.1.push(x.serialize(self.0)?);
        Ok(())
    }
    fn end(self) -> Result<Tok, TokErr> {
        Ok(if self.0.named { Tok::Map(self.2.into_iter().zip(self.1).collect()) } else { Tok::Seq(self.1) })
    }
}
#[derive(Clone)]
pub struct Reader(Tok, Style);
impl<'de> IntoDeserializer<'de, TokErr> for Reader {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}
impl<'de> de::Deserializer<'de> for Reader {
    type Error = TokErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        let s = self.1;
        match self.0 {
            Tok::Unit => v.visit_unit(),
            Tok::Bool(x) => v.visit_bool(x),
            Tok::Unsigned(x) => v.visit_u64(x),
            Tok::Signed(x) => v.visit_i64(x),
            Tok::Float(x) => v.visit_f64(x),
            Tok::Str(x) => v.visit_string(x),
            Tok::Bytes(x) => v.visit_byte_buf(x),
            Tok::Seq(x) => {
                let mut d = SeqDeserializer::new(x.into_iter().map(|t| Reader(t, s)));
                let r = v.visit_seq(&mut d)?;
                d.end()?;
                Ok(r)
            }
            Tok::Map(x) => {
                let mut d = MapDeserializer::new(x.into_iter().map(|(k, t)| (Reader(k, s), Reader(t, s))));
                let r = v.visit_map(&mut d)?;
                d.end()?;
                Ok(r)
            }
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, TokErr> {
        if self.0 == Tok::Unit { v.visit_none() } else { v.visit_some(self) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, TokErr> {
        v.visit_newtype_struct(self)
    }
    fn is_human_readable(&self) -> bool {
        self.1.human_readable
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}
