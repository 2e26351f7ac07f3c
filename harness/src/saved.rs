//! A small format to save and load values with serde: a tree, structures by position or by name.
use serde::de::{self, DeserializeSeed, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};

#[derive(Clone, Debug, PartialEq)]
pub enum Tree {
    Unit,
    Bool(bool),
    Int(u64),
    Neg(i64),
    Char(char),
    Str(String),
    None,
    Some(Box<Tree>),
    Seq(Vec<Tree>),
    Map(Vec<(Tree, Tree)>),
    Variant(u32, &'static str, Box<Tree>),
}

#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Error
    }
}
impl de::Error for Error {
    fn custom<T: std::fmt::Display>(_: T) -> Self {
        Error
    }
}
type R = Result<Tree, Error>;

/// `true`: structures by the names of their fields, variants by their names.
#[derive(Clone, Copy)]
pub struct Save(pub bool);
pub struct Items(Save, Vec<Tree>, Option<(u32, &'static str)>);
pub struct Pairs(Save, Vec<(Tree, Tree)>, Option<(u32, &'static str)>);
fn wrap(v: Option<(u32, &'static str)>, t: Tree) -> R {
    Ok(match v {
        Some((i, n)) => Tree::Variant(i, n, Box::new(t)),
        None => t,
    })
}

impl ser::Serializer for Save {
    type Ok = Tree;
    type Error = Error;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Pairs;
    type SerializeStruct = Pairs;
    type SerializeStructVariant = Pairs;
    fn is_human_readable(&self) -> bool {
        self.0
    }
    fn serialize_bool(self, v: bool) -> R {
        Ok(Tree::Bool(v))
    }
    fn serialize_i8(self, v: i8) -> R {
        self.serialize_i64(v as i64)
    }
    fn serialize_i16(self, v: i16) -> R {
        self.serialize_i64(v as i64)
    }
    fn serialize_i32(self, v: i32) -> R {
        self.serialize_i64(v as i64)
    }
    fn serialize_i64(self, v: i64) -> R {
        Ok(if v < 0 { Tree::Neg(v) } else { Tree::Int(v as u64) })
    }
    fn serialize_u8(self, v: u8) -> R {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_u16(self, v: u16) -> R {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_u32(self, v: u32) -> R {
        Ok(Tree::Int(v as u64))
    }
    fn serialize_u64(self, v: u64) -> R {
        Ok(Tree::Int(v))
    }
    fn serialize_f32(self, _: f32) -> R {
        Err(Error)
    }
    fn serialize_f64(self, _: f64) -> R {
        Err(Error)
    }
    fn serialize_char(self, v: char) -> R {
        Ok(Tree::Char(v))
    }
    fn serialize_str(self, v: &str) -> R {
        Ok(Tree::Str(v.to_string()))
    }
    fn serialize_bytes(self, v: &[u8]) -> R {
        Ok(Tree::Seq(v.iter().map(|b| Tree::Int(*b as u64)).collect()))
    }
    fn serialize_none(self) -> R {
        Ok(Tree::None)
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R {
        Ok(Tree::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit(self) -> R {
        Ok(Tree::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R {
        Ok(Tree::Unit)
    }
    fn serialize_unit_variant(self, _: &'static str, i: u32, n: &'static str) -> R {
        wrap(Some((i, n)), Tree::Unit)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, i: u32, n: &'static str, v: &T) -> R {
        wrap(Some((i, n)), v.serialize(self)?)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Items, Error> {
        Ok(Items(self, Vec::new(), None))
    }
    fn serialize_tuple(self, _: usize) -> Result<Items, Error> {
        Ok(Items(self, Vec::new(), None))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Items, Error> {
        Ok(Items(self, Vec::new(), None))
    }
    fn serialize_tuple_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Items, Error> {
        Ok(Items(self, Vec::new(), Some((i, n))))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Pairs, Error> {
        Ok(Pairs(self, Vec::new(), None))
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Pairs, Error> {
        Ok(Pairs(self, Vec::new(), None))
    }
    fn serialize_struct_variant(self, _: &'static str, i: u32, n: &'static str, _: usize) -> Result<Pairs, Error> {
        Ok(Pairs(self, Vec::new(), Some((i, n))))
    }
}
macro_rules! items {
    ($($t:ident $f:ident),*) => {$(
        impl ser::$t for Items {
            type Ok = Tree;
            type Error = Error;
            fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
                self.1.push(v.serialize(self.0)?);
                Ok(())
            }
            fn end(self) -> R {
                wrap(self.2, Tree::Seq(self.1))
            }
        }
    )*};
}
items!(SerializeSeq serialize_element, SerializeTuple serialize_element, SerializeTupleStruct serialize_field, SerializeTupleVariant serialize_field);
macro_rules! pairs {
    ($($t:ident),*) => {$(
        impl ser::$t for Pairs {
            type Ok = Tree;
            type Error = Error;
            fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<(), Error> {
                self.1.push((Tree::Str(k.to_string()), v.serialize(self.0)?));
                Ok(())
            }
            fn end(self) -> R {
                let t = if self.0 .0 { Tree::Map(self.1) } else { Tree::Seq(self.1.into_iter().map(|p| p.1).collect()) };
                wrap(self.2, t)
            }
        }
    )*};
}
pairs!(SerializeStruct, SerializeStructVariant);
impl ser::SerializeMap for Pairs {
    type Ok = Tree;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> {
        self.1.push((k.serialize(self.0)?, Tree::Unit));
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
        let t = v.serialize(self.0)?;
        self.1.last_mut().ok_or(Error)?.1 = t;
        Ok(())
    }
    fn end(self) -> R {
        Ok(Tree::Map(self.1))
    }
}

#[derive(Clone, Copy)]
pub struct Load<'de>(pub &'de Tree, pub bool);
struct Seq<'de>(std::slice::Iter<'de, Tree>, bool);
struct Map<'de>(std::slice::Iter<'de, (Tree, Tree)>, Option<&'de Tree>, bool);
struct Name(u32, &'static str, bool);
impl<'de> SeqAccess<'de> for Seq<'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            Some(t) => s.deserialize(Load(t, self.1)).map(Some),
            None => Ok(None),
        }
    }
    fn size_hint(&self) -> Option<usize> {
        Some(self.0.len())
    }
}
impl<'de> MapAccess<'de> for Map<'de> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.0.next() {
            Some((k, v)) => {
                self.1 = Some(v);
                s.deserialize(Load(k, self.2)).map(Some)
            }
            None => Ok(None),
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(Load(self.1.take().ok_or(Error)?, self.2))
    }
}
impl<'de> de::Deserializer<'de> for Name {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        if self.2 {
            v.visit_str(self.1)
        } else {
            v.visit_u64(self.0 as u64)
        }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de> EnumAccess<'de> for Load<'de> {
    type Error = Error;
    type Variant = Load<'de>;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Load<'de>), Error> {
        match self.0 {
            Tree::Variant(i, n, t) => Ok((s.deserialize(Name(*i, n, self.1))?, Load(t, self.1))),
            _ => Err(Error),
        }
    }
}
impl<'de> VariantAccess<'de> for Load<'de> {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> {
        match self.0 {
            Tree::Unit => Ok(()),
            _ => Err(Error),
        }
    }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<T::Value, Error> {
        s.deserialize(self)
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(self, v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        de::Deserializer::deserialize_any(self, v)
    }
}
impl<'de> de::Deserializer<'de> for Load<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool {
        self.1
    }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.0 {
            Tree::Unit => v.visit_unit(),
            Tree::Bool(b) => v.visit_bool(*b),
            Tree::Int(n) => v.visit_u64(*n),
            Tree::Neg(n) => v.visit_i64(*n),
            Tree::Char(c) => v.visit_char(*c),
            Tree::Str(s) => v.visit_borrowed_str(s),
            Tree::None => v.visit_none(),
            Tree::Some(t) => v.visit_some(Load(t, self.1)),
            Tree::Seq(t) => v.visit_seq(Seq(t.iter(), self.1)),
            Tree::Map(t) => v.visit_map(Map(t.iter(), None, self.1)),
            Tree::Variant(..) => v.visit_enum(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
