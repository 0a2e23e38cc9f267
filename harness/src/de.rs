use serde::de::{
    Deserialize, DeserializeSeed, Deserializer, EnumAccess, Error, MapAccess, SeqAccess, VariantAccess, Visitor,
};
use std::fmt;

/// What a user of the library asks of a deserializer: one for each of its methods.
#[derive(Clone, Copy)]
pub enum Want {
    Any(Kids),
    Bool,
    I8,
    I16,
    I32,
    I64,
    I128,
    U8,
    U16,
    U32,
    U64,
    U128,
    F32,
    F64,
    Char,
    Str,
    Text,
    Bytes,
    ByteBuf,
    Opt(&'static Want),
    Unit,
    UnitStruct(&'static str),
    NewtypeStruct(&'static str, &'static Want),
    Seq(&'static Want),
    Tuple(usize, &'static Want),
    TupleStruct(&'static str, usize, &'static Want),
    Map(&'static Want, &'static Want),
    Struct(&'static str, &'static [&'static str], &'static Want),
    Enum(&'static str, &'static [&'static str], Form),
    Identifier,
    Ignored,
}

/// What is asked of the parts of something of any kind.
#[derive(Clone, Copy)]
pub struct Kids {
    pub key: &'static Want,
    pub part: &'static Want,
}

/// The form of the variant of an enum that is asked for.
#[derive(Clone, Copy)]
pub enum Form {
    Unit,
    Newtype(&'static Want),
    Tuple(usize, &'static Want),
    Struct(&'static [&'static str], &'static Want),
}

/// What was given.
pub enum Got {
    Bool(bool),
    I64(i64),
    I128(i128),
    U64(u64),
    U128(u128),
    F64(f64),
    Char(char),
    Text(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Got>),
    Unit,
    Newtype(Box<Got>),
    Seq(Vec<Got>),
    Map(Vec<(Got, Got)>),
    Variant(Box<Got>, Box<Got>),
}

impl<'de> DeserializeSeed<'de> for &Want {
    type Value = Got;

    fn deserialize<D>(self, d: D) -> Result<Got, D::Error>
    where
        D: Deserializer<'de>,
    {
        let v = Vis { want: *self };
        match *self {
            Want::Any(_) => d.deserialize_any(v),
            Want::Bool => d.deserialize_bool(v),
            Want::I8 => d.deserialize_i8(v),
            Want::I16 => d.deserialize_i16(v),
            Want::I32 => d.deserialize_i32(v),
            Want::I64 => d.deserialize_i64(v),
            Want::I128 => d.deserialize_i128(v),
            Want::U8 => d.deserialize_u8(v),
            Want::U16 => d.deserialize_u16(v),
            Want::U32 => d.deserialize_u32(v),
            Want::U64 => d.deserialize_u64(v),
            Want::U128 => d.deserialize_u128(v),
            Want::F32 => d.deserialize_f32(v),
            Want::F64 => d.deserialize_f64(v),
            Want::Char => d.deserialize_char(v),
            Want::Str => d.deserialize_str(v),
            Want::Text => d.deserialize_string(v),
            Want::Bytes => d.deserialize_bytes(v),
            Want::ByteBuf => d.deserialize_byte_buf(v),
            Want::Opt(_) => d.deserialize_option(v),
            Want::Unit => d.deserialize_unit(v),
            Want::UnitStruct(n) => d.deserialize_unit_struct(n, v),
            Want::NewtypeStruct(n, _) => d.deserialize_newtype_struct(n, v),
            Want::Seq(_) => d.deserialize_seq(v),
            Want::Tuple(k, _) => d.deserialize_tuple(k, v),
            Want::TupleStruct(n, k, _) => d.deserialize_tuple_struct(n, k, v),
            Want::Map(_, _) => d.deserialize_map(v),
            Want::Struct(n, f, _) => d.deserialize_struct(n, f, v),
            Want::Enum(n, f, _) => d.deserialize_enum(n, f, v),
            Want::Identifier => d.deserialize_identifier(v),
            Want::Ignored => d.deserialize_ignored_any(v),
        }
    }
}

/// Takes whatever it is given. A tuple takes no more parts than it has.
pub struct Vis {
    want: Want,
}

impl<'de> Visitor<'de> for Vis {
    type Value = Got;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }

    fn visit_bool<E: Error>(self, x: bool) -> Result<Got, E> {
        Ok(Got::Bool(x))
    }

    fn visit_i64<E: Error>(self, x: i64) -> Result<Got, E> {
        Ok(Got::I64(x))
    }

    fn visit_i128<E: Error>(self, x: i128) -> Result<Got, E> {
        Ok(Got::I128(x))
    }

    fn visit_u64<E: Error>(self, x: u64) -> Result<Got, E> {
        Ok(Got::U64(x))
    }

    fn visit_u128<E: Error>(self, x: u128) -> Result<Got, E> {
        Ok(Got::U128(x))
    }

    fn visit_f64<E: Error>(self, x: f64) -> Result<Got, E> {
        Ok(Got::F64(x))
    }

    fn visit_char<E: Error>(self, x: char) -> Result<Got, E> {
        Ok(Got::Char(x))
    }

    fn visit_str<E: Error>(self, x: &str) -> Result<Got, E> {
        Ok(Got::Text(x.to_owned()))
    }

    fn visit_string<E: Error>(self, x: String) -> Result<Got, E> {
        Ok(Got::Text(x))
    }

    fn visit_bytes<E: Error>(self, x: &[u8]) -> Result<Got, E> {
        Ok(Got::Bytes(x.to_vec()))
    }

    fn visit_byte_buf<E: Error>(self, x: Vec<u8>) -> Result<Got, E> {
        Ok(Got::Bytes(x))
    }

    fn visit_none<E: Error>(self) -> Result<Got, E> {
        Ok(Got::None)
    }

    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        let w = match self.want {
            Want::Any(k) => k.part,
            Want::Opt(w) => w,
            _ => return Err(D::Error::custom("something")),
        };
        Ok(Got::Some(Box::new(w.deserialize(d)?)))
    }

    fn visit_unit<E: Error>(self) -> Result<Got, E> {
        Ok(Got::Unit)
    }

    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Got, D::Error> {
        let w = match self.want {
            Want::Any(k) => k.part,
            Want::NewtypeStruct(_, w) => w,
            _ => return Err(D::Error::custom("a newtype")),
        };
        Ok(Got::Newtype(Box::new(w.deserialize(d)?)))
    }

    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let (w, n) = match self.want {
            Want::Any(k) => (k.part, usize::MAX),
            Want::Seq(w) | Want::Struct(_, _, w) => (w, usize::MAX),
            Want::Tuple(k, w) | Want::TupleStruct(_, k, w) | Want::Enum(_, _, Form::Tuple(k, w)) => (w, k),
            Want::Bytes | Want::ByteBuf => (&Want::U8, usize::MAX),
            _ => return Err(A::Error::custom("a sequence")),
        };
        let mut xs = Vec::new();
        while xs.len() < n {
            match a.next_element_seed(w)? {
                Some(x) => xs.push(x),
                None => break,
            }
        }
        Ok(Got::Seq(xs))
    }

    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Got, A::Error> {
        let (k, w) = match self.want {
            Want::Any(k) => (k.key, k.part),
            Want::Map(k, w) => (k, w),
            Want::Struct(_, _, w) | Want::Enum(_, _, Form::Struct(_, w)) => (&Want::Identifier, w),
            _ => return Err(A::Error::custom("a map")),
        };
        let mut xs = Vec::new();
        while let Some(key) = a.next_key_seed(k)? {
            xs.push((key, a.next_value_seed(w)?));
        }
        Ok(Got::Map(xs))
    }

    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Got, A::Error> {
        let form = match self.want {
            Want::Enum(_, _, form) => form,
            _ => return Err(A::Error::custom("an enum")),
        };
        let (name, v) = a.variant_seed(&Want::Identifier)?;
        let x = match form {
            Form::Unit => {
                v.unit_variant()?;
                Got::Unit
            }
            Form::Newtype(w) => v.newtype_variant_seed(w)?,
            Form::Tuple(k, _) => v.tuple_variant(k, self)?,
            Form::Struct(f, _) => v.struct_variant(f, self)?,
        };
        Ok(Got::Variant(Box::new(name), Box::new(x)))
    }
}

/// Data of a format other than HCL: each kind of the data model, given by the method of its own.
#[derive(Clone, Copy)]
pub enum Src {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(&'static str),
    Borrowed(&'static str),
    Text(&'static str),
    Bytes(&'static [u8]),
    None,
    Some(&'static Src),
    Unit,
    Newtype(&'static Src),
    Seq(&'static [Src]),
    Map(&'static [(Src, Src)]),
    Variant(&'static Src, &'static Src),
}

pub struct Parts<E>(&'static [Src], usize, std::marker::PhantomData<E>);
pub struct Entries<E>(&'static [(Src, Src)], usize, std::marker::PhantomData<E>);
pub struct From<E>(Src, std::marker::PhantomData<E>);
pub struct Pair<E>(Src, Src, std::marker::PhantomData<E>);

impl<'de, E: Error> SeqAccess<'de> for Parts<E> {
    type Error = E;

    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.1 < self.0.len() {
            let x = self.0[self.1];
            self.1 += 1;
            seed.deserialize(From(x, std::marker::PhantomData)).map(Some)
        } else {
            Ok(None)
        }
    }
}

impl<'de, E: Error> MapAccess<'de> for Entries<E> {
    type Error = E;

    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        if self.1 < self.0.len() {
            let x = self.0[self.1].0;
            seed.deserialize(From(x, std::marker::PhantomData)).map(Some)
        } else {
            Ok(None)
        }
    }

    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, E> {
        let x = self.0[self.1].1;
        self.1 += 1;
        seed.deserialize(From(x, std::marker::PhantomData))
    }
}

impl<'de, E: Error> EnumAccess<'de> for Pair<E> {
    type Error = E;
    type Variant = From<E>;

    fn variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<(T::Value, From<E>), E> {
        let k = seed.deserialize(From(self.0, std::marker::PhantomData))?;
        Ok((k, From(self.1, std::marker::PhantomData)))
    }
}

impl<'de, E: Error> VariantAccess<'de> for From<E> {
    type Error = E;

    fn unit_variant(self) -> Result<(), E> {
        Deserialize::deserialize(self)
    }

    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, seed: T) -> Result<T::Value, E> {
        seed.deserialize(self)
    }

    fn tuple_variant<V: Visitor<'de>>(self, _len: usize, visitor: V) -> Result<V::Value, E> {
        self.deserialize_any(visitor)
    }

    fn struct_variant<V: Visitor<'de>>(self, _fields: &'static [&'static str], visitor: V) -> Result<V::Value, E> {
        self.deserialize_any(visitor)
    }
}

impl<'de, E: Error> Deserializer<'de> for From<E> {
    type Error = E;

    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, E> {
        match self.0 {
            Src::Bool(x) => v.visit_bool(x),
            Src::I8(x) => v.visit_i8(x),
            Src::I16(x) => v.visit_i16(x),
            Src::I32(x) => v.visit_i32(x),
            Src::I64(x) => v.visit_i64(x),
            Src::I128(x) => v.visit_i128(x),
            Src::U8(x) => v.visit_u8(x),
            Src::U16(x) => v.visit_u16(x),
            Src::U32(x) => v.visit_u32(x),
            Src::U64(x) => v.visit_u64(x),
            Src::U128(x) => v.visit_u128(x),
            Src::F32(x) => v.visit_f32(x),
            Src::F64(x) => v.visit_f64(x),
            Src::Char(x) => v.visit_char(x),
            Src::Str(x) => v.visit_str(x),
            Src::Borrowed(x) => v.visit_borrowed_str(x),
            Src::Text(x) => v.visit_string(x.to_owned()),
            Src::Bytes(x) => v.visit_bytes(x),
            Src::None => v.visit_none(),
            Src::Some(x) => v.visit_some(From(*x, std::marker::PhantomData)),
            Src::Unit => v.visit_unit(),
            Src::Newtype(x) => v.visit_newtype_struct(From(*x, std::marker::PhantomData)),
            Src::Seq(xs) => v.visit_seq(Parts(xs, 0, std::marker::PhantomData)),
            Src::Map(xs) => v.visit_map(Entries(xs, 0, std::marker::PhantomData)),
            Src::Variant(k, x) => v.visit_enum(Pair(*k, *x, std::marker::PhantomData)),
        }
    }

    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

/// Any type that is read: `T` from a format other than HCL.
pub fn read<T: for<'a> Deserialize<'a>, E: Error>(x: Src) -> Result<T, E> {
    T::deserialize(From(x, std::marker::PhantomData))
}

/// `T` from a deserializer of the library.
pub fn take<'a, T: Deserialize<'a>, D: Deserializer<'a>>(d: D) -> Result<T, D::Error> {
    T::deserialize(d)
}

/// Anything from a deserializer of the library.
pub fn want<'a, D: Deserializer<'a>>(w: Want, d: D) -> Result<Got, D::Error> {
    (&w).deserialize(d)
}

/// A type of the library from its own deserializer.
pub fn back<'a, T, E>(x: T) -> Result<T, E>
where
    T: Deserialize<'a> + serde::de::IntoDeserializer<'a, E>,
    E: Error,
{
    T::deserialize(x.into_deserializer())
}

/// What a map type of another crate does: all entries in order.
pub struct Entered<K, V>(std::marker::PhantomData<(K, V)>);

impl<'de, K: Deserialize<'de>, V: Deserialize<'de>> Visitor<'de> for Entered<K, V> {
    type Value = Vec<(K, V)>;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a map")
    }

    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Vec<(K, V)>, A::Error> {
        let mut xs = Vec::new();
        while let Some(k) = a.next_key_seed(std::marker::PhantomData)? {
            xs.push((k, a.next_value_seed(std::marker::PhantomData)?));
        }
        Ok(xs)
    }
}

pub fn map<'a, K: Deserialize<'a>, V: Deserialize<'a>, D: Deserializer<'a>>(d: D) -> Result<Vec<(K, V)>, D::Error> {
    d.deserialize_map(Entered(std::marker::PhantomData))
}
