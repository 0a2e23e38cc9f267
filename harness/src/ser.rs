use serde::ser::{
    Serialize, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple, SerializeTupleStruct,
    SerializeTupleVariant, Serializer,
};

/// A value of each kind of the data model. `Leaf` is a value of an unknown kind: the analysis
/// decides what its serialization gives.
pub enum Dm {
    Leaf(u32),
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(&'static str),
    Text(String),
    Bytes(Vec<u8>),
    None,
    Some(Box<Dm>),
    Unit,
    UnitStruct(&'static str),
    UnitVariant(&'static str),
    NewtypeStruct(&'static str, Box<Dm>),
    NewtypeVariant(&'static str, Box<Dm>),
    Seq(Vec<Dm>),
    Tuple(Vec<Dm>),
    TupleStruct(Vec<Dm>),
    TupleVariant(&'static str, Vec<Dm>),
    Map(Vec<(Dm, Dm)>),
    Entries(Vec<(Dm, Dm)>),
    Struct(&'static str, Vec<(&'static str, Dm)>),
    StructVariant(&'static str, Vec<(&'static str, Dm)>),
}

impl Serialize for Dm {
    fn serialize<S>(&self, s: S) -> Result<S::Ok, S::Error>
    where
        S: Serializer,
    {
        match self {
            Dm::Leaf(_) => s.serialize_unit(),
            Dm::Bool(x) => s.serialize_bool(*x),
            Dm::I8(x) => s.serialize_i8(*x),
            Dm::I16(x) => s.serialize_i16(*x),
            Dm::I32(x) => s.serialize_i32(*x),
            Dm::I64(x) => s.serialize_i64(*x),
            Dm::U8(x) => s.serialize_u8(*x),
            Dm::U16(x) => s.serialize_u16(*x),
            Dm::U32(x) => s.serialize_u32(*x),
            Dm::U64(x) => s.serialize_u64(*x),
            Dm::F32(x) => s.serialize_f32(*x),
            Dm::F64(x) => s.serialize_f64(*x),
            Dm::Char(x) => s.serialize_char(*x),
            Dm::Str(x) => s.serialize_str(x),
            Dm::Text(x) => s.collect_str(x),
            Dm::Bytes(x) => s.serialize_bytes(x),
            Dm::None => s.serialize_none(),
            Dm::Some(x) => s.serialize_some(&**x),
            Dm::Unit => s.serialize_unit(),
            Dm::UnitStruct(n) => s.serialize_unit_struct(n),
            Dm::UnitVariant(v) => s.serialize_unit_variant("E", 7, v),
            Dm::NewtypeStruct(n, x) => s.serialize_newtype_struct(n, &**x),
            Dm::NewtypeVariant(v, x) => s.serialize_newtype_variant("E", 7, v, &**x),
            Dm::Seq(xs) => {
                let mut q = s.serialize_seq(Some(xs.len()))?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Dm::Tuple(xs) => {
                let mut q = s.serialize_tuple(xs.len())?;
                for x in xs {
                    q.serialize_element(x)?;
                }
                q.end()
            }
            Dm::TupleStruct(xs) => {
                let mut q = s.serialize_tuple_struct("S", xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Dm::TupleVariant(v, xs) => {
                let mut q = s.serialize_tuple_variant("E", 7, v, xs.len())?;
                for x in xs {
                    q.serialize_field(x)?;
                }
                q.end()
            }
            Dm::Map(xs) => {
                let mut q = s.serialize_map(Some(xs.len()))?;
                for (k, x) in xs {
                    q.serialize_key(k)?;
                    q.serialize_value(x)?;
                }
                q.end()
            }
            Dm::Entries(xs) => {
                let mut q = s.serialize_map(None)?;
                for (k, x) in xs {
                    q.serialize_entry(k, x)?;
                }
                q.end()
            }
            Dm::Struct(n, xs) => {
                let mut q = s.serialize_struct(n, xs.len())?;
                for (k, x) in xs {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
            Dm::StructVariant(v, xs) => {
                let mut q = s.serialize_struct_variant("E", 7, v, xs.len())?;
                for (k, x) in xs {
                    q.serialize_field(k, x)?;
                }
                q.end()
            }
        }
    }
}

// What serde and std do for their own types; the analysis enters these in their place.

pub fn vec<S: Serializer, T: Serialize>(xs: &[T], s: S) -> Result<S::Ok, S::Error> {
    let mut q = s.serialize_seq(Some(xs.len()))?;
    for x in xs {
        q.serialize_element(x)?;
    }
    q.end()
}

pub fn map<S: Serializer, K: Serialize, V: Serialize>(xs: &[(K, V)], s: S) -> Result<S::Ok, S::Error> {
    let mut q = s.serialize_map(Some(xs.len()))?;
    for (k, x) in xs {
        q.serialize_key(k)?;
        q.serialize_value(x)?;
    }
    q.end()
}

pub fn entry<M: SerializeMap, K: Serialize + ?Sized, V: Serialize + ?Sized>(m: &mut M, k: &K, v: &V) -> Result<(), M::Error> {
    m.serialize_key(k)?;
    m.serialize_value(v)
}

pub fn display<S: Serializer, T: std::fmt::Display + ?Sized>(s: S, x: &T) -> Result<S::Ok, S::Error> {
    s.serialize_str(&x.to_string())
}
