//! What `serde_buf::Owned` keeps: the calls made to its serializer.
use std::fmt;
use value_bag_serde1::lib::ser::{self, *};

#[derive(Clone)]
pub enum Rec {
    Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), I128(i128), U8(u8), U16(u16), U32(u32), U64(u64), U128(u128),
    F32(f32), F64(f64), Char(char), Str(String), Bytes(Vec<u8>), None, Some(Box<Rec>), Unit,
    UnitStruct(&'static str), UnitVariant(&'static str, u32, &'static str),
    NewStruct(&'static str, Box<Rec>), NewVariant(&'static str, u32, &'static str, Box<Rec>),
    Seq(Vec<Rec>), Tuple(Vec<Rec>), TupleStruct(&'static str, Vec<Rec>), TupleVariant(&'static str, u32, &'static str, Vec<Rec>),
    Map(Vec<Rec>), Struct(&'static str, Vec<Field>), StructVariant(&'static str, u32, &'static str, Vec<Field>),
}
#[derive(Clone)]
pub struct Field(&'static str, Rec);
pub struct RecErr;
impl fmt::Debug for RecErr { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { Ok(()) } }
impl fmt::Display for RecErr { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error buffering a value") } }
impl ser::StdError for RecErr {}
impl ser::Error for RecErr { fn custom<T: fmt::Display>(_: T) -> Self { RecErr } }
type R<T> = Result<T, RecErr>;

pub struct Buf;
pub enum What { Seq, Tuple, TupleStruct(&'static str), TupleVariant(&'static str, u32, &'static str), Map }
pub struct Items(What, Vec<Rec>);
pub enum Named { Struct(&'static str), Variant(&'static str, u32, &'static str) }
pub struct Fields(Named, Vec<Field>);

impl Items {
    fn push<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        let r = v.serialize(Buf)?;
        self.1.push(r);
        Ok(())
    }
    fn done(self) -> R<Rec> {
        Ok(match self.0 {
            What::Seq => Rec::Seq(self.1),
            What::Tuple => Rec::Tuple(self.1),
            What::TupleStruct(n) => Rec::TupleStruct(n, self.1),
            What::TupleVariant(n, i, v) => Rec::TupleVariant(n, i, v, self.1),
            What::Map => Rec::Map(self.1),
        })
    }
}
impl Fields {
    fn push<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> R<()> {
        let r = v.serialize(Buf)?;
        self.1.push(Field(k, r));
        Ok(())
    }
    fn done(self) -> R<Rec> {
        Ok(match self.0 {
            Named::Struct(n) => Rec::Struct(n, self.1),
            Named::Variant(n, i, v) => Rec::StructVariant(n, i, v, self.1),
        })
    }
}
macro_rules! items {
    ($($t:ident $m:ident;)*) => { $(impl $t for Items {
        type Ok = Rec;
        type Error = RecErr;
        fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> { self.push(v) }
        fn end(self) -> R<Rec> { self.done() }
    })* }
}
items! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
impl SerializeMap for Items {
    type Ok = Rec;
    type Error = RecErr;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> { self.push(v) }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> { self.push(v) }
    fn end(self) -> R<Rec> { self.done() }
}
macro_rules! fields {
    ($($t:ident;)*) => { $(impl $t for Fields {
        type Ok = Rec;
        type Error = RecErr;
        fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> R<()> { self.push(k, v) }
        fn end(self) -> R<Rec> { self.done() }
    })* }
}
fields! { SerializeStruct; SerializeStructVariant; }

macro_rules! leaf {
    ($($m:ident $v:ident $t:ty;)*) => { $(fn $m(self, v: $t) -> R<Rec> { Ok(Rec::$v(v)) })* }
}
impl Serializer for Buf {
    type Ok = Rec;
    type Error = RecErr;
    type SerializeSeq = Items;
    type SerializeTuple = Items;
    type SerializeTupleStruct = Items;
    type SerializeTupleVariant = Items;
    type SerializeMap = Items;
    type SerializeStruct = Fields;
    type SerializeStructVariant = Fields;
    leaf! { serialize_bool Bool bool; serialize_i8 I8 i8; serialize_i16 I16 i16; serialize_i32 I32 i32; serialize_i64 I64 i64; serialize_i128 I128 i128;
        serialize_u8 U8 u8; serialize_u16 U16 u16; serialize_u32 U32 u32; serialize_u64 U64 u64; serialize_u128 U128 u128;
        serialize_f32 F32 f32; serialize_f64 F64 f64; serialize_char Char char; }
    fn serialize_str(self, v: &str) -> R<Rec> { Ok(Rec::Str(String::from(v))) }
    fn serialize_bytes(self, v: &[u8]) -> R<Rec> { Ok(Rec::Bytes(v.to_vec())) }
    fn serialize_none(self) -> R<Rec> { Ok(Rec::None) }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R<Rec> { Ok(Rec::Some(Box::new(v.serialize(Buf)?))) }
    fn serialize_unit(self) -> R<Rec> { Ok(Rec::Unit) }
    fn serialize_unit_struct(self, n: &'static str) -> R<Rec> { Ok(Rec::UnitStruct(n)) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> R<Rec> { Ok(Rec::UnitVariant(n, i, v)) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> R<Rec> { Ok(Rec::NewStruct(n, Box::new(v.serialize(Buf)?))) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, k: &'static str, v: &T) -> R<Rec> { Ok(Rec::NewVariant(n, i, k, Box::new(v.serialize(Buf)?))) }
    fn serialize_seq(self, _: Option<usize>) -> R<Items> { Ok(Items(What::Seq, Vec::new())) }
    fn serialize_tuple(self, _: usize) -> R<Items> { Ok(Items(What::Tuple, Vec::new())) }
    fn serialize_tuple_struct(self, n: &'static str, _: usize) -> R<Items> { Ok(Items(What::TupleStruct(n), Vec::new())) }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, k: &'static str, _: usize) -> R<Items> { Ok(Items(What::TupleVariant(n, i, k), Vec::new())) }
    fn serialize_map(self, _: Option<usize>) -> R<Items> { Ok(Items(What::Map, Vec::new())) }
    fn serialize_struct(self, n: &'static str, _: usize) -> R<Fields> { Ok(Fields(Named::Struct(n), Vec::new())) }
    fn serialize_struct_variant(self, n: &'static str, i: u32, k: &'static str, _: usize) -> R<Fields> { Ok(Fields(Named::Variant(n, i, k), Vec::new())) }
}
impl Serialize for Rec {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        serde_replay(self, s)
    }
}
pub fn serde_buffer<T: Serialize>(v: T) -> R<Rec> {
    v.serialize(Buf)
}
pub fn serde_replay<S: Serializer>(r: &Rec, s: S) -> Result<S::Ok, S::Error> {
    match r {
        Rec::Bool(v) => s.serialize_bool(*v),
        Rec::I8(v) => s.serialize_i8(*v),
        Rec::I16(v) => s.serialize_i16(*v),
        Rec::I32(v) => s.serialize_i32(*v),
        Rec::I64(v) => s.serialize_i64(*v),
        Rec::I128(v) => s.serialize_i128(*v),
        Rec::U8(v) => s.serialize_u8(*v),
        Rec::U16(v) => s.serialize_u16(*v),
        Rec::U32(v) => s.serialize_u32(*v),
        Rec::U64(v) => s.serialize_u64(*v),
        Rec::U128(v) => s.serialize_u128(*v),
        Rec::F32(v) => s.serialize_f32(*v),
        Rec::F64(v) => s.serialize_f64(*v),
        Rec::Char(v) => s.serialize_char(*v),
        Rec::Str(v) => s.serialize_str(v),
        Rec::Bytes(v) => s.serialize_bytes(v),
        Rec::None => s.serialize_none(),
        Rec::Some(v) => s.serialize_some(&**v),
        Rec::Unit => s.serialize_unit(),
        Rec::UnitStruct(n) => s.serialize_unit_struct(n),
        Rec::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
        Rec::NewStruct(n, v) => s.serialize_newtype_struct(n, &**v),
        Rec::NewVariant(n, i, k, v) => s.serialize_newtype_variant(n, *i, k, &**v),
        Rec::Seq(x) => {
            let mut q = s.serialize_seq(Some(x.len()))?;
            for v in &x[..] {
                q.serialize_element(v)?;
            }
            q.end()
        }
        Rec::Tuple(x) => {
            let mut q = s.serialize_tuple(x.len())?;
            for v in &x[..] {
                q.serialize_element(v)?;
            }
            q.end()
        }
        Rec::TupleStruct(n, x) => {
            let mut q = s.serialize_tuple_struct(n, x.len())?;
            for v in &x[..] {
                q.serialize_field(v)?;
            }
            q.end()
        }
        Rec::TupleVariant(n, i, k, x) => {
            let mut q = s.serialize_tuple_variant(n, *i, k, x.len())?;
            for v in &x[..] {
                q.serialize_field(v)?;
            }
            q.end()
        }
        Rec::Map(x) => {
            let mut q = s.serialize_map(Some(x.len() / 2))?;
            let mut i = 0;
            while i + 1 < x.len() {
                q.serialize_entry(&x[i], &x[i + 1])?;
                i += 2;
            }
            q.end()
        }
        Rec::Struct(n, x) => {
            let mut q = s.serialize_struct(n, x.len())?;
            for v in &x[..] {
                q.serialize_field(v.0, &v.1)?;
            }
            q.end()
        }
        Rec::StructVariant(n, i, k, x) => {
            let mut q = s.serialize_struct_variant(n, *i, k, x.len())?;
            for v in &x[..] {
                q.serialize_field(v.0, &v.1)?;
            }
            q.end()
        }
    }
}
