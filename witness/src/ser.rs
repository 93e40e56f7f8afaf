//! A serde serializer whose every call is an observable event.
use crate::opaque::{self, Done, Fail, Tok};
use crate::user::W;
use std::fmt::{self, Write as _};
use value_bag_serde1::lib::ser::{self, Serialize, Serializer};

pub struct Ser(pub Tok);
/// The same serializer, for nested values.
pub struct Sub<'a>(pub &'a Tok);
pub struct Comp<'a>(pub &'a Tok, &'static str);
pub struct Own(pub Tok, &'static str);

impl ser::Error for Fail {
    fn custom<T: fmt::Display>(msg: T) -> Self {
        Fail
    }
}
impl ser::StdError for Fail {}
fn custom_tok() -> Tok {
    opaque::custom_tok()
}
fn collect<T: fmt::Display + ?Sized>(t: &Tok, v: &T) -> Result<Done, Fail> {
    opaque::ser_begin(t, "collect_str", "", 0, "", None)?;
    let mut w = custom_tok();
    match W(&mut w).write_fmt(format_args!("{}", v)) {
        Ok(()) => opaque::ser_end(t, "collect_str"),
        Err(_) => Err(Fail),
    }
}
impl Serializer for Ser {
    type Ok = Done;
    type Error = Fail;
    type SerializeSeq = Own;
    type SerializeTuple = Own;
    type SerializeTupleStruct = Own;
    type SerializeTupleVariant = Own;
    type SerializeMap = Own;
    type SerializeStruct = Own;
    type SerializeStructVariant = Own;
    fn serialize_bool(self, v: bool) -> Result<Done, Fail> {
        opaque::ser_bool(&self.0, v)
    }
    fn serialize_i8(self, v: i8) -> Result<Done, Fail> {
        opaque::ser_i8(&self.0, v)
    }
    fn serialize_i16(self, v: i16) -> Result<Done, Fail> {
        opaque::ser_i16(&self.0, v)
    }
    fn serialize_i32(self, v: i32) -> Result<Done, Fail> {
        opaque::ser_i32(&self.0, v)
    }
    fn serialize_i64(self, v: i64) -> Result<Done, Fail> {
        opaque::ser_i64(&self.0, v)
    }
    fn serialize_i128(self, v: i128) -> Result<Done, Fail> {
        opaque::ser_i128(&self.0, v)
    }
    fn serialize_u8(self, v: u8) -> Result<Done, Fail> {
        opaque::ser_u8(&self.0, v)
    }
    fn serialize_u16(self, v: u16) -> Result<Done, Fail> {
        opaque::ser_u16(&self.0, v)
    }
    fn serialize_u32(self, v: u32) -> Result<Done, Fail> {
        opaque::ser_u32(&self.0, v)
    }
    fn serialize_u64(self, v: u64) -> Result<Done, Fail> {
        opaque::ser_u64(&self.0, v)
    }
    fn serialize_u128(self, v: u128) -> Result<Done, Fail> {
        opaque::ser_u128(&self.0, v)
    }
    fn serialize_f32(self, v: f32) -> Result<Done, Fail> {
        opaque::ser_f32(&self.0, v)
    }
    fn serialize_f64(self, v: f64) -> Result<Done, Fail> {
        opaque::ser_f64(&self.0, v)
    }
    fn serialize_char(self, v: char) -> Result<Done, Fail> {
        opaque::ser_char(&self.0, v)
    }
    fn serialize_str(self, v: &str) -> Result<Done, Fail> {
        opaque::ser_str(&self.0, v)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Done, Fail> {
        opaque::ser_bytes(&self.0, v)
    }
    fn serialize_none(self) -> Result<Done, Fail> {
        opaque::ser_none(&self.0)
    }
    fn serialize_unit(self) -> Result<Done, Fail> {
        opaque::ser_unit(&self.0)
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<Done, Fail> {
        opaque::ser_unit_struct(&self.0, n)
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<Done, Fail> {
        opaque::ser_unit_variant(&self.0, n, i, v)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Done, Fail> {
        opaque::ser_begin(&self.0, "some", "", 0, "", None)?;
        v.serialize(Sub(&self.0))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<Done, Fail> {
        opaque::ser_begin(&self.0, "newtype_struct", n, 0, "", None)?;
        v.serialize(Sub(&self.0))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, w: &'static str, v: &T) -> Result<Done, Fail> {
        opaque::ser_begin(&self.0, "newtype_variant", n, i, w, None)?;
        v.serialize(Sub(&self.0))
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<Done, Fail> {
        collect(&self.0, v)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Own, Fail> {
        opaque::ser_begin(&self.0, "seq", "", 0, "", len)?;
        Ok(Own(self.0, "seq"))
    }
    fn serialize_tuple(self, len: usize) -> Result<Own, Fail> {
        opaque::ser_begin(&self.0, "tuple", "", 0, "", Some(len))?;
        Ok(Own(self.0, "tuple"))
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Own, Fail> {
        opaque::ser_begin(&self.0, "tuple_struct", n, 0, "", Some(len))?;
        Ok(Own(self.0, "tuple_struct"))
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Own, Fail> {
        opaque::ser_begin(&self.0, "tuple_variant", n, i, v, Some(len))?;
        Ok(Own(self.0, "tuple_variant"))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Own, Fail> {
        opaque::ser_begin(&self.0, "map", "", 0, "", len)?;
        Ok(Own(self.0, "map"))
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Own, Fail> {
        opaque::ser_begin(&self.0, "struct", n, 0, "", Some(len))?;
        Ok(Own(self.0, "struct"))
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Own, Fail> {
        opaque::ser_begin(&self.0, "struct_variant", n, i, v, Some(len))?;
        Ok(Own(self.0, "struct_variant"))
    }
}
impl<'a> Serializer for Sub<'a> {
    type Ok = Done;
    type Error = Fail;
    type SerializeSeq = Comp<'a>;
    type SerializeTuple = Comp<'a>;
    type SerializeTupleStruct = Comp<'a>;
    type SerializeTupleVariant = Comp<'a>;
    type SerializeMap = Comp<'a>;
    type SerializeStruct = Comp<'a>;
    type SerializeStructVariant = Comp<'a>;
    fn serialize_bool(self, v: bool) -> Result<Done, Fail> {
        opaque::ser_bool(self.0, v)
    }
    fn serialize_i8(self, v: i8) -> Result<Done, Fail> {
        opaque::ser_i8(self.0, v)
    }
    fn serialize_i16(self, v: i16) -> Result<Done, Fail> {
        opaque::ser_i16(self.0, v)
    }
    fn serialize_i32(self, v: i32) -> Result<Done, Fail> {
        opaque::ser_i32(self.0, v)
    }
    fn serialize_i64(self, v: i64) -> Result<Done, Fail> {
        opaque::ser_i64(self.0, v)
    }
    fn serialize_i128(self, v: i128) -> Result<Done, Fail> {
        opaque::ser_i128(self.0, v)
    }
    fn serialize_u8(self, v: u8) -> Result<Done, Fail> {
        opaque::ser_u8(self.0, v)
    }
    fn serialize_u16(self, v: u16) -> Result<Done, Fail> {
        opaque::ser_u16(self.0, v)
    }
    fn serialize_u32(self, v: u32) -> Result<Done, Fail> {
        opaque::ser_u32(self.0, v)
    }
    fn serialize_u64(self, v: u64) -> Result<Done, Fail> {
        opaque::ser_u64(self.0, v)
    }
    fn serialize_u128(self, v: u128) -> Result<Done, Fail> {
        opaque::ser_u128(self.0, v)
    }
    fn serialize_f32(self, v: f32) -> Result<Done, Fail> {
        opaque::ser_f32(self.0, v)
    }
    fn serialize_f64(self, v: f64) -> Result<Done, Fail> {
        opaque::ser_f64(self.0, v)
    }
    fn serialize_char(self, v: char) -> Result<Done, Fail> {
        opaque::ser_char(self.0, v)
    }
    fn serialize_str(self, v: &str) -> Result<Done, Fail> {
        opaque::ser_str(self.0, v)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result<Done, Fail> {
        opaque::ser_bytes(self.0, v)
    }
    fn serialize_none(self) -> Result<Done, Fail> {
        opaque::ser_none(self.0)
    }
    fn serialize_unit(self) -> Result<Done, Fail> {
        opaque::ser_unit(self.0)
    }
    fn serialize_unit_struct(self, n: &'static str) -> Result<Done, Fail> {
        opaque::ser_unit_struct(self.0, n)
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<Done, Fail> {
        opaque::ser_unit_variant(self.0, n, i, v)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Done, Fail> {
        opaque::ser_begin(self.0, "some", "", 0, "", None)?;
        v.serialize(Sub(self.0))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<Done, Fail> {
        opaque::ser_begin(self.0, "newtype_struct", n, 0, "", None)?;
        v.serialize(Sub(self.0))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, w: &'static str, v: &T) -> Result<Done, Fail> {
        opaque::ser_begin(self.0, "newtype_variant", n, i, w, None)?;
        v.serialize(Sub(self.0))
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> Result<Done, Fail> {
        collect(self.0, v)
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Comp<'a>, Fail> {
        opaque::ser_begin(self.0, "seq", "", 0, "", len)?;
        Ok(Comp(self.0, "seq"))
    }
    fn serialize_tuple(self, len: usize) -> Result<Comp<'a>, Fail> {
        opaque::ser_begin(self.0, "tuple", "", 0, "", Some(len))?;
        Ok(Comp(self.0, "tuple"))
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Comp<'a>, Fail> {
        opaque::ser_begin(self.0, "tuple_struct", n, 0, "", Some(len))?;
        Ok(Comp(self.0, "tuple_struct"))
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Comp<'a>, Fail> {
        opaque::ser_begin(self.0, "tuple_variant", n, i, v, Some(len))?;
        Ok(Comp(self.0, "tuple_variant"))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Comp<'a>, Fail> {
        opaque::ser_begin(self.0, "map", "", 0, "", len)?;
        Ok(Comp(self.0, "map"))
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Comp<'a>, Fail> {
        opaque::ser_begin(self.0, "struct", n, 0, "", Some(len))?;
        Ok(Comp(self.0, "struct"))
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Comp<'a>, Fail> {
        opaque::ser_begin(self.0, "struct_variant", n, i, v, Some(len))?;
        Ok(Comp(self.0, "struct_variant"))
    }
}
impl ser::SerializeSeq for Own {
    type Ok = Done;
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(&self.0, self.1, "")?;
        v.serialize(Sub(&self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(&self.0, self.1)
    }
}
impl ser::SerializeTuple for Own {
    type Ok = Done;
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(&self.0, self.1, "")?;
        v.serialize(Sub(&self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(&self.0, self.1)
    }
}
impl ser::SerializeTupleStruct for Own {
    type Ok = Done;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(&self.0, self.1, "")?;
        v.serialize(Sub(&self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(&self.0, self.1)
    }
}
impl ser::SerializeTupleVariant for Own {
    type Ok = Done;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(&self.0, self.1, "")?;
        v.serialize(Sub(&self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(&self.0, self.1)
    }
}
impl ser::SerializeStruct for Own {
    type Ok = Done;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        opaque::ser_item(&self.0, self.1, k)?;
        v.serialize(Sub(&self.0))?;
        Ok(())
    }
    fn skip_field(&mut self, k: &'static str) -> Result<(), Fail> {
        opaque::ser_item(&self.0, "skip", k)
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(&self.0, self.1)
    }
}
impl ser::SerializeStructVariant for Own {
    type Ok = Done;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        opaque::ser_item(&self.0, self.1, k)?;
        v.serialize(Sub(&self.0))?;
        Ok(())
    }
    fn skip_field(&mut self, k: &'static str) -> Result<(), Fail> {
        opaque::ser_item(&self.0, "skip", k)
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(&self.0, self.1)
    }
}
impl ser::SerializeMap for Own {
    type Ok = Done;
    type Error = Fail;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(&self.0, "key", "")?;
        v.serialize(Sub(&self.0))?;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(&self.0, "value", "")?;
        v.serialize(Sub(&self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(&self.0, self.1)
    }
}
impl<'a> ser::SerializeSeq for Comp<'a> {
    type Ok = Done;
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(self.0, self.1, "")?;
        v.serialize(Sub(self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(self.0, self.1)
    }
}
impl<'a> ser::SerializeTuple for Comp<'a> {
    type Ok = Done;
    type Error = Fail;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(self.0, self.1, "")?;
        v.serialize(Sub(self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(self.0, self.1)
    }
}
impl<'a> ser::SerializeTupleStruct for Comp<'a> {
    type Ok = Done;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(self.0, self.1, "")?;
        v.serialize(Sub(self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(self.0, self.1)
    }
}
impl<'a> ser::SerializeTupleVariant for Comp<'a> {
    type Ok = Done;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(self.0, self.1, "")?;
        v.serialize(Sub(self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(self.0, self.1)
    }
}
impl<'a> ser::SerializeStruct for Comp<'a> {
    type Ok = Done;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        opaque::ser_item(self.0, self.1, k)?;
        v.serialize(Sub(self.0))?;
        Ok(())
    }
    fn skip_field(&mut self, k: &'static str) -> Result<(), Fail> {
        opaque::ser_item(self.0, "skip", k)
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(self.0, self.1)
    }
}
impl<'a> ser::SerializeStructVariant for Comp<'a> {
    type Ok = Done;
    type Error = Fail;
    fn serialize_field<T: Serialize + ?Sized>(&mut self, k: &'static str, v: &T) -> Result<(), Fail> {
        opaque::ser_item(self.0, self.1, k)?;
        v.serialize(Sub(self.0))?;
        Ok(())
    }
    fn skip_field(&mut self, k: &'static str) -> Result<(), Fail> {
        opaque::ser_item(self.0, "skip", k)
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(self.0, self.1)
    }
}
impl<'a> ser::SerializeMap for Comp<'a> {
    type Ok = Done;
    type Error = Fail;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(self.0, "key", "")?;
        v.serialize(Sub(self.0))?;
        Ok(())
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), Fail> {
        opaque::ser_item(self.0, "value", "")?;
        v.serialize(Sub(self.0))?;
        Ok(())
    }
    fn end(self) -> Result<Done, Fail> {
        opaque::ser_end(self.0, self.1)
    }
}

/// The elements as the library captures them: integers and floats are widened.
pub trait Elem {
    fn elem<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error>;
}
macro_rules! elem {
    ($($t:ty as $w:ty;)*) => { $(impl Elem for $t {
        fn elem<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { (*self as $w).serialize(s) }
    })* }
}
elem! { u64 as u64; u8 as u64; u16 as u64; u32 as u64; usize as u64; i64 as i64; i8 as i64; i16 as i64; i32 as i64; isize as i64; u128 as u128; i128 as i128; f64 as f64; bool as bool; char as char; &str as &str; }
impl Elem for crate::user::Item {
    fn elem<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        match self {
            crate::user::Item::Num(x) => s.serialize_u128(*x),
            crate::user::Item::Flag(x) => s.serialize_bool(*x),
            crate::user::Item::Nothing => s.serialize_none(),
        }
    }
}
impl Elem for crate::user::Shown {
    fn elem<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(&crate::user::Debug(&self.0))
    }
}
struct ByElem<'a, T>(&'a T);
impl<'a, T: Elem> Serialize for ByElem<'a, T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.elem(s)
    }
}
#[cfg(feature = "std")]
impl Elem for String {
    fn elem<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { (**self).serialize(s) }
}
pub fn list<S: Serializer, T: Elem>(s: S, x: &[T]) -> Result<S::Ok, S::Error> {
    use ser::SerializeSeq as _;
    let mut q = s.serialize_seq(None)?;
    for e in x {
        q.serialize_element(&ByElem(e))?;
    }
    q.end()
}
