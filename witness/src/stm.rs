//! An sval stream whose every call is an observable event.
use crate::opaque::{self, Tok};
use value_bag_sval2::lib::{self as sval, Index, Label, Stream, Tag};

pub struct Stm(pub Tok);

fn r(ok: bool) -> sval::Result {
    if ok {
        Ok(())
    } else {
        sval::error()
    }
}
fn label<'a>(l: Option<&'a Label>) -> Option<&'a str> {
    match l {
        Some(l) => Some(l.as_str()),
        None => None,
    }
}
fn index(i: Option<&Index>) -> Option<usize> {
    match i {
        Some(i) => i.to_usize(),
        None => None,
    }
}

impl<'sval> Stream<'sval> for Stm {
    fn null(&mut self) -> sval::Result {
        r(opaque::st_null(&mut self.0))
    }
    fn bool(&mut self, v: bool) -> sval::Result {
        r(opaque::st_bool(&mut self.0, v))
    }
    fn text_begin(&mut self, n: Option<usize>) -> sval::Result {
        r(opaque::st_text_begin(&mut self.0, n))
    }
    fn text_fragment(&mut self, v: &'sval str) -> sval::Result {
        r(opaque::st_text_fragment(&mut self.0, v))
    }
    fn text_fragment_computed(&mut self, v: &str) -> sval::Result {
        r(opaque::st_text_fragment_computed(&mut self.0, v))
    }
    fn text_end(&mut self) -> sval::Result {
        r(opaque::st_text_end(&mut self.0))
    }
    fn binary_begin(&mut self, n: Option<usize>) -> sval::Result {
        r(opaque::st_binary_begin(&mut self.0, n))
    }
    fn binary_fragment(&mut self, v: &'sval [u8]) -> sval::Result {
        r(opaque::st_binary_fragment(&mut self.0, v))
    }
    fn binary_fragment_computed(&mut self, v: &[u8]) -> sval::Result {
        r(opaque::st_binary_fragment_computed(&mut self.0, v))
    }
    fn binary_end(&mut self) -> sval::Result {
        r(opaque::st_binary_end(&mut self.0))
    }
    fn u8(&mut self, v: u8) -> sval::Result {
        r(opaque::st_u8(&mut self.0, v))
    }
    fn u16(&mut self, v: u16) -> sval::Result {
        r(opaque::st_u16(&mut self.0, v))
    }
    fn u32(&mut self, v: u32) -> sval::Result {
        r(opaque::st_u32(&mut self.0, v))
    }
    fn u64(&mut self, v: u64) -> sval::Result {
        r(opaque::st_u64(&mut self.0, v))
    }
    fn u128(&mut self, v: u128) -> sval::Result {
        r(opaque::st_u128(&mut self.0, v))
    }
    fn i8(&mut self, v: i8) -> sval::Result {
        r(opaque::st_i8(&mut self.0, v))
    }
    fn i16(&mut self, v: i16) -> sval::Result {
        r(opaque::st_i16(&mut self.0, v))
    }
    fn i32(&mut self, v: i32) -> sval::Result {
        r(opaque::st_i32(&mut self.0, v))
    }
    fn i64(&mut self, v: i64) -> sval::Result {
        r(opaque::st_i64(&mut self.0, v))
    }
    fn i128(&mut self, v: i128) -> sval::Result {
        r(opaque::st_i128(&mut self.0, v))
    }
    fn f32(&mut self, v: f32) -> sval::Result {
        r(opaque::st_f32(&mut self.0, v))
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        r(opaque::st_f64(&mut self.0, v))
    }
    fn map_begin(&mut self, n: Option<usize>) -> sval::Result {
        r(opaque::st_map_begin(&mut self.0, n))
    }
    fn map_key_begin(&mut self) -> sval::Result {
        r(opaque::st_map_key_begin(&mut self.0))
    }
    fn map_key_end(&mut self) -> sval::Result {
        r(opaque::st_map_key_end(&mut self.0))
    }
    fn map_value_begin(&mut self) -> sval::Result {
        r(opaque::st_map_value_begin(&mut self.0))
    }
    fn map_value_end(&mut self) -> sval::Result {
        r(opaque::st_map_value_end(&mut self.0))
    }
    fn map_end(&mut self) -> sval::Result {
        r(opaque::st_map_end(&mut self.0))
    }
    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result {
        r(opaque::st_seq_begin(&mut self.0, n))
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        r(opaque::st_seq_value_begin(&mut self.0))
    }
    fn seq_value_end(&mut self) -> sval::Result {
        r(opaque::st_seq_value_end(&mut self.0))
    }
    fn seq_end(&mut self) -> sval::Result {
        r(opaque::st_seq_end(&mut self.0))
    }
    fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "enum_begin", label(l), index(i), None))
    }
    fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "enum_end", label(l), index(i), None))
    }
    fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "tagged_begin", label(l), index(i), None))
    }
    fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "tagged_end", label(l), index(i), None))
    }
    fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "tag", label(l), index(i), None))
    }
    fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "record_end", label(l), index(i), None))
    }
    fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "tuple_end", label(l), index(i), None))
    }
    fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "record_tuple_end", label(l), index(i), None))
    }
    fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "record_begin", label(l), index(i), n))
    }
    fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "tuple_begin", label(l), index(i), n))
    }
    fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "record_tuple_begin", label(l), index(i), n))
    }
    fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "record_value_begin", Some(l.as_str()), None, None))
    }
    fn record_value_end(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "record_value_end", Some(l.as_str()), None, None))
    }
    fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "tuple_value_begin", None, i.to_usize(), None))
    }
    fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "tuple_value_end", None, i.to_usize(), None))
    }
    fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "record_tuple_value_begin", Some(l.as_str()), i.to_usize(), None))
    }
    fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "record_tuple_value_end", Some(l.as_str()), i.to_usize(), None))
    }
    fn tag_hint(&mut self, t: &Tag) -> sval::Result {
        r(opaque::st_tagged(&mut self.0, "tag_hint", None, None, None))
    }
}

/// The elements as the library captures them: integers are widened.
pub trait Elem {
    fn elem(&self, s: &mut Stm) -> sval::Result;
}
macro_rules! elem {
    ($($t:ty as $w:ty;)*) => { $(impl Elem for $t {
        fn elem(&self, s: &mut Stm) -> sval::Result { s.value_computed(&(*self as $w)) }
    })* }
}
elem! { u64 as u64; u8 as u64; u16 as u64; u32 as u64; usize as u64; i64 as i64; i8 as i64; i16 as i64; i32 as i64; isize as i64; u128 as u128; i128 as i128; f64 as f64; bool as bool; char as char; }
impl<'a> Elem for &'a str {
    fn elem(&self, s: &mut Stm) -> sval::Result { s.text_begin(Some(self.len()))?; s.text_fragment(self)?; s.text_end() }
}
#[cfg(feature = "std")]
impl Elem for String {
    fn elem(&self, s: &mut Stm) -> sval::Result { (&**self).elem(s) }
}
impl Elem for crate::user::Item {
    fn elem<'a>(&'a self, s: &mut Stm) -> sval::Result {
        match self {
            crate::user::Item::Num(x) => s.u128(*x),
            crate::user::Item::Flag(x) => s.bool(*x),
            crate::user::Item::Nothing => s.null(),
        }
    }
}
impl Elem for crate::user::Shown {
    fn elem<'a>(&'a self, s: &mut Stm) -> sval::Result {
        sval::stream_display(s, crate::user::Debug(&self.0))
    }
}
pub fn list<T: Elem>(s: &mut Stm, x: &[T]) -> sval::Result {
    s.seq_begin(None)?;
    for e in x {
        s.seq_value_begin()?;
        e.elem(s)?;
        s.seq_value_end()?;
    }
    s.seq_end()
}
