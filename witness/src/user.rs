//! Sinks: visitors, writers, serializers and streams whose every call is an observable event
//! with an unknown result. Nested values are driven into the same sink.
use crate::opaque::{self, Tok};
use std::fmt::{self, Write as _};
use value_bag::{visit::Visit, Error, ValueBag};

/// A writer.
pub struct W<'a>(pub &'a mut Tok);
impl<'a> fmt::Write for W<'a> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        opaque::write(self.0, s)
    }
}

/// Error of a serializer.
pub struct Fail;
impl fmt::Debug for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("fail")
    }
}
impl fmt::Display for Fail {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("fail")
    }
}

/// Every read of a bag.
pub fn reads(t: &mut Tok, v: &ValueBag) {
    opaque::any_reads(t, v.is_empty(), v.to_u64(), v.to_i64(), v.to_u128(), v.to_i128(), v.to_f64(), v.to_bool(), v.to_char(), v.to_borrowed_str());
    #[cfg(feature = "std")]
    opaque::more_reads(t, v.as_f64(), v.to_str().as_deref());
    #[cfg(feature = "error")]
    opaque::error_read(t, v.to_borrowed_error());
}
/// The reads that look at what a bag is filled with.
pub fn fill_reads(t: &mut Tok, v: &ValueBag) {
    opaque::any_reads(t, false, v.to_u64(), v.to_i64(), v.to_u128(), v.to_i128(), v.to_f64(), v.to_bool(), v.to_char(), v.to_borrowed_str());
    #[cfg(feature = "std")]
    opaque::more_reads(t, v.as_f64(), v.to_str().as_deref());
}
/// The reads of a value with no primitive form.
pub fn no_reads(t: &mut Tok) {
    opaque::any_reads(t, false, None, None, None, None, None, None, None, None);
    #[cfg(feature = "std")]
    opaque::more_reads(t, f64::NAN, None);
    #[cfg(feature = "error")]
    opaque::error_read(t, None);
}

/// A visitor overriding every method.
pub struct Vis(pub Tok);
/// Observes a bag given to `visit_any`.
pub fn observe(t: &mut Tok, v: &ValueBag) -> Result<(), Error> {
    reads(t, v);
    let _ = W(t).write_fmt(format_args!("{:?}", v));
    opaque::any(t)
}
/// Observes a value with no primitive form.
pub fn observe_debug(t: &mut Tok, v: &dyn fmt::Debug) -> Result<(), Error> {
    no_reads(t);
    let _ = W(t).write_fmt(format_args!("{:?}", v));
    opaque::any(t)
}
/// The reads that are not of floating point numbers.
pub fn float_reads(t: &mut Tok, v: &ValueBag) {
    opaque::any_reads(t, v.is_empty(), v.to_u64(), v.to_i64(), v.to_u128(), v.to_i128(), None, v.to_bool(), v.to_char(), v.to_borrowed_str());
    #[cfg(feature = "std")]
    opaque::more_reads(t, 0.0, v.to_str().as_deref());
    #[cfg(feature = "error")]
    opaque::error_read(t, v.to_borrowed_error());
}
/// The reads that are not numbers.
pub fn other_reads(t: &mut Tok, v: &ValueBag) {
    opaque::any_reads(t, v.is_empty(), None, None, None, None, None, v.to_bool(), v.to_char(), v.to_borrowed_str());
    #[cfg(feature = "std")]
    opaque::more_reads(t, 0.0, v.to_str().as_deref());
    #[cfg(feature = "error")]
    opaque::error_read(t, v.to_borrowed_error());
}
pub fn no_other_reads(t: &mut Tok) {
    opaque::any_reads(t, false, None, None, None, None, None, None, None, None);
    #[cfg(feature = "std")]
    opaque::more_reads(t, 0.0, None);
    #[cfg(feature = "error")]
    opaque::error_read(t, None);
}
/// The reads of one primitive.
pub fn one_read(t: &mut Tok, empty: bool, b: Option<bool>, c: Option<char>, s: Option<&str>) {
    opaque::any_reads(t, empty, None, None, None, None, None, b, c, s);
    #[cfg(feature = "std")]
    opaque::more_reads(t, f64::NAN, s);
    #[cfg(feature = "error")]
    opaque::error_read(t, None);
}

impl<'v> Visit<'v> for Vis {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        observe(&mut self.0, &v)
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        opaque::visit_empty(&mut self.0)
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        opaque::visit_u64(&mut self.0, v)
    }
    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        opaque::visit_i64(&mut self.0, v)
    }
    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        opaque::visit_u128(&mut self.0, v)
    }
    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        opaque::visit_i128(&mut self.0, v)
    }
    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        opaque::visit_f64(&mut self.0, v)
    }
    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        opaque::visit_bool(&mut self.0, v)
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        opaque::visit_str(&mut self.0, v)
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        opaque::visit_borrowed_str(&mut self.0, v)
    }
    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        opaque::visit_char(&mut self.0, v)
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, v: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        opaque::visit_error(&mut self.0, v)
    }
    #[cfg(feature = "error")]
    fn visit_borrowed_error(&mut self, v: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
        opaque::visit_borrowed_error(&mut self.0, v)
    }
}

/// A visitor with only the required method.
pub struct AnyVis(pub Tok);
impl<'v> Visit<'v> for AnyVis {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        observe(&mut self.0, &v)
    }
}

/// A value formatted by one trait only.
macro_rules! by {
    ($($n:ident),*) => { $(pub struct $n<'a, T: ?Sized>(pub &'a T);
    impl<'a, T: fmt::$n + ?Sized> fmt::Debug for $n<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::$n::fmt(self.0, f)
        }
    }
    impl<'a, T: fmt::$n + ?Sized> fmt::Display for $n<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            fmt::$n::fmt(self.0, f)
        }
    })* }
}
by! { Debug, Display }

/// A user type writing two pieces of text, in an order that tells the traits apart, and then
/// succeeding or failing.
pub struct P {
    pub a: &'static str,
    pub b: &'static str,
    pub ok: bool,
}
impl fmt::Debug for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.a)?;
        f.write_str(self.b)?;
        if self.ok { Ok(()) } else { Err(fmt::Error) }
    }
}
impl fmt::Display for P {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.b)?;
        f.write_str(self.a)?;
        if self.ok { Ok(()) } else { Err(fmt::Error) }
    }
}

/// The reads of an error.
#[cfg(feature = "error")]
pub fn error_reads(t: &mut Tok, e: &(dyn std::error::Error + 'static)) {
    opaque::any_reads(t, false, None, None, None, None, None, None, None, None);
    opaque::more_reads(t, f64::NAN, None);
    opaque::error_read(t, Some(e));
}

/// A user error like `P`.
pub struct PE {
    pub p: P,
    pub source: Option<P>,
}
impl fmt::Debug for PE {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.p, f)
    }
}
impl fmt::Display for PE {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(&self.p, f)
    }
}
impl std::error::Error for P {}
impl std::error::Error for PE {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        match &self.source {
            Some(s) => Some(s),
            None => None,
        }
    }
}

/// A slice formatted as a list.
pub struct List<'a, T>(pub &'a [T]);
impl<'a, T: fmt::Debug> fmt::Debug for List<'a, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let mut l = f.debug_list();
        for x in self.0 {
            l.entry(x);
        }
        l.finish()
    }
}

/// The reads that do not depend on whether text is borrowed.
pub fn owned_reads(t: &mut Tok, v: &ValueBag) {
    opaque::any_reads(t, v.is_empty(), v.to_u64(), v.to_i64(), v.to_u128(), v.to_i128(), v.to_f64(), v.to_bool(), v.to_char(), None);
    #[cfg(feature = "std")]
    opaque::more_reads(t, v.as_f64(), v.to_str().as_deref());
    #[cfg(feature = "error")]
    opaque::error_read(t, v.to_borrowed_error());
}

/// A visitor whose methods succeed.
pub struct OkVis(pub Tok);
fn ok(_: Result<(), Error>) -> Result<(), Error> {
    Ok(())
}
impl<'v> Visit<'v> for OkVis {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        ok(observe(&mut self.0, &v))
    }
    fn visit_empty(&mut self) -> Result<(), Error> {
        ok(opaque::visit_empty(&mut self.0))
    }
    fn visit_u64(&mut self, v: u64) -> Result<(), Error> {
        ok(opaque::visit_u64(&mut self.0, v))
    }
    fn visit_i64(&mut self, v: i64) -> Result<(), Error> {
        ok(opaque::visit_i64(&mut self.0, v))
    }
    fn visit_u128(&mut self, v: u128) -> Result<(), Error> {
        ok(opaque::visit_u128(&mut self.0, v))
    }
    fn visit_i128(&mut self, v: i128) -> Result<(), Error> {
        ok(opaque::visit_i128(&mut self.0, v))
    }
    fn visit_f64(&mut self, v: f64) -> Result<(), Error> {
        ok(opaque::visit_f64(&mut self.0, v))
    }
    fn visit_bool(&mut self, v: bool) -> Result<(), Error> {
        ok(opaque::visit_bool(&mut self.0, v))
    }
    fn visit_str(&mut self, v: &str) -> Result<(), Error> {
        ok(opaque::visit_str(&mut self.0, v))
    }
    fn visit_borrowed_str(&mut self, v: &'v str) -> Result<(), Error> {
        ok(opaque::visit_borrowed_str(&mut self.0, v))
    }
    fn visit_char(&mut self, v: char) -> Result<(), Error> {
        ok(opaque::visit_char(&mut self.0, v))
    }
}

/// A lent error.
#[cfg(feature = "error")]
pub struct Lent(pub &'static PE);

/// Fill functions.
macro_rules! fill {
    ($($(#[$m:meta])* $n:ident<$t:ty> |$x:ident, $s:ident| $e:expr;)*) => { $(
        $(#[$m])*
        pub struct $n(pub $t);
        $(#[$m])*
        impl value_bag::fill::Fill for $n {
            fn fill(&self, $s: value_bag::fill::Slot) -> Result<(), Error> {
                let $x = &self.0;
                $e
            }
        }
    )* }
}
fill! {
    FillAny<u64> |x, s| s.fill_any(*x);
    FillDebug<P> |x, s| s.fill_debug(x);
    FillDisplay<P> |x, s| s.fill_display(x);
    FillNothing<bool> |x, s| if *x { Ok(()) } else { Err(Error::msg("unfilled")) };
    #[cfg(feature = "error")]
    FillError<PE> |x, s| s.fill_dyn_error(x);
    #[cfg(feature = "seq")]
    FillSeq<&'static [u64; 2]> |x, s| s.fill_seq_slice(*x);
    #[cfg(feature = "serde1")]
    FillSerde<crate::vals::serde::Struct> |x, s| s.fill_serde1(x);
    #[cfg(feature = "sval2")]
    FillSval<crate::vals::sval::Record> |x, s| s.fill_sval2(x);
}

/// The text written by formatting arguments.
pub fn text(a: fmt::Arguments<'_>) -> String {
    let mut s = String::new();
    let _ = s.write_fmt(a);
    s
}

/// A type formatted by writing pieces of text.
pub struct Pieces(pub &'static [&'static str]);
impl fmt::Debug for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for x in self.0 {
            f.write_str(x)?;
        }
        Ok(())
    }
}
impl fmt::Display for Pieces {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for x in self.0 {
            f.write_str(x)?;
        }
        Ok(())
    }
}
/// A type formatted by writing three pieces of text.
pub struct P3(pub &'static str, pub &'static str, pub &'static str);
impl fmt::Debug for P3 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)?;
        f.write_str(self.1)?;
        f.write_str(self.2)
    }
}
impl fmt::Display for P3 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.2)?;
        f.write_str(self.1)?;
        f.write_str(self.0)
    }
}
/// A text.
pub struct Text(pub String);
impl fmt::Debug for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&*self.0)
    }
}
impl fmt::Display for Text {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&*self.0)
    }
}

/// An error with a message and a cause.
pub struct Cause<T>(pub &'static str, pub &'static str, pub T);
impl<T> fmt::Debug for Cause<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.1)
    }
}
impl<T> fmt::Display for Cause<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.0)?;
        f.write_str(self.1)
    }
}
impl std::error::Error for Cause<()> {}
impl<T: std::error::Error + 'static> std::error::Error for Cause<Option<T>> {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        match &self.2 {
            Some(s) => Some(s),
            None => None,
        }
    }
}
/// Observes an error and its causes.
#[cfg(feature = "error")]
pub fn causes(t: &mut Tok, e: &(dyn std::error::Error + 'static)) {
    opaque::note(t, &*text(format_args!("{}", e)));
    match e.source() {
        Some(e) => causes(t, e),
        None => opaque::note(t, "end"),
    }
}
/// A visitor observing errors and their causes.
pub struct ErrVis(pub Tok);
impl<'v> Visit<'v> for ErrVis {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        opaque::note(&mut self.0, "not an error");
        Ok(())
    }
    #[cfg(feature = "error")]
    fn visit_error(&mut self, v: &(dyn std::error::Error + 'static)) -> Result<(), Error> {
        causes(&mut self.0, v);
        Ok(())
    }
    #[cfg(feature = "error")]
    fn visit_borrowed_error(&mut self, v: &'v (dyn std::error::Error + 'static)) -> Result<(), Error> {
        causes(&mut self.0, v);
        Ok(())
    }
}

/// A value whose every implementation is an observable event.
#[derive(Clone)]
pub struct Loud(pub u64);
impl fmt::Debug for Loud {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        opaque::ran(0, self.0);
        f.write_str("loud")
    }
}
impl fmt::Display for Loud {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        opaque::ran(1, self.0);
        f.write_str("Loud")
    }
}
impl std::error::Error for Loud {}
impl value_bag::fill::Fill for Loud {
    fn fill(&self, s: value_bag::fill::Slot) -> Result<(), Error> {
        opaque::ran(5, self.0);
        s.fill_any(self.0)
    }
}
#[cfg(feature = "serde1")]
impl value_bag_serde1::lib::Serialize for Loud {
    fn serialize<S: value_bag_serde1::lib::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        opaque::ran(3, self.0);
        s.serialize_u64(self.0)
    }
}
#[cfg(feature = "sval2")]
impl value_bag_sval2::lib::Value for Loud {
    fn stream<'sval, S: value_bag_sval2::lib::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> value_bag_sval2::lib::Result {
        opaque::ran(4, self.0);
        s.u64(self.0)
    }
}
/// A value that may fail, and whose every run is an observable event.
pub struct Shaky(pub u64);
impl value_bag::fill::Fill for Shaky {
    fn fill(&self, s: value_bag::fill::Slot) -> Result<(), Error> {
        if opaque::ran_ok(5, self.0) { s.fill_any(self.0) } else { Err(Error::msg("shaky")) }
    }
}
#[cfg(feature = "serde1")]
impl value_bag_serde1::lib::Serialize for Shaky {
    fn serialize<S: value_bag_serde1::lib::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if opaque::ran_ok(3, self.0) { s.serialize_u64(self.0) } else { Err(value_bag_serde1::lib::ser::Error::custom("shaky")) }
    }
}
#[cfg(feature = "sval2")]
impl value_bag_sval2::lib::Value for Shaky {
    fn stream<'sval, S: value_bag_sval2::lib::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> value_bag_sval2::lib::Result {
        if opaque::ran_ok(4, self.0) { s.u64(self.0) } else { value_bag_sval2::lib::error() }
    }
}
/// A collection whose view as a slice is an observable event.
pub struct LoudSlice(pub [u64; 2]);
impl AsRef<[u64]> for LoudSlice {
    fn as_ref(&self) -> &[u64] {
        opaque::ran(6, 0);
        &self.0
    }
}
/// A visitor that consumes what it is given once.
pub struct OnceVis(pub Tok);
impl OnceVis {
    pub fn fmt(&mut self, v: &dyn fmt::Display) -> Result<(), Error> {
        let _ = W(&mut self.0).write_fmt(format_args!("{}", v));
        opaque::any(&mut self.0)
    }
}
impl<'v> Visit<'v> for OnceVis {
    fn visit_any(&mut self, v: ValueBag) -> Result<(), Error> {
        self.fmt(&v)
    }
}
/// Whether two bags hold the very same value.
pub fn same_ref<T: 'static>(a: &ValueBag, b: &ValueBag) -> bool {
    match (a.downcast_ref::<T>(), b.downcast_ref::<T>()) {
        (Some(a), Some(b)) => std::ptr::eq(a, b),
        _ => false,
    }
}
/// A visitor that accepts anything.
pub struct Silent;
impl<'v> Visit<'v> for Silent {
    fn visit_any(&mut self, _: ValueBag) -> Result<(), Error> {
        Ok(())
    }
}

/// A serializer that fails with a message.
#[cfg(feature = "serde1")]
pub struct Says(pub String);
#[cfg(feature = "serde1")]
pub struct SaySer(pub &'static str);
#[cfg(feature = "serde1")]
pub mod says {
    use crate::opaque::Done;
    use super::*;
    use value_bag_serde1::lib::ser::{self, Impossible, Serialize, Serializer};
    impl fmt::Debug for Says {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl fmt::Display for Says {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            f.write_str(&self.0)
        }
    }
    impl ser::StdError for Says {}
    impl ser::Error for Says {
        fn custom<T: fmt::Display>(msg: T) -> Self {
            Says(text(format_args!("{}", msg)))
        }
    }
    macro_rules! plain { ($($n:ident($($t:ty),*);)*) => { $( fn $n(self, $(_: $t),*) -> Result<Done, Says> { Err(Says(text(format_args!("{}", self.0)))) } )* } }
    macro_rules! compound { ($($n:ident($($t:ty),*) -> $r:ident;)*) => { $( fn $n(self, $(_: $t),*) -> Result<Self::$r, Says> { Err(Says(text(format_args!("{}", self.0)))) } )* } }
    impl Serializer for SaySer {
        type Ok = Done;
        type Error = Says;
        type SerializeSeq = Impossible<Done, Says>;
        type SerializeTuple = Impossible<Done, Says>;
        type SerializeTupleStruct = Impossible<Done, Says>;
        type SerializeTupleVariant = Impossible<Done, Says>;
        type SerializeMap = Impossible<Done, Says>;
        type SerializeStruct = Impossible<Done, Says>;
        type SerializeStructVariant = Impossible<Done, Says>;
        plain! {
            serialize_bool(bool); serialize_i8(i8); serialize_i16(i16); serialize_i32(i32); serialize_i64(i64); serialize_i128(i128);
            serialize_u8(u8); serialize_u16(u16); serialize_u32(u32); serialize_u64(u64); serialize_u128(u128); serialize_f32(f32); serialize_f64(f64);
            serialize_char(char); serialize_str(&str); serialize_bytes(&[u8]); serialize_none(); serialize_unit(); serialize_unit_struct(&'static str);
            serialize_unit_variant(&'static str, u32, &'static str);
        }
        compound! {
            serialize_seq(Option<usize>) -> SerializeSeq; serialize_tuple(usize) -> SerializeTuple; serialize_tuple_struct(&'static str, usize) -> SerializeTupleStruct;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> SerializeTupleVariant; serialize_map(Option<usize>) -> SerializeMap;
            serialize_struct(&'static str, usize) -> SerializeStruct; serialize_struct_variant(&'static str, u32, &'static str, usize) -> SerializeStructVariant;
        }
        fn serialize_some<T: Serialize + ?Sized>(self, _: &T) -> Result<Done, Says> {
            self.serialize_none()
        }
        fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, _: &T) -> Result<Done, Says> {
            self.serialize_none()
        }
        fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Done, Says> {
            self.serialize_none()
        }
        fn collect_str<T: fmt::Display + ?Sized>(self, _: &T) -> Result<Done, Says> {
            self.serialize_none()
        }
    }
}

#[cfg(feature = "error")]
impl fmt::Debug for Lent {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.0, f)
    }
}
#[cfg(feature = "error")]
impl fmt::Display for Lent {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Display::fmt(self.0, f)
    }
}
#[cfg(feature = "error")]
impl std::error::Error for Lent {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.0.source()
    }
}

/// An element of a kind known only when it is consumed.
#[derive(Clone, Copy)]
pub enum Item {
    Num(u128),
    Flag(bool),
    Nothing,
}
impl<'a> From<&'a Item> for ValueBag<'a> {
    fn from(x: &'a Item) -> Self {
        match x {
            Item::Num(x) => ValueBag::from(x),
            Item::Flag(x) => ValueBag::from(*x),
            Item::Nothing => ValueBag::empty(),
        }
    }
}
impl fmt::Debug for Item {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Item::Num(x) => fmt::Debug::fmt(x, f),
            Item::Flag(x) => fmt::Debug::fmt(x, f),
            Item::Nothing => fmt::Debug::fmt(&format_args!("None"), f),
        }
    }
}
/// An element that may fail to be formatted.
pub struct Shown(pub P);
impl<'a> From<&'a Shown> for ValueBag<'a> {
    fn from(x: &'a Shown) -> Self {
        ValueBag::from_debug(&x.0)
    }
}
impl fmt::Debug for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
