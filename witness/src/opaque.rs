//! Functions standing for arbitrary user code. The analysis never looks inside them: a call
//! is an observable event and its result is unknown.
use std::fmt;
use value_bag::Error;

/// Identity of a sink.
pub struct Tok(u64);
/// Result of a serializer.
pub struct Done(u64);
pub use crate::user::Fail;
/// A user type with its own `Debug` and `Display`.
pub struct D(u64);
/// A user type unrelated to `D`.
pub struct Other(u64);

impl fmt::Debug for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
}
impl fmt::Display for D {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
}
/// A user error.
pub struct E(u64);
impl fmt::Debug for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
}
impl fmt::Display for E {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} }
}
impl std::error::Error for E {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> { loop {} }
}

pub fn bit(n: u64) -> bool { loop {} }
pub fn num(n: u64) -> u64 { loop {} }
pub fn text(n: u64) -> &'static str { loop {} }
pub fn fmt_result(n: u64) -> fmt::Result { loop {} }
pub fn user_result(n: u64) -> Result<(), Error> { loop {} }
/// Escaping of text by the sval formatter.
pub fn escaped<'a>(s: &'a str) -> &'a str { loop {} }
pub fn ran(what: u64, x: u64) { loop {} }
pub fn ran_ok(what: u64, x: u64) -> bool { loop {} }
pub fn note(t: &mut Tok, s: &str) { loop {} }
pub fn write(t: &mut Tok, s: &str) -> fmt::Result { loop {} }

// visitors
pub fn any(t: &mut Tok) -> Result<(), Error> { loop {} }
pub fn visit_empty(t: &mut Tok) -> Result<(), Error> { loop {} }
pub fn visit_u64(t: &mut Tok, v: u64) -> Result<(), Error> { loop {} }
pub fn visit_i64(t: &mut Tok, v: i64) -> Result<(), Error> { loop {} }
pub fn visit_u128(t: &mut Tok, v: u128) -> Result<(), Error> { loop {} }
pub fn visit_i128(t: &mut Tok, v: i128) -> Result<(), Error> { loop {} }
pub fn visit_f64(t: &mut Tok, v: f64) -> Result<(), Error> { loop {} }
pub fn visit_bool(t: &mut Tok, v: bool) -> Result<(), Error> { loop {} }
pub fn visit_str(t: &mut Tok, v: &str) -> Result<(), Error> { loop {} }
pub fn visit_borrowed_str(t: &mut Tok, v: &str) -> Result<(), Error> { loop {} }
pub fn visit_char(t: &mut Tok, v: char) -> Result<(), Error> { loop {} }
pub fn visit_error(t: &mut Tok, v: &(dyn std::error::Error + 'static)) -> Result<(), Error> { loop {} }
pub fn visit_borrowed_error(t: &mut Tok, v: &(dyn std::error::Error + 'static)) -> Result<(), Error> { loop {} }
pub fn any_reads(t: &mut Tok, empty: bool, u: Option<u64>, i: Option<i64>, uu: Option<u128>, ii: Option<i128>, f: Option<f64>, b: Option<bool>, c: Option<char>, s: Option<&str>) { loop {} }
pub fn more_reads(t: &mut Tok, f: f64, s: Option<&str>) { loop {} }
pub fn error_read(t: &mut Tok, e: Option<&(dyn std::error::Error + 'static)>) { loop {} }
pub fn flag(t: &mut Tok, b: bool) { loop {} }

// serializers
pub fn ser_bool(t: &Tok, v: bool) -> Result<Done, Fail> { loop {} }
pub fn ser_i8(t: &Tok, v: i8) -> Result<Done, Fail> { loop {} }
pub fn ser_i16(t: &Tok, v: i16) -> Result<Done, Fail> { loop {} }
pub fn ser_i32(t: &Tok, v: i32) -> Result<Done, Fail> { loop {} }
pub fn ser_i64(t: &Tok, v: i64) -> Result<Done, Fail> { loop {} }
pub fn ser_i128(t: &Tok, v: i128) -> Result<Done, Fail> { loop {} }
pub fn ser_u8(t: &Tok, v: u8) -> Result<Done, Fail> { loop {} }
pub fn ser_u16(t: &Tok, v: u16) -> Result<Done, Fail> { loop {} }
pub fn ser_u32(t: &Tok, v: u32) -> Result<Done, Fail> { loop {} }
pub fn ser_u64(t: &Tok, v: u64) -> Result<Done, Fail> { loop {} }
pub fn ser_u128(t: &Tok, v: u128) -> Result<Done, Fail> { loop {} }
pub fn ser_f32(t: &Tok, v: f32) -> Result<Done, Fail> { loop {} }
pub fn ser_f64(t: &Tok, v: f64) -> Result<Done, Fail> { loop {} }
pub fn ser_char(t: &Tok, v: char) -> Result<Done, Fail> { loop {} }
pub fn ser_str(t: &Tok, v: &str) -> Result<Done, Fail> { loop {} }
pub fn ser_bytes(t: &Tok, v: &[u8]) -> Result<Done, Fail> { loop {} }
pub fn ser_none(t: &Tok) -> Result<Done, Fail> { loop {} }
pub fn ser_unit(t: &Tok) -> Result<Done, Fail> { loop {} }
pub fn ser_unit_struct(t: &Tok, n: &str) -> Result<Done, Fail> { loop {} }
pub fn ser_unit_variant(t: &Tok, n: &str, i: u32, v: &str) -> Result<Done, Fail> { loop {} }
pub fn ser_begin(t: &Tok, what: &str, n: &str, i: u32, v: &str, len: Option<usize>) -> Result<(), Fail> { loop {} }
pub fn ser_item(t: &Tok, what: &str, key: &str) -> Result<(), Fail> { loop {} }
pub fn ser_end(t: &Tok, what: &str) -> Result<Done, Fail> { loop {} }

// streams
pub fn st_null(t: &mut Tok) -> bool { loop {} }
pub fn st_bool(t: &mut Tok, v: bool) -> bool { loop {} }
pub fn st_text_begin(t: &mut Tok, n: Option<usize>) -> bool { loop {} }
pub fn st_text_fragment(t: &mut Tok, v: &str) -> bool { loop {} }
pub fn st_text_fragment_computed(t: &mut Tok, v: &str) -> bool { loop {} }
pub fn st_text_end(t: &mut Tok) -> bool { loop {} }
pub fn st_binary_begin(t: &mut Tok, n: Option<usize>) -> bool { loop {} }
pub fn st_binary_fragment(t: &mut Tok, v: &[u8]) -> bool { loop {} }
pub fn st_binary_fragment_computed(t: &mut Tok, v: &[u8]) -> bool { loop {} }
pub fn st_binary_end(t: &mut Tok) -> bool { loop {} }
pub fn st_u8(t: &mut Tok, v: u8) -> bool { loop {} }
pub fn st_u16(t: &mut Tok, v: u16) -> bool { loop {} }
pub fn st_u32(t: &mut Tok, v: u32) -> bool { loop {} }
pub fn st_u64(t: &mut Tok, v: u64) -> bool { loop {} }
pub fn st_u128(t: &mut Tok, v: u128) -> bool { loop {} }
pub fn st_i8(t: &mut Tok, v: i8) -> bool { loop {} }
pub fn st_i16(t: &mut Tok, v: i16) -> bool { loop {} }
pub fn st_i32(t: &mut Tok, v: i32) -> bool { loop {} }
pub fn st_i64(t: &mut Tok, v: i64) -> bool { loop {} }
pub fn st_i128(t: &mut Tok, v: i128) -> bool { loop {} }
pub fn st_f32(t: &mut Tok, v: f32) -> bool { loop {} }
pub fn st_f64(t: &mut Tok, v: f64) -> bool { loop {} }
pub fn st_map_begin(t: &mut Tok, n: Option<usize>) -> bool { loop {} }
pub fn st_map_key_begin(t: &mut Tok) -> bool { loop {} }
pub fn st_map_key_end(t: &mut Tok) -> bool { loop {} }
pub fn st_map_value_begin(t: &mut Tok) -> bool { loop {} }
pub fn st_map_value_end(t: &mut Tok) -> bool { loop {} }
pub fn st_map_end(t: &mut Tok) -> bool { loop {} }
pub fn st_seq_begin(t: &mut Tok, n: Option<usize>) -> bool { loop {} }
pub fn st_seq_value_begin(t: &mut Tok) -> bool { loop {} }
pub fn st_seq_value_end(t: &mut Tok) -> bool { loop {} }
pub fn st_seq_end(t: &mut Tok) -> bool { loop {} }
pub fn st_tagged(t: &mut Tok, what: &str, label: Option<&str>, index: Option<usize>, n: Option<usize>) -> bool { loop {} }
pub fn custom_tok() -> Tok { loop {} }
pub fn got<T>(t: &mut Tok, x: Option<&T>) { loop {} }
