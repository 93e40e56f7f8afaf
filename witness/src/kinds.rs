//! Reference behaviour of every captured kind.
use crate::prelude::*;

macro_rules! num {
    ($reads:ident, $n:ident, $t:ty, $bag:expr, $x:ident, $w:ty, $visit:ident, $serialize:ident, $stream:ident, $tok:ident) => {
        kind! { $n($x: $t) [] bag $bag;
            reads $reads |t| user::no_other_reads(t);
            vis |v| v.$visit($x as $w);
            dbg |f| fmt::Debug::fmt(&($x as $w), f);
            dsp |f| fmt::Display::fmt(&($x as $w), f);
            ser |s| s.$serialize($x as $w);
            stm |s| s.$stream($x as $w);
            tok TestToken::$tok($x as $w) }
    };
    ($n:ident, $t:ty, $bag:expr, $x:ident, $w:ty, $($rest:tt)*) => { num! { other_reads, $n, $t, $bag, $x, $w, $($rest)* } };
}
num! { u8_, u8, ValueBag::from(x), x, u64, visit_u64, serialize_u64, u64, U64 }
num! { u16_, u16, ValueBag::from(x), x, u64, visit_u64, serialize_u64, u64, U64 }
num! { u32_, u32, ValueBag::from(x), x, u64, visit_u64, serialize_u64, u64, U64 }
num! { u64_, u64, ValueBag::from(x), x, u64, visit_u64, serialize_u64, u64, U64 }
num! { usize_, usize, ValueBag::from(x), x, u64, visit_u64, serialize_u64, u64, U64 }
num! { i8_, i8, ValueBag::from(x), x, i64, visit_i64, serialize_i64, i64, I64 }
num! { i16_, i16, ValueBag::from(x), x, i64, visit_i64, serialize_i64, i64, I64 }
num! { i32_, i32, ValueBag::from(x), x, i64, visit_i64, serialize_i64, i64, I64 }
num! { i64_, i64, ValueBag::from(x), x, i64, visit_i64, serialize_i64, i64, I64 }
num! { isize_, isize, ValueBag::from(x), x, i64, visit_i64, serialize_i64, i64, I64 }
num! { float_reads, f32_, f32, ValueBag::from(x), x, f64, visit_f64, serialize_f64, f64, F64 }
num! { float_reads, f64_, f64, ValueBag::from(x), x, f64, visit_f64, serialize_f64, f64, F64 }

macro_rules! bignum {
    ($n:ident, $t:ty, $visit:ident, $serialize:ident, $stream:ident, $tok:ident) => {
        kind! { $n(x: &'a $t) [] bag ValueBag::from(x);
            reads other_reads |t| user::no_other_reads(t);
            vis |v| v.$visit(*x);
            dbg |f| fmt::Debug::fmt(x, f);
            dsp |f| fmt::Display::fmt(x, f);
            ser |s| s.$serialize(*x);
            stm |s| s.$stream(*x);
            tok TestToken::$tok(*x) }
    };
}
bignum! { u128_, u128, visit_u128, serialize_u128, u128, U128 }
bignum! { i128_, i128, visit_i128, serialize_i128, i128, I128 }

kind! { bool_(x: bool) [] bag ValueBag::from(x);
    reads reads |t| user::one_read(t, false, Some(x), None, None);
    vis |v| v.visit_bool(x);
    dbg |f| fmt::Debug::fmt(&x, f);
    dsp |f| fmt::Display::fmt(&x, f);
    ser |s| s.serialize_bool(x);
    stm |s| s.bool(x);
    tok TestToken::Bool(x) }
kind! { char_(x: char) [let mut buf = [0u8; 4]; let text: &str = x.encode_utf8(&mut buf);] bag ValueBag::from(x); any ValueBag::from(text);
    reads reads |t| user::one_read(t, false, None, Some(x), None);
    vis |v| v.visit_char(x);
    dbg |f| fmt::Debug::fmt(&x, f);
    dsp |f| fmt::Display::fmt(&x, f);
    ser |s| s.serialize_char(x);
    stm |s| sval::Value::stream(&x, s);
    tok TestToken::Char(x) }
kind! { str_(x: &'a str) [] bag ValueBag::from(x);
    reads reads |t| user::one_read(t, false, None, None, Some(x));
    vis |v| v.visit_borrowed_str(x);
    dbg |f| fmt::Debug::fmt(x, f);
    dsp |f| fmt::Display::fmt(x, f);
    ser |s| s.serialize_str(x);
    stm |s| s.value(x);
    tok TestToken::Str(x.into()) }
kind! { empty() [] bag ValueBag::empty();
    reads reads |t| user::one_read(t, true, None, None, None);
    vis |v| v.visit_empty();
    dbg |f| fmt::Debug::fmt(&format_args!("None"), f);
    dsp |f| fmt::Debug::fmt(&format_args!("None"), f);
    ser |s| s.serialize_none();
    stm |s| s.null();
    tok TestToken::None }

macro_rules! by_trait {
    ($n:ident, $tr:ident, [$($set:tt)*] $bag:expr, $x:ident : $t:ty) => {
        kind! { $n($x: $t) [$($set)*] bag $bag;
            reads reads |t| user::no_reads(t);
            vis |v| user::observe_debug(&mut v.0, &user::$tr(&$x));
            dbg |f| fmt::$tr::fmt(&$x, f);
            dsp |f| fmt::$tr::fmt(&$x, f);
            ser |s| s.collect_str(&user::$tr(&$x));
            stm |s| sval::stream_display(s, user::$tr(&$x));
            tok TestToken::Str(format!("{}", user::$tr(&$x)).into()) }
    };
}
by_trait! { from_debug, Debug, [] ValueBag::from_debug(&x), x: P }
by_trait! { from_dyn_debug, Debug, [] ValueBag::from_dyn_debug(&x), x: P }
by_trait! { capture_debug, Debug, [] ValueBag::capture_debug(&x), x: P }
by_trait! { into_debug, Debug, [] ValueBag::from(&x as &dyn fmt::Debug), x: P }
by_trait! { into_debug_ref, Debug, [let d: &dyn fmt::Debug = &x;] ValueBag::from(&d), x: P }
by_trait! { into_debug_some, Debug, [let d: &dyn fmt::Debug = &x;] ValueBag::from(Some(d)), x: P }
by_trait! { from_display, Display, [] ValueBag::from_display(&x), x: P }
by_trait! { from_dyn_display, Display, [] ValueBag::from_dyn_display(&x), x: P }
by_trait! { capture_display, Display, [] ValueBag::capture_display(&x), x: P }
by_trait! { into_display, Display, [] ValueBag::from(&x as &dyn fmt::Display), x: P }
by_trait! { into_display_ref, Display, [let d: &dyn fmt::Display = &x;] ValueBag::from(&d), x: P }
by_trait! { into_display_some, Display, [let d: &dyn fmt::Display = &x;] ValueBag::from(Some(d)), x: P }

#[cfg(feature = "error")]
macro_rules! error {
    ($n:ident, [$($set:tt)*] $bag:expr, $x:ident : $t:ty) => {
        kind! { $n($x: $t) [$($set)*] bag $bag;
            reads reads |t| user::error_reads(t, &$x);
            vis |v| v.visit_borrowed_error(&$x);
            dbg |f| fmt::Debug::fmt(&$x, f);
            dsp |f| fmt::Display::fmt(&$x, f);
            ser |s| s.collect_str(&$x);
            stm |s| sval::stream_display(s, &$x);
            tok TestToken::Error }
    };
}
#[cfg(feature = "error")]
mod errors {
    use super::*;
    error! { capture_error, [] ValueBag::capture_error(&x), x: PE }
    error! { from_dyn_error, [] ValueBag::from_dyn_error(&x), x: PE }
    error! { into_error_ref, [let e: &(dyn std::error::Error + 'static) = &x;] ValueBag::from(&e), x: PE }
    error! { into_error_some, [let e: &(dyn std::error::Error + 'static) = &x;] ValueBag::from(Some(e)), x: PE }
    error! { into_error, [] ValueBag::from(&x as &(dyn std::error::Error + 'static)), x: PE }
}

#[cfg(feature = "seq")]
macro_rules! seq {
    ($n:ident, [$($set:tt)*] $bag:expr, $x:ident : $t:ty) => {
        kind! { $n($x: $t) [$($set)*] bag $bag;
            reads reads |t| user::no_reads(t);
            vis |v| user::observe_debug(&mut v.0, &user::List(&$x[..]));
            dbg |f| fmt::Debug::fmt(&user::List(&$x[..]), f);
            dsp |f| fmt::Debug::fmt(&user::List(&$x[..]), f);
            ser |s| crate::ser::list(s, &$x[..]);
            stm |s| crate::stm::list(s, &$x[..]);
            tok TestToken::Seq }
    };
}
#[cfg(feature = "seq")]
mod seqs {
    use super::*;
    seq! { arr0, [] ValueBag::from_seq_slice(&x), x: [u64; 0] }
    seq! { arr2, [] ValueBag::from_seq_slice(&x), x: [u64; 2] }
    seq! { slice_u64, [] ValueBag::from_seq_slice(&x), x: &'a [u64] }
    seq! { slice_i32, [] ValueBag::from_seq_slice(&x), x: &'a [i32] }
    seq! { slice_f64, [] ValueBag::from_seq_slice(&x), x: &'a [f64] }
    seq! { slice_bool, [] ValueBag::from_seq_slice(&x), x: &'a [bool] }
    seq! { slice_char, [] ValueBag::from_seq_slice(&x), x: &'a [char] }
    seq! { slice_str, [] ValueBag::from_seq_slice(&x), x: &'a [&'a str] }
    seq! { into_arr, [] ValueBag::from(&x), x: [i64; 2] }
    seq! { into_slice, [] ValueBag::from(&x), x: &'a [i64] }
    seq! { into_strs, [] ValueBag::from(&x), x: &'a [&'a str] }
    #[cfg(feature = "std")]
    seq! { into_vec, [] ValueBag::from(&x), x: Vec<i64> }
}
