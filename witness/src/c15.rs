//! Extracting sequences.
#![cfg(all(feature = "seq", feature = "std"))]
use crate::prelude::*;
use std::borrow::Cow;

/// Every extraction gives what the scalar accessor gives for each element.
macro_rules! extract {
    ($($(#[$m:meta])* $n:ident ( $x:ident : $t:ty ) [$($set:tt)*] $bag:expr, $seq:expr, |$e:ident| $elem:expr;)*) => {
        extract_prims! { $($(#[$m])* $n($x: $t) [$($set)*] $bag, $seq, |$e| $elem;)* }
        pub mod text { use super::*; $($(#[$m])* pub mod $n { use super::*; pub mod C15 { use super::*; ob! {
            to_str($x: $t) -> Option<Vec<Option<Cow<'a, str>>>> { $($set)* $bag.to_str_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_str()); } Some(v) }
            to_borrowed_str($x: $t) -> Option<Vec<Option<&'a str>>> { $($set)* $bag.to_borrowed_str_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_borrowed_str()); } Some(v) }
        } } })* }
    };
}
/// Every extraction but text.
macro_rules! extract_prims {
    ($($(#[$m:meta])* $n:ident ( $x:ident : $t:ty ) [$($set:tt)*] $bag:expr, $seq:expr, |$e:ident| $elem:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C15 { use super::*; ob! {
            to_u64($x: $t) -> Option<Vec<Option<u64>>> { $($set)* $bag.to_u64_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_u64()); } Some(v) }
            to_i64($x: $t) -> Option<Vec<Option<i64>>> { $($set)* $bag.to_i64_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_i64()); } Some(v) }
            to_u128($x: $t) -> Option<Vec<Option<u128>>> { $($set)* $bag.to_u128_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_u128()); } Some(v) }
            to_i128($x: $t) -> Option<Vec<Option<i128>>> { $($set)* $bag.to_i128_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_i128()); } Some(v) }
            to_f64($x: $t) -> Option<Vec<Option<f64>>> { $($set)* $bag.to_f64_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_f64()); } Some(v) }
            as_f64($x: $t) -> Vec<f64> { $($set)* $bag.as_f64_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.as_f64()); } v }
            to_bool($x: $t) -> Option<Vec<Option<bool>>> { $($set)* $bag.to_bool_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_bool()); } Some(v) }
            to_char($x: $t) -> Option<Vec<Option<char>>> { $($set)* $bag.to_char_seq() } spec { $($set)* let mut v = Vec::new(); for $e in $seq { v.push($elem.to_char()); } Some(v) }
        } } }
    )* };
}
pub mod arrays { use super::*; extract! {
    u64_(x: &'a [u64; 2]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    i64_(x: &'a [i64; 2]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    u128_(x: &'a [u128; 1]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    f64_(x: &'a [f64; 2]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    bool_(x: &'a [bool; 3]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    char_(x: &'a [char; 2]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    str_(x: &'a [&'a str; 2]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(*e);
    empty(x: &'a [u64; 0]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    by_ref(x: &'a [u64; 2]) [] ValueBag::from(x).clone(), x.iter(), |e| ValueBag::from(e);
} }
pub mod slices { use super::*; extract! {
    u64_(x: &'a &'a [u64]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    i64_(x: &'a &'a [i64]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    bool_(x: &'a &'a [bool]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    char_(x: &'a &'a [char]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    str_(x: &'a &'a [&'a str]) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(*e);
} }
pub mod more { use super::*; extract! {
    u8s(x: &'a [u8; 2]) [] ValueBag::from_seq_slice(x), x.iter(), |e| ValueBag::from(e);
    vec(x: &'a Vec<u64>) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    strings(x: &'a Vec<String>) [] ValueBag::from(x), x.iter(), |e| ValueBag::from(e);
    items(x: &'a [user::Item; 2]) [] ValueBag::from_seq_slice(x), x.iter(), |e| ValueBag::from(e);
    shown(x: &'a [user::Shown; 2]) [] ValueBag::from_seq_slice(x), x.iter(), |e| ValueBag::from(e);
    option(x: &'a [i64; 2]) [] ValueBag::from(Some(x)), x.iter(), |e| ValueBag::from(e);
} }
pub mod filled { use super::*; extract_prims! {
    slice(x: &'static [u64; 2]) [let f = |s: value_bag::fill::Slot| s.fill_seq_slice(x);] ValueBag::from_fill(&f), x.iter(), |e| ValueBag::from(e);
    items(x: &'static [user::Item; 2]) [let f = |s: value_bag::fill::Slot| s.fill_seq_slice(x);] ValueBag::from_fill(&f), x.iter(), |e| ValueBag::from(e);
    any(x: &'static [bool; 2]) [let f = |s: value_bag::fill::Slot| s.fill_any(x);] ValueBag::from_fill(&f), x.iter(), |e| ValueBag::from(e);
} }
#[cfg(feature = "owned")]
pub mod owned { use super::*; extract_prims! {
    u64_(x: [u64; 2]) [let o = ValueBag::from(&x).to_owned();] o.by_ref(), x.iter(), |e| ValueBag::from(e);
    i64_(x: [i64; 2]) [let o = ValueBag::from(&x).to_shared();] o.by_ref(), x.iter(), |e| ValueBag::from(e);
    f64_(x: [f64; 2]) [let o = ValueBag::from(&x).to_owned().clone();] o.by_ref(), x.iter(), |e| ValueBag::from(e);
    bool_(x: [bool; 3]) [let o = ValueBag::from(&x).to_owned().into_shared();] o.by_ref(), x.iter(), |e| ValueBag::from(e);
    items(x: [user::Item; 2]) [let o = ValueBag::from_seq_slice(&x).to_owned();] o.by_ref(), x.iter(), |e| ValueBag::from(e);
    shared_items(x: [user::Item; 2]) [let o = ValueBag::capture_shared_seq_slice(x);] o.by_ref(), x.iter(), |e| ValueBag::from(e);
    shared(x: [u64; 2]) [let o = ValueBag::capture_shared_seq_slice(x);] o.by_ref(), x.iter(), |e| ValueBag::from(e);
    shared_owned(x: [char; 2]) [let o = ValueBag::capture_shared_seq_slice(x).to_owned().clone();] o.by_ref(), x.iter(), |e| ValueBag::from(e);
    slice(x: &'a [u128]) [let o = ValueBag::from_seq_slice(&x).to_owned();] o.by_ref(), x.iter(), |e| ValueBag::from(e);
} }
/// Like `extract`, with the elements written out.
#[cfg(any(feature = "serde1", feature = "sval2"))]
macro_rules! entries {
    ($($n:ident ( $x:ident : $t:ty ) [$($set:tt)*] $bag:expr, [$($elem:expr),*];)*) => { $(
        pub mod $n { use super::*; pub mod C15 { use super::*; ob! {
            to_u64($x: &'a $t) -> Option<Vec<Option<u64>>> { $($set)* $bag.to_u64_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_u64());)* Some(v) }
            to_i64($x: &'a $t) -> Option<Vec<Option<i64>>> { $($set)* $bag.to_i64_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_i64());)* Some(v) }
            to_u128($x: &'a $t) -> Option<Vec<Option<u128>>> { $($set)* $bag.to_u128_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_u128());)* Some(v) }
            to_i128($x: &'a $t) -> Option<Vec<Option<i128>>> { $($set)* $bag.to_i128_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_i128());)* Some(v) }
            to_f64($x: &'a $t) -> Option<Vec<Option<f64>>> { $($set)* $bag.to_f64_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_f64());)* Some(v) }
            as_f64($x: &'a $t) -> Vec<f64> { $($set)* $bag.as_f64_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.as_f64());)* v }
            to_bool($x: &'a $t) -> Option<Vec<Option<bool>>> { $($set)* $bag.to_bool_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_bool());)* Some(v) }
            to_char($x: &'a $t) -> Option<Vec<Option<char>>> { $($set)* $bag.to_char_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_char());)* Some(v) }
            to_str($x: &'a $t) -> Option<Vec<Option<Cow<'a, str>>>> { $($set)* $bag.to_str_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_str());)* Some(v) }
            to_borrowed_str($x: &'a $t) -> Option<Vec<Option<&'a str>>> { $($set)* $bag.to_borrowed_str_seq() } spec { $($set)* let mut v = Vec::new(); $(v.push($elem.to_borrowed_str());)* Some(v) }
        } } }
    )* };
}
/// Like `entries`, where the elements are not borrowed from the value.
#[cfg(any(feature = "serde1", feature = "sval2"))]
macro_rules! unborrowed {
    ($($n:ident ( $x:ident : $t:ty ) [$($set:tt)*] $bag:expr, [$($elem:expr),*];)*) => { $(
        pub mod $n { use super::*; pub mod C15 { use super::*; ob! {
            to_u64($x: &'a $t) -> Option<Vec<Option<u64>>> { $($set)* $bag.to_u64_seq() } spec { let mut v = Vec::new(); $(v.push($elem.to_u64());)* Some(v) }
            to_i64($x: &'a $t) -> Option<Vec<Option<i64>>> { $($set)* $bag.to_i64_seq() } spec { let mut v = Vec::new(); $(v.push($elem.to_i64());)* Some(v) }
            to_u128($x: &'a $t) -> Option<Vec<Option<u128>>> { $($set)* $bag.to_u128_seq() } spec { let mut v = Vec::new(); $(v.push($elem.to_u128());)* Some(v) }
            to_i128($x: &'a $t) -> Option<Vec<Option<i128>>> { $($set)* $bag.to_i128_seq() } spec { let mut v = Vec::new(); $(v.push($elem.to_i128());)* Some(v) }
            to_f64($x: &'a $t) -> Option<Vec<Option<f64>>> { $($set)* $bag.to_f64_seq() } spec { let mut v = Vec::new(); $(v.push($elem.to_f64());)* Some(v) }
            as_f64($x: &'a $t) -> Vec<f64> { $($set)* $bag.as_f64_seq() } spec { let mut v = Vec::new(); $(v.push($elem.as_f64());)* v }
            to_bool($x: &'a $t) -> Option<Vec<Option<bool>>> { $($set)* $bag.to_bool_seq() } spec { let mut v = Vec::new(); $(v.push($elem.to_bool());)* Some(v) }
            to_char($x: &'a $t) -> Option<Vec<Option<char>>> { $($set)* $bag.to_char_seq() } spec { let mut v = Vec::new(); $(v.push($elem.to_char());)* Some(v) }
            to_borrowed_str($x: &'a $t) -> Option<Vec<bool>> { $($set)* $bag.to_borrowed_str_seq::<Vec<Option<&str>>>().map(|v| { let mut r = Vec::new(); for e in v { r.push(e.is_some()); } r }) } spec { let mut v = Vec::new(); $(let _ = &$elem; v.push(false);)* Some(v) }
        } } }
    )* };
}
/// No extraction gives a sequence.
macro_rules! nothing {
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr) => {
        pub mod $n { use super::*; pub mod C15 { use super::*; ob! {
            to_u64($($a: $t),*) -> Option<Vec<Option<u64>>> { $($set)* $bag.to_u64_seq() } spec { None }
            to_i128($($a: $t),*) -> Option<Vec<Option<i128>>> { $($set)* $bag.to_i128_seq() } spec { None }
            as_f64($($a: $t),*) -> Vec<f64> { $($set)* $bag.as_f64_seq() } spec { Vec::new() }
            to_bool($($a: $t),*) -> Option<Vec<Option<bool>>> { $($set)* $bag.to_bool_seq() } spec { None }
            to_char($($a: $t),*) -> Option<Vec<Option<char>>> { $($set)* $bag.to_char_seq() } spec { None }
            to_str($($a: $t),*) -> bool { $($set)* $bag.to_str_seq::<Vec<Option<Cow<'_, str>>>>().is_none() } spec { true }
            to_borrowed_str($($a: $t),*) -> bool { $($set)* $bag.to_borrowed_str_seq::<Vec<Option<&str>>>().is_none() } spec { true }
        } } }
    };
}
pub mod others { use super::*; each_plain_bag! { nothing }
    nothing! { empty() [] ValueBag::empty() }
    nothing! { unit(x: ()) [] ValueBag::from(x) }
    nothing! { no_slice() [] ValueBag::from(None::<&[u64; 2]>) }
    nothing! { fill_str(x: &'static str) [let f = |s: value_bag::fill::Slot| s.fill_any(x);] ValueBag::from_fill(&f) }
}
#[cfg(feature = "error")]
pub mod error { use super::*; nothing! { capture(x: PE) [] ValueBag::capture_error(&x) } }

#[cfg(feature = "serde1")]
pub mod serde { use super::*; use crate::vals::serde as v;
    entries! {
        seq(x: v::Seq) [] ValueBag::from_serde1(x), [ValueBag::from(x.x), ValueBag::from_serde1(&x.y)];
        capture_seq(x: v::Seq) [] ValueBag::capture_serde1(x), [ValueBag::from(x.x), ValueBag::from_serde1(&x.y)];
        tuple(x: v::Tuple) [] ValueBag::from_serde1(x), [ValueBag::from(x.x), ValueBag::from(x.y)];
        nested(x: v::Lists) [] ValueBag::from_serde1(x), [ValueBag::empty(), ValueBag::from(x.x), ValueBag::empty(), ValueBag::from(x.y)];
        some(x: v::SomeSeq) [] ValueBag::from_serde1(x), [ValueBag::from(x.x), ValueBag::from(x.y)];
        elem_fail(x: v::ElemFail) [] ValueBag::from_serde1(x), [ValueBag::from(x.x), ValueBag::empty()];
        ints(x: v::Ints) [] ValueBag::from_serde1(x), [ValueBag::from(x.a), ValueBag::from(x.b), ValueBag::from(x.c), ValueBag::from(x.d), ValueBag::from(x.e), ValueBag::from(x.f)];
        odd(x: v::Odd) [] ValueBag::capture_serde1(x), [ValueBag::from(&x.a), ValueBag::from(&x.b), ValueBag::from(x.c), ValueBag::empty(), ValueBag::from(5u64), ValueBag::empty(), ValueBag::empty(), ValueBag::empty(), ValueBag::empty()];
        kinds(x: v::Kinds) [] ValueBag::from_serde1(x), [ValueBag::from(x.i), ValueBag::from(x.f), ValueBag::from(x.c), ValueBag::empty(), ValueBag::empty()];
    }
    unborrowed! {
        filled(x: v::Ints) [let f = |s: value_bag::fill::Slot| s.fill_serde1(x);] ValueBag::from_fill(&f), [ValueBag::from(x.a), ValueBag::from(x.b), ValueBag::from(x.c), ValueBag::from(x.d), ValueBag::from(x.e), ValueBag::from(x.f)];
    }
    nothing! { u64_(x: v::U64) [] ValueBag::from_serde1(&x) }
    nothing! { u8_(x: v::U8) [] ValueBag::from_serde1(&x) }
    nothing! { u16_(x: v::U16) [] ValueBag::from_serde1(&x) }
    nothing! { u32_(x: v::U32) [] ValueBag::from_serde1(&x) }
    nothing! { u128_(x: v::U128) [] ValueBag::from_serde1(&x) }
    nothing! { i8_(x: v::I8) [] ValueBag::from_serde1(&x) }
    nothing! { i16_(x: v::I16) [] ValueBag::from_serde1(&x) }
    nothing! { i32_(x: v::I32) [] ValueBag::from_serde1(&x) }
    nothing! { i64_(x: v::I64) [] ValueBag::from_serde1(&x) }
    nothing! { i128_(x: v::I128) [] ValueBag::from_serde1(&x) }
    nothing! { f32_(x: v::F32) [] ValueBag::from_serde1(&x) }
    nothing! { f64_(x: v::F64) [] ValueBag::from_serde1(&x) }
    nothing! { bool_(x: v::Bool) [] ValueBag::from_serde1(&x) }
    nothing! { char_(x: v::Char) [] ValueBag::from_serde1(&x) }
    nothing! { some_u64(x: v::Some_) [] ValueBag::from_serde1(&x) }
    nothing! { bytes(x: v::Bytes) [] ValueBag::from_serde1(&x) }
    nothing! { unit_struct(x: v::UnitStruct) [] ValueBag::from_serde1(&x) }
    nothing! { unit_variant(x: v::UnitVariant) [] ValueBag::from_serde1(&x) }
    nothing! { new_struct(x: v::NewStruct) [] ValueBag::from_serde1(&x) }
    nothing! { new_variant(x: v::NewVariant) [] ValueBag::from_serde1(&x) }
    nothing! { tuple_variant(x: v::TupleVariant) [] ValueBag::from_serde1(&x) }
    nothing! { struct_variant(x: v::StructVariant) [] ValueBag::from_serde1(&x) }
    nothing! { str_(x: v::Str) [] ValueBag::from_serde1(&x) }
    nothing! { unit(x: v::Unit) [] ValueBag::from_serde1(&x) }
    nothing! { none(x: v::None_) [] ValueBag::from_serde1(&x) }
    nothing! { map(x: v::Map) [] ValueBag::from_serde1(&x) }
    nothing! { struct_(x: v::Struct) [] ValueBag::capture_serde1(&x) }
    nothing! { fail(x: v::Fail_) [] ValueBag::capture_serde1(&x) }
    nothing! { seq_fail(x: v::SeqFail) [] ValueBag::from_serde1(&x) }
    nothing! { filled_seq_fail(x: v::SeqFail) [let f = |s: value_bag::fill::Slot| s.fill_serde1(&x);] ValueBag::from_fill(&f) }
    nothing! { filled_fail(x: v::Fail_) [let f = |s: value_bag::fill::Slot| s.fill_serde1(&x);] ValueBag::from_fill(&f) }
    #[cfg(feature = "owned")]
    nothing! { shared_seq_fail(x: v::SeqFail) [] ValueBag::capture_shared_serde1(x) }
}
#[cfg(feature = "sval2")]
pub mod sval2 { use super::*; use crate::vals::sval as v;
    entries! {
        seq(x: v::Seq) [] ValueBag::from_sval2(x), [ValueBag::from(x.x), ValueBag::from(x.y)];
        capture_seq(x: v::Seq) [] ValueBag::capture_sval2(x), [ValueBag::from(x.x), ValueBag::from(x.y)];
        tuple(x: v::Tuple) [] ValueBag::from_sval2(x), [ValueBag::from(x.x), ValueBag::from(x.y)];
        nested(x: v::Lists) [] ValueBag::from_sval2(x), [ValueBag::empty(), ValueBag::from(x.x), ValueBag::empty(), ValueBag::from(x.y)];
        kinds(x: v::Kinds) [] ValueBag::from_sval2(x), [ValueBag::from(x.i), ValueBag::from(x.f), ValueBag::empty()];
        ints(x: v::Ints) [] ValueBag::from_sval2(x), [ValueBag::from(x.a), ValueBag::from(x.b), ValueBag::from(x.c), ValueBag::from(x.d), ValueBag::from(x.e), ValueBag::from(x.f)];
        dyn_ints(x: v::Ints) [] ValueBag::from_dyn_sval2(x), [ValueBag::from(x.a), ValueBag::from(x.b), ValueBag::from(x.c), ValueBag::from(x.d), ValueBag::from(x.e), ValueBag::from(x.f)];
    }
    unborrowed! {
        filled(x: v::Odd) [let f = |s: value_bag::fill::Slot| s.fill_sval2(x);] ValueBag::from_fill(&f), [ValueBag::from(&x.a), ValueBag::from(&x.b), ValueBag::from(x.c), ValueBag::from(x.d), ValueBag::from(x.e), ValueBag::from(true)];
        filled_nested(x: v::Lists) [let f = |s: value_bag::fill::Slot| s.fill_sval2(x);] ValueBag::from_fill(&f), [ValueBag::empty(), ValueBag::from(x.x), ValueBag::empty(), ValueBag::from(x.y)];
        filled_kinds(x: v::Kinds) [let f = |s: value_bag::fill::Slot| s.fill_sval2(x);] ValueBag::from_fill(&f), [ValueBag::from(x.i), ValueBag::from(x.f), ValueBag::empty()];
    }
    #[cfg(feature = "owned")]
    unborrowed! {
        shared(x: v::Ints) [let o = ValueBag::capture_shared_sval2(v::Ints { ..*x });] o.by_ref(), [ValueBag::from(x.a), ValueBag::from(x.b), ValueBag::from(x.c), ValueBag::from(x.d), ValueBag::from(x.e), ValueBag::from(x.f)];
    }
    pub mod odd { use super::*; pub mod C15 { use super::*; ob! {
        to_u64(x: &'a v::Odd) -> Option<Vec<Option<u64>>> { ValueBag::from_sval2(x).to_u64_seq() } spec { Some(vec_of([ValueBag::from(&x.a).to_u64(), ValueBag::from(&x.b).to_u64(), ValueBag::from(x.c).to_u64(), None, None, None])) }
        to_borrowed_str(x: &'a v::Odd) -> Option<Vec<Option<&'a str>>> { ValueBag::from_sval2(x).to_borrowed_str_seq() } spec { Some(vec_of([None, None, None, Some(x.d), None, None])) }
        to_str(x: &'a v::Odd) -> Option<Vec<Option<Cow<'a, str>>>> { ValueBag::from_sval2(x).to_str_seq() } spec { Some(vec_of([None, None, None, Some(Cow::Borrowed(x.d)), Some(Cow::Owned(String::from(x.e))), None])) }
    } } }
    pub mod texts { use super::*; pub mod C15 { use super::*; ob! {
        to_str(x: &'a v::Texts) -> Option<Vec<Option<Cow<'a, str>>>> { ValueBag::from_sval2(x).to_str_seq() } spec { Some(vec_of([Some(Cow::Owned(user::text(format_args!("{}{}", x.a, x.b)))), Some(Cow::Borrowed(x.c)), Some(Cow::Owned(user::text(format_args!("{}{}", x.d, x.e))))])) }
        to_borrowed_str(x: &'a v::Texts) -> Option<Vec<Option<&'a str>>> { ValueBag::from_sval2(x).to_borrowed_str_seq() } spec { Some(vec_of([None, Some(x.c), None])) }
        filled(x: &'a v::Texts) -> bool { let f = |s: value_bag::fill::Slot| s.fill_sval2(x); match ValueBag::from_fill(&f).to_str_seq::<Vec<Option<Cow<'_, str>>>>() { Some(v) => v.len() == 3 && v[2].as_deref() == Some(&*user::text(format_args!("{}{}", x.d, x.e))), None => false } } spec { true }
    } } }
    fn vec_of<T, const N: usize>(a: [T; N]) -> Vec<T> { let mut v = Vec::new(); for x in a { v.push(x); } v }
    nothing! { u64_(x: v::U64) [] ValueBag::from_sval2(&x) }
    nothing! { u8_(x: v::U8) [] ValueBag::from_sval2(&x) }
    nothing! { u16_(x: v::U16) [] ValueBag::from_sval2(&x) }
    nothing! { u32_(x: v::U32) [] ValueBag::from_sval2(&x) }
    nothing! { u128_(x: v::U128) [] ValueBag::from_sval2(&x) }
    nothing! { i8_(x: v::I8) [] ValueBag::from_sval2(&x) }
    nothing! { i16_(x: v::I16) [] ValueBag::from_sval2(&x) }
    nothing! { i32_(x: v::I32) [] ValueBag::from_sval2(&x) }
    nothing! { i64_(x: v::I64) [] ValueBag::from_sval2(&x) }
    nothing! { i128_(x: v::I128) [] ValueBag::from_sval2(&x) }
    nothing! { f32_(x: v::F32) [] ValueBag::from_sval2(&x) }
    nothing! { f64_(x: v::F64) [] ValueBag::from_sval2(&x) }
    nothing! { bool_(x: v::Bool) [] ValueBag::from_sval2(&x) }
    nothing! { text(x: v::TextMixed) [] ValueBag::from_sval2(&x) }
    nothing! { tag(x: v::Tag_) [] ValueBag::from_sval2(&x) }
    nothing! { tagged(x: v::TagU64) [] ValueBag::from_sval2(&x) }
    nothing! { str_(x: v::Str) [] ValueBag::from_sval2(&x) }
    nothing! { null(x: v::Null) [] ValueBag::from_sval2(&x) }
    nothing! { map(x: v::Map) [] ValueBag::from_sval2(&x) }
    nothing! { record(x: v::Record) [] ValueBag::capture_sval2(&x) }
    nothing! { fail(x: v::Fail_) [] ValueBag::capture_sval2(&x) }
    nothing! { seq_fail(x: v::SeqFail) [] ValueBag::from_sval2(&x) }
    nothing! { filled_seq_fail(x: v::SeqFail) [let f = |s: value_bag::fill::Slot| s.fill_sval2(&x);] ValueBag::from_fill(&f) }
    nothing! { filled_fail(x: v::Fail_) [let f = |s: value_bag::fill::Slot| s.fill_sval2(&x);] ValueBag::from_fill(&f) }
    nothing! { filled_map(x: v::Map) [let f = |s: value_bag::fill::Slot| s.fill_sval2(&x);] ValueBag::from_fill(&f) }
    #[cfg(feature = "owned")]
    nothing! { shared_seq_fail(x: v::SeqFail) [] ValueBag::capture_shared_sval2(x) }
}
