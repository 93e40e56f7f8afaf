//! Owning primitives and strings.
#![cfg(feature = "owned")]
use crate::prelude::*;

/// Every way of owning a bag gives a bag indistinguishable from `spec`.
macro_rules! owned {
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr, $spec:expr) => {
        pub mod $n { use super::*; pub mod C12 { use super::*;
            same! { to_owned($($a: $t),*) { $($set)* let o = $bag.to_owned(); } o.by_ref(), { $($set)* } $spec }
            same! { to_shared($($a: $t),*) { $($set)* let o = $bag.to_shared(); } o.by_ref(), { $($set)* } $spec }
            same! { clone($($a: $t),*) { $($set)* let o = $bag.to_owned(); let c = o.clone(); drop(o); } c.by_ref(), { $($set)* } $spec }
            same! { shared_clone($($a: $t),*) { $($set)* let c = $bag.to_owned().into_shared().clone().into_shared(); } ValueBag::from(&c), { $($set)* } $spec }
            same! { again($($a: $t),*) { $($set)* let o = $bag.to_owned(); let b = o.by_ref(); let c = b.clone().by_ref().to_owned(); } c.by_ref(), { $($set)* } $spec }
        } }
    };
}
macro_rules! ints {
    ($($n:ident: $t:ty, $w:ty;)*) => { $(
        owned! { $n(x: $t) [let w = x as $w;] ValueBag::from(x), ValueBag::from(&w) }
    )* }
}
ints! { u8_: u8, u128; u16_: u16, u128; u32_: u32, u128; u64_: u64, u128; usize_: usize, u128; i8_: i8, i128; i16_: i16, i128; i32_: i32, i128; i64_: i64, i128; isize_: isize, i128; }
owned! { u128_(x: u128) [] ValueBag::from(&x), ValueBag::from(&x) }
owned! { i128_(x: i128) [] ValueBag::from(&x), ValueBag::from(&x) }
owned! { f32_(x: f32) [] ValueBag::from(x), ValueBag::from(x) }
owned! { f64_(x: f64) [] ValueBag::from(x), ValueBag::from(x) }
owned! { bool_(x: bool) [] ValueBag::from(x), ValueBag::from(x) }
owned! { char_(x: char) [] ValueBag::from(x), ValueBag::from(x) }
owned! { str_(x: &'a str) [] ValueBag::from(x), ValueBag::from(x) }
owned! { string(x: String) [] ValueBag::from(&x), ValueBag::from(&*x) }
owned! { empty() [] ValueBag::empty(), ValueBag::empty() }
owned! { none(x: Option<u64>) [let w = match x { Some(x) => Some(x as u128), None => None };] ValueBag::from(x), match &w { Some(x) => ValueBag::from(x), None => ValueBag::empty() } }

/// An owned bag used directly is seen as the bag it lends.
macro_rules! direct {
    ($($n:ident $p:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr;)*) => { $(
        pub mod $n { use super::*; pub mod $p { use super::*; ob! {
            debug(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Debug::fmt(&$bag.to_owned(), f) } spec { $($set)* let o = $bag.to_owned(); fmt::Debug::fmt(&o.by_ref(), f) }
            display(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Display::fmt(&$bag.to_shared(), f) } spec { $($set)* let o = $bag.to_shared(); fmt::Display::fmt(&o.by_ref(), f) }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $($a: $t),*) -> Result<Done, Fail> { $($set)* $bag.to_owned().serialize(Ser(t)) } spec { $($set)* let o = $bag.to_owned(); o.by_ref().serialize(Ser(t)) }
        }
        #[cfg(feature = "sval2")] ob! {
            stream(t: Tok, $($a: $t),*) -> sval::Result { $($set)* let o = $bag.to_owned(); let mut s = Stm(t); sval::Value::stream(&o, &mut s) } spec { $($set)* let o = $bag.to_owned(); let b = o.by_ref(); let mut s = Stm(t); sval::Value::stream(&b, &mut s) }
        } } }
    )* };
}
pub mod used { use super::*; direct! {
    u64_ C12(x: u64) [] ValueBag::from(x);
    i128_ C12(x: i128) [] ValueBag::from(&x);
    bool_ C12(x: bool) [] ValueBag::from(x);
    str_ C12(x: &'a str) [] ValueBag::from(x);
    empty C12() [] ValueBag::empty();
    debug_ C13(a: &'static str, b: &'static str) [let x = user::P3(a, b, "");] ValueBag::from_debug(&x);
    display_ C13(a: &'static str, b: &'static str) [let x = user::P3(a, b, "");] ValueBag::from_display(&x);
} }
#[cfg(feature = "serde1")]
pub mod used_serde { use super::*; direct! {
    struct_ C13(x: crate::vals::serde::Struct) [] ValueBag::capture_serde1(&x);
    tuple C13(x: crate::vals::serde::Tuple) [] ValueBag::from_serde1(&x);
} }
#[cfg(feature = "sval2")]
pub mod used_sval { use super::*; direct! {
    record C13(x: crate::vals::sval::Record) [] ValueBag::capture_sval2(&x);
    tuple C13(x: crate::vals::sval::Tuple) [] ValueBag::from_sval2(&x);
} }
#[cfg(feature = "seq")]
pub mod used_seq { use super::*; direct! {
    bools C13(x: [bool; 2]) [] ValueBag::from_seq_slice(&x);
} }
