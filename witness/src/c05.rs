//! Downcasting.
use crate::prelude::*;
use crate::opaque::{got, Other};
use crate::vals;

macro_rules! down {
    ($n:ident($x:ident: $t:ty) [$($set:tt)*] $bag:expr, $other:ty) => {
        pub mod $n { use super::*; pub mod C05 { use super::*; ob! {
            same(t: Tok, $x: $t) -> () { let mut t = t; $($set)* got(&mut t, $bag.downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            by_ref(t: Tok, $x: $t) -> () { let mut t = t; $($set)* let b = $bag; got(&mut t, b.by_ref().downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            clone(t: Tok, $x: $t) -> () { let mut t = t; $($set)* let b = $bag; got(&mut t, b.by_ref().clone().by_ref().downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            other(t: Tok, $x: $t) -> () { let mut t = t; $($set)* got(&mut t, $bag.downcast_ref::<$other>()) } spec { let mut t = t; got::<$other>(&mut t, None) }
            prim(t: Tok, $x: $t) -> () { let mut t = t; $($set)* got(&mut t, $bag.downcast_ref::<u64>()) } spec { let mut t = t; got::<u64>(&mut t, None) }
            is(t: Tok, $x: $t) -> () { let mut t = t; $($set)* opaque::flag(&mut t, $bag.is::<$t>()) } spec { let mut t = t; opaque::flag(&mut t, true) }
            is_other(t: Tok, $x: $t) -> () { let mut t = t; $($set)* opaque::flag(&mut t, $bag.is::<$other>()) } spec { let mut t = t; opaque::flag(&mut t, false) }
            opt(t: Tok, $x: $t) -> () { let mut t = t; $($set)* got(&mut t, $bag.downcast_ref::<Option<$t>>()) } spec { let mut t = t; got::<Option<$t>>(&mut t, None) }
        } } }
    };
}
down! { debug(x: D) [] ValueBag::capture_debug(&x), Other }
down! { display(x: D) [] ValueBag::capture_display(&x), Other }
#[cfg(feature = "error")]
down! { error(x: E) [] ValueBag::capture_error(&x), D }
#[cfg(feature = "serde1")]
down! { serde(x: vals::serde::Seq) [] ValueBag::capture_serde1(&x), vals::serde::Map }
#[cfg(feature = "sval2")]
down! { sval_(x: vals::sval::Seq) [] ValueBag::capture_sval2(&x), vals::sval::Map }

/// Shared values keep their type however often they are owned.
#[cfg(feature = "owned")]
macro_rules! shared {
    ($n:ident($x:ident: $t:ty) $f:ident, $other:ty) => {
        pub mod $n { use super::*; pub mod C05 { use super::*; ob! {
            same(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x); got(&mut t, b.downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            by_ref(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x); got(&mut t, b.by_ref().by_ref().downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            clone(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x).clone(); got(&mut t, b.clone().downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            owned(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x).to_owned(); got(&mut t, b.by_ref().downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            owned_ref(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x); let o = b.by_ref().to_owned(); got(&mut t, o.by_ref().downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            shared(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x).to_shared(); got(&mut t, b.by_ref().downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            again(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x).to_owned().into_shared(); let c = b.clone(); let o = c.by_ref().to_owned(); got(&mut t, o.by_ref().downcast_ref::<$t>()) } spec { let mut t = t; got(&mut t, Some(&$x)) }
            other(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x); got(&mut t, b.downcast_ref::<$other>()) } spec { let mut t = t; got::<$other>(&mut t, None) }
            is(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x).to_owned(); opaque::flag(&mut t, b.by_ref().is::<$t>()) } spec { let mut t = t; opaque::flag(&mut t, true) }
            is_other(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x); opaque::flag(&mut t, b.is::<$other>()) } spec { let mut t = t; opaque::flag(&mut t, false) }
            other_owned(t: Tok, $x: $t) -> () { let mut t = t; let b = ValueBag::$f($x).to_owned(); got(&mut t, b.by_ref().downcast_ref::<$other>()) } spec { let mut t = t; got::<$other>(&mut t, None) }
        } } }
    };
}
#[cfg(feature = "owned")]
mod shared_ {
    use super::*;
    shared! { debug(x: D) capture_shared_debug, Other }
    shared! { display(x: D) capture_shared_display, Other }
    #[cfg(feature = "error")]
    shared! { error(x: E) capture_shared_error, D }
    #[cfg(feature = "serde1")]
    shared! { serde(x: vals::serde::Seq) capture_shared_serde1, vals::serde::Map }
    #[cfg(feature = "sval2")]
    shared! { sval_(x: vals::sval::Seq) capture_shared_sval2, vals::sval::Map }
}

/// Values captured without their type, and those with no captured value, give nothing.
macro_rules! none {
    ($($n:ident($x:ident: $t:ty) $bag:expr, $as:ty;)*) => { $(
        pub mod $n { use super::*; pub mod C05 { use super::*; ob! {
            none(t: Tok, $x: $t) -> () { let mut t = t; got(&mut t, $bag.downcast_ref::<$as>()) } spec { let mut t = t; got::<$as>(&mut t, None) }
            is(t: Tok, $x: $t) -> () { let mut t = t; opaque::flag(&mut t, $bag.is::<$as>()) } spec { let mut t = t; opaque::flag(&mut t, false) }
        } } }
    )* };
}
none! {
    from_debug(x: D) ValueBag::from_debug(&x), D;
    from_display(x: D) ValueBag::from_display(&x), D;
    dyn_debug(x: D) ValueBag::from_dyn_debug(&x), D;
    dyn_display(x: D) ValueBag::from_dyn_display(&x), D;
    from_u64(x: u64) ValueBag::from(x), D;
    from_str(x: &'static str) ValueBag::from(x), D;
    from_empty(x: u64) ValueBag::empty(), D;
    from_bool(x: bool) ValueBag::from(x), D;
}
#[cfg(feature = "error")]
none! { dyn_error(x: E) ValueBag::from_dyn_error(&x), E; }
#[cfg(feature = "serde1")]
none! { from_serde(x: vals::serde::Seq) ValueBag::from_serde1(&x), vals::serde::Seq; }
#[cfg(feature = "sval2")]
none! {
    from_sval(x: vals::sval::Seq) ValueBag::from_sval2(&x), vals::sval::Seq;
    dyn_sval(x: vals::sval::Seq) ValueBag::from_dyn_sval2(&x), vals::sval::Seq;
}
#[cfg(feature = "seq")]
none! { seq(x: [u64; 2]) ValueBag::from_seq_slice(&x), [u64; 2]; }
#[cfg(all(feature = "seq", feature = "owned"))]
none! { shared_seq(x: [u64; 2]) ValueBag::capture_shared_seq_slice(x), u64; }
