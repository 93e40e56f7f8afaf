//! Errors captured in bags, and the library's own errors.
use crate::prelude::*;

#[cfg(feature = "error")]
macro_rules! errors {
    ($($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr, $e:expr;)*) => { $(
        pub mod $n { use super::*; pub mod C22 { use super::*; ob! {
            borrowed(t: Tok, $($a: $t),*) -> () { let mut t = t; $($set)* opaque::error_read(&mut t, $bag.to_borrowed_error()) } spec { let mut t = t; $($set)* opaque::error_read(&mut t, Some($e)) }
            try_into(t: Tok, $($a: $t),*) -> () { let mut t = t; $($set)* opaque::error_read(&mut t, <&(dyn std::error::Error + 'static)>::try_from($bag).ok()) } spec { let mut t = t; $($set)* opaque::error_read(&mut t, Some($e)) }
            kept(t: Tok, $($a: $t),*) -> () { let mut t = t; $($set)* let r = { let b = $bag; let c = b.clone(); c.to_borrowed_error() }; opaque::error_read(&mut t, r) } spec { let mut t = t; $($set)* opaque::error_read(&mut t, Some($e)) }
            reads(t: Tok, $($a: $t),*) -> () { let mut t = t; $($set)* user::reads(&mut t, &$bag) } spec { let mut t = t; $($set)* user::error_reads(&mut t, $e) }
            visit(t: Tok, $($a: $t),*) -> Result<(), Error> { $($set)* $bag.visit(Vis(t)) } spec { $($set)* Vis(t).visit_borrowed_error($e) }
            visit_ref(t: Tok, $($a: $t),*) -> Result<(), Error> { $($set)* let mut v = Vis(t); let b = $bag; let c = b.by_ref(); c.visit(&mut v) } spec { $($set)* Vis(t).visit_borrowed_error($e) }
            debug(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Debug::fmt(&$bag, f) } spec { $($set)* fmt::Debug::fmt($e, f) }
            display(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Display::fmt(&$bag, f) } spec { $($set)* fmt::Display::fmt($e, f) }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $($a: $t),*) -> Result<Done, Fail> { $($set)* $bag.serialize(Ser(t)) } spec { $($set)* Ser(t).collect_str($e) }
        }
        #[cfg(feature = "sval2")] ob! {
            stream(t: Tok, $($a: $t),*) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { $($set)* let mut s = Stm(t); sval::stream_display(&mut s, $e) }
        } } }
    )* };
}
#[cfg(feature = "error")]
type Dyn = dyn std::error::Error + 'static;
#[cfg(feature = "error")]
pub mod errors { use super::*; errors! {
    capture(x: PE) [] ValueBag::capture_error(&x), &x;
    from_dyn(x: PE) [] ValueBag::from_dyn_error(&x), &x;
    into(x: PE) [let e: &Dyn = &x;] ValueBag::from(e), &x;
    into_ref(x: PE) [let e: &Dyn = &x;] ValueBag::from(&e), &x;
    into_some(x: PE) [let e: &Dyn = &x;] ValueBag::from(Some(e)), &x;
    causes(x: user::Cause<Option<user::Cause<()>>>) [] ValueBag::capture_error(&x), &x;
} }
#[cfg(feature = "error")]
macro_rules! no_error {
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr) => {
        pub mod $n { use super::*; pub mod C22 { use super::*; ob! {
            borrowed($($a: $t),*) -> bool { $($set)* $bag.to_borrowed_error().is_none() } spec { true }
            try_into($($a: $t),*) -> bool { $($set)* <&(dyn std::error::Error + 'static)>::try_from($bag).is_err() } spec { true }
        } } }
    };
}
#[cfg(feature = "error")]
pub mod others { use super::*; each_plain_bag! { no_error } }

pub mod own { use super::*; pub mod C22 { use super::*; ob! {
    msg(f: &'a mut fmt::Formatter<'a>, m: &'static str) -> fmt::Result { fmt::Display::fmt(&Error::msg(m), f) } spec { fmt::Display::fmt(m, f) }
    fmt_(f: &'a mut fmt::Formatter<'a>) -> fmt::Result { fmt::Display::fmt(&Error::from(fmt::Error), f) } spec { fmt::Display::fmt(&fmt::Error, f) }
}
#[cfg(feature = "std")]
ob! {
    io(f: &'a mut fmt::Formatter<'a>, x: std::io::Error) -> fmt::Result { fmt::Display::fmt(&Error::from(x), f) } spec { fmt::Display::fmt(&x, f) }
    boxed(f: &'a mut fmt::Formatter<'a>, x: PE) -> fmt::Result { fmt::Display::fmt(&Error::boxed(x), f) } spec { fmt::Display::fmt(&x, f) }
    boxed_dyn(f: &'a mut fmt::Formatter<'a>, x: PE) -> fmt::Result { let b: Box<dyn std::error::Error + Send + Sync> = Box::new(x); fmt::Display::fmt(&Error::boxed(b), f) } spec { fmt::Display::fmt(&x, f) }
} } }

/// An error of a serializer keeps its message on the way through the library.
#[cfg(all(feature = "std", feature = "serde1"))]
macro_rules! told {
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr) => {
        pub mod $n { use super::*; pub mod C22 { use super::*; ob! {
            serialize(m: &'static str, $($a: $t),*) -> bool { $($set)* match $bag.serialize(user::SaySer(m)) { Ok(_) => false, Err(e) => e.0.contains(m) } } spec { true }
        } } }
    };
}
#[cfg(all(feature = "std", feature = "serde1"))]
pub mod told { use super::*;
    told! { u8_(x: u8) [] ValueBag::from(x) }
    told! { i64_(x: i64) [] ValueBag::from(x) }
    told! { u128_(x: &'a u128) [] ValueBag::from(x) }
    told! { f64_(x: f64) [] ValueBag::from(x) }
    told! { bool_(x: bool) [] ValueBag::from(x) }
    told! { char_(x: char) [] ValueBag::from(x) }
    told! { str_(x: &'a str) [] ValueBag::from(x) }
    told! { empty() [] ValueBag::empty() }
    told! { debug(x: P) [] ValueBag::capture_debug(&x) }
    told! { display(x: P) [] ValueBag::from_display(&x) }
    told! { fill(x: u64) [let x = user::FillAny(x);] ValueBag::from_fill(&x) }
    #[cfg(feature = "error")] told! { error(x: PE) [] ValueBag::capture_error(&x) }
    told! { serde(x: u64) [let x = crate::vals::serde::U64 { x };] ValueBag::capture_serde1(&x) }
}
