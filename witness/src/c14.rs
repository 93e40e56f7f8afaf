//! Shared captures.
#![cfg(feature = "owned")]
use crate::prelude::*;
use crate::user::Loud;

/// Every chain of conversions consumes the captured value itself.
macro_rules! shared {
    ($($(#[$m:meta])* $n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $own:expr, $spec:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C14 { use super::*;
            same! { by_ref($($a: $t),*) { $($set)* let o = $own; } o.by_ref(), { $($set)* } $spec }
            same! { clone($($a: $t),*) { $($set)* let o = $own; let c = o.clone(); drop(o); } c.by_ref(), { $($set)* } $spec }
            same! { into_shared($($a: $t),*) { $($set)* let o = $own.to_owned().into_shared().clone().into_shared(); } o.by_ref(), { $($set)* } $spec }
            same! { again($($a: $t),*) { $($set)* let o = $own; let c = o.by_ref().to_owned(); let d = c.by_ref().by_ref().to_owned(); } d.by_ref(), { $($set)* } $spec }
            same! { reshared($($a: $t),*) { $($set)* let o = $own; let c = o.by_ref().to_shared(); let d = c.by_ref().clone().to_shared(); } d.by_ref(), { $($set)* } $spec }
            same! { from_ref($($a: $t),*) { $($set)* let o = $own.to_shared(); } ValueBag::from(&o), { $($set)* } $spec }
        } }
    )* };
}
shared! {
    debug(x: P) [] ValueBag::capture_shared_debug(x), ValueBag::from_debug(&x);
    display(x: P) [] ValueBag::capture_shared_display(x), ValueBag::from_display(&x);
    loud_debug(x: u64) [let x = Loud(x);] ValueBag::capture_shared_debug(x), ValueBag::from_debug(&x);
    loud_display(x: u64) [let x = Loud(x);] ValueBag::capture_shared_display(x), ValueBag::from_display(&x);
    #[cfg(feature = "serde1")] serde_struct(x: crate::vals::serde::Struct) [] ValueBag::capture_shared_serde1(x), ValueBag::from_serde1(&x);
    #[cfg(feature = "serde1")] serde_map(x: crate::vals::serde::Map) [] ValueBag::capture_shared_serde1(x), ValueBag::from_serde1(&x);
    #[cfg(feature = "serde1")] serde_loud(x: u64) [let x = Loud(x);] ValueBag::capture_shared_serde1(x), ValueBag::from_serde1(&x);
    #[cfg(feature = "sval2")] sval_record(x: crate::vals::sval::Record) [] ValueBag::capture_shared_sval2(x), ValueBag::from_sval2(&x);
    #[cfg(feature = "sval2")] sval_loud(x: u64) [let x = Loud(x);] ValueBag::capture_shared_sval2(x), ValueBag::from_sval2(&x);
    #[cfg(feature = "seq")] seq(x: [u64; 2]) [] ValueBag::capture_shared_seq_slice(x), ValueBag::from_seq_slice(&x);
}
/// The value found by downcasting is the same at every stage.
macro_rules! same_value {
    ($($(#[$m:meta])* $n:ident $t:ty, |$x:ident| $own:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C14 { use super::*; ob! {
            clones($x: $t) -> bool { let o = $own; let c = o.clone().to_owned(); let d = c.by_ref().to_owned(); let e = d.clone().into_shared(); user::same_ref::<$t>(&o.by_ref(), &c.by_ref()) && user::same_ref::<$t>(&o.by_ref(), &d.by_ref()) && user::same_ref::<$t>(&d.by_ref(), &e.by_ref()) } spec { true }
            reshared($x: $t) -> bool { let o = $own; let c = o.by_ref().to_shared(); let d = c.by_ref().by_ref().to_shared(); user::same_ref::<$t>(&o.by_ref(), &d.by_ref()) } spec { true }
        } } }
    )* };
}
pub mod same_value { use super::*; same_value! {
    debug P, |x| ValueBag::capture_shared_debug(x);
    display P, |x| ValueBag::capture_shared_display(x);
    #[cfg(feature = "error")] error PE, |x| ValueBag::capture_shared_error(x);
    #[cfg(feature = "serde1")] serde crate::vals::serde::Struct, |x| ValueBag::capture_shared_serde1(x);
    #[cfg(feature = "sval2")] sval crate::vals::sval::Record, |x| ValueBag::capture_shared_sval2(x);
} }
#[cfg(feature = "error")]
pub mod error { use super::*; pub mod C14 { use super::*; ob! {
    debug(f: &'a mut fmt::Formatter<'a>, x: PE) -> fmt::Result { let o = ValueBag::capture_shared_error(x).clone(); let c = o.by_ref().to_owned(); fmt::Debug::fmt(&c, f) } spec { fmt::Debug::fmt(&x, f) }
    display(f: &'a mut fmt::Formatter<'a>, x: PE) -> fmt::Result { let o = ValueBag::capture_shared_error(x).clone(); let c = o.by_ref().to_shared(); fmt::Display::fmt(&c.by_ref(), f) } spec { fmt::Display::fmt(&x, f) }
    visit(t: Tok, x: u64) -> bool { let o = ValueBag::capture_shared_error(Loud(x)).to_owned().into_shared(); let c = o.by_ref().to_shared().clone(); c.by_ref().visit(user::ErrVis(t)).is_ok() } spec { let mut t = t; let x = Loud(x); user::causes(&mut t, &x); true }
} } }
