//! Consuming captured sequences.
#![cfg(feature = "seq")]
use crate::prelude::*;

macro_rules! consume {
    ($($(#[$m:meta])* $n:ident ( $x:ident : $t:ty ) [$($set:tt)*] $bag:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C16 { use super::*; ob! {
            debug(f: &'a mut fmt::Formatter<'a>, $x: $t) -> fmt::Result { $($set)* fmt::Debug::fmt(&$bag, f) } spec { fmt::Debug::fmt(&user::List(&$x[..]), f) }
            display(f: &'a mut fmt::Formatter<'a>, $x: $t) -> fmt::Result { $($set)* fmt::Display::fmt(&$bag, f) } spec { fmt::Debug::fmt(&user::List(&$x[..]), f) }
            visit(t: Tok, $x: $t) -> Result<(), Error> { $($set)* $bag.visit(Vis(t)) } spec { let mut v = Vis(t); user::observe_debug(&mut v.0, &user::List(&$x[..])) }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $x: $t) -> Result<Done, Fail> { $($set)* $bag.serialize(Ser(t)) } spec { crate::ser::list(Ser(t), &$x[..]) }
        } } }
    )* };
}
/// Streaming.
#[cfg(feature = "sval2")]
macro_rules! stream {
    ($($(#[$m:meta])* $n:ident ( $x:ident : $t:ty ) [$($set:tt)*] $bag:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C16 { use super::*; ob! {
            stream(t: Tok, $x: $t) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); crate::stm::list(&mut s, &$x[..]) }
            stream_ref(t: Tok, $x: $t) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); value_bag_sval2::lib_ref::ValueRef::stream_ref(&b, &mut s) } spec { let mut s = Stm(t); crate::stm::list(&mut s, &$x[..]) }
        } } }
    )* };
}
macro_rules! rows {
    ($cb:ident) => { $cb! {
        u8_(x: &'a [u8]) [] ValueBag::from(&x);
        u16_(x: &'a [u16]) [] ValueBag::from(&x);
        u32_(x: &'a [u32]) [] ValueBag::from(&x);
        u64_(x: &'a [u64]) [] ValueBag::from(&x);
        usize_(x: &'a [usize]) [] ValueBag::from(&x);
        i8_(x: &'a [i8]) [] ValueBag::from(&x);
        i16_(x: &'a [i16]) [] ValueBag::from(&x);
        i32_(x: &'a [i32]) [] ValueBag::from(&x);
        i64_(x: &'a [i64]) [] ValueBag::from(&x);
        isize_(x: &'a [isize]) [] ValueBag::from(&x);
        u128_(x: &'a [u128]) [] ValueBag::from(&x);
        i128_(x: &'a [i128]) [] ValueBag::from(&x);
        f64_(x: &'a [f64]) [] ValueBag::from(&x);
        bool_(x: &'a [bool]) [] ValueBag::from(&x);
        char_(x: &'a [char]) [] ValueBag::from(&x);
        str_(x: &'a [&'a str]) [] ValueBag::from(&x);
        arr0(x: [bool; 0]) [] ValueBag::from(&x);
        arr1(x: [i64; 1]) [] ValueBag::from(&x);
        arr3(x: [u64; 3]) [] ValueBag::from(&x);
        strs(x: [&'a str; 2]) [] ValueBag::from(&x);
        from_slice(x: &'a [u64]) [] ValueBag::from_seq_slice(&x);
        from_arr(x: [bool; 3]) [] ValueBag::from_seq_slice(&x);
        option(x: [u64; 2]) [] ValueBag::from(Some(&x));
        option_slice(x: &'a [u64]) [] ValueBag::from(Some(&x));
        option_strs(x: [&'a str; 2]) [] ValueBag::from(Some(&x));
        option_str_slice(x: &'a [&'a str]) [] ValueBag::from(Some(&x));
        #[cfg(feature = "std")] option_vec(x: Vec<i64>) [] ValueBag::from(Some(&x));
        #[cfg(feature = "std")] option_strings(x: Vec<String>) [] ValueBag::from(Some(&x));
        by_ref(x: &'a [u64]) [let b = ValueBag::from(&x); let c = b.clone();] c.by_ref();
        item_slice(x: &'a [user::Item]) [] ValueBag::from_seq_slice(&x);
        shown(x: [user::Shown; 2]) [] ValueBag::from_seq_slice(&x);
        shown_slice(x: &'a [user::Shown]) [] ValueBag::from_seq_slice(&x);
        #[cfg(feature = "std")] vec(x: Vec<u64>) [] ValueBag::from(&x);
        #[cfg(feature = "std")] strings(x: Vec<String>) [] ValueBag::from(&x);
    } };
}
rows! { consume }
#[cfg(feature = "sval2")]
pub mod streams { use super::*; rows! { stream } }
/// Elements that are not borrowed from the bag.
macro_rules! filled {
    ($cb:ident) => { $cb! {
        slice(x: &'static [u64; 2]) [let f = |s: value_bag::fill::Slot| s.fill_seq_slice(x);] ValueBag::from_fill(&f);
        any(x: &'static [bool; 3]) [let f = |s: value_bag::fill::Slot| s.fill_any(x);] ValueBag::from_fill(&f);
        items(x: &'static &'static [user::Item]) [let f = |s: value_bag::fill::Slot| s.fill_seq_slice(x);] ValueBag::from_fill(&f);
        shown(x: &'static &'static [user::Shown]) [let f = |s: value_bag::fill::Slot| s.fill_seq_slice(x);] ValueBag::from_fill(&f);
    } };
}
#[cfg(feature = "owned")]
macro_rules! owned {
    ($cb:ident) => { $cb! {
        shared(x: [u64; 2]) [let x = x; let o = ValueBag::capture_shared_seq_slice(x);] o.by_ref();
        shared_clone(x: [bool; 2]) [let o = ValueBag::capture_shared_seq_slice(x).to_owned().clone().into_shared();] o.by_ref();
        shared_items(x: &'static [user::Item]) [let o = ValueBag::capture_shared_seq_slice(x).to_owned();] o.by_ref();
        owned(x: &'a [u128]) [let o = ValueBag::from_seq_slice(&x).to_owned();] o.by_ref();
        to_shared(x: &'a [i128]) [let o = ValueBag::from_seq_slice(&x).to_shared();] o.by_ref();
        owned_arr(x: [bool; 2]) [let o = ValueBag::from(&x).to_owned().clone();] o.by_ref();
        owned_f64(x: &'a [f64]) [let o = ValueBag::from_seq_slice(&x).to_owned();] o.by_ref();
        owned_items(x: [user::Item; 2]) [let o = ValueBag::from_seq_slice(&x).to_owned();] o.by_ref();
        shared_owned_items(x: [user::Item; 2]) [let o = ValueBag::from_seq_slice(&x).to_shared();] o.by_ref();
        filled_items(x: &'static [user::Item; 2]) [let f = |s: value_bag::fill::Slot| s.fill_seq_slice(x); let o = ValueBag::from_fill(&f).to_owned();] o.by_ref();
    } };
}
pub mod filled_ { use super::*; filled! { consume } }
#[cfg(feature = "sval2")]
pub mod filled_streams { use super::*; filled! { stream } }
#[cfg(feature = "owned")]
pub mod owned_ { use super::*; pub mod C13 { use super::*; owned! { consume } } }
#[cfg(all(feature = "owned", feature = "sval2"))]
pub mod owned_streams { use super::*; pub mod C13 { use super::*; owned! { stream } } }
