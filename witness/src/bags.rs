//! Every way of making a bag, for properties that hold whatever a bag holds.

macro_rules! each_plain_bag {
    ($cb:ident) => {
        $cb! { u8_ (x: u8) [] ValueBag::from(x) }
        $cb! { u64_ (x: u64) [] ValueBag::from(x) }
        $cb! { usize_ (x: usize) [] ValueBag::from(x) }
        $cb! { i16_ (x: i16) [] ValueBag::from(x) }
        $cb! { i64_ (x: i64) [] ValueBag::from(x) }
        $cb! { isize_ (x: isize) [] ValueBag::from(x) }
        $cb! { u128_ (x: u128) [] ValueBag::from(&x) }
        $cb! { i128_ (x: i128) [] ValueBag::from(&x) }
        $cb! { f32_ (x: f32) [] ValueBag::from(x) }
        $cb! { f64_ (x: f64) [] ValueBag::from(x) }
        $cb! { bool_ (x: bool) [] ValueBag::from(x) }
        $cb! { char_ (x: char) [] ValueBag::from(x) }
        $cb! { str_ (x: &'a str) [] ValueBag::from(x) }
        $cb! { capture_u64 (x: u64) [] ValueBag::capture_debug(&x) }
        $cb! { capture_str (x: &'static str) [] ValueBag::capture_display(&x) }
        $cb! { capture_debug (x: P) [] ValueBag::capture_debug(&x) }
        $cb! { capture_display (x: P) [] ValueBag::capture_display(&x) }
        $cb! { from_debug (x: P) [] ValueBag::from_debug(&x) }
        $cb! { from_display (x: P) [] ValueBag::from_display(&x) }
        $cb! { dyn_debug (x: P) [] ValueBag::from_dyn_debug(&x) }
        $cb! { dyn_display (x: P) [] ValueBag::from_dyn_display(&x) }
        $cb! { fill_u64 (x: u64) [let x = crate::user::FillAny(x);] ValueBag::from_fill(&x) }
        $cb! { fill_debug (x: P) [let x = crate::user::FillDebug(x);] ValueBag::from_fill(&x) }
        $cb! { fill_display (x: P) [let x = crate::user::FillDisplay(x);] ValueBag::from_fill(&x) }
        $cb! { fill_nothing (x: bool) [let x = crate::user::FillNothing(x);] ValueBag::from_fill(&x) }
    };
}
macro_rules! each_bag {
    ($cb:ident) => {
        each_plain_bag! { $cb }
        #[cfg(feature = "error")]
        pub mod error { use super::*;
            $cb! { capture (x: PE) [] ValueBag::capture_error(&x) }
            $cb! { dyn_ (x: PE) [] ValueBag::from_dyn_error(&x) }
            $cb! { fill (x: PE) [let x = crate::user::FillError(x);] ValueBag::from_fill(&x) }
        }
        #[cfg(feature = "seq")]
        pub mod seq { use super::*;
            $cb! { u64s (x: &'a [u64]) [] ValueBag::from_seq_slice(&x) }
            $cb! { strs (x: &'a [&'a str]) [] ValueBag::from_seq_slice(&x) }
            $cb! { arr (x: [i64; 2]) [] ValueBag::from(&x) }
            $cb! { fill (x: &'static [u64; 2]) [let x = crate::user::FillSeq(x);] ValueBag::from_fill(&x) }
        }
        #[cfg(feature = "serde1")]
        pub mod serde1 { use super::*;
            $cb! { u64_ (x: crate::vals::serde::U64) [] ValueBag::capture_serde1(&x) }
            $cb! { str_ (x: crate::vals::serde::Str) [] ValueBag::capture_serde1(&x) }
            $cb! { none (x: crate::vals::serde::None_) [] ValueBag::from_serde1(&x) }
            $cb! { some (x: crate::vals::serde::Some_) [] ValueBag::from_serde1(&x) }
            $cb! { seq (x: crate::vals::serde::Seq) [] ValueBag::from_serde1(&x) }
            $cb! { map (x: crate::vals::serde::Map) [] ValueBag::capture_serde1(&x) }
            $cb! { struct_ (x: crate::vals::serde::Struct) [] ValueBag::capture_serde1(&x) }
            $cb! { fail (x: crate::vals::serde::Fail_) [] ValueBag::capture_serde1(&x) }
            $cb! { fill (x: crate::vals::serde::Struct) [let x = crate::user::FillSerde(x);] ValueBag::from_fill(&x) }
        }
        #[cfg(feature = "sval2")]
        pub mod sval2 { use super::*;
            $cb! { u64_ (x: crate::vals::sval::U64) [] ValueBag::capture_sval2(&x) }
            $cb! { str_ (x: crate::vals::sval::Str) [] ValueBag::capture_sval2(&x) }
            $cb! { text (x: crate::vals::sval::TextMixed) [] ValueBag::from_sval2(&x) }
            $cb! { null (x: crate::vals::sval::Null) [] ValueBag::from_sval2(&x) }
            $cb! { seq (x: crate::vals::sval::Seq) [] ValueBag::from_sval2(&x) }
            $cb! { map (x: crate::vals::sval::Map) [] ValueBag::capture_sval2(&x) }
            $cb! { record (x: crate::vals::sval::Record) [] ValueBag::capture_sval2(&x) }
            $cb! { fail (x: crate::vals::sval::Fail_) [] ValueBag::capture_sval2(&x) }
            $cb! { fill (x: crate::vals::sval::Record) [let x = crate::user::FillSval(x);] ValueBag::from_fill(&x) }
        }
        #[cfg(feature = "owned")]
        pub mod shared { use super::*;
            $cb! { debug (x: P) [] ValueBag::capture_shared_debug(x) }
            $cb! { display (x: P) [] ValueBag::capture_shared_display(x) }
            $cb! { debug_owned (x: P) [let o = ValueBag::capture_shared_debug(x).to_owned();] o.by_ref() }
            $cb! { display_owned (x: P) [let o = ValueBag::capture_shared_display(x).to_owned();] o.by_ref() }
            #[cfg(feature = "error")]
            pub mod error { use super::*;
                $cb! { capture (x: PE) [] ValueBag::capture_shared_error(x) }
                $cb! { owned (x: PE) [let o = ValueBag::capture_shared_error(x).to_owned();] o.by_ref() }
            }
            #[cfg(feature = "seq")]
            pub mod seq { use super::*;
                $cb! { capture (x: [u64; 2]) [] ValueBag::capture_shared_seq_slice(x) }
                $cb! { owned (x: Vec<u64>) [let o = ValueBag::capture_shared_seq_slice(x).to_owned();] o.by_ref() }
            }
            #[cfg(feature = "serde1")]
            pub mod serde1 { use super::*;
                $cb! { capture (x: crate::vals::serde::Struct) [] ValueBag::capture_shared_serde1(x) }
                $cb! { owned (x: crate::vals::serde::Map) [let o = ValueBag::capture_shared_serde1(x).to_owned();] o.by_ref() }
            }
            #[cfg(feature = "sval2")]
            pub mod sval2 { use super::*;
                $cb! { capture (x: crate::vals::sval::Record) [] ValueBag::capture_shared_sval2(x) }
                $cb! { owned (x: crate::vals::sval::Seq) [let o = ValueBag::capture_shared_sval2(x).to_owned();] o.by_ref() }
            }
        }
        #[cfg(feature = "owned")]
        pub mod owned { use super::*;
            $cb! { u64_ (x: u64) [let o = ValueBag::from(x).to_owned();] o.by_ref() }
            $cb! { i64_ (x: i64) [let o = ValueBag::from(x).to_owned();] o.by_ref() }
            $cb! { f64_ (x: f64) [let o = ValueBag::from(x).to_owned();] o.by_ref() }
            $cb! { bool_ (x: bool) [let o = ValueBag::from(x).to_owned();] o.by_ref() }
            $cb! { char_ (x: char) [let o = ValueBag::from(x).to_owned();] o.by_ref() }
            $cb! { str_ (x: &'a str) [let o = ValueBag::from(x).to_owned();] o.by_ref() }
            $cb! { shared_str (x: &'a str) [let o = ValueBag::from(x).to_shared();] o.by_ref() }
            $cb! { debug (a: &'static str, b: &'static str) [let x = P { a, b, ok: true }; let o = ValueBag::from_debug(&x).to_owned();] o.by_ref() }
            $cb! { display (a: &'static str, b: &'static str) [let x = P { a, b, ok: true }; let o = ValueBag::from_display(&x).to_owned();] o.by_ref() }
            $cb! { shared_debug (a: &'static str, b: &'static str) [let x = P { a, b, ok: true }; let o = ValueBag::from_debug(&x).to_shared();] o.by_ref() }
            $cb! { shared_display (a: &'static str, b: &'static str) [let x = P { a, b, ok: true }; let o = ValueBag::from_display(&x).to_shared();] o.by_ref() }
        }
    };
}
