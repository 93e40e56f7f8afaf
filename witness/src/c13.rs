//! Owning formatted, error and structured values.
#![cfg(feature = "owned")]
use crate::prelude::*;
use crate::user::{text, Cause, ErrVis, Text, P3};
use crate::vals;

/// Every way of owning a bag gives a bag that is seen as `spec`.
macro_rules! owned {
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr, $spec:expr) => { owned! { same_text $n($($a: $t),*) [$($set)*] $bag, $spec } };
    ($same:ident $n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr, $spec:expr) => {
        pub mod $n { use super::*; pub mod C13 { use super::*;
            $same! { to_owned($($a: $t),*) { $($set)* let o = $bag.to_owned(); } o.by_ref(), { $($set)* } $spec }
            $same! { to_shared($($a: $t),*) { $($set)* let o = $bag.to_shared(); } o.by_ref(), { $($set)* } $spec }
            $same! { clone($($a: $t),*) { $($set)* let o = $bag.to_owned(); let c = o.clone(); drop(o); } c.by_ref(), { $($set)* } $spec }
            $same! { shared_clone($($a: $t),*) { $($set)* let c = $bag.to_owned().into_shared().clone().into_shared(); } ValueBag::from(&c), { $($set)* } $spec }
            $same! { again($($a: $t),*) { $($set)* let o = $bag.to_owned(); let b = o.by_ref(); let c = b.clone().by_ref().to_owned(); } c.by_ref(), { $($set)* } $spec }
        } }
    };
}

pub mod fmt_ { use super::*;
    owned! { debug(a: &'static str, b: &'static str, c: &'static str) [let x = P3(a, b, c); let s = Text(text(format_args!("{:?}", x)));] ValueBag::from_debug(&x), ValueBag::from_debug(&s) }
    owned! { display(a: &'static str, b: &'static str, c: &'static str) [let x = P3(a, b, c); let s = Text(text(format_args!("{}", x)));] ValueBag::from_display(&x), ValueBag::from_display(&s) }
    owned! { capture_debug(a: &'static str, b: &'static str) [let x = P3(a, b, "tail"); let s = Text(text(format_args!("{:?}", x)));] ValueBag::capture_debug(&x), ValueBag::from_debug(&s) }
    owned! { capture_display(a: &'static str, b: &'static str) [let x = P3(a, b, "tail"); let s = Text(text(format_args!("{}", x)));] ValueBag::capture_display(&x), ValueBag::from_display(&s) }
    owned! { dyn_debug(a: &'static str) [let x = P3(a, "", ""); let s = Text(text(format_args!("{:?}", x)));] ValueBag::from_dyn_debug(&x), ValueBag::from_debug(&s) }
    owned! { dyn_display(a: &'static str) [let x = P3(a, "", ""); let s = Text(text(format_args!("{}", x)));] ValueBag::from_dyn_display(&x), ValueBag::from_display(&s) }
}

#[cfg(feature = "error")]
pub mod error { use super::*;
    type Chain = Cause<Option<Cause<Option<Cause<()>>>>>;
    macro_rules! causes {
        ($($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr, $x:ident;)*) => { $(
            pub mod $n { use super::*; pub mod C13 { use super::*; ob! {
                borrowed(t: Tok, $($a: $t),*) -> bool { let mut t = t; $($set)* let o = $bag.to_owned(); let b = o.by_ref(); match b.to_borrowed_error() { Some(e) => { user::causes(&mut t, e); true } None => false } } spec { let mut t = t; $($set)* user::causes(&mut t, &$x); true }
                again(t: Tok, $($a: $t),*) -> bool { let mut t = t; $($set)* let o = $bag.to_owned().clone(); let c = o.by_ref().to_owned(); let b = c.by_ref(); match b.to_borrowed_error() { Some(e) => { user::causes(&mut t, e); true } None => false } } spec { let mut t = t; $($set)* user::causes(&mut t, &$x); true }
                visit(t: Tok, $($a: $t),*) -> bool { $($set)* let o = $bag.to_owned(); o.by_ref().visit(ErrVis(t)).is_ok() } spec { let mut t = t; $($set)* user::causes(&mut t, &$x); true }
                visit_shared(t: Tok, $($a: $t),*) -> bool { $($set)* let o = $bag.to_shared(); o.by_ref().visit(ErrVis(t)).is_ok() } spec { let mut t = t; $($set)* user::causes(&mut t, &$x); true }
                visit_into_shared(t: Tok, $($a: $t),*) -> bool { $($set)* let o = $bag.to_owned().into_shared().clone(); o.by_ref().visit(ErrVis(t)).is_ok() } spec { let mut t = t; $($set)* user::causes(&mut t, &$x); true }
                display($($a: $t),*) -> String { $($set)* let o = $bag.to_owned(); text(format_args!("{}", o)) } spec { $($set)* text(format_args!("{}", $x)) }
                display_shared($($a: $t),*) -> String { $($set)* let o = $bag.to_shared(); text(format_args!("{}", o)) } spec { $($set)* text(format_args!("{}", $x)) }
            } } }
        )* }
    }
    causes! {
        chain(a: &'static str, b: &'static str, c: &'static str, d: &'static str) [let x: Chain = Cause(a, b, Some(Cause(c, d, Some(Cause(b, a, ())))));] ValueBag::from_dyn_error(&x), x;
        capture(a: &'static str, b: &'static str, c: &'static str, d: &'static str) [let x: Chain = Cause(a, b, Some(Cause(c, d, None)));] ValueBag::capture_error(&x), x;
        single(a: &'static str, b: &'static str) [let x: Chain = Cause(a, b, None);] ValueBag::capture_error(&x), x;
        from(a: &'static str, b: &'static str) [let x: Chain = Cause(a, b, None); let r: &(dyn std::error::Error + 'static) = &x;] ValueBag::from(r), x;
    }
}

#[cfg(feature = "serde1")]
pub mod serde { use super::*;
    macro_rules! all {
        ($($n:ident: $t:ident;)*) => { $(
            pub mod $n { use super::*;
                owned! { from(x: vals::serde::$t) [] ValueBag::from_serde1(&x), ValueBag::from_serde1(&x) }
                owned! { capture(x: vals::serde::$t) [] ValueBag::capture_serde1(&x), ValueBag::from_serde1(&x) }
            }
        )* }
    }
    all! {
        u8_: U8; u16_: U16; u32_: U32; u64_: U64; u128_: U128; i8_: I8; i16_: I16; i32_: I32; i64_: I64; i128_: I128; f32_: F32; f64_: F64; bool_: Bool; char_: Char; str_: Str;
        none: None_; some: Some_; unit: Unit; bytes: Bytes; unit_struct: UnitStruct; unit_variant: UnitVariant; new_struct: NewStruct; new_variant: NewVariant;
        seq: Seq; tuple: Tuple; tuple_struct: TupleStruct; tuple_variant: TupleVariant; map: Entries; struct_: Struct; struct_variant: StructVariant; nested: SizedNested;
    }
}

#[cfg(feature = "sval2")]
pub mod sval2 { use super::*;
    macro_rules! all {
        ($($same:ident $n:ident: $t:ident;)*) => { $(
            pub mod $n { use super::*;
                owned! { $same from(x: vals::sval::$t) [] ValueBag::from_sval2(&x), ValueBag::from_sval2(&x) }
                owned! { $same capture(x: vals::sval::$t) [] ValueBag::capture_sval2(&x), ValueBag::from_sval2(&x) }
            }
        )* }
    }
    all! {
        same_text u8_: U8; same_text u16_: U16; same_text u32_: U32; same_text u64_: U64; same_text u128_: U128; same_text i8_: I8; same_text i16_: I16; same_text i32_: I32; same_text i64_: I64; same_text i128_: I128; same_text f32_: F32; same_text f64_: F64; same_text bool_: Bool; same_text str_: StrComputed;
        same_text null: Null; same_text some: Some_; same_text unit: Unit; same_sval bytes: Blob; same_text tag: Tag_; same_text tagged: TagU64; same_text_sval enum_: Enum;
        same_text seq: SizedSeq; same_text map: SizedMap; same_text record: Record; same_text tuple: Tuple; same_text_sval nested: SizedNested;
    }
}

#[cfg(feature = "seq")]
pub mod seq { use super::*;
    owned! { u128s(x: [u128; 3]) [] ValueBag::from_seq_slice(&x), ValueBag::from_seq_slice(&x) }
    owned! { empty() [let x: [u128; 0] = [];] ValueBag::from_seq_slice(&x), ValueBag::from_seq_slice(&x) }
    owned! { bools(x: [bool; 2]) [] ValueBag::from(&x), ValueBag::from_seq_slice(&x) }
    #[cfg(not(feature = "inline-str"))]
    owned! { same_text_serde strs(x: [&'static str; 2]) [] ValueBag::from(&x), ValueBag::from_seq_slice(&x) }
    #[cfg(feature = "inline-str")]
    owned! { same_text_serde strs(x: [&'static str; 1]) [] ValueBag::from(&x), ValueBag::from_seq_slice(&x) }
    owned! { slice(x: &'a [u128]) [] ValueBag::from_seq_slice(&x), ValueBag::from_seq_slice(&x) }
}
