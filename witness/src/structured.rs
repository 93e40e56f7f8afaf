//! Reference behaviour of values captured through serialization frameworks.
use crate::prelude::*;
use crate::vals;

#[cfg(feature = "serde1")]
pub mod serde {
    use super::*;
    use value_bag_serde1::fmt::to_debug;
    macro_rules! via {
        ($n:ident, $bag:expr, $x:ident : $t:ty) => {
            kind! { $n($x: $t) [] bag $bag;
                reads reads |t| user::no_reads(t);
                vis |v| user::observe_debug(&mut v.0, &to_debug(&$x));
                dbg |f| fmt::Debug::fmt(&to_debug(&$x), f);
                dsp |f| fmt::Debug::fmt(&to_debug(&$x), f);
                ser |s| $x.serialize(s);
                stm |s| value_bag_sval2::serde1::stream(s, &$x);
                tok TestToken::Serde { version: 1 } }
        };
    }
    macro_rules! all {
        ($($n:ident: $t:ident;)*) => { $(
            pub mod $n { use super::*;
                via! { capture, ValueBag::capture_serde1(&x), x: vals::serde::$t }
                via! { from, ValueBag::from_serde1(&x), x: vals::serde::$t }
            }
        )* };
    }
    all! {
        bytes: Bytes; unit_struct: UnitStruct; unit_variant: UnitVariant; new_struct: NewStruct; new_variant: NewVariant;
        fail: Fail_; seq: Seq; tuple: Tuple; tuple_struct: TupleStruct; tuple_variant: TupleVariant; map: Map;
        struct_: Struct; struct_variant: StructVariant; nested: Nested; seq_fail: SeqFail; elem_fail: ElemFail;
    }
}

#[cfg(feature = "sval2")]
pub mod sval2 {
    use super::*;
    /// A value formatted by its streamed form.
    pub struct Fmt<'a, T>(pub &'a T);
    impl<'a, T: sval::Value> fmt::Debug for Fmt<'a, T> {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
            value_bag_sval2::fmt::stream_to_fmt(f, self.0)
        }
    }
    macro_rules! via {
        ($n:ident, $bag:expr, $x:ident : $t:ty) => {
            kind! { $n($x: $t) [] bag $bag;
                reads reads |t| user::no_reads(t);
                vis |v| user::observe_debug(&mut v.0, &Fmt(&$x));
                dbg |f| value_bag_sval2::fmt::stream_to_fmt(f, &$x);
                dsp |f| value_bag_sval2::fmt::stream_to_fmt(f, &$x);
                ser |s| value_bag_sval2::serde1::serialize(s, &$x);
                stm |s| s.value(&$x);
                tok TestToken::Sval { version: 2 } }
        };
    }
    macro_rules! all {
        ($($n:ident: $t:ident;)*) => { $(
            pub mod $n { use super::*;
                via! { capture, ValueBag::capture_sval2(&x), x: vals::sval::$t }
                via! { from, ValueBag::from_sval2(&x), x: vals::sval::$t }
            }
        )* };
    }
    all! {
        bytes: Bytes; fail: Fail_; seq: Seq; map: Map; record: Record; tuple: Tuple; seq_fail: SeqFail;
    }
    // whether tags and enums read as what they carry is not specified
    macro_rules! some {
        ($($n:ident: $t:ident;)*) => { $(
            pub mod $n { use super::*;
                kind! { @out capture(x: vals::sval::$t) [] bag ValueBag::capture_sval2(&x);
                    dbg |f| value_bag_sval2::fmt::stream_to_fmt(f, &x);
                    dsp |f| value_bag_sval2::fmt::stream_to_fmt(f, &x);
                    ser |s| value_bag_sval2::serde1::serialize(s, &x);
                    stm |s| s.value(&x);
                    tok TestToken::Sval { version: 2 } }
            }
        )* };
    }
    some! { tag: Tag_; }
    // serde support for nested and enum values buffers them inside sval_serde
    macro_rules! unbuffered {
        ($($n:ident: $t:ident;)*) => { $(
            pub mod $n { use super::*;
                pub mod C07 { use super::*; ob! {
                    debug(f: &'a mut fmt::Formatter<'a>, x: vals::sval::$t) -> fmt::Result { fmt::Debug::fmt(&ValueBag::from_sval2(&x), f) } spec { value_bag_sval2::fmt::stream_to_fmt(f, &x) }
                } }
                pub mod C09 { use super::*; ob! {
                    stream(t: Tok, x: vals::sval::$t) -> sval::Result { let b = ValueBag::capture_sval2(&x); let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); s.value(&x) }
                } }
            }
        )* };
    }
    unbuffered! { enum_: Enum; nested: Nested; }
}
