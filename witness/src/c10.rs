//! Structured values crossing frameworks.
use crate::prelude::*;
use crate::vals;

/// A primitive captured through a framework, compared with the same primitive captured directly:
/// reads, visits, and the other frameworks agree.
macro_rules! prim {
    ($n:ident($x:ident: $t:ty) $bag:expr, $spec:expr) => {
        pub mod $n { use super::*; pub mod C10 { use super::*; ob! {
            reads(t: Tok, $x: $t) -> () { let mut t = t; user::owned_reads(&mut t, &$bag) } spec { let mut t = t; user::owned_reads(&mut t, &$spec) }
            empty(t: Tok, $x: $t) -> () { let mut t = t; opaque::flag(&mut t, $bag.is_empty()) } spec { let mut t = t; opaque::flag(&mut t, false) }
        } } }
    };
}
#[cfg(feature = "serde1")]
mod serde {
    use super::*;
    macro_rules! all {
        ($($n:ident: $t:ident, |$x:ident| $e:expr;)*) => { $(
            pub mod $n { use super::*;
                prim! { capture(v: vals::serde::$t) ValueBag::capture_serde1(&v), { let $x = &v.x; $e } }
                prim! { from(v: vals::serde::$t) ValueBag::from_serde1(&v), { let $x = &v.x; $e } }
            }
        )* }
    }
    all! {
        u8_: U8, |x| ValueBag::from(*x); u16_: U16, |x| ValueBag::from(*x); u32_: U32, |x| ValueBag::from(*x); u64_: U64, |x| ValueBag::from(*x);
        i8_: I8, |x| ValueBag::from(*x); i16_: I16, |x| ValueBag::from(*x); i32_: I32, |x| ValueBag::from(*x); i64_: I64, |x| ValueBag::from(*x);
        u128_: U128, |x| ValueBag::from(x); i128_: I128, |x| ValueBag::from(x); f32_: F32, |x| ValueBag::from(*x); f64_: F64, |x| ValueBag::from(*x);
        bool_: Bool, |x| ValueBag::from(*x); char_: Char, |x| ValueBag::from(*x); str_: Str, |x| ValueBag::from(*x); some: Some_, |x| ValueBag::from(*x);
    }
    macro_rules! visits {
        ($($n:ident: $t:ident, $m:ident($x:ident) $e:expr;)*) => { $(
            pub mod $n { use super::*; pub mod C10 { use super::*; ob! {
                visit(t: Tok, v: vals::serde::$t) -> Result<(), Error> { ValueBag::from_serde1(&v).visit(Vis(t)) } spec { let mut w = Vis(t); let $x = v.x; w.$m($e) }
                visit_capture(t: Tok, v: vals::serde::$t) -> Result<(), Error> { ValueBag::capture_serde1(&v).visit(Vis(t)) } spec { let mut w = Vis(t); let $x = v.x; w.$m($e) }
                visit_mut(t: Tok, v: vals::serde::$t) -> Result<(), Error> { let mut w = Vis(t); ValueBag::from_serde1(&v).visit(&mut w) } spec { let mut w = Vis(t); let $x = v.x; w.$m($e) }
                visit_any(t: Tok, v: vals::serde::$t) -> Result<(), Error> { ValueBag::from_serde1(&v).visit(AnyVis(t)) } spec { let mut w = AnyVis(t); let $x = v.x; w.$m($e) }
            } } }
        )* }
    }
    pub mod C06 { use super::*; pub mod visits_ { use super::*; visits! {
        u8_: U8, visit_u64(x) x as u64; u16_: U16, visit_u64(x) x as u64; u32_: U32, visit_u64(x) x as u64; u64_: U64, visit_u64(x) x;
        i8_: I8, visit_i64(x) x as i64; i16_: I16, visit_i64(x) x as i64; i32_: I32, visit_i64(x) x as i64; i64_: I64, visit_i64(x) x;
        u128_: U128, visit_u128(x) x; i128_: I128, visit_i128(x) x; f32_: F32, visit_f64(x) x as f64; f64_: F64, visit_f64(x) x;
        bool_: Bool, visit_bool(x) x; char_: Char, visit_char(x) x; str_: Str, visit_str(x) x; some: Some_, visit_u64(x) x;
    } } }
    pub mod nones { use super::*; pub mod C10 { use super::*; pub mod C06 { use super::*; ob! {
        none(t: Tok) -> Result<(), Error> { let v = vals::serde::None_ {}; ValueBag::from_serde1(&v).visit(Vis(t)) } spec { Vis(t).visit_empty() }
        unit(t: Tok) -> Result<(), Error> { let v = vals::serde::Unit {}; ValueBag::from_serde1(&v).visit(Vis(t)) } spec { Vis(t).visit_empty() }
    } } } }
    // out through the other formats
    macro_rules! out {
        ($($n:ident: $t:ident;)*) => { $(
            pub mod $n { use super::*; pub mod C10 { use super::*; ob! {
                debug(f: &'a mut fmt::Formatter<'a>, v: vals::serde::$t) -> fmt::Result { fmt::Debug::fmt(&ValueBag::from_serde1(&v), f) } spec { fmt::Debug::fmt(&value_bag_serde1::fmt::to_debug(&v), f) }
                display(f: &'a mut fmt::Formatter<'a>, v: vals::serde::$t) -> fmt::Result { fmt::Display::fmt(&ValueBag::capture_serde1(&v), f) } spec { fmt::Debug::fmt(&value_bag_serde1::fmt::to_debug(&v), f) }
                serialize(t: Tok, v: vals::serde::$t) -> Result<Done, Fail> { ValueBag::from_serde1(&v).serialize(Ser(t)) } spec { v.serialize(Ser(t)) }
            }
            #[cfg(feature = "sval2")] ob! {
                stream(t: Tok, v: vals::serde::$t) -> sval::Result { let b = ValueBag::from_serde1(&v); let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); value_bag_sval2::serde1::stream(&mut s, &v) }
                stream_capture(t: Tok, v: vals::serde::$t) -> sval::Result { let b = ValueBag::capture_serde1(&v); let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); value_bag_sval2::serde1::stream(&mut s, &v) }
            } } }
        )* }
    }
    pub mod out_ { use super::*; out! {
        u8_: U8; u16_: U16; u32_: U32; u64_: U64; u128_: U128; i8_: I8; i16_: I16; i32_: I32; i64_: I64; i128_: I128; f32_: F32; f64_: F64; bool_: Bool; char_: Char; str_: Str;
        some: Some_; none: None_; unit: Unit; bytes: Bytes; unit_struct: UnitStruct; unit_variant: UnitVariant; new_struct: NewStruct; new_variant: NewVariant; fail: Fail_;
        seq: Seq; tuple: Tuple; tuple_struct: TupleStruct; tuple_variant: TupleVariant; map: Map; struct_: Struct; struct_variant: StructVariant; nested: Nested; seq_fail: SeqFail; elem_fail: ElemFail;
    } }
}
#[cfg(feature = "sval2")]
mod sval_ {
    use super::*;
    macro_rules! all {
        ($($n:ident: $t:ident, |$x:ident| $e:expr;)*) => { $(
            pub mod $n { use super::*;
                prim! { capture(v: vals::sval::$t) ValueBag::capture_sval2(&v), { let $x = &v.x; $e } }
                prim! { from(v: vals::sval::$t) ValueBag::from_sval2(&v), { let $x = &v.x; $e } }
                prim! { dyn_(v: vals::sval::$t) ValueBag::from_dyn_sval2(&v), { let $x = &v.x; $e } }
                prim! { into(v: vals::sval::$t) ValueBag::from(&v as &dyn value_bag_sval2::dynamic::Value), { let $x = &v.x; $e } }
                prim! { into_ref(v: vals::sval::$t) ValueBag::from(&(&v as &dyn value_bag_sval2::dynamic::Value)), { let $x = &v.x; $e } }
                prim! { into_some(v: vals::sval::$t) ValueBag::from(Some(&v as &dyn value_bag_sval2::dynamic::Value)), { let $x = &v.x; $e } }
            }
        )* }
    }
    all! {
        u8_: U8, |x| ValueBag::from(*x); u16_: U16, |x| ValueBag::from(*x); u32_: U32, |x| ValueBag::from(*x); u64_: U64, |x| ValueBag::from(*x);
        i8_: I8, |x| ValueBag::from(*x); i16_: I16, |x| ValueBag::from(*x); i32_: I32, |x| ValueBag::from(*x); i64_: I64, |x| ValueBag::from(*x);
        u128_: U128, |x| ValueBag::from(x); i128_: I128, |x| ValueBag::from(x); f32_: F32, |x| ValueBag::from(*x); f64_: F64, |x| ValueBag::from(*x);
        bool_: Bool, |x| ValueBag::from(*x); str_: Str, |x| ValueBag::from(*x); str_computed: StrComputed, |x| ValueBag::from(*x); tagged: TagU64, |x| ValueBag::from(*x);
    }
    macro_rules! visits {
        ($($n:ident: $t:ident, $m:ident($x:ident) $e:expr;)*) => { $(
            pub mod $n { use super::*; pub mod C10 { use super::*; ob! {
                visit(t: Tok, v: vals::sval::$t) -> Result<(), Error> { ValueBag::from_sval2(&v).visit(Vis(t)) } spec { let mut w = Vis(t); let $x = v.x; w.$m($e) }
                visit_capture(t: Tok, v: vals::sval::$t) -> Result<(), Error> { ValueBag::capture_sval2(&v).visit(Vis(t)) } spec { let mut w = Vis(t); let $x = v.x; w.$m($e) }
                visit_mut(t: Tok, v: vals::sval::$t) -> Result<(), Error> { let mut w = Vis(t); ValueBag::from_sval2(&v).visit(&mut w) } spec { let mut w = Vis(t); let $x = v.x; w.$m($e) }
                visit_any(t: Tok, v: vals::sval::$t) -> Result<(), Error> { ValueBag::from_sval2(&v).visit(AnyVis(t)) } spec { let mut w = AnyVis(t); let $x = v.x; w.$m($e) }
            } } }
        )* }
    }
    pub mod C06 { use super::*; pub mod visits_ { use super::*; visits! {
        u8_: U8, visit_u64(x) x as u64; u16_: U16, visit_u64(x) x as u64; u32_: U32, visit_u64(x) x as u64; u64_: U64, visit_u64(x) x;
        i8_: I8, visit_i64(x) x as i64; i16_: I16, visit_i64(x) x as i64; i32_: I32, visit_i64(x) x as i64; i64_: I64, visit_i64(x) x;
        u128_: U128, visit_u128(x) x; i128_: I128, visit_i128(x) x; f32_: F32, visit_f64(x) x as f64; f64_: F64, visit_f64(x) x;
        bool_: Bool, visit_bool(x) x; str_: Str, visit_borrowed_str(x) x; str_computed: StrComputed, visit_str(x) x;
    } } }
    pub mod unborrowed { use super::*; pub mod C10 { use super::*; pub mod C06 { use super::*; pub mod C17 { use super::*; ob! {
        filled(t: Tok, v: vals::sval::U64) -> Result<(), Error> { let f = |s: value_bag::fill::Slot| s.fill_sval2(&v); ValueBag::from_fill(&f).visit(Vis(t)) } spec { Vis(t).visit_u64(v.x) }
        filled_bool(t: Tok, v: vals::sval::Bool) -> Result<(), Error> { let f = |s: value_bag::fill::Slot| s.fill_sval2(&v); ValueBag::from_fill(&f).visit(Vis(t)) } spec { Vis(t).visit_bool(v.x) }
        filled_str(t: Tok, v: vals::sval::StrComputed) -> Result<(), Error> { let f = |s: value_bag::fill::Slot| s.fill_sval2(&v); ValueBag::from_fill(&f).visit(Vis(t)) } spec { Vis(t).visit_str(v.x) }
        filled_null(t: Tok) -> Result<(), Error> { let v = vals::sval::Null {}; let f = |s: value_bag::fill::Slot| s.fill_sval2(&v); ValueBag::from_fill(&f).visit(Vis(t)) } spec { Vis(t).visit_empty() }
    }
    #[cfg(feature = "owned")] ob! {
        shared(t: Tok, v: vals::sval::U64) -> Result<(), Error> { ValueBag::capture_shared_sval2(v).visit(Vis(t)) } spec { Vis(t).visit_u64(v.x) }
        shared_f64(t: Tok, v: vals::sval::F64) -> Result<(), Error> { let b = ValueBag::capture_shared_sval2(v).to_owned(); b.by_ref().visit(Vis(t)) } spec { Vis(t).visit_f64(v.x) }
    } } } } }
    pub mod nones { use super::*; pub mod C10 { use super::*; pub mod C06 { use super::*; ob! {
        null(t: Tok) -> Result<(), Error> { let v = vals::sval::Null {}; ValueBag::from_sval2(&v).visit(Vis(t)) } spec { Vis(t).visit_empty() }
    } } } }
    macro_rules! out {
        ($($n:ident: $t:ident;)*) => { $(
            pub mod $n { use super::*; pub mod C10 { use super::*; ob! {
                debug(f: &'a mut fmt::Formatter<'a>, v: vals::sval::$t) -> fmt::Result { fmt::Debug::fmt(&ValueBag::from_sval2(&v), f) } spec { value_bag_sval2::fmt::stream_to_fmt(f, &v) }
                display(f: &'a mut fmt::Formatter<'a>, v: vals::sval::$t) -> fmt::Result { fmt::Display::fmt(&ValueBag::capture_sval2(&v), f) } spec { value_bag_sval2::fmt::stream_to_fmt(f, &v) }
                stream(t: Tok, v: vals::sval::$t) -> sval::Result { let b = ValueBag::from_sval2(&v); let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); s.value(&v) }
                stream_dyn(t: Tok, v: vals::sval::$t) -> sval::Result { let b = ValueBag::from_dyn_sval2(&v); let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); s.value(&v) }
            }
            #[cfg(feature = "serde1")] ob! {
                serialize(t: Tok, v: vals::sval::$t) -> Result<Done, Fail> { ValueBag::from_sval2(&v).serialize(Ser(t)) } spec { value_bag_sval2::serde1::serialize(Ser(t), &v) }
                serialize_capture(t: Tok, v: vals::sval::$t) -> Result<Done, Fail> { ValueBag::capture_sval2(&v).serialize(Ser(t)) } spec { value_bag_sval2::serde1::serialize(Ser(t), &v) }
            } } }
        )* }
    }
    pub mod out_ { use super::*; out! {
        u8_: U8; u16_: U16; u32_: U32; u64_: U64; u128_: U128; i8_: I8; i16_: I16; i32_: I32; i64_: I64; i128_: I128; f32_: F32; f64_: F64; bool_: Bool; str_: Str; str_computed: StrComputed;
        null: Null; bytes: Bytes; tag: Tag_; tagged: TagU64; fail: Fail_; text2: Text2; text_mixed: TextMixed;
        seq: Seq; map: Map; record: Record; tuple: Tuple; seq_fail: SeqFail;
    } }
}

