//! Lazily filled bags.
use crate::prelude::*;
use value_bag::fill::{Fill, Slot};

/// A bag filled with something is seen as a bag made from it directly.
macro_rules! fills {
    ($($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] |$s:ident| $fill:expr, $spec:expr;)*) => { $(
        pub mod $n { use super::*; pub mod C17 { use super::*;
            same! { fill_reads closure($($a: $t),*) { $($set)* let f = |$s: Slot| $fill; } ValueBag::from_fill(&f), { $($set)* } $spec }
            same! { fill_reads twice($($a: $t),*) { $($set)* let f = |$s: Slot| $fill; let b = ValueBag::from_fill(&f); let c = b.clone(); } c.by_ref(), { $($set)* } $spec }
            #[cfg(feature = "owned")]
            same_text! { owned($($a: $t),*) { $($set)* let f = |$s: Slot| $fill; let b = ValueBag::from_fill(&f).to_owned(); } b.by_ref(), { $($set)* let b = $spec.to_owned(); } b.by_ref() }
        } }
    )* };
}
fills! {
    u8_(x: u8) [] |s| s.fill_any(x), ValueBag::from(x);
    u32_(x: u32) [] |s| s.fill_any(&x), ValueBag::from(x);
    u64_(x: u64) [] |s| s.fill_any(x), ValueBag::from(x);
    usize_(x: usize) [] |s| s.fill_any(x), ValueBag::from(x);
    i8_(x: i8) [] |s| s.fill_any(x), ValueBag::from(x);
    i64_(x: i64) [] |s| s.fill_any(x), ValueBag::from(x);
    isize_(x: isize) [] |s| s.fill_any(x), ValueBag::from(x);
    u128_(x: &'static u128) [] |s| s.fill_any(x), ValueBag::from(x);
    i128_(x: &'static i128) [] |s| s.fill_any(x), ValueBag::from(x);
    f32_(x: f32) [] |s| s.fill_any(x), ValueBag::from(x);
    f64_(x: f64) [] |s| s.fill_any(x), ValueBag::from(x);
    bool_(x: bool) [] |s| s.fill_any(x), ValueBag::from(x);
    char_(x: char) [] |s| s.fill_any(x), ValueBag::from(x);
    str_(x: &'static str) [] |s| s.fill_any(x), ValueBag::from(x);
    unit() [] |s| s.fill_any(()), ValueBag::empty();
    none() [] |s| s.fill_any(None::<u64>), ValueBag::empty();
    some(x: u64) [] |s| s.fill_any(Some(x)), ValueBag::from(x);
    debug(x: P) [] |s| s.fill_debug(&x), ValueBag::from_debug(&x);
    display(x: P) [] |s| s.fill_display(&x), ValueBag::from_display(&x);
    bag_u64(x: u64) [] |s| s.fill_any(ValueBag::from(x)), ValueBag::from(x);
    bag_str(x: &'static &'static str) [] |s| s.fill_any(ValueBag::capture_display(x)), ValueBag::from(*x);
    bag_debug(x: &'static P) [] |s| s.fill_any(ValueBag::capture_debug(x)), ValueBag::from_debug(x);
    bag_display(x: &'static P) [] |s| s.fill_any(ValueBag::from_dyn_display(x)), ValueBag::from_display(x);
    dyn_debug(x: &'static P) [] |s| s.fill_any(x as &dyn fmt::Debug), ValueBag::from_debug(x);
    fill_in_fill(x: &'static user::FillAny) [] |s| s.fill_any(ValueBag::from_fill(x)), ValueBag::from(x.0);
    fill_debug_in_fill(x: &'static user::FillDebug) [] |s| s.fill_any(ValueBag::from_fill(x)), ValueBag::from_debug(&x.0);
    direct(x: user::FillAny) [] |s| x.fill(s), ValueBag::from(x.0);
}
#[cfg(feature = "error")]
pub mod error { use super::*; fills! {
    bag(x: &'static PE) [] |s| s.fill_any(ValueBag::capture_error(x)), ValueBag::from_dyn_error(x);
} }
#[cfg(feature = "error")]
macro_rules! fill_error {
    ($($n:ident ( $x:ident ) |$s:ident| $fill:expr;)*) => { $(
        pub mod $n { use super::*; pub mod C17 { use super::*; ob! {
            reads(t: Tok, $x: PE) -> () { let mut t = t; let f = |$s: Slot| $fill; user::fill_reads(&mut t, &ValueBag::from_fill(&f)) } spec { let mut t = t; user::fill_reads(&mut t, &ValueBag::from_dyn_error(&$x)) }
            visit(t: Tok, $x: PE) -> Result<(), Error> { let f = |$s: Slot| $fill; ValueBag::from_fill(&f).visit(Vis(t)) } spec { Vis(t).visit_error(&$x) }
            visit_mut(t: Tok, $x: PE) -> Result<(), Error> { let f = |$s: Slot| $fill; let mut v = Vis(t); ValueBag::from_fill(&f).visit(&mut v) } spec { Vis(t).visit_error(&$x) }
            visit_any(t: Tok, $x: PE) -> Result<(), Error> { let f = |$s: Slot| $fill; ValueBag::from_fill(&f).visit(AnyVis(t)) } spec { let mut t = t; user::observe(&mut t, &ValueBag::from_dyn_error(&$x)) }
            debug(f: &'a mut fmt::Formatter<'a>, $x: PE) -> fmt::Result { let l = |$s: Slot| $fill; fmt::Debug::fmt(&ValueBag::from_fill(&l), f) } spec { fmt::Debug::fmt(&$x, f) }
            display(f: &'a mut fmt::Formatter<'a>, $x: PE) -> fmt::Result { let l = |$s: Slot| $fill; fmt::Display::fmt(&ValueBag::from_fill(&l), f) } spec { fmt::Display::fmt(&$x, f) }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $x: PE) -> Result<Done, Fail> { let f = |$s: Slot| $fill; ValueBag::from_fill(&f).serialize(Ser(t)) } spec { Ser(t).collect_str(&$x) }
        }
        #[cfg(feature = "sval2")] ob! {
            stream(t: Tok, $x: PE) -> sval::Result { let f = |$s: Slot| $fill; let b = ValueBag::from_fill(&f); let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); sval::stream_display(&mut s, &$x) }
        }
        #[cfg(feature = "test")] ob! {
            token($x: PE) -> TestToken { let f = |$s: Slot| $fill; ValueBag::from_fill(&f).to_test_token() } spec { TestToken::Error }
        } } }
    )* };
}
#[cfg(feature = "error")]
pub mod errors { use super::*; fill_error! {
    dyn_(x) |s| s.fill_dyn_error(&x);
    by_ref(x) |s| s.fill_dyn_error(&x as &(dyn std::error::Error + 'static));
} }
#[cfg(feature = "error")]
pub mod error_value { use super::*; pub mod C17 { use super::*; ob! {
    visit(t: Tok, x: &'static PE) -> Result<(), Error> { let f = |s: Slot| s.fill_error(user::Lent(x)); ValueBag::from_fill(&f).visit(Vis(t)) } spec { Vis(t).visit_error(&user::Lent(x)) }
    debug(f: &'a mut fmt::Formatter<'a>, x: &'static PE) -> fmt::Result { let l = |s: Slot| s.fill_error(user::Lent(x)); fmt::Debug::fmt(&ValueBag::from_fill(&l), f) } spec { fmt::Debug::fmt(x, f) }
    display(f: &'a mut fmt::Formatter<'a>, x: &'static PE) -> fmt::Result { let l = |s: Slot| s.fill_error(user::Lent(x)); fmt::Display::fmt(&ValueBag::from_fill(&l), f) } spec { fmt::Display::fmt(x, f) }
}
#[cfg(feature = "serde1")] ob! {
    serialize(t: Tok, x: &'static PE) -> Result<Done, Fail> { let f = |s: Slot| s.fill_error(user::Lent(x)); ValueBag::from_fill(&f).serialize(Ser(t)) } spec { Ser(t).collect_str(x) }
}
#[cfg(feature = "sval2")] ob! {
    stream(t: Tok, x: &'static PE) -> sval::Result { let f = |s: Slot| s.fill_error(user::Lent(x)); let b = ValueBag::from_fill(&f); let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); sval::stream_display(&mut s, x) }
} } }
#[cfg(feature = "seq")]
pub mod seq { use super::*; fills! {
    u64s(x: &'static [u64; 2]) [] |s| s.fill_seq_slice(x), ValueBag::from_seq_slice(x);
    bools(x: &'static [bool; 3]) [] |s| s.fill_any(x), ValueBag::from_seq_slice(x);
} }
#[cfg(feature = "serde1")]
pub mod serde { use super::*; use crate::vals::serde as v; fills! {
    u64_(x: v::U64) [] |s| s.fill_serde1(&x), ValueBag::from_serde1(&x);
    str_(x: v::Str) [] |s| s.fill_serde1(&x), ValueBag::from_serde1(&x);
    none(x: v::None_) [] |s| s.fill_serde1(&x), ValueBag::from_serde1(&x);
    struct_(x: v::Struct) [] |s| s.fill_serde1(&x), ValueBag::from_serde1(&x);
    map(x: v::Entries) [] |s| s.fill_serde1(&x), ValueBag::from_serde1(&x);
    bag(x: &'static v::Tuple) [] |s| s.fill_any(ValueBag::from_serde1(x)), ValueBag::from_serde1(x);
} }
#[cfg(feature = "sval2")]
pub mod sval2 { use super::*; use crate::vals::sval as v; fills! {
    u64_(x: v::U64) [] |s| s.fill_sval2(&x), ValueBag::from_sval2(&x);
    null(x: v::Null) [] |s| s.fill_sval2(&x), ValueBag::from_sval2(&x);
    record(x: v::Record) [] |s| s.fill_sval2(&x), ValueBag::from_sval2(&x);
    seq(x: v::SizedSeq) [] |s| s.fill_sval2(&x), ValueBag::from_sval2(&x);
    bag(x: &'static v::Tuple) [] |s| s.fill_any(ValueBag::from_sval2(x)), ValueBag::from_sval2(x);
} }

/// A function that reports an error.
macro_rules! failing {
    ($($n:ident ( $($a:ident : $t:ty),* ) |$s:ident| $fill:expr, |$tt:ident| $seen:expr;)*) => { $(
        pub mod $n { use super::*; pub mod C17 { use super::*; ob! {
            reads(t: Tok, $($a: $t),*) -> () { let mut t = t; let f = |$s: Slot| $fill; user::reads(&mut t, &ValueBag::from_fill(&f)) } spec { let mut t = t; user::no_reads(&mut t) }
            visit(t: Tok, $($a: $t),*) -> bool { let f = |$s: Slot| $fill; ValueBag::from_fill(&f).visit(Vis(t)).is_err() } spec { let mut v = Vis(t); let $tt = &mut v; let _ = $seen; true }
            debug(t: Tok, $($a: $t),*) -> bool { let mut t = t; let f = |$s: Slot| $fill; W(&mut t).write_fmt(format_args!("{:?}", ValueBag::from_fill(&f))).is_err() } spec { true }
            display(t: Tok, $($a: $t),*) -> bool { let mut t = t; let f = |$s: Slot| $fill; W(&mut t).write_fmt(format_args!("{}", ValueBag::from_fill(&f))).is_err() } spec { true }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $($a: $t),*) -> bool { let f = |$s: Slot| $fill; ValueBag::from_fill(&f).serialize(Ser(t)).is_err() } spec { true }
        }
        #[cfg(feature = "sval2")] ob! {
            stream(t: Tok, $($a: $t),*) -> bool { let f = |$s: Slot| $fill; let b = ValueBag::from_fill(&f); let mut s = Stm(t); sval::Value::stream(&b, &mut s).is_err() } spec { true }
        } } }
    )* };
}
failing! {
    unfilled(m: &'static str) |_s| Err(Error::msg(m)), |t| ();
}
/// A function that fills the slot and then reports an error.
pub mod filled { use super::*; pub mod C17 { use super::*; ob! {
    visit(t: Tok, x: u64, m: &'static str) -> bool { let f = |s: Slot| { s.fill_any(x)?; Err(Error::msg(m)) }; ValueBag::from_fill(&f).visit(Vis(t)).is_err() } spec { let _ = Vis(t).visit_u64(x); true }
    visit_str(t: Tok, x: &'static str, m: &'static str) -> bool { let f = |s: Slot| { let _ = s.fill_any(x); Err(Error::msg(m)) }; ValueBag::from_fill(&f).visit(Vis(t)).is_err() } spec { let _ = Vis(t).visit_borrowed_str(x); true }
    debug(t: Tok, x: u64, m: &'static str) -> bool { let mut t = t; let f = |s: Slot| { s.fill_any(x)?; Err(Error::msg(m)) }; W(&mut t).write_fmt(format_args!("{:?}", ValueBag::from_fill(&f))).is_err() } spec { let mut t = t; let _ = W(&mut t).write_fmt(format_args!("{:?}", x)); true }
    error(m: &'static str) -> String { let f = |s: Slot| Err(Error::msg(m)); match ValueBag::from_fill(&f).visit(user::Silent) { Ok(()) => String::new(), Err(e) => user::text(format_args!("{}", e)) } } spec { user::text(format_args!("{}", m)) }
}
#[cfg(feature = "serde1")] ob! {
    serialize(t: Tok, x: u64, m: &'static str) -> bool { let f = |s: Slot| { s.fill_any(x)?; Err(Error::msg(m)) }; ValueBag::from_fill(&f).serialize(Ser(t)).is_err() } spec { let _ = Ser(t).serialize_u64(x); true }
}
#[cfg(feature = "sval2")] ob! {
    stream(t: Tok, x: u64, m: &'static str) -> bool { let f = |s: Slot| { s.fill_any(x)?; Err(Error::msg(m)) }; let b = ValueBag::from_fill(&f); let mut s = Stm(t); sval::Value::stream(&b, &mut s).is_err() } spec { let mut s = Stm(t); let _ = s.u64(x); true }
} } }
