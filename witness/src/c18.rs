//! Empty and poisoned bags.
use crate::prelude::*;

macro_rules! not_empty {
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr) => {
        pub mod $n { use super::*; pub mod C18 { use super::*; ob! {
            is_empty($($a: $t),*) -> bool { $($set)* $bag.is_empty() } spec { false }
            by_ref_is_empty($($a: $t),*) -> bool { $($set)* let b = $bag; b.by_ref().is_empty() } spec { false }
            clone_is_empty($($a: $t),*) -> bool { $($set)* $bag.clone().is_empty() } spec { false }
        } } }
    };
}
pub mod values { use super::*; each_bag! { not_empty } }

/// A bag made from nothing.
macro_rules! as_empty {
    ($($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr;)*) => { $(
        pub mod $n { use super::*;
            pub mod C18 { use super::*; ob! {
                reads(t: Tok, $($a: $t),*) -> () { let mut t = t; $($set)* user::reads(&mut t, &$bag) } spec { let mut t = t; user::one_read(&mut t, true, None, None, None) }
                visit(t: Tok, $($a: $t),*) -> Result<(), Error> { $($set)* $bag.visit(Vis(t)) } spec { Vis(t).visit_empty() }
                debug(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Debug::fmt(&$bag, f) } spec { fmt::Debug::fmt(&format_args!("None"), f) }
                display(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Display::fmt(&$bag, f) } spec { fmt::Debug::fmt(&format_args!("None"), f) }
            }
            #[cfg(feature = "serde1")] ob! {
                serialize(t: Tok, $($a: $t),*) -> Result<Done, Fail> { $($set)* $bag.serialize(Ser(t)) } spec { Ser(t).serialize_none() }
            }
            #[cfg(feature = "sval2")] ob! {
                stream(t: Tok, $($a: $t),*) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { let mut s = Stm(t); s.null() }
            } }
        }
    )* };
}
pub mod empty { use super::*;
    as_empty! {
        empty() [] ValueBag::empty();
        unit() [] ValueBag::from(());
        unit_ref() [] ValueBag::from(&());
        from_option() [] ValueBag::from_option(None::<u64>);
        none_u64() [] ValueBag::from(None::<u64>);
        none_i8() [] ValueBag::from(None::<i8>);
        none_bool() [] ValueBag::from(None::<bool>);
        none_char() [] ValueBag::from(None::<char>);
        none_str() [] ValueBag::from(None::<&'static str>);
        from_option_str() [] ValueBag::from_option(None::<&'static str>);
        capture_none_u64() [let x = None::<u64>;] ValueBag::capture_debug(&x);
        capture_none_str() [let x = None::<&'static str>;] ValueBag::capture_debug(&x);
        by_ref() [let b = ValueBag::empty(); let c = b.clone();] c.by_ref();
    }
    #[cfg(feature = "owned")]
    as_empty! {
        owned() [let o = ValueBag::empty().to_owned();] o.by_ref();
        shared() [let o = ValueBag::from(()).to_shared().clone();] o.by_ref();
    }
}

/// A bag owned from a value that failed to be buffered.
#[cfg(feature = "owned")]
macro_rules! as_poisoned {
    ($($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr;)*) => { $(
        pub mod $n { use super::*;
            pub mod C18 { use super::*; pub mod C13 { use super::*; pub mod C11 { use super::*; ob! {
                reads(t: Tok, $($a: $t),*) -> () { let mut t = t; $($set)* user::reads(&mut t, &$bag) } spec { let mut t = t; user::one_read(&mut t, false, None, None, None) }
                visit(t: Tok, $($a: $t),*) -> bool { $($set)* $bag.visit(Vis(t)).is_err() } spec { true }
                debug($($a: $t),*) -> String { $($set)* user::text(format_args!("{:?}", $bag)) } spec { String::from("<failed to buffer the value>") }
                display($($a: $t),*) -> String { $($set)* user::text(format_args!("{}", $bag)) } spec { String::from("<failed to buffer the value>") }
            }
            #[cfg(feature = "serde1")] ob! {
                serialize(t: Tok, $($a: $t),*) -> bool { $($set)* $bag.serialize(Ser(t)).is_err() } spec { true }
            }
            #[cfg(feature = "sval2")] ob! {
                stream(t: Tok, $($a: $t),*) -> bool { $($set)* let b = $bag; let mut s = Stm(t); sval::Value::stream(&b, &mut s).is_err() } spec { true }
            }
            #[cfg(feature = "test")] ob! {
                token($($a: $t),*) -> bool { $($set)* matches!($bag.to_test_token(), TestToken::Poisoned(_)) } spec { true }
            } } } }
        }
    )* };
}
#[cfg(feature = "owned")]
macro_rules! poisoned {
    ($($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr;)*) => { $(
        pub mod $n { use super::*;
            as_poisoned! {
                owned($($a: $t),*) [$($set)* let o = $bag.to_owned();] o.by_ref();
                shared($($a: $t),*) [$($set)* let o = $bag.to_shared();] o.by_ref();
                clone($($a: $t),*) [$($set)* let o = $bag.to_owned(); let c = o.clone().into_shared();] c.by_ref();
                again($($a: $t),*) [$($set)* let o = $bag.to_owned(); let b = o.by_ref().to_owned(); let c = b.by_ref(); let d = c.clone();] d.by_ref();
            }
        }
    )* };
}
#[cfg(all(feature = "owned", feature = "serde1"))]
pub mod poisoned_serde { use super::*; use crate::vals::serde as v;
    poisoned! {
        fail(x: v::Fail_) [] ValueBag::from_serde1(&x);
        capture_fail(x: v::Fail_) [] ValueBag::capture_serde1(&x);
        seq_fail(x: v::SeqFail) [] ValueBag::from_serde1(&x);
        elem_fail(x: v::ElemFail) [] ValueBag::capture_serde1(&x);
        filled(x: v::SeqFail) [let f = |s: value_bag::fill::Slot| s.fill_serde1(&x);] ValueBag::from_fill(&f);
    }
}
#[cfg(all(feature = "owned", feature = "sval2"))]
pub mod poisoned_sval { use super::*; use crate::vals::sval as v;
    poisoned! {
        fail(x: v::Fail_) [] ValueBag::from_sval2(&x);
        capture_fail(x: v::Fail_) [] ValueBag::capture_sval2(&x);
        seq_fail(x: v::SeqFail) [] ValueBag::from_sval2(&x);
        dyn_fail(x: v::SeqFail) [] ValueBag::from_dyn_sval2(&x);
        filled(x: v::SeqFail) [let f = |s: value_bag::fill::Slot| s.fill_sval2(&x);] ValueBag::from_fill(&f);
    }
}
