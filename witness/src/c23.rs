//! Laziness: the captured implementation runs when a bag is consumed, once, and not before.
use crate::prelude::*;
use crate::user::Loud;
use value_bag::fill::Slot;

/// Nothing runs while a bag is made, re-borrowed, copied, inspected and dropped.
macro_rules! lazy {
    ($($(#[$m:meta])* $n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C23 { use super::*; ob! {
            make($($a: $t),*) -> () { $($set)* let b = $bag; let c = b.clone(); let d = c.by_ref(); let e = d.by_ref().clone(); drop(d); } spec { }
            downcast($($a: $t),*) -> bool { $($set)* let b = $bag; b.downcast_ref::<u8>().is_some() } spec { false }
        } } }
    )* };
}
lazy! {
    capture_debug(x: u64) [let x = Loud(x);] ValueBag::capture_debug(&x);
    capture_display(x: u64) [let x = Loud(x);] ValueBag::capture_display(&x);
    from_debug(x: u64) [let x = Loud(x);] ValueBag::from_debug(&x);
    from_display(x: u64) [let x = Loud(x);] ValueBag::from_display(&x);
    dyn_debug(x: u64) [let x = Loud(x);] ValueBag::from_dyn_debug(&x);
    dyn_display(x: u64) [let x = Loud(x);] ValueBag::from_dyn_display(&x);
    fill(x: u64) [let x = Loud(x);] ValueBag::from_fill(&x);
    #[cfg(feature = "error")] capture_error(x: u64) [let x = Loud(x);] ValueBag::capture_error(&x);
    #[cfg(feature = "error")] dyn_error(x: u64) [let x = Loud(x);] ValueBag::from_dyn_error(&x);
    #[cfg(feature = "serde1")] capture_serde(x: u64) [let x = Loud(x);] ValueBag::capture_serde1(&x);
    #[cfg(feature = "serde1")] from_serde(x: u64) [let x = Loud(x);] ValueBag::from_serde1(&x);
    #[cfg(feature = "sval2")] capture_sval(x: u64) [let x = Loud(x);] ValueBag::capture_sval2(&x);
    #[cfg(feature = "sval2")] from_sval(x: u64) [let x = Loud(x);] ValueBag::from_sval2(&x);
    #[cfg(feature = "seq")] from_seq(x: u64) [let x = user::LoudSlice([x, x]);] ValueBag::from_seq_slice(&x);
}
#[cfg(feature = "owned")]
macro_rules! lazy_shared {
    ($($(#[$m:meta])* $n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C23 { use super::*; ob! {
            make($($a: $t),*) -> () { $($set)* let o = $bag; let p = o.clone().to_owned().into_shared(); let b = p.by_ref(); let c = b.clone().to_owned(); let d = c.by_ref().to_shared(); drop(o); drop(d); } spec { }
        } } }
    )* };
}
#[cfg(feature = "owned")]
pub mod shared { use super::*; lazy_shared! {
    debug(x: u64) [let x = Loud(x);] ValueBag::capture_shared_debug(x);
    display(x: u64) [let x = Loud(x);] ValueBag::capture_shared_display(x);
    #[cfg(feature = "error")] error(x: u64) [let x = Loud(x);] ValueBag::capture_shared_error(x);
    #[cfg(feature = "serde1")] serde(x: u64) [let x = Loud(x);] ValueBag::capture_shared_serde1(x);
    #[cfg(feature = "sval2")] sval(x: u64) [let x = Loud(x);] ValueBag::capture_shared_sval2(x);
    #[cfg(feature = "seq")] seq(x: u64) [let x = user::LoudSlice([x, x]);] ValueBag::capture_shared_seq_slice(x);
} }

/// A consumer runs the captured implementation exactly once.
macro_rules! once {
    ($($(#[$m:meta])* $n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr, $x:ident $tr:ident;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C23 { use super::*; ob! {
            debug(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Debug::fmt(&$bag, f) } spec { $($set)* fmt::$tr::fmt(&$x, f) }
            display(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Display::fmt(&$bag, f) } spec { $($set)* fmt::$tr::fmt(&$x, f) }
            visit(t: Tok, $($a: $t),*) -> Result<(), Error> { $($set)* $bag.visit(user::OnceVis(t)) } spec { $($set)* user::OnceVis(t).fmt(&user::$tr(&$x)) }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $($a: $t),*) -> Result<Done, Fail> { $($set)* $bag.serialize(Ser(t)) } spec { $($set)* Ser(t).collect_str(&user::$tr(&$x)) }
        }
        #[cfg(feature = "sval2")] ob! {
            stream(t: Tok, $($a: $t),*) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { $($set)* let mut s = Stm(t); sval::stream_display(&mut s, user::$tr(&$x)) }
        }
        #[cfg(feature = "owned")] ob! {
            to_owned($($a: $t),*) -> () { $($set)* let o = $bag.to_owned(); let p = o.clone(); let b = p.by_ref(); let q = b.to_owned(); drop(q); } spec { $($set)* let _ = user::text(format_args!("{}", user::$tr(&$x))); }
            to_owned_used(t: Tok, $($a: $t),*) -> bool { $($set)* let o = $bag.to_owned(); let p = o.clone().into_shared(); let a = user::text(format_args!("{}", p));  let c = user::text(format_args!("{:?}", o)); true } spec { $($set)* let _ = user::text(format_args!("{}", user::$tr(&$x))); true }
            to_shared($($a: $t),*) -> () { $($set)* let o = $bag.to_shared(); let p = o.clone(); let b = p.by_ref(); let q = b.to_shared(); drop(q); } spec { $($set)* let _ = user::text(format_args!("{}", user::$tr(&$x))); }
        } } }
    )* };
}
pub mod once_ { use super::*; once! {
    capture_debug(x: u64) [let x = Loud(x);] ValueBag::capture_debug(&x), x Debug;
    capture_display(x: u64) [let x = Loud(x);] ValueBag::capture_display(&x), x Display;
    from_debug(x: u64) [let x = Loud(x);] ValueBag::from_debug(&x), x Debug;
    from_display(x: u64) [let x = Loud(x);] ValueBag::from_display(&x), x Display;
    dyn_debug(x: u64) [let x = Loud(x);] ValueBag::from_dyn_debug(&x), x Debug;
    dyn_display(x: u64) [let x = Loud(x);] ValueBag::from_dyn_display(&x), x Display;
    fill_debug(x: u64) [let x = Loud(x); let g = |s: Slot| s.fill_debug(&x);] ValueBag::from_fill(&g), x Debug;
    fill_display(x: u64) [let x = Loud(x); let g = |s: Slot| s.fill_display(&x);] ValueBag::from_fill(&g), x Display;
} }

/// Like `once`, for values that reach consumers as a number.
macro_rules! once_num {
    ($($(#[$m:meta])* $n:ident ( $x:ident ) [$($set:tt)*] $bag:expr, $k:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C23 { use super::*; ob! {
            read($x: u64) -> Option<u64> { $($set)* $bag.to_u64() } spec { opaque::ran($k, $x); Some($x) }
            debug($x: u64) -> () { $($set)* let _ = user::text(format_args!("{:?}", $bag)); } spec { opaque::ran($k, $x); }
            display($x: u64) -> () { $($set)* let _ = user::text(format_args!("{}", $bag)); } spec { opaque::ran($k, $x); }
            visit(t: Tok, $x: u64) -> bool { $($set)* $bag.visit(user::OkVis(t)).is_ok() } spec { opaque::ran($k, $x); let _ = user::OkVis(t).visit_u64($x); true }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $x: u64) -> Result<Done, Fail> { $($set)* $bag.serialize(Ser(t)) } spec { opaque::ran($k, $x); Ser(t).serialize_u64($x) }
        }
        #[cfg(feature = "sval2")] ob! {
            stream(t: Tok, $x: u64) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { opaque::ran($k, $x); let mut s = Stm(t); s.u64($x) }
        }
        #[cfg(feature = "owned")] ob! {
            to_owned($x: u64) -> Option<u64> { $($set)* let o = $bag.to_owned(); let p = o.clone(); let b = p.by_ref(); let q = b.to_owned(); q.by_ref().to_u64() } spec { opaque::ran($k, $x); Some($x) }
            to_shared($x: u64) -> Option<u64> { $($set)* let o = $bag.to_shared(); let p = o.clone(); let b = p.by_ref(); let q = b.to_shared().into_shared(); q.by_ref().to_u64() } spec { opaque::ran($k, $x); Some($x) }
            owned_text($x: u64) -> () { $($set)* let o = $bag.to_owned(); let a = user::text(format_args!("{:?}", o)); let b = user::text(format_args!("{}", o.by_ref())); } spec { opaque::ran($k, $x); }
        } } }
    )* };
}
pub mod nums { use super::*; once_num! {
    fill(x) [let l = Loud(x);] ValueBag::from_fill(&l), 5;
    #[cfg(feature = "serde1")] capture_serde(x) [let l = Loud(x);] ValueBag::capture_serde1(&l), 3;
    #[cfg(feature = "serde1")] from_serde(x) [let l = Loud(x);] ValueBag::from_serde1(&l), 3;
    #[cfg(feature = "sval2")] capture_sval(x) [let l = Loud(x);] ValueBag::capture_sval2(&l), 4;
    #[cfg(feature = "sval2")] from_sval(x) [let l = Loud(x);] ValueBag::from_sval2(&l), 4;
    #[cfg(feature = "serde1")] fill_serde(x) [let l = Loud(x); let g = |s: Slot| s.fill_serde1(&l);] ValueBag::from_fill(&g), 3;
    #[cfg(feature = "sval2")] fill_sval(x) [let l = Loud(x); let g = |s: Slot| s.fill_sval2(&l);] ValueBag::from_fill(&g), 4;
} }

/// An implementation that fails is not run again.
macro_rules! failing {
    ($($(#[$m:meta])* $n:ident ( $x:ident ) [$($set:tt)*] $bag:expr, $k:expr;)*) => { $(
        $(#[$m])*
        pub mod $n { use super::*; pub mod C23 { use super::*; ob! {
            read($x: u64) -> Option<u64> { $($set)* $bag.to_u64() } spec { if opaque::ran_ok($k, $x) { Some($x) } else { None } }
            visit($x: u64) -> () { $($set)* let _ = $bag.visit(user::Silent); } spec { let _ = opaque::ran_ok($k, $x); }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $x: u64) -> Result<Done, Fail> { $($set)* $bag.serialize(Ser(t)) } spec { if opaque::ran_ok($k, $x) { Ser(t).serialize_u64($x) } else { Err(Fail) } }
        }
        #[cfg(feature = "sval2")] ob! {
            stream(t: Tok, $x: u64) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { if opaque::ran_ok($k, $x) { let mut s = Stm(t); s.u64($x) } else { sval::error() } }
        }
        #[cfg(feature = "owned")] ob! {
            to_owned($x: u64) -> Option<u64> { $($set)* let o = $bag.to_owned(); let p = o.clone(); let b = p.by_ref(); let q = b.to_owned(); q.by_ref().to_u64() } spec { if opaque::ran_ok($k, $x) { Some($x) } else { None } }
            to_shared($x: u64) -> Option<u64> { $($set)* let o = $bag.to_shared(); let p = o.clone(); let b = p.by_ref(); let q = b.to_shared().into_shared(); q.by_ref().to_u64() } spec { if opaque::ran_ok($k, $x) { Some($x) } else { None } }
        } } }
    )* };
}
pub mod fails { use super::*; use crate::user::Shaky; failing! {
    fill(x) [let l = Shaky(x);] ValueBag::from_fill(&l), 5;
    #[cfg(feature = "serde1")] capture_serde(x) [let l = Shaky(x);] ValueBag::capture_serde1(&l), 3;
    #[cfg(feature = "serde1")] from_serde(x) [let l = Shaky(x);] ValueBag::from_serde1(&l), 3;
    #[cfg(feature = "sval2")] capture_sval(x) [let l = Shaky(x);] ValueBag::capture_sval2(&l), 4;
    #[cfg(feature = "sval2")] from_sval(x) [let l = Shaky(x);] ValueBag::from_sval2(&l), 4;
    #[cfg(feature = "serde1")] fill_serde(x) [let l = Shaky(x); let g = |s: Slot| s.fill_serde1(&l);] ValueBag::from_fill(&g), 3;
    #[cfg(feature = "sval2")] fill_sval(x) [let l = Shaky(x); let g = |s: Slot| s.fill_sval2(&l);] ValueBag::from_fill(&g), 4;
} }
