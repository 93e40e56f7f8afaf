//! Obligation shapes.

/// One captured kind: a bag and everything the library may do with it.
///
/// `reads`: what the accessors give (C04); `vis`: the visitor call (C06); `dbg`/`dsp`: the
/// formatting (C07); `ser`: the serializer calls (C08); `stm`: the stream calls (C09);
/// `tok`: the test token (C24).
macro_rules! kind {
    (@out $n:ident ( $($a:ident : $t:ty),* ) $($rest:tt)*) => {
        pub mod $n {
            use super::*;
            kind! { @body ( $($a : $t),* ) $($rest)* }
        }
    };
    (@body ( $($a:ident : $t:ty),* ) [$($set:tt)*] bag $bag:expr; dbg |$df:ident| $de:expr; dsp |$sf:ident| $se:expr;
     ser |$s:ident| $sere:expr; stm |$m:ident| $me:expr; tok $tok:expr) => {
            pub mod C11 { use super::*;
                same! { by_ref($($a: $t),*) { $($set)* let b0 = $bag; } b0.by_ref(), { $($set)* } $bag }
                same! { clone($($a: $t),*) { $($set)* let b0 = $bag; } b0.clone(), { $($set)* } $bag }
                same! { mixed($($a: $t),*) { $($set)* let b0 = $bag; let b1 = b0.clone(); let b2 = b1.by_ref(); } b2.clone(), { $($set)* } $bag }
            }
            pub mod C07 { use super::*; ob! {
                debug(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Debug::fmt(&$bag, f) } spec { $($set)* let $df = f; $de }
                display(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($set)* fmt::Display::fmt(&$bag, f) } spec { $($set)* let $sf = f; $se }
            } }
            #[cfg(feature = "serde1")]
            pub mod C08 { use super::*; ob! {
                serialize(t: Tok, $($a: $t),*) -> Result<Done, Fail> { $($set)* $bag.serialize(Ser(t)) } spec { $($set)* let $s = Ser(t); $sere }
            } }
            #[cfg(feature = "sval2")]
            pub mod C09 { use super::*; ob! {
                stream(t: Tok, $($a: $t),*) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { $($set)* let mut s = Stm(t); let $m = &mut s; $me }
                stream_ref(t: Tok, $($a: $t),*) -> sval::Result { $($set)* let b = $bag; let mut s = Stm(t); value_bag_sval2::lib_ref::ValueRef::stream_ref(&b, &mut s) } spec { $($set)* let mut s = Stm(t); let $m = &mut s; $me }
            } }
            #[cfg(feature = "test")]
            pub mod C24 { use super::*; ob! {
                token($($a: $t),*) -> TestToken { $($set)* $bag.to_test_token() } spec { $($set)* $tok }
            } }
    };
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] bag $bag:expr; reads $($rest:tt)*) => {
        kind! { $n($($a: $t),*) [$($set)*] bag $bag; any $bag; reads $($rest)* }
    };
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] bag $bag:expr; any $any:expr;
     reads $rd:ident |$rt:ident| $re:expr; vis |$v:ident| $ve:expr; dbg |$df:ident| $de:expr; dsp |$sf:ident| $se:expr;
     ser |$s:ident| $sere:expr; stm |$m:ident| $me:expr; tok $tok:expr) => {
        pub mod $n {
            use super::*;
            pub mod C04 { use super::*; ob! {
                reads(t: Tok, $($a: $t),*) -> () { let mut t = t; $($set)* user::$rd(&mut t, &$bag) } spec { let mut t = t; $($set)* let $rt = &mut t; $re }
            } }
            pub mod C06 { use super::*; ob! {
                visit(t: Tok, $($a: $t),*) -> Result<(), Error> { $($set)* $bag.visit(Vis(t)) } spec { $($set)* let mut w = Vis(t); let $v = &mut w; $ve }
                visit_mut(t: Tok, $($a: $t),*) -> Result<(), Error> { let mut w = Vis(t); $($set)* $bag.visit(&mut w) } spec { $($set)* let mut w = Vis(t); let $v = &mut w; $ve }
                visit_any(t: Tok, $($a: $t),*) -> Result<(), Error> { $($set)* $bag.visit(AnyVis(t)) } spec { $($set)* let mut t = t; user::observe(&mut t, &$any) }
            } }
            kind! { @body ( $($a : $t),* ) [$($set)*] bag $bag; dbg |$df| $de; dsp |$sf| $se; ser |$s| $sere; stm |$m| $me; tok $tok }
        }
    };
}

/// Two bags that must be indistinguishable to every consumer.
macro_rules! same {
    ($n:ident ( $($a:ident : $t:ty),* ) { $($si:tt)* } $imp:expr, { $($ss:tt)* } $spec:expr) => { same! { reads $n($($a: $t),*) { $($si)* } $imp, { $($ss)* } $spec } };
    ($rd:ident $n:ident ( $($a:ident : $t:ty),* ) { $($si:tt)* } $imp:expr, { $($ss:tt)* } $spec:expr) => {
        pub mod $n { use super::*; ob! {
            reads(t: Tok, $($a: $t),*) -> () { let mut t = t; $($si)* user::$rd(&mut t, &$imp) } spec { let mut t = t; $($ss)* user::$rd(&mut t, &$spec) }
            visit(t: Tok, $($a: $t),*) -> Result<(), Error> { $($si)* $imp.visit(Vis(t)) } spec { $($ss)* $spec.visit(Vis(t)) }
            debug(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($si)* fmt::Debug::fmt(&$imp, f) } spec { $($ss)* fmt::Debug::fmt(&$spec, f) }
            display(f: &'a mut fmt::Formatter<'a>, $($a: $t),*) -> fmt::Result { $($si)* fmt::Display::fmt(&$imp, f) } spec { $($ss)* fmt::Display::fmt(&$spec, f) }
        }
        #[cfg(feature = "serde1")] ob! {
            serialize(t: Tok, $($a: $t),*) -> Result<Done, Fail> { $($si)* $imp.serialize(Ser(t)) } spec { $($ss)* $spec.serialize(Ser(t)) }
        }
        #[cfg(feature = "sval2")] ob! {
            stream(t: Tok, $($a: $t),*) -> sval::Result { $($si)* let b = $imp; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { $($ss)* let b = $spec; let mut s = Stm(t); sval::Value::stream(&b, &mut s) }
        }
        #[cfg(feature = "test")] ob! {
            token($($a: $t),*) -> TestToken { $($si)* $imp.to_test_token() } spec { $($ss)* $spec.to_test_token() }
        } }
    };
}

/// Two bags whose plainly formatted text agrees, and every other observation but structure.
macro_rules! same_text_plain {
    ($n:ident ( $($a:ident : $t:ty),* ) { $($si:tt)* } $imp:expr, { $($ss:tt)* } $spec:expr) => {
        pub mod $n { use super::*; ob! {
            reads(t: Tok, $($a: $t),*) -> () { let mut t = t; $($si)* user::reads(&mut t, &$imp) } spec { let mut t = t; $($ss)* user::reads(&mut t, &$spec) }
            visit(t: Tok, $($a: $t),*) -> Result<(), Error> { $($si)* $imp.visit(Vis(t)) } spec { $($ss)* $spec.visit(Vis(t)) }
            debug($($a: $t),*) -> String { $($si)* user::text(format_args!("{:?}", $imp)) } spec { $($ss)* user::text(format_args!("{:?}", $spec)) }
            display($($a: $t),*) -> String { $($si)* user::text(format_args!("{}", $imp)) } spec { $($ss)* user::text(format_args!("{}", $spec)) }
        }
        #[cfg(feature = "test")] ob! {
            token($($a: $t),*) -> TestToken { $($si)* $imp.to_test_token() } spec { $($ss)* $spec.to_test_token() }
        } }
    };
}
macro_rules! same_serde {
    ($n:ident ( $($a:ident : $t:ty),* ) { $($si:tt)* } $imp:expr, { $($ss:tt)* } $spec:expr) => {
        #[cfg(feature = "serde1")] pub mod $n { use super::*; ob! {
            serialize(t: Tok, $($a: $t),*) -> Result<Done, Fail> { $($si)* $imp.serialize(Ser(t)) } spec { $($ss)* $spec.serialize(Ser(t)) }
        } }
    };
}
macro_rules! same_sval {
    ($n:ident ( $($a:ident : $t:ty),* ) { $($si:tt)* } $imp:expr, { $($ss:tt)* } $spec:expr) => {
        #[cfg(feature = "sval2")] pub mod $n { use super::*; ob! {
            stream(t: Tok, $($a: $t),*) -> sval::Result { $($si)* let b = $imp; let mut s = Stm(t); sval::Value::stream(&b, &mut s) } spec { $($ss)* let b = $spec; let mut s = Stm(t); sval::Value::stream(&b, &mut s) }
        } }
    };
}
macro_rules! same_text_serde {
    ($n:ident $($r:tt)*) => { pub mod $n { use super::*; same_text_plain! { plain $($r)* } same_serde! { serde $($r)* } } };
}
macro_rules! same_text_sval {
    ($n:ident $($r:tt)*) => { pub mod $n { use super::*; same_text_plain! { plain $($r)* } same_sval! { sval2 $($r)* } } };
}
/// Two bags whose plainly formatted text and every other observation agree.
macro_rules! same_text {
    ($n:ident $($r:tt)*) => { pub mod $n { use super::*; same_text_plain! { plain $($r)* } same_serde! { serde $($r)* } same_sval! { sval2 $($r)* } } };
}
