//! Generic capture recognises primitives.
use crate::prelude::*;

// the framework has no support for these
macro_rules! with_sval {
    (usize_, $($r:tt)*) => {};
    (isize_, $($r:tt)*) => {};
    ($n:ident, $($r:tt)*) => { $($r)* };
}
// borrowed kinds cannot be rebuilt from a copy
macro_rules! opt {
    (u128_, $o:ident, $e:expr) => { ValueBag::from($o.as_ref().unwrap()) };
    (i128_, $o:ident, $e:expr) => { ValueBag::from($o.as_ref().unwrap()) };
    (string, $o:ident, $e:expr) => { ValueBag::from($o.as_ref().unwrap().as_str()) };
    ($n:ident, $o:ident, $e:expr) => { $e };
}
macro_rules! captured {
    ($($f:ident)*, $n:ident($x:ident: $t:ty) $spec:expr) => {
        pub mod $n { use super::*; $(same! { $f($x: $t) {} ValueBag::$f(&$x), {} $spec })* }
    };
}
macro_rules! all {
    ($($n:ident: $t:ty, |$x:ident| $e:expr;)*) => {
        pub mod C03 { use super::*;
            pub mod plain { use super::*; $(
                captured! { capture_debug capture_display, $n($x: $t) $e }
            )* }
            pub mod some { use super::*; $(
                captured! { capture_debug, $n(o: Option<$t>) match &o { Some($x) => { let $x = $x.clone(); opt!($n, o, $e) } None => ValueBag::empty() } }
            )* }
            #[cfg(feature = "serde1")]
            pub mod serde { use super::*; $(
                captured! { capture_serde1, $n($x: $t) $e }
            )* }
            #[cfg(feature = "sval2")]
            pub mod sval_ { use super::*; $(
                with_sval! { $n, captured! { capture_sval2, $n($x: $t) $e } }
            )* }
        }
    };
}
all! {
    usize_: usize, |x| ValueBag::from(x);
    u8_: u8, |x| ValueBag::from(x);
    u16_: u16, |x| ValueBag::from(x);
    u32_: u32, |x| ValueBag::from(x);
    u64_: u64, |x| ValueBag::from(x);
    u128_: u128, |x| ValueBag::from(&x);
    isize_: isize, |x| ValueBag::from(x);
    i8_: i8, |x| ValueBag::from(x);
    i16_: i16, |x| ValueBag::from(x);
    i32_: i32, |x| ValueBag::from(x);
    i64_: i64, |x| ValueBag::from(x);
    i128_: i128, |x| ValueBag::from(&x);
    f32_: f32, |x| ValueBag::from(x);
    f64_: f64, |x| ValueBag::from(x);
    char_: char, |x| ValueBag::from(x);
    bool_: bool, |x| ValueBag::from(x);
    str_: &'static str, |x| ValueBag::from(x);
}
#[cfg(feature = "std")]
mod strings {
    use super::*;
    all! { string: String, |x| ValueBag::from(x.as_str()); }
}

/// Options through the serialization frameworks.
macro_rules! opts {
    ($($n:ident: $t:ty;)*) => {
        pub mod options { use super::*; pub mod C03 { use super::*; $( pub mod $n { use super::*;
            #[cfg(feature = "serde1")]
            same! { capture_serde1(o: Option<$t>) {} ValueBag::capture_serde1(&o), {} match o { Some(x) => ValueBag::from(x), None => ValueBag::empty() } }
            #[cfg(feature = "sval2")]
            same! { capture_sval2(o: Option<$t>) {} ValueBag::capture_sval2(&o), {} match o { Some(x) => ValueBag::from(x), None => ValueBag::empty() } }
        } )* } }
    };
}
opts! { u64_: u64; i32_: i32; f64_: f64; bool_: bool; char_: char; str_: &'static str; }

/// Shared capture of numbers, booleans and characters.
#[cfg(feature = "owned")]
macro_rules! shared {
    ($($n:ident: $t:ty;)*) => {
        pub mod shared { use super::*; pub mod C03 { use super::*; $( pub mod $n { use super::*;
            same! { debug_(x: $t) { let b = ValueBag::capture_shared_debug(x); } b.by_ref(), {} ValueBag::from(x) }
            same! { display_(x: $t) { let b = ValueBag::capture_shared_display(x); } b.by_ref(), {} ValueBag::from(x) }
            same! { some_(o: Option<$t>) { let b = ValueBag::capture_shared_debug(o); } b.by_ref(), {} match o { Some(x) => ValueBag::from(x), None => ValueBag::empty() } }
            #[cfg(feature = "serde1")]
            same! { serde_(x: $t) { let b = ValueBag::capture_shared_serde1(x); } b.by_ref(), {} ValueBag::from(x) }
            #[cfg(feature = "sval2")]
            with_sval! { $n, same! { sval_(x: $t) { let b = ValueBag::capture_shared_sval2(x); } b.by_ref(), {} ValueBag::from(x) } }
        } )* } }
    };
}
#[cfg(feature = "owned")]
shared! { usize_: usize; u8_: u8; u16_: u16; u32_: u32; u64_: u64; isize_: isize; i8_: i8; i16_: i16; i32_: i32; i64_: i64; f32_: f32; f64_: f64; char_: char; bool_: bool; }

/// Other types, however close to a primitive, stay what they are.
macro_rules! others {
    ($($n:ident: $t:ty;)*) => {
        pub mod others { use super::*; pub mod C03 { use super::*; $( pub mod $n { use super::*; ob! {
            reads(t: Tok, x: $t) -> () { let mut t = t; user::reads(&mut t, &ValueBag::capture_debug(&x)) } spec { let mut t = t; user::no_reads(&mut t) }
        } } )* } }
    };
}
pub struct N64(pub u64);
impl fmt::Debug for N64 {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(&self.0, f)
    }
}
#[repr(transparent)]
pub struct NStr(pub &'static str);
impl fmt::Debug for NStr {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.0, f)
    }
}
others! {
    newtype: N64; newstr: NStr; refu: &'static u64; refi: &'static i64; refs: &'static &'static str; arr: [u64; 1]; arr4: [u8; 4]; tuple: (u64,);
    pair: (u8, u8); unit: (); optopt: Option<Option<u64>>; optnew: Option<N64>; reff: &'static f64; refb: &'static bool; refc: &'static char; bytes: &'static [u8];
    du: D; pu: P;
}
