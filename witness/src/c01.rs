//! A captured primitive reads back as exactly the value that went in.
use value_bag::ValueBag;

macro_rules! prim {
    ($($m:ident: $t:ty, $from:ident, $to:ident -> $r:ty, $conv:expr;)*) => { $(pub mod $m {
        use super::*;
        ob! {
            C01_typed(x: $t) -> Option<$r> { ValueBag::$from(x).$to() } spec { Some(($conv)(x)) }
            C01_from(x: $t) -> Option<$r> { ValueBag::from(x).$to() } spec { Some(($conv)(x)) }
            C01_from_ref(x: &'a $t) -> Option<$r> { ValueBag::from(x).$to() } spec { Some(($conv)(*x)) }
            C01_from_opt(x: Option<$t>) -> Option<$r> { ValueBag::from(x).$to() } spec { match x { Some(v) => Some(($conv)(v)), None => None } }
            C01_from_option(x: Option<$t>) -> Option<$r> { ValueBag::from_option(x).$to() } spec { match x { Some(v) => Some(($conv)(v)), None => None } }
        }
    })* }
}

prim! {
    u8_: u8, from_u8, to_u64 -> u64, |x| x as u64;
    u16_: u16, from_u16, to_u64 -> u64, |x| x as u64;
    u32_: u32, from_u32, to_u64 -> u64, |x| x as u64;
    u64_: u64, from_u64, to_u64 -> u64, |x| x;
    usize_: usize, from_usize, to_u64 -> u64, |x| x as u64;
    i8_: i8, from_i8, to_i64 -> i64, |x| x as i64;
    i16_: i16, from_i16, to_i64 -> i64, |x| x as i64;
    i32_: i32, from_i32, to_i64 -> i64, |x| x as i64;
    i64_: i64, from_i64, to_i64 -> i64, |x| x;
    isize_: isize, from_isize, to_i64 -> i64, |x| x as i64;
    f64_: f64, from_f64, to_f64 -> f64, |x| x;
    f32_: f32, from_f32, to_f64 -> f64, |x| x as f64;
    bool_: bool, from_bool, to_bool -> bool, |x| x;
    char_: char, from_char, to_char -> char, |x| x;
}

ob! {
    C01_u128_ref(x: &'a u128) -> Option<u128> { ValueBag::from(x).to_u128() } spec { Some(*x) }
    C01_i128_ref(x: &'a i128) -> Option<i128> { ValueBag::from(x).to_i128() } spec { Some(*x) }
    C01_u128_from_ref(x: &'a u128) -> Option<u128> { ValueBag::from_u128_ref(x).to_u128() } spec { Some(*x) }
    C01_i128_from_ref(x: &'a i128) -> Option<i128> { ValueBag::from_i128_ref(x).to_i128() } spec { Some(*x) }
    C01_str(x: &'a str) -> Option<&'a str> { ValueBag::from(x).to_borrowed_str() } spec { Some(x) }
    C01_str_typed(x: &'a str) -> Option<&'a str> { ValueBag::from_str(x).to_borrowed_str() } spec { Some(x) }
    C01_str_ref(x: &'a &'a str) -> Option<&'a str> { ValueBag::from(x).to_borrowed_str() } spec { Some(*x) }
    C01_str_opt(x: Option<&'a str>) -> Option<&'a str> { ValueBag::from(x).to_borrowed_str() } spec { x }
    C01_unit(x: ()) -> bool { ValueBag::from(x).is_empty() } spec { true }
    C01_unit_ref(x: &'a ()) -> bool { ValueBag::from(x).is_empty() } spec { true }
}

#[cfg(feature = "inline-i128")]
ob! {
    C01_u128(x: u128) -> Option<u128> { ValueBag::from(x).to_u128() } spec { Some(x) }
    C01_i128(x: i128) -> Option<i128> { ValueBag::from(x).to_i128() } spec { Some(x) }
}

#[cfg(feature = "alloc")]
mod with_alloc {
    use super::*;
    use std::borrow::Cow;
    ob! {
        C01_string(x: &'a String) -> Option<&'a str> { ValueBag::from(x).to_borrowed_str() } spec { Some(&**x) }
        C01_cow(x: &'a Cow<'a, str>) -> Option<&'a str> { ValueBag::from(x).to_borrowed_str() } spec { Some(match x { Cow::Borrowed(s) => *s, Cow::Owned(s) => &**s }) }
        C01_to_str(x: &'a str) -> Option<Cow<'a, str>> { ValueBag::from(x).to_str() } spec { Some(Cow::Borrowed(x)) }
        C01_try_string(x: &'a str) -> Option<String> { String::try_from(ValueBag::from(x)).ok() } spec { Some(String::from(x)) }
    }
}
