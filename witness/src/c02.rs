//! Numeric reads are exact or absent.
use value_bag::ValueBag;

macro_rules! ints {
    ($($m:ident: $t:ty;)*) => { $(pub mod $m {
        use super::*;
        ob! {
            C02_u64(x: $t) -> Option<u64> { ValueBag::from(x).to_u64() } spec { if (x as i128) < 0 || (x as i128) > u64::MAX as i128 { None } else { Some(x as u64) } }
            C02_i64(x: $t) -> Option<i64> { ValueBag::from(x).to_i64() } spec { if (x as i128) < i64::MIN as i128 || (x as i128) > i64::MAX as i128 { None } else { Some(x as i64) } }
            C02_u128(x: $t) -> Option<u128> { ValueBag::from(x).to_u128() } spec { if (x as i128) < 0 { None } else { Some(x as u128) } }
            C02_i128(x: $t) -> Option<i128> { ValueBag::from(x).to_i128() } spec { Some(x as i128) }
            C02_f64(x: $t) -> Option<f64> { ValueBag::from(x).to_f64() } spec { if (x as i128) < i32::MIN as i128 || (x as i128) > (if <$t>::MIN == 0 { u32::MAX as i128 } else { i32::MAX as i128 }) { None } else { Some(x as f64) } }
            C02_as_f64(x: $t) -> f64 { ValueBag::from(x).as_f64() } spec { x as f64 }
        }
    })* }
}
ints! { u8_: u8; u16_: u16; u32_: u32; u64_: u64; usize_: usize; i8_: i8; i16_: i16; i32_: i32; i64_: i64; isize_: isize; }

macro_rules! big {
    ($($m:ident: $t:ty;)*) => { $(pub mod $m {
        use super::*;
        ob! {
            C02_u64(x: &'a $t) -> Option<u64> { ValueBag::from(x).to_u64() } spec { let x = *x; if x < (0 as $t) || x > u64::MAX as $t { None } else { Some(x as u64) } }
            C02_i64(x: &'a $t) -> Option<i64> { ValueBag::from(x).to_i64() } spec { let x = *x; if (<$t>::MIN != 0 && x < (i64::MIN as $t)) || x > i64::MAX as $t { None } else { Some(x as i64) } }
            C02_u128(x: &'a $t) -> Option<u128> { ValueBag::from(x).to_u128() } spec { let x = *x; if x < (0 as $t) { None } else { Some(x as u128) } }
            C02_i128(x: &'a $t) -> Option<i128> { ValueBag::from(x).to_i128() } spec { let x = *x; if <$t>::MIN == 0 && x > i128::MAX as $t { None } else { Some(x as i128) } }
            C02_f64(x: &'a $t) -> Option<f64> { ValueBag::from(x).to_f64() } spec { let x = *x; if <$t>::MIN == 0 { if x > u32::MAX as $t { None } else { Some(x as f64) } } else { if x < i32::MIN as $t || x > i32::MAX as $t { None } else { Some(x as f64) } } }
            C02_as_f64(x: &'a $t) -> f64 { ValueBag::from(x).as_f64() } spec { *x as f64 }
        }
    })* }
}
big! { u128_: u128; i128_: i128; }

macro_rules! narrow {
    ($($m:ident: $t:ty, $lo:expr, $hi:expr;)*) => { $(pub mod $m {
        use super::*;
        ob! {
            C02_try_from_i64(x: i64) -> Option<$t> { <$t>::try_from(ValueBag::from(x)).ok() } spec { if (x as i128) < $lo as i128 || (x as i128) > $hi as i128 { None } else { Some(x as $t) } }
            C02_try_from_u64(x: u64) -> Option<$t> { <$t>::try_from(ValueBag::from(x)).ok() } spec { if (x as i128) < $lo as i128 || (x as i128) > $hi as i128 { None } else { Some(x as $t) } }
            C02_try_from_i128(x: &'a i128) -> Option<$t> { <$t>::try_from(ValueBag::from(x)).ok() } spec { let x = *x; if x < $lo as i128 || x > $hi as i128 { None } else { Some(x as $t) } }
            C02_try_from_u128(x: &'a u128) -> Option<$t> { <$t>::try_from(ValueBag::from(x)).ok() } spec { let x = *x; if x > $hi as u128 { None } else { Some(x as $t) } }
            C02_try_from_f64(x: f64) -> Option<$t> { <$t>::try_from(ValueBag::from(x)).ok() } spec { None }
            C02_try_from_str(x: &'a str) -> Option<$t> { <$t>::try_from(ValueBag::from(x)).ok() } spec { None }
        }
    })* }
}
narrow! {
    try_u8: u8, 0, u8::MAX; try_u16: u16, 0, u16::MAX; try_u32: u32, 0, u32::MAX; try_u64: u64, 0, u64::MAX; try_usize: usize, 0, usize::MAX;
    try_i8: i8, i8::MIN, i8::MAX; try_i16: i16, i16::MIN, i16::MAX; try_i32: i32, i32::MIN, i32::MAX; try_i64: i64, i64::MIN, i64::MAX; try_isize: isize, isize::MIN, isize::MAX;
}

ob! {
    C02_f64_u64(x: f64) -> Option<u64> { ValueBag::from(x).to_u64() } spec { None }
    C02_f64_i64(x: f64) -> Option<i64> { ValueBag::from(x).to_i64() } spec { None }
    C02_f64_u128(x: f64) -> Option<u128> { ValueBag::from(x).to_u128() } spec { None }
    C02_f64_i128(x: f64) -> Option<i128> { ValueBag::from(x).to_i128() } spec { None }
    C02_f64_f64(x: f64) -> Option<f64> { ValueBag::from(x).to_f64() } spec { Some(x) }
    C02_f64_as(x: f64) -> f64 { ValueBag::from(x).as_f64() } spec { x }
    C02_f32_f64(x: f32) -> Option<f64> { ValueBag::from(x).to_f64() } spec { Some(x as f64) }
    C02_f32_as(x: f32) -> f64 { ValueBag::from(x).as_f64() } spec { x as f64 }
    C02_bool_as(x: bool) -> f64 { ValueBag::from(x).as_f64() } spec { f64::NAN }
    C02_char_as(x: char) -> f64 { ValueBag::from(x).as_f64() } spec { f64::NAN }
    C02_str_as(x: &'a str) -> f64 { ValueBag::from(x).as_f64() } spec { f64::NAN }
    C02_none_as() -> f64 { ValueBag::empty().as_f64() } spec { f64::NAN }
    C02_try_u128_u64(x: u64) -> Option<u128> { u128::try_from(ValueBag::from(x)).ok() } spec { Some(x as u128) }
    C02_try_u128_i64(x: i64) -> Option<u128> { u128::try_from(ValueBag::from(x)).ok() } spec { if x < 0 { None } else { Some(x as u128) } }
    C02_try_i128_u64(x: u64) -> Option<i128> { i128::try_from(ValueBag::from(x)).ok() } spec { Some(x as i128) }
    C02_try_i128_i64(x: i64) -> Option<i128> { i128::try_from(ValueBag::from(x)).ok() } spec { Some(x as i128) }
    C02_try_u128_u128(x: &'a u128) -> Option<u128> { u128::try_from(ValueBag::from(x)).ok() } spec { Some(*x) }
    C02_try_u128_i128(x: &'a i128) -> Option<u128> { u128::try_from(ValueBag::from(x)).ok() } spec { if *x < 0 { None } else { Some(*x as u128) } }
    C02_try_i128_u128(x: &'a u128) -> Option<i128> { i128::try_from(ValueBag::from(x)).ok() } spec { if *x > i128::MAX as u128 { None } else { Some(*x as i128) } }
    C02_try_i128_i128(x: &'a i128) -> Option<i128> { i128::try_from(ValueBag::from(x)).ok() } spec { Some(*x) }
    C02_try_f64_u64(x: u64) -> Option<f64> { f64::try_from(ValueBag::from(x)).ok() } spec { if x > u32::MAX as u64 { None } else { Some(x as f64) } }
    C02_try_f64_f64(x: f64) -> Option<f64> { f64::try_from(ValueBag::from(x)).ok() } spec { Some(x) }
    C02_try_bool(x: bool) -> Option<bool> { bool::try_from(ValueBag::from(x)).ok() } spec { Some(x) }
    C02_try_char(x: char) -> Option<char> { char::try_from(ValueBag::from(x)).ok() } spec { Some(x) }
}
