//! Re-borrowing and cloning any number of times.
use crate::prelude::*;

macro_rules! reborrow {
    ($n:ident ( $($a:ident : $t:ty),* ) [$($set:tt)*] $bag:expr) => {
        pub mod $n { use super::*; pub mod C11 { use super::*;
            same! { by_ref2($($a: $t),*) { $($set)* let b0 = $bag; let b1 = b0.by_ref(); } b1.by_ref(), { $($set)* } $bag }
            same! { clone2($($a: $t),*) { $($set)* let b0 = $bag; let b1 = b0.clone(); drop(b0); } b1.clone(), { $($set)* } $bag }
            same! { cloned_ref($($a: $t),*) { $($set)* let b0 = $bag; let b1 = b0.clone(); let b2 = b1.by_ref(); let b3 = b2.by_ref(); } b3.clone(), { $($set)* } $bag }
        } }
    };
}
each_bag! { reborrow }
