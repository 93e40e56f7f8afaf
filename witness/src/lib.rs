//! Obligations, stated on the public API only.
//!
//! `ob!` pairs a use of the library (`imp`) with the behaviour it must have (`spec`).
//! Nothing here is ever executed: the analysis in ../vbai inspects the compiled program.
#![cfg(not(feature = "bare"))]
#![allow(unused, non_snake_case, clippy::all)]

macro_rules! ob {
    ($($id:ident ( $($a:ident : $t:ty),* $(,)? ) -> $r:ty { $($i:tt)* } spec { $($s:tt)* })*) => {
        $(pub mod $id {
            use super::*;
            pub fn imp<'a>($($a: $t),*) -> $r { $($i)* }
            pub fn spec<'a>($($a: $t),*) -> $r { $($s)* }
        })*
    };
}

#[macro_use]
mod cons;
#[macro_use]
mod bags;
mod prelude;
pub mod opaque;
pub mod shim;
pub mod user;
#[cfg(feature = "serde1")]
pub mod ser;
#[cfg(feature = "sval2")]
pub mod stm;

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c05;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c22;
pub mod c23;
pub mod kinds;
pub mod structured;
pub mod vals;
