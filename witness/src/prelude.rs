pub use crate::opaque::{self, Done, Tok, D, E};
pub use crate::user::{self, AnyVis, Fail, Vis, P, PE, W};
pub use std::fmt::{self, Write as _};
pub use value_bag::{visit::Visit, Error, ValueBag};
#[cfg(feature = "owned")]
pub use value_bag::OwnedValueBag;
#[cfg(feature = "test")]
pub use value_bag::test::TestToken;
#[cfg(feature = "serde1")]
pub use crate::ser::Ser;
#[cfg(feature = "serde1")]
pub use value_bag_serde1::lib::ser::{Serialize, Serializer};
#[cfg(feature = "sval2")]
pub use crate::stm::Stm;
#[cfg(feature = "sval2")]
pub use value_bag_sval2::lib::{self as sval, Stream};
