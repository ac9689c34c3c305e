//! The part of uniffi that the wrapper's source uses.  The scaffolding it would generate from the UDL
//! lifts arguments and lowers results field by field; here the Rust side is called directly.
pub use anyhow::{Error, Result};

#[macro_export]
macro_rules! include_scaffolding {
    ($name:expr) => {
        pub trait UniffiCustomTypeConverter {
            type Builtin;
            fn into_custom(val: Self::Builtin) -> $crate::Result<Self>
            where
                Self: Sized;
            fn from_custom(obj: Self) -> Self::Builtin;
        }
    };
}
