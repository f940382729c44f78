//! Type-erased access to derived validators, shared by all type crates.
pub mod fns;
pub mod ops;
pub mod spec;
pub mod src;
pub mod web;

pub use ops::*;
pub use simcore;
pub use spec::*;
pub use src::*;
pub use validators;
