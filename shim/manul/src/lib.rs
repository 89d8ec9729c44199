//! Stand-in for `manul` (see Cargo.toml).
#![allow(clippy::all)]
pub mod format;
pub mod protocol;
pub mod session {
    pub use crate::protocol::LocalError;
}
pub mod utils;
