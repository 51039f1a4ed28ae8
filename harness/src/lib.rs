//! Entry points for the static analyser. Nothing here is ever executed: the
//! crate exists so that the compiler monomorphises the public API of justjson,
//! and the driver (/verif/driver) dumps what is reachable from `roots`.
#![allow(unused, clippy::all)]
pub mod roots;
pub mod del;
pub mod obs;
pub mod models;
