//! Specification crate: the entry points whose behaviour the analyser decides.
//! It is type-checked against /repo's current source and never executed.
#![allow(dead_code, unused_variables)]
#[macro_use]
pub mod macros;
pub mod stub;
pub mod models;
pub mod scalars;
pub mod strings;
pub mod compound;
pub mod pairs;
pub mod again;
pub mod headers;
pub mod bodies;
pub mod keys;
pub mod odd;
#[cfg(feature = "full")]
pub mod third;
#[cfg(feature = "witness")]
pub mod feat;
#[cfg(feature = "derived")]
pub mod derived;
#[cfg(feature = "derivecount")]
pub mod derivecount;
