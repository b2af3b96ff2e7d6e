//! Reference models of documents, edits and tracked positions, generators,
//! and the bridge to the real input_tree crate (public API only).
pub mod codec;
pub mod gen;
pub mod marks;
pub mod model;
pub mod printed;
pub mod real;

pub use model::*;
