//! The standard library, except that the iteration order of its hash tables is chosen by the model checker.
pub use ::std::*;
// With `plain` the tables are the real ones (when the code under test needs something the controlled ones lack).
#[cfg(not(feature = "plain"))]
pub mod collections;
pub mod order;
