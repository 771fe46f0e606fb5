//! Plans, reference models and oracles. Nothing here calls the library under test; never instrumented.
pub mod huge;
pub mod plan;
pub mod probe;
pub mod table;
pub use plan::*;
