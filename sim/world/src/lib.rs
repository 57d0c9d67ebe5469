//! The simulated world: reference model, module and fault generators. Knows nothing of the
//! library under test.
pub mod enc;
pub mod fault;
pub mod gen;
pub mod model;
pub mod ops;
pub mod rng;
pub mod validate;
