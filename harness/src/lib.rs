//! Property-based checks for cam-geom. One binary per property (`src/bin`).
pub mod dd;
pub mod driver;
pub mod gen;
pub mod model;
pub use driver::main_for;
pub mod sig;
pub mod obj;
pub mod tree;
pub mod pool;
pub mod feat;
pub mod calls;
pub mod scalars;
