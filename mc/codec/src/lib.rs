pub mod buffer;
pub mod lattice;
pub mod prim;
pub mod real;
