pub mod gen;
pub mod runner;
pub mod toy;
pub mod toyx;
pub use ark_bls12_381::Fr;
pub use gen::*;
pub use runner::*;
pub use toy::{Bls, Eng, Toy, T};
