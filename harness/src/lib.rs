//! Symbolic harnesses.  Every `h_*` entry makes symbolic inputs with `vp_any`,
//! drives barcoders through its public API only, and compares the result with
//! an oracle written in `oracle.rs` from the symbology standards.
//!
//! The same code runs in three ways: as LLVM IR under `symx`, and natively in
//! the dev and release profiles for replay, where `vp_any` yields the values
//! of a model.

pub mod oracle;
pub mod vp;

mod sym_fixed;
mod sym_var;
mod c128;
mod reject;
mod gens;
mod pure;
mod near;
#[cfg(feature = "img")]
mod img;
