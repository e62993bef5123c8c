//! Harnesses deciding the properties of /verif/properties.jsonl.
//!
//! Under `cargo kani` each harness is a proof harness over symbolic inputs.
//! Natively the same function runs on the concrete inputs of a counterexample
//! (see `bin/replay.rs`).
#[macro_use]
pub mod sym;
#[macro_use]
pub mod model;
pub mod props;
