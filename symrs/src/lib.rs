//! Symbolic scalar for executing egobox's real Rust code symbolically.
//!
//! feature `sym`: `Sym` is a NaN-boxed reference into an expression DAG, comparisons fork the
//! execution path (re-execution based), and an SMT solver decides feasibility and assertions.
//! feature `nat`: `Sym` is plain f64 and the same harness replays a counterexample natively.
#![allow(clippy::all)]
#![allow(non_snake_case, dead_code)]

#[cfg(feature = "sym")]
mod engine;
#[cfg(feature = "sym")]
mod num;
#[cfg(feature = "sym")]
mod poly;
#[cfg(feature = "sym")]
mod smt;
#[cfg(feature = "sym")]
pub use engine::*;
#[cfg(feature = "sym")]
pub use num::*;

#[cfg(feature = "nat")]
mod nat;
#[cfg(feature = "nat")]
pub use nat::*;

pub mod h;
pub mod stubs;

/// replay file format shared by both builds
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize, PartialEq)]
pub enum Event {
    /// named scalar input (bits of the f64)
    Input(String, u64),
    /// named nondeterministic choice
    Choose(String, u64),
    /// float draw in [0,1) of the stubbed RNG (bits of the f64)
    DrawF(u64),
    /// raw 64-bit integer draw of the stubbed RNG
    DrawI(u64),
}

#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Replay {
    pub harness: String,
    pub property: String,
    pub tag: String,
    pub kind: String,
    pub events: Vec<Event>,
    /// values the symbolic build predicts for observed quantities
    pub observed: Vec<(String, u64)>,
}
