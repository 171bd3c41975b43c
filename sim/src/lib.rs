//! Deterministic simulator for bitcoin-indexer: a preloaded library that takes the place of the operating system.
#![allow(clippy::missing_safety_doc, static_mut_refs, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
#[global_allocator]
static GLOBAL: alloc::A = alloc::A;
pub mod alloc;
pub mod chain;
pub mod client;
pub mod driver;
pub mod hooks;
#[macro_use]
pub mod json;
pub mod net;
pub mod node;
pub mod ops;
pub mod oracle;
mod res;
pub mod rng;
pub mod scen;
pub mod sched;
pub mod sha;
pub mod sys;
pub mod vfs;
pub mod world;
