#![allow(unknown_lints, invalid_runtime_symbol_definitions)]
#![allow(clippy::missing_safety_doc, static_mut_refs)]
//! Deterministic simulator core. See /verif/DESIGN.md.
pub mod alloc;
pub mod api;
pub mod plan;
pub mod raw;
pub mod rng;
pub mod sched;
pub mod shm;
pub mod vfs;
pub use api::*;
pub use plan::{Fault, Op, Plan, SchedP};
pub use rng::Rng;

#[global_allocator]
static GLOBAL: alloc::DetAlloc = alloc::DetAlloc;
