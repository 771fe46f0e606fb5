//! Deterministic simulator for multi-threaded code running on real OS threads.
//!
//! Exactly one simulated thread holds the token and runs; everything that could make the interleaving
//! depend on the machine (futexes, thread creation and joining, yields, sleeps, clocks, entropy) is
//! interposed here and decided from one seed. This crate is never instrumented.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]
pub mod alloc;
pub mod hooks;
pub mod rng;
pub mod sched;
pub mod shm;
pub use rng::Rng;
pub use sched::*;
