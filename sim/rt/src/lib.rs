//! Simulator runtime: the choice sequence, the deterministic scheduler, the simulated disk
//! (libc interposition), and the simulated allocator.
//!
//! Only one simulated task runs at any time, so the globals in here are accessed exclusively
//! by whichever task holds the baton.
#![allow(static_mut_refs, clippy::missing_safety_doc)]
pub mod alloc;
pub mod cov;
pub mod ctx;
pub mod disk;
pub mod raw;
pub mod sched;
