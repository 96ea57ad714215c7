//! The real futures crate; only blocking goes through the simulator
pub use real::*;
pub mod executor {
    pub use jsstub::block_on;
}
