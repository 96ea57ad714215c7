//! The real crate, plus the name `OwnedBlob` the browser package expects from it
pub use real::*;
pub mod store {
    pub use real::store::*;
    pub type OwnedBlob = Blob<'static>;
}
