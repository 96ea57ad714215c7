pub use jsstub::js::*;
