pub use jsstub::web::*;
