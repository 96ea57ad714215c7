pub use jsstub::JsFuture;
