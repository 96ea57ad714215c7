pub use jsstub::ThreadPool;
