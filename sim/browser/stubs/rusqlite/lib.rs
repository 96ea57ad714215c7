//! Nothing is simulated: the example that uses sqlite is never run
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("no sqlite here")
    }
}
impl std::error::Error for Error {}
pub struct OpenFlags;
impl OpenFlags {
    pub const SQLITE_OPEN_READ_WRITE: OpenFlags = OpenFlags;
    pub const SQLITE_OPEN_CREATE: OpenFlags = OpenFlags;
    pub const SQLITE_OPEN_NO_MUTEX: OpenFlags = OpenFlags;
}
impl std::ops::BitOr for OpenFlags {
    type Output = OpenFlags;
    fn bitor(self, _: OpenFlags) -> OpenFlags {
        OpenFlags
    }
}
pub struct Connection;
pub struct Row;
impl Row {
    pub fn get<T: Default>(&self, _: usize) -> Result<T, Error> {
        Err(Error)
    }
}
impl Connection {
    pub fn open_with_flags_and_vfs(_: &str, _: OpenFlags, _: &str) -> Result<Self, Error> {
        Err(Error)
    }
    pub fn execute_batch(&self, _: &str) -> Result<(), Error> {
        Err(Error)
    }
    pub fn execute(&self, _: &str, _: [(); 0]) -> Result<usize, Error> {
        Err(Error)
    }
    pub fn query_row<T>(&self, _: &str, _: [(); 0], _: impl FnOnce(&Row) -> Result<T, Error>) -> Result<T, Error> {
        Err(Error)
    }
    pub fn cache_flush(&self) -> Result<(), Error> {
        Err(Error)
    }
}
