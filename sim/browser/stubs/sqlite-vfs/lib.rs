//! The part of the sqlite-vfs interface the browser package implements
use std::ffi::CStr;
pub type VfsError = i32;
pub type VfsResult<T> = Result<T, VfsError>;
pub const SQLITE_IOERR: VfsError = 10;
#[derive(Debug, Clone, Default)]
pub struct OpenOptions;
pub trait File {
    fn read(&mut self, start: u64, buf: &mut [u8]) -> VfsResult<usize>;
    fn write(&mut self, start: u64, buf: &[u8]) -> VfsResult<usize>;
    fn file_size(&self) -> VfsResult<u64>;
    fn truncate(&mut self, size: u64) -> VfsResult<()>;
    fn sync(&mut self) -> VfsResult<()>;
}
impl File for Box<dyn File> {
    fn read(&mut self, start: u64, buf: &mut [u8]) -> VfsResult<usize> {
        (**self).read(start, buf)
    }
    fn write(&mut self, start: u64, buf: &[u8]) -> VfsResult<usize> {
        (**self).write(start, buf)
    }
    fn file_size(&self) -> VfsResult<u64> {
        (**self).file_size()
    }
    fn truncate(&mut self, size: u64) -> VfsResult<()> {
        (**self).truncate(size)
    }
    fn sync(&mut self) -> VfsResult<()> {
        (**self).sync()
    }
}
pub trait Vfs {
    type File: File;
    fn open(&mut self, path: &CStr, opts: OpenOptions) -> VfsResult<Self::File>;
    fn delete(&mut self, path: &CStr) -> VfsResult<()>;
    fn exists(&mut self, path: &CStr) -> VfsResult<bool>;
}
pub fn register<V: Vfs>(_name: &str, _vfs: V) -> Result<(), VfsError> {
    Err(SQLITE_IOERR)
}
