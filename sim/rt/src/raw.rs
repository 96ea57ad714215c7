//! Raw system calls that bypass the interposed libc symbols.
use std::arch::asm;

#[inline]
pub unsafe fn sys6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}
#[inline]
pub unsafe fn sys3(n: i64, a: i64, b: i64, c: i64) -> i64 {
    sys6(n, a, b, c, 0, 0, 0)
}
#[inline]
pub unsafe fn sys4(n: i64, a: i64, b: i64, c: i64, d: i64) -> i64 {
    sys6(n, a, b, c, d, 0, 0)
}

pub fn futex_wait(word: *const u32, val: u32) {
    unsafe {
        sys4(libc::SYS_futex, word as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, 0);
    }
}
pub fn futex_wake(word: *const u32) {
    unsafe {
        sys3(libc::SYS_futex, word as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, i32::MAX as i64);
    }
}
pub fn pwrite_all(fd: i32, mut data: &[u8], mut off: u64) {
    while !data.is_empty() {
        let r = unsafe { sys4(libc::SYS_pwrite64, fd as i64, data.as_ptr() as i64, data.len() as i64, off as i64) };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        assert!(r > 0, "raw pwrite failed {}", r);
        data = &data[r as usize..];
        off += r as u64;
    }
}
/// Reads up to data.len() bytes, returns how many were there
pub fn pread_full(fd: i32, data: &mut [u8], off: u64) -> usize {
    let mut n = 0;
    while n < data.len() {
        let r = unsafe {
            sys4(libc::SYS_pread64, fd as i64, data[n..].as_mut_ptr() as i64, (data.len() - n) as i64, (off + n as u64) as i64)
        };
        if r == -(libc::EINTR as i64) {
            continue;
        }
        assert!(r >= 0, "raw pread failed {}", r);
        if r == 0 {
            break;
        }
        n += r as usize;
    }
    n
}
pub fn file_size(fd: i32) -> u64 {
    unsafe {
        let mut st: libc::stat64 = std::mem::zeroed();
        let r = sys3(libc::SYS_fstat, fd as i64, &mut st as *mut _ as i64, 0);
        assert!(r == 0);
        st.st_size as u64
    }
}
pub fn ftruncate(fd: i32, len: u64) -> i64 {
    unsafe { sys3(libc::SYS_ftruncate, fd as i64, len as i64, 0) }
}
pub fn close(fd: i32) {
    unsafe {
        sys3(libc::SYS_close, fd as i64, 0, 0);
    }
}
pub fn memfd() -> i32 {
    let name = b"simdisk\0";
    let r = unsafe { sys3(libc::SYS_memfd_create, name.as_ptr() as i64, 1, 0) };
    if r >= 0 {
        return r as i32;
    }
    // fall back to an unlinked temporary file
    let dir = b"/tmp\0";
    let r = unsafe {
        sys4(libc::SYS_openat, libc::AT_FDCWD as i64, dir.as_ptr() as i64,
            (libc::O_TMPFILE | libc::O_RDWR | libc::O_CLOEXEC) as i64, 0o600)
    };
    assert!(r >= 0, "cannot create a simulated disk: {}", r);
    r as i32
}
pub fn stderr(msg: &str) {
    unsafe {
        sys3(libc::SYS_write, 2, msg.as_ptr() as i64, msg.len() as i64);
    }
}

/// Standard output goes nowhere while this lives
pub struct Quiet(i32);
impl Quiet {
    pub fn new() -> Quiet {
        unsafe {
            let saved = sys3(libc::SYS_dup, 1, 0, 0) as i32;
            let null = sys4(libc::SYS_openat, libc::AT_FDCWD as i64, b"/dev/null\0".as_ptr() as i64, libc::O_WRONLY as i64, 0);
            sys3(libc::SYS_dup3, null, 1, 0);
            sys3(libc::SYS_close, null, 0, 0);
            Quiet(saved)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe {
            sys3(libc::SYS_dup3, self.0 as i64, 1, 0);
            sys3(libc::SYS_close, self.0 as i64, 0, 0);
        }
    }
}
