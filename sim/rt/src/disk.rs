//! Simulated disks. The code under test gets a real `std::fs::File` on an anonymous memory
//! file; the libc symbols it goes through are defined here, so every system call on such a file
//! is a scheduling point, may be failed, shortened or interrupted, may be the instant of a
//! crash, and is logged so that the surviving image after a power cut can be computed.
use crate::{alloc, ctx, ev, raw, sched};
use libc::{c_int, c_long, c_void, iovec, off64_t, size_t, ssize_t};
use std::collections::BTreeMap;
use std::fs::File;
use std::os::unix::io::FromRawFd;

pub const SECTOR: u64 = 512;
const MAXFD: usize = 4096;

#[derive(Clone, Copy, Default)]
struct FdInfo {
    disk: u32, // index + 1
    epoch: u32,
}
static mut FDS: [FdInfo; MAXFD] = [FdInfo { disk: 0, epoch: 0 }; MAXFD];
static mut DISKS: Vec<Disk> = Vec::new();

enum Pend {
    Write(u64, Vec<u8>),
    Trunc(u64, u64), // old size, new size
}

/// Fault kinds
pub const F_EIO: u32 = 1;
pub const F_ENOSPC: u32 = 2;
pub const F_SHORT: u32 = 4;
pub const F_EINTR: u32 = 8;
pub const F_SYNC: u32 = 16;
pub const F_MMAP: u32 = 32;
pub const F_SEEK: u32 = 64;
pub const F_TRUNC: u32 = 128;
pub const F_READ: u32 = 256;
pub const F_ALL: u32 = 511;

#[derive(Clone, Copy)]
pub struct Faults {
    /// one in `rate` system calls is faulty, 0: none
    pub rate: u64,
    /// fail the call after this many more calls
    pub arm: Option<u64>,
    /// that many further calls fail as well once armed fault fired
    pub burst: u64,
    pub kinds: u32,
    /// file size limit (full disk)
    pub cap: u64,
}
pub const NO_FAULTS: Faults = Faults { rate: 0, arm: None, burst: 0, kinds: 0, cap: u64::MAX };

pub struct Disk {
    fd: i32,
    dfd: i32,
    epoch: u32,
    dead: bool,
    pending: Vec<Pend>,
    wmaps: u32,
    pub faults: Faults,
    /// crash at the n-th further call
    pub crash_at: Option<u64>,
    /// hard errors returned to the code under test in this run
    pub fired: u64,
    pub calls: u64,
    pub writes: u64,
    pub syncs: u64,
    maps: Vec<(usize, usize)>,
    live_fds: u32,
}

impl Disk {
    fn dirty_sectors(&self) -> Vec<u64> {
        let mut v = std::collections::BTreeSet::new();
        for p in &self.pending {
            if let Pend::Write(off, data) = p {
                if !data.is_empty() {
                    v.extend(off / SECTOR..=(off + data.len() as u64 - 1) / SECTOR);
                }
            }
        }
        v.into_iter().collect()
    }
    /// write one sector of the cached file to the device
    fn flush_sector(&self, s: u64) {
        let mut b = [0u8; SECTOR as usize];
        let n = raw::pread_full(self.fd, &mut b, s * SECTOR);
        raw::pwrite_all(self.dfd, &b[..n], s * SECTOR);
    }
}

fn disks() -> &'static mut Vec<Disk> {
    unsafe { &mut *std::ptr::addr_of_mut!(DISKS) }
}
pub fn disk(i: usize) -> &'static mut Disk {
    &mut disks()[i]
}

/// Forget all disks (start of a run)
pub fn reset() {
    for d in disks().drain(..) {
        // left behind by a failed run
        for (a, l) in &d.maps {
            unsafe {
                raw::sys3(libc::SYS_munmap, *a as i64, *l as i64, 0);
            }
        }
        raw::close(d.fd);
        raw::close(d.dfd);
    }
    unsafe {
        for (i, f) in (*std::ptr::addr_of_mut!(FDS)).iter_mut().enumerate() {
            if f.disk != 0 {
                raw::close(i as i32);
            }
            f.disk = 0;
        }
    }
}

pub fn create() -> usize {
    let d = Disk {
        fd: raw::memfd(),
        dfd: raw::memfd(),
        epoch: 1,
        dead: false,
        pending: Vec::new(),
        wmaps: 0,
        faults: NO_FAULTS,
        crash_at: None,
        fired: 0,
        calls: 0,
        writes: 0,
        syncs: 0,
        maps: Vec::new(),
        live_fds: 0,
    };
    disks().push(d);
    disks().len() - 1
}

/// Give a disk initial (durable) contents
pub fn preload(i: usize, size: u64, chunks: &[(u64, Vec<u8>)]) {
    let d = disk(i);
    for fd in [d.fd, d.dfd] {
        raw::ftruncate(fd, size);
        for (off, data) in chunks {
            raw::pwrite_all(fd, data, *off);
        }
    }
}

/// Open the file on the disk
pub fn open(i: usize) -> File {
    let d = disk(i);
    unsafe {
        let fd = raw::sys3(libc::SYS_fcntl, d.fd as i64, libc::F_DUPFD_CLOEXEC as i64, 3);
        assert!(fd >= 0 && (fd as usize) < MAXFD, "dup failed {}", fd);
        raw::sys3(libc::SYS_lseek, fd, 0, libc::SEEK_SET as i64);
        FDS[fd as usize] = FdInfo { disk: i as u32 + 1, epoch: d.epoch };
        d.live_fds += 1;
        File::from_raw_fd(fd as i32)
    }
}

fn copy_extents(from: i32, to: i32) {
    let size = raw::file_size(from);
    raw::ftruncate(to, 0);
    raw::ftruncate(to, size);
    let mut pos = 0u64;
    let mut buf = vec![0u8; 1 << 16];
    while pos < size {
        let data = unsafe { raw::sys3(libc::SYS_lseek, from as i64, pos as i64, libc::SEEK_DATA as i64) };
        if data < 0 {
            break;
        }
        let hole = unsafe { raw::sys3(libc::SYS_lseek, from as i64, data, libc::SEEK_HOLE as i64) };
        let hole = if hole < 0 { size } else { hole as u64 };
        let mut p = data as u64;
        while p < hole {
            let n = ((hole - p) as usize).min(buf.len());
            let n = raw::pread_full(from, &mut buf[..n], p);
            if n == 0 {
                break;
            }
            raw::pwrite_all(to, &buf[..n], p);
            p += n as u64;
        }
        pos = hole;
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Restart {
    /// the process ended; everything the kernel accepted survives
    Process,
    /// power was cut; only synced data surely survives
    Power,
}

/// The process is gone: stop all I/O of its file descriptors
pub fn kill(i: usize) {
    let d = disk(i);
    d.dead = true;
    d.crash_at = None;
}

/// Bring the disk up again for a new process. All descriptors of the old process are dead.
pub fn restart(i: usize, how: Restart) {
    let _h = alloc::harness();
    let d = disk(i);
    let new = raw::memfd();
    match how {
        Restart::Process => {
            // the offset of d.fd does not matter: descriptors are opened with an explicit seek
            copy_extents(d.fd, new);
        }
        Restart::Power => {
            copy_extents(d.dfd, new);
            power_image(d, new);
            raw::close(d.dfd);
            d.dfd = raw::memfd();
            copy_extents(new, d.dfd);
            d.pending.clear();
        }
    }
    raw::close(d.fd);
    d.fd = new;
    d.epoch += 1;
    d.dead = false;
    d.crash_at = None;
    d.wmaps = 0;
}

/// Apply an arbitrary subset of the unsynced sectors and one of the unsynced sizes to `fd`,
/// which holds the durable image.
fn power_image(d: &mut Disk, fd: i32) {
    let c = ctx::ctx();
    let dsize = raw::file_size(fd);
    let mut sizes = vec![dsize];
    let mut secs: BTreeMap<u64, Vec<[u8; SECTOR as usize]>> = BTreeMap::new();
    let mut size = dsize;
    fn load(secs: &mut BTreeMap<u64, Vec<[u8; 512]>>, s: u64, fd: i32) -> &mut Vec<[u8; 512]> {
        secs.entry(s).or_insert_with(|| {
            let mut b = [0u8; 512];
            raw::pread_full(fd, &mut b, s * SECTOR);
            vec![b]
        })
    }
    for p in d.pending.iter() {
        match p {
            Pend::Write(off, data) => {
                let end = off + data.len() as u64;
                let mut pos = *off;
                while pos < end {
                    let s = pos / SECTOR;
                    let n = (end - pos).min((s + 1) * SECTOR - pos);
                    let v = load(&mut secs, s, fd);
                    let mut b = *v.last().unwrap();
                    let o = (pos - s * SECTOR) as usize;
                    let from = (pos - off) as usize;
                    b[o..o + n as usize].copy_from_slice(&data[from..from + n as usize]);
                    v.push(b);
                    pos += n;
                }
                if end > size {
                    size = end;
                    sizes.push(size);
                }
            }
            Pend::Trunc(old, new) => {
                if new < old {
                    let touched: Vec<u64> = secs.range(new / SECTOR..).map(|x| *x.0).collect();
                    for s in touched {
                        let v = secs.get_mut(&s).unwrap();
                        let mut b = *v.last().unwrap();
                        let keep = new.saturating_sub(s * SECTOR).min(SECTOR) as usize;
                        b[keep..].fill(0);
                        v.push(b);
                    }
                }
                size = *new;
                sizes.push(size);
            }
        }
    }
    if d.wmaps > 0 {
        // written through a mapping: the current contents are one more possible version
        let touched: Vec<u64> = (0..raw::file_size(d.fd).div_ceil(SECTOR)).collect();
        for s in touched {
            let mut b = [0u8; 512];
            raw::pread_full(d.fd, &mut b, s * SECTOR);
            let v = load(&mut secs, s, fd);
            if *v.last().unwrap() != b {
                v.push(b);
            }
        }
    }
    // mostly extreme choices, sometimes arbitrary ones
    let mode = c.draw(4);
    let si = match mode {
        1 => sizes.len() - 1,
        _ => c.draw(sizes.len() as u64) as usize,
    };
    let final_size = sizes[si];
    let mut lost = 0;
    let n = secs.len() as u64;
    let cut = if mode == 3 { c.draw(n + 1) } else { 0 };
    for (k, (s, v)) in secs.iter().enumerate() {
        let i = match mode {
            0 => c.draw(v.len() as u64) as usize,
            1 => v.len() - 1,
            2 => {
                // header lives in sector 0: persist it, lose the rest, or the reverse
                if (*s == 0) == (cut == 0) { v.len() - 1 } else { c.draw(v.len() as u64) as usize }
            }
            _ => if (k as u64) < cut { v.len() - 1 } else { 0 },
        };
        if i + 1 < v.len() {
            lost += 1;
        }
        if i > 0 && s * SECTOR < final_size.max(dsize) {
            raw::pwrite_all(fd, &v[i], s * SECTOR);
        }
    }
    // a sector beyond the persisted size is gone
    raw::ftruncate(fd, final_size);
    c.count_n("fault.power.sectors_lost", lost);
    c.note(lost ^ (final_size << 20));
    ev!("power cut: {} of {} unsynced sectors lost, size {} (durable {}, latest {})", lost, n, final_size, dsize, size);
}

/// Byte image as a process opening the file now would see it (size, data extents)
pub fn image(i: usize) -> Image {
    let _h = alloc::harness();
    let d = disk(i);
    let size = raw::file_size(d.fd);
    Image { fd: d.fd, size }
}
pub struct Image {
    fd: i32,
    pub size: u64,
}
impl Image {
    pub fn read(&self, off: u64, len: usize) -> Option<Vec<u8>> {
        let mut v = vec![0u8; len];
        let n = raw::pread_full(self.fd, &mut v, off);
        if n == len { Some(v) } else { None }
    }
}

pub fn is_dead(i: usize) -> bool {
    disk(i).dead
}
pub fn arm_crash(i: usize, calls: u64) {
    disk(i).crash_at = Some(calls);
}
pub fn disarm(i: usize) {
    let d = disk(i);
    d.crash_at = None;
    d.faults = NO_FAULTS;
}
pub fn unsynced(i: usize) -> usize {
    disk(i).pending.len()
}
/// number of live mappings and open descriptors the code under test holds
pub fn held() -> (usize, u32) {
    let mut m = 0;
    let mut f = 0;
    for d in disks().iter() {
        m += d.maps.len();
        f += d.live_fds;
    }
    (m, f)
}

// ---------------------------------------------------------------- interposed calls

unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}

/// index of the simulated disk behind an fd
#[inline]
unsafe fn tracked(fd: c_int) -> Option<usize> {
    if fd < 0 || fd as usize >= MAXFD {
        return None;
    }
    let i = FDS[fd as usize];
    if i.disk == 0 { None } else { Some(i.disk as usize - 1) }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Class {
    Read,
    Write,
    Seek,
    Trunc,
    Sync,
    Mmap,
}

enum Verdict {
    Go,
    /// transfer at most that many bytes
    Short(usize),
    Err(c_int),
    /// crash now, after that many bytes were transferred
    Crash(usize),
}

/// number of bytes of the transfer [pos, pos+len) up to one of the sector boundaries inside it;
/// None if there is no boundary inside
fn boundary(c: &mut ctx::Ctx, pos: u64, len: usize) -> Option<usize> {
    let first = (pos / SECTOR + 1) * SECTOR;
    let end = pos + len as u64;
    if first >= end {
        return None;
    }
    let n = (end - 1 - first) / SECTOR + 1;
    let k = c.draw(n);
    Some((first + k * SECTOR - pos) as usize)
}

unsafe fn decide(fd: c_int, di: usize, class: Class, pos: u64, len: usize) -> Verdict {
    let c = ctx::ctx();
    sched::yield_point(0x100 + class as u32);
    let d = disk(di);
    if d.dead || d.epoch != FDS[fd as usize].epoch {
        return Verdict::Err(libc::EIO);
    }
    d.calls += 1;
    c.sim_ns += match class {
        Class::Sync => 2_000_000,
        Class::Read | Class::Write => 20_000 + len as u64 * 2,
        _ => 1_000,
    };
    if let Some(n) = d.crash_at {
        if n == 0 {
            let k = if class == Class::Write {
                match c.draw(3) {
                    0 => 0,
                    1 => len,
                    _ => boundary(c, pos, len).unwrap_or(0),
                }
            } else {
                0
            };
            return Verdict::Crash(k);
        }
        d.crash_at = Some(n - 1);
    }
    if class == Class::Write && pos.saturating_add(len as u64) > d.faults.cap {
        let room = d.faults.cap.saturating_sub(pos) as usize;
        let room = if room == 0 { 0 } else { ((pos as usize + room) / 512 * 512).saturating_sub(pos as usize) };
        d.fired += 1;
        c.count("fault.enospc");
        return if room > 0 && room < len { Verdict::Short(room) } else { Verdict::Err(libc::ENOSPC) };
    }
    let mut fault = false;
    if let Some(n) = d.faults.arm {
        if n == 0 {
            fault = true;
            if d.faults.burst > 0 {
                d.faults.burst -= 1;
            } else {
                d.faults.arm = None;
            }
        } else {
            d.faults.arm = Some(n - 1);
        }
    }
    if !fault && d.faults.rate > 0 && c.chance(1, d.faults.rate) {
        fault = true;
    }
    if !fault {
        return Verdict::Go;
    }
    let k = d.faults.kinds;
    let mut opts: [u32; 4] = [0; 4];
    let mut n = 0;
    let mut add = |x: u32| {
        if k & x != 0 {
            opts[n] = x;
            n += 1;
        }
    };
    match class {
        Class::Read => {
            add(F_READ);
            add(F_SHORT);
            add(F_EINTR);
        }
        Class::Write => {
            add(F_EIO);
            add(F_ENOSPC);
            add(F_SHORT);
            add(F_EINTR);
        }
        Class::Seek => add(F_SEEK),
        Class::Trunc => {
            add(F_TRUNC);
            add(F_EINTR);
        }
        Class::Sync => {
            add(F_SYNC);
            add(F_EINTR);
        }
        Class::Mmap => add(F_MMAP),
    }
    if n == 0 {
        return Verdict::Go;
    }
    let kind = opts[c.draw(n as u64) as usize];
    match kind {
        F_EINTR => {
            c.count("fault.eintr");
            ev!("fault: EINTR on {:?}", class);
            Verdict::Err(libc::EINTR)
        }
        F_SHORT => match boundary(c, pos, len) {
            Some(b) => {
                c.count(if class == Class::Read { "fault.short_read" } else { "fault.short_write" });
                ev!("fault: short {:?} {} of {} bytes", class, b, len);
                Verdict::Short(b)
            }
            None => Verdict::Go,
        },
        _ => {
            let (e, name) = match kind {
                F_ENOSPC => (libc::ENOSPC, "fault.enospc"),
                F_SYNC => (libc::EIO, "fault.eio_fsync"),
                F_MMAP => (libc::ENOMEM, "fault.enomem_mmap"),
                F_SEEK => (libc::EIO, "fault.eio_seek"),
                F_TRUNC => (libc::EIO, "fault.eio_truncate"),
                F_READ => (libc::EIO, "fault.eio_read"),
                _ => (libc::EIO, "fault.eio_write"),
            };
            d.fired += 1;
            c.count(name);
            ev!("fault: errno {} on {:?} at {} len {}", e, class, pos, len);
            Verdict::Err(e)
        }
    }
}

unsafe fn offset(fd: c_int) -> u64 {
    raw::sys3(libc::SYS_lseek, fd as i64, 0, libc::SEEK_CUR as i64) as u64
}

fn crash(di: usize, why: &str) {
    let d = disk(di);
    d.dead = true;
    d.crash_at = None;
    ctx::ctx().count("fault.crash_in_call");
    ev!("CRASH of the process inside {}", why);
    let _ = why;
}

unsafe fn do_write(fd: c_int, di: usize, buf: *const c_void, len: size_t, at: Option<u64>) -> ssize_t {
    let _h = alloc::harness();
    let pos = at.unwrap_or_else(|| offset(fd));
    let v = decide(fd, di, Class::Write, pos, len);
    let (n, die) = match v {
        Verdict::Go => (len, false),
        Verdict::Short(n) => (n, false),
        Verdict::Err(e) => {
            set_errno(e);
            return -1;
        }
        Verdict::Crash(n) => (n, true),
    };
    let d = disk(di);
    let data = std::slice::from_raw_parts(buf as *const u8, n);
    if n > 0 {
        raw::pwrite_all(fd, data, pos);
        d.pending.push(Pend::Write(pos, data.to_vec()));
        d.writes += 1;
    }
    let c = ctx::ctx();
    c.note(ctx::mix(pos, n as u64));
    ev!("write {} bytes at {}", n, pos);
    if die {
        crash(di, "write");
        set_errno(libc::EIO);
        return -1;
    }
    if at.is_none() {
        raw::sys3(libc::SYS_lseek, fd as i64, (pos + n as u64) as i64, libc::SEEK_SET as i64);
    }
    n as ssize_t
}

unsafe fn do_read(fd: c_int, di: usize, buf: *mut c_void, len: size_t, at: Option<u64>) -> ssize_t {
    let _h = alloc::harness();
    let pos = at.unwrap_or_else(|| offset(fd));
    let n = match decide(fd, di, Class::Read, pos, len) {
        Verdict::Go => len,
        Verdict::Short(n) => n,
        Verdict::Err(e) => {
            set_errno(e);
            return -1;
        }
        Verdict::Crash(_) => {
            crash(di, "read");
            set_errno(libc::EIO);
            return -1;
        }
    };
    let r = raw::pread_full(fd, std::slice::from_raw_parts_mut(buf as *mut u8, n), pos);
    if at.is_none() {
        raw::sys3(libc::SYS_lseek, fd as i64, (pos + r as u64) as i64, libc::SEEK_SET as i64);
    }
    ctx::ctx().note(ctx::mix(pos, r as u64) ^ 1);
    r as ssize_t
}

macro_rules! gate {
    ($fd:expr, $di:expr, $class:expr, $name:expr) => {
        match decide($fd, $di, $class, 0, 0) {
            Verdict::Err(e) => {
                set_errno(e);
                return -1;
            }
            Verdict::Crash(_) => {
                crash($di, $name);
                set_errno(libc::EIO);
                return -1;
            }
            _ => {}
        }
    };
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match tracked(fd) {
        Some(d) => do_write(fd, d, buf, n, None),
        None => ret(raw::sys3(libc::SYS_write, fd as i64, buf as i64, n as i64)) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match tracked(fd) {
        Some(d) => do_read(fd, d, buf, n, None),
        None => ret(raw::sys3(libc::SYS_read, fd as i64, buf as i64, n as i64)) as ssize_t,
    }
}
unsafe fn do_writev(fd: c_int, di: usize, iov: *const iovec, n: c_int, at: Option<u64>) -> ssize_t {
    let mut all = {
        let _h = alloc::harness();
        Vec::new()
    };
    for i in 0..n as usize {
        let v = &*iov.add(i);
        let _h = alloc::harness();
        all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
    }
    do_write(fd, di, all.as_ptr() as *const c_void, all.len(), at)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    match tracked(fd) {
        Some(d) => do_writev(fd, d, iov, n, None),
        None => ret(raw::sys3(libc::SYS_writev, fd as i64, iov as i64, n as i64)) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwritev(fd: c_int, iov: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    match tracked(fd) {
        Some(d) => do_writev(fd, d, iov, n, Some(off as u64)),
        None => ret(raw::sys6(libc::SYS_pwritev, fd as i64, iov as i64, n as i64, off, 0, 0)) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwritev64(fd: c_int, iov: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    pwritev(fd, iov, n, off)
}
unsafe fn do_readv(fd: c_int, di: usize, iov: *const iovec, n: c_int, at: Option<u64>) -> ssize_t {
    for i in 0..n as usize {
        let v = &*iov.add(i);
        if v.iov_len > 0 {
            return do_read(fd, di, v.iov_base, v.iov_len, at);
        }
    }
    0
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const iovec, n: c_int) -> ssize_t {
    match tracked(fd) {
        Some(d) => do_readv(fd, d, iov, n, None),
        None => ret(raw::sys3(libc::SYS_readv, fd as i64, iov as i64, n as i64)) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn preadv(fd: c_int, iov: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    match tracked(fd) {
        Some(d) => do_readv(fd, d, iov, n, Some(off as u64)),
        None => ret(raw::sys6(libc::SYS_preadv, fd as i64, iov as i64, n as i64, off, 0, 0)) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn preadv64(fd: c_int, iov: *const iovec, n: c_int, off: off64_t) -> ssize_t {
    preadv(fd, iov, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match tracked(fd) {
        Some(d) => do_write(fd, d, buf, n, Some(off as u64)),
        None => ret(raw::sys4(libc::SYS_pwrite64, fd as i64, buf as i64, n as i64, off)) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    pwrite64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match tracked(fd) {
        Some(d) => do_read(fd, d, buf, n, Some(off as u64)),
        None => ret(raw::sys4(libc::SYS_pread64, fd as i64, buf as i64, n as i64, off)) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    pread64(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    if let Some(d) = tracked(fd) {
        let _h = alloc::harness();
        gate!(fd, d, Class::Seek, "seek");
    }
    ret(raw::sys3(libc::SYS_lseek, fd as i64, off, whence as i64))
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    if let Some(di) = tracked(fd) {
        let _h = alloc::harness();
        gate!(fd, di, Class::Trunc, "truncate");
        let old = raw::file_size(fd);
        let r = raw::ftruncate(fd, len as u64);
        if r == 0 && old != len as u64 {
            disk(di).pending.push(Pend::Trunc(old, len as u64));
        }
        ctx::ctx().note(len as u64);
        ev!("truncate {} -> {}", old, len);
        return ret(r) as c_int;
    }
    ret(raw::ftruncate(fd, len as u64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn fallocate64(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    if let Some(di) = tracked(fd) {
        let _h = alloc::harness();
        gate!(fd, di, Class::Trunc, "fallocate");
        let old = raw::file_size(fd);
        let r = raw::sys4(libc::SYS_fallocate, fd as i64, mode as i64, off, len);
        let new = raw::file_size(fd);
        if new != old {
            disk(di).pending.push(Pend::Trunc(old, new));
        }
        return ret(r) as c_int;
    }
    ret(raw::sys4(libc::SYS_fallocate, fd as i64, mode as i64, off, len)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fallocate(fd: c_int, mode: c_int, off: off64_t, len: off64_t) -> c_int {
    fallocate64(fd, mode, off, len)
}
unsafe fn do_sync(fd: c_int, di: usize) -> c_int {
    let _h = alloc::harness();
    match decide(fd, di, Class::Sync, 0, 0) {
        Verdict::Err(e) => {
            if e != libc::EINTR && !disk(di).dead && disk(di).epoch == FDS[fd as usize].epoch {
                // as on Linux: after a failed fsync the dirty pages count as clean, whether
                // they reached the device or not
                let d = disk(di);
                let mode = ctx::ctx().draw(3);
                let old = raw::file_size(d.dfd);
                let now = raw::file_size(d.fd);
                for s in d.dirty_sectors() {
                    if mode == 1 || (mode == 2 && ctx::ctx().draw(2) == 1) {
                        d.flush_sector(s);
                    }
                }
                raw::ftruncate(d.dfd, if mode == 1 { now } else { old });
                d.pending.clear();
            }
            set_errno(e);
            return -1;
        }
        Verdict::Crash(_) => {
            crash(di, "fsync");
            set_errno(libc::EIO);
            return -1;
        }
        _ => {}
    }
    let d = disk(di);
    if d.wmaps > 0 {
        copy_extents(d.fd, d.dfd);
        d.pending.clear();
    } else {
        // the cache is written back in units of sectors
        for p in &d.pending {
            if let Pend::Trunc(_, len) = p {
                raw::ftruncate(d.dfd, *len);
            }
        }
        for s in d.dirty_sectors() {
            d.flush_sector(s);
        }
        raw::ftruncate(d.dfd, raw::file_size(d.fd));
        d.pending.clear();
    }
    d.syncs += 1;
    ctx::ctx().count("io.fsync");
    ev!("fsync");
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match tracked(fd) {
        Some(d) => do_sync(fd, d),
        None => ret(raw::sys3(libc::SYS_fsync, fd as i64, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match tracked(fd) {
        Some(d) => do_sync(fd, d),
        None => ret(raw::sys3(libc::SYS_fdatasync, fd as i64, 0, 0)) as c_int,
    }
}
/// does not flush metadata or the device cache: never a durability guarantee
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, off: off64_t, n: off64_t, flags: u32) -> c_int {
    if tracked(fd).is_some() {
        return 0;
    }
    ret(raw::sys4(libc::SYS_sync_file_range, fd as i64, off, n, flags as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn msync(addr: *mut c_void, len: size_t, flags: c_int) -> c_int {
    for di in 0..disks().len() {
        let d = disk(di);
        if d.maps.iter().any(|(a, l)| *a <= addr as usize && (addr as usize) < *a + *l) && flags & libc::MS_SYNC != 0 {
            let _h = alloc::harness();
            if d.dead {
                set_errno(libc::EIO);
                return -1;
            }
            copy_extents(d.fd, d.dfd);
            d.pending.clear();
            return 0;
        }
    }
    ret(raw::sys3(libc::SYS_msync, addr as i64, len as i64, flags as i64)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(di) = tracked(fd) {
        FDS[fd as usize].disk = 0;
        disk(di).live_fds -= 1;
    }
    ret(raw::sys3(libc::SYS_close, fd as i64, 0, 0)) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    let r = ret(raw::sys3(libc::SYS_fcntl, fd as i64, cmd as i64, arg)) as c_int;
    if r >= 0 && (cmd == libc::F_DUPFD || cmd == libc::F_DUPFD_CLOEXEC) {
        if let Some(di) = tracked(fd) {
            FDS[r as usize] = FDS[fd as usize];
            disk(di).live_fds += 1;
        }
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    let t = if flags & libc::MAP_ANONYMOUS != 0 { None } else { tracked(fd) };
    if let Some(di) = t {
        let _h = alloc::harness();
        match decide(fd, di, Class::Mmap, off as u64, len) {
            Verdict::Err(e) => {
                set_errno(e);
                return libc::MAP_FAILED;
            }
            Verdict::Crash(_) => {
                crash(di, "mmap");
                set_errno(libc::EIO);
                return libc::MAP_FAILED;
            }
            _ => {}
        }
        let r = raw::sys6(libc::SYS_mmap, a as i64, len as i64, prot as i64, flags as i64, fd as i64, off);
        if r >= 0 || r < -4095 {
            let d = disk(di);
            d.maps.push((r as usize, len));
            if prot & libc::PROT_WRITE != 0 && flags & libc::MAP_SHARED != 0 {
                d.wmaps += 1;
            }
            ctx::ctx().count("io.mmap");
            ev!("mmap {} bytes at {}", len, off);
        }
        return ret(r) as *mut c_void;
    }
    ret(raw::sys6(libc::SYS_mmap, a as i64, len as i64, prot as i64, flags as i64, fd as i64, off)) as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, len: size_t, prot: c_int, flags: c_int, fd: c_int, off: off64_t) -> *mut c_void {
    mmap64(a, len, prot, flags, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn munmap(a: *mut c_void, len: size_t) -> c_int {
    for d in disks().iter_mut() {
        if let Some(i) = d.maps.iter().position(|m| m.0 == a as usize) {
            d.maps.swap_remove(i);
            break;
        }
    }
    ret(raw::sys3(libc::SYS_munmap, a as i64, len as i64, 0)) as c_int
}
/// Deterministic randomness for hash maps and the like
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, len: size_t, flags: u32) -> ssize_t {
    if ctx::active() {
        let b = std::slice::from_raw_parts_mut(buf as *mut u8, len);
        for (i, x) in b.iter_mut().enumerate() {
            *x = (i as u8).wrapping_mul(37) ^ 0x5a;
        }
        return len as ssize_t;
    }
    ret(raw::sys3(libc::SYS_getrandom, buf as i64, len as i64, flags as i64)) as ssize_t
}
/// std's locks wait with futex(2) through this symbol
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == libc::SYS_futex && sched::running() && ctx::active() {
        let op = (b as c_int) & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            let w = &*(a as *const std::sync::atomic::AtomicU32);
            if w.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                set_errno(libc::EAGAIN);
                return -1;
            }
            if d != 0 {
                // a timed wait: times out at once, after giving the others a chance
                sched::yield_point(0x201);
                set_errno(libc::ETIMEDOUT);
                return -1;
            }
            sched::block(a as usize);
            return 0;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            return sched::wake(a as usize, c as usize) as c_long;
        }
    }
    if n == libc::SYS_getrandom && ctx::active() {
        return getrandom(a as *mut c_void, b as size_t, c as u32) as c_long;
    }
    ret(raw::sys6(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> c_int {
    sched::yield_point(0x202);
    0
}
