//! Simulated allocator: the system allocator plus a ledger of what the code under test owns,
//! poisoning of freed memory, a quarantine that delays reuse, and canaries.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU32, AtomicU64, Ordering};

pub struct SimAlloc;

// here, and not in an instrumented crate: there is no preemption inside the allocator
#[global_allocator]
static GLOBAL: SimAlloc = SimAlloc;

const LIVE: u64 = 0x51D0_A11C_0000_4C49;
const FREED: u64 = 0x51D0_A11C_F4EE_DEAD;
const TAIL: u64 = 0x7A11_CAFE_0DD0_7A11;
const H: usize = 32;
const POISON: u8 = 0xDE;

#[repr(C)]
struct Head {
    magic: u64,
    size: usize,
    /// 0: harness, otherwise run generation of the code under test
    owner: u32,
    align: u32,
    _pad: u64,
}

static mut IN_SUT: bool = false;
static GENERATION: AtomicU32 = AtomicU32::new(1);
static LIVE_COUNT: AtomicI64 = AtomicI64::new(0);
static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL_SUT: AtomicU64 = AtomicU64::new(0);
static HEAP: AtomicI64 = AtomicI64::new(0);
pub static HEAP_LIMIT: AtomicI64 = AtomicI64::new(1 << 30);

// quarantine ring, only touched for blocks of the code under test
const Q: usize = 2048;
static QLOCK: AtomicBool = AtomicBool::new(false);
static mut QRING: [*mut Head; Q] = [std::ptr::null_mut(); Q];
static mut QPOS: usize = 0;

/// Marks allocations as made by the code under test until dropped
pub struct Scope(bool);
impl Drop for Scope {
    fn drop(&mut self) {
        unsafe { IN_SUT = self.0 }
    }
}
pub fn sut() -> Scope {
    unsafe {
        let old = IN_SUT;
        IN_SUT = true;
        Scope(old)
    }
}
pub fn harness() -> Scope {
    unsafe {
        let old = IN_SUT;
        IN_SUT = false;
        Scope(old)
    }
}
pub fn get_scope() -> bool {
    unsafe { IN_SUT && mine() }
}
thread_local!(static SIMULATED: std::cell::Cell<bool> = const { std::cell::Cell::new(false) });
/// This thread belongs to the simulated process; the ledger and the scheduler ignore all others
pub fn join_simulation() {
    SIMULATED.with(|x| x.set(true));
}
#[inline]
fn mine() -> bool {
    SIMULATED.with(|x| x.get())
}
pub fn set_scope(v: bool) {
    unsafe { IN_SUT = v }
}
/// start a new ledger
pub fn new_run() {
    GENERATION.fetch_add(1, Ordering::SeqCst);
    LIVE_COUNT.store(0, Ordering::SeqCst);
    LIVE_BYTES.store(0, Ordering::SeqCst);
}
/// (blocks, bytes) the code under test allocated in this run and that are still live
pub fn live() -> (i64, i64) {
    (LIVE_COUNT.load(Ordering::SeqCst), LIVE_BYTES.load(Ordering::SeqCst))
}

pub fn die(msg: &str) -> ! {
    crate::ctx::last_words(msg);
    unsafe {
        let pid = crate::raw::sys3(libc::SYS_getpid, 0, 0, 0);
        crate::raw::sys3(libc::SYS_kill, pid, libc::SIGABRT as i64, 0);
        crate::raw::sys3(libc::SYS_exit_group, 134, 0, 0);
    }
    loop {}
}

#[inline]
fn head_size(align: usize) -> usize {
    H.max(align)
}

unsafe fn release(h: *mut Head) {
    let align = (*h).align as usize;
    let hs = head_size(align);
    let base = (h as *mut u8).add(H).sub(hs);
    let total = hs + (*h).size + 8;
    HEAP.fetch_sub(total as i64, Ordering::Relaxed);
    (*h).magic = 0;
    System.dealloc(base, Layout::from_size_align_unchecked(total, align.max(16)));
}

unsafe fn check_poison(h: *mut Head) {
    let p = (h as *mut u8).add(H);
    let n = (*h).size;
    for i in 0..n {
        if *p.add(i) != POISON {
            die("memory: write to freed memory");
        }
    }
}

fn qlock() {
    while QLOCK.swap(true, Ordering::Acquire) {
        std::hint::spin_loop();
    }
}

/// Verify and release all quarantined blocks
pub fn flush_quarantine() {
    qlock();
    unsafe {
        for i in 0..Q {
            let h = QRING[i];
            if !h.is_null() {
                check_poison(h);
                release(h);
                QRING[i] = std::ptr::null_mut();
            }
        }
    }
    QLOCK.store(false, Ordering::Release);
}

impl SimAlloc {
    unsafe fn alloc_for(&self, l: Layout, owner: u32) -> *mut u8 {
        let hs = head_size(l.align());
        let total = hs + l.size() + 8;
        if HEAP.fetch_add(total as i64, Ordering::Relaxed) > HEAP_LIMIT.load(Ordering::Relaxed) {
            die("memory: runaway allocation (heap limit of the simulated process exceeded)");
        }
        let base = System.alloc(Layout::from_size_align_unchecked(total, l.align().max(16)));
        if base.is_null() {
            return base;
        }
        let p = base.add(hs);
        let h = p.sub(H) as *mut Head;
        *h = Head { magic: LIVE, size: l.size(), owner, align: l.align() as u32, _pad: 0 };
        (p.add(l.size()) as *mut u64).write_unaligned(TAIL);
        if owner != 0 {
            LIVE_COUNT.fetch_add(1, Ordering::Relaxed);
            LIVE_BYTES.fetch_add(l.size() as i64, Ordering::Relaxed);
            TOTAL_SUT.fetch_add(1, Ordering::Relaxed);
        }
        p
    }
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let owner = if IN_SUT && mine() { GENERATION.load(Ordering::Relaxed) } else { 0 };
        self.alloc_for(l, owner)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let h = p.sub(H) as *mut Head;
        if (*h).magic != LIVE {
            if (*h).magic == FREED {
                die("memory: double free");
            }
            die("memory: free of an invalid pointer");
        }
        if (*h).size != l.size() {
            die("memory: freed with a different size than allocated");
        }
        if (p.add(l.size()) as *mut u64).read_unaligned() != TAIL {
            die("memory: write past the end of an allocation");
        }
        if (*h).owner == 0 {
            release(h);
            return;
        }
        if (*h).owner == GENERATION.load(Ordering::Relaxed) {
            LIVE_COUNT.fetch_sub(1, Ordering::Relaxed);
            LIVE_BYTES.fetch_sub(l.size() as i64, Ordering::Relaxed);
        }
        (*h).magic = FREED;
        std::ptr::write_bytes(p, POISON, l.size());
        if l.size() > 1 << 16 {
            release(h);
            return;
        }
        qlock();
        let old = QRING[QPOS];
        QRING[QPOS] = h;
        QPOS = (QPOS + 1) % Q;
        if !old.is_null() {
            check_poison(old);
            release(old);
        }
        QLOCK.store(false, Ordering::Release);
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new_size: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new_size, l.align());
        // ownership stays with whoever allocated first
        let h = p.sub(H) as *mut Head;
        let owner = (*h).owner;
        let q = self.alloc_for(nl, if owner != 0 { GENERATION.load(Ordering::Relaxed) } else { 0 });
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(new_size));
            self.dealloc(p, l);
        }
        q
    }
}
