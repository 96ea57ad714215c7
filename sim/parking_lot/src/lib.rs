//! Drop-in replacement for the parts of parking_lot radixdb may use. Every lock operation is a
//! scheduling point of the deterministic scheduler; waiting is done by the scheduler.
use simrt::sched;
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicIsize, AtomicUsize, Ordering};

pub use lock_api;

pub struct RawMutex(AtomicBool);
unsafe impl lock_api::RawMutex for RawMutex {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawMutex(AtomicBool::new(false));
    type GuardMarker = lock_api::GuardSend;
    fn lock(&self) {
        sched::yield_point(1);
        while self.0.swap(true, Ordering::Acquire) {
            sched::block(self as *const _ as usize);
        }
    }
    fn try_lock(&self) -> bool {
        sched::yield_point(2);
        !self.0.swap(true, Ordering::Acquire)
    }
    unsafe fn unlock(&self) {
        self.0.store(false, Ordering::Release);
        sched::wake(self as *const _ as usize, usize::MAX);
        sched::yield_point(3);
    }
    fn is_locked(&self) -> bool {
        self.0.load(Ordering::Relaxed)
    }
}
unsafe impl lock_api::RawMutexFair for RawMutex {
    unsafe fn unlock_fair(&self) {
        lock_api::RawMutex::unlock(self)
    }
}

/// A lock with a time limit gives up when the holder has not let go after a few steps of others
const PATIENCE: usize = 4;
unsafe impl lock_api::RawMutexTimed for RawMutex {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_for(&self, _: Self::Duration) -> bool {
        (0..PATIENCE).any(|_| lock_api::RawMutex::try_lock(self))
    }
    fn try_lock_until(&self, _: Self::Instant) -> bool {
        (0..PATIENCE).any(|_| lock_api::RawMutex::try_lock(self))
    }
}

/// >0: readers, -1: writer
pub struct RawRwLock(AtomicIsize);
unsafe impl lock_api::RawRwLock for RawRwLock {
    #[allow(clippy::declare_interior_mutable_const)]
    const INIT: Self = RawRwLock(AtomicIsize::new(0));
    type GuardMarker = lock_api::GuardSend;
    fn lock_shared(&self) {
        sched::yield_point(4);
        while !self.try_shared() {
            sched::block(self as *const _ as usize);
        }
    }
    fn try_lock_shared(&self) -> bool {
        sched::yield_point(4);
        self.try_shared()
    }
    unsafe fn unlock_shared(&self) {
        self.0.fetch_sub(1, Ordering::AcqRel);
        sched::wake(self as *const _ as usize, usize::MAX);
        sched::yield_point(5);
    }
    fn lock_exclusive(&self) {
        sched::yield_point(6);
        while self.0.compare_exchange(0, -1, Ordering::AcqRel, Ordering::Relaxed).is_err() {
            sched::block(self as *const _ as usize);
        }
    }
    fn try_lock_exclusive(&self) -> bool {
        sched::yield_point(6);
        self.0.compare_exchange(0, -1, Ordering::AcqRel, Ordering::Relaxed).is_ok()
    }
    unsafe fn unlock_exclusive(&self) {
        self.0.store(0, Ordering::Release);
        sched::wake(self as *const _ as usize, usize::MAX);
        sched::yield_point(7);
    }
}
unsafe impl lock_api::RawRwLockTimed for RawRwLock {
    type Duration = std::time::Duration;
    type Instant = std::time::Instant;
    fn try_lock_shared_for(&self, _: Self::Duration) -> bool {
        (0..PATIENCE).any(|_| lock_api::RawRwLock::try_lock_shared(self))
    }
    fn try_lock_shared_until(&self, _: Self::Instant) -> bool {
        (0..PATIENCE).any(|_| lock_api::RawRwLock::try_lock_shared(self))
    }
    fn try_lock_exclusive_for(&self, _: Self::Duration) -> bool {
        (0..PATIENCE).any(|_| lock_api::RawRwLock::try_lock_exclusive(self))
    }
    fn try_lock_exclusive_until(&self, _: Self::Instant) -> bool {
        (0..PATIENCE).any(|_| lock_api::RawRwLock::try_lock_exclusive(self))
    }
}
impl RawRwLock {
    fn try_shared(&self) -> bool {
        let v = self.0.load(Ordering::Acquire);
        v >= 0 && self.0.compare_exchange(v, v + 1, Ordering::AcqRel, Ordering::Relaxed).is_ok()
    }
}
unsafe impl lock_api::RawRwLockUpgrade for RawRwLock {
    fn lock_upgradable(&self) {
        lock_api::RawRwLock::lock_exclusive(self)
    }
    fn try_lock_upgradable(&self) -> bool {
        lock_api::RawRwLock::try_lock_exclusive(self)
    }
    unsafe fn unlock_upgradable(&self) {
        lock_api::RawRwLock::unlock_exclusive(self)
    }
    unsafe fn upgrade(&self) {}
    unsafe fn try_upgrade(&self) -> bool {
        true
    }
}
unsafe impl lock_api::RawRwLockDowngrade for RawRwLock {
    unsafe fn downgrade(&self) {
        self.0.store(1, Ordering::Release);
        sched::wake(self as *const _ as usize, usize::MAX);
    }
}
unsafe impl lock_api::RawRwLockUpgradeDowngrade for RawRwLock {
    unsafe fn downgrade_upgradable(&self) {
        self.0.store(1, Ordering::Release);
        sched::wake(self as *const _ as usize, usize::MAX);
    }
    unsafe fn downgrade_to_upgradable(&self) {}
}

pub struct RawThreadId;
unsafe impl lock_api::GetThreadId for RawThreadId {
    const INIT: Self = RawThreadId;
    fn nonzero_thread_id(&self) -> std::num::NonZeroUsize {
        thread_local!(static KEY: Cell<u8> = const { Cell::new(0) });
        KEY.with(|x| std::num::NonZeroUsize::new(x as *const _ as usize).unwrap())
    }
}

pub type Mutex<T> = lock_api::Mutex<RawMutex, T>;
pub type MutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type MappedMutexGuard<'a, T> = lock_api::MappedMutexGuard<'a, RawMutex, T>;
pub type FairMutex<T> = lock_api::Mutex<RawMutex, T>;
pub type FairMutexGuard<'a, T> = lock_api::MutexGuard<'a, RawMutex, T>;
pub type RwLock<T> = lock_api::RwLock<RawRwLock, T>;
pub type RwLockReadGuard<'a, T> = lock_api::RwLockReadGuard<'a, RawRwLock, T>;
pub type RwLockWriteGuard<'a, T> = lock_api::RwLockWriteGuard<'a, RawRwLock, T>;
pub type RwLockUpgradableReadGuard<'a, T> = lock_api::RwLockUpgradableReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockReadGuard<'a, T> = lock_api::MappedRwLockReadGuard<'a, RawRwLock, T>;
pub type MappedRwLockWriteGuard<'a, T> = lock_api::MappedRwLockWriteGuard<'a, RawRwLock, T>;
pub type ReentrantMutex<T> = lock_api::ReentrantMutex<RawMutex, RawThreadId, T>;
pub type ReentrantMutexGuard<'a, T> = lock_api::ReentrantMutexGuard<'a, RawMutex, RawThreadId, T>;

pub const fn const_mutex<T>(val: T) -> Mutex<T> {
    Mutex::const_new(<RawMutex as lock_api::RawMutex>::INIT, val)
}
pub const fn const_rwlock<T>(val: T) -> RwLock<T> {
    RwLock::const_new(<RawRwLock as lock_api::RawRwLock>::INIT, val)
}

/// Condition variable whose waiting is done by the scheduler
#[derive(Default)]
pub struct Condvar(AtomicUsize);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(AtomicUsize::new(0))
    }
    pub fn wait<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>) {
        let addr = self as *const _ as usize;
        // no scheduling point between the release and the wait
        let raw = unsafe { MutexGuard::mutex(guard).raw() };
        raw.0.store(false, Ordering::Release);
        sched::wake(raw as *const _ as usize, usize::MAX);
        sched::block(addr);
        lock_api::RawMutex::lock(raw);
    }
    /// gives others a chance and then times out
    pub fn wait_for<T: ?Sized>(&self, guard: &mut MutexGuard<'_, T>, _: std::time::Duration) -> WaitTimeoutResult {
        let raw = unsafe { MutexGuard::mutex(guard).raw() };
        unsafe { lock_api::RawMutex::unlock(raw) };
        sched::yield_point(9);
        lock_api::RawMutex::lock(raw);
        WaitTimeoutResult(true)
    }
    pub fn notify_one(&self) -> bool {
        let n = sched::wake(self as *const _ as usize, 1);
        sched::yield_point(8);
        n > 0
    }
    pub fn notify_all(&self) -> usize {
        let n = sched::wake(self as *const _ as usize, usize::MAX);
        sched::yield_point(8);
        n
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}

/// One time initialization
pub struct Once(Mutex<bool>);
impl Once {
    #[allow(clippy::new_without_default)]
    pub const fn new() -> Self {
        Once(const_mutex(false))
    }
    pub fn call_once<F: FnOnce()>(&self, f: F) {
        let mut g = self.0.lock();
        if !*g {
            f();
            *g = true;
        }
    }
}
