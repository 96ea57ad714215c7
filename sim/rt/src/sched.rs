//! Deterministic scheduler: real OS threads, exactly one of which holds the baton. Who runs
//! next is decided by the choice sequence at every scheduling point.
use crate::{alloc, ctx, raw};
use std::any::Any;
use std::sync::atomic::{AtomicU32, Ordering};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Runnable,
    Blocked(usize),
    Done,
}

struct Task {
    word: AtomicU32,
    parked: AtomicU32,
    st: St,
    scope: bool,
}

struct Sched {
    tasks: Vec<Box<Task>>,
    cur: usize,
    /// one in `inv` scheduling points switches
    inv: u64,
    /// remaining preemptions (u64::MAX: unlimited)
    budget: u64,
    /// longest run of basic blocks between two preemption points, 0: only at calls
    gap: u64,
}

static mut S: Option<Sched> = None;

pub type Panic = Box<dyn Any + Send>;

pub fn running() -> bool {
    unsafe { S.is_some() }
}
pub fn current() -> usize {
    unsafe { S.as_ref().map(|s| s.cur).unwrap_or(0) }
}

/// How eagerly a run preempts
#[derive(Clone, Copy)]
pub struct Policy {
    pub inv: u64,
    pub budget: u64,
    pub gap: u64,
}
impl Policy {
    pub fn draw() -> Policy {
        let c = ctx::ctx();
        let inv = *c.pick(&[4u64, 2, 8, 16, 3]);
        let budget = *c.pick(&[u64::MAX, u64::MAX, 1, 2, 3, 6]);
        let gap = *c.pick(&[0u64, 40, 8, 200, 1000]);
        Policy { inv, budget, gap }
    }
}

fn park(t: &Task) {
    while t.word.swap(0, Ordering::Acquire) == 0 {
        raw::futex_wait(t.word.as_ptr(), 0);
    }
}
fn unpark(t: &Task) {
    t.word.store(1, Ordering::Release);
    raw::futex_wake(t.word.as_ptr());
}

/// Run the given closures as simulated threads until all have finished; returns their panics.
pub fn run(policy: Policy, fs: Vec<Box<dyn FnOnce() + Send>>) -> Vec<Option<Panic>> {
    assert!(!running());
    let _h = alloc::harness();
    let n = fs.len();
    let mut tasks: Vec<Box<Task>> = Vec::new();
    for _ in 0..=n {
        tasks.push(Box::new(Task {
            word: AtomicU32::new(0),
            parked: AtomicU32::new(0),
            st: St::Runnable,
            scope: false,
        }));
    }
    tasks[0].st = St::Blocked(1);
    let ptrs: Vec<usize> = tasks.iter().map(|t| &**t as *const Task as usize).collect();
    let mut handles = Vec::new();
    for (i, f) in fs.into_iter().enumerate() {
        let p = ptrs[i + 1];
        handles.push(
            std::thread::Builder::new()
                .stack_size(1 << 20)
                .spawn(move || {
                    let t = unsafe { &*(p as *const Task) };
                    t.parked.store(1, Ordering::Release);
                    raw::futex_wake(t.parked.as_ptr());
                    park(t);
                    alloc::join_simulation();
                    alloc::set_scope(false);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    alloc::set_scope(false);
                    finish();
                    // the operating system's and std's own teardown happens only when nobody
                    // else runs and the simulation is over
                    park(t);
                    r.err()
                })
                .unwrap(),
        );
        let t = unsafe { &*(p as *const Task) };
        while t.parked.load(Ordering::Acquire) == 0 {
            raw::futex_wait(t.parked.as_ptr(), 0);
        }
    }
    let sched = Sched { tasks, cur: 0, inv: policy.inv, budget: policy.budget, gap: policy.gap };
    unsafe {
        S = Some(sched);
        next_gap();
    }
    if n > 0 {
        switch_away(0x51);
    }
    unsafe {
        crate::cov::LEFT = u64::MAX;
    }
    let sched = unsafe { (*std::ptr::addr_of_mut!(S)).take() };
    let mut res = Vec::new();
    for (i, h) in handles.into_iter().enumerate() {
        let t = unsafe { &*(ptrs[i + 1] as *const Task) };
        unpark(t);
        res.push(h.join().unwrap_or_else(|e| Some(e)));
    }
    drop(sched);
    res
}

fn candidates(s: &Sched, skip: usize) -> Vec<usize> {
    (1..s.tasks.len()).filter(|i| *i != skip && s.tasks[*i].st == St::Runnable).collect()
}

fn jump(next: usize, site: u32, wait: bool) {
    unsafe {
        let s = S.as_mut().unwrap();
        let me = s.cur;
        let c = ctx::ctx();
        c.sched_hash = ctx::mix(c.sched_hash, ((next as u64) << 32) | site as u64);
        c.note(0x5C ^ ((next as u64) << 8));
        s.tasks[me].scope = alloc::get_scope();
        alloc::set_scope(false);
        s.cur = next;
        let mine: *const Task = &*s.tasks[me];
        let other: *const Task = &*s.tasks[next];
        unpark(&*other);
        if wait {
            park(&*mine);
            let s = S.as_mut().unwrap();
            alloc::set_scope(s.tasks[me].scope);
        }
    }
}

/// current task is not runnable: run someone else
fn switch_away(site: u32) {
    let c = ctx::ctx();
    let s = unsafe { S.as_mut().unwrap() };
    let _h = alloc::harness();
    let cands = candidates(s, s.cur);
    let next = if cands.is_empty() {
        let all_done = s.tasks[1..].iter().all(|t| t.st == St::Done);
        if !all_done {
            alloc::die("deadlock: every thread waits for a lock");
        }
        s.tasks[0].st = St::Runnable;
        0
    } else {
        cands[c.draw(cands.len() as u64) as usize]
    };
    drop(cands);
    let done = s.tasks[s.cur].st == St::Done;
    drop(_h);
    jump(next, site, !done);
}

fn finish() {
    let s = unsafe { S.as_mut().unwrap() };
    let cur = s.cur;
    s.tasks[cur].st = St::Done;
    switch_away(0x52);
}

/// A scheduling point
pub fn yield_point(site: u32) {
    if !ctx::active() {
        return;
    }
    let c = ctx::ctx();
    c.step();
    let s = match unsafe { S.as_mut() } {
        Some(s) => s,
        None => return,
    };
    let _h = alloc::harness();
    let cands = candidates(s, s.cur);
    if cands.is_empty() || s.budget == 0 {
        return;
    }
    if c.draw(s.inv) == s.inv - 1 {
        if s.budget != u64::MAX {
            s.budget -= 1;
        }
        let next = cands[c.draw(cands.len() as u64) as usize];
        drop(cands);
        drop(_h);
        jump(next, site, true);
    }
}

unsafe fn next_gap() {
    crate::cov::LEFT = match S.as_ref() {
        Some(s) if s.gap > 0 && s.budget > 0 => ctx::ctx().draw(s.gap),
        _ => u64::MAX,
    };
}

/// A preemption point between two basic blocks of the code under test
pub fn preempt(site: u32) {
    unsafe {
        crate::cov::LEFT = u64::MAX;
        if !ctx::active() || std::thread::panicking() {
            return;
        }
        let Some(s) = S.as_mut() else { return };
        let c = ctx::ctx();
        let _h = alloc::harness();
        let cands = candidates(s, s.cur);
        if !cands.is_empty() && s.budget > 0 {
            if s.budget != u64::MAX {
                s.budget -= 1;
            }
            c.count("sched.preemptions_between_blocks");
            c.step();
            let next = cands[c.draw(cands.len() as u64) as usize];
            drop(cands);
            next_gap();
            drop(_h);
            jump(next, 0x1000 + site, true);
        } else {
            drop(cands);
            next_gap();
        }
    }
}

/// Block the current task until `wake(addr)`
pub fn block(addr: usize) {
    if !running() {
        if ctx::active() {
            alloc::die("deadlock: a thread waits for a lock nobody else can release");
        }
        std::hint::spin_loop();
        return;
    }
    ctx::ctx().step();
    ctx::ctx().count("sched.blocked");
    let s = unsafe { S.as_mut().unwrap() };
    let cur = s.cur;
    s.tasks[cur].st = St::Blocked(addr);
    switch_away(0x53);
}
pub fn wake(addr: usize, max: usize) -> usize {
    let mut n = 0;
    if let Some(s) = unsafe { S.as_mut() } {
        for t in s.tasks.iter_mut() {
            if n < max && t.st == St::Blocked(addr) {
                t.st = St::Runnable;
                n += 1;
            }
        }
    }
    n
}

/// Start and end of a run: the thread that started the simulated process does nothing at all
/// while the simulated process runs.
#[derive(Default)]
pub struct Gate {
    go: AtomicU32,
    done: AtomicU32,
}
impl Gate {
    /// in the simulated process, before anything else
    pub fn enter(&self) {
        while self.go.load(Ordering::Acquire) == 0 {
            raw::futex_wait(self.go.as_ptr(), 0);
        }
        alloc::join_simulation();
    }
    /// in the simulated process, as the last thing
    pub fn leave(&self) {
        alloc::set_scope(false);
        self.done.store(1, Ordering::Release);
        raw::futex_wake(self.done.as_ptr());
    }
    /// in the thread that started it
    pub fn run(&self) {
        self.go.store(1, Ordering::Release);
        raw::futex_wake(self.go.as_ptr());
        while self.done.load(Ordering::Acquire) == 0 {
            raw::futex_wait(self.done.as_ptr(), 0);
        }
    }
}
