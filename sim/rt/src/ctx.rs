//! The choice sequence. Every decision of a run (workload, schedule, fault) is one `draw`.
//! A run is a pure function of its choice sequence and the code.
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, Ordering};

/// Page shared between a worker process and its parent, so that the choices of a run that
/// kills its process are not lost.
#[repr(C)]
pub struct Shared {
    pub run: u64,
    pub beat: u64,
    pub nchoices: u64,
    pub msg_len: u64,
    pub msg: [u8; 4096],
    /// outcome of the finished run, set by the engine
    pub status: u64,
    /// properties the operation in progress belongs to
    pub blame: u64,
    pub fail_props: u64,
    pub label_len: u64,
    pub label: [u8; 64],
    pub hash: u64,
    pub runs_done: u64,
    /// the properties the check in progress is about
    pub target: u64,
    /// anomalies of other properties in this run that did not end it
    pub soft: u64,
    pub soft_props: u64,
    pub nspans: u64,
    pub spans: [(u32, u32); MAX_SPANS],
    pub choices: [u64; MAX_CHOICES],
}
pub const MAX_CHOICES: usize = 1 << 16;
pub const MAX_SPANS: usize = 1 << 13;

pub struct Ctx {
    rng: [u64; 2],
    replay: Option<Vec<u64>>,
    pos: usize,
    pub shared: *mut Shared,
    open_spans: Vec<u32>,
    pub tracing: bool,
    pub trace: Vec<String>,
    /// where trace lines go at once, so that they survive the end of the process
    pub trace_fd: i32,
    pub nontrivial: bool,
    /// running hash of everything that happened
    pub hash: u64,
    /// hash of the interleaving only
    pub sched_hash: u64,
    pub states: Vec<u64>,
    pub counters: BTreeMap<&'static str, u64>,
    pub exhausted: bool,
    pub steps: u64,
    pub max_steps: u64,
    pub limit_hits: u32,
    /// ticks of simulated device time
    pub sim_ns: u64,
}

pub static ACTIVE: AtomicBool = AtomicBool::new(false);
static mut CTX: *mut Ctx = std::ptr::null_mut();

pub fn active() -> bool {
    ACTIVE.load(Ordering::Relaxed)
}
pub fn ctx() -> &'static mut Ctx {
    unsafe {
        debug_assert!(!CTX.is_null());
        &mut *CTX
    }
}
pub fn install(c: *mut Ctx) {
    unsafe {
        CTX = c;
    }
    ACTIVE.store(!c.is_null(), Ordering::SeqCst);
}

pub fn mix(h: u64, v: u64) -> u64 {
    let mut x = (h.rotate_left(5) ^ v).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    x ^= x >> 29;
    x
}
pub fn hash_bytes(mut h: u64, data: &[u8]) -> u64 {
    h = mix(h, data.len() as u64);
    let mut it = data.chunks_exact(8);
    for c in &mut it {
        h = mix(h, u64::from_le_bytes(c.try_into().unwrap()));
    }
    let mut last = [0u8; 8];
    let r = it.remainder();
    last[..r.len()].copy_from_slice(r);
    mix(h, u64::from_le_bytes(last))
}
pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// raised (as a panic payload) when a run exceeds its step bound
pub struct StepLimit;

impl Ctx {
    pub fn new(seed: u64, replay: Option<Vec<u64>>, shared: *mut Shared, tracing: bool) -> Self {
        let mut s = seed;
        let rng = [splitmix(&mut s), splitmix(&mut s)];
        unsafe {
            (*shared).nchoices = 0;
            (*shared).msg_len = 0;
            (*shared).label_len = 0;
            (*shared).status = 0;
            (*shared).blame = 0;
            (*shared).fail_props = 0;
            (*shared).nspans = 0;
            (*shared).soft = 0;
            (*shared).soft_props = 0;
        }
        Ctx {
            rng,
            replay,
            pos: 0,
            shared,
            open_spans: Vec::with_capacity(16),
            tracing,
            trace: Vec::new(),
            trace_fd: -1,
            nontrivial: false,
            hash: 0,
            sched_hash: 0,
            states: Vec::new(),
            counters: BTreeMap::new(),
            exhausted: false,
            steps: 0,
            max_steps: 3_000_000,
            limit_hits: 0,
            sim_ns: 0,
        }
    }
    fn next_u64(&mut self) -> u64 {
        // xoroshiro128+
        let s0 = self.rng[0];
        let mut s1 = self.rng[1];
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.rng[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.rng[1] = s1.rotate_left(37);
        r
    }
    /// Draw a number in 0..n. 0 is the simplest choice.
    pub fn draw(&mut self, n: u64) -> u64 {
        let _g = crate::alloc::harness();
        if n <= 1 {
            return 0;
        }
        let v = if self.pos >= MAX_CHOICES {
            self.exhausted = true;
            return 0;
        } else if let Some(r) = &self.replay {
            r.get(self.pos).copied().unwrap_or(0).min(n - 1)
        } else {
            let r = self.next_u64() >> 11;
            r % n
        };
        unsafe {
            (*self.shared).choices[self.pos] = v;
            self.pos += 1;
            (*self.shared).nchoices = self.pos as u64;
        }
        self.hash = mix(self.hash, mix(n, v));
        v
    }
    pub fn pos(&self) -> usize {
        self.pos
    }
    pub fn choices(&self) -> Vec<u64> {
        unsafe { (&(*self.shared).choices)[..self.pos].to_vec() }
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        lo + self.draw(hi - lo + 1)
    }
    /// true with probability num/den; false is the simple choice
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    /// weighted choice; entries with weight 0 are never chosen, index 0 is simplest
    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let total: u64 = w.iter().map(|x| *x as u64).sum();
        let mut v = self.draw(total);
        for (i, x) in w.iter().enumerate() {
            if v < *x as u64 {
                return i;
            }
            v -= *x as u64;
        }
        0
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.draw(xs.len() as u64) as usize;
        &xs[i]
    }
    pub fn span_start(&mut self) {
        let _g = crate::alloc::harness();
        self.open_spans.push(self.pos as u32);
    }
    pub fn span_end(&mut self) {
        let _g = crate::alloc::harness();
        if let Some(s) = self.open_spans.pop() {
            if self.pos as u32 > s {
                unsafe {
                    let n = (*self.shared).nspans as usize;
                    if n < MAX_SPANS {
                        (*self.shared).spans[n] = (s, self.pos as u32);
                        (*self.shared).nspans += 1;
                    }
                }
            }
        }
    }
    pub fn count(&mut self, name: &'static str) {
        self.count_n(name, 1)
    }
    pub fn count_n(&mut self, name: &'static str, n: u64) {
        let _g = crate::alloc::harness();
        *self.counters.entry(name).or_insert(0) += n;
    }
    pub fn state(&mut self, h: u64) {
        let _g = crate::alloc::harness();
        if self.states.len() < 4096 {
            self.states.push(h);
        }
    }
    pub fn blame(&mut self, props: u64) -> u64 {
        unsafe { std::mem::replace(&mut (*self.shared).blame, props) }
    }
    /// this run exercised what the property is about
    pub fn mark(&mut self) {
        self.nontrivial = true;
    }
    pub fn log(&mut self, line: String) {
        if self.trace_fd >= 0 {
            let mut l = line.clone();
            l.push('\n');
            unsafe {
                crate::raw::sys3(libc::SYS_write, self.trace_fd as i64, l.as_ptr() as i64, l.len() as i64);
            }
        }
        if self.trace.len() < 400 {
            self.trace.push(line);
        }
    }
    pub fn note(&mut self, h: u64) {
        self.hash = mix(self.hash, h);
    }
    /// One unit of progress; a run that takes too many is reported as not terminating
    pub fn step(&mut self) {
        self.steps += 1;
        unsafe {
            (*self.shared).beat += 1;
        }
        if self.steps > self.max_steps {
            self.max_steps += 1_000_000;
            self.limit_hits += 1;
            if self.limit_hits > 2 {
                crate::alloc::die("no termination: step bound exceeded repeatedly");
            }
            if !std::thread::panicking() {
                std::panic::panic_any(StepLimit);
            }
        }
    }
}

/// Log an event (no draw, no clock: formatting happens only when a trace was asked for)
#[macro_export]
macro_rules! ev {
    ($($arg:tt)*) => {{
        let c = $crate::ctx::ctx();
        if c.tracing {
            let _g = $crate::alloc::harness();
            let t = $crate::sched::current();
            let s = format!($($arg)*);
            c.log(if t == 0 { s } else { format!("[thread {}] {}", t, s) });
        }
    }};
}

/// Put a message where the parent finds it even if this process dies
pub fn last_words(msg: &str) {
    unsafe {
        if CTX.is_null() {
            return;
        }
        let sh = (*CTX).shared;
        let n = msg.len().min(4096);
        (&mut (*sh).msg)[..n].copy_from_slice(&msg.as_bytes()[..n]);
        (*sh).msg_len = n as u64;
    }
}
