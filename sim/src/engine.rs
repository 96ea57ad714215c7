//! Runs simulations in worker processes, attributes their outcome, shrinks failures, writes
//! replay files and evidence.
use crate::fail::{self, Fail, Props};
use simrt::{alloc, ctx, disk, raw};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub mask: Props,
    pub run: fn() -> Result<(), Fail>,
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

const ST_OK: u64 = 1;
const ST_FAIL: u64 = 2;
const ST_HARNESS: u64 = 3;

pub struct Opts {
    pub seed: u64,
    pub tier: String,
    pub runs: Option<u64>,
    pub workers: usize,
    pub cap: Duration,
    pub out: String,
}

fn new_shared() -> *mut ctx::Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<ctx::Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        p as *mut ctx::Shared
    }
}

pub fn run_seed(seed: u64, id: &str, i: u64) -> u64 {
    ctx::mix(ctx::hash_bytes(seed.wrapping_mul(0x9E37), id.as_bytes()), i)
}

/// Execute one run in this process, on a fresh thread. Returns the context for its statistics.
fn execute(prop: &Prop, seed: u64, replay: Option<Vec<u64>>, sh: *mut ctx::Shared, tracing: bool, trace_fd: i32) -> Box<ctx::Ctx> {
    let mut c = Box::new(ctx::Ctx::new(seed, replay, sh, tracing));
    c.trace_fd = trace_fd;
    disk::reset();
    alloc::new_run();
    unsafe {
        (*sh).target = prop.mask;
    }
    let ptr: *mut ctx::Ctx = &mut *c;
    let run = prop.run;
    let mask = prop.mask;
    ctx::install(ptr);
    let gate = std::sync::Arc::new(simrt::sched::Gate::default());
    let g = gate.clone();
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            g.enter();
            let r = std::panic::catch_unwind(run);
            let _h = alloc::harness();
            let r = match r {
                Ok(r) => r,
                Err(e) => {
                    std::mem::forget(e);
                    let lp = fail::take_panic();
                    let label = if fail::harness_loc(&lp.loc) { "HARNESS" } else { "panic" };
                    // code under test that is called outside of an attributed operation
                    Err(Fail { props: mask, label: label.into(), msg: format!("panicked at {}: {}", lp.loc, lp.msg) })
                }
            };
            g.leave();
            r
        })
        .unwrap();
    gate.run();
    let r = h.join().unwrap_or_else(|_| Err(Fail { props: 0, label: "HARNESS".into(), msg: "join".into() }));
    alloc::flush_quarantine();
    ctx::install(std::ptr::null_mut());
    disk::reset();
    unsafe {
        (*sh).hash = c.hash;
        match r {
            Ok(()) if (*sh).soft > 0 => {
                (*sh).fail_props = (*sh).soft_props;
                (*sh).status = ST_FAIL;
            }
            Ok(()) => (*sh).status = ST_OK,
            Err(f) => {
                fail::put(&mut (*sh).msg, &mut (*sh).msg_len, &f.msg);
                fail::put(&mut (*sh).label, &mut (*sh).label_len, &f.label);
                (*sh).fail_props = f.props;
                // after an anomaly of another property the harness may well lose track
                (*sh).status = if f.label == "HARNESS" && (*sh).soft == 0 { ST_HARNESS } else { ST_FAIL };
            }
        }
    }
    c
}

#[derive(Clone, Debug, PartialEq)]
pub enum Kind {
    Ok,
    Violation,
    Foreign,
    Harness,
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub kind: Kind,
    pub label: String,
    pub msg: String,
    pub props: Props,
    pub choices: Vec<u64>,
    pub spans: Vec<(u32, u32)>,
    pub hash: u64,
    pub trace: Vec<String>,
}

/// Interpret how a run, possibly together with its process, ended
unsafe fn outcome(prop: &Prop, sh: *mut ctx::Shared, death: Option<String>) -> Outcome {
    let s = &*sh;
    let mut msg = String::from_utf8_lossy(&s.msg[..s.msg_len as usize]).into_owned();
    let mut label = String::from_utf8_lossy(&s.label[..s.label_len as usize]).into_owned();
    let mut props = s.fail_props;
    let mut kind = match s.status {
        ST_OK => Kind::Ok,
        ST_HARNESS => Kind::Harness,
        _ => Kind::Foreign,
    };
    let reported = s.fail_props != 0 && death.is_some();
    if reported {
        // it had already failed and died on the way out
        kind = if label == "HARNESS" && s.soft == 0 { Kind::Harness } else { Kind::Foreign };
    } else if let Some(d) = death {
        // the simulated process died: a fault of whatever operation was in progress
        kind = Kind::Foreign;
        props = s.blame | fail::p::T14;
        if s.blame == 0 {
            props |= prop.mask;
        }
        if msg.is_empty() {
            msg = d.clone();
            label = d;
        } else {
            label = msg.split(':').next().unwrap_or("").to_string();
            if label == "deadlock" || label == "no termination" {
                props = if s.blame == 0 { prop.mask } else { s.blame };
            }
            msg = format!("{} ({})", msg, d);
        }
    }
    if label == "HARNESS" {
        props = 0;
    }
    if kind == Kind::Foreign && props & prop.mask != 0 {
        kind = Kind::Violation;
    }
    Outcome {
        kind,
        label,
        msg,
        props,
        choices: s.choices[..s.nchoices as usize].to_vec(),
        spans: s.spans[..s.nspans as usize].to_vec(),
        hash: s.hash,
        trace: vec![],
    }
}

fn describe_status(st: i32) -> Option<String> {
    if libc::WIFSIGNALED(st) {
        let n = libc::WTERMSIG(st);
        let name = match n {
            libc::SIGSEGV => "SIGSEGV",
            libc::SIGBUS => "SIGBUS",
            libc::SIGABRT => "SIGABRT",
            libc::SIGILL => "SIGILL",
            libc::SIGKILL => "killed (out of memory?)",
            _ => "signal",
        };
        Some(format!("process ended by {} {}", name, n))
    } else if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) != 0 {
        Some(format!("process exited with {}", libc::WEXITSTATUS(st)))
    } else {
        None
    }
}

/// Re-execute given choices in a child process
pub fn replay(prop: &Prop, choices: &[u64], tracing: bool, timeout: Duration) -> Outcome {
    let sh = new_shared();
    let tfd = if tracing { raw::memfd() } else { -1 };
    let r = unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            child_init();
            execute(prop, 0, Some(choices.to_vec()), sh, tracing, tfd);
            libc::_exit(0);
        }
        let start = Instant::now();
        let mut st = 0;
        let death = loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                break describe_status(st);
            }
            if start.elapsed() > timeout {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                break Some("hang: no progress".to_string());
            }
            std::thread::sleep(Duration::from_micros(200));
        };
        outcome(prop, sh, death)
    };
    let mut r = r;
    if tfd >= 0 {
        let n = raw::file_size(tfd) as usize;
        let mut v = vec![0u8; n];
        raw::pread_full(tfd, &mut v, 0);
        r.trace = String::from_utf8_lossy(&v).lines().map(|x| x.to_string()).collect();
        raw::close(tfd);
    }
    unsafe {
        libc::munmap(sh as *mut libc::c_void, std::mem::size_of::<ctx::Shared>());
    }
    r
}

fn child_init() {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
        let nul = libc::open(b"/dev/null\0".as_ptr() as *const libc::c_char, libc::O_WRONLY);
        if nul >= 0 && std::env::var_os("RDBSIM_STDERR").is_none() {
            libc::dup2(nul, 1);
            libc::dup2(nul, 2);
        }
    }
    fail::install_hook();
}

fn same(a: &Outcome, b: &Outcome) -> bool {
    a.kind == Kind::Violation && a.label == b.label
}

/// Delta-debug the choice sequence, keeping the same violation
pub fn shrink(prop: &Prop, start: Outcome, budget: Duration) -> (Outcome, u64) {
    let t0 = Instant::now();
    let mut best = start;
    let mut tried = 0u64;
    let to = Duration::from_secs(15);
    let mut attempt = |best: &mut Outcome, cand: Vec<u64>| -> bool {
        if cand == best.choices || (cand.len(), cand.iter().sum::<u64>()) >= (best.choices.len(), best.choices.iter().sum::<u64>()) {
            return false;
        }
        tried += 1;
        let r = replay(prop, &cand, false, to);
        if same(&r, best) {
            // keep what was really consumed
            let mut r = r;
            while r.choices.last() == Some(&0) {
                r.choices.pop();
            }
            if (r.choices.len(), r.choices.iter().sum::<u64>()) < (best.choices.len(), best.choices.iter().sum::<u64>()) {
                *best = r;
                return true;
            }
        }
        false
    };
    // truncation
    let mut n = best.choices.len();
    while n > 0 && t0.elapsed() < budget {
        n /= 2;
        let c = best.choices[..best.choices.len() - n.min(best.choices.len())].to_vec();
        if attempt(&mut best, c) {
            n = best.choices.len();
        }
    }
    loop {
        let before = best.choices.clone();
        // delete spans, largest first
        let mut spans = best.spans.clone();
        spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
        let mut i = 0;
        while i < spans.len() && t0.elapsed() < budget {
            let (a, b) = (spans[i].0 as usize, (spans[i].1 as usize).min(best.choices.len()));
            if a < b {
                let mut c = best.choices[..a].to_vec();
                c.extend_from_slice(&best.choices[b..]);
                let mut ok = attempt(&mut best, c);
                if !ok && b - a > 1 {
                    // neutralise instead
                    let mut c = best.choices.clone();
                    c[a..b].fill(0);
                    ok = attempt(&mut best, c);
                }
                if ok {
                    spans = best.spans.clone();
                    spans.sort_by_key(|s| std::cmp::Reverse(s.1 - s.0));
                    i = 0;
                    if best.choices.len() > 3000 {
                        continue;
                    }
                    continue;
                }
            }
            i += 1;
        }
        // delete chunks
        let mut k = 8usize.min(best.choices.len().max(1));
        while k > 0 && t0.elapsed() < budget {
            let mut a = 0;
            while a + k <= best.choices.len() && t0.elapsed() < budget {
                let mut c = best.choices[..a].to_vec();
                c.extend_from_slice(&best.choices[a + k..]);
                if !attempt(&mut best, c) {
                    a += k.div_ceil(2);
                }
            }
            k /= 2;
        }
        // lower values
        let mut a = 0;
        while a < best.choices.len() && t0.elapsed() < budget {
            let v = best.choices[a];
            if v > 0 {
                let mut c = best.choices.clone();
                c[a] = 0;
                if !attempt(&mut best, c) && v > 1 {
                    let mut c = best.choices.clone();
                    c[a] = v / 2;
                    if !attempt(&mut best, c) {
                        let mut c = best.choices.clone();
                        if a < c.len() && c[a] > 0 {
                            c[a] -= 1;
                            attempt(&mut best, c);
                        }
                    }
                }
            }
            a += 1;
        }
        if best.choices == before || t0.elapsed() > budget {
            break;
        }
    }
    (best, tried)
}

struct Stats {
    runs: u64,
    counters: BTreeMap<String, u64>,
    nontrivial: HashSet<u64>,
    states: HashSet<u64>,
    scheds: HashSet<u64>,
    foreign: u64,
    foreign_msgs: Vec<String>,
    samples: Vec<Vec<String>>,
    sim_ns: u64,
    known: BTreeMap<String, u64>,
    determinism: (u64, u64),
    cov: Vec<u8>,
}
impl Stats {
    fn new() -> Self {
        Stats {
            runs: 0,
            counters: BTreeMap::new(),
            nontrivial: HashSet::new(),
            states: HashSet::new(),
            scheds: HashSet::new(),
            foreign: 0,
            foreign_msgs: vec![],
            samples: vec![],
            sim_ns: 0,
            known: BTreeMap::new(),
            determinism: (0, 0),
            cov: vec![],
        }
    }
    fn save(&self, fd: i32) {
        let mut s = String::new();
        let _ = writeln!(s, "R {}", self.runs);
        let _ = writeln!(s, "F {}", self.foreign);
        let _ = writeln!(s, "N {}", self.sim_ns);
        let _ = writeln!(s, "D {} {}", self.determinism.0, self.determinism.1);
        for (k, v) in &self.counters {
            let _ = writeln!(s, "C {} {}", k, v);
        }
        for (k, v) in &self.known {
            let _ = writeln!(s, "K {} {}", v, k);
        }
        for m in &self.foreign_msgs {
            let _ = writeln!(s, "M {}", m.replace('\n', " "));
        }
        for t in &self.samples {
            let _ = writeln!(s, "S");
            for l in t {
                let _ = writeln!(s, "s {}", l.replace('\n', " "));
            }
        }
        for (tag, set) in [("n", &self.nontrivial), ("t", &self.states), ("x", &self.scheds)] {
            for h in set.iter() {
                let _ = writeln!(s, "{} {:x}", tag, h);
            }
        }
        let _ = writeln!(s, "V {}", self.cov.iter().map(|b| if *b != 0 { '1' } else { '0' }).collect::<String>());
        raw::ftruncate(fd, 0);
        raw::pwrite_all(fd, s.as_bytes(), 0);
    }
    fn load(&mut self, fd: i32) {
        let n = raw::file_size(fd) as usize;
        let mut v = vec![0u8; n];
        raw::pread_full(fd, &mut v, 0);
        for l in String::from_utf8_lossy(&v).lines() {
            let (tag, rest) = l.split_once(' ').unwrap_or((l, ""));
            match tag {
                "R" => self.runs += rest.parse::<u64>().unwrap_or(0),
                "F" => self.foreign += rest.parse::<u64>().unwrap_or(0),
                "N" => self.sim_ns += rest.parse::<u64>().unwrap_or(0),
                "D" => {
                    let (a, b) = rest.split_once(' ').unwrap_or(("0", "0"));
                    self.determinism.0 += a.parse::<u64>().unwrap_or(0);
                    self.determinism.1 += b.parse::<u64>().unwrap_or(0);
                }
                "C" => {
                    let (k, v) = rest.rsplit_once(' ').unwrap_or((rest, "0"));
                    *self.counters.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
                "K" => {
                    let (v, k) = rest.split_once(' ').unwrap_or(("0", rest));
                    *self.known.entry(k.into()).or_insert(0) += v.parse::<u64>().unwrap_or(0);
                }
                "M" => self.foreign_msgs.push(rest.into()),
                "S" => self.samples.push(vec![]),
                "s" => self.samples.last_mut().unwrap().push(rest.into()),
                "n" => {
                    self.nontrivial.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                }
                "t" => {
                    self.states.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                }
                "x" => {
                    self.scheds.insert(u64::from_str_radix(rest, 16).unwrap_or(0));
                }
                "V" => {
                    if self.cov.len() < rest.len() {
                        self.cov.resize(rest.len(), 0);
                    }
                    for (i, b) in rest.bytes().enumerate() {
                        self.cov[i] |= b - b'0';
                    }
                }
                _ => {}
            }
        }
    }
}

pub struct Known {
    pub prop: String,
    pub label: String,
    pub pat: String,
    pub text: String,
}
/// `known: property=<id> label=<label> match=<substring> | <text>`
pub fn known_findings(path: &str) -> Vec<Known> {
    let mut v = vec![];
    if let Ok(s) = std::fs::read_to_string(path) {
        for l in s.lines() {
            if let Some(r) = l.strip_prefix("known: property=") {
                let (head, text) = r.split_once(" | ").unwrap_or((r, ""));
                let (prop, rest) = head.split_once(" label=").unwrap_or((head, ""));
                let (label, pat) = rest.split_once(" match=").unwrap_or((rest, ""));
                if !label.is_empty() && !pat.is_empty() {
                    v.push(Known { prop: prop.into(), label: label.into(), pat: pat.into(), text: text.into() });
                }
            }
        }
    }
    v
}

const SET_CAP: usize = 400_000;

#[allow(clippy::too_many_arguments)]
unsafe fn worker(prop: &Prop, o: &Opts, w: u64, from: u64, total: u64, sh: *mut ctx::Shared, fd: i32, known: &[Known], deadline: Instant) -> ! {
    child_init();
    let mut st = Stats::new();
    // warm up lazily initialised globals outside of any ledger
    let mut i = from;
    let step = o.workers as u64;
    let mut det = vec![];
    let mut last_save = Instant::now();
    while i < total {
        if Instant::now() > deadline {
            break;
        }
        (*sh).run = i;
        (*sh).beat += 1;
        let want_sample = st.samples.len() < 2 && w == 0;
        let c = execute(prop, run_seed(o.seed, prop.id, i), None, sh, want_sample, -1);
        st.runs += 1;
        (*sh).runs_done += 1;
        for (k, v) in &c.counters {
            *st.counters.entry(k.to_string()).or_insert(0) += v;
        }
        if c.exhausted {
            *st.counters.entry("harness.choice_limit".into()).or_insert(0) += 1;
        }
        st.sim_ns += c.sim_ns;
        if c.nontrivial && st.nontrivial.len() < SET_CAP {
            st.nontrivial.insert(c.hash);
        }
        for s in &c.states {
            if st.states.len() < SET_CAP {
                st.states.insert(*s);
            }
        }
        if c.sched_hash != 0 && st.scheds.len() < SET_CAP {
            st.scheds.insert(c.sched_hash);
        }
        if want_sample && c.nontrivial && c.trace.len() < 120 {
            let mut t = vec![format!("run {} seed {:#x}", i, run_seed(o.seed, prop.id, i))];
            t.extend(c.trace.iter().cloned());
            st.samples.push(t);
        }
        let stt = (*sh).status;
        if stt == ST_OK && st.runs % 1024 == 1 && det.len() < 64 {
            det.push((run_seed(o.seed, prop.id, i), c.hash));
        }
        if stt == ST_HARNESS {
            st.save(fd);
            libc::_exit(12);
        }
        if stt == ST_FAIL {
            let out = outcome(prop, sh, None);
            if out.kind == Kind::Violation {
                if let Some(k) = known.iter().find(|k| k.prop == prop.id && k.label == out.label && out.msg.contains(&k.pat)) {
                    *st.known.entry(k.text.clone()).or_insert(0) += 1;
                } else {
                    st.save(fd);
                    libc::_exit(11);
                }
            } else {
                st.foreign += 1;
                if st.foreign_msgs.len() < 3 {
                    st.foreign_msgs.push(format!("run {} [{}] {}: {}", i, fail::names(out.props), out.label, out.msg));
                }
            }
        }
        i += step;
        if st.foreign >= 1500 {
            // failed runs leave memory behind: carry on in a fresh process
            st.cov = simrt::cov::snapshot();
            st.save(fd);
            libc::_exit(13);
        }
        if last_save.elapsed() > Duration::from_secs(20) {
            st.save(fd);
            last_save = Instant::now();
        }
    }
    // the same seed must give the same execution
    for (seed, hash) in det {
        (*sh).beat += 1;
        let c = execute(prop, seed, None, sh, false, -1);
        st.determinism.0 += 1;
        if c.hash != hash {
            if std::env::var_os("RDBSIM_STDERR").is_some() { eprintln!("MISMATCH worker {} seed {:#x} {:#x} {:#x}", w, seed, hash, c.hash); }
            st.determinism.1 += 1;
        }
    }
    st.cov = simrt::cov::snapshot();
    st.save(fd);
    libc::_exit(0);
}

/// Execute the runs `from`, `from + step`, ... up to `run` in one fresh process, as a worker does,
/// and return the outcome of the last one: a violation may need what earlier runs left behind in
/// global state of the code under test.
fn history(prop: &Prop, seed: u64, from: u64, run: u64, step: u64, timeout: Duration) -> Outcome {
    let sh = new_shared();
    let r = unsafe {
        let pid = libc::fork();
        assert!(pid >= 0);
        if pid == 0 {
            child_init();
            let mut i = from;
            while i <= run {
                (*sh).run = i;
                (*sh).beat += 1;
                execute(prop, run_seed(seed, prop.id, i), None, sh, false, -1);
                i += step;
            }
            libc::_exit(0);
        }
        let start = Instant::now();
        let mut st = 0;
        let death = loop {
            let r = libc::waitpid(pid, &mut st, libc::WNOHANG);
            if r == pid {
                break describe_status(st);
            }
            if start.elapsed() > timeout {
                libc::kill(pid, libc::SIGKILL);
                libc::waitpid(pid, &mut st, 0);
                break Some("hang: no progress".to_string());
            }
            std::thread::sleep(Duration::from_micros(200));
        };
        let mut o = outcome(prop, sh, death);
        if (*sh).run != run {
            o.kind = Kind::Ok;
        }
        o
    };
    unsafe {
        libc::munmap(sh as *mut libc::c_void, std::mem::size_of::<ctx::Shared>());
    }
    r
}

/// How a violation can be shown again
enum Shown {
    /// its choices alone do
    Alone(Outcome),
    /// it takes the runs from this one on, in the same process
    After(u64, Outcome),
}

/// Show a violation again from its choices, or together with the runs before it; nothing that
/// does not happen again is reported.
fn show_again(prop: &Prop, o: &Opts, out: &Outcome, from: u64, run: u64, searches: &mut u32) -> Option<Shown> {
    for _ in 0..2 {
        let r = replay(prop, &out.choices, false, Duration::from_secs(40));
        if same(&r, out) || (r.kind == Kind::Violation && out.kind == Kind::Violation) {
            return Some(Shown::Alone(r));
        }
    }
    if *searches >= 2 {
        return None;
    }
    *searches += 1;
    let step = o.workers as u64;
    let mut back = 16;
    loop {
        let f = run.saturating_sub(back * step).max(from);
        // the same residue as the run
        let f = f + (run - f) % step;
        let r = history(prop, o.seed, f, run, step, Duration::from_secs(120));
        if same(&r, out) {
            return Some(Shown::After(f, r));
        }
        if f <= from {
            return None;
        }
        back *= 8;
    }
}

struct W {
    /// the run its process started with
    from: u64,
    pid: i32,
    sh: *mut ctx::Shared,
    fd: i32,
    beat: u64,
    seen: Instant,
    done: bool,
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Run a check; returns the exit code
pub fn check(prop: &Prop, o: &Opts) -> i32 {
    let t0 = Instant::now();
    let total = o.runs.unwrap_or(if o.tier == "thorough" { prop.thorough } else { prop.quick });
    let deadline = t0 + o.cap;
    let known = known_findings(&format!("{}/KNOWN_FINDINGS.txt", o.out));
    let mut stats = Stats::new();
    let mut ws: Vec<W> = vec![];
    let spawn = |w: u64, from: u64, sh: *mut ctx::Shared| -> W {
        let fd = raw::memfd();
        unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                worker(prop, o, w, from, total, sh, fd, &known, deadline);
            }
            W { from, pid, sh, fd, beat: 0, seen: Instant::now(), done: false }
        }
    };
    for w in 0..o.workers as u64 {
        ws.push(spawn(w, w, new_shared()));
    }
    let mut violation: Option<(Shown, Outcome, u64)> = None;
    let mut searches = 0;
    let mut harness: Option<String> = None;
    let mut extra_foreign: Vec<String> = vec![];
    let mut respawns = 0;
    'outer: loop {
        let mut alive = false;
        for i in 0..ws.len() {
            if ws[i].done {
                continue;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(ws[i].pid, &mut st, libc::WNOHANG) };
            let mut death = None;
            if r == ws[i].pid {
                if libc::WIFEXITED(st) {
                    match libc::WEXITSTATUS(st) {
                        0 => {
                            ws[i].done = true;
                            stats.load(ws[i].fd);
                            continue;
                        }
                        11 => {
                            let out = unsafe { outcome(prop, ws[i].sh, None) };
                            let run = unsafe { (*ws[i].sh).run };
                            stats.load(ws[i].fd);
                            if let Some(how) = show_again(prop, o, &out, ws[i].from, run, &mut searches) {
                                violation = Some((how, out, run));
                                ws[i].done = true;
                                break 'outer;
                            }
                            extra_foreign.push(format!("run {} (not reproducible) [{}] {}: {}", run, fail::names(out.props), out.label, out.msg));
                            raw::close(ws[i].fd);
                            ws[i] = spawn(i as u64, run + o.workers as u64, ws[i].sh);
                            alive = true;
                            continue;
                        }
                        13 => {
                            stats.load(ws[i].fd);
                            raw::close(ws[i].fd);
                            let run = unsafe { (*ws[i].sh).run };
                            ws[i] = spawn(i as u64, run + o.workers as u64, ws[i].sh);
                            alive = true;
                            continue;
                        }
                        12 => {
                            let out = unsafe { outcome(prop, ws[i].sh, None) };
                            let run = unsafe { (*ws[i].sh).run };
                            let again = replay(prop, &out.choices, false, Duration::from_secs(40));
                            if again.kind == Kind::Ok {
                                extra_foreign.push(format!("run {} (not reproducible) harness: {}", run, out.msg));
                                stats.load(ws[i].fd);
                                raw::close(ws[i].fd);
                                ws[i] = spawn(i as u64, run + o.workers as u64, ws[i].sh);
                                alive = true;
                                continue;
                            }
                            harness = Some(format!("run {}: {}", run, out.msg));
                            ws[i].done = true;
                            break 'outer;
                        }
                        _ => death = describe_status(st),
                    }
                } else {
                    death = describe_status(st);
                }
            } else {
                alive = true;
                let b = unsafe { (*ws[i].sh).beat };
                if b != ws[i].beat {
                    ws[i].beat = b;
                    ws[i].seen = Instant::now();
                } else if ws[i].seen.elapsed() > Duration::from_secs(30) {
                    unsafe {
                        libc::kill(ws[i].pid, libc::SIGKILL);
                        libc::waitpid(ws[i].pid, &mut st, 0);
                    }
                    death = Some("hang: no progress".to_string());
                }
            }
            if let Some(d) = death {
                let out = unsafe { outcome(prop, ws[i].sh, Some(d)) };
                let run = unsafe { (*ws[i].sh).run };
                stats.load(ws[i].fd);
                ws[i].done = true;
                // a process that was killed from outside is not a finding unless it repeats
                let mut noted = false;
                if out.kind == Kind::Violation {
                    if let Some(how) = show_again(prop, o, &out, ws[i].from, run, &mut searches) {
                        let (Shown::Alone(r) | Shown::After(_, r)) = &how;
                        if let Some(k) = known.iter().find(|k| k.prop == prop.id && k.label == r.label && r.msg.contains(&k.pat)) {
                            *stats.known.entry(k.text.clone()).or_insert(0) += 1;
                            noted = true;
                        } else {
                            violation = Some((how, out, run));
                            break 'outer;
                        }
                    }
                }
                if !noted {
                    extra_foreign.push(format!("run {} [{}] {}: {}", run, fail::names(out.props), out.label, out.msg));
                }
                respawns += 1;
                if respawns > 1000 || Instant::now() > deadline {
                    continue;
                }
                let sh = ws[i].sh;
                raw::close(ws[i].fd);
                let n = spawn(i as u64, run + o.workers as u64, sh);
                ws[i] = n;
                alive = true;
            }
        }
        if !alive && ws.iter().all(|w| w.done) {
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for w in &ws {
        if !w.done {
            unsafe {
                libc::kill(w.pid, libc::SIGKILL);
                let mut st = 0;
                libc::waitpid(w.pid, &mut st, 0);
            }
            // what it saved last
            stats.load(w.fd);
        }
    }
    stats.foreign += extra_foreign.len() as u64;
    stats.foreign_msgs.extend(extra_foreign);
    let explore_s = t0.elapsed().as_secs_f64();
    let runs: u64 = ws.iter().map(|w| unsafe { (*w.sh).runs_done }).sum();
    let mut code = 0;
    let mut vio_json = String::new();
    if let Some(h) = &harness {
        println!("ERROR: the harness itself failed: {}", h);
        code = 2;
    } else if let Some((how, out, run)) = violation {
        let (best, tried, from, traced, exact) = match how {
            Shown::Alone(first) => {
                let (best, tried) = shrink(prop, first, Duration::from_secs(45));
                let traced = replay(prop, &best.choices, true, Duration::from_secs(40));
                let exact = traced.kind == Kind::Violation && traced.label == best.label && traced.hash == best.hash;
                (best, tried, run, traced, exact)
            }
            Shown::After(from, r) => {
                let again = history(prop, o.seed, from, run, o.workers as u64, Duration::from_secs(120));
                let exact = same(&again, &r) && again.hash == r.hash;
                let mut traced = replay(prop, &r.choices, true, Duration::from_secs(40));
                traced.trace.insert(0, format!("(needs what runs {} to {}, every {}th, leave behind in the process; this is the last one alone)", from, run, o.workers));
                (r, 0, from, traced, exact)
            }
        };
        let reproducible = true;
        let trace = &traced.trace;
        let dir = format!("{}/replays", o.out);
        let _ = std::fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}.json", dir, prop.id, o.seed, run);
        let mut j = String::new();
        let _ = write!(
            j,
            "{{\n \"property\": {},\n \"violates\": {},\n \"label\": {},\n \"message\": {},\n \"seed\": {},\n \"run\": {},\n \"from\": {},\n \"step\": {},\n \"run_seed\": \"{:#x}\",\n \"reproducible\": {},\n \"exact\": {},\n \"original_choices\": {},\n \"shrink_attempts\": {},\n \"hash\": \"{:#x}\",\n \"choices\": {:?},\n \"trace\": [\n",
            jstr(prop.id), jstr(&fail::names(best.props)), jstr(&best.label), jstr(&best.msg), o.seed, run, from, o.workers, run_seed(o.seed, prop.id, run), reproducible, exact,
            out.choices.len(), tried, best.hash, best.choices
        );
        for (i, l) in trace.iter().enumerate() {
            let _ = writeln!(j, "  {}{}", jstr(l), if i + 1 < trace.len() { "," } else { "" });
        }
        j.push_str(" ]\n}\n");
        let _ = std::fs::write(&path, &j);
        println!("{}: {} [{}]", prop.id, best.msg, best.label);
        for l in trace.iter().take(200) {
            println!("    {}", l);
        }
        println!("  seed {} run {} ({} choices, {} after shrinking, reproduced: {}, exact: {})", o.seed, run, out.choices.len(), best.choices.len(), reproducible, exact);
        println!("VIOLATION property={} replay={}", prop.id, path);
        vio_json = best.msg;
        code = 1;
    }
    for k in known.iter().filter(|k| k.prop == prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.text);
    }
    write_evidence(prop, o, &stats, runs, total, explore_s, t0.elapsed().as_secs_f64(), code, &vio_json);
    println!(
        "{} {}: {} runs in {:.1} s ({:.0}/h), {} distinct non-trivial, {} states, {} interleavings, {} foreign anomalies, determinism {}/{}",
        prop.id,
        o.tier,
        runs,
        explore_s,
        runs as f64 / explore_s * 3600.0,
        stats.nontrivial.len(),
        stats.states.len(),
        stats.scheds.len(),
        stats.foreign,
        stats.determinism.0 - stats.determinism.1,
        stats.determinism.0
    );
    for m in stats.foreign_msgs.iter().take(5) {
        println!("  note: {}", m);
    }
    code
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(p: &Prop, o: &Opts, s: &Stats, runs: u64, planned: u64, explore: f64, wall: f64, code: i32, vio: &str) {
    let mut j = String::new();
    let group = |pre: &str| -> String {
        let v: Vec<String> = s.counters.iter().filter(|(k, _)| k.starts_with(pre)).map(|(k, v)| format!("{}: {}", jstr(&k[pre.len()..]), v)).collect();
        format!("{{{}}}", v.join(", "))
    };
    let samples: Vec<String> =
        s.samples.iter().take(2).map(|t| format!("[{}]", t.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(", "))).collect();
    let cov = s.cov.iter().filter(|x| **x != 0).count();
    let _ = write!(
        j,
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"simulated_runs_planned\": {},\n  \"runs_per_hour\": {:.0},\n  \"simulated_time_s\": {:.3},\n  \"faults_injected\": {},\n  \"operations\": {},\n  \"io\": {},\n  \"scheduler\": {},\n  \"distinct_states\": {},\n  \"state_measure\": {},\n  \"distinct_interleavings\": {},\n  \"instrumented_edges_total\": {},\n  \"instrumented_edges_reached\": {},\n  \"foreign_anomalies\": {},\n  \"foreign_anomaly_samples\": [{}],\n  \"determinism_replays\": {},\n  \"determinism_mismatches\": {},\n  \"real_code\": {},\n  \"stubs\": {},\n  \"exhaustive\": false\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.2},\n \"violations\": {},\n \"violation\": {}\n}}\n",
        jstr(p.id), jstr(&o.tier), o.seed, jstr(p.level), runs, s.nontrivial.len(), jstr(p.rule), samples.join(",\n   "), planned,
        runs as f64 / explore.max(0.001) * 3600.0, s.sim_ns as f64 / 1e9, group("fault."), group("op."), group("io."), group("sched."),
        s.states.len(), jstr("hash of every handle's expected contents, its kind (memory, attached, loaded) and the store state after each operation"),
        s.scheds.len(), s.cov.len(), cov, s.foreign,
        s.foreign_msgs.iter().take(5).map(|l| jstr(l)).collect::<Vec<_>>().join(", "),
        s.determinism.0, s.determinism.1, jstr(p.real), jstr(p.stub),
        p.assumptions.iter().map(|l| jstr(l)).collect::<Vec<_>>().join(", "),
        wall, if code == 1 { 1 } else { 0 }, jstr(vio)
    );
    let dir = format!("{}/evidence", o.out);
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{}/{}.json", dir, p.id), j);
}

/// Replay a file written by a check; exit code 1 if it still fails
pub fn replay_file(props: &[Prop], path: &str) -> i32 {
    let s = match std::fs::read_to_string(path) {
        Ok(s) => s,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let get = |key: &str| -> Option<String> {
        let k = format!("\"{}\": ", key);
        let i = s.find(&k)? + k.len();
        let e = s[i..].find('\n')? + i;
        Some(s[i..e].trim_end_matches(',').to_string())
    };
    let id = get("property").unwrap_or_default().trim_matches('"').to_string();
    let hash = get("hash").unwrap_or_default().trim_matches('"').to_string();
    let choices: Vec<u64> = get("choices").unwrap_or_default().trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.trim().parse().ok()).collect();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        println!("unknown property {}", id);
        return 2;
    };
    let num = |key: &str| get(key).and_then(|x| x.parse::<u64>().ok());
    let r = match (num("seed"), num("from"), num("run"), num("step")) {
        (Some(seed), Some(from), Some(run), Some(step)) if from != run && step > 0 => history(p, seed, from, run, step, Duration::from_secs(600)),
        _ => replay(p, &choices, true, Duration::from_secs(60)),
    };
    for l in &r.trace {
        println!("    {}", l);
    }
    println!("{:?} [{}] {}", r.kind, r.label, r.msg);
    println!("hash {:#x}, recorded {}: {}", r.hash, hash, if format!("{:#x}", r.hash) == hash { "exact" } else { "different" });
    if r.kind == Kind::Violation {
        println!("VIOLATION property={} replay={}", id, path);
        1
    } else {
        0
    }
}
