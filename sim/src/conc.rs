//! Threads: several simulated threads on clones of one store, or on clones of one tree.
use crate::blobs::content;
use crate::fail::{call, fail, p, take_panic, Props, R};
use crate::gen::Gen;
use crate::store::{hex, show, Kind, OBlob, RefStore, SimStore};
use crate::sut::{self, Comb, Item, It, Join, Log, H};
use crate::trie::Map;
use crate::world::{self, check_tree, leak_check, list, open_paged, show_map, Tag};
use radixdb::store::{BlobStore, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use simrt::{
    alloc,
    ctx::{self, ctx},
    disk::{self, Restart},
    ev, sched,
};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, HashSet};
use std::sync::Arc;

/// Data shared by simulated threads, of which only one runs at a time
struct Baton<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Baton<T> {}
unsafe impl<T> Send for Baton<T> {}
impl<T> Baton<T> {
    fn new(t: T) -> Arc<Self> {
        Arc::new(Baton(UnsafeCell::new(t)))
    }
    /// never held across a call into the code under test
    #[allow(clippy::mut_from_ref)]
    fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

fn threads(props: Props, fs: Vec<Box<dyn FnOnce() + Send>>) -> R<()> {
    let policy = sched::Policy::draw();
    let old = ctx().blame(props);
    let res = sched::run(policy, fs);
    ctx().blame(old);
    for r in res {
        if let Some(e) = r {
            std::mem::forget(e);
            let lp = take_panic();
            let label = if crate::fail::harness_loc(&lp.loc) { "HARNESS" } else { "panic" };
            return fail(props, label, format!("a thread panicked at {}: {}", lp.loc, lp.msg));
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------- stores

#[derive(Clone)]
enum AnyStore {
    Mem(MemStore),
    Dyn(DynBlobStore),
    Paged(PagedFileStore),
}
impl AnyStore {
    fn write(&self, d: &[u8]) -> anyhow::Result<Vec<u8>> {
        let _s = alloc::sut();
        match self {
            AnyStore::Mem(s) => s.write(d),
            AnyStore::Dyn(s) => s.write(d),
            AnyStore::Paged(s) => s.write(d),
        }
    }
    fn read(&self, id: &[u8]) -> anyhow::Result<OBlob> {
        let _s = alloc::sut();
        match self {
            AnyStore::Mem(s) => s.read(id),
            AnyStore::Dyn(s) => s.read(id),
            AnyStore::Paged(s) => s.read(id),
        }
    }
    fn sync(&self) -> anyhow::Result<()> {
        let _s = alloc::sut();
        match self {
            AnyStore::Mem(s) => s.sync(),
            AnyStore::Dyn(s) => s.sync(),
            AnyStore::Paged(s) => s.sync(),
        }
    }
    fn last(&self) -> Option<Option<Vec<u8>>> {
        let _s = alloc::sut();
        match self {
            AnyStore::Paged(s) => {
                let x = s.last_id();
                let _h = alloc::harness();
                Some(x.map(|x| x.to_vec()))
            }
            _ => None,
        }
    }
    fn debug(&self) -> usize {
        let _s = alloc::sut();
        let s = match self {
            AnyStore::Mem(s) => format!("{:?} {}", s, s.count()),
            AnyStore::Dyn(s) => format!("{:?}", s),
            AnyStore::Paged(s) => format!("{:?}", s),
        };
        s.len()
    }
    fn dup(&self) -> AnyStore {
        let _s = alloc::sut();
        self.clone()
    }
}
fn gone<T>(x: T) {
    let _s = alloc::sut();
    drop(x);
}
fn plain(x: anyhow::Result<Vec<u8>>) -> anyhow::Result<Vec<u8>> {
    // hand over to the harness: nothing of it may count as held by the library
    x.map(|v| {
        let c = v.to_vec();
        gone(v);
        c
    })
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Write(usize),
    Big,
    Read,
    ReadLast,
    Last,
    Sync,
    Debug,
    Dup,
}

#[derive(Clone, Debug)]
enum Ev {
    Write { data: Vec<u8>, id: Option<Vec<u8>> },
    Last { id: Option<Vec<u8>> },
    Sync,
    Other,
}
#[derive(Clone, Debug)]
struct Hist {
    thread: usize,
    inv: u64,
    /// u64::MAX: never returned
    ret: u64,
    ev: Ev,
    ok: bool,
}
#[derive(Default)]
struct Sh {
    clock: u64,
    hist: Vec<Hist>,
    /// completed writes
    done: Vec<(Vec<u8>, Vec<u8>)>,
    held: Vec<(OBlob, Vec<u8>)>,
    bad: Option<(Props, &'static str, String)>,
    seq: u64,
}

fn do_thread(t: usize, store: AnyStore, ops: Vec<Do>, sh: Arc<Baton<Sh>>, d: Option<usize>, page: u64, props: Props) {
    let c = ctx();
    let mut store = store;
    let dead = || d.map(disk::is_dead).unwrap_or(false);
    let fired = || d.map(|d| disk::disk(d).fired).unwrap_or(0);
    let report = |op: Do, l: &'static str, m: String| {
        let s = sh.get();
        if s.bad.is_none() {
            s.bad = Some((props | if op == Do::ReadLast { p::S03 } else { 0 }, l, m));
        }
    };
    for op in ops {
        let bad = |l: &'static str, m: String| report(op, l, m);
        if dead() || sh.get().bad.is_some() {
            break;
        }
        let h = sh.get();
        h.clock += 1;
        let inv = h.clock;
        let at = h.hist.len();
        let ev = match op {
            Do::Write(len) => {
                h.seq += 1;
                let len = if page > 0 { len.min(page as usize - 8) } else { len };
                Ev::Write { data: content(h.seq, len, 0), id: None }
            }
            Do::Last | Do::ReadLast => Ev::Last { id: None },
            Do::Sync => Ev::Sync,
            _ => Ev::Other,
        };
        h.hist.push(Hist { thread: t, inv, ret: u64::MAX, ev: ev.clone(), ok: false });
        ev!("thread {}: {:?}", t, op);
        let f0 = fired();
        let mut ok = true;
        let mut res = ev;
        match (op, &mut res) {
            (Do::Write(_), Ev::Write { data, id }) => {
                let r = plain(store.write(data));
                match r {
                    _ if dead() => break,
                    Ok(x) => {
                        ev!("thread {}: wrote {} bytes as {}", t, data.len(), hex(&x));
                        *id = Some(x.clone());
                        sh.get().done.push((x, data.clone()));
                    }
                    Err(e) => {
                        if fired() == f0 {
                            bad("spurious-error", format!("a write fails without a fault: {:#}", e));
                        }
                        ok = false;
                        let _s = alloc::sut();
                        drop(e);
                    }
                }
            }
            (Do::Big, _) => {
                if page > 0 {
                    let d = content(7, page as usize - 7, 0);
                    let r = plain(store.write(&d));
                    if dead() {
                        break;
                    }
                    match r {
                        Ok(_) => bad("oversize", format!("a blob of {} bytes was accepted by pages of {}", d.len(), page)),
                        Err(e) => gone(e),
                    }
                }
            }
            (Do::Read, _) => {
                let n = sh.get().done.len() as u64;
                if n > 0 {
                    let (id, data) = sh.get().done[(n - 1 - c.draw(n)) as usize].clone();
                    let r = store.read(&id);
                    if dead() {
                        gone(r);
                        break;
                    }
                    match r {
                        Ok(b) => {
                            if b.as_ref() != &data[..] {
                                bad("wrong-data", format!("thread {} reads {} from {} instead of {}", t, hex(b.as_ref()), hex(&id), hex(&data)));
                            }
                            let s = sh.get();
                            if s.held.len() < 6 {
                                s.held.push((b, data));
                            } else {
                                gone(b);
                            }
                        }
                        Err(e) => {
                            if fired() == f0 {
                                bad("unreadable", format!("thread {} cannot read {}, whose write had finished: {:#}", t, hex(&id), e));
                            }
                            ok = false;
                            gone(e);
                        }
                    }
                }
            }
            (Do::Last | Do::ReadLast, Ev::Last { id }) => {
                let Some(x) = store.last() else {
                    res = Ev::Other;
                    sh.get().hist[at].ev = Ev::Other;
                    sh.get().hist[at].ret = inv;
                    continue;
                };
                *id = x.clone();
                if op == Do::ReadLast && !dead() {
                    // the query itself ends here
                    let s = sh.get();
                    s.clock += 1;
                    let now = s.clock;
                    s.hist[at] = Hist { thread: t, inv, ret: now, ev: res.clone(), ok: true };
                    if let Some(x) = x {
                        let r = store.read(&x);
                        if dead() {
                            gone(r);
                            break;
                        }
                        match r {
                            Ok(b) => {
                                let known = sh.get().hist.iter().any(|h| matches!(&h.ev, Ev::Write { data, .. } if data == b.as_ref())) || sh.get().done.iter().any(|x| x.1 == b.as_ref());
                                if !known {
                                    bad("wrong-data", format!("the blob the last id {} names holds {}, which nobody wrote", hex(&x), hex(b.as_ref())));
                                }
                                gone(b);
                            }
                            Err(e) => {
                                if fired() == f0 {
                                    bad("unreadable", format!("the blob the last id {} names cannot be read: {:#}", hex(&x), e));
                                }
                                gone(e);
                            }
                        }
                    }
                    continue;
                }
            }
            (Do::Sync, _) => {
                let r = store.sync();
                if dead() {
                    gone(r);
                    break;
                }
                ok = r.is_ok();
                if let Err(e) = r {
                    if fired() == f0 {
                        bad("spurious-error", format!("sync fails without a fault: {:#}", e));
                    }
                    gone(e);
                }
            }
            (Do::Debug, _) => {
                store.debug();
            }
            (Do::Dup, _) => {
                let n = store.dup();
                let old = std::mem::replace(&mut store, n);
                gone(old);
            }
            _ => {}
        }
        if dead() {
            break;
        }
        let s = sh.get();
        s.clock += 1;
        let now = s.clock;
        s.hist[at] = Hist { thread: t, inv, ret: now, ev: res, ok };
        c.note(ctx::hash_bytes(t as u64 + 77, format!("{:?}", s.hist[at].ev).as_bytes()));
    }
    gone(store);
}

/// Is there an order of the operations that explains every reported last id?
fn linearizable(start: Option<Vec<u8>>, hist: &[Hist], last: Option<Option<Vec<u8>>>) -> bool {
    // writes that failed have no effect
    let mut ops: Vec<Hist> = hist
        .iter()
        .filter(|h| match &h.ev {
            Ev::Write { .. } => h.ok || h.ret == u64::MAX,
            Ev::Last { .. } => h.ret != u64::MAX,
            _ => false,
        })
        .cloned()
        .collect();
    if let Some(id) = last {
        ops.push(Hist { thread: 99, inv: u64::MAX - 2, ret: u64::MAX - 1, ev: Ev::Last { id }, ok: true });
    }
    let n = ops.len();
    if n > 30 {
        return true;
    }
    let acked: HashSet<Vec<u8>> = ops.iter().filter_map(|h| match &h.ev {
        Ev::Write { id: Some(x), .. } => Some(x.clone()),
        _ => None,
    }).collect();
    // state: 0 start, k+1: write k
    fn go(ops: &[Hist], mask: u32, state: usize, start: &Option<Vec<u8>>, acked: &HashSet<Vec<u8>>, seen: &mut HashSet<(u32, usize)>) -> bool {
        if (0..ops.len()).all(|i| mask >> i & 1 == 1 || ops[i].ret == u64::MAX) {
            return true;
        }
        if !seen.insert((mask, state)) {
            return false;
        }
        let limit = (0..ops.len()).filter(|i| mask >> i & 1 == 0).map(|i| ops[i].ret).min().unwrap();
        for i in 0..ops.len() {
            if mask >> i & 1 == 1 || ops[i].inv > limit {
                continue;
            }
            let next = match &ops[i].ev {
                Ev::Write { .. } => i + 1,
                Ev::Last { id } => {
                    let ok = if state == 0 {
                        id == start
                    } else {
                        match &ops[state - 1].ev {
                            Ev::Write { id: Some(w), .. } => id.as_ref() == Some(w),
                            _ => id.as_ref().map(|x| !acked.contains(x) && start.as_ref() != Some(x)).unwrap_or(false),
                        }
                    };
                    if !ok {
                        continue;
                    }
                    state
                }
                _ => state,
            };
            if go(ops, mask | 1 << i, next, start, acked, seen) {
                return true;
            }
        }
        false
    }
    go(&ops, 0, 0, &start, &acked, &mut HashSet::new())
}

fn show_hist(h: &[Hist]) -> String {
    h.iter()
        .map(|h| {
            let what = match &h.ev {
                Ev::Write { data, id } => format!("write({} bytes) -> {}", data.len(), id.as_ref().map(|x| hex(x)).unwrap_or("?".into())),
                Ev::Last { id } => format!("last_id -> {}", id.as_ref().map(|x| hex(x)).unwrap_or("none".into())),
                e => format!("{:?}", e),
            };
            format!("[{}..{} thread {}: {}]", h.inv, if h.ret == u64::MAX { "".into() } else { h.ret.to_string() }, h.thread, what)
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// How threads on a store are explored
pub struct Cfg {
    pub base: Props,
    /// how often nothing, a process crash, a power cut, I/O faults
    pub ends: [u32; 4],
    pub sync: u32,
    pub last: u32,
    /// MemStore, DynBlobStore, PagedFileStore
    pub kinds: [u32; 3],
}
pub static ANY: Cfg = Cfg { base: p::S06, ends: [12, 4, 2, 2], sync: 2, last: 4, kinds: [2, 2, 6] };

pub fn run_store(cfg: &Cfg) -> R<()> {
    let c = ctx();
    c.count("op.threads_on_store");
    let kind = c.weighted(&cfg.kinds);
    let (d, page) = if kind == 0 { (None, 0) } else { (Some(disk::create()), *c.pick(&[64u64, 128, 256, 1024, 4096])) };
    let open = |kind: usize| -> R<AnyStore> {
        if kind == 0 {
            return call(p::S06, "MemStore", || AnyStore::Mem(MemStore::default()));
        }
        let f = disk::open(d.unwrap());
        let s = call(p::S06 | p::S01, "open", move || PagedFileStore::new(f, page))?;
        match s {
            Ok(s) if kind == 1 => call(p::S06, "Arc", || AnyStore::Dyn(Arc::new(s))),
            Ok(s) => Ok(AnyStore::Paged(s)),
            Err(e) => fail(p::S06 | p::S01, "open", format!("the file cannot be opened: {:#}", e)),
        }
    };
    let store = open(kind)?;
    let sh = Baton::new(Sh::default());
    // before
    let pre = c.draw(4);
    for _ in 0..pre {
        let s = sh.get();
        s.seq += 1;
        let len = c.draw(if page > 0 { (page - 7).min(60) } else { 60 }) as usize;
        let data = content(s.seq, len, 0);
        match plain(store.write(&data)) {
            Ok(id) => s.done.push((id, data)),
            Err(e) => return fail(p::S04 | p::S06, "spurious-error", format!("a write fails without a fault: {:#}", e)),
        }
    }
    let start = sh.get().done.last().map(|x| x.0.clone());
    let old: Vec<(Vec<u8>, Vec<u8>)> = sh.get().done.clone();
    // the program of every thread
    let nt = *c.pick(&[2usize, 3, 2, 4]);
    let mut progs = vec![];
    for _ in 0..nt {
        let n = c.range(1, 6);
        let mut v = vec![];
        for _ in 0..n {
            c.span_start();
            let edge = page.max(64) as usize - 8;
            v.push(match c.weighted(&[10, 5, cfg.last, 3, cfg.sync, 1, 1, 1]) {
                0 => Do::Write(*c.pick(&[1usize, 0, 10, 40, edge, edge - 1, edge / 2, edge / 3])),
                1 => Do::Read,
                2 => Do::Last,
                3 => Do::ReadLast,
                4 => Do::Sync,
                5 => Do::Big,
                6 => Do::Debug,
                _ => Do::Dup,
            });
            c.span_end();
        }
        progs.push(v);
    }
    let mut how = None;
    let mut faulty = false;
    if let Some(d) = d {
        match c.weighted(&cfg.ends) {
            1 => {
                disk::arm_crash(d, c.draw(60));
                how = Some(Restart::Process);
            }
            2 => {
                disk::arm_crash(d, c.draw(60));
                how = Some(Restart::Power);
            }
            3 => {
                faulty = true;
                let kinds = *c.pick(&[disk::F_ALL, disk::F_SHORT | disk::F_EINTR, disk::F_SEEK, disk::F_READ, disk::F_MMAP]);
                disk::disk(d).faults = disk::Faults { rate: *c.pick(&[6u64, 15]), arm: None, burst: 0, kinds, cap: u64::MAX };
            }
            _ => {}
        }
    }
    let rp = p::S06 | p::S04 | if faulty { p::S05 } else { 0 };
    let writers = progs.iter().filter(|v| v.iter().any(|o| matches!(o, Do::Write(_)))).count();
    if writers >= 2 && cfg.base == p::S06 {
        c.mark();
    }
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (t, ops) in progs.into_iter().enumerate() {
        let (s, sh) = (store.dup(), sh.clone());
        fs.push(Box::new(move || do_thread(t, s, ops, sh, d, page, rp)));
    }
    let keep = c.chance(2, 3);
    let store = if keep {
        Some(store)
    } else {
        gone(store);
        None
    };
    threads(p::S06 | p::T14, fs)?;
    let s = sh.get();
    if let Some((ps, l, m)) = s.bad.take() {
        return fail(ps, l, format!("{}; history: {}", m, show_hist(&s.hist)));
    }
    let mut h = s.hist.len() as u64;
    for e in &s.hist {
        h = ctx::mix(h, ctx::hash_bytes(e.thread as u64, show_hist(std::slice::from_ref(e)).as_bytes()));
    }
    c.state(h);
    if let Some(d) = d {
        disk::disk(d).faults = disk::NO_FAULTS;
        if !disk::is_dead(d) {
            disk::disk(d).crash_at = None;
        }
    }
    // every id is unique
    let mut ids: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    for (id, data) in &s.done {
        if let Some(o) = ids.insert(id.clone(), data.clone()) {
            ensure!(&o == data, p::S06 | p::S04 | if faulty { p::S05 } else { 0 }, "id-reused", "id {} was returned for two different blobs; history: {}", hex(id), show_hist(&s.hist));
        }
    }
    let crashed = d.map(disk::is_dead).unwrap_or(false);
    let restart = crashed || how.is_some();
    let power = how == Some(Restart::Power);
    let mut store = store;
    let reopened = restart || store.is_none();
    if restart || (d.is_some() && store.is_none()) {
        let d = d.unwrap();
        if restart {
            disk::kill(d);
            // what the threads still held dies with the process
            let held = std::mem::take(&mut s.held);
            gone(held);
        }
        gone(store.take());
        if restart {
            c.count(if power { "fault.power_cut" } else { "fault.process_crash" });
            disk::restart(d, if power { Restart::Power } else { Restart::Process });
        }
        store = Some(open(kind)?);
    }
    let Some(store) = store else {
        // a memory store that is gone: blobs must outlive it
        for (b, x) in &s.held {
            ensure!(b.as_ref() == &x[..], p::S04 | p::T14, "held", "a blob changed after its store was dropped");
        }
        let held = std::mem::take(&mut s.held);
        gone(held);
        drop(sh);
        return leak_check(p::S06);
    };
    // durable: what a sync covered
    let syncs: Vec<(u64, u64)> = s.hist.iter().filter(|h| matches!(h.ev, Ev::Sync) && h.ok && h.ret != u64::MAX).map(|h| (h.inv, h.ret)).collect();
    let faults = c.counters.get("fault.eio_fsync").copied().unwrap_or(0) > 0;
    let mut must: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    if !power {
        must.extend(old.iter().cloned());
    }
    for h in &s.hist {
        if let Ev::Write { data, id: Some(id) } = &h.ev {
            let covered = syncs.iter().any(|(inv, _)| *inv > h.ret);
            if !power || (covered && !faults) {
                must.push((id.clone(), data.clone()));
            }
        }
    }
    if power && !syncs.is_empty() && !faults {
        must.extend(old.iter().cloned());
    }
    let props = p::S06 | if power { p::S02 } else if restart { p::S01 } else { p::S04 } | if faulty { p::S05 } else { 0 };
    for (id, data) in &must {
        let r = store.read(id);
        match r {
            Ok(b) => {
                ensure!(b.as_ref() == &data[..], props, "wrong-data", "blob {} reads {} instead of {}; history: {}", hex(id), hex(b.as_ref()), hex(data), show_hist(&s.hist));
                gone(b);
            }
            Err(e) => return fail(props, "unreadable", format!("blob {} of {} bytes cannot be read: {:#}; history: {}", hex(id), data.len(), e, show_hist(&s.hist))),
        }
    }
    for (b, x) in &s.held {
        ensure!(b.as_ref() == &x[..], p::S06 | p::S04, "held", "a blob that was read changed from {} to {}", hex(x), hex(b.as_ref()));
    }
    if let (Some(last), false) = (store.last(), power) {
        let mut hist = s.hist.clone();
        if let Some(x) = &last {
            match store.read(x) {
                Ok(b) => {
                    let known = hist.iter().any(|h| matches!(&h.ev, Ev::Write { data, .. } if data == b.as_ref())) || old.iter().any(|o| o.1 == b.as_ref());
                    ensure!(known, p::S06 | p::S03, "last-id", "the last id {} names a blob nobody wrote", hex(x));
                    gone(b);
                }
                Err(e) => return fail(p::S06 | p::S03, "last-id", format!("the last id {} cannot be read: {:#}; history: {}", hex(x), e, show_hist(&hist))),
            }
        }
        if reopened {
            // a failed append may have reached the file after all
            for h in hist.iter_mut() {
                if !h.ok && matches!(h.ev, Ev::Write { .. }) {
                    h.ret = u64::MAX;
                }
            }
        }
        ensure!(
            linearizable(start, &hist, Some(last.clone())),
            p::S06 | p::S03 | if restart { p::S01 } else { 0 },
            "not-linearizable",
            "no order of the operations explains the last ids: at the end it is {:?}; history: {}",
            last.map(|x| hex(&x)),
            show_hist(&hist)
        );
    }
    // and it goes on
    if c.chance(1, 2) {
        let data = content(555, 9, 0);
        match plain(store.write(&data)) {
            Ok(id) => {
                ensure!(power || !ids.contains_key(&id), p::S06 | p::S01, "id-reused", "id {} was handed out again", hex(&id));
                let r = store.read(&id);
                ensure!(matches!(&r, Ok(b) if b.as_ref() == &data[..]), p::S06, "wrong-data", "a blob written after the threads ended reads back wrong");
                gone(r);
            }
            Err(e) => return fail(p::S06 | p::S01, "spurious-error", format!("a write fails without a fault: {:#}", e)),
        }
    }
    gone(store);
    let held = std::mem::take(&mut s.held);
    for (b, x) in &held {
        ensure!(b.as_ref() == &x[..], p::S04 | p::T14, "held", "a blob changed after its store was dropped");
    }
    gone(held);
    drop(sh);
    leak_check(p::S06)
}

// -------------------------------------------------------------------------------------- trees

#[derive(Clone, Debug)]
enum Act {
    Insert(Vec<u8>, Vec<u8>),
    Remove(Vec<u8>),
    RemovePrefix(Vec<u8>),
    Combine(Join, Comb, bool),
    Get(Vec<u8>),
    Scan(Vec<u8>),
    IterOpen,
    IterStep(u64),
    Again,
    Filter(Vec<u8>),
    Persist,
    Detach,
    Check,
}

#[derive(Default)]
struct Ts {
    bad: Option<crate::fail::Fail>,
    /// (id, contents)
    roots: Vec<(Vec<u8>, Map)>,
}

type Handle = (H, Map);

/// The life of one thread: it owns `mine` and shares `theirs` with the others
fn do_tree(t: usize, mine: Handle, theirs: Arc<Vec<Handle>>, acts: Vec<Act>, sh: Arc<Baton<Ts>>, base: Props) {
    let (mut h, mut m) = mine;
    let mut iter: Option<(It, std::collections::VecDeque<(Vec<u8>, Vec<u8>)>)> = None;
    let props = base | p::T12;
    let r = (|| -> R<()> {
        for a in acts {
            if sh.get().bad.is_some() {
                break;
            }
            ev!("thread {}: {:?}", t, a);
            let err = |e: anyhow::Error| -> R<()> { fail(props, "spurious-error", format!("thread {}: an operation fails without a fault: {:#}", t, e)) };
            let scoped = |f: &mut dyn FnMut() -> Result<(), anyhow::Error>| -> R<()> {
                let r = {
                    let _s = alloc::sut();
                    f()
                };
                match r {
                    Ok(()) => Ok(()),
                    Err(e) => err(e),
                }
            };
            match a {
                Act::Insert(k, v) => {
                    scoped(&mut || sut::insert(&mut h, &k, &v))?;
                    m.insert(k, v);
                }
                Act::Remove(k) => {
                    scoped(&mut || sut::remove(&mut h, &k))?;
                    m.remove(&k);
                }
                Act::RemovePrefix(q) => {
                    scoped(&mut || sut::remove_prefix(&mut h, &q))?;
                    m.retain(|k, _| !k.starts_with(&q));
                }
                Act::Combine(join, comb, inplace) => {
                    let (oh, om) = &theirs[0];
                    let (nm, _) = world::model_combine(&m, om, join, comb);
                    let log = Log::new(false);
                    if inplace {
                        scoped(&mut || sut::combine_with(&mut h, oh, join, comb, &log, false))?;
                    } else {
                        let mut new = None;
                        scoped(&mut || {
                            new = Some(sut::combine(&h, oh, join, comb, &log)?);
                            Ok(())
                        })?;
                        let old = std::mem::replace(&mut h, H::D(new.unwrap()));
                        gone(old);
                    }
                    m = nm;
                }
                Act::Get(k) => {
                    for (h, m) in [(&h, &m), (&theirs[0].0, &theirs[0].1)] {
                        let r = {
                            let _s = alloc::sut();
                            sut::get(h, &k)
                        };
                        match r {
                            Ok(x) => {
                                let same = x.as_ref() == m.get(&k);
                                let txt = format!("{:?}", x.as_ref().map(|x| show(x)));
                                gone(x);
                                ensure!(same, props, "get", "thread {}: get({}) gives {} on {}", t, show(&k), txt, show_map(m));
                            }
                            Err(e) => err(e)?,
                        }
                    }
                }
                Act::Scan(q) => {
                    let exp = list(&world::with_prefix(&m, &q));
                    let r = {
                        let _s = alloc::sut();
                        sut::scan(&h, &q, exp.len() + 4, true)
                    };
                    world::check_seq(&format!("thread {}: scan of {}", t, show(&q)), &r, &exp, false, props, world::show_kv)?;
                    gone(r);
                }
                Act::IterOpen => {
                    let it = {
                        let _s = alloc::sut();
                        It::open(&h, false)
                    };
                    gone(iter.take());
                    iter = Some((it, list(&m).into()));
                }
                Act::IterStep(n) => {
                    if let Some((it, rest)) = &mut iter {
                        for _ in 0..n {
                            let x = {
                                let _s = alloc::sut();
                                it.next()
                            };
                            match (x, rest.pop_front()) {
                                (Item::Got(Some(k), Ok(v)), Some((ek, evv))) => {
                                    ensure!(k.as_ref() == &ek[..] && v == evv, props | p::T08, "wrong-item", "thread {}: an iterator yields {}:{} instead of {}:{}", t, show(k.as_ref()), show(&v), show(&ek), show(&evv));
                                    gone((k, v));
                                }
                                (Item::End, None) => break,
                                (Item::Got(_, Err(e)), _) | (Item::Err(e), _) => err(e)?,
                                _ => return fail(props | p::T08, "wrong-item", format!("thread {}: an iterator ends too early or too late", t)),
                            }
                        }
                    }
                }
                Act::Again => {
                    // start over from the shared tree
                    let n = {
                        let _s = alloc::sut();
                        theirs[0].0.dup()
                    };
                    let old = std::mem::replace(&mut h, n);
                    gone(old);
                    m = theirs[0].1.clone();
                }
                Act::Filter(q) => {
                    let r = {
                        let _s = alloc::sut();
                        sut::filter_prefix(&h, &q, &q)
                    };
                    match r {
                        Ok(n) => {
                            let old = std::mem::replace(&mut h, n);
                            gone(old);
                            m = world::with_prefix(&m, &q);
                        }
                        Err(e) => err(e)?,
                    }
                }
                Act::Persist => {
                    if let H::A(tr) = &mut h {
                        let r = {
                            let _s = alloc::sut();
                            tr.try_reattach()
                        };
                        match r {
                            Ok(id) => {
                                let v = id.to_vec();
                                gone(id);
                                ev!("thread {}: persisted as {}", t, hex(&v));
                                sh.get().roots.push((v, m.clone()));
                            }
                            Err(e) => err(e)?,
                        }
                    }
                }
                Act::Detach => {
                    let mut new = None;
                    if let H::A(tr) = &h {
                        let r = {
                            let _s = alloc::sut();
                            tr.try_detached()
                        };
                        match r {
                            Ok(d) => new = Some(H::D(d)),
                            Err(e) => err(e)?,
                        }
                    }
                    if let Some(n) = new {
                        let old = std::mem::replace(&mut h, n);
                        gone(old);
                    }
                }
                Act::Check => {
                    let exp = list(&theirs[0].1);
                    let r = {
                        let _s = alloc::sut();
                        sut::iter(&theirs[0].0, exp.len() + 4, true)
                    };
                    world::check_seq("the tree all threads share", &r, &exp, false, props, world::show_kv)?;
                    gone(r);
                }
            }
            ctx().note(ctx::mix(t as u64, m.len() as u64));
        }
        let exp = list(&m);
        let r = {
            let _s = alloc::sut();
            sut::iter(&h, exp.len() + 4, true)
        };
        world::check_seq(&format!("the tree of thread {}", t), &r, &exp, false, props, world::show_kv)?;
        gone(r);
        if let Some((mut it, rest)) = iter.take() {
            for (ek, evv) in rest {
                let x = {
                    let _s = alloc::sut();
                    it.next()
                };
                match x {
                    Item::Got(Some(k), Ok(v)) => {
                        ensure!(k.as_ref() == &ek[..] && v == evv, props | p::T08, "wrong-item", "thread {}: an iterator yields {}:{} instead of {}:{}", t, show(k.as_ref()), show(&v), show(&ek), show(&evv));
                        gone((k, v));
                    }
                    _ => return fail(props | p::T08, "wrong-item", format!("thread {}: an iterator ends too early", t)),
                }
            }
            gone(it);
        }
        Ok(())
    })();
    match r {
        Ok(()) => {
            gone(h);
            gone(theirs);
        }
        Err(f) => {
            std::mem::forget((h, iter, theirs));
            let s = sh.get();
            if s.bad.is_none() {
                s.bad = Some(f);
            }
        }
    }
}

/// Threads that update their own clones of one tree
pub fn run_trees(base: Props) -> R<()> {
    let c = ctx();
    let max_val = *c.pick(&[12usize, 140, 400]);
    let max_key = *c.pick(&[12usize, 140, 400]);
    let mut g = Gen::new(max_key, max_val);
    let n = *c.pick(&[8u64, 20, 3]);
    let m = g.map(n);
    let t = world::build(&m);
    // where it lives
    let kind = c.weighted(&[5, 3, 2, 2]);
    let mut store = None;
    let h = if kind == 0 {
        H::D(t)
    } else {
        let (k, d, max) = match kind {
            1 => (Kind::Ref(RefStore { idlen: 8, content_addressed: false, fresh: c.chance(1, 2), map: BTreeMap::new(), unsynced: vec![], next: 0 }), None, usize::MAX),
            2 => (Kind::Mem(MemStore::default()), None, usize::MAX),
            _ => {
                let d = disk::create();
                match call(p::T01, "open", || open_paged(d, 4096, if c.chance(1, 2) { Tag::Dyn } else { Tag::Paged }))? {
                    Ok(k) => (k, Some(d), 4088),
                    Err(e) => return fail(p::T01, "open", format!("{:#}", e)),
                }
            }
        };
        let s = SimStore::new(0, k, d, max);
        store = Some(s.clone());
        let s2 = s.clone();
        let r = call(p::T01, "persist", || {
            t.try_attached(s2.clone()).and_then(|mut a| {
                let id = a.try_reattach()?;
                if c.chance(1, 2) {
                    RadixTree::try_load(s2, Some(id))
                } else {
                    Ok(a)
                }
            })
        })?;
        match r {
            Ok(a) => {
                gone(t);
                H::A(a)
            }
            Err(e) => {
                // too large for its pages
                if s.failures() == 0 {
                    return fail(p::T01, "spurious-error", format!("persisting fails without a fault: {:#}", e));
                }
                gone(e);
                H::D(t)
            }
        }
    };
    ev!("shared tree {} {}", if h.attached() { "in a store:" } else { "in memory:" }, show_map(&m));
    let nt = *c.pick(&[2usize, 3]);
    let mut progs = vec![];
    for _ in 0..nt {
        let k = c.range(1, 7);
        let mut v = vec![];
        for _ in 0..k {
            c.span_start();
            v.push(match c.weighted(&[10, 8, 3, 5, 4, 3, 3, 4, 3, 2, if store.is_some() { 5 } else { 0 }, if store.is_some() { 2 } else { 0 }, 3]) {
                0 => Act::Insert(if c.chance(1, 2) { g.probe(&m) } else { g.key() }, g.value()),
                1 => Act::Remove(g.probe(&m)),
                2 => Act::RemovePrefix(g.prefix(&m)),
                3 => Act::Combine(*c.pick(&[Join::Outer, Join::Inner, Join::Left]), *c.pick(&sut::COMBS), c.chance(2, 3)),
                4 => Act::Get(g.probe(&m)),
                5 => Act::Scan(g.prefix(&m)),
                6 => Act::IterOpen,
                7 => Act::IterStep(c.range(1, 3)),
                8 => Act::Again,
                9 => Act::Filter(g.prefix(&m)),
                10 => Act::Persist,
                11 => Act::Detach,
                _ => Act::Check,
            });
            c.span_end();
        }
        progs.push(v);
    }
    if !m.is_empty() {
        c.mark();
    }
    let sh = Baton::new(Ts::default());
    let dup = {
        let _s = alloc::sut();
        h.dup()
    };
    let theirs = Arc::new(vec![(dup, m.clone())]);
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for (i, acts) in progs.into_iter().enumerate() {
        let mine = {
            let _s = alloc::sut();
            h.dup()
        };
        let (m, th, sh) = (m.clone(), theirs.clone(), sh.clone());
        fs.push(Box::new(move || do_tree(i, (mine, m), th, acts, sh, base)));
    }
    // the original may go away while the threads work
    let own = if c.chance(1, 2) {
        gone(h);
        None
    } else {
        Some(h)
    };
    gone(theirs);
    threads(base | p::T12 | p::T14, fs)?;
    let s = sh.get();
    if let Some(f) = s.bad.take() {
        std::mem::forget(own);
        return Err(f);
    }
    if let Some(h) = own {
        check_tree(&h, &m, base | p::T12, "the original after the threads ended")?;
        gone(h);
    }
    if let Some(st) = &store {
        for (id, m) in &s.roots {
            let (st, id) = (st.clone(), id.clone());
            let what = format!("root {} persisted by a thread", hex(&id));
            match call(base | p::T02, "try_load", move || RadixTree::try_load(st, Some(id)))? {
                Ok(t) => {
                    let h = H::A(t);
                    check_tree(&h, m, base | p::T02 | p::T12, &what)?;
                    gone(h);
                }
                Err(e) => return fail(base | p::T02, "load", format!("{} cannot be loaded: {:#}", what, e)),
            }
        }
    }
    ctx().state(ctx::mix(s.roots.len() as u64, ctx().sched_hash));
    gone(store);
    drop(sh);
    leak_check(base)
}
