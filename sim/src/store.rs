//! The store every simulated tree is attached to: a thin fault-injecting wrapper around one of
//! the library's own stores or around a reference store with configurable ids.
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use simrt::{alloc, ctx, disk, ev, sched};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt;
use std::sync::Arc;

pub type OBlob = Blob<'static>;

pub struct RefStore {
    pub idlen: usize,
    pub content_addressed: bool,
    /// hand out a fresh buffer per read, so that a stale borrow is visible
    pub fresh: bool,
    pub map: BTreeMap<Vec<u8>, Arc<Vec<u8>>>,
    pub unsynced: Vec<Vec<u8>>,
    pub next: u64,
}

pub enum Kind {
    Ref(RefStore),
    Mem(MemStore),
    Dyn(DynBlobStore),
    Paged(PagedFileStore),
}

#[derive(Default, Clone)]
pub struct Plan {
    /// fail the read after that many more reads
    pub read_at: Option<u64>,
    pub read_burst: u64,
    pub write_at: Option<u64>,
    pub write_burst: u64,
    /// a failing write reaches the store although it is reported as failed
    pub write_lands: bool,
    pub sync_fails: u64,
    pub rate: u64,
}

pub struct State {
    pub index: usize,
    pub kind: Kind,
    pub disk: Option<usize>,
    pub max_blob: usize,
    pub plan: Plan,
    /// permanently unreadable blobs
    pub bad: BTreeSet<Vec<u8>>,
    /// injected failures that were returned
    pub fired: u64,
    /// oversized writes (legitimately refused)
    pub oversize: u64,
    pub nreads: u64,
    pub nwrites: u64,
    pub log: bool,
    pub reads: Vec<Vec<u8>>,
    pub writes: Vec<(Vec<u8>, Vec<u8>)>,
    /// every acknowledged blob, for independent decoding
    pub ledger: BTreeMap<Vec<u8>, Vec<u8>>,
    /// the process that used this handle is dead
    pub dead: bool,
    /// count-down to process death, in store calls
    pub crash_at: Option<u64>,
    /// first contract violation of the wrapped store (id reuse)
    pub broken: Option<String>,
}

pub struct Shared(UnsafeCell<State>);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}

#[derive(Clone)]
pub struct SimStore(Arc<Shared>);

impl fmt::Debug for SimStore {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "SimStore#{}", self.st().index)
    }
}

impl SimStore {
    pub fn new(index: usize, kind: Kind, disk: Option<usize>, max_blob: usize) -> Self {
        SimStore(Arc::new(Shared(UnsafeCell::new(State {
            index,
            kind,
            disk,
            max_blob,
            plan: Plan::default(),
            bad: BTreeSet::new(),
            fired: 0,
            oversize: 0,
            nreads: 0,
            nwrites: 0,
            log: false,
            reads: vec![],
            writes: vec![],
            ledger: BTreeMap::new(),
            dead: false,
            crash_at: None,
            broken: None,
        }))))
    }
    /// Exclusive by virtue of the baton; never hold across a scheduling point
    #[allow(clippy::mut_from_ref)]
    pub fn st(&self) -> &mut State {
        unsafe { &mut *self.0 .0.get() }
    }
    pub fn same(&self, other: &SimStore) -> bool {
        Arc::ptr_eq(&self.0, &other.0)
    }
    /// blob contents as acknowledged, without going through the code under test
    pub fn raw(&self, id: &[u8]) -> Result<Vec<u8>, String> {
        self.st().ledger.get(id).cloned().ok_or_else(|| format!("id {} was never returned by the store", hex(id)))
    }
    /// hard failures seen by the code under test so far, injected in here or on the disk
    pub fn failures(&self) -> u64 {
        let s = self.st();
        s.fired + s.oversize + s.disk.map(|d| disk::disk(d).fired).unwrap_or(0)
    }
    pub fn is_dead(&self) -> bool {
        let s = self.st();
        s.dead || s.disk.map(disk::is_dead).unwrap_or(false)
    }
    pub fn quiet(&self) {
        let s = self.st();
        s.plan = Plan::default();
        s.crash_at = None;
        if let Some(d) = s.disk {
            disk::disarm(d);
        }
    }
    fn enter(&self, site: u32) -> anyhow::Result<()> {
        sched::yield_point(site);
        ctx::ctx().step();
        let s = self.st();
        if self.is_dead() {
            return Err(anyhow::anyhow!("process is dead"));
        }
        if let Some(n) = s.crash_at {
            if n == 0 {
                s.dead = true;
                s.crash_at = None;
                if let Some(d) = s.disk {
                    disk::kill(d);
                }
                ctx::ctx().count("fault.crash_between_calls");
                ev!("CRASH of the process at a store call of store {}", s.index);
                return Err(anyhow::anyhow!("process is dead"));
            }
            s.crash_at = Some(n - 1);
        }
        Ok(())
    }
}

pub fn hex(d: &[u8]) -> String {
    if d.len() > 24 {
        let mut s: String = d[..20].iter().map(|b| format!("{:02x}", b)).collect();
        s.push_str(&format!("..({} bytes)", d.len()));
        s
    } else {
        d.iter().map(|b| format!("{:02x}", b)).collect()
    }
}
/// keys are mostly printable
pub fn show(d: &[u8]) -> String {
    let run = |d: &[u8]| -> String {
        let mut s = String::new();
        let mut i = 0;
        while i < d.len() {
            let mut j = i;
            while j < d.len() && d[j] == d[i] {
                j += 1;
            }
            let c = if d[i].is_ascii_graphic() { (d[i] as char).to_string() } else { format!("\\x{:02x}", d[i]) };
            if j - i > 4 {
                s.push_str(&format!("({}x{})", c, j - i));
            } else {
                for _ in i..j {
                    s.push_str(&c);
                }
            }
            i = j;
        }
        s
    };
    let s = run(d);
    if s.len() > 60 { format!("\"{}..\"[{}b]", &s[..50], d.len()) } else { format!("\"{}\"", s) }
}

impl RefStore {
    pub fn make_id(&mut self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        if self.content_addressed {
            let mut h = 0x1234_5678_9abc_def0u64;
            let mut id = vec![];
            while id.len() < self.idlen {
                h = ctx::hash_bytes(h, data);
                id.extend_from_slice(&h.to_be_bytes());
            }
            id.truncate(self.idlen);
            return Ok(id);
        }
        self.next += 1;
        let n = self.next;
        if self.idlen < 8 && n >= 1u64 << (8 * self.idlen) {
            return Err(anyhow::anyhow!("reference store is out of ids"));
        }
        let b = n.to_be_bytes();
        let mut id = vec![];
        if self.idlen <= 8 {
            id.extend_from_slice(&b[8 - self.idlen..]);
        } else {
            id.extend_from_slice(&b);
            for i in 8..self.idlen {
                id.push((n as u8).wrapping_mul(31).wrapping_add(i as u8));
            }
        }
        Ok(id)
    }
}

fn injected(what: &str) -> anyhow::Error {
    anyhow::anyhow!("injected {} failure", what)
}

impl BlobStore for SimStore {
    type Error = anyhow::Error;

    fn read(&self, id: &[u8]) -> anyhow::Result<OBlob> {
        let _h = alloc::harness();
        self.enter(0x300)?;
        let s = self.st();
        s.nreads += 1;
        if s.log {
            s.reads.push(id.to_vec());
        }
        let c = ctx::ctx();
        c.note(ctx::hash_bytes(1, id));
        let mut fail = false;
        if s.bad.contains(id) {
            fail = true;
            c.count("fault.blob_unreadable");
        } else if let Some(n) = s.plan.read_at {
            if n == 0 {
                fail = true;
                c.count("fault.store_read");
                if s.plan.read_burst > 0 {
                    s.plan.read_burst -= 1;
                } else {
                    s.plan.read_at = None;
                }
            } else {
                s.plan.read_at = Some(n - 1);
            }
        }
        if !fail && s.plan.rate > 0 && c.chance(1, s.plan.rate) {
            fail = true;
            c.count("fault.store_read");
        }
        if fail {
            s.fired += 1;
            ev!("fault: store {} read {} fails", s.index, hex(id));
            return Err(injected("read"));
        }
        let r = match &s.kind {
            Kind::Ref(r) => match r.map.get(id) {
                Some(d) => {
                    if r.fresh {
                        let _s = alloc::sut();
                        Ok(Blob::copy_from_slice(d))
                    } else {
                        Ok(Blob::from_arc_vec(d.clone()))
                    }
                }
                None => Err(anyhow::anyhow!("no blob {}", hex(id))),
            },
            Kind::Mem(m) => {
                let m = m.clone();
                let _s = alloc::sut();
                m.read(id)
            }
            Kind::Dyn(m) => {
                let m = m.clone();
                let _s = alloc::sut();
                m.read(id)
            }
            Kind::Paged(m) => {
                let m = m.clone();
                let _s = alloc::sut();
                m.read(id)
            }
        };
        sched::yield_point(0x301);
        r
    }

    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        let _h = alloc::harness();
        self.enter(0x302)?;
        let s = self.st();
        s.nwrites += 1;
        let c = ctx::ctx();
        let mut fail = false;
        if let Some(n) = s.plan.write_at {
            if n == 0 {
                fail = true;
                if s.plan.write_burst > 0 {
                    s.plan.write_burst -= 1;
                } else {
                    s.plan.write_at = None;
                }
            } else {
                s.plan.write_at = Some(n - 1);
            }
        }
        if !fail && s.plan.rate > 0 && c.chance(1, s.plan.rate) {
            fail = true;
        }
        if fail {
            s.fired += 1;
            c.count("fault.store_write");
            ev!("fault: store {} write of {} bytes fails (lands: {})", s.index, data.len(), s.plan.write_lands);
            if !s.plan.write_lands {
                return Err(injected("write"));
            }
        }
        if data.len() > s.max_blob {
            s.oversize += 1;
        }
        let r = match &mut s.kind {
            Kind::Ref(r) => match r.make_id(data) {
                Ok(id) => {
                    if r.map.insert(id.clone(), Arc::new(data.to_vec())).is_none() {
                        r.unsynced.push(id.clone());
                    }
                    Ok(id)
                }
                Err(e) => {
                    s.fired += 1;
                    Err(e)
                }
            },
            Kind::Mem(m) => {
                let m = m.clone();
                let _s = alloc::sut();
                m.write(data)
            }
            Kind::Dyn(m) => {
                let m = m.clone();
                let _s = alloc::sut();
                m.write(data)
            }
            Kind::Paged(m) => {
                let m = m.clone();
                let _s = alloc::sut();
                m.write(data)
            }
        };
        let s = self.st();
        if let Ok(id) = &r {
            c.note(ctx::hash_bytes(2, id));
            ev!("store {} wrote {} bytes as {}", s.index, data.len(), hex(id));
            if let Some(old) = s.ledger.get(id) {
                if old != data && s.broken.is_none() {
                    s.broken = Some(format!("store returned id {} twice for different contents", hex(id)));
                }
            }
            s.ledger.insert(id.clone(), data.to_vec());
            if s.log {
                s.writes.push((id.clone(), data.to_vec()));
            }
        }
        sched::yield_point(0x303);
        if fail {
            return Err(injected("write"));
        }
        r
    }

    fn sync(&self) -> anyhow::Result<()> {
        let _h = alloc::harness();
        self.enter(0x304)?;
        let s = self.st();
        if s.plan.sync_fails > 0 {
            s.plan.sync_fails -= 1;
            s.fired += 1;
            ctx::ctx().count("fault.store_sync");
            return Err(injected("sync"));
        }
        match &mut s.kind {
            Kind::Ref(r) => {
                r.unsynced.clear();
                Ok(())
            }
            Kind::Mem(m) => m.clone().sync(),
            Kind::Dyn(m) => {
                let m = m.clone();
                let _s = alloc::sut();
                m.sync()
            }
            Kind::Paged(m) => {
                let m = m.clone();
                let _s = alloc::sut();
                m.sync()
            }
        }
    }
}
