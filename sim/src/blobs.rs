//! Blob-level simulation of the file-backed store: S01-S05.
use crate::fail::{call, fail, p, Props, R};
use crate::store::{hex, OBlob};
use radixdb::store::{Blob, BlobStore, DynBlobStore, MemStore, PagedFileStore};
use simrt::{
    ctx::{self, ctx},
    disk::{self, Restart},
    ev,
};

#[derive(Clone)]
struct Rec {
    id: Vec<u8>,
    data: Vec<u8>,
    /// a successful sync covered it
    synced: bool,
    /// an fsync failed while it was dirty: no durability claim possible any more
    tainted: bool,
}

pub struct Cfg {
    pub base: Props,
    pub crash: u32,
    pub power: u32,
    pub faults: u32,
    pub reopen: u32,
    pub sync: u32,
    pub aged: u64,
    pub max_ops: u64,
}

/// The store, used directly or through the dynamic store type
#[derive(Clone)]
enum St {
    Direct(PagedFileStore),
    Dyn(PagedFileStore, DynBlobStore),
}
impl St {
    fn read(&self, id: &[u8]) -> anyhow::Result<OBlob> {
        match self {
            St::Direct(s) => s.read(id),
            St::Dyn(_, s) => s.read(id),
        }
    }
    fn write(&self, data: &[u8]) -> anyhow::Result<Vec<u8>> {
        match self {
            St::Direct(s) => s.write(data),
            St::Dyn(_, s) => s.write(data),
        }
    }
    fn sync(&self) -> anyhow::Result<()> {
        match self {
            St::Direct(s) => s.sync(),
            St::Dyn(_, s) => s.sync(),
        }
    }
    fn last_id(&self) -> Option<Vec<u8>> {
        match self {
            St::Direct(s) | St::Dyn(s, _) => s.last_id().map(|x| x.to_vec()),
        }
    }
    fn debug(&self) -> String {
        match self {
            St::Direct(s) => format!("{:?}", s),
            St::Dyn(_, s) => format!("{:?}", s),
        }
    }
}

/// Use the blob type on a blob the store handed out; what it gives must be the right bytes.
/// Returns something derived from it, to be kept after the blob itself is gone.
pub fn poke(b: OBlob, d: &[u8], props: Props) -> R<(OBlob, Vec<u8>)> {
    use std::hash::{Hash, Hasher};
    let c = ctx();
    c.count("op.blob_api");
    let n = d.len() as u64;
    let i = c.draw(n + 1);
    let j = i + c.draw(n - i + 1);
    let (i, j) = (i as usize, j as usize);
    let k = c.draw(16);
    let (x, e): (OBlob, Vec<u8>) = match k {
        0 => (b, d.to_vec()),
        1 => (call(props, "slice", || b.slice(i..j))?, d[i..j].to_vec()),
        2 => (call(props, "slice", || b.slice(..j))?, d[..j].to_vec()),
        3 => (call(props, "slice", || b.slice(i..))?, d[i..].to_vec()),
        4 => (call(props, "slice", || b.slice(..))?, d.to_vec()),
        5 if j > i => (call(props, "slice", || b.slice(i..=j - 1))?, d[i..j].to_vec()),
        6 => (call(props, "slice_ref", || b.slice_ref(&b.as_ref()[i..j]))?, d[i..j].to_vec()),
        7 => (call(props, "clone", || b.clone())?, d.to_vec()),
        8 => (call(props, "to_owned", move || b.to_owned())?, d.to_vec()),
        9 => {
            // a slice of a slice
            let x = call(props, "slice", || b.slice(i..))?;
            (call(props, "slice", move || x.slice(..j - i))?, d[i..j].to_vec())
        }
        10 => {
            let other = if c.draw(2) == 0 { d.to_vec() } else { content(c.draw(256), d.len(), 0) };
            let (eq, cmp, h) = call(props, "comparison", || {
                let o = Blob::new(&other);
                let mut h1 = std::collections::hash_map::DefaultHasher::new();
                b.hash(&mut h1);
                let mut h2 = std::collections::hash_map::DefaultHasher::new();
                o.hash(&mut h2);
                (b == o, b.cmp(&Blob::copy_from_slice(&other)), (h1.finish(), h2.finish()))
            })?;
            ensure!(eq == (d == &other[..]), props, "blob-eq", "comparing blobs {} and {} gives {}", hex(d), hex(&other), eq);
            ensure!(cmp == d.cmp(&other[..]), props, "blob-cmp", "ordering blobs {} and {} gives {:?}", hex(d), hex(&other), cmp);
            ensure!(!eq || h.0 == h.1, props, "blob-hash", "equal blobs hash differently");
            (call(props, "copy_from_slice", || Blob::copy_from_slice(&b))?, d.to_vec())
        }
        11 => {
            // unowned data becomes owned
            let mut tmp = d[i..j].to_vec();
            let x = call(props, "to_owned", || Blob::new(&tmp).to_owned())?;
            tmp.iter_mut().for_each(|b| *b = !*b);
            (x, d[i..j].to_vec())
        }
        12 if i < j => {
            let r = (std::ops::Bound::Excluded(i), std::ops::Bound::Included(j - 1));
            (call(props, "slice", || b.slice(r))?, d[i + 1..j].to_vec())
        }
        13 if n >= 16 => {
            let mut a = [0u8; 16];
            a.copy_from_slice(&d[..16]);
            let x = call(props, "from array", || OBlob::from(std::sync::Arc::new(a)))?;
            call(p::T14, "drop", move || drop(b))?;
            (x, d[..16].to_vec())
        }
        14 => {
            let v = std::sync::Arc::new(d.to_vec());
            let x = call(props, "from vec", || OBlob::from(v.clone()))?;
            drop(v);
            (x, d.to_vec())
        }
        15 => {
            use std::borrow::Borrow;
            let other = similar(d.to_vec());
            let (o, same) = call(props, "comparison", || {
                let x: &[u8] = b.borrow();
                (b.partial_cmp(&Blob::new(&other)), x == d && b[..] == *d)
            })?;
            ensure!(same, props, "blob-borrow", "the borrowed bytes of blob {} differ", hex(d));
            ensure!(o == d.partial_cmp(&other[..]), props, "blob-cmp", "comparing blobs {} and {} gives {:?}", hex(d), hex(&other), o);
            (b, d.to_vec())
        }
        _ => (b, d.to_vec()),
    };
    ensure!(x.as_ref() == &e[..], props, "wrong-slice", "deriving a blob (kind {}, {}..{}) from {} gives {} instead of {}", k, i, j, hex(d), hex(&x), hex(&e));
    Ok((x, e))
}

struct W {
    cfg: &'static Cfg,
    d: usize,
    page: u64,
    st: Option<St>,
    recs: Vec<Rec>,
    /// contents of appends that failed or were in flight since the last acknowledged one
    maybe: Vec<Vec<u8>>,
    last: Option<Vec<u8>>,
    held: Vec<(OBlob, Vec<u8>)>,
    crashed: bool,
    powered: bool,
    faulted: bool,
    reopened: bool,
    /// something was appended (even without success) after the last successful sync
    dirty: bool,
    seq: u64,
    /// an fsync failed at some time
    sync_failed: bool,
}

pub fn content(seq: u64, len: usize, kind: u64) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    match kind {
        1 => v.resize(len, 0),
        2 => v.resize(len, 0xff),
        3 => {
            // looks like stored records
            while v.len() < len {
                v.extend_from_slice(&((seq % 7) as u32).to_be_bytes());
            }
            v.truncate(len);
        }
        _ => {
            let mut x = seq.wrapping_mul(0x9E37_79B9).wrapping_add(len as u64);
            for i in 0..len {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                v.push(if i == 0 { seq as u8 } else { (x >> 33) as u8 });
            }
        }
    }
    v
}

impl W {
    fn ctxprops(&self) -> Props {
        let mut x = p::S04;
        if self.crashed {
            x |= p::S01;
        }
        if self.powered {
            x |= p::S02;
        }
        if self.faulted {
            x |= p::S05;
        }
        x
    }
    /// hard errors the disk returned so far
    fn fired(&self) -> u64 {
        disk::disk(self.d).fired
    }
    fn store(&self) -> St {
        self.st.as_ref().unwrap().clone()
    }

    fn open(&mut self) -> R<bool> {
        let f = disk::open(self.d);
        let page = self.page;
        let before = self.fired();
        let r = call(self.ctxprops() | p::S05, "open", move || PagedFileStore::new(f, page))?;
        match r {
            Ok(s) => {
                self.st = Some(if ctx().chance(1, 3) {
                    let d: DynBlobStore = call(self.ctxprops(), "clone", || std::sync::Arc::new(s.clone()) as DynBlobStore)?;
                    St::Dyn(s, d)
                } else {
                    St::Direct(s)
                });
                Ok(true)
            }
            Err(e) => {
                if disk::is_dead(self.d) {
                    return Ok(false);
                }
                if self.fired() > before {
                    self.faulted = true;
                    ev!("open failed: {}", e);
                    return Ok(false);
                }
                fail(self.ctxprops() | p::S01 | p::S05, "open", format!("opening the file failed: {:#}", e))
            }
        }
    }
    fn quiet(&mut self) {
        disk::disarm(self.d);
    }
    fn close(&mut self) -> R<()> {
        if let Some(s) = self.st.take() {
            call(self.ctxprops(), "drop", move || drop(s))?;
        }
        Ok(())
    }

    fn check_read(&mut self, i: usize, props: Props, hold: bool) -> R<()> {
        let s = self.store();
        let r = self.recs[i].clone();
        let id = r.id.clone();
        ctx().count("op.read");
        let b = call(props | p::S04, "read", move || s.read(&id))?;
        match b {
            Ok(b) => {
                ensure!(b.as_ref() == &r.data[..], props | p::S04, "wrong-bytes", "blob {} of {} bytes reads back as {} bytes {} instead of {}", hex(&r.id), r.data.len(), b.len(), hex(&b), hex(&r.data));
                if hold {
                    let x = poke(b, &r.data, props | p::S04 | p::T14)?;
                    self.held.push(x);
                    if self.held.len() > 12 {
                        let i = ctx().draw(12) as usize;
                        let (b, d) = self.held.swap_remove(i);
                        ensure!(b.as_ref() == &d[..], p::S04 | p::T14, "held-blob", "a blob that was handed out earlier changed from {} to {}", hex(&d), hex(&b));
                        call(p::S04 | p::T14, "drop of a blob", move || drop(b))?;
                    }
                }
                Ok(())
            }
            Err(e) => fail(props | p::S04, "unreadable", format!("blob {} of {} bytes cannot be read: {:#}", hex(&r.id), r.data.len(), e)),
        }
    }

    fn check_last(&mut self) -> R<()> {
        let s = self.store();
        let got = call(p::S03, "last_id", move || s.last_id())?;
        soft!(got == self.last, p::S03 | if self.faulted { p::S05 } else { 0 }, "last-id", "last id is {:?} but the newest acknowledged blob is {:?}", got.map(|x| hex(&x)), self.last.as_ref().map(|x| hex(x)));
        Ok(())
    }

    /// After an open of a file left behind by a process crash (or a clean close)
    fn after_reopen(&mut self) -> R<()> {
        self.quiet();
        let s = self.store();
        let got = call(p::S03 | self.ctxprops(), "last_id", move || s.last_id())?;
        if got == self.last {
            if let Some(l) = &self.last {
                if let Some(i) = self.recs.iter().position(|r| &r.id == l) {
                    self.check_read(i, p::S03 | self.ctxprops(), false)?;
                }
            }
        } else {
            let ok = match &got {
                None => false,
                Some(id) => {
                    let s = self.store();
                    let id2 = id.clone();
                    let b = call(p::S03 | self.ctxprops(), "read of the last id", move || s.read(&id2))?;
                    match b {
                        Ok(b) => {
                            let m = self.maybe.iter().any(|x| &x[..] == b.as_ref()) && self.recs.iter().all(|r| &r.id != id);
                            if m {
                                ctx().count("op.failed_append_became_last");
                                ev!("last id {} is an append that was not acknowledged", hex(id));
                                self.recs.push(Rec { id: id.clone(), data: b.to_vec(), synced: false, tainted: self.sync_failed });
                            }
                            m
                        }
                        Err(_) => false,
                    }
                }
            };
            soft!(ok, p::S03, "last-id-after-reopen", "after reopening the last id is {:?}, which is neither the last acknowledged blob {:?} nor a complete unacknowledged append", got.as_ref().map(|x| hex(x)), self.last.as_ref().map(|x| hex(x)));
            self.last = got;
        }
        self.maybe.clear();
        self.read_all(self.ctxprops() | if self.crashed { p::S01 } else { p::S04 })
    }
    fn read_all(&mut self, props: Props) -> R<()> {
        let n = self.recs.len();
        // the newest ones and a sample of the older ones
        if n <= 24 {
            for i in 0..n {
                self.check_read(i, props, false)?;
            }
        } else {
            for i in n - 10..n {
                self.check_read(i, props, false)?;
            }
            for _ in 0..12 {
                let i = ctx().draw(n as u64) as usize;
                self.check_read(i, props, false)?;
            }
        }
        Ok(())
    }

    fn pick_len(&mut self) -> usize {
        let c = ctx();
        let max = (self.page - 8) as usize;
        let pos = disk::image(self.d).size.saturating_sub(4096);
        let rem = (self.page - pos % self.page) as usize;
        if self.page > 1 << 24 && self.model_bytes() < 80 << 20 && c.chance(1, 2) {
            c.count("op.huge_blob");
            return (*c.pick(&[1usize << 24, (1 << 24) - 1, (1 << 24) + 1, max])).min(max);
        }
        let l = match c.weighted(&[30, 12 * (self.page < 1 << 24) as u32, 8 * (self.page < 1 << 24) as u32, 25 * (self.page < 1 << 24) as u32, 6, 4]) {
            0 => c.draw(24) as usize,
            1 => c.draw(max as u64 + 1) as usize,
            2 => max - c.draw(6.min(max as u64 + 1)) as usize,
            3 => (rem + 4).saturating_sub(c.draw(18) as usize + 4).saturating_sub(4),
            4 => 0,
            _ if max > 70000 && c.chance(1, 2) => *c.pick(&[65535usize, 65536, 65537, 65540, 32768]),
            _ => c.draw((max as u64 / 3).max(1)) as usize,
        };
        l.min(max)
    }

    /// bounds the memory of the rare runs with huge blobs
    fn model_bytes(&self) -> usize {
        self.recs.iter().map(|r| r.data.len()).sum()
    }

    fn write(&mut self, len: usize) -> R<()> {
        let c = ctx();
        self.seq += 1;
        let len = if self.page > 1 << 24 && self.model_bytes() > 80 << 20 { len.min(100) } else { len };
        let again = self.page < 1 << 24 || self.model_bytes() < 60 << 20;
        let data = if again && !self.recs.is_empty() && c.chance(1, 5) {
            // the same as, or almost the same as, an earlier blob
            let n = self.recs.len() as u64;
            let i = if c.chance(1, 2) { n - 1 - c.draw(n.min(4)) } else { c.draw(n) } as usize;
            let d = similar(self.recs[i].data.clone());
            if d.len() as u64 <= self.page - 8 { d } else { content(self.seq, len, 0) }
        } else {
            let kind = c.weighted(&[12, 1, 1, 1]) as u64;
            content(self.seq, len, kind)
        };
        c.count("op.write");
        let before = self.fired();
        self.dirty = true;
        let s = self.store();
        let d2 = &data;
        let r = call(self.ctxprops() | p::S05, "write", move || s.write(d2))?;
        match r {
            Ok(id) => {
                ev!("write {} bytes -> {}", data.len(), hex(&id));
                ctx().note(ctx::hash_bytes(7, &id));
                if disk::is_dead(self.d) {
                    // acknowledged although the process died on the way: nobody saw it
                    self.maybe.push(data);
                    return Ok(());
                }
                if let Some(o) = self.recs.iter().find(|r| r.id == id) {
                    ensure!(o.data == data, p::S04 | self.ctxprops(), "id-reused", "id {} was returned for two different blobs", hex(&id));
                }
                let id = id.to_vec();
                self.last = Some(id.clone());
                self.recs.retain(|r| r.id != id);
                self.recs.push(Rec { id, data, synced: false, tainted: false });
                // earlier failed appends can no longer become the last one
                self.maybe.clear();
                let hard = self.fired() > before;
                if hard {
                    self.faulted = true;
                }
                Ok(())
            }
            Err(e) => {
                if disk::is_dead(self.d) {
                    self.maybe.push(data);
                    return Ok(());
                }
                ensure!(self.fired() > before, self.ctxprops() | p::S05, "write-error", "write of {} bytes (page size {}) failed although every system call succeeded or could be retried: {:#}", data.len(), self.page, e);
                ev!("write of {} bytes failed: {}", data.len(), e);
                ctx().count("op.write_failed");
                self.faulted = true;
                self.maybe.push(data);
                Ok(())
            }
        }
    }

    fn oversize(&mut self) -> R<()> {
        let len = self.page as usize - 7 + ctx().draw(40) as usize;
        ctx().count("op.write_oversized");
        let w = disk::disk(self.d).writes;
        let data = content(1, len, 0);
        let s = self.store();
        let d2 = &data;
        let r = call(p::S05, "oversized write", move || s.write(d2))?;
        if disk::is_dead(self.d) {
            self.maybe.push(data);
            return Ok(());
        }
        match r {
            Ok(id) => {
                // accepting it is fine as long as it works
                self.last = Some(id.to_vec());
                self.recs.push(Rec { id: id.to_vec(), data, synced: false, tainted: false });
                self.dirty = true;
                let i = self.recs.len() - 1;
                self.check_read(i, p::S05, false)
            }
            Err(_) => {
                ensure!(disk::disk(self.d).writes == w, p::S05, "oversize-side-effect", "a blob too large for the page was refused, but the file was written to");
                Ok(())
            }
        }
    }

    fn sync(&mut self) -> R<()> {
        ctx().count("op.sync");
        ev!("sync");
        let before = self.fired();
        let failed = sync_faults();
        let s = self.store();
        let r = call(p::S02 | p::S05, "sync", move || s.sync())?;
        if disk::is_dead(self.d) {
            return Ok(());
        }
        let hard = sync_faults() > failed;
        match r {
            Ok(()) => {
                ensure!(!hard, p::S02 | p::S05, "sync-lied", "sync returned success although fsync failed");
                for r in self.recs.iter_mut() {
                    if !r.tainted {
                        r.synced = true;
                    }
                }
                self.dirty = false;
            }
            Err(e) => {
                ensure!(self.fired() > before, p::S05 | p::S02, "sync-error", "sync failed although every system call succeeded: {:#}", e);
                self.faulted = true;
                if hard {
                    self.sync_failed = true;
                    for r in self.recs.iter_mut() {
                        if !r.synced {
                            r.tainted = true;
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// A read with faults injected
    fn faulty_read(&mut self) -> R<()> {
        if self.recs.is_empty() {
            return Ok(());
        }
        let i = ctx().draw(self.recs.len() as u64) as usize;
        let r = self.recs[i].clone();
        let before = self.fired();
        let s = self.store();
        let id = r.id.clone();
        let b = call(p::S05, "read", move || s.read(&id))?;
        if disk::is_dead(self.d) {
            return Ok(());
        }
        match b {
            Ok(b) => ensure!(b.as_ref() == &r.data[..], p::S05 | p::S04, "wrong-bytes", "blob {} reads back wrong under faults", hex(&r.id)),
            Err(e) => {
                ensure!(self.fired() > before, p::S05, "read-error", "read of {} failed although every system call succeeded or could be retried: {:#}", hex(&r.id), e);
                self.faulted = true;
            }
        }
        Ok(())
    }

    fn restart(&mut self, how: Restart) -> R<()> {
        disk::kill(self.d);
        self.close()?;
        match how {
            Restart::Process => {
                ctx().count("fault.process_crash");
                self.crashed = true;
            }
            Restart::Power => {
                ctx().count("fault.power_cut");
                self.powered = true;
            }
        }
        ev!("restart after {:?} failure", how);
        disk::restart(self.d, how);
        if how == Restart::Power {
            let nothing_after = !self.dirty && !self.sync_failed;
            self.recs.retain(|r| r.synced);
            self.maybe.clear();
            let keep = self.last.clone();
            // recovery itself may be interrupted
            self.open_interrupted()?;
            self.quiet();
            if self.st.is_none() && !self.open()? {
                return fail(p::S02, "open", "the file cannot be opened after the power cut");
            }
            let s = self.store();
            let got = call(p::S02 | p::S03, "last_id", move || s.last_id())?;
            if nothing_after {
                ensure!(got == keep, p::S02, "last-id-after-power-cut", "nothing was written after the sync, but the last id changed from {:?} to {:?}", keep.map(|x| hex(&x)), got.map(|x| hex(&x)));
            }
            self.last = got;
            let props = p::S02 | self.ctxprops();
            self.read_all(props)?;
            return Ok(());
        }
        self.open_interrupted()?;
        self.quiet();
        if self.st.is_none() && !self.open()? {
            return fail(p::S01, "open", "the file cannot be opened after the crash");
        }
        self.after_reopen()
    }
    /// sometimes the process dies or meets I/O errors during recovery
    fn open_interrupted(&mut self) -> R<()> {
        let c = ctx();
        for _ in 0..3 {
            match c.weighted(&[6, 2, if self.cfg.faults > 0 { 2 } else { 0 }]) {
                0 => break,
                1 => {
                    disk::arm_crash(self.d, c.draw(8));
                    self.open()?;
                    if !disk::is_dead(self.d) {
                        disk::disarm(self.d);
                        // a second crash right after recovery
                    }
                    disk::kill(self.d);
                    self.close()?;
                    c.count("fault.crash_in_recovery");
                    disk::restart(self.d, Restart::Process);
                }
                _ => {
                    disk::disk(self.d).faults = disk::Faults { rate: 0, arm: Some(c.draw(6)), burst: c.draw(2), kinds: disk::F_ALL, cap: u64::MAX };
                    let ok = self.open()?;
                    self.quiet();
                    if ok {
                        break;
                    }
                }
            }
        }
        Ok(())
    }

    fn state(&self) {
        let c = ctx();
        let mut h = ctx::mix(self.page, self.recs.len() as u64);
        for r in self.recs.iter().rev().take(4) {
            h = ctx::hash_bytes(h, &r.id);
            h = ctx::mix(h, r.data.len() as u64 * 2 + r.synced as u64);
        }
        h = ctx::mix(h, disk::unsynced(self.d) as u64);
        h = ctx::mix(h, self.maybe.len() as u64 + ((self.crashed as u64) << 8) + ((self.powered as u64) << 9) + ((self.faulted as u64) << 10));
        c.state(h);
    }
}

fn sync_faults() -> u64 {
    ctx().counters.get("fault.eio_fsync").copied().unwrap_or(0)
}

/// The in-memory store: every blob reads back under its own id, for good
/// the same or almost the same
fn similar(mut d: Vec<u8>) -> Vec<u8> {
    let c = ctx();
    let at = match c.draw(3) {
        0 => d.len().saturating_sub(1),
        1 => 0,
        _ => c.draw(d.len().max(1) as u64) as usize,
    };
    match c.draw(5) {
        1 if !d.is_empty() => d[at] ^= 1 << c.draw(8),
        2 => d.truncate(at),
        3 => d.push(c.draw(256) as u8),
        4 if !d.is_empty() => {
            d.remove(0);
        }
        _ => {}
    }
    d
}

fn mem_run() -> R<()> {
    let c = ctx();
    let m = call(p::S04, "new", MemStore::default)?;
    let d: DynBlobStore = call(p::S04, "new", || std::sync::Arc::new(m.clone()) as DynBlobStore)?;
    let mut recs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let mut index = std::collections::BTreeMap::<Vec<u8>, usize>::new();
    let mut held: Vec<(OBlob, Vec<u8>)> = vec![];
    let n = c.range(1, 60);
    for seq in 0..n {
        c.span_start();
        match c.weighted(&[6, 5, 1, 1, 1]) {
            0 => {
                let len = *c.pick(&[40u64, 40, 300, 300, 5000, 70_000]);
                let mut data = content(seq, c.draw(len) as usize, c.weighted(&[6, 1, 1, 1]) as u64);
                if !recs.is_empty() && c.chance(1, 3) {
                    let n = recs.len() as u64;
                    let i = if c.chance(1, 2) { n - 1 - c.draw(n.min(3)) } else { c.draw(n) };
                    data = similar(recs[i as usize].1.clone());
                }
                if c.chance(1, 300) {
                    // the store gets old
                    c.count("op.age");
                    for k in 0..*c.pick(&[300u64, 1100, 3000, 70_000]) {
                        let data = content(k, 9, 0);
                        match call(p::S04, "write", || m.write(&data))? {
                            Ok(id) => {
                                let id = id.to_vec();
                                if let Some(o) = index.get(&id) {
                                    ensure!(recs[*o].1 == data, p::S04, "id-reused", "id {} was returned for two different blobs", hex(&id));
                                } else {
                                    index.insert(id.clone(), recs.len());
                                    recs.push((id, data));
                                }
                            }
                            Err(e) => return fail(p::S04, "write-error", format!("the in-memory store refuses a blob: {:#}", e)),
                        }
                    }
                }
                let dy = c.chance(1, 3);
                let r = call(p::S04, "write", || if dy { d.write(&data) } else { m.write(&data) })?;
                match r {
                    Ok(id) => {
                        let id = id.to_vec();
                        ev!("write {} bytes -> {}", data.len(), hex(&id));
                        if let Some(o) = index.get(&id) {
                            ensure!(recs[*o].1 == data, p::S04, "id-reused", "id {} was returned for two different blobs", hex(&id));
                        } else {
                            index.insert(id.clone(), recs.len());
                            recs.push((id, data));
                        }
                    }
                    Err(e) => return fail(p::S04, "write-error", format!("the in-memory store refuses a blob: {:#}", e)),
                }
            }
            1 if !recs.is_empty() => {
                let (id, data) = recs[c.draw(recs.len() as u64) as usize].clone();
                let dy = c.chance(1, 3);
                match call(p::S04, "read", || if dy { d.read(&id) } else { m.read(&id) })? {
                    Ok(b) => {
                        ensure!(b.as_ref() == &data[..], p::S04, "wrong-bytes", "blob {} reads back as {} instead of {}", hex(&id), hex(&b), hex(&data));
                        let x = poke(b, &data, p::S04 | p::T14)?;
                        held.push(x);
                    }
                    Err(e) => return fail(p::S04, "unreadable", format!("blob {} cannot be read: {:#}", hex(&id), e)),
                }
            }
            2 => {
                let r = call(p::S04, "sync", || d.sync())?;
                ensure!(r.is_ok(), p::S04, "sync-error", "sync of the in-memory store fails");
            }
            3 => {
                let k = call(p::S04, "count", || m.count())?;
                ensure!(k == recs.len(), p::S04, "count", "{} blobs were written, the store counts {}", recs.len(), k);
            }
            _ => {
                let x = call(p::S04, "debug", || format!("{:?}", m))?;
                call(p::S04, "drop", move || drop(x))?;
            }
        }
        c.span_end();
    }
    if recs.len() > 1 {
        c.mark();
    }
    c.state(ctx::mix(recs.len() as u64, held.len() as u64));
    if c.chance(1, 2) {
        call(p::T14, "drop of the store", move || drop((m, d)))?;
    } else {
        call(p::T14, "drop of the store", move || drop(m))?;
        for (id, data) in &recs {
            match call(p::S04, "read", || d.read(id))? {
                Ok(b) => {
                    ensure!(b.as_ref() == &data[..], p::S04, "wrong-bytes", "blob {} reads back as {} instead of {}", hex(id), hex(&b), hex(data));
                    call(p::T14, "drop", move || drop(b))?;
                }
                Err(e) => return fail(p::S04, "unreadable", format!("blob {} cannot be read: {:#}", hex(id), e)),
            }
        }
        call(p::T14, "drop of the store", move || drop(d))?;
    }
    for (b, d) in &held {
        ensure!(b.as_ref() == &d[..], p::S04 | p::T14, "held-blob", "a blob that was handed out earlier changed from {} to {}", hex(d), hex(b));
    }
    call(p::T14, "drop of the blobs", move || drop(held))?;
    crate::world::leak_check(0)
}

pub fn run(cfg: &'static Cfg) -> R<()> {
    let c = ctx();
    if cfg.base & p::S04 != 0 && c.chance(1, 12) {
        c.count("op.mem_store_run");
        let r = mem_run();
        return r;
    }
    let page = if c.chance(1, 8000) {
        c.count("op.huge_page");
        (1u64 << 24) + *c.pick(&[64u64, 4096])
    } else if c.chance(1, 50) {
        c.count("op.large_page");
        *c.pick(&[1u64 << 18, 1 << 17, 1 << 20, 196616])
    } else {
        *c.pick(&[1024u64, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 65536, 72, 1000, 4104])
    };
    let d = disk::create();
    let mut w = W {
        cfg,
        d,
        page,
        st: None,
        recs: vec![],
        maybe: vec![],
        last: None,
        held: vec![],
        crashed: false,
        powered: false,
        faulted: false,
        reopened: false,
        dirty: false,
        seq: 0,
        sync_failed: false,
    };
    if cfg.aged > 0 && c.chance(1, cfg.aged) {
        // a file that has been in use for long: ids beyond 32 bits
        let at = (*c.pick(&[1u64 << 31, 1 << 32, (1 << 32) + (1 << 20), 5 << 32])).div_ceil(page) * page;
        let at = at - *c.pick(&[0u64, page, 2 * page]);
        let data = content(9999, c.draw(page - 7) as usize, 0);
        let end = at + data.len() as u64 + 4;
        let mut rec = data.clone();
        rec.extend_from_slice(&(data.len() as u32).to_be_bytes());
        let mut hdr = vec![0u8; 4096];
        hdr[16..24].copy_from_slice(&end.to_be_bytes());
        disk::preload(d, end + 4096, &[(0, hdr), (at + 4096, rec)]);
        let id = end.to_be_bytes().to_vec();
        w.last = Some(id.clone());
        w.recs.push(Rec { id, data, synced: true, tainted: false });
        c.count("op.aged_file");
    }
    let r = go(&mut w);
    if r.is_err() {
        std::mem::forget(w);
        return r;
    }
    let W { st, held, .. } = w;
    call(p::T14 | p::S04, "drop of the store", move || drop(st))?;
    for (b, d) in &held {
        ensure!(b.as_ref() == &d[..], p::S04 | p::T14, "held-blob", "a blob that was handed out earlier changed from {} to {}", hex(d), hex(b));
    }
    call(p::T14, "drop of the blobs", move || drop(held))?;
    crate::world::leak_check(0)
}

fn go(w: &mut W) -> R<()> {
    let c = ctx();
    let cfg = w.cfg;
    if !w.open()? {
        return fail(p::S01 | p::S05, "open", "a new file cannot be opened");
    }
    let n = if w.page > 1 << 24 { c.range(2, 9) } else { c.range(1, cfg.max_ops) };
    // some runs write a lot before anything happens
    if c.chance(1, 4) {
        let k = c.range(1, 40);
        for _ in 0..k {
            c.span_start();
            let len = w.pick_len();
            w.write(len)?;
            c.span_end();
        }
    }
    // a few runs spread over hundreds of pages
    if w.page <= 256 && c.chance(1, 40) {
        c.count("op.many_pages");
        let k = c.range(150, 700);
        let max = w.page - 8;
        for i in 0..k {
            let len = c.draw(max + 1) as usize;
            w.write(len)?;
            if i % 64 == 63 {
                let j = c.draw(w.recs.len() as u64) as usize;
                w.check_read(j, w.ctxprops(), true)?;
            }
        }
        // the newest and the oldest ones in turn
        for _ in 0..24 {
            let n = w.recs.len() as u64;
            let j = if c.chance(1, 2) { n - 1 - c.draw(n.min(20)) } else { c.draw(n.min(20)) } as usize;
            w.check_read(j, w.ctxprops(), c.chance(1, 3))?;
        }
    }
    for _ in 0..n {
        c.span_start();
        let r = step(w);
        c.span_end();
        r?;
        w.state();
    }
    // closing act
    w.quiet();
    if w.st.is_none() && !w.open()? {
        return fail(w.ctxprops(), "open", "the file cannot be opened");
    }
    if cfg.power > 0 && c.chance(2, 3) {
        w.restart(Restart::Power)?;
    } else if cfg.crash > 0 && c.chance(2, 3) {
        w.restart(Restart::Process)?;
    }
    w.read_all(w.ctxprops())?;
    w.write(3)?;
    let i = w.recs.len() - 1;
    w.check_read(i, w.ctxprops(), false)?;
    w.check_last()?;
    if cfg.base & (p::S04 | p::S05) != 0 && w.recs.len() > 1 {
        c.mark();
    }
    Ok(())
}

fn step(w: &mut W) -> R<()> {
    let c = ctx();
    let cfg = w.cfg;
    // arm something for the operations of this step?
    let mode = c.weighted(&[20, cfg.crash, cfg.power, cfg.faults]);
    let mut how = None;
    match mode {
        1 | 2 => {
            how = Some(if mode == 1 { Restart::Process } else { Restart::Power });
            disk::arm_crash(w.d, c.draw(40));
        }
        3 => {
            let kinds = *c.pick(&[disk::F_ALL, disk::F_ALL, disk::F_SHORT | disk::F_EINTR, disk::F_EIO | disk::F_ENOSPC | disk::F_SHORT, disk::F_SEEK, disk::F_READ, disk::F_MMAP, disk::F_SYNC]);
            let rate = *c.pick(&[0u64, 0, 3, 8]);
            let cap = if c.chance(1, 8) { disk::image(w.d).size + c.draw(2 * w.page) } else { u64::MAX };
            let arm = if rate == 0 { Some(c.draw(12)) } else { None };
            disk::disk(w.d).faults = disk::Faults { rate, arm, burst: c.draw(3), kinds, cap };
        }
        _ => {}
    }
    let k = if how.is_some() || mode == 3 { c.range(1, 5) } else { 1 };
    for _ in 0..k {
        if disk::is_dead(w.d) {
            break;
        }
        match c.weighted(&[24, 8, cfg.sync, 2, 4]) {
            0 => {
                let len = w.pick_len();
                w.write(len)?;
            }
            1 => {
                if mode == 3 || how.is_some() {
                    w.faulty_read()?
                } else if !w.recs.is_empty() {
                    let i = c.draw(w.recs.len() as u64) as usize;
                    let hold = c.chance(1, 4);
                    w.check_read(i, w.ctxprops(), hold)?;
                }
            }
            2 => w.sync()?,
            3 => w.oversize()?,
            _ => {
                let s = w.store();
                let dbg = call(p::S05, "debug", move || s.debug())?;
                drop(dbg);
            }
        }
    }
    if let Some(how) = how {
        // every crash point: the process may also die between two calls
        if cfg.base & (p::S01 | p::S03) != 0 && how == Restart::Process {
            c.mark();
        }
        if cfg.base & p::S02 != 0 && how == Restart::Power && w.recs.iter().any(|r| r.synced) {
            c.mark();
        }
        return w.restart(how);
    }
    if mode == 3 {
        w.quiet();
        c.count("op.fault_window");
        // after the fault is gone
        w.check_last()?;
        let n = w.recs.len();
        if n > 0 {
            w.check_read(n - 1, w.ctxprops(), false)?;
            let i = c.draw(n as u64) as usize;
            w.check_read(i, w.ctxprops(), false)?;
        }
        let len = c.draw(20) as usize;
        w.write(len)?;
        let n = w.recs.len();
        w.check_read(n - 1, w.ctxprops(), false)?;
    } else if c.chance(cfg.reopen as u64, 20) {
        c.count("op.reopen");
        w.close()?;
        w.reopened = true;
        if !w.open()? {
            return fail(w.ctxprops(), "open", "the file cannot be reopened");
        }
        w.after_reopen()?;
    }
    w.check_last()
}
