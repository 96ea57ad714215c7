//! Files, directories and blob stores of the browser package over a simulated cache, against files
//! and maps in memory.
use crate::fail::{call, fail, p, R};
use jsstub as js;
use radixdb::store::{BlobStore, DynBlobStore};
use radixdb::RadixTree;
use sample::{PagingFile, SimpleWebCacheFs, SyncDir, SyncFile, SyncFs};
use simrt::ctx::{self, ctx};
use simrt::ev;
use std::collections::BTreeMap;
use sqlite_vfs::Vfs;
use std::ffi::CString;
use std::sync::Arc;

const P: u64 = p::T17;
const DIRS: [&str; 2] = ["sync", "sync2"];
const FILES: [&str; 5] = ["f", "f0", "d/f", "a b", "gr\u{fc}n"];
const ALL: u64 = js::PUT | js::DELETE | js::MATCH | js::BODY | js::KEYS | js::OPEN;

type Key = (&'static str, &'static str);

#[derive(Default, Clone)]
struct FileM {
    data: Vec<u8>,
    /// records nobody has touched since they were appended: offset of the prefix, length of the data
    recs: Vec<(u64, usize)>,
}

struct W {
    fs: SyncFs,
    /// what is there
    dirs: BTreeMap<&'static str, BTreeMap<&'static str, FileM>>,
    /// what this session has opened
    open_dirs: BTreeMap<&'static str, SyncDir>,
    open: BTreeMap<Key, SyncFile>,
    /// the same files as a database sees them
    vfs: BTreeMap<Key, Box<dyn sqlite_vfs::File>>,
    ops: u64,
    trouble: u64,
    sessions: u64,
    /// chunks of more than 64 KiB
    big: bool,
}

fn fresh(n: usize) -> Vec<u8> {
    let c = ctx();
    let b = c.draw(255) as u8 + 1;
    (0..n).map(|i| b.wrapping_add((i % 7) as u8).max(1)).collect()
}

fn show(d: &[u8]) -> String {
    let mut s = format!("{} bytes", d.len());
    if d.len() <= 64 {
        s += &format!(" {:02x?}", d);
    }
    s
}

fn differ(a: &[u8], b: &[u8]) -> String {
    match a.iter().zip(b).position(|(x, y)| x != y) {
        Some(i) => format!("first difference at {}", i),
        None => format!("one is {} bytes long, the other {}", a.len(), b.len()),
    }
}

fn mount() -> SyncFs {
    SimpleWebCacheFs::new(wasm_futures_executor::ThreadPool::here())
}

fn io<T>(r: sqlite_vfs::VfsResult<T>) -> anyhow::Result<T> {
    r.map_err(|e| anyhow::anyhow!("i/o error {}", e))
}

/// How a call that may have met trouble ended
enum End<T> {
    Ok(T),
    Err,
    Crash,
}

impl W {
    fn new() -> R<W> {
        js::reset();
        js::world(|w| w.delays = true);
        let fs = call(P, "mount", mount)?;
        Ok(W { fs, dirs: BTreeMap::new(), open_dirs: BTreeMap::new(), open: BTreeMap::new(), vfs: BTreeMap::new(), ops: 0, trouble: 0, sessions: 1, big: false })
    }

    /// A call during which the worker may die and promises may be rejected
    fn risky<T>(&mut self, what: &str, f: impl FnOnce(&mut W) -> anyhow::Result<T>) -> R<End<T>> {
        let c = ctx();
        match c.weighted(&[12, 3, 3]) {
            0 => {}
            1 => js::arm_crash(c.draw(8)),
            _ => js::set_fault(1 + c.draw(8), if c.chance(1, 2) { ALL } else { 1 << c.draw(6) }),
        }
        let before = js::rejected();
        let r = call(P, what, || f(self))?;
        js::set_fault(0, 0);
        js::disarm_crash();
        let dead = js::crashed();
        let rejected = js::rejected() != before;
        if dead || rejected {
            self.trouble += 1;
        }
        match r {
            Ok(v) => {
                // it heard of the success before the worker died
                if dead {
                    return fail(P, "answer from the dead", format!("{} reported success although the worker died in it", what));
                }
                Ok(End::Ok(v))
            }
            Err(_) if dead => Ok(End::Crash),
            Err(e) => {
                ensure!(rejected, P, "error without fault", "{} failed although nothing went wrong below it: {:#}", what, e);
                ev!("  {} reports {:#}", what, e);
                Ok(End::Err)
            }
        }
    }

    /// A new worker on what the old one left in the caches
    fn restart(&mut self) -> R<()> {
        ev!("  new worker");
        self.open.clear();
        self.vfs.clear();
        self.open_dirs.clear();
        js::restart();
        self.fs = call(P, "mount", mount)?;
        self.sessions += 1;
        Ok(())
    }

    fn dir(&mut self, d: &'static str) -> R<bool> {
        if self.open_dirs.contains_key(d) {
            return Ok(true);
        }
        ev!("open_dir({})", d);
        match self.risky("open_dir", |w| w.fs.open_dir(d))? {
            End::Ok(h) => {
                self.open_dirs.insert(d, h);
                self.dirs.entry(d).or_default();
                Ok(true)
            }
            e => {
                // it is there or not
                if let End::Crash = e {
                    self.restart()?;
                }
                let h = call(P, "open_dir", || self.fs.open_dir(d))?;
                match h {
                    Ok(h) => {
                        self.open_dirs.insert(d, h);
                        self.dirs.entry(d).or_default();
                        Ok(true)
                    }
                    Err(e) => fail(P, "error without fault", format!("open_dir({}) failed although nothing went wrong below it: {:#}", d, e)),
                }
            }
        }
    }

    fn file(&mut self, k: Key) -> R<()> {
        loop {
            self.dir(k.0)?;
            if self.open.contains_key(&k) {
                return Ok(());
            }
            ev!("open_file({}, {})", k.0, k.1);
            match self.risky("open_file", |w| w.open_dirs[k.0].open_file(k.1))? {
                End::Ok(h) => {
                    self.open.insert(k, h);
                    self.dirs.get_mut(k.0).unwrap().entry(k.1).or_default();
                    return Ok(());
                }
                End::Err => {}
                End::Crash => self.restart()?,
            }
        }
    }

    /// Does the next operation go through the database's view? Opens it if so.
    fn by_vfs(&mut self, k: Key) -> R<bool> {
        if !ctx().chance(1, 5) {
            return Ok(false);
        }
        ctx().count("op.vfs");
        if !self.vfs.contains_key(&k) {
            let d = self.open_dirs.get_mut(k.0).unwrap();
            match call(P, "open", || d.open(&CString::new(k.1).unwrap(), Default::default()))? {
                Ok(f) => self.vfs.insert(k, f),
                Err(e) => return fail(P, "error without fault", format!("vfs open({:?}): {}", k, e)),
            };
        }
        ev!("  as a database");
        Ok(true)
    }

    fn m(&mut self, k: Key) -> &mut FileM {
        self.dirs.get_mut(k.0).unwrap().get_mut(k.1).unwrap()
    }

    /// The whole file as the package shows it, without faults
    fn content(&mut self, k: Key) -> R<Vec<u8>> {
        if !self.open_dirs.contains_key(k.0) {
            match call(P, "open_dir", || self.fs.open_dir(k.0))? {
                Ok(h) => self.open_dirs.insert(k.0, h),
                Err(e) => return fail(P, "error without fault", format!("open_dir({}): {:#}", k.0, e)),
            };
        }
        if !self.open.contains_key(&k) {
            match call(P, "open_file", || self.open_dirs[k.0].open_file(k.1))? {
                Ok(h) => self.open.insert(k, h),
                Err(e) => return fail(P, "error without fault", format!("open_file({}): {:#}", k.1, e)),
            };
        }
        let f = &self.open[&k];
        let r = call(P, "length and read", || {
            let n = f.length()?;
            f.read(0..n)
        })?;
        match r {
            Ok(v) => Ok(v),
            Err(e) => fail(P, "error without fault", format!("reading all of {:?} failed: {:#}", k, e)),
        }
    }

    fn verify(&mut self, k: Key, when: &str) -> R<()> {
        let got = self.content(k)?;
        let want = &self.dirs[k.0][k.1].data;
        ensure!(got == *want, P, "contents", "{}: {:?} holds {} instead of {}; {}", when, k, show(&got), show(want), differ(&got, want));
        Ok(())
    }

    /// An operation that turns the file into `new`, or leaves it as it is if it does not succeed
    fn change(&mut self, k: Key, what: &str, new: FileM, cut: Option<u64>, f: impl FnOnce(&mut W) -> anyhow::Result<()>) -> R<bool> {
        let end = self.risky(what, f)?;
        let ok = matches!(end, End::Ok(()));
        let old = self.m(k).clone();
        if ok {
            *self.m(k) = new;
            if ctx().chance(1, 3) {
                self.verify(k, what)?;
            }
            return Ok(true);
        }
        if let End::Crash = end {
            self.restart()?;
        }
        let got = self.content(k)?;
        if got == new.data {
            *self.m(k) = new;
        } else if got == old.data {
            if cut.map_or(false, |c| old.data[c as usize..].contains(&0)) {
                // a part of zeros may be gone (the known finding) without anybody seeing it yet
                ev!("  the file is given up");
                match call(P, "delete_file", || self.open_dirs[k.0].delete_file(k.1))? {
                    Ok(v) => ensure!(v, P, "delete", "delete_file({:?}) said {} of a file with {} bytes", k, v, got.len()),
                    Err(e) => return fail(P, "error without fault", format!("delete_file({:?}): {:#}", k, e)),
                }
                self.open.remove(&k);
                self.vfs.remove(&k);
                self.dirs.get_mut(k.0).unwrap().remove(k.1);
                return Ok(false);
            }
            let m = self.m(k);
            m.recs.retain(|r| new.recs.contains(r));
        } else {
            let torn = cut.map_or(false, |c| {
                let c = c as usize;
                got.len() >= c && got.len() <= old.data.len() && got[..c] == old.data[..c] && got[c..].iter().zip(&old.data[c..]).all(|(g, o)| g == o || *g == 0)
            });
            if torn {
                return fail(P, "truncate torn", format!("an interrupted truncate to {} left {} where {} was: a part in the middle is gone and what followed it is still there", cut.unwrap(), show(&got), show(&old.data)));
            }
            return fail(P, "atomicity", format!("an interrupted {} left {}, which is neither the old state, {}, nor the new one, {}", what, show(&got), show(&old.data), show(&new.data)));
        }
        Ok(false)
    }

    fn write(&mut self, k: Key) -> R<()> {
        let c = ctx();
        let old = self.m(k).clone();
        let len = old.data.len() as u64;
        let off = match c.weighted(&[4, 4, 3]) {
            0 => len,
            1 => c.draw(len + 1),
            _ => {
                // where something else begins or ends
                let e: Vec<u64> = js::entries(k.0).iter().filter_map(|x| u64::from_str_radix(x.0.split('-').nth(1)?, 16).ok()).filter(|x| *x <= len).collect();
                if e.is_empty() {
                    0
                } else {
                    *c.pick(&e)
                }
            }
        };
        let n = match c.weighted(&[6, 4, 1]) {
            0 => c.range(1, 8),
            1 => c.range(1, 60),
            _ if self.big => c.range(65_500, 66_500),
            _ => c.range(60, 300),
        };
        let data = fresh(n as usize);
        let mut new = old;
        let end = (off + n) as usize;
        if new.data.len() < end {
            new.data.resize(end, 0);
        }
        new.data[off as usize..end].copy_from_slice(&data);
        new.recs.retain(|r| r.0 + 4 + r.1 as u64 <= off || r.0 >= off + n);
        c.count("op.write");
        ev!("write({:?}, {}, {} bytes); the file has {}", k, off, n, len);
        let vfs = self.by_vfs(k)?;
        self.change(k, "write", new, None, move |w| match w.vfs.get_mut(&k) {
            Some(f) if vfs => {
                let n = io(f.write(off, &data))?;
                anyhow::ensure!(n == data.len(), "SHORT: wrote {} of {} bytes", n, data.len());
                Ok(())
            }
            _ => w.open[&k].write(off, data),
        })?;
        Ok(())
    }

    /// The same place again and again, with nothing going wrong
    fn storm(&mut self, k: Key) -> R<()> {
        let c = ctx();
        c.count("op.storm");
        let off = c.draw(self.m(k).data.len() as u64 + 1) as usize;
        let times = *c.pick(&[17u64, 4, 40, 300]);
        let width = c.range(1, 12) as usize;
        ev!("write({:?}, {}, {} bytes) {} times", k, off, width, times);
        for i in 0..times {
            let data = vec![(i % 250) as u8 + 1; width - if i % 3 == 1 { c.draw(width as u64) as usize } else { 0 }];
            let end = off + data.len();
            let m = self.m(k);
            if m.data.len() < end {
                m.data.resize(end, 0);
            }
            m.data[off..end].copy_from_slice(&data);
            m.recs.retain(|r| r.0 + 4 + r.1 as u64 <= off as u64 || r.0 >= end as u64);
            let f = &self.open[&k];
            match call(P, "write", || f.write(off as u64, data))? {
                Ok(()) => {}
                Err(e) => return fail(P, "error without fault", format!("write({:?}): {:#}", k, e)),
            }
        }
        Ok(())
    }

    fn truncate(&mut self, k: Key) -> R<()> {
        let c = ctx();
        let old = self.m(k).clone();
        let len = old.data.len() as u64;
        let to = match c.weighted(&[6, 1, 1]) {
            0 => c.draw(len + 1),
            1 => 0,
            _ => len,
        };
        let mut new = old;
        new.data.truncate(to as usize);
        new.recs.retain(|r| r.0 + 4 + r.1 as u64 <= to);
        c.count("op.truncate");
        ev!("truncate({:?}, {}); the file has {}", k, to, len);
        let vfs = self.by_vfs(k)?;
        self.change(k, "truncate", new, Some(to), move |w| match w.vfs.get_mut(&k) {
            Some(f) if vfs => io(f.truncate(to)),
            _ => w.open[&k].truncate(to),
        })?;
        Ok(())
    }

    fn append(&mut self, k: Key) -> R<()> {
        let c = ctx();
        let n = if c.chance(1, 5) { 0 } else { c.range(1, 40) } as usize;
        let data = fresh(n);
        let mut new = self.m(k).clone();
        let off = new.data.len() as u64;
        new.data.extend_from_slice(&(n as u32).to_be_bytes());
        new.data.extend_from_slice(&data);
        new.recs.push((off, n));
        c.count("op.append");
        ev!("append record({:?}, {} bytes) at {}", k, n, off);
        let mut id = vec![];
        let idr = &mut id;
        let ok = self.change(k, "append of a record", new, None, move |w| {
            *idr = BlobStore::write(&w.open[&k], &data)?;
            Ok(())
        })?;
        if ok {
            ensure!(id == off.to_be_bytes(), P, "record id", "appended at {} but got id {:02x?}", off, id);
        }
        Ok(())
    }

    fn query<T>(&mut self, what: &str, f: impl FnOnce(&mut W) -> anyhow::Result<T>) -> R<Option<T>> {
        match self.risky(what, f)? {
            End::Ok(v) => Ok(Some(v)),
            End::Err => Ok(None),
            End::Crash => {
                self.restart()?;
                Ok(None)
            }
        }
    }

    fn read(&mut self, k: Key) -> R<()> {
        let c = ctx();
        c.count("op.read");
        let m = self.m(k).clone();
        let len = m.data.len() as u64;
        match c.weighted(&[6, 3, 2, 1, 1, 3]) {
            5 => {
                // as a database reads: at most up to the end
                let a = c.draw(len + 12);
                let n = c.range(1, 40) as usize;
                if !self.by_vfs(k)? {
                    return Ok(());
                }
                ev!("read({:?}) of {} bytes at {}; the file has {}", k, n, a, len);
                let mut buf = vec![0xEE; n];
                let b = &mut buf;
                if let Some((got, size)) = self.query("read", |w| {
                    let f = w.vfs.get_mut(&k).unwrap();
                    let r = io(f.read(a, b))?;
                    io(f.sync())?;
                    Ok((r, io(f.file_size())?))
                })? {
                    ensure!(size == len, P, "length", "as a database {:?} is {} bytes long, not {}", k, size, len);
                    let want = &m.data[(a as usize).min(m.data.len())..(a as usize + n).min(m.data.len())];
                    ensure!(got == want.len() && &buf[..got] == want, P, "read", "a database reading {} bytes at {} of {:?}, which has {}, gets {} ({}) instead of {}", n, a, k, len, got, show(&buf), show(want));
                }
            }
            0 => {
                let a = c.draw(len + 1);
                let b = a + c.draw(len - a + 1);
                ev!("read({:?}, {}..{})", k, a, b);
                if let Some(v) = self.query("read", |w| w.open[&k].read(a..b))? {
                    let want = &m.data[a as usize..b as usize];
                    ensure!(v == want, P, "read", "read({:?}, {}..{}) gave {} instead of {}; {}", k, a, b, show(&v), show(want), differ(&v, want));
                }
            }
            1 => {
                if let Some(&(off, n)) = (!m.recs.is_empty()).then(|| c.pick(&m.recs)) {
                    ev!("read record({:?}, {})", k, off);
                    if let Some(v) = self.query("read of a record", |w| Ok(BlobStore::read(&w.open[&k], &off.to_be_bytes())?.to_vec()))? {
                        let want = &m.data[off as usize + 4..off as usize + 4 + n];
                        ensure!(v == want, P, "record", "the record at {} of {:?} is {} instead of {}", off, k, show(&v), show(want));
                    }
                }
            }
            2 => {
                ev!("length({:?})", k);
                if let Some(n) = self.query("length", |w| w.open[&k].length())? {
                    ensure!(n == len, P, "length", "{:?} is {} bytes long, not {}", k, len, n);
                }
            }
            3 => {
                // there is nothing to read
                let a = c.draw(len + 1);
                let b = len + c.range(1, 20);
                ev!("read({:?}, {}..{}), beyond the end", k, a, b);
                let r = call(P, "read", || self.open[&k].read(a..b))?;
                ensure!(r.is_err(), P, "read beyond the end", "read({:?}, {}..{}) of {} bytes gave {}", k, a, b, len, show(&r.unwrap()));
            }
            _ => {
                let off = len + c.draw(20);
                ev!("read record({:?}, {}), beyond the end", k, off);
                let r = call(P, "read of a record", || Ok(BlobStore::read(&self.open[&k], &off.to_be_bytes())?.to_vec()))?;
                let r: anyhow::Result<Vec<u8>> = r;
                ensure!(r.is_err(), P, "record beyond the end", "a record at {} of {} bytes is {}", off, len, show(&r.unwrap()));
            }
        }
        Ok(())
    }

    fn pick_file(&mut self) -> Key {
        let c = ctx();
        let d = if c.chance(1, 6) { DIRS[1] } else { DIRS[0] };
        (d, FILES[c.weighted(&[8, 2, 2, 1, 1])])
    }

    fn exists(&mut self, k: Key) -> R<()> {
        self.dir(k.0)?;
        ctx().count("op.exists");
        ev!("file_exists({:?})", k);
        let want = self.open.contains_key(&k) || self.dirs[k.0].get(k.1).map_or(false, |m| !m.data.is_empty());
        let vfs = ctx().chance(1, 4);
        if let Some(v) = self.query("file_exists", |w| if vfs { io(w.open_dirs.get_mut(k.0).unwrap().exists(&CString::new(k.1).unwrap())) } else { w.open_dirs[k.0].file_exists(k.1) })? {
            ensure!(v == want, P, "existence", "file_exists({:?}) is {}", k, v);
        }
        Ok(())
    }

    fn delete_file(&mut self, k: Key) -> R<()> {
        self.dir(k.0)?;
        ctx().count("op.delete_file");
        ev!("delete_file({:?})", k);
        let old = self.dirs[k.0].get(k.1).cloned().unwrap_or_default();
        let vfs = ctx().chance(1, 4);
        let there = !old.data.is_empty();
        let end = self.risky("delete_file", |w| if vfs { io(w.open_dirs.get_mut(k.0).unwrap().delete(&CString::new(k.1).unwrap())).map(|_| there) } else { w.open_dirs[k.0].delete_file(k.1) })?;
        match end {
            End::Ok(v) => {
                ensure!(v == !old.data.is_empty(), P, "delete", "delete_file({:?}) said {} of a file with {} bytes", k, v, old.data.len());
                self.open.remove(&k);
                self.vfs.remove(&k);
                self.dirs.get_mut(k.0).unwrap().remove(k.1);
            }
            e => {
                if let End::Crash = e {
                    self.restart()?;
                }
                let got = self.content(k)?;
                self.dirs.get_mut(k.0).unwrap().entry(k.1).or_default();
                if got.is_empty() {
                    *self.m(k) = FileM::default();
                } else {
                    ensure!(got == old.data, P, "atomicity", "an interrupted delete_file left {} of {}", show(&got), show(&old.data));
                }
            }
        }
        Ok(())
    }

    fn delete_dir(&mut self, d: &'static str) -> R<()> {
        ctx().count("op.delete_dir");
        ev!("delete_dir({})", d);
        let old = self.dirs.contains_key(d);
        let end = self.risky("delete_dir", |w| w.fs.delete_dir(d))?;
        match end {
            End::Ok(v) => {
                ensure!(v == old, P, "delete", "delete_dir({}) said {}", d, v);
                self.dirs.remove(d);
                self.open_dirs.remove(d);
                self.open.retain(|k, _| k.0 != d);
                self.vfs.retain(|k, _| k.0 != d);
            }
            e => {
                if let End::Crash = e {
                    self.restart()?;
                }
                if !old {
                    return Ok(());
                }
                // all or nothing
                let files: Vec<&'static str> = self.dirs[d].iter().filter(|x| !x.1.data.is_empty()).map(|x| *x.0).collect();
                let mut gone = 0;
                for f in &files {
                    let got = self.content((d, f))?;
                    if got.is_empty() {
                        gone += 1;
                    } else {
                        let want = &self.dirs[d][f].data;
                        ensure!(got == *want, P, "atomicity", "an interrupted delete_dir left {} of {}", show(&got), show(want));
                    }
                }
                ensure!(gone == 0 || gone == files.len(), P, "atomicity", "an interrupted delete_dir left {} of {} files", files.len() - gone, files.len());
                if gone > 0 {
                    // the directory is there again since it was opened to look
                    self.dirs.insert(d, files.iter().map(|f| (*f, FileM::default())).collect());
                } else if files.is_empty() {
                    // nobody can tell whether it is there
                    let _ = self.content((d, FILES[0]))?;
                    self.dirs.entry(d).or_default().entry(FILES[0]).or_default();
                }
            }
        }
        Ok(())
    }

    fn state(&self) {
        let mut h = self.open.len() as u64;
        for (d, fs) in &self.dirs {
            for (f, m) in fs {
                h = ctx::hash_bytes(h, f.as_bytes());
                h = ctx::mix(h, m.data.len() as u64);
                h = ctx::hash_bytes(h, &m.data);
            }
            for e in js::entries(d) {
                h = ctx::hash_bytes(h, e.0.as_bytes());
            }
        }
        ctx().state(h);
    }

    fn finish(&mut self) -> R<()> {
        let c = ctx();
        if self.ops >= 3 && (self.trouble > 0 || self.sessions > 1) {
            c.mark();
        }
        c.count_n("io.promises", js::world(|w| w.promises));
        c.count_n("io.rejected", js::rejected());
        Ok(())
    }
}

pub fn run_files() -> R<()> {
    let c = ctx();
    let mut w = W::new()?;
    let n = if c.chance(1, 10) { c.range(24, 90) } else { c.range(3, 24) };
    w.big = c.chance(1, 60);
    let storms = if c.chance(1, 8) { 2 } else { 0 };
    for _ in 0..n {
        c.span_start();
        w.ops += 1;
        match c.weighted(&[10, 5, 6, 10, 2, 1, 3, 1, storms]) {
            0 => {
                let k = w.pick_file();
                w.file(k)?;
                w.write(k)?;
            }
            8 => {
                let k = w.pick_file();
                w.file(k)?;
                w.storm(k)?;
            }
            1 => {
                let k = w.pick_file();
                w.file(k)?;
                w.truncate(k)?;
            }
            2 => {
                let k = w.pick_file();
                w.file(k)?;
                w.append(k)?;
            }
            3 => {
                let k = w.pick_file();
                w.file(k)?;
                w.read(k)?;
            }
            4 => {
                let k = w.pick_file();
                w.exists(k)?;
            }
            5 => {
                let k = w.pick_file();
                w.delete_file(k)?;
            }
            6 => {
                c.count("op.restart");
                if c.chance(1, 2) {
                    ev!("unmount");
                    let fs = &w.fs;
                    call(P, "unmount", || fs.unmount())?;
                }
                w.restart()?;
            }
            _ => {
                let d = DIRS[c.draw(2) as usize];
                w.delete_dir(d)?;
            }
        }
        w.state();
        c.span_end();
    }
    // everything, seen by a worker that starts afresh
    w.restart()?;
    let all: Vec<Key> = w.dirs.iter().flat_map(|(d, fs)| fs.keys().map(move |f| (*d, *f))).collect();
    for k in all {
        w.verify(k, "at the end")?;
        for (off, n) in w.m(k).recs.clone() {
            let r = call(P, "read of a record", || Ok(BlobStore::read(&w.open[&k], &off.to_be_bytes())?.to_vec()))?;
            let r: anyhow::Result<Vec<u8>> = r;
            let want = w.m(k).data[off as usize + 4..off as usize + 4 + n].to_vec();
            match r {
                Ok(v) => ensure!(v == want, P, "record", "at the end: the record at {} of {:?} is {} instead of {}", off, k, show(&v), show(&want)),
                Err(e) => return fail(P, "record", format!("at the end: the record at {} of {:?} cannot be read: {:#}", off, k, e)),
            }
        }
    }
    w.finish()
}

const K: Key = ("sync", "f");

struct Pages {
    w: W,
    size: u64,
    s: Option<Arc<PagingFile>>,
    /// id, data, durable
    blobs: Vec<(Vec<u8>, Vec<u8>, bool)>,
}

impl Pages {
    /// The store on what is there now
    fn reopen(&mut self) -> R<()> {
        self.s = None;
        self.blobs.retain(|b| b.2);
        loop {
            self.w.file(K)?;
            let size = self.size;
            ev!("PagingFile::new(page size {})", size);
            let r = self.w.risky("PagingFile::new", |w| {
                // the handle moves into the store
                let f = w.open_dirs[K.0].open_file(K.1)?;
                PagingFile::new(f, size)
            })?;
            match r {
                End::Ok(s) => {
                    self.s = Some(Arc::new(s));
                    return Ok(());
                }
                End::Err => {}
                End::Crash => self.w.restart()?,
            }
        }
    }

    fn after<T>(&mut self, e: End<T>) -> R<Option<T>> {
        match e {
            End::Ok(v) => Ok(Some(v)),
            End::Err => Ok(None),
            End::Crash => {
                self.w.restart()?;
                self.reopen()?;
                Ok(None)
            }
        }
    }

    fn write(&mut self) -> R<()> {
        let c = ctx();
        c.count("op.blob_write");
        let n = match c.weighted(&[6, 3, 2]) {
            0 => c.draw(12),
            1 => c.draw(self.size / 2),
            _ => self.size - c.draw(24.min(self.size)),
        };
        let data = fresh(n as usize);
        ev!("write blob of {} bytes", n);
        let s = self.s.clone().unwrap();
        let d2 = data.clone();
        let before = js::rejected();
        let fits = n + 12 <= self.size;
        let r = if fits {
            self.w.risky("write of a blob", |_| s.write(&d2))?
        } else {
            // may be refused
            match call(P, "write of a blob", || s.write(&d2))? {
                Ok(v) => End::Ok(v),
                Err(e) => {
                    ev!("  refused: {:#}", e);
                    End::Err
                }
            }
        };
        let _ = before;
        drop(s);
        if let Some(id) = self.after(r)? {
            ensure!(self.blobs.iter().all(|b| b.0 != id), P, "id given twice", "a new blob got the id {:02x?} of another one", id);
            self.blobs.push((id, data, false));
        }
        Ok(())
    }

    fn read(&mut self, i: usize, calm: bool) -> R<()> {
        ctx().count("op.blob_read");
        let (id, data, durable) = self.blobs[i].clone();
        ev!("read blob {:02x?}", &id[4..]);
        let s = self.s.clone().unwrap();
        let f = |s: &PagingFile| Ok(s.read(&id)?.to_vec());
        let r = if calm {
            match call(P, "read of a blob", || f(&s))? {
                Ok(v) => Some(v),
                Err(e) => {
                    let e: anyhow::Error = e;
                    return fail(P, "blob lost", format!("the blob {:02x?}{} cannot be read: {:#}", id, if durable { ", synced," } else { "" }, e));
                }
            }
        } else {
            let e = self.w.risky("read of a blob", |_| f(&s))?;
            drop(s);
            self.after(e)?
        };
        if let Some(v) = r {
            ensure!(v == data, P, "blob", "the blob {:02x?} is {} instead of {}; {}", id, show(&v), show(&data), differ(&v, &data));
        }
        Ok(())
    }

    fn sync(&mut self) -> R<bool> {
        ctx().count("op.sync");
        ev!("sync");
        let s = self.s.clone().unwrap();
        let e = self.w.risky("sync", |_| s.sync())?;
        drop(s);
        let ok = self.after(e)?.is_some();
        if ok {
            for b in &mut self.blobs {
                b.2 = true;
            }
        }
        Ok(ok)
    }

    fn all(&mut self) -> R<()> {
        for i in 0..self.blobs.len() {
            self.read(i, true)?;
        }
        Ok(())
    }

    fn state(&self) {
        let mut h = self.size;
        for b in &self.blobs {
            h = ctx::mix(ctx::hash_bytes(h, &b.0), b.2 as u64);
        }
        for e in js::entries(K.0) {
            h = ctx::hash_bytes(h, e.0.as_bytes());
        }
        ctx().state(h);
    }
}

fn pages() -> R<Pages> {
    let c = ctx();
    let size = *c.pick(&[64u64, 64, 72, 128, 256, 1024]);
    let mut p = Pages { w: W::new()?, size, s: None, blobs: vec![] };
    p.reopen()?;
    Ok(p)
}

pub fn run_pages() -> R<()> {
    let c = ctx();
    let mut p = pages()?;
    let n = c.range(4, 40);
    for _ in 0..n {
        c.span_start();
        p.w.ops += 1;
        match c.weighted(&[12, 6, 5, 2, 1]) {
            0 => p.write()?,
            1 => {
                if !p.blobs.is_empty() {
                    let i = c.draw(p.blobs.len() as u64) as usize;
                    p.read(i, false)?
                }
            }
            2 => {
                p.sync()?;
            }
            3 => {
                c.count("op.reopen");
                if c.chance(1, 2) {
                    p.w.restart()?;
                } else {
                    p.w.open.clear();
                }
                p.reopen()?;
            }
            _ => p.all()?,
        }
        p.state();
        c.span_end();
    }
    p.all()?;
    if p.sync()? {
        p.w.restart()?;
        p.reopen()?;
        p.all()?;
    }
    p.w.finish()
}

/// Trees persisted in such a store
pub fn run_tree() -> R<()> {
    let c = ctx();
    let mut p = Pages { w: W::new()?, size: *c.pick(&[512u64, 1024, 4096]), s: None, blobs: vec![] };
    p.reopen()?;
    let mut model: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    // roots that were persisted and then synced
    let mut roots: Vec<(Vec<u8>, BTreeMap<Vec<u8>, Vec<u8>>)> = vec![];
    let rounds = c.range(1, 5);
    let same = |t: &RadixTree<DynBlobStore>, m: &BTreeMap<Vec<u8>, Vec<u8>>| -> R<()> {
        let r = call(P, "iteration", || {
            let mut v = vec![];
            for x in t.try_iter() {
                let (k, x) = x?;
                v.push((k.to_vec(), x.load(RadixTree::store(t))?.to_vec()));
            }
            anyhow::Ok(v)
        })?;
        match r {
            Ok(v) => {
                let want: Vec<(Vec<u8>, Vec<u8>)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(v == want, P, "tree", "the tree has {} entries instead of {}, or others", v.len(), want.len());
                Ok(())
            }
            Err(e) => fail(P, "tree", format!("the tree cannot be read: {:#}", e)),
        }
    };
    for _ in 0..rounds {
        c.span_start();
        p.w.ops += 1;
        for _ in 0..c.range(1, 10) {
            let k: Vec<u8> = (0..c.draw(4)).map(|_| b'a' + c.draw(3) as u8).collect();
            if c.chance(1, 5) {
                model.remove(&k);
            } else {
                let n = if c.chance(1, 5) { c.draw(200) } else { c.draw(10) } as usize;
                model.insert(k, fresh(n));
            }
        }
        c.count("op.tree");
        ev!("persist a tree of {} entries", model.len());
        let store: DynBlobStore = p.s.clone().unwrap();
        let m2 = model.clone();
        let r = p.w.risky("persisting a tree", move |_| {
            let t: RadixTree = m2.into_iter().collect();
            let mut t = t.try_attached(store.clone())?;
            let id = t.try_reattach()?.to_vec();
            store.sync()?;
            Ok((id, t))
        })?;
        if let Some((id, t)) = p.after(r)? {
            same(&t, &model)?;
            roots.push((id, model.clone()));
        }
        if c.chance(1, 3) {
            p.w.restart()?;
            p.reopen()?;
        }
        for (id, m) in &roots {
            if !c.chance(1, 2) {
                continue;
            }
            let store: DynBlobStore = p.s.clone().unwrap();
            match call(P, "try_load", || RadixTree::try_load(store, Some(id)))? {
                Ok(t) => same(&t, m)?,
                Err(e) => return fail(P, "tree", format!("the tree {:02x?} cannot be loaded: {:#}", id, e)),
            }
        }
        p.state();
        c.span_end();
    }
    p.w.finish()
}

pub fn run() -> R<()> {
    let c = ctx();
    match c.weighted(&[6, 4, 1]) {
        0 => run_files(),
        1 => run_pages(),
        _ => run_tree(),
    }
}
