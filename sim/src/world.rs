//! The tree-level world: a population of tree handles over several stores, a model of every
//! handle, every persisted root, every open iterator and every value taken out, and a stream of
//! operations, faults, crashes and restarts drawn from the choice sequence.
use crate::fail::{call, call_unwinding, fail, names, p, Props, R};
use crate::gen::Gen;
use crate::store::{hex, show, Kind, Plan, RefStore, SimStore};
use crate::sut::{self, Comb, Descend, Item, It, Join, Log, Pred, Seq, Val, H, KV};
use crate::trie::{self, Map};
use anyhow::Error;
use radixdb::node::IterKey;
use radixdb::store::{BlobStore, Detached, DynBlobStore, MemStore, PagedFileStore};
use radixdb::RadixTree;
use simrt::{
    alloc,
    ctx::{self, ctx},
    disk::{self, Restart},
    ev,
};
use std::collections::{BTreeMap, VecDeque};
use std::fmt::Debug;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Insert,
    Remove,
    RemovePrefix,
    CombineWith,
    Combine,
    CombinePred,
    PrefixEdit,
    Attach,
    Persist,
    Load,
    Detach,
    Clone,
    Drop,
    New,
    Get,
    Iter,
    PrefixQuery,
    FilterPrefix,
    GroupBy,
    Ends,
    Fan,
    Sync,
    Equality,
    IterOpen,
    IterStep,
    Hold,
    VerifyRoot,
    PathReads,
    Incremental,
    RootId,
    Inspect,
}

/// How a property explores the tree world
pub struct Profile {
    pub base: Props,
    /// per cent of queries, updates and persists that meet faults
    pub qf: u64,
    pub uf: u64,
    /// per cent of updates with a callback that panics
    pub cp: u64,
    pub pf: u64,
    /// per mille of steps
    pub crash: u64,
    pub power: u64,
    pub reopen: u64,
    /// weights of reference, memory, dyn and paged stores
    pub kinds: [u32; 4],
    pub max_stores: u64,
    /// per cent of new trees that start out persisted
    pub attached: u64,
    /// per cent of stores that start with contents an independent encoder wrote
    pub import: u64,
    pub max_ops: u64,
    pub w: &'static [(Op, u32)],
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Tag {
    Ref,
    Mem,
    Dyn,
    Paged,
}

pub struct StoreInfo {
    pub s: SimStore,
    pub tag: Tag,
    pub disk: Option<usize>,
    pub page: u64,
    /// an fsync failed: nothing written before can be relied upon to survive a power cut
    pub nosync: bool,
}

impl Slot {
    /// nothing happened to this tree since it was stored
    pub fn stored(&self) -> bool {
        self.base.as_ref().map_or(false, |b| b.touched.is_empty() && b.m == self.m)
    }
}

pub struct Slot {
    pub h: H,
    pub m: Map,
    /// the properties whose operations shaped this tree
    pub taint: Props,
    /// what is persisted of it
    pub base: Option<Base>,
}

/// The stored version a tree derives from, and the keys updated since
#[derive(Clone)]
pub struct Base {
    pub m: Map,
    pub touched: Vec<(Vec<u8>, bool)>,
    /// stored trees of the same store that were combined into this one
    pub extra: Vec<Extra>,
}
#[derive(Clone)]
pub struct Extra {
    /// its contents
    pub m: Map,
    /// the contents of the tree it was combined into
    pub before: Map,
    /// the number of keys updated before
    pub since: usize,
}
impl Base {
    pub fn new(m: Map) -> Base {
        Base { m, touched: vec![], extra: vec![] }
    }
}

pub struct Root {
    pub store: usize,
    pub id: Vec<u8>,
    pub m: Map,
    pub synced: bool,
}

struct OpenIter {
    it: It,
    rest: VecDeque<KV>,
    values: bool,
    props: Props,
    keys: Vec<(IterKey, Vec<u8>)>,
}

pub struct World {
    pub pf: &'static Profile,
    pub g: Gen,
    pub stores: Vec<StoreInfo>,
    pub slots: Vec<Slot>,
    pub roots: Vec<Root>,
    iters: Vec<OpenIter>,
    held: Vec<(Val, Vec<u8>)>,
    keys: Vec<(IterKey, Vec<u8>)>,
    /// keys the next update touches (and whether it may remove them)
    pub touch: Option<Vec<(Vec<u8>, bool)>>,
    /// contents of a stored tree the next update takes parts from
    pub touch_extra: Option<Map>,
    /// whether the operand drawn last is stored completely
    pub op_stored: bool,
    pub crashed: bool,
    pub powered: bool,
    pub failed_persist: bool,
}

/// Everything was dropped: nothing of the library may be left
pub fn leak_check(props: Props) -> R<()> {
    let (n, bytes) = alloc::live();
    ensure!(n == 0, p::T14 | props, "leak", "{} allocations ({} bytes) of the library are still live after everything was dropped", n, bytes);
    let (maps, fds) = disk::held();
    ensure!(maps == 0 && fds == 0, p::T14 | props, "leak-mapping", "{} mappings and {} file descriptors are still held after everything was dropped", maps, fds);
    Ok(())
}

pub fn list(m: &Map) -> Vec<KV> {
    m.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn show_map(m: &Map) -> String {
    let mut s = String::from("{");
    for (i, (k, v)) in m.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        if i == 12 {
            s.push_str(&format!(".. {} entries", m.len()));
            break;
        }
        s.push_str(&format!("{}:{}", show(k), show(v)));
    }
    s.push('}');
    s
}

/// Compare what an iteration gave with what it should give
pub fn check_seq<T: PartialEq + Debug>(what: &str, r: &Seq<T>, exp: &[T], fired: bool, props: Props, show: impl Fn(&T) -> String) -> R<()> {
    let fp = props | if fired { p::T09 } else { 0 };
    for (i, x) in r.items.iter().enumerate() {
        match exp.get(i) {
            None => return fail(fp, "wrong-item", format!("{}: extra item {} after the {} expected ones", what, show(x), exp.len())),
            Some(e) if e != x => return fail(fp, "wrong-item", format!("{}: item {} is {} but should be {}", what, i, show(x), show(e))),
            _ => {}
        }
    }
    ensure!(!r.endless, fp, "endless", "{}: does not end", what);
    ensure!(!r.zombie, fp | p::T09, "zombie", "{}: goes on after its {}", what, if r.err.is_some() { "error" } else { "end" });
    if let Some(i) = r.changed {
        return fail(fp | p::T08, "key-changed", format!("{}: key {} changed after it had been handed out", what, i));
    }
    match &r.err {
        Some(e) => ensure!(fired, fp | p::T09, "spurious-error", "{}: error without a fault: {:#}", what, e),
        None => ensure!(r.items.len() == exp.len(), fp, "incomplete", "{}: ended after {} of {} items without an error; next would be {}", what, r.items.len(), exp.len(), show(&exp[r.items.len()])),
    }
    Ok(())
}
pub fn show_kv(x: &KV) -> String {
    format!("{}:{}", show(&x.0), show(&x.1))
}

/// the process that held this tree died
fn gone(h: &H) -> bool {
    h.store().map(|s| s.is_dead()).unwrap_or(false)
}
/// The whole tree against the model, without faults
pub fn check_tree(h: &H, m: &Map, props: Props, what: &str) -> R<()> {
    let exp = list(m);
    let r = call(props | p::T08, "iteration", || sut::iter(h, exp.len() + 4, true))?;
    if gone(h) {
        return Ok(());
    }
    if let Err(mut f) = check_seq(what, &r, &exp, false, props, show_kv) {
        // if lookups are right it is the traversal
        let mut lookups = true;
        for (k, v) in m {
            match call(props, "get", || sut::get(h, k)) {
                Ok(Ok(Some(x))) if &x == v => {}
                _ => lookups = false,
            }
        }
        if lookups {
            f.props |= p::T08;
        }
        f.msg = format!("{} (lookups are {})", f.msg, if lookups { "right" } else { "wrong as well" });
        return Err(f);
    }
    if ctx().chance(1, 4) {
        // all of them, or a few of very many
        let step = 1 + m.len() / 400;
        let from = if step > 1 { ctx().draw(step as u64) as usize } else { 0 };
        for (k, v) in m.iter().skip(from).step_by(step) {
            let r = call(props | p::T05, "get", || sut::get(h, k))?;
            match r {
                _ if gone(h) => return Ok(()),
                Ok(Some(x)) if &x == v => {}
                Ok(x) => return fail(props | p::T05, "get", format!("{}: get({}) gives {} instead of {}", what, show(k), x.map(|x| show(&x)).unwrap_or("nothing".into()), show(v))),
                Err(e) => return fail(props | p::T05 | p::T09, "spurious-error", format!("{}: get({}) fails without a fault: {:#}", what, show(k), e)),
            }
        }
    }
    Ok(())
}

/// emptiness, leaf-ness, root prefix and root value follow from the contents
pub fn check_shape(h: &H, m: &Map, props: Props) -> R<()> {
    let c = trie::canonical(m);
    let e = call(props | p::T13, "is_empty", || sut::is_empty(h))?;
    ensure!(e == m.is_empty(), props | p::T13, "is_empty", "is_empty is {} for {}", e, show_map(m));
    let l = call(props | p::T13, "is_leaf", || sut::is_leaf(h))?;
    ensure!(l == c.children.is_empty(), props | p::T13, "is_leaf", "is_leaf is {} for {}", l, show_map(m));
    if let H::D(t) = h {
        let (pre, val) = call(props | p::T13, "prefix", || {
            let pre = t.prefix().data().map(|x| x.to_vec());
            let val = t.value().and_then(|v| v.data().map(|x| x.to_vec()));
            (pre, val)
        })?;
        ensure!(pre.as_deref() == Some(&c.prefix[..]), props | p::T13, "root-prefix", "the root prefix is {:?} instead of {} for {}", pre.map(|x| show(&x)), show(&c.prefix), show_map(m));
        ensure!(val == c.value, props | p::T13, "root-value", "the root value is {:?} instead of {:?} for {}", val.map(|x| show(&x)), c.value.map(|x| show(&x)), show_map(m));
    }
    Ok(())
}

pub fn build(m: &Map) -> RadixTree {
    let _s = alloc::sut();
    let t: RadixTree = m.iter().collect();
    t
}

// ------------------------------------------------------------------------------ the models

pub fn model_combine(a: &Map, b: &Map, join: Join, comb: Comb) -> (Map, Vec<KV>) {
    let mut r = Map::new();
    let mut calls = vec![];
    for (k, v) in a {
        match b.get(k) {
            Some(w) => {
                calls.push((v.clone(), w.clone()));
                if let Some(x) = comb.apply(v, w) {
                    r.insert(k.clone(), x);
                }
            }
            None => {
                if join != Join::Inner {
                    r.insert(k.clone(), v.clone());
                }
            }
        }
    }
    if join == Join::Outer {
        for (k, v) in b {
            if !a.contains_key(k) {
                r.insert(k.clone(), v.clone());
            }
        }
    }
    (r, calls)
}
pub fn model_prefix_edit(a: &Map, b: &Map, retain: bool, pr: Pred) -> Map {
    a.iter().filter(|(k, _)| b.iter().any(|(q, v)| k.starts_with(q) && pr.at(v, &[])) == retain).map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn with_prefix(m: &Map, q: &[u8]) -> Map {
    m.range(q.to_vec()..).take_while(|(k, _)| k.starts_with(q)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
fn model_groups(n: &trie::TNode, path: &mut Vec<u8>, d: Descend, out: &mut Vec<Map>) {
    fn all(n: &trie::TNode, path: &mut Vec<u8>, m: &mut Map) {
        let l = path.len();
        path.extend_from_slice(&n.prefix);
        if let Some(v) = &n.value {
            m.insert(path.clone(), v.clone());
        }
        for c in &n.children {
            all(c, path, m);
        }
        path.truncate(l);
    }
    let l = path.len();
    path.extend_from_slice(&n.prefix);
    if d.at(path) {
        if let Some(v) = &n.value {
            out.push([(path.clone(), v.clone())].into_iter().collect());
        }
        for c in &n.children {
            model_groups(c, path, d, out);
        }
        path.truncate(l);
    } else {
        path.truncate(l);
        let mut m = Map::new();
        all(n, path, &mut m);
        out.push(m);
    }
}

/// Bytes of a stored blob, read without the library
pub fn raw(si: &StoreInfo, id: &[u8]) -> Result<Vec<u8>, String> {
    match si.disk {
        None => si.s.raw(id),
        Some(d) => {
            let id: [u8; 8] = id.try_into().map_err(|_| format!("id {} is not 8 bytes", hex(id)))?;
            let end = 4096 + u64::from_be_bytes(id);
            if end < 4100 {
                return Err("id below the smallest record".into());
            }
            let img = disk::image(d);
            let len = img.read(end - 4, 4).ok_or("record length beyond the end of the file")?;
            let len = u32::from_be_bytes(len.try_into().unwrap()) as u64;
            if len + 4100 > end {
                return Err(format!("record of {} bytes does not fit before its end", len));
            }
            img.read(end - 4 - len, len as usize).ok_or_else(|| "record beyond the end of the file".into())
        }
    }
}

impl World {
    pub fn new(pf: &'static Profile) -> World {
        let c = ctx();
        let max_val = *c.pick(&[400usize, 140, 12, 3000]);
        let max_key = *c.pick(&[400usize, 140, 12, 700]);
        let mut g = Gen::new(max_key, max_val);
        if c.chance(1, 80) {
            g.big = true;
            (g.max_key, g.max_val) = (150_000, 150_000);
        }
        let mut w = World {
            pf,
            g,
            stores: vec![],
            slots: vec![],
            roots: vec![],
            iters: vec![],
            held: vec![],
            keys: vec![],
            touch: None,
            touch_extra: None,
            op_stored: false,
            crashed: false,
            powered: false,
            failed_persist: false,
        };
        if pf.max_stores > 0 {
            let n = c.range(1, pf.max_stores);
            for _ in 0..n {
                w.add_store();
            }
        }
        w
    }
    pub fn hit(&self, x: Props) {
        if self.pf.base & x != 0 {
            ctx().mark();
        }
    }

    // -------------------------------------------------------------------------- the stores

    pub fn add_store(&mut self) {
        let c = ctx();
        let tag = [Tag::Ref, Tag::Mem, Tag::Dyn, Tag::Paged][c.weighted(&self.pf.kinds)];
        let i = self.stores.len();
        let mut pre = crate::special::Import::default();
        let import = c.chance(self.pf.import, 100);
        let (mut kind, d, max, page) = match tag {
            Tag::Ref => {
                let idlen = *c.pick(&[8usize, 2, 4, 9, 7, 16, 32, 1, 3, 64, 126]);
                let content_addressed = idlen >= 8 && c.chance(1, 3);
                (
                    Kind::Ref(RefStore { idlen, content_addressed, fresh: c.chance(1, 2), map: BTreeMap::new(), unsynced: vec![], next: c.draw(3) * 100 }),
                    None,
                    usize::MAX,
                    idlen as u64,
                )
            }
            Tag::Mem => (Kind::Mem(MemStore::default()), None, usize::MAX, 0),
            Tag::Dyn | Tag::Paged => {
                let mut page = *c.pick(&[4096u64, 1024, 65536, 512, 8192, 256]);
                if self.g.big && c.chance(2, 3) {
                    page = 1 << 19;
                }
                let d = disk::create();
                if import {
                    c.count("op.import");
                    pre = crate::special::import_file(&mut self.g, d, page, i);
                }
                (open_paged(d, page, tag).unwrap_or_else(|_| Kind::Mem(MemStore::default())), Some(d), page as usize - 8, page)
            }
        };
        ev!("store {}: {:?} ({})", i, tag, page);
        if import && d.is_none() {
            c.count("op.import");
            pre = crate::special::import_kind(&mut self.g, &mut kind, i);
        }
        let s = SimStore::new(i, kind, d, max);
        s.st().ledger.extend(pre.ledger);
        self.stores.push(StoreInfo { s, tag, disk: d, page, nosync: false });
        self.roots.extend(pre.roots);
    }
    pub fn pick_store(&self) -> usize {
        ctx().draw(self.stores.len() as u64) as usize
    }
    pub fn index(&self, h: &H) -> Option<usize> {
        let s = h.store()?;
        self.stores.iter().position(|x| x.s.same(&s))
    }
    pub fn failures(&self) -> u64 {
        self.stores.iter().map(|s| s.s.failures()).sum()
    }
    pub fn dead(&self) -> bool {
        self.stores.iter().any(|s| s.s.is_dead())
    }
    pub fn quiet(&self) {
        for s in &self.stores {
            let crash = s.s.st().crash_at;
            s.s.st().plan = Plan::default();
            s.s.st().crash_at = crash;
            if let Some(d) = s.disk {
                disk::disk(d).faults = disk::NO_FAULTS;
            }
        }
    }
    /// Postpone a crash that is due
    pub fn hold(&self) -> Vec<(Option<u64>, Option<u64>)> {
        self.stores.iter().map(|s| (s.s.st().crash_at.take(), s.disk.and_then(|d| disk::disk(d).crash_at.take()))).collect()
    }
    pub fn unhold(&self, v: Vec<(Option<u64>, Option<u64>)>) {
        for (s, (a, b)) in self.stores.iter().zip(v) {
            s.s.st().crash_at = a;
            if let Some(d) = s.disk {
                disk::disk(d).crash_at = b;
            }
        }
    }
    /// Arrange for reads of the given stores to fail
    pub fn arm_reads(&self, st: &[usize]) {
        let c = ctx();
        for &i in st {
            let s = &self.stores[i];
            if s.disk.is_some() && c.chance(1, 4) {
                let kinds = *c.pick(&[disk::F_READ, disk::F_READ | disk::F_SHORT | disk::F_EINTR, disk::F_MMAP | disk::F_READ, disk::F_SEEK | disk::F_READ]);
                disk::disk(s.disk.unwrap()).faults = disk::Faults { rate: 0, arm: Some(c.draw(6)), burst: c.draw(3), kinds, cap: u64::MAX };
            } else {
                match c.weighted(&[6, 1]) {
                    0 => {
                        let n = *c.pick(&[3u64, 6, 15]);
                        s.s.st().plan.read_at = Some(c.draw(n));
                        s.s.st().plan.read_burst = *c.pick(&[0u64, 0, 2, 100]);
                    }
                    _ => s.s.st().plan.rate = *c.pick(&[3u64, 6, 2]),
                }
            }
        }
    }
    pub fn arm_writes(&self, i: usize) {
        let c = ctx();
        let s = &self.stores[i];
        if s.disk.is_some() && c.chance(1, 3) {
            let cap = if c.chance(1, 4) { disk::image(s.disk.unwrap()).size + c.draw(400) } else { u64::MAX };
            disk::disk(s.disk.unwrap()).faults = disk::Faults { rate: 0, arm: Some(c.draw(12)), burst: c.draw(3), kinds: disk::F_ALL, cap };
            return;
        }
        let plan = &mut s.s.st().plan;
        match c.weighted(&[6, 3, 1]) {
            0 => {
                let n = *c.pick(&[2u64, 4, 10]);
                plan.write_at = Some(c.draw(n));
                plan.write_burst = *c.pick(&[0u64, 0, 1, 100]);
                plan.write_lands = c.chance(1, 3);
            }
            1 => plan.read_at = Some(c.draw(6)),
            _ => plan.rate = *c.pick(&[3u64, 6, 2]),
        }
    }
    fn fsync_failures() -> u64 {
        ctx().counters.get("fault.eio_fsync").copied().unwrap_or(0)
    }

    // ------------------------------------------------------------------------- the runners

    /// A query: under faults right or an error, without faults right
    fn query<T: PartialEq + Debug>(&mut self, st: &[usize], props: Props, what: &str, exp: &T, f: impl Fn() -> Result<T, Error>) -> R<()> {
        let c = ctx();
        let faulty = !st.is_empty() && c.chance(self.pf.qf, 100);
        if faulty {
            if c.chance(1, 1500) && !self.dead() {
                // a store that is down for a long time
                c.count("op.query_storm");
                let held = self.hold();
                for k in 0..*c.pick(&[30u64, 300, 1100, 2200]) {
                    for x in st {
                        self.stores[*x].s.st().plan.read_at = Some(if k % 3 == 0 { c.draw(3) } else { 0 });
                    }
                    let before = self.failures();
                    let r = call(props | p::T09, what, &f)?;
                    self.quiet();
                    match r {
                        Ok(v) => {
                            ensure!(&v == exp, props | p::T09, "wrong-answer", "{} gives {:?} instead of {:?} in a long series of failures", what, v, exp);
                            if self.failures() == before && k > 10 {
                                break;
                            }
                        }
                        Err(e) => ensure!(self.failures() > before, props | p::T09, "spurious-error", "{} fails although no store operation did, after {} failures: {:#}", what, k, e),
                    }
                }
                self.unhold(held);
            }
            self.arm_reads(st);
        }
        let fp = props | if faulty { p::T09 } else { 0 };
        let before = self.failures();
        let r = call(fp, what, &f)?;
        self.quiet();
        if self.dead() {
            return Ok(());
        }
        match r {
            Ok(v) => {
                ensure!(&v == exp, fp, "wrong-answer", "{} gives {:?} instead of {:?}{}", what, v, exp, if faulty { " while reads fail" } else { "" });
                return Ok(());
            }
            Err(e) => {
                ensure!(self.failures() > before, fp | p::T09, "spurious-error", "{} fails although no store operation did: {:#}", what, e);
                c.count("op.query_failed");
                self.hit(p::T09);
            }
        }
        let r = call(fp | p::T09, what, &f)?;
        if self.dead() {
            return Ok(());
        }
        match r {
            Ok(v) => ensure!(&v == exp, fp | p::T09, "wrong-answer-after-fault", "{} gives {:?} instead of {:?} after an earlier failure", what, v, exp),
            Err(e) => return fail(fp | p::T09, "stuck-error", format!("{} still fails after the store works again: {:#}", what, e)),
        }
        Ok(())
    }
    /// The same for iterations
    fn query_seq<T: PartialEq + Debug>(&mut self, st: &[usize], props: Props, what: &str, exp: &[T], show: impl Fn(&T) -> String + Copy, f: impl Fn() -> Seq<T>) -> R<()> {
        let c = ctx();
        let faulty = !st.is_empty() && c.chance(self.pf.qf, 100);
        if faulty {
            self.arm_reads(st);
        }
        let fp = props | if faulty { p::T09 } else { 0 };
        let before = self.failures();
        let r = call(fp, what, &f)?;
        self.quiet();
        if self.dead() {
            return Ok(());
        }
        let fired = self.failures() > before;
        check_seq(what, &r, exp, fired, fp, show)?;
        if r.err.is_some() {
            c.count("op.query_failed");
            self.hit(p::T09);
            let r = call(fp | p::T09, what, &f)?;
            if self.dead() {
                return Ok(());
            }
            check_seq(what, &r, exp, false, fp | p::T09, show)?;
        }
        Ok(())
    }

    /// An update of slot `i`: done, or failed without a trace and then possible
    pub fn mutate(&mut self, i: usize, st: &[usize], props: Props, what: &str, new: Map, log: Option<&Log>, cb_faults: bool, mut f: impl FnMut(&mut H) -> Result<(), Error>) -> R<()> {
        let c = ctx();
        let touch = self.touch.take();
        let extra = self.touch_extra.take();
        let faulty = c.chance(self.pf.uf, 100);
        if faulty {
            let cb = cb_faults && log.is_some() && (st.is_empty() || c.chance(1, 3));
            if cb {
                let n = *c.pick(&[1u64, 3, 8]);
                log.unwrap().fail_at.set(Some(c.draw(n)));
            } else {
                self.arm_reads(st);
            }
        }
        let fp = props | if faulty { p::T10 } else { 0 };
        if self.dead() {
            return Ok(());
        }
        // the error type of an in-memory target has no values: its store must not fail
        let held = if matches!(self.slots[i].h, H::D(_)) { self.hold() } else { vec![] };
        let before = self.failures();
        let spare = match log {
            // the callback may panic; what is then left of the tree must not be used, but dropped
            Some(l) if c.chance(self.pf.cp, 100) => {
                let n = *c.pick(&[1u64, 3, 8]);
                l.panic_at.set(Some(c.draw(n)));
                let s = &self.slots[i];
                Some(if s.h.attached() || c.chance(1, 2) { s.h.dup() } else { call(p::T14, "collect", || H::D(s.m.iter().collect()))? })
            }
            _ => None,
        };
        let mut h = std::mem::replace(&mut self.slots[i].h, H::None);
        let fp = if spare.is_some() { fp | p::T14 } else { fp };
        let mut r = call_unwinding(fp, what, || f(&mut h))?;
        if let Some(l) = log {
            l.panic_at.set(None);
        }
        match spare {
            Some(spare) if r.is_none() => {
                call(p::T14, "drop of a tree after a panic", move || drop(h))?;
                h = spare;
                self.quiet();
                check_tree(&h, &self.slots[i].m, p::T14 | p::T12, "a clone after a panic")?;
                self.hit(p::T14);
                let l = log.unwrap();
                l.fail_at.set(None);
                l.calls.borrow_mut().clear();
                l.n.set(0);
                r = call_unwinding(fp, what, || f(&mut h))?;
            }
            Some(spare) => call(p::T14, "drop of a tree", move || drop(spare))?,
            None => {}
        }
        self.slots[i].h = h;
        let r = r.unwrap();
        self.unhold(held);
        self.quiet();
        if self.dead() {
            return Ok(());
        }
        if let Some(l) = log {
            l.fail_at.set(None);
        }
        self.slots[i].taint |= props;
        let before_m = self.slots[i].m.clone();
        match (touch, &mut self.slots[i].base) {
            (Some(t), Some(b)) => {
                b.touched.extend(t);
                if let Some(m) = extra {
                    b.extra.push(Extra { m, before: before_m, since: b.touched.len() });
                }
            }
            (_, b) => *b = None,
        }
        match r {
            Ok(()) => {}
            Err(e) => {
                let cause = self.failures() > before || log.map(|l| l.failed.get() > 0).unwrap_or(false);
                ensure!(cause, fp | p::T10, "spurious-error", "{} fails although neither a store nor a callback did: {:#}", what, e);
                c.count("op.update_failed");
                self.hit(p::T10 | p::T14);
                self.slots[i].taint |= p::T10;
                ev!("{} failed: {}", what, e);
                let s = &self.slots[i];
                check_tree(&s.h, &s.m, p::T10, &format!("contents after a failed {}", what))?;
                check_shape(&s.h, &s.m, p::T10)?;
                self.check_other(i, p::T10 | p::T12)?;
                let mut again = true;
                if !st.is_empty() && self.slots[i].h.attached() && !self.dead() && c.chance(1, 150) {
                    // the store stays down for a long time
                    c.count("op.update_storm");
                    let held = self.hold();
                    for k in 0..*c.pick(&[30u64, 300, 1100, 2200]) {
                        if let Some(l) = log {
                            l.calls.borrow_mut().clear();
                            l.n.set(0);
                        }
                        for x in st {
                            self.stores[*x].s.st().plan.read_at = Some(0);
                        }
                        let before = self.failures();
                        let mut h = std::mem::replace(&mut self.slots[i].h, H::None);
                        let r = call(fp | p::T10, what, || f(&mut h));
                        self.slots[i].h = h;
                        self.quiet();
                        match r? {
                            Ok(()) => {
                                again = false;
                                break;
                            }
                            Err(e) => ensure!(self.failures() > before, fp | p::T10, "spurious-error", "{} fails although no store operation did, after {} failures: {:#}", what, k, e),
                        }
                    }
                    self.unhold(held);
                }
                // and now without a fault
                let r = if again {
                    if let Some(l) = log {
                        l.calls.borrow_mut().clear();
                        l.n.set(0);
                    }
                    let mut h = std::mem::replace(&mut self.slots[i].h, H::None);
                    let r = call(fp | p::T10, what, || f(&mut h));
                    self.slots[i].h = h;
                    r?
                } else {
                    Ok(())
                };
                if self.dead() {
                    return Ok(());
                }
                if let Err(e) = r {
                    return fail(fp | p::T10, "stuck-error", format!("{} still fails after the fault is gone: {:#}", what, e));
                }
            }
        }
        let s = &mut self.slots[i];
        s.m = new;
        check_tree(&s.h, &s.m, s.taint, &format!("contents after {}", what))?;
        check_shape(&s.h, &s.m, props)?;
        self.check_other(i, p::T12)?;
        self.observe(i);
        Ok(())
    }
    fn observe(&self, i: usize) {
        let s = &self.slots[i];
        let mut h = s.h.attached() as u64;
        for (k, v) in &s.m {
            h = ctx::hash_bytes(h, k);
            h = ctx::hash_bytes(h, v);
        }
        ctx().state(ctx::mix(h, self.slots.len() as u64 + ((self.roots.len() as u64) << 8)));
    }
    /// A tree that was not the subject of the last operation must be as it was
    pub fn check_other(&mut self, not: usize, props: Props) -> R<()> {
        if self.slots.len() > 1 {
            let j = ctx().draw(self.slots.len() as u64) as usize;
            if j != not {
                let s = &self.slots[j];
                check_tree(&s.h, &s.m, props | s.taint & (p::T02 | p::T12), "another tree")?;
                self.hit(p::T12);
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------------- population

    pub fn push(&mut self, h: H, m: Map, taint: Props) -> usize {
        self.slots.push(Slot { h, m, taint, base: None });
        self.slots.len() - 1
    }
    pub fn pick(&mut self) -> R<usize> {
        if self.slots.is_empty() {
            self.new_tree()?;
        }
        if self.slots.is_empty() {
            // the process died before there was a tree
            let h = call(p::T05, "default", || H::D(RadixTree::default()))?;
            return Ok(self.push(h, Map::new(), p::T05));
        }
        // the newest ones are the most interesting
        let n = self.slots.len() as u64;
        Ok((n - 1 - ctx().draw(n)) as usize)
    }
    pub fn new_tree(&mut self) -> R<()> {
        let c = ctx();
        let (h, m) = match c.weighted(&[10, 2, 2, 1, 2]) {
            0 => {
                let n = *c.pick(&[6u64, 12, 3, 30]);
                let m = self.g.map(n);
                (call(p::T05, "collect", || H::D(m.iter().collect()))?, m)
            }
            1 => {
                let k = self.g.key();
                let v = self.g.value();
                (call(p::T05, "single", || H::D(RadixTree::single(&k, &v)))?, [(k, v)].into_iter().collect())
            }
            2 => (call(p::T05, "default", || H::D(RadixTree::default()))?, Map::new()),
            3 => {
                let v = self.g.value();
                (call(p::T05, "leaf", || H::D(RadixTree::leaf(&v)))?, [(vec![], v)].into_iter().collect())
            }
            _ if !self.stores.is_empty() => {
                let i = self.pick_store();
                let s = self.stores[i].s.clone();
                (call(p::T05, "empty", || H::A(RadixTree::empty(s)))?, Map::new())
            }
            _ => (call(p::T05, "default", || H::D(RadixTree::default()))?, Map::new()),
        };
        ev!("new tree {} = {}", self.slots.len(), show_map(&m));
        let i = self.push(h, m, p::T05);
        if !self.stores.is_empty() && c.chance(self.pf.attached, 100) {
            self.to_store(i, false)?;
            if i < self.slots.len() && c.chance(2, 3) && !self.dead() {
                self.reload(i)?;
            }
        }
        Ok(())
    }
    pub fn drop_slot(&mut self, i: usize) -> R<()> {
        let s = self.slots.remove(i);
        call(p::T14, "drop of a tree", move || drop(s.h))
    }

    /// Bring slot i into a store (attach, then persist)
    pub fn to_store(&mut self, i: usize, faults: bool) -> R<()> {
        if matches!(self.slots[i].h, H::D(_)) {
            self.attach(i, faults)?;
        }
        if !self.dead() && self.slots[i].h.attached() {
            self.persist(i, faults)?;
        }
        Ok(())
    }
    pub fn attach(&mut self, i: usize, faults: bool) -> R<()> {
        let c = ctx();
        let si = self.pick_store();
        let s = self.stores[si].s.clone();
        c.count("op.attach");
        let faulty = faults && c.chance(self.pf.pf, 100);
        if faulty {
            self.arm_writes(si);
        }
        let props = p::T01 | if faulty { p::T03 } else { 0 };
        let before = self.failures();
        let go = |t: &RadixTree, s: &SimStore| t.try_attached(s.clone());
        let r = match &self.slots[i].h {
            H::D(t) => call(props, "try_attached", || go(t, &s))?,
            _ => return Ok(()),
        };
        self.quiet();
        if self.dead() {
            return Ok(());
        }
        ev!("attach tree {} to store {}: {}", i, si, if r.is_ok() { "done" } else { "failed" });
        let t = match r {
            Ok(t) => t,
            Err(e) => {
                ensure!(self.failures() > before, props | p::T03, "spurious-error", "attaching fails although no store operation did: {:#}", e);
                c.count("op.persist_failed");
                self.failed_persist = true;
                self.hit(p::T03 | p::T14);
                self.slots[i].taint |= p::T03;
                let sl = &self.slots[i];
                check_tree(&sl.h, &sl.m, p::T03, "contents after a failed attach")?;
                self.check_roots(1, p::T03)?;
                let before = self.failures();
                let r = match &self.slots[i].h {
                    H::D(t) => call(props, "try_attached", || go(t, &s))?,
                    _ => unreachable!(),
                };
                if self.dead() {
                    return Ok(());
                }
                match r {
                    Ok(t) => t,
                    Err(e) => {
                        ensure!(self.failures() > before, props | p::T03, "stuck-error", "attaching still fails after the store works again: {:#}", e);
                        return Ok(());
                    }
                }
            }
        };
        // keep the in-memory original now and then
        if c.chance(1, 3) {
            let m = self.slots[i].m.clone();
            let t2 = self.slots[i].taint | p::T01 | p::T12;
            let n = self.push(H::A(t), m, t2);
            self.slots.swap(i, n);
        } else {
            let old = std::mem::replace(&mut self.slots[i].h, H::A(t));
            call(p::T14, "drop of a tree", move || drop(old))?;
            self.slots[i].taint |= p::T01;
        }
        self.slots[i].base = Some(Base::new(self.slots[i].m.clone()));
        let sl = &self.slots[i];
        check_tree(&sl.h, &sl.m, sl.taint | props, "contents of an attached tree")
    }
    /// A store that is down for a long time: persisting fails very many times in a row, and the
    /// tree stays what it is (the caller goes on to persist it with the store working again)
    fn storm(&mut self, i: usize, si: usize) -> R<()> {
        let c = ctx();
        if self.slots[i].m.len() > 40 {
            return Ok(());
        }
        c.count("op.storm");
        let held = self.hold();
        let n = *c.pick(&[30u64, 300, 1100, 2200]);
        let (mut failed, mut done) = (0, 0);
        for k in 0..n {
            let at = if k % 3 == 0 { c.draw(3) } else { 0 };
            self.stores[si].s.st().plan.write_at = Some(at);
            self.stores[si].s.st().plan.write_burst = 0;
            let before = self.failures();
            let mut h = std::mem::replace(&mut self.slots[i].h, H::None);
            let r = call(p::T03, "try_reattach, many failures in a row", || match &mut h {
                H::A(t) => t.try_reattach(),
                _ => unreachable!(),
            });
            self.slots[i].h = h;
            self.quiet();
            match r? {
                Ok(_) => {
                    done += 1;
                    if done > 3 {
                        break;
                    }
                }
                Err(e) => {
                    ensure!(self.failures() > before, p::T03, "spurious-error", "persisting fails although no store operation did ({} attempts failed before): {:#}", failed, e);
                    failed += 1;
                }
            }
        }
        self.unhold(held);
        ev!("the store of tree {} is down: {} attempts to persist it fail", i, failed);
        if failed > 0 {
            self.failed_persist = true;
            self.hit(p::T03 | p::T14);
            self.slots[i].taint |= p::T03;
        }
        let sl = &self.slots[i];
        check_tree(&sl.h, &sl.m, p::T03 | sl.taint, "contents after many failed persists")
    }
    pub fn persist(&mut self, i: usize, faults: bool) -> R<Option<Vec<u8>>> {
        let c = ctx();
        let Some(si) = self.index(&self.slots[i].h) else { return Ok(None) };
        c.count("op.persist");
        let faulty = faults && c.chance(self.pf.pf, 100);
        if faulty && c.chance(1, 700) {
            self.storm(i, si)?;
        }
        if faulty {
            self.arm_writes(si);
        }
        let mut props = p::T01 | p::T05 | self.slots[i].taint & (p::T02 | p::T03 | p::T10);
        if faulty {
            props |= p::T03;
        }
        let mut before = self.failures();
        let fs = Self::fsync_failures();
        for attempt in 0..2 {
            let mut h = std::mem::replace(&mut self.slots[i].h, H::None);
            let s = self.stores[si].s.clone();
            s.st().log = true;
            s.st().writes.clear();
            s.st().reads.clear();
            let r = call(props, "try_reattach", || match &mut h {
                H::A(t) => t.try_reattach(),
                _ => unreachable!(),
            });
            self.slots[i].h = h;
            s.st().log = false;
            let writes = std::mem::take(&mut s.st().writes);
            let r = r?;
            self.quiet();
            if self.dead() {
                return Ok(None);
            }
            match r {
                Ok(id) => {
                    self.check_writes(i, &writes)?;
                    self.slots[i].base = Some(Base::new(self.slots[i].m.clone()));
                    let id = id.to_vec();
                    ev!("persisted tree {} in store {} as {}", i, si, hex(&id));
                    ctx().note(ctx::hash_bytes(3, &id));
                    let sl = &mut self.slots[i];
                    sl.taint |= p::T01;
                    let m = sl.m.clone();
                    check_tree(&sl.h, &m, props, "contents of a tree that was just persisted")?;
                    check_shape(&sl.h, &m, props)?;
                    if Self::fsync_failures() > fs {
                        self.stores[si].nosync = true;
                    }
                    self.roots.push(Root { store: si, id: id.clone(), m, synced: false });
                    if self.roots.len() > 24 {
                        let k = ctx().draw(20) as usize;
                        self.roots.remove(k);
                    }
                    if let Some(b) = &self.stores[si].s.st().broken {
                        return fail(p::S04 | props, "id-reused", b.clone());
                    }
                    let n = self.roots.len() - 1;
                    if attempt == 1 || c.chance(1, 3) {
                        self.verify_root(n, props)?;
                    }
                    return Ok(Some(id));
                }
                Err(e) => {
                    ensure!(self.failures() > before, props | p::T03, "spurious-error", "persisting fails although no store operation did: {:#}", e);
                    if attempt == 1 {
                        return Ok(None);
                    }
                    c.count("op.persist_failed");
                    self.failed_persist = true;
                    self.hit(p::T03 | p::T14);
                    ev!("persist failed: {}", e);
                    props |= p::T03;
                    self.slots[i].taint |= p::T03;
                    let sl = &self.slots[i];
                    check_tree(&sl.h, &sl.m, p::T03 | sl.taint, "contents after a failed persist")?;
                    check_shape(&sl.h, &sl.m, p::T03)?;
                    self.check_roots(1, p::T03 | p::T02)?;
                    if c.chance(1, 4) {
                        // not retried at once
                        return Ok(None);
                    }
                    before = self.failures();
                }
            }
        }
        Ok(None)
    }
    pub fn load_root(&mut self, n: usize, props: Props) -> R<Option<H>> {
        let r = &self.roots[n];
        let s = self.stores[r.store].s.clone();
        let id = r.id.clone();
        let what = format!("loading root {} of store {}", hex(&id), r.store);
        let t = call(props | p::T01 | p::T02, &what, move || RadixTree::try_load(s, Some(id)))?;
        if self.dead() {
            return Ok(None);
        }
        match t {
            Ok(t) => Ok(Some(H::A(t))),
            Err(e) => fail(props | p::T01 | p::T02, "load", format!("{} fails: {:#}", what, e)),
        }
    }
    pub fn reload(&mut self, i: usize) -> R<()> {
        let Some(n) = self.roots.iter().rposition(|r| r.m == self.slots[i].m) else { return Ok(()) };
        let Some(h) = self.load_root(n, self.ctxp())? else { return Ok(()) };
        let old = std::mem::replace(&mut self.slots[i].h, h);
        call(p::T14, "drop of a tree", move || drop(old))?;
        self.slots[i].taint |= p::T01 | p::T02;
        self.slots[i].base = Some(Base::new(self.slots[i].m.clone()));
        let s = &self.slots[i];
        check_tree(&s.h, &s.m, s.taint | self.ctxp(), "contents of a loaded tree")
    }
    /// properties in play because of what happened to the process
    pub fn ctxp(&self) -> Props {
        let mut x = 0;
        if self.crashed {
            x |= p::S01 | p::T01 | p::T02;
        }
        if self.powered {
            x |= p::S02 | p::T01 | p::T02;
        }
        if self.failed_persist {
            x |= p::T03;
        }
        x
    }
    /// A persisted root still denotes what it denoted
    pub fn verify_root(&mut self, n: usize, props: Props) -> R<()> {
        let props = props | p::T02 | p::T01 | self.ctxp();
        ctx().count("op.verify_root");
        let Some(h) = self.load_root(n, props)? else { return Ok(()) };
        let what = format!("root {} of store {}", hex(&self.roots[n].id), self.roots[n].store);
        self.hit(p::T02 | p::T01);
        check_tree(&h, &self.roots[n].m, props, &what)?;
        check_shape(&h, &self.roots[n].m, props)?;
        if ctx().chance(1, 3) {
            let m = &self.roots[n].m;
            if let H::A(t) = &h {
                let d = call(props, "try_detached", || t.try_detached())?;
                match d {
                    Ok(d) => {
                        let fresh = build(m);
                        let eq = call(props | p::T13, "eq", || d == fresh)?;
                        let d = H::D(d);
                        check_tree(&d, m, props, &format!("{}, detached", what))?;
                        ensure!(eq, props | p::T13, "detached-not-equal", "{}: detached it does not equal the tree that was persisted: {}", what, show_map(m));
                        check_shape(&d, m, props)?;
                        call(p::T14, "drop", move || drop((d, fresh)))?;
                    }
                    Err(e) => {
                        if !self.dead() {
                            return fail(props, "spurious-error", format!("detaching {} fails without a fault: {:#}", what, e));
                        }
                    }
                }
            }
        }
        call(p::T14, "drop of a tree", move || drop(h))?;
        self.decode(n)
    }
    /// The stored bytes mean the same to an independent decoder
    pub fn decode(&self, n: usize) -> R<()> {
        let r = &self.roots[n];
        let si = &self.stores[r.store];
        ctx().count("op.decode");
        self.hit(p::T04);
        let bad = |e: String| -> R<()> { fail(p::T04 | self.ctxp(), "format", format!("root {} of store {}: {} (contents {})", hex(&r.id), r.store, e, show_map(&r.m))) };
        let root = match raw(si, &r.id) {
            Ok(x) => x,
            Err(e) => return bad(e),
        };
        let t = match trie::decode_root(&root, &mut |id| raw(si, id).map_err(|e| format!("blob {}: {}", hex(id), e))) {
            Ok(t) => t,
            Err(e) => return bad(format!("stored bytes do not follow the format: {} (root record {})", e, hex(&root))),
        };
        if t.contents() != r.m {
            return bad(format!("stored bytes denote {}", show_map(&t.contents())));
        }
        ensure!(t.to_trie() == trie::canonical(&r.m), p::T13 | p::T04, "not-canonical", "root {}: the stored tree is not the canonical one for {}", hex(&r.id), show_map(&r.m));
        Ok(())
    }
    pub fn check_roots(&mut self, k: u64, props: Props) -> R<()> {
        for _ in 0..k {
            if self.dead() || self.roots.is_empty() {
                return Ok(());
            }
            let n = ctx().draw(self.roots.len() as u64) as usize;
            self.verify_root(n, props)?;
        }
        Ok(())
    }

    // ------------------------------------------------------------------------- crash, restart

    fn restart(&mut self, how: Restart) -> R<()> {
        let c = ctx();
        for s in &self.stores {
            s.s.st().dead = true;
            if let Some(d) = s.disk {
                disk::kill(d);
            }
        }
        match how {
            Restart::Process => {
                c.count("fault.process_crash");
                self.crashed = true;
            }
            Restart::Power => {
                c.count("fault.power_cut");
                self.powered = true;
            }
        }
        ev!("restart of the process after {:?} failure", how);
        let slots = std::mem::take(&mut self.slots);
        let iters = std::mem::take(&mut self.iters);
        let held = std::mem::take(&mut self.held);
        let keys = std::mem::take(&mut self.keys);
        call(p::T14, "drop of everything", move || drop((slots, iters, held, keys)))?;
        self.bring_up(how)
    }
    /// Orderly end and start of the process
    fn reopen(&mut self) -> R<()> {
        ctx().count("op.reopen");
        ev!("close and reopen everything");
        let slots = std::mem::take(&mut self.slots);
        let iters = std::mem::take(&mut self.iters);
        call(p::T14, "drop of everything", move || drop((slots, iters)))?;
        self.check_held()?;
        let held = std::mem::take(&mut self.held);
        let keys = std::mem::take(&mut self.keys);
        call(p::T14, "drop of everything", move || drop((held, keys)))?;
        self.bring_up(Restart::Process)
    }
    fn bring_up(&mut self, how: Restart) -> R<()> {
        let c = ctx();
        let mut lost = vec![];
        for i in 0..self.stores.len() {
            let tag = self.stores[i].tag;
            let disk = self.stores[i].disk;
            let page = self.stores[i].page;
            let st = self.stores[i].s.st();
            let old = std::mem::replace(&mut st.kind, Kind::Mem(MemStore::default()));
            let mut ledger = std::mem::take(&mut st.ledger);
            let max = st.max_blob;
            let kind = match old {
                Kind::Ref(mut r) => {
                    if how == Restart::Power {
                        for id in std::mem::take(&mut r.unsynced) {
                            if c.chance(1, 2) {
                                r.map.remove(&id);
                                ledger.remove(&id);
                                c.count("fault.power.blobs_lost");
                            }
                        }
                    }
                    Kind::Ref(r)
                }
                Kind::Mem(m) => {
                    call(p::T14, "drop of a store", move || drop(m))?;
                    ledger.clear();
                    lost.push(i);
                    Kind::Mem(MemStore::default())
                }
                k => {
                    call(p::T14, "drop of a store", move || drop(k))?;
                    let d = disk.unwrap();
                    if how == Restart::Power {
                        // ids of blobs that were lost are used again
                        ledger.clear();
                    }
                    disk::disarm(d);
                    disk::restart(d, how);
                    // what lies on the disk, before the library has looked at it
                    let mut k = 0;
                    for n in 0..self.roots.len() {
                        if self.roots[n].store == i && (how == Restart::Process || self.roots[n].synced) && k < 3 {
                            k += 1;
                            c.count("op.decode_crash_image");
                            self.decode(n)?;
                        }
                    }
                    match call(p::S01 | p::S02 | p::T01, "open", || open_paged(d, page, tag))? {
                        Ok(k) => k,
                        Err(e) => return fail(p::S01 | p::S02 | p::T01, "open", format!("the file cannot be opened after a restart: {:#}", e)),
                    }
                }
            };
            let s = SimStore::new(i, kind, disk, max);
            s.st().ledger = ledger;
            let si = &mut self.stores[i];
            si.s = s;
            if how == Restart::Power {
                si.nosync = false;
            }
        }
        self.roots.retain(|r| !lost.contains(&r.store) && (how == Restart::Process || r.synced));
        if how == Restart::Power {
            // everything that survived a power cut is on the disk
            for r in self.roots.iter_mut() {
                r.synced = true;
            }
        }
        // what the new process finds
        let k = self.roots.len().min(3);
        for j in 0..k {
            let n = if self.roots.len() <= 3 { j } else { c.draw(self.roots.len() as u64) as usize };
            self.verify_root(n, p::T01 | p::T02)?;
            if let Some(h) = self.load_root(n, p::T01)? {
                let m = self.roots[n].m.clone();
                let i = self.push(h, m.clone(), p::T01 | p::T02);
                self.slots[i].base = Some(Base::new(m));
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------------------------- run

    fn check_held(&mut self) -> R<()> {
        for (k, v) in &self.keys {
            ensure!(k.as_ref() == &v[..], p::T08 | p::T12 | p::T14, "key-changed", "a key handed out by an iterator changed from {} to {}", show(v), show(k.as_ref()));
        }
        for (v, d) in &self.held {
            let r = call(p::T12 | p::T14, "loading of a held value", || v.load())?;
            match r {
                Ok(x) => ensure!(&x == d, p::T12 | p::T14, "held-value", "a value taken out earlier changed from {} to {}", show(d), show(&x)),
                Err(e) => {
                    if v.store().map(|s| s.is_dead()).unwrap_or(false) {
                        continue;
                    }
                    return fail(p::T12, "held-value", format!("a value taken out earlier ({}) cannot be loaded any more: {:#}", show(d), e));
                }
            }
        }
        Ok(())
    }

    pub fn go(&mut self) -> R<()> {
        let c = ctx();
        self.new_tree()?;
        let n = c.range(1, self.pf.max_ops);
        for _ in 0..n {
            c.span_start();
            let r = self.step();
            c.span_end();
            r?;
        }
        self.finish()
    }
    pub fn finish(&mut self) -> R<()> {
        let c = ctx();
        self.quiet();
        if self.dead() {
            self.restart(Restart::Process)?;
        } else if self.pf.power > 0 && c.chance(1, 6) {
            self.restart(Restart::Power)?;
        } else if self.pf.crash > 0 && c.chance(1, 6) {
            self.restart(Restart::Process)?;
        }
        for i in 0..self.slots.len() {
            let s = &self.slots[i];
            check_tree(&s.h, &s.m, s.taint | p::T12, &format!("tree {} at the end", i))?;
        }
        for n in 0..self.roots.len() {
            self.verify_root(n, 0)?;
        }
        self.check_held()?;
        if self.slots.len() > 2 {
            self.hit(p::T14);
        }
        Ok(())
    }

    fn step(&mut self) -> R<()> {
        let c = ctx();
        let pf = self.pf;
        let q = [1000 - pf.crash - pf.power - pf.reopen, pf.crash, pf.power, pf.reopen].map(|x| x as u32);
        match c.weighted(&q) {
            0 => self.op(),
            3 => self.reopen(),
            m => {
                let how = if m == 1 { Restart::Process } else { Restart::Power };
                if !self.stores.is_empty() {
                    let i = self.pick_store();
                    match self.stores[i].disk {
                        Some(d) if c.chance(1, 2) => disk::arm_crash(d, c.draw(30)),
                        _ => self.stores[i].s.st().crash_at = Some(c.draw(20)),
                    }
                }
                let k = c.range(1, 4);
                for _ in 0..k {
                    if self.dead() {
                        break;
                    }
                    c.span_start();
                    let r = self.op();
                    c.span_end();
                    r?;
                }
                self.restart(how)
            }
        }
    }

    /// A store gets old: very many other blobs come into it
    fn age(&mut self) -> R<()> {
        let c = ctx();
        let i = self.pick_store();
        if self.stores[i].tag == Tag::Ref {
            return Ok(());
        }
        c.count("op.age");
        let held = self.hold();
        let n = *c.pick(&[270u64, 300, 1100, 1100, 2600, 5000]);
        let len = c.draw(24) as usize;
        let s = self.stores[i].s.clone();
        let tracing = std::mem::replace(&mut c.tracing, false);
        let mut r = Ok(vec![]);
        for k in 0..n {
            let mut d = k.to_le_bytes().to_vec();
            d.resize(len, 7);
            r = call(p::S04 | p::T02, "write", || s.write(&d))?;
            if r.is_err() || s.st().broken.is_some() {
                break;
            }
        }
        c.tracing = tracing;
        self.unhold(held);
        if let Err(e) = &r {
            return fail(p::S04 | p::T02, "write-error", format!("a store refuses a blob of {} bytes: {:#}", len, e));
        }
        ev!("{} other blobs of {} bytes come into store {}", n, len, i);
        if let Some(b) = &s.st().broken {
            return fail(p::S04 | p::S05 | p::T02 | p::T12 | self.ctxp(), "id-reused", b.clone());
        }
        self.check_roots(1, p::T02 | self.ctxp())
    }
    fn op(&mut self) -> R<()> {
        let c = ctx();
        if !self.stores.is_empty() && c.chance(1, 5000) && !self.dead() {
            self.age()?;
            if self.dead() {
                return Ok(());
            }
        }
        let w: Vec<u32> = self.pf.w.iter().map(|x| x.1).collect();
        let op = self.pf.w[c.weighted(&w)].0;
        if self.slots.len() > 6 {
            let i = c.draw(self.slots.len() as u64) as usize;
            self.drop_slot(i)?;
        }
        self.run_op(op)?;
        if c.chance(1, 6) && !self.dead() {
            self.check_held()?;
        }
        Ok(())
    }

    pub fn sto(&self, h: &[&H]) -> Vec<usize> {
        let mut v: Vec<usize> = h.iter().filter_map(|h| self.index(h)).collect();
        v.dedup();
        v
    }

    pub fn run_op(&mut self, op: Op) -> R<()> {
        let c = ctx();
        match op {
            Op::New => self.new_tree(),
            Op::Insert => {
                let i = self.pick()?;
                let k = if c.chance(1, 2) { let m = std::mem::take(&mut self.slots[i].m); let k = self.g.probe(&m); self.slots[i].m = m; k } else { self.g.key() };
                let v = self.g.value();
                ev!("tree {}: insert {} -> {}", i, show(&k), show(&v));
                c.count("op.insert");
                let mut m = self.slots[i].m.clone();
                m.insert(k.clone(), v.clone());
                self.hit(p::T05);
                let st = self.sto(&[&self.slots[i].h]);
                self.touch = Some(vec![(k.clone(), false)]);
                self.mutate(i, &st, p::T05, "insert", m, None, false, |h| sut::insert(h, &k, &v))
            }
            Op::Fan => {
                let i = self.pick()?;
                let es = self.g.fan();
                c.count("op.fan");
                ev!("tree {}: insert {} keys starting at {}", i, es.len(), show(&es[0].0));
                let st = self.sto(&[&self.slots[i].h]);
                let _ = st;
                let mut m = self.slots[i].m.clone();
                let last = es.len() - 1;
                for (n, (k, v)) in es.iter().enumerate() {
                    m.insert(k.clone(), v.clone());
                    if n == last {
                        break;
                    }
                    let mut h = std::mem::replace(&mut self.slots[i].h, H::None);
                    let r = call(p::T05, "insert", || sut::insert(&mut h, k, v));
                    self.slots[i].h = h;
                    let r = r?;
                    if self.dead() {
                        return Ok(());
                    }
                    if let Err(e) = r {
                        return fail(p::T05 | p::T10, "spurious-error", format!("insert fails without a fault: {:#}", e));
                    }
                    self.slots[i].m.insert(k.clone(), v.clone());
                }
                self.mutate(i, &[], p::T05, "insert", m, None, false, |h| sut::insert(h, &es[last].0, &es[last].1))
            }
            Op::Remove => {
                let i = self.pick()?;
                let k = self.g.probe(&self.slots[i].m.clone());
                ev!("tree {}: remove {}", i, show(&k));
                c.count("op.remove");
                let mut m = self.slots[i].m.clone();
                if m.remove(&k).is_some() {
                    self.hit(p::T05);
                }
                let st = self.sto(&[&self.slots[i].h]);
                self.touch = Some(vec![(k.clone(), true)]);
                self.mutate(i, &st, p::T05, "remove", m, None, false, |h| sut::remove(h, &k))
            }
            Op::RemovePrefix => {
                let i = self.pick()?;
                let q = self.g.prefix(&self.slots[i].m.clone());
                ev!("tree {}: remove prefix {}", i, show(&q));
                c.count("op.remove_prefix");
                let mut m = self.slots[i].m.clone();
                let n = m.len();
                m.retain(|k, _| !k.starts_with(&q));
                if m.len() < n {
                    self.hit(p::T07);
                }
                let st = self.sto(&[&self.slots[i].h]);
                let mut t: Vec<_> = with_prefix(&self.slots[i].m, &q).into_keys().map(|k| (k, true)).collect();
                t.push((q.clone(), true));
                self.touch = Some(t);
                self.mutate(i, &st, p::T07, "remove_prefix", m, None, false, |h| sut::remove_prefix(h, &q))
            }
            Op::CombineWith => {
                let i = self.pick()?;
                let b = self.operand(i)?;
                let stored = self.op_stored;
                let join = *c.pick(&[Join::Outer, Join::Inner, Join::Left]);
                let comb = *c.pick(&sut::COMBS);
                let ident = c.chance(1, 2);
                let same = ident && (matches!((&self.slots[i].h, &b.0), (H::D(_), H::D(_))) || self.index(&self.slots[i].h).is_some() && self.index(&self.slots[i].h) == self.index(&b.0));
                let log = Log::new(c.chance(3, 4));
                let (m, calls) = model_combine(&self.slots[i].m, &b.1, join, comb);
                ev!("tree {}: {:?} combine in place with {} tree {} by {:?}{}", i, join, if b.0.attached() { "a stored" } else { "an in-memory" }, show_map(&b.1), comb, if same { ", sharing" } else { "" });
                c.count("op.combine_with");
                if !self.slots[i].m.is_empty() && !b.1.is_empty() {
                    self.hit(p::T06);
                }
                // an in-memory target cannot report failures
                let st = if self.slots[i].h.attached() { self.sto(&[&self.slots[i].h, &b.0]) } else { vec![] };
                let cb = self.slots[i].h.attached();
                let bh = b.0;
                // the walk through the operand starts at its root
                let root = trie::canonical(&b.1).prefix;
                let gone = self.slots[i].m.keys().filter(|k| !m.contains_key(*k));
                self.touch = Some(b.1.keys().chain([&root]).chain(gone).map(|k| (k.clone(), true)).collect());
                if stored && same && join == Join::Outer && self.slots[i].h.attached() {
                    self.touch_extra = Some(b.1.clone());
                }
                self.mutate(i, &st, p::T06, "combine_with", m, Some(&log), cb, |h| sut::combine_with(h, &bh, join, comb, &log, same))?;
                if !self.dead() {
                    self.check_calls(&log, calls, p::T06)?;
                    check_tree(&bh, &b.1, p::T06 | p::T12, "the other operand after a combination")?;
                }
                self.keep_or_drop(bh, b.1, p::T06)
            }
            Op::Combine => {
                let i = self.pick()?;
                let b = self.operand(i)?;
                let join = *c.pick(&[Join::Outer, Join::Inner, Join::Left]);
                let comb = *c.pick(&sut::COMBS);
                let (m, calls) = model_combine(&self.slots[i].m, &b.1, join, comb);
                ev!("tree {}: {:?} combine with {} by {:?}", i, join, show_map(&b.1), comb);
                c.count("op.combine");
                if !self.slots[i].m.is_empty() && !b.1.is_empty() {
                    self.hit(p::T06);
                }
                let st = self.sto(&[&self.slots[i].h, &b.0]);
                let log = Log::new(true);
                let faulty = c.chance(self.pf.qf, 100);
                if faulty {
                    if c.chance(1, 3) {
                        log.fail_at.set(Some(c.draw(4)));
                    } else {
                        self.arm_reads(&st);
                    }
                }
                let fp = p::T06 | if faulty { p::T09 } else { 0 };
                let before = self.failures();
                let a = &self.slots[i].h;
                let panics = c.chance(self.pf.cp, 100);
                if panics {
                    let n = *c.pick(&[1u64, 3, 8]);
                    log.panic_at.set(Some(c.draw(n)));
                }
                let r = call_unwinding(fp | if panics { p::T14 } else { 0 }, "combine", || sut::combine(a, &b.0, join, comb, &log))?;
                self.quiet();
                log.panic_at.set(None);
                log.fail_at.set(None);
                let mut r = match r {
                    Some(r) => r,
                    None => {
                        // the callback panicked; the operands are only borrowed
                        log.calls.borrow_mut().clear();
                        self.hit(p::T14);
                        call(fp | p::T14, "combine", || sut::combine(a, &b.0, join, comb, &log))?
                    }
                };
                if self.dead() {
                    return Ok(());
                }
                if let Err(e) = &r {
                    ensure!(self.failures() > before || log.failed.get() > 0, fp | p::T09, "spurious-error", "combine fails without a fault: {:#}", e);
                    self.hit(p::T09);
                    c.count("op.query_failed");
                    log.calls.borrow_mut().clear();
                    let a = &self.slots[i].h;
                    r = call(fp, "combine", || sut::combine(a, &b.0, join, comb, &log))?;
                    if self.dead() {
                        return Ok(());
                    }
                }
                match r {
                    Ok(t) => {
                        let h = H::D(t);
                        check_tree(&h, &m, fp, "the result of a combination")?;
                        check_shape(&h, &m, fp)?;
                        self.check_calls(&log, calls, p::T06)?;
                        let a = &self.slots[i];
                        check_tree(&a.h, &a.m, p::T06 | p::T12, "the left operand after a combination")?;
                        check_tree(&b.0, &b.1, p::T06 | p::T12, "the right operand after a combination")?;
                        self.keep_or_drop(h, m, p::T06)?;
                    }
                    Err(e) => return fail(fp | p::T09, "stuck-error", format!("combine fails although all faults are gone: {:#}", e)),
                }
                self.keep_or_drop(b.0, b.1, p::T06)
            }
            Op::CombinePred => {
                let i = self.pick()?;
                let b = self.operand(i)?;
                let inner = c.chance(1, 2);
                let pr = *c.pick(&[Pred::Never, Pred::Equal, Pred::OddLeft, Pred::Always]);
                let a = &self.slots[i].m;
                let exp = a.iter().any(|(k, v)| match b.1.get(k) {
                    Some(w) => pr.at(v, w),
                    None => !inner,
                });
                ev!("tree {}: {} predicate {:?} with {}", i, if inner { "inner" } else { "left" }, pr, show_map(&b.1));
                c.count("op.combine_pred");
                if !a.is_empty() && !b.1.is_empty() {
                    self.hit(p::T06);
                }
                let st = self.sto(&[&self.slots[i].h, &b.0]);
                let log = Log::new(true);
                let m = self.slots[i].m.clone();
                let h = self.slots[i].h.dup();
                self.query(&st, p::T06, "combine_pred", &exp, || {
                    log.calls.borrow_mut().clear();
                    sut::combine_pred(&h, &b.0, inner, pr, &log)
                })?;
                // it may stop early, but must not invent calls
                let calls = log.calls.borrow();
                for (l, r) in calls.iter() {
                    let ok = m.iter().any(|(k, v)| v == l && b.1.get(k) == Some(r));
                    ensure!(ok, p::T06, "calls", "the predicate was called with ({}, {}), which no key maps to", show(l), show(r));
                }
                drop(calls);
                call(p::T14, "drop of a tree", move || drop(h))?;
                self.keep_or_drop(b.0, b.1, p::T06)
            }
            Op::PrefixEdit => {
                let i = self.pick()?;
                let b = if c.chance(1, 2) {
                    // prefixes of this tree's keys
                    let n = c.range(1, 4);
                    let m0 = self.slots[i].m.clone();
                    let mut m = Map::new();
                    for _ in 0..n {
                        let q = self.g.prefix(&m0);
                        let v = self.g.value_of(c.draw(4) as usize);
                        m.insert(q, v);
                    }
                    self.tree_of(m)?
                } else {
                    self.operand(i)?
                };
                let retain = c.chance(1, 2);
                let pr = *c.pick(&[Pred::Always, Pred::OddLeft, Pred::Never]);
                let m = model_prefix_edit(&self.slots[i].m, &b.1, retain, pr);
                ev!("tree {}: {} the prefixes of {} {} by {:?}", i, if retain { "retain" } else { "remove" }, if b.0.attached() { "a stored tree" } else { "an in-memory tree" }, show_map(&b.1), pr);
                c.count("op.prefix_edit");
                if !self.slots[i].m.is_empty() && !b.1.is_empty() {
                    self.hit(p::T07);
                }
                let st = if self.slots[i].h.attached() { self.sto(&[&self.slots[i].h, &b.0]) } else { vec![] };
                let cb = self.slots[i].h.attached();
                let log = Log::new(false);
                let bh = b.0;
                let root = trie::canonical(&b.1).prefix;
                let gone = self.slots[i].m.keys().filter(|k| !m.contains_key(*k));
                self.touch = Some(b.1.keys().chain([&root]).chain(gone).map(|k| (k.clone(), true)).collect());
                self.mutate(i, &st, p::T07, if retain { "retain_prefix_with" } else { "remove_prefix_with" }, m, Some(&log), cb, |h| sut::prefix_edit(h, &bh, retain, pr, &log))?;
                if !self.dead() {
                    check_tree(&bh, &b.1, p::T07 | p::T12, "the other operand after a prefix edit")?;
                }
                self.keep_or_drop(bh, b.1, p::T07)
            }
            Op::Attach => {
                let i = self.pick()?;
                if self.stores.is_empty() || self.slots[i].h.attached() {
                    return Ok(());
                }
                self.attach(i, true)
            }
            Op::Persist => {
                let i = self.pick()?;
                if self.stores.is_empty() {
                    return Ok(());
                }
                self.to_store(i, true)?;
                if i < self.slots.len() && !self.dead() && c.chance(1, 3) {
                    self.reload(i)?;
                }
                Ok(())
            }
            Op::Load => {
                if self.roots.is_empty() {
                    return Ok(());
                }
                let n = c.draw(self.roots.len() as u64) as usize;
                if let Some(h) = self.load_root(n, self.ctxp())? {
                    ev!("tree {} = load {} from store {}", self.slots.len(), hex(&self.roots[n].id), self.roots[n].store);
                    let m = self.roots[n].m.clone();
                    let i = self.push(h, m.clone(), p::T01 | p::T02);
                    self.slots[i].base = Some(Base::new(m));
                    self.hit(p::T01 | p::T02);
                }
                Ok(())
            }
            Op::Detach => {
                let i = self.pick()?;
                if !self.slots[i].h.attached() {
                    return Ok(());
                }
                c.count("op.detach");
                let st = self.sto(&[&self.slots[i].h]);
                let faulty = c.chance(self.pf.qf, 100);
                if faulty {
                    self.arm_reads(&st);
                }
                let before = self.failures();
                let fp = p::T01 | p::T05 | if faulty { p::T09 } else { 0 };
                let go = |h: &H| match h {
                    H::A(t) => t.try_detached(),
                    _ => unreachable!(),
                };
                let mut r = call(fp, "try_detached", || go(&self.slots[i].h))?;
                self.quiet();
                if self.dead() {
                    return Ok(());
                }
                if let Err(e) = &r {
                    ensure!(self.failures() > before, fp | p::T09, "spurious-error", "detaching fails without a fault: {:#}", e);
                    self.hit(p::T09);
                    c.count("op.query_failed");
                    r = call(fp, "try_detached", || go(&self.slots[i].h))?;
                    if self.dead() {
                        return Ok(());
                    }
                }
                match r {
                    Ok(t) => {
                        ev!("tree {} = detach of tree {}", self.slots.len(), i);
                        let h = H::D(t);
                        let m = self.slots[i].m.clone();
                        check_tree(&h, &m, fp | self.slots[i].taint, "a detached tree")?;
                        check_shape(&h, &m, fp)?;
                        self.hit(p::T01);
                        let t = self.slots[i].taint | p::T01;
                        self.push(h, m, t);
                        Ok(())
                    }
                    Err(e) => fail(fp | p::T09, "stuck-error", format!("detaching fails although all faults are gone: {:#}", e)),
                }
            }
            Op::Clone => {
                let i = self.pick()?;
                let h = call(p::T12, "clone", || self.slots[i].h.dup())?;
                ev!("tree {} = clone of tree {}", self.slots.len(), i);
                let m = self.slots[i].m.clone();
                let t = self.slots[i].taint | p::T12;
                self.slots[i].taint |= p::T12;
                let base = self.slots[i].base.clone();
                let n = self.push(h, m, t);
                self.slots[n].base = base;
                self.hit(p::T12);
                Ok(())
            }
            Op::Drop => {
                let i = self.pick()?;
                ev!("drop tree {}", i);
                self.drop_slot(i)?;
                self.check_other(usize::MAX, p::T12 | p::T14)
            }
            Op::Get => {
                let i = self.pick()?;
                let k = self.g.probe(&self.slots[i].m.clone());
                c.count("op.get");
                let h = self.slots[i].h.dup();
                let m = self.slots[i].m.clone();
                let st = self.sto(&[&h]);
                let props = p::T05 | self.slots[i].taint;
                self.hit(p::T05);
                let what = format!("get({})", show(&k));
                self.query(&st, props, &what, &m.get(&k).cloned(), || sut::get(&h, &k))?;
                let what = format!("contains_key({})", show(&k));
                self.query(&st, props, &what, &m.contains_key(&k), || sut::contains(&h, &k))?;
                call(p::T14, "drop of a tree", move || drop(h))
            }
            Op::Iter => {
                let i = self.pick()?;
                c.count("op.iterate");
                let h = self.slots[i].h.dup();
                let m = self.slots[i].m.clone();
                let st = self.sto(&[&h]);
                let props = p::T08 | self.slots[i].taint;
                self.hit(p::T08);
                let exp = list(&m);
                match c.draw(3) {
                    0 => self.query_seq(&st, props, "iteration", &exp, show_kv, || sut::iter(&h, exp.len() + 4, true))?,
                    1 => {
                        let exp: Vec<Vec<u8>> = m.values().cloned().collect();
                        self.query_seq(&st, props, "iteration of values", &exp, |v| show(v), || sut::values(&h, exp.len() + 4))?
                    }
                    _ => {
                        if let H::D(t) = &h {
                            let r = call(props, "iteration", || sut::plain_iter(t, exp.len() + 4))?;
                            ensure!(r == exp, props, "wrong-item", "iter() gives {} items {:?}, expected {}", r.len(), r.iter().take(10).map(show_kv).collect::<Vec<_>>(), show_map(&m));
                        } else {
                            let exp: Vec<KV> = m.keys().map(|k| (k.clone(), vec![])).collect();
                            self.query_seq(&st, props, "iteration of keys", &exp, show_kv, || sut::iter(&h, exp.len() + 4, false))?
                        }
                    }
                }
                call(p::T14, "drop of a tree", move || drop(h))
            }
            Op::PrefixQuery => {
                let i = self.pick()?;
                let q = self.g.prefix(&self.slots[i].m.clone());
                c.count("op.prefix_query");
                let h = self.slots[i].h.dup();
                let m = self.slots[i].m.clone();
                let st = self.sto(&[&h]);
                let sel = with_prefix(&m, &q);
                if !m.is_empty() {
                    self.hit(p::T07);
                }
                let what = format!("has_prefix({}) on {}", show(&q), show_map(&m));
                self.query(&st, p::T07, &what, &!sel.is_empty(), || sut::has_prefix(&h, &q))?;
                if !self.dead() {
                    let exp = list(&sel);
                    let what = format!("scan_prefix({}) on {}", show(&q), show_map(&m));
                    self.query_seq(&st, p::T07, &what, &exp, show_kv, || sut::scan(&h, &q, exp.len() + 4, true))?;
                }
                call(p::T14, "drop of a tree", move || drop(h))
            }
            Op::FilterPrefix => {
                let i = self.pick()?;
                let q = self.g.prefix(&self.slots[i].m.clone());
                let sub = if c.chance(1, 2) { q.clone() } else { self.g.key() };
                c.count("op.filter_prefix");
                let m: Map = with_prefix(&self.slots[i].m, &q)
                    .into_iter()
                    .map(|(k, v)| {
                        let mut n = sub.clone();
                        n.extend_from_slice(&k[q.len()..]);
                        (n, v)
                    })
                    .collect();
                let st = self.sto(&[&self.slots[i].h]);
                let faulty = !st.is_empty() && c.chance(self.pf.qf, 100);
                if faulty {
                    self.arm_reads(&st);
                }
                let fp = p::T07 | if faulty { p::T09 } else { 0 };
                let before = self.failures();
                let what = format!("filter_prefix({}, {})", show(&q), show(&sub));
                let mut r = call(fp, &what, || sut::filter_prefix(&self.slots[i].h, &q, &sub))?;
                self.quiet();
                if self.dead() {
                    return Ok(());
                }
                if let Err(e) = &r {
                    ensure!(self.failures() > before, fp | p::T09, "spurious-error", "{} fails without a fault: {:#}", what, e);
                    self.hit(p::T09);
                    c.count("op.query_failed");
                    r = call(fp, &what, || sut::filter_prefix(&self.slots[i].h, &q, &sub))?;
                    if self.dead() {
                        return Ok(());
                    }
                }
                if !self.slots[i].m.is_empty() {
                    self.hit(p::T07);
                }
                match r {
                    Ok(h) => {
                        ev!("tree {} = {} of tree {}", self.slots.len(), what, i);
                        check_tree(&h, &m, fp, &format!("{} on {}", what, show_map(&self.slots[i].m)))?;
                        check_shape(&h, &m, fp)?;
                        let s = &self.slots[i];
                        check_tree(&s.h, &s.m, p::T07 | p::T12, "the source of a subtree")?;
                        let (stored, n) = (s.stored(), self.slots.len());
                        self.keep_or_drop(h, m.clone(), p::T07)?;
                        if stored && self.slots.len() > n {
                            // its root prefix is new
                            self.slots[n].base = Some(Base::new(m));
                            self.slots[n].base.as_mut().unwrap().touched.push((vec![], false));
                        }
                        Ok(())
                    }
                    Err(e) => fail(fp | p::T09, "stuck-error", format!("{} fails although all faults are gone: {:#}", what, e)),
                }
            }
            Op::GroupBy => self.group_by(),
            Op::Ends => {
                let i = self.pick()?;
                c.count("op.ends");
                let h = self.slots[i].h.dup();
                let m = self.slots[i].m.clone();
                let st = self.sto(&[&h]);
                let q = if c.chance(1, 2) { vec![] } else { self.g.key() };
                let join = |k: &Vec<u8>| {
                    let mut x = q.clone();
                    x.extend_from_slice(k);
                    x
                };
                let props = p::T08;
                self.hit(p::T08);
                match c.draw(4) {
                    0 => self.query(&st, props, "first_value", &m.values().next().cloned(), || sut::first_value(&h))?,
                    1 => self.query(&st, props, "last_value", &m.values().next_back().cloned(), || sut::last_value(&h))?,
                    2 => self.query(&st, props, "first_entry", &m.iter().next().map(|(k, v)| (join(k), v.clone())), || sut::first_entry(&h, &q))?,
                    _ => self.query(&st, props, "last_entry", &m.iter().next_back().map(|(k, v)| (join(k), v.clone())), || sut::last_entry(&h, &q))?,
                }
                call(p::T14, "drop of a tree", move || drop(h))
            }
            Op::Inspect => {
                let i = self.pick()?;
                c.count("op.inspect");
                let h = self.slots[i].h.dup();
                let st = self.sto(&[&h]);
                let how = c.draw(4);
                let what = ["debug output of a tree", "debug output of values", "debug output of nodes", "dump"][how as usize];
                self.query(&st, p::T09, what, &true, || sut::inspect(&h, how))?;
                call(p::T14, "drop of a tree", move || drop(h))
            }
            Op::Sync => {
                if self.stores.is_empty() {
                    return Ok(());
                }
                let i = self.pick_store();
                c.count("op.sync");
                if c.chance(self.pf.pf, 400) {
                    self.stores[i].s.st().plan.sync_fails = 1;
                } else if c.chance(self.pf.pf, 400) {
                    if let Some(d) = self.stores[i].disk {
                        disk::disk(d).faults = disk::Faults { rate: 0, arm: Some(0), burst: 0, kinds: disk::F_SYNC, cap: u64::MAX };
                    }
                }
                let s = self.stores[i].s.clone();
                let fs = Self::fsync_failures();
                let before = self.failures();
                let r = call(p::S02 | p::T01, "sync", move || s.sync())?;
                self.quiet();
                if self.dead() {
                    return Ok(());
                }
                ev!("sync of store {}: {}", i, r.is_ok());
                if Self::fsync_failures() > fs {
                    self.stores[i].nosync = true;
                }
                match r {
                    Ok(()) => {
                        if !self.stores[i].nosync {
                            for r in self.roots.iter_mut().filter(|r| r.store == i) {
                                r.synced = true;
                            }
                        }
                    }
                    Err(e) => ensure!(self.failures() > before, p::S02 | p::T01, "spurious-error", "sync fails without a fault: {:#}", e),
                }
                Ok(())
            }
            Op::Equality => {
                let i = self.pick()?;
                let s = &self.slots[i];
                check_shape(&s.h, &s.m, s.taint)?;
                let H::D(a) = &s.h else { return Ok(()) };
                c.count("op.equality");
                self.hit(p::T13);
                let t = build(&s.m);
                let eq = call(p::T13, "eq", || *a == t && t == *a)?;
                ensure!(eq, p::T13 | s.taint, "not-equal", "a tree with contents {} does not equal a freshly built one", show_map(&s.m));
                call(p::T14, "drop", move || drop(t))?;
                for s2 in &self.slots {
                    if let H::D(b) = &s2.h {
                        let eq = call(p::T13, "eq", || a == b)?;
                        ensure!(eq == (s.m == s2.m), p::T13, "equality", "{} and {} compare {}", show_map(&s.m), show_map(&s2.m), if eq { "equal" } else { "different" });
                    }
                }
                // near misses
                if let Some((k, v)) = s.m.iter().nth(c.draw(s.m.len() as u64 + 1) as usize) {
                    let mut m2 = s.m.clone();
                    match c.draw(3) {
                        0 => {
                            m2.remove(k);
                        }
                        1 => {
                            m2.insert(k.clone(), if v.is_empty() { b"x".to_vec() } else { vec![] });
                        }
                        _ => {
                            let mut k2 = k.clone();
                            k2.push(b'a');
                            m2.insert(k2, v.clone());
                        }
                    }
                    if m2 != s.m {
                        let t = build(&m2);
                        let eq = call(p::T13, "eq", || *a == t || t == *a)?;
                        ensure!(!eq, p::T13, "equality", "{} and {} compare equal", show_map(&s.m), show_map(&m2));
                        call(p::T14, "drop", move || drop(t))?;
                    }
                }
                Ok(())
            }
            Op::IterOpen => {
                let i = self.pick()?;
                if self.iters.len() > 3 {
                    let it = self.iters.remove(0);
                    call(p::T14, "drop of an iterator", move || drop(it))?;
                }
                let s = &self.slots[i];
                let props = p::T08 | p::T12 | s.taint & p::T10;
                let mode = c.draw(3);
                let (it, m, values) = match mode {
                    0 | 1 => (call(props, "open iterator", || It::open(&s.h, mode == 1))?, s.m.clone(), mode == 1),
                    _ => {
                        let q = self.g.prefix(&s.m.clone());
                        let m = with_prefix(&s.m, &q);
                        let it = call(props | p::T07, "scan_prefix", || It::scan(&s.h, &q))?;
                        if self.dead() {
                            return Ok(());
                        }
                        match it {
                            Ok(it) => (it, m, false),
                            Err(e) => return fail(p::T07 | p::T09, "spurious-error", format!("scan_prefix fails without a fault: {:#}", e)),
                        }
                    }
                };
                ev!("open {} over tree {}", if values { "value iterator" } else { "iterator" }, i);
                self.iters.push(OpenIter { it, rest: list(&m).into(), values, props, keys: vec![] });
                Ok(())
            }
            Op::IterStep => {
                if self.iters.is_empty() {
                    return self.run_op(Op::IterOpen);
                }
                let n = c.draw(self.iters.len() as u64) as usize;
                let k = c.range(1, 3);
                for _ in 0..k {
                    if self.dead() || !self.iter_step(n)? {
                        break;
                    }
                }
                Ok(())
            }
            Op::Hold => {
                let i = self.pick()?;
                let k = self.g.probe(&self.slots[i].m.clone());
                let s = &self.slots[i];
                let r = call(p::T05 | p::T12, "get", || Val::take(&s.h, &k, c.chance(1, 2)))?;
                if self.dead() {
                    return Ok(());
                }
                match r {
                    Ok(v) => {
                        let v: Option<Val> = v;
                        ensure!(v.is_some() == s.m.contains_key(&k), p::T05, "wrong-answer", "get({}) on {}", show(&k), show_map(&s.m));
                        if let Some(v) = v {
                            let d = s.m[&k].clone();
                            let x = match v {
                                Val::B(b) => {
                                    ensure!(b.as_ref() == &d[..], p::T05 | p::T12, "wrong-answer", "the value of {} is {} instead of {}", show(&k), show(&b), show(&d));
                                    let (b, d) = crate::blobs::poke(b, &d, p::T05 | p::T12 | p::T14)?;
                                    (Val::B(b), d)
                                }
                                v => (v, d),
                            };
                            self.held.push(x);
                            self.hit(p::T12);
                            if self.held.len() > 10 {
                                let x = self.held.remove(0);
                                call(p::T14, "drop of a value", move || drop(x))?;
                            }
                        }
                        Ok(())
                    }
                    Err(e) => fail(p::T05 | p::T09, "spurious-error", format!("get({}) fails without a fault: {:#}", show(&k), e)),
                }
            }
            Op::VerifyRoot => self.check_roots(1, 0),
            Op::PathReads => self.path_reads(),
            Op::Incremental => self.incremental(),
            Op::RootId => self.root_id(),
        }
    }

    fn iter_step(&mut self, n: usize) -> R<bool> {
        let c = ctx();
        c.count("op.iterator_step");
        let st: Vec<usize> = match self.iters[n].it.store() {
            Some(s) => self.stores.iter().position(|x| x.s.same(&s)).into_iter().collect(),
            None => vec![],
        };
        let faulty = !st.is_empty() && c.chance(self.pf.qf, 300);
        if faulty {
            self.arm_reads(&st);
        }
        let before = self.failures();
        let fp = self.iters[n].props | if faulty { p::T09 } else { 0 };
        let it = &mut self.iters[n];
        let x = call(fp, "next", || it.it.next())?;
        self.quiet();
        if self.dead() {
            return Ok(false);
        }
        let fired = self.failures() > before;
        let base = self.pf.base;
        let it = &mut self.iters[n];
        match x {
            Item::Got(k, v) => {
                let Some((ek, evv)) = it.rest.pop_front() else {
                    return fail(fp, "wrong-item", format!("an open iterator yields {:?} after its last entry", k.map(|k| show(k.as_ref()))));
                };
                if let Some(k) = k {
                    ensure!(k.as_ref() == &ek[..], fp, "wrong-item", "an open iterator yields key {} instead of {}", show(k.as_ref()), show(&ek));
                    it.keys.push((k, ek.clone()));
                }
                match v {
                    Ok(v) => ensure!(v == evv, fp | p::T05, "wrong-item", "an open iterator yields value {} instead of {} for {}", show(&v), show(&evv), show(&ek)),
                    Err(e) => ensure!(fired, fp | p::T09, "spurious-error", "a value cannot be loaded without a fault: {:#}", e),
                }
                if it.rest.is_empty() {
                    if base & (p::T08 | p::T12) != 0 {
                        ctx().mark();
                    }
                }
                for (k, e) in &it.keys {
                    ensure!(k.as_ref() == &e[..], p::T08 | p::T12, "key-changed", "key {} changed to {} as iteration went on", show(e), show(k.as_ref()));
                }
                Ok(true)
            }
            Item::End => {
                ensure!(it.rest.is_empty(), fp, "incomplete", "an open iterator ends {} entries early", it.rest.len());
                self.close_iter(n)?;
                Ok(false)
            }
            Item::Err(e) => {
                ensure!(fired, fp | p::T09, "spurious-error", "an open iterator fails without a fault: {:#}", e);
                if base & p::T09 != 0 {
                    ctx().mark();
                }
                c.count("op.query_failed");
                for _ in 0..2 {
                    let x = call(fp | p::T09, "next", || it.it.next())?;
                    ensure!(matches!(x, Item::End), fp | p::T09, "zombie", "an iterator goes on after its error");
                }
                self.close_iter(n)?;
                Ok(false)
            }
        }
    }
    fn close_iter(&mut self, n: usize) -> R<()> {
        let it = self.iters.remove(n);
        let values = it.values;
        let mut keys = it.keys;
        let i = it.it;
        call(p::T14, "drop of an iterator", move || drop(i))?;
        let _ = values;
        if !keys.is_empty() && ctx().chance(1, 3) {
            // a key as a blob, which may outlive everything else
            let props = p::T08 | p::T12 | p::T14;
            let (k, d) = keys.pop().unwrap();
            let b = call(props, "to_owned_blob", || k.to_owned_blob())?;
            call(p::T14, "drop of a key", move || drop(k))?;
            ensure!(b.as_ref() == &d[..], props, "key-changed", "key {} as a blob is {}", show(&d), show(&b));
            let (b, d) = crate::blobs::poke(b, &d, props)?;
            self.held.push((Val::B(b), d));
            if self.held.len() > 10 {
                let x = self.held.remove(0);
                call(p::T14, "drop of a value", move || drop(x))?;
            }
        }
        while self.keys.len() < 16 && !keys.is_empty() {
            self.keys.push(keys.pop().unwrap());
        }
        call(p::T14, "drop of keys", move || drop(keys))
    }

    fn group_by(&mut self) -> R<()> {
        let c = ctx();
        let i = self.pick()?;
        c.count("op.group_by");
        let d = match c.draw(4) {
            0 => Descend::Always,
            1 => Descend::Never,
            2 => Descend::UpTo(c.draw(5) as usize),
            _ => Descend::Parity,
        };
        let m = self.slots[i].m.clone();
        let mut exp = vec![];
        if !m.is_empty() {
            self.hit(p::T07);
            model_groups(&trie::canonical(&m), &mut vec![], d, &mut exp);
        }
        let st = self.sto(&[&self.slots[i].h]);
        let faulty = !st.is_empty() && c.chance(self.pf.qf, 100);
        let mut fail_at = None;
        if faulty && c.chance(1, 4) {
            fail_at = Some(c.draw(6));
        } else if faulty {
            self.arm_reads(&st);
        }
        let fp = p::T07 | if faulty { p::T09 } else { 0 };
        for round in 0..2 {
            let before = self.failures();
            let what = format!("group_by({:?})", d);
            let cb = fail_at.is_some();
            let (v, err, zombie) = call(fp, &what, || sut::group_by(&self.slots[i].h, d, exp.len() * 2 + 8, fail_at.take()))?;
            self.quiet();
            if self.dead() {
                return Ok(());
            }
            let fired = self.failures() > before || cb;
            ensure!(!zombie, fp | p::T09, "zombie", "{} goes on after its end", what);
            let mut j = 0;
            for h in v {
                if call(fp, "is_empty", || sut::is_empty(&h))? {
                    ensure!(m.is_empty(), fp, "groups", "{} on {} gives an empty group", what, show_map(&m));
                    call(p::T14, "drop of a tree", move || drop(h))?;
                    continue;
                }
                ensure!(j < exp.len(), fp, "groups", "{} on {} gives more than the {} expected groups", what, show_map(&m), exp.len());
                check_tree(&h, &exp[j], fp, &format!("group {} of {} on {}", j, what, show_map(&m)))?;
                check_shape(&h, &exp[j], fp)?;
                j += 1;
                self.keep_or_drop(h, exp[j - 1].clone(), p::T07)?;
            }
            match err {
                None => {
                    ensure!(j == exp.len(), fp, "groups", "{} on {} gives {} of {} groups and no error", what, show_map(&m), j, exp.len());
                    return Ok(());
                }
                Some(e) => {
                    ensure!(fired && round == 0, fp | p::T09, "spurious-error", "{} fails without a fault: {:#}", what, e);
                    self.hit(p::T09);
                    c.count("op.query_failed");
                }
            }
        }
        Ok(())
    }

    fn check_calls(&self, log: &Log, mut exp: Vec<KV>, props: Props) -> R<()> {
        if !log.record {
            ensure!(log.n.get() == exp.len() as u64, props, "calls", "the combiner was called {} times for {} common keys", log.n.get(), exp.len());
            return Ok(());
        }
        let mut got = log.calls.borrow().clone();
        got.sort();
        exp.sort();
        ensure!(got == exp, props, "calls", "the combiner was called with {:?} instead of {:?}", got.iter().map(show_kv).collect::<Vec<_>>(), exp.iter().map(show_kv).collect::<Vec<_>>());
        Ok(())
    }
    pub fn keep_or_drop(&mut self, h: H, m: Map, taint: Props) -> R<()> {
        if !self.dead() && self.slots.len() < 6 && ctx().chance(1, 3) {
            self.push(h, m, taint | p::T12);
            Ok(())
        } else {
            call(p::T14, "drop of a tree", move || drop(h))
        }
    }
    /// a tree with the given contents, in memory or in some store
    pub fn tree_of(&mut self, m: Map) -> R<(H, Map)> {
        let c = ctx();
        let t = build(&m);
        if self.stores.is_empty() || !c.chance(self.pf.attached, 100) {
            return Ok((H::D(t), m));
        }
        let si = self.pick_store();
        let s = self.stores[si].s.clone();
        let before = self.failures();
        let r = call(p::T01, "try_attached", || {
            t.try_attached(s.clone()).and_then(|mut a| {
                let id = a.try_reattach()?;
                Ok((a, id))
            })
        })?;
        match r {
            Ok((a, id)) => {
                if c.chance(1, 2) {
                    let l = call(p::T01, "try_load", || RadixTree::try_load(s, Some(id)))?;
                    match l {
                        Ok(l) => {
                            call(p::T14, "drop", move || drop((t, a)))?;
                            return Ok((H::A(l), m));
                        }
                        Err(e) if !self.dead() => return fail(p::T01, "load", format!("a tree that was just persisted cannot be loaded: {:#}", e)),
                        _ => {}
                    }
                }
                call(p::T14, "drop", move || drop(t))?;
                Ok((H::A(a), m))
            }
            Err(e) => {
                ensure!(self.dead() || self.failures() > before, p::T01 | p::T03, "spurious-error", "persisting fails without a fault: {:#}", e);
                Ok((H::D(t), m))
            }
        }
    }
    /// the second operand of a binary operation
    pub fn operand(&mut self, i: usize) -> R<(H, Map)> {
        let c = ctx();
        self.op_stored = true;
        match c.weighted(&[6, 5, 3, 1]) {
            0 => {
                // related contents
                let m0 = self.slots[i].m.clone();
                let n = c.draw(8);
                let mut m = Map::new();
                for _ in 0..n {
                    c.span_start();
                    let k = self.g.probe(&m0);
                    let v = self.g.value();
                    m.insert(k, v);
                    c.span_end();
                }
                if c.chance(1, 5) {
                    for (k, v) in m0.iter() {
                        if c.chance(1, 2) {
                            m.insert(k.clone(), v.clone());
                        }
                    }
                }
                self.tree_of(m)
            }
            1 => {
                let j = c.draw(self.slots.len() as u64) as usize;
                let h = call(p::T12, "clone", || self.slots[j].h.dup())?;
                self.op_stored = self.slots[j].stored();
                Ok((h, self.slots[j].m.clone()))
            }
            2 if !self.roots.is_empty() => {
                let n = c.draw(self.roots.len() as u64) as usize;
                let m = self.roots[n].m.clone();
                match self.load_root(n, self.ctxp())? {
                    Some(h) => Ok((h, m)),
                    None => Ok((H::D(call(p::T05, "default", RadixTree::default)?), Map::new())),
                }
            }
            _ => {
                let m = self.g.map(6);
                self.tree_of(m)
            }
        }
    }
}

pub fn open_paged(d: usize, page: u64, tag: Tag) -> anyhow::Result<Kind> {
    let _s = alloc::sut();
    let f = disk::open(d);
    let s = PagedFileStore::new(f, page)?;
    Ok(if tag == Tag::Dyn {
        let d: DynBlobStore = Arc::new(s);
        Kind::Dyn(d)
    } else {
        Kind::Paged(s)
    })
}

pub fn run(pf: &'static Profile) -> R<()> {
    let mut w = {
        let _h = alloc::harness();
        World::new(pf)
    };
    let r = w.go();
    close(w, r)
}

/// Drop everything in some order and look for leftovers
pub fn close(mut w: World, r: R<()>) -> R<()> {
    if let Err(f) = r {
        std::mem::forget(w);
        return Err(f);
    }
    let c = ctx();
    let order = c.draw(3);
    let slots = std::mem::take(&mut w.slots);
    let iters = std::mem::take(&mut w.iters);
    let held = std::mem::take(&mut w.held);
    let keys = std::mem::take(&mut w.keys);
    let stores = std::mem::take(&mut w.stores);
    let props = p::T14 | p::T12;
    if order == 0 {
        call(props, "drop of the stores", move || drop(stores))?;
        call(props, "drop of the iterators", move || drop(iters))?;
        call(props, "drop of the values", move || drop((held, keys)))?;
        call(props, "drop of the trees", move || drop(slots))?;
    } else {
        call(props, "drop of the trees", move || drop(slots))?;
        call(props, "drop of the stores", move || drop(stores))?;
        if order == 1 {
            // iterators outlive trees
            for it in iters {
                let mut it = it;
                for (ek, evv) in std::mem::take(&mut it.rest) {
                    match call(it.props, "next", || it.it.next())? {
                        Item::Got(k, v) => {
                            if let Some(k) = &k {
                                ensure!(k.as_ref() == &ek[..], it.props, "wrong-item", "an iterator that outlived its tree yields key {} instead of {}", show(k.as_ref()), show(&ek));
                            }
                            if let Ok(v) = v {
                                ensure!(v == evv, it.props, "wrong-item", "an iterator that outlived its tree yields value {} instead of {}", show(&v), show(&evv));
                            }
                            call(p::T14, "drop", move || drop(k))?;
                        }
                        _ => return fail(it.props, "incomplete", "an iterator that outlived its tree ends early"),
                    }
                }
                call(props, "drop of an iterator", move || drop(it))?;
            }
        } else {
            call(props, "drop of the iterators", move || drop(iters))?;
        }
        for (v, d) in &held {
            match call(props, "load", || v.load())? {
                Ok(x) => ensure!(&x == d, props, "held-value", "a value that outlived its tree changed from {} to {}", show(d), show(&x)),
                Err(e) => return fail(props, "held-value", format!("a value that outlived its tree cannot be loaded: {:#}", e)),
            }
        }
        call(props, "drop of the values", move || drop((held, keys)))?;
    }
    drop(w);
    leak_check(0)
}

#[allow(dead_code)]
fn unused(_: Detached) -> String {
    names(0)
}
