//! Properties about what the library reads and writes: stored format both ways, reads confined to
//! a key's path, writes confined to what changed, root ids that depend on contents only.
use crate::fail::{call, fail, p, Props, R};
use crate::gen::Gen;
use crate::store::{hex, show, Kind, SimStore};
use crate::sut::{self, H};
use crate::trie::{self, DNode, EncodeError, Map, TNode};
use crate::world::{self, raw, show_map, Base, Extra, Root, World};
use radixdb::store::BlobStore;
use radixdb::RadixTree;
use simrt::{alloc, ctx::ctx, disk, ev};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

#[derive(Default)]
pub struct Import {
    pub ledger: BTreeMap<Vec<u8>, Vec<u8>>,
    pub roots: Vec<Root>,
}

type WriteBlob<'a> = dyn FnMut(&[u8]) -> Result<Vec<u8>, EncodeError> + 'a;

fn import_maps(g: &mut Gen, store: usize, write: &mut WriteBlob) -> Import {
    let c = ctx();
    let mut im = Import::default();
    let n = c.range(1, 3);
    for _ in 0..n {
        c.span_start();
        let max = *c.pick(&[6u64, 12, 3, 30]);
        let mut m = g.map(max);
        if c.chance(1, 8) {
            m.extend(g.fan());
        }
        c.span_end();
        let mut blobs = vec![];
        let r = {
            let mut w = |d: &[u8]| -> Result<Vec<u8>, EncodeError> {
                let id = write(d)?;
                blobs.push((id.clone(), d.to_vec()));
                Ok(id)
            };
            let mut root = vec![];
            trie::encode(&trie::canonical(&m), &mut root, &mut w).and_then(|_| w(&root))
        };
        im.ledger.extend(blobs);
        if let Ok(id) = r {
            ev!("store {} comes with {} as {}", store, show_map(&m), hex(&id));
            im.roots.push(Root { store, id, m, synced: true });
        }
    }
    im
}

/// Fill a store by means of the reference encoder
pub fn import_kind(g: &mut Gen, kind: &mut Kind, store: usize) -> Import {
    match kind {
        Kind::Ref(r) => {
            let im = import_maps(g, store, &mut |d| {
                let id = r.make_id(d).map_err(|e| EncodeError(format!("{}", e)))?;
                r.map.insert(id.clone(), Arc::new(d.to_vec()));
                Ok(id)
            });
            im
        }
        Kind::Mem(s) => {
            let s = s.clone();
            import_maps(g, store, &mut |d| {
                let _s = alloc::sut();
                s.write(d).map_err(|e| EncodeError(format!("{}", e)))
            })
        }
        _ => Import::default(),
    }
}

/// Lay out a page file without the library
pub fn import_file(g: &mut Gen, d: usize, page: u64, store: usize) -> Import {
    let mut end = 0u64;
    let mut chunks: Vec<(u64, Vec<u8>)> = vec![];
    let im = import_maps(g, store, &mut |b| {
        let len = b.len() as u64 + 4;
        if b.len() as u64 > page - 8 {
            return Err(EncodeError("too large".into()));
        }
        // records do not cross pages
        if end / page != (end + len) / page {
            end = (end / page + 1) * page;
        }
        let mut rec = b.to_vec();
        rec.extend_from_slice(&(b.len() as u32).to_be_bytes());
        chunks.push((end + 4096, rec));
        end += len;
        Ok(end.to_be_bytes().to_vec())
    });
    let mut hdr = vec![0u8; 4096];
    hdr[16..24].copy_from_slice(&end.to_be_bytes());
    let mut all = vec![(0, hdr)];
    all.extend(chunks);
    disk::preload(d, end + 4096, &all);
    im
}

/// Every part of a trie that lives in a blob of its own, by the path of its node
#[derive(Default)]
struct Parts {
    /// children below the node with this path
    children: BTreeMap<Vec<u8>, TNode>,
    values: BTreeMap<Vec<u8>, Vec<u8>>,
    /// path of the node -> (path of its parent, prefix)
    prefixes: BTreeMap<Vec<u8>, (Vec<u8>, Vec<u8>)>,
}
fn parts(n: &TNode, path: &mut Vec<u8>, out: &mut Parts) {
    let l = path.len();
    let parent = path.clone();
    path.extend_from_slice(&n.prefix);
    if n.prefix.len() > 127 {
        out.prefixes.insert(path.clone(), (parent, n.prefix.clone()));
    }
    if let Some(v) = &n.value {
        if v.len() > 127 {
            out.values.insert(path.clone(), v.clone());
        }
    }
    if !n.children.is_empty() {
        out.children.insert(path.clone(), TNode { prefix: vec![], value: None, children: n.children.clone() });
        for c in &n.children {
            parts(c, path, out);
        }
    }
    path.truncate(l);
}

/// What a persist may write when `base` is stored and these keys were updated since
struct Allowed {
    count: usize,
    /// long values and prefixes that must be left alone
    frozen: BTreeSet<Vec<u8>>,
    why: Vec<String>,
}
fn allowed(b: &Base, now: &Map) -> Allowed {
    let (base, touched) = (&b.m, &b.touched);
    let (mut old, mut new) = (Parts::default(), Parts::default());
    parts(&trie::canonical(base), &mut vec![], &mut old);
    parts(&trie::canonical(now), &mut vec![], &mut new);
    let mut a = Allowed { count: 1, frozen: BTreeSet::new(), why: vec!["root".into()] };
    let mut free: BTreeSet<Vec<u8>> = BTreeSet::new();
    // parts of stored trees that were taken over as they are, since there was nothing in their place
    let extra: Vec<_> = b
        .extra
        .iter()
        .map(|x| {
            let mut o = Parts::default();
            let t = trie::canonical(&x.m);
            parts(&t, &mut vec![], &mut o);
            (x, o, t.prefix)
        })
        .collect();
    let vacant = |x: &Extra, at: &[u8], root: &[u8]| at != root && !x.before.keys().chain(touched[x.since..].iter().map(|t| &t.0)).any(|k| k.starts_with(at));
    for (path, c) in &new.children {
        if extra.iter().any(|(x, o, r)| o.children.get(path) == Some(c) && vacant(x, path, r)) {
            ctx().count("op.taken_over");
            continue;
        }
        if old.children.get(path) != Some(c) || touched.iter().any(|(k, _)| k.starts_with(path)) {
            a.count += 1;
            a.why.push(format!("children of {}", show(path)));
        }
    }
    for (path, v) in &new.values {
        if extra.iter().any(|(x, o, r)| o.values.get(path) == Some(v) && vacant(x, path, r)) {
            a.frozen.insert(v.clone());
            continue;
        }
        if old.values.get(path) != Some(v) || touched.iter().any(|(k, _)| k == path) {
            a.count += 1;
            a.why.push(format!("value of {}", show(path)));
            free.insert(v.clone());
        } else {
            a.frozen.insert(v.clone());
        }
    }
    for (path, (parent, pre)) in &new.prefixes {
        if extra.iter().any(|(x, o, r)| path != r && o.prefixes.get(path) == Some(&(parent.clone(), pre.clone())) && vacant(x, parent, r)) {
            a.frozen.insert(pre.clone());
            continue;
        }
        let hit = touched.iter().any(|(k, removal)| {
            // into this prefix but not past it, or a sibling that may have gone away in between
            k.starts_with(parent) && (*removal || k.get(parent.len()) == pre.first() && !k.starts_with(path))
                // every key that leaves the root splits it, even in front of its first byte
                || path == pre && !k.starts_with(path)
        });
        if old.prefixes.get(path).map(|x| &x.1) != Some(pre) || hit {
            a.count += 1;
            a.why.push(format!("prefix of {}", show(path)));
            free.insert(pre.clone());
        } else {
            a.frozen.insert(pre.clone());
        }
    }
    for f in &free {
        a.frozen.remove(f);
    }
    // inline data that happens to look like a frozen part is not written separately: fine
    a
}

impl World {
    /// A persist wrote no more than what changed since the stored version
    pub fn check_writes(&self, i: usize, writes: &[(Vec<u8>, Vec<u8>)]) -> R<()> {
        let s = &self.slots[i];
        let Some(b) = &s.base else { return Ok(()) };
        ctx().count("op.incremental_persist");
        let a = allowed(b, &s.m);
        if s.m.len() > 2 {
            self.hit(p::T15);
        }
        let props = p::T15 | s.taint & (p::T03 | p::T10);
        let keys = || b.touched.iter().map(|(k, r)| format!("{}{}", if *r { "-" } else { "+" }, show(k))).collect::<Vec<_>>().join(", ");
        ensure!(
            writes.len() <= a.count,
            props,
            "too-many-writes",
            "persisting wrote {} blobs although at most {} changed ({}); stored was {}, touched were [{}]; written: {:?}",
            writes.len(),
            a.count,
            a.why.join(", "),
            show_map(&b.m),
            keys(),
            writes.iter().map(|w| hex(&w.1)).collect::<Vec<_>>()
        );
        for (_, d) in writes {
            ensure!(!a.frozen.contains(d), props, "rewritten", "persisting wrote {} again although it did not change since it was stored; stored was {}, touched were [{}]", show(d), show_map(&b.m), keys());
        }
        Ok(())
    }

    /// Update a stored tree a little and persist it again
    pub fn incremental(&mut self) -> R<()> {
        let c = ctx();
        // a stored tree: loaded, or persisted by this process
        let cand: Vec<usize> = (0..self.slots.len()).filter(|i| self.slots[*i].base.is_some() && self.slots[*i].h.attached()).collect();
        let i = if !cand.is_empty() && c.chance(1, 2) {
            cand[c.draw(cand.len() as u64) as usize]
        } else if !self.roots.is_empty() {
            let n = c.draw(self.roots.len() as u64) as usize;
            let Some(h) = self.load_root(n, self.ctxp())? else { return Ok(()) };
            let m = self.roots[n].m.clone();
            let i = self.push(h, m.clone(), p::T01 | p::T02);
            self.slots[i].base = Some(Base::new(m));
            i
        } else {
            return self.run_op(world::Op::Persist);
        };
        let n = c.draw(4);
        for _ in 0..n {
            if self.dead() {
                return Ok(());
            }
            c.span_start();
            let m0 = self.slots[i].m.clone();
            let st = self.sto(&[&self.slots[i].h]);
            let mut m = m0.clone();
            let r = match c.weighted(&[6, 3, 1]) {
                0 => {
                    let k = if c.chance(2, 3) { self.g.probe(&m0) } else { self.g.key() };
                    // now and then the value it already has
                    let v = match m0.get(&k) {
                        Some(v) if c.chance(1, 4) => v.clone(),
                        _ => self.g.value(),
                    };
                    ev!("tree {}: insert {} -> {}", i, show(&k), show(&v));
                    m.insert(k.clone(), v.clone());
                    self.touch = Some(vec![(k.clone(), false)]);
                    self.mutate(i, &st, p::T05, "insert", m, None, false, |h| sut::insert(h, &k, &v))
                }
                1 => {
                    let k = self.g.probe(&m0);
                    ev!("tree {}: remove {}", i, show(&k));
                    m.remove(&k);
                    self.touch = Some(vec![(k.clone(), true)]);
                    self.mutate(i, &st, p::T05, "remove", m, None, false, |h| sut::remove(h, &k))
                }
                _ => {
                    let q = self.g.prefix(&m0);
                    ev!("tree {}: remove prefix {}", i, show(&q));
                    let mut t: Vec<_> = world::with_prefix(&m0, &q).into_keys().map(|k| (k, true)).collect();
                    t.push((q.clone(), true));
                    self.touch = Some(t);
                    m.retain(|k, _| !k.starts_with(&q));
                    self.mutate(i, &st, p::T07, "remove_prefix", m, None, false, |h| sut::remove_prefix(h, &q))
                }
            };
            c.span_end();
            r?;
        }
        if self.dead() {
            return Ok(());
        }
        self.persist(i, true)?;
        if !self.dead() && c.chance(1, 3) {
            // and once more, unchanged
            self.persist(i, true)?;
        }
        Ok(())
    }

    /// Lookups in a freshly loaded tree read only blobs on the key's path, and unreadable blobs
    /// elsewhere do not matter
    pub fn path_reads(&mut self) -> R<()> {
        let c = ctx();
        if self.roots.is_empty() {
            return self.run_op(world::Op::Persist);
        }
        let n = c.draw(self.roots.len() as u64) as usize;
        let (si, id, m) = (self.roots[n].store, self.roots[n].id.clone(), self.roots[n].m.clone());
        let store = self.stores[si].s.clone();
        let info = &self.stores[si];
        let dec = match raw(info, &id).and_then(|r| trie::decode_root(&r, &mut |id| raw(info, id).map_err(|e| format!("blob {}: {}", hex(id), e)))) {
            Ok(d) => d,
            Err(e) => return fail(p::T04 | self.ctxp(), "format", format!("root {}: {}", hex(&id), e)),
        };
        let held = self.hold();
        let r = self.path_reads_of(&store, &id, &m, &dec);
        self.unhold(held);
        let s = store.st();
        s.log = false;
        s.reads.clear();
        s.bad.clear();
        r
    }

    fn path_reads_of(&mut self, store: &SimStore, id: &[u8], m: &Map, dec: &DNode) -> R<()> {
        let c = ctx();
        c.count("op.path_reads");
        let props = p::T11;
        let mut all = vec![];
        dec.all_ids(&mut all);
        if all.len() > 2 {
            self.hit(p::T11);
        }
        // some blobs cannot be read
        let broken = c.chance(2, 3) && !all.is_empty();
        if broken {
            let k = *c.pick(&[1u64, 1, 2, 4]);
            for _ in 0..k {
                let x = c.pick(&all).clone();
                if x != id {
                    ev!("blob {} of store {} becomes unreadable", hex(&x), store.st().index);
                    store.st().bad.insert(x);
                }
            }
        }
        let read = |store: &SimStore| std::mem::take(&mut store.st().reads);
        store.st().log = true;
        read(store);
        let (s2, id2) = (store.clone(), id.to_vec());
        let t = call(props | p::T01, "try_load", move || RadixTree::try_load(s2, Some(id2)))?;
        let rs = read(store);
        let t = match t {
            Ok(t) => t,
            Err(e) => return fail(props | p::T01, "load", format!("loading {} fails although its root is readable: {:#}", hex(id), e)),
        };
        ensure!(rs.iter().all(|x| x == id), props, "reads", "loading root {} read {:?}", hex(id), rs.iter().map(|x| hex(x)).collect::<Vec<_>>());
        let mut t = t;
        let mut now = m.clone();
        // a few updates first, all blobs being readable for them
        if !broken && c.chance(1, 3) {
            let k = c.range(1, 3);
            for _ in 0..k {
                let key = self.g.probe(&now);
                if c.chance(2, 3) {
                    let v = self.g.value_of(c.draw(6) as usize);
                    ev!("insert {}", show(&key));
                    now.insert(key.clone(), v.clone());
                    let r = call(p::T05, "insert", || t.try_insert(&key, &v))?;
                    if let Err(e) = r {
                        return fail(p::T05 | p::T10, "spurious-error", format!("insert fails without a fault: {:#}", e));
                    }
                } else {
                    ev!("remove {}", show(&key));
                    now.remove(&key);
                    let r = call(p::T05, "remove", || t.try_remove(&key))?;
                    if let Err(e) = r {
                        return fail(p::T05 | p::T10, "spurious-error", format!("remove fails without a fault: {:#}", e));
                    }
                }
            }
        }
        // a clone per lookup starts without anything loaded; the tree itself keeps what it read
        let h = H::A(t);
        let k = c.range(2, 8);
        for _ in 0..k {
            let key = self.g.probe(&now);
            let fresh = c.chance(1, 2);
            let tmp = if fresh && now == *m {
                let (s2, id2) = (store.clone(), id.to_vec());
                match call(props, "try_load", move || RadixTree::try_load(s2, Some(id2)))? {
                    Ok(t) => H::A(t),
                    Err(e) => return fail(props | p::T01, "load", format!("loading {} fails: {:#}", hex(id), e)),
                }
            } else {
                h.dup()
            };
            let mut path = vec![];
            dec.search_ids(&key, &mut path);
            let clean = path.iter().all(|x| !store.st().bad.contains(x));
            let exp = now.get(&key);
            read(store);
            let check_reads = |what: &str, allowed: &[Vec<u8>]| -> R<()> {
                let rs = read(store);
                for x in &rs {
                    ensure!(
                        allowed.contains(x),
                        props,
                        "reads",
                        "{} of {} read blob {}, which is not on its path {:?}; the tree is {}",
                        what,
                        show(&key),
                        hex(x),
                        allowed.iter().map(|x| hex(x)).collect::<Vec<_>>(),
                        show_map(&now)
                    );
                }
                Ok(())
            };
            let blame: Props = props | p::T05;
            let asis = (now == *m) as u32;
            let what = c.weighted(&[8, 4, 3, 2 * asis, 2 * asis, 3 * asis, 4 * asis]);
            if what == 5 {
                // an update reads the key's path, and when it removes something a neighbour's prefix
                let remove = c.chance(1, 2);
                let mut ids = vec![];
                dec.update_ids(&key, remove, &mut ids);
                let clean = ids.iter().all(|x| !store.st().bad.contains(x));
                let name = if remove { "remove" } else { "insert" };
                let mut tmp = tmp;
                let v = self.g.value_of(c.draw(6) as usize);
                let H::A(t) = &mut tmp else { unreachable!() };
                let r = call(p::T05, name, || if remove { t.try_remove(&key) } else { t.try_insert(&key, &v) })?;
                check_reads(name, &ids)?;
                match r {
                    Ok(()) => {
                        let r = call(p::T05, "contains_key", || sut::contains(&tmp, &key))?;
                        if let Ok(x) = r {
                            ensure!(x != remove, p::T05 | p::T09, "wrong-answer", "{} is {} after {}", show(&key), if x { "there" } else { "missing" }, name);
                        }
                    }
                    Err(e) => ensure!(!clean, props | p::T10, "unrelated-failure", "{} of {} fails although every blob on its path is readable: {:#}", name, show(&key), e),
                }
                call(p::T14, "drop of a tree", move || drop(tmp))?;
                continue;
            }
            if what == 6 {
                let r = self.bulk_reads(store, dec, m, tmp);
                read(store);
                r?;
                continue;
            }
            if what == 2 {
                // prefix queries read what is on the path to the prefix, and nothing below it
                let exp = now.keys().any(|x| x.starts_with(&key));
                let r = call(blame, "has_prefix", || sut::has_prefix(&tmp, &key))?;
                check_reads("has_prefix", &path)?;
                match r {
                    Ok(x) => ensure!(x == exp, blame | p::T09, "wrong-answer", "has_prefix({}) gives {} on {}", show(&key), x, show_map(&now)),
                    Err(e) => ensure!(!clean, props, "unrelated-failure", "has_prefix({}) fails although every blob on its path is readable: {:#}", show(&key), e),
                }
            } else if what == 3 {
                // a listing reads the path to the prefix and what is below it
                let q = self.g.prefix(&now);
                let exp: Vec<_> = world::with_prefix(&now, &q).into_iter().collect();
                let mut ids = vec![];
                let values = c.chance(1, 2);
                dec.scan_ids(&q, values, &mut ids);
                let clean = ids.iter().all(|x| !store.st().bad.contains(x));
                let r = call(blame, "scan_prefix", || sut::scan(&tmp, &q, exp.len() + 8, values))?;
                check_reads("scan_prefix", &ids)?;
                match r.err {
                    None => {
                        let same = r.items.len() == exp.len() && r.items.iter().zip(&exp).all(|(a, b)| a.0 == b.0 && (!values || a.1 == b.1));
                        ensure!(same, blame | p::T09 | p::T07, "wrong-answer", "scan_prefix({}) gives {} items instead of {} on {}", show(&q), r.items.len(), exp.len(), show_map(&now));
                    }
                    Some(e) => ensure!(!clean, props, "unrelated-failure", "scan_prefix({}) fails although every blob it needs is readable: {:#}", show(&q), e),
                }
            } else if what == 4 {
                // so do the first and the last entry
                let last = c.chance(1, 2);
                let exp = if last { now.iter().next_back() } else { now.iter().next() }.map(|(k, v)| (k.clone(), v.clone()));
                let mut ids = vec![];
                dec.edge_ids(last, &mut ids);
                let clean = ids.iter().all(|x| !store.st().bad.contains(x));
                let name = if last { "last_entry" } else { "first_entry" };
                let H::A(t) = &tmp else { unreachable!() };
                let r = call(blame, name, || if last { t.try_last_entry(vec![]) } else { t.try_first_entry(vec![]) })?;
                check_reads(name, &ids)?;
                match r {
                    Ok(x) => {
                        let k = x.as_ref().map(|x| &x.0);
                        ensure!(k == exp.as_ref().map(|x| &x.0), blame | p::T09, "wrong-answer", "{} gives {:?} on {}", name, k, show_map(&now));
                        call(p::T14, "drop of a value", move || drop(x))?;
                    }
                    Err(e) => ensure!(!clean, props, "unrelated-failure", "{} fails although every blob on its path is readable: {:#}", name, e),
                }
            } else if what == 1 {
                let r = call(blame, "contains_key", || sut::contains(&tmp, &key))?;
                check_reads("contains_key", &path)?;
                match r {
                    Ok(x) => ensure!(x == exp.is_some(), blame | p::T09, "wrong-answer", "contains_key({}) gives {} on {}", show(&key), x, show_map(&now)),
                    Err(e) => ensure!(!clean, props, "unrelated-failure", "contains_key({}) fails although every blob on its path is readable: {:#}", show(&key), e),
                }
            } else {
                let H::A(t) = &tmp else { unreachable!() };
                let r = call(blame, "get", || t.try_get(&key))?;
                check_reads("get", &path)?;
                match r {
                    Ok(None) => ensure!(exp.is_none(), blame | p::T09, "wrong-answer", "get({}) gives nothing on {}", show(&key), show_map(&now)),
                    Ok(Some(v)) => {
                        ensure!(exp.is_some(), blame | p::T09, "wrong-answer", "get({}) gives something on {}", show(&key), show_map(&now));
                        let vid = dec.value_id_of(&key).filter(|_| m.get(&key) == now.get(&key));
                        let ok = vid.as_ref().map(|x| !store.st().bad.contains(x)).unwrap_or(true);
                        let r = call(blame, "load of a value", || sut::load(&v, RadixTree::store(t)))?;
                        check_reads("loading the value", &vid.into_iter().collect::<Vec<_>>())?;
                        match r {
                            Ok(x) => ensure!(Some(&x) == exp, blame | p::T09, "wrong-answer", "get({}) gives {} on {}", show(&key), show(&x), show_map(&now)),
                            Err(e) => ensure!(!ok, props, "unrelated-failure", "the value of {} cannot be loaded although its blob is readable: {:#}", show(&key), e),
                        }
                        call(p::T14, "drop of a value", move || drop(v))?;
                    }
                    Err(e) => ensure!(!clean, props, "unrelated-failure", "get({}) fails although every blob on its path is readable: {:#}", show(&key), e),
                }
            }
            call(p::T14, "drop of a tree", move || drop(tmp))?;
        }
        store.st().bad.clear();
        if broken {
            // everything is readable again
            world::check_tree(&h, &now, props | p::T09, "a tree whose blobs became readable again")?;
        }
        call(p::T14, "drop of a tree", move || drop(h))
    }

    /// Combining a stored tree with an in-memory one reads only the paths of the keys of the latter
    fn bulk_reads(&mut self, store: &SimStore, dec: &DNode, m: &Map, tmp: H) -> R<()> {
        let c = ctx();
        let props = p::T11;
        let kind = c.draw(8);
        let mut b = Map::new();
        for _ in 0..c.range(1, 4) {
            let k = if kind == 3 && c.chance(2, 3) { self.g.prefix(m) } else { self.g.probe(m) };
            b.insert(k, self.g.value_of(c.draw(6) as usize));
        }
        let mut ids = vec![];
        for k in b.keys() {
            dec.update_ids(k, true, &mut ids);
            ids.extend(dec.value_id_of(k));
            if kind == 7 {
                dec.path_value_ids(k, &mut ids);
            }
        }
        let clean = ids.iter().all(|x| !store.st().bad.contains(x));
        let bh = H::D(world::build(&b));
        let mut tmp = tmp;
        let join = *c.pick(&[sut::Join::Outer, sut::Join::Inner, sut::Join::Left]);
        let comb = *c.pick(&sut::COMBS);
        let pr = *c.pick(&[sut::Pred::Always, sut::Pred::OddLeft, sut::Pred::Never]);
        let log = sut::Log::new(c.chance(1, 2));
        let keep = if join == sut::Join::Outer { sut::Join::Left } else { join };
        // an attached tree that has nothing in its store yet
        let mut fresh = None;
        if kind >= 6 {
            let s2 = store.clone();
            let r = call(p::T05, "insert", || {
                let mut t = RadixTree::empty(s2);
                b.iter().try_for_each(|(k, v)| t.try_insert(k, v)).map(|_| t)
            })?;
            match r {
                Ok(t) => fresh = Some(H::A(t)),
                Err(e) => return fail(props | p::T05, "spurious-error", format!("inserting into an empty tree fails: {:#}", e)),
            }
        }
        let ident = c.chance(1, 2);
        let (exp, name) = match kind {
            4 => (world::model_combine(&b, m, keep, comb).0, format!("{:?} combine of an in-memory tree with a stored one", keep)),
            5 => (b.clone(), format!("{:?} combine_pred of an in-memory tree with a stored one", keep)),
            6 => (world::model_combine(&b, m, keep, comb).0, format!("{:?} combine_with of a new tree with a stored one", keep)),
            7 => {
                let retain = join == sut::Join::Inner;
                (world::model_prefix_edit(&b, m, retain, pr), format!("{} of a new tree with a stored one", if retain { "retain_prefix_with" } else { "remove_prefix_with" }))
            }
            0 => (world::model_combine(m, &b, join, comb).0, format!("{:?} combine_with", join)),
            1 => (world::model_combine(m, &b, sut::Join::Inner, comb).0, "inner combine".into()),
            2 => (m.clone(), "inner combine_pred".into()),
            _ => {
                let retain = join == sut::Join::Inner;
                (world::model_prefix_edit(m, &b, retain, pr), if retain { "retain_prefix_with" } else { "remove_prefix_with" }.to_string())
            }
        };
        store.st().reads.clear();
        let mut new = None;
        let r = call(props | p::T06 | p::T07, &name, || match kind {
            0 => sut::combine_with(&mut tmp, &bh, join, comb, &log, false),
            1 => sut::combine(&tmp, &bh, sut::Join::Inner, comb, &log).map(|t| new = Some(H::D(t))),
            2 => sut::combine_pred(&tmp, &bh, true, pr, &log).map(|_| ()),
            4 => sut::combine(&bh, &tmp, keep, comb, &log).map(|t| new = Some(H::D(t))),
            5 => sut::combine_pred(&bh, &tmp, keep == sut::Join::Inner, pr, &log).map(|_| ()),
            6 => sut::combine_with(fresh.as_mut().unwrap(), &tmp, keep, comb, &log, ident),
            7 => sut::prefix_edit(fresh.as_mut().unwrap(), &tmp, join == sut::Join::Inner, pr, &log),
            _ => sut::prefix_edit(&mut tmp, &bh, join == sut::Join::Inner, pr, &log),
        })?;
        for x in std::mem::take(&mut store.st().reads) {
            ensure!(
                ids.contains(&x),
                props,
                "reads",
                "{} with {} read blob {}, which is not on the path of its keys {:?}; the tree is {}",
                name,
                show_map(&b),
                hex(&x),
                ids.iter().map(|x| hex(x)).collect::<Vec<_>>(),
                show_map(m)
            );
        }
        match r {
            Ok(()) => {
                let h = match kind {
                    5 => &bh,
                    _ => new.as_ref().or(fresh.as_ref()).unwrap_or(&tmp),
                };
                let k = b.keys().next().unwrap();
                let x = call(p::T05, "contains_key", || sut::contains(h, k))?;
                if let Ok(x) = x {
                    ensure!(x == exp.contains_key(k), p::T05 | p::T06 | p::T07 | p::T09, "wrong-answer", "{} is {} after {} with {}", show(k), if x { "there" } else { "missing" }, name, show_map(&b));
                }
            }
            Err(e) => ensure!(!clean, props | p::T10, "unrelated-failure", "{} with {} fails although every blob on the paths of its keys is readable: {:#}; the tree is {}", name, show_map(&b), e, show_map(m)),
        }
        call(p::T14, "drop of a tree", move || drop((tmp, new, fresh, bh)))
    }

    /// Equal contents give equal root ids in a content-addressed store
    pub fn root_id(&mut self) -> R<()> {
        let c = ctx();
        let i = self.pick()?;
        let si = self.pick_store();
        if !matches!(&self.stores[si].s.st().kind, Kind::Ref(r) if r.content_addressed) && self.stores[si].tag != world::Tag::Mem {
            return self.run_op(world::Op::Equality);
        }
        c.count("op.root_id");
        self.hit(p::T13);
        let held = self.hold();
        let m = self.slots[i].m.clone();
        let props = p::T13 | self.slots[i].taint;
        let s = self.stores[si].s.clone();
        let content = matches!(&s.st().kind, Kind::Ref(r) if r.content_addressed);
        let put = |t: &RadixTree, s: &SimStore| -> R<Result<Vec<u8>, anyhow::Error>> { call(p::T01, "persist", || t.try_attached(s.clone()).and_then(|mut a| Ok(a.try_reattach()?.to_vec()))) };
        let d = match &self.slots[i].h {
            H::D(t) => Ok(call(p::T12, "clone", || t.clone())?),
            H::A(t) => call(p::T01, "try_detached", || t.try_detached())?,
            H::None => unreachable!(),
        };
        let fresh = world::build(&m);
        let r = match d {
            Ok(d) => {
                let a = put(&d, &s)?;
                let b = put(&fresh, &s)?;
                let mut r = (a, b);
                // and the tree itself, in place, if it lives there
                if let H::A(t) = &self.slots[i].h {
                    if RadixTree::store(t).same(&s) {
                        let mut t = call(p::T12, "clone", || t.clone())?;
                        let x = call(p::T01, "try_reattach", || t.try_reattach().map(|x| x.to_vec()))?;
                        call(p::T14, "drop", move || drop(t))?;
                        if r.0.is_ok() && r.0.as_ref().ok() == r.1.as_ref().ok() {
                            r.0 = x;
                        }
                    }
                }
                call(p::T14, "drop", move || drop(d))?;
                Some(r)
            }
            Err(_) => None,
        };
        call(p::T14, "drop", move || drop(fresh))?;
        self.unhold(held);
        match r {
            Some((Ok(a), Ok(b))) if content => ensure!(a == b, props, "root-id", "trees with the contents {} were stored as {} and {}", show_map(&m), hex(&a), hex(&b)),
            Some((Ok(_), Ok(_))) => {}
            // the store ran out of ids, or the blobs are too large for it
            _ => {}
        }
        if let Some(b) = &s.st().broken {
            return fail(p::S04, "id-reused", b.clone());
        }
        Ok(())
    }
}
