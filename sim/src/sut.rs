//! Uniform access to the trees of the code under test, in memory or attached to a store.
use crate::store::{OBlob, SimStore};
use anyhow::Error;
use radixdb::node::{DetachConverter, DowncastConverter, IdentityConverter, IterKey, KeyValueIter, NodeConverter, Value, ValueIter, ValueRef};
use radixdb::store::{BlobStore, Detached, NoError};
use radixdb::RadixTree;
use simrt::alloc;
use simrt::ctx::ctx;
use std::cell::{Cell, RefCell};

pub type Att = RadixTree<SimStore>;
pub type KV = (Vec<u8>, Vec<u8>);

pub enum H {
    D(RadixTree),
    A(Att),
    None,
}

#[macro_export]
macro_rules! on {
    ($h:expr, $t:ident => $body:expr) => {
        match $h {
            $crate::sut::H::D($t) => $body,
            $crate::sut::H::A($t) => $body,
            $crate::sut::H::None => unreachable!(),
        }
    };
}

impl H {
    pub fn store(&self) -> Option<SimStore> {
        match self {
            H::A(t) => Some(RadixTree::store(t).clone()),
            _ => None,
        }
    }
    pub fn attached(&self) -> bool {
        matches!(self, H::A(_))
    }
    pub fn dup(&self) -> H {
        match self {
            H::D(t) => H::D(t.clone()),
            H::A(t) => H::A(t.clone()),
            H::None => H::None,
        }
    }
}

fn e<X: Into<Error>>(x: X) -> Error {
    x.into()
}

pub fn load<S: BlobStore>(v: &Value<S>, s: &S) -> Result<Vec<u8>, Error>
where
    S::Error: Into<Error>,
{
    Ok(v.load(s).map_err(e)?.to_vec())
}

/// In-memory trees have an infallible twin of every method: use it half of the time
fn plain() -> bool {
    let r = ctx().chance(1, 2);
    if r {
        ctx().count("op.infallible_api");
    }
    r
}

pub fn get(h: &H, k: &[u8]) -> Result<Option<Vec<u8>>, Error> {
    if let H::D(t) = h {
        if plain() {
            return Ok(t.get(k).map(|v| v.to_vec()));
        }
    }
    on!(h, t => {
        match t.try_get(k).map_err(e)? {
            Some(v) => Ok(Some(load(&v, RadixTree::store(t))?)),
            None => Ok(None),
        }
    })
}
pub fn contains(h: &H, k: &[u8]) -> Result<bool, Error> {
    if let H::D(t) = h {
        if plain() {
            return Ok(t.contains_key(k));
        }
    }
    on!(h, t => t.try_contains_key(k).map_err(e))
}
pub fn has_prefix(h: &H, k: &[u8]) -> Result<bool, Error> {
    if let H::D(t) = h {
        if plain() {
            return Ok(t.has_prefix(k));
        }
    }
    on!(h, t => t.try_has_prefix(k).map_err(e))
}
pub fn is_empty(h: &H) -> bool {
    on!(h, t => t.is_empty())
}
pub fn is_leaf(h: &H) -> bool {
    on!(h, t => t.is_leaf())
}

/// What an iterator gave until it ended
#[derive(Debug)]
pub struct Seq<T> {
    pub items: Vec<T>,
    pub err: Option<Error>,
    /// something came after the end or the error
    pub zombie: bool,
    /// iteration was cut off because it exceeded the bound
    pub endless: bool,
    /// a key changed after it had been handed out
    pub changed: Option<usize>,
}

fn drain<S: BlobStore>(it: KeyValueIter<S>, s: &S, max: usize, values: bool) -> Seq<KV>
where
    S::Error: Into<Error>,
{
    let mut r = Seq { items: vec![], err: None, zombie: false, endless: false, changed: None };
    let mut it = it;
    let mut keys: Vec<IterKey> = vec![];
    loop {
        match it.next() {
            Some(Ok((k, v))) => {
                let val = if values {
                    match load(&v, s) {
                        Ok(v) => v,
                        Err(e) => {
                            r.err = Some(e);
                            return r;
                        }
                    }
                } else {
                    vec![]
                };
                r.items.push((k.to_vec(), val));
                if keys.len() < 64 {
                    keys.push(k);
                }
                if r.items.len() > max {
                    r.endless = true;
                    break;
                }
            }
            Some(Err(x)) => {
                r.err = Some(e(x));
                break;
            }
            None => break,
        }
    }
    if !r.endless {
        for _ in 0..2 {
            if it.next().is_some() {
                r.zombie = true;
            }
        }
    }
    for (i, k) in keys.iter().enumerate() {
        if k.as_ref() != &r.items[i].0[..] {
            r.changed = Some(i);
        }
    }
    r
}

/// Drain an infallible iterator
fn easy<T, U>(mut it: impl Iterator<Item = T>, max: usize, f: impl Fn(T) -> U) -> Seq<U> {
    let mut r = Seq { items: vec![], err: None, zombie: false, endless: false, changed: None };
    while let Some(x) = it.next() {
        r.items.push(f(x));
        if r.items.len() > max {
            r.endless = true;
            return r;
        }
    }
    r.zombie = it.next().is_some();
    r
}
fn kv(x: (IterKey, Value)) -> KV {
    (x.0.to_vec(), x.1.to_vec())
}

pub fn iter(h: &H, max: usize, values: bool) -> Seq<KV> {
    on!(h, t => drain(t.try_iter(), RadixTree::store(t), max, values))
}
pub fn scan(h: &H, prefix: &[u8], max: usize, values: bool) -> Seq<KV> {
    if let H::D(t) = h {
        if values && plain() {
            return easy(t.scan_prefix(prefix), max, kv);
        }
    }
    on!(h, t => match t.try_scan_prefix(prefix) {
        Ok(it) => drain(it, RadixTree::store(t), max, values),
        Err(x) => Seq { items: vec![], err: Some(e(x)), zombie: false, endless: false, changed: None },
    })
}
pub fn values(h: &H, max: usize) -> Seq<Vec<u8>> {
    fn go<S: BlobStore>(mut it: ValueIter<S>, s: &S, max: usize) -> Seq<Vec<u8>>
    where
        S::Error: Into<Error>,
    {
        let mut r = Seq { items: vec![], err: None, zombie: false, endless: false, changed: None };
        loop {
            match it.next() {
                Some(Ok(v)) => match load(&v, s) {
                    Ok(v) => {
                        r.items.push(v);
                        if r.items.len() > max {
                            r.endless = true;
                            return r;
                        }
                    }
                    Err(e) => {
                        r.err = Some(e);
                        return r;
                    }
                },
                Some(Err(x)) => {
                    r.err = Some(e(x));
                    break;
                }
                None => break,
            }
        }
        for _ in 0..2 {
            if it.next().is_some() {
                r.zombie = true;
            }
        }
        r
    }
    if let H::D(t) = h {
        if plain() {
            return easy(t.values(), max, |v| v.to_vec());
        }
    }
    on!(h, t => go(t.try_values(), RadixTree::store(t), max))
}

/// The infallible interface of in-memory trees
pub fn plain_iter(t: &RadixTree, max: usize) -> Vec<KV> {
    t.iter().take(max).map(|(k, v)| (k.to_vec(), v.to_vec())).collect()
}

pub fn first_value(h: &H) -> Result<Option<Vec<u8>>, Error> {
    if let H::D(t) = h {
        if plain() {
            return Ok(t.first_value().map(|v| v.to_vec()));
        }
    }
    on!(h, t => match t.try_first_value().map_err(e)? {
        Some(v) => Ok(Some(load(&v, RadixTree::store(t))?)),
        None => Ok(None),
    })
}
pub fn last_value(h: &H) -> Result<Option<Vec<u8>>, Error> {
    if let H::D(t) = h {
        if plain() {
            return Ok(t.last_value().map(|v| v.to_vec()));
        }
    }
    on!(h, t => match t.try_last_value().map_err(e)? {
        Some(v) => Ok(Some(load(&v, RadixTree::store(t))?)),
        None => Ok(None),
    })
}
pub fn first_entry(h: &H, p: &[u8]) -> Result<Option<KV>, Error> {
    if let H::D(t) = h {
        if plain() {
            return Ok(t.first_entry(p.to_vec()).map(|(k, v)| (k, v.to_vec())));
        }
    }
    on!(h, t => match t.try_first_entry(p.to_vec()).map_err(e)? {
        Some((k, v)) => Ok(Some((k, load(&v, RadixTree::store(t))?))),
        None => Ok(None),
    })
}
pub fn last_entry(h: &H, p: &[u8]) -> Result<Option<KV>, Error> {
    if let H::D(t) = h {
        if plain() {
            return Ok(t.last_entry(p.to_vec()).map(|(k, v)| (k, v.to_vec())));
        }
    }
    on!(h, t => match t.try_last_entry(p.to_vec()).map_err(e)? {
        Some((k, v)) => Ok(Some((k, load(&v, RadixTree::store(t))?))),
        None => Ok(None),
    })
}
pub fn filter_prefix(h: &H, p: &[u8], s: &[u8]) -> Result<H, Error> {
    match h {
        H::D(t) if plain() => Ok(H::D(t.filter_prefix(p, s))),
        H::D(t) => t.try_filter_prefix(p, s).map(H::D).map_err(e),
        H::A(t) => t.try_filter_prefix(p, s).map(H::A),
        H::None => unreachable!(),
    }
}
/// When group_by descends: depends on the path only, or also on the node
#[derive(Clone, Copy, Debug)]
pub enum Descend {
    Always,
    Never,
    UpTo(usize),
    Parity,
}
impl Descend {
    pub fn at(&self, path: &[u8]) -> bool {
        match self {
            Descend::Always => true,
            Descend::Never => false,
            Descend::UpTo(n) => path.len() <= *n,
            Descend::Parity => path.iter().map(|x| *x as usize).sum::<usize>() % 3 != 1,
        }
    }
}
/// Text forms: they may read the store, must not change anything and must not fail on their own
pub fn inspect(h: &H, how: u64) -> Result<bool, Error> {
    let mut text = String::with_capacity(64);
    use std::fmt::Write;
    match how {
        0 => on!(h, t => write!(text, "{:?}{:?}{:?}", t, t.value(), t.prefix()).unwrap()),
        1 => on!(h, t => {
            for x in t.try_iter() {
                let (k, v) = x.map_err(e)?;
                write!(text, "{:?}{:?}", &k[..], v).unwrap();
            }
            text.push('x');
        }),
        2 => {
            let text = RefCell::new(&mut text);
            on!(h, t => {
                for x in t.try_group_by(|_, n| {
                    write!(text.borrow_mut(), "{:?}", n).unwrap();
                    Ok(true)
                }) {
                    x.map_err(e)?;
                }
            });
            text.borrow_mut().push('x');
        }
        _ => {
            // to standard output: keep it away from the report
            let _quiet = simrt::raw::Quiet::new();
            text.push('x');
            match h {
                H::D(t) if plain() => t.dump(),
                _ => on!(h, t => t.try_dump().map_err(e)?),
            }
        }
    }
    Ok(!text.is_empty())
}

pub fn group_by(h: &H, d: Descend, max: usize, fail_at: Option<u64>) -> (Vec<H>, Option<Error>, bool) {
    let mut v = vec![];
    let mut err = None;
    let mut zombie = false;
    macro_rules! go {
        ($t:expr, $wrap:expr, $fail:expr) => {{
            let n = Cell::new(0);
            let n = &n;
            let mut it = $t.try_group_by(move |p, _| {
                let i = n.replace(n.get() + 1);
                if Some(i) == fail_at {
                    $fail
                }
                Ok(d.at(p))
            });
            while let Some(x) = it.next() {
                match x {
                    Ok(t) => v.push($wrap(t)),
                    Err(x) => {
                        err = Some(e(x));
                        break;
                    }
                }
                if v.len() > max {
                    break;
                }
            }
            if v.len() <= max && it.next().is_some() {
                zombie = true;
            }
        }};
    }
    match h {
        H::D(t) if plain() => {
            let r = easy(t.group_by(move |p, _| d.at(p)), max, H::D);
            return (r.items, None, r.zombie);
        }
        H::D(t) => go!(t, H::D, {}),
        H::A(t) => go!(t, H::A, {
            let _h = alloc::harness();
            ctx().count("fault.predicate_error");
            simrt::ev!("fault: the predicate returns an error");
            return Err(anyhow::anyhow!("injected predicate failure"));
        }),
        H::None => unreachable!(),
    }
    (v, err, zombie)
}

// ------------------------------------------------------------------------------- combining

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Join {
    Outer,
    Inner,
    Left,
}
/// What a combiner makes of the two values
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Comb {
    Left,
    Right,
    Drop,
    DropOddLeft,
    DropOddRight,
    Concat,
    Const,
    Empty,
}
pub const COMBS: [Comb; 8] = [Comb::Left, Comb::Right, Comb::Drop, Comb::DropOddLeft, Comb::DropOddRight, Comb::Concat, Comb::Const, Comb::Empty];
impl Comb {
    pub fn apply(&self, l: &[u8], r: &[u8]) -> Option<Vec<u8>> {
        match self {
            Comb::Left => Some(l.to_vec()),
            Comb::Right => Some(r.to_vec()),
            Comb::Drop => None,
            Comb::DropOddLeft => (l.len() % 2 == 0).then(|| l.to_vec()),
            Comb::DropOddRight => (r.len() % 2 == 0).then(|| r.to_vec()),
            Comb::Concat => {
                let mut v = l.to_vec();
                v.extend_from_slice(r);
                v.truncate(900);
                Some(v)
            }
            Comb::Const => Some(b"const".to_vec()),
            Comb::Empty => Some(vec![]),
        }
    }
}
pub struct Log {
    pub calls: RefCell<Vec<KV>>,
    pub n: Cell<u64>,
    /// load both values and record them
    pub record: bool,
    /// fail the call after that many
    pub fail_at: Cell<Option<u64>>,
    pub failed: Cell<u64>,
    /// panic in the call after that many
    pub panic_at: Cell<Option<u64>>,
}
impl Log {
    pub fn new(record: bool) -> Log {
        Log { calls: RefCell::new(vec![]), n: Cell::new(0), record, fail_at: Cell::new(None), failed: Cell::new(0), panic_at: Cell::new(None) }
    }
    fn bump(&self) {
        self.n.set(self.n.get() + 1);
        if let Some(n) = self.panic_at.get() {
            self.panic_at.set(n.checked_sub(1));
            if n == 0 {
                ctx().count("fault.callback_panic");
                simrt::ev!("fault: the callback panics");
                std::panic::resume_unwind(Box::new(crate::fail::CallerPanic));
            }
        }
    }
    fn tick(&self) -> Result<(), Error> {
        self.bump();
        if let Some(n) = self.fail_at.get() {
            if n == 0 {
                self.failed.set(self.failed.get() + 1);
                self.fail_at.set(None);
                ctx().count("fault.combiner_error");
                simrt::ev!("fault: the combiner returns an error");
                return Err(anyhow::anyhow!("injected combiner failure"));
            }
            self.fail_at.set(Some(n - 1));
        }
        Ok(())
    }
}

fn make(v: &[u8]) -> Value {
    let _s = alloc::sut();
    let l = RadixTree::leaf(v);
    let r = l.value().unwrap().to_owned();
    r
}

#[allow(clippy::too_many_arguments)]
fn with<S, S2, C>(
    a: &mut RadixTree<S>,
    b: &RadixTree<S2>,
    join: Join,
    conv: C,
    comb: Comb,
    log: &Log,
    direct: fn(&mut Value<S>, &ValueRef<S2>) -> bool,
) -> Result<(), Error>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    C: NodeConverter<S2, S> + Clone,
    S::Error: From<S2::Error> + From<NoError> + Into<Error>,
    S2::Error: Into<Error>,
{
    let sa = RadixTree::store(a).clone();
    let sb = RadixTree::store(b).clone();
    let (sa, sb) = (&sa, &sb);
    let f = move |v: &mut Value<S>, bv: &ValueRef<S2>| -> Result<(), S::Error> {
        let _h = alloc::harness();
        log.tick().map_err(S::Error::from)?;
        let need = log.record || !matches!(comb, Comb::Left | Comb::Right | Comb::Drop | Comb::Const | Comb::Empty);
        let (mut l, mut r) = (vec![], vec![]);
        if need {
            let x = {
                let _s = alloc::sut();
                v.load(sa)?
            };
            l = x.to_vec();
            let x = {
                let _s = alloc::sut();
                bv.to_owned().load(sb).map_err(S::Error::from)?
            };
            r = x.to_vec();
            if log.record {
                log.calls.borrow_mut().push((l.clone(), r.clone()));
            }
        }
        if comb == Comb::Left {
            return Ok(());
        }
        if comb == Comb::Right {
            let _s = alloc::sut();
            if direct(v, bv) {
                return Ok(());
            }
            let x = bv.to_owned().load(sb).map_err(S::Error::from)?;
            r = x.to_vec();
        }
        let res = comb.apply(&l, &r);
        let _s = alloc::sut();
        match res {
            None => v.set(None),
            Some(x) => {
                let t = RadixTree::leaf(&x);
                let r = t.value().unwrap();
                v.set(Some(r.downcast()));
            }
        }
        Ok(())
    };
    match join {
        Join::Outer => a.try_outer_combine_with(b, conv, f),
        Join::Inner => a.try_inner_combine_with(b, conv, f),
        Join::Left => a.try_left_combine_with(b, conv, f),
    }
    .map_err(e)
}

/// In-place combination. `ident`: use the identity converter where both share a store
pub fn combine_with(a: &mut H, b: &H, join: Join, comb: Comb, log: &Log, ident: bool) -> Result<(), Error> {
    match (a, b) {
        (H::D(a), H::D(b)) if log.fail_at.get().is_none() && plain() => {
            let f = |v: &mut Value, bv: &ValueRef<Detached>| {
                let _h = alloc::harness();
                log.bump();
                let (l, r) = {
                    let _s = alloc::sut();
                    (v.load(&Detached).unwrap(), bv.to_owned().load(&Detached).unwrap())
                };
                let (l, r) = (l.to_vec(), r.to_vec());
                let res = comb.apply(&l, &r);
                let left = comb == Comb::Left;
                let right = comb == Comb::Right;
                if log.record {
                    log.calls.borrow_mut().push((l, r));
                }
                let _s = alloc::sut();
                match res {
                    _ if left => {}
                    _ if right => v.set(Some(bv)),
                    None => v.set(None),
                    Some(x) => {
                        let t = RadixTree::leaf(&x);
                        let r = t.value().unwrap();
                        v.set(Some(&r));
                    }
                }
            };
            match join {
                Join::Outer => a.outer_combine_with(b, f),
                Join::Inner => a.inner_combine_with(b, f),
                Join::Left => a.left_combine_with(b, f),
            }
            Ok(())
        }
        (H::D(a), H::D(b)) => {
            if ident {
                with::<Detached, Detached, _>(a, b, join, IdentityConverter, comb, log, |v, r| {
                    v.set(Some(r));
                    true
                })
            } else {
                with::<Detached, Detached, _>(a, b, join, DetachConverter, comb, log, |v, r| {
                    v.set(Some(r));
                    true
                })
            }
        }
        (H::A(a), H::D(b)) => with::<SimStore, Detached, _>(a, b, join, DowncastConverter, comb, log, |v, r| {
            v.set(Some(r.downcast()));
            true
        }),
        (H::D(a), H::A(b)) => with::<Detached, SimStore, _>(a, b, join, DetachConverter, comb, log, |_, _| false),
        (H::A(a), H::A(b)) => {
            if ident && RadixTree::store(a).same(RadixTree::store(b)) {
                with::<SimStore, SimStore, _>(a, b, join, IdentityConverter, comb, log, |v, r| {
                    v.set(Some(r));
                    true
                })
            } else {
                with::<SimStore, SimStore, _>(a, b, join, DetachConverter, comb, log, |_, _| false)
            }
        }
        _ => unreachable!(),
    }
}

fn fresh<S, S2>(a: &RadixTree<S>, b: &RadixTree<S2>, join: Join, comb: Comb, log: &Log) -> Result<RadixTree, Error>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    Error: From<S::Error> + From<S2::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let f = move |av: &ValueRef<S>, bv: &ValueRef<S2>| -> Result<Option<Value>, Error> {
        let _h = alloc::harness();
        log.tick()?;
        let x = {
            let _s = alloc::sut();
            av.to_owned().load(sa)?
        };
        let l = x.to_vec();
        let x = {
            let _s = alloc::sut();
            bv.to_owned().load(sb)?
        };
        let r = x.to_vec();
        let res = comb.apply(&l, &r);
        if log.record {
            log.calls.borrow_mut().push((l, r));
        }
        Ok(res.map(|x| make(&x)))
    };
    match join {
        Join::Outer => a.try_outer_combine(b, f),
        Join::Inner => a.try_inner_combine(b, f),
        Join::Left => a.try_left_combine(b, f),
    }
}
pub fn combine(a: &H, b: &H, join: Join, comb: Comb, log: &Log) -> Result<RadixTree, Error> {
    if let (H::D(a), H::D(b)) = (a, b) {
        if log.fail_at.get().is_none() && plain() {
            let f = |av: &ValueRef, bv: &ValueRef| -> Option<Value> {
                let _h = alloc::harness();
                log.bump();
                let (l, r) = (av.data().unwrap().to_vec(), bv.data().unwrap().to_vec());
                let res = comb.apply(&l, &r);
                if log.record {
                    log.calls.borrow_mut().push((l, r));
                }
                res.map(|x| make(&x))
            };
            return Ok(match join {
                Join::Outer => a.outer_combine(b, f),
                Join::Inner => a.inner_combine(b, f),
                Join::Left => a.left_combine(b, f),
            });
        }
    }
    on!(a, a => on!(b, b => fresh(a, b, join, comb, log)))
}

#[derive(Clone, Copy, Debug)]
pub enum Pred {
    Always,
    Never,
    Equal,
    OddLeft,
}
impl Pred {
    pub fn at(&self, l: &[u8], r: &[u8]) -> bool {
        match self {
            Pred::Always => true,
            Pred::Never => false,
            Pred::Equal => l == r,
            Pred::OddLeft => l.len() % 2 == 1,
        }
    }
}
fn preds<S, S2>(a: &RadixTree<S>, b: &RadixTree<S2>, inner: bool, p: Pred, log: &Log) -> Result<bool, Error>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    Error: From<S::Error> + From<S2::Error>,
{
    let (sa, sb) = (RadixTree::store(a), RadixTree::store(b));
    let f = move |av: &ValueRef<S>, bv: &ValueRef<S2>| -> Result<bool, Error> {
        let _h = alloc::harness();
        log.tick()?;
        let x = {
            let _s = alloc::sut();
            av.to_owned().load(sa)?
        };
        let l = x.to_vec();
        let x = {
            let _s = alloc::sut();
            bv.to_owned().load(sb)?
        };
        let r = x.to_vec();
        let res = p.at(&l, &r);
        if log.record {
            log.calls.borrow_mut().push((l, r));
        }
        Ok(res)
    };
    if inner {
        a.try_inner_combine_pred(b, f)
    } else {
        a.try_left_combine_pred(b, f)
    }
}
pub fn combine_pred(a: &H, b: &H, inner: bool, p: Pred, log: &Log) -> Result<bool, Error> {
    if let (H::D(a), H::D(b)) = (a, b) {
        if log.fail_at.get().is_none() && plain() {
            let f = |av: &ValueRef, bv: &ValueRef| -> bool {
                let _h = alloc::harness();
                log.bump();
                let (l, r) = (av.data().unwrap().to_vec(), bv.data().unwrap().to_vec());
                let res = p.at(&l, &r);
                if log.record {
                    log.calls.borrow_mut().push((l, r));
                }
                res
            };
            return Ok(if inner { a.inner_combine_pred(b, f) } else { a.left_combine_pred(b, f) });
        }
    }
    on!(a, a => on!(b, b => preds(a, b, inner, p, log)))
}

fn prefix_with<S, S2>(a: &mut RadixTree<S>, b: &RadixTree<S2>, retain: bool, p: Pred, log: &Log) -> Result<(), Error>
where
    S: BlobStore + Clone,
    S2: BlobStore + Clone,
    S::Error: From<S2::Error> + From<NoError> + Into<Error>,
{
    let sb = RadixTree::store(b);
    let f = move |v: &ValueRef<S2>| -> Result<bool, S::Error> {
        let _h = alloc::harness();
        log.tick().map_err(S::Error::from)?;
        Ok(match p {
            Pred::Always => true,
            Pred::Never => false,
            _ => {
                let x = {
                    let _s = alloc::sut();
                    v.to_owned().load(sb).map_err(S::Error::from)?
                };
                p.at(&x, &[])
            }
        })
    };
    if retain { a.try_retain_prefix_with(b, f) } else { a.try_remove_prefix_with(b, f) }.map_err(e)
}
pub fn prefix_edit(a: &mut H, b: &H, retain: bool, p: Pred, log: &Log) -> Result<(), Error> {
    if let (H::D(a), H::D(b)) = (&mut *a, b) {
        if log.fail_at.get().is_none() && plain() {
            let f = |v: &ValueRef| -> bool {
                let _h = alloc::harness();
                log.bump();
                p.at(v.data().unwrap(), &[])
            };
            if retain {
                a.retain_prefix_with(b, f)
            } else {
                a.remove_prefix_with(b, f)
            }
            return Ok(());
        }
    }
    on!(a, a => on!(b, b => prefix_with(a, b, retain, p, log)))
}
pub fn remove_prefix(a: &mut H, p: &[u8]) -> Result<(), Error> {
    if let H::D(t) = &mut *a {
        if plain() {
            t.remove_prefix(p);
            return Ok(());
        }
    }
    on!(a, t => t.try_remove_prefix(p).map_err(e))
}
pub fn insert(a: &mut H, k: &[u8], v: &[u8]) -> Result<(), Error> {
    if let H::D(t) = &mut *a {
        if plain() {
            t.insert(k, v);
            return Ok(());
        }
    }
    on!(a, t => t.try_insert(k, v).map_err(e))
}
pub fn remove(a: &mut H, k: &[u8]) -> Result<(), Error> {
    if let H::D(t) = &mut *a {
        if plain() {
            t.remove(k);
            return Ok(());
        }
    }
    on!(a, t => t.try_remove(k).map_err(e))
}

// ------------------------------------------------------------------------- open iterators

pub enum It {
    D(KeyValueIter<Detached>, Detached),
    A(KeyValueIter<SimStore>, SimStore),
    VD(ValueIter<Detached>, Detached),
    VA(ValueIter<SimStore>, SimStore),
}
pub enum Item {
    End,
    Err(Error),
    /// key (for key iterators) and loaded value
    Got(Option<IterKey>, Result<Vec<u8>, Error>),
}
impl It {
    pub fn store(&self) -> Option<SimStore> {
        match self {
            It::A(_, s) | It::VA(_, s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn open(h: &H, values: bool) -> It {
        match h {
            H::D(t) if values => It::VD(t.try_values(), Detached),
            H::D(t) => It::D(t.try_iter(), Detached),
            H::A(t) if values => It::VA(t.try_values(), RadixTree::store(t).clone()),
            H::A(t) => It::A(t.try_iter(), RadixTree::store(t).clone()),
            H::None => unreachable!(),
        }
    }
    pub fn scan(h: &H, p: &[u8]) -> Result<It, Error> {
        match h {
            H::D(t) => Ok(It::D(t.try_scan_prefix(p).map_err(e)?, Detached)),
            H::A(t) => Ok(It::A(t.try_scan_prefix(p)?, RadixTree::store(t).clone())),
            H::None => unreachable!(),
        }
    }
    pub fn next(&mut self) -> Item {
        fn kv<S: BlobStore>(it: &mut KeyValueIter<S>, s: &S) -> Item
        where
            S::Error: Into<Error>,
        {
            match it.next() {
                None => Item::End,
                Some(Err(x)) => Item::Err(e(x)),
                Some(Ok((k, v))) => Item::Got(Some(k), load(&v, s)),
            }
        }
        fn vo<S: BlobStore>(it: &mut ValueIter<S>, s: &S) -> Item
        where
            S::Error: Into<Error>,
        {
            match it.next() {
                None => Item::End,
                Some(Err(x)) => Item::Err(e(x)),
                Some(Ok(v)) => Item::Got(None, load(&v, s)),
            }
        }
        match self {
            It::D(it, s) => kv(it, s),
            It::A(it, s) => kv(it, s),
            It::VD(it, s) => vo(it, s),
            It::VA(it, s) => vo(it, s),
        }
    }
}

/// A value taken out of a tree
pub enum Val {
    D(Value),
    A(Value<SimStore>, SimStore),
    B(OBlob),
}
impl Val {
    pub fn load(&self) -> Result<Vec<u8>, Error> {
        match self {
            Val::D(v) => load(v, &Detached),
            Val::A(v, s) => load(v, s),
            Val::B(b) => Ok(b.to_vec()),
        }
    }
    pub fn store(&self) -> Option<SimStore> {
        match self {
            Val::A(_, s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn take(h: &H, k: &[u8], blob: bool) -> Result<Option<Val>, Error> {
        match h {
            H::D(t) => Ok(match t.try_get(k).map_err(e)? {
                None => None,
                Some(v) if blob => Some(Val::B(v.load(&Detached).map_err(e)?)),
                Some(v) => Some(Val::D(v)),
            }),
            H::A(t) => Ok(match t.try_get(k)? {
                None => None,
                Some(v) => {
                    let s = RadixTree::store(t).clone();
                    Some(if blob { Val::B(v.load(&s)?) } else { Val::A(v, s) })
                }
            }),
            H::None => unreachable!(),
        }
    }
}
