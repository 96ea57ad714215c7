//! A simulated web worker: the cache API, promises, and the executor that blocks on them. Only what
//! the browser package uses. The contents of the caches are what survives a crash of the worker.
//!
//! Every promise is a point where the simulator decides: how long it stays pending, whether it is
//! rejected, and whether the worker dies before or after its effect.
use futures::future::LocalBoxFuture;
use simrt::{ctx::ctx, ev};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

pub const ORIGIN: &str = "https://sim.example";

#[derive(Default)]
pub struct CacheObj {
    name: String,
    /// url, body; in insertion order
    entries: RefCell<Vec<(String, Rc<Vec<u8>>)>>,
}

#[derive(Default)]
pub struct World {
    caches: BTreeMap<String, Rc<CacheObj>>,
    tasks: Vec<Option<LocalBoxFuture<'static, ()>>>,
    /// the worker dies at the n-th promise from now
    crash_in: Option<u64>,
    pub crashed: bool,
    /// promises are rejected with probability n/16
    fault: u64,
    /// kinds of promises that may be rejected
    fault_kinds: u64,
    pub rejected: u64,
    pub promises: u64,
    pub delays: bool,
}
thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
}
pub fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|w| f(&mut w.borrow_mut()))
}
/// a worker that has just been started on the caches that are there
pub fn restart() {
    let tasks = world(|w| {
        w.crash_in = None;
        w.crashed = false;
        w.fault = 0;
        std::mem::take(&mut w.tasks)
    });
    drop(tasks);
}
pub fn reset() {
    restart();
    let old = world(std::mem::take);
    drop(old);
}
pub fn arm_crash(n: u64) {
    world(|w| w.crash_in = Some(n));
}
pub fn disarm_crash() {
    world(|w| w.crash_in = None);
}
pub fn set_fault(rate: u64, kinds: u64) {
    world(|w| {
        w.fault = rate;
        w.fault_kinds = kinds;
    });
}
pub fn crashed() -> bool {
    world(|w| w.crashed)
}
pub fn rejected() -> u64 {
    world(|w| w.rejected)
}
/// number of entries of a cache
pub fn entries(cache: &str) -> Vec<(String, usize)> {
    world(|w| w.caches.get(cache).map(|c| c.entries.borrow().iter().map(|(u, d)| (u.clone(), d.len())).collect()).unwrap_or_default())
}

#[derive(Clone)]
enum Val {
    Undefined,
    Bool(bool),
    Str(String),
    Error(String),
    Bytes(Rc<Vec<u8>>),
    Blob(Rc<Vec<u8>>),
    Response(Rc<Vec<u8>>),
    Request(String),
    Cache(Rc<CacheObj>),
    Scope,
    Array(Rc<Vec<JsValue>>),
    Promise(Promise),
}
#[derive(Clone)]
pub struct JsValue(Val);

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.0 {
            Val::Undefined => write!(f, "JsValue(undefined)"),
            Val::Bool(b) => write!(f, "JsValue({})", b),
            Val::Str(s) => write!(f, "JsValue({:?})", s),
            Val::Error(s) => write!(f, "JsValue({})", s),
            Val::Cache(c) => write!(f, "JsValue(Cache {})", c.name),
            _ => write!(f, "JsValue(Object)"),
        }
    }
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Val::Undefined);
    pub const NULL: JsValue = JsValue(Val::Undefined);
    pub fn as_bool(&self) -> Option<bool> {
        match self.0 {
            Val::Bool(b) => Some(b),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Val::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Val::Undefined)
    }
    pub fn is_null(&self) -> bool {
        false
    }
    pub fn is_truthy(&self) -> bool {
        !matches!(self.0, Val::Undefined | Val::Bool(false))
    }
    pub fn from_str(s: &str) -> Self {
        JsValue(Val::Str(s.into()))
    }
    pub fn from_bool(b: bool) -> Self {
        JsValue(Val::Bool(b))
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        JsValue(Val::Str(s.into()))
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        JsValue(Val::Str(s))
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        JsValue(Val::Bool(b))
    }
}
fn error(s: &str) -> JsValue {
    JsValue(Val::Error(s.into()))
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn unchecked_from_js(v: JsValue) -> Self;
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        Ok(T::unchecked_from_js(self.into()))
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl JsCast for JsValue {
    fn unchecked_from_js(v: JsValue) -> Self {
        v
    }
}
macro_rules! object {
    ($($n:ident)*) => {$(
        #[derive(Clone)]
        pub struct $n(pub(crate) crate::JsValue);
        impl std::fmt::Debug for $n {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, concat!(stringify!($n), " {{ obj: {:?} }}"), self.0)
            }
        }
        impl From<crate::JsValue> for $n {
            fn from(v: crate::JsValue) -> Self {
                $n(v)
            }
        }
        impl From<$n> for crate::JsValue {
            fn from(v: $n) -> Self {
                v.0
            }
        }
        impl AsRef<crate::JsValue> for $n {
            fn as_ref(&self) -> &crate::JsValue {
                &self.0
            }
        }
        impl crate::JsCast for $n {
            fn unchecked_from_js(v: crate::JsValue) -> Self {
                $n(v)
            }
        }
    )*};
}

pub const PUT: u64 = 1;
pub const DELETE: u64 = 2;
pub const MATCH: u64 = 4;
pub const BODY: u64 = 8;
pub const KEYS: u64 = 16;
pub const OPEN: u64 = 32;

type Effect = Box<dyn FnOnce() -> Result<JsValue, JsValue>>;
/// Something the browser does on its own time
#[derive(Clone)]
pub struct Promise(Rc<(u64, String, RefCell<Option<Effect>>)>);
impl Promise {
    fn new(kind: u64, what: String, f: impl FnOnce() -> Result<JsValue, JsValue> + 'static) -> Self {
        Promise(Rc::new((kind, what, RefCell::new(Some(Box::new(f))))))
    }
}
impl From<Promise> for JsValue {
    fn from(p: Promise) -> Self {
        JsValue(Val::Promise(p))
    }
}

pub struct JsFuture {
    p: Promise,
    delay: Option<u64>,
    dead: bool,
}
impl From<Promise> for JsFuture {
    fn from(p: Promise) -> Self {
        JsFuture { p, delay: None, dead: false }
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let c = ctx();
        c.step();
        if self.dead {
            return Poll::Pending;
        }
        if self.delay.is_none() {
            let d = if world(|w| w.delays) && c.chance(1, 4) { c.range(1, 3) } else { 0 };
            self.delay = Some(d);
        }
        if let Some(d) = self.delay.filter(|d| *d > 0) {
            self.delay = Some(d - 1);
            c.sim_ns += 100_000;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        c.sim_ns += 500_000;
        let (kind, what) = (self.p.0 .0, self.p.0 .1.clone());
        let (crash, fault) = world(|w| {
            w.promises += 1;
            let crash = match &mut w.crash_in {
                Some(0) => true,
                Some(n) => {
                    *n -= 1;
                    false
                }
                None => false,
            };
            (crash, if w.fault_kinds & kind != 0 { w.fault } else { 0 })
        });
        if crash {
            if c.draw(2) == 1 {
                c.count("fault.crash_after_effect");
                ev!("    {}; the worker dies before it hears of it", what);
                if let Some(f) = self.p.0 .2.borrow_mut().take() {
                    let _ = f();
                }
            } else {
                c.count("fault.crash_before_effect");
                ev!("    the worker dies before {}", what);
            }
            world(|w| w.crashed = true);
            self.dead = true;
            return Poll::Pending;
        }
        if fault > 0 && c.chance(fault, 16) {
            c.count(match kind {
                PUT => "fault.reject_put",
                DELETE => "fault.reject_delete",
                MATCH => "fault.reject_match",
                BODY => "fault.reject_body",
                KEYS => "fault.reject_keys",
                _ => "fault.reject_open",
            });
            ev!("    {}: rejected", what);
            world(|w| w.rejected += 1);
            return Poll::Ready(Err(error("QuotaExceededError")));
        }
        let f = self.p.0 .2.borrow_mut().take();
        let r = match f {
            Some(f) => f(),
            None => Err(error("promise awaited twice")),
        };
        ev!("    {}{}", what, if r.is_err() { ": error" } else { "" });
        Poll::Ready(r)
    }
}

/// Threads of the real executor are tasks here; `block_on` runs them
#[derive(Clone, Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub async fn new(_threads: usize) -> Result<Self, JsValue> {
        Ok(ThreadPool)
    }
    pub fn here() -> Self {
        ThreadPool
    }
    pub fn spawn_lazy<F>(&self, f: F)
    where
        F: FnOnce() -> LocalBoxFuture<'static, ()> + 'static,
    {
        let t = f();
        world(|w| w.tasks.push(Some(t)));
    }
}

/// Drive the simulated worker until `fut` is done
pub fn block_on<F: Future>(fut: F) -> F::Output {
    let mut fut = Box::pin(fut);
    let waker = futures::task::noop_waker();
    let mut cx = Context::from_waker(&waker);
    let idle = Cell::new(0);
    loop {
        ctx().step();
        if let Poll::Ready(v) = fut.as_mut().poll(&mut cx) {
            return v;
        }
        if crashed() {
            // everything the worker had in memory is gone
            let tasks = world(|w| std::mem::take(&mut w.tasks));
            drop(tasks);
        }
        let n = world(|w| w.tasks.len());
        if n == 0 {
            idle.set(idle.get() + 1);
            if idle.get() > 2 {
                panic!("nobody is left who could answer");
            }
            continue;
        }
        let first = if n > 1 { ctx().draw(n as u64) as usize } else { 0 };
        for k in 0..n {
            let i = (first + k) % n;
            let t = world(|w| w.tasks[i].take());
            if let Some(mut t) = t {
                if t.as_mut().poll(&mut cx).is_pending() {
                    world(|w| w.tasks[i] = Some(t));
                }
            }
            if crashed() {
                break;
            }
        }
        world(|w| w.tasks.retain(|t| t.is_some()));
    }
}

pub mod js {
    pub use crate::Promise;
    use crate::{error, JsValue, Val};
    use std::rc::Rc;
    object!(ArrayBuffer Uint8Array Array Object JsString Function);

    impl ArrayBuffer {
        pub(crate) fn of(d: Vec<u8>) -> JsValue {
            JsValue(Val::Bytes(Rc::new(d)))
        }
        fn data(&self) -> Rc<Vec<u8>> {
            match &self.0 .0 {
                Val::Bytes(d) => d.clone(),
                _ => Rc::new(vec![]),
            }
        }
        pub fn byte_length(&self) -> u32 {
            self.data().len() as u32
        }
        pub fn slice_with_end(&self, begin: u32, end: u32) -> ArrayBuffer {
            let d = self.data();
            let e = (end as usize).min(d.len());
            let b = (begin as usize).min(e);
            ArrayBuffer(ArrayBuffer::of(d[b..e].to_vec()))
        }
        pub fn slice(&self, begin: u32) -> ArrayBuffer {
            self.slice_with_end(begin, u32::MAX)
        }
    }
    impl Uint8Array {
        pub fn new(v: &(impl AsRef<JsValue> + ?Sized)) -> Self {
            Uint8Array(v.as_ref().clone())
        }
        fn data(&self) -> Rc<Vec<u8>> {
            match &self.0 .0 {
                Val::Bytes(d) => d.clone(),
                _ => Rc::new(vec![]),
            }
        }
        pub fn length(&self) -> u32 {
            self.data().len() as u32
        }
        pub fn byte_length(&self) -> u32 {
            self.length()
        }
        pub fn to_vec(&self) -> Vec<u8> {
            self.data().to_vec()
        }
        /// like the real one: the lengths must agree
        #[track_caller]
        pub fn copy_to(&self, dst: &mut [u8]) {
            let d = self.data();
            assert_eq!(d.len(), dst.len(), "Uint8Array::copy_to: lengths differ");
            dst.copy_from_slice(&d);
        }
        pub fn subarray(&self, begin: u32, end: u32) -> Uint8Array {
            let d = self.data();
            let e = (end as usize).min(d.len());
            let b = (begin as usize).min(e);
            Uint8Array(ArrayBuffer::of(d[b..e].to_vec()))
        }
    }
    impl From<&[u8]> for Uint8Array {
        fn from(d: &[u8]) -> Self {
            Uint8Array(ArrayBuffer::of(d.to_vec()))
        }
    }
    impl Array {
        pub fn from(v: &JsValue) -> Self {
            Array(v.clone())
        }
        pub fn iter(&self) -> impl Iterator<Item = JsValue> {
            match &self.0 .0 {
                Val::Array(a) => a.to_vec().into_iter(),
                _ => vec![].into_iter(),
            }
        }
        pub fn to_vec(&self) -> Vec<JsValue> {
            self.iter().collect()
        }
        pub fn length(&self) -> u32 {
            self.iter().count() as u32
        }
        pub fn get(&self, i: u32) -> JsValue {
            self.iter().nth(i as usize).unwrap_or(JsValue(Val::Undefined))
        }
    }
    impl From<JsString> for String {
        fn from(s: JsString) -> String {
            match s.0 .0 {
                Val::Str(s) => s,
                _ => String::new(),
            }
        }
    }
    pub struct JSON;
    impl JSON {
        pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
            Ok(JsString(JsValue(Val::Str(format!("{:?}", v)))))
        }
        pub fn parse(s: &str) -> Result<JsValue, JsValue> {
            Err(error(s))
        }
    }
    pub struct Date;
    impl Date {
        /// milliseconds of simulated time
        pub fn now() -> f64 {
            simrt::ctx::ctx().sim_ns as f64 / 1e6
        }
    }
    pub fn global() -> Object {
        Object(JsValue(Val::Scope))
    }
}

pub mod web {
    use crate::js::{Array, ArrayBuffer};
    use crate::*;
    object!(DedicatedWorkerGlobalScope WorkerGlobalScope WorkerLocation CacheStorage Cache Request Response Blob Navigator StorageManager);

    fn url(s: &str) -> Result<String, JsValue> {
        let base = url::Url::parse(ORIGIN).unwrap();
        let mut u = base.join(s).map_err(|_| error("TypeError: invalid URL"))?;
        u.set_fragment(None);
        Ok(u.to_string())
    }
    fn path(u: &str) -> &str {
        u.split('?').next().unwrap()
    }

    impl DedicatedWorkerGlobalScope {
        pub fn caches(&self) -> Result<CacheStorage, JsValue> {
            Ok(CacheStorage(JsValue(Val::Scope)))
        }
        pub fn location(&self) -> WorkerLocation {
            WorkerLocation(JsValue(Val::Scope))
        }
    }
    impl WorkerLocation {
        pub fn origin(&self) -> String {
            ORIGIN.into()
        }
    }
    impl CacheStorage {
        pub fn open(&self, name: &str) -> Promise {
            let name = name.to_string();
            Promise::new(OPEN, format!("caches.open({})", name), move || {
                let c = world(|w| {
                    w.caches
                        .entry(name.clone())
                        .or_insert_with(|| Rc::new(CacheObj { name: name.clone(), entries: Default::default() }))
                        .clone()
                });
                Ok(JsValue(Val::Cache(c)))
            })
        }
        pub fn delete(&self, name: &str) -> Promise {
            let name = name.to_string();
            Promise::new(DELETE, format!("caches.delete({})", name), move || {
                let c = world(|w| w.caches.remove(&name));
                Ok(JsValue(Val::Bool(c.is_some())))
            })
        }
        pub fn has(&self, name: &str) -> Promise {
            let name = name.to_string();
            Promise::new(KEYS, format!("caches.has({})", name), move || Ok(JsValue(Val::Bool(world(|w| w.caches.contains_key(&name))))))
        }
        pub fn keys(&self) -> Promise {
            Promise::new(KEYS, "caches.keys()".into(), move || {
                Ok(JsValue(Val::Array(Rc::new(world(|w| w.caches.keys().map(|k| JsValue(Val::Str(k.clone()))).collect())))))
            })
        }
    }
    #[derive(Debug, Clone, Default)]
    pub struct CacheQueryOptions {
        ignore_search: bool,
    }
    impl CacheQueryOptions {
        pub fn new() -> Self {
            Self::default()
        }
        pub fn ignore_method(&mut self, _: bool) -> &mut Self {
            self
        }
        pub fn ignore_search(&mut self, v: bool) -> &mut Self {
            self.ignore_search = v;
            self
        }
        pub fn ignore_vary(&mut self, _: bool) -> &mut Self {
            self
        }
        pub fn set_ignore_method(&self, _: bool) {}
        pub fn set_ignore_search(&mut self, v: bool) {
            self.ignore_search = v;
        }
    }
    impl Cache {
        fn obj(&self) -> Rc<CacheObj> {
            match &self.0 .0 {
                Val::Cache(c) => c.clone(),
                _ => Rc::new(CacheObj::default()),
            }
        }
        pub fn put_with_str(&self, request: &str, response: &Response) -> Promise {
            let (o, request, response) = (self.obj(), request.to_string(), response.clone());
            Promise::new(PUT, format!("{}.put({}, {} bytes)", o.name, request, response.data().map(|d| d.len()).unwrap_or(0)), move || {
                let u = url(&request)?;
                let d = response.data()?;
                let mut e = o.entries.borrow_mut();
                e.retain(|x| x.0 != u);
                e.push((u, d));
                Ok(JsValue(Val::Undefined))
            })
        }
        pub fn match_with_str(&self, request: &str) -> Promise {
            let (o, request) = (self.obj(), request.to_string());
            Promise::new(MATCH, format!("{}.match({})", o.name, request), move || {
                let u = url(&request)?;
                let e = o.entries.borrow();
                Ok(match e.iter().find(|x| x.0 == u) {
                    Some(x) => JsValue(Val::Response(x.1.clone())),
                    None => JsValue(Val::Undefined),
                })
            })
        }
        pub fn delete_with_str(&self, request: &str) -> Promise {
            self.delete_with_str_and_options(request, &CacheQueryOptions::new())
        }
        pub fn delete_with_str_and_options(&self, request: &str, options: &CacheQueryOptions) -> Promise {
            let (o, request, all) = (self.obj(), request.to_string(), options.ignore_search);
            Promise::new(DELETE, format!("{}.delete({}{})", o.name, request, if all { ", ignoreSearch" } else { "" }), move || {
                let u = url(&request)?;
                let mut e = o.entries.borrow_mut();
                let n = e.len();
                e.retain(|x| if all { path(&x.0) != path(&u) } else { x.0 != u });
                Ok(JsValue(Val::Bool(e.len() != n)))
            })
        }
        pub fn keys(&self) -> Promise {
            let o = self.obj();
            Promise::new(KEYS, format!("{}.keys()", o.name), move || {
                let v = o.entries.borrow().iter().map(|x| JsValue(Val::Request(x.0.clone()))).collect();
                Ok(JsValue(Val::Array(Rc::new(v))))
            })
        }
    }
    impl Request {
        pub fn url(&self) -> String {
            match &self.0 .0 {
                Val::Request(u) => u.clone(),
                _ => String::new(),
            }
        }
    }
    impl Response {
        pub fn new_with_opt_u8_array(d: Option<&mut [u8]>) -> Result<Response, JsValue> {
            Ok(Response(JsValue(Val::Response(Rc::new(d.map(|d| d.to_vec()).unwrap_or_default())))))
        }
        fn data(&self) -> Result<Rc<Vec<u8>>, JsValue> {
            match &self.0 .0 {
                Val::Response(d) => Ok(d.clone()),
                _ => Err(error("TypeError: not a response")),
            }
        }
        pub fn ok(&self) -> bool {
            self.data().is_ok()
        }
        pub fn blob(&self) -> Result<Promise, JsValue> {
            let d = self.data()?;
            Ok(Promise::new(BODY, "response.blob()".into(), move || Ok(JsValue(Val::Blob(d)))))
        }
        pub fn array_buffer(&self) -> Result<Promise, JsValue> {
            let d = self.data()?;
            Ok(Promise::new(BODY, "response.arrayBuffer()".into(), move || Ok(ArrayBuffer::of(d.to_vec()))))
        }
    }
    impl Blob {
        fn data(&self) -> Result<Rc<Vec<u8>>, JsValue> {
            match &self.0 .0 {
                Val::Blob(d) => Ok(d.clone()),
                _ => Err(error("TypeError: not a blob")),
            }
        }
        pub fn size(&self) -> f64 {
            self.data().map(|d| d.len()).unwrap_or(0) as f64
        }
        pub fn slice_with_i32_and_i32(&self, start: i32, end: i32) -> Result<Blob, JsValue> {
            let d = self.data()?;
            let n = d.len() as i64;
            let at = |x: i32| if x < 0 { (n + x as i64).max(0) } else { (x as i64).min(n) };
            let (s, e) = (at(start), at(end));
            Ok(Blob(JsValue(Val::Blob(Rc::new(d[s as usize..e.max(s) as usize].to_vec())))))
        }
        pub fn slice_with_f64_and_f64(&self, start: f64, end: f64) -> Result<Blob, JsValue> {
            self.slice_with_i32_and_i32(start as i32, end as i32)
        }
        pub fn array_buffer(&self) -> Promise {
            let d = self.data();
            Promise::new(BODY, "blob.arrayBuffer()".into(), move || Ok(ArrayBuffer::of(d?.to_vec())))
        }
    }
    #[allow(unused)]
    fn _unused(_: Array) {}
}
