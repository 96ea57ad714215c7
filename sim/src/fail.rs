//! Failures, panic capture and the wrapper every call into the code under test goes through.
use simrt::{alloc, ctx};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const IDS: [&str; 22] = [
    "S01", "S02", "S03", "S04", "S05", "S06", "T01", "T02", "T03", "T04", "T05", "T06", "T07", "T08", "T09", "T10", "T11", "T12",
    "T13", "T14", "T15", "T17",
];
/// set of properties
pub type Props = u64;
pub mod p {
    use super::Props;
    pub const S01: Props = 1 << 0;
    pub const S02: Props = 1 << 1;
    pub const S03: Props = 1 << 2;
    pub const S04: Props = 1 << 3;
    pub const S05: Props = 1 << 4;
    pub const S06: Props = 1 << 5;
    pub const T01: Props = 1 << 6;
    pub const T02: Props = 1 << 7;
    pub const T03: Props = 1 << 8;
    pub const T04: Props = 1 << 9;
    pub const T05: Props = 1 << 10;
    pub const T06: Props = 1 << 11;
    pub const T07: Props = 1 << 12;
    pub const T08: Props = 1 << 13;
    pub const T09: Props = 1 << 14;
    pub const T10: Props = 1 << 15;
    pub const T11: Props = 1 << 16;
    pub const T12: Props = 1 << 17;
    pub const T13: Props = 1 << 18;
    pub const T14: Props = 1 << 19;
    pub const T15: Props = 1 << 20;
    pub const T17: Props = 1 << 21;
}
pub fn names(ps: Props) -> String {
    let v: Vec<&str> = (0..IDS.len()).filter(|i| ps >> i & 1 == 1).map(|i| IDS[i]).collect();
    v.join(",")
}
pub fn prop(id: &str) -> Option<Props> {
    IDS.iter().position(|x| *x == id).map(|i| 1 << i)
}

#[derive(Debug, Clone)]
pub struct Fail {
    pub props: Props,
    pub label: String,
    pub msg: String,
}
pub type R<T> = Result<T, Fail>;

pub fn fail<T>(props: Props, label: &str, msg: impl Into<String>) -> R<T> {
    let msg = msg.into();
    // whatever happens on the way out, this was the failure
    unsafe {
        let sh = &mut *ctx::ctx().shared;
        if sh.fail_props == 0 {
            sh.fail_props = props;
            put(&mut sh.msg, &mut sh.msg_len, &msg);
            put(&mut sh.label, &mut sh.label_len, label);
        }
    }
    Err(Fail { props, label: label.to_string(), msg })
}
pub fn put(buf: &mut [u8], len: &mut u64, s: &str) {
    let n = s.len().min(buf.len());
    buf[..n].copy_from_slice(&s.as_bytes()[..n]);
    *len = n as u64;
}
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $props:expr, $label:expr, $($arg:tt)*) => {
        if !$cond {
            return $crate::fail::fail($props, $label, format!($($arg)*));
        }
    };
}

/// An observation that is wrong for `props`. It ends the run only if the check in progress is
/// about one of them; otherwise it is counted and the run goes on, so that a defect of another
/// property does not hide what this check looks for.
pub fn soft(props: Props, label: &str, msg: String) -> R<()> {
    unsafe {
        let sh = &mut *ctx::ctx().shared;
        if sh.target & props != 0 {
            return fail(props, label, msg);
        }
        if sh.soft == 0 {
            put(&mut sh.msg, &mut sh.msg_len, &msg);
            put(&mut sh.label, &mut sh.label_len, label);
        }
        sh.soft += 1;
        sh.soft_props |= props;
    }
    simrt::ev!("anomaly of another property: {}", msg);
    Ok(())
}
#[macro_export]
macro_rules! soft {
    ($cond:expr, $props:expr, $label:expr, $($arg:tt)*) => {
        if !$cond {
            $crate::fail::soft($props, $label, format!($($arg)*))?;
        }
    };
}

pub struct LastPanic {
    pub loc: String,
    pub msg: String,
}
static mut LAST: Option<LastPanic> = None;

pub fn take_panic() -> LastPanic {
    unsafe {
        (*std::ptr::addr_of_mut!(LAST)).take().unwrap_or(LastPanic { loc: "?".into(), msg: "?".into() })
    }
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _h = alloc::harness();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else if info.payload().is::<ctx::StepLimit>() {
            "step bound exceeded: the operation does not terminate".into()
        } else {
            "non-string panic".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        unsafe {
            *std::ptr::addr_of_mut!(LAST) = Some(LastPanic { loc, msg });
        }
    }));
}

/// true if a panic location lies in the harness itself
pub fn harness_loc(loc: &str) -> bool {
    loc.starts_with("src/") || loc.starts_with("rt/") || loc.contains("/verif/")
}

/// The payload of a panic raised by a callback of the caller
pub struct CallerPanic;

/// Like `call`, for calls whose callbacks may panic: `None` if one did
pub fn call_unwinding<T>(props: Props, what: &str, f: impl FnOnce() -> T) -> R<Option<T>> {
    let mut hit = false;
    let r = call(props, what, || match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(e) if e.is::<CallerPanic>() => {
            let _h = alloc::harness();
            drop(e);
            hit = true;
            None
        }
        Err(e) => std::panic::resume_unwind(e),
    })?;
    debug_assert!(hit == r.is_none());
    Ok(r)
}

/// Call into the code under test. A panic becomes a failure of `props`.
pub fn call<T>(props: Props, what: &str, f: impl FnOnce() -> T) -> R<T> {
    let old = ctx::ctx().blame(props);
    let r = {
        let _s = alloc::sut();
        catch_unwind(AssertUnwindSafe(f))
    };
    let _h = alloc::harness();
    ctx::ctx().blame(old);
    match r {
        Ok(v) => Ok(v),
        Err(e) => {
            std::mem::forget(e);
            let lp = take_panic();
            let label = if harness_loc(&lp.loc) { "HARNESS" } else { "panic" };
            fail(props, label, format!("{} panicked at {}: {}", what, lp.loc, lp.msg))
        }
    }
}
