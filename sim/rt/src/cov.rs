//! Basic-block instrumentation of the code under test (LLVM SanitizerCoverage): preemption
//! points between any two basic blocks, and a coverage map for the evidence.
use crate::{alloc, sched};

static mut START: *mut u32 = std::ptr::null_mut();
static mut LEN: usize = 0;
static mut HIT: Vec<u8> = Vec::new();
/// basic blocks until the next preemption point, u64::MAX: never
pub static mut LEFT: u64 = u64::MAX;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(start: *mut u32, stop: *mut u32) {
    if start == stop || *start != 0 {
        return;
    }
    let n = (stop as usize - start as usize) / 4;
    for i in 0..n {
        LEN += 1;
        *start.add(i) = LEN as u32;
    }
    START = start;
}
#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    if !alloc::get_scope() {
        return;
    }
    let g = *guard as usize;
    let h = &mut *std::ptr::addr_of_mut!(HIT);
    if g < h.len() {
        h[g] = 1;
    }
    if LEFT != u64::MAX {
        if LEFT == 0 {
            sched::preempt(g as u32);
        } else {
            LEFT -= 1;
        }
    }
}
pub fn init() {
    unsafe {
        *std::ptr::addr_of_mut!(HIT) = vec![0; LEN + 1];
    }
}
pub fn snapshot() -> Vec<u8> {
    unsafe { (*std::ptr::addr_of!(HIT)).iter().skip(1).cloned().collect() }
}
