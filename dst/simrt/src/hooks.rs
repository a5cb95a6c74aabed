//! Callbacks the instrumented crates make at every basic block, load and store.
use crate::*;

static mut NGUARD: u32 = 0;

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut a: *mut u32, b: *mut u32) {
    if a == b || *a != 0 {
        return;
    }
    while a < b {
        NGUARD += 1;
        *a = NGUARD;
        a = a.add(1);
    }
}

pub fn guards() -> usize {
    unsafe { NGUARD as usize }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if SUT.get() != 0 && TID.get() != 0 {
        let id = *g;
        if (id as usize) < COVER_LEN {
            *COVER.add(id as usize) = 1;
        }
        sched::step(id);
    }
}

#[inline(always)]
fn access(p: usize, n: usize, w: bool) {
    if SUT.get() != 0 && TID.get() != 0 {
        bump(S_SUT_ACCESSES);
        // the access happens after this call: let others run first, then look
        sched::step(0x8000_0000 | w as u32);
        heap::check(p, n, w);
    }
}

macro_rules! acc {
    ($($n:ident $s:expr, $w:expr;)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(p: usize) { access(p, $s, $w) })* };
}
acc! {
    __sanitizer_cov_load1 1, false; __sanitizer_cov_load2 2, false; __sanitizer_cov_load4 4, false;
    __sanitizer_cov_load8 8, false; __sanitizer_cov_load16 16, false;
    __sanitizer_cov_store1 1, true; __sanitizer_cov_store2 2, true; __sanitizer_cov_store4 4, true;
    __sanitizer_cov_store8 8, true; __sanitizer_cov_store16 16, true;
}
