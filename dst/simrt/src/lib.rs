//! Simulation runtime. Owns every source of nondeterminism the code under test
//! meets: thread scheduling (token passing between real threads, preemption at
//! instrumented basic blocks and memory accesses), blocking (the futex system
//! call), memory (address placement, failing allocations), random numbers,
//! entropy and the clock. All choices come from the finite choice streams of
//! the case being run; an exhausted stream yields 0, which always means
//! "nothing unusual happens".
#![feature(thread_local)]
#![no_builtins]
#![allow(static_mut_refs, clippy::missing_safety_doc)]

pub mod heap;
pub mod hooks;
pub mod sched;
pub mod sys;

use std::cell::Cell;

// ------------------------------------------------------------ thread state

#[thread_local]
pub static TID: Cell<u32> = Cell::new(0);
#[thread_local]
pub static SUT: Cell<u32> = Cell::new(0);

/// Is the calling thread inside the code under test?
#[inline(always)]
pub fn in_sut() -> bool {
    SUT.get() != 0
}

pub struct Mode(u32);
impl Drop for Mode {
    #[inline]
    fn drop(&mut self) {
        SUT.set(self.0);
    }
}

/// Run `f` as code under test.
#[inline(never)]
pub fn sut<R>(f: impl FnOnce() -> R) -> R {
    let _m = Mode(SUT.replace(1));
    f()
}

/// Run `f` as simulator code called back from the code under test.
#[inline(never)]
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _m = Mode(SUT.replace(0));
    f()
}

// ---------------------------------------------------------- choice streams

pub const GAP: usize = 0; // steps until the next preemption
pub const TGT: usize = 1; // which thread runs next
pub const WAKE: usize = 2; // spurious wake-ups, which waiter is woken
pub const IO: usize = 3; // faults of the sink / source
pub const ALLOC: usize = 4; // allocation failures
pub const PLACE: usize = 5; // address placement
pub const RAND: usize = 6; // random numbers
pub const AUX: usize = 7; // second fault stream
pub const NS: usize = 8;
pub const STREAM_NAMES: [&str; NS] = ["gap", "tgt", "wake", "io", "alloc", "place", "rand", "aux"];

struct Stream {
    v: Vec<u32>,
    pos: usize,
}
static mut STREAMS: Vec<Stream> = Vec::new();

pub fn set_streams(s: &[Vec<u32>; NS]) {
    unsafe {
        STREAMS = s.iter().map(|v| Stream { v: v.clone(), pos: 0 }).collect();
    }
}

#[inline]
pub fn next(s: usize) -> u32 {
    unsafe {
        if s >= STREAMS.len() {
            return 0;
        }
        let st = &mut STREAMS[s];
        if st.pos < st.v.len() {
            st.pos += 1;
            st.v[st.pos - 1]
        } else {
            0
        }
    }
}

pub fn exhausted(s: usize) -> bool {
    unsafe { s >= STREAMS.len() || STREAMS[s].pos >= STREAMS[s].v.len() }
}

pub fn rand_u32() -> u32 {
    bump(S_RAND_DRAWS);
    next(RAND)
}

// ------------------------------------------------------------------ result

macro_rules! stats {
    ($($n:ident),* $(,)?) => {
        #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
        #[repr(usize)]
        enum StatIdx { $($n),*, COUNT }
        $(pub const $n: usize = StatIdx::$n as usize;)*
        pub const NSTAT: usize = StatIdx::COUNT as usize;
        pub const STAT_NAMES: [&str; NSTAT] = [$(stringify!($n)),*];
    };
}
stats! {
    // faults
    F_PREEMPT, F_BLOCKED_SWITCH, F_SPURIOUS_WAKE, F_WAKE_REORDER, F_STALL, F_STALL_BLOCKED_OTHERS,
    F_SHORT_WRITE, F_WRITE_EINTR, F_WRITE_ERR, F_WRITE_ZERO, F_DISK_FULL, F_FLUSH_ERR,
    F_SHORT_READ, F_READ_EINTR, F_READ_ERR, F_SEEK_ERR,
    F_CRASH, F_CRASH_LOST_TAIL, F_CRASH_TORN, F_CRASH_IN_RECORD,
    F_BITFLIP, F_OVERWRITE, F_ZERO, F_TRUNCATE, F_BLOCKS, F_GARBAGE_LOG,
    F_ALLOC_FAIL, F_MISPLACED, F_CMP_FAIL, F_DROP_PANIC, F_HOLDER_PANIC, F_TORN_VISIBLE, F_CMP_PANIC, F_DAMAGE, F_POLICY_PANIC,
    // rare conditions reached
    P_MULTI_FRAGMENT, P_TRAILER, P_EXACT_BLOCK_END, P_ZERO_AVAIL, P_EMPTY_RECORD, P_RECORDS, P_READ_ERR_RESULT,
    P_APPEND_ERR, P_APPEND_AFTER_ERR, P_OFFSET_MID_RECORD, P_OFFSET_IN_TRAILER, P_RESYNC,
    P_OVERWRITE_KEY, P_EVICT, P_GROWTH, P_COLLISION, P_HIT, P_MISS, P_OPS, P_CONCURRENT_OPS, P_POISONED,
    P_HELD_PAST_CACHE, P_ERASE_HIT, P_PRUNE,
    P_TRYLOCK_FAIL, P_TRYLOCK_OK, P_LOCK_WAITED, P_RECOVERED,
    P_NEW_BLOCK, P_LARGE_ALLOC, P_ZERO_ALLOC, P_MISALIGNED_KNOWN, P_OOM_REPORTED,
    P_TALL_TOWER, P_DUP_KEY, P_ITER_ACROSS_INSERT, P_INSERT_ERR, P_MEM_ADD, P_LEAK_CHECKED, P_LEAK_RETRY, P_READ_WHILE_WRITTEN, P_CMP_UNWOUND, P_POLLED_AFTER_END, P_CODE_REJECTED,
    S_RAND_DRAWS, S_SUT_ALLOCS, S_SUT_ACCESSES, S_FUTEX_CALLS, S_IO_CALLS, S_SIM_THREADS, S_LIN_STATES, S_COMPARISONS,
}

#[repr(C)]
pub struct RunResult {
    pub status: u32, // 0 none, 1 ok, 2 violation, 3 harness error
    pub nontrivial: u32,
    pub steps: u64,
    pub switches: u64,
    pub evhash: u64,
    pub schedhash: u64,
    pub kind: [u8; 64],
    pub msg: [u8; 3072],
    pub stats: [u64; NSTAT],
}

pub static mut RES: *mut RunResult = std::ptr::null_mut();
pub static mut COVER: *mut u8 = std::ptr::null_mut();
pub const COVER_LEN: usize = 1 << 16;

#[inline]
pub fn bump(i: usize) {
    add(i, 1)
}
#[inline]
pub fn add(i: usize, n: u64) {
    unsafe {
        if !RES.is_null() {
            (*RES).stats[i] += n;
        }
    }
}
pub fn stat(i: usize) -> u64 {
    unsafe { (*RES).stats[i] }
}

/// Mix a value into the event log hash.
#[inline]
pub fn ev(x: u64) {
    unsafe {
        if !RES.is_null() {
            (*RES).evhash = mix((*RES).evhash, x);
        }
    }
}
#[inline]
pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    z ^= z >> 29;
    z = z.wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z ^ (z >> 32)
}

fn put(dst: &mut [u8], s: &str) {
    let b = s.as_bytes();
    let mut n = b.len().min(dst.len() - 1);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    for (i, d) in dst.iter_mut().enumerate() {
        *d = if i < n { b[i] } else { 0 };
    }
}
pub fn get_str(b: &[u8]) -> String {
    let n = b.iter().position(|c| *c == 0).unwrap_or(b.len());
    String::from_utf8_lossy(&b[..n]).into_owned()
}

// ------------------------------------------------------- ending a run early

/// What kinds of violation the property being checked is about.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Judge {
    /// wrong behaviour counts, memory errors are left to C09 / C12 / C15
    Behaviour,
    /// both count
    Both,
    /// only memory errors count
    Memory,
}
pub static mut JUDGE: Judge = Judge::Both;
/// Called (as simulator code) just before a run ends, to print traces.
pub static mut ON_END: Option<fn(&str, &str)> = None;

fn finish(status: u32, kind: &str, msg: &str) -> ! {
    SUT.set(0);
    unsafe {
        if let Some(f) = ON_END {
            f(kind, msg);
        }
        if !RES.is_null() {
            (*RES).status = status;
            (*RES).steps = sched::steps();
            put(&mut (*RES).kind, kind);
            put(&mut (*RES).msg, msg);
        }
        sys::exit_now(0)
    }
}

/// The run showed wrong behaviour. Ends the run.
pub fn fail(kind: &str, msg: &str) -> ! {
    SUT.set(0);
    unsafe {
        if JUDGE == Judge::Memory {
            finish(1, "", "");
        }
    }
    finish(2, kind, msg)
}

/// The run showed a memory error. Ends the run if this property is about those.
pub fn fail_mem(kind: &str, msg: &str) {
    unsafe {
        if JUDGE == Judge::Behaviour {
            return;
        }
    }
    finish(2, kind, msg)
}

/// A fault was reported the way it must be and the process may end.
pub fn end_ok() -> ! {
    finish(1, "", "")
}

/// The harness itself is broken.
pub fn harness_error(msg: &str) -> ! {
    finish(3, "harness", msg)
}

#[macro_export]
macro_rules! vfail {
    ($k:expr, $($a:tt)*) => {{ $crate::SUT.set(0); $crate::fail($k, &format!($($a)*)) }};
}
