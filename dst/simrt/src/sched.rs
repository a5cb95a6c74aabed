//! Deterministic scheduler: real threads, exactly one of which holds the token.
//! It decides preemptions (after a chosen number of steps), who runs next, the
//! order of wake-ups, spurious wake-ups and stalls.
use crate::*;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 9; // thread ids 1..=8

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum St {
    Unused,
    Runnable,
    Blocked,
    Sleeping,
    Stalled,
    Done,
}

pub struct Th {
    pub st: St,
    addr: usize,
    bitset: u32,
    deadline: u64, // u64::MAX: none
    timed_out: bool,
    steps: u64,
    /// which steps were spent waiting: number of times this thread blocked
    pub blocks: u64,
    /// harness-defined description of the operation in progress
    pub op: [i64; 4],
}

const NEW: Th = Th { st: St::Unused, addr: 0, bitset: 0, deadline: u64::MAX, timed_out: false, steps: 0, blocks: 0, op: [0; 4] };
static mut T: [Th; MAXT] = [NEW; MAXT];
static GO: [AtomicU32; MAXT] = [const { AtomicU32::new(0) }; MAXT];
static mut STEPS: u64 = 0;
static mut LIMIT: u64 = u64::MAX;
static mut SINCE_SWITCH: u64 = 0;
static mut COUNTDOWN: u64 = u64::MAX;
static mut NTH: usize = 0;
static mut CLOCK_EXTRA: u64 = 0;
static mut STALL: Option<(u32, u64)> = None;
static mut STALL_ACTIVE: bool = false;
pub static mut ON_STALL: Option<fn(u32)> = None;
pub static mut CALL_LIMIT_HIT: u64 = 0;

const FAIR: u64 = 30_000;

pub fn th(i: u32) -> &'static mut Th {
    unsafe { &mut T[i as usize] }
}
pub fn now_ns() -> u64 {
    unsafe { STEPS + CLOCK_EXTRA }
}
pub fn steps() -> u64 {
    unsafe { STEPS }
}

/// Start a run on the calling thread, which becomes thread 1.
pub fn begin(limit: u64) {
    unsafe {
        T = [NEW; MAXT];
        T[1].st = St::Runnable;
        NTH = 1;
        STEPS = 0;
        LIMIT = limit;
        COUNTDOWN = u64::MAX;
        STALL = None;
        STALL_ACTIVE = false;
        TID.set(1);
    }
}

pub fn set_limit(limit: u64) {
    unsafe { LIMIT = limit }
}

pub fn end() {
    TID.set(0);
    unsafe {
        if !RES.is_null() {
            (*RES).steps = STEPS;
        }
    }
}

/// Stall thread `t` at its `k`-th step from now on.
pub fn plan_stall(t: u32, k: u64) {
    unsafe { STALL = Some((t, k)) }
}

fn arm() {
    unsafe {
        COUNTDOWN = if NTH > 1 {
            match next(GAP) {
                0 => u64::MAX,
                g => g as u64,
            }
        } else {
            u64::MAX
        };
    }
}

#[inline]
pub fn step(loc: u32) {
    unsafe {
        STEPS += 1;
        if STEPS > LIMIT {
            no_progress();
        }
        if NTH > 1 {
            slow_step(loc);
        }
    }
}

#[cold]
fn no_progress() -> ! {
    SUT.set(0);
    unsafe {
        let op = T[TID.get() as usize].op;
        fail("no-progress", &format!("thread {} still running after {} steps, operation {:?}", TID.get(), LIMIT, op))
    }
}

fn slow_step(loc: u32) {
    unsafe {
        let me = TID.get();
        SINCE_SWITCH += 1;
        let t = &mut T[me as usize];
        t.steps += 1;
        if let Some((s, k)) = STALL {
            if s == me && t.steps >= k {
                STALL = None;
                bump(F_STALL);
                host(|| {
                    T[me as usize].st = St::Stalled;
                    STALL_ACTIVE = true;
                    note(me, loc);
                    switch_away();
                });
                return;
            }
        }
        if COUNTDOWN != u64::MAX {
            COUNTDOWN -= 1;
            if COUNTDOWN == 0 {
                host(|| preempt(loc));
            }
        } else if SINCE_SWITCH > FAIR {
            host(|| preempt(loc));
        }
    }
}

fn note(tid: u32, loc: u32) {
    unsafe {
        if !RES.is_null() {
            (*RES).switches += 1;
            (*RES).schedhash = mix((*RES).schedhash, ((tid as u64) << 32) | loc as u64);
        }
    }
}

fn preempt(loc: u32) {
    let me = TID.get();
    if let Some(n) = pick(me, false) {
        bump(F_PREEMPT);
        note(me, loc);
        hand_to(n);
    } else {
        unsafe { SINCE_SWITCH = 0 };
    }
    arm();
}

/// A scheduling point at an operation boundary.
pub fn point() {
    unsafe {
        if TID.get() != 0 && NTH > 1 {
            slow_step(0x4000_0000);
        }
    }
}

pub fn yield_now() {
    unsafe {
        STEPS += 1;
        if STEPS > LIMIT {
            no_progress();
        }
    }
    let me = TID.get();
    if let Some(n) = pick(me, false) {
        note(me, 0x2000_0000);
        hand_to(n);
    }
}

pub fn sleep(ns: u64) {
    unsafe {
        STEPS += 1;
        if STEPS > LIMIT {
            no_progress();
        }
        let me = TID.get() as usize;
        T[me].st = St::Sleeping;
        T[me].deadline = now_ns().saturating_add(ns);
        switch_away();
    }
}

/// Choose another runnable thread, in cyclic order after `me` plus the drawn offset.
fn pick(me: u32, incl_me: bool) -> Option<u32> {
    unsafe {
        let mut c = [0u32; MAXT];
        let mut n = 0;
        for d in 1..=MAXT as u32 {
            let i = (me + d) % MAXT as u32;
            if i == me && !incl_me {
                continue;
            }
            if T[i as usize].st == St::Runnable {
                c[n] = i;
                n += 1;
            }
        }
        if n == 0 {
            return None;
        }
        let k = if n > 1 { next(TGT) as usize % n } else { 0 };
        Some(c[k])
    }
}

fn fwait(a: &AtomicU32, v: u32) {
    unsafe {
        sys::raw_syscall(202, a.as_ptr() as i64, 128, v as i64, 0, 0, 0);
    }
}
fn fwake(a: &AtomicU32) {
    unsafe {
        sys::raw_syscall(202, a.as_ptr() as i64, 129, 1, 0, 0, 0);
    }
}

fn give(n: u32) {
    unsafe { SINCE_SWITCH = 0 };
    GO[n as usize].store(1, Ordering::SeqCst);
    fwake(&GO[n as usize]);
}
fn take(me: u32) {
    let g = &GO[me as usize];
    while g.load(Ordering::SeqCst) == 0 {
        fwait(g, 0);
    }
    g.store(0, Ordering::SeqCst);
}

fn hand_to(n: u32) {
    let me = TID.get();
    if n == me {
        return;
    }
    give(n);
    take(me);
}

/// The calling thread cannot go on: pass the token and return when it may.
fn switch_away() {
    let me = TID.get();
    loop {
        if let Some(n) = pick(me, true) {
            if n != me {
                hand_to(n);
            }
            break;
        }
        // nobody can run: end a stall, then let time pass, then it is a deadlock
        if !wake_something(me) {
            break;
        }
    }
    arm();
}

/// Make progress possible when no thread is runnable. Never returns on deadlock.
fn wake_something(_me: u32) -> bool {
    unsafe {
        if STALL_ACTIVE {
            for i in 1..MAXT {
                if T[i].st == St::Stalled {
                    if let Some(f) = ON_STALL {
                        f(i as u32);
                    }
                    T[i].st = St::Runnable;
                }
            }
            STALL_ACTIVE = false;
            return true;
        }
        let mut best = 0;
        for i in 1..MAXT {
            let w = T[i].st == St::Sleeping || (T[i].st == St::Blocked && T[i].deadline != u64::MAX);
            if w && (best == 0 || T[i].deadline < T[best].deadline) {
                best = i;
            }
        }
        if best != 0 {
            if T[best].deadline > now_ns() {
                CLOCK_EXTRA += T[best].deadline - now_ns();
            }
            T[best].timed_out = T[best].st == St::Blocked;
            T[best].st = St::Runnable;
            T[best].deadline = u64::MAX;
            return true;
        }
        let mut s = String::new();
        for i in 1..MAXT {
            if T[i].st == St::Blocked {
                s.push_str(&format!(" thread {} in operation {:?};", i, T[i].op));
            }
        }
        fail("deadlock", &format!("every live thread waits for a lock:{}", s))
    }
}

/// The futex system call, for simulated threads.
pub fn futex(addr: usize, op: i64, val: i64, ts: i64, _e: i64, bits: i64) -> i64 {
    bump(S_FUTEX_CALLS);
    let cmd = op & 0x7f;
    unsafe {
        STEPS += 1;
        if STEPS > LIMIT {
            no_progress();
        }
        let me = TID.get() as usize;
        match cmd {
            0 | 9 => {
                let a = &*(addr as *const AtomicU32);
                if a.load(Ordering::SeqCst) != val as u32 {
                    return -11;
                }
                let w = next(WAKE);
                if w % 8 == 1 {
                    bump(F_SPURIOUS_WAKE);
                    if let Some(n) = pick(me as u32, false) {
                        hand_to(n);
                    }
                    return if w & 8 != 0 { -4 } else { 0 };
                }
                let t = &mut T[me];
                t.st = St::Blocked;
                t.addr = addr;
                t.bitset = if cmd == 9 { bits as u32 } else { u32::MAX };
                t.timed_out = false;
                t.blocks += 1;
                t.deadline = if ts != 0 {
                    let q = &*(ts as *const sys::Timespec);
                    let ns = (q.s as u64).saturating_mul(1_000_000_000).saturating_add(q.ns as u64);
                    if cmd == 9 { ns } else { now_ns().saturating_add(ns) }
                } else {
                    u64::MAX
                };
                bump(F_BLOCKED_SWITCH);
                note(me as u32, 0x1000_0000);
                switch_away();
                if T[me].timed_out {
                    return -110;
                }
                0
            }
            1 | 10 => {
                let mask = if cmd == 10 { bits as u32 } else { u32::MAX };
                let mut woken = 0;
                while woken < val.max(0).min(64) {
                    let mut c = [0usize; MAXT];
                    let mut n = 0;
                    for i in 1..MAXT {
                        if T[i].st == St::Blocked && T[i].addr == addr && T[i].bitset & mask != 0 {
                            c[n] = i;
                            n += 1;
                        }
                    }
                    if n == 0 {
                        break;
                    }
                    let k = if n > 1 { (next(WAKE) / 8) as usize % n } else { 0 };
                    if k != 0 {
                        bump(F_WAKE_REORDER);
                    }
                    T[c[k]].st = St::Runnable;
                    T[c[k]].deadline = u64::MAX;
                    woken += 1;
                }
                woken
            }
            _ => harness_error(&format!("futex command {} is not simulated", cmd)),
        }
    }
}

/// Run the given closures as simulated threads 2.. and wait until all are done.
/// The calling thread (1) takes part only by waiting.
pub fn run_threads(fs: Vec<Box<dyn FnOnce() + Send>>) {
    let n = fs.len();
    if n == 0 {
        return;
    }
    assert!(n < MAXT - 1, "too many threads");
    let me = TID.get();
    assert_eq!(me, 1);
    add(S_SIM_THREADS, n as u64);
    TID.set(0); // thread creation itself is not simulated
    let mut hs = vec![];
    for (i, f) in fs.into_iter().enumerate() {
        let id = (i + 2) as u32;
        unsafe {
            T[id as usize] = NEW;
            T[id as usize].st = St::Runnable;
        }
        hs.push(
            std::thread::Builder::new()
                .stack_size(512 * 1024)
                .spawn(move || {
                    take(id);
                    TID.set(id);
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    if r.is_err() {
                        harness_error("panic escaped from a simulated thread");
                    }
                    // pass the token on for good
                    unsafe { T[id as usize].st = St::Done };
                    note(id, 0x0800_0000);
                    let nx = loop {
                        if let Some(nx) = pick(id, false) {
                            break nx;
                        }
                        let waiting = unsafe { (2..MAXT).any(|i| !matches!(T[i].st, St::Done | St::Unused)) };
                        if !waiting {
                            break 1;
                        }
                        wake_something(id);
                    };
                    arm();
                    TID.set(0);
                    give(nx);
                })
                .expect("thread"),
        );
    }
    TID.set(1);
    unsafe {
        T[1].st = St::Done; // never picked; receives the token when all others are done
        NTH = n + 1;
    }
    let first = pick(1, false).unwrap();
    arm();
    hand_to(first);
    unsafe {
        T[1].st = St::Runnable;
        NTH = 1;
        for i in 2..MAXT {
            T[i].st = St::Unused;
        }
        COUNTDOWN = u64::MAX;
    }
    TID.set(0);
    for h in hs {
        h.join().expect("join");
    }
    TID.set(1);
}
