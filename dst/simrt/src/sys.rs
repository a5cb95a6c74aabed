//! The system-call and C-library seams.
use crate::*;
use std::arch::asm;

#[inline(always)]
pub unsafe fn raw_syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    r
}

pub fn exit_now(code: i32) -> ! {
    unsafe {
        loop {
            raw_syscall(231, code as i64, 0, 0, 0, 0, 0);
        }
    }
}

#[inline(always)]
pub unsafe fn copy(d: *mut u8, s: *const u8, n: usize) {
    asm!("rep movsb", inout("rcx") n => _, inout("rdi") d => _, inout("rsi") s => _, options(nostack, preserves_flags));
}
#[inline(always)]
pub unsafe fn fill(d: *mut u8, v: u8, n: usize) {
    asm!("rep stosb", inout("rcx") n => _, inout("rdi") d => _, in("al") v, options(nostack, preserves_flags));
}

extern "C" {
    fn __errno_location() -> *mut i32;
}
pub unsafe fn set_errno(e: i32) {
    *__errno_location() = e;
}

const SYS_FUTEX: i64 = 202;
const SYS_GETRANDOM: i64 = 318;
const SYS_SCHED_YIELD: i64 = 24;

/// Replaces libc's `syscall`, through which std reaches futex.
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if TID.get() != 0 {
        if n == SYS_FUTEX {
            let r = host(|| sched::futex(a as usize, b, c, d, e, f));
            if r < 0 {
                set_errno(-r as i32);
                return -1;
            }
            return r;
        }
        if n == SYS_GETRANDOM {
            entropy(a as *mut u8, b as usize);
            return b;
        }
        if n == SYS_SCHED_YIELD {
            host(sched::yield_now);
            return 0;
        }
    }
    let r = raw_syscall(n, a, b, c, d, e, f);
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        return -1;
    }
    r
}

unsafe fn entropy(p: *mut u8, n: usize) {
    for i in 0..n {
        *p.add(i) = next(RAND) as u8;
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, fl: u32) -> isize {
    if TID.get() != 0 {
        entropy(p, n);
        return n as isize;
    }
    raw_syscall(SYS_GETRANDOM, p as i64, n as i64, fl as i64, 0, 0, 0) as isize
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if TID.get() != 0 {
        host(sched::yield_now);
        return 0;
    }
    raw_syscall(SYS_SCHED_YIELD, 0, 0, 0, 0, 0, 0) as i32
}

#[repr(C)]
pub struct Timespec {
    pub s: i64,
    pub ns: i64,
}

/// Inside the simulation time is the number of steps executed, in nanoseconds.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut Timespec) -> i32 {
    if TID.get() != 0 {
        let t = sched::now_ns();
        (*ts).s = (t / 1_000_000_000) as i64;
        (*ts).ns = (t % 1_000_000_000) as i64;
        return 0;
    }
    let r = raw_syscall(228, id as i64, ts as i64, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const Timespec, rem: *mut Timespec) -> i32 {
    if TID.get() != 0 {
        let ns = ((*req).s as u64).saturating_mul(1_000_000_000).saturating_add((*req).ns as u64);
        host(|| sched::sleep(ns));
        return 0;
    }
    let r = raw_syscall(35, req as i64, rem as i64, 0, 0, 0, 0);
    if r < 0 {
        set_errno(-r as i32);
        return -1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, fl: i32, req: *const Timespec, rem: *mut Timespec) -> i32 {
    if TID.get() != 0 {
        let mut ns = ((*req).s as u64).saturating_mul(1_000_000_000).saturating_add((*req).ns as u64);
        if fl & 1 != 0 {
            ns = ns.saturating_sub(sched::now_ns());
        }
        host(|| sched::sleep(ns));
        return 0;
    }
    -raw_syscall(230, id as i64, fl as i64, req as i64, rem as i64, 0, 0) as i32
}

// ------------------------------------------------------------ memory moves
// Block moves are library calls, so the instrumentation does not see them.

#[inline(always)]
fn chk(p: *const u8, n: usize, w: bool) {
    if SUT.get() != 0 && heap::owns(p) {
        heap::check(p as usize, n, w);
    }
}

#[no_mangle]
pub unsafe extern "C" fn memcpy(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    chk(s, n, false);
    chk(d, n, true);
    copy(d, s, n);
    d
}

#[no_mangle]
pub unsafe extern "C" fn memmove(d: *mut u8, s: *const u8, n: usize) -> *mut u8 {
    chk(s, n, false);
    chk(d, n, true);
    if (d as usize).wrapping_sub(s as usize) >= n {
        copy(d, s, n);
    } else {
        asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") d.wrapping_add(n).wrapping_sub(1) => _, inout("rsi") s.wrapping_add(n).wrapping_sub(1) => _, options(nostack));
    }
    d
}

#[no_mangle]
pub unsafe extern "C" fn memset(d: *mut u8, v: i32, n: usize) -> *mut u8 {
    chk(d, n, true);
    fill(d, v as u8, n);
    d
}

#[no_mangle]
pub unsafe extern "C" fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    chk(a, n, false);
    chk(b, n, false);
    let mut i = 0;
    while i + 8 <= n {
        if (a.add(i) as *const u64).read_unaligned() != (b.add(i) as *const u64).read_unaligned() {
            break;
        }
        i += 8;
    }
    while i < n {
        let (x, y) = (*a.add(i), *b.add(i));
        if x != y {
            return x as i32 - y as i32;
        }
        i += 1;
    }
    0
}

#[no_mangle]
pub unsafe extern "C" fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32 {
    memcmp(a, b, n)
}

pub fn force_link() -> usize {
    syscall as *const () as usize ^ memcpy as *const () as usize ^ getrandom as *const () as usize
}
