//! Simulated heap: bump allocation at fixed addresses, never reused within a
//! run, with a shadow byte per byte, poisoned contents, chosen placement,
//! layout checks on release and injected allocation failures.
use crate::*;
use std::alloc::Layout;

pub const BASE: usize = 0x2000_0000_0000;
pub const SIZE: usize = 1 << 30;
const SHADOW: usize = 0x2100_0000_0000;
const TAB: usize = 0x2200_0000_0000; // one u64 (size | align<<48) per 16 bytes: id of the block starting in it
const G: usize = 16;

const S_NONE: u8 = 0;
const S_LIVE: u8 = 1;
const S_FREE: u8 = 2;

static mut READY: bool = false;
static mut TOP: usize = 0;
static mut LIVE_N: u64 = 0;
static mut LIVE_B: u64 = 0;
static mut TOTAL_N: u64 = 0;
static mut FAULTS: bool = false;
static mut FAILED: bool = false;

#[repr(C)]
#[derive(Copy, Clone)]
struct Ent {
    addr: u64,
    size: u64,
    align: u32,
    state: u32,
}

/// Map the address ranges. Called once, in the parent.
pub fn init() {
    unsafe {
        for (a, n) in [(BASE, SIZE), (SHADOW, SIZE), (TAB, SIZE / G * std::mem::size_of::<Ent>())] {
            // MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
            let r = sys::raw_syscall(9, a as i64, n as i64, 3, 0x2 | 0x20 | 0x4000 | 0x100000, -1, 0);
            if r != a as i64 {
                panic!("cannot map the simulated heap: {}", r);
            }
        }
        READY = true;
    }
}

pub fn enable_faults(on: bool) {
    unsafe { FAULTS = on }
}
/// Has an allocation failure been injected?
pub fn failure_injected() -> bool {
    unsafe { FAILED }
}
pub fn live_count() -> u64 {
    unsafe { LIVE_N }
}
pub fn live_bytes() -> u64 {
    unsafe { LIVE_B }
}
pub fn total_allocs() -> u64 {
    unsafe { TOTAL_N }
}

#[inline(always)]
pub fn owns(p: *const u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE
}

#[inline]
unsafe fn ent(p: usize) -> *mut Ent {
    (TAB as *mut Ent).add((p - BASE) / G)
}

unsafe fn set_shadow(p: usize, n: usize, v: u8) {
    sys::fill((SHADOW + (p - BASE)) as *mut u8, v, n);
}

pub unsafe fn alloc(l: Layout, zero: bool) -> *mut u8 {
    bump(S_SUT_ALLOCS);
    if !READY {
        harness_error("heap not ready");
    }
    if FAULTS && !FAILED {
        if next(ALLOC) == 1 {
            FAILED = true;
            bump(F_ALLOC_FAIL);
            ev(0xA110C);
            return std::ptr::null_mut();
        }
    }
    let n = l.size();
    let al = l.align();
    let c = next(PLACE);
    // every block starts in a fresh granule, at least one granule after the last
    let mut p = BASE + TOP + G;
    if al < G {
        // the least aligned address the request allows, or a luckier one
        p = (p + G - 1) & !(G - 1);
        p += match c % 4 {
            0 => 0,
            1 => al,
            2 => G - al,
            _ => (c as usize / 4 * al) % G,
        };
        if p % G != 0 {
            bump(F_MISPLACED);
        }
    } else {
        p = (p + al - 1) & !(al - 1);
        if c % 2 == 1 && p & (2 * al - 1) == 0 {
            p += al;
        }
    }
    if p + n + 2 * G > BASE + SIZE {
        // more than this run may use: not a fault of the code under test
        host(|| crate::end_ok());
    }
    TOP = (p + n - BASE + G - 1) / G * G;
    *ent(p) = Ent { addr: p as u64, size: n as u64, align: al as u32, state: 1 };
    set_shadow(p, n, S_LIVE);
    sys::fill(p as *mut u8, if zero { 0 } else { 0xA5 }, n);
    LIVE_N += 1;
    LIVE_B += n as u64;
    TOTAL_N += 1;
    p as *mut u8
}

pub unsafe fn dealloc(p: *mut u8, l: Layout) {
    let a = p as usize;
    let e = &mut *ent(a);
    if e.addr != a as u64 || e.state == 0 {
        host(|| fail_mem("bad-free", &format!("release of {:#x}, size {}, which is not the start of an allocation", a - BASE, l.size())));
        return;
    }
    if e.state == 2 {
        host(|| fail_mem("double-free", &format!("second release of the block of {} bytes", e.size)));
        return;
    }
    if e.size != l.size() as u64 || e.align != l.align() as u32 {
        host(|| {
            fail_mem(
                "mismatched-free",
                &format!("block obtained with size {} align {} released with size {} align {}", e.size, e.align, l.size(), l.align()),
            )
        });
    }
    e.state = 2;
    set_shadow(a, e.size as usize, S_FREE);
    sys::fill(p, 0xDD, e.size as usize);
    LIVE_N -= 1;
    LIVE_B -= e.size;
}

pub unsafe fn realloc(p: *mut u8, l: Layout, new: usize) -> *mut u8 {
    let q = alloc(Layout::from_size_align_unchecked(new, l.align()), false);
    if !q.is_null() {
        sys::copy(q, p, l.size().min(new));
        dealloc(p, l);
    }
    q
}

/// The live allocation an address lies in (or just behind, if `end`).
pub fn block_of(p: *const u8, end: bool) -> Option<(usize, usize)> {
    unsafe {
        let a = p as usize;
        if a < BASE || a >= BASE + SIZE {
            return None;
        }
        let mut g = a & !(G - 1);
        loop {
            let e = &*ent(g);
            if e.state != 0 && e.addr as usize <= a {
                let lim = (e.addr + e.size) as usize;
                if a < lim || (a == lim && (end || e.size == 0)) {
                    return if e.state == 1 { Some((e.addr as usize, e.size as usize)) } else { None };
                }
                return None;
            }
            if g == BASE {
                return None;
            }
            g -= G;
        }
    }
}

/// Is the whole range inside live heap memory?
pub fn is_live(p: *const u8, n: usize) -> bool {
    unsafe {
        let a = p as usize;
        if a < BASE || a + n > BASE + SIZE {
            return false;
        }
        (0..n).all(|i| *((SHADOW + (a - BASE) + i) as *const u8) == S_LIVE)
    }
}

/// Memory access by the code under test.
#[inline]
pub fn check(p: usize, n: usize, write: bool) {
    let off = p.wrapping_sub(BASE);
    if off >= SIZE || n == 0 {
        return;
    }
    unsafe {
        let s = SHADOW as *const u8;
        let (a, b) = (*s.add(off), *s.add((off + n - 1).min(SIZE - 1)));
        if a != S_LIVE || b != S_LIVE {
            bad_access(off, n, write, if a != S_LIVE { a } else { b });
        }
    }
}

#[cold]
#[inline(never)]
fn bad_access(off: usize, n: usize, write: bool, st: u8) {
    host(|| {
        let k = if st == S_FREE { "use-after-free" } else { "out-of-bounds" };
        let _ = S_NONE;
        fail_mem(
            k,
            &format!("{} of {} bytes at heap offset {:#x}: {}", if write { "write" } else { "read" }, n, off,
                if st == S_FREE { "memory already released" } else { "memory never obtained" }),
        )
    })
}
