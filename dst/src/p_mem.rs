//! C12-C15: arena, skip list, memtable and what dropping them gives back,
//! over a simulated heap and a chosen source of randomness.
use crate::case::*;
use crate::p_log::nontrivial;
use crate::rng::Rng;
use crate::runner::{call, call_catch, panic_msg, trace};
use level_db_rust::util::arena::ArenaRef;
use level_db_rust::util::slice::Slice;
use level_db_rust::util::unsafe_slice::UnsafeSlice;
use simrt::*;
use std::cmp::Ordering;
use std::collections::HashMap;

// --------------------------------------------------------------------- C12
// row: [thread, kind, size mode, size, alignment, seed]

struct Block {
    ptr: usize,
    len: usize,
    seed: u64,
}

struct AEnv {
    arena: Option<ArenaRef>,
    blocks: Vec<Block>,
    views: Vec<(UnsafeSlice, Vec<u8>)>,
    /// handed out but not yet registered by a thread between lock and here
    handed: usize,
    last: usize,
    /// requests of no bytes begun
    zeros: u64,
}
static mut AENV: Option<AEnv> = None;
fn aenv() -> &'static mut AEnv {
    unsafe { AENV.as_mut().unwrap() }
}

fn pattern(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::from(seed);
    let mut v = Vec::with_capacity(len + 8);
    while v.len() < len {
        v.extend_from_slice(&r.u64().to_le_bytes());
    }
    v.truncate(len);
    v
}

const SIZES: &[i64] = &[0, 1, 2, 3, 7, 8, 9, 15, 16, 64, 100, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 1026, 2000, 2048, 3000, 4000, 4088, 4095, 4096, 4097, 5000, 8192, 20_000, 100_000];

pub fn gen_c12(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C12");
    let nt = r.pick(&[0i64, 0, 0, 2, 3]);
    c.cfg = vec![nt, r.chance(1, 6) as i64];
    let n = if i % 8 == 0 { 40 + r.below(80) } else { 1 + r.below(30) };
    let style = r.below(4);
    for _ in 0..n {
        let mode = if r.chance(1, 5) { 1 } else { 0 };
        let size = if mode == 1 {
            r.range(-3, 3)
        } else {
            match style {
                0 => r.below(40) as i64,
                1 => r.pick(SIZES),
                2 => r.below(1300) as i64,
                _ => r.skewed(9000) as i64,
            }
        };
        let size = if mode == 0 && r.chance(1, 2000) { (1 << r.range(16, 25)) + r.range(-3, 3) } else { size };
        let kind = r.pick(&[0i64, 0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 8]);
        c.ops.push(vec![r.below(3) as i64, kind, mode, size, r.below(9) as i64, r.below(1 << 30) as i64]);
    }
    if i % 1024 == 700 {
        // thousands of blocks of the arena's
        c.cfg = vec![0, 0];
        c.ops.truncate(6);
        let kind = r.pick(&[0i64, 1, 3, 4]);
        let size = r.pick(&[900, 1025, 1200, 2000, 4096]);
        c.ops.push(vec![0, kind, 0, size, r.below(9) as i64, r.below(1 << 30) as i64, r.pick(&[300, 1100, 4200, 8500])]);
        for k in [0, 3, 5] {
            c.ops.push(vec![0, k, 0, r.below(9) as i64 * 300, 0, r.below(1 << 30) as i64]);
        }
    }
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    if c.cfg[1] == 1 {
        let at = r.below(14);
        for _ in 0..at {
            c.st[ALLOC].push(0);
        }
        c.st[ALLOC].push(1);
    }
    c
}

fn overlap(b: &Block, o: &Block) -> bool {
    b.len > 0 && o.len > 0 && b.ptr < o.ptr + o.len && o.ptr < b.ptr + b.len
}

/// A block came out of the arena.
fn handed(ptr: usize, len: usize, want: usize, align: usize, seed: u64, fill: bool, what: &str) {
    let e = aenv();
    if len != want {
        vfail!("wrong-size", "{} of {} bytes gave {}", what, want, len);
    }
    if ptr == 0 {
        vfail!("invalid-memory", "{} of {} bytes gave a null pointer", what, want);
    }
    if ptr % align != 0 {
        // a zero-sized request leaves the start of the current block in place
        let fresh = heap::block_of(ptr as *const u8, true).is_none_or(|b| b.0 == ptr) && e.zeros == (want == 0) as u64;
        if fresh || !crate::known("C12", "allocate_align-in-current-block") {
            vfail!("misaligned", "{} of {} bytes at alignment {} gave an address that is {} past it{}", what, want, align, ptr % align, if fresh { ", at the start of a block" } else { ", inside the current block" });
        }
        bump(P_MISALIGNED_KNOWN);
    }
    if len > 0 && !heap::is_live(ptr as *const u8, len) {
        vfail!("invalid-memory", "{} of {} bytes gave memory that was not obtained from the system or was released", what, want);
    }
    let b = Block { ptr, len, seed };
    if let Some(o) = e.blocks.iter().chain(text_blocks().iter()).find(|o| overlap(&b, o)) {
        vfail!("overlap", "{} of {} bytes overlaps a block of {} bytes handed out before", what, want, o.len);
    }
    if len == 0 {
        bump(P_ZERO_ALLOC);
    }
    if len > 1024 {
        bump(P_LARGE_ALLOC);
    }
    if fill {
        let p = pattern(seed, len);
        unsafe { sys::copy(ptr as *mut u8, p.as_ptr(), len) };
    }
    e.last = ptr + len;
    ev(mix(40, len as u64));
    e.blocks.push(b);
}

fn verify_blocks() {
    let e = aenv();
    for (i, b) in e.blocks.iter().enumerate() {
        let have = unsafe { std::slice::from_raw_parts(b.ptr as *const u8, b.len) };
        if b.len > 0 && !heap::is_live(b.ptr as *const u8, b.len) {
            vfail!("invalid-memory", "block {} of {} bytes is no longer live", i, b.len);
        }
        if have != pattern(b.seed, b.len) {
            vfail!("contents-changed", "the contents of block {} of {} bytes changed", i, b.len);
        }
    }
    // by index: other threads may add views while this one is in a call
    for i in 0..e.views.len() {
        let (v, want) = aenv().views[i].clone();
        let (p, n) = call("UnsafeSlice::as_ref", || sut::uslice_bytes_of(&v));
        if n != want.len() || (n > 0 && !heap::is_live(p, n)) || unsafe { std::slice::from_raw_parts(p, n) } != &want[..] {
            vfail!("contents-changed", "a string of {} bytes in the arena changed", want.len());
        }
    }
}

fn verify_usage() {
    let e = aenv();
    let a = e.arena.as_ref().unwrap();
    let u = call("memory_usage", || sut::arena_usage(a));
    let handed: usize = e.blocks.iter().chain(text_blocks().iter()).map(|b| b.len).sum();
    if u < handed {
        vfail!("usage-too-low", "memory usage {} reported, {} bytes were handed out", u, handed);
    }
    let mut sys: HashMap<usize, usize> = HashMap::new();
    for b in e.blocks.iter().chain(text_blocks().iter()) {
        if let Some((s, n)) = heap::block_of(b.ptr as *const u8, true) {
            sys.insert(s, n);
        }
    }
    // everything the arena and its bookkeeping hold; no block is given back
    // before the arena is dropped
    let got = heap::live_bytes() as usize;
    if u > got {
        vfail!("usage-too-high", "memory usage {} reported, {} bytes were obtained from the system", u, got);
    }
    if sys.len() > 1 {
        bump(P_NEW_BLOCK);
    }
}

fn arow(r: &[i64], alone: bool) {
    let e = aenv();
    let a: *const ArenaRef = e.arena.as_ref().unwrap();
    let a = unsafe { &*a };
    let seed = f(r, 5) as u64 | (e.handed as u64) << 32;
    e.handed += 1;
    let size = if fm(r, 2, 2) == 1 && e.last != 0 {
        // what is left of the current block, give or take
        let left = heap::block_of(e.last as *const u8, true).map(|b| b.0 + b.1 - e.last).unwrap_or(0);
        (left as i64 + f(r, 3)).clamp(0, 1 << 20) as usize
    } else {
        fm(r, 3, (1 << 25) + 100)
    };
    let align = 1usize << fm(r, 4, 9);
    let kind = fm(r, 1, 9);
    if size == 0 && kind < 5 {
        e.zeros += 1;
    }
    bump(P_OPS);
    trace(|| format!("arena operation {} size {} alignment {}", kind, size, align));
    sched::th(TID.get()).op = [1 + kind as i64, size as i64, 0, 0];
    sched::point();
    if kind == 5 && seed & 24 == 24 && beyond(seed, size, align) {
        return;
    }
    let ok = call_catch(|| match kind {
        0 => {
            let (p, n) = sut::arena_alloc(a, size);
            host(|| handed(p as usize, n, size, 1, seed, true, "allocation"))
        }
        1 => {
            let (p, n) = sut::arena_alloc_align(a, size, align);
            host(|| handed(p as usize, n, size, align, seed, true, "aligned allocation"))
        }
        2 => {
            let v = host(|| pattern(seed, size));
            let s = Slice::from_buf(&v);
            let t = sut::slice_copy(&s, a.clone());
            let same = host(|| t.as_ref() == &v[..] && s.as_ref() == &v[..]);
            sut::drop_slice(s);
            sut::drop_slice(t);
            host(|| {
                drop(v);
                if !same {
                    vfail!("wrong-copy", "copying a slice of {} bytes through the arena changed it", size);
                }
            })
        }
        3 => {
            let v = host(|| pattern(seed, size));
            let u = sut::uslice_bytes(&v, a.clone());
            host(|| placed(u, v, seed))
        }
        4 => {
            let v: Vec<u8> = host(|| pattern(seed, size).iter().map(|b| b'a' + b % 26).collect());
            let s = host(|| String::from_utf8(v.clone()).unwrap());
            let u = if seed & 1 == 0 { sut::uslice_str(&s, a.clone()) } else { sut::uslice_string(s.clone(), a.clone()) };
            host(|| {
                drop(s);
                placed_raw(u, v)
            })
        }
        5 => {
            let n = host(|| aenv().views.len());
            if n > 0 {
                let (u, v) = host(|| aenv().views[seed as usize % n].clone());
                let st = if v.is_empty() { 0 } else { size % (v.len() + 1) };
                let ln = if v.len() == st { 0 } else { align % (v.len() - st + 1) };
                let s = sut::uslice_sub(&u, st, ln);
                host(|| {
                    let (p, n) = sut::uslice_bytes_of(&s);
                    if n != ln || unsafe { std::slice::from_raw_parts(p, n) } != &v[st..st + ln] {
                        vfail!("wrong-copy", "sub-slice {}..{} of {} bytes is wrong", st, st + ln, v.len());
                    }
                })
            }
        }
        6 => {
            let n = host(|| aenv().views.len());
            if n > 0 {
                let (u, v) = host(|| aenv().views[seed as usize % n].clone());
                let s = sut::uslice_to_slice(&u);
                let same = host(|| s.as_ref() == &v[..]);
                sut::drop_slice(s);
                host(|| {
                    if !same {
                        vfail!("wrong-copy", "copying a string of {} bytes out of the arena changed it", v.len());
                    }
                })
            }
        }
        7 => {
            if alone {
                host(verify_usage)
            }
        }
        _ => host(verify_blocks),
    });
    if ok.is_none() {
        if heap::failure_injected() {
            bump(P_OOM_REPORTED);
            end_ok();
        }
        vfail!("panic", "arena operation {} of size {} panicked: {}", kind, size, panic_msg());
    }
    if alone {
        verify_usage();
    }
    sched::th(TID.get()).op = [0; 4];
    sched::point();
}

/// A part reaching past the end of a string placed in the arena is refused.
fn beyond(seed: u64, size: usize, align: usize) -> bool {
    let n = aenv().views.len();
    if n == 0 {
        return false;
    }
    let (u, v) = aenv().views[seed as usize % n].clone();
    let st = size % (v.len() + 2);
    let ln = v.len().saturating_sub(st) + 1 + if seed & 32 == 32 { align } else { 0 };
    ev(mix(43, ln as u64));
    if let Some(s) = call_catch(|| sut::uslice_sub(&u, st, ln)) {
        vfail!("view-past-end", "sub-slice {}..{} of {} bytes gives {} bytes", st, st + ln, v.len(), s.len());
    }
    sched::th(TID.get()).op = [0; 4];
    sched::point();
    true
}

fn placed(u: Result<UnsafeSlice, ()>, v: Vec<u8>, seed: u64) {
    let Ok(u) = u else { vfail!("spurious-error", "placing {} bytes in the arena failed", v.len()) };
    let (p, n) = sut::uslice_bytes_of(&u);
    handed(p as usize, n, v.len(), 1, seed, false, "placing a string");
    if unsafe { std::slice::from_raw_parts(p, n) } != &v[..] {
        vfail!("wrong-copy", "a string of {} bytes placed in the arena differs", v.len());
    }
    aenv().views.push((u, v));
}

fn placed_raw(u: Result<UnsafeSlice, ()>, v: Vec<u8>) {
    let Ok(u) = u else { vfail!("spurious-error", "placing {} bytes in the arena failed", v.len()) };
    let (p, n) = sut::uslice_bytes_of(&u);
    // registered as a view only: its contents are text
    handed(p as usize, n, v.len(), 1, 0, false, "placing a string");
    let b = aenv().blocks.pop().unwrap();
    if unsafe { std::slice::from_raw_parts(p, n) } != &v[..] {
        vfail!("wrong-copy", "a string of {} bytes placed in the arena differs", v.len());
    }
    let e = aenv();
    e.views.push((u, v));
    text_blocks().push(b);
}
/// Blocks holding text: checked through the views, but they count.
fn text_blocks() -> &'static mut Vec<Block> {
    unsafe { &mut TEXT }
}
static mut TEXT: Vec<Block> = Vec::new();

pub fn run_c12(c: &Case) {
    let nt = c.c(0).unsigned_abs() as usize % 4;
    unsafe {
        AENV = Some(AEnv { arena: None, blocks: vec![], views: vec![], handed: 0, last: 0, zeros: 0 });
        TEXT.clear();
        sched::ON_STALL = None;
    }
    let a = call("Arena::default", sut::arena_ref);
    aenv().arena = Some(a);
    heap::enable_faults(c.c(1) & 1 == 1);
    if nt < 2 {
        for r in &c.ops {
            let more = fm(r, 6, 10_000);
            for _ in 0..more {
                arow(r, false);
            }
            arow(r, true);
        }
    } else {
        let mut per: Vec<Vec<Vec<i64>>> = vec![vec![]; nt];
        for o in &c.ops {
            per[fm(o, 0, nt)].push(o.clone());
        }
        add(P_CONCURRENT_OPS, c.ops.len() as u64);
        let fs: Vec<Box<dyn FnOnce() + Send>> = per
            .into_iter()
            .map(|rs| {
                Box::new(move || {
                    for r in &rs {
                        arow(r, false);
                    }
                }) as Box<dyn FnOnce() + Send>
            })
            .collect();
        sched::run_threads(fs);
        verify_usage();
    }
    verify_blocks();
    heap::enable_faults(false);
    nontrivial(stat(P_NEW_BLOCK) > 0 || stat(P_CONCURRENT_OPS) > 0);
    let e = unsafe { AENV.take() }.unwrap();
    call("drop of the arena", move || sut::drop_arena_ref(e.arena.unwrap()));
}

// ---------------------------------------------------------------- comparator

static mut CMP_ARMED: bool = false;
static mut CMP_ALL: bool = false;
static mut CMP_FAILED: u64 = 0;

static mut CMP_PANICKED: u64 = 0;

fn on_cmp(order: u8, a: &[u8], b: &[u8]) -> Result<Option<Ordering>, ()> {
    unsafe {
        if CMP_ARMED {
            let v = next(AUX) & 0xff;
            if v == 2 {
                CMP_PANICKED += 1;
                bump(F_CMP_PANIC);
                trace(|| "comparison panics".into());
                return Err(());
            }
            if CMP_ALL || v == 1 {
                CMP_FAILED += 1;
                bump(F_CMP_FAIL);
                trace(|| "comparison fails".into());
                return Ok(None);
            }
        }
    }
    Ok(Some(order_of(order, a, b)))
}

fn order_of(order: u8, a: &[u8], b: &[u8]) -> Ordering {
    match order % 5 {
        0 => a.cmp(b),
        1 => b.cmp(a),
        2 => a.len().cmp(&b.len()).then_with(|| a.cmp(b)),
        3 => {
            let l = |x: &[u8]| x.iter().map(|c| c.to_ascii_lowercase()).collect::<Vec<u8>>();
            l(a).cmp(&l(b))
        }
        _ => a.iter().rev().cmp(b.iter().rev()),
    }
}

// --------------------------------------------------------------------- C13
// row: [kind, key or iterator, ...]

const L_INSERT: usize = 0;
const L_CONTAINS: usize = 1;
const L_ITER: usize = 2;
const L_NEXT: usize = 3;
const L_STDNEXT: usize = 4;
const L_FIRST: usize = 5;
const L_LAST: usize = 6;
const L_AUDIT: usize = 7;
const L_STRING: usize = 8;

#[derive(Clone, PartialEq, Debug)]
enum Pos {
    Head,
    At(Vec<u8>),
    End,
}

fn lkey(style: i64, k: usize) -> Vec<u8> {
    match style.unsigned_abs() % 5 {
        0 => format!("k{:03}", k).into_bytes(),
        1 => {
            // prefixes of each other, the empty key first
            vec![b'p'; k % 40].into_iter().chain(if k >= 40 { vec![b'q'; k - 40] } else { vec![] }).collect()
        }
        2 => pattern(k as u64, k % 7 + 1), // any bytes
        3 => format!("{}{}", if k % 2 == 0 { 'A' } else { 'a' }, k / 2).into_bytes(), // pairs differ in case only
        _ => {
            let mut v = pattern(k as u64, (k * 37) % 1500);
            v.push(k as u8);
            v
        }
    }
}

pub fn gen_c13(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C13");
    let order = r.below(5) as i64;
    let fails = r.chance(1, 3);
    // order, key style, failures (2: every comparison from some row on), row at which all fail
    let all = if r.chance(1, 8) { 1 + r.below(20) as i64 } else { 0 };
    c.cfg = vec![order, r.below(5) as i64, fails as i64, all];
    let n = if i % 6 == 0 { 40 + r.below(80) } else { 1 + r.below(36) };
    let nk = r.pick(&[1u64, 3, 8, 20, 60]);
    let asc = r.below(4);
    let mut next = 0;
    for _ in 0..n {
        let kind = r.pick(&[0usize, 0, 0, 0, 0, 1, 2, 3, 3, 4, 4, 5, 6, 7]);
        let k = if kind == L_INSERT && asc == 0 {
            next += 1;
            next % 64
        } else if kind == L_INSERT && asc == 1 {
            next += 1;
            63 - next % 64
        } else {
            r.below(nk)
        };
        c.ops.push(vec![kind as i64, k as i64, r.below(4) as i64]);
    }
    if c.cfg[1] == 0 && r.chance(1, 4) {
        c.ops.push(vec![L_STRING as i64]);
    }
    gen_place(r, &mut c);
    gen_rand(r, &mut c, 2 * n);
    if fails {
        let d = r.pick(&[3, 15, 60]);
        gen_faults(r, &mut c, AUX, 200, &[1], d);
    }
    c
}

struct Model {
    order: u8,
    keys: Vec<Vec<u8>>, // in order
}
impl Model {
    fn find(&self, k: &[u8]) -> Result<usize, usize> {
        self.keys.binary_search_by(|x| order_of(self.order, x, k))
    }
    fn after(&self, p: &Pos) -> Pos {
        let i = match p {
            Pos::Head => 0,
            Pos::At(k) => match self.find(k) {
                Ok(i) => i + 1,
                Err(i) => i,
            },
            Pos::End => return Pos::End,
        };
        self.keys.get(i).map(|k| Pos::At(k.clone())).unwrap_or(Pos::End)
    }
}

fn sh(k: &[u8]) -> String {
    format!("{:?}{}", String::from_utf8_lossy(&k[..k.len().min(16)]), if k.len() > 16 { format!("..({} bytes)", k.len()) } else { String::new() })
}

fn us_vec(u: &UnsafeSlice) -> Vec<u8> {
    let (p, n) = sut::uslice_bytes_of(u);
    if n > 1 << 24 || (n > 0 && !heap::is_live(p, n)) {
        vfail!("invalid-memory", "a key that is not in live memory ({} bytes)", n);
    }
    unsafe { std::slice::from_raw_parts(p, n) }.to_vec()
}

fn check_pos(it: &sut::ListIter, want: &Pos, what: &str) {
    let v = call("valid", || sut::iter_valid(it));
    match want {
        Pos::At(k) => {
            if !v {
                vfail!("wrong-position", "{}: the iterator is not valid, it should be on {}", what, sh(k));
            }
            let g = us_vec(&call("key", || sut::iter_key(it)));
            if g != *k {
                vfail!("wrong-position", "{}: the iterator is on {}, it should be on {}", what, sh(&g), sh(k));
            }
        }
        p => {
            if v {
                vfail!("wrong-position", "{}: the iterator is valid, it should be {:?}", what, p);
            }
        }
    }
}

fn audit_list(l: &sut::List, m: &Model, universe: &[Vec<u8>]) {
    let n = call("len", || sut::list_len(l));
    if n != m.keys.len() {
        vfail!("wrong-length", "length {} reported, {} distinct keys were inserted", n, m.keys.len());
    }
    for k in universe {
        let g = call("contains", || sut::list_contains(l, k));
        if g != m.find(k).is_ok() {
            vfail!("wrong-membership", "contains({}) is {} although the key was {}inserted", sh(k), g, if g { "never " } else { "" });
        }
    }
    let mut it = call("iter", || sut::list_iter(l));
    let mut i = 0;
    loop {
        let g = call("next", || sut::iter_std_next(&mut it)).map(|u| us_vec(&u));
        if g.as_ref() != m.keys.get(i) {
            vfail!("wrong-iteration", "entry {} of the iteration is {:?} instead of {:?}", i, g.map(|k| sh(&k)), m.keys.get(i).map(|k| sh(k)));
        }
        if g.is_none() {
            break;
        }
        i += 1;
    }
    call("seek_to_first", || sut::iter_first(&mut it));
    let mut p = m.after(&Pos::Head);
    check_pos(&it, &p, "seek_to_first");
    while p != Pos::End {
        call("next", || sut::iter_next(&mut it));
        p = m.after(&p);
        check_pos(&it, &p, "next");
    }
    call("seek_to_last", || sut::iter_last(&mut it));
    check_pos(&it, &m.keys.last().map(|k| Pos::At(k.clone())).unwrap_or(Pos::End), "seek_to_last");
    call("drop of an iterator", move || sut::drop_iter(it));
}

/// The list is as it was, and works.
fn after_panic(l: &sut::List, m: &Model, used: &[Vec<u8>]) {
    audit_list(l, m, used);
    call("memory_usage", || sut::list_usage(l));
}

fn same_height(l: &sut::List, was: usize, what: &str) {
    let h = call("height", || sut::list_height(l)).0;
    if h != was {
        vfail!("height-changed", "the height went from {} to {} although {}", was, h, what);
    }
}

pub fn run_c13(c: &Case) {
    let order = (c.c(0).unsigned_abs() % 5) as u8;
    unsafe {
        sut::ON_CMP = Some(on_cmp);
        CMP_ARMED = false;
        CMP_ALL = false;
        CMP_FAILED = 0;
        CMP_PANICKED = 0;
        sched::ON_STALL = None;
    }
    let arena = call("Arena::default", sut::arena_ref);
    let ar = arena.clone();
    let mut l = call("SkipList::create", move || sut::list_new(order, ar));
    let mut m = Model { order, keys: vec![] };
    let universe: Vec<Vec<u8>> = (0..64).map(|k| lkey(c.c(1), k)).collect();
    let used: Vec<Vec<u8>> = {
        let mut u: Vec<usize> = c.ops.iter().filter(|o| matches!(fm(o, 0, 9), L_INSERT | L_CONTAINS)).map(|o| fm(o, 1, 64)).collect();
        u.sort();
        u.dedup();
        u.into_iter().map(|k| universe[k].clone()).collect()
    };
    let mut its: Vec<(sut::ListIter, Pos, bool)> = vec![];
    let often = c.ops.len() < 24;
    for (n, o) in c.ops.iter().enumerate() {
        bump(P_OPS);
        let k = &universe[fm(o, 1, 64)];
        let all = c.c(3) > 0 && n as i64 >= c.c(3);
        let kind = fm(o, 0, 9);
        ev(mix(50, kind as u64 | (fm(o, 1, 64) as u64) << 8));
        match kind {
            L_INSERT => {
                let a2 = arena.clone();
                let u = match call("placing a key", || sut::uslice_bytes(k, a2)) {
                    Ok(u) => u,
                    Err(_) => vfail!("spurious-error", "placing a key failed"),
                };
                let before = unsafe {
                    CMP_ARMED = c.c(2) & 1 == 1 || all;
                    CMP_ALL = all;
                    CMP_FAILED
                };
                trace(|| format!("insert {}", sh(k)));
                let pan = unsafe { CMP_PANICKED };
                let h0 = call("height", || sut::list_height(&l)).0;
                let r = call_catch(|| sut::list_insert(&mut l, u));
                let failed = unsafe {
                    CMP_ARMED = false;
                    CMP_FAILED - before
                };
                let Some(r) = r else {
                    if unsafe { CMP_PANICKED } == pan {
                        vfail!("panic", "inserting {} panicked: {}", sh(k), panic_msg());
                    }
                    ev(9);
                    bump(P_CMP_UNWOUND);
                    same_height(&l, h0, "a comparator panicked");
                    after_panic(&l, &m, &used);
                    continue;
                };
                if unsafe { CMP_PANICKED } > pan {
                    vfail!("panic-swallowed", "inserting {} returned although the comparator panicked", sh(k));
                }
                trace(|| format!("insert {}: {:?}", sh(k), r));
                ev(r.is_ok() as u64);
                let had = m.find(k);
                if r.is_err() {
                    same_height(&l, h0, "an insertion failed");
                } else if had.is_ok() {
                    same_height(&l, h0, "the key was there");
                }
                match r {
                    Ok(()) => {
                        if failed > 0 && all && !m.keys.is_empty() {
                            vfail!("failure-not-reported", "inserting {} succeeded although no comparison did", sh(k));
                        }
                        match had {
                            Ok(_) => bump(P_DUP_KEY),
                            Err(i) => {
                                m.keys.insert(i, k.clone());
                                if its.iter().any(|i| i.1 != Pos::End) {
                                    bump(P_ITER_ACROSS_INSERT);
                                }
                            }
                        }
                    }
                    Err(()) => {
                        bump(P_INSERT_ERR);
                        if failed == 0 {
                            vfail!("spurious-error", "inserting {} failed although every comparison succeeded", sh(k));
                        }
                    }
                }
                let (h, mh) = call("height", || sut::list_height(&l));
                if h >= 5 {
                    bump(P_TALL_TOWER);
                }
                if h > mh {
                    vfail!("wrong-height", "height {} is above the maximum {}", h, mh);
                }
                if often || r.is_err() {
                    audit_list(&l, &m, &used);
                }
            }
            L_CONTAINS if c.c(4) & 1 == 1 => {
                let before = unsafe {
                    CMP_ARMED = true;
                    (CMP_FAILED, CMP_PANICKED)
                };
                let g = call_catch(|| sut::list_contains(&l, k));
                let now = unsafe {
                    CMP_ARMED = false;
                    (CMP_FAILED, CMP_PANICKED)
                };
                match g {
                    None => {
                        if now.1 == before.1 {
                            vfail!("panic", "looking {} up panicked: {}", sh(k), panic_msg());
                        }
                        bump(P_CMP_UNWOUND);
                        after_panic(&l, &m, &used);
                    }
                    Some(g) => {
                        if now.1 > before.1 {
                            vfail!("panic-swallowed", "looking {} up returned although the comparator panicked", sh(k));
                        }
                        // whether a failing comparison hides a key is left open
                        if (g || now.0 == before.0) && g != m.find(k).is_ok() {
                            vfail!("wrong-membership", "contains({}) is {} although the key was {}inserted", sh(k), g, if g { "never " } else { "" });
                        }
                    }
                }
            }
            L_CONTAINS => {
                let g = if fm(o, 2, 4) == 0 {
                    let a2 = arena.clone();
                    match call("placing a key", || sut::uslice_bytes(k, a2)) {
                        Ok(u) => call("contains", || sut::list_contains_us(&l, &u)),
                        Err(_) => vfail!("spurious-error", "placing a key failed"),
                    }
                } else {
                    call("contains", || sut::list_contains(&l, k))
                };
                if g != m.find(k).is_ok() {
                    vfail!("wrong-membership", "contains({}) is {} although the key was {}inserted", sh(k), g, if g { "never " } else { "" });
                }
            }
            L_ITER => {
                if its.len() < 6 {
                    let it = call("iter", || sut::list_iter(&l));
                    its.push((it, Pos::Head, false));
                }
            }
            L_AUDIT => audit_list(&l, &m, &used),
            L_STRING => {
                if c.c(1) == 0 {
                    let s = call("to_string", || sut::list_to_string(&l));
                    for k in &m.keys {
                        if !s.contains(std::str::from_utf8(k).unwrap()) {
                            vfail!("wrong-iteration", "the printed list does not show {}", sh(k));
                        }
                    }
                    sut(move || drop(s));
                }
            }
            _ => {
                if its.is_empty() {
                    continue;
                }
                let i = fm(o, 1, its.len());
                let (it, pos, _) = &mut its[i];
                let what = match kind {
                    L_NEXT => {
                        if *pos == Pos::End {
                            continue;
                        }
                        call("next", || sut::iter_next(it));
                        *pos = m.after(pos);
                        "next"
                    }
                    L_STDNEXT => {
                        if *pos == Pos::End {
                            continue;
                        }
                        let g = call("next", || sut::iter_std_next(it)).map(|u| us_vec(&u));
                        *pos = m.after(pos);
                        let want = if let Pos::At(k) = &*pos { Some(k.clone()) } else { None };
                        if g != want {
                            vfail!("wrong-iteration", "next gave {:?} instead of {:?}", g.map(|k| sh(&k)), want.map(|k| sh(&k)));
                        }
                        "next"
                    }
                    L_FIRST => {
                        call("seek_to_first", || sut::iter_first(it));
                        *pos = m.after(&Pos::Head);
                        "seek_to_first"
                    }
                    _ => {
                        call("seek_to_last", || sut::iter_last(it));
                        *pos = m.keys.last().map(|k| Pos::At(k.clone())).unwrap_or(Pos::End);
                        "seek_to_last"
                    }
                };
                trace(|| format!("iterator {} {} -> {:?}", i, what, pos));
                check_pos(it, pos, what);
            }
        }
    }
    audit_list(&l, &m, &universe);
    for (it, pos, _) in &its {
        check_pos(it, pos, "at the end");
    }
    nontrivial(m.keys.len() > 2);
    for (it, _, _) in its {
        call("drop of an iterator", move || sut::drop_iter(it));
    }
    call("drop of the list", move || sut::drop_list(l));
    call("drop of the arena", move || sut::drop_arena_ref(arena));
}

// --------------------------------------------------------------------- C14
// row: [key length, value length, sequence number, kind, pattern]

fn len_pick(r: &mut Rng, big: bool) -> i64 {
    match r.below(8) {
        0 => 0,
        1 => r.range(117, 122),
        2 => r.range(126, 130),
        3 if big => r.range(16_370, 16_390),
        4 if big => r.skewed(70_000) as i64,
        5 => r.range(1000, 1030),
        6 => r.skewed(5000) as i64,
        _ => r.below(20) as i64,
    }
}

pub fn gen_c14(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C14");
    c.cfg = vec![r.pick(&[0i64, 1, 2, 4]), r.chance(1, 6) as i64];
    let big = i % 4 == 0;
    let n = 1 + r.below(if big { 12 } else { 30 });
    let huge = i % 128 == 0;
    for _ in 0..n {
        let (mut kl, mut vl) = (len_pick(r, big), len_pick(r, big));
        if huge && r.chance(1, 6) {
            if r.chance(1, 2) {
                kl = (1 << 21) - 8 + r.range(-1, 1);
            } else {
                vl = (1 << 21) + r.range(-1, 1);
            }
        }
        let seq = match r.below(4) {
            0 => r.below(4) as i64,
            1 => (1i64 << 56) - 1 - r.below(3) as i64,
            2 => 1i64 << r.below(56),
            _ => r.below(1 << 40) as i64,
        };
        c.ops.push(vec![kl, vl, seq, r.below(2) as i64, r.below(6) as i64]);
    }
    gen_place(r, &mut c);
    gen_rand(r, &mut c, 2 * n);
    if c.cfg[1] == 1 {
        gen_faults(r, &mut c, AUX, 80, &[1], 10);
    }
    c
}

fn varint(b: &[u8], p: &mut usize) -> Option<u64> {
    let mut v = 0u64;
    for i in 0..5 {
        let x = *b.get(*p)?;
        *p += 1;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            return Some(v);
        }
    }
    None
}

#[derive(Clone, PartialEq, Debug)]
struct Entry {
    key: Vec<u8>,
    seq: u64,
    value_kind: bool,
    value: Vec<u8>,
}

fn parse(b: &[u8]) -> Option<Entry> {
    let mut p = 0;
    let n = varint(b, &mut p)? as usize;
    if n < 8 || p + n > b.len() {
        return None;
    }
    let key = b[p..p + n - 8].to_vec();
    let tag = u64::from_le_bytes(b[p + n - 8..p + n].try_into().ok()?);
    p += n;
    let vn = varint(b, &mut p)? as usize;
    if p + vn != b.len() || tag & 0xff > 1 {
        return None;
    }
    Some(Entry { key, seq: tag >> 8, value_kind: tag & 0xff == 1, value: b[p..].to_vec() })
}

fn mem_bytes(n: usize, len: usize, pat: usize) -> Vec<u8> {
    match pat {
        0 => vec![0; len],
        1 => vec![0xff; len],
        2 => vec![b'a'; len],
        _ => pattern(n as u64 * 977, len),
    }
}

pub fn run_c14(c: &Case) {
    let order = (c.c(0).unsigned_abs() % 5) as u8;
    unsafe {
        sut::ON_CMP = Some(on_cmp);
        CMP_ARMED = false;
        CMP_ALL = false;
        CMP_FAILED = 0;
        CMP_PANICKED = 0;
        sched::ON_STALL = None;
    }
    let mut t = call("MemTable::create", || sut::mem_new(order));
    let mut all: Vec<Entry> = vec![];
    let mut stored = 0usize;
    let often = c.ops.len() < 10;
    for (n, o) in c.ops.iter().enumerate() {
        bump(P_OPS);
        bump(P_MEM_ADD);
        let e = Entry {
            key: mem_bytes(n, fm(o, 0, 1 << 22), fm(o, 4, 6)),
            seq: f(o, 2).unsigned_abs() & ((1 << 56) - 1),
            value_kind: f(o, 3) & 1 == 1,
            value: mem_bytes(n + 1, fm(o, 1, 1 << 22), fm(o, 4, 6)),
        };
        let before = unsafe {
            CMP_ARMED = c.c(1) & 1 == 1;
            CMP_FAILED
        };
        trace(|| format!("add key of {} bytes, value of {}, sequence {} kind {}", e.key.len(), e.value.len(), e.seq, e.value_kind));
        sched::th(1).op = [1, e.key.len() as i64, e.value.len() as i64, 0];
        let pan = unsafe { CMP_PANICKED };
        let r = call_catch(|| sut::mem_add(&mut t, e.seq as usize, e.value_kind, &e.key, &e.value));
        let failed = unsafe {
            CMP_ARMED = false;
            CMP_FAILED - before
        };
        let Some(r) = r else {
            if unsafe { CMP_PANICKED } == pan {
                vfail!("panic", "adding a key of {} bytes with a value of {} panicked: {}", e.key.len(), e.value.len(), panic_msg());
            }
            ev(9);
            bump(P_CMP_UNWOUND);
            if all.contains(&e) {
                bump(P_DUP_KEY);
            }
            audit_mem(&t, &all, stored);
            continue;
        };
        if unsafe { CMP_PANICKED } > pan {
            vfail!("panic-swallowed", "adding a key of {} bytes returned although the comparator panicked", e.key.len());
        }
        ev(mix(60, mix(r.is_ok() as u64 | (e.key.len() as u64) << 8, e.value.len() as u64)));
        if r.is_ok() {
            if !all.contains(&e) {
                stored += e.key.len() + 8 + e.value.len() + 2;
                all.push(e);
            }
        } else if failed == 0 {
            vfail!("spurious-error", "adding a key of {} bytes with a value of {} failed", e.key.len(), e.value.len());
        }
        if often || n + 1 == c.ops.len() || n % 8 == 7 {
            audit_mem(&t, &all, stored);
        }
    }
    nontrivial(all.len() > 1);
    call("drop of the memtable", move || sut::drop_mem(t));
}

fn audit_mem(t: &sut::Mem, all: &[Entry], stored: usize) {
    let mut it = call("iter", || sut::list_iter(sut::mem_list(t)));
    let mut found = vec![false; all.len()];
    let mut n = 0;
    loop {
        let Some(u) = call("next", || sut::iter_std_next(&mut it)) else { break };
        let b = us_vec(&u);
        let Some(e) = parse(&b) else { vfail!("bad-entry", "stored entry {} of {} bytes cannot be decoded", n, b.len()) };
        match (0..all.len()).find(|i| !found[*i] && all[*i] == e) {
            Some(i) => found[i] = true,
            None => vfail!("bad-entry", "stored entry {} (key {}, value of {} bytes, sequence {}) was not added", n, sh(&e.key), e.value.len(), e.seq),
        }
        n += 1;
        if n > all.len() {
            vfail!("bad-entry", "more entries than were added");
        }
    }
    call("drop of an iterator", move || sut::drop_iter(it));
    if let Some(i) = found.iter().position(|x| !x) {
        vfail!("lost-entry", "entry {} (key {}, value of {} bytes, sequence {}) is not in the table", i, sh(&all[i].key), all[i].value.len(), all[i].seq);
    }
    let u = call("approximate_memory_usage", || sut::mem_usage(t));
    if u < stored {
        vfail!("usage-too-low", "memory usage {} reported, the entries take at least {}", u, stored);
    }
}

// --------------------------------------------------------------------- C15

pub fn gen_c15(r: &mut Rng, i: u64) -> Case {
    let sub = r.below(7) as i64;
    let mut c = match sub {
        0 => {
            let mut c = gen_c12(r, i);
            c.st[ALLOC].clear();
            c.cfg[1] = 0;
            c
        }
        1 | 2 => gen_c13(r, i),
        3 => gen_c14(r, i),
        4 => crate::p_log::gen_c04(r, i),
        5 => crate::p_log::gen_c03(r, i),
        _ => crate::p_log::gen_c05(r, i),
    };
    c.cfg.insert(0, sub);
    c
}

pub fn run_c15(c: &Case) {
    let sub = c.c(0).unsigned_abs() % 7;
    let mut d = c.clone();
    if !d.cfg.is_empty() {
        d.cfg.remove(0);
    }
    match sub {
        0 => run_c12(&d),
        1 | 2 => run_c13(&d),
        3 => run_c14(&d),
        4 => crate::p_log::run_c04(&d),
        5 => crate::p_log::run_c03(&d),
        _ => crate::p_log::run_c05(&d),
    }
}

// --------------------------------------------------------------------- C19

pub fn gen_c19(r: &mut Rng, i: u64) -> Case {
    let mem = r.chance(1, 3);
    let mut c = if mem { gen_c14(r, i) } else { gen_c13(r, i) };
    c.prop = "C19".into();
    c.cfg.resize(5, 0);
    if mem {
        c.cfg[1] = 1;
        // entries that compare with something
        for _ in 0..r.below(8) {
            let o = vec![r.below(12) as i64, r.below(40) as i64, r.below(100) as i64, r.below(2) as i64, r.below(6) as i64];
            let at = r.below(c.ops.len() as u64 + 1) as usize;
            c.ops.insert(at, o);
        }
    } else {
        c.cfg[2] = 1;
        c.cfg[3] = 0;
        c.cfg[4] = 1;
    }
    c.cfg.insert(0, mem as i64);
    c.st[AUX].clear();
    let d = r.pick(&[2, 6, 20, 60]);
    let kinds: &[u32] = if r.chance(1, 3) { &[1, 2, 2] } else { &[2] };
    gen_faults(r, &mut c, AUX, 300, kinds, d);
    c
}

pub fn run_c19(c: &Case) {
    let mut d = c.clone();
    let mem = !d.cfg.is_empty() && d.cfg.remove(0) & 1 == 1;
    if mem {
        run_c14(&d)
    } else {
        run_c13(&d)
    }
    nontrivial(stat(P_CMP_UNWOUND) > 0);
}

// --------------------------------------------------------------------- C29
// cfg: [entries, order of insertion, seed of the fair entropy source, key style]

static mut CMPS: u64 = 0;

fn counting_cmp(_order: u8, a: &[u8], b: &[u8]) -> Result<Option<Ordering>, ()> {
    unsafe { CMPS += 1 };
    Ok(Some(a.cmp(b)))
}

pub fn gen_c29(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C29");
    let n = match i % 4 {
        0 => 1000 + r.below(600),
        _ => 100 + r.below(500),
    };
    c.cfg = vec![n as i64, r.below(4) as i64, r.below(1 << 40) as i64, r.below(3) as i64];
    gen_place(r, &mut c);
    c
}

pub fn run_c29(c: &Case) {
    let n = (c.c(0).unsigned_abs() as usize).clamp(100, 1600);
    // the entropy source is fair and no part of what minimisation may change
    let mut r = Rng::from(c.c(2) as u64 ^ 0xC29);
    let mut st = c.st.clone();
    st[RAND] = (0..6 * n + 400).map(|_| r.u64() as u32).collect();
    set_streams(&st);
    unsafe {
        sut::ON_CMP = Some(counting_cmp);
        sched::ON_STALL = None;
    }
    let key = |k: usize| -> Vec<u8> {
        let mut v = match fm(&c.cfg, 3, 3) {
            0 => vec![],
            1 => b"prefix".to_vec(),
            _ => vec![0; k % 5],
        };
        if v.len() < 5 && fm(&c.cfg, 3, 3) == 2 {
            v.clear();
        }
        v.extend_from_slice(&(2 * k as u32 + 1).to_be_bytes());
        v
    };
    let mut order: Vec<usize> = (0..n).collect();
    match fm(&c.cfg, 1, 4) {
        0 => {}
        1 => order.reverse(),
        2 => order.sort_by_key(|k| (k % 2, *k)),
        _ => (1..n).rev().for_each(|i| order.swap(i, r.below(i as u64 + 1) as usize)),
    }
    let arena = call("Arena::default", sut::arena_ref);
    let ar = arena.clone();
    let mut l = call("SkipList::create", move || sut::list_new(0, ar));
    let mut late = 0;
    for (i, k) in order.iter().enumerate() {
        bump(P_OPS);
        let a2 = arena.clone();
        let kb = key(*k);
        let Ok(u) = call("placing a key", || sut::uslice_bytes(&kb, a2)) else { vfail!("spurious-error", "placing a key failed") };
        unsafe { CMPS = 0 };
        if call("insert", || sut::list_insert(&mut l, u)).is_err() {
            vfail!("spurious-error", "inserting {} failed", sh(&kb));
        }
        let n = unsafe { CMPS };
        add(S_COMPARISONS, n);
        if i >= order.len() / 2 {
            late += n;
        }
    }
    let mut found = 0;
    let mut missed = 0;
    for k in 0..n {
        unsafe { CMPS = 0 };
        let kb = key(k);
        if !call("contains", || sut::list_contains(&l, &kb)) {
            vfail!("lost-key", "{} is not found", sh(&kb));
        }
        found += unsafe { CMPS };
        unsafe { CMPS = 0 };
        let mut kb = kb;
        let last = kb.len() - 1;
        kb[last] -= 1;
        if call("contains", || sut::list_contains(&l, &kb)) {
            vfail!("phantom-key", "{} is found", sh(&kb));
        }
        missed += unsafe { CMPS };
    }
    add(S_COMPARISONS, found + missed);
    ev(mix(found, missed));
    ev(late);
    let avg = |total: u64, of: usize| total as f64 / of as f64;
    let (a, b, d) = (avg(late, n - n / 2), avg(found, n), avg(missed, n));
    trace(|| format!("{} entries: {:.1} comparisons per late insertion, {:.1} per hit, {:.1} per miss", n, a, b, d));
    // about twice what a fair skip list needs, and room for bad luck
    let bound = 6.0 * (n as f64).log2() + n as f64 / 64.0 + 20.0;
    for (what, x) in [("late insertion", a), ("successful search", b), ("failing search", d)] {
        if x > bound {
            vfail!("too-many-comparisons", "{:.1} comparisons per {} in a list of {} entries with fair tower heights", x, what, n);
        }
    }
    nontrivial(true);
    sut(|| {
        drop(l);
        drop(arena)
    });
}
