//! C06-C10 and C16: the sharded cache under simulated threads.
//!
//! An operation row is [thread, kind, key, charge]. Rows of a kind below
//! BARRIER form segments whose rows run concurrently, in order per thread;
//! the others need the cache exclusively and run alone in between.
use crate::case::*;
use crate::p_log::nontrivial;
use crate::rng::Rng;
use crate::runner::{call, call_catch, panic_msg, trace};
use level_db_rust::util::slice::Slice;
use simrt::*;
use std::collections::{HashMap, HashSet};
use std::hash::Hash;
use std::sync::Arc;
use sut::{Cache, Tracked};

pub const INSERT: usize = 0;
pub const LOOKUP: usize = 1;
pub const TOTAL: usize = 2;
pub const SLOTS: usize = 3;
pub const HOLD: usize = 4; // look up and keep the value
pub const RELEASE: usize = 5; // let go of a kept value
pub const BARRIER: usize = 6;
pub const ERASE: usize = 6;
pub const PRUNE: usize = 7;
pub const AUDIT: usize = 8; // look at everything
const NK: usize = 9;

const MAXKEYS: usize = 64;
const MANYKEYS: usize = 512;
const MAXT: usize = 4;

// ---------------------------------------------------------------- the keys

const M: u32 = 0xc6a4a793;
fn inv_m() -> u32 {
    let mut x: u32 = 1;
    for _ in 0..6 {
        x = x.wrapping_mul(2u32.wrapping_sub(M.wrapping_mul(x)));
    }
    x
}
fn round(h: u32, w: u32) -> u32 {
    let h = h.wrapping_add(w).wrapping_mul(M);
    h ^ (h >> 16)
}
/// `prefix`, then the 4 bytes that make LevelDB's hash of the whole `want`,
/// then `suffix` (both a multiple of 4 bytes).
fn key_for(prefix: &[u8], suffix: &[u8], want: u32) -> Vec<u8> {
    let word = |w: &[u8]| u32::from_le_bytes([w[0], w[1], w[2], w[3]]);
    let n = prefix.len() + 4 + suffix.len();
    let mut h = (n as u32).wrapping_mul(M);
    for w in prefix.chunks(4) {
        h = round(h, word(w));
    }
    let back = |h: u32| (h ^ (h >> 16)).wrapping_mul(inv_m());
    let mut g = want;
    for w in suffix.chunks(4).rev() {
        g = back(g).wrapping_sub(word(w));
    }
    let w = back(g).wrapping_sub(h);
    let mut k = prefix.to_vec();
    k.extend_from_slice(&w.to_le_bytes());
    k.extend_from_slice(suffix);
    k
}

fn key_bytes(c: &Case, k: usize) -> Vec<u8> {
    if (60..64).contains(&k) {
        return vec![b'x'; k - 60]; // "", "x", "xx", "xxx"
    }
    let s0 = c.c(10).unsigned_abs() as u32;
    let shard = match c.c(0).unsigned_abs() % 4 {
        0 => s0 % 32,
        1 => (s0 + 5 * (k as u32 % 2)) % 32,
        2 => (s0 + 3 * (k as u32 % 4)) % 32,
        _ => (s0 + k as u32 * 7) % 32,
    };
    let low = match c.c(1).unsigned_abs() % 5 {
        0 => 0x155_5555,
        1 => 0x9 | (k as u32) << 4,
        2 => k as u32,
        3 => (k as u32 / 3) << 4 | 3,
        _ => mix(77, k as u64) as u32,
    };
    let want = shard << 27 | (low & 0x07ff_ffff);
    // what long keys have in common
    let stem = vec![b's'; fm(&c.cfg, 11, 20_000) * 4];
    let tail = vec![b't'; fm(&c.cfg, 12, 20_000) * 4];
    if k % 3 == 2 {
        // extends the key before it, with a hash of its own choice
        key_for(&key_bytes(c, k - 1), &[], want)
    } else {
        let own = (0x6b65_7900u32 + k as u32).to_le_bytes();
        key_for(&[&stem[..], &own[..]].concat(), &tail, want)
    }
}

// ------------------------------------------------------------- environment

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Res {
    Done,
    Found(u32),
    Absent,
    Number(usize),
    Error,
    Panicked,
}

#[derive(Clone, Debug)]
pub struct HOp {
    pub tid: usize,
    pub inv: u64,
    pub ret: u64,
    pub kind: usize,
    pub key: usize,
    pub id: u32,
    pub charge: usize,
    pub res: Res,
}

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    C06,
    C07,
    C08,
    C09,
    C10,
    C16,
    C17,
}

pub struct Env {
    which: Which,
    pub keys: Vec<Vec<u8>>,
    pub shard: Vec<usize>,
    cache: Option<Arc<Cache>>,
    pub share: u128,
    pub cap: usize,
    clock: u64,
    pub hist: Vec<HOp>,
    /// per value id: key, charge, times destroyed, holders
    pub vkey: Vec<usize>,
    pub vcharge: Vec<usize>,
    dropped: Vec<u32>,
    holders: Vec<u32>,
    held: Vec<Vec<(u32, Arc<Tracked>)>>,
    armed: bool,
    used: Vec<bool>,
    /// per partition: values not destroyed, and the most there were since the
    /// cache was made or last cleared
    alive: [usize; 32],
    peak: [usize; 32],
    /// slots and bytes of the empty cache
    slots0: usize,
    bytes0: u64,
}

static mut ENV: Option<Env> = None;
fn env() -> &'static mut Env {
    unsafe { ENV.as_mut().unwrap() }
}

fn on_drop(id: u64, intact: bool) {
    let e = env();
    let i = id as usize;
    trace(|| format!("value {} destroyed", id));
    ev(mix(20, id));
    if !intact || i >= e.dropped.len() {
        vfail!("corrupt-value", "a value being destroyed is not one that was inserted, or was overwritten (id {:#x})", id);
    }
    e.dropped[i] += 1;
    if e.dropped[i] == 1 {
        e.alive[e.shard[e.vkey[i]]] -= 1;
    }
    if e.dropped[i] > 1 {
        vfail!("destroyed-twice", "value {} destroyed {} times", id, e.dropped[i]);
    }
    if e.holders[i] > 0 {
        vfail!("destroyed-while-held", "value {} destroyed while {} callers hold it", id, e.holders[i]);
    }
    if e.armed && !std::thread::panicking() && next(AUX) & 0xff == 1 {
        bump(F_DROP_PANIC);
        trace(|| format!("the destructor of value {} panics", id));
        std::panic::resume_unwind(Box::new("destructor"));
    }
}

fn is_keyed(kind: usize) -> bool {
    matches!(kind, INSERT | LOOKUP | HOLD | ERASE)
}

/// Runs one operation on the calling simulated thread and records it.
fn exec(slot: usize, row: &[i64]) {
    let e = env();
    let kind = fm(row, 1, NK);
    let k = fm(row, 2, e.keys.len());
    let charge = f(row, 3) as usize;
    let mt = TID.get();
    if kind == RELEASE {
        let h = &mut e.held[slot];
        if !h.is_empty() {
            let (id, v) = h.remove(k % h.len());
            if !call("a held value", || v.intact()) || v.id != id as u64 {
                vfail!("held-value-changed", "value {} changed while it was held", id);
            }
            trace(|| format!("release value {}", id));
            e.holders[id as usize] -= 1;
            if call_catch(move || sut::value_drop(v)).is_none() && e.which != Which::C10 {
                vfail!("panic", "releasing a value panicked: {}", panic_msg());
            }
        }
        return;
    }
    let key: Slice = if k % 3 == 1 {
        // in a vector that was longer before
        let w = crate::p_bytes::roomy(&e.keys[k], &[0, 1, k as u8]);
        call("Slice", || Slice::from_vec(w))
    } else {
        call("Slice", || Slice::from_buf(&e.keys[k]))
    };
    let mut id = 0;
    let mut val = None;
    if kind == INSERT {
        id = e.vkey.len() as u32;
        e.vkey.push(k);
        e.vcharge.push(charge);
        e.dropped.push(0);
        e.holders.push(0);
        let p = e.shard[k];
        e.alive[p] += 1;
        e.peak[p] = e.peak[p].max(e.alive[p]);
        val = Some(call("value", || Tracked::new(id as u64)));
    }
    if k < e.used.len() && is_keyed(kind) {
        e.used[k] = true;
    }
    bump(P_OPS);
    e.clock += 1;
    let inv = e.clock;
    let shard = if is_keyed(kind) { e.shard[k] as i64 } else { -1 };
    sched::th(mt).op = [1 + kind as i64, shard, k as i64, id as i64];
    trace(|| format!("{} {} ...", name(kind), if is_keyed(kind) { format!("key {} charge {} value {}", k, charge, id) } else { String::new() }));
    sched::point();
    let cp: *const Arc<Cache> = e.cache.as_ref().unwrap();
    let cache = unsafe { &*cp };
    let r = match kind {
        INSERT => call_catch(|| sut::cache_insert(cache, &key, val.take().unwrap(), charge)).map(|r| if r.is_ok() { Res::Done } else { Res::Error }),
        LOOKUP | HOLD => match call_catch(|| sut::cache_lookup(cache, &key)) {
            None => None,
            Some(Err(())) => Some(Res::Error),
            Some(Ok(None)) => {
                bump(P_MISS);
                Some(Res::Absent)
            }
            Some(Ok(Some(v))) => {
                bump(P_HIT);
                let e = env();
                let i = call("a value looked up", || v.id);
                if !call("a value looked up", || v.intact()) || i as usize >= e.vkey.len() {
                    vfail!("invalid-value", "lookup of key {} returned a value that is not intact (id {:#x})", k, i);
                }
                if e.dropped[i as usize] > 0 {
                    vfail!("destroyed-while-reachable", "lookup of key {} returned value {}, which was destroyed", k, i);
                }
                if kind == HOLD && e.held[slot].len() < 40 {
                    e.holders[i as usize] += 1;
                    e.held[slot].push((i as u32, v));
                } else if call_catch(move || sut::value_drop(v)).is_none() && e.which != Which::C10 {
                    vfail!("panic", "releasing a value panicked: {}", panic_msg());
                }
                Some(Res::Found(i as u32))
            }
        },
        TOTAL => call_catch(|| sut::cache_total(cache)).map(|r| r.map(Res::Number).unwrap_or(Res::Error)),
        SLOTS => call_catch(|| sut::cache_slots(cache)).map(|r| r.map(Res::Number).unwrap_or(Res::Error)),
        ERASE | PRUNE => {
            let a = env().cache.as_mut().unwrap();
            match Arc::get_mut(a) {
                Some(c) => {
                    if kind == ERASE {
                        call_catch(|| sut::cache_erase(c, &key))
                    } else {
                        bump(P_PRUNE);
                        call_catch(|| sut::cache_prune(c))
                    }
                    .map(|r| if r.is_ok() { Res::Done } else { Res::Error })
                }
                None => harness_error("the cache is shared at a barrier"),
            }
        }
        _ => None,
    };
    let res = r.unwrap_or(Res::Panicked);
    if res == Res::Panicked && env().which != Which::C10 {
        vfail!("panic", "{} of key {} panicked: {}", name(kind), k, panic_msg());
    }
    if res == Res::Error && env().which != Which::C10 {
        vfail!("spurious-error", "{} of key {} returned an error", name(kind), k);
    }
    sched::th(mt).op = [0; 4];
    let e = env();
    e.clock += 1;
    let ret = e.clock;
    trace(|| format!("... {} -> {:?}", name(kind), res));
    ev(mix(21, mix(kind as u64 | (k as u64) << 8, match res {
        Res::Done => 1,
        Res::Found(i) => 2 | (i as u64) << 3,
        Res::Absent => 3,
        Res::Number(n) => 4 | (n as u64) << 3,
        Res::Error => 5,
        Res::Panicked => 6,
    })));
    e.hist.push(HOp { tid: mt as usize, inv, ret, kind, key: k, id, charge, res });
    if kind == PRUNE && res == Res::Done && !e.hist.iter().any(|o| o.kind == PRUNE && o.res == Res::Panicked) {
        for o in &e.hist {
            if o.kind == INSERT && o.res == Res::Done && e.dropped[o.id as usize] == 0 && e.holders[o.id as usize] == 0 {
                vfail!("value-retained", "value {} of key {} was in the cache when it was cleared, nobody holds it, but it was not destroyed", o.id, o.key);
            }
        }
    }
    call("drop of Slice", move || sut::drop_slice(key));
    sched::point();
}

fn name(k: usize) -> &'static str {
    ["insert", "lookup", "total_charge", "slots", "lookup", "release", "erase", "prune", "audit"][k % NK]
}

pub fn share_of(cap: usize) -> u128 {
    (cap as u128).div_ceil(32)
}

// ------------------------------------------------------- the workload itself

fn on_stall(t: u32) {
    // every other thread is done or waits for a lock: for whose?
    let me = sched::th(t).op;
    let mut blocked = vec![];
    for i in 2..=(MAXT as u32 + 1) {
        if i != t && sched::th(i).st == sched::St::Blocked {
            blocked.push(sched::th(i).op);
        }
        if i != t && sched::th(i).st != sched::St::Unused {
            nontrivial(true);
        }
    }
    trace(|| format!("thread {} stalled in {:?}; waiting: {:?}", t, me, blocked));
    if blocked.is_empty() {
        return;
    }
    bump(F_STALL_BLOCKED_OTHERS);
    let mk = me[0] - 1; // -1: between calls
    let reading = |k: i64| matches!(k, 1..=4);
    if mk < 0 {
        vfail!("waiting-for-nobody", "thread {} is stalled outside any call, yet others wait: {:?}", t, blocked);
    }
    let waiting_writers: Vec<_> = blocked.iter().filter(|b| !reading(b[0] - 1)).collect();
    for b in &blocked {
        if b[1] >= 0 && me[1] >= 0 && b[1] != me[1] {
            vfail!("cross-partition-wait", "{} on partition {} waits while only {} on partition {} is stalled", name((b[0] - 1) as usize), b[1], name(mk as usize), me[1]);
        }
        if reading(b[0] - 1) && reading(mk) && waiting_writers.is_empty() {
            vfail!("reader-delays-reader", "{} waits while only {} is stalled and no writer is waiting", name((b[0] - 1) as usize), name(mk as usize));
        }
    }
    if me[1] < 0 {
        let ps: HashSet<i64> = waiting_writers.iter().map(|b| b[1]).collect();
        if ps.len() > 1 {
            vfail!("cross-partition-wait", "writers on {} partitions wait while one {} is stalled", ps.len(), name(mk as usize));
        }
    }
}

fn setup(c: &Case, which: Which) {
    let nkeys = if c.ops.iter().any(|o| f(o, 2).unsigned_abs() as usize >= MAXKEYS) { MANYKEYS } else { MAXKEYS };
    let keys: Vec<Vec<u8>> = (0..nkeys).map(|k| key_bytes(c, k)).collect();
    let hashes: Vec<u32> = keys.iter().map(|k| sut::Hash::hash_code(k, 0)).collect();
    let shard: Vec<usize> = hashes.iter().map(|h| (*h >> 27) as usize).collect();
    let cap = c.c(2) as usize;
    unsafe {
        ENV = Some(Env {
            which,
            keys,
            shard,
            cache: None,
            share: share_of(cap),
            cap,
            clock: 0,
            hist: vec![],
            vkey: vec![],
            vcharge: vec![],
            dropped: vec![],
            holders: vec![],
            held: (0..MAXT + 1).map(|_| vec![]).collect(),
            armed: which == Which::C10,
            used: vec![false; nkeys],
            alive: [0; 32],
            peak: [0; 32],
            slots0: 0,
            bytes0: 0,
        });
        sut::ON_DROP = Some(on_drop);
        sched::ON_STALL = if which == Which::C16 { Some(on_stall) } else { None };
    }
    let used: HashSet<usize> = c.ops.iter().filter(|o| is_keyed(fm(o, 1, NK))).map(|o| fm(o, 2, nkeys)).collect();
    let hs: HashSet<u32> = used.iter().map(|k| hashes[*k]).collect();
    add(P_COLLISION, (used.len() - hs.len()) as u64);
    let (dl, arc) = (c.c(4).clamp(0, 40_000) as usize, c.c(5) & 1 == 1);
    let cache = call("cache construction", || sut::cache_new(cap, dl, arc));
    env().cache = Some(cache);
    trace(|| format!("cache of capacity {} ({} per partition)", cap, env().share));
}

fn nthreads(c: &Case) -> usize {
    c.c(3).unsigned_abs() as usize % (MAXT + 1)
}

/// Run all rows; `at_barrier` is called whenever nothing is going on.
fn drive(c: &Case, mut at_barrier: impl FnMut()) {
    let nt = nthreads(c);
    let rows: Vec<&Vec<i64>> = c.ops.iter().collect();
    let mut i = 0;
    let mut seg = 0;
    while i < rows.len() {
        let mut j = i;
        while j < rows.len() && fm(rows[j], 1, NK) < BARRIER {
            j += 1;
        }
        if j > i {
            if nt < 2 {
                for r in &rows[i..j] {
                    exec(0, r);
                    if nt == 0 {
                        at_barrier();
                    }
                }
            } else {
                let mut per: Vec<Vec<Vec<i64>>> = vec![vec![]; nt];
                for r in &rows[i..j] {
                    per[fm(r, 0, nt)].push((*r).clone());
                }
                if seg == c.c(9) && env().which == Which::C16 && c.c(7) > 0 {
                    sched::plan_stall(2 + (c.c(7) - 1).unsigned_abs() as u32 % nt as u32, c.c(8).max(1) as u64);
                }
                seg += 1;
                add(P_CONCURRENT_OPS, (j - i) as u64);
                let fs: Vec<Box<dyn FnOnce() + Send>> = per
                    .into_iter()
                    .enumerate()
                    .map(|(t, rs)| {
                        Box::new(move || {
                            for r in &rs {
                                exec(t + 1, r);
                            }
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                sched::run_threads(fs);
            }
            at_barrier();
            i = j;
            continue;
        }
        let r = rows[i];
        match fm(r, 1, NK) {
            AUDIT => {}
            _ => exec(0, r),
        }
        at_barrier();
        i += 1;
    }
}

/// Look every used key up; recorded in the history like any other lookup.
fn audit() -> Vec<Option<u32>> {
    let e = env();
    (0..e.keys.len())
        .map(|k| {
            if !e.used[k] {
                return None;
            }
            exec(0, &[0, LOOKUP as i64, k as i64]);
            match env().hist.last().unwrap().res {
                Res::Found(i) => Some(i),
                _ => None,
            }
        })
        .collect()
}

/// How many calls between two audits; an audit looks every key up.
fn gap(n: usize) -> usize {
    if env().keys.len() > MAXKEYS {
        150
    } else {
        n
    }
}

fn teardown() {
    let c = env().cache.take();
    if let Some(c) = c {
        call("drop of the cache", move || sut::cache_drop(c));
    }
    for t in 0..env().held.len() {
        while let Some((id, v)) = env().held[t].pop() {
            if !call("a held value", || v.intact()) || v.id != id as u64 {
                vfail!("held-value-changed", "value {} changed while it was held", id);
            }
            bump(P_HELD_PAST_CACHE);
            env().holders[id as usize] -= 1;
            call("a held value", move || sut::value_drop(v));
        }
    }
}

// ------------------------------------------------------------ linearization

/// Is there an order of the operations, consistent with their intervals, in
/// which `step` accepts each? `step` returns the possible states afterwards.
pub fn linearize<S: Clone + Eq + Hash>(hist: &[HOp], init: S, step: &dyn Fn(&S, &HOp) -> Vec<S>) -> Result<(), Option<usize>> {
    let mut tids: Vec<usize> = hist.iter().map(|h| h.tid).collect();
    tids.sort();
    tids.dedup();
    // thread 1 only runs alone, its operations sort with everybody's
    let seqs: Vec<Vec<usize>> = tids.iter().map(|t| (0..hist.len()).filter(|i| hist[*i].tid == *t).collect()).collect();
    let mut front: HashSet<(Vec<u16>, S)> = HashSet::new();
    front.insert((vec![0; seqs.len()], init));
    let mut n = 0u64;
    let mut last = None;
    for _ in 0..hist.len() {
        let mut nx = HashSet::new();
        let mut far = 0;
        for (pos, s) in &front {
            let min_ret = (0..seqs.len()).filter_map(|t| seqs[t].get(pos[t] as usize).map(|i| hist[*i].ret)).min().unwrap();
            for t in 0..seqs.len() {
                if let Some(i) = seqs[t].get(pos[t] as usize) {
                    let h = &hist[*i];
                    if h.inv > min_ret {
                        continue;
                    }
                    let ss = step(s, h);
                    if ss.is_empty() && h.ret == min_ret && h.ret > far {
                        far = h.ret;
                        last = Some(*i);
                    }
                    for s2 in ss {
                        let mut p = pos.clone();
                        p[t] += 1;
                        nx.insert((p, s2));
                        n += 1;
                    }
                }
            }
        }
        if nx.is_empty() {
            add(S_LIN_STATES, n);
            return Err(last);
        }
        if n > 400_000 {
            // too wide to decide: leave this one open
            add(S_LIN_STATES, n);
            return Ok(());
        }
        front = nx;
    }
    add(S_LIN_STATES, n);
    Ok(())
}

fn show_hist(h: &[HOp]) -> String {
    let mut v: Vec<&HOp> = h.iter().collect();
    v.sort_by_key(|o| o.inv);
    let from = v.len().saturating_sub(14);
    v[from..].iter().map(|o| format!("[t{} {}..{} {}({}{}) = {:?}]", o.tid, o.inv, o.ret, name(o.kind), o.key, if o.kind == INSERT { format!(", value {}", o.id) } else { String::new() }, o.res)).collect::<Vec<_>>().join(" ")
}

/// Each key is a register; `loose` says from when on (history time) an entry
/// of a partition may have vanished.
fn check_registers(loose: &dyn Fn(usize) -> Option<u64>, err_from: &dyn Fn(usize) -> Option<u64>) {
    let e = env();
    for k in 0..e.keys.len() {
        if !e.used[k] {
            continue;
        }
        let h: Vec<HOp> = e.hist.iter().filter(|h| (is_keyed(h.kind) && h.key == k) || h.kind == PRUNE).cloned().collect();
        let lf = loose(e.shard[k]);
        let ef = err_from(e.shard[k]);
        let step = |s: &Option<u32>, o: &HOp| -> Vec<Option<u32>> {
            let mut from = vec![*s];
            if s.is_some() && lf.is_some_and(|t| t < o.ret) {
                from.push(None);
            }
            let mut out = vec![];
            for s in from {
                match (o.kind, o.res) {
                    (INSERT, Res::Done) => out.push(Some(o.id)),
                    (INSERT, Res::Panicked) => out.extend([Some(o.id), None, s]),
                    (ERASE | PRUNE, Res::Done) => out.push(None),
                    (ERASE | PRUNE, Res::Panicked) => out.extend([None, s]),
                    (PRUNE, Res::Error) => out.extend([None, s]),
                    (LOOKUP | HOLD, Res::Found(i)) => {
                        if s == Some(i) {
                            out.push(s)
                        }
                    }
                    (LOOKUP | HOLD, Res::Absent) => {
                        if s.is_none() {
                            out.push(s)
                        }
                    }
                    (_, Res::Error) => {
                        if ef.is_some_and(|t| t < o.ret) {
                            out.push(s)
                        }
                    }
                    _ => {}
                }
            }
            out.sort();
            out.dedup();
            out
        };
        if let Err(i) = linearize(&h, None, &step) {
            let at = i.map(|i| h[i].clone());
            let upto: Vec<HOp> = h.iter().filter(|o| at.as_ref().is_none_or(|a| o.inv <= a.ret)).cloned().collect();
            vfail!("not-linearizable", "no order of the calls on key {} (partition {}) explains {:?}; history: {}", k, e.shard[k], at.map(|a| (name(a.kind), a.res)), show_hist(&upto));
        }
    }
}

// ----------------------------------------------------------------- exact model

type Lru = Vec<(u16, u32, usize)>; // oldest first

fn model_step(share: u128, s: &Lru, o: &HOp) -> Vec<Lru> {
    let mut n = s.clone();
    let cur = s.iter().find(|x| x.0 as usize == o.key).map(|x| x.1);
    match (o.kind, o.res) {
        (INSERT, Res::Done) => {
            n.retain(|x| x.0 as usize != o.key);
            n.push((o.key as u16, o.id, o.charge));
            while !n.is_empty() && n.iter().map(|x| x.2 as u128).sum::<u128>() >= share {
                n.remove(0);
            }
            vec![n]
        }
        (LOOKUP | HOLD, Res::Found(i)) if cur == Some(i) => vec![n],
        (LOOKUP | HOLD, Res::Absent) if cur.is_none() => vec![n],
        (ERASE, Res::Done) => {
            n.retain(|x| x.0 as usize != o.key);
            vec![n]
        }
        (PRUNE, Res::Done) => vec![vec![]],
        _ => vec![],
    }
}

/// The whole of each partition follows the model, evictions included.
fn check_model() {
    let e = env();
    for p in 0..32 {
        let h: Vec<HOp> = e.hist.iter().filter(|h| (is_keyed(h.kind) && e.shard[h.key] == p) || h.kind == PRUNE).cloned().collect();
        if !h.iter().any(|o| is_keyed(o.kind)) {
            continue;
        }
        let share = e.share;
        if let Err(i) = linearize(&h, Lru::new(), &|s, o| model_step(share, s, o)) {
            let at = i.map(|i| h[i].clone());
            let upto: Vec<HOp> = h.iter().filter(|o| at.as_ref().is_none_or(|a| o.inv <= a.ret)).cloned().collect();
            vfail!("wrong-eviction", "partition {} of share {}: no order of the calls with first-in-first-out eviction explains {:?} (charges {:?}); history: {}", p, share,
                at.map(|a| (name(a.kind), a.key, a.res)),
                upto.iter().filter(|o| o.kind == INSERT).rev().take(14).map(|o| (o.id, o.charge)).collect::<Vec<_>>(),
                show_hist(&upto));
        }
    }
}

fn probes() {
    let e = env();
    let mut seen = HashSet::new();
    for o in &e.hist {
        if o.kind == INSERT && !seen.insert(o.key) {
            bump(P_OVERWRITE_KEY);
        }
        if o.kind == ERASE {
            bump(P_ERASE_HIT);
        }
    }
    let mut count: HashMap<usize, usize> = HashMap::new();
    for k in seen {
        *count.entry(e.shard[k]).or_default() += 1;
    }
    if count.values().any(|n| *n > 12) {
        bump(P_GROWTH);
    }
    for (i, d) in e.dropped.iter().enumerate() {
        // destroyed although never overwritten or erased
        if *d > 0 && !e.hist.iter().any(|o| (o.kind == ERASE || o.kind == PRUNE || o.kind == INSERT) && (o.key == e.vkey[i] || o.kind == PRUNE) && o.id as usize != i && o.inv > 0) {
            bump(P_EVICT);
        }
    }
}

// -------------------------------------------------------------------- C06

/// Capacities and charges about the powers of two that integers and floating
/// point numbers of some width end at.
fn wide(r: &mut Rng, c: &mut Case) {
    let k = r.pick(&[8u32, 15, 16, 24, 31, 32, 33, 47, 52, 53, 54, 56, 58]);
    let share = (1i64 << k) + r.range(-2, 2);
    c.cfg[2] = share.wrapping_mul(32).wrapping_sub(r.below(32) as i64);
    let step = (share / r.range(2, 9)).max(1);
    for o in c.ops.iter_mut() {
        if o[1] as usize == INSERT && r.chance(3, 4) {
            o[3] = match r.below(6) {
                0 | 1 => share + r.range(-4, 1),
                2 => r.range(0, 3),
                3 => share / 2 + r.range(-1, 1),
                _ => step + r.range(-1, 1),
            };
        }
    }
}

fn gen_common(r: &mut Rng, c: &mut Case, threads: &[i64], evict: bool) {
    let shard_style = r.pick(&[0i64, 0, 1, 2, 3]);
    let slot_style = r.below(5) as i64;
    let nt = r.pick(threads);
    let cap: i64 = if evict {
        let share = r.pick(&[0i64, 1, 2, 3, 5, 8, 16, 40, 100]);
        (32 * share - r.below(32) as i64).max(0)
    } else {
        r.pick(&[1i64 << 40, 10_000_000, 1 << 50])
    };
    c.cfg = vec![shard_style, slot_style, cap, nt, r.pick(&[0i64, 0, 600, 1024, 2000]), r.below(2) as i64, 0, 0, 0, 0, r.below(32) as i64, 0, 0];
    if r.chance(1, 5) {
        // long keys that differ in a few bytes
        let words = [1i64, 2, 4, 8, 16, 32, 63, 64, 300];
        c.cfg[11] = if r.chance(2, 3) { r.pick(&words) } else { 0 };
        c.cfg[12] = if r.chance(1, 2) { r.pick(&words) } else { 0 };
        if r.chance(1, 60) {
            c.cfg[11] = r.pick(&[2047i64, 4096, 16_384, 17_000]);
        }
    }
}

fn gen_ops(r: &mut Rng, c: &mut Case, n: u64, nkeys: u64, weights: &[(usize, u64)], maxcharge: u64) {
    let total: u64 = weights.iter().map(|w| w.1).sum();
    let zero = r.chance(1, 4);
    let natural = r.chance(1, 4);
    let base = if nkeys < 50 { r.below(54 - nkeys + 1) } else { 0 };
    for _ in 0..n {
        let mut x = r.below(total);
        let mut kind = 0;
        for w in weights {
            if x < w.1 {
                kind = w.0;
                break;
            }
            x -= w.1;
        }
        let k = if natural && r.chance(1, 5) { 60 + r.below(4) } else { base + r.below(nkeys) };
        let ch = if zero && r.chance(1, 4) { 0 } else { 1 + r.below(maxcharge.max(1)) };
        c.ops.push(vec![r.below(4) as i64, kind as i64, k as i64, if kind == INSERT { ch as i64 } else { 0 }]);
    }
}

/// One partition with hundreds of entries, one caller.
fn many(r: &mut Rng, c: &mut Case, evict: bool) {
    c.cfg[0] = 0;
    c.cfg[1] = r.range(1, 4);
    c.cfg[3] = 0;
    c.cfg[11] = 0;
    c.cfg[12] = 0;
    let nkeys = r.pick(&[80u64, 130, 200, 300, 500]);
    let share = if evict { r.range(nkeys as i64 / 3, nkeys as i64 + 60) } else { 1 << 40 };
    c.cfg[2] = 32 * share - r.below(32) as i64;
    let most = if r.chance(1, 2) { 1 } else { 3 };
    let step = r.pick(&[1u64, 7, 33, 61]);
    let mut ops: Vec<Vec<i64>> = vec![];
    for k in 0..nkeys - r.below(20) {
        ops.push(vec![0, INSERT as i64, (k * step % nkeys) as i64, 1 + r.below(most) as i64]);
    }
    let rare = r.below(share.min(200) as u64 / 2 + 1) as i64;
    for o in &c.ops {
        let mut o = o.clone();
        if o[1] as usize == PRUNE && r.chance(1, 2) {
            continue;
        }
        o[2] = r.below(nkeys) as i64;
        if o[1] as usize == INSERT {
            o[3] = if r.chance(1, 8) { rare } else { 1 + r.below(most) as i64 };
        }
        ops.push(o);
    }
    c.ops = ops;
}

pub fn gen_c06(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C06");
    let evict = r.chance(1, 4);
    gen_common(r, &mut c, &[2, 2, 3, 3, 4], evict);
    let big = i % 4 == 0;
    let nkeys = if big { r.pick(&[16u64, 30, 50]) } else { r.pick(&[1u64, 2, 3, 5, 8]) };
    let n = if big { 40 + r.below(60) } else { 4 + r.below(26) };
    let w: &[(usize, u64)] = match r.below(3) {
        0 => &[(INSERT, 10), (LOOKUP, 10)],
        1 => &[(INSERT, 14), (LOOKUP, 8), (TOTAL, 1), (ERASE, 1), (PRUNE, 0)],
        _ => &[(INSERT, 12), (LOOKUP, 10), (ERASE, 2), (PRUNE, 1), (AUDIT, 1), (SLOTS, 1), (HOLD, 1), (RELEASE, 1)],
    };
    let mc = if evict { (c.cfg[2] as u64 / 32).max(1) } else { 100 };
    if big {
        // a quiet start that fills the table close to a growth step
        let m = r.below(26);
        for k in 0..m.min(nkeys) {
            c.ops.push(vec![0, INSERT as i64, k as i64, 1]);
        }
        c.ops.push(vec![0, AUDIT as i64, 0]);
    }
    gen_ops(r, &mut c, n, nkeys, w, mc);
    if i % 32 == 17 {
        many(r, &mut c, evict);
    }
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    c
}

pub fn run_c06(c: &Case) {
    setup(c, Which::C06);
    drive(c, || {});
    audit();
    let small = c.c(2) < 1_000_000;
    check_registers(&|_| if small { Some(0) } else { None }, &|_| None);
    probes();
    nontrivial(overlapping());
    teardown();
}

fn overlapping() -> bool {
    let h = &env().hist;
    h.windows(2).any(|w| w[0].tid != w[1].tid && w[1].inv < w[0].ret) || h.iter().enumerate().any(|(i, a)| h[i + 1..].iter().take(6).any(|b| a.tid != b.tid && b.inv < a.ret))
}

// -------------------------------------------------------------------- C07

pub fn gen_c07(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C07");
    let evict = r.chance(4, 5);
    gen_common(r, &mut c, &[0, 0, 2, 3, 4], evict);
    if r.chance(1, 16) {
        c.cfg[2] = r.pick(&[-1i64, -2, -31, -32, -33, i64::MAX, i64::MIN]);
    }
    let nkeys = r.pick(&[1u64, 2, 4, 8, 20, 50]);
    let n = if i % 5 == 0 { 60 + r.below(80) } else { 3 + r.below(30) };
    let share = share_of(c.cfg[2] as usize);
    let mc = match r.below(4) {
        0 => (share / 8).max(1) as u64,
        1 => (share + share / 4).min(u64::MAX as u128 / 4) as u64,
        2 => (share * 3).min(u64::MAX as u128 / 4) as u64,
        _ => 10,
    };
    let w: &[(usize, u64)] = match r.below(3) {
        0 => &[(INSERT, 14), (LOOKUP, 3), (TOTAL, 3)],
        1 => &[(INSERT, 14), (ERASE, 4), (PRUNE, 1), (TOTAL, 1)],
        _ => &[(INSERT, 10), (ERASE, 2), (TOTAL, 2), (LOOKUP, 2), (AUDIT, 2)],
    };
    gen_ops(r, &mut c, n, nkeys, w, mc);
    if r.chance(1, 10) {
        wide(r, &mut c);
    }
    if r.chance(1, 6) {
        // charges as large as the type allows
        for o in c.ops.iter_mut() {
            if o[1] as usize == INSERT && r.chance(1, 4) {
                o[3] = r.pick(&[-1i64, -2, i64::MIN, i64::MAX, share.min(i64::MAX as u128) as i64, (share as i64).wrapping_sub(1)]);
            }
        }
    }
    if i % 32 == 17 {
        many(r, &mut c, evict);
    }
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    c
}

fn audit_charges() {
    let found = audit();
    let e = env();
    let mut sum = [0u128; 32];
    let mut n = [0usize; 32];
    for (k, v) in found.iter().enumerate() {
        if let Some(id) = v {
            sum[e.shard[k]] += e.vcharge[*id as usize] as u128;
            n[e.shard[k]] += 1;
        }
    }
    for p in 0..32 {
        if n[p] > 0 && sum[p] >= e.share {
            vfail!("over-capacity", "partition {} holds charges of {} in {} entries; its share of the capacity {} is {}", p, sum[p], n[p], e.cap, e.share);
        }
    }
    let total: u128 = sum.iter().sum();
    let cache = e.cache.as_ref().unwrap();
    let t = call("total_charge", || sut::cache_total(cache));
    match t {
        Ok(t) if t as u128 == total => {}
        t => vfail!("wrong-total", "total charge reported as {:?}, the entries that can be looked up hold {}", t, total),
    }
    if call("capacity", || sut::cache_capacity(cache)) != e.cap {
        vfail!("wrong-capacity", "capacity reported is not the configured {}", e.cap);
    }
    let s = call("slots", || sut::cache_slots(cache));
    if s.is_err() {
        vfail!("spurious-error", "slots returned an error");
    }
}

pub fn run_c07(c: &Case) {
    setup(c, Which::C07);
    let every = c.ops.len() < 40;
    let mut last = 0;
    drive(c, || {
        let e = env();
        if every || e.hist.len() > last + gap(12) {
            audit_charges();
            last = env().hist.len();
        }
    });
    audit_charges();
    let e = env();
    // totals reported while others were at work
    let used: HashSet<usize> = (0..e.keys.len()).filter(|k| e.used[*k]).map(|k| e.shard[k]).collect();
    let maxtotal = e.share.saturating_sub(1) * used.len() as u128;
    let exact = e.cap as u64 >= 1 << 30 && e.vcharge.iter().all(|c| *c < 1 << 20);
    for o in &e.hist {
        if let (TOTAL, Res::Number(n)) = (o.kind, o.res) {
            if n as u128 > maxtotal {
                vfail!("over-capacity", "total charge of {} reported although {} partitions of share {} are in use", n, used.len(), e.share);
            }
        }
    }
    if exact && used.len() == 1 {
        let h: Vec<HOp> = e.hist.iter().filter(|h| is_keyed(h.kind) || h.kind == PRUNE || h.kind == TOTAL).cloned().collect();
        let step = |s: &Lru, o: &HOp| match (o.kind, o.res) {
            (TOTAL, Res::Number(n)) => {
                if s.iter().map(|x| x.2).sum::<usize>() == n {
                    vec![s.clone()]
                } else {
                    vec![]
                }
            }
            _ => {
                let mut v = model_step(u128::MAX, s, o);
                for n in &mut v {
                    n.sort();
                }
                v
            }
        };
        if let Err(i) = linearize(&h, Lru::new(), &step) {
            if i.is_none_or(|i| h[i].kind == TOTAL) {
                vfail!("wrong-total", "no order of the calls explains a total charge reported meanwhile; history: {}", show_hist(&h));
            }
        }
    }
    probes();
    nontrivial(stat(P_EVICT) > 0 || stat(P_OVERWRITE_KEY) > 0 || stat(P_ERASE_HIT) > 0);
    teardown();
}

// -------------------------------------------------------------------- C08

pub fn gen_c08(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C08");
    gen_common(r, &mut c, &[0, 0, 1, 2, 3], true);
    if r.chance(1, 5) {
        c.cfg[2] = r.pick(&[32i64 * 400, 32 * 1000]);
    }
    let nkeys = r.pick(&[2u64, 3, 5, 8, 20, 50]);
    let conc = c.cfg[3] >= 2;
    let n = match (i % 5, conc) {
        (0, false) => 80 + r.below(100),
        (0, true) => 30 + r.below(20),
        (_, true) => 4 + r.below(18),
        _ => 4 + r.below(40),
    };
    let share = share_of(c.cfg[2] as usize) as u64;
    let mc = match r.below(4) {
        0 => 1,
        1 => (share / 6).max(1),
        2 => (share / 2).max(1),
        _ => share + 2,
    };
    let w: &[(usize, u64)] = match r.below(3) {
        0 => &[(INSERT, 14), (LOOKUP, 6)],
        1 => &[(INSERT, 14), (LOOKUP, 4), (ERASE, 3), (PRUNE, 1)],
        _ => &[(INSERT, 10), (LOOKUP, 10), (HOLD, 2), (AUDIT, 1)],
    };
    gen_ops(r, &mut c, n, nkeys, w, mc);
    if r.chance(1, 8) {
        wide(r, &mut c);
    }
    if i % 32 == 17 {
        many(r, &mut c, true);
    }
    if r.chance(1, 16) {
        // a capacity about the largest there is
        c.cfg[2] = r.pick(&[-1i64, -2, -30, -31, -32, -33, -64, i64::MAX, i64::MIN]);
        let share = share_of(c.cfg[2] as usize) as i64;
        for o in c.ops.iter_mut() {
            if o[1] as usize == INSERT && r.chance(1, 2) {
                o[3] = r.pick(&[share - 1, share, share / 2, share / 2 + 1, share / 3, 1]);
            }
        }
    }
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    c
}

pub fn run_c08(c: &Case) {
    setup(c, Which::C08);
    let every = c.ops.len() < 24;
    let mut last = 0;
    drive(c, || {
        if every || env().hist.len() > last + gap(25) {
            audit();
            last = env().hist.len();
        }
    });
    audit();
    check_model();
    probes();
    nontrivial(stat(P_EVICT) > 0);
    teardown();
}

// -------------------------------------------------------------------- C09

pub fn gen_c09(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C09");
    let evict = r.chance(3, 5);
    gen_common(r, &mut c, &[0, 0, 2, 3, 4], evict);
    let nkeys = r.pick(&[1u64, 2, 4, 8, 20, 50]);
    let n = if i % 5 == 0 { 60 + r.below(80) } else { 3 + r.below(36) };
    let mc = if evict { (c.cfg[2] as u64 / 32).max(1) } else { 100 };
    let w: &[(usize, u64)] = match r.below(3) {
        0 => &[(INSERT, 14), (HOLD, 6), (RELEASE, 4)],
        1 => &[(INSERT, 14), (HOLD, 5), (RELEASE, 4), (ERASE, 3), (PRUNE, 1)],
        _ => &[(INSERT, 10), (LOOKUP, 6), (ERASE, 2), (HOLD, 2), (AUDIT, 1), (PRUNE, 1)],
    };
    gen_ops(r, &mut c, n, nkeys, w, mc);
    c.cfg[6] = r.below(2) as i64; // drop the cache while values are held
    if i % 32 == 17 {
        many(r, &mut c, evict);
    }
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    c
}

fn audit_lives() {
    let found: HashSet<u32> = audit().into_iter().flatten().collect();
    let e = env();
    for (i, d) in e.dropped.iter().enumerate() {
        let id = i as u32;
        if *d == 0 && !found.contains(&id) && e.holders[i] == 0 {
            vfail!("value-retained", "value {} of key {} can no longer be looked up and nobody holds it, but it was not destroyed", id, e.vkey[i]);
        }
    }
}

pub fn run_c09(c: &Case) {
    setup(c, Which::C09);
    let every = c.ops.len() < 40;
    let mut last = 0;
    drive(c, || {
        if every || env().hist.len() > last + gap(12) {
            audit_lives();
            last = env().hist.len();
        }
    });
    audit_lives();
    probes();
    if c.c(6) & 1 == 0 {
        for t in 0..env().held.len() {
            while !env().held[t].is_empty() {
                exec(t, &[0, RELEASE as i64, 0]);
            }
        }
        audit_lives();
    }
    let h = env().held.iter().any(|h| !h.is_empty());
    let c0 = env().cache.take();
    call("drop of the cache", move || sut::cache_drop(c0.unwrap()));
    let e = env();
    for (i, d) in e.dropped.iter().enumerate() {
        if *d == 0 && e.holders[i] == 0 {
            vfail!("value-retained", "value {} was not destroyed with the cache, although nobody holds it", i);
        }
    }
    teardown();
    let e = env();
    if let Some(i) = e.dropped.iter().position(|d| *d != 1) {
        vfail!("value-retained", "value {} was never destroyed", i);
    }
    nontrivial(h || stat(P_EVICT) > 0 || stat(P_OVERWRITE_KEY) > 0);
}

// -------------------------------------------------------------------- C10

pub fn gen_c10(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C10");
    let evict = r.chance(1, 2);
    gen_common(r, &mut c, &[0, 0, 1, 2, 3], evict);
    let nkeys = r.pick(&[1u64, 2, 4, 8, 20, 40]);
    let n = if i % 5 == 0 { 40 + r.below(50) } else { 4 + r.below(26) };
    let mc = if evict { (c.cfg[2] as u64 / 32).max(1) } else { 100 };
    let w: &[(usize, u64)] = match r.below(3) {
        0 => &[(INSERT, 12), (LOOKUP, 8), (TOTAL, 1)],
        1 => &[(INSERT, 12), (LOOKUP, 6), (ERASE, 4), (PRUNE, 1), (TOTAL, 1)],
        _ => &[(INSERT, 10), (LOOKUP, 6), (ERASE, 2), (HOLD, 2), (RELEASE, 2), (PRUNE, 1), (SLOTS, 1)],
    };
    gen_ops(r, &mut c, n, nkeys, w, mc);
    if i % 32 == 17 {
        many(r, &mut c, evict);
    }
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    let d = r.pick(&[8, 30, 70]);
    gen_faults(r, &mut c, AUX, 40, &[1], d);
    c
}

pub fn run_c10(c: &Case) {
    setup(c, Which::C10);
    drive(c, || {});
    env().armed = false;
    audit();
    let e = env();
    let small = c.c(2) < 1_000_000;
    let hit = |p: usize| -> Option<u64> {
        e.hist
            .iter()
            .filter(|o| o.res == Res::Panicked && (o.kind == PRUNE || e.shard[o.key] == p))
            .map(|o| o.inv)
            .min()
    };
    // an error elsewhere than in a partition a panic went through is one too many
    let any: Option<u64> = e.hist.iter().filter(|o| o.res == Res::Panicked).map(|o| o.inv).min();
    for o in &e.hist {
        match (o.kind, o.res) {
            (LOOKUP | HOLD, Res::Panicked) => vfail!("panic", "lookup of key {} panicked: {}", o.key, panic_msg()),
            (TOTAL | SLOTS, Res::Panicked) => vfail!("panic", "{} panicked: {}", name(o.kind), panic_msg()),
            (TOTAL | SLOTS | PRUNE, Res::Error) if any.is_none_or(|t| t > o.ret) => vfail!("spurious-error", "{} returned an error although no destructor had panicked", name(o.kind)),
            _ => {}
        }
    }
    let panics = e.hist.iter().filter(|o| o.res == Res::Panicked).count() as u64;
    if panics > stat(F_DROP_PANIC) {
        vfail!("panic", "{} calls panicked although only {} destructors did: {}", panics, stat(F_DROP_PANIC), panic_msg());
    }
    check_registers(&|p| if small { Some(0) } else { hit(p) }, &hit);
    if hit(0).is_some() || any.is_some() {
        bump(P_POISONED);
    }
    probes();
    nontrivial(panics > 0);
    teardown();
}

// -------------------------------------------------------------------- C16

pub fn gen_c16(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case::new("C16");
    let evict = r.chance(1, 3);
    gen_common(r, &mut c, &[2, 3, 3, 4, 4], evict);
    if r.chance(1, 2) {
        c.cfg[0] = r.pick(&[1i64, 2, 3]);
    }
    let nkeys = r.pick(&[2u64, 4, 8, 16, 40]);
    let n = 6 + r.below(30);
    let mc = if evict { (c.cfg[2] as u64 / 32).max(1) } else { 100 };
    let w: &[(usize, u64)] = match r.below(4) {
        0 => &[(LOOKUP, 10), (TOTAL, 1), (SLOTS, 1)],
        1 => &[(INSERT, 10), (LOOKUP, 10)],
        2 => &[(INSERT, 10), (LOOKUP, 4), (TOTAL, 4), (SLOTS, 2)],
        _ => &[(INSERT, 4), (LOOKUP, 12), (TOTAL, 1), (HOLD, 1), (RELEASE, 1)],
    };
    if r.chance(1, 2) {
        // something to find
        for k in 0..nkeys {
            c.ops.push(vec![k as i64, INSERT as i64, k as i64, 1]);
        }
        c.ops.push(vec![0, AUDIT as i64, 0]);
        c.cfg[9] = 1;
    }
    gen_ops(r, &mut c, n, nkeys, w, mc);
    c.cfg[7] = if r.chance(7, 8) { 1 + r.below(4) as i64 } else { 0 };
    c.cfg[8] = 1 + match r.below(3) {
        0 => r.below(60),
        1 => r.below(400),
        _ => r.below(2500),
    } as i64;
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    c
}

pub fn run_c16(c: &Case) {
    setup(c, Which::C16);
    drive(c, || {});
    audit();
    probes();
    teardown();
}

// -------------------------------------------------------------------- C17

pub fn gen_c17(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C17");
    let evict = r.chance(3, 5);
    gen_common(r, &mut c, &[0, 0, 1, 2, 3], evict);
    let conc = c.cfg[3] >= 2;
    if evict {
        // few entries fit, however many are inserted
        let share = r.pick(&[2i64, 3, 4, 6, 9, 20]);
        c.cfg[2] = 32 * share;
    }
    let fill = i % 8 == 1 && !conc;
    let nkeys = if fill { 300 } else { r.pick(&[1u64, 2, 3, 5, 16, 30, 50, 50, 300]) };
    if nkeys > 12 && r.chance(2, 3) {
        // tables that grow
        c.cfg[0] = 0;
        c.cfg[4] = 0;
    }
    let n = match (i % 4, conc) {
        (0, false) => 150 + r.below(250),
        (_, false) if fill => r.below(60),
        (_, false) => 20 + r.below(130),
        _ => 12 + r.below(50),
    };
    let mc = match r.below(3) {
        0 => 1,
        1 => 2,
        _ => (c.cfg[2].min(1 << 20) as u64 / 32 + 2).max(1),
    };
    let w: &[(usize, u64)] = match r.below(5) {
        0 => &[(INSERT, 1)],
        1 => &[(INSERT, 20), (ERASE, 16)],
        2 => &[(INSERT, 20), (PRUNE, 3)],
        3 => &[(INSERT, 20), (ERASE, 5), (PRUNE, 1), (LOOKUP, 2)],
        _ => &[(INSERT, 14), (LOOKUP, 4), (SLOTS, 2), (ERASE, 2)],
    };
    if fill {
        // tables that grow and grow
        c.cfg[2] = 1 << 40;
        c.cfg[1] = r.pick(&[1, 2, 3, 4]);
        for k in 0..r.below(nkeys) {
            c.ops.push(vec![r.below(4) as i64, INSERT as i64, k as i64, 1]);
        }
    }
    gen_ops(r, &mut c, n, nkeys, w, mc);
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    c
}

fn audit_memory(cleared: bool) {
    let e = env();
    if cleared {
        e.peak = e.alive;
    }
    let cache = e.cache.as_ref().unwrap();
    let slots = match call("slots", || sut::cache_slots(cache)) {
        Ok(n) => n,
        Err(_) => vfail!("spurious-error", "slots returned an error"),
    };
    let bytes = heap::live_bytes();
    // how often and how far a table grows is left open: only growth that the
    // entries it ever held at once cannot explain counts
    let each = e.slots0 / 32;
    let mut bound = 0;
    for p in 0..32 {
        bound += if e.peak[p] == 0 { each } else { each.max(8 * (e.peak[p] + 1)) };
    }
    ev(mix(31, slots as u64));
    trace(|| format!("{} slots, {} entries, {} bytes", slots, e.alive.iter().sum::<usize>(), bytes - e.bytes0.min(bytes)));
    if slots >= e.slots0 {
        // every other partition has at least the slots it was made with
        let own = slots - 31 * each;
        for p in 0..32 {
            if own * 4 < e.alive[p] {
                vfail!("slots-too-few", "{} entries of one partition share at most {} hash slots: its table does not grow with them", e.alive[p], own);
            }
        }
    }
    if cleared && slots > e.slots0 {
        vfail!("slots-not-released", "{} slots after the cache was cleared, {} when it was made", slots, e.slots0);
    }
    if slots > bound {
        vfail!("slots-outgrow-entries", "{} slots, although at most {} entries were in the cache at once and it was made with {} slots", slots, e.peak.iter().sum::<usize>(), e.slots0);
    }
    let mut room = 2048 + 32 * (slots.saturating_sub(e.slots0)) as u64;
    for (i, d) in e.dropped.iter().enumerate() {
        if *d == 0 {
            room += 400 + 3 * e.keys[e.vkey[i]].len() as u64;
        }
    }
    if bytes > e.bytes0 + room {
        vfail!("memory-outgrows-entries", "the cache keeps {} bytes more than when it was empty, with {} entries and {} slots more", bytes - e.bytes0, e.alive.iter().sum::<usize>(), slots.saturating_sub(e.slots0));
    }
}

pub fn run_c17(c: &Case) {
    setup(c, Which::C17);
    let e = env();
    e.bytes0 = heap::live_bytes();
    let cache = e.cache.as_ref().unwrap();
    e.slots0 = match call("slots", || sut::cache_slots(cache)) {
        Ok(n) => n,
        Err(_) => vfail!("spurious-error", "slots returned an error"),
    };
    drive(c, || {
        let e = env();
        let last = e.hist.last().map(|o| o.kind);
        let grown = e.hist.len() % 8 == 0 || last == Some(PRUNE) || nthreads(c) > 0;
        if grown {
            audit_memory(last == Some(PRUNE));
        }
    });
    audit_memory(false);
    exec(0, &[0, PRUNE as i64]);
    audit_memory(true);
    probes();
    let n = env().hist.iter().filter(|o| o.kind == INSERT).count();
    nontrivial(n > 1 && (stat(P_EVICT) > 0 || stat(P_OVERWRITE_KEY) > 0 || stat(P_ERASE_HIT) > 0));
    teardown();
}
