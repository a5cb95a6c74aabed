//! C11: the mutex wrapper under simulated threads.
//!
//! A row is [thread, kind, rounds, flags]: kind 0 lock, 1 try_lock, 2 lock
//! through another clone of the handle, 3 get a fresh lock object.
//! flags & 1: panic while holding; flags & 2: yield while holding;
//! flags & 4: keep the guard over the next row of this thread;
//! flags & 8: let go of it by unwinding past it in simulator code.
use crate::case::*;
use crate::p_log::nontrivial;
use crate::rng::Rng;
use crate::runner::{call, call_catch, panic_msg, trace};
use level_db_rust::util::mutex_lock::{Lock, MutexLock};
use simrt::*;
use std::sync::{MutexGuard, TryLockError};
use sut::Guarded;

struct Env {
    mutex: MutexLock<Guarded>,
    locks: Vec<Vec<Lock<Guarded>>>,
    clock: u64,
    inside: Option<u32>,
    /// what the last holder left
    a: u64,
    sum: u64,
    /// has a holder panicked?
    poisoned: bool,
    /// intervals in which someone held the lock, or may have
    /// (thread, first moment it may be held, last moment it may be held)
    holds: Vec<(u32, u64, u64)>,
    fails: Vec<(u32, u64, u64)>,
    waited: u64,
}

static mut ENV: Option<Env> = None;
fn env() -> &'static mut Env {
    unsafe { ENV.as_mut().unwrap() }
}
fn tick() -> u64 {
    let e = env();
    e.clock += 1;
    e.clock
}

pub fn gen_c11(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C11");
    let nt = 2 + r.below(3) as i64;
    c.cfg = vec![nt, r.below(3) as i64, 0];
    let n = if i % 4 == 0 { 16 + r.below(24) } else { 2 + r.below(12) };
    let panics = r.chance(1, 3);
    let trymix = r.pick(&[0u64, 30, 60, 95]);
    for _ in 0..n {
        let k = if r.below(100) < trymix { 1 } else { r.pick(&[0i64, 0, 2, 3]) };
        let mut fl = 0;
        if panics && r.chance(1, 8) {
            fl |= 1;
        }
        if r.chance(1, 3) {
            fl |= 2;
        }
        c.ops.push(vec![r.below(nt as u64) as i64, k, r.below(12) as i64, fl]);
    }
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    c
}

struct Held<'a> {
    g: Option<MutexGuard<'a, Guarded>>,
    from: u64,
}

/// The calling thread got in.
fn enter(g: MutexGuard<'_, Guarded>, from: u64, poisoned: bool, row: &[i64], what: &str) {
    let me = TID.get();
    let e = env();
    if let Some(o) = e.inside {
        vfail!("two-inside", "thread {} got in by {} while thread {} is inside", me, what, o);
    }
    e.inside = Some(me);
    if poisoned != e.poisoned {
        vfail!(
            if poisoned { "spurious-poison" } else { "poison-not-reported" },
            "{} by thread {} {} although {} holder panicked before",
            what,
            me,
            if poisoned { "reported a panic" } else { "reported no panic" },
            if e.poisoned { "a" } else { "no" }
        );
    }
    if poisoned {
        bump(P_RECOVERED);
    }
    let mut h = Held { g: Some(g), from };
    let rounds = fm(row, 2, 40) as u64;
    let fl = fm(row, 3, 16);
    let before = (e.a, e.sum);
    let out = call_catch(|| {
        let g: &mut Guarded = h.g.as_mut().unwrap();
        sut::section(g, rounds)
    });
    let Some((a, sum)) = out else { vfail!("panic", "access to the protected data panicked: {}", panic_msg()) };
    if fl & 2 != 0 {
        sched::yield_now();
    }
    let e = env();
    if e.inside != Some(me) {
        vfail!("two-inside", "thread {:?} came in while thread {} was inside", e.inside, me);
    }
    if a != before.0 || sum != before.1 + rounds {
        vfail!("lost-update", "thread {} found {} and {}, the last holder left {} and {}", me, a, sum - rounds.min(sum), before.0, before.1);
    }
    e.a = a + 1;
    e.sum = sum;
    if fl & 1 != 0 {
        bump(F_HOLDER_PANIC);
        trace(|| "panics while holding".into());
        let g = h.g.take();
        let e = env();
        e.inside = None;
        e.poisoned = true;
        if call_catch(move || sut::panic_holding(g.unwrap())).is_some() {
            harness_error("no unwinding");
        }
    } else {
        e.inside = None;
        let g = h.g.take();
        if call_catch(move || sut::drop_guard(g.unwrap())).is_none() {
            vfail!("panic", "releasing the lock panicked: {}", panic_msg());
        }
    }
    let t = tick();
    env().holds.push((me, h.from, t));
}

fn row(slot: usize, r: &[i64]) {
    let me = TID.get();
    let kind = fm(r, 1, 4);
    if kind == 3 {
        let l = call("get_lock", || sut::mutex_get(&env().mutex));
        env().locks[slot].push(l);
    }
    let e = env();
    let n = e.locks[slot].len();
    let l: *const Lock<Guarded> = &e.locks[slot][if kind == 2 { r.len() % n } else { n - 1 }];
    let l = unsafe { &*l };
    bump(P_OPS);
    let from = tick();
    let b0 = sched::th(me).blocks;
    sched::th(me).op = [1 + (kind == 1) as i64, 0, 0, 0];
    sched::point();
    if kind == 1 {
        trace(|| "try_lock ...".into());
        let res = match call_catch(|| sut::lock_try(l)) {
            Some(x) => x,
            None => vfail!("panic", "try_lock panicked: {}", panic_msg()),
        };
        if sched::th(me).blocks != b0 {
            vfail!("try-lock-waited", "try_lock waited {} times", sched::th(me).blocks - b0);
        }
        let t = tick();
        ev(mix(30, me as u64));
        match res {
            Ok(g) => {
                bump(P_TRYLOCK_OK);
                trace(|| "try_lock: in".into());
                enter(g, from, false, r, "try_lock")
            }
            Err(TryLockError::Poisoned(p)) => {
                bump(P_TRYLOCK_OK);
                trace(|| "try_lock: in, after a panic".into());
                enter(p.into_inner(), from, true, r, "try_lock")
            }
            Err(TryLockError::WouldBlock) => {
                bump(P_TRYLOCK_FAIL);
                trace(|| "try_lock: busy".into());
                env().fails.push((me, from, t));
            }
        }
    } else {
        trace(|| "lock ...".into());
        let res = match call_catch(|| sut::lock_lock(l)) {
            Some(x) => x,
            None => vfail!("panic", "lock panicked: {}", panic_msg()),
        };
        if sched::th(me).blocks != b0 {
            bump(P_LOCK_WAITED);
            env().waited += 1;
        }
        ev(mix(31, me as u64));
        match res {
            Ok(g) => {
                trace(|| "lock: in".into());
                enter(g, from, false, r, "lock")
            }
            Err(p) => {
                trace(|| "lock: in, after a panic".into());
                enter(p.into_inner(), from, true, r, "lock")
            }
        }
    }
    sched::th(me).op = [0; 4];
    sched::point();
}

pub fn run_c11(c: &Case) {
    let nt = (c.c(0).unsigned_abs() as usize).clamp(1, 5);
    let mutex = call("MutexLock::new", sut::mutex_new);
    let mut locks = vec![];
    for _ in 0..nt + 1 {
        locks.push(vec![call("get_lock", || sut::mutex_get(&mutex))]);
    }
    unsafe {
        ENV = Some(Env { mutex, locks, clock: 0, inside: None, a: 0, sum: 0, poisoned: false, holds: vec![], fails: vec![], waited: 0 });
        sched::ON_STALL = None;
    }
    let mut per: Vec<Vec<Vec<i64>>> = vec![vec![]; nt];
    for o in &c.ops {
        per[fm(o, 0, nt)].push(o.clone());
    }
    add(P_CONCURRENT_OPS, c.ops.len() as u64);
    let fs: Vec<Box<dyn FnOnce() + Send>> = per
        .into_iter()
        .enumerate()
        .map(|(t, rs)| {
            Box::new(move || {
                for r in &rs {
                    row(t, r);
                }
            }) as Box<dyn FnOnce() + Send>
        })
        .collect();
    sched::run_threads(fs);
    let e = env();
    for (t, a, b) in &e.fails {
        if !e.holds.iter().any(|(u, x, y)| u != t && x < b && a < y) {
            vfail!("spurious-busy", "try_lock of thread {} failed although nobody held the lock at any moment of the call", t);
        }
    }
    // nobody is inside: it must be free now
    row(nt, &[0, 1, 1, 0]);
    if env().fails.iter().any(|f| f.0 == 1) {
        vfail!("spurious-busy", "try_lock failed although nobody holds the lock");
    }
    row(nt, &[0, 0, 1, 0]);
    nontrivial(e.waited > 0 || !e.fails.is_empty());
    let e = unsafe { ENV.take() }.unwrap();
    for l in e.locks.into_iter().flatten() {
        call("drop of a lock object", move || sut::drop_lock(l));
    }
    let m = e.mutex;
    call("drop of the mutex", move || sut::drop_mutex(m));
}
