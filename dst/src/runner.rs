//! Runs one case in a forked child, and many cases over several workers.
use crate::case::Case;
use crate::rng::Rng;
use crate::{props, Prop};
use simrt::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn open(p: *const u8, fl: i32, ...) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, fl: i32, fd: i32, off: i64) -> *mut u8;
    fn setpriority(which: i32, who: u32, prio: i32) -> i32;
}

pub unsafe fn shared<T>(n: usize) -> *mut T {
    let p = mmap(std::ptr::null_mut(), n * std::mem::size_of::<T>(), 3, 0x1 | 0x20 | 0x4000, -1, 0);
    assert!(p as isize != -1, "mmap");
    p as *mut T
}

pub static mut VERBOSE: bool = false;
static mut TRACE: Vec<String> = Vec::new();
static mut PANIC: String = String::new();

pub fn trace(s: impl FnOnce() -> String) {
    unsafe {
        if VERBOSE {
            let t = format!("[{:>7}] thread {}: {}", sched::steps(), TID.get(), s());
            TRACE.push(t);
        }
    }
}

fn on_end(kind: &str, msg: &str) {
    unsafe {
        if VERBOSE {
            for t in &TRACE {
                eprintln!("{}", t);
            }
            if !kind.is_empty() {
                eprintln!("=> {}: {}", kind, msg);
            }
        }
    }
}

/// The message of the last panic inside the code under test.
pub fn panic_msg() -> String {
    unsafe { PANIC.clone() }
}

/// Call into the code under test; a panic there is a violation.
pub fn call<R>(what: &str, f: impl FnOnce() -> R) -> R {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut(f))) {
        Ok(r) => r,
        Err(_) => {
            let m = panic_msg();
            fail("panic", &format!("{} panicked: {}", what, m))
        }
    }
}

/// Call into the code under test; None if it panicked.
pub fn call_catch<R>(f: impl FnOnce() -> R) -> Option<R> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut(f))).ok()
}

pub fn install_hooks() {
    std::panic::set_hook(Box::new(|info| {
        let s = in_sut();
        host(|| {
            let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
                s.to_string()
            } else if let Some(s) = info.payload().downcast_ref::<String>() {
                s.clone()
            } else {
                "panic".into()
            };
            let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
            if s {
                unsafe { PANIC = format!("{}{}", m, loc) };
                trace(|| format!("panic: {}{}", m, loc));
                if !info.can_unwind() {
                    // a failed unsafe precondition, or a panic while unwinding
                    fail("abort", &format!("the process aborted: {}{}", m, loc));
                }
            } else if unsafe { !RES.is_null() } {
                harness_error(&format!("harness panic: {}{}", m, loc));
            } else {
                eprintln!("dst: {}{}", m, loc);
            }
        })
    }));
    std::alloc::set_alloc_error_hook(|l| {
        host(|| {
            if heap::failure_injected() {
                bump(P_OOM_REPORTED);
                end_ok();
            }
            fail("alloc-error", &format!("allocation of {} bytes reported as failed", l.size()));
        })
    });
    unsafe { ON_END = Some(on_end) };
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub kind: String, // empty: fine
    pub msg: String,
    pub harness: bool,
    pub steps: u64,
    pub evhash: u64,
    pub schedhash: u64,
    pub nontrivial: bool,
}

impl Outcome {
    pub fn fingerprint(&self) -> String {
        format!("{} {:016x} {:016x}", self.steps, self.evhash, self.schedhash)
    }
}

pub struct Slot {
    pub res: *mut RunResult,
    pub cover: *mut u8,
}

impl Slot {
    pub fn new() -> Slot {
        unsafe { Slot { res: shared::<RunResult>(1), cover: shared::<u8>(COVER_LEN) } }
    }
}

fn child(p: &Prop, c: &Case) -> ! {
    unsafe {
        JUDGE = p.judge;
        sched::begin(p.limit);
        set_streams(&c.st);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            (p.run)(c);
            if p.leak && leaked() {
                // an allocation made once per process (a lazily filled table,
                // say) is not a leak: only what happens again is
                bump(P_LEAK_RETRY);
                sched::begin(p.limit);
                set_streams(&c.st);
                let (n0, b0) = (heap::live_count(), heap::live_bytes());
                (p.run)(c);
                let (n1, b1) = (heap::live_count(), heap::live_bytes());
                if n1 > n0 {
                    SUT.set(0);
                    fail_mem("leak", &format!("{} blocks, {} bytes never released", n1 - n0, b1 - b0));
                }
            }
        }));
        if r.is_err() {
            harness_error("panic escaped");
        }
        sched::end();
        (*RES).status = 1;
        on_end("", "");
        sys::exit_now(0)
    }
}

fn leaked() -> bool {
    bump(P_LEAK_CHECKED);
    heap::live_count() > 0
}

/// Run one case in its own process.
pub fn run_case(p: &Prop, c: &Case, slot: &Slot, patience: u32) -> Outcome {
    unsafe {
        std::ptr::write_bytes(slot.res as *mut u8, 0, std::mem::size_of::<RunResult>());
        let pid = fork();
        if pid < 0 {
            panic!("fork");
        }
        if pid == 0 {
            RES = slot.res;
            COVER = slot.cover;
            alarm(patience);
            let null = open(b"/dev/null\0".as_ptr(), 1);
            dup2(null, 1);
            if !VERBOSE {
                dup2(null, 2);
            }
            child(p, c);
        }
        let mut st = 0;
        while waitpid(pid, &mut st, 0) < 0 {}
        let r = &*slot.res;
        let mut o = Outcome {
            kind: String::new(),
            msg: String::new(),
            harness: false,
            steps: r.steps,
            evhash: r.evhash,
            schedhash: r.schedhash,
            nontrivial: r.nontrivial != 0,
        };
        let sig = st & 0x7f;
        match (sig, r.status) {
            (0, 1) => {}
            (0, 2) => {
                o.kind = get_str(&r.kind);
                o.msg = get_str(&r.msg);
            }
            (0, 3) => {
                o.harness = true;
                o.kind = "harness".into();
                o.msg = get_str(&r.msg);
            }
            (0, _) => {
                o.kind = "exit".into();
                o.msg = format!("the process ended by itself with status {}", (st >> 8) & 0xff);
            }
            (14, _) => {
                o.kind = "hang".into();
                o.msg = format!("no end within {} s of real time", patience);
            }
            (9, _) => {
                o.harness = true;
                o.kind = "harness".into();
                o.msg = "killed from outside".into();
            }
            (s, _) => {
                o.kind = match s {
                    6 => "abort",
                    11 => "segv",
                    7 => "sigbus",
                    4 => "sigill",
                    _ => "signal",
                }
                .into();
                o.msg = format!("the process died of signal {}", s);
            }
        }
        if o.kind == "hang" && patience < 60 {
            return run_case(p, c, slot, 90);
        }
        o
    }
}

// ------------------------------------------------------------------ batches

const SET: usize = 1 << 22;
pub struct HashSetShared {
    t: *mut AtomicU64,
    n: *mut AtomicU64,
}
impl HashSetShared {
    pub fn new() -> Self {
        unsafe { HashSetShared { t: shared(SET), n: shared(1) } }
    }
    pub fn insert(&self, h: u64) {
        let h = h | 1;
        let mut i = (h >> 1) as usize % SET;
        unsafe {
            if (*self.n).load(Ordering::Relaxed) as usize > SET / 2 {
                return;
            }
            loop {
                let e = &*self.t.add(i);
                let v = e.load(Ordering::Relaxed);
                if v == h {
                    return;
                }
                if v == 0 {
                    match e.compare_exchange(0, h, Ordering::SeqCst, Ordering::SeqCst) {
                        Ok(_) => {
                            (*self.n).fetch_add(1, Ordering::Relaxed);
                            return;
                        }
                        Err(x) if x == h => return,
                        Err(_) => {}
                    }
                }
                i = (i + 1) % SET;
            }
        }
    }
    pub fn len(&self) -> u64 {
        unsafe { (*self.n).load(Ordering::Relaxed) }
    }
}

#[repr(C)]
pub struct Agg {
    pub runs: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub switches: u64,
    pub harness: u64,
    pub det_checked: u64,
    pub det_mismatch: u64,
    pub fault_runs: u64,
    pub stats: [u64; NSTAT],
    pub stat_runs: [u64; NSTAT],
    pub hmsg: [u8; 1024],
    pub last: u64,
}

pub struct Batch {
    pub runs: u64,
    pub agg: Vec<Agg>,
    pub found: Option<u64>,
    pub distinct_events: u64,
    pub distinct_schedules: u64,
    pub distinct_nontrivial: u64,
    pub edges_hit: usize,
    pub edges: usize,
    pub wall: f64,
    pub harness_msg: Option<String>,
    pub completed_all: bool,
}

pub fn gen_case(p: &Prop, seed: u64, index: u64) -> Case {
    let mut r = Rng::new(seed, p.id, index);
    let mut c = (p.gen)(&mut r, index);
    c.prop = p.id.to_string();
    c
}

pub fn workers() -> usize {
    std::env::var("DST_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| {
        std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16)
    })
}

/// Explore cases 0..n (or until the time is up). Stops at the first violation.
pub fn explore(p: &Prop, seed: u64, n: u64, secs: f64, det: u64) -> Batch {
    let t0 = Instant::now();
    let deadline = t0 + Duration::from_secs_f64(secs);
    let nw = workers();
    let ev = HashSetShared::new();
    let sc = HashSetShared::new();
    let nt = HashSetShared::new();
    let found: &AtomicU64 = unsafe { &*shared::<AtomicU64>(1) };
    found.store(u64::MAX, Ordering::SeqCst);
    let aggs: *mut Agg = unsafe { shared::<Agg>(nw) };
    let covers: Vec<Slot> = (0..nw).map(|_| Slot::new()).collect();
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { setpriority(0, 0, 5) };
            let a = unsafe { &mut *aggs.add(w) };
            let slot = &covers[w];
            let mut i = w as u64;
            while i < n && Instant::now() < deadline && i < found.load(Ordering::SeqCst) {
                let c = gen_case(p, seed, i);
                let o = run_case(p, &c, slot, 30);
                let r = unsafe { &*slot.res };
                a.runs += 1;
                a.last = i;
                a.steps += r.steps;
                a.switches += r.switches;
                for s in 0..NSTAT {
                    a.stats[s] += r.stats[s];
                    a.stat_runs[s] += (r.stats[s] > 0) as u64;
                }
                ev.insert(o.evhash);
                if r.switches > 0 {
                    sc.insert(o.schedhash);
                }
                if o.nontrivial {
                    a.nontrivial += 1;
                    nt.insert(mix(o.evhash, o.schedhash));
                }
                if o.harness {
                    a.harness += 1;
                    let b = o.msg.as_bytes();
                    for (k, x) in a.hmsg.iter_mut().enumerate().take(1023) {
                        *x = *b.get(k).unwrap_or(&0);
                    }
                } else if !o.kind.is_empty() {
                    // only what repeats counts as found
                    let o2 = run_case(p, &c, slot, 30);
                    a.det_checked += 1;
                    if o2.kind == o.kind {
                        found.fetch_min(i, Ordering::SeqCst);
                        break;
                    }
                    a.det_mismatch += 1;
                }
                if i < det {
                    // the same case again, in another process
                    let o2 = run_case(p, &c, slot, 30);
                    a.det_checked += 1;
                    if o2.steps != o.steps || o2.evhash != o.evhash || o2.schedhash != o.schedhash || o2.kind != o.kind {
                        a.det_mismatch += 1;
                    }
                }
                i += nw as u64;
            }
            sys::exit_now(0);
        }
        pids.push(pid);
    }
    let mut lost = None;
    for pid in pids {
        let mut st = 0;
        unsafe { while waitpid(pid, &mut st, 0) < 0 {} }
        if st != 0 {
            lost = Some(format!("a worker ended with status {:#x}", st));
        }
    }
    let agg: Vec<Agg> = (0..nw).map(|w| unsafe { std::ptr::read(aggs.add(w)) }).collect();
    let mut edges_hit = 0;
    for g in 1..=hooks::guards().min(COVER_LEN - 1) {
        if covers.iter().any(|s| unsafe { *s.cover.add(g) != 0 }) {
            edges_hit += 1;
        }
    }
    let f = found.load(Ordering::SeqCst);
    let runs = agg.iter().map(|a| a.runs).sum();
    let harness_msg = agg.iter().find(|a| a.harness > 0).map(|a| get_str(&a.hmsg)).or(lost);
    Batch {
        runs,
        found: if f == u64::MAX { None } else { Some(f) },
        distinct_events: ev.len(),
        distinct_schedules: sc.len(),
        distinct_nontrivial: nt.len(),
        edges_hit,
        edges: hooks::guards(),
        wall: t0.elapsed().as_secs_f64(),
        harness_msg,
        completed_all: runs >= n,
        agg,
    }
}

// ---------------------------------------------------------------- shrinking

pub fn shrink(p: &Prop, c: &Case, kind: &str, slot: &Slot, budget: Duration) -> (Case, u64) {
    let t0 = Instant::now();
    let mut best = c.clone();
    let mut tried = 0u64;
    // checked before a candidate is copied: copies of large cases take time of their own
    let over = || t0.elapsed() > budget;
    let mut ok = |cand: &Case, tried: &mut u64| -> bool {
        if t0.elapsed() > budget || *tried > 6000 {
            return false;
        }
        *tried += 1;
        let o = run_case(p, cand, slot, 30);
        !o.harness && o.kind == kind
    };
    loop {
        let before = best.clone();
        // drop operations
        let mut sz = best.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() && !over() {
                let mut cand = best.clone();
                let e = (i + sz).min(cand.ops.len());
                cand.ops.drain(i..e);
                if ok(&cand, &mut tried) {
                    best = cand;
                } else {
                    i += sz;
                }
            }
            if sz == 1 {
                break;
            }
            sz = sz.div_ceil(2);
        }
        // drop, cut and calm the streams
        for s in 0..NS {
            if best.st[s].is_empty() {
                continue;
            }
            let mut cand = best.clone();
            cand.st[s].clear();
            if ok(&cand, &mut tried) {
                best = cand;
                continue;
            }
            let mut cut = best.st[s].len() / 2;
            while cut > 0 && !over() {
                if best.st[s].len() > cut {
                    let mut cand = best.clone();
                    let l = cand.st[s].len();
                    cand.st[s].truncate(l - cut);
                    if ok(&cand, &mut tried) {
                        best = cand;
                        continue;
                    }
                }
                cut /= 2;
            }
            let mut sz = best.st[s].len().div_ceil(2).max(1);
            loop {
                let mut i = 0;
                while i < best.st[s].len() && !over() {
                    let e = (i + sz).min(best.st[s].len());
                    if best.st[s][i..e].iter().any(|x| *x != 0) {
                        let mut cand = best.clone();
                        cand.st[s][i..e].fill(0);
                        if ok(&cand, &mut tried) {
                            best = cand;
                        }
                    }
                    i = e;
                }
                if sz == 1 {
                    break;
                }
                sz = sz.div_ceil(2);
            }
            for i in 0..best.st[s].len() {
                let v = best.st[s][i];
                if v > 0xff && v & 0xff != 0 && !over() {
                    let mut cand = best.clone();
                    cand.st[s][i] = v & 0xff;
                    if ok(&cand, &mut tried) {
                        best = cand;
                    }
                }
            }
        }
        // simplify numbers
        let mut lower = |get: &dyn Fn(&Case) -> i64, set: &dyn Fn(&mut Case, i64), best: &mut Case, tried: &mut u64| {
            let v = get(best);
            if v == 0 || over() {
                return;
            }
            let mut cand = best.clone();
            set(&mut cand, 0);
            if ok(&cand, tried) {
                *best = cand;
                return;
            }
            let mut d = v.unsigned_abs() as i64 / 2;
            let mut n = 0;
            while n < 40 && !over() {
                let v = get(best);
                let mut cand = best.clone();
                set(&mut cand, v - d.max(1) * v.signum());
                n += 1;
                if ok(&cand, tried) {
                    *best = cand;
                    d = d.min(v.unsigned_abs() as i64);
                } else if d <= 1 {
                    break;
                } else {
                    d /= 2;
                }
            }
        };
        for k in 0..best.cfg.len() {
            lower(&|c| c.cfg[k], &|c, v| c.cfg[k] = v, &mut best, &mut tried);
        }
        for i in 0..best.ops.len() {
            for k in 1..best.ops[i].len() {
                lower(&|c| c.ops[i][k], &|c, v| c.ops[i][k] = v, &mut best, &mut tried);
            }
        }
        if best == before || over() {
            break;
        }
    }
    (best, tried)
}

pub fn find(id: &str) -> Option<&'static Prop> {
    props().iter().find(|p| p.id == id)
}
