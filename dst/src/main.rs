//! Deterministic simulation of level_db_rust. See DESIGN.md.
#![feature(panic_can_unwind, alloc_error_hook)]
#![allow(static_mut_refs)]
mod case;
mod logfmt;
mod p_bytes;
mod p_cache;
mod p_code;
mod p_log;
mod p_mem;
mod p_mutex;
mod p_status;
mod rng;
mod runner;

use case::Case;
use rng::Rng;
use runner::*;
use simrt::*;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

pub struct Prop {
    pub id: &'static str,
    pub judge: Judge,
    pub gen: fn(&mut Rng, u64) -> Case,
    pub run: fn(&Case),
    /// steps one run may take before it counts as making no progress
    pub limit: u64,
    pub leak: bool,
    pub rule: &'static str,
    pub real: &'static [&'static str],
    pub stub: &'static [&'static str],
}

const LOG_REAL: &[&str] = &["db::log_writer", "db::log_reader", "util::crc", "util::coding", "util::slice", "std::sync of the standard library"];
const LOG_STUB: &[&str] = &["sink and source (simulated disk)", "system allocator (simulated heap)"];

const CACHE_REAL: &[&str] = &["util::cache", "util::hash", "util::slice", "util::coding", "std::sync::RwLock and Arc of the standard library", "threads of the operating system, one running at a time"];
const CACHE_STUB: &[&str] = &["futex system call and thread scheduler (simulated)", "system allocator (simulated heap)", "cached values (counting, optionally panicking on destruction)"];

static PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        judge: Judge::Behaviour,
        gen: p_log::gen_c01,
        run: p_log::run_c01,
        limit: 200_000_000,
        leak: false,
        rule: "one run appends a generated sequence of records through a sink and reads them back through a source, both of which split, shorten and interrupt calls; non-trivial if a call was split or interrupted, a record was fragmented or a block trailer occurred; distinct by event log and schedule",
        real: LOG_REAL,
        stub: LOG_STUB,
    },
    Prop {
        id: "C02",
        judge: Judge::Behaviour,
        gen: p_log::gen_c02,
        run: p_log::run_c02,
        limit: 400_000_000,
        leak: false,
        rule: "one run appends records, then restarts from 4 to 13 disk images a crash at a chosen instant may leave and reads each; non-trivial if a crash fell between a write and the flush after it; distinct by event log",
        real: LOG_REAL,
        stub: LOG_STUB,
    },
    Prop {
        id: "C03",
        judge: Judge::Behaviour,
        gen: p_log::gen_c03,
        run: p_log::run_c03,
        limit: 200_000_000,
        leak: false,
        rule: "one run appends records, damages the stored bytes in one to three places aimed at headers, lengths, types, payloads and trailers, and reads; or reads generated garbage with and without verification; non-trivial if a byte changed; distinct by event log",
        real: LOG_REAL,
        stub: LOG_STUB,
    },
    Prop {
        id: "C04",
        judge: Judge::Behaviour,
        gen: p_log::gen_c04,
        run: p_log::run_c04,
        limit: 200_000_000,
        leak: false,
        rule: "one run appends records through a failing sink (errors, zero-length writes, failing flushes, full disk, later freed) and reads what it took, or reads a good log through a failing source; non-trivial if a failure hit an operation; distinct by event log",
        real: LOG_REAL,
        stub: LOG_STUB,
    },
    Prop {
        id: "C05",
        judge: Judge::Behaviour,
        gen: p_log::gen_c05,
        run: p_log::run_c05,
        limit: 400_000_000,
        leak: false,
        rule: "one run appends records and reopens the log at 4 to 11 offsets aimed at record starts and ends, fragments, block boundaries, trailers and past the end, through a source that shortens and interrupts reads; non-trivial if an offset fell inside a record; distinct by event log",
        real: LOG_REAL,
        stub: LOG_STUB,
    },
    Prop {
        id: "C18",
        judge: Judge::Behaviour,
        gen: p_log::gen_c18,
        run: p_log::run_c18,
        limit: 200_000_000,
        leak: false,
        rule: "one run has a simulated thread append records while 1 to 3 others open the log, at the start or behind an acknowledged record, read to its end and ask again later, with preemption at every instruction step and call and with parts of a write visible before the rest; non-trivial if the log was read while records were being appended; distinct by event log and schedule",
        real: &["db::log_writer", "db::log_reader", "util::crc", "util::coding", "util::slice", "threads of the operating system, one running at a time"],
        stub: &["sink and source (simulated shared disk)", "thread scheduler (simulated)", "system allocator (simulated heap)"],
    },
    Prop {
        id: "C06",
        judge: Judge::Behaviour,
        gen: p_cache::gen_c06,
        run: p_cache::run_c06,
        limit: 40_000_000,
        leak: false,
        rule: "one run has 2 to 4 simulated threads insert into and look up a cache over keys built to share hashes, slots, prefixes or partitions, with erasing and clearing in between, and checks every key's history for linearizability; non-trivial if calls of different threads overlapped; distinct by event log and schedule",
        real: CACHE_REAL,
        stub: CACHE_STUB,
    },
    Prop {
        id: "C07",
        judge: Judge::Behaviour,
        gen: p_cache::gen_c07,
        run: p_cache::run_c07,
        limit: 40_000_000,
        leak: false,
        rule: "one run inserts, overwrites, erases and clears entries with charges from zero to the largest the type allows, alone or from up to 4 simulated threads, and compares totals with what can be looked up whenever the cache is quiet; non-trivial if something was overwritten, evicted or erased; distinct by event log and schedule",
        real: CACHE_REAL,
        stub: CACHE_STUB,
    },
    Prop {
        id: "C08",
        judge: Judge::Behaviour,
        gen: p_cache::gen_c08,
        run: p_cache::run_c08,
        limit: 40_000_000,
        leak: false,
        rule: "one run drives small partitions to capacity, alone or from up to 3 simulated threads, and checks each partition's history against a first-in-first-out model; non-trivial if something was evicted; distinct by event log and schedule",
        real: CACHE_REAL,
        stub: CACHE_STUB,
    },
    Prop {
        id: "C09",
        judge: Judge::Both,
        gen: p_cache::gen_c09,
        run: p_cache::run_c09,
        limit: 40_000_000,
        leak: true,
        rule: "one run inserts values whose destruction is counted, holds and releases them across overwriting, eviction, erasing, clearing and dropping the cache, alone or from up to 4 simulated threads, on a heap that detects bad accesses and leaks; non-trivial if a value was overwritten, evicted or outlived the cache; distinct by event log and schedule",
        real: CACHE_REAL,
        stub: CACHE_STUB,
    },
    Prop {
        id: "C10",
        judge: Judge::Both,
        gen: p_cache::gen_c10,
        run: p_cache::run_c10,
        limit: 40_000_000,
        leak: false,
        rule: "one run lets chosen destructors panic inside cache calls, alone or on up to 3 simulated threads, and checks later calls against what may remain; non-trivial if a call panicked; distinct by event log and schedule",
        real: CACHE_REAL,
        stub: CACHE_STUB,
    },
    Prop {
        id: "C16",
        judge: Judge::Behaviour,
        gen: p_cache::gen_c16,
        run: p_cache::run_c16,
        limit: 40_000_000,
        leak: false,
        rule: "one run stalls one of 2 to 4 simulated threads at a chosen step inside its calls until no other can go on, and inspects who waits for what; non-trivial if the stall happened while other threads existed; distinct by event log and schedule",
        real: CACHE_REAL,
        stub: CACHE_STUB,
    },
    Prop {
        id: "C17",
        judge: Judge::Behaviour,
        gen: p_cache::gen_c17,
        run: p_cache::run_c17,
        limit: 80_000_000,
        leak: false,
        rule: "one run inserts, overwrites, evicts, erases and clears up to 400 times, alone or from up to 3 simulated threads, and compares hash slots and live heap bytes with the entries the cache can hold; non-trivial if something was overwritten, evicted or erased; distinct by event log and schedule",
        real: CACHE_REAL,
        stub: CACHE_STUB,
    },
    Prop {
        id: "C11",
        judge: Judge::Behaviour,
        gen: p_mutex::gen_c11,
        run: p_mutex::run_c11,
        limit: 20_000_000,
        leak: false,
        rule: "one run has 2 to 4 simulated threads lock, try to lock, update the protected data and sometimes panic inside, with preemption inside every critical section and spurious wake-ups; non-trivial if somebody waited or was turned away; distinct by event log and schedule",
        real: &["util::mutex_lock", "std::sync::Mutex of the standard library", "threads of the operating system, one running at a time"],
        stub: &["futex system call and thread scheduler (simulated)", "system allocator (simulated heap)"],
    },
    Prop {
        id: "C12",
        judge: Judge::Both,
        gen: p_mem::gen_c12,
        run: p_mem::run_c12,
        limit: 400_000_000,
        leak: true,
        rule: "one run takes blocks of sizes around every threshold and alignments up to 256 from an arena, alone or from up to 3 simulated threads sharing it, fills them, and lets system allocations fail; non-trivial if a second block was needed or threads shared the arena; distinct by event log and schedule",
        real: &["util::arena", "util::unsafe_slice", "util::slice", "std::sync::Mutex of the standard library"],
        stub: &["system allocator (simulated heap, fails on request)", "futex system call and thread scheduler (simulated)"],
    },
    Prop {
        id: "C13",
        judge: Judge::Behaviour,
        gen: p_mem::gen_c13,
        run: p_mem::run_c13,
        limit: 400_000_000,
        leak: false,
        rule: "one run inserts keys with chosen tower heights under one of five orders, with comparisons that fail, and moves up to 6 iterators in between, against a sorted set; non-trivial if more than two keys were inserted; distinct by event log",
        real: &["db::skip_list", "util::arena", "util::unsafe_slice"],
        stub: &["random number generator (tower heights chosen)", "comparator (five orders, fails on request)", "system allocator (simulated heap)"],
    },
    Prop {
        id: "C14",
        judge: Judge::Both,
        gen: p_mem::gen_c14,
        run: p_mem::run_c14,
        limit: 400_000_000,
        leak: false,
        rule: "one run adds entries with key and value lengths around every length-encoding and block threshold and decodes all entries again; non-trivial if two entries were added; distinct by event log",
        real: &["db::mem_table", "db::skip_list", "util::arena", "util::coding"],
        stub: &["random number generator (tower heights chosen)", "comparator (four orders, fails on request)", "system allocator (simulated heap)", "futex system call (simulated: a self-deadlock is seen)"],
    },
    Prop {
        id: "C19",
        judge: Judge::Both,
        gen: p_mem::gen_c19,
        run: p_mem::run_c19,
        limit: 400_000_000,
        leak: false,
        rule: "one run inserts into and looks keys up in a skip list, or adds entries to a memtable, while chosen comparisons panic or fail, and after every panic compares everything with the model and goes on; non-trivial if a call was unwound; distinct by event log",
        real: &["db::skip_list", "db::mem_table", "util::arena", "util::unsafe_slice", "std::sync::Mutex of the standard library"],
        stub: &["comparator (five orders, panics and fails on request)", "random number generator (tower heights chosen)", "system allocator (simulated heap)", "futex system call (simulated: a self-deadlock is seen)"],
    },
    Prop {
        id: "C29",
        judge: Judge::Behaviour,
        gen: p_mem::gen_c29,
        run: p_mem::run_c29,
        limit: 4_000_000_000,
        leak: false,
        rule: "one run inserts 100 to 1600 keys in ascending, descending, alternating or random order with tower heights from a seeded fair source and counts the comparisons of later insertions and of looking up every key and a key beside it; every run counts as non-trivial; distinct by event log",
        real: &["db::skip_list", "util::arena", "util::unsafe_slice"],
        stub: &["random number generator (seeded, fair)", "comparator (counts)", "system allocator (simulated heap)"],
    },
    Prop {
        id: "C20",
        judge: Judge::Both,
        gen: p_code::gen_c20,
        run: p_code::run_c20,
        limit: 400_000_000,
        leak: true,
        rule: "one run encodes numbers and byte strings into a vector, buffer or slice, stores the bytes, damages or truncates them in half of the runs, and reads them back as written or in any other way, at every address; system allocations fail in some; non-trivial if something was read back, refused or damaged; distinct by event log",
        real: &["util::coding", "util::slice"],
        stub: &["the stored bytes between encoder and decoder (damaged on request)", "system allocator (simulated heap, fails on request)"],
    },
    Prop {
        id: "C22",
        judge: Judge::Both,
        gen: p_code::gen_c22,
        run: p_code::run_c22,
        limit: 400_000_000,
        leak: true,
        rule: "one run builds a filter from a generated set of keys, stores it, sets further bits in it or damages or truncates it in a third of the runs, and asks for every member and for other keys; non-trivial if there was more than one key or damage; distinct by event log",
        real: &["util::filter_policy_bloom", "util::hash", "util::coding", "util::slice"],
        stub: &["the stored filter between builder and reader (damaged on request)", "system allocator (simulated heap)"],
    },
    Prop {
        id: "C30",
        judge: Judge::Both,
        gen: p_code::gen_c30,
        run: p_code::run_c30,
        limit: 400_000_000,
        leak: false,
        rule: "one run inserts elements whose destruction is counted and may panic at the ends and at positions inside and outside a list, reads and exchanges elements, and drops the list; non-trivial if it held more than two elements; distinct by event log",
        real: &["util::linked_list"],
        stub: &["elements (counting, optionally panicking on destruction)", "system allocator (simulated heap)"],
    },
    Prop {
        id: "C21",
        judge: Judge::Both,
        gen: p_bytes::gen_c21,
        run: p_bytes::run_c21,
        limit: 400_000_000,
        leak: true,
        rule: "one run carries a checksum over one to six pieces of bytes the simulator places at any address, masking and unmasking on the way, and compares it with the checksum of the whole held by nine types; non-trivial above 16 bytes; distinct by event log",
        real: &["util::crc", "util::coding", "util::slice"],
        stub: &["system allocator (simulated heap, decides every address)"],
    },
    Prop {
        id: "C23",
        judge: Judge::Both,
        gen: p_bytes::gen_c23,
        run: p_bytes::run_c23,
        limit: 400_000_000,
        leak: true,
        rule: "one run hashes one to five byte strings with a seed and the default seed, each held by nine types at addresses the simulator decides; non-trivial above 4 bytes; distinct by event log",
        real: &["util::hash", "util::coding", "util::slice"],
        stub: &["system allocator (simulated heap, decides every address)"],
    },
    Prop {
        id: "C24",
        judge: Judge::Both,
        gen: p_bytes::gen_c24,
        run: p_bytes::run_c24,
        limit: 400_000_000,
        leak: true,
        rule: "one run compares, separates and succeeds one to eight pairs of byte strings sharing a beginning, and sorts them; non-trivial with two pairs; distinct by event log",
        real: &["util::comparator", "util::slice"],
        stub: &["system allocator (simulated heap, decides every address and failure)"],
    },
    Prop {
        id: "C25",
        judge: Judge::Both,
        gen: p_status::gen_c25,
        run: p_status::run_c25,
        limit: 400_000_000,
        leak: true,
        rule: "one run makes statuses in every way, asks, prints and takes them apart, and makes logs, encoders, decoders, lists, orders and locks fail through the disk, the bytes and the request, looking at the status that arrives; non-trivial with two kinds of operation; distinct by event log",
        real: &["util::status", "util::slice", "db::log_writer", "db::log_reader", "util::coding", "util::linked_list", "db::skip_list", "util::unsafe_slice", "util::arena"],
        stub: &["sink and source (simulated disk, fails on request)", "comparator (leaves keys incomparable)", "system allocator (simulated heap)", "rand (seeded tower heights)"],
    },
    Prop {
        id: "C26",
        judge: Judge::Both,
        gen: p_bytes::gen_c26,
        run: p_bytes::run_c26,
        limit: 400_000_000,
        leak: true,
        rule: "one run builds a filter block from generated block offsets and keys with a policy that names its keys, leaves filters empty or panics, or with the bloom filter, and takes the block apart by the format's definition; non-trivial if two filters had keys or the policy panicked; distinct by event log",
        real: &["table::filter_block", "util::filter_policy_bloom", "util::hash", "util::coding", "util::slice"],
        stub: &["filter policy in two thirds of the runs (names its keys, panics on request)", "system allocator (simulated heap)"],
    },
    Prop {
        id: "C31",
        judge: Judge::Both,
        gen: p_bytes::gen_c31,
        run: p_bytes::run_c31,
        limit: 400_000_000,
        leak: true,
        rule: "one run makes, clones, cuts, merges, compares, reads, writes, converts and releases five slices, inside their bounds and outside, and compares every one with a byte vector after each step; system allocations fail in some; non-trivial if more than one operation found its slices; distinct by event log",
        real: &["util::slice"],
        stub: &["system allocator (simulated heap, fails on request)"],
    },
    Prop {
        id: "C32",
        judge: Judge::Both,
        gen: p_bytes::gen_c32,
        run: p_bytes::run_c32,
        limit: 400_000_000,
        leak: true,
        rule: "one run makes lookup keys, compares each with the format's definition and with what a memtable stores for that key and sequence number, and again after the others were made; system allocations fail in some; non-trivial with more than one key; distinct by event log",
        real: &["db::db_format", "db::mem_table", "db::skip_list", "util::arena", "util::coding", "util::slice"],
        stub: &["system allocator (simulated heap, fails on request)", "rand (seeded tower heights)"],
    },
    Prop {
        id: "C33",
        judge: Judge::Both,
        gen: p_bytes::gen_c33,
        run: p_bytes::run_c33,
        limit: 400_000_000,
        leak: true,
        rule: "one run sets numbers of a version edit, names files deleted, clears it, starts another and encodes it time and again, taking every encoding apart by the format's definition and comparing its records with what was set; system allocations fail in some; non-trivial with more than three operations or two encodings; distinct by event log",
        real: &["db::version_edit", "util::coding", "util::slice"],
        stub: &["system allocator (simulated heap, fails on request)"],
    },
    Prop {
        id: "C15",
        judge: Judge::Memory,
        gen: p_mem::gen_c15,
        run: p_mem::run_c15,
        limit: 400_000_000,
        leak: true,
        rule: "one run performs a generated history of arena, skip list, memtable, log writer or log reader operations, failing ones included, drops everything and looks at the heap; non-trivial as in the property the history comes from; distinct by event log and schedule",
        real: &["util::arena", "db::skip_list", "db::mem_table", "db::log_writer", "db::log_reader"],
        stub: &["system allocator (simulated heap: shadow memory, layout checks, leak check)", "random number generator", "comparator", "sink and source (simulated disk)"],
    },
];

pub fn props() -> &'static [Prop] {
    PROPS
}

// ---------------------------------------------------------- known findings

static mut KNOWN: Vec<(String, String, String)> = Vec::new();

fn load_known() {
    let p = verif().join("known_findings.txt");
    let t = std::fs::read_to_string(&p).unwrap_or_default();
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("KNOWN-FINDING: property=") {
            let mut w = r.splitn(3, ' ');
            let (a, b, c) = (w.next().unwrap_or(""), w.next().unwrap_or(""), w.next().unwrap_or(""));
            unsafe { KNOWN.push((a.into(), b.into(), c.into())) };
        }
    }
}
/// Is this failure listed as a known finding?
pub fn known(prop: &str, key: &str) -> bool {
    unsafe { KNOWN.iter().any(|k| k.0 == prop && k.1 == key) }
}

fn verif() -> std::path::PathBuf {
    std::env::var_os("DST_VERIF").map(Into::into).unwrap_or_else(|| "/verif".into())
}

// ------------------------------------------------------------------ command

fn no_aslr() {
    extern "C" {
        fn personality(p: u64) -> i32;
    }
    unsafe {
        let p = personality(0xffff_ffff);
        if p >= 0 && p & 0x0040000 == 0 && std::env::var_os("DST_REEXEC").is_none() && personality(p as u64 | 0x0040000) >= 0 {
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe").args(std::env::args().skip(1)).env("DST_REEXEC", "1").exec();
            eprintln!("dst: re-exec: {}", e);
        }
    }
}

fn main() {
    no_aslr();
    sys::force_link();
    heap::init();
    logfmt::warm();
    install_hooks();
    load_known();
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() >= 3 => check(&a[2]),
        Some("replay") if a.len() >= 3 => replay(&a[2], a.get(3).is_some_and(|x| x == "-v")),
        Some("one") if a.len() >= 4 => one(&a[2], a[3].parse().expect("index")),
        Some("gen") if a.len() >= 4 => {
            // only makes cases: a generator that panics shows here
            let (p, n) = (need(&a[2]), a[3].parse().expect("count"));
            for i in 0..n {
                gen_case(p, env_u64("VERIF_SEED", 1), i);
            }
            0
        }
        Some("list") => {
            for p in PROPS {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: dst check PROP | replay FILE [-v] | one PROP INDEX | gen PROP COUNT | list");
            2
        }
    };
    std::process::exit(code);
}

fn env_u64(n: &str, d: u64) -> u64 {
    std::env::var(n).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(d)
}

fn need(id: &str) -> &'static Prop {
    match find(id) {
        Some(p) => p,
        None => {
            eprintln!("dst: no property {}", id);
            std::process::exit(2)
        }
    }
}

fn one(id: &str, index: u64) -> i32 {
    let p = need(id);
    let seed = env_u64("VERIF_SEED", 1);
    let c = gen_case(p, seed, index);
    unsafe { VERBOSE = true };
    let slot = Slot::new();
    let o = run_case(p, &c, &slot, 60);
    print!("{}", c.print(seed, index, &o));
    println!("# steps {} kind {:?} {}", o.steps, o.kind, o.msg);
    let r = unsafe { &*slot.res };
    for i in 0..NSTAT {
        if r.stats[i] > 0 {
            println!("# {} {}", STAT_NAMES[i], r.stats[i]);
        }
    }
    (!o.kind.is_empty()) as i32
}

fn replay(file: &str, verbose: bool) -> i32 {
    let t = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("dst: {}: {}", file, e);
            return 2;
        }
    };
    let (c, kind, fp) = match Case::parse(&t) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("dst: {}: {}", file, e);
            return 2;
        }
    };
    let p = need(&c.prop);
    unsafe { VERBOSE = verbose };
    let slot = Slot::new();
    let o = run_case(p, &c, &slot, 60);
    if o.harness {
        eprintln!("dst: {}", o.msg);
        return 2;
    }
    if o.kind.is_empty() {
        println!("the violation recorded in {} does not happen", file);
        return 0;
    }
    println!("{}: {}", o.kind, o.msg);
    println!("trace {}: {}", o.fingerprint(), if o.kind == kind && o.fingerprint() == fp { "the recorded execution, exactly" } else { "differs from the recorded execution" });
    println!("VIOLATION property={} replay={}", p.id, file);
    1
}

fn check(id: &str) -> i32 {
    let p = need(id);
    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let secs = env_u64("DST_SECS", if thorough { 600 } else { 40 }) as f64;
    let runs = env_u64("DST_RUNS", u64::MAX);
    let det = env_u64("DST_DET", if thorough { 4000 } else { 400 });
    println!("dst: property {} seed {} {} for {} s on {} workers", id, seed, if thorough { "thorough" } else { "quick" }, secs, workers());
    let b = explore(p, seed, runs, secs, det);
    let mut code = 0;
    let mut viol = 0;
    let sum = |f: &dyn Fn(&Agg) -> u64| b.agg.iter().map(f).sum::<u64>();
    let (detc, detm) = (sum(&|a| a.det_checked), sum(&|a| a.det_mismatch));
    if let Some(m) = &b.harness_msg {
        eprintln!("dst: harness error: {}", m);
        code = 2;
    }
    if b.runs == 0 {
        eprintln!("dst: no run was made");
        code = 2;
    }
    if detm > 0 {
        eprintln!("dst: {} of {} repeated runs differed", detm, detc);
        code = 2;
    }
    if let Some(i) = b.found {
        viol = 1;
        code = report(p, seed, i, thorough);
    } else {
        for k in unsafe { &KNOWN } {
            let n = match k.1.as_str() {
                "allocate_align-in-current-block" => sum(&|a| a.stats[P_MISALIGNED_KNOWN]),
                _ => 1,
            };
            if k.0 == p.id && n > 0 {
                println!("KNOWN-FINDING: property={} {} {} (met {} times in this run)", k.0, k.1, k.2, n);
            }
        }
    }
    evidence(p, seed, thorough, &b, t0, viol);
    println!("dst: {} runs, {} distinct, {:.0} runs/s, {} of {} edges, {} runs repeated with {} differences", b.runs, b.distinct_events, b.runs as f64 / b.wall, b.edges_hit, b.edges, detc, detm);
    code
}

/// A violation was found in case `index`: confirm, minimise, write, replay.
fn report(p: &Prop, seed: u64, index: u64, thorough: bool) -> i32 {
    let slot = Slot::new();
    let c = gen_case(p, seed, index);
    let mut o = run_case(p, &c, &slot, 60);
    for _ in 0..3 {
        if !o.kind.is_empty() {
            break;
        }
        o = run_case(p, &c, &slot, 60);
    }
    if o.kind.is_empty() || o.harness {
        eprintln!("dst: case {} failed once and cannot be repeated ({})", index, o.msg);
        return 2;
    }
    println!("dst: case {} (seed {}): {}: {}", index, seed, o.kind, o.msg);
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let full = dir.join(format!("{}-seed{}-case{}.full", p.id, seed, index));
    let _ = std::fs::write(&full, c.print(seed, index, &o));
    let budget = Duration::from_secs(env_u64("DST_SHRINK", if thorough { 120 } else { 45 }));
    let (m, tried) = shrink(p, &c, &o.kind, &slot, budget);
    // the minimised case must repeat exactly, or the full one is kept
    let mo = run_case(p, &m, &slot, 60);
    let steady = (0..3).all(|_| {
        let x = run_case(p, &m, &slot, 60);
        x.kind == o.kind && x.fingerprint() == mo.fingerprint()
    });
    let (m, mo) = if mo.kind == o.kind && steady { (m, mo) } else { (c.clone(), o.clone()) };
    let file = dir.join(format!("{}-seed{}-case{}.replay", p.id, seed, index));
    if let Err(e) = std::fs::write(&file, m.print(seed, index, &mo)) {
        eprintln!("dst: {}: {}", file.display(), e);
        return 2;
    }
    println!(
        "dst: minimised in {} runs from {} operations and {} choices to {} and {}",
        tried,
        c.ops.len(),
        c.st.iter().map(|s| s.len()).sum::<usize>(),
        m.ops.len(),
        m.st.iter().map(|s| s.len()).sum::<usize>()
    );
    println!("dst: {}: {}", mo.kind, mo.msg);
    // a fresh process must fail the same way
    let r = std::process::Command::new("/proc/self/exe").arg("replay").arg(&file).output();
    match r {
        Ok(r) => {
            let s = String::from_utf8_lossy(&r.stdout);
            if r.status.code() == Some(1) && s.contains("exactly") {
                println!("dst: replayed in a fresh process: the same execution");
            } else {
                println!("dst: replay in a fresh process: {}", s.trim());
            }
        }
        Err(e) => eprintln!("dst: replay: {}", e),
    }
    println!("VIOLATION property={} replay={}", p.id, file.display());
    1
}

// ----------------------------------------------------------------- evidence

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn evidence(p: &Prop, seed: u64, thorough: bool, b: &Batch, t0: Instant, viol: u64) {
    let sum = |f: &dyn Fn(&Agg) -> u64| b.agg.iter().map(f).sum::<u64>();
    let wall = t0.elapsed().as_secs_f64();
    let mut s = String::new();
    let _ = write!(s, "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\",\n", js(p.id), js(if thorough { "thorough" } else { "quick" }), seed);
    let _ = write!(s, " \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", b.runs, b.distinct_nontrivial, js(p.rule));
    let steps = sum(&|a| a.steps);
    let _ = write!(
        s,
        "  \"simulated_runs_per_hour\": {},\n  \"seeds\": {},\n  \"seed_derivation\": \"run i is a pure function of (VERIF_SEED, property, i)\",\n",
        (b.runs as f64 * 3600.0 / b.wall.max(0.001)) as u64,
        js(&format!("{}:0..{}", seed, b.agg.iter().map(|a| a.last).max().unwrap_or(0)))
    );
    let _ = write!(
        s,
        "  \"simulated_steps\": {},\n  \"simulated_time\": {},\n  \"context_switches\": {},\n",
        steps,
        js(&format!("{:.6} s at 1 ns per instrumented step (the code reads no clock; time is counted in steps)", steps as f64 * 1e-9)),
        sum(&|a| a.switches)
    );
    let _ = write!(s, "  \"distinct_event_logs\": {},\n  \"distinct_schedules\": {},\n", b.distinct_events, b.distinct_schedules);
    let _ = write!(s, "  \"distinct_measure\": \"64-bit hash of the sequence of observable events (event logs) and of (thread, location) at every switch (schedules); sets are capped at 2097152 entries\",\n");
    let _ = write!(s, "  \"edges_covered\": {},\n  \"edges_instrumented\": {},\n", b.edges_hit, b.edges);
    for (title, pre) in [("faults_injected", "F_"), ("conditions_reached", "P_"), ("activity", "S_")] {
        let _ = write!(s, "  \"{}\": {{", title);
        let mut first = true;
        for i in 0..NSTAT {
            if STAT_NAMES[i].starts_with(pre) {
                let (n, r) = (sum(&|a| a.stats[i]), sum(&|a| a.stat_runs[i]));
                if n > 0 {
                    let _ = write!(s, "{}\n   {}: {{\"times\": {}, \"runs\": {}}}", if first { "" } else { "," }, js(&STAT_NAMES[i][2..].to_lowercase()), n, r);
                    first = false;
                }
            }
        }
        s.push_str("},\n");
    }
    let _ = write!(s, "  \"determinism\": {{\"runs_repeated\": {}, \"differences\": {}}},\n", sum(&|a| a.det_checked), sum(&|a| a.det_mismatch));
    let list = |l: &[&str]| l.iter().map(|x| js(x)).collect::<Vec<_>>().join(", ");
    let _ = write!(s, "  \"real_components\": [{}],\n  \"stubbed_components\": [{}],\n", list(p.real), list(p.stub));
    let slot = Slot::new();
    let mut samples = vec![];
    for i in 0..3u64 {
        let c = gen_case(p, seed, i);
        let o = run_case(p, &c, &slot, 60);
        let t = c.print(seed, i, &o);
        let mut t: String = t.lines().map(|l| if l.len() > 300 { format!("{} ...", l.chars().take(300).collect::<String>()) } else { l.to_string() }).collect::<Vec<_>>().join("\n");
        if t.len() > 4000 {
            t = t.chars().take(4000).collect::<String>() + " ...";
        }
        samples.push(js(&t));
    }
    let _ = write!(s, "  \"samples\": [\n   {}]\n }},\n", samples.join(",\n   "));
    let _ = write!(
        s,
        " \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        list(&[
            "executions are sequentially consistent: weak-memory reorderings are not simulated",
            "the compiler and the standard library are trusted; the futex, allocator, entropy and clock underneath them are simulated",
            "a sample of schedules and faults is explored, not all of them",
        ]),
        wall,
        viol
    );
    let dir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let f = dir.join(format!("{}.json", p.id));
    if let Err(e) = std::fs::write(&f, s) {
        eprintln!("dst: {}: {}", f.display(), e);
        std::process::exit(2);
    }
}
