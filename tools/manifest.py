import json
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
tech="deterministic simulation with fault injection: seeded pseudo-random search over %s, %s"
T={
'C01':("record lengths and split, short and interrupted writes and reads of a simulated disk","history checked against the appended records and an independent decoder"),
'C02':("crash instants and the disk images a crash may leave","restart and comparison with the appended records"),
'C03':("stored-byte faults (flips, overwrites, zeroed ranges, truncation, lost or misplaced blocks, garbage) of a simulated disk","oracle over the appended records and the physical layout"),
'C04':("write, flush, read and seek failures and full disks of a simulated disk","oracle over acknowledged appends"),
'C05':("reopen offsets and split, short and interrupted reads","oracle over the physical layout"),
'C06':("thread schedules, spurious and reordered wake-ups of a simulated scheduler","linearizability check of the recorded history against a map"),
'C07':("operation histories and thread schedules","totals compared with what can be looked up whenever quiet, and history checked against a model"),
'C08':("operation histories and thread schedules","history checked against a first-in-first-out model"),
'C09':("operation histories, holds and thread schedules on a simulated heap","destruction counts and shadow memory"),
'C10':("destructor panics injected into cache calls, and thread schedules","later calls checked against what may remain"),
'C11':("thread schedules, spurious wake-ups and panicking holders","exclusion, lost-update and progress checks over the history"),
'C12':("allocation failures, placements and thread schedules on a simulated heap","disjointness, alignment, content and accounting checks"),
'C13':("tower heights from a seeded entropy source and comparator failures","stepwise comparison with a sorted set"),
'C14':("tower heights, comparator failures and heap placements, with lock waits simulated","stepwise comparison with a list of entries, deadlock detection"),
'C15':("histories with injected I/O, comparator and entropy faults on a simulated heap","shadow memory, layout and leak checks"),
'C16':("thread schedules with one thread stalled at an arbitrary step","who-waits-for-whom inspected once nobody else can run"),
'C17':("operation histories and thread schedules on a simulated heap","slots and live bytes bounded by a model of what the cache holds"),
'C18':("thread schedules of a writer and readers over a shared simulated disk with split, short and partly visible writes","history checked against the appended and acknowledged records"),
'C19':("comparisons that fail or panic, tower heights and heap placements","stepwise comparison with a model and shadow memory"),
'C20':("sequences of writes and reads, truncation and damage of the stored bytes, failing allocations and heap placements","every call compared with the format's definition, shadow memory"),
'C22':("key sets, settings and damage of the stored filter on a simulated heap","membership of every key, shadow memory"),
'C21':("divisions into pieces and the memory address of each on a simulated heap","comparison with an independent checksum, shadow memory"),
'C23':("holding types and memory addresses on a simulated heap","comparison with an independent hash, shadow memory"),
'C24':("pairs of strings sharing beginnings, failing allocations and heap placements","the order, separator and successor LevelDB defines, range checks, shadow memory"),
'C25':("write, flush, read and seek failures and full disks, damaged bytes, poisoned locks, incomparable keys and requests out of bounds","the status that arrives compared with the failure injected, kept statuses with a model, shadow memory"),
'C26':("sequences of block starts and keys and policies that panic, on a simulated heap","the finished block taken apart and compared with a model, shadow memory, bounded steps"),
'C31':("histories of operations inside and outside the bounds, failing allocations and heap placements","stepwise comparison with byte vectors, shadow memory and leak checks"),
'C32':("keys and sequence numbers, failing allocations and heap placements","comparison with the format's definition and the memtable's entry, shadow memory"),
'C33':("histories of settings, deletions, clearings and encodings, failing allocations and heap placements","every encoding taken apart by the format's definition and compared with a model, shadow memory and leak checks"),
'C29':("orders of insertion and seeds of a simulated fair entropy source","comparisons counted at the comparator and bounded"),
'C30':("histories of positions inside and outside the list, panicking destructors and heap placements","stepwise comparison with a vector, destruction counts and shadow memory"),
}
N={
'C01':"Sampled runs of the real writer and reader, single-threaded. Trusts the independent decoder in dst/src/logfmt.rs (own CRC table) and the standard library's io traits.",
'C02':"Sampled crash points and images. A crash image is any prefix of the unflushed bytes, possibly torn inside or with lost pieces read as zeros, after everything flushed; the sink is append-only and does not reorder whole flushes.",
'C03':"Sampled damage. Accidental CRC-32C collisions are assumed not to occur in the sampled damage (none did).",
'C04':"Sampled failures at every call of the sink and the source, including zero-length writes, interrupted calls, full disks freed later.",
'C05':"Sampled offsets, aimed at record starts, fragments, block ends, trailers and past the end; offsets up to 2^40.",
'C06':"Sampled schedules, preemption at any instrumented load, store, block or lock operation; sequentially consistent memory only. The check of a key's history is complete for the run's length.",
'C07':"Sampled histories and schedules; sequentially consistent memory only.",
'C08':"Sampled histories and schedules; sequentially consistent memory only.",
'C09':"Sampled histories and schedules; every load and store of the code under test is checked against shadow memory; freed blocks are never reused within a run.",
'C10':"Sampled panics; the value destructor panics, nothing else does.",
'C11':"Sampled schedules; the operating-system futex is simulated, std's Mutex is real; sequentially consistent memory only.",
'C12':"Sampled requests, placements and failures. Known finding: allocate_align ignores the alignment within the current block (known_findings.txt).",
'C13':"Sampled insertions, tower heights, comparator failures and iterator moves; single-threaded, as the API requires.",
'C14':"Sampled entry lengths up to 4 MiB, tower heights and comparator failures.",
'C15':"Sampled histories; shadow memory is byte-exact with unchecked gaps between blocks never handed out again; leaks must repeat to count.",
'C16':"Sampled stall points; which waits are allowed is decided from the partition each call works on.",
'C17':"Sampled histories and schedules; the factors of the bounds are generous (8 slots per entry held at once, 4 entries per slot), so a constant-factor regression below them passes.",
'C18':"Sampled schedules; the disk shows a reader any prefix of the write in progress, and never reorders writes; sequentially consistent memory only.",
'C19':"Sampled failing comparisons; single-threaded, as the skip list's API requires; the comparator is the only thing that panics.",
'C20':"Sampled sequences, values aimed at every 7-bit boundary, damage to stored bytes; a number with bits beyond its type may be refused or cut.",
'C22':"Sampled key sets up to 600 keys and 0 to 1000 bits per key; the admission bound is far above the theoretical rate. A key set is an input: what the simulator adds is the damage to the stored filter and the checked memory.",
'C21':"Sampled contents, lengths up to 1 MiB, rarely 16 MiB, all sixteen offsets. A checksum is a pure function of the bytes; the code's path depends on their address, which is what the simulator decides.",
'C23':"Sampled contents, lengths up to 1 MiB, rarely 16 MiB, nine holding types. As C21: what the simulator adds is the address and the checked memory.",
'C24':"Sampled pairs, strings up to 70 KiB. As C21: what the simulator adds is the address, the checked memory and failing allocations. InternalKeyComparator is todo!() and not called.",
'C25':"Sampled failures and histories. Texts are required of UTF-8 messages only (get_msg and to_string return String); the wording of messages the crate makes itself is not judged.",
'C26':"Sampled block offsets up to 32 MiB, rarely just above 4 GiB, and up to 1000 keys per filter. Offsets never go back, as the API requires; the reader's key_may_match is todo!() and not called.",
'C31':"Sampled histories of up to 140 operations on five slices. borrow_data is not called (it hands out a lifetime nothing bounds, see DESIGN.md); text conversions are asked of ASCII only.",
'C32':"Sampled keys up to 2 MiB; user_key() is todo!() and not called.",
'C33':"Sampled histories of up to 140 operations, rarely 20000 deleted files, numbers aimed at every 7-bit and power-of-two boundary. decode_from is todo!() and not called; the comparator's name, pointers and new files are encoded incompletely and left out.",
'C29':"Sampled seeds and orders, 100 to 1600 entries. Over 50000 seeds no average exceeded three quarters of the bound; single-level lists exceed it several times over.",
'C30':"Sampled histories; the operations that are todo!() (pop, peek, remove, get_first, get_last) are not called.",
}
NA={
'C27':"The database, table reader and writer, version set and environment are unimplemented (todo!()), so there is nothing to run in a simulator.",
'C28':"Deterministic single-threaded computations without I/O, time, sharing, ownership or a random source of their own: nothing a simulator could decide.",
}
m={"version":1,"setup_cmd":"bash setup.sh",
"hooks":{"guard":"--cfg dst (rustc flag)","enable":"dst/rustc-wrapper.sh passes --cfg dst when dst/build.sh compiles level_db_rust as a path dependency, together with the compiler's coverage instrumentation","source_commits":["ff7140d","52fe1f4"]},
"checks":[],"not_applicable":[]}
for p in props:
    i=p['id']
    if i in T:
        m["checks"].append({"property":i,"quick_cmd":f"bash check.sh {i}","thorough_cmd":f"bash check.sh {i} thorough","technique":tech%T[i],"level":"exploration","level_note":N[i]})
    else:
        m["not_applicable"].append({"property":i,"reason":NA[i]})
m["notes"]="Replay a violation with: dst/target/x86_64-unknown-linux-gnu/debug/dst replay FILE [-v]. Environment: VERIF_SEED, VERIF_TIER, DST_SECS, DST_RUNS, DST_WORKERS."
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False)
