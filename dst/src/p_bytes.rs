//! C21, C23, C24, C26, C31, C32, C33: checksums, hashes, filter blocks, slices, lookup
//! keys and version edits, comparators over bytes the simulator places, and callbacks it makes fail.
use crate::case::*;
use crate::logfmt;
use crate::p_code::{bytes, placed, sh};
use crate::p_log::nontrivial;
use crate::rng::Rng;
use crate::runner::{call, call_catch, panic_msg, trace};
use level_db_rust::util::slice::Slice;
use simrt::*;

const LENS: &[u64] = &[0, 1, 2, 3, 4, 5, 7, 8, 11, 12, 13, 15, 16, 17, 19, 20, 23, 31, 32, 33, 35, 36, 47, 48, 49, 51, 63, 64, 65, 80, 127, 128, 129];

fn len(r: &mut Rng, i: u64) -> i64 {
    match r.below(12) {
        0 if i % 32 == 7 => (r.pick(&[1u64 << 12, 1 << 15, 1 << 16, 1 << 17, 1 << 20]) + r.below(40)) as i64 - 20,
        0..=6 => r.pick(LENS) as i64,
        7..=9 => r.below(140) as i64,
        _ => r.skewed(3000) as i64,
    }
}

fn content(style: i64, seed: u64, n: usize) -> Vec<u8> {
    let n = n.min((1 << 24) + 100);
    match style % 5 {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => (0..n).map(|i| (i as u64 + seed) as u8).collect(),
        3 => bytes(seed, n).iter().map(|b| 32 + b % 95).collect(),
        _ => bytes(seed, n),
    }
}

/// Bytes in a block with `more` others behind them, left over from a longer vector.
pub fn roomy(b: &[u8], more: &[u8]) -> Vec<u8> {
    let mut v = sut(|| Vec::<u8>::with_capacity(b.len() + more.len()));
    v.extend_from_slice(b);
    v.extend_from_slice(more);
    v.truncate(b.len());
    v
}

// --------------------------------------------------------------------- C21
// cfg: [style of the content, checksum to begin with, holder]
// row: [length, seed, shift]

pub fn gen_c21(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C21");
    c.cfg = vec![r.below(10) as i64, if r.chance(1, 3) { r.u64() as u32 as i64 } else { 0 }, r.below(9) as i64];
    for _ in 0..1 + r.below(6) {
        c.ops.push(vec![len(r, i), r.below(1 << 30) as i64, r.below(16) as i64]);
    }
    long(r, i, &mut c);
    gen_place(r, &mut c);
    c
}

/// Now and then, a length that leaves 24 bits.
fn long(r: &mut Rng, i: u64, c: &mut Case) {
    if i % 4096 == 2099 {
        c.cfg[0] = 2;
        c.ops = vec![vec![(1 << 24) + r.range(-9, 40), r.below(1 << 30) as i64, r.below(16) as i64]];
    }
}

pub fn run_c21(c: &Case) {
    let start = c.c(1) as u32;
    let holder = fm(&c.cfg, 2, 9);
    let style = c.c(0).abs();
    let mut all: Vec<u8> = vec![];
    let mut crc = start;
    let masks = |x: u32| {
        let m = call("mask", || sut::crc_mask(x));
        if m != logfmt::mask(x) {
            vfail!("wrong-mask", "{:08x} is masked as {:08x} instead of {:08x}", x, m, logfmt::mask(x));
        }
        let u = call("unmask", || sut::crc_unmask(m));
        if u != x {
            vfail!("wrong-mask", "{:08x}, masked {:08x}, is unmasked as {:08x}", x, m, u);
        }
        let m = call("mask", || sut::crc_mask(sut::crc_unmask(x)));
        if m != x {
            vfail!("wrong-mask", "{:08x}, unmasked, is masked as {:08x}", x, m);
        }
    };
    for o in &c.ops {
        bump(P_OPS);
        let piece = content(if style < 5 { style } else { 4 }, f(o, 1) as u64, f(o, 0).unsigned_abs() as usize);
        let shift = fm(o, 2, 16);
        let v = placed(&piece, shift);
        all.extend_from_slice(&piece);
        let want = logfmt::crc_extend(start, &all);
        let at = v.as_ptr() as usize + shift;
        crc = call("extend", || sut::crc_extend(crc, &v[shift..]));
        trace(|| format!("{} bytes at address {} modulo 16: {:08x}", piece.len(), at % 16, crc));
        ev(mix(crc as u64, piece.len() as u64));
        if crc != want {
            vfail!("wrong-checksum", "extending by {} bytes at address {} modulo 16 gives {:08x} instead of {:08x}, after {} bytes in all", piece.len(), at % 16, crc, want, all.len());
        }
        sut(|| drop(v));
        masks(crc);
        masks(f(o, 1).wrapping_mul(0x9E37_79B9_7F4A_7C15u64 as i64) as u32);
    }
    // the whole at once, by whatever holds it
    if holder >= 6 {
        // numbers: their memory is the bytes
        all.truncate(all.len() / 8 * 8);
    }
    let ascii = all.is_ascii();
    let v = roomy(&all, &b"left over"[..start as usize % 9]);
    let got = call("as_crc_extend", || sut::crc_of(if matches!(holder, 4 | 5) && !ascii { 0 } else { holder }, start, v));
    let want = logfmt::crc_extend(start, &all);
    ev(got as u64);
    if got != want {
        vfail!("wrong-checksum", "the checksum of {} bytes is {:08x} instead of {:08x} (holder {})", all.len(), got, want, holder);
    }
    nontrivial(all.len() > 16);
}

// --------------------------------------------------------------------- C23
// cfg: [style, seed, default seed]
// row: [length, seed, shift, holder]

pub fn gen_c23(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C23");
    let seed = r.pick(&[0u64, 1, 0xbc9f1d34, u32::MAX as u64, r.clone().u64() as u32 as u64]);
    c.cfg = vec![r.below(10) as i64, seed as i64];
    for _ in 0..1 + r.below(5) {
        c.ops.push(vec![len(r, i), r.below(1 << 30) as i64, r.below(16) as i64]);
    }
    long(r, i, &mut c);
    gen_place(r, &mut c);
    c
}

/// LevelDB's hash, from its definition.
fn hash(data: &[u8], seed: u32) -> u32 {
    let m = 0xc6a4_a793u32;
    let mut h = seed ^ (data.len() as u32).wrapping_mul(m);
    let mut words = data.chunks_exact(4);
    for w in &mut words {
        h = h.wrapping_add(u32::from_le_bytes(w.try_into().unwrap())).wrapping_mul(m);
        h ^= h >> 16;
    }
    let rest = words.remainder();
    for (i, b) in rest.iter().enumerate() {
        h = h.wrapping_add((*b as u32) << (8 * i));
    }
    if !rest.is_empty() {
        h = h.wrapping_mul(m);
        h ^= h >> 24;
    }
    h
}

pub fn run_c23(c: &Case) {
    let seed = c.c(1) as u32;
    let style = c.c(0).abs();
    for o in &c.ops {
        bump(P_OPS);
        let b = content(if style < 5 { style } else { 4 }, f(o, 1) as u64, f(o, 0).unsigned_abs() as usize);
        let shift = fm(o, 2, 16);
        let want = hash(&b, seed);
        ev(want as u64);
        for holder in 0..9 {
            if (holder == 4 || holder == 5) && !b.is_ascii() || holder >= 6 && b.len() % 8 != 0 {
                continue;
            }
            let (v, at) = if holder == 0 { (placed(&b, shift), shift) } else { (placed(&b, 0), 0) };
            let got = call("to_hash_with_seed", || sut::hash_of(holder, Some(seed), v, at));
            trace(|| format!("{} bytes, holder {}, seed {:08x}: {:08x}", b.len(), holder, seed, got));
            if got != want {
                vfail!("wrong-hash", "the hash of {} bytes {} with seed {:08x} is {:08x} instead of {:08x} (holder {})", b.len(), sh(&b), seed, got, want, holder);
            }
            let v = roomy(&b, &b"left over"[..shift / 2]);
            let got = call("to_hash", || sut::hash_of(holder, None, v, 0));
            if got != hash(&b, 0xbc9f_1d34) {
                vfail!("wrong-hash", "the hash of {} bytes {} is {:08x} instead of {:08x} (holder {})", b.len(), sh(&b), got, hash(&b, 0xbc9f_1d34), holder);
            }
        }
    }
    nontrivial(c.ops.iter().any(|o| f(o, 0) > 4));
}

// --------------------------------------------------------------------- C24
// cfg: [alphabet]
// row: [length, seed, how the other differs, where, length of the other's tail, seed of it]

pub fn gen_c24(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C24");
    c.cfg = vec![r.below(6) as i64];
    for _ in 0..1 + r.below(8) {
        let l = if i % 32 == 7 && r.chance(1, 4) { r.skewed(70_000) } else { r.pick(&[0u64, 1, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64]) } as i64;
        let t = r.pick(&[0u64, 0, 1, 2, 3, 8, 17, 40]) as i64;
        c.ops.push(vec![l, r.below(1 << 30) as i64, r.below(6) as i64, r.below(1 << 20) as i64, t, r.below(1 << 30) as i64]);
    }
    gen_place(r, &mut c);
    if r.chance(1, 12) {
        for _ in 0..r.below(8) {
            c.st[ALLOC].push(0);
        }
        c.st[ALLOC].push(1);
    }
    c
}

/// Few letters make long common prefixes; 7f, 80, fe and ff are the letters at
/// the ends of the ranges of signed and unsigned bytes.
fn word(alphabet: i64, seed: u64, n: usize) -> Vec<u8> {
    let letters: &[u8] = match alphabet {
        0 => b"ab",
        1 => &[0x00, 0x01],
        2 => &[0x7e, 0x7f, 0x80, 0x81],
        3 => &[0xfd, 0xfe, 0xff, 0xff, 0xff],
        4 => &[0xff],
        _ => &[],
    };
    let mut b = bytes(seed, n.min(1 << 20));
    if !letters.is_empty() {
        for x in b.iter_mut() {
            *x = letters[*x as usize % letters.len()];
        }
    }
    b
}

/// LevelDB's separator: what the two share and the next byte plus one, where
/// that lies below the limit, and the start itself otherwise.
fn separator(start: &[u8], limit: &[u8]) -> Vec<u8> {
    let same = start.iter().zip(limit).take_while(|(a, b)| a == b).count();
    let mut v = start.to_vec();
    if same < start.len() && same < limit.len() && start[same] < 0xff && start[same] + 1 < limit[same] {
        v.truncate(same + 1);
        v[same] += 1;
    }
    v
}

fn successor(key: &[u8]) -> Vec<u8> {
    match key.iter().position(|b| *b != 0xff) {
        None => key.to_vec(),
        Some(i) => {
            let mut v = key[..i + 1].to_vec();
            v[i] += 1;
            v
        }
    }
}

pub fn run_c24(c: &Case) {
    heap::enable_faults(true);
    let cmp = sut::bytewise();
    let alphabet = fm(&c.cfg, 0, 6) as i64;
    let mut all: Vec<Vec<u8>> = vec![];
    for o in &c.ops {
        bump(P_OPS);
        let a = word(alphabet, f(o, 1) as u64, f(o, 0).unsigned_abs() as usize);
        let at = if a.is_empty() { 0 } else { f(o, 3).unsigned_abs() as usize % (a.len() + 1) };
        let tail = word(alphabet, f(o, 5) as u64, f(o, 4).unsigned_abs() as usize % 5000);
        // the other shares a beginning with the first
        let mut b = a[..at].to_vec();
        match fm(o, 2, 6) {
            0 => {}
            1 => b = a.clone(),
            2 => b.extend_from_slice(&tail),
            k => {
                // the next byte is one or two more or less
                if let Some(x) = a.get(at) {
                    b.push(x.wrapping_add([1, 2, 255][k - 3]));
                }
                b.extend_from_slice(&tail)
            }
        }
        for (x, y) in [(&a, &b), (&b, &a), (&a, &a)] {
            let (vx, vy) = (placed(x, 0), placed(y, 0));
            let got = call("compare", || sut::bytewise_cmp(&cmp, &vx, &vy));
            ev(mix(x.len() as u64, got.map_or(9, |g| g as i8 as u64)));
            trace(|| format!("compare {} with {}: {:?}", sh(x), sh(y), got));
            if got != Some(x.as_slice().cmp(y)) {
                vfail!("wrong-order", "{} compared with {} is {:?}", sh(x), sh(y), got);
            }
            sut(|| {
                drop(vx);
                drop(vy)
            });
            let (vx, vy) = (roomy(x, &tail), roomy(y, &tail));
            let want = separator(x, y);
            let (s, start, limit) = call("find_shortest_separator", || sut::bytewise_separator(&cmp, vx, vy));
            trace(|| format!("separator from {} to {}: {}", sh(x), sh(y), sh(&s)));
            ev(mix(s.len() as u64, s.last().copied().unwrap_or(0) as u64));
            if x < y && (s < *x || s >= *y) {
                vfail!("separator-out-of-range", "the separator from {} to {} is {}", sh(x), sh(y), sh(&s));
            }
            if s != want {
                vfail!("wrong-separator", "the separator from {} to {} is {} instead of {}", sh(x), sh(y), sh(&s), sh(&want));
            }
            if start != *x || limit.as_ref() != *y {
                vfail!("argument-changed", "finding the separator from {} to {} left {} and {}", sh(x), sh(y), sh(&start), sh(limit.as_ref()));
            }
            call("dropping the arguments", move || sut(|| drop((s, start, limit))));
        }
        all.push(a);
        all.push(b);
    }
    for x in &all {
        let vx = placed(x, 0);
        let (s, key) = call("find_short_successor", || sut::bytewise_successor(&cmp, vx));
        let want = successor(x);
        if s < *x {
            vfail!("successor-below", "the successor of {} is {}", sh(x), sh(&s));
        }
        if s != want {
            vfail!("wrong-successor", "the successor of {} is {} instead of {}", sh(x), sh(&s), sh(&want));
        }
        if key != *x {
            vfail!("argument-changed", "finding the successor of {} left {}", sh(x), sh(&key));
        }
        call("dropping the arguments", move || sut(|| drop((s, key))));
    }
    let name = call("get_name", || sut::bytewise_name(&cmp));
    if name != "leveldb.BytewiseComparator" {
        vfail!("wrong-name", "the comparator is named {:?}", name);
    }
    sut(|| drop(name));
    // sorting by the comparator sorts the bytes
    let mut keys: Vec<Vec<u8>> = all.iter().map(|x| placed(x, 0)).collect();
    keys.sort_by(|x, y| call("compare", || sut::bytewise_cmp(&cmp, x, y)).unwrap_or(std::cmp::Ordering::Equal));
    all.sort();
    if keys != all {
        vfail!("wrong-order", "{} keys sorted by the comparator are out of order", all.len());
    }
    sut(|| drop(keys));
    nontrivial(c.ops.len() > 1);
}

// --------------------------------------------------------------------- C26
// cfg: [policy, bits, capacity, width of filters]
// row: [0, step] a data block begins | [1, key seed, key length, repeat] a key

pub const P_OWN: usize = 0; // a filter that names its keys
pub const P_MAYBE_EMPTY: usize = 1; // the same, but sometimes empty
pub const P_BLOOM: usize = 2;

pub fn gen_c26(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C26");
    // a block of many kilobytes, or of several megabytes
    let wide = if i % 256 == 77 {
        1 << 20
    } else if r.chance(1, 8) {
        r.pick(&[255i64, 256, 4096, 40_000])
    } else {
        0
    };
    c.cfg = vec![r.below(3) as i64, r.below(30) as i64, r.pick(&[-1i64, 0, 1, 64, 5000]), wide];
    let w = r.below(4);
    let n = if i % 16 == 0 { 60 + r.below(150) } else { r.below(24) };
    for _ in 0..n {
        if r.chance(1, 3) {
            let step = match w {
                0 => r.below(3000),
                1 => 2048 * r.below(3) + r.below(3),
                2 => r.pick(&[0u64, 1, 2047, 2048, 2049, 4095, 4096, 6143, 6144, 30_000, 65_536]),
                _ => r.skewed(if i % 64 == 3 { 1 << 23 } else { 200_000 }),
            };
            c.ops.push(vec![0, step as i64]);
        } else {
            let l = if r.chance(1, 30) { r.skewed(70_000) } else { r.pick(&[0u64, 1, 2, 3, 4, 5, 8, 9, 16, 40, 127, 128, 300]) };
            c.ops.push(vec![1, r.below(1 << 20) as i64, l as i64, if r.chance(1, 40) { r.below(700) as i64 } else { 0 }]);
        }
    }
    if i % 4096 == 1234 {
        // a data block beyond 4 GiB: two million empty filters
        c.ops.push(vec![0, r.below(1 << 20) as i64, 1]);
        c.ops.push(vec![1, r.below(1 << 20) as i64, 3, 0]);
    }
    if i % 1024 == 300 {
        // filters of more than 16 MiB in all
        c.cfg[0] = P_OWN as i64;
        c.cfg[3] = 1 << 23;
        c.ops = vec![];
        for _ in 0..6 + r.below(6) {
            c.ops.push(vec![1, r.below(1 << 20) as i64, r.below(9) as i64, 0]);
            c.ops.push(vec![0, 2048]);
        }
    }
    if i % 2048 == 555 {
        // so many keys in one range that their number leaves 16 bits
        c.ops.push(vec![1, r.below(1 << 20) as i64, r.range(0, 4), 65_536 + r.range(-20, 400)]);
        c.ops.push(vec![0, r.below(5000) as i64]);
        c.ops.push(vec![1, r.below(1 << 20) as i64, 3, 0]);
    }
    gen_place(r, &mut c);
    if r.chance(1, 5) {
        // the policy panics
        gen_faults(r, &mut c, AUX, 6, &[1], 40);
    }
    c
}

fn name_keys(keys: &[&[u8]], out: &mut Vec<u8>, maybe_empty: bool) {
    let h = keys.iter().fold(keys.len() as u64 + 7, |h, k| mix(h, hash(k, 1) as u64 + k.len() as u64));
    if maybe_empty && h % 3 == 0 {
        return;
    }
    out.extend_from_slice(&h.to_le_bytes());
    let wide = unsafe { WIDE };
    out.resize(8 + (h % 40) as usize + if wide > 0 { (h >> 8) as usize % wide } else { 0 }, h as u8);
}

static mut WIDE: usize = 0;

fn on_policy(keys: &[&[u8]], out: &mut Vec<u8>, kind: usize) -> bool {
    if next(AUX) & 0xff == 1 {
        bump(F_POLICY_PANIC);
        return false;
    }
    name_keys(keys, out, kind == P_MAYBE_EMPTY);
    true
}

pub fn run_c26(c: &Case) {
    unsafe {
        sut::ON_POLICY = Some(on_policy);
        WIDE = fm(&c.cfg, 3, (1 << 23) + 1);
    }
    let kind = fm(&c.cfg, 0, 3);
    let bits = c.c(1).unsigned_abs() as usize % 64;
    let cap = c.c(2);
    let mut b = call("new_with_policy", || sut::fb_new(kind, bits, (cap >= 0).then_some(cap as usize % 100_000)));
    let mut model: Vec<Vec<Vec<u8>>> = vec![];
    let mut pending: Vec<Vec<u8>> = vec![];
    let mut at = 0u64;
    let panics = || stat(F_POLICY_PANIC) > 0;
    let mut blocks: Vec<(u64, usize)> = vec![];
    for o in &c.ops {
        bump(P_OPS);
        if f(o, 0) & 1 == 0 {
            let far = (f(o, 2) & 1) as u64;
            if at + far > 1 << 25 {
                break;
            }
            at += f(o, 1).unsigned_abs() % (1 << 24) + (far << 32);
            let r = call_catch(|| sut::fb_start(&mut b, at));
            trace(|| format!("a data block begins at {}: {:?}", at, r));
            ev(mix(1, at));
            if r.is_none() {
                if panics() {
                    break;
                }
                vfail!("panic", "start_block({}) panicked: {}", at, panic_msg());
            }
            while (model.len() as u64) < at / 2048 {
                model.push(std::mem::take(&mut pending));
            }
            blocks.push((at, model.len()));
        } else {
            for k in 0..1 + fm(o, 3, 70_000) {
                let key = bytes((f(o, 1) as u64).wrapping_add(k as u64), f(o, 2).unsigned_abs() as usize % 100_000);
                let s = Slice::from_vec(placed(&key, 0));
                call("add_key", || sut::fb_add(&mut b, &s));
                sut(|| drop(s));
                pending.push(key);
            }
            ev(mix(2, pending.len() as u64));
        }
    }
    if !panics() {
        let r = call_catch(|| sut::fb_finish(&mut b));
        match r {
            None if !panics() => vfail!("panic", "finish panicked: {}", panic_msg()),
            None => {}
            Some(Err(())) => vfail!("rejected", "finish failed"),
            Some(Ok(s)) => {
                if !pending.is_empty() {
                    model.push(std::mem::take(&mut pending));
                }
                let block = s.as_ref().to_vec();
                call("dropping a slice", move || sut::drop_slice(s));
                ev(block.iter().fold(3, |h, b| mix(h, *b as u64)));
                check_block(&block, &model, kind, bits, &blocks);
            }
        }
    }
    call("dropping a builder", move || sut::fb_drop(b));
    nontrivial(model.iter().filter(|k| !k.is_empty()).count() > 1 || panics());
}

fn check_block(block: &[u8], model: &[Vec<Vec<u8>>], kind: usize, bits: usize, blocks: &[(u64, usize)]) {
    let n = block.len();
    if n < 5 {
        vfail!("malformed", "a filter block of {} bytes", n);
    }
    if block[n - 1] != 11 {
        vfail!("malformed", "the filter block ends with {} instead of 11", block[n - 1]);
    }
    let word = |i: usize| u32::from_le_bytes(block[i..i + 4].try_into().unwrap()) as usize;
    let array = word(n - 5);
    if array > n - 5 || (n - 5 - array) % 4 != 0 {
        vfail!("malformed", "the offsets begin at {} of {} bytes", array, n);
    }
    let count = (n - 5 - array) / 4;
    if count != model.len() {
        vfail!("wrong-count", "{} filters instead of {}", count, model.len());
    }
    for i in 0..count {
        let (from, to) = (word(array + 4 * i), word(array + 4 * i + 4));
        if from > to || to > array {
            vfail!("malformed", "filter {} of {} covers {} to {} of {}", i, count, from, to, array);
        }
        let filter = &block[from..to];
        let keys: Vec<&[u8]> = model[i].iter().map(|k| k.as_slice()).collect();
        let mut want = vec![];
        if !keys.is_empty() {
            if kind == P_BLOOM {
                let slices: Vec<Slice> = keys.iter().map(|k| Slice::from_buf(k)).collect();
                let refs: Vec<&Slice> = slices.iter().collect();
                let p = call("new_with_bits_per_key", || sut::bloom_new(bits));
                let s = call("create_filter", || sut::bloom_build(&p, &refs));
                want = s.as_ref().to_vec();
                sut(|| {
                    drop(s);
                    drop(p)
                });
            } else {
                name_keys(&keys, &mut want, kind == P_MAYBE_EMPTY);
            }
        }
        if filter != want {
            vfail!("wrong-filter", "filter {} of {} is {} instead of {}, that of the {} keys of the data blocks beginning from {} to {}", i, count, sh(filter), sh(&want), keys.len(), i * 2048, i * 2048 + 2047);
        }
    }
    // a data block finds the filter of its keys by its offset
    for (at, first) in blocks {
        if (at / 2048) as usize != *first {
            vfail!("wrong-filter", "the block at {} belongs to filter {} instead of {}", at, first, at / 2048);
        }
    }
}

// --------------------------------------------------------------------- C31
// row: [kind, slot, other slot, x, y, seed]

const S_BUF: usize = 0;
const S_VEC: usize = 1;
const S_STR: usize = 2;
const S_RAW: usize = 3;
const S_CLONE: usize = 4;
const S_CUT: usize = 5;
const S_MERGE: usize = 6;
const S_STARTS: usize = 7;
const S_CMP: usize = 8;
const S_READ: usize = 9;
const S_WRITE: usize = 10;
const S_INTO: usize = 11;
const S_TEXT: usize = 12;
const S_DROP: usize = 13;
const S_KINDS: usize = 14;
const SLOTS: usize = 5;

pub fn gen_c31(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C31");
    let n = if i % 16 == 0 { 60 + r.below(80) } else { 2 + r.below(24) };
    let mut made = 0;
    for _ in 0..n {
        let kind = if made < 2 || r.chance(1, 6) { r.below(4) } else { r.below(S_KINDS as u64) } as usize;
        made += (kind < 4) as u64;
        let pos = |r: &mut Rng| match r.below(9) {
            0 | 1 => r.pick(&[-1i64, -2, -3]),
            2 => r.pick(&[1000i64, 1001, 1_000_000]),
            3 => {
                // about a power of two
                let k = 1 << r.range(4, 17);
                2_000_000 + k + r.below(3) as i64 - 1
            }
            _ => r.below(20) as i64,
        };
        let l = match r.below(60) {
            0 => r.skewed(100_000),
            1 => (1 << r.range(9, 17)) + r.below(3) - 1,
            2..=9 => r.pick(&[127, 128, 129, 255, 256, 257, 258, 300, 511, 513]),
            _ => r.pick(&[0u64, 1, 2, 3, 5, 8, 13, 16, 31, 64, 200]),
        };
        let (x, y) = if kind < 4 { (l as i64, r.below(8) as i64) } else { (pos(r), pos(r)) };
        c.ops.push(vec![kind as i64, r.below(SLOTS as u64) as i64, r.below(SLOTS as u64) as i64, x, y, r.pick(&[1, 2, 3, 3, r.clone().below(1 << 20) as i64])]);
    }
    gen_place(r, &mut c);
    if r.chance(1, 12) {
        for _ in 0..r.below(8) {
            c.st[ALLOC].push(0);
        }
        c.st[ALLOC].push(1);
    }
    c
}

/// Positions from the end and past it.
fn place(p: i64, n: usize) -> usize {
    if p < 0 {
        (n as i64 + 1 + p).max(0) as usize
    } else if p >= 2_000_000 {
        (p - 2_000_000) as usize
    } else if p >= 1000 {
        n + (p - 999) as usize
    } else {
        p as usize
    }
}

pub fn run_c31(c: &Case) {
    heap::enable_faults(true);
    let mut s: Vec<Option<Slice>> = (0..SLOTS).map(|_| None).collect();
    let mut m: Vec<Vec<u8>> = vec![vec![]; SLOTS];
    let put = |s: &mut Vec<Option<Slice>>, m: &mut Vec<Vec<u8>>, i: usize, x: Slice, w: Vec<u8>| {
        if let Some(old) = s[i].replace(x) {
            call("dropping a slice", move || sut::drop_slice(old));
        }
        m[i] = w;
    };
    let mut worked = 0;
    for o in &c.ops {
        bump(P_OPS);
        let kind = fm(o, 0, S_KINDS);
        let (a, b) = (fm(o, 1, SLOTS), fm(o, 2, SLOTS));
        let seed = f(o, 5) as u64;
        if kind < S_CLONE {
            // a vector may have been longer before: what was cut off is no part of it
            let (n, more) = (f(o, 3).unsigned_abs() as usize, f(o, 4).unsigned_abs() as usize % 8 * 5);
            let mut w = content(if kind == S_STR { 3 } else { 4 }, seed, n + more);
            let rest = w.split_off(n.min(w.len()));
            let v = roomy(&w, &rest);
            let x = call("making a slice", || sut::slice_new(kind, v));
            put(&mut s, &mut m, a, x, w);
        } else if s[a].is_some() && (s[b].is_some() || !matches!(kind, S_MERGE | S_STARTS | S_CMP)) && (a != b || kind != S_MERGE) {
            worked += 1;
            let n = m[a].len();
            let (x, y) = (place(f(o, 3), n), place(f(o, 4), n));
            let sa = s[a].as_ref().unwrap();
            trace(|| format!("operation {} on slot {} ({} bytes), {}, {}, slot {}", kind, a, n, x, y, b));
            match kind {
                S_CLONE => {
                    let k = call("clone", || sut::slice_clone(sa));
                    let w = m[a].clone();
                    put(&mut s, &mut m, b, k, w);
                }
                S_CUT => match call_catch(|| sut::slice_remove_prefix(sa, x)) {
                    Some(k) if x <= n => {
                        let w = m[a][x..].to_vec();
                        put(&mut s, &mut m, b, k, w);
                    }
                    None if x > n => bump(P_CODE_REJECTED),
                    r => vfail!("wrong-result", "removing {} of {} bytes {}", x, n, if r.is_some() { "was done".to_string() } else { format!("panicked: {}", panic_msg()) }),
                },
                S_MERGE => {
                    let other = s[b].take().unwrap();
                    let w = std::mem::take(&mut m[b]);
                    let join = match f(o, 3).rem_euclid(4) {
                        0 | 1 => None,
                        2 => Some(vec![]),
                        _ => Some(content(3, seed, 1 + (f(o, 4).unsigned_abs() % 20) as usize)),
                    };
                    let j = join.as_ref().map(|j| placed(j, 0));
                    let sm = s[a].as_mut().unwrap();
                    call("merge", || sut::slice_merge(sm, other, j));
                    if !w.is_empty() {
                        m[a].extend_from_slice(&join.unwrap_or_default());
                        m[a].extend_from_slice(&w);
                    }
                }
                S_STARTS => {
                    let sb = s[b].as_ref().unwrap();
                    let r = call("starts_with", || sut::slice_starts(sa, sb));
                    if r != m[a].starts_with(&m[b]) {
                        vfail!("wrong-result", "starts_with of {} and {} is {}", sh(&m[a]), sh(&m[b]), r);
                    }
                }
                S_CMP => {
                    let sb = s[b].as_ref().unwrap();
                    let (e, o) = call("comparing", || (sut::slice_eq(sa, sb), sut::slice_cmp(sa, sb)));
                    if e != (m[a] == m[b]) || o != m[a].partial_cmp(&m[b]) {
                        vfail!("wrong-result", "{} compared with {}: equal {}, order {:?}", sh(&m[a]), sh(&m[b]), e, o);
                    }
                }
                S_READ => {
                    let how = seed as usize % 5;
                    let (lo, hi) = match how {
                        0 => (x, x.saturating_add(1)),
                        1 => (x, y),
                        2 => (x, n),
                        3 => (0, y),
                        _ => (x, x.saturating_add(f(o, 4).unsigned_abs() as usize)),
                    };
                    let ok = lo <= hi && hi <= n;
                    match call_catch(|| sut::slice_read(sa, how, lo, hi)) {
                        Some(v) if ok => {
                            if v != m[a][lo..hi] {
                                vfail!("wrong-bytes", "bytes {} to {} are {} instead of {}", lo, hi, sh(&v), sh(&m[a][lo..hi]));
                            }
                            call("dropping bytes", move || sut::drop_vec(v));
                        }
                        None if !ok => bump(P_CODE_REJECTED),
                        r => vfail!("wrong-result", "reading {} to {} of {} bytes {}", lo, hi, n, if r.is_some() { "was done".to_string() } else { format!("panicked: {}", panic_msg()) }),
                    }
                }
                S_WRITE => {
                    let how = 1 + seed as usize % 4;
                    let (lo, hi) = match how {
                        1 => (x, y),
                        2 => (x, n),
                        3 => (0, y),
                        _ => (0, n),
                    };
                    let ok = lo <= hi && hi <= n;
                    let sm = s[a].as_mut().unwrap();
                    match call_catch(|| sut::slice_fill(sm, how, lo, hi, seed as u8)) {
                        Some(k) if ok => {
                            m[a][lo..hi].fill(seed as u8);
                            if k != hi - lo {
                                vfail!("wrong-result", "bytes {} to {} are {} bytes", lo, hi, k);
                            }
                        }
                        None if !ok => bump(P_CODE_REJECTED),
                        r => vfail!("wrong-result", "writing {} to {} of {} bytes {}", lo, hi, n, if r.is_some() { "was done".to_string() } else { format!("panicked: {}", panic_msg()) }),
                    }
                }
                S_INTO => {
                    let x = s[a].take().unwrap();
                    let w = std::mem::take(&mut m[a]);
                    let v = call("into", || sut::slice_into(x, w.is_ascii() && seed % 2 == 0));
                    if v != w {
                        vfail!("wrong-bytes", "a slice of {} was turned into {}", sh(&w), sh(&v));
                    }
                    call("dropping bytes", move || sut::drop_vec(v));
                }
                S_TEXT => {
                    if m[a].is_ascii() {
                        let (t, u) = call("to_string", || sut::slice_text(sa));
                        if t.as_bytes() != m[a] || u.as_bytes() != m[a] {
                            vfail!("wrong-bytes", "the text of {} is {:?}, {:?}", sh(&m[a]), t, u);
                        }
                        sut(|| drop((t, u)));
                    }
                }
                _ => {
                    let x = s[a].take().unwrap();
                    m[a] = vec![];
                    call("dropping a slice", move || sut::drop_slice(x));
                }
            }
        }
        for i in 0..SLOTS {
            if let Some(x) = &s[i] {
                let (n, e) = call("size", || (sut::slice_size(x), sut::slice_empty(x)));
                if n != m[i].len() || e != m[i].is_empty() || x.as_ref() != m[i] {
                    vfail!("wrong-bytes", "after operation {} on slot {} slot {} holds {} bytes {} instead of {} bytes {}", kind, a, i, n, sh(x.as_ref()), m[i].len(), sh(&m[i]));
                }
                ev(mix(n as u64, m[i].first().copied().unwrap_or(0) as u64));
            }
        }
    }
    for x in s.into_iter().flatten() {
        call("dropping a slice", move || sut::drop_slice(x));
    }
    nontrivial(worked > 1);
}

// --------------------------------------------------------------------- C32
// row: [key length, seed, sequence number]

pub fn gen_c32(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C32");
    for _ in 0..1 + r.below(8) {
        let l = match r.below(8) {
            0 => r.pick(&[(1i64 << 14) - 8, (1 << 14) - 9, 1 << 14, 1 << 15, 1 << 16]) + r.range(-2, 2),
            1 if i % 64 == 9 => (1i64 << 21) - 8 + r.range(-2, 2),
            2 | 3 => 120 + r.range(-3, 9),
            _ => r.below(40) as i64,
        };
        let q = match r.below(5) {
            0 => 0,
            1 => (1i64 << 56) - 1,
            2 => (1i64 << (8 * r.below(7))) + r.range(-1, 1),
            _ => (r.u64() >> 8) as i64 >> r.below(50),
        };
        c.ops.push(vec![l, r.below(1 << 30) as i64, q.max(0)]);
    }
    gen_place(r, &mut c);
    gen_rand(r, &mut c, 20);
    if r.chance(1, 12) {
        for _ in 0..r.below(8) {
            c.st[ALLOC].push(0);
        }
        c.st[ALLOC].push(1);
    }
    c
}

pub fn run_c32(c: &Case) {
    heap::enable_faults(true);
    unsafe { sut::ON_CMP = Some(|_, a, b| Ok(Some(a.cmp(b)))) };
    let mut held: Vec<(sut::LookupKey, Vec<u8>, usize)> = vec![];
    let check = |k: &sut::LookupKey, want: &[u8], from: usize, what: &str| {
        let t = call("mem_table_key", || sut::look_table_key(k));
        let i = call("internal_key", || sut::look_internal(k));
        if t.as_ref() != want {
            vfail!("wrong-key", "{} the key for the memtable is {} instead of {}", what, sh(t.as_ref()), sh(want));
        }
        if i.as_ref() != &want[from..] {
            vfail!("wrong-key", "{} the internal key is {} instead of {}", what, sh(i.as_ref()), sh(&want[from..]));
        }
        sut(|| {
            drop(t);
            drop(i)
        });
    };
    for o in &c.ops {
        bump(P_OPS);
        let key = bytes(f(o, 1) as u64, f(o, 0).unsigned_abs() as usize % (1 << 23));
        let seq = f(o, 2) as usize & ((1 << 56) - 1);
        let v = roomy(&key, &b"left over"[..f(o, 1).unsigned_abs() as usize % 9]);
        let k = call("LookupKey::new", || sut::look_new(v, seq));
        let mut want = vec![];
        let mut n = key.len() as u64 + 8;
        while n >= 128 {
            want.push(n as u8 | 128);
            n >>= 7;
        }
        want.push(n as u8);
        let from = want.len();
        want.extend_from_slice(&key);
        want.extend_from_slice(&((seq as u64) << 8 | 1).to_le_bytes());
        trace(|| format!("a lookup key for {} bytes at {}", key.len(), seq));
        ev(mix(key.len() as u64, seq as u64));
        check(&k, &want, from, "as made,");
        if key.len() < 100_000 {
            // and what the memtable stores for that key begins so
            let (kv, vv) = (placed(&key, 0), placed(b"v", 0));
            let e = call("MemTable::add", || sut::mem_first_entry(seq, &kv, &vv));
            match e {
                Ok(e) => {
                    if !e.starts_with(&want) {
                        vfail!("not-found", "the entry of the memtable for the key at that sequence number is {}, the lookup key {}", sh(&e), sh(&want));
                    }
                    call("dropping bytes", move || sut::drop_vec(e));
                }
                Err(()) => vfail!("rejected", "adding to an empty memtable failed"),
            }
            sut(|| {
                drop(kv);
                drop(vv)
            });
        }
        held.push((k, want, from));
    }
    for (k, want, from) in &held {
        check(k, want, *from, "held for a while,");
    }
    for (k, ..) in held {
        call("dropping a lookup key", move || sut::look_drop(k));
    }
    nontrivial(c.ops.len() > 1);
}

// --------------------------------------------------------------------- C33
// row: [kind, number, level]

const V_NEW: usize = 6;
const V_ENCODE: usize = 7;

pub fn gen_c33(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C33");
    let number = |r: &mut Rng| match r.below(6) {
        0 => r.below(3) as i64,
        1 => (1u64 << (7 * r.below(10))).wrapping_add(r.below(3)).wrapping_sub(1) as i64,
        2 => (1u64 << r.below(64)).wrapping_add(r.below(3)).wrapping_sub(1) as i64,
        3 => -1 - r.below(2) as i64,
        4 => r.u64() as i64,
        _ => r.below(1 << 20) as i64,
    };
    let n = if i % 16 == 0 { 40 + r.below(100) } else { 1 + r.below(20) };
    // what is deleted, how often all is cleared
    let dels = r.below(3);
    for _ in 0..n {
        let kind = match r.below(16) {
            0 if r.chance(1, 2) => 5,
            1 if r.chance(1, 3) => V_NEW as i64,
            2 | 3 => V_ENCODE as i64,
            4..=8 if dels > 0 => 4,
            _ => r.below(4) as i64,
        };
        let level = if r.chance(1, 8) { number(r) as u32 as i64 } else { r.below(7) as i64 };
        c.ops.push(vec![kind, number(r), level]);
    }
    if i % 512 == 99 {
        // a compaction of very many files
        for k in 0..r.pick(&[200, 1000, 20_000]) {
            c.ops.push(vec![4, k * 3 + r.below(2) as i64, r.below(7) as i64]);
        }
    }
    c.ops.push(vec![V_ENCODE as i64, r.below(20) as i64, 0]);
    gen_place(r, &mut c);
    if r.chance(1, 12) {
        for _ in 0..r.below(8) {
            c.st[ALLOC].push(0);
        }
        c.st[ALLOC].push(1);
    }
    c
}

/// The records of an encoded version edit: tag, level, number.
fn edit_records(b: &[u8]) -> Result<Vec<(u64, u64, u64)>, String> {
    fn varint(b: &[u8], at: &mut usize, what: &str) -> Result<u64, String> {
        let from = *at;
        let mut v = 0u128;
        for k in 0..10 {
            let Some(x) = b.get(*at) else { return Err(format!("the {} at {} of {} bytes is incomplete", what, from, b.len())) };
            *at += 1;
            v |= ((x & 127) as u128) << (7 * k);
            if x & 128 == 0 {
                return if v > u64::MAX as u128 { Err(format!("the {} at {} has more than 64 bits", what, from)) } else { Ok(v as u64) };
            }
        }
        Err(format!("the {} at {} does not end", what, from))
    }
    let mut at = 0;
    let mut out = vec![];
    while at < b.len() {
        match varint(b, &mut at, "tag")? {
            tag @ (2 | 3 | 4 | 9) => out.push((tag, 0, varint(b, &mut at, "number")?)),
            6 => {
                let level = varint(b, &mut at, "level")?;
                out.push((6, level, varint(b, &mut at, "number")?));
            }
            t => return Err(format!("record {} has the tag {}", out.len(), t)),
        }
    }
    Ok(out)
}

pub fn run_c33(c: &Case) {
    heap::enable_faults(true);
    let mut v = call("VersionEdit::new", || sut::edit_new(0, 0));
    let mut nums: [Option<u64>; 4] = [None; 4];
    let mut dels: Vec<(u32, u64)> = vec![];
    let mut encoded = 0;
    for o in &c.ops {
        bump(P_OPS);
        let kind = fm(o, 0, 8);
        let (n, level) = (f(o, 1) as u64, f(o, 2) as u32);
        trace(|| format!("operation {} number {} level {}", kind, n, level));
        ev(mix(kind as u64 + 10, n ^ (level as u64) << 40));
        match kind {
            0..=3 => {
                call("setting a number", || sut::edit_set(&mut v, kind, n));
                nums[kind] = Some(n);
            }
            4 => {
                call("delete_file", || sut::edit_delete(&mut v, level, n));
                dels.push((level, n));
            }
            5 => {
                call("clear", || sut::edit_clear(&mut v));
                nums = [None; 4];
                dels.clear();
            }
            V_NEW => {
                let how = level as usize % 3;
                let old = std::mem::replace(&mut v, call("making a version edit", || sut::edit_new(how, n)));
                call("dropping a version edit", move || sut::edit_drop(old));
                nums = [None; 4];
                dels.clear();
                if how > 0 {
                    nums[how - 1] = Some(n);
                }
            }
            _ => {
                encoded += 1;
                let room = n as usize % 50;
                let target = sut(|| Vec::with_capacity(room));
                let Ok(b) = call("encode_to", || sut::edit_encode(&v, target)) else {
                    vfail!("rejected", "a version edit could not be encoded");
                };
                let mut got = match edit_records(&b) {
                    Ok(r) => r,
                    Err(e) => vfail!("malformed", "the encoding {} of a version edit is not one: {}", sh(&b), e),
                };
                let mut want: Vec<(u64, u64, u64)> = vec![];
                for (tag, n) in [2, 9, 3, 4].into_iter().zip(nums) {
                    want.extend(n.map(|n| (tag, 0, n)));
                }
                want.extend(dels.iter().map(|(l, n)| (6, *l as u64, *n)));
                // in any order, and a file named twice counts once
                for x in [&mut got, &mut want] {
                    x.sort();
                    let mut last = None;
                    x.retain(|r| r.0 != 6 || last.replace(*r) != Some(*r));
                }
                if got != want {
                    let missing = want.iter().find(|x| got.binary_search(x).is_err());
                    let extra = got.iter().find(|x| want.binary_search(x).is_err());
                    vfail!("wrong-record", "the encoding of a version edit holds {} records instead of {}; missing {:?}, not set {:?} (tag, level, number)", got.len(), want.len(), missing, extra);
                }
                call("dropping bytes", move || sut::drop_vec(b));
            }
        }
    }
    call("dropping a version edit", move || sut::edit_drop(v));
    nontrivial(encoded > 1 || c.ops.len() > 3);
}
