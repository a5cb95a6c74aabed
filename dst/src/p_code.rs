//! C20, C22, C30: encodings and filters read back from storage that may have
//! damaged them, and the linked list, over a simulated heap.
use crate::case::*;
use crate::p_bytes::roomy;
use crate::p_log::nontrivial;
use crate::rng::Rng;
use crate::runner::{call, call_catch, panic_msg, trace};
use level_db_rust::util::coding::{Decoder, Encoder};
use level_db_rust::util::slice::Slice;
use simrt::*;

pub fn bytes(seed: u64, len: usize) -> Vec<u8> {
    let mut r = Rng::from(seed);
    (0..len).map(|_| r.u64() as u8).collect()
}
/// Bytes on the simulated heap, in a block of exactly their length plus `shift`.
pub fn placed(b: &[u8], shift: usize) -> Vec<u8> {
    let n = shift + b.len();
    let mut v = sut(|| Vec::<u8>::with_capacity(n));
    v.extend(std::iter::repeat(0xEE).take(shift));
    v.extend_from_slice(b);
    v
}
pub fn sh(b: &[u8]) -> String {
    let s: String = b.iter().take(24).map(|x| format!("{:02x}", x)).collect();
    if b.len() > 24 {
        format!("{}.. ({} bytes)", s, b.len())
    } else {
        s
    }
}

// --------------------------------------------------------------------- C20
// cfg: [encode container, its length, shift, decode container, its shift,
//       bytes already in a vector, damage on]
// row: [phase, kind, a, b]   a: value or length, b: seed

const ENC: usize = 0;
const DAMAGE: usize = 1;
const DEC: usize = 2;
const FIXED32: usize = 0;
const FIXED64: usize = 1;
const VAR32: usize = 2;
const VAR64: usize = 3;
const BYTES: usize = 4;
const PREFIXED: usize = 5;
const LOOK: usize = 6; // a decoder over the encoder
const SKIP: usize = 6;
const KINDS: [&str; 7] = ["fixed32", "fixed64", "varint32", "varint64", "bytes", "prefixed bytes", "skip"];
const MAX_PAYLOAD: u64 = 1 << 22;
const PAYLOADS: &[u64] = &[0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 63, 64, 126, 127, 128, 129, 200, 255, 256, 300];

fn big(r: &mut Rng, huge: bool) -> u64 {
    let at = r.pick(if huge { &[1u64 << 21, 1 << 20] } else { &[1u64 << 14, 1 << 15, 1 << 16, 4096, 8192] });
    at.wrapping_add(r.range(-2, 2) as u64)
}

fn number(r: &mut Rng) -> i64 {
    match r.below(6) {
        0 => r.below(300) as i64,
        1 | 2 => {
            let s = 7 * (1 + r.below(9));
            ((1u64 << s) as i64).wrapping_add(r.range(-2, 2))
        }
        3 => ((1u64 << r.below(64)) as i64).wrapping_add(r.range(-1, 1)),
        4 => r.pick(&[0i64, -1, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX, i64::MIN]),
        _ => r.u64() as i64,
    }
}

pub fn gen_c20(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C20");
    let container = r.below(3) as i64;
    let n = if i % 16 == 0 { 30 + r.below(60) } else { 1 + r.below(12) };
    let mut need = 0u64;
    for _ in 0..n {
        let kind = r.below(6) as usize;
        let unchecked = r.chance(1, 4) as i64;
        let a = if kind >= BYTES {
            if i % 64 == 5 && r.chance(1, 3) {
                // lengths at which the length itself takes another byte, or leaves 16 bits
                big(r, i % 1024 == 5) as i64
            } else {
                r.pick(PAYLOADS) as i64
            }
        } else {
            number(r)
        };
        need += match kind {
            FIXED32 => 4,
            FIXED64 => 8,
            VAR32 => 3,
            VAR64 => 6,
            _ => a as u64 + 1,
        };
        c.ops.push(vec![ENC as i64, kind as i64, a, r.below(1 << 20) as i64, unchecked]);
        if r.chance(1, 12) {
            c.ops.push(vec![ENC as i64, LOOK as i64]);
        }
    }
    let len = match r.below(5) {
        0 => r.below(24),
        1 => r.below(need + 1),
        _ => need + r.below(40),
    };
    let damaged = r.chance(1, 2);
    c.cfg = vec![container, len as i64, r.below(8) as i64, r.below(3) as i64, r.below(8) as i64, if r.chance(1, 4) { r.below(40) as i64 } else { 0 }];
    if damaged {
        for _ in 0..1 + r.below(3) {
            let k = r.below(6);
            c.ops.push(vec![DAMAGE as i64, k as i64, r.below(1 << 30) as i64, r.below(1 << 20) as i64]);
        }
    }
    if r.chance(2, 3) {
        // as it was written
        let e: Vec<(i64, i64)> = c.ops.iter().filter(|o| o[0] == ENC as i64 && o[1] < 6).map(|o| (o[1], o[2])).collect();
        for (k, a) in e {
            c.ops.push(vec![DEC as i64, k, if k == BYTES as i64 { a } else { 0 }, 0, r.chance(1, 6) as i64]);
            if r.chance(1, 10) {
                c.ops.push(vec![DEC as i64, r.below(7) as i64, r.below(12) as i64, 0, 0]);
            }
        }
        for _ in 0..r.below(4) {
            c.ops.push(vec![DEC as i64, r.below(7) as i64, r.below(12) as i64, 0, 0]);
        }
    } else {
        for _ in 0..1 + r.below(20) {
            let a = match r.below(6) {
                0 => r.pick(PAYLOADS) as i64,
                1 => r.pick(&[-1i64, -2, -5, i64::MIN, i64::MAX, u32::MAX as i64]),
                _ => r.below(12) as i64,
            };
            c.ops.push(vec![DEC as i64, r.below(7) as i64, a, 0, r.chance(1, 4) as i64]);
        }
    }
    gen_place(r, &mut c);
    if r.chance(1, 12) {
        for _ in 0..r.below(6) {
            c.st[ALLOC].push(0);
        }
        c.st[ALLOC].push(1);
    }
    c
}

fn put_varint(v: &mut Vec<u8>, mut x: u64) {
    while x >= 128 {
        v.push(x as u8 | 128);
        x >>= 7;
    }
    v.push(x as u8);
}

/// What a row adds, by the format's definition.
fn encoded(o: &[i64]) -> (Vec<u8>, Vec<u8>) {
    let a = f(o, 2) as u64;
    let mut v = vec![];
    let mut payload = vec![];
    match fm(o, 1, 7) {
        FIXED32 => v.extend_from_slice(&(a as u32).to_le_bytes()),
        FIXED64 => v.extend_from_slice(&a.to_le_bytes()),
        VAR32 => put_varint(&mut v, a as u32 as u64),
        VAR64 => put_varint(&mut v, a),
        k => {
            payload = bytes(f(o, 3) as u64, (a % MAX_PAYLOAD) as usize);
            if k == PREFIXED {
                put_varint(&mut v, payload.len() as u64);
            }
            v.extend_from_slice(&payload);
        }
    }
    (v, payload)
}

/// A number by the format's definition: its value and length, whether bits
/// were set that the type has no room for; or nothing if it has no end.
fn varint(b: &[u8], bits: u32) -> Option<(u64, usize, bool)> {
    let max = bits.div_ceil(7) as usize;
    let mut v = 0u128;
    for (i, x) in b.iter().take(max).enumerate() {
        v |= ((x & 127) as u128) << (7 * i);
        if x & 128 == 0 {
            return Some((v as u64 & if bits == 32 { u32::MAX as u64 } else { u64::MAX }, i + 1, v >> bits != 0));
        }
    }
    None
}

#[derive(Debug, PartialEq)]
enum Got {
    Number(u64),
    Bytes(Vec<u8>),
    Moved(usize),
}

fn owned(s: Slice) -> Got {
    let b = s.as_ref().to_vec();
    // what was handed out is released as code under test
    call("dropping a slice", move || sut::drop_slice(s));
    Got::Bytes(b)
}

fn ours(g: sut::Got) -> Got {
    match g {
        sut::Got::Number(n) => Got::Number(n),
        sut::Got::Bytes(s) => owned(s),
        sut::Got::Moved(n) => Got::Moved(n),
    }
}

/// One read, compared with what the bytes say.
fn read_one(d: &mut Decoder, data: &[u8], pos: &mut usize, o: &[i64]) {
    let kind = fm(o, 1, 7);
    let n = f(o, 2) as u64 as usize;
    let left = &data[*pos..];
    let mut vague = false;
    let want = match kind {
        FIXED32 if left.len() >= 4 => Some((Got::Number(u32::from_le_bytes(left[..4].try_into().unwrap()) as u64), 4)),
        FIXED64 if left.len() >= 8 => Some((Got::Number(u64::from_le_bytes(left[..8].try_into().unwrap())), 8)),
        VAR32 | VAR64 => varint(left, if kind == VAR32 { 32 } else { 64 }).map(|(v, l, over)| {
            vague = over;
            (Got::Number(v), l)
        }),
        BYTES if left.len() >= n => Some((Got::Bytes(left[..n].to_vec()), n)),
        PREFIXED => varint(left, 32).and_then(|(v, l, over)| {
            vague = over;
            (left.len() - l >= v as usize).then(|| (Got::Bytes(left[l..l + v as usize].to_vec()), l + v as usize))
        }),
        SKIP if left.len() >= n => Some((Got::Moved(*pos + n), n)),
        _ => None,
    };
    let unchecked = f(o, 4) & 1 == 1 && want.is_some() && !vague;
    let got = if unchecked {
        // only what is known to be there
        Ok(ours(call(KINDS[kind], || unsafe { sut::dec_unchecked(d, kind, n) })))
    } else {
        call(KINDS[kind], || sut::dec(d, kind, n)).map(ours)
    };
    trace(|| format!("{} {} at {} of {}: {:?}", KINDS[kind], n, pos, data.len(), got.as_ref().map(|g| match g { Got::Bytes(b) => sh(b), g => format!("{:?}", g) })));
    let (at, limit, can) = call("position", || (d.offset(), d.limit(), d.can_get()));
    ev(mix(kind as u64, at as u64));
    match (&got, &want) {
        (Ok(_), None) => vfail!("accepted", "{} was read at {} although the {} bytes left ({}) do not hold one: {:?}", KINDS[kind], pos, left.len(), sh(left), got),
        (Err(()), Some(_)) if !vague => vfail!("rejected", "{} at {} was refused although {} bytes are left: {}", KINDS[kind], pos, left.len(), sh(left)),
        (Ok(g), Some((w, l))) => {
            if g != w {
                vfail!("wrong-value", "{} at {} gave {:?} instead of {:?}", KINDS[kind], pos, g, w);
            }
            *pos += l;
        }
        _ => bump(P_CODE_REJECTED),
    }
    if at != *pos || limit != data.len() || can != (at < limit) {
        vfail!("wrong-position", "after {} {} the position is {} instead of {}, the limit {} instead of {}", KINDS[kind], if got.is_ok() { "was read" } else { "was refused" }, at, pos, limit, data.len());
    }
}

fn damage(b: &mut Vec<u8>, o: &[i64]) {
    let x = f(o, 2) as usize;
    let n = b.len().max(1);
    match fm(o, 1, 6) {
        0 | 1 if !b.is_empty() => b[x % n] ^= 1 << (f(o, 3) % 8),
        2 if !b.is_empty() => b[x % n] = f(o, 3) as u8,
        3 => b.truncate(x % (n + 1)),
        4 => {
            for i in 0..1 + x % 14 {
                b.push(if f(o, 3) % 3 == 0 { 0xff } else { (f(o, 3) >> (i % 8)) as u8 });
            }
        }
        5 if !b.is_empty() => {
            // a number that does not end
            let at = x % n;
            for y in b.iter_mut().skip(at).take(4 + f(o, 3) as usize % 9) {
                *y |= 0x80;
            }
        }
        _ => {}
    }
    bump(F_DAMAGE);
}

pub fn run_c20(c: &Case) {
    heap::enable_faults(true);
    let container = fm(&c.cfg, 0, 3);
    let cap = c.c(1).unsigned_abs() as usize % (1 << 23);
    let shift = fm(&c.cfg, 2, 8);
    // --- writing
    let pre = if container == 0 { fm(&c.cfg, 5, 64) } else { 0 };
    let fill = bytes(99, if container == 0 { pre } else { cap });
    let mut model = fill.clone();
    let mut at = 0usize;
    let mut refused = false;
    let mut vec = placed(&fill, if container == 1 { shift } else { 0 });
    let mut slice = if container == 2 { Slice::from_vec(std::mem::take(&mut vec)) } else { Slice::default() };
    {
        let mut e = match container {
            0 => Encoder::with_vec(&mut vec),
            1 => Encoder::with_buf(&mut vec[shift..]),
            _ => Encoder::with_slice(&mut slice),
        };
        for o in c.ops.iter().filter(|o| f(o, 0) == ENC as i64) {
            bump(P_OPS);
            let kind = fm(o, 1, 7);
            if kind == LOOK {
                let snap: Vec<u8> = model.clone();
                let d = call("create_decoder", || e.create_decoder());
                let (off, lim) = (d.offset(), d.limit());
                if off != 0 || lim != snap.len() {
                    vfail!("wrong-position", "a decoder over {} bytes starts at {} and ends at {}", snap.len(), off, lim);
                }
                continue;
            }
            let (add, payload) = encoded(o);
            let fits = container == 0 || at + add.len() <= cap;
            let data = Slice::from_vec(roomy(&payload, &payload[..payload.len().min((f(o, 2).unsigned_abs() % 4) as usize)]));
            let v = f(o, 2) as u64;
            let r = if f(o, 4) & 1 == 1 && fits {
                call(KINDS[kind], || unsafe { sut::enc_unchecked(&mut e, kind, v, &data) });
                Ok(())
            } else {
                call(KINDS[kind], || sut::enc(&mut e, kind, v, &data))
            };
            sut(|| drop(data));
            trace(|| format!("put {} {} ({} bytes) at {}: {:?}", KINDS[kind], v, add.len(), at, r));
            match r {
                Ok(()) if !fits => vfail!("accepted", "{} of {} bytes was written at {} of {}", KINDS[kind], add.len(), at, cap),
                Err(()) if fits => vfail!("rejected", "{} of {} bytes at {} of {} was refused", KINDS[kind], add.len(), at, if container == 0 { usize::MAX } else { cap }),
                Ok(()) => {
                    if model.len() < at + add.len() {
                        model.resize(at + add.len(), 0);
                    }
                    model[at..at + add.len()].copy_from_slice(&add);
                    at += add.len();
                }
                Err(()) => {
                    refused = true;
                    bump(P_CODE_REJECTED);
                }
            }
            let (off, len) = call("position", || (e.offset(), e.len()));
            ev(mix(kind as u64 + 64, off as u64));
            if off != at || len != model.len() {
                vfail!("wrong-position", "after {} {} the position is {} instead of {}, the length {} instead of {}", KINDS[kind], if r.is_ok() { "was written" } else { "was refused" }, off, at, len, model.len());
            }
        }
    }
    let out: &[u8] = match container {
        0 => &vec,
        1 => &vec[shift..],
        _ => slice.as_ref(),
    };
    // what a refused call left behind the position is nobody's
    let n = if refused { at } else { model.len() };
    if let Some(i) = (0..n).find(|i| out[*i] != model[*i]) {
        vfail!("wrong-bytes", "byte {} of {} is {:02x} instead of {:02x}: {} instead of {}", i, n, out[i], model[i], sh(&out[i..]), sh(&model[i..n]));
    }
    if container == 1 && vec[..shift].iter().any(|b| *b != 0xEE) {
        vfail!("wrong-bytes", "bytes in front of the buffer changed");
    }
    // --- storing
    let mut stored = out[..if container == 0 { model.len() } else { at }].to_vec();
    let sound = stored.clone();
    for o in c.ops.iter().filter(|o| f(o, 0) == DAMAGE as i64) {
        damage(&mut stored, o);
    }
    let harmed = stored != sound;
    sut(|| {
        drop(vec);
        drop(slice)
    });
    // --- reading
    let dc = fm(&c.cfg, 3, 3);
    let dshift = if dc == 1 { fm(&c.cfg, 4, 8) } else { 0 };
    // what was cut off may still lie behind the end, in the same block
    let v = if dshift == 0 && c.c(4) & 2 != 0 { roomy(&stored, sound.get(stored.len()..).unwrap_or(&[])) } else { placed(&stored, dshift) };
    let (v, s) = if dc == 2 { (vec![], Slice::from_vec(v)) } else { (v, Slice::default()) };
    {
        let mut d = match dc {
            0 => Decoder::with_vec(&v),
            1 => Decoder::with_buf(&v[dshift..]),
            _ => Decoder::with_slice(&s),
        };
        let mut pos = 0;
        for o in c.ops.iter().filter(|o| f(o, 0) == DEC as i64) {
            bump(P_OPS);
            read_one(&mut d, &stored, &mut pos, o);
        }
    }
    sut(|| {
        drop(v);
        drop(s)
    });
    nontrivial(harmed || refused || stat(P_CODE_REJECTED) > 0 || (at > 0 && c.ops.iter().any(|o| f(o, 0) == DEC as i64)));
}

// --------------------------------------------------------------------- C22
// cfg: [bits per key, asked-for capacity minus keys, key style]
// row: [0, key, n]  n keys put in;  [1, kind, a, b]  damage;  [2, key]  a question

fn fkey(style: usize, k: u64) -> Vec<u8> {
    match style {
        0 => format!("key{}", k).into_bytes(),
        1 => vec![b'a'; (k % 300) as usize],
        2 => (k as u32).to_le_bytes().to_vec(),
        3 => bytes(k, (k % 19) as usize),
        _ => {
            let mut v = b"a common prefix of some length/".to_vec();
            v.extend_from_slice(&k.to_be_bytes()[8 - (k % 9) as usize..]);
            v
        }
    }
}

pub fn gen_c22(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C22");
    let bits = match r.below(3) {
        0 => r.below(12),
        1 => r.pick(&[10u64, 10, 10, 14, 20, 43, 44, 45, 60, 100]),
        _ => r.skewed(1000),
    };
    let n = match i % 8 {
        0 => 200 + r.below(400),
        1 => 0,
        _ => 1 + r.skewed(120),
    };
    let style = r.below(5) as i64;
    let base = r.below(1 << 20);
    // filters around the sizes at which a length or bit position leaves 8, 16, .. bits
    let edge = match i % 32 {
        3 => r.pick(&[1u64 << 8, 1 << 11, 1 << 12]),
        19 if i % 96 == 19 => r.pick(&[1 << 13, 1 << 15, 1 << 16, 1 << 19]),
        _ => 0,
    };
    if edge > 0 {
        let bits = r.pick(&[8u64, 10, 16, 32, 100, 1000]);
        // bytes in the filter, or bits
        let room = if r.chance(1, 2) && edge <= 1 << 16 { edge * 8 } else { edge };
        let want = (room / bits) as i64 + r.range(-1, 3 + room as i64 / bits as i64 / 8);
        let have = if i % 480 == 19 { want } else { want.min(300) };
        c.cfg = vec![bits as i64, want - have, style];
        c.ops.push(vec![0, base as i64, have]);
        for k in 0..12 {
            c.ops.push(vec![2, (base + 1_000_000 + k) as i64]);
        }
        gen_place(r, &mut c);
        return c;
    }
    let extra = if r.chance(1, 6) { r.range(-20, 200) } else { 0 };
    c.cfg = vec![bits as i64, extra, style];
    if r.chance(1, 3) {
        // asked by a policy with another setting
        c.cfg.push(r.pick(&[1, 2, 5, 10, 20, 43, 60, 1000]));
    }
    for k in 0..n {
        c.ops.push(vec![0, if r.chance(1, 20) { base } else { base + k } as i64]);
    }
    if r.chance(1, 3) {
        for _ in 0..1 + r.below(4) {
            c.ops.push(vec![1, r.below(5) as i64, r.below(1 << 30) as i64, r.below(256) as i64]);
        }
    }
    for k in 0..if i % 8 == 0 { 300 } else { r.below(30) } {
        c.ops.push(vec![2, (base + n + 1 + k * 3) as i64]);
    }
    gen_place(r, &mut c);
    c
}

pub fn run_c22(c: &Case) {
    let style = fm(&c.cfg, 2, 5);
    let bits = c.c(0).unsigned_abs() as usize % 4096;
    let mut keys: Vec<Vec<u8>> = c
        .ops
        .iter()
        .filter(|o| f(o, 0) == 0)
        .flat_map(|o| (0..f(o, 2).clamp(1, 100_000) as u64).map(move |k| fkey(style, (f(o, 1) as u64).wrapping_add(k))))
        .collect();
    let with_len = (keys.len() as i64 + c.c(1)).max(0) as usize;
    let policy = call("new_with_bits_per_key", || sut::bloom_new(bits));
    let slices: Vec<Slice> = keys.iter().map(|k| Slice::from_vec(if k.len() % 2 == 0 { placed(k, 0) } else { roomy(k, &[0, 1, 2]) })).collect();
    let built = {
        let refs: Vec<&Slice> = slices.iter().collect();
        if c.c(1) == 0 {
            call("create_filter", || sut::bloom_build(&policy, &refs))
        } else {
            call("create_filter_with_len", || sut::bloom_build_len(&policy, with_len, &refs))
        }
    };
    let sound = built.as_ref().to_vec();
    sut(|| drop(built));
    trace(|| format!("{} keys, {} bits each: {}", keys.len(), bits, sh(&sound)));
    ev(sound.iter().fold(1, |h, b| mix(h, *b as u64)));
    let room = with_len.max(1) * bits.max(1) / 8 + 64;
    if sound.len() > 2 * room {
        vfail!("filter-too-large", "a filter of {} bytes for {} keys at {} bits", sound.len(), with_len, bits);
    }
    let mut stored = sound.clone();
    let mut only_more = true;
    let mut harmed = false;
    for o in c.ops.iter().filter(|o| f(o, 0) == 1) {
        let x = f(o, 2) as usize;
        let n = stored.len();
        bump(F_DAMAGE);
        harmed = true;
        match fm(o, 1, 5) {
            // bits that were clear are set
            0 | 1 if n > 1 => stored[x % (n - 1)] |= f(o, 3) as u8,
            2 if n > 0 => {
                stored[x % n] = f(o, 3) as u8;
                only_more = false;
            }
            3 => {
                stored.truncate(x % (n + 1));
                only_more = false;
            }
            4 => {
                // the number of probes
                if let Some(l) = stored.last_mut() {
                    *l = f(o, 3) as u8;
                }
                only_more = false;
            }
            _ => {}
        }
    }
    let filter = Slice::from_vec(placed(&stored, 0));
    // the filter was written by an earlier run of the program, which may have
    // been set up otherwise; a filter of a kind not known yet must deny nothing
    let policy = match c.c(3) {
        0 => policy,
        b => call("new_with_bits_per_key", || sut::bloom_new(b.unsigned_abs() as usize % 4096)),
    };
    let unknown = stored.len() >= 2 && stored[stored.len() - 1] > 30;
    for s in &slices {
        let yes = call("key_may_match", || sut::bloom_match(&policy, s, &filter));
        ev(yes as u64);
        if !yes && unknown {
            vfail!("denied", "the key {} is denied by a filter that asks for {} probes", sh(s.as_ref()), stored[stored.len() - 1]);
        }
        if !yes && only_more {
            vfail!("denied", "the key {} is denied by the filter of {} bytes built from {} keys with {} bits each", sh(s.as_ref()), stored.len(), keys.len(), bits);
        }
    }
    keys.sort();
    let (mut asked, mut wrong) = (0u64, 0u64);
    for o in c.ops.iter().filter(|o| f(o, 0) == 2) {
        bump(P_OPS);
        let k = fkey(style, f(o, 1) as u64);
        if keys.binary_search(&k).is_ok() {
            continue;
        }
        let s = Slice::from_vec(placed(&k, 0));
        let yes = call("key_may_match", || sut::bloom_match(&policy, &s, &filter));
        ev(yes as u64);
        asked += 1;
        wrong += yes as u64;
        sut(|| drop(s));
    }
    // far above what such a filter admits
    if !harmed && matches!(style, 0 | 2) && c.c(1) == 0 && (8..=40).contains(&bits) && asked >= 200 && keys.len() >= 100 && wrong * 3 > asked {
        vfail!("filter-useless", "{} of {} keys that were not put in are admitted at {} bits per key", wrong, asked, bits);
    }
    if keys.is_empty() && !harmed && wrong > 0 {
        vfail!("filter-useless", "the filter of no keys admits {} of {} keys", wrong, asked);
    }
    sut(|| {
        drop(filter);
        drop(slices);
        drop(policy)
    });
    nontrivial(keys.len() > 1 || harmed);
}

// --------------------------------------------------------------------- C30
// cfg: [destructors may panic]
// row: [kind, position]

const A_PUSH: usize = 0;
const A_ADD: usize = 1;
const A_FIRST: usize = 2;
const A_LAST: usize = 3;
const A_AT: usize = 4;
const A_GET: usize = 5;
const A_SET: usize = 6;
const A_ALL: usize = 7;

struct LEnv {
    dropped: Vec<u32>,
    panics: u64,
    armed: bool,
}
static mut LENV: Option<LEnv> = None;
fn lenv() -> &'static mut LEnv {
    unsafe { LENV.as_mut().unwrap() }
}
fn on_item_drop(id: u64, intact: bool) {
    let e = lenv();
    if !intact {
        vfail!("use-after-free", "the destructor of element {} ran on something else", id);
    }
    e.dropped[id as usize] += 1;
    if e.dropped[id as usize] > 1 {
        vfail!("double-drop", "element {} was destroyed twice", id);
    }
    if e.armed && next(AUX) & 0xff == 1 && !std::thread::panicking() {
        e.panics += 1;
        bump(F_DROP_PANIC);
        trace(|| format!("the destructor of element {} panics", id));
        std::panic::resume_unwind(Box::new("destructor"));
    }
}

pub fn gen_c30(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C30");
    let panics = r.chance(1, 4);
    c.cfg = vec![panics as i64];
    let n = if i % 10 == 0 { 40 + r.below(60) } else { 1 + r.below(16) };
    let w = r.below(3);
    for _ in 0..n {
        let kind = match w {
            0 => r.below(8),
            1 => r.pick(&[4u64, 4, 4, 5, 6, 7]),
            _ => r.pick(&[0u64, 1, 2, 3, 4, 4, 5]),
        };
        // positions count from both ends and a little beyond
        let pos = match r.below(4) {
            0 => -1 - r.below(4) as i64,
            1 => r.below(4) as i64,
            2 => r.below(n + 2) as i64,
            _ => 1000 + r.below(4) as i64,
        };
        c.ops.push(vec![kind as i64, pos]);
    }
    if !panics && i % 64 == 9 {
        // a long list, at times one whose length leaves 16 bits
        let most = if i % 1024 == 9 { 66_500 } else { 1_200 };
        let k = if most > 10_000 { A_ADD } else { r.pick(&[A_PUSH, A_FIRST, A_ADD, A_LAST]) };
        let at = r.below(c.ops.len() as u64) as usize;
        c.ops.insert(at, vec![k as i64, 0, r.range(most - 1000, most)]);
        for _ in 0..8 {
            let kind = r.pick(&[A_GET, A_SET, A_AT]);
            let pos = r.pick(&[254i64, 255, 256, 257, 65_534, 65_535, 65_536, 65_537]) + 2000;
            c.ops.push(vec![kind as i64, pos]);
        }
    }
    gen_place(r, &mut c);
    if panics {
        gen_faults(r, &mut c, AUX, 40, &[1], 20);
    }
    c
}

/// Positions to look at: all of a short list, some of a long one.
fn some(n: usize) -> Box<dyn Iterator<Item = usize>> {
    if n < 600 {
        return Box::new(0..=n);
    }
    let step = n / 60;
    Box::new((0..=n).filter(move |i| i % step == 0 || *i < 20 || *i + 20 > n))
}

pub fn run_c30(c: &Case) {
    unsafe {
        LENV = Some(LEnv { dropped: vec![], panics: 0, armed: c.c(0) & 1 == 1 });
        sut::ON_DROP = Some(on_item_drop);
    }
    let e = lenv();
    let mut l = call("new", sut::seq_new);
    let mut m: Vec<usize> = vec![];
    let mut next_id = 0usize;
    let check = |l: &sut::Seq, m: &Vec<usize>, i: usize| {
        let r = call("get", || sut::seq_get(l, i));
        match (r, m.get(i)) {
            (Ok(Some(x)), Some(w)) if x == *w as u64 => {}
            (Err(()), None) => {}
            (r, w) => vfail!("wrong-element", "position {} of {} holds {:?} instead of {:?}", i, m.len(), r, w),
        }
    };
    for o in &c.ops {
        bump(P_OPS);
        let kind = fm(o, 0, 8);
        let p = f(o, 1);
        // negative: from the end; a thousand or more: past the end
        let pos = if p < 0 {
            (m.len() as i64 + 1 + p).max(0) as usize
        } else if p >= 2000 {
            p as usize - 2000
        } else if p >= 1000 {
            m.len() + (p as usize - 1000)
        } else {
            p as usize
        };
        ev(mix(kind as u64, pos as u64));
        match kind {
            A_GET => check(&l, &m, pos),
            A_ALL => some(m.len()).for_each(|i| check(&l, &m, i)),
            A_SET => {
                // the element itself is exchanged
                let id = next_id;
                next_id += 1;
                e.dropped.push(0);
                let v = sut(|| sut::Tracked::new(id as u64));
                let before = e.panics;
                let r = call_catch(|| sut::seq_set(&l, pos, v));
                trace(|| format!("exchange {} for {}: {:?}", pos, id, r));
                match r {
                    None if e.panics == before => vfail!("panic", "get_mut panicked: {}", panic_msg()),
                    Some(Ok(())) | None if pos < m.len() => m[pos] = id,
                    Some(Err(())) | None if pos >= m.len() => {}
                    r => vfail!("wrong-element", "exchanging position {} of {} gave {:?}", pos, m.len(), r),
                }
            }
            _ => for _ in 0..1 + fm(o, 2, 70_000) {
                let id = next_id;
                next_id += 1;
                e.dropped.push(0);
                let v = sut(|| sut::Tracked::new(id as u64));
                let before = e.panics;
                let r = call_catch(|| sut::seq_insert(&mut l, kind, pos, v));
                if id < 2000 {
                    trace(|| format!("insertion {} at {} of element {}: {:?}", kind, pos, id, r));
                }
                let ok = kind != A_AT || pos <= m.len();
                match r {
                    None if e.panics == before => vfail!("panic", "inserting panicked: {}", panic_msg()),
                    Some(Ok(())) if ok => {
                        let at = match kind {
                            A_PUSH | A_FIRST => 0,
                            A_ADD | A_LAST => m.len(),
                            _ => pos,
                        };
                        m.insert(at, id);
                    }
                    Some(Err(())) | None if !ok => bump(P_CODE_REJECTED),
                    r => vfail!("wrong-result", "inserting at {} of {} gave {:?}", pos, m.len(), r),
                }
            }
        }
        let n = call("length", || sut::seq_len(&l));
        if n != m.len() {
            vfail!("wrong-length", "{} elements counted, {} inserted", n, m.len());
        }
        for id in &m {
            if e.dropped[*id] > 0 {
                vfail!("destroyed-while-held", "element {} of the list was destroyed", id);
            }
        }
    }
    some(m.len()).for_each(|i| check(&l, &m, i));
    let before = e.panics;
    let r = call_catch(|| sut::seq_drop(l));
    if r.is_none() && e.panics == before {
        vfail!("panic", "dropping the list panicked: {}", panic_msg());
    }
    if e.panics == before {
        // a panicking destructor may leave the rest behind, nothing else may
        if let Some(id) = (0..next_id).find(|i| e.dropped[*i] == 0) {
            vfail!("not-released", "element {} was never destroyed", id);
        }
        if e.panics == 0 && heap::live_count() > 0 {
            vfail!("leak", "{} blocks of {} bytes are left after the list was dropped", heap::live_count(), heap::live_bytes());
        }
    }
    nontrivial(m.len() > 2);
}
