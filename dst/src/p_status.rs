//! C25: statuses keep their kind and message, and a failure arrives as a status of
//! its kind. The failures are injected into the disk, the bytes, the order and the
//! callers' requests.
use crate::case::*;
use crate::p_bytes::roomy;
use crate::p_code::bytes;
use crate::p_log::{io_err, nontrivial, sut_slice, Disk, Sink, Source, Src};
use crate::rng::Rng;
use crate::runner::{call, trace};
use simrt::*;
use std::cell::RefCell;
use std::cmp::Ordering;
use std::io::{Error, ErrorKind};
use std::rc::Rc;

// cfg: [capacity of the disk, 0 for none]
// row: [kind, a, b, c, d]

const O_NEW: usize = 0; // way, kind, first text, second text
const O_ASK: usize = 1; // slot
const O_END: usize = 2; // slot, how
const O_CODE: usize = 3; // number
const O_IO: usize = 4; // error kind, text
const O_POISON: usize = 5;
const O_WRITE: usize = 6; // length, how many
const O_READ: usize = 7; // length, how many, damage
const O_DECODE: usize = 8; // what, how many bytes, beyond
const O_ENCODE: usize = 9; // what, how much room
const O_PLACE: usize = 10; // what, how many elements, beyond
const O_ORDER: usize = 11; // how many keys
const OPS: u64 = 12;

const IO_KINDS: &[ErrorKind] = &[
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Interrupted,
    ErrorKind::Unsupported,
    ErrorKind::UnexpectedEof,
    ErrorKind::OutOfMemory,
    ErrorKind::Other,
];

pub fn gen_c25(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C25");
    c.cfg = vec![if r.chance(1, 3) { 1 + r.below(3000) as i64 } else { 0 }];
    let n = if i % 16 == 3 { 40 + r.below(80) } else { 1 + r.below(14) };
    let w = r.below(3);
    for _ in 0..n {
        let k = match w {
            0 => r.below(OPS),
            1 => r.below(5), // only statuses
            _ => r.pick(&[1u64, 2, 4, 5, 6, 6, 7, 7, 8, 9, 10, 11]),
        };
        let mut row = vec![k as i64];
        match k as usize {
            O_NEW => row.extend([r.below(3) as i64, r.below(8) as i64, text_no(r), text_no(r)]),
            O_ASK => row.push(r.below(16) as i64),
            O_END => row.extend([r.below(16) as i64, r.below(4) as i64]),
            O_CODE => row.push(match r.below(4) {
                0 => r.pick(&[-1i64, 8, 9, 255, 256, 257, 65536, i32::MAX as i64, i32::MIN as i64, -8]),
                1 => r.u64() as i32 as i64,
                _ => r.below(8) as i64,
            }),
            O_IO => row.extend([r.below(64) as i64, text_no(r)]),
            O_WRITE => row.extend([len(r), 1 + r.below(5) as i64]),
            O_READ => row.extend([len(r), 1 + r.below(4) as i64, if r.chance(1, 2) { 1 + r.below(1 << 40) as i64 } else { 0 }]),
            O_DECODE => row.extend([r.below(5) as i64, r.below(12) as i64, r.below(1 << 20) as i64]),
            O_ENCODE => row.extend([r.below(6) as i64, r.below(12) as i64, r.below(1 << 20) as i64]),
            O_PLACE => row.extend([r.below(3) as i64, r.below(6) as i64, if r.chance(1, 4) { i64::MAX } else { r.below(5) as i64 }]),
            O_ORDER => row.extend([1 + r.below(6) as i64, r.below(1 << 20) as i64]),
            _ => {}
        }
        c.ops.push(row);
    }
    gen_place(r, &mut c);
    gen_rand(r, &mut c, 16);
    let dense = r.pick(&[3u64, 10, 30]);
    gen_faults(r, &mut c, IO, 120, &[1, 2, 3, 4, 5], dense);
    gen_faults(r, &mut c, AUX, 120, &[1, 2, 3, 4], dense);
    c
}

fn len(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => r.below(4) as i64,
        1 => r.below(100) as i64,
        2 => 32740 + r.below(60) as i64,
        _ => r.skewed(70_000) as i64,
    }
}

fn text_no(r: &mut Rng) -> i64 {
    match r.below(4) {
        0 => 0,
        1 => r.below(20) as i64,
        _ => r.below(1 << 30) as i64,
    }
}

/// Text number `n`: empty, short, long, of several languages, with separators in it.
fn text(n: i64) -> Vec<u8> {
    let n = n.unsigned_abs();
    let mut r = Rng::from(n ^ 0x7e47);
    match n {
        0 => return vec![],
        1 => return b": ".to_vec(),
        2 => return b"OK".to_vec(),
        3 => return b"\0".to_vec(),
        4 => return b"PoisonError".to_vec(),
        5 => return vec![b'a'; 100_000],
        _ => {}
    }
    let l = if n < 20 { r.below(6) } else { r.below(90) };
    let mut s = String::new();
    for _ in 0..l {
        match r.below(9) {
            0 => s.push_str(": "),
            1 => s.push(r.pick(&['\u{e9}', '\u{4e2d}', '\u{1f4be}', '\u{7ff}', '\n', '\0', '\u{10ffff}'])),
            _ => s.push((32 + r.below(95) as u8) as char),
        }
    }
    s.into_bytes()
}

/// The way kinds print.
const PRINTS: [&str; 8] =
    ["OK", "NotFound: ", "Corruption: ", "Not implemented: ", "Invalid argument: ", "IO error: ", "wal bad record: ", "repeated record: "];
const NAMES: [&str; 8] = ["ok", "not found", "corruption", "not supported", "invalid argument", "I/O error", "bad record", "repeated record"];

struct Kept {
    s: sut::Status,
    kind: usize,
    msg: Vec<u8>,
    text: bool,
}

fn show(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.len() > 60 {
        format!("{:?}... ({} bytes)", t.chars().take(40).collect::<String>(), b.len())
    } else {
        format!("{:?}", t)
    }
}

fn check_kind(s: &sut::Status, kind: usize, whence: &str) {
    let asks = call("is_...", || sut::status_asks(s));
    for (k, a) in asks.iter().enumerate() {
        if *a != (k == kind) {
            vfail!("wrong-kind", "{}: a status of kind {} says {} to being {}", whence, NAMES[kind], a, NAMES[k]);
        }
    }
}

fn check(k: &Kept) {
    check_kind(&k.s, k.kind, "asked");
    if k.text {
        let m = call("get_msg", || sut::status_msg(&k.s));
        if m.as_bytes() != k.msg {
            vfail!("wrong-message", "the message of a status of kind {} is {} instead of {}", NAMES[k.kind], show(m.as_bytes()), show(&k.msg));
        }
        sut(|| drop(m));
    }
}

fn check_error(e: &sut::LevelError, kind: usize) {
    let asks = call("is_...", || sut::kind_asks(e));
    for (k, a) in asks.iter().enumerate() {
        let is = if k == 6 { kind == 7 } else { k == kind };
        if *a != is {
            vfail!("wrong-kind", "the kind {} says {} to being {}", NAMES[kind], a, NAMES[if k == 6 { 7 } else { k }]);
        }
    }
    let v = call("get_value", || sut::kind_code(e));
    if v != kind as i32 {
        vfail!("wrong-code", "the code of {} is {}", NAMES[kind], v);
    }
    let p = call("to_string", || sut::kind_print(e));
    if p != PRINTS[kind] {
        vfail!("wrong-text", "the kind {} prints as {:?}", NAMES[kind], p);
    }
    sut(|| drop(p));
}

fn finish(k: Kept, how: usize) {
    let Kept { s, kind, msg, text } = k;
    match how {
        0 if text => {
            let p = call("to_string", || sut::status_print(s));
            let want = if kind == 0 { "OK".to_string() } else { format!("{}{}", PRINTS[kind], String::from_utf8(msg).unwrap()) };
            if p != want {
                vfail!("wrong-text", "a status of kind {} prints as {} instead of {}", NAMES[kind], show(p.as_bytes()), show(want.as_bytes()));
            }
            sut(|| drop(p));
        }
        0 | 1 => {
            let m = call("into_msg", || sut::status_into(s));
            if m.as_ref() != msg {
                vfail!("wrong-message", "the message of a status of kind {} is {} instead of {}", NAMES[kind], show(m.as_ref()), show(&msg));
            }
            sut::drop_slice(m);
        }
        2 => {
            let e = call("get_error", || sut::status_kind(s));
            check_error(&e, kind);
        }
        _ => call("drop", || sut::status_drop(s)),
    }
}

/// A failure that must be of a kind; what it says is kept from then on.
fn arrived(keep: &mut Vec<Kept>, s: sut::Status, kind: usize, says: &str, whence: &str) {
    bump(P_CODE_REJECTED);
    check_kind(&s, kind, whence);
    let m = call("get_msg", || sut::status_msg(&s));
    trace(|| format!("{}: {} {:?}", whence, NAMES[kind], m));
    ev(mix(kind as u64, m.len() as u64));
    if m.is_empty() || !m.contains(says) {
        vfail!("wrong-message", "{}: the status says {:?}, which does not tell {:?}", whence, m, says);
    }
    let msg = m.as_bytes().to_vec();
    sut(|| drop(m));
    keep.push(Kept { s, kind, msg, text: true });
}

fn incomparable(_: u8, a: &[u8], b: &[u8]) -> Result<Option<Ordering>, ()> {
    // keys that begin with 'n' have no place in the order
    let none = |x: &[u8]| x.first() == Some(&b'n');
    Ok(if none(a) || none(b) { None } else { Some(a.cmp(b)) })
}

static mut GONE: u64 = 0;
fn gone(_: u64, _: bool) {
    unsafe { GONE += 1 }
}

pub fn run_c25(c: &Case) {
    let mut keep: Vec<Kept> = vec![];
    let mut seen = 0u32;
    unsafe {
        sut::ON_DROP = Some(gone);
        sut::ON_CMP = Some(incomparable);
    }
    for o in &c.ops {
        bump(P_OPS);
        let kind = fm(o, 0, OPS as usize);
        seen |= 1 << kind;
        match kind {
            O_NEW => {
                let (how, k) = (fm(o, 1, 3), fm(o, 2, 8));
                let raw = f(o, 3) % 7 == 6 && how != 1;
                let a = if raw { bytes(f(o, 3) as u64, (f(o, 3) % 50) as usize) } else { text(f(o, 3)) };
                let b = text(f(o, 4));
                // which of them take two texts
                let two = matches!((how, k), (0, 1..=5) | (1, 2) | (2, 1..));
                let mut msg = if k == 0 { vec![] } else { a.clone() };
                if two && !b.is_empty() {
                    msg.extend_from_slice(b": ");
                    msg.extend_from_slice(&b);
                }
                let (sa, sb) = (roomy(&a, &b[..b.len().min(9)]), roomy(&b, &[]));
                let s = call("new", || sut::status_new(how, k, sa, sb));
                ev(mix(how as u64, k as u64));
                trace(|| format!("status {} of kind {} made in way {} of {} and {}", keep.len(), NAMES[k], how, show(&a), show(&b)));
                let text = std::str::from_utf8(&msg).is_ok();
                let kept = Kept { s, kind: k, msg, text };
                check(&kept);
                keep.push(kept);
            }
            O_ASK if !keep.is_empty() => check(&keep[fm(o, 1, keep.len())]),
            O_END if !keep.is_empty() => {
                let k = keep.swap_remove(fm(o, 1, keep.len()));
                finish(k, fm(o, 2, 4));
            }
            O_CODE => {
                let v = f(o, 1) as i32;
                match (call("try_from", || sut::kind_from(v)), v) {
                    (Ok(e), 0..=7) => check_error(&e, v as usize),
                    (Err(m), v) if !(0..8).contains(&v) => {
                        if !m.contains(&v.to_string()) {
                            vfail!("wrong-message", "the refusal of code {} says {:?}", v, m);
                        }
                        sut(|| drop(m));
                    }
                    (r, _) => vfail!("wrong-code", "the code {} is {:?}", v, r),
                }
            }
            O_IO => {
                let t = String::from_utf8(text(f(o, 2))).unwrap();
                let n = fm(o, 1, 64);
                let e = match n {
                    n if n < IO_KINDS.len() => Error::new(IO_KINDS[n], t),
                    n if n < 2 * IO_KINDS.len() => Error::from(IO_KINDS[n - IO_KINDS.len()]),
                    n if n < 38 => io_err((n as u32) << 8),
                    n => Error::from_raw_os_error(n as i32 - 37),
                };
                let says = e.to_string();
                let s = call("from", || sut::status_of_io(e));
                let msg = says.into_bytes();
                let kept = Kept { s, kind: 5, msg, text: true };
                check(&kept);
                keep.push(kept);
            }
            O_POISON => {
                bump(P_POISONED);
                match call("new_with_arena", || sut::status_of_poison(b"xyz")) {
                    Some(s) => arrived(&mut keep, s, 2, "Poison", "a poisoned lock"),
                    None => vfail!("no-failure", "a poisoned arena went unnoticed"),
                }
            }
            O_WRITE => {
                let d = Rc::new(RefCell::new(Disk { faults: true, allow_err: true, ..Default::default() }));
                d.borrow_mut().limit = (c.c(0) > 0).then_some(c.c(0) as usize);
                let sink: Box<dyn std::io::Write> = Box::new(Sink(d.clone()));
                let mut w = call("LogWriter::new", || sut::writer_new(sink));
                let mut broken = false;
                for i in 0..f(o, 2).clamp(1, 8) as usize {
                    let n = (f(o, 1).unsigned_abs() as usize % 200_000) >> i;
                    let before = d.borrow().errs;
                    let r = sut_slice(&bytes(i as u64, n));
                    let s = call("add_record", || sut::fail_write(&mut w, r));
                    let failed = d.borrow().errs > before;
                    match s {
                        Some(s) if failed => {
                            bump(P_APPEND_ERR);
                            let why = d.borrow().why.clone();
                            arrived(&mut keep, s, 5, &why, "an append whose write failed");
                            broken = true;
                        }
                        Some(s) if broken => {
                            bump(P_APPEND_AFTER_ERR);
                            arrived(&mut keep, s, 5, "", "an append after a failed one");
                        }
                        Some(s) => {
                            let m = call("get_msg", || sut::status_msg(&s));
                            vfail!("no-reason", "an append fails though nothing did: {:?}", m);
                        }
                        None if failed => vfail!("no-failure", "an append whose write failed ({}) reports success", d.borrow().why),
                        None => {}
                    }
                }
                sut::drop_writer(w);
            }
            O_READ => {
                // a good log, then damage
                let d = Rc::new(RefCell::new(Disk::default()));
                let sink: Box<dyn std::io::Write> = Box::new(Sink(d.clone()));
                let mut w = call("LogWriter::new", || sut::writer_new(sink));
                let count = f(o, 2).clamp(1, 8) as usize;
                for i in 0..count {
                    let n = (f(o, 1).unsigned_abs() as usize % 200_000) >> i;
                    let r = sut_slice(&bytes(i as u64, n));
                    call("add_record", || sut::writer_add(&mut w, r)).unwrap();
                }
                sut::drop_writer(w);
                let mut data = std::mem::take(&mut d.borrow_mut().data);
                let harm = f(o, 3).unsigned_abs();
                if harm > 0 && !data.is_empty() {
                    bump(F_BITFLIP);
                    let at = match harm % 3 {
                        0 => harm as usize / 3 % data.len(),
                        // the header of the first record
                        _ => (harm as usize / 3) % 7.min(data.len()),
                    };
                    data[at] ^= 1 << (harm % 8);
                }
                let s = Rc::new(RefCell::new(Src { data, faults: true, allow_err: true, ..Default::default() }));
                let src: Box<dyn level_db_rust::db::log_reader::SeekableReader> = Box::new(Source(s.clone()));
                let mut rd = call("LogReader::new", || sut::reader_new(src, true, 0));
                let mut left = 200;
                loop {
                    let before = s.borrow().injected.len();
                    match call("read_next", || sut::fail_read(&mut rd)) {
                        Ok(Some(x)) => sut::drop_slice(x),
                        Ok(None) => break,
                        Err(e) if s.borrow().injected.len() > before => {
                            bump(P_READ_ERR_RESULT);
                            let why = s.borrow().why.clone();
                            arrived(&mut keep, e, 5, &why, "a read that failed");
                        }
                        // after a failed read the rest of the record has no beginning
                        Err(e) if harm > 0 || before > 0 => arrived(&mut keep, e, 2, "", "damaged bytes"),
                        Err(e) => {
                            let m = call("get_msg", || sut::status_msg(&e));
                            vfail!("no-reason", "a read fails though nothing did: {:?}", m);
                        }
                    }
                    left -= 1;
                    if left == 0 {
                        break;
                    }
                }
                sut::drop_reader(rd);
            }
            O_DECODE => {
                let what = fm(o, 1, 5);
                let mut b = bytes(f(o, 3) as u64, fm(o, 2, 12));
                let n = b.len() + 1 + fm(o, 3, 1 << 20);
                match what {
                    0 => b.truncate(3),
                    1 => b.truncate(7),
                    3 if !b.is_empty() => b[0] = 12 + b[0] % 100,
                    _ => {}
                }
                let v = roomy(&b, b"behind the end");
                match call("get", || sut::fail_decode(what, &v, n)) {
                    Some(s) => arrived(&mut keep, s, 4, "", "decoding past the end"),
                    None => vfail!("no-failure", "decoding past the end of {} bytes succeeds ({})", b.len(), what),
                }
                sut(|| drop(v));
            }
            O_ENCODE => {
                let what = fm(o, 1, 6);
                let room = match what {
                    0 => fm(o, 2, 4),
                    1 => fm(o, 2, 8),
                    2 => fm(o, 2, 5),
                    3 => fm(o, 2, 10),
                    _ => fm(o, 2, 12),
                };
                let mut v = roomy(&vec![0; room], b"behind the end");
                let s = sut_slice(&bytes(1, room + 1 + fm(o, 3, 300)));
                match call("put", || sut::fail_encode(what, &mut v, &s)) {
                    Some(s) => arrived(&mut keep, s, 4, "", "encoding past the end"),
                    None => vfail!("no-failure", "encoding past the end of {} bytes succeeds ({})", room, what),
                }
                sut::drop_slice(s);
                sut(|| drop(v));
            }
            O_PLACE => {
                let what = fm(o, 1, 3);
                let n = fm(o, 2, 12);
                let mut l = call("new", sut::seq_new);
                for i in 0..n {
                    let t = sut(|| sut::Tracked::new(i as u64));
                    call("push", || sut::seq_insert(&mut l, 0, 0, t)).unwrap();
                }
                // the end itself is a place to insert at
                let at = if f(o, 3) == i64::MAX { usize::MAX } else { n + (what == 2) as usize + f(o, 3).unsigned_abs() as usize % 1000 };
                let t = (what == 2).then(|| sut(|| sut::Tracked::new(n as u64)));
                match call("at a position", || sut::fail_position(&mut l, what, at, t)) {
                    Some(s) => arrived(&mut keep, s, 4, "", "a position outside the list"),
                    None => vfail!("no-failure", "position {} of a list of {} is accepted ({})", at, n, what),
                }
                call("drop", || sut::seq_drop(l));
            }
            O_ORDER => {
                let a = call("Arena", sut::arena_ref);
                let mut l = call("SkipList::create", || sut::list_new(0, a.clone()));
                let mut key = |k: Vec<u8>, l: &mut sut::List| {
                    let u = call("UnsafeSlice", || sut::uslice_bytes(&k, a.clone())).unwrap();
                    call("insert", || sut::fail_insert(l, u))
                };
                for i in 0..f(o, 1).clamp(1, 8) {
                    if let Some(s) = key(format!("k{}", f(o, 2) * (i + 1) % 97).into_bytes(), &mut l) {
                        let m = call("get_msg", || sut::status_msg(&s));
                        vfail!("no-reason", "an insertion fails though nothing did: {:?}", m);
                    }
                }
                match key(b"nowhere".to_vec(), &mut l) {
                    Some(s) => arrived(&mut keep, s, 4, "", "a key with no place in the order"),
                    None => vfail!("no-failure", "a key that cannot be compared is inserted"),
                }
                sut::drop_list(l);
                call("drop", || sut::drop_arena_ref(a));
            }
            _ => {}
        }
    }
    // what was kept is as it was
    keep.iter().for_each(check);
    let mut how = 0;
    for k in keep {
        finish(k, how % 3);
        how += 1;
    }
    nontrivial(seen.count_ones() > 1);
}
