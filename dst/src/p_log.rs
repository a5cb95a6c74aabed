//! C01-C05: the write-ahead log over a simulated disk.
use crate::case::*;
use crate::logfmt::*;
use crate::rng::Rng;
use crate::runner::{call, trace};
use level_db_rust::db::log_reader::SeekableReader;
use level_db_rust::util::slice::Slice;
use simrt::*;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

// ------------------------------------------------------------ simulated disk

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Write(usize), // bytes accepted
    Flush,
    Ack,
    FlushErr,
}

#[derive(Default)]
pub struct Disk {
    pub data: Vec<u8>,
    pub flushed: usize,
    pub flush_failed: bool,
    pub evs: Vec<Ev>,
    pub allow_err: bool,   // C04: errors besides EINTR
    pub faults: bool,
    pub limit: Option<usize>, // disk capacity
    pub errs: u64,
    pub why: String, // text of the last error
    pub shared: bool, // C18: others read meanwhile
}

pub struct Sink(pub Rc<RefCell<Disk>>);

pub fn io_err(v: u32) -> Error {
    match (v >> 8) % 8 {
        0 => Error::from_raw_os_error(5),
        1 => Error::from_raw_os_error(28),
        2 => Error::new(ErrorKind::Other, "device"),
        3 => Error::from(ErrorKind::WouldBlock),
        4 => Error::from(ErrorKind::TimedOut),
        5 => Error::from(ErrorKind::BrokenPipe),
        6 => Error::from(ErrorKind::UnexpectedEof),
        _ => Error::from(ErrorKind::PermissionDenied),
    }
}

/// A call of the disk while other threads may go on.
fn io_point() {
    if next(ALLOC) & 0xff == 1 {
        bump(F_PREEMPT);
        sched::yield_now();
    } else {
        sched::point();
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0.borrow().shared {
            io_point();
            let r = self.write_now(b);
            io_point();
            return r;
        }
        self.write_now(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        host(|| {
            let mut d = self.0.borrow_mut();
            bump(S_IO_CALLS);
            ev(2);
            if d.faults && d.allow_err {
                let v = next(AUX);
                if v & 0xff == 4 {
                    bump(F_FLUSH_ERR);
                    d.errs += 1;
                    d.evs.push(Ev::FlushErr);
                    let e = io_err(v);
                    d.why = e.to_string();
                    trace(|| format!("flush fails: {}", e));
                    return Err(e);
                }
            }
            d.flushed = d.data.len();
            d.evs.push(Ev::Flush);
            Ok(())
        })
    }
}

impl Sink {
    fn write_now(&mut self, b: &[u8]) -> std::io::Result<usize> {
        host(|| {
            let mut d = self.0.borrow_mut();
            bump(S_IO_CALLS);
            ev(mix(1, b.len() as u64));
            if b.is_empty() {
                return Ok(0);
            }
            if heap::owns(b.as_ptr()) {
                heap::check(b.as_ptr() as usize, b.len(), false);
            }
            let mut n = b.len();
            if d.faults {
                let v = next(IO);
                match v & 0xff {
                    1 => n = 1 + (v >> 8) as usize % n,
                    2 => n = 1,
                    3 => {
                        bump(F_WRITE_EINTR);
                        trace(|| "write interrupted".into());
                        return Err(Error::from(ErrorKind::Interrupted));
                    }
                    4 if d.allow_err => {
                        bump(F_WRITE_ERR);
                        d.errs += 1;
                        let e = io_err(v);
                        d.why = e.to_string();
                        trace(|| format!("write of {} bytes fails: {}", b.len(), e));
                        return Err(e);
                    }
                    5 if d.allow_err => {
                        bump(F_WRITE_ZERO);
                        d.errs += 1;
                        d.why.clear();
                        trace(|| format!("write of {} bytes accepts nothing", b.len()));
                        return Ok(0);
                    }
                    _ => {}
                }
                if n < b.len() {
                    bump(F_SHORT_WRITE);
                }
            }
            if let Some(l) = d.limit {
                let room = l.saturating_sub(d.data.len());
                if room == 0 {
                    bump(F_DISK_FULL);
                    d.errs += 1;
                    let e = Error::from_raw_os_error(28);
                    d.why = e.to_string();
                    trace(|| "disk full".into());
                    return Err(e);
                }
                n = n.min(room);
            }
            trace(|| format!("write {} of {} bytes at {}", n, b.len(), d.data.len()));
            if d.shared && n > 1 && d.faults {
                let v = next(IO);
                if v & 1 == 1 {
                    // the first part can be read before the rest
                    bump(F_TORN_VISIBLE);
                    let k = 1 + (v >> 8) as usize % (n - 1);
                    d.data.extend_from_slice(&b[..k]);
                    drop(d);
                    trace(|| format!("{} bytes of it are visible", k));
                    io_point();
                    d = self.0.borrow_mut();
                    d.data.extend_from_slice(&b[k..n]);
                    d.evs.push(Ev::Write(n));
                    return Ok(n);
                }
            }
            d.data.extend_from_slice(&b[..n]);
            d.evs.push(Ev::Write(n));
            Ok(n)
        })
    }
}

#[derive(Default)]
pub struct Src {
    pub data: Vec<u8>,
    pub pos: u64,
    pub faults: bool,
    pub allow_err: bool,
    /// injected failures, with the file position they hit
    pub injected: Vec<u64>,
    pub why: String,
    pub seeks_failed: u64,
    pub calls: u64,
    /// C18: the file being written
    pub live: Option<Rc<RefCell<Disk>>>,
    /// C05: the length of the hole before the log
    pub base: u64,
}
pub struct Source(pub Rc<RefCell<Src>>);

impl Read for Source {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.0.borrow().live.is_some() {
            io_point();
        }
        host(|| {
            let mut s = self.0.borrow_mut();
            if let Some(l) = s.live.clone() {
                let have = s.data.len();
                s.data.extend_from_slice(&l.borrow().data[have..]);
            }
            bump(S_IO_CALLS);
            s.calls += 1;
            if s.calls > 400_000 {
                fail("endless-reading", "the source was read more than 400000 times");
            }
            if s.pos < s.base {
                let n = b.len().min((s.base - s.pos).min(1 << 20) as usize);
                b[..n].fill(0);
                trace(|| format!("read {} bytes at {}, all zero", n, s.pos));
                s.pos += n as u64;
                return Ok(n);
            }
            let p = ((s.pos - s.base).min(s.data.len() as u64)) as usize;
            let mut n = b.len().min(s.data.len() - p);
            ev(mix(3, mix(p as u64, b.len() as u64)));
            if s.faults {
                let v = next(AUX);
                match v & 0xff {
                    1 if n > 1 => n = 1 + (v >> 8) as usize % n,
                    2 if n > 1 => n = 1 + (v >> 8) as usize % 9.min(n),
                    3 => {
                        bump(F_READ_EINTR);
                        trace(|| "read interrupted".into());
                        return Err(Error::from(ErrorKind::Interrupted));
                    }
                    4 if s.allow_err => {
                        bump(F_READ_ERR);
                        let pos = s.pos;
                        s.injected.push(pos);
                        let e = io_err(v);
                        s.why = e.to_string();
                        trace(|| format!("read at {} fails: {}", pos, e));
                        return Err(e);
                    }
                    _ => {}
                }
                if n < b.len().min(s.data.len() - p) {
                    bump(F_SHORT_READ);
                }
            }
            if n > 0 && heap::owns(b.as_ptr()) {
                heap::check(b.as_ptr() as usize, n, true);
            }
            b[..n].copy_from_slice(&s.data[p..p + n]);
            s.pos += n as u64;
            trace(|| format!("read {} bytes at {}", n, p));
            Ok(n)
        })
    }
}

impl Seek for Source {
    fn seek(&mut self, f: SeekFrom) -> std::io::Result<u64> {
        host(|| {
            let mut s = self.0.borrow_mut();
            bump(S_IO_CALLS);
            s.calls += 1;
            ev(4);
            if s.faults && s.allow_err {
                let v = next(IO);
                if v & 0xff == 4 {
                    bump(F_SEEK_ERR);
                    let pos = s.pos;
                    s.injected.push(pos);
                    s.seeks_failed += 1;
                    let e = io_err(v);
                    s.why = e.to_string();
                    trace(|| format!("seek fails: {}", e));
                    return Err(e);
                }
            }
            let np: i128 = match f {
                SeekFrom::Start(x) => x as i128,
                SeekFrom::End(x) => s.base as i128 + s.data.len() as i128 + x as i128,
                SeekFrom::Current(x) => s.pos as i128 + x as i128,
            };
            if np < 0 || np > i64::MAX as i128 {
                return Err(Error::from_raw_os_error(22));
            }
            s.pos = np as u64;
            trace(|| format!("seek to {}", np));
            Ok(s.pos)
        })
    }
}
impl SeekableReader for Source {}

// ------------------------------------------------------------------ records

/// Contents of record number `i`: recognisable, and different from all others
/// when long enough.
pub fn content(i: usize, len: usize, pat: i64) -> Vec<u8> {
    let mut v = Vec::with_capacity(len);
    match pat.unsigned_abs() % 5 {
        1 => v.resize(len, 0),
        2 => v.resize(len, 0xff),
        3 => {
            // looks like log records itself
            let inner = encode_full(format!("inner-{}", i).as_bytes());
            while v.len() < len {
                v.extend_from_slice(&inner);
            }
            v.truncate(len);
        }
        4 => {
            // what an empty FULL record header looks like, over and over
            let inner = encode_full(b"");
            while v.len() < len {
                v.extend_from_slice(&inner);
            }
            v.truncate(len);
        }
        _ => {
            let mut r = Rng::from(0xC0FFEE ^ (i as u64) << 20 ^ pat as u64);
            while v.len() + 8 <= len {
                v.extend_from_slice(&r.u64().to_le_bytes());
            }
            while v.len() < len {
                v.push(r.u64() as u8);
            }
        }
    }
    // tag
    for (k, b) in (i as u32 + 1).to_le_bytes().iter().enumerate() {
        if pat.unsigned_abs() % 5 < 3 && len >= 4 {
            v[k] ^= *b;
        }
    }
    v
}

pub fn sut_slice(v: &[u8]) -> Slice {
    // owned by the code under test, at an address the simulator chose
    if v.len() % 3 == 1 {
        // in a vector that was longer before
        let w = crate::p_bytes::roomy(v, &v[..v.len().min(9)]);
        return call("Slice", || Slice::from_vec(w));
    }
    call("Slice", || Slice::from_buf(v))
}

/// Lengths that aim at block boundaries.
pub fn gen_records(r: &mut Rng, c: &mut Case, max_total: usize, max_n: u64) {
    let mut pos = 0usize;
    let n = 1 + r.below(max_n);
    let style = r.below(4);
    // now and then one record of many blocks
    let long = if max_total > 100_000 && r.chance(1, 160) { r.below(n) } else { n };
    for i in 0..n {
        if pos > max_total {
            break;
        }
        let rem = {
            let x = BLOCK - pos % BLOCK;
            if x < HDR {
                BLOCK
            } else {
                x
            }
        };
        let w = if style == 0 { r.below(5) } else { r.below(10) };
        let len = match w {
            0..=2 => r.below(17) as usize,
            3 => r.below(400) as usize,
            4 => r.below(6000) as usize,
            5 | 6 => {
                // end 0..=9 bytes before the end of the block
                let k = r.below(10) as usize;
                (rem - HDR).saturating_sub(k)
            }
            7 => {
                // end that close to the end of a later block
                let k = r.below(10) as usize;
                let m = 1 + r.below(2) as usize;
                (rem - HDR + m * (BLOCK - HDR)).saturating_sub(k)
            }
            8 => rem - HDR + r.below(2000) as usize,
            _ => r.below(70_000) as usize,
        };
        let len = if i == long {
            let most = if r.chance(1, 3) { 8 } else { 5 };
            r.pick(&[1usize << 17, 1 << 18, 1 << 19, 1 << 20, 1 << 21, 1 << 22, 1 << 23, 1 << 24][..most]) + r.below(40) as usize - 20
        } else {
            len
        };
        let pat = if r.chance(1, 3) { r.below(5) as i64 } else { 5 * r.below(50) as i64 };
        c.ops.push(vec![0, len as i64, pat]);
        // where the format puts it
        let mut left = len;
        let mut first = true;
        while first || left > 0 {
            let x = BLOCK - pos % BLOCK;
            if x < HDR {
                pos += x;
            }
            let av = BLOCK - pos % BLOCK - HDR;
            let t = left.min(av);
            pos += HDR + t;
            left -= t;
            first = false;
        }
    }
}

const LONGEST: usize = 18 << 20;

pub fn records(c: &Case) -> Vec<Vec<u8>> {
    let mut total = 0;
    let mut v: Vec<Vec<u8>> = vec![];
    for o in c.ops.iter().filter(|o| f(o, 0) == 0) {
        let len = fm(o, 1, LONGEST);
        total += len + 7;
        if total > LONGEST {
            break;
        }
        v.push(content(v.len(), len, f(o, 2)));
    }
    v
}

/// Write the records through the code under test. Returns which were acknowledged.
pub fn write_log(disk: &Rc<RefCell<Disk>>, recs: &[Vec<u8>]) -> Vec<bool> {
    let sink = Box::new(Sink(disk.clone()));
    let mut w = call("LogWriter::new", move || sut::writer_new(sink));
    let mut acked = vec![];
    for (i, r) in recs.iter().enumerate() {
        bump(P_RECORDS);
        if r.is_empty() {
            bump(P_EMPTY_RECORD);
        }
        trace(|| format!("append record {} of {} bytes", i, r.len()));
        let s = sut_slice(r);
        let ok = call("LogWriter::add_record", || sut::writer_add(&mut w, s)).is_ok();
        ev(mix(5, ok as u64));
        trace(|| format!("append record {}: {}", i, if ok { "ok" } else { "error" }));
        if ok {
            let mut d = disk.borrow_mut();
            d.evs.push(Ev::Ack);
            if d.flushed != d.data.len() {
                let (a, b) = (d.flushed, d.data.len());
                drop(d);
                vfail!("acked-unflushed", "append {} acknowledged although {} of its bytes were not flushed", i, b - a);
            }
        } else {
            bump(P_APPEND_ERR);
        }
        acked.push(ok);
    }
    call("drop of LogWriter", move || sut::drop_writer(w));
    acked
}

pub fn probe_layout(l: &Layout) {
    for r in &l.recs {
        if r.frags > 1 {
            bump(P_MULTI_FRAGMENT);
        }
        if r.end % BLOCK == 0 {
            bump(P_EXACT_BLOCK_END);
        }
    }
    add(P_TRAILER, l.trailers.len() as u64);
    for (p, n, _) in &l.phys {
        if *n == 0 && BLOCK - p % BLOCK == HDR {
            bump(P_ZERO_AVAIL);
        }
    }
}

#[derive(Debug)]
pub enum Got {
    Rec(Vec<u8>),
    End,
    Err,
}

pub struct Reading {
    r: Option<level_db_rust::db::log_reader::LogReader>,
    pub src: Rc<RefCell<Src>>,
}
impl Reading {
    pub fn open(src: Src, checksum: bool, off: usize) -> Reading {
        let src = Rc::new(RefCell::new(src));
        let b = Box::new(Source(src.clone()));
        let r = call("LogReader::new", move || sut::reader_new(b, checksum, off));
        Reading { r: Some(r), src }
    }
    pub fn next(&mut self) -> Got {
        let r = self.r.as_mut().unwrap();
        let g = match call("LogReader::read_next", || sut::reader_next(r)) {
            Ok(Some(s)) => {
                let v = s.as_ref().to_vec();
                call("drop of Slice", move || sut::drop_slice(s));
                Got::Rec(v)
            }
            Ok(None) => Got::End,
            Err(()) => {
                bump(P_READ_ERR_RESULT);
                Got::Err
            }
        };
        ev(match &g {
            Got::Rec(v) => mix(6, mix(v.len() as u64, crc32c(&[v]) as u64)),
            Got::End => 7,
            Got::Err => 8,
        });
        trace(|| match &g {
            Got::Rec(v) => format!("read_next: record of {} bytes", v.len()),
            Got::End => "read_next: end of log".into(),
            Got::Err => "read_next: error".into(),
        });
        g
    }
    pub fn close(mut self) {
        let r = self.r.take().unwrap();
        call("drop of LogReader", move || sut::drop_reader(r));
    }
}

fn show(v: &[u8]) -> String {
    format!("{} bytes {:02x?}{}", v.len(), &v[..v.len().min(12)], if v.len() > 12 { ".." } else { "" })
}

// ---------------------------------------------------------------------- C01

pub fn gen_c01(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C01");
    // a third of the runs without any fault
    let fw = r.chance(2, 3) as i64;
    let fr = r.chance(2, 3) as i64;
    c.cfg = vec![fw, fr, r.below(4) as i64];
    let big = if i % 16 == 0 { 400_000 } else { 110_000 };
    gen_records(r, &mut c, big, 24);
    gen_place(r, &mut c);
    let d = r.pick(&[5, 30, 80, 100]);
    gen_faults(r, &mut c, IO, 200, &[1, 2, 3], d);
    let d = r.pick(&[5, 30, 80, 100]);
    gen_faults(r, &mut c, AUX, 200, &[1, 2, 3], d);
    c
}

pub fn run_c01(c: &Case) {
    let recs = records(c);
    let disk = Rc::new(RefCell::new(Disk { faults: c.c(0) & 1 == 1, ..Disk::default() }));
    let acked = write_log(&disk, &recs);
    if let Some(i) = acked.iter().position(|a| !a) {
        vfail!("spurious-append-error", "append {} failed although the sink only split or interrupted writes", i);
    }
    let data = disk.borrow().data.clone();
    let lay = match decode(&data) {
        Ok(l) => l,
        Err(e) => vfail!("invalid-format", "not a valid log: {}", e),
    };
    probe_layout(&lay);
    if lay.recs.len() != recs.len() {
        vfail!("invalid-format", "an independent decoder finds {} records, {} were appended", lay.recs.len(), recs.len());
    }
    for (i, (a, b)) in lay.recs.iter().zip(&recs).enumerate() {
        if a.data != *b {
            vfail!("invalid-format", "an independent decoder finds record {} to be {} instead of {}", i, show(&a.data), show(b));
        }
    }
    // with and without verification
    let checks = if c.c(2) == 0 { vec![true, false] } else { vec![c.c(2) != 3] };
    for ck in checks {
        let mut rd = Reading::open(Src { data: data.clone(), faults: c.c(1) & 1 == 1, ..Src::default() }, ck, 0);
        for (i, want) in recs.iter().enumerate() {
            match rd.next() {
                Got::Rec(v) => {
                    if v != *want {
                        vfail!("wrong-record", "record {} read as {} instead of {}", i, show(&v), show(want));
                    }
                }
                Got::End => vfail!("lost-record", "end of log before record {} of {}", i, recs.len()),
                Got::Err => vfail!("spurious-read-error", "reading record {} of an intact log failed", i),
            }
        }
        for k in 0..2 {
            match rd.next() {
                Got::End => {}
                g => vfail!("no-end", "call {} after the last record returned {:?} instead of the end of the log", k, kind_of(&g)),
            }
        }
        rd.close();
    }
    nontrivial(stat(F_SHORT_WRITE) + stat(F_WRITE_EINTR) + stat(F_SHORT_READ) + stat(F_READ_EINTR) > 0 || stat(P_MULTI_FRAGMENT) > 0 || stat(P_TRAILER) > 0);
}

fn kind_of(g: &Got) -> &'static str {
    match g {
        Got::Rec(_) => "a record",
        Got::End => "end",
        Got::Err => "an error",
    }
}

pub fn nontrivial(b: bool) {
    unsafe { (*RES).nontrivial = b as u32 }
}

// ---------------------------------------------------------------------- C02

pub fn gen_c02(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case::new("C02");
    c.cfg = vec![r.chance(1, 2) as i64, r.chance(1, 2) as i64];
    gen_records(r, &mut c, 75_000, 12);
    for _ in 0..4 + r.below(10) {
        // event (0: anywhere), byte within it, what survives, seed
        c.ops.push(vec![1, r.below(1 << 20) as i64, r.below(1 << 20) as i64, r.below(8) as i64, r.below(1 << 30) as i64]);
    }
    gen_place(r, &mut c);
    let d = r.pick(&[5, 40, 90]);
    gen_faults(r, &mut c, IO, 120, &[1, 2, 3], d);
    let d = r.pick(&[5, 40, 90]);
    gen_faults(r, &mut c, AUX, 120, &[1, 2, 3], d);
    c
}

pub fn run_c02(c: &Case) {
    let recs = records(c);
    let disk = Rc::new(RefCell::new(Disk { faults: c.c(0) & 1 == 1, ..Disk::default() }));
    let acked = write_log(&disk, &recs);
    if acked.iter().any(|a| !a) {
        vfail!("spurious-append-error", "an append failed although the sink only split or interrupted writes");
    }
    let d = disk.borrow();
    if let Ok(l) = decode(&d.data) {
        probe_layout(&l);
    }
    for o in c.ops.iter().filter(|o| f(o, 0) == 1) {
        // the crash happens in event number `at`
        let at = fm(o, 1, d.evs.len() + 1);
        let (mut len, mut durable, mut acks) = (0usize, 0usize, 0usize);
        for e in &d.evs[..at] {
            match e {
                Ev::Write(n) => len += n,
                Ev::Flush => durable = len,
                Ev::Ack => acks += 1,
                Ev::FlushErr => {}
            }
        }
        // a write in progress may have got part of its bytes in
        if let Some(Ev::Write(n)) = d.evs.get(at) {
            len += fm(o, 2, n + 1);
        }
        bump(F_CRASH);
        if len > durable {
            bump(F_CRASH_IN_RECORD);
        }
        let mut img = d.data[..len].to_vec();
        let mut r = Rng::from(f(o, 4) as u64);
        match fm(o, 3, 8) {
            0 => {} // the process dies: everything written survives
            1 | 2 => {
                // the machine dies: everything after the last flush is lost
                if img.len() > durable {
                    bump(F_CRASH_LOST_TAIL);
                }
                img.truncate(durable);
            }
            3 | 4 => {
                // a prefix of the tail survives
                let k = r.below((len - durable) as u64 + 1) as usize;
                if k < len - durable {
                    bump(F_CRASH_LOST_TAIL);
                }
                img.truncate(durable + k);
            }
            5 | 6 => {
                // sectors of the tail survive independently, lost ones read as zeroes
                let mut p = durable;
                while p < len {
                    let e = ((p / 512 + 1) * 512).min(len);
                    if r.chance(1, 2) {
                        img[p..e].fill(0);
                        bump(F_CRASH_TORN);
                    }
                    p = e;
                }
                if r.chance(1, 3) {
                    let k = r.below((len - durable) as u64 + 1) as usize;
                    img.truncate(durable + k);
                }
            }
            _ => {
                // the file size was extended, the data was not written
                img[durable..].fill(0);
                if len > durable {
                    bump(F_CRASH_TORN);
                }
            }
        }
        trace(|| format!("crash in event {} of {}: {} bytes written, {} flushed, {} appends acknowledged, {} bytes survive", at, d.evs.len(), len, durable, acks, img.len()));
        ev(mix(9, mix(at as u64, img.len() as u64)));
        let mut rd = Reading::open(Src { data: img, faults: c.c(1) & 1 == 1, ..Src::default() }, true, 0);
        let mut got = 0usize;
        let mut errs = 0;
        let bound = recs.len() * 2 + len / BLOCK + 16;
        for k in 0.. {
            if k > bound {
                vfail!("endless-reading", "no end of log after {} calls", k);
            }
            match rd.next() {
                Got::Rec(v) => {
                    if got >= recs.len() || v != recs[got] {
                        vfail!("invented-record", "after a crash, result {} is {}, which is not record {}", got, show(&v), got);
                    }
                    if errs > 0 && got < acks {
                        vfail!("lost-acked-record", "record {} acknowledged before the crash is behind an error", got);
                    }
                    got += 1;
                }
                Got::End => break,
                Got::Err => {
                    errs += 1;
                    if got < acks {
                        vfail!("lost-acked-record", "record {} of {} acknowledged before the crash cannot be read", got, acks);
                    }
                }
            }
        }
        if got < acks {
            vfail!("lost-acked-record", "{} records acknowledged before the crash, only {} survive", acks, got);
        }
        rd.close();
    }
    drop(d);
    nontrivial(stat(F_CRASH_IN_RECORD) > 0);
}

// ---------------------------------------------------------------------- C03

pub fn gen_c03(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case::new("C03");
    let mode = r.pick(&[0, 0, 0, 0, 1, 2]);
    c.cfg = vec![mode, r.chance(1, 3) as i64, r.chance(1, 3) as i64];
    if mode == 2 {
        gen_records(r, &mut c, r.clone().pick(&[140_000, 280_000]), 14);
        for _ in 0..1 + r.below(3) {
            c.ops.push(vec![3, r.below(4) as i64, r.below(16) as i64, r.below(16) as i64]);
        }
    } else if mode == 1 {
        for _ in 0..1 + r.below(6) {
            c.ops.push(vec![2, r.skewed(70_000) as i64, r.below(6) as i64, r.below(1 << 30) as i64]);
        }
    } else {
        gen_records(r, &mut c, r.clone().pick(&[2_000, 70_000, 140_000]), 20);
        for _ in 0..1 + r.below(3) {
            // kind, target (which physical record), field, length, seed
            c.ops.push(vec![1, r.below(8) as i64, r.below(1 << 20) as i64, r.below(10) as i64, r.skewed(40_000) as i64, r.below(1 << 30) as i64]);
        }
    }
    gen_place(r, &mut c);
    gen_faults(r, &mut c, AUX, 100, &[1, 2, 3], 30);
    c
}

pub fn run_c03(c: &Case) {
    if c.c(0) & 1 == 1 {
        return run_garbage(c);
    }
    if c.c(0) & 2 == 2 {
        return run_blocks(c);
    }
    let recs = records(c);
    let disk = Rc::new(RefCell::new(Disk::default()));
    let acked = write_log(&disk, &recs);
    if acked.iter().any(|a| !a) {
        vfail!("spurious-append-error", "an append failed on a healthy disk");
    }
    let orig = disk.borrow().data.clone();
    // where the code put its records is taken from the bytes; C01 checks them
    let lay = match decode(&orig) {
        Ok(l) if l.recs.len() == recs.len() && l.recs.iter().zip(&recs).all(|(a, b)| a.data == *b) => l,
        _ => return, // not this property's business
    };
    probe_layout(&lay);
    let mut img = orig.clone();
    for o in c.ops.iter().filter(|o| f(o, 0) == 1) {
        damage(o, &mut img, &lay);
    }
    let changed = |p: usize| p >= img.len() || img[p] != orig[p];
    let first = (0..orig.len()).find(|p| changed(*p));
    let nblocks = orig.len().div_ceil(BLOCK);
    let bad_block: Vec<bool> = (0..nblocks).map(|b| (b * BLOCK..((b + 1) * BLOCK).min(orig.len())).any(changed)).collect();
    if first.is_none() && img.len() == orig.len() {
        trace(|| "the damage changed nothing".into());
    }
    let must: Vec<bool> = lay
        .recs
        .iter()
        .map(|r| first.is_none_or(|f| r.end <= f) || (r.start / BLOCK..=(r.end - 1) / BLOCK).all(|b| !bad_block[b]))
        .collect();
    let before = lay.recs.iter().filter(|r| first.is_none_or(|f| r.end <= f)).count();
    let mut rd = Reading::open(Src { data: img.clone(), faults: c.c(1) & 1 == 1, ..Src::default() }, true, 0);
    let bound = orig.len() / HDR + 2 * nblocks + 16;
    let mut got: Vec<Vec<u8>> = vec![];
    let mut first_err = None;
    for k in 0.. {
        if k > bound {
            vfail!("endless-reading", "no end of log after {} calls", k);
        }
        match rd.next() {
            Got::Rec(v) => got.push(v),
            Got::End => break,
            Got::Err => {
                if first_err.is_none() {
                    first_err = Some(got.len());
                }
            }
        }
    }
    match rd.next() {
        Got::End => {}
        g => vfail!("no-end", "after the end of the log, {}", kind_of(&g)),
    }
    rd.close();
    if first.is_none() && first_err.is_some() {
        vfail!("spurious-read-error", "an undamaged log gave an error");
    }
    for (i, want) in recs.iter().enumerate().take(before) {
        if got.get(i) != Some(want) {
            vfail!("lost-before-damage", "record {} lies before the first damaged byte {:?} but was not returned", i, first);
        }
    }
    if let Some(e) = first_err {
        if e < before {
            vfail!("lost-before-damage", "an error before record {} although the damage begins behind record {}", e, before);
        }
    }
    // embed what was read into what was appended, covering all that must be there
    if let Err(e) = embed(&recs, &got, |i| must[i], |_| true) {
        vfail!(e.0, "{}; damage from byte {:?}, damaged blocks {:?}", e.1, first, bad_block.iter().enumerate().filter(|x| *x.1).map(|x| x.0).collect::<Vec<_>>());
    }
    nontrivial(first.is_some());
}

/// Is `got` an in-order selection of `want` that includes every index with
/// `must` and only indices with `may`?
fn embed(want: &[Vec<u8>], got: &[Vec<u8>], must: impl Fn(usize) -> bool, may: impl Fn(usize) -> bool) -> Result<(), (&'static str, String)> {
    let m = got.len();
    let mut cur = vec![false; m + 1];
    cur[0] = true;
    let mut best = 0;
    for (i, w) in want.iter().enumerate() {
        let mut nx = vec![false; m + 1];
        for j in 0..=m {
            if !cur[j] {
                continue;
            }
            if !must(i) {
                nx[j] = true;
            }
            if j < m && may(i) && got[j] == *w {
                nx[j + 1] = true;
            }
        }
        if !nx.iter().any(|x| *x) {
            return Err(("lost-record", format!("record {} ({} bytes) was not returned in its place", i, w.len())));
        }
        cur = nx;
        if let Some(j) = (0..=m).rev().find(|j| cur[*j]) {
            best = best.max(j);
        }
    }
    if cur[m] {
        return Ok(());
    }
    Err(("invented-record", format!("result {} of {} ({}) is not an appended record in its place", best, m, got.get(best).map(|v| show(v)).unwrap_or_default())))
}

fn damage(o: &[i64], img: &mut Vec<u8>, lay: &Layout) {
    if img.is_empty() {
        return;
    }
    let mut r = Rng::from(f(o, 5) as u64);
    // aim at a field of a physical record, a trailer, or anywhere
    let (hp, hl, _) = lay.phys[fm(o, 2, lay.phys.len())];
    let pos = match fm(o, 3, 10) {
        0 | 1 => hp + r.below(4) as usize,
        2 | 3 => hp + 4 + r.below(2) as usize,
        4 => hp + 6,
        5 => hp + HDR + r.below(hl as u64 + 1) as usize,
        6 => hp + HDR,
        7 => (hp + HDR + hl).saturating_sub(1),
        8 if !lay.trailers.is_empty() => lay.trailers[r.below(lay.trailers.len() as u64) as usize].0,
        _ => r.below(img.len() as u64) as usize,
    };
    let pos = pos.min(img.len() - 1);
    let len = fm(o, 4, 1 << 17).clamp(1, img.len() - pos);
    match fm(o, 1, 8) {
        0..=2 => {
            bump(F_BITFLIP);
            for _ in 0..1 + r.below(3) {
                let p = (pos + r.below(3) as usize).min(img.len() - 1);
                img[p] ^= 1 << r.below(8);
            }
        }
        3 => {
            bump(F_OVERWRITE);
            for b in &mut img[pos..pos + len] {
                *b = r.u64() as u8;
            }
        }
        4 => {
            bump(F_ZERO);
            img[pos..pos + len].fill(0);
        }
        5 => {
            bump(F_OVERWRITE);
            img[pos..pos + len].fill(0xff);
        }
        6 => {
            bump(F_TRUNCATE);
            img.truncate(pos);
        }
        _ => {
            // a small value change: off by one in a length or type
            bump(F_OVERWRITE);
            img[pos] = img[pos].wrapping_add(if r.chance(1, 2) { 1 } else { 255 });
        }
    }
    ev(mix(10, pos as u64));
    trace(|| format!("damage kind {} at byte {} length {}", fm(o, 1, 8), pos, len));
}

/// Whole blocks lost, repeated or misplaced: every checksum is right, so what
/// must come back follows from the fragments alone.
fn run_blocks(c: &Case) {
    let recs = records(c);
    let disk = Rc::new(RefCell::new(Disk::default()));
    write_log(&disk, &recs);
    let mut img = disk.borrow().data.clone();
    if decode(&img).is_err() {
        return; // C01's business
    }
    for o in c.ops.iter().filter(|o| f(o, 0) == 3) {
        let n = img.len() / BLOCK;
        if n < 2 {
            break;
        }
        let (a, b) = (fm(o, 2, n), fm(o, 3, n));
        let at = |i: usize| i * BLOCK..(i + 1) * BLOCK;
        bump(F_BLOCKS);
        ev(mix(11, (a * 16 + b) as u64));
        trace(|| format!("whole blocks, kind {}: {} and {} of {}", fm(o, 1, 4), a, b, n));
        match fm(o, 1, 4) {
            0 => drop(img.drain(at(a))),
            1 => {
                let x = img[at(a)].to_vec();
                img[at(b)].copy_from_slice(&x);
            }
            2 => {
                let x = img[at(a)].to_vec();
                let y = img[at(b)].to_vec();
                img[at(b)].copy_from_slice(&x);
                img[at(a)].copy_from_slice(&y);
            }
            _ => {
                let x = img[at(a)].to_vec();
                let t = img.split_off(b * BLOCK);
                img.extend(x);
                img.extend(t);
            }
        }
    }
    // by the format: what is a record, and in front of which result something
    // has to be reported as out of place
    let mut want: Vec<Vec<u8>> = vec![];
    let mut bad = vec![false];
    let mut cur: Option<Vec<u8>> = None;
    let mut p = 0;
    while p + HDR <= img.len() {
        let left = BLOCK - p % BLOCK;
        if left < HDR {
            p += left;
            continue;
        }
        let len = img[p + 4] as usize | (img[p + 5] as usize) << 8;
        let body = &img[p + HDR..(p + HDR + len).min(img.len())];
        let ty = img[p + 6];
        if cur.is_some() == (ty == 1 || ty == 2) {
            *bad.last_mut().unwrap() = true;
        }
        match ty {
            1 => {
                cur = None;
                want.push(body.to_vec());
                bad.push(false);
            }
            2 => cur = Some(body.to_vec()),
            _ => {
                if let Some(v) = &mut cur {
                    v.extend_from_slice(body);
                    if ty == 4 {
                        want.push(cur.take().unwrap());
                        bad.push(false);
                    }
                }
            }
        }
        p += HDR + len;
    }
    let mut rd = Reading::open(Src { data: img.clone(), faults: c.c(1) & 1 == 1, ..Src::default() }, c.c(2) & 1 == 0, 0);
    let bound = img.len() / HDR + 2 * img.len().div_ceil(BLOCK) + 16;
    let mut i = 0;
    let mut errs = 0;
    for k in 0.. {
        if k > bound {
            vfail!("endless-reading", "no end of log after {} calls", k);
        }
        match rd.next() {
            Got::Err => {
                errs += 1;
                if !bad[i] {
                    vfail!("spurious-read-error", "an error in front of result {} of {}, where no fragment is out of place", i, want.len());
                }
            }
            g => {
                if bad[i] && errs == 0 {
                    vfail!("undetected-loss", "fragments that belong to no record, in front of result {} of {}, were passed over without an error", i, want.len());
                }
                errs = 0;
                match g {
                    Got::Rec(v) => {
                        if i >= want.len() || want[i] != v {
                            vfail!("wrong-record", "result {} is {} instead of {}", i, show(&v), want.get(i).map(|w| show(w)).unwrap_or("the end".into()));
                        }
                        i += 1;
                    }
                    _ => break,
                }
            }
        }
    }
    if i < want.len() {
        vfail!("lost-record", "end of log after {} of {} records whose fragments follow one another", i, want.len());
    }
    rd.close();
    nontrivial(bad.iter().any(|b| *b));
}

fn run_garbage(c: &Case) {
    let mut data = vec![];
    for o in c.ops.iter().filter(|o| f(o, 0) == 2) {
        let len = fm(o, 1, 80_000);
        let mut r = Rng::from(f(o, 3) as u64);
        match fm(o, 2, 6) {
            0 => data.extend((0..len).map(|_| r.u64() as u8)),
            1 => data.resize(data.len() + len, 0),
            2 => {
                // headers with plausible types and lengths, checksums arbitrary
                let e = data.len() + len;
                while data.len() < e {
                    data.extend_from_slice(&(r.u64() as u32).to_le_bytes());
                    let l = r.skewed(400) as u16;
                    data.extend_from_slice(&l.to_le_bytes());
                    data.push(r.below(6) as u8);
                    data.extend((0..r.below(l as u64 + 2)).map(|_| r.u64() as u8));
                }
            }
            3 => {
                // well-formed physical records of random types
                let e = data.len() + len;
                while data.len() < e {
                    let ty = r.below(6) as u8;
                    let b: Vec<u8> = (0..r.skewed(3000)).map(|_| r.u64() as u8).collect();
                    data.extend_from_slice(&mask(crc32c(&[&[ty], &b])).to_le_bytes());
                    data.extend_from_slice(&(b.len() as u16).to_le_bytes());
                    data.push(ty);
                    data.extend_from_slice(&b);
                }
            }
            4 => data.resize(data.len() + len, 0xff),
            _ => {
                while data.len() % BLOCK != 0 {
                    data.push(r.below(5) as u8);
                }
            }
        }
    }
    bump(F_GARBAGE_LOG);
    let bound = data.len() / HDR + 2 * data.len().div_ceil(BLOCK) + 16;
    for ck in [true, false] {
        let off = if c.c(2) & 1 == 1 { data.len() / 3 } else { 0 };
        let mut rd = Reading::open(Src { data: data.clone(), faults: c.c(1) & 1 == 1, ..Src::default() }, ck, off);
        let mut total = 0;
        for k in 0.. {
            if k > bound {
                vfail!("endless-reading", "no end after {} calls on {} arbitrary bytes", k, data.len());
            }
            match rd.next() {
                Got::Rec(v) => total += v.len(),
                Got::End => break,
                Got::Err => {}
            }
            if total > data.len() {
                vfail!("invented-record", "more bytes returned ({}) than the file holds ({})", total, data.len());
            }
        }
        rd.close();
    }
    nontrivial(!data.is_empty());
}

// ---------------------------------------------------------------------- C04

pub fn gen_c04(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case::new("C04");
    let mode = r.below(2) as i64;
    let lim = if mode == 0 && r.chance(1, 3) { 1 + r.below(90_000) as i64 } else { 0 };
    c.cfg = vec![mode, lim, r.chance(1, 4) as i64];
    let max = r.pick(&[1_500, 70_000, 120_000]);
    gen_records(r, &mut c, max, 16);
    gen_place(r, &mut c);
    if mode == 0 {
        let n = r.pick(&[12, 40, 80]);
        let d = r.pick(&[3, 10, 40]);
        gen_faults(r, &mut c, IO, n, &[1, 3, 4, 4, 5], d);
        let d = r.pick(&[0, 4, 20]);
        gen_faults(r, &mut c, AUX, n, &[4], d);
    } else {
        gen_faults(r, &mut c, IO, 3, &[4], 40);
        let n = r.pick(&[6, 20, 60]);
        let d = r.pick(&[10, 40, 70]);
        gen_faults(r, &mut c, AUX, n, &[1, 2, 3, 4, 4], d);
    }
    c
}

pub fn run_c04(c: &Case) {
    if c.c(0) & 1 == 0 {
        run_c04_write(c)
    } else {
        run_c04_read(c)
    }
}

fn run_c04_write(c: &Case) {
    let recs = records(c);
    let limit = if c.c(1) > 0 { Some(c.c(1) as usize) } else { None };
    let disk = Rc::new(RefCell::new(Disk { faults: true, allow_err: true, limit, ..Disk::default() }));
    // like write_log, with the sink watched around each append
    let sink = Box::new(Sink(disk.clone()));
    let mut w = call("LogWriter::new", move || sut::writer_new(sink));
    let mut acked = vec![];
    let mut failed = false;
    for (i, r) in recs.iter().enumerate() {
        bump(P_RECORDS);
        let (e0, l0, n0) = {
            let d = disk.borrow();
            (d.errs, d.data.len(), d.evs.len())
        };
        let s = sut_slice(r);
        trace(|| format!("append record {} of {} bytes", i, r.len()));
        let ok = call("LogWriter::add_record", || sut::writer_add(&mut w, s)).is_ok();
        trace(|| format!("append record {}: {}", i, if ok { "ok" } else { "error" }));
        ev(mix(5, ok as u64));
        let d = disk.borrow();
        if ok {
            if d.flushed != d.data.len() || !d.evs[n0..].contains(&Ev::Flush) {
                vfail!("acked-unflushed", "append {} acknowledged without its bytes having been flushed", i);
            }
            if d.data.len() - l0 < r.len() + HDR {
                vfail!("acked-short", "append {} acknowledged although the sink accepted only {} of its {} bytes", i, d.data.len() - l0, r.len());
            }
            if failed {
                bump(P_APPEND_AFTER_ERR);
            }
        } else {
            bump(P_APPEND_ERR);
            if d.errs == e0 && !failed {
                vfail!("spurious-append-error", "append {} failed although no write, flush or earlier append had failed", i);
            }
            failed = true;
        }
        acked.push(ok);
        drop(d);
        // space is freed after a while
        if c.c(2) & 1 == 1 && failed && i % 3 == 2 {
            disk.borrow_mut().limit = None;
        }
    }
    call("drop of LogWriter", move || sut::drop_writer(w));
    let data = disk.borrow().data.clone();
    let mut rd = Reading::open(Src { data: data.clone(), ..Src::default() }, true, 0);
    let bound = data.len() / HDR + 2 * data.len().div_ceil(BLOCK) + 16;
    let mut got = vec![];
    for k in 0.. {
        if k > bound {
            vfail!("endless-reading", "no end of log after {} calls", k);
        }
        match rd.next() {
            Got::Rec(v) => got.push(v),
            Got::End => break,
            Got::Err => {
                if !failed {
                    vfail!("spurious-read-error", "a log whose appends all succeeded gave an error");
                }
            }
        }
    }
    rd.close();
    if let Err(e) = embed(&recs, &got, |i| acked[i], |_| true) {
        vfail!(e.0, "{}; acknowledged: {:?}", e.1, acked.iter().map(|b| *b as u8).collect::<Vec<_>>());
    }
    nontrivial(failed);
}

fn run_c04_read(c: &Case) {
    let recs = records(c);
    let disk = Rc::new(RefCell::new(Disk::default()));
    write_log(&disk, &recs);
    let data = disk.borrow().data.clone();
    let lay = match decode(&data) {
        Ok(l) if l.recs.len() == recs.len() && l.recs.iter().zip(&recs).all(|(a, b)| a.data == *b) => l,
        _ => return, // C01's business
    };
    let mut rd = Reading::open(Src { data: data.clone(), faults: true, allow_err: true, ..Src::default() }, true, 0);
    let mut at = 0usize; // next record expected
    let mut pending = 0usize; // injected failures not yet reported
    let mut seen = 0usize;
    let mut lost = vec![false; recs.len()];
    let bound = recs.len() * 2 + 2 * data.len() / BLOCK + c.st[AUX].len() * 2 + 40;
    for k in 0.. {
        if k > bound {
            vfail!("endless-reading", "no end of log after {} calls", k);
        }
        let g = rd.next();
        {
            let s = rd.src.borrow();
            for p in &s.injected[seen..] {
                pending += 1;
                // only a record reaching into the block that failed from the one before can be lost
                let b = (*p as usize / BLOCK) * BLOCK;
                for (i, r) in lay.recs.iter().enumerate() {
                    if r.start < b && b < r.end {
                        lost[i] = true;
                    }
                }
            }
            seen = s.injected.len();
        }
        match g {
            Got::Rec(v) => {
                while at < recs.len() && recs[at] != v && lost[at] {
                    at += 1;
                }
                if at >= recs.len() || recs[at] != v {
                    vfail!("wrong-record", "expected record {} next, got {}; read failures so far: {}", at, show(&v), seen);
                }
                at += 1;
            }
            Got::Err => {
                // besides the failures themselves, only leftover pieces of a
                // record cut in two by one of them may be reported
                if pending > 0 {
                    pending = 0;
                } else if at >= recs.len() || !lost[at] {
                    vfail!("spurious-read-error", "an error without a cause before record {}", at);
                }
            }
            Got::End => {
                if pending > 0 {
                    vfail!("error-as-end", "a failed read was presented as end of log after record {}", at);
                }
                while at < recs.len() && lost[at] {
                    at += 1;
                }
                if at < recs.len() {
                    vfail!("lost-record", "end of log before record {} of {}", at, recs.len());
                }
                break;
            }
        }
    }
    rd.close();
    nontrivial(seen > 0);
}

// ---------------------------------------------------------------------- C05

/// What lies before the log in its file: a hole that a sparse file gets for free.
const HOLES: [u64; 8] = [0, 1, 1 << 15, 1 << 16, (1 << 16) + 7, (1 << 17) - 1, 1 << 17, 1 << 25];

pub fn gen_c05(r: &mut Rng, _i: u64) -> Case {
    let mut c = Case::new("C05");
    let hole = if r.chance(1, 6) { 1 + r.below(HOLES.len() as u64 - 1) } else { 0 };
    c.cfg = vec![r.chance(1, 2) as i64, r.below(3) as i64, hole as i64];
    let max = r.pick(&[300, 40_000, 90_000, 140_000]);
    gen_records(r, &mut c, max, 16);
    for _ in 0..4 + r.below(8) {
        // style, which record or block, delta
        c.ops.push(vec![1, r.below(8) as i64, r.below(1 << 16) as i64, r.range(-9, 9), r.below(1 << 40) as i64]);
    }
    gen_place(r, &mut c);
    let d = r.pick(&[10, 60]);
    gen_faults(r, &mut c, AUX, 80, &[1, 2, 3], d);
    c
}

pub fn run_c05(c: &Case) {
    let recs = records(c);
    let disk = Rc::new(RefCell::new(Disk::default()));
    write_log(&disk, &recs);
    let data = disk.borrow().data.clone();
    let lay = match decode(&data) {
        Ok(l) if l.recs.len() == recs.len() && l.recs.iter().zip(&recs).all(|(a, b)| a.data == *b) => l,
        _ => return, // C01's business
    };
    probe_layout(&lay);
    let n = data.len();
    let base = HOLES[fm(&c.cfg, 2, HOLES.len())] as usize * BLOCK;
    if base > 0 {
        trace(|| format!("the log begins at {} of its file", base));
    }
    let mut hit = false;
    for o in c.ops.iter().filter(|o| f(o, 0) == 1) {
        let d = f(o, 3).clamp(-10, 10);
        let add = |p: usize| (p as i64 + d).max(0) as usize;
        let rec = |k: usize| lay.recs.get(k % lay.recs.len().max(1));
        let off = match fm(o, 1, 8) {
            0 | 1 => rec(fm(o, 2, 1 << 20)).map(|r| add(r.start)).unwrap_or(0),
            2 => rec(fm(o, 2, 1 << 20)).map(|r| add(r.end)).unwrap_or(0),
            3 if !lay.phys.is_empty() => add(lay.phys[fm(o, 2, lay.phys.len())].0),
            4 => add(fm(o, 2, n / BLOCK + 2) * BLOCK),
            5 => fm(o, 4, n + 1),
            6 => n + fm(o, 4, 3 * BLOCK),
            _ => fm(o, 4, 1 << 40),
        };
        let want: Vec<usize> = (0..recs.len()).filter(|i| lay.recs[*i].start >= off).collect();
        if lay.recs.iter().any(|r| r.start < off && off < r.end) {
            bump(P_OFFSET_MID_RECORD);
            hit = true;
        }
        if lay.trailers.iter().any(|t| t.0 <= off && off < t.0 + t.1) {
            bump(P_OFFSET_IN_TRAILER);
        }
        if lay.recs.iter().any(|r| r.frags > 1 && r.start < off && off < r.end && r.end / BLOCK > off / BLOCK) {
            bump(P_RESYNC);
        }
        trace(|| format!("open at offset {}, {} records expected", base + off, want.len()));
        ev(mix(11, off as u64));
        let src = Src { data: data.clone(), faults: c.c(0) & 1 == 1, base: base as u64, ..Src::default() };
        let mut rd = Reading::open(src, c.c(1) != 2, base + off);
        for i in &want {
            match rd.next() {
                Got::Rec(v) => {
                    if v != recs[*i] {
                        let is = (0..recs.len()).find(|k| recs[*k] == v);
                        vfail!("wrong-record", "offset {}: expected record {} (at {}), got {} (record {:?})", off, i, lay.recs[*i].start, show(&v), is);
                    }
                }
                Got::End => vfail!("lost-record", "offset {}: end of log before record {} (at {})", off, i, lay.recs[*i].start),
                Got::Err => vfail!("spurious-read-error", "offset {}: an error before record {} (at {})", off, i, lay.recs[*i].start),
            }
        }
        match rd.next() {
            Got::End => {}
            Got::Rec(v) => vfail!("wrong-record", "offset {}: {} after the last record", off, show(&v)),
            Got::Err => vfail!("spurious-read-error", "offset {}: an error instead of the end of the log", off),
        }
        rd.close();
    }
    nontrivial(hit);
}

// ---------------------------------------------------------------------- C18
// rows: [0, length, pattern] a record; [2, reader, where, selector, polls] a
// reading session

struct Shared<T>(T);
unsafe impl<T> Send for Shared<T> {}

struct Live {
    disk: Rc<RefCell<Disk>>,
    recs: Vec<Vec<u8>>,
    started: usize,
    acked: usize,
    ends: Vec<usize>,
    done: bool,
}
static mut LIVE: Option<Live> = None;
fn live() -> &'static mut Live {
    unsafe { LIVE.as_mut().unwrap() }
}

pub fn gen_c18(r: &mut Rng, i: u64) -> Case {
    let mut c = Case::new("C18");
    let nr = 1 + r.below(3) as i64;
    c.cfg = vec![r.chance(2, 3) as i64, r.chance(2, 3) as i64, nr, r.below(8) as i64];
    let big = if i % 16 == 0 { 200_000 } else { 60_000 };
    gen_records(r, &mut c, big, 14);
    for _ in 0..1 + r.below(8) {
        c.ops.push(vec![2, r.below(3) as i64, r.below(3) as i64, r.below(64) as i64, r.below(5) as i64]);
    }
    gen_sched(r, &mut c);
    gen_place(r, &mut c);
    let d = r.pick(&[5, 40, 90]);
    let d2 = r.pick(&[0, 3, 10, 30, 60]);
    gen_faults(r, &mut c, ALLOC, 400, &[1], d2);
    gen_faults(r, &mut c, IO, 160, &[1, 2, 3], d);
    let d = r.pick(&[5, 40, 90]);
    gen_faults(r, &mut c, AUX, 200, &[1, 2, 3], d);
    c
}

fn session(c: &Case, row: &[i64]) {
    let l = live();
    let acked0 = l.acked;
    let (off, from) = if f(row, 2) > 0 && acked0 > 0 {
        let j = fm(row, 3, acked0);
        (l.ends[j], j + 1)
    } else {
        (0, 0)
    };
    let ck = c.c(3).unsigned_abs() >> (f(row, 1) & 3) & 1 == 0;
    trace(|| format!("reader opens at {}; {} records acknowledged", off, acked0));
    let begun = l.started > acked0;
    let mut rd = Reading::open(Src { faults: c.c(1) & 1 == 1, live: Some(l.disk.clone()), ..Src::default() }, ck, off);
    let mut n = from;
    let mut polls = fm(row, 4, 8);
    loop {
        io_point();
        match rd.next() {
            Got::Rec(v) => {
                if n >= l.started {
                    vfail!("invented-record", "a reader got a record of {} although only {} were appended", show(&v), l.started);
                }
                if v != l.recs[n] {
                    vfail!("wrong-record", "record {} read as {} instead of {} while the log was being written", n, show(&v), show(&l.recs[n]));
                }
                if n >= acked0 {
                    bump(P_READ_WHILE_WRITTEN);
                }
                n += 1;
            }
            Got::End => {
                if n < acked0 {
                    vfail!("lost-record", "end of log after record {} although {} had been acknowledged before the log was opened", n, acked0);
                }
                if polls == 0 {
                    break;
                }
                polls -= 1;
                // ask again once more has been written
                let len = l.disk.borrow().data.len();
                let mut patience = 0;
                while !l.done && l.disk.borrow().data.len() == len && patience < 200 {
                    patience += 1;
                    sched::yield_now();
                }
                if l.disk.borrow().data.len() > len {
                    bump(P_POLLED_AFTER_END);
                }
            }
            Got::Err => vfail!("spurious-read-error", "reading on after record {} failed although the log is only being written", n),
        }
    }
    if begun || l.started > acked0 {
        bump(P_CONCURRENT_OPS);
    }
    rd.close();
}

pub fn run_c18(c: &Case) {
    let recs = records(c);
    let disk = Rc::new(RefCell::new(Disk { faults: c.c(0) & 1 == 1, shared: true, ..Disk::default() }));
    unsafe {
        LIVE = Some(Live { disk: disk.clone(), recs, started: 0, acked: 0, ends: vec![], done: false });
        sched::ON_STALL = None;
    }
    let nr = 1 + c.c(2).unsigned_abs() as usize % 4;
    let mut fs: Vec<Box<dyn FnOnce() + Send>> = vec![];
    let d = Shared(disk.clone());
    fs.push(Box::new(move || {
        let d = d;
        let l = live();
        let sink = Box::new(Sink(d.0.clone()));
        let mut w = call("LogWriter::new", move || sut::writer_new(sink));
        for i in 0..l.recs.len() {
            bump(P_RECORDS);
            l.started = i + 1;
            let s = sut_slice(&l.recs[i]);
            trace(|| format!("append record {} of {} bytes", i, l.recs[i].len()));
            if call("LogWriter::add_record", || sut::writer_add(&mut w, s)).is_err() {
                vfail!("spurious-append-error", "append {} failed although the sink only split or interrupted writes", i);
            }
            trace(|| format!("record {} acknowledged", i));
            ev(5);
            l.acked = i + 1;
            l.ends.push(l.disk.borrow().data.len());
            io_point();
        }
        l.done = true;
        call("drop of LogWriter", move || sut::drop_writer(w));
    }));
    for t in 0..nr {
        let rows: Vec<Vec<i64>> = c.ops.iter().filter(|o| f(o, 0) == 2 && fm(o, 1, nr) == t).cloned().collect();
        let c = c.clone();
        fs.push(Box::new(move || {
            for r in &rows {
                session(&c, r);
            }
        }));
    }
    sched::run_threads(fs);
    // and once more in peace
    session(c, &[2, 0, 0, 0, 0]);
    nontrivial(stat(P_CONCURRENT_OPS) > 0);
    unsafe { LIVE = None };
}
