//! Instantiates the generic types of the code under test, so that they are
//! compiled with instrumentation. No logic of its own.
use level_db_rust::db::db_format::ValueType;
pub use level_db_rust::db::db_format::LookupKey;
pub use level_db_rust::db::version_edit::VersionEdit;
use level_db_rust::db::log_reader::{LogReader, SeekableReader};
use level_db_rust::db::log_writer::LogWriter;
use level_db_rust::db::mem_table::MemTable;
use level_db_rust::db::skip_list::{Iter, SkipList};
use level_db_rust::traits::comparator_trait::Comparator;
use level_db_rust::traits::DataIterator;
use level_db_rust::util::arena::{Arena, ArenaAllocLike, ArenaRef};
use level_db_rust::table::filter_block::{FilterBlock, FilterBlockBuilder};
use level_db_rust::traits::filter_policy_trait::{FilterPolicy, FilterPolicyPtr};
use level_db_rust::util::cache::ShardLRUCache;
use level_db_rust::util::comparator::BytewiseComparatorImpl;
use level_db_rust::util::coding::{Decoder, Encoder};
use level_db_rust::util::crc::{AsCrc, ToMask, CRC};
use level_db_rust::util::filter_policy_bloom::BloomFilterPolicy;
use level_db_rust::util::linked_list::{LinkedList, LinkedListBuilder};
use level_db_rust::util::mutex_lock::{Lock, MutexLock};
use level_db_rust::util::slice::Slice;
pub use level_db_rust::util::status::{LevelError, Status};
use level_db_rust::util::unsafe_slice::{TryIntoUnsafeSlice, UnsafeSlice};
use std::cmp::Ordering;
use std::io::Write;
use std::sync::{Arc, LockResult, Mutex, MutexGuard, TryLockError, TryLockResult};

pub use level_db_rust::util::hash::Hash;
use level_db_rust::util::hash::ToHash;

// Releasing happens here, so that it is compiled with instrumentation.
macro_rules! drops {
    ($($n:ident: $t:ty),* $(,)?) => { $(#[inline(never)] pub fn $n(x: $t) { drop(x) })* };
}
drops! {
    drop_slice: Slice, drop_writer: LogWriter, drop_reader: LogReader, drop_list: List, drop_mem: Mem,
    drop_iter: ListIter, drop_arena: Arena, drop_arena_ref: ArenaRef, drop_uslice: UnsafeSlice,
    drop_guard: MutexGuard<'_, Guarded>, drop_lock: Lock<Guarded>, drop_mutex: MutexLock<Guarded>,
    cache_drop: Arc<Cache>, value_drop: Arc<Tracked>, seq_drop: Seq, drop_vec: Vec<u8>,
    fb_drop: FilterBlockBuilder, look_drop: LookupKey, status_drop: Status, edit_drop: VersionEdit,
}
/// The holder panics; the guard is released by the unwinding.
#[inline(never)]
pub fn panic_holding(g: MutexGuard<'_, Guarded>) {
    let _g = g;
    std::panic::resume_unwind(Box::new("holder"))
}

// ------------------------------------------------------------------- log

pub fn writer_new(w: Box<dyn Write>) -> LogWriter {
    LogWriter::new(w)
}
pub fn writer_add(w: &mut LogWriter, s: Slice) -> Result<(), ()> {
    w.add_record(s).map_err(|_| ())
}
pub fn reader_new(r: Box<dyn SeekableReader>, checksum: bool, off: usize) -> LogReader {
    LogReader::new(r, checksum, off)
}
pub fn reader_next(r: &mut LogReader) -> Result<Option<Slice>, ()> {
    r.read_next().map_err(|_| ())
}

// ----------------------------------------------------------------- cache

pub const MAGIC: u64 = 0x7472_6163_6B65_6421;

pub struct Tracked {
    pub id: u64,
    pub magic: u64,
    pub data: Box<u64>,
}
pub static mut ON_DROP: Option<fn(u64, bool)> = None;

impl Tracked {
    pub fn new(id: u64) -> Self {
        Tracked { id, magic: MAGIC, data: Box::new(!id) }
    }
    pub fn intact(&self) -> bool {
        self.magic == MAGIC && *self.data == !self.id
    }
}
impl Drop for Tracked {
    fn drop(&mut self) {
        let (id, ok) = (self.id, self.intact());
        self.magic = 0;
        simrt::host(|| unsafe {
            if let Some(f) = ON_DROP {
                f(id, ok)
            }
        });
    }
}

pub type Cache = ShardLRUCache<Tracked>;

pub fn cache_new(cap: usize, len: usize, arc: bool) -> Arc<Cache> {
    if arc {
        ShardLRUCache::new_arc_with_capacity(cap, len)
    } else {
        Arc::new(ShardLRUCache::new_with_capacity(cap, len))
    }
}
pub fn cache_insert(c: &Cache, k: &Slice, v: Tracked, charge: usize) -> Result<(), ()> {
    c.insert(k, v, charge).map_err(|_| ())
}
pub fn cache_lookup(c: &Cache, k: &Slice) -> Result<Option<Arc<Tracked>>, ()> {
    c.lookup(k).map_err(|_| ())
}
pub fn cache_erase(c: &mut Cache, k: &Slice) -> Result<(), ()> {
    c.erase(k).map_err(|_| ())
}
pub fn cache_prune(c: &mut Cache) -> Result<(), ()> {
    c.prune().map_err(|_| ())
}
pub fn cache_total(c: &Cache) -> Result<usize, ()> {
    c.total_charge().map_err(|_| ())
}
pub fn cache_slots(c: &Cache) -> Result<usize, ()> {
    c.slots().map_err(|_| ())
}
pub fn cache_capacity(c: &Cache) -> usize {
    c.capacity()
}

// ----------------------------------------------------------------- mutex

pub struct Guarded {
    pub a: u64,
    pub b: [u64; 3],
}
pub fn mutex_new() -> MutexLock<Guarded> {
    MutexLock::new(Guarded { a: 0, b: [0; 3] })
}
pub fn mutex_get(m: &MutexLock<Guarded>) -> Lock<Guarded> {
    m.get_lock()
}
pub fn lock_lock(l: &Lock<Guarded>) -> LockResult<MutexGuard<'_, Guarded>> {
    l.lock()
}
pub fn lock_try(l: &Lock<Guarded>) -> TryLockResult<MutexGuard<'_, Guarded>> {
    l.try_lock()
}
pub fn is_would_block<T>(r: &TryLockResult<T>) -> bool {
    matches!(r, Err(TryLockError::WouldBlock))
}
/// A critical section that does not tolerate company: a torn update shows.
pub fn section(g: &mut Guarded, rounds: u64) -> (u64, u64) {
    let before = std::hint::black_box(g.a);
    for i in 0..rounds {
        let v = std::hint::black_box(g.b[(i % 3) as usize]);
        g.b[(i % 3) as usize] = std::hint::black_box(v + 1);
    }
    g.a = std::hint::black_box(before + 1);
    (before, g.b.iter().sum())
}

// ------------------------------------------------------------ arena, slices

pub fn arena_alloc(a: &ArenaRef, n: usize) -> (*mut u8, usize) {
    let mut g = a.lock().unwrap();
    let s = g.allocate(n);
    (s.as_mut_ptr(), s.len())
}
pub fn arena_alloc_align(a: &ArenaRef, n: usize, al: usize) -> (*mut u8, usize) {
    let mut g = a.lock().unwrap();
    let s = g.allocate_align(n, al);
    (s.as_mut_ptr(), s.len())
}
pub fn arena_usage(a: &ArenaRef) -> usize {
    a.lock().unwrap().memory_usage()
}
pub fn arena_ref() -> ArenaRef {
    Arc::new(Mutex::new(Arena::default()))
}
pub fn slice_copy(s: &Slice, a: ArenaRef) -> Slice {
    s.copy_with_arena(a)
}
pub fn uslice_bytes(b: &[u8], a: ArenaRef) -> Result<UnsafeSlice, ()> {
    UnsafeSlice::new_with_arena(b, a).map_err(|_| ())
}
pub fn uslice_str(b: &str, a: ArenaRef) -> Result<UnsafeSlice, ()> {
    b.try_into_unsafe_slice(a).map_err(|_| ())
}
pub fn uslice_string(b: String, a: ArenaRef) -> Result<UnsafeSlice, ()> {
    b.try_into_unsafe_slice(a).map_err(|_| ())
}
pub fn uslice_sub(s: &UnsafeSlice, start: usize, len: usize) -> UnsafeSlice {
    unsafe { s.sub_slice(start, len) }
}
pub fn uslice_bytes_of(s: &UnsafeSlice) -> (*const u8, usize) {
    let b = s.as_ref();
    (b.as_ptr(), b.len())
}
pub fn uslice_to_slice(s: &UnsafeSlice) -> Slice {
    s.to_slice()
}

// ----------------------------------------------------- skip list, memtable

/// Order chosen by the case; every comparison passes through the simulator,
/// which may make it fail.
pub struct SimCmp {
    pub order: u8,
}
/// What a comparison gives; `Err` makes it panic.
pub static mut ON_CMP: Option<fn(u8, &[u8], &[u8]) -> Result<Option<Ordering>, ()>> = None;

impl Comparator for SimCmp {
    fn compare(&self, a: &[u8], b: &[u8]) -> Option<Ordering> {
        // what the list hands over is read here, as code under test
        let mut x = 0u8;
        if !a.is_empty() {
            x ^= std::hint::black_box(a[0]) ^ std::hint::black_box(a[a.len() - 1]);
        }
        if !b.is_empty() {
            x ^= std::hint::black_box(b[0]) ^ std::hint::black_box(b[b.len() - 1]);
        }
        std::hint::black_box(x);
        match simrt::host(|| unsafe { ON_CMP.unwrap()(self.order, a, b) }) {
            Ok(r) => r,
            Err(()) => simrt::host(|| std::panic::resume_unwind(Box::new("comparator"))),
        }
    }
    fn get_name(&self) -> String {
        String::from("sim")
    }
    fn find_shortest_separator(&self, start: &String, _limit: &Slice) -> String {
        start.clone()
    }
    fn find_short_successor(&self, key: &String) -> String {
        key.clone()
    }
}

pub type List = SkipList<SimCmp>;
pub type ListIter = Iter<SimCmp>;
pub type Mem = MemTable<SimCmp>;

pub fn list_new(order: u8, a: ArenaRef) -> List {
    SkipList::create(Arc::new(SimCmp { order }), a)
}
pub fn list_insert(l: &mut List, k: UnsafeSlice) -> Result<(), ()> {
    l.insert(k).map_err(|_| ())
}
pub fn list_contains(l: &List, k: &[u8]) -> bool {
    l.contains(&k)
}
pub fn list_contains_us(l: &List, k: &UnsafeSlice) -> bool {
    l.contains(k)
}
pub fn list_len(l: &List) -> usize {
    l.len()
}
pub fn list_height(l: &List) -> (usize, usize) {
    (l.height(), l.max_height())
}
pub fn list_usage(l: &List) -> usize {
    l.memory_usage()
}
pub fn list_to_string(l: &List) -> String {
    l.to_string()
}
pub fn list_iter(l: &List) -> ListIter {
    l.iter()
}
pub fn iter_std_next(i: &mut ListIter) -> Option<UnsafeSlice> {
    Iterator::next(i)
}
pub fn iter_next(i: &mut ListIter) {
    DataIterator::next(i)
}
pub fn iter_valid(i: &ListIter) -> bool {
    i.valid()
}
pub fn iter_first(i: &mut ListIter) {
    i.seek_to_first()
}
pub fn iter_last(i: &mut ListIter) {
    i.seek_to_last()
}
pub fn iter_key(i: &ListIter) -> UnsafeSlice {
    i.key()
}

pub fn mem_new(order: u8) -> Mem {
    MemTable::create(Arc::new(SimCmp { order }))
}
pub fn mem_add(m: &mut Mem, seq: usize, value: bool, k: &Vec<u8>, v: &Vec<u8>) -> Result<(), ()> {
    let t = if value { ValueType::KTypeValue } else { ValueType::KTypeDeletion };
    m.add(seq, t, k, v).map_err(|_| ())
}
pub fn mem_usage(m: &Mem) -> usize {
    m.approximate_memory_usage()
}
pub fn mem_list(m: &Mem) -> &List {
    m.dst_list()
}

// ----------------------------------------------------------------- encodings

pub fn enc(e: &mut Encoder, kind: usize, v: u64, s: &Slice) -> Result<(), ()> {
    match kind {
        0 => e.put_fixed32(v as u32),
        1 => e.put_fixed64(v),
        2 => e.put_varint32(v as u32),
        3 => e.put_varint64(v),
        4 => e.put_buf(s),
        _ => e.put_length_prefixed_slice(s),
    }
    .map_err(|_| ())
}
/// # Safety
/// There must be room for what is written.
pub unsafe fn enc_unchecked(e: &mut Encoder, kind: usize, v: u64, s: &Slice) {
    match kind {
        0 => e.uncheck_put_fixed32(v as u32),
        1 => e.uncheck_put_fixed64(v),
        2 => e.uncheck_put_varint32(v as u32),
        3 => e.uncheck_put_varint64(v),
        4 => e.uncheck_put_buf(s),
        _ => e.uncheck_put_length_prefixed_slice(s),
    }
}
#[derive(Debug)]
pub enum Got {
    Number(u64),
    Bytes(Slice),
    Moved(usize),
}
pub fn dec(d: &mut Decoder, kind: usize, n: usize) -> Result<Got, ()> {
    match kind {
        0 => d.get_fixed32().map(|x| Got::Number(x as u64)),
        1 => d.get_fixed64().map(Got::Number),
        2 => d.get_varint32().map(|x| Got::Number(x as u64)),
        3 => d.get_varint64().map(Got::Number),
        4 => d.get_buf(n).map(Got::Bytes),
        5 => d.get_length_prefixed_slice().map(Got::Bytes),
        _ => d.skip(n).map(Got::Moved),
    }
    .map_err(|_| ())
}
/// # Safety
/// What is read must be there.
pub unsafe fn dec_unchecked(d: &mut Decoder, kind: usize, n: usize) -> Got {
    match kind {
        0 => Got::Number(d.uncheck_get_fixed32() as u64),
        1 => Got::Number(d.uncheck_get_fixed64()),
        2 => Got::Number(d.uncheck_get_varint32() as u64),
        3 => Got::Number(d.uncheck_get_varint64()),
        4 => Got::Bytes(d.uncheck_get_buf(n)),
        5 => Got::Bytes(d.uncheck_get_length_prefixed_slice()),
        _ => Got::Moved(d.uncheck_skip(n)),
    }
}

// -------------------------------------------------------------- bloom filters

pub fn bloom_new(bits: usize) -> BloomFilterPolicy {
    BloomFilterPolicy::new_with_bits_per_key(bits)
}
pub fn bloom_build(p: &BloomFilterPolicy, keys: &[&Slice]) -> Slice {
    p.create_filter(keys.to_vec())
}
pub fn bloom_build_len(p: &BloomFilterPolicy, n: usize, keys: &[&Slice]) -> Slice {
    p.create_filter_with_len(n, keys.to_vec())
}
pub fn bloom_match(p: &BloomFilterPolicy, key: &Slice, filter: &Slice) -> bool {
    p.key_may_match(key, filter)
}

// ---------------------------------------------------------------- linked list

pub type Seq = LinkedList<Tracked>;

pub fn seq_new() -> Seq {
    LinkedList::new()
}
pub fn seq_insert(l: &mut Seq, kind: usize, at: usize, v: Tracked) -> Result<(), ()> {
    match kind {
        0 => l.push(v),
        1 => l.add(v),
        2 => return l.add_first(v).map(|_| ()).map_err(|_| ()),
        3 => return l.add_last(v).map(|_| ()).map_err(|_| ()),
        _ => return l.add_by_position(at, v).map(|_| ()).map_err(|_| ()),
    }
    Ok(())
}
pub fn seq_get(l: &Seq, at: usize) -> Result<Option<u64>, ()> {
    l.get(at).map(|x| x.map(|x| x.id)).map_err(|_| ())
}
/// Exchanges an element in place.
pub fn seq_set(l: &Seq, at: usize, v: Tracked) -> Result<(), ()> {
    let old = match l.get_mut(at) {
        Ok(Some(x)) => std::mem::replace(x, v),
        _ => return Err(()),
    };
    drop(old);
    Ok(())
}
pub fn seq_len(l: &Seq) -> usize {
    l.length()
}

// ------------------------------------------------------- checksums and hashes

pub fn crc_extend(crc: u32, b: &[u8]) -> u32 {
    CRC::extend(crc, b)
}
pub fn crc_mask(x: u32) -> u32 {
    CRC::mask(x)
}
pub fn crc_unmask(x: u32) -> u32 {
    x.unmask()
}
fn words<T: Copy>(b: &[u8]) -> Vec<T> {
    let n = std::mem::size_of::<T>();
    b.chunks_exact(n).map(|c| unsafe { std::ptr::read_unaligned(c.as_ptr() as *const T) }).collect()
}
/// The checksum of bytes held by one type or another.
pub fn crc_of(holder: usize, crc: u32, v: Vec<u8>) -> u32 {
    match holder {
        0 if crc == 0 => CRC::value(&v),
        0 | 1 => (&v[..]).as_crc_extend(crc),
        2 if crc == 0 => v.as_crc(),
        2 => v.as_crc_extend(crc),
        3 => Slice::from_vec(v).as_crc_extend(crc),
        4 => std::str::from_utf8(&v).unwrap().as_crc_extend(crc),
        5 => String::from_utf8(v).unwrap().as_crc_extend(crc),
        6 => words::<u16>(&v).as_crc_extend(crc),
        7 => (&words::<u32>(&v)[..]).as_crc_extend(crc),
        _ => words::<u64>(&v).as_crc_extend(crc),
    }
}
fn hash_with<T: ToHash>(x: T, seed: Option<u32>) -> u32 {
    match seed {
        Some(s) => x.to_hash_with_seed(s),
        None => x.to_hash(),
    }
}
pub fn hash_of(holder: usize, seed: Option<u32>, v: Vec<u8>, at: usize) -> u32 {
    match holder {
        0 | 1 => hash_with(&v[at..], seed),
        2 => hash_with(v, seed),
        3 => hash_with(Slice::from_vec(v), seed),
        4 => hash_with(std::str::from_utf8(&v).unwrap(), seed),
        5 => hash_with(String::from_utf8(v).unwrap(), seed),
        6 => hash_with(words::<u16>(&v), seed),
        7 => hash_with(&words::<u32>(&v)[..], seed),
        _ => hash_with(words::<u64>(&v), seed),
    }
}

// -------------------------------------------------------------- filter blocks

/// The keys of a filter, what to put in; false: panic.
pub static mut ON_POLICY: Option<fn(&[&[u8]], &mut Vec<u8>, usize) -> bool> = None;

pub struct SimPolicy {
    kind: usize,
}
impl FilterPolicy for SimPolicy {
    fn name(&self) -> String {
        String::from("SimPolicy")
    }
    fn create_filter(&self, keys: Vec<&Slice>) -> Slice {
        // what is handed over is read here, as code under test
        let held: Vec<Vec<u8>> = keys.iter().map(|s| s.to_vec()).collect();
        let filter = simrt::host(|| {
            let k: Vec<&[u8]> = held.iter().map(|s| &s[..]).collect();
            let mut out = Vec::new();
            unsafe { ON_POLICY.unwrap()(&k, &mut out, self.kind).then_some(out) }
        });
        match filter {
            Some(f) => {
                let s = Slice::from_buf(&f);
                simrt::host(move || drop(f));
                s
            }
            None => std::panic::resume_unwind(Box::new("policy")),
        }
    }
    fn create_filter_with_len(&self, _capacity: usize, keys: Vec<&Slice>) -> Slice {
        self.create_filter(keys)
    }
    fn key_may_match(&self, _key: &Slice, _filter: &Slice) -> bool {
        true
    }
}
pub fn fb_new(kind: usize, bits: usize, capacity: Option<usize>) -> FilterBlockBuilder {
    let p: Box<dyn FilterPolicy> = if kind == 2 { Box::new(bloom_new(bits)) } else { Box::new(SimPolicy { kind }) };
    let p: FilterPolicyPtr = Arc::new(p);
    match capacity {
        Some(n) => FilterBlockBuilder::new_with_policy_capacity(p, n),
        None => FilterBlockBuilder::new_with_policy(p),
    }
}
pub fn fb_start(b: &mut FilterBlockBuilder, at: u64) {
    b.start_block(at)
}
pub fn fb_add(b: &mut FilterBlockBuilder, k: &Slice) {
    b.add_key(k)
}
pub fn fb_finish(b: &mut FilterBlockBuilder) -> Result<Slice, ()> {
    b.finish().map_err(|_| ())
}

// --------------------------------------------------------------------- slices

pub fn slice_new(kind: usize, v: Vec<u8>) -> Slice {
    match kind {
        0 => Slice::from_buf(&v),
        1 => Slice::from_vec(v),
        2 => Slice::from(std::str::from_utf8(&v).unwrap()),
        _ if v.is_empty() => Slice::default(),
        _ => {
            let b: &'static mut [u8] = Box::leak(v.into_boxed_slice());
            unsafe { Slice::from_raw_parts(b.as_mut_ptr(), b.len()) }
        }
    }
}
pub fn slice_clone(s: &Slice) -> Slice {
    s.clone()
}
pub fn slice_remove_prefix(s: &Slice, n: usize) -> Slice {
    s.remove_prefix(n)
}
pub fn slice_merge(s: &mut Slice, other: Slice, joiner: Option<Vec<u8>>) {
    s.merge(other, joiner.map(|j| String::from_utf8(j).unwrap()))
}
pub fn slice_starts(s: &Slice, o: &Slice) -> bool {
    Slice::starts_with(s, o)
}
pub fn slice_eq(s: &Slice, o: &Slice) -> bool {
    s == o
}
pub fn slice_cmp(s: &Slice, o: &Slice) -> Option<Ordering> {
    s.partial_cmp(o)
}
pub fn slice_read(s: &Slice, how: usize, lo: usize, hi: usize) -> Vec<u8> {
    match how {
        0 => vec![s[lo]],
        1 => s[lo..hi].to_vec(),
        2 => s[lo..].to_vec(),
        3 => s[..hi].to_vec(),
        _ => s.as_sub_ref(lo, hi - lo).to_vec(),
    }
}
pub fn slice_fill(s: &mut Slice, how: usize, lo: usize, hi: usize, b: u8) -> usize {
    let r: &mut [u8] = match how {
        1 => &mut s[lo..hi],
        2 => &mut s[lo..],
        3 => &mut s[..hi],
        _ => &mut **s,
    };
    r.fill(b);
    r.len()
}
pub fn slice_into(s: Slice, text: bool) -> Vec<u8> {
    if text {
        String::from(s).into_bytes()
    } else {
        s.into()
    }
}
pub fn slice_text(s: &Slice) -> (String, String) {
    (s.to_string(), s.as_str().to_string())
}
pub fn slice_size(s: &Slice) -> usize {
    s.size()
}
pub fn slice_empty(s: &Slice) -> bool {
    s.empty()
}

// ---------------------------------------------------------------- comparators

pub fn bytewise() -> BytewiseComparatorImpl {
    BytewiseComparatorImpl::default()
}
pub fn bytewise_name(c: &BytewiseComparatorImpl) -> String {
    c.get_name()
}
pub fn bytewise_cmp(c: &BytewiseComparatorImpl, a: &[u8], b: &[u8]) -> Option<Ordering> {
    c.compare(a, b)
}
/// The API takes a String; the crate keeps any bytes in one.
pub fn bytewise_separator(c: &BytewiseComparatorImpl, start: Vec<u8>, limit: Vec<u8>) -> (Vec<u8>, Vec<u8>, Slice) {
    let start = unsafe { String::from_utf8_unchecked(start) };
    let limit = Slice::from_vec(limit);
    let r = c.find_shortest_separator(&start, &limit);
    (r.into_bytes(), start.into_bytes(), limit)
}
pub fn bytewise_successor(c: &BytewiseComparatorImpl, key: Vec<u8>) -> (Vec<u8>, Vec<u8>) {
    let key = unsafe { String::from_utf8_unchecked(key) };
    let r = c.find_short_successor(&key);
    (r.into_bytes(), key.into_bytes())
}

// ---------------------------------------------------------------- lookup keys

pub fn look_new(key: Vec<u8>, seq: usize) -> LookupKey {
    LookupKey::new(Slice::from_vec(key), seq)
}
pub fn look_table_key(k: &LookupKey) -> Slice {
    k.mem_table_key()
}
pub fn look_internal(k: &LookupKey) -> Slice {
    k.internal_key()
}
/// What a memtable stores for a single entry.
pub fn mem_first_entry(seq: usize, k: &Vec<u8>, v: &Vec<u8>) -> Result<Vec<u8>, ()> {
    let mut m = mem_new(0);
    mem_add(&mut m, seq, true, k, v)?;
    let mut i = list_iter(mem_list(&m));
    iter_first(&mut i);
    Ok(iter_key(&i).as_ref().to_vec())
}

// -------------------------------------------------------------- version edits

pub fn edit_new(kind: usize, n: u64) -> VersionEdit {
    match kind {
        0 => VersionEdit::new(),
        1 => VersionEdit::new_with_log_number(n),
        _ => VersionEdit::new_with_prev_log_number(n),
    }
}
pub fn edit_set(v: &mut VersionEdit, what: usize, n: u64) {
    match what {
        0 => v.set_log_number(n),
        1 => v.set_prev_log_number(n),
        2 => v.set_next_file(n),
        _ => v.set_last_sequence(n),
    }
}
pub fn edit_delete(v: &mut VersionEdit, level: u32, file: u64) {
    v.delete_file(level, file)
}
pub fn edit_clear(v: &mut VersionEdit) {
    v.clear()
}
pub fn edit_encode(v: &VersionEdit, mut target: Vec<u8>) -> Result<Vec<u8>, ()> {
    v.encode_to(&mut target).map_err(|_| ())?;
    Ok(target)
}

// ------------------------------------------------------------------- statuses

pub fn kind_of(k: usize) -> LevelError {
    match k {
        0 => LevelError::KOk,
        1 => LevelError::KNotFound,
        2 => LevelError::KCorruption,
        3 => LevelError::KNotSupported,
        4 => LevelError::KInvalidArgument,
        5 => LevelError::KIOError,
        6 => LevelError::KBadRecord,
        _ => LevelError::KRepeatedRecord,
    }
}
fn text(v: Vec<u8>) -> String {
    String::from_utf8(v).unwrap()
}
/// A status of kind `k`, made in one way or another.
pub fn status_new(how: usize, k: usize, a: Vec<u8>, b: Vec<u8>) -> Status {
    let s = Slice::from_vec;
    match (how, k) {
        (0, 0) => LevelError::ok(),
        (0, 1) => LevelError::not_found(s(a), s(b)),
        (0, 2) => LevelError::corruption(s(a), s(b)),
        (0, 3) => LevelError::not_supported(s(a), s(b)),
        (0, 4) => LevelError::invalid_argument(s(a), s(b)),
        (0, 5) => LevelError::io_error(s(a), s(b)),
        (0, 7) => LevelError::repeated_record(s(a)),
        (1, 0) => Status::default(),
        (1, 2) => LevelError::corruption_string(&text(a), &text(b)),
        (1, _) => Status::wrapper_str(kind_of(k), &text(a)),
        (2, 1..) => Status::wrappers(kind_of(k), s(a), s(b)),
        _ => Status::wrapper(kind_of(k), s(a)),
    }
}
pub fn status_of_io(e: std::io::Error) -> Status {
    fn fails(e: std::io::Error) -> Result<(), Status> {
        Err(e)?;
        Ok(())
    }
    fails(e).unwrap_err()
}
/// What a user of an arena gets after another one panicked holding it.
pub fn status_of_poison(b: &[u8]) -> Option<Status> {
    let a = arena_ref();
    let a2 = a.clone();
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        let _g = a2.lock();
        std::panic::resume_unwind(Box::new("holder"))
    }));
    UnsafeSlice::new_with_arena(b, a).err()
}
pub fn status_asks(s: &Status) -> [bool; 6] {
    [s.is_ok(), s.is_not_found(), s.is_corruption(), s.is_not_supported_error(), s.is_invalid_argument(), s.is_io_error()]
}
pub fn kind_asks(s: &LevelError) -> [bool; 7] {
    [s.is_ok(), s.is_not_found(), s.is_corruption(), s.is_not_supported_error(), s.is_invalid_argument(), s.is_io_error(), s.is_repeated_record()]
}
pub fn status_msg(s: &Status) -> String {
    s.get_msg()
}
pub fn status_into(s: Status) -> Slice {
    s.into_msg()
}
pub fn status_print(s: Status) -> String {
    s.to_string()
}
pub fn status_kind(s: Status) -> LevelError {
    s.get_error()
}
pub fn kind_code(k: &LevelError) -> i32 {
    k.get_value()
}
pub fn kind_print(k: &LevelError) -> String {
    k.to_string()
}
pub fn kind_from(v: i32) -> Result<LevelError, String> {
    LevelError::try_from(v)
}
pub fn fail_write(w: &mut LogWriter, s: Slice) -> Option<Status> {
    w.add_record(s).err()
}
pub fn fail_read(r: &mut LogReader) -> Result<Option<Slice>, Status> {
    r.read_next()
}
/// Decodes something beyond the end of `b`; `n` is what is asked for.
pub fn fail_decode(kind: usize, b: &[u8], n: usize) -> Option<Status> {
    let mut d = Decoder::with_buf(b);
    match kind {
        0 => d.get_fixed32().err(),
        1 => d.get_fixed64().err(),
        2 => d.get_buf(n).err(),
        3 => d.get_length_prefixed_slice().err(),
        _ => d.skip(n).err(),
    }
}
pub fn fail_encode(kind: usize, b: &mut [u8], s: &Slice) -> Option<Status> {
    let mut e = Encoder::with_buf(b);
    match kind {
        0 => e.put_fixed32(7).err(),
        1 => e.put_fixed64(7).err(),
        2 => e.put_varint32(u32::MAX).err(),
        3 => e.put_varint64(u64::MAX).err(),
        4 => e.put_buf(s).err(),
        _ => e.put_length_prefixed_slice(s).err(),
    }
}
pub fn fail_position(l: &mut Seq, kind: usize, at: usize, v: Option<Tracked>) -> Option<Status> {
    match kind {
        0 => l.get(at).err(),
        1 => l.get_mut(at).err(),
        _ => l.add_by_position(at, v?).err(),
    }
}
pub fn fail_insert(l: &mut List, k: UnsafeSlice) -> Option<Status> {
    l.insert(k).err()
}
