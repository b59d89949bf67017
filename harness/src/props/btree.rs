//! C10 (static B+tree against a sorted multimap) and C12 (index keys).
use crate::engine::{fail, Case, Probe, Prop, R};
use crate::ensure;
use crate::fcb::{Chunked, Or};
use crate::http::{block_on, Server};
use crate::tape::Src;
use chrono::{DateTime, TimeZone, Utc};
use fcb_core::static_btree::{
    Entry, FixedStringKey, Float, HttpIndex, HttpMultiIndex, Key, KeyType, MemoryIndex, MemoryMultiIndex, MultiIndex, Operator, PayloadEntry, Query, QueryCondition, SearchIndex, StreamIndex,
    StreamMultiIndex, Stree, TypedHttpSearchIndex, TypedSearchIndex, TypedStreamSearchIndex,
};
use fcb_core::static_btree::{Max, Min};
use std::cmp::Ordering;
use std::io::{Cursor, Seek, SeekFrom};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C10", level: "exploration", rule: "at least two levels of leaf nodes (more leaf items than a node holds) or a key with several offsets", assumptions: &["keys are not NaN (no JSON value is)"], quick: 200_000, thorough: 5_000_000, run: c10, probes: &[Probe { name: "memory_range_separator", run: probe_memory_range }] },
        Prop { id: "C12", level: "exploration", rule: "two different keys", assumptions: &[], quick: 1_500_000, thorough: 40_000_000, run: c12, probes: &[] },
    ]
}

pub trait TK: Key + Send + Sync + std::fmt::Debug + 'static {
    const NAME: &'static str;
    /// a key from a domain of about `width` values, now and then an extreme one
    fn gen(s: &mut Src, width: u64) -> Self;
    fn kt(&self) -> KeyType;
    fn add_stream(sm: &mut StreamMultiIndex, ix: StreamIndex<Self>, len: u64);
    fn add_memory(mm: &mut MemoryMultiIndex, ix: MemoryIndex<Self>);
    /// the natural order of the values, computed without the key's own Ord
    fn natural(&self, o: &Self) -> Ordering;
}

macro_rules! int_key {
    ($t:ty, $kt:ident, $wide:ty, $add:ident) => {
        impl TK for $t {
            const NAME: &'static str = stringify!($t);
            fn gen(s: &mut Src, width: u64) -> Self {
                if s.chance(1, 12) {
                    return *s.pick(&[<$t>::MIN, <$t>::MAX, <$t>::MAX - 1, <$t>::MIN + 1, 0, 1]);
                }
                if width == 0 {
                    return s.raw() as $t;
                }
                let v = s.below(width) as i128 - (width / 2) as i128 * (<$t>::MIN != 0) as i128;
                v.clamp(<$t>::MIN as i128, <$t>::MAX as i128) as $t
            }
            fn kt(&self) -> KeyType {
                KeyType::$kt(*self)
            }
            fn add_stream(sm: &mut StreamMultiIndex, ix: StreamIndex<Self>, len: u64) {
                sm.$add("k".into(), ix, len)
            }
            fn add_memory(mm: &mut MemoryMultiIndex, ix: MemoryIndex<Self>) {
                mm.$add("k".into(), ix)
            }
            fn natural(&self, o: &Self) -> Ordering {
                (*self as $wide).partial_cmp(&(*o as $wide)).unwrap()
            }
        }
    };
}
int_key!(i8, Int8, i128, add_i8_index);
int_key!(u8, UInt8, i128, add_u8_index);
int_key!(i16, Int16, i128, add_i16_index);
int_key!(u16, UInt16, i128, add_u16_index);
int_key!(i32, Int32, i128, add_i32_index);
int_key!(u32, UInt32, i128, add_u32_index);
int_key!(i64, Int64, i128, add_i64_index);
int_key!(u64, UInt64, i128, add_u64_index);

macro_rules! float_key {
    ($t:ident, $kt:ident, $add:ident) => {
        impl TK for Float<$t> {
            const NAME: &'static str = stringify!($t);
            fn gen(s: &mut Src, width: u64) -> Self {
                if s.chance(1, 12) {
                    return Float(*s.pick(&[0.0, -0.0, $t::MAX, $t::MIN, $t::INFINITY, $t::NEG_INFINITY, $t::MIN_POSITIVE, -$t::MIN_POSITIVE, $t::EPSILON]));
                }
                if width == 0 {
                    let v = $t::from_bits(s.raw() as _);
                    return Float(if v.is_nan() { 1.5 } else { v });
                }
                Float((s.below(width) as $t - (width / 2) as $t) * 0.37)
            }
            fn kt(&self) -> KeyType {
                KeyType::$kt(*self)
            }
            fn add_stream(sm: &mut StreamMultiIndex, ix: StreamIndex<Self>, len: u64) {
                sm.$add("k".into(), ix, len)
            }
            fn add_memory(mm: &mut MemoryMultiIndex, ix: MemoryIndex<Self>) {
                mm.$add("k".into(), ix)
            }
            fn natural(&self, o: &Self) -> Ordering {
                match (self.0.is_nan(), o.0.is_nan()) {
                    (false, false) => self.0.partial_cmp(&o.0).unwrap(),
                    (a, b) => a.cmp(&b),
                }
            }
        }
    };
}
float_key!(f32, Float32, add_f32_index);
float_key!(f64, Float64, add_f64_index);

impl TK for bool {
    const NAME: &'static str = "bool";
    fn gen(s: &mut Src, _: u64) -> Self {
        s.chance(1, 2)
    }
    fn kt(&self) -> KeyType {
        KeyType::Bool(*self)
    }
    fn add_stream(sm: &mut StreamMultiIndex, ix: StreamIndex<Self>, len: u64) {
        sm.add_bool_index("k".into(), ix, len)
    }
    fn add_memory(mm: &mut MemoryMultiIndex, ix: MemoryIndex<Self>) {
        mm.add_bool_index("k".into(), ix)
    }
    fn natural(&self, o: &Self) -> Ordering {
        (*self as u8).cmp(&(*o as u8))
    }
}

impl TK for DateTime<Utc> {
    const NAME: &'static str = "datetime";
    fn gen(s: &mut Src, width: u64) -> Self {
        let at = |secs: i64, ns: u32| Utc.timestamp_opt(secs, ns).single().unwrap();
        if s.chance(1, 12) {
            return *s.pick(&[
                at(0, 0),
                at(-1, 999_999_999),
                at(-1, 0),
                at(0, 1),
                at(253402300799, 999_999_999),
                at(253402300800, 0),
                at(-2208988800, 0),
                at(-62135596800, 0),
                DateTime::<Utc>::MIN_UTC,
                DateTime::<Utc>::MAX_UTC,
            ]);
        }
        if width == 0 {
            return at(s.i64_in(-62_135_596_800, 253_402_300_799), s.below(1_000_000_000) as u32);
        }
        let v = s.below(width) as i64 - (width / 2) as i64;
        at(v / 3 * 86400 * 365, (v % 3).unsigned_abs() as u32 * 300_000_000)
    }
    fn kt(&self) -> KeyType {
        KeyType::DateTime(*self)
    }
    fn add_stream(sm: &mut StreamMultiIndex, ix: StreamIndex<Self>, len: u64) {
        sm.add_datetime_index("k".into(), ix, len)
    }
    fn add_memory(mm: &mut MemoryMultiIndex, ix: MemoryIndex<Self>) {
        mm.add_datetime_index("k".into(), ix)
    }
    fn natural(&self, o: &Self) -> Ordering {
        (self.timestamp(), self.timestamp_subsec_nanos()).cmp(&(o.timestamp(), o.timestamp_subsec_nanos()))
    }
}

fn gen_string(s: &mut Src, width: u64, cap: usize) -> String {
    if s.chance(1, 12) {
        let n = *s.pick(&[cap - 1, cap, cap + 1, cap * 2][..]);
        let tail = s.below(3);
        let mut t = "x".repeat(n - 1);
        t.push(['x', 'y', 'é'][tail as usize]);
        return t;
    }
    if width == 0 {
        let n = s.usize_in(0, 12);
        return (0..n).map(|_| *s.pick(&['a', 'b', 'A', '0', ' ', '~', 'é', '漢', '\u{10FFFF}', '\0', '\u{7f}'])).collect();
    }
    let v = s.below(width);
    match v % 4 {
        0 => format!("{v}"),
        1 => format!("a{v:04}"),
        2 => "b".repeat(v as usize % (cap + 3)),
        _ => format!("é{v}"),
    }
}

macro_rules! string_key {
    ($n:literal, $kt:ident, $add:ident) => {
        impl TK for FixedStringKey<$n> {
            const NAME: &'static str = concat!("string", $n);
            fn gen(s: &mut Src, width: u64) -> Self {
                if s.chance(1, 40) {
                    // the raw extremes, which no string has
                    return if s.chance(1, 2) { Self::max_value() } else { Self::min_value() };
                }
                FixedStringKey::from_str(&gen_string(s, width, $n))
            }
            fn kt(&self) -> KeyType {
                KeyType::$kt(self.clone())
            }
            fn add_stream(sm: &mut StreamMultiIndex, ix: StreamIndex<Self>, len: u64) {
                sm.$add("k".into(), ix, len)
            }
            fn add_memory(mm: &mut MemoryMultiIndex, ix: MemoryIndex<Self>) {
                mm.$add("k".into(), ix)
            }
            fn natural(&self, o: &Self) -> Ordering {
                bytes_of(self).cmp(&bytes_of(o))
            }
        }
    };
}
string_key!(20, StringKey20, add_string_index20);
string_key!(50, StringKey50, add_string_index50);
string_key!(100, StringKey100, add_string_index100);

fn bytes_of<K: Key>(k: &K) -> Vec<u8> {
    let mut v = vec![];
    k.write_to(&mut v).unwrap();
    v
}

#[derive(Debug, Clone)]
enum Ask<K> {
    Exact(K),
    Range(Option<K>, Option<K>),
    Op(Operator, K),
}

const OPS: [Operator; 6] = [Operator::Eq, Operator::Ne, Operator::Gt, Operator::Lt, Operator::Ge, Operator::Le];

fn holds(op: Operator, o: Ordering) -> bool {
    match op {
        Operator::Eq => o.is_eq(),
        Operator::Ne => o.is_ne(),
        Operator::Gt => o.is_gt(),
        Operator::Lt => o.is_lt(),
        Operator::Ge => o.is_ge(),
        Operator::Le => o.is_le(),
    }
}

/// the answer of a sorted multimap, as a sorted list of offsets
fn model<K: TK>(entries: &[Entry<K>], a: &Ask<K>) -> Vec<u64> {
    let mut v: Vec<u64> = entries
        .iter()
        .filter(|e| match a {
            Ask::Exact(k) => e.key.natural(k).is_eq(),
            Ask::Range(lo, hi) => lo.as_ref().is_none_or(|l| e.key.natural(l).is_ge()) && hi.as_ref().is_none_or(|h| e.key.natural(h).is_le()),
            Ask::Op(op, k) => holds(*op, e.key.natural(k)),
        })
        .map(|e| e.offset)
        .collect();
    v.sort();
    v
}

struct Tree<K: Key> {
    entries: Vec<Entry<K>>,
    unique: usize,
    bf: u16,
}

fn gen_tree<K: TK>(c: &mut Case) -> Tree<K> {
    let s = &mut *c.s;
    let bf = match s.weighted(&[4, 3, 3, 3, 2, 2, 2, 1, 1, 1, 1]) {
        0 => 3,
        1 => 2,
        2 => 4,
        3 => 5,
        4 => 8,
        5 => 16,
        6 => s.usize_in(2, 20) as u16,
        7 => 64,
        8 => 256,
        9 => 300,
        _ => *s.pick(&[17, 255, 257, 1000, 65535]),
    };
    let avg = *s.pick(&[4usize, 20, 60, 250]);
    let avg = if s.chance(1, 60) { 3000 } else { avg };
    let width = *s.pick(&[0u64, 4, 12, 40, 200, 5000]);
    let step = 1 + s.below(4) * 900_000;
    let dup_offset = s.chance(1, 3);
    let mut seen: Vec<u64> = vec![];
    let mut entries: Vec<Entry<K>> = s.list(1, 20_000, avg, |s, i| {
        let key = K::gen(s, width);
        let offset = if dup_offset && i > 0 && s.chance(1, 4) { *s.pick(&seen) } else { i as u64 * step };
        seen.push(offset);
        Entry { key, offset }
    });
    let wide = s.chance(1, 700);
    if wide {
        // far more entries than the tape holds
        let (n, w) = (crate::wide::size(s), *s.pick(&[0u64, 0, 4, 5000]));
        let one = s.chance(1, 3).then(|| entries[0].key.clone());
        let mut more = Src::fresh(s.raw());
        for i in entries.len()..n {
            let key = one.clone().unwrap_or_else(|| K::gen(&mut more, w));
            entries.push(Entry { key, offset: i as u64 * step });
        }
        c.class_if(one.is_some() && n > 65_535, "more than 65535 entries of one key");
    }
    let mut keys: Vec<&K> = entries.iter().map(|e| &e.key).collect();
    keys.sort_by(|a, b| a.natural(b));
    keys.dedup_by(|a, b| a.natural(b).is_eq());
    let unique = keys.len();
    c.class_if(wide && unique > 30_000, "tens of thousands of distinct keys");
    c.class_if(wide && entries.len() > 30_000, "tens of thousands of entries");
    Tree { entries, unique, bf }
}

fn gen_ask<K: TK>(s: &mut Src, t: &Tree<K>) -> Ask<K> {
    let key = |s: &mut Src| match s.weighted(&[5, 3, 1]) {
        0 => t.entries[s.usize_in(0, t.entries.len() - 1)].key.clone(),
        1 => {
            let w = *s.pick(&[12u64, 0, 200]);
            K::gen(s, w)
        }
        _ => {
            if s.chance(1, 2) {
                K::max_value()
            } else {
                K::min_value()
            }
        }
    };
    match s.weighted(&[3, 4, 5]) {
        0 => Ask::Exact(key(s)),
        1 => {
            let (a, b) = (key(s), key(s));
            match s.below(4) {
                0 => Ask::Range(Some(a), None),
                1 => Ask::Range(None, Some(b)),
                _ => Ask::Range(Some(a), Some(b)),
            }
        }
        _ => Ask::Op(*s.pick(&OPS), key(s)),
    }
}

fn check_answer<K: TK>(t: &Tree<K>, who: &str, a: &Ask<K>, got: Vec<u64>) -> R {
    let mut got = got;
    got.sort();
    let mut want = model(&t.entries, a);
    if matches!(a, Ask::Op(..)) {
        got.dedup();
        want.dedup();
    }
    if got != want {
        let kind = match a {
            Ask::Exact(_) => "exact".into(),
            Ask::Range(..) => "range".into(),
            Ask::Op(o, _) => format!("{o:?}"),
        };
        return fail(format!("{who} {kind}"), format!("{} entries, {} keys, branching factor {}: {who} answers {:?} with {:?}, a sorted multimap with {:?}", t.entries.len(), t.unique, t.bf, a, got, want));
    }
    Ok(())
}

/// Known finding `memory_range_separator`: `MemoryIndex::find_range` leaves out an upper bound
/// that is the first key of a leaf node but the first (the repository's own tests assert it).
fn known_gap<K: TK>(t: &Tree<K>, a: &Ask<K>) -> Option<Vec<u64>> {
    let Ask::Range(lo, hi) = a else { return None };
    let hi = hi.clone().unwrap_or_else(K::max_value);
    if lo.as_ref().is_some_and(|l| l.natural(&hi).is_eq()) {
        return None;
    }
    let mut keys: Vec<&K> = t.entries.iter().map(|e| &e.key).collect();
    keys.sort_by(|a, b| a.natural(b));
    keys.dedup_by(|a, b| a.natural(b).is_eq());
    let rank = keys.iter().position(|k| k.natural(&hi).is_eq())?;
    if rank == 0 || rank % (t.bf as usize - 1) != 0 {
        return None;
    }
    let mut v: Vec<u64> = t
        .entries
        .iter()
        .filter(|e| lo.as_ref().is_none_or(|l| e.key.natural(l).is_ge()) && e.key.natural(&hi).is_lt())
        .map(|e| e.offset)
        .collect();
    v.sort();
    Some(v)
}

fn check_memory_range<K: TK>(t: &Tree<K>, who: &str, a: &Ask<K>, mut got: Vec<u64>) -> R {
    got.sort();
    if known_gap(t, a).is_some_and(|v| v == got) {
        return Ok(());
    }
    check_answer(t, who, a, got)
}

fn probe_memory_range() -> R {
    let t = Tree { entries: (0..4).map(|i| Entry { key: i, offset: i as u64 }).collect::<Vec<_>>(), unique: 4, bf: 3 };
    let mem = MemoryIndex::<i32>::build(&t.entries, t.bf).or_fail("build fails")?;
    check_answer(&t, "memory", &Ask::Range(None, Some(2)), mem.find_range(None, Some(2)).or_fail("query fails")?)
}

fn c10(c: &mut Case) -> R {
    match c.s.below(15) {
        0 => tree::<i32>(c),
        1 => tree::<i64>(c),
        2 => tree::<u8>(c),
        3 => tree::<i8>(c),
        4 => tree::<u16>(c),
        5 => tree::<i16>(c),
        6 => tree::<u32>(c),
        7 => tree::<u64>(c),
        8 => tree::<Float<f32>>(c),
        9 => tree::<Float<f64>>(c),
        10 => tree::<bool>(c),
        11 => tree::<DateTime<Utc>>(c),
        12 => tree::<FixedStringKey<20>>(c),
        13 => tree::<FixedStringKey<50>>(c),
        _ => tree::<FixedStringKey<100>>(c),
    }
}

fn add_z(hm: &mut HttpMultiIndex<Server>, ix: HttpIndex<i32>) {
    hm.add_index("z".into(), ix);
}

fn tree<K: TK>(c: &mut Case) -> R
where
    MemoryIndex<K>: TypedSearchIndex,
    StreamIndex<K>: TypedStreamSearchIndex,
    HttpIndex<K>: TypedHttpSearchIndex<Server>,
{
    let t = gen_tree::<K>(c);
    let asks = c.s.list(1, 12, 4, |s, _| gen_ask(s, &t));
    let (pre, post) = (c.s.usize_in(0, 40), *c.s.pick(&[1usize, 7, 500, 40_000]));
    let chunks = c.s.list(1, 3, 2, |s, _| *s.pick(&[1usize, 3, 7, 64, 100_000]));
    let threshold = *c.s.pick(&[0usize, 100, 256 * 1024]);
    let multi = c.s.list(0, 3, 1, |s, _| (gen_ask(s, &t), s.chance(1, 6)));
    let second = c.s.list(1, 20, 6, |s, _| s.below(6) as i32);
    c.class(format!("key {}", K::NAME));
    c.class(match t.bf {
        2 => "branching factor 2",
        3..=8 => "branching factor 3 to 8",
        9..=64 => "branching factor 9 to 64",
        _ => "branching factor above 64",
    });
    let deep = t.unique > t.bf as usize - 1;
    c.class_if(deep, "several leaf nodes");
    c.class_if(t.unique > (t.bf as usize).pow(2), "at least three levels");
    c.class_if(t.unique < t.entries.len(), "duplicate keys");
    c.class_if(t.entries.iter().any(|e| e.key == K::max_value()), "largest key present");
    c.note(|| format!("{} bf {} entries {:?}\nasks {:?}", K::NAME, t.bf, t.entries.iter().map(|e| (&e.key, e.offset)).collect::<Vec<_>>(), asks));
    if deep || t.unique < t.entries.len() {
        c.nontrivial(format!("{}{}{:?}", K::NAME, t.bf, t.entries).as_bytes());
    }

    // one entry, and one block of offsets, through their bytes
    let mut block = PayloadEntry::new();
    for e in t.entries.iter().take(9) {
        let mut b = vec![];
        let n = e.write_to(&mut b).or_fail("an entry cannot be written")?;
        ensure!(n == b.len() && n == Entry::<K>::SERIALIZED_SIZE && Entry::<K>::key_size() + 8 == n, "entry size", "{n} bytes reported, {} written, {} announced", b.len(), Entry::<K>::SERIALIZED_SIZE);
        let (r, f) = (Entry::<K>::from_reader(&mut &b[..]).or_fail("an entry cannot be read")?, Entry::<K>::from_bytes(&b).or_fail("an entry cannot be read")?);
        ensure!(r.offset == e.offset && f.offset == e.offset && r.key == f.key, "entry round trip", "{:?} comes back as {:?} and {:?}", (&e.key, e.offset), (&r.key, r.offset), (&f.key, f.offset));
        ensure!(r.key.cmp(&e.key).is_eq() && r.cmp(e).is_eq(), "entry round trip", "{:?} comes back as {:?}", e.key, r.key);
        block.add_offset(e.offset);
    }
    let b = block.serialize();
    ensure!(b.len() == block.serialized_size(), "payload size", "{} bytes written, {} announced", b.len(), block.serialized_size());
    let (r, _) = PayloadEntry::deserialize(&mut Cursor::new(&b)).or_fail("offsets cannot be read")?;
    ensure!(r.count == block.count && r.offsets == block.offsets, "payload round trip", "{:?} comes back as {:?}", block.offsets, r.offsets);

    let mem = MemoryIndex::<K>::build(&t.entries, t.bf).or_fail("build fails")?;
    ensure!(mem.num_items() == t.unique, "num_items", "{} different keys, num_items() says {}", t.unique, mem.num_items());
    let mut bytes = vec![];
    let n = mem.serialize(&mut bytes).or_fail("serialize fails")?;
    ensure!(n == bytes.len(), "serialized length", "serialize reports {n} bytes and writes {}", bytes.len());
    ensure!(mem.branching_factor() == t.bf, "branching_factor", "{} instead of {}", mem.branching_factor(), t.bf);
    let size = Stree::<K>::index_size(t.unique, t.bf, mem.payload_size());
    ensure!(size == n, "index size", "{} keys, branching factor {}, payload {}: {size} bytes predicted, {n} written", t.unique, t.bf, mem.payload_size());
    let back = MemoryIndex::<K>::from_buf(Chunked { data: &bytes, pos: 0, sizes: chunks.clone(), i: 0 }, t.unique, t.bf).or_fail("from_buf fails")?;

    let mut file = vec![0xEEu8; pre];
    file.extend(&bytes);
    let feature_begin = file.len();
    file.extend(std::iter::repeat_n(0xAB, post));
    let server = Server::new(file.clone());
    let stream = StreamIndex::<K>::new(t.unique, t.bf, pre as u64, bytes.len() as u64);
    let http = HttpIndex::<K>::new(t.unique, t.bf, pre, feature_begin, threshold);
    let mut client = server.client();
    let mut rd = Chunked { data: &file, pos: 0, sizes: chunks.clone(), i: 0 };

    // the whole tree loaded over HTTP
    let loaded = block_on(Stree::<K>::from_http(&mut server.client(), pre, t.unique, t.bf)).or_fail("from_http fails")?;
    let mut again = vec![];
    loaded.stream_write(&mut again).or_fail("stream_write fails")?;
    ensure!(again == bytes, "from_http", "the tree read over HTTP writes {} bytes instead of {}, the first difference is at {:?}", again.len(), bytes.len(), again.iter().zip(&bytes).position(|(a, b)| a != b));

    // a second index over the same offsets, to combine with
    let second: Vec<Entry<i32>> = t.entries.iter().enumerate().map(|(i, e)| Entry { key: second[i % second.len()], offset: e.offset }).collect();
    let mem2 = MemoryIndex::<i32>::build(&second, 4).or_fail("build fails")?;
    let mut bytes2 = vec![];
    mem2.serialize(&mut bytes2).or_fail("serialize fails")?;

    let mut mm = MemoryMultiIndex::new();
    K::add_memory(&mut mm, MemoryIndex::<K>::build(&t.entries, t.bf).or_fail("build fails")?);
    let mut mb = MemoryMultiIndex::new();
    mb.add_index("k".into(), MemoryIndex::<K>::new(Cursor::new(&bytes), t.unique, t.bf).or_fail("new fails")?);
    let n2 = mem2.num_items();
    mm.add_i32_index("z".into(), mem2);
    let mut sm = StreamMultiIndex::new();
    K::add_stream(&mut sm, StreamIndex::<K>::new(t.unique, t.bf, 0, bytes.len() as u64), bytes.len() as u64);
    sm.add_i32_index("z".into(), StreamIndex::new(n2, 4, bytes.len() as u64, bytes2.len() as u64), bytes2.len() as u64);
    let mut file2 = vec![0xEEu8; pre];
    file2.extend(&bytes);
    file2.extend(&bytes2);
    let fb2 = file2.len();
    file2.extend(std::iter::repeat_n(0xAB, post));
    let server2 = Server::new(file2.clone());
    let mut client2 = server2.client();
    let mut hm = HttpMultiIndex::<Server>::new();
    hm.add_index("k".into(), HttpIndex::<K>::new(t.unique, t.bf, pre, fb2, threshold));
    add_z(&mut hm, HttpIndex::<i32>::new(n2, 4, pre + bytes.len(), fb2, threshold));
    let mut rd2 = Chunked { data: &file2, pos: 0, sizes: chunks.clone(), i: 0 };

    let http_offsets = |who: &str, v: Vec<usize>, begin: usize| -> Result<Vec<u64>, crate::engine::Failure> {
        v.into_iter()
            .map(|s| match s.checked_sub(begin) {
                Some(x) => Ok(x as u64),
                None => fail(format!("{who} before the features"), format!("{who}: a result starts at byte {s}, the features at {begin}")),
            })
            .collect()
    };

    for a in &asks {
        match a {
            Ask::Exact(k) => {
                check_answer(&t, "memory", a, mem.find_exact(k.clone()).or_fail("memory query fails")?)?;
                check_answer(&t, "read back", a, back.find_exact(k.clone()).or_fail("read back query fails")?)?;
                check_answer(&t, "loaded", a, loaded.find_exact(k.clone()).or_fail("loaded query fails")?.iter().map(|x| x.offset as u64).collect())?;
                rd.seek(SeekFrom::Start(pre as u64)).unwrap();
                check_answer(&t, "stream", a, stream.find_exact_with_reader(&mut rd, k.clone()).or_fail("stream query fails")?)?;
                let v = block_on(http.find_exact(&mut client, k.clone())).or_fail("http query fails")?;
                check_answer(&t, "http", a, http_offsets("http", v.iter().map(|x| x.range.start()).collect(), feature_begin)?)?;
            }
            Ask::Range(lo, hi) => {
                check_memory_range(&t, "memory", a, mem.find_range(lo.clone(), hi.clone()).or_fail("memory query fails")?)?;
                check_memory_range(&t, "read back", a, back.find_range(lo.clone(), hi.clone()).or_fail("read back query fails")?)?;
                rd.seek(SeekFrom::Start(pre as u64)).unwrap();
                check_answer(&t, "stream", a, stream.find_range_with_reader(&mut rd, lo.clone(), hi.clone()).or_fail("stream query fails")?)?;
                ensure!(rd.stream_position().unwrap() == pre as u64, "reader position", "a stream range query leaves the reader at {} instead of {pre}", rd.stream_position().unwrap());
                let v = block_on(http.find_range(&mut client, lo.clone(), hi.clone())).or_fail("http query fails")?;
                check_answer(&t, "http", a, http_offsets("http", v.iter().map(|x| x.range.start()).collect(), feature_begin)?)?;
            }
            Ask::Op(op, k) => {
                let q = Query::with_condition("k".into(), *op, k.kt()).conditions;
                check_answer(&t, "memory", a, mm.query(&q).or_fail("memory query fails")?)?;
                check_answer(&t, "read back", a, mb.query(&q).or_fail("read back query fails")?)?;
                rd2.seek(SeekFrom::Start(pre as u64)).unwrap();
                check_answer(&t, "stream", a, sm.query(&mut rd2, &q).or_fail("stream query fails")?)?;
                ensure!(rd2.stream_position().unwrap() == pre as u64, "reader position", "a stream query with {a:?} leaves the reader at {} instead of {pre}", rd2.stream_position().unwrap());
                let v = block_on(hm.query(&mut client2, &q)).or_fail("http query fails")?;
                check_answer(&t, "http", a, http_offsets("http", v.iter().map(|x| x.range.start()).collect(), fb2)?)?;
            }
        }
    }
    // several conditions: the offsets that satisfy all of them
    if !multi.is_empty() {
        let mut q = Query::new();
        let mut want: Option<Vec<u64>> = None;
        let mut and = |v: Vec<u64>| {
            want = Some(match want.take() {
                None => v,
                Some(w) => w.into_iter().filter(|x| v.contains(x)).collect(),
            });
        };
        for (i, (a, wrong)) in multi.iter().enumerate() {
            let Ask::Op(op, k) = a else { continue };
            q.add_condition("k".into(), *op, k.kt());
            and(model(&t.entries, a));
            let (op2, k2) = (OPS[(i + t.unique) % 6], (i as i32 * 7 + t.bf as i32) % 6);
            q.conditions.push(QueryCondition { field: "z".into(), operator: op2, key: KeyType::Int32(k2) });
            let mut v: Vec<u64> = second.iter().filter(|e| holds(op2, e.key.cmp(&k2))).map(|e| e.offset).collect();
            v.sort();
            and(v);
            let _ = wrong;
        }
        if !q.conditions.is_empty() {
            if t.unique % 2 == 0 {
                q.conditions.reverse();
            }
            let mut want = want.unwrap();
            want.dedup();
            let norm = |mut v: Vec<u64>| {
                v.sort();
                v.dedup();
                v
            };
            let got = norm(mm.query(&q.conditions).or_fail("memory query fails")?);
            ensure!(got == want, "memory and", "memory answers {q:?} with {got:?} instead of {want:?}");
            rd2.seek(SeekFrom::Start(pre as u64)).unwrap();
            let got = norm(sm.query(&mut rd2, &q.conditions).or_fail("stream query fails")?);
            ensure!(got == want, "stream and", "stream answers {q:?} with {got:?} instead of {want:?}");
            ensure!(rd2.stream_position().unwrap() == pre as u64, "reader position", "a stream query leaves the reader at {} instead of {pre}", rd2.stream_position().unwrap());
            let v = block_on(hm.query(&mut client2, &q.conditions)).or_fail("http query fails")?;
            let got = norm(http_offsets("http", v.iter().map(|x| x.range.start()).collect(), fb2)?);
            ensure!(got == want, "http and", "http answers {q:?} with {got:?} instead of {want:?}");
            c.class("several conditions");
        }
    }
    // questions that cannot be answered are errors
    let none: [QueryCondition; 0] = [];
    let unknown = [QueryCondition { field: "nope".into(), operator: Operator::Eq, key: t.entries[0].key.kt() }];
    let wrong = [QueryCondition { field: "k".into(), operator: Operator::Ge, key: if K::NAME == "bool" { KeyType::Int32(1) } else { KeyType::Bool(true) } }];
    for (what, q) in [("an empty query", &none[..]), ("an unknown field", &unknown[..]), ("a key of another type", &wrong[..])] {
        rd2.seek(SeekFrom::Start(pre as u64)).unwrap();
        for (who, ok) in [("memory", mm.query(q).is_ok()), ("stream", sm.query(&mut rd2, q).is_ok()), ("http", block_on(hm.query(&mut client2, q)).is_ok())] {
            ensure!(!ok, format!("{who} accepts {what}"), "{who} answers {what} instead of refusing it");
        }
    }
    rd.seek(SeekFrom::Start(pre as u64)).unwrap();
    ensure!(mem.find_range(None, None).is_err() && stream.find_range_with_reader(&mut rd, None, None).is_err() && block_on(http.find_range(&mut client, None, None)).is_err(), "unbounded range", "a range without bounds is not refused");
    Ok(())
}

fn c12(c: &mut Case) -> R {
    match c.s.below(15) {
        0 => key::<i32>(c),
        1 => key::<i64>(c),
        2 => key::<u8>(c),
        3 => key::<i8>(c),
        4 => key::<u16>(c),
        5 => key::<i16>(c),
        6 => key::<u32>(c),
        7 => key::<u64>(c),
        8 => key::<Float<f32>>(c),
        9 => key::<Float<f64>>(c),
        10 => key::<bool>(c),
        11 => key::<DateTime<Utc>>(c),
        12 => key::<FixedStringKey<20>>(c),
        13 => key::<FixedStringKey<50>>(c),
        _ => key::<FixedStringKey<100>>(c),
    }
}

/// a writer that takes `left` bytes and then fails
struct Full {
    left: usize,
}
impl std::io::Write for Full {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 {
            return Err(std::io::Error::other("disk full"));
        }
        let n = buf.len().min(self.left);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn same_bits<K: TK>(a: &K, b: &K) -> bool {
    bytes_of(a) == bytes_of(b)
}

fn key<K: TK>(c: &mut Case) -> R {
    let w = *c.s.pick(&[0u64, 12, 1000]);
    let mut ks: Vec<K> = (0..3).map(|_| K::gen(c.s, w)).collect();
    if K::NAME.starts_with('f') && c.s.chance(1, 10) {
        // not-a-number is a legal float key; it sorts after everything
        let mut nan = if K::SERIALIZED_SIZE == 4 { f32::NAN.to_le_bytes().to_vec() } else { f64::NAN.to_le_bytes().to_vec() };
        if c.s.chance(1, 2) {
            *nan.last_mut().unwrap() |= 0x80;
        }
        ks[0] = K::from_bytes(&nan).or_fail("from_bytes fails")?;
        c.class("NaN");
    }
    let offset = c.s.raw();
    let junk = c.s.usize_in(0, 5);
    c.class(format!("key {}", K::NAME));
    c.note(|| format!("{} {:?} offset {offset}", K::NAME, ks));
    if ks[0].natural(&ks[1]).is_ne() {
        c.nontrivial(format!("{}{:?}", K::NAME, ks).as_bytes());
    }
    for k in &ks {
        let mut b = vec![];
        let n = k.write_to(&mut b).or_fail("write_to fails")?;
        ensure!(n == b.len() && n == K::SERIALIZED_SIZE, "key size", "{k:?}: {} bytes written, {n} reported, {} declared", b.len(), K::SERIALIZED_SIZE);
        b.extend(vec![0x5A; junk]);
        let mut rd = Chunked { data: &b, pos: 0, sizes: vec![1, 3], i: 0 };
        let a = K::read_from(&mut rd).or_fail("read_from fails")?;
        ensure!(rd.pos == K::SERIALIZED_SIZE, "bytes read", "{k:?}: reading takes {} of {} bytes", rd.pos, K::SERIALIZED_SIZE);
        ensure!(same_bits(&a, k) && a.natural(k).is_eq() && a == *k, "read_from", "{k:?} is read back as {a:?}");
        let a = K::from_bytes(&b).or_fail("from_bytes fails")?;
        ensure!(same_bits(&a, k) && a.natural(k).is_eq() && a == *k, "from_bytes", "{k:?} is decoded as {a:?}");
        // short input is an error
        let cut = c.s.usize_in(0, K::SERIALIZED_SIZE - 1);
        ensure!(K::read_from(&mut &b[..cut]).is_err(), "short key accepted", "{} bytes of a {}-byte key are read as a key", cut, K::SERIALIZED_SIZE);
        // a writer that cannot take the key is an error
        ensure!(k.write_to(&mut Full { left: cut }).is_err(), "failed write not reported", "{}: writing a key to a full disk reports success", K::NAME);
        // the entry
        let e = Entry { key: k.clone(), offset };
        let mut eb = vec![];
        let n = e.write_to(&mut eb).or_fail("entry write fails")?;
        ensure!(n == eb.len() && n == Entry::<K>::SERIALIZED_SIZE && n == K::SERIALIZED_SIZE + 8, "entry size", "{e:?}: {} bytes written, {n} reported", eb.len());
        for got in [Entry::<K>::from_bytes(&eb).or_fail("entry from_bytes fails")?, Entry::<K>::from_reader(&mut &eb[..]).or_fail("entry read fails")?] {
            ensure!(same_bits(&got.key, k) && got.offset == offset, "entry", "{e:?} is read back as {got:?}");
        }
    }
    // order
    for a in &ks {
        for b in &ks {
            let want = a.natural(b);
            ensure!(a.cmp(b) == want, "order", "{a:?} against {b:?}: {:?}, the values compare {want:?}", a.cmp(b));
            ensure!(a.partial_cmp(b) == Some(want), "partial order", "{a:?} against {b:?}: {:?}, the values compare {want:?}", a.partial_cmp(b));
            ensure!((a == b) == want.is_eq(), "equality", "{a:?} == {b:?} is {}, the values compare {want:?}", a == b);
        }
        let nan = a.natural(&K::max_value()).is_gt() && K::NAME.starts_with('f');
        ensure!(nan || a.natural(&K::max_value()).is_le(), "maximum", "{a:?} is greater than the declared maximum {:?}", K::max_value());
        ensure!(a.natural(&K::min_value()).is_ge(), "minimum", "{a:?} is less than the declared minimum {:?}", K::min_value());
    }
    // strings keep their first bytes
    if K::NAME.starts_with("string") {
        let t = gen_string(c.s, w, K::SERIALIZED_SIZE);
        match K::SERIALIZED_SIZE {
            20 => text::<20>(&t)?,
            50 => text::<50>(&t)?,
            _ => text::<100>(&t)?,
        }
    }
    Ok(())
}

fn text<const N: usize>(t: &str) -> R {
    let k = FixedStringKey::<N>::from_str(t);
    let mut want = t.as_bytes().to_vec();
    want.truncate(N);
    want.resize(N, 0);
    ensure!(bytes_of(&k) == want, "string key bytes", "{t:?} becomes {:?}", bytes_of(&k));
    if t.len() <= N && !t.contains('\0') {
        ensure!(k.to_string_lossy() == t, "string key text", "{t:?} comes back as {:?}", k.to_string_lossy());
    }
    Ok(())
}
