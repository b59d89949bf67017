//! C16: truncated and corrupted files through every reader.
use crate::engine::{fail, guarded, Case, Failure, Prop, R};
use crate::ensure;
use crate::fcb::{self, Chunked, Or};
use crate::gen::{self, Prof};
use crate::http::{block_on, Server};
use crate::mem;
use crate::props::layout::{feature_ranges, layout, levels, Layout};
use crate::scene::{scene, Plan, Scene};
use crate::tape::Src;
use fcb_core::deserializer::to_cj_metadata;
use fcb_core::error::Error;
use fcb_core::packed_rtree::Query;
use fcb_core::static_btree::{Float, KeyType, Operator};
use fcb_core::{AttrQuery, FcbReader, HttpFcbReader};
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C16",
        level: "exploration",
        rule: "a damaged file that still opens (truncated behind the header, or corrupted), read through at least one selection",
        assumptions: &["verification of FlatBuffers is on (FcbReader::open)", "a reader is not used any further after an error"],
        quick: 60_000,
        thorough: 2_000_000,
        run: c16,
        probes: &[],
    }]
}

/// what a reader is asked for
#[derive(Clone, Debug)]
enum Ask {
    All,
    Spatial(Query),
    Attr(AttrQuery),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Seek,
    Seq,
    Http,
}

#[derive(Clone, PartialEq, Debug)]
struct Answer {
    announced: Option<usize>,
    feats: Vec<String>,
}

/// reads everything the selection yields; Err is the error the library reported
fn answer(bytes: &[u8], ask: &Ask, how: How) -> Result<Result<Answer, String>, Failure> {
    let limit = bytes.len() + 8;
    guarded(|| {
        let mut out = Answer { announced: None, feats: vec![] };
        macro_rules! pull {
            ($it:expr) => {{
                out.announced = $it.features_count();
                loop {
                    match $it.next() {
                        Ok(Some(f)) => match f.cur_cj_feature() {
                            Ok(f) => out.feats.push(crate::norm::canon(&crate::norm::feature(&f))),
                            Err(e) => return Ok(Err(e.to_string())),
                        },
                        Ok(None) => return Ok(Ok(out)),
                        Err(e) => {
                            // going on must not crash either
                            for _ in 0..2 {
                                let _ = $it.next().map(|f| f.is_some());
                            }
                            return Ok(Err(e.to_string()));
                        }
                    }
                    ensure!(out.feats.len() <= limit, "endless selection", "{ask:?} {how:?} yields more features than the file has bytes");
                }
            }};
        }
        macro_rules! ok {
            ($e:expr) => {
                match $e {
                    Ok(x) => x,
                    Err(e) => return Ok(Err(Error::from(e).to_string())),
                }
            };
        }
        match how {
            How::Seek => {
                let rd = ok!(FcbReader::open(Cursor::new(bytes)));
                ok!(to_cj_metadata(&rd.header()));
                let mut it = match ask {
                    Ask::All => ok!(rd.select_all()),
                    Ask::Spatial(q) => ok!(rd.select_query(*q)),
                    Ask::Attr(q) => ok!(rd.select_attr_query(q.clone())),
                };
                pull!(it)
            }
            How::Seq => {
                let rd = ok!(FcbReader::open(Chunked { data: bytes, pos: 0, sizes: vec![7, 4096, 1, 100], i: 0 }));
                ok!(to_cj_metadata(&rd.header()));
                let mut it = match ask {
                    Ask::All => ok!(rd.select_all_seq()),
                    Ask::Spatial(q) => ok!(rd.select_query_seq(*q)),
                    Ask::Attr(q) => ok!(rd.select_attr_query_seq(q.clone())),
                };
                pull!(it)
            }
            How::Http => block_on(async {
                let server = Server::new(bytes.to_vec());
                let rd = ok!(HttpFcbReader::new(server.client()).await);
                ok!(to_cj_metadata(&rd.header()));
                let mut it = match ask {
                    Ask::All => ok!(rd.select_all().await),
                    Ask::Spatial(q) => ok!(rd.select_query(*q).await),
                    Ask::Attr(q) => ok!(rd.select_attr_query(q).await),
                };
                out.announced = it.features_count();
                loop {
                    match it.next().await {
                        Ok(Some(_)) => match it.cur_cj_feature() {
                            Ok(f) => out.feats.push(crate::norm::canon(&crate::norm::feature(&f))),
                            Err(e) => return Ok(Err(e.to_string())),
                        },
                        Ok(None) => return Ok(Ok(out)),
                        Err(e) => {
                            for _ in 0..2 {
                                let _ = it.next().await.map(|f| f.is_some());
                            }
                            return Ok(Err(e.to_string()));
                        }
                    }
                    ensure!(out.feats.len() <= limit, "endless selection", "{ask:?} {how:?} yields more features than the file has bytes");
                }
            }),
        }
    })
}

/// the positions of the numbers that steer reading
struct Spot {
    what: &'static str,
    at: usize,
    size: usize,
}

fn spots(bytes: &[u8], l: &Layout) -> Vec<Spot> {
    let mut v = vec![Spot { what: "header size", at: 8, size: 4 }];
    if let Ok(h) = fcb_core::size_prefixed_root_as_header(&bytes[8..l.header.end]) {
        use fcb_core::Header;
        let vt = h._tab.vtable();
        for (what, field, size) in [
            ("features_count", Header::VT_FEATURES_COUNT, 8),
            ("index_node_size", Header::VT_INDEX_NODE_SIZE, 2),
        ] {
            let off = vt.get(field) as usize;
            if off != 0 {
                v.push(Spot { what, at: 8 + h._tab.loc() + off, size });
            }
        }
        for a in h.attribute_index().iter().flatten() {
            let at = a.0.as_ptr() as usize - bytes.as_ptr() as usize;
            for (what, o, size) in [("indexed column", 0, 2), ("index length", 4, 4), ("branching factor", 8, 2), ("unique items", 12, 4)] {
                v.push(Spot { what, at: at + o, size });
            }
        }
        for c in h.columns().iter().flatten() {
            for (what, field, size) in [("column index", fcb_core::Column::VT_INDEX, 2), ("column type", fcb_core::Column::VT_TYPE_, 1)] {
                let off = c._tab.vtable().get(field) as usize;
                if off != 0 {
                    v.push(Spot { what, at: 8 + c._tab.loc() + off, size });
                }
            }
        }
    }
    v
}

const ODD: [u64; 14] = [0, 1, 2, 3, 0x7f, 0xff, 0x7fff, 0xffff, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, u64::MAX];

fn put(bytes: &mut [u8], at: usize, size: usize, v: u64) {
    let raw = v.to_le_bytes();
    for i in 0..size {
        if let Some(b) = bytes.get_mut(at + i) {
            *b = raw[i];
        }
    }
}

fn odd(s: &mut Src, old: u64, len: usize) -> u64 {
    match s.weighted(&[3, 2, 2, 1, 1]) {
        0 => *s.pick(&ODD),
        1 => old.wrapping_add(s.i64_in(-3, 3) as u64),
        2 => s.below(len as u64 + 2),
        3 => old ^ (1 << s.below(64)),
        _ => s.raw(),
    }
}

fn get(bytes: &[u8], at: usize, size: usize) -> u64 {
    let mut raw = [0u8; 8];
    for i in 0..size {
        raw[i] = *bytes.get(at + i).unwrap_or(&0);
    }
    u64::from_le_bytes(raw)
}

/// damages the file at one place
fn hurt(s: &mut Src, bytes: &mut Vec<u8>, l: &Layout, feats: &[std::ops::Range<usize>]) -> String {
    let len = bytes.len();
    let place = |s: &mut Src, r: std::ops::Range<usize>| r.start + s.below((r.end - r.start).max(1) as u64) as usize;
    match s.weighted(&[4, 3, 5, 2, 6, 2, 1, 1]) {
        0 => {
            let sp = spots(bytes, l);
            let p = &sp[s.below(sp.len() as u64) as usize];
            let v = odd(s, get(bytes, p.at, p.size), len);
            put(bytes, p.at, p.size, v);
            format!("{} at {} = {v:#x}", p.what, p.at)
        }
        1 if !l.rtree.is_empty() => {
            let node = s.below((l.rtree.len() / 40) as u64) as usize;
            let field = s.below(5) as usize;
            let at = l.rtree.start + node * 40 + field * 8;
            let v = odd(s, get(bytes, at, 8), len);
            put(bytes, at, 8, v);
            format!("rtree node {node} field {field} = {v:#x}")
        }
        2 if !l.indices.is_empty() => {
            let i = &l.indices[s.below(l.indices.len() as u64) as usize];
            if i.length == 0 {
                return "nothing".into();
            }
            // the end of an entry, where offsets are; or anywhere
            let at = if s.chance(1, 2) { i.start + i.length - (8 * (1 + s.below(1 + i.length as u64 / 8) as usize)).min(i.length) } else { place(s, i.start..i.start + i.length) };
            let size = *s.pick(&[1usize, 4, 8]);
            let v = odd(s, get(bytes, at, size), len);
            put(bytes, at, size, v);
            format!("index of column {} byte {} ({size} bytes) = {v:#x}", i.column, at - i.start)
        }
        3 if !feats.is_empty() => {
            let f = &feats[s.below(feats.len() as u64) as usize];
            let v = odd(s, get(bytes, f.start, 4), len);
            put(bytes, f.start, 4, v);
            format!("feature size at {} = {v:#x}", f.start)
        }
        4 if !feats.is_empty() => {
            let f = feats[s.below(feats.len() as u64) as usize].clone();
            let size = *s.pick(&[1usize, 2, 4, 4, 4, 8]);
            let mut at = place(s, f.start + 4..f.end);
            at -= (at - f.start) % size;
            let v = match s.below(3) {
                0 => s.below(8),
                _ => odd(s, get(bytes, at, size), f.len()),
            };
            put(bytes, at, size, v);
            format!("feature byte {} ({size} bytes) = {v:#x}", at - f.start)
        }
        5 => {
            let size = *s.pick(&[1usize, 2, 4, 8]);
            let at = place(s, l.header.clone());
            let v = odd(s, get(bytes, at, size), l.header.len());
            put(bytes, at, size, v);
            format!("header byte {} ({size} bytes) = {v:#x}", at - 8)
        }
        6 => {
            let at = place(s, 12..len);
            let n = s.usize_in(1, 64).min(len - at);
            bytes.drain(at..at + n);
            format!("{n} bytes removed at {at}")
        }
        _ => {
            let at = place(s, 0..len);
            let n = s.usize_in(1, 40);
            let ins: Vec<u8> = (0..n).map(|_| s.raw() as u8).collect();
            bytes.splice(at..at, ins);
            format!("{n} bytes inserted at {at}")
        }
    }
}

fn asks(s: &mut Src, sc: &Option<Scene>, bytes: &[u8]) -> Vec<Ask> {
    let mut v = vec![Ask::All];
    let rect = |s: &mut Src| Query::BBox(-1e9, -1e9, 1e9 * s.below(2) as f64, 1e9);
    match sc {
        Some(sc) => {
            v.push(Ask::Spatial(if s.chance(1, 3) { rect(s) } else { sc.spatial_query(s) }));
            let conds = sc.conds(s, 2);
            if !conds.is_empty() {
                v.push(Ask::Attr(sc.attr_query(&conds)));
            }
        }
        None => {
            v.push(Ask::Spatial(rect(s)));
            // any indexed column of the file
            if let Ok(l) = layout(bytes) {
                if let Some(i) = l.indices.first() {
                    if let Some((_, name, _)) = l.columns.iter().find(|c| c.0 == i.column) {
                        v.push(Ask::Attr(vec![(name.clone(), Operator::Ge, KeyType::Float64(Float(0.0)))]));
                    }
                }
            }
        }
    }
    v
}

fn c16(c: &mut Case) -> R {
    if c.index % 50 == 49 {
        return noise(c);
    }
    if c.index % 5 == 3 {
        return forged(c);
    }
    let mut sc = None;
    let bytes = if c.index % 2 == 0 {
        let d = gen::dataset(c.s, &Prof::full());
        if let Some(w) = &d.wide {
            c.class(format!("many {w}"));
        }
        c.note(|| d.jsonl());
        let (cj, feats) = (d.cj(), d.feats());
        let opts = crate::props::roundtrip::rand_opts(c.s);
        let Ok(b) = fcb::write(&cj, &feats, fcb::infer_schema(&feats), fcb::infer_sem_schema(&cj, &feats), &opts) else { return Ok(()) };
        b
    } else {
        let avg = *c.s.pick(&[2, 6, 20]);
        let s = scene(c.s, &Plan { avg, max: 60, attrs: c.index % 4 != 1, bare: c.index % 6 == 1, spatial: None, wide: 0 });
        c.class_if(s.feats.len() > 10_000, "tens of thousands of features");
        c.note(|| s.describe());
        let b = s.write().or_fail("writing fails")?;
        sc = Some(s);
        b
    };
    let l = layout(&bytes).or_fail("layout")?;
    let feats = feature_ranges(&bytes, &l).or_fail("layout")?;
    let asks = asks(c.s, &sc, &bytes);
    for how in [How::Seek, How::Seq, How::Http] {
        if answer(&bytes, &Ask::All, how)?.is_err() {
            return fail("undamaged file", format!("{how:?} fails on the undamaged file"));
        }
    }
    let base = bytes.len();
    if c.s.chance(1, 3) {
        truncated(c, &bytes, &l, &feats, &asks)
    } else {
        for _ in 0..4 {
            let mut b = bytes.clone();
            let mut what = vec![];
            for _ in 0..c.s.weighted(&[0, 6, 2, 1]) {
                let Ok(l2) = layout(&b) else { break };
                let f2 = feature_ranges(&b, &l2).unwrap_or_default();
                what.push(hurt(c.s, &mut b, &l2, &f2));
                if b.len() < 16 {
                    break;
                }
            }
            let _ = base;
            corrupted(c, &b, &asks, &what.join(", "))?;
        }
        Ok(())
    }
}

fn truncated(c: &mut Case, bytes: &[u8], l: &Layout, feats: &[std::ops::Range<usize>], asks: &[Ask]) -> R {
    let mut full = vec![];
    for how in [How::Seek, How::Seq, How::Http] {
        for a in asks {
            full.push(answer(bytes, a, how)?);
        }
    }
    for _ in 0..6 {
        // cut positions next to the borders of the parts, or anywhere
        let mut borders = vec![0, 8, 12, l.header.end, l.rtree.end, l.features, bytes.len()];
        borders.extend(l.indices.iter().map(|i| i.start));
        if !feats.is_empty() {
            for _ in 0..4 {
                let f = &feats[c.s.below(feats.len() as u64) as usize];
                borders.push(f.start);
                borders.push(f.start + 4);
            }
        }
        let cut = if c.s.chance(1, 2) { (*c.s.pick(&borders) as i64 + c.s.i64_in(-3, 3)).clamp(0, bytes.len() as i64 - 1) as usize } else { c.s.below(bytes.len() as u64) as usize };
        let part = &bytes[..cut];
        c.class(if cut < l.header.end {
            "cut in the header"
        } else if cut < l.rtree.end {
            "cut in the spatial index"
        } else if cut < l.features {
            "cut in an attribute index"
        } else if feats.iter().any(|f| f.start == cut) {
            "cut between features"
        } else {
            "cut in a feature"
        });
        c.note(|| format!("cut at {cut} of {}", bytes.len()));
        if cut >= l.header.end {
            c.nontrivial(format!("{} {cut} {:?}", bytes.len(), crate::tape::hash_bytes(bytes)).as_bytes());
        }
        let mut k = 0;
        for how in [How::Seek, How::Seq, How::Http] {
            for a in asks {
                let got = match answer(part, a, how) {
                    Ok(g) => g,
                    Err(f) => return fail(f.sig, format!("{a:?} {how:?} on the first {cut} of {} bytes: {}", bytes.len(), f.msg)),
                };
                let whole = &full[k];
                k += 1;
                if let Ok(got) = got {
                    if let Ask::All = a {
                        return fail("truncated file passes", format!("{how:?} reads the first {cut} of {} bytes without an error ({} features)", bytes.len(), got.feats.len()));
                    }
                    match whole {
                        Ok(w) => ensure!(*w == got, "truncated file answers a query", "{a:?} {how:?} on the first {cut} of {} bytes yields {} features, the whole file {}", bytes.len(), got.feats.len(), w.feats.len()),
                        Err(e) => return fail("truncated file answers a query", format!("{a:?} {how:?} on the first {cut} of {} bytes yields an answer, the whole file says {e}", bytes.len())),
                    }
                }
            }
        }
    }
    Ok(())
}

/// every reader ends with an error or a complete result, within bounds
fn corrupted(c: &mut Case, b: &[u8], asks: &[Ask], what: &str) -> R {
    let mut opened = false;
    for how in [How::Seek, How::Seq, How::Http] {
        for a in asks {
            let base = mem::start();
            let got = match answer(b, a, how) {
                Ok(g) => g,
                Err(f) => return fail(f.sig, format!("{a:?} {how:?} after damage ({what}): {}", f.msg)),
            };
            let peak = mem::peak_since(base);
            let bound = (32 << 20) + 512 * b.len();
            ensure!(peak <= bound, "memory", "{a:?} {how:?} after damage ({what}): {} bytes allocated for a file of {}", peak, b.len());
            match got {
                Ok(g) => {
                    opened = true;
                    c.class("read in full");
                    // (a header that states no features leaves their number open)
                    let open = matches!(a, Ask::All) && g.announced == Some(0);
                    ensure!(open || g.announced.is_none() || g.announced == Some(g.feats.len()), "incomplete", "{a:?} {how:?} after damage ({what}): {:?} features announced, {} read, no error", g.announced, g.feats.len());
                    if b.get(..3) != Some(b"fcb") || b.get(4..7) != Some(b"fcb") {
                        return fail("magic", format!("{how:?} reads a file that does not start with the magic bytes ({what})"));
                    }
                }
                Err(e) => {
                    let kind = e.split(':').next().unwrap_or("").to_string();
                    if !e.contains("IO error") || e.len() > 40 {
                        opened = true;
                    }
                    let kind: String = kind.chars().take_while(|c| !c.is_ascii_digit()).take(30).collect();
                    c.class(format!("error {kind}"));
                }
            }
        }
    }
    if opened {
        c.note(|| what.to_string());
        c.nontrivial(format!("{:?}", crate::tape::hash_bytes(b)).as_bytes());
    }
    Ok(())
}

/// valid buffers with contradictory contents
fn forged(c: &mut Case) -> R {
    for k in 0..6 {
        let (b, count) = crate::props::forge::file(c.s);
        let mut asks = vec![Ask::All];
        if k % 3 == 0 {
            asks.push(Ask::Spatial(Query::BBox(-50.0, -50.0, 50.0, 50.0)));
            asks.push(Ask::Attr(vec![("a".into(), Operator::Ge, KeyType::Int32(0))]));
            if let Ok(l) = layout(&b) {
                if let Some((_, name, _)) = l.indices.first().and_then(|i| l.columns.iter().find(|c| c.0 == i.column)) {
                    asks.push(Ask::Attr(vec![(name.clone(), Operator::Ne, KeyType::Int32(1))]));
                }
            }
        }
        corrupted(c, &b, &asks, "forged")?;
        // every reader takes the same file for the same features
        let (x, y) = (answer(&b, &Ask::All, How::Seek)?, answer(&b, &Ask::All, How::Seq)?);
        let z = answer(&b, &Ask::All, How::Http)?;
        c.class(if x.is_ok() { "forged, read" } else { "forged, refused" });
        let feats = |r: &Result<Answer, String>| r.as_ref().ok().map(|a| a.feats.clone());
        // (a header that states no features leaves their number open)
        if count == 0 {
            continue;
        }
        ensure!(feats(&x) == feats(&y) && feats(&x) == feats(&z), "readers disagree", "a forged file: seekable {x:?}, sequential {y:?}, remote {z:?}");
    }
    Ok(())
}

/// arbitrary bytes
fn noise(c: &mut Case) -> R {
    let n = c.s.usize_in(0, 300);
    let mut b: Vec<u8> = (0..n).map(|_| if c.s.chance(1, 3) { 0 } else { c.s.raw() as u8 }).collect();
    let good = [b'f', b'c', b'b', 1, b'f', b'c', b'b', 0];
    let mut magic = c.s.chance(2, 3);
    if magic {
        for (i, x) in good.iter().enumerate().take(b.len()) {
            b[i] = *x;
        }
        if c.s.chance(1, 2) && n >= 8 {
            let i = c.s.below(7) as usize;
            if i != 3 {
                b[i] ^= 1 << c.s.below(8);
                magic = false;
            }
        }
        if b.len() >= 12 && c.s.chance(1, 2) {
            put(&mut b, 8, 4, n as u64 - 12);
        }
    }
    c.class("arbitrary bytes");
    for how in [How::Seek, How::Seq, How::Http] {
        let base = mem::start();
        let got = answer(&b, &Ask::All, how)?;
        ensure!(mem::peak_since(base) < 32 << 20, "memory", "{} bytes for {n} bytes", mem::peak_since(base));
        if b.get(..3) != Some(b"fcb") || b.get(4..7) != Some(b"fcb") {
            ensure!(got.is_err(), "magic", "{how:?} reads {b:?}");
        }
    }
    let _ = (magic, levels(1, 16));
    Ok(())
}
