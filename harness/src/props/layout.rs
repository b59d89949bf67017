//! C15: the bytes of a written file, taken apart without the library's readers of indices and
//! features (only the generated FlatBuffers accessors are used).
use crate::engine::{fail, Case, Prop, R};
use crate::ensure;
use crate::fcb::{self, Or};
use crate::props::rtree::Box2;
use crate::scene::{scene, Ik, Plan, Scene};
use fcb_core::fb::ColumnType;
use std::cmp::Ordering;

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C15", level: "exploration", rule: "at least two features and a spatial or an attribute index", assumptions: &["boxes are not inverted, coordinates are finite"], quick: 80_000, thorough: 2_000_000, run: c15, probes: &[] }]
}

pub struct Index {
    pub column: u16,
    pub start: usize,
    pub length: usize,
    pub factor: u16,
    pub unique: usize,
}

/// where the parts of a file begin
pub struct Layout {
    pub header: std::ops::Range<usize>,
    pub rtree: std::ops::Range<usize>,
    pub indices: Vec<Index>,
    pub features: usize,
    pub count: usize,
    pub node_size: usize,
    pub columns: Vec<(u16, String, ColumnType)>,
}

/// the number of nodes per level, leaves first
pub fn levels(n: usize, node_size: usize) -> Vec<usize> {
    let mut out = vec![n];
    loop {
        let m = out.last().unwrap().div_ceil(node_size);
        out.push(m);
        if m == 1 {
            return out;
        }
    }
}

fn u32_at(b: &[u8], at: usize) -> Option<u32> {
    Some(u32::from_le_bytes(b.get(at..at + 4)?.try_into().ok()?))
}
fn u64_at(b: &[u8], at: usize) -> Option<u64> {
    Some(u64::from_le_bytes(b.get(at..at + 8)?.try_into().ok()?))
}
fn f64_at(b: &[u8], at: usize) -> Option<f64> {
    Some(f64::from_bits(u64_at(b, at)?))
}

pub fn layout(bytes: &[u8]) -> Result<Layout, String> {
    if bytes.get(..3) != Some(b"fcb") || bytes.get(4..7) != Some(b"fcb") {
        return Err(format!("the file starts with {:?}", &bytes[..bytes.len().min(8)]));
    }
    let hs = u32_at(bytes, 8).ok_or("no header size")? as usize;
    let header_range = 12..12 + hs;
    let raw = bytes.get(8..12 + hs).ok_or("the header is longer than the file")?;
    let header = fcb_core::size_prefixed_root_as_header(raw).map_err(|e| format!("the header does not verify: {e}"))?;
    let count = header.features_count() as usize;
    let node_size = header.index_node_size() as usize;
    if node_size == 1 || count > 1 << 40 {
        return Err(format!("impossible index: {count} features, node size {node_size}"));
    }
    let rtree_len = if node_size == 0 || count == 0 { 0 } else { 40 * levels(count, node_size).iter().sum::<usize>() };
    let mut at = header_range.end + rtree_len;
    let mut indices = vec![];
    for a in header.attribute_index().iter().flatten() {
        indices.push(Index { column: a.index(), start: at, length: a.length() as usize, factor: a.branching_factor(), unique: a.num_unique_items() as usize });
        at += a.length() as usize;
    }
    let columns = header.columns().iter().flatten().map(|c| (c.index(), c.name().to_string(), c.type_())).collect();
    Ok(Layout { rtree: header_range.end..header_range.end + rtree_len, header: header_range, indices, features: at, count, node_size, columns })
}

/// offsets (in the feature section) and byte ranges of the features
pub fn feature_ranges(bytes: &[u8], l: &Layout) -> Result<Vec<std::ops::Range<usize>>, String> {
    let mut out = vec![];
    let mut at = l.features;
    while at < bytes.len() {
        let n = u32_at(bytes, at).ok_or_else(|| format!("{} bytes remain after feature {}", bytes.len() - at, out.len()))? as usize;
        let end = at + 4 + n;
        if end > bytes.len() {
            return Err(format!("feature {} at {at} ends at {end}, behind the end of the file ({} bytes)", out.len(), bytes.len()));
        }
        out.push(at..end);
        at = end;
    }
    Ok(out)
}

fn key_at(b: &[u8], t: ColumnType, at: usize) -> Option<(Ik, usize)> {
    let int = |n: usize, signed: bool| {
        let raw = b.get(at..at + n)?;
        let mut w = [if signed && raw[n - 1] & 0x80 != 0 { 0xff } else { 0 }; 16];
        w[..n].copy_from_slice(raw);
        Some((Ik::I(i128::from_le_bytes(w)), n))
    };
    match t {
        ColumnType::Byte => int(1, true),
        ColumnType::UByte => int(1, false),
        ColumnType::Short => int(2, true),
        ColumnType::UShort => int(2, false),
        ColumnType::Int => int(4, true),
        ColumnType::UInt => int(4, false),
        ColumnType::Long => int(8, true),
        ColumnType::ULong => int(8, false),
        ColumnType::Bool => match b.get(at)? {
            0 => Some((Ik::B(false), 1)),
            1 => Some((Ik::B(true), 1)),
            _ => None,
        },
        ColumnType::Float => Some((Ik::F(f32::from_bits(u32_at(b, at)?) as f64), 4)),
        ColumnType::Double => Some((Ik::F(f64_at(b, at)?), 8)),
        ColumnType::String => {
            let mut k = b.get(at..at + 50)?.to_vec();
            while k.last() == Some(&0) {
                k.pop();
            }
            Some((Ik::S(k), 50))
        }
        ColumnType::DateTime => Some((Ik::D(u64_at(b, at)? as i64, u32_at(b, at + 8)?), 12)),
        _ => None,
    }
}

/// the (key, feature offsets) pairs of an attribute index, in stored order
fn entries(b: &[u8], t: ColumnType, ix: &Index) -> Result<Vec<(Ik, Vec<u64>)>, String> {
    let b = b.get(ix.start..ix.start + ix.length).ok_or("the index ends behind the end of the file")?;
    let (_, ks) = key_at(&[0; 64], t, 0).ok_or("not an indexable type")?;
    let node = ks + 8;
    let f = ix.factor as usize;
    if f < 2 {
        return Err(format!("branching factor {f}"));
    }
    let (mut total, mut n) = (ix.unique, ix.unique);
    loop {
        n = n.div_ceil(f);
        total += n;
        if n < f {
            break;
        }
    }
    let payload = total * node;
    if payload > b.len() {
        return Err(format!("{} unique keys with factor {f} need {payload} bytes, the index has {}", ix.unique, b.len()));
    }
    let mut out = vec![];
    let mut used = vec![];
    for i in total - ix.unique..total {
        let (k, _) = key_at(b, t, i * node).ok_or_else(|| format!("no key at node {i}"))?;
        let off = u64_at(b, i * node + ks).ok_or("no offset")?;
        let offs = if off >> 63 == 0 {
            vec![off]
        } else {
            let at = payload + (off & !(1 << 63)) as usize;
            let n = u32_at(b, at).ok_or_else(|| format!("no payload at {at}"))? as usize;
            used.push((at, at + 4 + 8 * n));
            (0..n).map(|j| u64_at(b, at + 4 + 8 * j).ok_or_else(|| format!("payload at {at} too short for {n} offsets"))).collect::<Result<_, _>>()?
        };
        out.push((k, offs));
    }
    used.sort();
    let mut at = payload;
    for (s, e) in used {
        if s != at {
            return Err(format!("payload block at {s}, expected at {at}"));
        }
        at = e;
    }
    if at != b.len() {
        return Err(format!("the index ends at {at} of {} bytes", b.len()));
    }
    Ok(out)
}

fn same_box(a: &[f64; 4], b: &Option<Box2>) -> bool {
    match b {
        Some(b) => a == b,
        None => a[0] > a[2] && a[1] > a[3],
    }
}

fn c15(c: &mut Case) -> R {
    let avg = [2, 18, 60, 400][c.s.weighted(&[4, 6, 3, 1])];
    let sc = scene(c.s, &Plan { avg, max: 5000, attrs: c.index % 4 != 0, bare: c.index % 3 == 0, spatial: None, wide: 600 });
    c.class_if(sc.feats.len() > 10_000, "tens of thousands of features");
    c.note(|| sc.describe());
    let bytes = sc.write().or_fail("writing fails")?;
    let n = sc.feats.len();
    let l = match layout(&bytes) {
        Ok(l) => l,
        Err(e) => return fail("layout", e),
    };
    c.class_if(n == 0, "no features");
    c.class_if(n > 256, "three levels");
    c.class_if(!l.indices.is_empty(), "attribute indices");
    c.class_if(l.rtree.is_empty(), "no spatial index");
    if n >= 2 && (!l.rtree.is_empty() || !l.indices.is_empty()) {
        c.nontrivial(format!("{n} {:?} {:?}", sc.opts, l.indices.iter().map(|i| i.unique).collect::<Vec<_>>()).as_bytes());
    }
    ensure!(l.count == n, "count", "{n} features added, the header says {}", l.count);
    ensure!((l.node_size == 0) == !sc.opts.write_index, "node size", "write_index={}, index node size {}", sc.opts.write_index, l.node_size);

    // features: back to back up to the end of the file
    let ranges = match feature_ranges(&bytes, &l) {
        Ok(r) => r,
        Err(e) => return fail("features", e),
    };
    ensure!(ranges.len() == n, "features", "{n} features added, the file has {} after the indices", ranges.len());
    let mut order = vec![];
    for (i, r) in ranges.iter().enumerate() {
        match fcb_core::size_prefixed_root_as_city_feature(&bytes[r.clone()]) {
            Ok(f) => order.push(Scene::number(f.id())),
            Err(e) => return fail("features", format!("feature {i} at {r:?} does not verify: {e}")),
        }
    }
    let mut sorted = order.clone();
    sorted.sort();
    ensure!(sorted == (0..n).collect::<Vec<_>>(), "features", "features in the file: {order:?}");
    if !sc.opts.write_index {
        ensure!(order == sorted, "order", "without spatial index, the features are stored as {order:?}");
    }
    let start = |i: usize| (ranges[i].start - l.features) as u64;

    // spatial index: one leaf per feature
    if !l.rtree.is_empty() {
        let total = l.rtree.len() / 40;
        for i in 0..n {
            let at = l.rtree.start + 40 * (total - n + i);
            let b = [f64_at(&bytes, at).unwrap(), f64_at(&bytes, at + 8).unwrap(), f64_at(&bytes, at + 16).unwrap(), f64_at(&bytes, at + 24).unwrap()];
            let off = u64_at(&bytes, at + 32).unwrap();
            ensure!(off == start(i), "leaf offset", "leaf {i} points at {off}, feature {i} starts at {}", start(i));
            let want = &sc.boxes[order[i]];
            ensure!(same_box(&b, want), "leaf box", "leaf {i} has the box {b:?}, its feature f{} {want:?}", order[i]);
        }
    }

    // attribute indices: every entry once
    let want_cols: Vec<&str> = {
        let named: Vec<&str> = sc.opts.indices.iter().flatten().map(|(n, _)| n.as_str()).filter(|n| sc.cols.iter().any(|c| c.indexed && c.name == *n)).collect();
        l.columns.iter().map(|c| c.1.as_str()).filter(|n| named.contains(n)).collect()
    };
    let mut got_cols = vec![];
    for ix in &l.indices {
        let Some((_, name, t)) = l.columns.iter().find(|x| x.0 == ix.column) else { return fail("index column", format!("index of unknown column {}", ix.column)) };
        got_cols.push(name.as_str());
        let col = sc.cols.iter().position(|x| x.name == *name).unwrap();
        ensure!(sc.cols[col].ty == *t, "column type", "column {name} is {t:?}, not {:?}", sc.cols[col].ty);
        let es = match entries(&bytes, *t, ix) {
            Ok(e) => e,
            Err(e) => return fail("index layout", format!("index of {name}: {e}")),
        };
        let mut got: Vec<(Ik, u64)> = vec![];
        for w in es.windows(2) {
            ensure!(w[0].0.cmp(&w[1].0) == Ordering::Less, "index order", "index of {name}: {:?} before {:?}", w[0].0, w[1].0);
        }
        c.class_if(es.iter().any(|e| e.1.len() > 1), "payload block");
        for (k, offs) in es {
            ensure!(!offs.is_empty(), "index entry", "index of {name}: no offsets for {k:?}");
            got.extend(offs.into_iter().map(|o| (k.clone(), o)));
        }
        let mut want: Vec<(Ik, u64)> = vec![];
        for (p, i) in order.iter().enumerate() {
            want.extend(sc.vals[*i][col].iter().map(|k| (k.clone(), start(p))));
        }
        // a feature may be listed once or once per object with the value
        let by = |a: &(Ik, u64), b: &(Ik, u64)| a.0.cmp(&b.0).then(a.1.cmp(&b.1));
        for v in [&mut got, &mut want] {
            v.sort_by(by);
            v.dedup_by(|a, b| by(a, b).is_eq());
        }
        if got.len() != want.len() || got.iter().zip(&want).any(|(a, b)| by(a, b).is_ne()) {
            return fail("index entries", format!("index of {name} ({t:?}): entries {got:?}, expected {want:?}"));
        }
    }
    ensure!(got_cols == want_cols, "indices", "indices of {got_cols:?}, expected {want_cols:?}");

    // the same input gives the same bytes
    let again = sc.write().or_fail("writing again fails")?;
    if again != bytes {
        let at = bytes.iter().zip(&again).position(|(a, b)| a != b).unwrap_or(bytes.len().min(again.len()));
        return fail("determinism", format!("writing the same features twice gives different bytes: {} and {} bytes, first difference at {at} (header {:?}, spatial index {:?}, features from {})", bytes.len(), again.len(), l.header, l.rtree, l.features));
    }
    // and so does a feature-by-feature copy of the input
    if c.index % 7 == 0 {
        let copy = sc.clone();
        let third = fcb::write(&copy.cj, &copy.feats, copy.schema.clone(), None, &copy.opts).or_fail("writing again fails")?;
        ensure!(third == bytes, "determinism", "a copy of the input gives different bytes");
    }
    Ok(())
}
