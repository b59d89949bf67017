//! C11: the packed R-tree against a linear scan.
use crate::engine::{fail, guarded, Case, Prop, R};
use crate::ensure;
use crate::fcb::{Chunked, Or};
use crate::http::{block_on, Server};
use crate::tape::Src;
use fcb_core::packed_rtree::{calc_extent, hilbert_sort, http::HttpRange, NodeItem, PackedRTree, Query};
use std::io::{Cursor, Seek, SeekFrom};

pub fn props() -> Vec<Prop> {
    vec![Prop { id: "C11", level: "exploration", rule: "a tree of at least three levels and a query that some but not all items answer", assumptions: &["coordinates and their sums and squares are finite"], quick: 500_000, thorough: 10_000_000, run: c11, probes: &[] }]
}

pub type Box2 = [f64; 4];

/// coordinates from a small lattice (ties, touching edges) or anywhere
pub fn coord(s: &mut Src, mode: u64) -> f64 {
    match mode {
        0 => s.i64_in(-4, 4) as f64,
        1 => s.i64_in(-40, 40) as f64 * 0.5,
        2 => s.i64_in(-1_000_000, 1_000_000) as f64 / 1000.0 + 85_000.0,
        _ => *s.pick(&[0.0, -0.0, 1e15, -1e15, 1e-9, -1e-9, 0.1, 123456.789]),
    }
}

pub fn gen_box(s: &mut Src, mode: u64) -> Box2 {
    let (x, y) = (coord(s, mode), coord(s, mode));
    let m = if s.chance(1, 12) { 3 } else { mode };
    match s.weighted(&[3, 6, 1, 1]) {
        0 => [x, y, x, y],
        1 => {
            let w = [2.0, 5.0, 400.0, 1.0][m as usize];
            [x, y, x + s.below(5) as f64 * w / 4.0, y + s.below(5) as f64 * w / 4.0]
        }
        2 => {
            let x2 = coord(s, m);
            [x.min(x2), y, x.max(x2), y]
        }
        _ => {
            let (x2, y2) = (coord(s, m), coord(s, m));
            [x.min(x2), y.min(y2), x.max(x2), y.max(y2)]
        }
    }
}

/// a query, mostly touching something
pub fn gen_query(s: &mut Src, mode: u64, boxes: &[Box2]) -> Query {
    let near = |s: &mut Src| -> (f64, f64) {
        if s.chance(1, 3) || boxes.is_empty() {
            (coord(s, mode), coord(s, mode))
        } else {
            let b = boxes[s.below(boxes.len() as u64) as usize];
            match s.below(4) {
                0 => (b[0], b[1]),
                1 => (b[2], b[3]),
                2 => (b[0], b[3]),
                _ => ((b[0] + b[2]) / 2.0, (b[1] + b[3]) / 2.0),
            }
        }
    };
    match s.weighted(&[5, 3, 3]) {
        0 => {
            if s.chance(1, 4) {
                let b = gen_box(s, mode);
                return Query::BBox(b[0], b[1], b[2], b[3]);
            }
            let (a, b) = near(s);
            let (c, d) = near(s);
            if s.chance(1, 4) {
                // just beside an edge
                let e = [f64::EPSILON, 1e-9, 0.25][s.below(3) as usize];
                return Query::BBox(a.min(c) + e, b.min(d) + e, a.max(c) + e, b.max(d) + e);
            }
            Query::BBox(a.min(c), b.min(d), a.max(c), b.max(d))
        }
        1 => {
            let (a, b) = near(s);
            Query::PointIntersects(a, b)
        }
        _ => {
            let (a, b) = near(s);
            if s.chance(1, 3) {
                Query::PointNearest(a + s.i64_in(-9, 9) as f64 / 3.0, b - s.i64_in(-9, 9) as f64 / 3.0)
            } else {
                Query::PointNearest(a, b)
            }
        }
    }
}

pub fn hits(q: &Query, b: &Box2) -> bool {
    match *q {
        Query::BBox(x0, y0, x1, y1) => b[0] <= x1 && b[2] >= x0 && b[1] <= y1 && b[3] >= y0,
        Query::PointIntersects(x, y) => b[0] <= x && x <= b[2] && b[1] <= y && y <= b[3],
        Query::PointNearest(..) => false,
    }
}

pub fn centre_dist(x: f64, y: f64, b: &Box2) -> f64 {
    let (dx, dy) = (x - (b[0] + b[2]) / 2.0, y - (b[1] + b[3]) / 2.0);
    dx * dx + dy * dy
}

/// does `got` (positions) answer `q` over `boxes`? None for a correct answer
pub fn judge(q: &Query, boxes: &[Option<Box2>], got: &[usize]) -> Option<String> {
    match *q {
        Query::PointNearest(x, y) => {
            let best = boxes.iter().flatten().map(|b| centre_dist(x, y, b)).fold(f64::INFINITY, f64::min);
            if best == f64::INFINITY {
                return (got.len() > 1).then(|| format!("nearest returns {} items", got.len()));
            }
            if got.len() != 1 {
                return Some(format!("nearest returns {} items", got.len()));
            }
            let Some(Some(b)) = boxes.get(got[0]) else { return Some(format!("nearest returns item {}, which has no box", got[0])) };
            let d = centre_dist(x, y, b);
            (d > best).then(|| format!("nearest returns item {} at squared distance {d}, the minimum is {best}", got[0]))
        }
        _ => {
            let want: Vec<usize> = (0..boxes.len()).filter(|i| boxes[*i].is_some_and(|b| hits(q, &b))).collect();
            if want == got {
                return None;
            }
            let missing: Vec<_> = want.iter().filter(|i| !got.contains(i)).take(5).collect();
            let extra: Vec<_> = got.iter().filter(|i| !want.contains(i)).take(5).collect();
            Some(format!("{} items instead of {}; missing {missing:?}, too many {extra:?}{}", got.len(), want.len(), if missing.is_empty() && extra.is_empty() { ", order or repetition differs" } else { "" }))
        }
    }
}

fn same_node(a: &NodeItem, b: &NodeItem) -> bool {
    a.min_x.to_bits() == b.min_x.to_bits() && a.min_y.to_bits() == b.min_y.to_bits() && a.max_x.to_bits() == b.max_x.to_bits() && a.max_y.to_bits() == b.max_y.to_bits() && a.offset == b.offset
}

pub fn nodes_of(bytes: &[u8]) -> Vec<NodeItem> {
    bytes.chunks(40).map(|c| NodeItem::from_reader(c).unwrap()).collect()
}

fn c11(c: &mut Case) -> R {
    let mode = c.s.below(3);
    let avg = [3, 18, 40, 300][c.s.weighted(&[3, 6, 6, 2])];
    let mut boxes = c.s.list(1, 4000, avg, |s, _| gen_box(s, mode));
    if c.s.chance(1, 4000) {
        // far more boxes than the tape holds
        let n = crate::wide::size(c.s);
        let mut more = Src::fresh(c.s.raw());
        for _ in boxes.len()..n {
            boxes.push(gen_box(&mut more, mode));
        }
        c.class_if(n > 30_000, "tens of thousands of boxes");
    }
    let node_size: u16 = match c.s.weighted(&[5, 4, 2]) {
        0 => c.s.usize_in(2, 5) as u16,
        1 => 16,
        _ => *c.s.pick(&[6, 7, 15, 17, 40, 256, 65535]),
    };
    let n = boxes.len();
    let mut at = 0u64;
    // items as the writer makes them: in Hilbert order, offsets of features back to back
    let raw: Vec<NodeItem> = boxes.iter().enumerate().map(|(i, b)| NodeItem { min_x: b[0], min_y: b[1], max_x: b[2], max_y: b[3], offset: i as u64 }).collect();
    let extent = calc_extent(&raw);
    let want_ext = boxes.iter().fold([f64::INFINITY, f64::INFINITY, f64::NEG_INFINITY, f64::NEG_INFINITY], |e, b| [e[0].min(b[0]), e[1].min(b[1]), e[2].max(b[2]), e[3].max(b[3])]);
    ensure!([extent.min_x, extent.min_y, extent.max_x, extent.max_y] == want_ext, "extent", "extent {extent:?} instead of {want_ext:?}");
    let mut sorted = raw.clone();
    let how_sorted = c.s.below(4);
    if how_sorted > 0 {
        hilbert_sort(&mut sorted, &extent);
        let mut seen = vec![false; n];
        ensure!(sorted.len() == n, "sort length", "sorting turns {n} items into {}", sorted.len());
        for it in &sorted {
            let i = it.offset as usize;
            ensure!(i < n && !seen[i] && same_node(it, &raw[i]), "sort permutes", "sorting changes or repeats item {it:?}");
            seen[i] = true;
        }
    }
    let sizes: Vec<u64> = (0..n).map(|i| 4 + (i as u64 * 7919) % 90).collect();
    let items: Vec<NodeItem> = sorted
        .iter()
        .map(|it| {
            let mut it = it.clone();
            let old = it.offset;
            it.offset = at;
            at += sizes[old as usize];
            it
        })
        .collect();
    let placed: Vec<Option<Box2>> = items.iter().map(|i| Some([i.min_x, i.min_y, i.max_x, i.max_y])).collect();
    let flat: Vec<Box2> = placed.iter().flatten().copied().collect();
    c.note(|| format!("{n} boxes, node size {node_size}, sorted {}; first {:?}", how_sorted > 0, &flat[..n.min(4)]));

    let tree = PackedRTree::build(&items, &extent, node_size).or_fail("build fails")?;
    let mut bytes = vec![];
    tree.stream_write(&mut bytes).or_fail("stream_write fails")?;
    let predicted = PackedRTree::index_size(n, node_size);
    ensure!(bytes.len() == predicted && tree.size() == predicted, "index size", "{n} items, node size {node_size}: {} bytes written, size() {}, predicted {predicted}", bytes.len(), tree.size());
    // the layout: every parent covers its children exactly
    let mut levels = vec![n];
    while *levels.last().unwrap() > 1 || levels.len() == 1 {
        levels.push(levels.last().unwrap().div_ceil(node_size as usize));
    }
    let total: usize = levels.iter().sum();
    ensure!(total * 40 == predicted, "level sizes", "{n} items, node size {node_size}: {predicted} bytes predicted, {} nodes needed", total);
    let nodes = nodes_of(&bytes);
    for (a, b) in nodes[total - n..].iter().zip(&items) {
        ensure!(same_node(a, b), "leaf", "leaf {a:?} is written for item {b:?}");
    }
    let mut begin = total;
    for l in 1..levels.len() {
        let child_begin = begin - levels[l - 1];
        let child_end = begin;
        begin = child_begin;
        for p in 0..levels[l] {
            let node = &nodes[begin - levels[l] + p];
            let lo = child_begin + p * node_size as usize;
            let hi = (lo + node_size as usize).min(child_end);
            let e = calc_extent(&nodes[lo..hi]);
            ensure!(node.offset == lo as u64 && [node.min_x, node.min_y, node.max_x, node.max_y] == [e.min_x, e.min_y, e.max_x, e.max_y], "parent", "node {node:?} for children {lo}..{hi} with extent {e:?}");
        }
    }
    let te = tree.extent();
    ensure!([te.min_x, te.min_y, te.max_x, te.max_y] == want_ext, "tree extent", "the tree's extent is {te:?}");

    // the arithmetic of boxes
    for (a, b) in items.iter().zip(items.iter().rev()).take(4) {
        let (x, y) = (coord(c.s, mode), coord(c.s, mode));
        let sum = NodeItem::sum(a.clone(), b);
        ensure!([sum.min_x, sum.min_y, sum.max_x, sum.max_y] == [a.min_x.min(b.min_x), a.min_y.min(b.min_y), a.max_x.max(b.max_x), a.max_y.max(b.max_y)], "sum", "{a:?} and {b:?} make {sum:?}");
        let mut grown = a.clone();
        grown.expand_xy(x, y);
        ensure!([grown.min_x, grown.min_y, grown.max_x, grown.max_y] == [a.min_x.min(x), a.min_y.min(y), a.max_x.max(x), a.max_y.max(y)], "expand_xy", "{a:?} and ({x}, {y}) make {grown:?}");
        let mut point = NodeItem::create(7);
        point.expand_xy(x, y);
        ensure!([point.min_x, point.min_y, point.max_x, point.max_y] == [x, y, x, y] && point.offset == 7, "expand_xy", "nothing and ({x}, {y}) make {point:?}");
        ensure!([a.width(), a.height()] == [a.max_x - a.min_x, a.max_y - a.min_y], "width", "{a:?}: {} by {}", a.width(), a.height());
        let meet = a.min_x <= b.max_x && b.min_x <= a.max_x && a.min_y <= b.max_y && b.min_y <= a.max_y;
        ensure!(a.intersects(b) == meet && b.intersects(a) == meet, "intersects", "{a:?} and {b:?}: {}", a.intersects(b));
        let inside = a.min_x <= x && x <= a.max_x && a.min_y <= y && y <= a.max_y;
        let gap = |v: f64, lo: f64, hi: f64| (lo - v).max(v - hi).max(0.0);
        let far = gap(x, a.min_x, a.max_x).powi(2) + gap(y, a.min_y, a.max_y).powi(2);
        let d = a.min_distance_squared(x, y);
        ensure!(a.contains_point(x, y) == inside && (d == 0.0) == (far == 0.0) && (d - far).abs() <= 1e-9 * far, "distance", "({x}, {y}) is at {d} from {a:?}");
    }

    // all search paths
    let pre = [0usize, 12, 1000][c.s.below(3) as usize];
    let attr = [0usize, 77][c.s.below(2) as usize];
    let mut file = vec![0xAB; pre];
    file.extend(&bytes);
    file.extend(vec![0xCD; attr + at as usize]);
    let feature_begin = pre + bytes.len() + attr;
    let again = PackedRTree::from_buf(Chunked { data: &bytes, pos: 0, sizes: vec![3, 40, 1, 64], i: 0 }, n, node_size).or_fail("from_buf fails")?;
    let mut back = vec![];
    again.stream_write(&mut back).or_fail("stream_write fails")?;
    ensure!(back == bytes, "from_buf", "the tree read back writes other bytes");
    let ae = again.extent();
    ensure!([ae.min_x, ae.min_y, ae.max_x, ae.max_y] == want_ext, "read tree extent", "the extent of the tree read back is {ae:?}");
    let server = Server::new(file.clone());
    let mut client = server.client();
    let loaded = block_on(PackedRTree::from_http(&mut client, pre, n, node_size)).or_fail("from_http fails")?;
    let mut back = vec![];
    loaded.stream_write(&mut back).or_fail("stream_write fails")?;
    ensure!(back == bytes, "from_http", "the tree read over HTTP writes other bytes");
    c.class_if(levels.len() >= 3, "three levels or more");
    c.class_if(n > 1 && n % node_size as usize == 1, "one item in the last node");
    c.class_if(n == 1, "one item");
    let queries: Vec<Query> = (0..4).map(|_| gen_query(c.s, mode, &flat)).collect();
    for q in &queries {
        c.note(|| format!("{q:?}"));
        let some = flat.iter().filter(|b| hits(q, b)).count();
        let nearest = matches!(q, Query::PointNearest(..));
        c.class(match q {
            Query::BBox(..) => "box",
            Query::PointIntersects(..) => "point",
            Query::PointNearest(..) => "nearest",
        });
        c.class_if(!nearest && some == 0, "no answer");
        if levels.len() >= 3 && (nearest || (some > 0 && some < n)) {
            c.nontrivial(format!("{n} {node_size} {q:?} {:?}", flat[0]).as_bytes());
        }
        for (who, t) in [("memory", &tree), ("from_buf", &again)] {
            let r = t.search(*q).or_fail(&format!("{who} search fails"))?;
            let pos: Vec<usize> = r.iter().map(|x| x.index).collect();
            if let Some(m) = judge(q, &placed, &pos) {
                return fail(format!("{who} search"), format!("{q:?} in {who}: {m}"));
            }
            for x in &r {
                ensure!(x.offset as u64 == items[x.index].offset, format!("{who} offset"), "item {} has offset {}, not {}", x.index, items[x.index].offset, x.offset);
            }
        }
        let mut rd = Cursor::new(&file);
        rd.seek(SeekFrom::Start(pre as u64)).unwrap();
        let r = guarded(|| PackedRTree::stream_search(&mut rd, n, node_size, *q).or_fail("stream search fails"))?;
        let pos: Vec<usize> = r.iter().map(|x| x.index).collect();
        if let Some(m) = judge(q, &placed, &pos) {
            return fail("stream search", format!("{q:?} in a stream: {m}"));
        }
        for x in &r {
            ensure!(x.offset as u64 == items[x.index].offset, "stream offset", "item {} has offset {}, not {}", x.index, items[x.index].offset, x.offset);
        }
        ensure!(rd.position() as usize == pre + bytes.len(), "position after search", "the reader is at {} after the search, the index ends at {}", rd.position(), pre + bytes.len());
        let thr = *c.s.pick(&[0usize, 40, 400, 1 << 20]);
        let mut client = server.client();
        let r = guarded(|| block_on(PackedRTree::http_stream_search(&mut client, pre, attr, n, node_size, *q, thr)).or_fail("http search fails"))?;
        let mut pos = vec![];
        for x in &r {
            let start = x.range.start();
            let Some(i) = items.iter().position(|it| it.offset as usize + feature_begin == start) else {
                return fail("http offset", format!("{q:?} over HTTP: no feature starts at {start}"));
            };
            pos.push(i);
            let end = feature_begin + items.get(i + 1).map(|x| x.offset).unwrap_or(at) as usize;
            match &x.range {
                HttpRange::Range(r) => ensure!(r.end == end, "http range end", "{q:?}: the range of item {i} ends at {} instead of {end}", r.end),
                // the length may be left open for the last feature
                HttpRange::RangeFrom(_) => ensure!(i == n - 1 || nearest, "http open range", "{q:?}: the range of item {i} of {n} has no end"),
            }
        }
        if let Some(m) = judge(q, &placed, &pos) {
            return fail("http search", format!("{q:?} over HTTP: {m}"));
        }
    }
    Ok(())
}
