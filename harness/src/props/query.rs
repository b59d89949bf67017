//! C08 (spatial queries), C09 (attribute queries), C14 (readers and counts agree), C18 (index options).
use crate::engine::{fail, guarded, Case, Prop, R};
use crate::fcb::{Chunked, Or};
use crate::props::rtree::{hits, judge};
use crate::scene::{scene, Plan, Scene};
use crate::{drain_iter, ensure};
use fallible_streaming_iterator::FallibleStreamingIterator;
use fcb_core::packed_rtree::Query;
use fcb_core::static_btree::{KeyType, Operator};
use fcb_core::FcbReader;
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C08", level: "exploration", rule: "more features than one node of the index holds (17 or more) and a query that some but not all features answer", assumptions: &["boxes are not inverted, coordinates are finite"], quick: 60_000, thorough: 1_500_000, run: c08, probes: &[] },
        Prop { id: "C09", level: "exploration", rule: "an index whose distinct values or repeated values need more than one node or a payload block, and a query that some but not all features answer", assumptions: &["keys are not NaN (no JSON value is)"], quick: 50_000, thorough: 1_200_000, run: c09, probes: &[] },
        Prop { id: "C14", level: "exploration", rule: "a selection of at least two features, read with chunked reads", assumptions: &["a reader returns at least one byte unless the input is at its end"], quick: 120_000, thorough: 3_000_000, run: c14, probes: &[] },
        Prop { id: "C18", level: "exploration", rule: "two configurations that differ in indices or order, with at least three features and a query that some but not all answer", assumptions: &["boxes are not inverted, coordinates are finite"], quick: 90_000, thorough: 2_500_000, run: c18, probes: &[] },
    ]
}

fn sizes(c: &mut Case) -> usize {
    [2, 18, 60, 400][c.s.weighted(&[2, 6, 5, 1])]
}

fn ids(fs: &[cjseq::CityJSONFeature]) -> Vec<usize> {
    fs.iter().map(|f| Scene::number(&f.id)).collect()
}

/// file order of the features
pub fn file_order(bytes: &[u8]) -> Result<Vec<usize>, crate::engine::Failure> {
    let mut it = FcbReader::open(Cursor::new(bytes)).or_fail("open fails")?.select_all().or_fail("select_all fails")?;
    let all = drain_iter!(it).or_fail("reading everything fails")?;
    Ok(ids(&all))
}

pub fn chunks(c: &mut Case) -> Vec<usize> {
    match c.s.below(4) {
        0 => vec![1 << 20],
        1 => vec![1],
        2 => vec![3, 1, 7],
        _ => vec![64, 5, 4096],
    }
}

fn c08(c: &mut Case) -> R {
    let avg = sizes(c);
    let sc = scene(c.s, &Plan { avg, max: 5000, attrs: c.index % 3 == 0, bare: c.index % 4 == 0, spatial: Some(true), wide: 600 });
    c.class_if(sc.feats.len() > 10_000, "tens of thousands of features");
    c.note(|| sc.describe());
    let bytes = sc.write().or_fail("writing fails")?;
    let n = sc.feats.len();
    let order = file_order(&bytes)?;
    {
        let mut o = order.clone();
        o.sort();
        ensure!(o == (0..n).collect::<Vec<_>>(), "select all", "{} features written, select_all yields {:?}", n, order);
    }
    let placed: Vec<_> = order.iter().map(|i| sc.boxes[*i]).collect();
    for _ in 0..3 {
        let q = sc.spatial_query(c.s);
        c.note(|| format!("{q:?}"));
        let nearest = matches!(q, Query::PointNearest(..));
        let some = placed.iter().flatten().filter(|b| hits(&q, b)).count();
        if n > 16 && (nearest || (some > 0 && some < n)) {
            c.nontrivial(format!("{n} {q:?} {:?}", placed[0]).as_bytes());
        }
        c.class(match q {
            Query::BBox(..) => "box",
            Query::PointIntersects(..) => "point",
            Query::PointNearest(..) => "nearest",
        });
        c.class_if(placed.iter().any(|b| b.is_none()), "features without vertices");
        c.class_if(n > 256, "three levels");
        let ch = chunks(c);
        for seq in [false, true] {
            let who = if seq { "sequential" } else { "seekable" };
            if n == 0 {
                let rd = FcbReader::open(Cursor::new(&bytes)).or_fail("open fails")?;
                let refused = if seq { rd.select_query_seq(q).is_err() } else { rd.select_query(q).is_err() };
                ensure!(refused, format!("{who} query without index"), "a file without spatial index answers {q:?}");
                c.class("no features");
                continue;
            }
            let (got, count) = guarded(|| {
                let rd = Chunked { data: &bytes, pos: 0, sizes: ch.clone(), i: 0 };
                let rd = FcbReader::open(rd).or_fail("open fails")?;
                if seq {
                    let mut it = rd.select_query_seq(q).or_fail("select_query_seq fails")?;
                    let n = it.features_count();
                    Ok((drain_iter!(it).or_fail("reading the answers fails")?, n))
                } else {
                    let mut it = rd.select_query(q).or_fail("select_query fails")?;
                    let n = it.features_count();
                    Ok((drain_iter!(it).or_fail("reading the answers fails")?, n))
                }
            })?;
            let got_ids = ids(&got);
            let pos: Vec<usize> = got_ids.iter().map(|i| order.iter().position(|o| o == i).unwrap()).collect();
            if let Some(m) = judge(&q, &placed, &pos) {
                return fail(format!("{who} spatial query"), format!("{q:?}, {who} reader: {m} (positions in the file)"));
            }
            ensure!(count == Some(got.len()), format!("{who} count"), "{q:?}, {who} reader: {count:?} features announced, {} yielded", got.len());
            for f in &got {
                let w = &sc.feats[Scene::number(&f.id)];
                ensure!(f.vertices == w.vertices && f.city_objects.len() == w.city_objects.len(), format!("{who} feature"), "{q:?}: feature {} comes back with other vertices or objects", f.id);
            }
        }
    }
    Ok(())
}

fn c09(c: &mut Case) -> R {
    let avg = sizes(c);
    let same = c.index % 25_013 == 5;
    c.class_if(same, "tens of thousands of features with equal values");
    let sc = scene(c.s, &Plan { avg, max: 5000, attrs: true, bare: false, spatial: None, wide: if same { 1 } else { 600 } });
    c.class_if(sc.feats.len() > 10_000, "tens of thousands of features");
    c.note(|| sc.describe());
    let bytes = sc.write().or_fail("writing fails")?;
    let n = sc.feats.len();
    let order = file_order(&bytes)?;
    let open = || FcbReader::open(Cursor::new(&bytes)).or_fail("open fails");
    let any = sc.cols.iter().any(|x| x.indexed);
    for (i, col) in sc.cols.iter().enumerate() {
        if col.indexed {
            c.class(format!("index {}", crate::gen::type_name(col.ty)));
            let k = sc.vals.iter().map(|v| v[i].len()).sum::<usize>();
            c.class_if(k > 16, "more than 16 entries");
        }
    }
    // questions the file cannot answer
    {
        let good = sc.conds(c.s, 1);
        let mut bad: Vec<(&str, fcb_core::AttrQuery)> = vec![("an empty query", vec![]), ("an unknown field", vec![("nope".into(), Operator::Eq, KeyType::Int32(1))])];
        if let Some(x) = sc.cols.iter().find(|x| !x.indexed && sc.opts.indices.is_some()) {
            bad.push(("a field without index", vec![(x.name.clone(), Operator::Ge, KeyType::Int64(0))]));
        }
        if let Some(g) = good.first() {
            let wrong = if matches!(g.key, crate::scene::Ik::B(_)) { KeyType::Int64(1) } else { KeyType::Bool(true) };
            bad.push(("a key of another type", vec![(sc.cols[g.col].name.clone(), g.op, wrong)]));
            let yes = sc.attr_query(&good);
            if (0..n).any(|i| sc.answers(i, &good)) {
                let mut q = yes.clone();
                q.push(("nope".into(), Operator::Eq, KeyType::Int32(1)));
                bad.push(("an unknown second field", q));
            }
        }
        let (what, q) = &bad[c.s.below(bad.len() as u64) as usize];
        c.class(format!("refused: {what}"));
        ensure!(open()?.select_attr_query(q.clone()).is_err(), format!("seekable accepts {what}"), "the seekable reader answers {q:?}");
        ensure!(open()?.select_attr_query_seq(q.clone()).is_err(), format!("sequential accepts {what}"), "the sequential reader answers {q:?}");
    }
    if !any {
        c.class("no attribute index");
        return Ok(());
    }
    for _ in 0..3 {
        let conds = sc.conds(c.s, 3);
        let q = sc.attr_query(&conds);
        c.note(|| format!("{q:?}"));
        let want: Vec<usize> = order.iter().copied().filter(|i| sc.answers(*i, &conds)).collect();
        let big = conds.iter().any(|x| sc.vals.iter().map(|v| v[x.col].len()).sum::<usize>() > 4);
        if big && !want.is_empty() && want.len() < n {
            c.nontrivial(format!("{n} {q:?} {want:?}").as_bytes());
        }
        for x in &conds {
            c.class(format!("{:?}", x.op));
        }
        c.class_if(conds.len() > 1, "several conditions");
        c.class_if(want.is_empty(), "no answer");
        let ch = chunks(c);
        for seq in [false, true] {
            let who = if seq { "sequential" } else { "seekable" };
            let got = guarded(|| {
                let rd = Chunked { data: &bytes, pos: 0, sizes: ch.clone(), i: 0 };
                let rd = FcbReader::open(rd).or_fail("open fails")?;
                if seq {
                    let mut it = rd.select_attr_query_seq(q.clone()).or_fail("select_attr_query_seq fails")?;
                    drain_iter!(it).or_fail("reading the answers fails")
                } else {
                    let mut it = rd.select_attr_query(q.clone()).or_fail("select_attr_query fails")?;
                    drain_iter!(it).or_fail("reading the answers fails")
                }
            })?;
            let got_ids = ids(&got);
            if got_ids != want {
                let missing: Vec<_> = want.iter().filter(|i| !got_ids.contains(i)).take(5).collect();
                let extra: Vec<_> = got_ids.iter().filter(|i| !want.contains(i)).take(5).collect();
                return fail(format!("{who} attribute query"), format!("{q:?}, {who} reader: {} features instead of {}; missing {missing:?}, too many {extra:?}", got_ids.len(), want.len()));
            }
        }
    }
    Ok(())
}

/// what one pass over an iterator showed
#[derive(Clone, Debug, PartialEq)]
struct Pass {
    feats: Vec<String>,
    header: (u64, String),
}

/// iterates in a given pattern, checking counts and hints on the way
macro_rules! pass {
    ($c:expr, $it:expr, $exact:expr, $steps:expr) => {{
        let mut it = $it;
        let announced = it.features_count();
        let h = it.header();
        let header = (h.features_count(), crate::norm::canon(&serde_json::to_value(fcb_core::deserializer::to_cj_metadata(&h).or_fail("header fails")?).unwrap()));
        let mut feats: Vec<String> = vec![];
        let mut hints: Vec<(usize, Option<usize>)> = vec![it.size_hint()];
        let mut k = 0usize;
        loop {
            let step: u8 = $steps[k % $steps.len()];
            k += 1;
            if step & 1 != 0 {
                ensure!(it.features_count() == announced, "count changes", "the count changes from {announced:?} to {:?} after {} features", it.features_count(), feats.len());
            }
            let more = if step & 2 != 0 {
                // the streaming interface
                it.advance().or_fail("advance fails")?;
                it.get().is_some()
            } else {
                it.next().or_fail("next fails")?.is_some()
            };
            if !more {
                break;
            }
            let f = it.cur_cj_feature().or_fail("cur_cj_feature fails")?;
            ensure!(it.cur_feature().id() == f.id, "current feature", "cur_feature is {}, cur_cj_feature {}", it.cur_feature().id(), f.id);
            let text = crate::norm::canon(&crate::norm::feature(&f));
            if step & 4 != 0 {
                let again = crate::norm::canon(&crate::norm::feature(&it.cur_cj_feature().or_fail("cur_cj_feature fails")?));
                ensure!(again == text, "current feature changes", "decoding feature {} twice gives different results", f.id);
            }
            feats.push(text);
            hints.push(it.size_hint());
            ensure!(feats.len() <= $exact, "too many features", "the selection of {} features yields more", $exact);
        }
        let n = feats.len();
        ensure!(announced == Some(n), "count", "{announced:?} features announced, {n} yielded");
        for (i, h) in hints.iter().enumerate() {
            ensure!(*h == (n - i, Some(n - i)), "size hint", "size hint {h:?} with {} of {n} features left", n - i);
        }
        for k in 0..3 {
            let more = if k == 1 {
                it.advance().or_fail("advance after the end fails")?;
                it.get().is_some()
            } else {
                it.next().or_fail("next after the end fails")?.is_some()
            };
            ensure!(!more, "end", "the iterator goes on after its end");
            ensure!(it.features_count() == announced, "count changes", "the count changes to {:?} after the end", it.features_count());
            ensure!(it.size_hint() == (0, Some(0)), "size hint", "size hint {:?} after the end", it.size_hint());
        }
        Pass { feats, header }
    }};
}

enum Sel {
    All,
    Spatial(Query),
    Attr(fcb_core::AttrQuery),
}

fn c14(c: &mut Case) -> R {
    let avg = [2, 6, 18, 60][c.s.weighted(&[3, 5, 4, 1])];
    let sc = scene(c.s, &Plan { avg, max: 2000, attrs: true, bare: c.index % 4 == 0, spatial: None, wide: 600 });
    c.class_if(sc.feats.len() > 10_000, "tens of thousands of features");
    c.note(|| sc.describe());
    let bytes = sc.write().or_fail("writing fails")?;
    let n = sc.feats.len();
    let any = sc.cols.iter().any(|x| x.indexed);
    let kind = c.s.below(3);
    let sel = match kind {
        1 if sc.opts.write_index && n > 0 => Sel::Spatial(sc.spatial_query(c.s)),
        2 if any => Sel::Attr(sc.attr_query(&sc.conds(c.s, 2))),
        _ => Sel::All,
    };
    c.class(match &sel {
        Sel::All => "all",
        Sel::Spatial(_) => "spatial query",
        Sel::Attr(_) => "attribute query",
    });
    c.note(|| match &sel {
        Sel::All => "all".into(),
        Sel::Spatial(q) => format!("{q:?}"),
        Sel::Attr(q) => format!("{q:?}"),
    });
    let steps: Vec<u8> = (0..c.s.usize_in(1, 4)).map(|_| c.s.below(8) as u8).collect();
    let mut passes: Vec<(String, Pass)> = vec![];
    for run in 0..3 {
        let ch = if run == 0 { vec![1 << 20] } else { chunks(c) };
        let seq = run == 1 || (run == 2 && c.s.chance(1, 2));
        let verify = c.s.chance(4, 5);
        let who = format!("{} reader, reads of {ch:?} bytes{}", if seq { "sequential" } else { "seekable" }, if verify { "" } else { ", unverified" });
        let steps = if run == 0 { vec![0] } else { steps.clone() };
        let p = guarded(|| {
            let rd = Chunked { data: &bytes, pos: 0, sizes: ch.clone(), i: 0 };
            // the bytes come straight from the writer
            let rd = if verify { FcbReader::open(rd) } else { unsafe { FcbReader::open_unchecked(rd) } }.or_fail("open fails")?;
            Ok(match (&sel, seq) {
                (Sel::All, false) => pass!(c, rd.select_all().or_fail("select_all fails")?, n, steps),
                (Sel::All, true) => pass!(c, rd.select_all_seq().or_fail("select_all_seq fails")?, n, steps),
                (Sel::Spatial(q), false) => pass!(c, rd.select_query(*q).or_fail("select_query fails")?, n, steps),
                (Sel::Spatial(q), true) => pass!(c, rd.select_query_seq(*q).or_fail("select_query_seq fails")?, n, steps),
                (Sel::Attr(q), false) => pass!(c, rd.select_attr_query(q.clone()).or_fail("select_attr_query fails")?, n, steps),
                (Sel::Attr(q), true) => pass!(c, rd.select_attr_query_seq(q.clone()).or_fail("select_attr_query_seq fails")?, n, steps),
            })
        })?;
        passes.push((who, p));
    }
    let first = &passes[0];
    if first.1.feats.len() > 1 {
        c.nontrivial(format!("{:?}{:?}", bytes.len(), first.1.feats).as_bytes());
    }
    c.class_if(first.1.feats.is_empty(), "nothing selected");
    for p in &passes[1..] {
        ensure!(p.1.feats.len() == first.1.feats.len(), "readers disagree on the number", "{} yields {} features, {} yields {}", first.0, first.1.feats.len(), p.0, p.1.feats.len());
        for (a, b) in first.1.feats.iter().zip(&p.1.feats) {
            ensure!(a == b, "readers disagree", "{} yields {a}, {} yields {b}", first.0, p.0);
        }
        ensure!(p.1.header == first.1.header, "readers disagree on the header", "{:?} and {:?}", first.1.header, p.1.header);
    }
    Ok(())
}

fn c18(c: &mut Case) -> R {
    let avg = [2, 8, 20, 70][c.s.weighted(&[2, 5, 4, 1])];
    let a = scene(c.s, &Plan { avg, max: 2000, attrs: true, bare: c.index % 4 == 0, spatial: None, wide: 600 });
    c.class_if(a.feats.len() > 10_000, "tens of thousands of features");
    let n = a.feats.len();
    // the same features in another order, with other indices
    let mut b = a.clone();
    let mut perm: Vec<usize> = (0..n).collect();
    match c.s.below(4) {
        0 => {}
        1 => perm.reverse(),
        2 => {
            let k = if n > 0 { c.s.below(n as u64) as usize } else { 0 };
            perm.rotate_left(k);
        }
        _ => {
            for i in (1..n).rev() {
                perm.swap(i, c.s.below(i as u64 + 1) as usize);
            }
        }
    }
    b.feats = perm.iter().map(|i| a.feats[*i].clone()).collect();
    b.opts.write_index = c.s.chance(1, 2);
    if let Some(ix) = &mut b.opts.indices {
        ix.retain(|_| c.s.chance(3, 4));
        for x in ix.iter_mut() {
            x.1 = *c.s.pick(&[None, Some(2), Some(4), Some(7), Some(64)]);
        }
        ix.reverse();
    }
    if c.s.chance(1, 6) {
        b.opts.indices = None;
    }
    b.opts.extent = c.s.chance(1, 3).then_some([0.0, 1.0, 2.0, 3.0, 4.0, 5.0]);
    let kept: Vec<String> = b.opts.indices.iter().flatten().map(|x| x.0.clone()).collect();
    for (i, col) in b.cols.iter_mut().enumerate() {
        col.indexed = a.cols[i].indexed && kept.contains(&col.name);
    }
    c.note(|| format!("{}\nsecond file: order {perm:?}, indices {:?}, spatial index {}", a.describe(), b.opts.indices, b.opts.write_index));
    let same = perm.iter().enumerate().all(|(i, p)| i == *p) && a.opts.write_index == b.opts.write_index && format!("{:?}", a.opts.indices) == format!("{:?}", b.opts.indices);
    c.class_if(a.opts.write_index != b.opts.write_index, "spatial index on and off");
    c.class_if(!same, "configurations differ");
    let fa = a.write().or_fail("writing fails")?;
    let fb = b.write().or_fail("writing fails")?;
    let read = |bytes: &[u8]| -> Result<Vec<String>, crate::engine::Failure> {
        let mut it = FcbReader::open(Cursor::new(bytes)).or_fail("open fails")?.select_all().or_fail("select_all fails")?;
        let mut v: Vec<String> = drain_iter!(it).or_fail("reading fails")?.iter().map(|f| crate::norm::canon(&crate::norm::feature(f))).collect();
        v.sort();
        Ok(v)
    };
    let (ra, rb) = (guarded(|| read(&fa))?, guarded(|| read(&fb))?);
    ensure!(ra.len() == n && rb.len() == n, "number of features", "{} and {} features decoded of {n}", ra.len(), rb.len());
    for (x, y) in ra.iter().zip(&rb) {
        ensure!(x == y, "content differs", "decoded from the first file: {x}, from the second: {y}");
    }
    let answers = |bytes: &[u8], sq: Option<Query>, aq: Option<fcb_core::AttrQuery>| -> Result<Vec<String>, crate::engine::Failure> {
        let rd = FcbReader::open(Cursor::new(bytes)).or_fail("open fails")?;
        let mut v: Vec<String> = match (sq, aq) {
            (Some(q), _) => {
                let mut it = rd.select_query(q).or_fail("select_query fails")?;
                drain_iter!(it).or_fail("reading fails")?
            }
            (_, Some(q)) => {
                let mut it = rd.select_attr_query(q).or_fail("select_attr_query fails")?;
                drain_iter!(it).or_fail("reading fails")?
            }
            _ => vec![],
        }
        .into_iter()
        .map(|f| f.id)
        .collect();
        v.sort();
        Ok(v)
    };
    let mut partly = false;
    for _ in 0..2 {
        if a.opts.write_index && b.opts.write_index && n > 0 {
            let q = a.spatial_query(c.s);
            if let Query::PointNearest(..) = q {
                continue; // ties may be broken either way
            }
            c.note(|| format!("{q:?}"));
            c.class("spatial query on both");
            let (x, y) = guarded(|| Ok((answers(&fa, Some(q), None)?, answers(&fb, Some(q), None)?)))?;
            ensure!(x == y, "spatial answers differ", "{q:?}: {x:?} in the first file, {y:?} in the second");
            partly |= !x.is_empty() && x.len() < n;
        }
        let conds = b.conds(c.s, 2);
        if !conds.is_empty() {
            let q = b.attr_query(&conds);
            c.note(|| format!("{q:?}"));
            c.class("attribute query on both");
            let (x, y) = guarded(|| Ok((answers(&fa, None, Some(q.clone()))?, answers(&fb, None, Some(q.clone()))?)))?;
            ensure!(x == y, "attribute answers differ", "{q:?}: {x:?} in the first file, {y:?} in the second");
            partly |= !x.is_empty() && x.len() < n;
        }
    }
    if n > 2 && !same && partly {
        c.nontrivial(&fb);
    }
    Ok(())
}
