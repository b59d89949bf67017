//! C21: the schema and the indices the header describes, through every accessor.
use crate::engine::{fail, Case, Prop, R};
use crate::ensure;
use crate::fcb::{self, Or};
use crate::gen;
use crate::http::Server;
use crate::loopback::block_on;
use crate::scene::{scene, Plan, INDEXABLE};
use fallible_streaming_iterator::FallibleStreamingIterator;
use fcb_core::attribute::AttributeSchema;
use fcb_core::{FcbReader, FcbWriter, HttpFcbReader, Meta};
use std::io::Cursor;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C21",
        level: "exploration",
        rule: "a schema of at least two columns and at least one feature",
        assumptions: &["the columns of a schema have different names and numbers"],
        quick: 120_000,
        thorough: 3_000_000,
        run: c21,
        probes: &[],
    }]
}

type Cols = Vec<(u16, String, String)>;

fn of_schema(s: &Option<AttributeSchema>) -> Cols {
    let mut v: Cols = s.iter().flatten().map(|(n, (i, t))| (*i, n.clone(), format!("{t:?}"))).collect();
    v.sort();
    v
}

/// in the order of the file
fn of_header<'a>(v: Option<flatbuffers::Vector<'a, flatbuffers::ForwardsUOffset<fcb_core::Column<'a>>>>) -> Cols {
    v.iter().flatten().map(|c| (c.index(), c.name().to_string(), format!("{:?}", c.type_()))).collect()
}

fn sorted(mut c: Cols) -> Cols {
    c.sort();
    c
}

fn check_meta(m: Result<Meta, fcb_core::error::Error>, cols: &Cols, n: usize, indexed: &[u16]) -> R {
    let m = match m {
        Ok(m) => m,
        // a file without columns has no summary of them
        Err(_) if cols.is_empty() => return Ok(()),
        Err(e) => return fail("meta", format!("meta: {e}")),
    };
    ensure!(m.feature_count == n as u64, "meta count", "{n} features, meta says {}", m.feature_count);
    let got: Cols = m.columns.iter().map(|c| (c.index, c.name.clone(), format!("{:?}", c._type))).collect();
    ensure!(sorted(got.clone()) == *cols, "meta columns", "schema {cols:?}, meta says {got:?}");
    for c in &m.columns {
        ensure!(c.attr_index == Some(indexed.contains(&c.index)), "meta index", "column {} {:?}: meta says indexed {:?}, the header has indices of {indexed:?}", c.index, c.name, c.attr_index);
    }
    // the summary is passed on as JSON
    let text = serde_json::to_string(&m).or_fail("meta as JSON")?;
    let back: Meta = serde_json::from_str(&text).or_fail("meta from JSON")?;
    ensure!(back == m, "meta JSON", "{text}");
    let v: serde_json::Value = serde_json::from_str(&text).unwrap();
    ensure!(v["featureCount"] == serde_json::json!(n) && v["columns"].as_array().is_some_and(|a| a.len() == m.columns.len() && a.iter().all(|c| c["name"].is_string() && c["type"].is_string() && c["attrIndex"].is_boolean())), "meta JSON", "{text}");
    Ok(())
}

fn c21(c: &mut Case) -> R {
    let sc = scene(c.s, &Plan { avg: 3, max: 40, attrs: c.index % 9 != 0, bare: false, spatial: None, wide: 0 });
    // columns nothing has values for
    let mut schema = sc.schema.clone();
    if c.s.chance(1, 2) {
        let more = gen::columns(c.s, super::roundtrip::ALL_TYPES, 8);
        let s = schema.get_or_insert_with(AttributeSchema::new);
        for m in more {
            let Some(free) = (0..=u16::MAX).rev().find(|i| !s.values().any(|(j, _)| j == i)) else { break };
            let low = c.s.below(u16::MAX as u64 + 1) as u16;
            let at = if s.values().any(|(j, _)| *j == low) { free } else { low };
            if !s.contains_key(&m.name) {
                s.insert(m.name, (at, m.ty));
            }
        }
    }
    let sem = c.s.chance(1, 2).then(|| {
        let cols = gen::columns(c.s, super::roundtrip::ALL_TYPES, 8);
        let first = *c.s.pick(&[0u16, 0, 5, 60_000]);
        cols.into_iter().enumerate().map(|(i, m)| (m.name, (first + i as u16, m.ty))).collect::<AttributeSchema>()
    });
    // indices of columns without values, of types without order, of unknown names
    let mut opts = sc.opts.clone();
    let mut extra = vec![];
    if c.s.chance(1, 2) {
        let mut names: Vec<String> = schema.iter().flatten().map(|(n, _)| n.clone()).collect();
        names.sort();
        names.push("no such column".into());
        let l = opts.indices.get_or_insert_with(Vec::new);
        for _ in 0..c.s.below(4) {
            let n = c.s.pick(&names).clone();
            if !l.iter().any(|(m, _)| *m == n) && !sc.cols.iter().any(|k| k.name == n) {
                l.push((n.clone(), Some(4)));
                extra.push(n);
            }
        }
    }
    let cols = of_schema(&schema);
    let sems = of_schema(&sem);
    c.note(|| format!("{}; schema {cols:?}, semantic schema {sems:?}, indices {:?}", sc.describe(), opts.indices));
    c.class_if(cols.is_empty(), "no columns");
    c.class_if(!sems.is_empty(), "semantic columns");
    c.class_if(!extra.is_empty(), "indices that cannot be built");
    for k in &cols {
        c.class(format!("column {}", k.2));
    }
    let n = sc.feats.len();
    if cols.len() > 1 && n > 0 {
        c.nontrivial(format!("{cols:?}{sems:?}{:?}", opts.indices).as_bytes());
    }
    let mut bytes = vec![];
    {
        let mut w = FcbWriter::new(sc.cj.clone(), Some(fcb::header_options(&opts, n)), schema.clone(), sem).or_fail("new fails")?;
        for f in &sc.feats {
            w.add_feature(f).or_fail("add_feature fails")?;
        }
        w.write(&mut bytes).or_fail("write fails")?;
    }
    let rd = FcbReader::open(Cursor::new(&bytes)).or_fail("open fails")?;
    let mut indexed: Vec<u16> = vec![];
    {
        let h = rd.header();
        let got = of_header(h.columns());
        ensure!(got == cols, "columns", "schema {cols:?}, header {got:?}");
        ensure!(of_header(rd.root_attr_schema()) == cols, "root_attr_schema", "differs from the header");
        let got = of_header(h.semantic_columns());
        ensure!(got == sems, "semantic columns", "schema {sems:?}, header {got:?}");
        ensure!(h.features_count() == n as u64, "count", "{n} features, header {}", h.features_count());
        let want: Vec<(u16, Option<u16>)> = opts
            .indices
            .iter()
            .flatten()
            .filter(|(name, _)| sc.cols.iter().any(|k| k.name == *name && k.indexed && INDEXABLE.contains(&k.ty)))
            .map(|(name, bf)| (schema.as_ref().unwrap()[name].0, *bf))
            .collect();
        let got: Vec<(u16, u16)> = h.attribute_index().iter().flatten().map(|a| (a.index(), a.branching_factor())).collect();
        let number = |v: Vec<u16>| {
            let mut v = v;
            v.sort();
            v
        };
        ensure!(number(got.iter().map(|g| g.0).collect()) == number(want.iter().map(|w| w.0).collect()), "indices", "asked for {:?}, header {got:?}", opts.indices);
        for (i, bf) in want {
            let got = got.iter().find(|g| g.0 == i).unwrap().1;
            ensure!(bf.is_none_or(|b| b == got), "branching factor", "asked for {bf:?} of column {i}, header {got}");
        }
        indexed.extend(got.iter().map(|g| g.0));
    }
    // every feature of every kind of iterator carries the same header
    let mut a = rd.select_all().or_fail("select_all fails")?;
    let mut b = FcbReader::open(Cursor::new(&bytes)).or_fail("open fails")?.select_all_seq().or_fail("select_all_seq fails")?;
    ensure!(of_header(a.root_attr_schema()) == cols && of_header(a.header().semantic_columns()) == sems, "iterator header", "differs from the header");
    for i in 0..n {
        a.advance().or_fail("advance fails")?;
        b.advance().or_fail("advance fails")?;
        let text = |f| crate::norm::canon(&crate::norm::feature(&f));
        let own = text(a.cur_cj_feature().or_fail("decoding fails")?);
        let len = a.cur_feature_len();
        let id = a.cur_feature().id().to_string();
        ensure!(a.get_current_feature().id() == id, "current feature", "{id}");
        let (x, y) = (a.get(), b.get());
        let (Some(x), Some(y)) = (x, y) else { return fail("get", format!("no feature {i} of {n}")) };
        ensure!(len == x.features_buf.len() && x.features_buf == y.features_buf && x.header_buf == y.header_buf, "buffers", "feature {i}: {len} bytes, {} and {}", x.features_buf.len(), y.features_buf.len());
        ensure!(x.feature().id() == id, "buffer feature", "{id}");
        for buf in [x, y] {
            ensure!(text(buf.cj_feature().or_fail("decoding the buffer fails")?) == own, "cj_feature", "feature {i} differs");
            if i == 0 {
                check_meta(buf.meta(), &cols, n, &indexed)?;
            }
        }
    }
    // over HTTP
    if c.index % 11 == 0 {
        let server = Server::new(bytes.clone());
        let r: R = block_on(async {
            let rd = HttpFcbReader::new(server.client()).await.or_fail("remote open fails")?;
            ensure!(of_header(rd.header().columns()) == cols && of_header(rd.header().semantic_columns()) == sems, "remote header", "differs");
            let it = rd.select_all().await.or_fail("remote select_all fails")?;
            ensure!(of_header(it.header().columns()) == cols, "remote iterator header", "differs");
            check_meta(it.cur_feature().meta(), &cols, n, &indexed)
        });
        r?;
        c.class("over HTTP");
    }
    Ok(())
}
