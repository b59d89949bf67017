//! C01–C07: what is written comes back.
use crate::engine::{Case, Probe, Prop, R};
use crate::ensure;
use crate::fcb::{self, Opts, Or};
use crate::gen::{self, GeomOpts, Prof};
use crate::loopback::{self, Page};
use crate::norm;
use crate::tape::Src;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::attribute::AttributeSchema;
use fcb_core::fb::ColumnType as CT;
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C01", level: "exploration", rule: "at least two features and at least one city object with vertices", assumptions: &[], quick: 200_000, thorough: 4_000_000, run: c01, probes: &[] },
        Prop { id: "C02", level: "exploration", rule: "a metadata object with at least two fields", assumptions: &[], quick: 400_000, thorough: 8_000_000, run: c02, probes: &[Probe { name: "crs_version", run: probe_crs_version }, Probe { name: "crs_base_url", run: probe_crs_base }] },
        Prop { id: "C03", level: "exploration", rule: "a geometry of a nested type (surface or deeper) or with semantics", assumptions: &[], quick: 300_000, thorough: 6_000_000, run: c03, probes: &[Probe { name: "semantic_attr_wide_mix", run: probe_semantic_wide_mix }] },
        Prop { id: "C04", level: "exploration", rule: "an appearance with materials or textures, referenced by a geometry", assumptions: &[], quick: 250_000, thorough: 5_000_000, run: c04, probes: &[] },
        Prop { id: "C05", level: "exploration", rule: "at least two columns and two attribute values", assumptions: &[], quick: 350_000, thorough: 7_000_000, run: c05, probes: &[] },
        Prop { id: "C06", level: "exploration", rule: "at least one template and one instance", assumptions: &[], quick: 250_000, thorough: 5_000_000, run: c06, probes: &[] },
        Prop { id: "C07", level: "exploration", rule: "an extension declaration or an extension type next to a standard type", assumptions: &[], quick: 250_000, thorough: 5_000_000, run: c07, probes: &[] },
    ]
}

pub fn rand_opts(s: &mut Src) -> Opts {
    Opts { write_index: s.chance(1, 2), ..Default::default() }
}

/// Columns declared as `Float` keep single precision; what is beyond it does not fit the column.
fn single_precision(schema: &Option<AttributeSchema>, feature: &mut Value) {
    for (name, (_, t)) in schema.iter().flatten() {
        if *t != CT::Float {
            continue;
        }
        for o in feature["CityObjects"].as_object_mut().into_iter().flat_map(|m| m.values_mut()) {
            let Some(a) = o.get_mut("attributes").and_then(|a| a.as_object_mut()) else { continue };
            if let Some(x) = a.get(name).and_then(|v| v.as_f64()) {
                let x = x as f32;
                if x.is_finite() {
                    a.insert(name.clone(), json!(x as f64));
                } else {
                    a.remove(name);
                }
            }
            if a.is_empty() {
                o.as_object_mut().unwrap().remove("attributes");
            }
        }
    }
}

/// write, read back, compare every feature
fn round(cj: &CityJSON, feats: &[CityJSONFeature], schema: Option<AttributeSchema>, sem: Option<AttributeSchema>, o: &Opts) -> Result<fcb::Decoded, crate::engine::Failure> {
    let bytes = fcb::write(cj, feats, schema.clone(), sem, o).or_fail("write fails")?;
    read_back(&bytes, feats, &schema, o)
}

fn read_back(bytes: &[u8], feats: &[CityJSONFeature], declared: &Option<AttributeSchema>, o: &Opts) -> Result<fcb::Decoded, crate::engine::Failure> {
    let d = fcb::read_all(bytes).or_fail("read fails")?;
    let mut want: Vec<Value> = feats.iter().map(norm::feature).collect();
    let mut got: Vec<Value> = d.feats.iter().map(norm::feature).collect();
    want.iter_mut().chain(got.iter_mut()).for_each(|f| single_precision(declared, f));
    if o.write_index {
        if let Some(m) = fcb::same_multiset(&want, &got) {
            return crate::engine::fail("features differ", m);
        }
    } else {
        ensure!(want.len() == got.len(), "number of features", "{} features written, {} read", want.len(), got.len());
        for (i, (a, b)) in want.iter().zip(&got).enumerate() {
            if let Some(m) = norm::diff(a, b) {
                return crate::engine::fail("features differ", format!("feature {i}: {m}"));
            }
        }
    }
    ensure!(d.header_count == feats.len() as u64, "feature count", "{} features written, the header says {}", feats.len(), d.header_count);
    ensure!(d.iter_count == Some(feats.len()) || (feats.is_empty() && d.iter_count.is_none()), "iterator count", "{} features, the iterator reports {:?}", feats.len(), d.iter_count);
    Ok(d)
}

fn c01(c: &mut Case) -> R {
    let p = Prof { attributes: false, wide: 200, focus: &[0, 1, 2, 13, 13, 16], ..Prof::plain() };
    let ds = gen::dataset(c.s, &p);
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    let o = rand_opts(c.s);
    let (cj, feats) = (ds.cj(), ds.feats());
    c.class(match feats.len() {
        0 => "no feature",
        1 => "one feature",
        2..=16 => "2 to 16 features",
        _ => "more than 16 features",
    });
    c.class(if o.write_index { "with spatial index" } else { "insertion order" });
    c.class_if(feats.iter().any(|f| f.city_objects.is_empty()), "a feature without city objects");
    c.class_if(feats.iter().any(|f| f.vertices.is_empty()), "a feature without vertices");
    let text = ds.jsonl();
    c.note(|| format!("index: {}\n{text}", o.write_index));
    if feats.len() >= 2 && feats.iter().any(|f| !f.vertices.is_empty() && !f.city_objects.is_empty()) {
        c.nontrivial(text.as_bytes());
    }
    round(&cj, &feats, None, None, &o)?;
    Ok(())
}

fn c02(c: &mut Case) -> R {
    let p = Prof { max_features: 3, avg_features: 1, geometry: false, attributes: false, metadata: true, focus: &[10], ..Prof::plain() };
    let mut ds = gen::dataset(c.s, &p);
    if c.s.chance(1, 4) {
        // any numbers as the transform
        for k in ["scale", "translate"] {
            ds.header["transform"][k] = json!([gen::finite(c.s), gen::finite(c.s), gen::finite(c.s)]);
        }
    }
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    let mut o = rand_opts(c.s);
    if c.s.chance(1, 3) {
        o.extent = Some(gen::extent(c.s));
    }
    let (cj, feats) = (ds.cj(), ds.feats());
    let md = ds.header.get("metadata");
    c.class(match md {
        None => "no metadata",
        Some(m) if m.get("geographicalExtent").is_some() => "metadata with an extent",
        Some(_) => "metadata without an extent",
    });
    c.class_if(o.extent.is_some(), "extent option");
    c.class_if(md.map(|m| m.get("pointOfContact").is_some()).unwrap_or(false), "point of contact");
    let text = ds.header.to_string();
    c.note(|| format!("extent option: {:?}\n{text}", o.extent));
    if md.map(|m| m.as_object().unwrap().len() >= 2).unwrap_or(false) {
        c.nontrivial(text.as_bytes());
    }
    let bytes = fcb::write(&cj, &feats, None, None, &o).or_fail("write fails")?;
    let d = fcb::read_all(&bytes).or_fail("read fails")?;
    let mut want = norm::metadata_object(&cj);
    if let Some(e) = o.extent {
        if want.get("metadata").is_none() {
            want["metadata"] = json!({});
        }
        want["metadata"]["geographicalExtent"] = json!(e);
    }
    let got = norm::metadata_object(&d.cj);
    if let Some(m) = norm::diff(&want, &got) {
        return crate::engine::fail("metadata differs", m);
    }
    // -0.0 and 0.0 compare equal above, so check the transform bit for bit
    let bits = |t: &cjseq::Transform| t.scale.iter().chain(&t.translate).map(|x| x.to_bits()).collect::<Vec<_>>();
    ensure!(bits(&cj.transform) == bits(&d.cj.transform), "transform", "transform {:?} became {:?}", cj.transform, d.cj.transform);
    Ok(())
}

fn geom_counts(feats: &[Value]) -> (usize, usize, usize) {
    let (mut deep, mut sem, mut all) = (0, 0, 0);
    for f in feats {
        for (_, o) in f["CityObjects"].as_object().unwrap() {
            for g in o["geometry"].as_array().into_iter().flatten() {
                all += 1;
                deep += g["type"].as_str().map(|t| t.contains("S")).unwrap_or(false) as usize;
                sem += g.get("semantics").is_some() as usize;
            }
        }
    }
    (deep, sem, all)
}

fn c03(c: &mut Case) -> R {
    let p = Prof {
        max_features: 4,
        avg_features: 2,
        hierarchy: false,
        attributes: false,
        geom: GeomOpts { semantics: true, ..Default::default() },
        wide: 120, focus: &[3, 3, 5], ..Prof::plain()
    };
    let ds = gen::dataset(c.s, &p);
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    let o = rand_opts(c.s);
    let (cj, feats) = (ds.cj(), ds.feats());
    for f in &ds.features {
        for (_, ob) in f["CityObjects"].as_object().unwrap() {
            for g in ob["geometry"].as_array().into_iter().flatten() {
                let t = g["type"].as_str().unwrap();
                c.class(t);
                c.class_if(g.get("semantics").is_some(), &format!("{t} with semantics"));
                c.class_if(g["boundaries"].as_array().unwrap().is_empty(), "empty boundaries");
                c.class_if(g["boundaries"].as_array().unwrap().len() == 1, &format!("{t} with one part"));
            }
        }
    }
    let text = ds.jsonl();
    c.note(|| text.clone());
    let (deep, sem, _) = geom_counts(&ds.features);
    if deep + sem > 0 {
        c.nontrivial(text.as_bytes());
    }
    let sem = fcb::infer_sem_schema(&cj, &feats);
    round(&cj, &feats, None, sem, &o)?;
    Ok(())
}

fn c04(c: &mut Case) -> R {
    let p = Prof {
        max_features: 3,
        avg_features: 2,
        hierarchy: false,
        attributes: false,
        appearance: true,
        geom: GeomOpts { materials: true, textures: true, ..Default::default() },
        wide: 120, focus: &[3, 3, 6, 9], often: true, ..Prof::plain()
    };
    let mut ds = gen::dataset(c.s, &p);
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    if c.s.chance(1, 2) {
        let a = gen::appearance(c.s);
        ds.header["appearance"] = a;
        c.class("appearance in the header");
    }
    if c.s.chance(1, 3) {
        ds.header["metadata"] = gen::metadata(c.s);
    }
    let o = rand_opts(c.s);
    let (cj, feats) = (ds.cj(), ds.feats());
    let mut used = false;
    for f in &ds.features {
        for (_, ob) in f["CityObjects"].as_object().unwrap() {
            for g in ob["geometry"].as_array().into_iter().flatten() {
                let t = g["type"].as_str().unwrap();
                for k in ["material", "texture"] {
                    if g.get(k).is_some() {
                        used = true;
                        c.class(format!("{t} with {k}"));
                    }
                }
            }
        }
    }
    let text = ds.jsonl();
    c.note(|| text.clone());
    if used {
        c.nontrivial(text.as_bytes());
    }
    let d = round(&cj, &feats, None, None, &o)?;
    let want = serde_json::to_value(&cj.appearance).unwrap();
    let got = serde_json::to_value(&d.cj.appearance).unwrap();
    if let Some(m) = norm::diff(&want, &got) {
        return crate::engine::fail("header appearance differs", m);
    }
    Ok(())
}

pub const ALL_TYPES: &[CT] = &[CT::Bool, CT::Byte, CT::UByte, CT::Short, CT::UShort, CT::Int, CT::UInt, CT::Long, CT::ULong, CT::Float, CT::Double, CT::String, CT::DateTime, CT::Json, CT::Binary];

/// a schema inferred from more attributes than columns can be numbered
fn many_columns(c: &mut Case) -> R {
    let n = *c.s.pick(&[65_535usize, 65_536, 65_537, 65_600, 70_000]);
    let kinds = |i: usize| [json!(i), json!(format!("t{i}")), json!(-0.5), json!(true)][i % 4].clone();
    let object = |from: usize, to: usize| -> CityJSONFeature {
        let a: serde_json::Map<String, Value> = (from..to).map(|i| (format!("w{i}"), kinds(i))).collect();
        serde_json::from_value(json!({"type": "CityJSONFeature", "id": "f", "CityObjects": {"f": {"type": "Building", "attributes": a}}, "vertices": []})).unwrap()
    };
    let half = c.s.usize_in(1, n - 1);
    c.class("more attributes than columns can be numbered");
    c.note(|| format!("a schema inferred from {n} attributes of two features"));
    c.nontrivial(format!("{n} {half}").as_bytes());
    let schema = fcb::infer_schema(&[object(0, half), object(half, n)]);
    let feats: Vec<CityJSONFeature> = [(0, 3), (half.saturating_sub(2), (half + 2).min(n)), (n - 3, n), (65_535.min(n - 1), n.min(65_540))].iter().map(|(a, b)| object(*a, *b)).collect();
    let cj: CityJSON = serde_json::from_value(bare_header()).unwrap();
    round(&cj, &feats, schema, None, &Opts { write_index: false, ..Default::default() })?;
    // an object with so many attributes is refused or kept, which takes long to read back
    if n > 65_537 {
        let bytes = fcb::write(&cj, &[object(0, n)], None, None, &Opts::default());
        ensure!(bytes.is_err(), "too many attributes", "an object with {n} attributes, more than columns can be numbered, is no error");
    }
    Ok(())
}

fn c05(c: &mut Case) -> R {
    if c.index % 20_011 == 77 {
        return many_columns(c);
    }
    let p = Prof { max_features: 6, avg_features: 3, hierarchy: false, geometry: false, wide: 120, focus: &[12, 14, 10, 11], ..Prof::plain() };
    let mode = c.s.weighted(&[4, 3, 3]);
    let mut wide = None;
    let inflate = |s: &mut Src, feats: &mut Vec<Value>, wide: &mut Option<String>| {
        if s.chance(1, p.wide) {
            let mut ds = gen::Dataset { header: Value::Null, features: std::mem::take(feats), columns: vec![], wide: None };
            *wide = (0..4).find_map(|_| crate::wide::inflate(s, &mut ds, p.focus));
            *feats = ds.features;
        }
    };
    let (header, feats, cols, schema) = match mode {
        0 => {
            c.class("declared schema");
            let cols = gen::columns(c.s, ALL_TYPES, 10);
            let header = gen::header(c.s, &p, &mut GeomOpts::default());
            // values of other types than the column's, attributes the schema does not have
            let unfit = c.s.chance(1, 4);
            let lacking = c.s.chance(1, 4);
            let mut feats: Vec<Value> = c.s.list(0, 6, 3, |s, i| {
                gen::feature(s, i, &p, &GeomOpts::default(), &cols, &mut |s, t| {
                    let t = if unfit && s.chance(1, 3) { *s.pick(gen::INFERRED) } else { t };
                    let mut v = gen::value_for(s, t);
                    if unfit {
                        gen::stabilise(&mut v);
                    }
                    v
                })
            });
            inflate(c.s, &mut feats, &mut wide);
            // column numbers in another order than the names, with gaps
            let rot = c.s.below(cols.len().max(1) as u64) as usize;
            let (step, first) = *c.s.pick(&[(1, 0), (1, 0), (1, 0), (1, 7), (3, 1), (6000, 0)]);
            let mut schema = AttributeSchema::new();
            for (i, col) in cols.iter().enumerate() {
                if !lacking || c.s.chance(1, 2) {
                    schema.insert(col.name.clone(), (((i + rot) % cols.len() * step + first) as u16, col.ty));
                }
            }
            c.class_if(unfit, "values of other types than the column");
            c.class_if(lacking, "attributes the schema does not have");
            c.class_if(step > 1 || first > 0, "gaps between the column numbers");
            (header, feats, cols, Some(schema))
        }
        1 => {
            c.class("inferred schema, one type per attribute");
            let ds = gen::dataset(c.s, &p);
            wide = ds.wide.clone();
            let schema = fcb::infer_schema(&ds.feats());
            (ds.header, ds.features, ds.columns, schema)
        }
        _ => {
            c.class("inferred schema, mixed types");
            let cols = gen::columns(c.s, gen::INFERRED, 6);
            let header = gen::header(c.s, &p, &mut GeomOpts::default());
            let mut feats: Vec<Value> = c.s.list(0, 6, 3, |s, i| {
                gen::feature(s, i, &p, &GeomOpts::default(), &cols, &mut |s, t| {
                    let t = if s.chance(1, 3) { *s.pick(gen::INFERRED) } else { t };
                    let mut v = gen::inferred_value(s, t);
                    gen::stabilise(&mut v);
                    v
                })
            });
            inflate(c.s, &mut feats, &mut wide);
            let f2: Vec<CityJSONFeature> = feats.iter().map(|f| serde_json::from_value(f.clone()).unwrap()).collect();
            let schema = fcb::infer_schema(&f2);
            (header, feats, cols, schema)
        }
    };
    let ds = gen::Dataset { header, features: feats, columns: cols, wide: None };
    if let Some(w) = wide {
        c.class(format!("many {w}"));
    }
    let (cj, feats) = (ds.cj(), ds.feats());
    for col in &ds.columns {
        c.class(format!("column {}", gen::type_name(col.ty)));
    }
    let nvals: usize = ds
        .features
        .iter()
        .flat_map(|f| f["CityObjects"].as_object().unwrap().values())
        .map(|o| o["attributes"].as_object().map(|a| a.values().filter(|v| !v.is_null()).count()).unwrap_or(0))
        .sum();
    let o = rand_opts(c.s);
    let text = ds.jsonl();
    c.note(|| format!("schema {schema:?}\n{text}"));
    if ds.columns.len() >= 2 && nvals >= 2 {
        c.nontrivial(format!("{schema:?}{text}").as_bytes());
    }
    round(&cj, &feats, schema, None, &o)?;
    Ok(())
}

fn c06(c: &mut Case) -> R {
    let p = Prof {
        max_features: 3,
        avg_features: 2,
        hierarchy: false,
        attributes: false,
        templates: true,
        geom: GeomOpts { semantics: true, instances: true, ..Default::default() },
        wide: 150, focus: &[3, 7, 8], often: true, ..Prof::plain()
    };
    let mut ds = gen::dataset(c.s, &p);
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    if c.s.chance(1, 3) {
        ds.header["metadata"] = gen::metadata(c.s);
    }
    let o = rand_opts(c.s);
    let (cj, feats) = (ds.cj(), ds.feats());
    let nt = cj.geometry_templates.as_ref().map(|t| t.templates.len()).unwrap_or(0);
    let mut ni = 0;
    for f in &ds.features {
        for (_, ob) in f["CityObjects"].as_object().unwrap() {
            let n = ob["geometry"].as_array().map(|g| g.iter().filter(|g| g["type"] == "GeometryInstance").count()).unwrap_or(0);
            ni += n;
            c.class_if(n > 0 && ob["geometry"].as_array().unwrap().len() > n, "instances next to ordinary geometries");
        }
    }
    c.class_if(nt > 0, "templates");
    c.class_if(ni > 0, "instances");
    let text = ds.jsonl();
    c.note(|| text.clone());
    if nt > 0 && ni > 0 {
        c.nontrivial(text.as_bytes());
    }
    let sem = fcb::infer_sem_schema(&cj, &feats);
    let d = round(&cj, &feats, None, sem, &o)?;
    let pick = |cj: &CityJSON| norm::metadata_object(cj).get("geometry-templates").cloned().unwrap_or(Value::Null);
    let (want, got) = (pick(&cj), pick(&d.cj));
    if let Some(m) = norm::diff(&want, &got) {
        return crate::engine::fail("templates differ", m);
    }
    let bits = |cj: &CityJSON| cj.geometry_templates.as_ref().map(|t| t.vertices_templates.iter().flat_map(|v| v.iter().map(|x| x.to_bits())).collect::<Vec<_>>());
    ensure!(bits(&cj) == bits(&d.cj), "template vertices", "template vertices differ bitwise");
    Ok(())
}

fn c07(c: &mut Case) -> R {
    let p = Prof {
        max_features: 3,
        avg_features: 2,
        hierarchy: false,
        attributes: false,
        geom: GeomOpts { semantics: true, ..Default::default() },
        ..Prof::plain()
    };
    let mut ds = gen::dataset(c.s, &p);
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    let o = rand_opts(c.s);
    // fetching a declaration takes far longer than everything else
    let served = if c.index % 127 == 0 { extension_files(c) } else { vec![] };
    let fault = !served.is_empty() && c.s.chance(1, 8);
    let sv = loopback::server();
    sv.clear();
    if !served.is_empty() {
        let mut m = serde_json::Map::new();
        for (i, x) in served.iter().enumerate() {
            sv.put(&format!("x{i}"), Page::ok(x.body.to_string().into_bytes()));
            m.insert(x.name.clone(), json!({"url": x.url, "version": x.version}));
        }
        ds.header["extensions"] = Value::Object(m);
        if fault {
            let i = c.s.below(served.len() as u64) as usize;
            let page = match c.s.below(3) {
                0 => Page { cut: Some(c.s.below(100) as u8), ..sv.page(&format!("x{i}")) },
                1 => Page { status: 404, ..Page::ok(b"<html>not here</html>".to_vec()) },
                _ => Page::ok(b"{\"type\": \"CityJSONExtension\"".to_vec()),
            };
            sv.put(&format!("x{i}"), page);
        }
    }
    let (cj, feats) = (ds.cj(), ds.feats());
    let text = ds.jsonl();
    c.note(|| text.clone());
    let ext = text.contains("\"type\":\"+");
    c.class_if(ext, "extension types");
    c.class_if(!served.is_empty(), "extension declarations");
    c.class_if(served.len() > 1, "several extension declarations");
    c.class_if(fault, "a declaration that cannot be fetched");
    if ext || !served.is_empty() {
        c.nontrivial(text.as_bytes());
    }
    let sem = fcb::infer_sem_schema(&cj, &feats);
    if fault {
        ensure!(fcb::write(&cj, &feats, None, sem, &o).is_err(), "unfetched extension", "an extension file that cannot be fetched is no error");
        return Ok(());
    }
    let bytes = fcb::write(&cj, &feats, None, sem, &o).or_fail("write fails")?;
    let d = read_back(&bytes, &feats, &None, &o)?;
    if served.is_empty() {
        ensure!(d.cj.extensions.is_none(), "extensions", "undeclared extensions {:?}", d.cj.extensions);
        return Ok(());
    }
    let want: Vec<Value> = served.iter().map(|x| json!([x.name, x.url, x.version])).collect();
    let mut got: Vec<(String, Value)> = d.cj.extensions.iter().flatten().map(|(k, x)| (k.clone(), json!([k, x.url, x.version]))).collect();
    got.sort_by(|a, b| a.0.cmp(&b.0));
    let got: Vec<Value> = got.into_iter().map(|x| x.1).collect();
    ensure!(want == got, "extensions differ", "{want:?} became {got:?}");
    let rd = fcb_core::FcbReader::open(std::io::Cursor::new(&bytes)).or_fail("open fails")?;
    let h = rd.header();
    let mut stored: Vec<_> = h.extensions().into_iter().flatten().collect();
    stored.sort_by_key(|e| e.name().unwrap_or("").to_string());
    ensure!(stored.len() == served.len(), "extensions differ", "{} extension files stored instead of {}", stored.len(), served.len());
    for (x, e) in served.iter().zip(stored) {
        let text = |t: Option<&str>| t.map(|t| t.to_string());
        ensure!(text(e.description()).as_deref() == x.body["description"].as_str(), "extension description", "{}: {:?} instead of {}", x.name, e.description(), x.body["description"]);
        let parts = [("extraAttributes", e.extra_attributes()), ("extraCityObjects", e.extra_city_objects()), ("extraRootProperties", e.extra_root_properties()), ("extraSemanticSurfaces", e.extra_semantic_surfaces())];
        for (k, v) in parts {
            let v: Value = v.and_then(|t| serde_json::from_str(t).ok()).unwrap_or(Value::Null);
            let want = x.body.get(k).cloned().unwrap_or(json!({}));
            if let Some(m) = norm::diff(&want, &v) {
                return crate::engine::fail("extension file differs", format!("{} {k}: {m}", x.name));
            }
        }
    }
    Ok(())
}

struct Served {
    name: String,
    url: String,
    version: String,
    body: Value,
}

/// extension declarations, by name, and the files they lead to
fn extension_files(c: &mut Case) -> Vec<Served> {
    let base = loopback::server().base();
    let n = c.s.usize_in(1, 3);
    let mut names: Vec<String> = (0..n).map(|_| if c.s.chance(1, 2) { c.s.pick(&["Noise", "Energy", "a b", "Ümlaut"]).to_string() } else { gen::text(c.s) }).collect();
    names.sort();
    names.dedup();
    let mut out = vec![];
    for (i, name) in names.into_iter().enumerate() {
        let tail = *c.s.pick(&["/noise.ext.json", "", "/", "/a%20b.json", "?v=1&w=2", "/deep/er/x.json?q=%C3%BC", "/n.json#part", "/a+b.json"]);
        let mut body = json!({"type": "CityJSONExtension", "name": name, "description": gen::text(c.s)});
        for k in ["extraAttributes", "extraCityObjects", "extraRootProperties", "extraSemanticSurfaces"] {
            if c.s.chance(2, 3) {
                let mut m = serde_json::Map::new();
                for _ in 0..c.s.below(3) {
                    m.insert(format!("+{}", gen::text(c.s)), json!({"type": "object", "properties": {"value": {"type": gen::text(c.s)}, "n": c.s.i64_in(-5, 5)}}));
                }
                body[k] = Value::Object(m);
            }
        }
        out.push(Served { name, url: format!("{base}/x{i}{tail}"), version: if c.s.chance(1, 2) { "1.0".into() } else { gen::text(c.s) }, body });
    }
    out
}

fn probe_round(header: Value, feature: Value) -> R {
    let cj: CityJSON = serde_json::from_value(header).or_fail("parse")?;
    let feats: Vec<CityJSONFeature> = vec![serde_json::from_value(feature).or_fail("parse")?];
    let sem = fcb::infer_sem_schema(&cj, &feats);
    let d = round(&cj, &feats, fcb::infer_schema(&feats), sem, &Opts::default())?;
    if let Some(m) = norm::diff(&serde_json::to_value(&cj.metadata).unwrap(), &serde_json::to_value(&d.cj.metadata).unwrap()) {
        return crate::engine::fail("metadata differs", m);
    }
    Ok(())
}

fn bare_header() -> Value {
    json!({"type": "CityJSON", "version": "2.0", "transform": {"scale": [1.0, 1.0, 1.0], "translate": [0.0, 0.0, 0.0]}, "CityObjects": {}, "vertices": []})
}

fn bare_feature() -> Value {
    json!({"type": "CityJSONFeature", "id": "a", "CityObjects": {"a": {"type": "Building"}}, "vertices": [[0, 0, 0], [1, 0, 0], [0, 1, 0]]})
}

fn probe_semantic_wide_mix() -> R {
    let mut f = bare_feature();
    f["CityObjects"]["a"]["geometry"] = json!([{"type": "MultiSurface", "lod": "1", "boundaries": [[[0, 1, 2]], [[0, 2, 1]]],
        "semantics": {"surfaces": [{"type": "RoofSurface", "sa": -9223372036854775807i64}, {"type": "WallSurface", "sa": 0.5}], "values": [0, 1]}}]);
    probe_round(bare_header(), f)
}

fn probe_crs(url: &str) -> R {
    let mut h = bare_header();
    h["metadata"] = json!({"referenceSystem": url});
    probe_round(h, bare_feature())
}

fn probe_crs_version() -> R {
    probe_crs("https://www.opengis.net/def/crs/OGC/1.3/CRS84")
}

fn probe_crs_base() -> R {
    probe_crs("http://www.opengis.net/def/crs/EPSG/0/7415")
}
