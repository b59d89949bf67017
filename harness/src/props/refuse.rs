//! C20: what cannot be stored is refused.
use crate::engine::{fail, Case, Prop, R};
use crate::ensure;
use crate::fcb::{self, Opts};
use crate::gen::{self, Prof};
use crate::norm;
use crate::tape::Src;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::attribute::AttributeSchema;
use fcb_core::FcbWriter;
use serde_json::{json, Value};
use std::io::Write;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C20",
        level: "exploration",
        rule: "a dataset with an altered value that still parses as CityJSON, or an output that fails or takes part of the data",
        assumptions: &[],
        quick: 150_000,
        thorough: 4_000_000,
        run: c20,
        probes: &[],
    }]
}

/// the places of a value where something can be altered
fn places(v: &Value, path: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(path.clone());
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                path.push(i.to_string());
                places(x, path, out);
                path.pop();
            }
        }
        Value::Object(m) => {
            for (k, x) in m {
                path.push(k.clone());
                places(x, path, out);
                path.pop();
            }
        }
        _ => {}
    }
}

fn at<'a>(v: &'a mut Value, path: &[String]) -> &'a mut Value {
    let mut v = v;
    for p in path {
        v = match v {
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            Value::Object(m) => m.get_mut(p).unwrap(),
            _ => unreachable!(),
        };
    }
    v
}

/// alters one place of the value; says how
fn alter(s: &mut Src, v: &mut Value, numbers: &mut bool, bounds: &mut bool) -> String {
    let mut all = vec![];
    places(v, &mut vec![], &mut all);
    let path = all[s.below(all.len() as u64) as usize].clone();
    let x = at(v, &path);
    let was = x.is_number();
    let how = match x {
        Value::Number(_) => {
            *x = s
                .pick(&[json!(-1), json!(0), json!(7), json!(i32::MAX), json!(i32::MAX as i64 + 1), json!(i32::MIN as i64 - 1), json!(u32::MAX), json!(u32::MAX as u64 + 1), json!(i64::MIN), json!(u64::MAX), json!(0.5), json!(1e300), json!(null), json!("7"), json!([7]), json!(65536)])
                .clone();
            format!("becomes {x}")
        }
        Value::String(_) => {
            *x = s.pick(&[json!(""), json!("Solid"), json!("MultiPoint"), json!("MultiSurface"), json!("GeometryInstance"), json!("+X"), json!("Nothing"), json!("Building"), json!("RoofSurface"), json!("a\u{0}b"), json!("9"), json!(3), json!(null), json!("JPG"), json!("wrap")]).clone();
            format!("becomes {x}")
        }
        Value::Array(a) => match s.below(5) {
            0 if !a.is_empty() => {
                let i = s.below(a.len() as u64) as usize;
                a.remove(i);
                format!("loses element {i}")
            }
            1 if !a.is_empty() => {
                let i = s.below(a.len() as u64) as usize;
                let e = a[i].clone();
                a.push(e);
                format!("repeats element {i}")
            }
            2 => {
                a.clear();
                "is emptied".into()
            }
            3 => {
                let w = x.take();
                *x = json!([w]);
                "is nested once more".into()
            }
            _ => {
                if a.len() == 1 {
                    let e = a[0].take();
                    *x = e;
                    "is nested once less".into()
                } else {
                    a.push(Value::Null);
                    "gets a null".into()
                }
            }
        },
        Value::Object(m) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            if keys.is_empty() || s.chance(1, 8) {
                m.insert("extra".into(), json!({"a": 1}));
                "gets a member".into()
            } else {
                let k = keys[s.below(keys.len() as u64) as usize].clone();
                if s.chance(1, 2) {
                    m.remove(&k);
                    format!("loses {k}")
                } else {
                    let w = s.pick(&[json!(null), json!([]), json!({}), json!(""), json!(true)]).clone();
                    let t = format!("has {k} = {w}");
                    m.insert(k, w);
                    t
                }
            }
        }
        _ => {
            *x = s.pick(&[json!(1), json!("t"), json!([]), json!(null), json!(false)]).clone();
            format!("becomes {x}")
        }
    };
    let is = |k: &str| path.iter().any(|p| p == k);
    let same = if is("semantics") {
        // the parser reads fractions as null here; see semantic_attr_wide_mix for attributes
        was && (x.is_i64() || x.is_u64()) && !path.last().unwrap().starts_with("sa_")
    } else {
        was && x.is_number() || is("boundaries")
    };
    *bounds |= is("boundaries") && !was;
    *numbers &= same;
    format!("/{} {how}", path.join("/"))
}

/// takes data in pieces, fails when it is full
struct Sink {
    got: Vec<u8>,
    room: Option<usize>,
    sizes: Vec<usize>,
    i: usize,
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = self.sizes[self.i % self.sizes.len()];
        self.i += 1;
        if n == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = n.min(b.len());
        if let Some(r) = self.room {
            if self.got.len() >= r && !b.is_empty() {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
            }
            n = n.min(r - self.got.len());
        }
        self.got.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn c20(c: &mut Case) -> R {
    if c.s.chance(1, 5) {
        sinks(c)
    } else {
        altered(c)
    }
}

fn sinks(c: &mut Case) -> R {
    let p = Prof { max_features: 20, avg_features: 5, ..Prof::full() };
    let ds = gen::dataset(c.s, &p);
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    let (cj, feats) = (ds.cj(), ds.feats());
    let schema = fcb::infer_schema(&feats);
    let names: Vec<(String, Option<u16>)> = schema.iter().flatten().map(|(n, _)| (n.clone(), None)).collect();
    let mut o = Opts { write_index: c.s.chance(1, 2), ..Default::default() };
    if c.s.chance(1, 2) {
        let mut n = names;
        n.sort();
        o.indices = Some(n);
    }
    let sem = fcb::infer_sem_schema(&cj, &feats);
    let whole = match fcb::write(&cj, &feats, schema.clone(), sem.clone(), &o) {
        Ok(b) => b,
        Err(e) => return fail("write fails", format!("writing a correct dataset fails: {e}")),
    };
    let mut sizes: Vec<usize> = c.s.list(1, 6, 3, |s, _| *s.pick(&[0usize, 1, 3, 100, 5000, 1 << 20]));
    if sizes.iter().all(|n| *n == 0) {
        sizes.push(50);
    }
    let room = c.s.chance(2, 3).then(|| c.s.below(whole.len() as u64 + 2) as usize);
    c.class(if room.is_some() { "output full" } else { "output in pieces" });
    c.note(|| format!("{} bytes to an output that takes {sizes:?} at a time and has room for {room:?}\n{}", whole.len(), ds.jsonl()));
    c.nontrivial(format!("{sizes:?}{room:?}{}", ds.jsonl()).as_bytes());
    let mut w = match FcbWriter::new(cj.clone(), Some(fcb::header_options(&o, feats.len())), schema, sem) {
        Ok(w) => w,
        Err(e) => return fail("write fails", format!("writing a correct dataset fails: {e}")),
    };
    for f in &feats {
        if let Err(e) = w.add_feature(f) {
            return fail("write fails", format!("adding a correct feature fails: {e}"));
        }
    }
    let mut sink = Sink { got: vec![], room, sizes, i: 0 };
    let r = w.write(&mut sink);
    if room.map(|r| r < whole.len()).unwrap_or(false) {
        ensure!(r.is_err(), "output error lost", "the output has room for {room:?} of {} bytes, yet writing succeeds", whole.len());
    } else {
        if let Err(e) = r {
            return fail("write fails", format!("an output that takes everything in pieces: {e}"));
        }
        ensure!(sink.got.len() == whole.len(), "output differs", "{} bytes in one piece, {} in several", whole.len(), sink.got.len());
    }
    Ok(())
}

fn without_mappings(v: &mut Value) {
    match v {
        Value::Object(m) => {
            if m.contains_key("boundaries") {
                for k in ["semantics", "texture", "material"] {
                    m.remove(k);
                }
            }
            m.values_mut().for_each(without_mappings);
        }
        Value::Array(a) => a.iter_mut().for_each(without_mappings),
        _ => {}
    }
}

fn altered(c: &mut Case) -> R {
    let p = Prof { max_features: 3, avg_features: 2, max_vertices: 6, ..Prof::full() };
    let mut ds = gen::dataset(c.s, &p);
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    let mut how = vec![];
    let mut numbers = true;
    let mut bounds = false;
    for _ in 0..c.s.weighted(&[4, 2, 1]) + 1 {
        let i = c.s.below(ds.features.len() as u64 + 1) as usize;
        let (name, v) = if i < ds.features.len() { (format!("feature {i}"), &mut ds.features[i]) } else { ("metadata object".to_string(), &mut ds.header) };
        how.push(format!("{name}: {}", alter(c.s, v, &mut numbers, &mut bounds)));
    }
    let cj: Result<CityJSON, _> = serde_json::from_value(ds.header.clone());
    let feats: Result<Vec<CityJSONFeature>, _> = ds.features.iter().map(|f| serde_json::from_value(f.clone())).collect();
    let (Ok(cj), Ok(feats)) = (cj, feats) else {
        c.class("refused by the CityJSON parser");
        return Ok(());
    };
    let o = Opts { write_index: c.s.chance(1, 2), ..Default::default() };
    let text = ds.jsonl();
    c.note(|| format!("{how:?}\n{text}"));
    c.nontrivial(text.as_bytes());
    let schema: Option<AttributeSchema> = fcb::infer_schema(&feats);
    let sem = fcb::infer_sem_schema(&cj, &feats);
    let bytes = match fcb::write(&cj, &feats, schema, sem, &o) {
        Ok(b) => b,
        Err(_) => {
            c.class("refused");
            return Ok(());
        }
    };
    c.class("written");
    let d = match fcb::read_all(&bytes) {
        Ok(d) => d,
        Err(e) => return fail("unreadable file", format!("{how:?}: written without an error, but reading it fails: {e}")),
    };
    if !numbers {
        return Ok(());
    }
    c.class("written, only numbers or boundaries altered");
    // surplus semantic and appearance values are left out
    let cut = |mut v: Value| {
        if bounds {
            without_mappings(&mut v);
        }
        v
    };
    if let Some(m) = norm::diff(&cut(norm::metadata_object(&cj)), &cut(norm::metadata_object(&d.cj))) {
        return fail("metadata altered", format!("{how:?}: {m}"));
    }
    let want: Vec<Value> = feats.iter().map(norm::feature).map(cut).collect();
    let got: Vec<Value> = d.feats.iter().map(norm::feature).map(cut).collect();
    if let Some(m) = fcb::same_multiset(&want, &got) {
        return fail("features altered", format!("{how:?}: {m}"));
    }
    Ok(())
}
