//! Normal forms and comparison of CityJSON values.
//!
//! Two things are regarded as equal: an absent optional part and its empty form
//! (`attributes: {}`, `geometry: []`, `material: {}`, `texture: {}`, an attribute that is null),
//! and numbers with the same value (3 and 3.0).  Geometry instances are compared after the
//! ordinary geometries of their object.

use cjseq::{CityJSON, CityJSONFeature};
use serde_json::{Map, Value};
use std::collections::BTreeMap;

fn num_eq(a: &serde_json::Number, b: &serde_json::Number) -> bool {
    let i = |n: &serde_json::Number| n.as_i64().map(|x| x as i128).or_else(|| n.as_u64().map(|x| x as i128));
    match (i(a), i(b)) {
        (Some(x), Some(y)) => x == y,
        (None, None) => a.as_f64() == b.as_f64(),
        (Some(x), None) => b.as_f64().map(|f| f.fract() == 0.0 && f.abs() < 2e19 && f as i128 == x).unwrap_or(false),
        (None, Some(y)) => a.as_f64().map(|f| f.fract() == 0.0 && f.abs() < 2e19 && f as i128 == y).unwrap_or(false),
    }
}

/// None if equal, otherwise the path and the two values that differ
pub fn diff(a: &Value, b: &Value) -> Option<String> {
    fn go(a: &Value, b: &Value, path: &mut String) -> Option<String> {
        let show = |v: &Value| {
            let t = v.to_string();
            t.chars().take(300).collect::<String>()
        };
        match (a, b) {
            (Value::Number(x), Value::Number(y)) if num_eq(x, y) => None,
            (Value::Array(x), Value::Array(y)) => {
                if x.len() != y.len() {
                    return Some(format!("{path}: lengths {} and {}: {} | {}", x.len(), y.len(), show(a), show(b)));
                }
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    let l = path.len();
                    path.push_str(&format!("[{i}]"));
                    if let Some(d) = go(p, q, path) {
                        return Some(d);
                    }
                    path.truncate(l);
                }
                None
            }
            (Value::Object(x), Value::Object(y)) => {
                for (k, p) in x {
                    let Some(q) = y.get(k) else {
                        return Some(format!("{path}.{k}: missing in the decoded value (was {})", show(p)));
                    };
                    let l = path.len();
                    path.push_str(&format!(".{k}"));
                    if let Some(d) = go(p, q, path) {
                        return Some(d);
                    }
                    path.truncate(l);
                }
                for (k, q) in y {
                    if !x.contains_key(k) {
                        return Some(format!("{path}.{k}: appeared in the decoded value: {}", show(q)));
                    }
                }
                None
            }
            _ if a == b => None,
            _ => Some(format!("{path}: {} became {}", show(a), show(b))),
        }
    }
    go(a, b, &mut String::new())
}

pub fn drop_nulls(v: &mut Value) {
    if let Value::Object(m) = v {
        m.retain(|_, x| !x.is_null());
    }
}

fn drop_empty(m: &mut Map<String, Value>, k: &str) {
    let empty = match m.get(k) {
        Some(Value::Object(o)) => o.is_empty(),
        Some(Value::Array(a)) => a.is_empty(),
        Some(Value::Null) => true,
        _ => false,
    };
    if empty {
        m.remove(k);
    }
}

/// a shell or solid without semantics (null, which the parser turns into an empty list)
/// stands for one null per surface
fn null_parts(v: &mut Value, b: &Value, levels: usize) {
    let Some(b) = b.as_array() else { return };
    let empty = v.is_null() || v.as_array().map(|a| a.is_empty()).unwrap_or(false);
    if empty {
        *v = Value::Array(vec![Value::Null; b.len()]);
    }
    if levels > 0 {
        if let Some(a) = v.as_array_mut() {
            for (x, y) in a.iter_mut().zip(b) {
                null_parts(x, y, levels - 1);
            }
        }
    }
}

pub fn geometry(g: &mut Value) {
    if let Value::Object(m) = g {
        drop_empty(m, "material");
        drop_empty(m, "texture");
        let b = m.get("boundaries").cloned().unwrap_or(Value::Null);
        let levels = match m.get("type").and_then(|t| t.as_str()) {
            Some("Solid") => 1,
            Some("MultiSolid" | "CompositeSolid") => 2,
            _ => 0,
        };
        if let Some(v) = m.get_mut("semantics").and_then(|s| s.get_mut("values")) {
            null_parts(v, &b, levels);
        }
        if let Some(Value::Object(sem)) = m.get_mut("semantics") {
            if let Some(Value::Array(sf)) = sem.get_mut("surfaces") {
                for s in sf {
                    drop_nulls(s);
                }
            }
        }
    }
}

pub fn city_object(o: &mut Value) {
    if let Value::Object(m) = o {
        if let Some(a) = m.get_mut("attributes") {
            drop_nulls(a);
        }
        drop_empty(m, "attributes");
        if let Some(Value::Array(gs)) = m.get_mut("geometry") {
            let (inst, plain): (Vec<Value>, Vec<Value>) = gs.drain(..).partition(|g| g["type"] == "GeometryInstance");
            gs.extend(plain);
            gs.extend(inst);
            for g in gs {
                geometry(g);
            }
        }
        drop_empty(m, "geometry");
    }
}

pub fn feature_value(mut v: Value) -> Value {
    if let Some(Value::Object(cos)) = v.get_mut("CityObjects") {
        for (_, o) in cos.iter_mut() {
            city_object(o);
        }
    }
    if let Value::Object(m) = &mut v {
        drop_empty(m, "extensions");
    }
    v
}

pub fn feature(f: &CityJSONFeature) -> Value {
    feature_value(serde_json::to_value(f).expect("feature serialises"))
}

/// a canonical text of a normalised value: numbers by value, keys sorted
pub fn canon(v: &Value) -> String {
    fn close(out: &mut String, c: char) {
        if out.ends_with(',') {
            out.pop();
        }
        out.push(c);
    }
    fn go(v: &Value, out: &mut String) {
        match v {
            Value::Number(n) => {
                if let Some(i) = n.as_i64() {
                    out.push_str(&i.to_string());
                } else if let Some(u) = n.as_u64() {
                    out.push_str(&u.to_string());
                } else {
                    let f = n.as_f64().unwrap();
                    if f.fract() == 0.0 && f.abs() < 1.7e19 {
                        out.push_str(&(f as i128).to_string());
                    } else {
                        out.push_str(&format!("{f:e}"));
                    }
                }
            }
            Value::Array(a) => {
                out.push('[');
                for x in a {
                    go(x, out);
                    out.push(',');
                }
                close(out, ']');
            }
            Value::Object(m) => {
                let m: BTreeMap<&String, &Value> = m.iter().collect();
                out.push('{');
                for (k, x) in m {
                    out.push_str(&Value::String(k.clone()).to_string());
                    out.push(':');
                    go(x, out);
                    out.push(',');
                }
                close(out, '}');
            }
            _ => out.push_str(&v.to_string()),
        }
    }
    let mut s = String::new();
    go(v, &mut s);
    s
}

/// the parts of a metadata object, normalised; `extent_opt` is the writer's extent option
pub fn metadata_object(cj: &CityJSON) -> Value {
    let mut v = serde_json::to_value(cj).expect("CityJSON serialises");
    if let Value::Object(m) = &mut v {
        m.remove("CityObjects");
        m.remove("vertices");
        if let Some(md) = m.get_mut("metadata") {
            drop_nulls(md);
        }
        drop_empty(m, "metadata");
        drop_empty(m, "extensions");
        if let Some(Value::Object(t)) = m.get_mut("geometry-templates") {
            if let Some(Value::Array(gs)) = t.get_mut("templates") {
                for g in gs {
                    geometry(g);
                }
            }
        }
    }
    v
}
