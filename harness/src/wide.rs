//! Makes one part of a generated dataset far larger than the generators do: beyond what one or
//! two bytes count, or what one read fetches. The large part repeats what is there, so a few
//! decisions on the tape are enough for it and shrinking is quick.
use crate::gen::Dataset;
use crate::tape::Src;
use serde_json::{json, Map, Value};

pub fn mix(i: usize) -> usize {
    let mut z = (i as u64).wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    (z ^ (z >> 27)) as usize >> 1
}

/// length of the text of a part, at most
const LIMIT: usize = 10_000_000;

pub fn size(s: &mut Src) -> usize {
    match s.weighted(&[6, 3, 2]) {
        0 => *s.pick(&[255, 256, 257, 300, 128, 127]),
        1 => s.usize_in(258, 5000),
        _ => *s.pick(&[65_535, 65_536, 65_537, 70_000, 32_768, 32_767]),
    }
}

/// may the list grow to `n` elements?
fn fits(a: &[Value], n: usize) -> bool {
    n * a.iter().map(|x| x.to_string().len()).sum::<usize>() / a.len().max(1) <= LIMIT
}

fn repeat(a: &mut Vec<Value>, n: usize) {
    let k = a.len();
    if k > 0 {
        for i in k..n {
            a.push(a[i - k].clone());
        }
    }
}

fn list<'a>(v: &'a mut Value, k: &str) -> Option<&'a mut Vec<Value>> {
    v.get_mut(k)?.as_array_mut().filter(|a| !a.is_empty())
}

/// applies `f` to every number of a nest of arrays
fn leaves(v: &mut Value, f: &mut dyn FnMut(&mut Value)) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| leaves(x, f)),
        Value::Number(_) => f(v),
        _ => (),
    }
}

/// numbers of the first `n` integers, one per call
fn spread(n: usize) -> impl FnMut(&mut Value) {
    let mut i = 0;
    move |v| {
        *v = json!(mix(i) % n);
        i += 1;
    }
}

fn objects(f: &mut Value) -> impl Iterator<Item = &mut Value> {
    f["CityObjects"].as_object_mut().unwrap().values_mut()
}

fn geometries(f: &mut Value) -> Vec<&mut Value> {
    objects(f).filter_map(|o| o.get_mut("geometry")).filter_map(|g| g.as_array_mut()).flatten().collect()
}

fn texture_leaves(ring: &mut Value, tex: Option<usize>, uv: Option<usize>, i: &mut usize) {
    let Some(a) = ring.as_array_mut() else { return };
    if a.iter().any(|x| x.is_array()) {
        return a.iter_mut().for_each(|r| texture_leaves(r, tex, uv, i));
    }
    for (k, v) in a.iter_mut().enumerate() {
        if let (true, Some(n)) = (v.is_number(), if k == 0 { tex } else { uv }) {
            *v = json!(mix(*i) % n);
            *i += 1;
        }
    }
}

/// lengthens the array at a place of the boundaries, and what describes it in step
fn boundaries(s: &mut Src, g: &mut Value, n: usize) -> bool {
    let levels = crate::gen::depth(g["type"].as_str().unwrap());
    let to = s.below(levels as u64) as usize;
    let mut path: Vec<usize> = vec![];
    let mut b = &g["boundaries"];
    loop {
        let Some(a) = b.as_array() else { return false };
        if a.is_empty() {
            return false;
        }
        if !a[0].is_array() || path.len() == to {
            break;
        }
        let i = s.below(a.len() as u64) as usize;
        path.push(i);
        b = &a[i];
    }
    let ring = !b[0].is_array();
    let size_of = |v: &Value| v.to_string().len();
    if n * size_of(b) / b.as_array().unwrap().len() > LIMIT {
        return false;
    }
    fn at<'a>(v: &'a mut Value, path: &[usize]) -> Option<&'a mut Value> {
        match path {
            [] => Some(v),
            [i, rest @ ..] => at(v.as_array_mut()?.get_mut(*i)?, rest),
        }
    }
    repeat(at(&mut g["boundaries"], &path).unwrap().as_array_mut().unwrap(), n);
    // one value per surface (or point, or line)
    let valued = levels.saturating_sub(2).max(1);
    let mut values: Vec<&mut Value> = vec![];
    let o = g.as_object_mut().unwrap();
    for (k, v) in o.iter_mut() {
        match k.as_str() {
            "semantics" => values.extend(v.get_mut("values")),
            "material" => values.extend(v.as_object_mut().unwrap().values_mut().filter_map(|t| t.get_mut("values"))),
            _ => (),
        }
    }
    if path.len() < valued {
        for v in values {
            if let Some(a) = at(v, &path).and_then(|v| v.as_array_mut()) {
                repeat(a, n);
            }
        }
    }
    if let Some(t) = o.get_mut("texture") {
        for t in t.as_object_mut().unwrap().values_mut() {
            let Some(a) = t.get_mut("values").and_then(|v| at(v, &path)).and_then(|v| v.as_array_mut()) else { continue };
            if ring {
                // [texture, vertex...] or [null]
                if a.len() > 1 {
                    let head = a.remove(0);
                    repeat(a, n);
                    a.insert(0, head);
                }
            } else {
                repeat(a, n);
            }
        }
    }
    true
}

/// keys whose text may be anything
fn texts<'a>(v: &'a mut Value, key: &str, out: &mut Vec<&'a mut Value>) {
    match v {
        Value::String(_) => {
            if !["type", "wrapMode", "textureType", "referenceSystem"].contains(&key) {
                out.push(v);
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| texts(x, key, out)),
        Value::Object(m) => m.iter_mut().filter(|(k, _)| k.as_str() != "extensions").for_each(|(k, x)| texts(x, k, out)),
        _ => (),
    }
}

/// the arrays and objects that are attribute values
fn nests<'a>(v: &'a mut Value, inside: bool, out: &mut Vec<&'a mut Value>) {
    match v {
        Value::Array(_) | Value::Object(_) if inside => out.push(v),
        Value::Object(m) => {
            for (k, x) in m {
                if k == "attributes" && x.is_object() {
                    x.as_object_mut().unwrap().values_mut().for_each(|x| nests(x, true, out));
                } else {
                    nests(x, false, out);
                }
            }
        }
        Value::Array(a) => a.iter_mut().for_each(|x| nests(x, false, out)),
        _ => (),
    }
}

/// calls `f` for every object whose keys are free text, with its number
fn maps(v: &mut Value, key: &str, at: &mut usize, f: &mut dyn FnMut(usize, &mut Map<String, Value>)) {
    match v {
        Value::Object(m) => {
            if ["attributes", "CityObjects", "material", "texture"].contains(&key) && !m.is_empty() {
                f(*at, m);
                *at += 1;
            }
            m.iter_mut().for_each(|(k, x)| maps(x, k, at, f));
        }
        Value::Array(a) => a.iter_mut().for_each(|x| maps(x, key, at, f)),
        _ => (),
    }
}

/// enlarges one part; says which, or None if the dataset has no such part
pub fn inflate(s: &mut Src, d: &mut Dataset, focus: &[u64]) -> Option<String> {
    let what = if focus.is_empty() || s.chance(1, 3) { s.below(17) } else { *s.pick(focus) };
    let n = size(s);
    // mostly the first feature, which shrinks best
    let fi = if d.features.is_empty() { 0 } else { s.below(d.features.len() as u64) as usize };
    let name = match what {
        0 => {
            let k = d.features.len();
            if k == 0 || d.features.iter().map(|f| f.to_string().len()).sum::<usize>() / k * n > 3 * LIMIT {
                return None;
            }
            for i in k..n {
                let mut f = d.features[i % k].clone();
                f["id"] = json!(format!("w{i}"));
                if let Some(v) = list(&mut f, "vertices") {
                    v.iter_mut().for_each(|v| v[0] = json!((mix(i) % 100_000) as i64));
                }
                d.features.push(f);
            }
            "features"
        }
        1 => {
            let m = d.features.get_mut(fi)?["CityObjects"].as_object_mut()?;
            let o: Vec<Value> = m.values().cloned().collect();
            if o.is_empty() || !fits(&o, n) {
                return None;
            }
            for i in o.len()..n {
                m.insert(format!("w{i}"), o[i % o.len()].clone());
            }
            "city objects of a feature"
        }
        2 => {
            let f = d.features.get_mut(fi)?;
            let v = list(f, "vertices")?;
            let k = v.len();
            for i in k..n {
                let w = [mix(i) as i32 / 2, mix(i + n) as i32 / 3, i as i32];
                v.push(json!(w));
            }
            let mut to = spread(n);
            geometries(f).into_iter().for_each(|g| leaves(&mut g["boundaries"], &mut to));
            "vertices of a feature"
        }
        3 | 4 => {
            let mut g = match d.header.get_mut("geometry-templates") {
                Some(t) if s.chance(1, 4) => t["templates"].as_array_mut()?.iter_mut().collect(),
                _ => geometries(d.features.get_mut(fi)?),
            };
            if g.is_empty() {
                return None;
            }
            // mostly one with values to go with its parts
            let said: Vec<usize> = (0..g.len()).filter(|&i| ["semantics", "material", "texture"].iter().any(|k| g[i].get(k).is_some())).collect();
            let i = if said.is_empty() || s.chance(1, 3) { s.below(g.len() as u64) as usize } else { *s.pick(&said) };
            if g[i]["type"] == "GeometryInstance" || !boundaries(s, g[i], n) {
                return None;
            }
            "parts of a geometry"
        }
        5 => {
            let f = d.features.get_mut(fi)?;
            let g = geometries(f).into_iter().find(|g| g["semantics"]["surfaces"].as_array().is_some_and(|a| !a.is_empty()))?;
            let sem = &mut g["semantics"];
            if n * sem["surfaces"].to_string().len() > LIMIT {
                return None;
            }
            repeat(list(sem, "surfaces")?, n);
            let mut to = spread(n);
            for x in list(sem, "surfaces")? {
                for k in ["parent", "children"] {
                    if let Some(v) = x.get_mut(k) {
                        leaves(v, &mut to);
                    }
                }
            }
            leaves(&mut sem["values"], &mut to);
            "semantic surfaces"
        }
        6 => {
            let f = d.features.get_mut(fi)?;
            let k = ["materials", "textures", "vertices-texture"][s.below(3) as usize];
            let l = list(f.get_mut("appearance")?, k)?;
            if !fits(l, n) {
                return None;
            }
            repeat(l, n);
            for g in geometries(f) {
                match k {
                    "materials" => {
                        let mut to = spread(n);
                        for m in g.get_mut("material").and_then(|m| m.as_object_mut()).into_iter().flat_map(|m| m.values_mut()) {
                            for k in ["value", "values"] {
                                if let Some(v) = m.get_mut(k) {
                                    leaves(v, &mut to);
                                }
                            }
                        }
                    }
                    _ => {
                        let (t, u) = if k == "textures" { (Some(n), None) } else { (None, Some(n)) };
                        let mut i = 0;
                        for m in g.get_mut("texture").and_then(|m| m.as_object_mut()).into_iter().flat_map(|m| m.values_mut()) {
                            texture_leaves(&mut m["values"], t, u, &mut i);
                        }
                    }
                }
            }
            k
        }
        7 => {
            let t = d.header.get_mut("geometry-templates")?;
            let l = list(t, "templates")?;
            if !fits(l, n) {
                return None;
            }
            repeat(l, n);
            let mut to = spread(n);
            for f in &mut d.features {
                for g in geometries(f) {
                    if let Some(t) = g.get_mut("template") {
                        to(t);
                    }
                }
            }
            "templates"
        }
        8 => {
            let t = d.header.get_mut("geometry-templates")?;
            repeat(list(t, "vertices-templates")?, n);
            let mut to = spread(n);
            for g in t["templates"].as_array_mut()? {
                leaves(&mut g["boundaries"], &mut to);
            }
            "template vertices"
        }
        9 => {
            let f = d.features.get_mut(fi)?;
            let k = ["material", "texture"][s.below(2) as usize];
            let g = geometries(f).into_iter().find(|g| g.get(k).is_some())?;
            let m = g[k].as_object_mut()?;
            let v = m.values().next()?.clone();
            let n = n.min(2000);
            if n * v.to_string().len() > LIMIT {
                return None;
            }
            for i in 0..n {
                m.insert(format!("t{i}"), v.clone());
            }
            "themes"
        }
        10 => {
            let mut t = vec![];
            texts(&mut d.header, "", &mut t);
            d.features.iter_mut().for_each(|f| texts(f, "", &mut t));
            if t.is_empty() {
                return None;
            }
            let i = s.below(t.len() as u64) as usize;
            let Value::String(x) = &mut *t[i] else { unreachable!() };
            let unit = if x.is_empty() { "é".to_string() } else { x.clone() };
            while x.len() < n {
                x.push_str(&unit);
            }
            "a text"
        }
        11 => {
            let mut count = 0;
            d.features.iter_mut().for_each(|f| maps(f, "", &mut count, &mut |_, _| ()));
            if count == 0 {
                return None;
            }
            let (pick, mut at) = (s.below(count as u64) as usize, 0);
            d.features.iter_mut().for_each(|f| {
                maps(f, "", &mut at, &mut |i, m| {
                    if i == pick {
                        let k = m.keys().next().unwrap().clone();
                        let v = m.remove(&k).unwrap();
                        m.insert("k".repeat(n), v);
                    }
                })
            });
            "a name"
        }
        12 => {
            let o = objects(d.features.get_mut(fi)?).next()?;
            let a = o.get_mut("attributes")?.as_object_mut()?;
            // finding a column takes time in proportion to their number
            let n = n.min(3000);
            for i in 0..n {
                a.insert(format!("w{i}"), [json!(i), json!(format!("t{i}")), json!(i as f64 + 0.5), json!(i % 3 == 0), json!(-(i as i64) - 1)][i % 5].clone());
            }
            "attributes"
        }
        13 => {
            let o = objects(d.features.get_mut(fi)?).next()?;
            let k = ["children", "parents", "children_roles"][s.below(3) as usize];
            let l = list(o, k)?;
            if !fits(l, n) {
                return None;
            }
            repeat(l, n);
            k
        }
        14 | 15 => {
            let mut values = vec![];
            d.features.iter_mut().for_each(|f| nests(f, false, &mut values));
            if values.is_empty() {
                return None;
            }
            let i = s.below(values.len() as u64) as usize;
            match &mut *values[i] {
                Value::Array(a) if !fits(a, n) => return None,
                Value::Array(a) if s.chance(1, 2) => repeat(a, n),
                Value::Array(a) => a.push(json!("x".repeat(n))),
                Value::Object(m) if s.chance(1, 2) => {
                    m.insert("k".repeat(n), json!(1));
                }
                Value::Object(m) => {
                    m.insert("k".into(), json!("x".repeat(n)));
                }
                _ => unreachable!(),
            }
            "a nested attribute value"
        }
        _ => {
            let o = objects(d.features.get_mut(fi)?).next()?;
            if n * o["geometry"].to_string().len() > LIMIT {
                return None;
            }
            repeat(list(o, "geometry")?, n);
            "geometries of an object"
        }
    };
    Some(format!("{name} {}", if n > 30_000 { "(tens of thousands)" } else { "(hundreds)" }))
}
