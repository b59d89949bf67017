//! Datasets for query properties: many small features with known boxes and indexed values,
//! and an independent model of what a query must return.
use crate::fcb::{self, Opts};
use crate::gen;
use crate::props::rtree::Box2;
use crate::tape::Src;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::attribute::AttributeSchema;
use fcb_core::fb::ColumnType;
use fcb_core::packed_rtree::Query;
use fcb_core::static_btree::{FixedStringKey, Float, KeyType, Operator};
use fcb_core::AttrQuery;
use serde_json::{json, Map, Value};
use std::cmp::Ordering;

pub const INDEXABLE: [ColumnType; 13] = [
    ColumnType::Bool,
    ColumnType::Byte,
    ColumnType::UByte,
    ColumnType::Short,
    ColumnType::UShort,
    ColumnType::Int,
    ColumnType::UInt,
    ColumnType::Long,
    ColumnType::ULong,
    ColumnType::Float,
    ColumnType::Double,
    ColumnType::String,
    ColumnType::DateTime,
];

/// a value as the index sees it
#[derive(Clone, Debug, PartialEq)]
pub enum Ik {
    I(i128),
    F(f64),
    B(bool),
    S(Vec<u8>),
    D(i64, u32),
}

impl Ik {
    pub fn cmp(&self, o: &Ik) -> Ordering {
        match (self, o) {
            (Ik::I(a), Ik::I(b)) => a.cmp(b),
            (Ik::F(a), Ik::F(b)) => a.partial_cmp(b).unwrap(),
            (Ik::B(a), Ik::B(b)) => a.cmp(b),
            (Ik::S(a), Ik::S(b)) => a.cmp(b),
            (Ik::D(a, b), Ik::D(c, d)) => (a, b).cmp(&(c, d)),
            _ => unreachable!("values of one column have one type"),
        }
    }
}

pub fn range_of(t: ColumnType) -> Option<(i128, i128)> {
    Some(match t {
        ColumnType::Byte => (i8::MIN as i128, i8::MAX as i128),
        ColumnType::UByte => (0, u8::MAX as i128),
        ColumnType::Short => (i16::MIN as i128, i16::MAX as i128),
        ColumnType::UShort => (0, u16::MAX as i128),
        ColumnType::Int => (i32::MIN as i128, i32::MAX as i128),
        ColumnType::UInt => (0, u32::MAX as i128),
        ColumnType::Long => (i64::MIN as i128, i64::MAX as i128),
        ColumnType::ULong => (0, u64::MAX as i128),
        _ => return None,
    })
}

fn str_key(s: &str) -> Ik {
    let mut b = s.as_bytes().to_vec();
    b.truncate(50);
    while b.last() == Some(&0) {
        b.pop();
    }
    Ik::S(b)
}

/// what the index of a column of type `t` holds for `v`; None: nothing
pub fn index_key(t: ColumnType, v: &Value) -> Option<Ik> {
    if let Some((lo, hi)) = range_of(t) {
        let i = v.as_i64().map(|i| i as i128).or(v.as_u64().map(|u| u as i128))?;
        return (lo <= i && i <= hi).then_some(Ik::I(i));
    }
    match t {
        ColumnType::Bool => v.as_bool().map(Ik::B),
        ColumnType::Float => v.as_f64().map(|f| Ik::F(f as f32 as f64)),
        ColumnType::Double => {
            let f = v.as_f64()?;
            // an integer that no double represents is not stored in the column
            let int = v.as_i64().map(|i| i as i128).or(v.as_u64().map(|u| u as i128));
            match int {
                Some(i) if f as i128 != i => None,
                _ => Some(Ik::F(f)),
            }
        }
        ColumnType::String => v.as_str().map(str_key),
        ColumnType::DateTime => {
            let d = chrono::DateTime::parse_from_rfc3339(v.as_str()?).ok()?.to_utc();
            Some(Ik::D(d.timestamp(), d.timestamp_subsec_nanos()))
        }
        _ => None,
    }
}

pub fn key_type(t: ColumnType, k: &Ik) -> KeyType {
    match (t, k) {
        (ColumnType::Byte, Ik::I(i)) => KeyType::Int8(*i as i8),
        (ColumnType::UByte, Ik::I(i)) => KeyType::UInt8(*i as u8),
        (ColumnType::Short, Ik::I(i)) => KeyType::Int16(*i as i16),
        (ColumnType::UShort, Ik::I(i)) => KeyType::UInt16(*i as u16),
        (ColumnType::Int, Ik::I(i)) => KeyType::Int32(*i as i32),
        (ColumnType::UInt, Ik::I(i)) => KeyType::UInt32(*i as u32),
        (ColumnType::Long, Ik::I(i)) => KeyType::Int64(*i as i64),
        (ColumnType::ULong, Ik::I(i)) => KeyType::UInt64(*i as u64),
        (ColumnType::Float, Ik::F(f)) => KeyType::Float32(Float(*f as f32)),
        (ColumnType::Double, Ik::F(f)) => KeyType::Float64(Float(*f)),
        (ColumnType::Bool, Ik::B(b)) => KeyType::Bool(*b),
        (ColumnType::String, Ik::S(b)) => KeyType::StringKey50(FixedStringKey::from_str(&String::from_utf8_lossy(b))),
        (ColumnType::DateTime, Ik::D(a, b)) => KeyType::DateTime(chrono::DateTime::from_timestamp(*a, *b).unwrap()),
        _ => unreachable!(),
    }
}

#[derive(Clone, Debug)]
pub struct Cond {
    pub col: usize,
    pub op: Operator,
    pub key: Ik,
}

impl Cond {
    pub fn holds(&self, v: &Ik) -> bool {
        let o = v.cmp(&self.key);
        match self.op {
            Operator::Eq => o.is_eq(),
            Operator::Ne => o.is_ne(),
            Operator::Lt => o.is_lt(),
            Operator::Le => o.is_le(),
            Operator::Gt => o.is_gt(),
            Operator::Ge => o.is_ge(),
        }
    }
}

#[derive(Clone)]
pub struct Col {
    pub name: String,
    pub ty: ColumnType,
    pub indexed: bool,
}

#[derive(Clone)]
pub struct Scene {
    pub cj: CityJSON,
    pub feats: Vec<CityJSONFeature>,
    pub schema: Option<AttributeSchema>,
    pub cols: Vec<Col>,
    pub opts: Opts,
    /// per feature
    pub boxes: Vec<Option<Box2>>,
    /// per feature and column
    pub vals: Vec<Vec<Vec<Ik>>>,
    pub scale: [f64; 2],
    pub translate: [f64; 2],
    pub half: i64,
}

pub struct Plan {
    pub avg: usize,
    pub max: usize,
    /// generate attributes and attribute indices
    pub attrs: bool,
    /// features without vertices
    pub bare: bool,
    pub spatial: Option<bool>,
    /// one scene in so many has far more features than `max`; 0: none
    pub wide: u64,
}

/// a value of the column, by number
fn numbered(t: ColumnType, k: i64) -> Value {
    if let Some((lo, hi)) = range_of(t) {
        return json!((lo + (k as i128).rem_euclid(hi - lo + 1)).clamp(i64::MIN as i128, i64::MAX as i128) as i64);
    }
    match t {
        ColumnType::Float | ColumnType::Double => json!(k as f64 * 0.25 - 1000.0),
        ColumnType::String => json!(format!("v{k}")),
        ColumnType::DateTime => json!(chrono::DateTime::<chrono::Utc>::from_timestamp(k * 3600, 0).unwrap().to_rfc3339()),
        _ => json!(k % 3 == 0),
    }
}

/// more features, each a variation of one that is there
fn many(s: &mut Src, feats: &mut Vec<Value>, cols: &[Col], half: i64, one: bool) {
    let n = if one { 66_000 } else { crate::wide::size(s) };
    // 0: the values that are there, 1: the same for all
    let distinct = if one { 1 } else { *s.pick(&[0usize, 7, 300, 1 << 20]) };
    let k = feats.len();
    for i in k..n.max(k) {
        let mut f = feats[i % k].clone();
        let id = format!("f{i}");
        f["id"] = json!(id);
        let (dx, dy) = (crate::wide::mix(i) as i64 % half, crate::wide::mix(i + n) as i64 % half);
        for v in f["vertices"].as_array_mut().unwrap() {
            v[0] = json!(v[0].as_i64().unwrap() + dx);
            v[1] = json!(v[1].as_i64().unwrap() + dy);
        }
        let objs = std::mem::take(f["CityObjects"].as_object_mut().unwrap());
        for (j, (_, mut o)) in objs.into_iter().enumerate() {
            if distinct > 0 {
                for c in cols {
                    if let Some(v) = o.get_mut("attributes").and_then(|a| a.get_mut(&c.name)) {
                        *v = numbered(c.ty, (crate::wide::mix(i + j) % distinct) as i64);
                    }
                }
            }
            f["CityObjects"][format!("{id}-{j}")] = o;
        }
        feats.push(f);
    }
}

/// a value of a small domain, so that values repeat
fn value(s: &mut Src, t: ColumnType, width: u64) -> Value {
    if s.chance(1, 10) {
        let v = gen::value_for(s, t);
        return if t == ColumnType::Double || t == ColumnType::Float { v } else { v };
    }
    if let Some((lo, _)) = range_of(t) {
        let w = width.min(100);
        let v = s.below(w) as i64 - if lo < 0 { (w / 2) as i64 } else { 0 };
        return json!(v);
    }
    match t {
        ColumnType::Bool => json!(s.chance(1, 2)),
        ColumnType::Float | ColumnType::Double => {
            let v = (s.below(width) as i64 - (width / 2) as i64) as f64 * 0.25;
            if v.fract() == 0.0 && s.chance(1, 2) {
                json!(v as i64)
            } else {
                json!(v)
            }
        }
        ColumnType::String => {
            let n = s.below(width);
            match s.weighted(&[8, 1, 1]) {
                0 => json!(format!("v{n}")),
                // longer than a key: the first fifty bytes decide
                1 => {
                    let x = "x".repeat(s.usize_in(47, 52));
                    match s.below(3) {
                        0 => json!(format!("{x}{}", ["", "é", "漢", "\u{10FFFF}"][n as usize % 4])),
                        _ => json!(format!("{x}{n}")),
                    }
                }
                _ => json!(["", "\u{0}", "é", "a\u{0}b", "~", "\u{10FFFF}"][s.below(6) as usize]),
            }
        }
        ColumnType::DateTime => {
            let day = s.below(width) as i64 - (width / 3) as i64;
            let d = chrono::DateTime::<chrono::Utc>::from_timestamp(day * 86_400, 0).unwrap();
            if s.chance(1, 3) {
                json!(d.with_timezone(&chrono::FixedOffset::east_opt(7200).unwrap()).to_rfc3339())
            } else {
                json!(d.to_rfc3339())
            }
        }
        _ => Value::Null,
    }
}

pub fn scene(s: &mut Src, p: &Plan) -> Scene {
    let half = *s.pick(&[3i64, 30, 100_000, 3, 30, 100_000, 20_000_000, 1_000_000_000]);
    let scale = *s.pick(&[[1.0, 1.0], [0.5, 0.25], [0.001, 0.001], [0.1, 0.3], [0.5, -0.25], [-0.001, 0.001], [7.3, 1e-9]]);
    let translate = *s.pick(&[[0.0, 0.0], [85_000.5, 446_000.25], [-1.0e6, 3.0], [0.1, -0.2]]);
    let mut cols: Vec<Col> = vec![];
    if p.attrs {
        let n = s.usize_in(1, 4);
        for i in 0..n {
            let ty = *s.pick(&INDEXABLE);
            // names in another order than the columns
            cols.push(Col { name: format!("{}{i}", ["b", "a", "Z", "é"][s.below(4) as usize]), ty, indexed: s.chance(5, 6) });
        }
    }
    let width = *s.pick(&[2u64, 6, 40, 1000]);
    let sparse = s.chance(1, 3);
    let wrong = s.chance(1, 4);
    let mut feats_json = s.list(0, p.max, p.avg, |s, i| {
        let nv = if p.bare && s.chance(1, 12) { 0 } else { s.usize_in(1, 3) };
        let near = if half > 1000 { 300 } else { 2 };
        let base = [s.i64_in(-half, half), s.i64_in(-half, half)];
        let verts: Vec<[i64; 3]> = (0..nv).map(|k| if k == 0 { [base[0], base[1], s.i64_in(-5, 5)] } else { [base[0] + s.i64_in(-near, near), base[1] + s.i64_in(-near, near), s.i64_in(-5, 5)] }).collect();
        let mut objs = Map::new();
        for k in 0..s.weighted(&[6, 2, 1]) + 1 {
            let mut o = Map::new();
            o.insert("type".into(), json!(if k == 0 { "Building" } else { "BuildingPart" }));
            let mut a = Map::new();
            for c in &cols {
                if sparse && s.chance(1, 2) || s.chance(1, 20) {
                    continue;
                }
                let v = if wrong && s.chance(1, 10) {
                    [json!(null), json!("no"), json!(-7), json!(1e300), json!(true), json!([1]), json!(u64::MAX)][s.below(7) as usize].clone()
                } else {
                    value(s, c.ty, width)
                };
                a.insert(c.name.clone(), v);
            }
            if !a.is_empty() || s.chance(1, 4) {
                o.insert("attributes".into(), Value::Object(a));
            }
            if nv > 0 && k == 0 {
                o.insert("geometry".into(), json!([{"type": "MultiPoint", "lod": "1", "boundaries": (0..nv).collect::<Vec<_>>()}]));
            }
            objs.insert(format!("f{i}-{k}"), Value::Object(o));
        }
        json!({"type": "CityJSONFeature", "id": format!("f{i}"), "CityObjects": objs, "vertices": verts})
    });
    if p.wide > 0 && s.chance(1, p.wide) && !feats_json.is_empty() {
        many(s, &mut feats_json, &cols, half, p.wide == 1);
    }
    let cj: CityJSON = serde_json::from_value(json!({
        "type": "CityJSON", "version": "2.0",
        "transform": {"scale": [scale[0], scale[1], 0.001], "translate": [translate[0], translate[1], 0.0]},
        "CityObjects": {}, "vertices": []
    }))
    .unwrap();
    let feats: Vec<CityJSONFeature> = feats_json.into_iter().map(|f| serde_json::from_value(f).unwrap()).collect();
    let mut schema = None;
    if p.attrs {
        if s.chance(1, 4) {
            schema = fcb::infer_schema(&feats);
            let sc = schema.clone().unwrap_or_default();
            for c in cols.iter_mut() {
                match sc.get(&c.name) {
                    Some((_, t)) => c.ty = *t,
                    None => c.indexed = false,
                }
            }
        } else {
            // column numbers in another order than the list
            let n = cols.len();
            let rot = s.below(n as u64) as usize;
            // and with gaps between them
            let (step, first) = *s.pick(&[(1, 0), (1, 0), (1, 0), (1, 7), (3, 1), (10_000, 0), (16_000, 300)]);
            schema = Some(cols.iter().enumerate().map(|(i, c)| (c.name.clone(), (((i + rot) % n * step + first) as u16, c.ty))).collect());
        }
    }
    let vals: Vec<Vec<Vec<Ik>>> = feats
        .iter()
        .map(|f| {
            let mut ids: Vec<&String> = f.city_objects.keys().collect();
            ids.sort();
            cols.iter().map(|c| ids.iter().filter_map(|id| f.city_objects[*id].attributes.as_ref()?.get(&c.name)).filter_map(|v| index_key(c.ty, v)).collect()).collect()
        })
        .collect();
    for (i, c) in cols.iter_mut().enumerate() {
        c.indexed &= INDEXABLE.contains(&c.ty) && vals.iter().any(|v: &Vec<Vec<Ik>>| !v[i].is_empty());
    }
    let mut indices: Vec<(String, Option<u16>)> = cols.iter().filter(|c| c.indexed).map(|c| (c.name.clone(), *s.pick(&[None, Some(2), Some(3), Some(5), Some(16), Some(256)]))).collect();
    // columns that have nothing to index are asked for as well
    if s.chance(1, 3) {
        for c in cols.iter().filter(|c| !c.indexed) {
            let has_values = INDEXABLE.contains(&c.ty) && feats.iter().flat_map(|f| f.city_objects.values()).any(|o| o.attributes.as_ref().and_then(|a| a.get(&c.name)).and_then(|v| index_key(c.ty, v)).is_some());
            if !has_values {
                indices.push((c.name.clone(), Some(4)));
            }
        }
    }
    if indices.len() > 1 && s.chance(1, 2) {
        indices.reverse();
    }
    let spatial = p.spatial.unwrap_or_else(|| s.chance(2, 3));
    let boxes = feats.iter().map(|f| box_of(f, scale, translate)).collect();
    Scene { cj, feats, schema, cols, opts: Opts { write_index: spatial, indices: (!indices.is_empty() || s.chance(1, 3)).then_some(indices), ..Default::default() }, boxes, vals, scale, translate, half }
}

/// the two-dimensional bounding box of a feature's vertices
pub fn box_of(f: &CityJSONFeature, scale: [f64; 2], translate: [f64; 2]) -> Option<Box2> {
    let mut b: Option<Box2> = None;
    for v in &f.vertices {
        let (x, y) = (v[0] as f64 * scale[0] + translate[0], v[1] as f64 * scale[1] + translate[1]);
        b = Some(match b {
            None => [x, y, x, y],
            Some(b) => [b[0].min(x), b[1].min(y), b[2].max(x), b[3].max(y)],
        });
    }
    b
}

impl Scene {
    pub fn write(&self) -> Result<Vec<u8>, fcb_core::error::Error> {
        fcb::write(&self.cj, &self.feats, self.schema.clone(), None, &self.opts)
    }
    pub fn describe(&self) -> String {
        let cols: Vec<String> = self.cols.iter().map(|c| format!("{}:{}{}", c.name, gen::type_name(c.ty), if c.indexed { "*" } else { "" })).collect();
        let f: Vec<String> = self.feats.iter().take(3).map(|f| serde_json::to_string(f).unwrap()).collect();
        format!("{} features, scale {:?}, translate {:?}, columns {cols:?}, indices {:?}, spatial index {}; {}", self.feats.len(), self.scale, self.translate, self.opts.indices, self.opts.write_index, f.join(" "))
    }
    pub fn spatial_query(&self, s: &mut Src) -> Query {
        let boxes: Vec<Box2> = self.boxes.iter().flatten().copied().collect();
        let rnd = |s: &mut Src| (s.i64_in(-self.half, self.half) as f64 * self.scale[0] + self.translate[0], s.i64_in(-self.half, self.half) as f64 * self.scale[1] + self.translate[1]);
        let near = |s: &mut Src| -> (f64, f64) {
            if s.chance(1, 3) || boxes.is_empty() {
                return rnd(s);
            }
            let b = boxes[s.below(boxes.len() as u64) as usize];
            match s.below(4) {
                0 => (b[0], b[1]),
                1 => (b[2], b[3]),
                2 => (b[0], b[3]),
                _ => ((b[0] + b[2]) / 2.0, (b[1] + b[3]) / 2.0),
            }
        };
        let ((a, b), (c, d)) = (near(s), near(s));
        let e = if s.chance(1, 4) { self.scale[0].abs() * *s.pick(&[1e-3, 0.5, 1.0, -1e-3, -0.5]) } else { 0.0 };
        match s.weighted(&[6, 3, 3, 1, 2]) {
            4 => {
                // a box that just misses or just meets a side of another
                let u = |s: &mut Src, i: usize| self.scale[i].abs() * *s.pick(&[0.0, 0.25, -0.25, 0.5, 1.0, -1.0]);
                let (x0, y0, x1, y1) = (a.min(c) + u(s, 0), b.min(d) + u(s, 1), a.max(c) + u(s, 0), b.max(d) + u(s, 1));
                Query::BBox(x0.min(x1), y0.min(y1), x0.max(x1), y0.max(y1))
            }
            0 => Query::BBox(a.min(c) + e, b.min(d) + e, a.max(c) + e, b.max(d) + e),
            1 => Query::PointIntersects(a + e, b),
            2 => Query::PointNearest(a + e, b - 3.0 * e),
            _ => Query::BBox(-1e12, -1e12, 1e12, 1e12),
        }
    }
    /// conditions on indexed columns
    pub fn conds(&self, s: &mut Src, max: usize) -> Vec<Cond> {
        let cand: Vec<usize> = (0..self.cols.len()).filter(|i| self.cols[*i].indexed).collect();
        if cand.is_empty() {
            return vec![];
        }
        let n = s.usize_in(1, max);
        (0..n)
            .map(|_| {
                let col = *s.pick(&cand);
                let t = self.cols[col].ty;
                let present: Vec<&Ik> = self.vals.iter().flat_map(|v| v[col].iter()).collect();
                let mut key = match s.weighted(&[5, 2]) {
                    0 => present[s.below(present.len() as u64) as usize].clone(),
                    _ => {
                        let v = value(s, t, 50);
                        index_key(t, &v).unwrap_or_else(|| present[0].clone())
                    }
                };
                // a neighbour of a value
                if let (Ik::I(i), Some((lo, hi))) = (&key, range_of(t)) {
                    if s.chance(1, 5) {
                        key = Ik::I((i + s.i64_in(-1, 1) as i128).clamp(lo, hi));
                    }
                }
                if let Ik::S(b) = &key {
                    // a key is text
                    if std::str::from_utf8(b).is_err() {
                        key = Ik::S(b"v1".to_vec());
                    }
                }
                let op = *s.pick(&[Operator::Eq, Operator::Ne, Operator::Lt, Operator::Le, Operator::Gt, Operator::Ge]);
                Cond { col, op, key }
            })
            .collect()
    }
    pub fn attr_query(&self, conds: &[Cond]) -> AttrQuery {
        conds.iter().map(|c| (self.cols[c.col].name.clone(), c.op, key_type(self.cols[c.col].ty, &c.key))).collect()
    }
    /// does feature `i` answer all conditions?
    pub fn answers(&self, i: usize, conds: &[Cond]) -> bool {
        conds.iter().all(|c| self.vals[i][c.col].iter().any(|v| c.holds(v)))
    }
    /// number of a feature, from its id
    pub fn number(id: &str) -> usize {
        id[1..].parse().unwrap()
    }
}
