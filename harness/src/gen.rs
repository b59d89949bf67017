//! Generators for CityJSON metadata, features, geometries, appearances and attributes,
//! as JSON values that the CityJSON parser accepts.

use crate::tape::Src;
use fcb_core::fb::ColumnType;
use serde_json::{json, Map, Value};

pub const CO_TYPES: &[&str] = &[
    "Building",
    "BuildingPart",
    "Bridge",
    "BridgePart",
    "BridgeInstallation",
    "BridgeConstructiveElement",
    "BridgeRoom",
    "BridgeFurniture",
    "BuildingInstallation",
    "BuildingConstructiveElement",
    "BuildingFurniture",
    "BuildingStorey",
    "BuildingRoom",
    "BuildingUnit",
    "CityFurniture",
    "CityObjectGroup",
    "GenericCityObject",
    "LandUse",
    "OtherConstruction",
    "PlantCover",
    "SolitaryVegetationObject",
    "TINRelief",
    "Road",
    "Railway",
    "Waterway",
    "TransportSquare",
    "Tunnel",
    "TunnelPart",
    "TunnelInstallation",
    "TunnelConstructiveElement",
    "TunnelHollowSpace",
    "TunnelFurniture",
    "WaterBody",
];

pub const SEM_TYPES: &[&str] = &[
    "RoofSurface",
    "GroundSurface",
    "WallSurface",
    "ClosureSurface",
    "OuterCeilingSurface",
    "OuterFloorSurface",
    "Window",
    "Door",
    "InteriorWallSurface",
    "CeilingSurface",
    "FloorSurface",
    "WaterSurface",
    "WaterGroundSurface",
    "WaterClosureSurface",
    "TrafficArea",
    "AuxiliaryTrafficArea",
    "TransportationMarking",
    "TransportationHole",
];

/// any string
pub fn text(s: &mut Src) -> String {
    match s.weighted(&[40, 8, 20, 12, 6, 4, 2, 16]) {
        // what somebody may be tempted to tidy up
        7 => s
            .pick(&[
                "2.0", "1.50", "10", "007", "+1", "-0", "1e3", "0x1F", ".5", "TRUE", "True", "NULL", "None", "nan", "a//b", "a/b/", "/", "./img/a.png", "img\\a.png", "IMG.PNG", "http://example.com/a/", "HTTPS://Example.com", "file name.jpg", "a%20b", " ", "  x  ", "a\r\nb", "x\n", "\tx", "\u{feff}x", "x\0", "é", "e\u{301}", "ß", "İ", "ﬁ", "\"", "'", "\\", "+X", "#",
                "Door", "Building", "2020-01-02", "2020-01-02T03:04:05Z", "a,b", "a;b", "<b>&amp;", "\u{10ffff}", "\u{fffd}", "theme", "unknown",
            ])
            .to_string(),
        0 => {
            let n = s.usize_in(1, 8);
            (0..n).map(|_| *s.pick(b"abcXYZ019_-. ") as char).collect()
        }
        1 => String::new(),
        2 => s
            .pick(&["NL.IMBAG.Pand.0503100000012869", "straße", "東京", "naïve", "a\u{301}", "🏙️ city", "line\nbreak", "tab\t\"quote\"\\", "null", "0", "true", "{}", "[]", " lead", "trail "])
            .to_string(),
        3 => {
            let n = s.usize_in(1, 12);
            (0..n)
                .map(|_| {
                    let c = s.below(0x3000) as u32;
                    char::from_u32(c + 1).unwrap_or('x')
                })
                .collect()
        }
        4 => {
            let n = s.usize_in(10, 120);
            let c = *s.pick(&['q', 'é', '漢', '🙂']);
            std::iter::repeat_n(c, n).collect()
        }
        5 => "\0nul\u{1}\u{7f}\u{feff}".into(),
        _ => {
            let n = s.usize_in(200, 3000);
            "long ".repeat(n / 5 + 1)
        }
    }
}

/// non-empty string without exotic content, for names
pub fn ident(s: &mut Src, prefix: &str) -> String {
    match s.weighted(&[6, 2, 1]) {
        0 => format!("{prefix}{}", s.below(40)),
        1 => {
            let n = s.usize_in(1, 6);
            let t: String = (0..n).map(|_| *s.pick(b"abcdefXYZ_") as char).collect();
            format!("{prefix}{t}")
        }
        _ => format!("{prefix}{}", s.pick(&["ä", "名", " with space", "-", ".", "é'"])),
    }
}

pub fn finite(s: &mut Src) -> f64 {
    match s.weighted(&[20, 20, 10, 6, 4]) {
        0 => s.i64_in(-20, 20) as f64,
        1 => s.i64_in(-2_000_000, 2_000_000) as f64 / 1000.0,
        2 => *s.pick(&[0.0, 1.0, 0.1, -0.5, 84710.1, 447846.25, 1e-9, 123456789.125]),
        3 => *s.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, 1e300, -1e-300, 9007199254740993.0, -0.0]),
        _ => {
            let f = f64::from_bits(s.raw());
            if f.is_finite() {
                f
            } else {
                0.25
            }
        }
    }
}

/// The nearest number that serde_json's text form gives back unchanged.  Without its
/// `float_roundtrip` feature serde_json parses some doubles one unit in the last place off;
/// values that pass through JSON text are drawn from the others (see known_findings.txt).
pub fn text_stable(f: f64) -> f64 {
    let mut f = f;
    for _ in 0..8 {
        let g: f64 = serde_json::from_str(&json!(f).to_string()).unwrap();
        if g.to_bits() == f.to_bits() {
            return f;
        }
        f = g;
    }
    0.5
}

pub fn stabilise(v: &mut Value) {
    match v {
        Value::Number(n) if n.is_f64() => *v = json!(text_stable(n.as_f64().unwrap())),
        Value::Array(a) => a.iter_mut().for_each(stabilise),
        Value::Object(m) => m.values_mut().for_each(stabilise),
        _ => {}
    }
}

/// a number as JSON (finite)
pub fn num(f: f64) -> Value {
    json!(f)
}

pub fn coord(s: &mut Src) -> i64 {
    match s.weighted(&[20, 20, 6, 2]) {
        0 => s.i64_in(0, 20),
        1 => s.i64_in(-500, 500),
        2 => s.i64_in(-2_000_000, 2_000_000),
        _ => *s.pick(&[i32::MAX as i64, i32::MIN as i64, i32::MAX as i64 - 1, i32::MIN as i64 + 1, 65535, 65536, -1]),
    }
}

pub fn vertices(s: &mut Src, max: usize) -> Vec<[i64; 3]> {
    s.list(0, max, 6, |s, _| [coord(s), coord(s), coord(s)])
}

pub fn extent(s: &mut Src) -> [f64; 6] {
    let mut e = [0.0; 6];
    // some boxes are flat, a single point or all zero
    let kind = s.below(12);
    for i in 0..if kind == 0 { 0 } else { 6 } {
        e[i] = if i >= 3 && (kind == 1 || kind == 2 && s.chance(1, 2)) { e[i - 3] } else { finite(s) };
    }
    e
}

// ------------------------------------------------------------------ geometry

#[derive(Clone, Copy, Default)]
pub struct GeomOpts {
    pub semantics: bool,
    pub materials: bool,
    pub textures: bool,
    pub instances: bool,
    /// number of materials / textures / texture vertices the appearance declares
    pub n_mat: usize,
    pub n_tex: usize,
    pub n_uv: usize,
    pub n_templates: usize,
}

pub const GEOM_TYPES: &[&str] = &["MultiPoint", "MultiLineString", "MultiSurface", "CompositeSurface", "Solid", "MultiSolid", "CompositeSolid"];

fn ring(s: &mut Src, nv: usize) -> Value {
    let n = match s.weighted(&[10, 5, 2, 1]) {
        0 => s.usize_in(3, 5),
        1 => s.usize_in(1, 12),
        2 => s.usize_in(3, 40),
        _ => 0,
    };
    Value::Array((0..n).map(|_| json!(s.below(nv.max(1) as u64))).collect())
}
/// a level of nesting has mostly one part or more
fn least(s: &mut Src) -> usize {
    1 - s.chance(1, 30) as usize
}
fn surface(s: &mut Src, nv: usize) -> Value {
    let min = least(s);
    Value::Array(s.list(min, 4, 1, |s, _| ring(s, nv)))
}
fn shell(s: &mut Src, nv: usize) -> Value {
    let min = least(s);
    Value::Array(s.list(min, 8, 3, |s, _| surface(s, nv)))
}
fn solid(s: &mut Src, nv: usize) -> Value {
    let min = least(s);
    Value::Array(s.list(min, 4, 2, |s, _| shell(s, nv)))
}

/// 1 point index, 2 lines, 3 surfaces, 4 solid, 5 multi solid
pub fn depth(t: &str) -> usize {
    match t {
        "MultiPoint" => 1,
        "MultiLineString" => 2,
        "MultiSurface" | "CompositeSurface" => 3,
        "Solid" => 4,
        _ => 5,
    }
}

/// levels of nesting
fn reach(v: &Value) -> usize {
    v.as_array().map_or(0, |a| 1 + a.iter().map(reach).max().unwrap_or(0))
}

fn arr(v: &Value) -> &Vec<Value> {
    v.as_array().unwrap()
}

/// one value per primitive, shaped like the boundaries
fn per_primitive(s: &mut Src, t: &str, b: &Value, f: &mut dyn FnMut(&mut Src) -> Value) -> Value {
    match depth(t) {
        1 | 2 | 3 => Value::Array(arr(b).iter().map(|_| f(s)).collect()),
        4 => Value::Array(arr(b).iter().map(|sh| Value::Array(arr(sh).iter().map(|_| f(s)).collect())).collect()),
        _ => Value::Array(
            arr(b)
                .iter()
                .map(|so| Value::Array(arr(so).iter().map(|sh| Value::Array(arr(sh).iter().map(|_| f(s)).collect())).collect()))
                .collect(),
        ),
    }
}

fn per_ring(s: &mut Src, level: usize, b: &Value, f: &mut dyn FnMut(&mut Src, usize) -> Value) -> Value {
    if level == 1 {
        f(s, arr(b).len())
    } else {
        Value::Array(arr(b).iter().map(|x| per_ring(s, level - 1, x, f)).collect())
    }
}

/// replaces whole parts below the first by null (the CityJSON parser takes the kind of an
/// array from its first element), or all of them
fn null_parts(s: &mut Src, values: &mut Value, levels: usize) {
    let a = values.as_array_mut().unwrap();
    if s.chance(1, 6) {
        a.iter_mut().for_each(|v| *v = Value::Null);
        return;
    }
    for (i, v) in a.iter_mut().enumerate() {
        if i > 0 && s.chance(1, 3) {
            *v = Value::Null;
        } else if levels > 1 {
            null_parts(s, v, levels - 1);
        }
    }
}

pub fn sem_attr(s: &mut Src) -> (String, Value) {
    // the type of a semantic attribute is fixed by its name
    match s.below(7) {
        0 => ("sa_bool".into(), json!(s.chance(1, 2))),
        1 => ("sa_int".into(), json!(s.below(1000))),
        2 => ("sa_dbl".into(), json!(s.i64_in(-5000, 5000) as f64 / 8.0 + 0.0625)),
        3 => ("sa_str".into(), json!(text(s))),
        4 => ("sa_neg".into(), json!(s.i64_in(i64::MIN / 4, -1))),
        5 => ("sa_json".into(), json!([s.below(5), {"k": text(s)}])),
        _ => ("sa_date".into(), json!(datetime(s).1)),
    }
}

/// an extension type: any name, or that of a standard type with a plus sign
fn ext_type(s: &mut Src, standard: &[&str]) -> String {
    match s.weighted(&[6, 2, 1]) {
        0 => format!("+{}", ident(s, "Ext")),
        1 => format!("+{}", text(s)),
        _ => format!("+{}", *s.pick(standard)),
    }
}

pub fn semantics(s: &mut Src, t: &str, b: &Value) -> Value {
    let n = s.usize_in(0, 5);
    let surfaces: Vec<Value> = (0..n)
        .map(|_| {
            let mut o = Map::new();
            let t = if s.chance(1, 5) { ext_type(s, SEM_TYPES) } else { s.pick(SEM_TYPES).to_string() };
            o.insert("type".into(), json!(t));
            if s.chance(1, 3) {
                o.insert("parent".into(), json!(s.below(n as u64)));
            }
            if s.chance(1, 3) {
                let c: Vec<u64> = s.list(0, 4, 2, |s, _| s.below(n as u64));
                o.insert("children".into(), json!(c));
            }
            for _ in 0..s.weighted(&[4, 3, 2, 1]) {
                let (k, v) = sem_attr(s);
                o.insert(k, v);
            }
            Value::Object(o)
        })
        .collect();
    let mut values = per_primitive(s, t, b, &mut |s| {
        if n == 0 || s.chance(1, 4) {
            Value::Null
        } else {
            json!(s.below(n as u64))
        }
    });
    // null stands for a whole shell or solid without semantics
    if depth(t) >= 4 && s.chance(1, 4) {
        null_parts(s, &mut values, depth(t) - 3);
    }
    json!({"surfaces": surfaces, "values": values})
}

const THEMES: &[&str] = &["visual", "winter", "thème", ""];

pub fn geometry(s: &mut Src, nv: usize, o: &GeomOpts) -> Value {
    if o.instances && s.chance(1, 4) {
        return instance(s, nv, o);
    }
    let t = *s.pick(GEOM_TYPES);
    let b = if s.chance(1, 40) {
        json!([])
    } else {
        match depth(t) {
            1 => ring(s, nv),
            2 => Value::Array(s.list(1, 6, 2, |s, _| ring(s, nv))),
            3 => shell(s, nv),
            4 => solid(s, nv),
            _ => Value::Array(s.list(1, 4, 2, |s, _| solid(s, nv))),
        }
    };
    // boundaries of which no part reaches the innermost level are refused
    let b = if arr(&b).is_empty() || reach(&b) == depth(t) { b } else { (1..depth(t)).fold(ring(s, nv), |b, _| json!([b])) };
    let mut g = Map::new();
    g.insert("type".into(), json!(t));
    if s.chance(9, 10) {
        g.insert("lod".into(), match s.below(4) {
            0 => json!(text(s)),
            _ => json!(s.pick(&["0", "1", "1.2", "1.3", "2", "2.2", "3", "3.1", "1.0", "2.0", "3.00"])),
        });
    }
    g.insert("boundaries".into(), b.clone());
    if o.semantics && s.chance(1, 2) {
        g.insert("semantics".into(), semantics(s, t, &b));
    }
    if o.materials && o.n_mat > 0 && depth(t) >= 3 && s.chance(1, 2) {
        let mut m = Map::new();
        for _ in 0..s.usize_in(1, 3) {
            let theme = if s.chance(1, 6) { text(s) } else { s.pick(THEMES).to_string() };
            let v = if s.chance(1, 3) {
                json!({"value": s.below(o.n_mat as u64)})
            } else {
                let n = o.n_mat as u64;
                json!({"values": per_primitive(s, t, &b, &mut |s| if s.chance(1, 4) { Value::Null } else { json!(s.below(n)) })})
            };
            m.insert(theme, v);
        }
        g.insert("material".into(), Value::Object(m));
    }
    if o.textures && o.n_tex > 0 && depth(t) >= 3 && arr(&b).len() > 0 && s.chance(1, 2) {
        let mut m = Map::new();
        for _ in 0..s.usize_in(1, 3) {
            let theme = if s.chance(1, 6) { text(s) } else { s.pick(THEMES).to_string() };
            let (nt, nu) = (o.n_tex as u64, o.n_uv.max(1) as u64);
            let v = per_ring(s, depth(t), &b, &mut |s, len| {
                if s.chance(1, 3) {
                    json!([null])
                } else {
                    let mut r = vec![json!(s.below(nt))];
                    r.extend((0..len).map(|_| json!(s.below(nu))));
                    Value::Array(r)
                }
            });
            m.insert(theme, json!({ "values": v }));
        }
        g.insert("texture".into(), Value::Object(m));
    }
    Value::Object(g)
}

pub fn instance(s: &mut Src, nv: usize, o: &GeomOpts) -> Value {
    let m: Vec<f64> = (0..16).map(|i| if s.chance(1, 2) { finite(s) } else if i % 5 == 0 { 1.0 } else { 0.0 }).collect();
    let n = o.n_templates.max(1) as u64;
    let template = if s.chance(1, 12) { *s.pick(&[65535u64, 65536, u32::MAX as u64, 255]) } else { s.below(n) };
    json!({"type": "GeometryInstance", "template": template, "boundaries": [s.below(nv.max(1) as u64)], "transformationMatrix": m})
}

pub fn appearance(s: &mut Src) -> Value {
    let mut a = Map::new();
    if s.chance(4, 5) {
        let m: Vec<Value> = s.list(0, 5, 2, |s, _| {
            let mut o = Map::new();
            o.insert("name".into(), json!(text(s)));
            for k in ["ambientIntensity", "shininess", "transparency"] {
                if s.chance(1, 2) {
                    o.insert(k.into(), num(finite(s)));
                }
            }
            for k in ["diffuseColor", "emissiveColor", "specularColor"] {
                if s.chance(1, 2) {
                    o.insert(k.into(), json!([finite(s), finite(s), finite(s)]));
                }
            }
            if s.chance(1, 2) {
                o.insert("isSmooth".into(), json!(s.chance(1, 2)));
            }
            Value::Object(o)
        });
        a.insert("materials".into(), Value::Array(m));
    }
    if s.chance(4, 5) {
        let t: Vec<Value> = s.list(0, 5, 2, |s, _| {
            let mut o = Map::new();
            o.insert("type".into(), json!(s.pick(&["PNG", "JPG"])));
            o.insert("image".into(), json!(text(s)));
            if s.chance(1, 2) {
                o.insert("wrapMode".into(), json!(s.pick(&["none", "wrap", "mirror", "clamp", "border"])));
            }
            if s.chance(1, 2) {
                o.insert("textureType".into(), json!(s.pick(&["unknown", "specific", "typical"])));
            }
            if s.chance(1, 2) {
                o.insert("borderColor".into(), json!([finite(s), finite(s), finite(s), finite(s)]));
            }
            Value::Object(o)
        });
        a.insert("textures".into(), Value::Array(t));
    }
    if s.chance(4, 5) {
        let v: Vec<Value> = s.list(0, 8, 4, |s, _| json!([finite(s), finite(s)]));
        a.insert("vertices-texture".into(), Value::Array(v));
    }
    if s.chance(1, 2) {
        a.insert("default-theme-texture".into(), json!(text(s)));
    }
    if s.chance(1, 2) {
        a.insert("default-theme-material".into(), json!(text(s)));
    }
    Value::Object(a)
}

fn len_of(a: Option<&Value>, k: &str) -> usize {
    a.and_then(|a| a.get(k)).and_then(|m| m.as_array()).map(|m| m.len()).unwrap_or(0)
}

// ---------------------------------------------------------------- attributes

#[derive(Clone, Debug)]
pub struct Column {
    pub name: String,
    pub ty: ColumnType,
}

pub fn type_name(t: ColumnType) -> &'static str {
    t.variant_name().unwrap_or("?")
}

/// (days-safe) date-time: (unix seconds, text)
pub fn datetime(s: &mut Src) -> (i64, String) {
    let secs = match s.weighted(&[6, 4, 2, 2]) {
        0 => 1_500_000_000 + s.i64_in(0, 5) * 86_400,
        1 => s.i64_in(0, 2_000_000_000),
        2 => s.i64_in(-2_000_000_000, 0),
        _ => *s.pick(&[0, 1, -1, 253402300799, -62135596800, 951782400]),
    };
    let off = if s.chance(1, 3) { *s.pick(&[3600, -3600, 19800, -43200]) } else { 0 };
    let frac = if s.chance(1, 4) { s.below(1000) as u32 } else { 0 };
    // keep local years within 1..=9999 so that the text is valid RFC 3339
    let secs = secs.clamp(-62135596800 + 86400, 253402300799 - 86400);
    let dt = chrono::DateTime::<chrono::Utc>::from_timestamp(secs, frac * 1_000_000).unwrap();
    let text = if off == 0 && s.chance(1, 2) {
        dt.to_rfc3339_opts(if frac > 0 { chrono::SecondsFormat::Millis } else { chrono::SecondsFormat::Secs }, true)
    } else {
        let z = chrono::FixedOffset::east_opt(off).unwrap();
        dt.with_timezone(&z).to_rfc3339()
    };
    (secs, text)
}

fn int_in(s: &mut Src, lo: i128, hi: i128) -> i128 {
    let span = (hi - lo) as u128 + 1;
    match s.weighted(&[10, 6, 4]) {
        0 => {
            let n = s.below(12) as i128;
            (n.max(lo)).min(hi)
        }
        1 => {
            let raw = s.raw() as u128;
            lo + (raw % span.min(u64::MAX as u128)) as i128
        }
        _ => {
            let c = [lo, hi, lo + 1, hi - 1, 0, 1, -1, 255, 256, -129, 65536, 9007199254740993];
            let v = *s.pick(&c);
            v.max(lo).min(hi)
        }
    }
}
fn int_value(v: i128) -> Value {
    if v < 0 {
        json!(v as i64)
    } else {
        json!(v as u64)
    }
}

/// a JSON value that fits the column type
pub fn value_for(s: &mut Src, t: ColumnType) -> Value {
    match t {
        ColumnType::Bool => json!(s.chance(1, 2)),
        ColumnType::Byte => int_value(int_in(s, i8::MIN as i128, i8::MAX as i128)),
        ColumnType::UByte => int_value(int_in(s, 0, u8::MAX as i128)),
        ColumnType::Short => int_value(int_in(s, i16::MIN as i128, i16::MAX as i128)),
        ColumnType::UShort => int_value(int_in(s, 0, u16::MAX as i128)),
        ColumnType::Int => int_value(int_in(s, i32::MIN as i128, i32::MAX as i128)),
        ColumnType::UInt => int_value(int_in(s, 0, u32::MAX as i128)),
        ColumnType::Long => int_value(int_in(s, i64::MIN as i128, i64::MAX as i128)),
        ColumnType::ULong => int_value(int_in(s, 0, u64::MAX as i128)),
        ColumnType::Float => {
            let f = match s.weighted(&[8, 4, 2]) {
                0 => s.i64_in(-400, 400) as f32 / 8.0,
                1 => {
                    let f = f32::from_bits(s.raw() as u32);
                    if f.is_finite() {
                        f
                    } else {
                        1.5
                    }
                }
                _ => *s.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, 0.1, 16777217.0]),
            };
            json!(f as f64)
        }
        ColumnType::Double => num(finite(s)),
        ColumnType::String => json!(text(s)),
        ColumnType::DateTime => json!(datetime(s).1),
        ColumnType::Json => json_value(s, 2),
        ColumnType::Binary => json!(text(s)),
        _ => Value::Null,
    }
}

pub fn json_value(s: &mut Src, depth: usize) -> Value {
    match s.below(if depth == 0 { 4 } else { 6 }) {
        0 => json!(s.below(100)),
        1 => json!(text(s)),
        2 => json!(s.chance(1, 2)),
        3 => num(text_stable(finite(s))),
        4 => Value::Array(s.list(0, 4, 2, |s, _| json_value(s, depth - 1))),
        _ => {
            let v: Vec<(String, Value)> = s.list(0, 3, 2, |s, _| (ident(s, "k"), json_value(s, depth - 1)));
            Value::Object(v.into_iter().collect())
        }
    }
}

/// a JSON array or object (what schema inference calls Json)
pub fn json_composite(s: &mut Src) -> Value {
    if s.chance(1, 2) {
        Value::Array(s.list(0, 4, 2, |s, _| json_value(s, 1)))
    } else {
        let v: Vec<(String, Value)> = s.list(0, 3, 2, |s, _| (ident(s, "k"), json_value(s, 1)));
        Value::Object(v.into_iter().collect())
    }
}

// ------------------------------------------------------------------- dataset

#[derive(Clone)]
pub struct Prof {
    pub max_features: usize,
    pub avg_features: usize,
    pub hierarchy: bool,
    pub geometry: bool,
    pub geom: GeomOpts,
    pub appearance: bool,
    pub attributes: bool,
    pub metadata: bool,
    pub ext_types: bool,
    pub templates: bool,
    /// small coordinates (spatial clustering)
    pub max_vertices: usize,
    /// one dataset in so many gets a part larger than the others; 0: none
    pub wide: u64,
    /// the parts that are mostly chosen for that
    pub focus: &'static [u64],
    /// appearance, templates and geometries more often than not
    pub often: bool,
}

impl Prof {
    pub fn plain() -> Prof {
        Prof {
            max_features: 30,
            avg_features: 4,
            hierarchy: true,
            geometry: true,
            geom: GeomOpts::default(),
            appearance: false,
            attributes: true,
            metadata: false,
            ext_types: true,
            templates: false,
            max_vertices: 30,
            wide: 250,
            focus: &[],
            often: false,
        }
    }
    pub fn full() -> Prof {
        Prof {
            geom: GeomOpts { semantics: true, materials: true, textures: true, instances: true, ..Default::default() },
            appearance: true,
            metadata: true,
            templates: true,
            ..Prof::plain()
        }
    }
}

pub struct Dataset {
    pub header: Value,
    pub features: Vec<Value>,
    /// attribute columns the values were drawn from
    pub columns: Vec<Column>,
    /// the part that was made large
    pub wide: Option<String>,
}

impl Dataset {
    pub fn cj(&self) -> cjseq::CityJSON {
        serde_json::from_value(self.header.clone()).expect("generated CityJSON object parses")
    }
    pub fn feats(&self) -> Vec<cjseq::CityJSONFeature> {
        self.features.iter().map(|f| serde_json::from_value(f.clone()).expect("generated feature parses")).collect()
    }
    pub fn jsonl(&self) -> String {
        let mut t = self.header.to_string();
        t.push('\n');
        for f in &self.features {
            t.push_str(&f.to_string());
            t.push('\n');
        }
        t
    }
}

pub fn transform(s: &mut Src) -> Value {
    let scale = |s: &mut Src| *s.pick(&[0.001, 1.0, 0.01, 0.5, 1e-6, 2.0, 0.1, 1e-9, 3.3, -0.5, -1.0]);
    let tr = |s: &mut Src| match s.below(4) {
        0 => 0.0,
        1 => s.i64_in(-500_000, 500_000) as f64,
        2 => s.i64_in(-5_000_000, 5_000_000) as f64 / 1000.0,
        _ => *s.pick(&[84710.1, 447846.333, -171800.0, 1e7, -0.0]),
    };
    json!({"scale": [scale(s), scale(s), scale(s)], "translate": [tr(s), tr(s), tr(s)]})
}

pub fn crs(s: &mut Src) -> String {
    let auth = *s.pick(&["EPSG", "EPSG", "OGC", "IGNF", "X-auth", "epsg", "", " "]);
    let version = match s.below(3) {
        0 => 0,
        1 => s.below(30) as i64,
        _ => s.i64_in(0, i32::MAX as i64),
    };
    let code = match s.below(3) {
        0 => *s.pick(&[7415i64, 28992, 4326, 0]),
        1 => s.i64_in(0, 99999),
        _ => s.i64_in(0, i32::MAX as i64),
    };
    let code = match s.below(5) {
        0 => s.pick(&["CRS84", "CRS84h", "", "007415", "99999999999", "-5", "7415 ", "NTFLAMB2"]).to_string(),
        _ => code.to_string(),
    };
    format!("https://www.opengis.net/def/crs/{auth}/{version}/{code}")
}

pub fn metadata(s: &mut Src) -> Value {
    let mut m = Map::new();
    if s.chance(1, 2) {
        m.insert("geographicalExtent".into(), json!(extent(s)));
    }
    for k in ["identifier", "referenceDate", "title"] {
        if s.chance(1, 2) {
            m.insert(k.into(), json!(text(s)));
        }
    }
    if s.chance(1, 2) {
        m.insert("referenceSystem".into(), json!(crs(s)));
    }
    if s.chance(1, 2) {
        let mut p = Map::new();
        p.insert("contactName".into(), json!(text(s)));
        p.insert("emailAddress".into(), json!(text(s)));
        for k in ["contactType", "role", "phone", "website"] {
            if s.chance(1, 2) {
                p.insert(k.into(), json!(text(s)));
            }
        }
        if s.chance(1, 2) {
            p.insert(
                "address".into(),
                json!({"thoroughfareNumber": int_value(int_in(s, i64::MIN as i128, i64::MAX as i128)), "thoroughfareName": text(s),
                       "locality": text(s), "postalCode": text(s), "country": text(s)}),
            );
        }
        m.insert("pointOfContact".into(), Value::Object(p));
    }
    Value::Object(m)
}

pub fn templates(s: &mut Src, o: &GeomOpts) -> Value {
    let nv = s.usize_in(0, 12);
    let v: Vec<Value> = (0..nv).map(|_| json!([finite(s), finite(s), finite(s)])).collect();
    let o = GeomOpts { instances: false, ..*o };
    let t: Vec<Value> = s.list(0, 4, 2, |s, _| geometry(s, nv, &o));
    json!({"templates": t, "vertices-templates": v})
}

/// column types schema inference can produce, with one JSON type per column
pub const INFERRED: &[ColumnType] =
    &[ColumnType::Bool, ColumnType::ULong, ColumnType::Long, ColumnType::Double, ColumnType::String, ColumnType::DateTime, ColumnType::Json];

pub fn inferred_value(s: &mut Src, t: ColumnType) -> Value {
    match t {
        // the first value decides the inferred type, so keep one JSON type per column
        ColumnType::Long => int_value(int_in(s, i64::MIN as i128, -1)),
        ColumnType::Json => json_composite(s),
        ColumnType::String => {
            let t = text(s);
            json!(t)
        }
        _ => value_for(s, t),
    }
}

pub fn columns(s: &mut Src, types: &[ColumnType], max: usize) -> Vec<Column> {
    let mut out: Vec<Column> = vec![];
    let cols: Vec<Column> = s.list(0, max, 4, |s, i| Column { name: if s.chance(1, 8) { text(s) } else { ident(s, &format!("a{i}_")) }, ty: *s.pick(types) });
    for c in cols {
        if !out.iter().any(|d| d.name == c.name) {
            out.push(c);
        }
    }
    out
}

pub fn header(s: &mut Src, p: &Prof, geom: &mut GeomOpts) -> Value {
    let mut h = Map::new();
    h.insert("type".into(), json!("CityJSON"));
    h.insert("version".into(), match s.below(8) {
        0 => json!(text(s)),
        _ => json!(s.pick(&["2.0", "2.0", "1.1", "2.0.1", "2", "2.00", ""])),
    });
    h.insert("transform".into(), transform(s));
    h.insert("CityObjects".into(), json!({}));
    h.insert("vertices".into(), json!([]));
    if p.metadata && s.chance(4, 5) {
        h.insert("metadata".into(), metadata(s));
    }
    if p.templates && s.chance(1 + 4 * p.often as u64, 2 + 4 * p.often as u64) {
        let t = templates(s, geom);
        geom.n_templates = arr(&t["templates"]).len();
        h.insert("geometry-templates".into(), t);
    }
    Value::Object(h)
}

pub fn attributes(s: &mut Src, cols: &[Column], val: &mut dyn FnMut(&mut Src, ColumnType) -> Value) -> Value {
    let mut m = Map::new();
    for c in cols {
        match s.weighted(&[6, 3, 1]) {
            0 => {
                m.insert(c.name.clone(), val(s, c.ty));
            }
            1 => {}
            _ => {
                m.insert(c.name.clone(), Value::Null);
            }
        }
    }
    Value::Object(m)
}

pub fn feature(s: &mut Src, i: usize, p: &Prof, geom: &GeomOpts, cols: &[Column], val: &mut dyn FnMut(&mut Src, ColumnType) -> Value) -> Value {
    let mut f = Map::new();
    let id = if s.chance(1, 6) { text(s) } else { format!("f{i}") };
    f.insert("type".into(), json!("CityJSONFeature"));
    f.insert("id".into(), json!(id));
    let v = vertices(s, p.max_vertices);
    let app = if p.appearance && s.chance(1 + 4 * p.often as u64, 2 + 4 * p.often as u64) { Some(appearance(s)) } else { None };
    let mut g = *geom;
    g.n_mat = len_of(app.as_ref(), "materials");
    g.n_tex = len_of(app.as_ref(), "textures");
    g.n_uv = len_of(app.as_ref(), "vertices-texture");
    let mut cos = Map::new();
    let objs: Vec<(String, Value)> = s.list(if i % 7 == 3 { 0 } else { 1 }, 5, 2, |s, k| {
        let mut o = Map::new();
        let t = if p.ext_types && s.chance(1, 8) { ext_type(s, CO_TYPES) } else { s.pick(CO_TYPES).to_string() };
        o.insert("type".into(), json!(t));
        let oid = if k == 0 {
            id.clone()
        } else if s.chance(1, 8) {
            text(s)
        } else {
            format!("{id}-{k}")
        };
        if p.hierarchy {
            if s.chance(1, 4) {
                o.insert("geographicalExtent".into(), json!(extent(s)));
            }
            if s.chance(1, 3) {
                let n: Vec<String> = s.list(0, 4, 2, |s, j| if s.chance(1, 6) { text(s) } else { format!("{id}-{j}") });
                o.insert("children".into(), json!(n));
            }
            if s.chance(1, 6) {
                let n: Vec<String> = s.list(0, 4, 2, |s, _| text(s));
                o.insert("children_roles".into(), json!(n));
            }
            if s.chance(1, 3) {
                let n: Vec<String> = s.list(0, 3, 1, |s, _| if s.chance(1, 6) { text(s) } else { id.clone() });
                o.insert("parents".into(), json!(n));
            }
        }
        if p.geometry && s.chance(5, 6) {
            let n: Vec<Value> = s.list(0, 4, 1 + p.often as usize, |s, _| geometry(s, v.len(), &g));
            o.insert("geometry".into(), Value::Array(n));
        }
        if p.attributes && s.chance(4, 5) {
            o.insert("attributes".into(), attributes(s, cols, val));
        }
        (oid, Value::Object(o))
    });
    for (k, o) in objs {
        cos.insert(k, o);
    }
    f.insert("CityObjects".into(), Value::Object(cos));
    f.insert("vertices".into(), json!(v));
    if let Some(a) = app {
        f.insert("appearance".into(), a);
    }
    Value::Object(f)
}

/// dataset with inferred-type attribute columns
/// Adds a second copy of something that the dataset has: equal elements must not be merged.
fn echo(s: &mut Src, d: &mut Dataset) {
    fn copy(s: &mut Src, list: Option<&mut Value>) {
        if let Some(Value::Array(a)) = list {
            if !a.is_empty() {
                let x = s.pick(&a[..]).clone();
                a.push(x);
            }
        }
    }
    let kind = s.below(10);
    if kind == 0 {
        if !d.features.is_empty() {
            let f = s.pick(&d.features[..]).clone();
            d.features.push(f);
        }
        return;
    }
    let root = if d.features.is_empty() || s.chance(1, 4) {
        &mut d.header
    } else {
        let n = d.features.len() as u64;
        &mut d.features[s.below(n) as usize]
    };
    if kind < 5 {
        let path = *s.pick(&[
            "/appearance/materials",
            "/appearance/textures",
            "/appearance/vertices-texture",
            "/geometry-templates/templates",
            "/geometry-templates/vertices-templates",
            "/vertices",
            "/vertices",
        ]);
        // the header of a sequence has no vertices of its own
        if path != "/vertices" || root.get("id").is_some() {
            copy(s, root.pointer_mut(path));
        }
        return;
    }
    let Some(objects) = root.get_mut("CityObjects").and_then(|o| o.as_object_mut()) else { return };
    let Some(o) = objects.values_mut().next() else { return };
    match kind {
        5 => copy(s, o.get_mut("geometry")),
        6 => copy(s, o.get_mut("parents")),
        _ => {
            let g = o.get_mut("geometry").and_then(|g| g.as_array_mut()).and_then(|g| g.first_mut());
            copy(s, g.and_then(|g| g.pointer_mut("/semantics/surfaces")));
        }
    }
}

pub fn dataset(s: &mut Src, p: &Prof) -> Dataset {
    let mut geom = p.geom;
    let header = header(s, p, &mut geom);
    let cols = if p.attributes { columns(s, INFERRED, 8) } else { vec![] };
    let features = s.list(0, p.max_features, p.avg_features, |s, i| feature(s, i, p, &geom, &cols, &mut |s, t| inferred_value(s, t)));
    let mut d = Dataset { header, features, columns: cols, wide: None };
    if s.chance(1, 6) {
        echo(s, &mut d);
    }
    if p.wide > 0 && s.chance(1, p.wide) {
        d.wide = (0..4).find_map(|_| crate::wide::inflate(s, &mut d, p.focus));
    }
    d
}
