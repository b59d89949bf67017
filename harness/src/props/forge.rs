//! Files made directly with the FlatBuffers builders: valid buffers whose arrays, numbers and
//! texts contradict each other in ways no writer produces (C16).
use crate::tape::Src;
use fcb_core::fb::*;
use flatbuffers::{FlatBufferBuilder, ForwardsUOffset, Push, Vector as Fv, WIPOffset};

type B = FlatBufferBuilder<'static>;
type List<T> = WIPOffset<Fv<'static, ForwardsUOffset<T>>>;

fn maybe<T>(s: &mut Src, x: T) -> Option<T> {
    s.chance(7, 8).then_some(x)
}

fn num(s: &mut Src) -> u32 {
    match s.weighted(&[30, 20, 4, 2, 1, 1]) {
        0 => s.below(3) as u32,
        1 => s.below(7) as u32,
        2 => u32::MAX,
        3 => s.below(70_000) as u32,
        4 => *s.pick(&[u32::MAX - 1, 1 << 31, (1 << 31) - 1, 65_535, 65_536, 256, 1 << 28]),
        _ => s.raw() as u32,
    }
}

fn nums(b: &mut B, s: &mut Src, max: usize) -> Option<WIPOffset<Fv<'static, u32>>> {
    let mut v: Vec<u32> = s.list(0, max, 3, |s, _| num(s));
    match s.below(6) {
        // counts that fit what most of the others say
        0 => v = vec![1; v.len()],
        1 => v = (0..v.len() as u32).collect(),
        2 => v = vec![v.len() as u32],
        _ => {}
    }
    let o = b.create_vector(&v);
    maybe(s, o)
}

fn txt(b: &mut B, s: &mut Src) -> Option<WIPOffset<&'static str>> {
    let t = match s.below(4) {
        0 => crate::gen::text(s),
        1 => s.pick(&["", "+", "{}", "[]", "null", "1", "2.0", "{\"a\":{\"type\":\"string\"}}", "x"]).to_string(),
        _ => crate::gen::ident(s, "n"),
    };
    let o = b.create_string(&t);
    maybe(s, o)
}

fn must(b: &mut B, s: &mut Src) -> Option<WIPOffset<&'static str>> {
    match txt(b, s) {
        Some(t) => Some(t),
        None => Some(b.create_string("")),
    }
}

fn list<T>(b: &mut B, s: &mut Src, max: usize, mut one: impl FnMut(&mut B, &mut Src) -> WIPOffset<T>) -> Option<List<T>> {
    let v: Vec<WIPOffset<T>> = s.list(0, max, 1, |s, _| one(b, s));
    let o = b.create_vector(&v);
    maybe(s, o)
}

fn structs<T: Push + Copy + 'static>(b: &mut B, s: &mut Src, max: usize, mut one: impl FnMut(&mut Src) -> T) -> Option<WIPOffset<Fv<'static, T::Output>>> {
    let v: Vec<T> = s.list(0, max, 3, |s, _| one(s));
    let o = b.create_vector(&v);
    maybe(s, o)
}

fn float(s: &mut Src) -> f64 {
    match s.below(8) {
        0 => *s.pick(&[f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0]),
        _ => crate::gen::finite(s),
    }
}

fn vec3(s: &mut Src) -> Vector {
    Vector::new(float(s), float(s), float(s))
}

fn floats(b: &mut B, s: &mut Src) -> Option<WIPOffset<Fv<'static, f64>>> {
    let n = *s.pick(&[3usize, 3, 4, 0, 1, 9]);
    let v: Vec<f64> = (0..n).map(|_| float(s)).collect();
    let o = b.create_vector(&v);
    maybe(s, o)
}

fn column(b: &mut B, s: &mut Src, i: usize) -> WIPOffset<Column<'static>> {
    let index = if s.chance(1, 5) { num(s) as u16 } else { i as u16 };
    let type_ = ColumnType(if s.chance(1, 12) { s.raw() as u8 } else { s.below(15) as u8 });
    let (name, title, description, metadata) = (must(b, s), txt(b, s), txt(b, s), txt(b, s));
    Column::create(b, &ColumnArgs { index, name, type_, title, description, precision: num(s) as i32, scale: num(s) as i32, nullable: s.chance(1, 2), unique: s.chance(1, 2), primary_key: s.chance(1, 2), metadata })
}

fn columns(b: &mut B, s: &mut Src) -> Option<List<Column<'static>>> {
    let n = s.usize_in(0, 5);
    let v: Vec<_> = (0..n).map(|i| column(b, s, i)).collect();
    let o = b.create_vector(&v);
    maybe(s, o)
}

/// attribute bytes: column numbers followed by something
fn attributes(b: &mut B, s: &mut Src) -> Option<WIPOffset<Fv<'static, u8>>> {
    let mut v: Vec<u8> = vec![];
    for _ in 0..s.below(5) {
        let i = if s.chance(1, 10) { num(s) as u16 } else { s.below(5) as u16 };
        v.extend(i.to_le_bytes());
        match s.below(3) {
            0 => {
                let n = *s.pick(&[0usize, 1, 2, 4, 8]);
                v.extend((0..n).map(|_| s.raw() as u8));
            }
            _ => {
                let t = match s.below(5) {
                    0 => vec![0xff, 0xfe],
                    1 => b"{\"a\":[1,{}]}".to_vec(),
                    2 => b"2024-01-01T00:00:00Z".to_vec(),
                    _ => crate::gen::text(s).into_bytes(),
                };
                let n = if s.chance(1, 5) { num(s) } else { t.len() as u32 };
                v.extend(n.to_le_bytes());
                v.extend(t);
            }
        }
    }
    if s.chance(1, 4) && !v.is_empty() {
        let n = s.below(v.len() as u64) as usize;
        v.truncate(n);
    }
    let o = b.create_vector(&v);
    maybe(s, o)
}

fn semantic(b: &mut B, s: &mut Src) -> WIPOffset<SemanticObject<'static>> {
    let (attributes, children, extension_type) = (attributes(b, s), nums(b, s, 3), txt(b, s));
    let extension_type = extension_type.filter(|_| s.chance(1, 2));
    SemanticObject::create(b, &SemanticObjectArgs { type_: SemanticSurfaceType(s.below(30) as u8), attributes, children, parent: s.chance(1, 2).then(|| num(s)), extension_type })
}

fn material_map(b: &mut B, s: &mut Src) -> WIPOffset<MaterialMapping<'static>> {
    let (theme, solids, shells, vertices) = (txt(b, s), nums(b, s, 5), nums(b, s, 6), nums(b, s, 12));
    MaterialMapping::create(b, &MaterialMappingArgs { theme, solids, shells, vertices, value: s.chance(1, 5).then(|| num(s)) })
}

fn texture_map(b: &mut B, s: &mut Src) -> WIPOffset<TextureMapping<'static>> {
    let (theme, solids, shells, surfaces, strings, vertices) = (txt(b, s), nums(b, s, 5), nums(b, s, 6), nums(b, s, 6), nums(b, s, 8), nums(b, s, 12));
    TextureMapping::create(b, &TextureMappingArgs { theme, solids, shells, surfaces, strings, vertices })
}

fn geometry(b: &mut B, s: &mut Src) -> WIPOffset<Geometry<'static>> {
    let type_ = GeometryType(if s.chance(1, 15) { s.raw() as u8 } else { s.below(9) as u8 });
    let lod = txt(b, s);
    let (solids, shells, surfaces, strings) = (nums(b, s, 5), nums(b, s, 6), nums(b, s, 6), nums(b, s, 8));
    let (boundaries, semantics) = (nums(b, s, 20), nums(b, s, 8));
    let semantics_objects = list(b, s, 4, semantic);
    let material = list(b, s, 3, material_map);
    let texture = list(b, s, 3, texture_map);
    Geometry::create(b, &GeometryArgs { type_, lod, solids, shells, surfaces, strings, boundaries, semantics, semantics_objects, material, texture, ..Default::default() })
}

fn instance(b: &mut B, s: &mut Src) -> WIPOffset<GeometryInstance<'static>> {
    let m = TransformationMatrix::new(float(s), 0.0, 0.0, 0.0, 0.0, float(s), 0.0, 0.0, 0.0, 0.0, float(s), 0.0, 0.0, 0.0, 0.0, float(s));
    let transformation = maybe(s, &m);
    let boundaries = nums(b, s, 3);
    GeometryInstance::create(b, &GeometryInstanceArgs { transformation, template: num(s), boundaries })
}

fn appearance(b: &mut B, s: &mut Src) -> WIPOffset<Appearance<'static>> {
    let materials = list(b, s, 3, |b, s| {
        let (name, diffuse_color, emissive_color, specular_color) = (must(b, s), floats(b, s), floats(b, s), floats(b, s));
        Material::create(b, &MaterialArgs { name, ambient_intensity: s.chance(1, 2).then(|| float(s)), diffuse_color, emissive_color, specular_color, shininess: s.chance(1, 2).then(|| float(s)), transparency: s.chance(1, 2).then(|| float(s)), is_smooth: s.chance(1, 2).then_some(true) })
    });
    let textures = list(b, s, 3, |b, s| {
        let (image, border_color) = (must(b, s), floats(b, s));
        let odd = s.chance(1, 5);
        let mut k = |s: &mut Src| if odd { s.raw() as u8 } else { s.below(4) as u8 };
        Texture::create(b, &TextureArgs { type_: TextureFormat(k(s)), image, wrap_mode: Some(WrapMode(k(s))), texture_type: Some(TextureType(k(s))), border_color })
    });
    let vertices_texture = structs(b, s, 5, |s| Vec2::new(float(s), float(s)));
    let (default_theme_texture, default_theme_material) = (txt(b, s), txt(b, s));
    Appearance::create(b, &AppearanceArgs { materials, textures, vertices_texture, default_theme_texture, default_theme_material })
}

fn object(b: &mut B, s: &mut Src) -> WIPOffset<CityObject<'static>> {
    let id = must(b, s);
    let extension_type = txt(b, s).filter(|_| s.chance(1, 3));
    let geometry = list(b, s, 3, geometry);
    let geometry_instances = list(b, s, 2, instance);
    let attributes = attributes(b, s);
    let columns = columns(b, s).filter(|_| s.chance(1, 2));
    let strings = |b: &mut B, s: &mut Src| {
        let v: Vec<_> = s.list(0, 3, 1, |s, _| must(b, s).unwrap());
        let o = b.create_vector(&v);
        s.chance(1, 2).then_some(o)
    };
    let (children, children_roles, parents) = (strings(b, s), strings(b, s), strings(b, s));
    let e = GeographicalExtent::new(&vec3(s), &vec3(s));
    let geographical_extent = s.chance(1, 3).then_some(&e);
    let type_ = CityObjectType(if s.chance(1, 15) { s.raw() as u8 } else { s.below(36) as u8 });
    CityObject::create(b, &CityObjectArgs { type_, extension_type, id, geographical_extent, geometry, geometry_instances, attributes, columns, children, children_roles, parents })
}

fn feature(s: &mut Src) -> Vec<u8> {
    let b = &mut FlatBufferBuilder::new();
    let id = must(b, s);
    let objects = list(b, s, 3, object);
    let vertices = structs(b, s, 9, |s| Vertex::new(num(s) as i32, num(s) as i32, num(s) as i32));
    let appearance = s.chance(1, 2).then(|| appearance(b, s));
    let f = CityFeature::create(b, &CityFeatureArgs { id, objects, vertices, appearance });
    b.finish_size_prefixed(f, None);
    b.finished_data().to_vec()
}

fn header(s: &mut Src, features_count: u64, index_node_size: u16, indices: &[AttributeIndex]) -> Vec<u8> {
    let b = &mut FlatBufferBuilder::new();
    let t = Transform::new(&vec3(s), &vec3(s));
    let e = GeographicalExtent::new(&vec3(s), &vec3(s));
    let version = must(b, s);
    let columns = columns(b, s);
    let semantic_columns = self::columns(b, s);
    let attribute_index = (!indices.is_empty() || s.chance(1, 3)).then(|| b.create_vector(indices));
    let appearance = s.chance(1, 3).then(|| appearance(b, s));
    let templates = list(b, s, 3, geometry).filter(|_| s.chance(1, 2));
    let templates_vertices = structs(b, s, 5, |s| DoubleVertex::new(float(s), float(s), float(s)));
    let reference_system = s.chance(1, 2).then(|| {
        let (authority, code_string) = (txt(b, s), txt(b, s).filter(|_| s.chance(1, 3)));
        ReferenceSystem::create(b, &ReferenceSystemArgs { authority, version: num(s) as i32, code: num(s) as i32, code_string })
    });
    let extensions = list(b, s, 2, |b, s| {
        let a = ExtensionArgs {
            name: txt(b, s),
            description: txt(b, s),
            url: txt(b, s),
            version: txt(b, s),
            version_cityjson: txt(b, s),
            extra_attributes: txt(b, s),
            extra_city_objects: txt(b, s),
            extra_root_properties: txt(b, s),
            extra_semantic_surfaces: txt(b, s),
        };
        Extension::create(b, &a)
    })
    .filter(|_| s.chance(1, 4));
    let attributes = attributes(b, s).filter(|_| s.chance(1, 4));
    let (identifier, reference_date, title) = (txt(b, s), txt(b, s), txt(b, s));
    let mut opt = |b: &mut B, s: &mut Src| txt(b, s).filter(|_| s.chance(1, 2));
    let a = HeaderArgs {
        transform: maybe(s, &t),
        appearance,
        columns,
        semantic_columns,
        features_count,
        index_node_size,
        attribute_index,
        geographical_extent: s.chance(1, 2).then_some(&e),
        reference_system,
        identifier,
        reference_date,
        title,
        templates,
        templates_vertices,
        extensions,
        poc_contact_name: opt(b, s),
        poc_contact_type: opt(b, s),
        poc_role: opt(b, s),
        poc_phone: opt(b, s),
        poc_email: opt(b, s),
        poc_website: opt(b, s),
        poc_address_thoroughfare_number: opt(b, s),
        poc_address_thoroughfare_name: opt(b, s),
        poc_address_locality: opt(b, s),
        poc_address_postcode: opt(b, s),
        poc_address_country: opt(b, s),
        attributes,
        version,
    };
    let h = Header::create(b, &a);
    b.finish_size_prefixed(h, None);
    b.finished_data().to_vec()
}

/// a file of valid buffers with arbitrary contents, and the number of features it states
pub fn file(s: &mut Src) -> (Vec<u8>, u64) {
    let feats: Vec<Vec<u8>> = s.list(0, 4, 2, |s, _| feature(s));
    let mut indices = vec![];
    let mut index_bytes = vec![];
    if s.chance(1, 4) {
        for _ in 0..s.usize_in(1, 2) {
            let n = s.usize_in(0, 80);
            let bytes: Vec<u8> = (0..n).map(|_| if s.chance(2, 3) { num(s) as u8 } else { s.raw() as u8 }).collect();
            let len = if s.chance(1, 4) { num(s) } else { n as u32 };
            indices.push(AttributeIndex::new(num(s) as u16, len, *s.pick(&[2u16, 4, 256, 1, 0, 65_535]), num(s)));
            index_bytes.extend(bytes);
        }
    }
    let count = if s.chance(1, 6) { num(s) as u64 * if s.chance(1, 4) { 1 << 32 } else { 1 } } else { feats.len() as u64 };
    let node_size = *s.pick(&[0u16, 0, 0, 16, 2, 1, 65_535]);
    let mut out = b"fcb\x01fcb\x00".to_vec();
    out.extend(header(s, count, node_size, &indices));
    if node_size > 1 && !feats.is_empty() {
        use fcb_core::packed_rtree::{NodeItem, PackedRTree};
        let mut at = 0;
        let nodes: Vec<NodeItem> = feats
            .iter()
            .map(|f| {
                let mut n = NodeItem::new(float(s), float(s), float(s), float(s));
                n.offset = if s.chance(1, 8) { num(s) as u64 } else { at };
                at += f.len() as u64;
                n
            })
            .collect();
        let all = NodeItem::new(-10.0, -10.0, 10.0, 10.0);
        if let Ok(t) = PackedRTree::build(&nodes, &all, node_size) {
            let _ = t.stream_write(&mut out);
        }
    }
    out.extend(index_bytes);
    for f in feats {
        out.extend(f);
    }
    (out, count)
}
