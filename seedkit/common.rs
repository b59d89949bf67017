#![allow(dead_code)]
use cjseq::{CityJSON, CityJSONFeature};
use fallible_streaming_iterator::FallibleStreamingIterator;
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::{FcbReader, FcbWriter};
use serde_json::{json, Value};
use std::io::{Cursor, Read};

pub fn meta() -> Value {
    json!({"type":"CityJSON","version":"2.0","transform":{"scale":[1.0,1.0,1.0],"translate":[0.0,0.0,0.0]},"CityObjects":{},"vertices":[]})
}

/// a feature of one building at the given vertices
pub fn building(id: &str, vertices: Value, attributes: Value) -> Value {
    json!({"type":"CityJSONFeature","id":id,"vertices":vertices,"CityObjects":{id:{"type":"Building","attributes":attributes}}})
}

pub fn schema_of(feats: &[CityJSONFeature]) -> AttributeSchema {
    let mut schema = AttributeSchema::new();
    for f in feats {
        let mut objects: Vec<_> = f.city_objects.iter().collect();
        objects.sort_by_key(|o| o.0.clone());
        for (_, o) in objects {
            if let Some(a) = &o.attributes {
                schema.add_attributes(a);
            }
        }
    }
    schema
}

/// writes the features; `indices` are the attributes to index
pub fn write(meta: Value, feats: &[Value], schema: Option<AttributeSchema>, spatial: bool, indices: &[(&str, Option<u16>)]) -> Vec<u8> {
    let cj: CityJSON = serde_json::from_value(meta).unwrap();
    let feats: Vec<CityJSONFeature> = feats.iter().map(|f| serde_json::from_value(f.clone()).unwrap()).collect();
    let opts = HeaderWriterOptions {
        write_index: spatial,
        feature_count: feats.len() as u64,
        index_node_size: 16,
        attribute_indices: (!indices.is_empty()).then(|| indices.iter().map(|(n, b)| (n.to_string(), *b)).collect()),
        geographical_extent: None,
    };
    let schema = schema.unwrap_or_else(|| schema_of(&feats));
    let mut w = FcbWriter::new(cj, Some(opts), Some(schema), None).unwrap();
    for f in &feats {
        w.add_feature(f).unwrap();
    }
    let mut out = Vec::new();
    w.write(&mut out).unwrap();
    out
}

pub fn open(bytes: &[u8]) -> FcbReader<Cursor<&[u8]>> {
    FcbReader::open(Cursor::new(bytes)).unwrap()
}

/// the features of an iterator, as JSON
#[macro_export]
macro_rules! all {
    ($it:expr) => {{
        let mut it = $it;
        let mut out: Vec<serde_json::Value> = Vec::new();
        while it.next().unwrap().is_some() {
            out.push(serde_json::to_value(it.cur_cj_feature().unwrap()).unwrap());
        }
        out
    }};
}

pub fn read_all(bytes: &[u8]) -> Vec<Value> {
    all!(open(bytes).select_all().unwrap())
}

pub fn ids(feats: &[Value]) -> Vec<String> {
    let mut v: Vec<_> = feats.iter().map(|f| f["id"].as_str().unwrap().to_string()).collect();
    v.sort();
    v
}

/// a reader that returns few bytes at a time
pub struct Slow<'a>(pub &'a [u8], pub usize);
impl Read for Slow<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.1.min(buf.len()).min(self.0.len());
        buf[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}

pub fn schema_json(feats: &[Value]) -> AttributeSchema {
    schema_of(&feats.iter().map(|f| serde_json::from_value(f.clone()).unwrap()).collect::<Vec<_>>())
}

/// the ids in the order of the features
pub fn ids_in_order(feats: &[Value]) -> Vec<String> {
    feats.iter().map(|f| f["id"].as_str().unwrap().to_string()).collect()
}
