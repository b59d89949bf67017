//! Writing and reading FlatCityBuf bytes through the public API, with several kinds of reader.

use crate::engine::{fail, Failure};
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::attribute::{AttributeSchema, AttributeSchemaMethods};
use fcb_core::deserializer::to_cj_metadata;
use fcb_core::error::Error;
use fcb_core::header_writer::HeaderWriterOptions;
use fcb_core::{FcbReader, FcbWriter};
use serde_json::Value;
use std::io::{Cursor, Read};

#[derive(Clone, Debug)]
pub struct Opts {
    pub write_index: bool,
    pub indices: Option<Vec<(String, Option<u16>)>>,
    pub extent: Option<[f64; 6]>,
    pub node_size: u16,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { write_index: true, indices: None, extent: None, node_size: 16 }
    }
}

pub fn header_options(o: &Opts, n: usize) -> HeaderWriterOptions {
    HeaderWriterOptions {
        write_index: o.write_index,
        feature_count: n as u64,
        index_node_size: o.node_size,
        attribute_indices: o.indices.clone(),
        geographical_extent: o.extent,
    }
}

pub fn write(cj: &CityJSON, feats: &[CityJSONFeature], schema: Option<AttributeSchema>, sem: Option<AttributeSchema>, o: &Opts) -> Result<Vec<u8>, Error> {
    let mut w = FcbWriter::new(cj.clone(), Some(header_options(o, feats.len())), schema, sem)?;
    for f in feats {
        w.add_feature(f)?;
    }
    let mut out = vec![];
    w.write(&mut out)?;
    Ok(out)
}

/// the schema the CLI builds: inferred over all city-object attributes
pub fn infer_schema(feats: &[CityJSONFeature]) -> Option<AttributeSchema> {
    let mut schema = AttributeSchema::new();
    for f in feats {
        // map order must not decide column numbers
        let mut ids: Vec<&String> = f.city_objects.keys().collect();
        ids.sort();
        for id in ids {
            if let Some(a) = &f.city_objects[id].attributes {
                schema.add_attributes(a);
            }
        }
    }
    (!schema.is_empty()).then_some(schema)
}

pub fn infer_sem_schema(cj: &CityJSON, feats: &[CityJSONFeature]) -> Option<AttributeSchema> {
    let mut schema = AttributeSchema::new();
    let mut one = |g: &cjseq::Geometry| {
        if let Some(sem) = &g.semantics {
            for s in &sem.surfaces {
                if let Some(o) = &s.other {
                    schema.add_attributes(o);
                }
            }
        }
    };
    for f in feats {
        let mut ids: Vec<&String> = f.city_objects.keys().collect();
        ids.sort();
        for id in ids {
            for g in f.city_objects[id].geometry.iter().flatten() {
                one(g);
            }
        }
    }
    for t in cj.geometry_templates.iter() {
        for g in &t.templates {
            one(g);
        }
    }
    (!schema.is_empty()).then_some(schema)
}

pub struct Decoded {
    pub cj: CityJSON,
    pub feats: Vec<CityJSONFeature>,
    pub header_count: u64,
    pub iter_count: Option<usize>,
}

#[macro_export]
macro_rules! drain_iter {
    ($it:expr) => {{
        let mut out = vec![];
        let mut res: Result<(), fcb_core::error::Error> = Ok(());
        loop {
            match $it.next() {
                Ok(Some(f)) => match f.cur_cj_feature() {
                    Ok(f) => out.push(f),
                    Err(e) => {
                        res = Err(e);
                        break;
                    }
                },
                Ok(None) => break,
                Err(e) => {
                    res = Err(e);
                    break;
                }
            }
            if out.len() > 200_000 {
                panic!("iterator does not end");
            }
        }
        res.map(|_| out)
    }};
}

pub fn read_all(bytes: &[u8]) -> Result<Decoded, Error> {
    let mut it = FcbReader::open(Cursor::new(bytes))?.select_all()?;
    let cj = to_cj_metadata(&it.header())?;
    let header_count = it.header().features_count();
    let iter_count = it.features_count();
    let feats = drain_iter!(it)?;
    Ok(Decoded { cj, feats, header_count, iter_count })
}

/// A reader that hands out 1..=n bytes at a time, in a fixed pattern.
pub struct Chunked<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub sizes: Vec<usize>,
    pub i: usize,
}
impl Read for Chunked<'_> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.sizes[self.i % self.sizes.len()].min(buf.len()).min(self.data.len() - self.pos);
        self.i += 1;
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
impl std::io::Seek for Chunked<'_> {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let n = match p {
            std::io::SeekFrom::Start(x) => x as i64,
            std::io::SeekFrom::Current(d) => self.pos as i64 + d,
            std::io::SeekFrom::End(d) => self.data.len() as i64 + d,
        };
        if n < 0 {
            return Err(std::io::Error::from(std::io::ErrorKind::InvalidInput));
        }
        self.pos = (n as usize).min(self.data.len());
        Ok(n as u64)
    }
}

pub trait Or<T> {
    fn or_fail(self, sig: &str) -> Result<T, Failure>;
}
impl<T, E: std::fmt::Display> Or<T> for Result<T, E> {
    fn or_fail(self, sig: &str) -> Result<T, Failure> {
        match self {
            Ok(x) => Ok(x),
            Err(e) => fail(sig, format!("{sig}: {e}")),
        }
    }
}

/// multiset comparison of normalised features
pub fn same_multiset(want: &[Value], got: &[Value]) -> Option<String> {
    let mut w: Vec<String> = want.iter().map(crate::norm::canon).collect();
    let mut g: Vec<String> = got.iter().map(crate::norm::canon).collect();
    if w.len() != g.len() {
        return Some(format!("{} features expected, {} decoded", w.len(), g.len()));
    }
    w.sort();
    g.sort();
    if w == g {
        return None;
    }
    // report the closest mismatch: same id first
    for a in want {
        if !got.iter().any(|b| crate::norm::canon(a) == crate::norm::canon(b)) {
            let cand = got.iter().filter(|b| b["id"] == a["id"]).next();
            return Some(match cand {
                Some(b) => format!("feature {}: {}", a["id"], crate::norm::diff(a, b).unwrap_or_else(|| "multiplicity differs".into())),
                None => format!("feature {} is missing", a["id"]),
            });
        }
    }
    Some("multiplicities differ".into())
}
