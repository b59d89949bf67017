//! C19: reading CityJSON text, against a line-by-line model.
use crate::engine::{guarded, Probe, fail, Case, Prop, R};
use crate::ensure;
use crate::gen::{self, Prof};
use crate::norm;
use crate::tape::Src;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::{read_cityjson, read_cityjson_from_reader, CJType, CJTypeKind};
use serde_json::Value;
use std::io::{BufReader, Read};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C19",
        level: "exploration",
        rule: "a text of at least three lines, or a damaged one",
        assumptions: &["lines are separated by LF or CR LF; an empty line is malformed"],
        quick: 120_000,
        thorough: 3_000_000,
        run: c19,
        probes: &[Probe { name: "crs_url_panic", run: probe_crs_url }],
    }]
}

/// gives the text in pieces, with interruptions, and fails at a chosen place
struct Pieces {
    data: Vec<u8>,
    pos: usize,
    sizes: Vec<usize>,
    i: usize,
    fail_at: Option<usize>,
}

impl Read for Pieces {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.sizes[self.i % self.sizes.len()];
        self.i += 1;
        if n == 0 {
            return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut end = self.data.len();
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                return Err(std::io::Error::new(std::io::ErrorKind::Other, "the device fails"));
            }
            end = f;
        }
        let n = n.min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// what the text holds, or None if it is malformed
fn model_seq(text: &[u8]) -> Option<(CityJSON, Vec<CityJSONFeature>)> {
    let t = std::str::from_utf8(text).ok()?;
    let t = t.strip_suffix('\n').unwrap_or(t);
    if t.is_empty() {
        return None;
    }
    let mut ls = t.split('\n');
    let cj = serde_json::from_str(ls.next()?).ok()?;
    let mut fs = vec![];
    for l in ls {
        fs.push(serde_json::from_str(l).ok()?);
    }
    Some((cj, fs))
}

fn damage(s: &mut Src, text: &mut Vec<u8>) -> &'static str {
    let at = |s: &mut Src, n: usize| s.below(n.max(1) as u64) as usize;
    match s.weighted(&[4, 4, 3, 3, 2, 2, 2, 1, 1]) {
        0 => {
            let i = at(s, text.len());
            text.truncate(i);
            "cut"
        }
        1 => {
            if !text.is_empty() {
                let i = at(s, text.len());
                text.remove(i);
            }
            "a byte lost"
        }
        2 => {
            if !text.is_empty() {
                let i = at(s, text.len());
                text[i] = *s.pick(&[b'{', b'}', b'"', b',', b'\n', b'\r', 0, b' ', 0xff, 0xc3, b'7', b'\\']);
            }
            "a byte changed"
        }
        3 => {
            let i = at(s, text.len() + 1);
            text.insert(i, *s.pick(&[b'{', b'}', b'"', b',', b'\n', b'\r', 0, b' ', 0xff, b'0']));
            "a byte added"
        }
        4 => {
            // a line lost, doubled or moved in front
            let mut ls: Vec<Vec<u8>> = text.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
            let i = at(s, ls.len());
            match s.below(4) {
                0 => {
                    ls.remove(i);
                }
                1 => {
                    let l = ls[i].clone();
                    ls.insert(i, l);
                }
                2 => {
                    let l = ls.remove(i);
                    ls.insert(0, l);
                }
                _ => ls.insert(i, vec![]),
            }
            *text = ls.join(&b'\n');
            "a line lost, doubled, moved or empty"
        }
        5 => {
            // two lines in one
            let nl: Vec<usize> = (0..text.len()).filter(|i| text[*i] == b'\n').collect();
            if !nl.is_empty() {
                let i = nl[at(s, nl.len())];
                text[i] = b' ';
            }
            "two lines joined"
        }
        6 => {
            let other: &[u8] = s.pick(&[&b"{}"[..], b"[]", b"null", b"17", b"\"text\"", b"{\"type\":\"CityJSONFeature\"}", b"", b" "]);
            let mut ls: Vec<Vec<u8>> = text.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
            let i = at(s, ls.len());
            ls[i] = other.to_vec();
            *text = ls.join(&b'\n');
            "another value in a line"
        }
        7 => {
            text.clear();
            "no text at all"
        }
        _ => {
            text.splice(0..0, [0xef, 0xbb, 0xbf]);
            "a byte order mark"
        }
    }
}

fn c19(c: &mut Case) -> R {
    let p = Prof { max_features: 12, avg_features: 4, max_vertices: 6, ..Prof::full() };
    let ds = gen::dataset(c.s, &p);
    if let Some(w) = &ds.wide {
        c.class(format!("many {w}"));
    }
    let seq = c.s.chance(3, 4);
    let mut text: Vec<u8> = vec![];
    if seq {
        let crlf = c.s.weighted(&[3, 2, 2]);
        let pad = c.s.chance(1, 6);
        let all: Vec<&Value> = std::iter::once(&ds.header).chain(&ds.features).collect();
        for (i, v) in all.iter().enumerate() {
            if pad && c.s.chance(1, 2) {
                text.extend(*c.s.pick(&[&b" "[..], b"\t", b"  \t "]));
            }
            text.extend(v.to_string().bytes());
            if pad && c.s.chance(1, 2) {
                text.extend(*c.s.pick(&[&b" "[..], b"\t", b"\r"]));
            }
            if i + 1 < all.len() || c.s.chance(2, 3) {
                let rn = crlf == 1 || crlf == 2 && c.s.chance(1, 2);
                text.extend(if rn { &b"\r\n"[..] } else { b"\n" });
            } else {
                c.class("no final newline");
            }
        }
        c.class(["LF", "CR LF", "mixed line endings"][crlf]);
    } else {
        let mut doc = ds.header.clone();
        if let Some(f) = ds.features.first() {
            doc["CityObjects"] = f["CityObjects"].clone();
            doc["vertices"] = f["vertices"].clone();
        }
        let t = if c.s.chance(1, 2) { doc.to_string() } else { serde_json::to_string_pretty(&doc).unwrap() };
        let t = if c.s.chance(1, 3) { t.replace('\n', "\r\n") } else { t };
        text.extend(t.bytes());
        if c.s.chance(1, 2) {
            text.extend(*c.s.pick(&[&b"\n"[..], b"\r\n", b"\n\n \n"]));
        }
    }
    let mut what = "whole";
    if c.s.chance(1, 2) {
        what = damage(c.s, &mut text);
        if c.s.chance(1, 8) {
            damage(c.s, &mut text);
        }
    }
    c.class(if seq { "sequence" } else { "document" });
    c.class(what);
    let fail_at = c.s.chance(1, 12).then(|| c.s.below(text.len() as u64 + 1) as usize);
    let from_file = fail_at.is_none() && c.s.chance(1, 12);
    let mut sizes: Vec<usize> = c.s.list(1, 6, 3, |s, _| *s.pick(&[0usize, 1, 2, 7, 64, 1000, 1 << 16]));
    if sizes.iter().all(|n| *n == 0) {
        sizes.push(1);
    }
    let cap = *c.s.pick(&[1usize, 2, 16, 100, 8192]);
    c.note(|| format!("{}, {what}; pieces {sizes:?}, buffer {cap}, fails at {fail_at:?}, from a file: {from_file}\n{}", if seq { "sequence" } else { "document" }, String::from_utf8_lossy(&text)));
    if text.iter().filter(|b| **b == b'\n').count() >= 2 || what != "whole" {
        c.nontrivial(&text);
    }
    // the parser crate itself panics on some reference systems (known finding)
    let model = || if seq { model_seq(&text) } else { std::str::from_utf8(&text).ok().and_then(|t| serde_json::from_str::<CityJSON>(t).ok()).map(|d| (d, vec![])) };
    let Ok(want) = guarded(|| Ok(model())) else {
        c.class("the parser crate panics");
        return Ok(());
    };
    let kind = if seq { CJTypeKind::Seq } else { CJTypeKind::Normal };
    let got = if from_file {
        c.class("from a file");
        let dir = crate::props::cli::Scratch::new();
        let path = dir.file("in");
        if c.s.chance(1, 20) {
            let r = read_cityjson(&path, kind);
            ensure!(r.is_err(), "missing file", "reading a file that does not exist succeeds");
            return Ok(());
        }
        std::fs::write(&path, &text).unwrap();
        read_cityjson(&path, kind)
    } else {
        let r = Pieces { data: text.clone(), pos: 0, sizes, i: 0, fail_at };
        read_cityjson_from_reader(BufReader::with_capacity(cap, r), kind)
    };
    if fail_at.is_some() {
        c.class("the device fails");
        ensure!(got.is_err(), "read error lost", "the reader fails at byte {fail_at:?}, yet a result is returned");
        return Ok(());
    }
    c.class(if want.is_some() { "well-formed" } else { "malformed" });
    match (want, got) {
        (None, Err(e)) => {
            ensure!(!e.to_string().trim().is_empty(), "empty error", "the error has no text");
            Ok(())
        }
        (None, Ok(t)) => {
            let n = match t {
                CJType::Seq(s) => format!("a sequence of {} features", s.features.len()),
                CJType::Normal(_) => "a document".into(),
            };
            fail("malformed text accepted", format!("malformed text ({what}) is read as {n}"))
        }
        (Some(_), Err(e)) => fail("well-formed text refused", format!("well-formed text is refused: {e}")),
        (Some((cj, fs)), Ok(t)) => {
            let v = |c: &CityJSON| serde_json::to_value(c).unwrap();
            match t {
                CJType::Normal(d) => {
                    ensure!(!seq, "kind", "a sequence was asked for, a document returned");
                    if let Some(m) = norm::diff(&v(&cj), &v(&d)) {
                        return fail("document differs", m);
                    }
                }
                CJType::Seq(q) => {
                    ensure!(seq, "kind", "a document was asked for, a sequence returned");
                    if let Some(m) = norm::diff(&v(&cj), &v(&q.cj)) {
                        return fail("metadata object differs", m);
                    }
                    ensure!(fs.len() == q.features.len(), "number of features", "the text has {} features, {} are returned", fs.len(), q.features.len());
                    for (i, (a, b)) in fs.iter().zip(&q.features).enumerate() {
                        if let Some(m) = norm::diff(&serde_json::to_value(a).unwrap(), &serde_json::to_value(b).unwrap()) {
                            return fail("features differ", format!("feature {i}: {m}"));
                        }
                    }
                }
            }
            Ok(())
        }
    }
}

fn probe_crs_url() -> R {
    let text = r#"{"type":"CityJSON","version":"2.0","transform":{"scale":[1.0,1.0,1.0],"translate":[0.0,0.0,0.0]},"CityObjects":{},"vertices":[],"metadata":{"referenceSystem":"https://www.opengis.net/def/crs"}}"#;
    guarded(|| {
        let r = read_cityjson_from_reader(BufReader::new(text.as_bytes()), CJTypeKind::Seq);
        ensure!(r.is_err(), "malformed text accepted", "a reference system without authority and code is accepted");
        Ok(())
    })
}
