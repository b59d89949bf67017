//! C22: the statistics tool, run as a process over directories of datasets.
use super::cli::{tool, Out, Scratch, To};
use crate::engine::{fail, Case, Prop, R};
use crate::ensure;
use crate::fcb::{self, Opts, Or};
use crate::gen::{self, Prof};
use crate::props::layout::layout;
use crate::tape::Src;
use serde_json::Value;
use std::collections::BTreeMap;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C22",
        level: "exploration",
        rule: "at least two datasets to report, one of them with features",
        assumptions: &["names of datasets are free of commas and vertical bars", "the processor time of one run of the tool is limited to 60 s"],
        quick: 20_000,
        thorough: 400_000,
        run: c22,
        probes: &[],
    }]
}

/// what the tool has to say about one dataset
struct Expect {
    city: String,
    fcb_size: u64,
    jsonl_size: u64,
    features: u64,
    objects: u64,
    vertices: u64,
    attributes: u64,
    semantic: u64,
    avg_fcb: f64,
    avg_jsonl: f64,
}

fn per(a: f64, b: u64) -> f64 {
    if b == 0 {
        0.0
    } else {
        a / b as f64
    }
}

fn saved(packed: f64, plain: f64) -> f64 {
    if plain > 0.0 {
        (plain - packed) / plain
    } else {
        0.0
    }
}

fn human(n: u64) -> String {
    let units = ["B", "KB", "MB", "GB"];
    let i = (0..3).take_while(|i| n >= 1024u64.pow(i + 1)).count();
    match i {
        0 => format!("{n} B"),
        _ => format!("{:.2} {}", n as f64 / 1024f64.powi(i as i32), units[i]),
    }
}

impl Expect {
    /// every number, by the name it has in the JSON output
    fn values(&self) -> BTreeMap<&'static str, f64> {
        BTreeMap::from([
            ("fcb_size", self.fcb_size as f64),
            ("jsonl_size", self.jsonl_size as f64),
            ("compression", saved(self.fcb_size as f64, self.jsonl_size as f64)),
            ("features", self.features as f64),
            ("city_objects", self.objects as f64),
            ("vertices", self.vertices as f64),
            ("vertices_per_object", per(self.vertices as f64, self.objects)),
            ("vertices_per_feature", per(self.vertices as f64, self.features)),
            ("attributes", self.attributes as f64),
            ("semantic_attributes", self.semantic as f64),
            ("avg_fcb_feature_size", self.avg_fcb),
            ("avg_jsonl_feature_size", self.avg_jsonl),
            ("feature_compression", saved(self.avg_fcb, self.avg_jsonl)),
        ])
    }
    fn table(&self) -> BTreeMap<&'static str, String> {
        let v = self.values();
        let pc = |k: &str| format!("{:.2}%", v[k] * 100.0);
        let int = |k: &str| format!("{}", v[k] as u64);
        let two = |k: &str| format!("{:.2}", v[k]);
        BTreeMap::from([
            ("City", self.city.clone()),
            ("FCB Size", human(self.fcb_size)),
            ("JSONL Size", human(self.jsonl_size)),
            ("Compression", pc("compression")),
            ("Features", int("features")),
            ("City Objects", int("city_objects")),
            ("Vertices", int("vertices")),
            ("Vertices/Object", two("vertices_per_object")),
            ("Vertices/Feature", two("vertices_per_feature")),
            ("Attributes", int("attributes")),
            ("Semantic Attributes", int("semantic_attributes")),
            ("Avg FCB Feat Size", human(self.avg_fcb as u64)),
            ("Avg JSONL Feat Size", human(self.avg_jsonl as u64)),
            ("Feature Compression", pc("feature_compression")),
        ])
    }
}

fn close(a: f64, b: f64, digits: Option<i32>) -> bool {
    let slack = digits.map(|d| 0.5001 * 10f64.powi(-d)).unwrap_or(0.0);
    (a - b).abs() <= slack + 1e-12 * a.abs().max(b.abs())
}

/// a dataset as the two files, and what is in it
fn dataset(s: &mut Src, city: &str) -> Result<(Vec<u8>, String, Expect), crate::engine::Failure> {
    let p = Prof { max_features: 12, avg_features: 3, wide: 60, ..Prof::full() };
    let ds = gen::dataset(s, &p);
    let (cj, feats) = (ds.cj(), ds.feats());
    let schema = if s.chance(1, 5) { None } else { fcb::infer_schema(&feats) };
    let sem = fcb::infer_sem_schema(&cj, &feats);
    let o = Opts { write_index: s.chance(1, 2), ..Default::default() };
    let bytes = fcb::write(&cj, &feats, schema.clone(), sem.clone(), &o).or_fail("write fails")?;
    let sep = if s.chance(1, 6) { "\r\n" } else { "\n" };
    let mut text = ds.jsonl().lines().collect::<Vec<_>>().join(sep);
    if s.chance(2, 3) {
        text.push_str(sep);
    }
    let lay = match layout(&bytes) {
        Ok(l) => l,
        Err(e) => return fail("layout", e),
    };
    let n = feats.len() as u64;
    let lines: usize = ds.jsonl().lines().skip(1).map(|l| l.len()).sum();
    let e = Expect {
        city: city.into(),
        fcb_size: bytes.len() as u64,
        jsonl_size: text.len() as u64,
        features: n,
        objects: feats.iter().map(|f| f.city_objects.len() as u64).sum(),
        vertices: feats.iter().map(|f| f.vertices.len() as u64).sum(),
        attributes: schema.map_or(0, |s| s.len() as u64),
        semantic: sem.map_or(0, |s| s.len() as u64),
        avg_fcb: per((bytes.len() - lay.features) as f64, n),
        avg_jsonl: per(lines as f64, n),
    };
    Ok((bytes, text, e))
}

fn stats(args: &[String]) -> Out {
    tool("FCB_STATS", args, None, To::Pipe)
}

fn c22(c: &mut Case) -> R {
    let dir = Scratch::new();
    let recursive = c.s.chance(1, 2);
    let filter: Option<Vec<&str>> = c.s.chance(1, 3).then(|| {
        let n = c.s.usize_in(1, 3);
        (0..n).map(|_| *c.s.pick(&["a", "b", "ab", "Zürich", "no", "a b"])).collect()
    });
    let format = *c.s.pick(&["json", "json", "csv", "table"]);
    let folders = ["", "sub/", "sub/deep/", "x.fcb/"];
    for f in folders {
        std::fs::create_dir_all(dir.file(f)).expect("directory");
    }
    let mut want = vec![];
    let mut note = String::new();
    let mut used = std::collections::BTreeSet::new();
    let count = c.s.usize_in(0, 6);
    for _ in 0..count {
        let stem = format!("{}{}", c.s.pick(&["a", "ab", "b", "Zürich", "a b", "a.b", "A"]), c.s.below(6));
        let folder = folders[c.s.weighted(&[6, 2, 1, 1])];
        // the names are told apart by the file system and the folder by the tool
        if !used.insert(stem.clone()) {
            continue;
        }
        let (bytes, text, e) = dataset(c.s, &stem)?;
        let kind = c.s.weighted(&[6, 3, 2, 1, 1, 1]);
        let put = |name: String, data: &[u8]| std::fs::write(dir.file(&format!("{folder}{name}")), data).expect("file");
        let mut listed = true;
        match kind {
            0 => put(format!("{stem}.city.jsonl"), text.as_bytes()),
            1 => put(format!("{stem}.jsonl"), text.as_bytes()),
            2 => {
                // the first name is the one looked for first
                put(format!("{stem}.city.jsonl"), text.as_bytes());
                put(format!("{stem}.jsonl"), b"{}\nother\n");
            }
            3 => listed = false,
            _ => put(format!("{stem}.city.jsonl"), text.as_bytes()),
        }
        match kind {
            4 => {
                // cut short: no dataset
                let at = c.s.below(bytes.len() as u64) as usize;
                put(format!("{stem}.fcb"), &bytes[..at]);
                listed = false;
            }
            5 => {
                put(format!("{stem}.fcbx"), &bytes);
                listed = false;
            }
            _ => put(format!("{stem}.fcb"), &bytes),
        }
        let kept = filter.as_ref().is_none_or(|f| f.iter().any(|p| stem.starts_with(p)));
        note += &format!("{folder}{stem}: kind {kind}, {} features; ", e.features);
        c.class(["city.jsonl", "jsonl", "both names", "no text", "cut short", "other name"][kind]);
        if listed && kept && (folder.is_empty() || recursive) {
            want.push(e);
        }
    }
    want.sort_by(|a, b| a.city.cmp(&b.city));
    let mut args: Vec<String> = vec!["--dir".into(), dir.file(""), "--format".into(), format.into()];
    if recursive {
        args.push("-r".into());
    }
    if let Some(f) = &filter {
        args.push("--cities".into());
        args.push(f.join(*c.s.pick(&[",", ", ", " ,"])));
    }
    c.note(|| format!("{args:?}: {note}"));
    c.class(format);
    c.class_if(recursive, "recursive");
    c.class_if(filter.is_some(), "filtered");
    if want.len() >= 2 && want.iter().any(|e| e.features > 0) {
        c.nontrivial(format!("{args:?}{note}").as_bytes());
    }
    if c.index % 101 == 0 {
        let o = stats(&["--dir".into(), dir.file("missing")]);
        ensure!(!o.ok(), "missing directory", "no error: {}", o.show());
    }
    let o = stats(&args);
    ensure!(o.ok(), "stats fails", "{}", o.show());
    let text = String::from_utf8(o.stdout.clone()).or_fail("output is no text")?;
    let rows: Vec<BTreeMap<String, String>> = match format {
        "json" => match text.lines().position(|l| l == "[" || l == "[]") {
            None => vec![],
            Some(at) => {
                let v: Vec<BTreeMap<String, Value>> = serde_json::from_str(&text.lines().skip(at).collect::<Vec<_>>().join("\n")).or_fail("output is no JSON")?;
                v.into_iter().map(|m| m.into_iter().map(|(k, v)| (k, v.as_str().map(String::from).unwrap_or(v.to_string()))).collect()).collect()
            }
        },
        _ => {
            let (head, cell): (&str, fn(&str) -> Vec<String>) = match format {
                "csv" => ("city,", |l| l.split(',').map(String::from).collect()),
                _ => ("| City ", |l| l.trim().trim_matches('|').split('|').map(|x| x.trim().to_string()).collect()),
            };
            match text.lines().position(|l| l.starts_with(head)) {
                None => vec![],
                Some(at) => {
                    let names = cell(text.lines().nth(at).unwrap());
                    let mut rows = vec![];
                    for l in text.lines().skip(at + 1).filter(|l| !l.starts_with("+-")) {
                        let cells = cell(l);
                        ensure!(cells.len() == names.len(), "cells", "{} columns {names:?}, {} cells in {l}", names.len(), cells.len());
                        rows.push(names.iter().cloned().zip(cells).collect());
                    }
                    rows
                }
            }
        }
    };
    let key = if format == "table" { "City" } else { "city" };
    let got: Vec<&String> = rows.iter().map(|r| &r[key]).collect();
    let cities: Vec<&String> = want.iter().map(|e| &e.city).collect();
    ensure!(got == cities, "datasets", "{cities:?} are there, the tool lists {got:?}; {}", text);
    for (e, r) in want.iter().zip(&rows) {
        if format == "table" {
            let w: BTreeMap<String, String> = e.table().into_iter().map(|(k, v)| (k.to_string(), v)).collect();
            ensure!(*r == w, "table", "expected {w:?}, the tool says {r:?}");
            continue;
        }
        let w = e.values();
        ensure!(r.len() == w.len() + 1, "columns", "{:?}", r.keys());
        for (k, v) in w {
            let x = r.get(k).and_then(|x| x.parse::<f64>().ok());
            let digits = match (format, k) {
                ("json", _) => None,
                (_, "compression") => Some(4),
                _ if v.fract() != 0.0 => Some(2),
                _ => None,
            };
            ensure!(x.is_some_and(|x| close(x, v, digits)), k, "{}: expected {k} {v}, the tool says {:?}", e.city, r.get(k));
        }
    }
    Ok(())
}
