//! C17: the command-line tool, run as a process.
use crate::engine::{fail, Case, Failure, Prop, R};
use crate::ensure;
use crate::fcb::same_multiset;
use crate::gen::{self, Prof};
use crate::norm;
use crate::props::layout::layout;
use crate::tape::Src;
use cjseq::{CityJSON, CityJSONFeature};
use fcb_core::fb::ColumnType;
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C17",
        level: "exploration",
        rule: "a conversion of at least two features, or an injected fault",
        assumptions: &["numbers are taken from those that serde_json's text form keeps (see json_float_ulp)", "the processor time of one run of the tool is limited to 60 s"],
        quick: 15_000,
        thorough: 150_000,
        run: c17,
        probes: &[],
    }]
}

pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        let base = std::env::var("FCB_VERIF").unwrap_or_else(|_| "/verif".into());
        let d = Path::new(&base).join(format!("build/scratch-cli-{}", std::process::id()));
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
    pub fn file(&self, name: &str) -> String {
        self.0.join(name).to_str().unwrap().to_string()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

pub struct Out {
    code: Option<i32>,
    signal: Option<i32>,
    pub stdout: Vec<u8>,
    stderr: String,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn show(&self) -> String {
        let t = &self.stderr;
        let how = match self.signal {
            Some(s) => format!("ended by signal {s}"),
            None => format!("exit {}", self.code.unwrap_or(-1)),
        };
        format!("{how}, stderr: {}", t.chars().take(600).collect::<String>())
    }
}

/// where standard output goes
pub enum To {
    Pipe,
    Full,
}

fn fcb(args: &[String], stdin: Option<&[u8]>, to: To) -> Out {
    tool("FCB_CLI", args, stdin, to)
}

/// runs the program that the environment variable names
pub fn tool(name: &str, args: &[String], stdin: Option<&[u8]>, to: To) -> Out {
    let path = std::env::var(name).unwrap_or_else(|_| panic!("{name}"));
    let mut c = Command::new(path);
    c.args(args).env_remove("RUST_BACKTRACE").stderr(Stdio::piped());
    c.stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    c.stdout(match to {
        To::Pipe => Stdio::piped(),
        To::Full => Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").expect("/dev/full")),
    });
    unsafe {
        c.pre_exec(|| {
            let r = libc::rlimit { rlim_cur: 60, rlim_max: 60 };
            libc::setrlimit(libc::RLIMIT_CPU, &r);
            Ok(())
        });
    }
    let mut child = c.spawn().expect("the tool starts");
    let feed = stdin.map(|d| {
        let d = d.to_vec();
        let mut w = child.stdin.take().unwrap();
        std::thread::spawn(move || {
            let _ = w.write_all(&d);
        })
    });
    let o = child.wait_with_output().expect("the tool ends");
    if let Some(f) = feed {
        let _ = f.join();
    }
    Out { code: o.status.code(), signal: o.status.signal(), stdout: o.stdout, stderr: String::from_utf8_lossy(&o.stderr).into_owned() }
}

fn a(xs: &[&str]) -> Vec<String> {
    xs.iter().map(|x| x.to_string()).collect()
}

/// An end that is neither success nor an orderly failure (an abort, an endless loop)
fn orderly(o: &Out, what: &str) -> R {
    if let Some(s) = o.signal {
        return fail(format!("{what}: signal"), format!("{what} is ended by signal {s}: {}", o.show()));
    }
    Ok(())
}

struct Input {
    header: Value,
    features: Vec<Value>,
    columns: Vec<gen::Column>,
}

fn input(s: &mut Src) -> Input {
    let p = Prof { max_features: 40, ..Prof::full() };
    let mut ds = gen::dataset(s, &p);
    if s.chance(1, 40) && !ds.features.is_empty() {
        // more features than the tool looks at for its attribute columns
        let n = s.usize_in(990, 1010) - ds.features.len().min(40);
        let mut many: Vec<Value> = (0..n)
            .map(|i| json!({"type": "CityJSONFeature", "id": format!("m{i}"), "CityObjects": {format!("m{i}"): {"type": "Building", "attributes": {"m": i}}}, "vertices": [[i, i % 7, 3]]}))
            .collect();
        many.extend(ds.features.drain(..));
        ds.features = many;
    }
    gen::stabilise(&mut ds.header);
    ds.features.iter_mut().for_each(gen::stabilise);
    Input { header: ds.header, features: ds.features, columns: ds.columns }
}

fn lines(header: &Value, features: &[Value]) -> String {
    let mut t = header.to_string();
    t.push('\n');
    for f in features {
        t.push_str(&f.to_string());
        t.push('\n');
    }
    t
}

fn world(f: &Value, t: &Value) -> Vec<[f64; 3]> {
    let n = |k: &str, i: usize| t[k][i].as_f64().unwrap();
    f["vertices"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| {
            let c = |i: usize| v[i].as_i64().unwrap() as f64 * n("scale", i) + n("translate", i);
            [c(0), c(1), c(2)]
        })
        .collect()
}

fn bbox(s: &mut Src, feats: &[Value], t: &Value) -> [f64; 4] {
    let all: Vec<[f64; 3]> = feats.iter().flat_map(|f| world(f, t)).collect();
    let mut at = |s: &mut Src| -> [f64; 2] {
        if all.is_empty() || s.chance(1, 10) {
            return [gen::text_stable(s.i64_in(-100, 100) as f64), s.i64_in(-100, 100) as f64];
        }
        let v = all[s.below(all.len() as u64) as usize];
        [v[0], v[1]]
    };
    let (p, q) = (at(s), at(s));
    let mut b = [p[0].min(q[0]), p[1].min(q[1]), p[0].max(q[0]), p[1].max(q[1])];
    if s.chance(1, 6) {
        b = [f64::MIN, f64::MIN, f64::MAX, f64::MAX];
    }
    // one step outside or inside of a vertex
    if s.chance(1, 3) {
        let i = s.below(4) as usize;
        let up = s.chance(1, 2);
        let w = if up { b[i].next_up() } else { b[i].next_down() };
        let mut c = b;
        c[i] = w;
        if c[0] <= c[2] && c[1] <= c[3] && w.is_finite() {
            b = c;
        }
    }
    b
}

fn parse_lines(text: &[u8], what: &str) -> Result<(CityJSON, Vec<CityJSONFeature>), Failure> {
    let t = match std::str::from_utf8(text) {
        Ok(t) => t,
        Err(e) => return fail("output is no text", format!("{what} is not UTF-8: {e}")),
    };
    let mut ls = t.lines();
    let Some(first) = ls.next() else {
        return fail("output is empty", format!("{what} is empty"));
    };
    let cj = match serde_json::from_str(first) {
        Ok(c) => c,
        Err(e) => return fail("output is no CityJSON", format!("the first line of {what} is no CityJSON object: {e}")),
    };
    let mut fs = vec![];
    for (i, l) in ls.enumerate() {
        match serde_json::from_str(l) {
            Ok(f) => fs.push(f),
            Err(e) => return fail("output is no feature", format!("line {} of {what} is no feature: {e}", i + 2)),
        }
    }
    Ok((cj, fs))
}

fn c17(c: &mut Case) -> R {
    let dir = Scratch::new();
    match c.s.weighted(&[10, 5, 2]) {
        0 => convert(c, &dir),
        1 => faults(c, &dir),
        _ => other(c, &dir),
    }
}

/// the options of one `ser` run
#[derive(Default, Clone, Debug)]
struct SerOpts {
    spatial: Option<bool>,
    all: Option<bool>,
    names: Option<Vec<String>>,
    factor: Option<u16>,
    bbox: Option<[f64; 4]>,
    ge: Option<bool>,
}

impl SerOpts {
    fn args(&self) -> Vec<String> {
        let mut v = vec![];
        if let Some(b) = self.spatial {
            v.push(format!("--spatial-index={b}"));
        }
        if let Some(b) = self.all {
            v.push(format!("-A={b}"));
        }
        if let Some(n) = &self.names {
            v.push(format!("--attr-index={}", n.join(",")));
        }
        if let Some(f) = self.factor {
            v.push(format!("--attr-branching-factor={f}"));
        }
        if let Some(b) = self.bbox {
            v.push(format!("--bbox={},{},{},{}", b[0], b[1], b[2], b[3]));
        }
        if let Some(b) = self.ge {
            v.push(format!("-g={b}"));
        }
        v
    }
}

fn opts(s: &mut Src, x: &Input) -> SerOpts {
    let t3 = |s: &mut Src| *s.pick(&[None, Some(true), Some(false)]);
    let usable = |n: &str| !n.is_empty() && n.trim() == n && !n.contains(',') && !n.contains('\0');
    let mut o = SerOpts { spatial: t3(s), ge: t3(s), ..Default::default() };
    match s.weighted(&[3, 3, 3]) {
        0 => {}
        1 => o.all = Some(s.chance(3, 4)),
        _ => {
            let mut names: Vec<String> = vec![];
            for col in &x.columns {
                if s.chance(1, 2) && usable(&col.name) {
                    names.push(col.name.clone());
                }
            }
            o.names = Some(names);
        }
    }
    if s.chance(1, 3) {
        o.factor = Some(*s.pick(&[2u16, 3, 4, 16, 64, 257, 1000]));
    }
    if s.chance(1, 3) {
        o.bbox = Some(bbox(s, &x.features, &x.header["transform"]));
    }
    o
}

fn kept(x: &Input, o: &SerOpts) -> Vec<Value> {
    let inside = |f: &Value| match o.bbox {
        None => true,
        Some(b) => world(f, &x.header["transform"]).iter().any(|v| v[0] >= b[0] && v[0] <= b[2] && v[1] >= b[1] && v[1] <= b[3]),
    };
    x.features.iter().filter(|f| inside(f)).cloned().collect()
}

fn union(feats: &[Value], t: &Value) -> [f64; 6] {
    let vs: Vec<[f64; 3]> = feats.iter().flat_map(|f| world(f, t)).collect();
    let mut e = [0.0; 6];
    for i in 0..3 {
        e[i] = vs.iter().map(|v| v[i]).fold(f64::INFINITY, f64::min);
        e[i + 3] = vs.iter().map(|v| v[i]).fold(f64::NEG_INFINITY, f64::max);
    }
    if vs.is_empty() {
        [0.0; 6]
    } else {
        e
    }
}

fn close(x: f64, y: f64) -> bool {
    x == y || (x - y).abs() <= x.abs().max(y.abs()) * 4.0 * f64::EPSILON
}

/// the metadata object in normal form without the extent, and the extent
fn split_extent(mut v: Value) -> (Value, Option<Vec<f64>>) {
    let e = v.get_mut("metadata").and_then(|m| m.as_object_mut()).and_then(|m| m.remove("geographicalExtent"));
    if v.get("metadata").and_then(|m| m.as_object()).map(|m| m.is_empty()).unwrap_or(false) {
        v.as_object_mut().unwrap().remove("metadata");
    }
    (v, e.map(|e| e.as_array().map(|a| a.iter().filter_map(|x| x.as_f64()).collect()).unwrap_or_default()))
}

fn convert(c: &mut Case, dir: &Scratch) -> R {
    let x = input(c.s);
    let o = opts(c.s, &x);
    let pipes = [c.s.chance(1, 3), c.s.chance(1, 3), c.s.chance(1, 3), c.s.chance(1, 3)];
    let text = lines(&x.header, &x.features);
    c.class("conversion");
    c.class_if(o.bbox.is_some(), "bounding box filter");
    c.class_if(o.all == Some(true), "all attributes indexed");
    c.class_if(o.names.as_ref().map(|n| !n.is_empty()).unwrap_or(false), "chosen attributes indexed");
    c.class_if(o.spatial == Some(false), "no spatial index");
    c.class_if(pipes.iter().any(|p| *p), "through a pipe");
    c.class_if(x.features.len() > 1000, "more than 1000 features");
    c.note(|| format!("fcb ser {:?} (input piped: {}, output piped: {}); deser (input piped: {}, output piped: {})\n{text}", o.args(), pipes[0], pipes[1], pipes[2], pipes[3]));
    let want = kept(&x, &o);
    if want.len() >= 2 {
        c.nontrivial(format!("{o:?}{text}").as_bytes());
    }
    c.class_if(o.bbox.is_some() && !want.is_empty() && want.len() < x.features.len(), "filter keeps some features");

    // encode
    let (jl, fb, back) = (dir.file("in.city.jsonl"), dir.file("out.fcb"), dir.file("back.city.jsonl"));
    std::fs::write(&jl, &text).unwrap();
    let mut args = a(&["ser", "-i", if pipes[0] { "-" } else { &jl }, "-o", if pipes[1] { "-" } else { &fb }]);
    args.extend(o.args());
    let r = fcb(&args, pipes[0].then_some(text.as_bytes()), To::Pipe);
    ensure!(r.ok(), "ser fails", "encoding a correct dataset fails: {}", r.show());
    let bytes = if pipes[1] { r.stdout } else { std::fs::read(&fb).unwrap_or_default() };
    std::fs::write(&fb, &bytes).unwrap();

    // decode
    let r = fcb(&a(&["deser", "-i", if pipes[2] { "-" } else { &fb }, "-o", if pipes[3] { "-" } else { &back }]), pipes[2].then_some(&bytes[..]), To::Pipe);
    ensure!(r.ok(), "deser fails", "decoding the file just written fails: {}", r.show());
    let out = if pipes[3] { r.stdout } else { std::fs::read(&back).unwrap_or_default() };
    let (cj, feats) = parse_lines(&out, "the decoded text")?;

    // the same features
    let wf: Vec<Value> = want.iter().map(|f| norm::feature(&serde_json::from_value(f.clone()).unwrap())).collect();
    let gf: Vec<Value> = feats.iter().map(norm::feature).collect();
    if o.spatial == Some(false) {
        ensure!(wf.len() == gf.len(), "number of features", "{} features in, {} out", wf.len(), gf.len());
        for (i, (p, q)) in wf.iter().zip(&gf).enumerate() {
            if let Some(m) = norm::diff(p, q) {
                return fail("features differ", format!("feature {i}: {m}"));
            }
        }
    } else if let Some(m) = same_multiset(&wf, &gf) {
        return fail("features differ", m);
    }

    // the same metadata, with the extent computed where that is asked for
    let cj0: CityJSON = serde_json::from_value(x.header.clone()).unwrap();
    let (wm, we) = split_extent(norm::metadata_object(&cj0));
    let (gm, gext) = split_extent(norm::metadata_object(&cj));
    if let Some(m) = norm::diff(&wm, &gm) {
        return fail("metadata differs", m);
    }
    let ext: Option<Vec<f64>> = if o.ge == Some(false) { we } else { Some(union(&want, &x.header["transform"]).to_vec()) };
    let same = match (&ext, &gext) {
        (None, None) => true,
        (Some(p), Some(q)) => p.len() == q.len() && p.iter().zip(q).all(|(x, y)| close(*x, *y)),
        _ => false,
    };
    ensure!(same, "extent", "the extent should be {ext:?}, decoded {gext:?}");

    // indices that were asked for
    let l = match layout(&bytes) {
        Ok(l) => l,
        Err(e) => return fail("file layout", e),
    };
    let spatial = o.spatial != Some(false) && !want.is_empty();
    ensure!((l.rtree.len() > 0) == spatial, "spatial index", "spatial index wanted: {spatial}, its size in the file: {}", l.rtree.len());
    let have: BTreeSet<String> = l.indices.iter().filter_map(|i| l.columns.iter().find(|c| c.0 == i.column)).map(|c| c.1.clone()).collect();
    let valued: BTreeSet<String> = l
        .columns
        .iter()
        .filter(|c| !matches!(c.2, ColumnType::Json | ColumnType::Binary))
        .filter(|c| {
            want.iter().flat_map(|f| f["CityObjects"].as_object().unwrap().values()).any(|o| o.get("attributes").and_then(|a| a.get(&c.1)).map(|v| !v.is_null()).unwrap_or(false))
        })
        .map(|c| c.1.clone())
        .collect();
    let asked: BTreeSet<String> = if o.all == Some(true) { valued.clone() } else { o.names.iter().flatten().filter(|n| valued.contains(*n)).cloned().collect() };
    ensure!(asked == have, "attribute indices", "indices asked for (and possible): {asked:?}, in the file: {have:?}");
    ensure!(l.indices.iter().all(|i| i.factor == o.factor.unwrap_or(if o.all == Some(true) { 256 } else { i.factor })), "branching factor", "the factor {:?} was asked for, the file has {:?}", o.factor, l.indices.iter().map(|i| i.factor).collect::<Vec<_>>());

    // info
    let r = fcb(&a(&["info", "-i", &fb]), None, To::Pipe);
    ensure!(r.ok(), "info fails", "info fails on the file just written: {}", r.show());
    info_says(&r, &cj0, want.len(), ext.as_deref(), &have)
}

fn info_says(r: &Out, cj: &CityJSON, count: usize, ext: Option<&[f64]>, have: &BTreeSet<String>) -> R {
    let t = String::from_utf8_lossy(&r.stdout).into_owned();
    let after = |k: &str| t.find(k).map(|i| t[i + k.len()..].lines().next().unwrap_or("").trim().to_string());
    ensure!(after("Version:") == Some(cj.version.lines().next().unwrap_or("").trim().to_string()), "info: version", "version {:?}, info prints {:?}", cj.version, after("Version:"));
    ensure!(after("Features count:") == Some(count.to_string()), "info: count", "{count} features, info prints {:?}", after("Features count:"));
    let triple = |k: &str| -> Option<Vec<f64>> {
        let i = t.rfind(k)?;
        t[i + k.len()..].lines().next()?.trim().trim_start_matches('[').trim_end_matches(']').split(',').map(|x| x.trim().parse().ok()).collect()
    };
    if let Some(e) = ext {
        let got: Vec<f64> = triple("Min:").into_iter().chain(triple("Max:")).flatten().collect();
        // the extent may have passed through the text form of the input
        ensure!(got.len() == 6 && got.iter().zip(e).all(|(x, y)| x == y), "info: extent", "extent {e:?}, info prints {got:?}");
    }
    for n in have {
        ensure!(t.contains(&format!("{n:?}")), "info: indices", "the indexed attribute {n:?} is not shown by info:\n{t}");
    }
    Ok(())
}

fn faults(c: &mut Case, dir: &Scratch) -> R {
    let x = input(c.s);
    let mut o = opts(c.s, &x);
    o.bbox = None;
    let text = lines(&x.header, &x.features);
    let (jl, fb, back) = (dir.file("in.city.jsonl"), dir.file("out.fcb"), dir.file("back.city.jsonl"));
    std::fs::write(&jl, &text).unwrap();
    let pipe = c.s.chance(1, 3);
    let ser = |src: &str, extra: &[String], stdin: Option<&[u8]>, out: &str, to: To| {
        let mut args = a(&["ser", "-i", if stdin.is_some() { "-" } else { src }, "-o", out]);
        args.extend(o.args());
        args.extend(extra.iter().cloned());
        fcb(&args, stdin, to)
    };
    let must_fail = |r: &Out, what: &str| -> R {
        orderly(r, what)?;
        ensure!(!r.ok(), format!("{what}: exit 0"), "{what}: the tool reports success ({})", r.show());
        Ok(())
    };
    let kind = c.s.weighted(&[6, 5, 4, 3, 2, 2, 2]);
    match kind {
        0 | 1 => {
            let r = ser(&jl, &[], None, &fb, To::Pipe);
            ensure!(r.ok(), "ser fails", "encoding a correct dataset fails: {}", r.show());
            let mut bytes = std::fs::read(&fb).unwrap();
            let what;
            if kind == 0 && !x.features.is_empty() {
                let at = if c.s.chance(1, 4) { bytes.len() - 1 - c.s.below(bytes.len().min(40) as u64) as usize } else { c.s.below(bytes.len() as u64) as usize };
                bytes.truncate(at);
                what = format!("a file cut at byte {at}");
            } else {
                let i = *c.s.pick(&[0usize, 1, 2, 4, 5, 6]);
                bytes[i] = bytes[i].wrapping_add(1 + c.s.below(255) as u8);
                what = "a file with wrong magic bytes".to_string();
            }
            c.class(if what.contains("cut") { "cut file" } else { "wrong magic bytes" });
            c.nontrivial(format!("{o:?}{what}{text}").as_bytes());
            c.note(|| format!("fcb ser {:?}, then {what}, then fcb deser (piped: {pipe})\n{text}", o.args()));
            std::fs::write(&fb, &bytes).unwrap();
            let r = fcb(&a(&["deser", "-i", if pipe { "-" } else { &fb }, "-o", if c.s.chance(1, 2) { "-" } else { &back }]), pipe.then_some(&bytes[..]), To::Pipe);
            must_fail(&r, if what.contains("cut") { "deser of a cut file" } else { "deser of a file with wrong magic bytes" })?;
            let r = fcb(&a(&["info", "-i", &fb]), None, To::Pipe);
            orderly(&r, "info of a damaged file")?;
            if what.contains("magic") {
                must_fail(&r, "info of a file with wrong magic bytes")?;
            }
            if r.ok() {
                let cj0: CityJSON = serde_json::from_value(x.header.clone()).unwrap();
                info_says(&r, &cj0, x.features.len(), None, &BTreeSet::new())?;
            }
            Ok(())
        }
        2 => {
            // one broken line
            let mut ls: Vec<String> = text.lines().map(|l| l.to_string()).collect();
            let i = c.s.below(ls.len() as u64) as usize;
            let l = ls[i].clone();
            let mut cut = c.s.below(l.len() as u64) as usize;
            while !l.is_char_boundary(cut) {
                cut -= 1;
            }
            match c.s.below(3) {
                0 if cut > 0 => ls[i] = l[..cut].to_string(),
                1 => ls[i] = format!("{l}}}"),
                _ => ls[i] = "{\"type\":\"CityJSONFeature\"}".to_string(),
            }
            let bad = ls.join("\n") + "\n";
            c.class("broken line");
            c.nontrivial(bad.as_bytes());
            c.note(|| format!("fcb ser {:?} with line {} broken (piped: {pipe})\n{bad}", o.args(), i + 1));
            std::fs::write(&jl, &bad).unwrap();
            let r = ser(&jl, &[], pipe.then_some(bad.as_bytes()), &fb, To::Pipe);
            must_fail(&r, "ser of a broken line")
        }
        3 => {
            // nowhere to write
            let via = c.s.chance(1, 2);
            let out = if via { "-" } else { "/dev/full" };
            let to = || if via { To::Full } else { To::Pipe };
            c.class("output device full");
            let which = c.s.below(4);
            c.nontrivial(format!("{o:?}{which}{via}{text}").as_bytes());
            c.note(|| format!("fcb {} -o {out} with the device full\n{text}", ["ser", "deser", "cbor", "bson"][which as usize]));
            match which {
                0 => must_fail(&ser(&jl, &[], None, out, to()), "ser to a full device"),
                1 => {
                    let r = ser(&jl, &[], None, &fb, To::Pipe);
                    ensure!(r.ok(), "ser fails", "encoding a correct dataset fails: {}", r.show());
                    must_fail(&fcb(&a(&["deser", "-i", &fb, "-o", out]), None, to()), "deser to a full device")
                }
                w => {
                    std::fs::write(&jl, x.header.to_string()).unwrap();
                    let cmd = if w == 2 { "cbor" } else { "bson" };
                    must_fail(&fcb(&a(&[cmd, "-i", &jl, "-o", out]), None, to()), &format!("{cmd} to a full device"))
                }
            }
        }
        4 => {
            c.class("input missing");
            let cmd = *c.s.pick(&["ser", "deser", "cbor", "bson", "info"]);
            c.nontrivial(cmd.as_bytes());
            c.note(|| format!("fcb {cmd} with an input file that does not exist"));
            let none = dir.file("none");
            let args = if cmd == "info" { a(&["info", "-i", &none]) } else { a(&[cmd, "-i", &none, "-o", &fb]) };
            must_fail(&fcb(&args, None, To::Pipe), &format!("{cmd} of a missing file"))
        }
        5 => {
            c.class("wrong bounding box");
            let b = c.s.pick(&["1,2,3", "1,2,3,4,5", "", "a,0,1,1", "0,0,1,", "5,0,1,1", "0,5,1,1", "0 0 1 1", "1,2,,4"]).to_string();
            c.nontrivial(b.as_bytes());
            c.note(|| format!("fcb ser --bbox={b}"));
            must_fail(&ser(&jl, &[format!("--bbox={b}")], None, &fb, To::Pipe), "ser with a wrong bounding box")
        }
        _ => {
            c.class("empty input");
            let cmd = *c.s.pick(&["ser", "deser", "cbor", "bson", "info"]);
            c.nontrivial(cmd.as_bytes());
            c.note(|| format!("fcb {cmd} with empty input"));
            std::fs::write(&jl, b"").unwrap();
            let args = if cmd == "info" { a(&["info", "-i", &jl]) } else { a(&[cmd, "-i", if pipe { "-" } else { &jl }, "-o", &fb]) };
            must_fail(&fcb(&args, pipe.then_some(&b""[..]), To::Pipe), &format!("{cmd} of empty input"))
        }
    }
}

fn bson_value(b: &bson::Bson) -> Value {
    use bson::Bson as B;
    match b {
        B::Double(f) => json!(f),
        B::String(t) => json!(t),
        B::Array(v) => Value::Array(v.iter().map(bson_value).collect()),
        B::Document(d) => Value::Object(d.iter().map(|(k, v)| (k.clone(), bson_value(v))).collect()),
        B::Boolean(v) => json!(v),
        B::Null => Value::Null,
        B::Int32(i) => json!(i),
        B::Int64(i) => json!(i),
        o => json!(format!("unexpected {o:?}")),
    }
}

/// the other encodings
fn other(c: &mut Case, dir: &Scratch) -> R {
    let x = input(c.s);
    let bson = c.s.chance(1, 2);
    let cmd = if bson { "bson" } else { "cbor" };
    let pipes = [c.s.chance(1, 3), c.s.chance(1, 3)];
    let mut doc = x.header.clone();
    if let Some(f) = x.features.first() {
        doc["CityObjects"] = f["CityObjects"].clone();
        doc["vertices"] = f["vertices"].clone();
        if let Some(p) = f.get("appearance") {
            doc["appearance"] = p.clone();
        }
    }
    let text = if c.s.chance(1, 2) { doc.to_string() } else { serde_json::to_string_pretty(&doc).unwrap() };
    c.class(cmd);
    if x.features.len() >= 2 {
        c.nontrivial(format!("{cmd}{text}").as_bytes());
    }
    c.note(|| format!("fcb {cmd} (input piped: {}, output piped: {})\n{text}", pipes[0], pipes[1]));
    let (inp, out) = (dir.file("in.json"), dir.file("out.bin"));
    std::fs::write(&inp, &text).unwrap();
    let r = fcb(&a(&[cmd, "-i", if pipes[0] { "-" } else { &inp }, "-o", if pipes[1] { "-" } else { &out }]), pipes[0].then_some(text.as_bytes()), To::Pipe);
    orderly(&r, cmd)?;
    if bson && !r.ok() {
        // BSON has neither keys with NUL nor integers beyond i64
        let big = |t: &str| t.contains("\\u0000") || has_big(&doc);
        ensure!(big(&text), "bson fails", "encoding a correct document fails: {}", r.show());
        c.class("a value BSON does not have");
        return Ok(());
    }
    ensure!(r.ok(), format!("{cmd} fails"), "encoding a correct document fails: {}", r.show());
    let bytes = if pipes[1] { r.stdout } else { std::fs::read(&out).unwrap_or_default() };
    let (want, got) = if bson {
        let cj: CityJSON = serde_json::from_str(&text).unwrap();
        let got = match bson::Document::from_reader(&bytes[..]) {
            Ok(d) => bson_value(&bson::Bson::Document(d)),
            Err(e) => return fail("bson output", format!("the output is no BSON document: {e}")),
        };
        (serde_json::to_value(&cj).unwrap(), got)
    } else {
        let got: Value = match serde_cbor::from_slice(&bytes) {
            Ok(d) => d,
            Err(e) => return fail("cbor output", format!("the output is no CBOR value: {e}")),
        };
        (doc, got)
    };
    if let Some(m) = norm::diff(&want, &got) {
        return fail(format!("{cmd} output differs"), m);
    }
    Ok(())
}

fn has_big(v: &Value) -> bool {
    match v {
        Value::Number(n) => n.as_u64().map(|x| x > i64::MAX as u64).unwrap_or(false),
        Value::Array(a) => a.iter().any(has_big),
        Value::Object(m) => m.values().any(has_big),
        _ => false,
    }
}
