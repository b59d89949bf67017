//! Runs a property over generated cases in worker processes, confirms and shrinks the
//! lowest failing case in fresh processes, and writes evidence and replay files.

use crate::tape::{hash_bytes, shrink, Src};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Debug, Clone)]
pub struct Failure {
    /// stable name of what went wrong; shrinking keeps it
    pub sig: String,
    pub msg: String,
}

pub type R = Result<(), Failure>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond { return $crate::engine::fail($sig, format!($($arg)*)); }
    };
}

pub struct Case<'a> {
    pub s: &'a mut Src,
    pub tier: Tier,
    pub index: u64,
    classes: Vec<String>,
    want_note: bool,
    note: String,
    nt: Option<u64>,
}

impl<'a> Case<'a> {
    /// records that the case belongs to a class (reported in the evidence)
    pub fn class(&mut self, name: impl Into<String>) {
        let name = name.into();
        if !self.classes.contains(&name) {
            self.classes.push(name);
        }
    }
    pub fn class_if(&mut self, cond: bool, name: &str) {
        if cond {
            self.class(name)
        }
    }
    /// describes the case (kept for samples and replay files)
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.want_note {
            if !self.note.is_empty() {
                self.note.push('\n');
            }
            let s = f();
            self.note.push_str(&s);
        }
    }
    /// marks the case non-trivial; cases are counted as distinct by `key`
    pub fn nontrivial(&mut self, key: &[u8]) {
        self.nt = Some(hash_bytes(key));
    }
}

pub struct Probe {
    pub name: &'static str,
    /// Ok = the known defect is gone (or not reachable); Err = it still shows
    pub run: fn() -> R,
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Case) -> R,
    pub probes: &'static [Probe],
}

const CPU_LIMIT_S: i64 = 60;
const AS_LIMIT: u64 = 6 << 30;

fn limits() {
    unsafe {
        let r = libc::rlimit { rlim_cur: AS_LIMIT, rlim_max: AS_LIMIT };
        libc::setrlimit(libc::RLIMIT_AS, &r);
        let c = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &c);
    }
}
fn arm_timer() {
    unsafe {
        let t = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: CPU_LIMIT_S, tv_usec: 0 },
        };
        libc::setitimer(libc::ITIMER_PROF, &t, std::ptr::null_mut());
    }
}

thread_local! {
    static PANIC_AT: std::cell::RefCell<Option<(String, String)>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info
            .location()
            .map(|l| {
                let f = l.file();
                let f = f.rsplit("/fcb_core/").next().unwrap_or(f);
                let f = f.rsplit("/registry/src/").next().unwrap_or(f);
                format!("{}:{}", f, l.line())
            })
            .unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".into()
        };
        PANIC_AT.with(|p| *p.borrow_mut() = Some((loc, msg)));
    }));
}

/// Runs `f`, turning a panic into a failure that names the place of the panic.
pub fn guarded<T>(f: impl FnOnce() -> Result<T, Failure>) -> Result<T, Failure> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            let (loc, msg) = PANIC_AT.with(|p| p.borrow_mut().take()).unwrap_or_default();
            fail(format!("panic at {loc}"), format!("panicked at {loc}: {msg}"))
        }
    }
}

struct Ran {
    result: R,
    classes: Vec<String>,
    note: String,
    nt: Option<u64>,
    record: Vec<u64>,
    spans: Vec<(usize, usize)>,
}

fn run_one(prop: &Prop, tier: Tier, index: u64, mut src: Src, want_note: bool) -> Ran {
    let (result, classes, note, nt) = {
        let mut case = Case { s: &mut src, tier, index, classes: vec![], want_note, note: String::new(), nt: None };
        let mut result = guarded(|| (prop.run)(&mut case));
        // survey: count the failures instead of stopping at the first
        if std::env::var("FCB_SURVEY").is_ok() {
            if let Err(f) = result {
                let detail: String = if std::env::var("FCB_SURVEY").as_deref() == Ok("2") { f.msg.chars().filter(|c| !c.is_ascii_digit()).take(220).collect() } else { String::new() };
                case.class(format!("FAILS {} {detail}", f.sig));
                result = Ok(());
            }
        }
        (result, case.classes, case.note, case.nt)
    };
    Ran { result, classes, note, nt, record: src.record, spans: src.spans }
}

fn case_seed(prop: &str, seed: u64, index: u64) -> u64 {
    hash_bytes(format!("{prop}/{seed}/{index}").as_bytes())
}

fn tier_name(t: Tier) -> &'static str {
    match t {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("FCB_VERIF").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------- worker side

pub fn worker_main(prop: &Prop, tier: Tier, seed: u64, k: u64, n: u64, total: u64, dir: &Path) {
    limits();
    install_panic_hook();
    let progress = std::fs::File::create(dir.join(format!("p{k}"))).unwrap();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut evaluations = 0u64;
    let mut failure: Option<Value> = None;
    let mut i = k;
    while i < total {
        progress.write_all_at(&(i + 1).to_le_bytes(), 0).unwrap();
        arm_timer();
        let want_note = samples.len() < 2;
        let ran = run_one(prop, tier, i, Src::fresh(case_seed(prop.id, seed, i)), want_note);
        evaluations += 1;
        for c in &ran.classes {
            *classes.entry(c.clone()).or_default() += 1;
        }
        if let Some(h) = ran.nt {
            distinct.insert(h);
            if want_note {
                let mut d = ran.note.clone();
                if d.len() > 3000 {
                    let mut e = 3000;
                    while !d.is_char_boundary(e) {
                        e -= 1;
                    }
                    d.truncate(e);
                    d.push_str(" ...");
                }
                samples.push(json!({"index": i, "case": d}));
            }
        }
        if let Err(f) = ran.result {
            failure = Some(json!({"index": i, "sig": f.sig, "msg": f.msg, "tape": ran.record, "spans": ran.spans}));
            break;
        }
        i += n;
    }
    let out = json!({
        "evaluations": evaluations, "classes": classes,
        "distinct": distinct.into_iter().collect::<Vec<u64>>(),
        "samples": samples, "failure": failure,
    });
    std::fs::write(dir.join(format!("w{k}.json")), out.to_string()).unwrap();
}

/// One case in this process: from a tape file, or from (seed, index).
pub fn case_main(prop: &Prop, tier: Tier, input: &Value, out: &Path) {
    limits();
    install_panic_hook();
    arm_timer();
    let index = input["index"].as_u64().unwrap_or(0);
    let src = match input["tape"].as_array() {
        Some(t) => Src::replay(&t.iter().map(|x| x.as_u64().unwrap()).collect::<Vec<_>>()),
        None => Src::fresh(case_seed(prop.id, input["seed"].as_u64().unwrap(), index)),
    };
    // the tape is flushed while drawing so that a crash still leaves it behind
    let mut src = src;
    src.sink = Some(std::fs::File::create(out.with_extension("rec")).unwrap());
    let ran = run_one(prop, tier, index, src, input["note"].as_bool().unwrap_or(false));
    let (sig, msg) = match &ran.result {
        Ok(()) => (Value::Null, Value::Null),
        Err(f) => (json!(f.sig), json!(f.msg)),
    };
    let v = json!({"sig": sig, "msg": msg, "tape": ran.record, "spans": ran.spans, "note": ran.note});
    std::fs::write(out, v.to_string()).unwrap();
}

pub fn probe_main(prop: &Prop, name: &str, out: &Path) {
    limits();
    install_panic_hook();
    arm_timer();
    let p = prop.probes.iter().find(|p| p.name == name).expect("probe");
    let r = guarded(p.run);
    let v = match r {
        Ok(()) => json!({"sig": null}),
        Err(f) => json!({"sig": f.sig, "msg": f.msg}),
    };
    std::fs::write(out, v.to_string()).unwrap();
}

// ---------------------------------------------------------------- parent side

struct ChildResult {
    sig: Option<String>,
    msg: String,
    tape: Vec<u64>,
    spans: Vec<(usize, usize)>,
    note: String,
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn spawn_child(args: &[&str]) -> std::process::ExitStatus {
    Command::new(exe())
        .args(args)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(if std::env::var("FCB_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
        .status()
        .expect("spawn")
}

fn describe_status(st: std::process::ExitStatus) -> String {
    match st.signal() {
        Some(s) if s == libc::SIGPROF => format!("no answer within {CPU_LIMIT_S} s of CPU time"),
        Some(s) if s == libc::SIGABRT => "abort".into(),
        Some(s) if s == libc::SIGSEGV || s == libc::SIGBUS => "memory fault".into(),
        Some(s) => format!("killed by signal {s}"),
        None => format!("exit status {:?}", st.code()),
    }
}

fn u64s(v: &Value) -> Vec<u64> {
    v.as_array().map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default()
}
fn spans_of(v: &Value) -> Vec<(usize, usize)> {
    v.as_array()
        .map(|a| a.iter().map(|p| (p[0].as_u64().unwrap_or(0) as usize, p[1].as_u64().unwrap_or(0) as usize)).collect())
        .unwrap_or_default()
}

fn run_case_child(prop: &Prop, tier: Tier, dir: &Path, input: &Value) -> ChildResult {
    let inp = dir.join("case.json");
    let out = dir.join("case.out");
    let _ = std::fs::remove_file(&out);
    std::fs::write(&inp, input.to_string()).unwrap();
    let st = spawn_child(&["case", prop.id, tier_name(tier), inp.to_str().unwrap(), out.to_str().unwrap()]);
    match std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok()) {
        Some(v) if st.success() => ChildResult {
            sig: v["sig"].as_str().map(|s| s.to_string()),
            msg: v["msg"].as_str().unwrap_or("").to_string(),
            tape: u64s(&v["tape"]),
            spans: spans_of(&v["spans"]),
            note: v["note"].as_str().unwrap_or("").to_string(),
        },
        _ => {
            let rec = std::fs::read(out.with_extension("rec")).unwrap_or_default();
            let tape = rec.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
            let d = describe_status(st);
            ChildResult { sig: Some(format!("process ended: {d}")), msg: format!("the process running the case ended: {d}"), tape, spans: vec![], note: String::new() }
        }
    }
}

fn known_entries() -> Vec<(String, String, String)> {
    let text = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("finding: ")?;
            let mut it = l.splitn(3, ' ');
            let prop = it.next()?.strip_prefix("property=")?.to_string();
            let probe = it.next()?.strip_prefix("probe=")?.to_string();
            Some((prop, probe, it.next().unwrap_or("").to_string()))
        })
        .collect()
}

fn write_replay(prop: &Prop, tier: Tier, seed: u64, index: u64, r: &ChildResult) -> PathBuf {
    let dir = verif_dir().join("replays");
    std::fs::create_dir_all(&dir).unwrap();
    let path = dir.join(format!("{}-{}-{}.json", prop.id, seed, index));
    let v = json!({
        "property": prop.id, "tier": tier_name(tier), "seed": seed, "index": index,
        "sig": r.sig, "msg": r.msg, "tape": r.tape, "case": r.note,
        "how": format!("./check {} replay {}", prop.id, path.display()),
    });
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).unwrap();
    path
}

pub fn parent_main(prop: &Prop, tier: Tier, seed: u64) -> i32 {
    let t0 = Instant::now();
    let workers: u64 = std::env::var("FCB_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let scale: f64 = std::env::var("FCB_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = ((match tier {
        Tier::Quick => prop.quick,
        Tier::Thorough => prop.thorough,
    }) as f64
        * scale) as u64;
    let dir = verif_dir().join("build/run").join(format!("{}-{}", prop.id, std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let mut violations: Vec<PathBuf> = vec![];

    // known findings
    let known = known_entries();
    let mut known_seen = vec![];
    for p in prop.probes {
        let out = dir.join("probe.out");
        let _ = std::fs::remove_file(&out);
        let st = spawn_child(&["probe", prop.id, p.name, out.to_str().unwrap()]);
        let v = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        let shows = match &v {
            Some(v) if st.success() => v["sig"].as_str().map(|s| format!("{s}: {}", v["msg"].as_str().unwrap_or(""))),
            _ => Some(format!("process ended: {}", describe_status(st))),
        };
        if let Some(what) = shows {
            match known.iter().find(|(a, b, _)| a == prop.id && b == p.name) {
                Some((_, _, text)) => {
                    println!("KNOWN-FINDING: property={} {} ({text})", prop.id, p.name);
                    known_seen.push(json!({"probe": p.name, "what": what}));
                }
                None => {
                    let r = ChildResult { sig: Some(format!("probe {}", p.name)), msg: what.clone(), tape: vec![], spans: vec![], note: format!("fixed input {}", p.name) };
                    let path = write_replay(prop, tier, seed, 0, &r);
                    eprintln!("{}: {what}", p.name);
                    violations.push(path);
                }
            }
        }
    }

    let mut evaluations = 0u64;
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut samples: Vec<Value> = vec![];
    let mut candidates: Vec<u64> = vec![];
    let mut children: Vec<(u64, std::process::Child)> = (0..workers)
        .map(|k| {
            let c = Command::new(exe())
                .args([
                    "worker",
                    prop.id,
                    tier_name(tier),
                    &seed.to_string(),
                    &k.to_string(),
                    &workers.to_string(),
                    &total.to_string(),
                    dir.to_str().unwrap(),
                ])
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(if std::env::var("FCB_STDERR").is_ok() { Stdio::inherit() } else { Stdio::null() })
                .spawn()
                .expect("spawn worker");
            (k, c)
        })
        .collect();
    let mut infra = None;
    for (k, c) in children.iter_mut() {
        let st = c.wait().expect("wait");
        let v = std::fs::read_to_string(dir.join(format!("w{k}.json"))).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        match v {
            Some(v) if st.success() => {
                evaluations += v["evaluations"].as_u64().unwrap();
                for (n, c) in v["classes"].as_object().unwrap() {
                    *classes.entry(n.clone()).or_default() += c.as_u64().unwrap();
                }
                distinct.extend(u64s(&v["distinct"]));
                samples.extend(v["samples"].as_array().unwrap().iter().cloned());
                if let Some(i) = v["failure"]["index"].as_u64() {
                    candidates.push(i);
                }
            }
            _ => {
                let b = std::fs::read(dir.join(format!("p{k}"))).unwrap_or_default();
                let i = if b.len() == 8 { u64::from_le_bytes(b.try_into().unwrap()) } else { 0 };
                if i == 0 {
                    infra = Some(format!("worker {k} ended before its first case: {}", describe_status(st)));
                } else {
                    evaluations += (i - 1 - *k) / workers;
                    candidates.push(i - 1);
                }
            }
        }
    }
    candidates.sort();
    samples.sort_by_key(|s| s["index"].as_u64());
    samples.truncate(4);
    for i in candidates {
        let first = run_case_child(prop, tier, &dir, &json!({"seed": seed, "index": i}));
        let Some(sig) = first.sig.clone() else {
            eprintln!("case {i} did not fail again in a fresh process");
            infra = Some(format!("case {i} failed once and then passed"));
            continue;
        };
        eprintln!("{} case {i}: {sig}: {}", prop.id, first.msg.chars().take(2000).collect::<String>());
        let deadline = Instant::now() + Duration::from_secs(60);
        let slow = sig.contains("CPU time");
        let best = if slow {
            first.tape.clone()
        } else {
            shrink(first.tape.clone(), first.spans.clone(), 1500, deadline, |t| {
                let r = run_case_child(prop, tier, &dir, &json!({"tape": t, "index": i}));
                (r.sig.as_deref() == Some(&sig)).then_some((r.tape, r.spans))
            })
        };
        let mut fin = run_case_child(prop, tier, &dir, &json!({"tape": best, "index": i, "note": true}));
        if fin.sig.is_none() {
            fin = first;
        }
        let path = write_replay(prop, tier, seed, i, &fin);
        eprintln!("shrunk: {:?}: {}", fin.sig, fin.msg.chars().take(1200).collect::<String>());
        eprintln!("{}", fin.note.chars().take(1500).collect::<String>());
        violations.push(path);
        break;
    }
    let _ = std::fs::remove_dir_all(&dir);

    let wall = t0.elapsed().as_secs_f64();
    let ev = json!({
        "property": prop.id, "tier": tier_name(tier), "seed": seed, "level": prop.level,
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": distinct.len(),
            "rule": prop.rule,
            "classes": classes,
            "samples": samples,
            "known_findings_probed": known_seen,
        },
        "assumptions": prop.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations.len(),
    });
    let edir = verif_dir().join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{}.json", prop.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{} {} seed={seed}: {evaluations} cases, {} distinct non-trivial, {:.1}s",
        prop.id,
        tier_name(tier),
        distinct.len(),
        wall
    );
    std::io::stdout().flush().ok();
    if std::env::var("FCB_CLASSES").is_ok() {
        for (k, v) in &classes {
            println!("  {k}: {v}");
        }
    }
    for p in &violations {
        println!("VIOLATION property={} replay={}", prop.id, p.display());
    }
    if !violations.is_empty() {
        1
    } else if let Some(e) = infra {
        eprintln!("error: {e}");
        2
    } else {
        0
    }
}

pub fn replay_main(prop: &Prop, file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let dir = verif_dir().join("build/run").join(format!("replay-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let r = if let Some(p) = v["sig"].as_str().and_then(|s| s.strip_prefix("probe ")) {
        let out = dir.join("probe.out");
        let st = spawn_child(&["probe", prop.id, p, out.to_str().unwrap()]);
        let o = std::fs::read_to_string(&out).ok().and_then(|t| serde_json::from_str::<Value>(&t).ok());
        match o {
            Some(o) if st.success() => ChildResult { sig: o["sig"].as_str().map(|s| s.to_string()), msg: o["msg"].as_str().unwrap_or("").into(), tape: vec![], spans: vec![], note: p.to_string() },
            _ => ChildResult { sig: Some(describe_status(st)), msg: describe_status(st), tape: vec![], spans: vec![], note: p.to_string() },
        }
    } else {
        run_case_child(prop, tier, &dir, &json!({"tape": v["tape"], "index": v["index"], "note": true}))
    };
    let _ = std::fs::remove_dir_all(&dir);
    println!("{}", r.note);
    match r.sig {
        Some(s) => {
            println!("{s}: {}", r.msg);
            println!("VIOLATION property={} replay={}", prop.id, file.display());
            1
        }
        None => {
            println!("holds");
            0
        }
    }
}
