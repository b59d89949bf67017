//! C13: the HTTP reader against the local reader, with failing, empty and short responses.
use crate::engine::{fail, guarded, Case, Failure, Prop, R};
use crate::fcb::{self, Or};
use crate::gen::{self, Prof};
use crate::loopback::{self, Page};
use crate::http::{block_on, Fault, Kind, Server};
use crate::props::rtree::judge;
use crate::scene::{scene, Plan, Scene};
use crate::{drain_iter, ensure};
use fcb_core::deserializer::to_cj_metadata;
use fcb_core::packed_rtree::Query;
use fcb_core::static_btree::{KeyType, Operator};
use fcb_core::{AttrQuery, FcbReader, HttpFcbReader};
use http_range_client::AsyncHttpRangeClient;
use std::io::Cursor;
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C13",
        level: "exploration",
        rule: "a selection of at least two features, read over at least two requests, or a run in which a fault changed a response",
        assumptions: &["a server delivers the bytes of the requested range (or fewer)", "a connection that is asked for bytes behind the end of the file answers 416"],
        quick: 40_000,
        thorough: 1_500_000,
        run: c13,
        probes: &[],
    }]
}

#[derive(Clone, Debug)]
pub enum Sel {
    All,
    Spatial(Query),
    Attr(AttrQuery),
}

/// header, announced count, features
pub type Got = (String, Option<usize>, Vec<String>);

fn header_text(h: &fcb_core::Header) -> Result<String, Failure> {
    let cols: Vec<String> = h.columns().iter().flatten().map(|c| format!("{} {} {:?}", c.index(), c.name(), c.type_())).collect();
    let meta = serde_json::to_value(to_cj_metadata(h).or_fail("decoding the header fails")?).unwrap();
    Ok(format!("{} {} {cols:?} {}", h.features_count(), h.index_node_size(), crate::norm::canon(&meta)))
}

pub fn local(bytes: &[u8], sel: &Sel) -> Result<Result<Got, String>, Failure> {
    guarded(|| {
        let rd = FcbReader::open(Cursor::new(bytes)).or_fail("open fails")?;
        let head = header_text(&rd.header())?;
        let it = match sel {
            Sel::All => rd.select_all(),
            Sel::Spatial(q) => rd.select_query(*q),
            Sel::Attr(q) => rd.select_attr_query(q.clone()),
        };
        let mut it = match it {
            Ok(it) => it,
            Err(e) => return Ok(Err(e.to_string())),
        };
        let n = it.features_count();
        let all = drain_iter!(it).or_fail("reading fails")?;
        Ok(Ok((head, n, all.iter().map(|f| crate::norm::canon(&crate::norm::feature(f))).collect())))
    })
}

pub struct Remote {
    pub header: Option<String>,
    pub count: Option<usize>,
    pub feats: Vec<String>,
    /// the first error; None: the selection ended
    pub error: Option<String>,
    /// calls after the first error
    pub later: Vec<Result<Option<String>, String>>,
}

/// reads a selection over HTTP, and goes on after an error
pub fn remote(server: &Server, sel: &Sel, limit: usize) -> Result<Remote, Failure> {
    guarded(|| block_on(async { walk(HttpFcbReader::new(server.client()).await, sel, limit).await }))
}

/// the same with the client the library makes for a URL
pub fn remote_url(url: &str, sel: &Sel, limit: usize) -> Result<Remote, Failure> {
    guarded(|| crate::loopback::block_on(async { walk(HttpFcbReader::open(url).await, sel, limit).await }))
}

async fn walk<T: AsyncHttpRangeClient + Send + Sync>(rd: fcb_core::error::Result<HttpFcbReader<T>>, sel: &Sel, limit: usize) -> Result<Remote, Failure> {
    let mut r = Remote { header: None, count: None, feats: vec![], error: None, later: vec![] };
    let rd = match rd {
        Ok(rd) => rd,
        Err(e) => {
            r.error = Some(e.to_string());
            return Ok(r);
        }
    };
    r.header = Some(header_text(&rd.header())?);
    let it = match sel {
        Sel::All => rd.select_all().await,
        Sel::Spatial(q) => rd.select_query(*q).await,
        Sel::Attr(q) => rd.select_attr_query(q).await,
    };
    let mut it = match it {
        Ok(it) => it,
        Err(e) => {
            r.error = Some(e.to_string());
            return Ok(r);
        }
    };
    r.count = it.features_count();
    let mut errors = 0;
    loop {
        let step = match it.next().await {
            Ok(None) => Ok(None),
            Ok(Some(_)) => match it.cur_cj_feature() {
                Ok(f) => Ok(Some(crate::norm::canon(&crate::norm::feature(&f)))),
                Err(e) => Err(e.to_string()),
            },
            Err(e) => Err(e.to_string()),
        };
        let end = matches!(step, Ok(None));
        if r.error.is_some() {
            r.later.push(step.clone());
            errors += step.is_err() as usize;
        } else {
            match step {
                Ok(Some(f)) => r.feats.push(f),
                Ok(None) => {}
                Err(e) => r.error = Some(e),
            }
        }
        if end || errors > 2 || r.feats.len() + r.later.len() > limit + 8 {
            break;
        }
    }
    if r.error.is_none() && r.feats.len() <= limit {
        ensure!(matches!(it.next().await, Ok(None)), "end", "the iterator goes on after its end");
    }
    Ok(r)
}

fn c13(c: &mut Case) -> R {
    let full = c.s.chance(1, 4);
    let mut sc: Option<Scene> = None;
    let bytes = if full {
        let d = gen::dataset(c.s, &Prof::full());
        if let Some(w) = &d.wide {
            c.class(format!("many {w}"));
        }
        c.note(|| d.jsonl());
        let (cj, feats) = (d.cj(), d.feats());
        let schema = fcb::infer_schema(&feats);
        let sem = fcb::infer_sem_schema(&cj, &feats);
        let opts = crate::props::roundtrip::rand_opts(c.s);
        let Ok(b) = fcb::write(&cj, &feats, schema, sem, &opts) else { return Ok(()) };
        b
    } else {
        let avg = [2, 18, 60, 400][c.s.weighted(&[3, 6, 4, 1])];
        let spatial = if c.s.chance(1, 10) { None } else { Some(true) };
        let mut s = scene(c.s, &Plan { avg, max: 3000, attrs: c.index % 3 != 0, bare: c.index % 5 == 0, spatial, wide: 600 });
        c.class_if(s.feats.len() > 10_000, "tens of thousands of features");
        if c.s.chance(1, 15) && !s.feats.is_empty() {
            // features large enough to split batches and requests
            c.class("large features");
            for _ in 0..c.s.usize_in(1, 4) {
                let i = c.s.below(s.feats.len() as u64) as usize;
                if let Some(v) = s.feats[i].vertices.first().cloned() {
                    // beyond what one request fetches at least
                    let k = *c.s.pick(&[5_000, 20_000, 60_000, 87_400, 100_000]) + c.s.below(100) as i64;
                    s.feats[i].vertices.extend((0..k).map(|z| vec![v[0], v[1], z]));
                }
            }
        }
        if c.s.chance(1, 12) {
            // a header larger than what the first request fetches
            c.class("long header");
            let k = *c.s.pick(&[1_000usize, 1_500, 10_000, 12_000, 12_900, 30_000, 600_000, 1_100_000, 1_100_000]) + c.s.below(400) as usize;
            s.cj.metadata = serde_json::from_value(serde_json::json!({"title": (0..k).map(|i| (b'a' + (i % 26) as u8) as char).collect::<String>()})).ok();
        }
        c.note(|| s.describe());
        let b = s.write().or_fail("writing fails")?;
        sc = Some(s);
        b
    };
    let n = FcbReader::open(Cursor::new(&bytes)).or_fail("open fails")?.header().features_count() as usize;
    let mut sel = Sel::All;
    match (&sc, c.s.below(5)) {
        (Some(s), 0 | 1 | 2) if c.index % 3 == 0 => sel = Sel::Spatial(s.spatial_query(c.s)),
        (Some(s), 0 | 1) => sel = Sel::Spatial(s.spatial_query(c.s)),
        (Some(s), 2 | 3) if c.index % 3 != 0 => {
            let conds = s.conds(c.s, 3);
            sel = Sel::Attr(s.attr_query(&conds));
            if conds.is_empty() || c.s.chance(1, 20) {
                sel = Sel::Attr(vec![("nope".into(), Operator::Eq, KeyType::Int32(1))]);
            } else if c.s.chance(1, 20) {
                sel = Sel::Attr(vec![(s.cols[conds[0].col].name.clone(), conds[0].op, KeyType::StringKey20(fcb_core::static_btree::FixedStringKey::from_str("x")))]);
            }
        }
        _ => {}
    }
    c.class(match &sel {
        Sel::All => "all",
        Sel::Spatial(_) => "spatial query",
        Sel::Attr(_) => "attribute query",
    });
    c.note(|| format!("{sel:?}"));
    let want = local(&bytes, &sel)?;
    let server = Server::new(bytes.clone());
    let r = remote(&server, &sel, n)?;
    let log = server.log();
    let (head, count, feats) = match want {
        Err(e) => {
            c.class("refused by both");
            ensure!(r.error.is_some(), "remote answers what local refuses", "{sel:?}: the local reader says {e}, the remote reader yields {} features", r.feats.len());
            return Ok(());
        }
        Ok(w) => w,
    };
    if let Some(e) = &r.error {
        return fail("remote error", format!("{sel:?}: the remote reader says {e} after {} features, the local reader yields {}; requests {log:?}, file of {} bytes", r.feats.len(), feats.len(), bytes.len()));
    }
    ensure!(r.header.as_ref() == Some(&head), "header differs", "local {head}, remote {:?}", r.header);
    ensure!(r.count == count || (r.count.is_none() && feats.is_empty()), "count differs", "{sel:?}: local count {count:?}, remote {:?}", r.count);
    if r.feats != feats {
        if let (Sel::Spatial(q @ Query::PointNearest(..)), Some(s), 1, 1) = (&sel, &sc, r.feats.len(), feats.len()) {
            // another feature at the same distance
            let id = |t: &str| Scene::number(serde_json::from_str::<serde_json::Value>(t).unwrap()["id"].as_str().unwrap());
            let i = id(&r.feats[0]);
            if let Some(m) = judge(q, &s.boxes, &[i]) {
                return fail("remote nearest", format!("{q:?}: {m}"));
            }
            c.class("tie");
        } else {
            let missing = feats.iter().filter(|f| !r.feats.contains(f)).count();
            let extra = r.feats.iter().filter(|f| !feats.contains(f)).count();
            return fail("features differ", format!("{sel:?}: {} features locally, {} over HTTP; {missing} missing, {extra} too many (else the order differs)", feats.len(), r.feats.len()));
        }
    }
    let feats = r.feats;
    if feats.len() > 1 && log.len() > 1 {
        c.nontrivial(format!("{} {sel:?} {}", bytes.len(), feats.len()).as_bytes());
    }
    c.class_if(log.len() == 1, "one request");
    c.class_if(log.len() > 4, "more than four requests");
    for (a, asked, _) in &log {
        ensure!(*a < bytes.len() as u64, "request behind the end", "{asked} bytes asked from {a} of a file of {} bytes", bytes.len());
    }

    let shared = Arc::new(bytes);
    if c.index % 61 == 0 {
        over_loopback(c, &shared, &sel, &head, &feats)?;
    }

    // faults
    for _ in 0..3 {
        let at = c.s.below(log.len() as u64) as usize;
        let kind = match c.s.below(5) {
            0 => Kind::Broken,
            1 => Kind::Status(*c.s.pick(&[404, 416, 500, 503])),
            2 => Kind::Empty,
            _ => Kind::Short(c.s.below(100) as u8),
        };
        let fault = Fault { at, kind, sticky: c.s.chance(1, 3) };
        let server = Server::with_fault(shared.clone(), fault);
        let r = match remote(&server, &sel, n) {
            Ok(r) => r,
            Err(f) => return fail(format!("fault: {}", f.sig), format!("{sel:?} with {fault:?}: {}", f.msg)),
        };
        if !server.hit() {
            c.class("fault without effect");
        } else {
            c.class(match kind {
                Kind::Broken => "broken connection",
                Kind::Status(_) => "status",
                Kind::Empty => "empty response",
                Kind::Short(_) => "short response",
            });
            c.nontrivial(format!("{} {sel:?} {fault:?}", shared.len()).as_bytes());
        }
        let about = || format!("{sel:?} with {fault:?} of {} requests", log.len());
        if let Some(h) = &r.header {
            ensure!(*h == head, "header altered by a fault", "{}: {h} instead of {head}", about());
        }
        for (i, f) in r.feats.iter().enumerate() {
            ensure!(feats.get(i) == Some(f), "feature altered by a fault", "{}: feature {i} is {f}", about());
        }
        if r.error.is_none() {
            ensure!(r.feats.len() == feats.len(), "features missing after a fault", "{}: {} of {} features and no error", about(), r.feats.len(), feats.len());
        }
        c.class_if(r.error.is_some(), "fault reported");
        c.class_if(server.hit() && r.error.is_none(), "fault absorbed");
        // whoever goes on after an error must not get a wrong result either
        let mut i = r.feats.len();
        for step in &r.later {
            match step {
                Err(_) => {}
                Ok(Some(f)) => {
                    ensure!(feats.get(i) == Some(f), "feature altered after an error", "{}: the call after the error yields {f} as feature {i}", about());
                    i += 1;
                }
                Ok(None) => ensure!(i == feats.len(), "features missing after an error", "{}: the selection ends after {i} of {} features", about(), feats.len()),
            }
        }
    }
    Ok(())
}

/// the client that the library makes itself, over a real connection
fn over_loopback(c: &mut Case, bytes: &Arc<Vec<u8>>, sel: &Sel, head: &String, feats: &[String]) -> R {
    let sv = loopback::server();
    sv.clear();
    let page = Page { status: 200, body: bytes.clone(), ..Default::default() };
    sv.put("f", page.clone());
    let url = format!("{}/f/data.fcb", sv.base());
    let r = remote_url(&url, sel, feats.len())?;
    let n = sv.page("f").requests;
    if let Some(e) = r.error {
        return fail("loopback: error", format!("{sel:?}: {e}"));
    }
    ensure!(r.header.as_ref() == Some(head), "loopback: header differs", "{:?} instead of {head}", r.header);
    if !matches!(sel, Sel::Spatial(Query::PointNearest(..))) {
        ensure!(r.feats == feats, "loopback: features differ", "{sel:?}: {} features instead of {}, or another order", r.feats.len(), feats.len());
    }
    c.class("over a real connection");
    let fault = Page { status: *c.s.pick(&[200, 404, 500, 503]), cut: None, only: Some(c.s.below(n as u64 + 1) as usize), ..page };
    let fault = if fault.status == 200 { Page { cut: Some(c.s.below(100) as u8), ..fault } } else { fault };
    sv.put("f", fault.clone());
    let r = remote_url(&url, sel, feats.len())?;
    let about = || format!("{sel:?}: request {:?} of {n} with status {} and cut {:?}", fault.only, fault.status, fault.cut);
    if sv.page("f").hit {
        c.class("fault of a real connection");
    }
    if r.error.is_none() {
        ensure!(r.feats.len() == feats.len(), "loopback: features missing after a fault", "{}: {} of {} features and no error", about(), r.feats.len(), feats.len());
    }
    if !matches!(sel, Sel::Spatial(Query::PointNearest(..))) {
        ensure!(feats.starts_with(&r.feats), "loopback: features altered by a fault", "{}", about());
    }
    Ok(())
}
