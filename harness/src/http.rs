//! An in-memory HTTP range server behind the client trait of http-range-client, with fault injection.
use async_trait::async_trait;
use bytes::Bytes;
use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError, Result};
use std::sync::{Arc, Mutex};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    /// the connection fails
    Broken,
    Status(u16),
    /// an empty body
    Empty,
    /// the body stops after this many percent of the bytes
    Short(u8),
}

#[derive(Clone, Copy, Debug)]
pub struct Fault {
    /// index of the request that fails
    pub at: usize,
    pub kind: Kind,
    /// every later request fails as well
    pub sticky: bool,
}

#[derive(Default)]
struct State {
    /// (first byte, bytes asked for, bytes delivered)
    log: Vec<(u64, u64, u64)>,
    fault: Option<Fault>,
    /// the fault changed a response
    hit: bool,
}

#[derive(Clone, Default)]
pub struct Server {
    bytes: Arc<Vec<u8>>,
    state: Arc<Mutex<State>>,
}

impl std::fmt::Debug for Server {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Server({} bytes)", self.bytes.len())
    }
}

impl Server {
    pub fn new(bytes: Vec<u8>) -> Server {
        Server { bytes: Arc::new(bytes), state: Default::default() }
    }
    pub fn with_fault(bytes: Arc<Vec<u8>>, fault: Fault) -> Server {
        Server { bytes, state: Arc::new(Mutex::new(State { fault: Some(fault), ..Default::default() })) }
    }
    pub fn client(&self) -> AsyncBufferedHttpRangeClient<Server> {
        AsyncBufferedHttpRangeClient::with(self.clone(), "http://mock/file.fcb")
    }
    pub fn requests(&self) -> usize {
        self.state.lock().unwrap().log.len()
    }
    pub fn log(&self) -> Vec<(u64, u64, u64)> {
        self.state.lock().unwrap().log.clone()
    }
    pub fn hit(&self) -> bool {
        self.state.lock().unwrap().hit
    }
    fn answer(&self, range: &str) -> Result<Bytes> {
        let bad = || HttpError::HttpError(format!("bad range header {range:?}"));
        let (a, b) = range.strip_prefix("bytes=").and_then(|r| r.split_once('-')).ok_or_else(bad)?;
        let (a, b): (u64, u64) = (a.parse().map_err(|_| bad())?, b.parse().map_err(|_| bad())?);
        let n = self.bytes.len() as u64;
        let mut st = self.state.lock().unwrap();
        let i = st.log.len();
        st.log.push((a, b.saturating_add(1).saturating_sub(a), 0));
        let fault = st.fault.filter(|f| i == f.at || (f.sticky && i > f.at));
        if a >= n || b < a {
            return Err(HttpError::HttpStatus(416));
        }
        let mut end = (b + 1).min(n);
        if let Some(f) = fault {
            match f.kind {
                Kind::Broken => {
                    st.hit = true;
                    return Err(HttpError::HttpError("connection reset by the harness".into()));
                }
                Kind::Status(s) => {
                    st.hit = true;
                    return Err(HttpError::HttpStatus(s));
                }
                Kind::Empty => {
                    st.hit = true;
                    end = a;
                }
                Kind::Short(p) => {
                    let e = a + (end - a) * p.min(99) as u64 / 100;
                    st.hit |= e < end;
                    end = e;
                }
            }
        }
        st.log[i].2 = end - a;
        Ok(Bytes::copy_from_slice(&self.bytes[a as usize..end as usize]))
    }
}

#[async_trait]
impl AsyncHttpRangeClient for Server {
    async fn get_range(&self, _url: &str, range: &str) -> Result<Bytes> {
        self.answer(range)
    }
    async fn head_response_header(&self, _url: &str, header: &str) -> Result<Option<String>> {
        Ok(header.eq_ignore_ascii_case("content-length").then(|| self.bytes.len().to_string()))
    }
}

/// runs a future that never waits for anything outside
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    let mut polls = 0u64;
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        polls += 1;
        assert!(polls < 1_000_000, "the future never completes");
    }
}
