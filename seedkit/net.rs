use async_trait::async_trait;
use bytes::Bytes;
use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, Result};

pub struct Mem(pub Vec<u8>);

#[async_trait]
impl AsyncHttpRangeClient for Mem {
    async fn get_range(&self, _url: &str, range: &str) -> Result<Bytes> {
        let (a, b) = range.strip_prefix("bytes=").unwrap().split_once('-').unwrap();
        let a: usize = a.parse().unwrap();
        let b = b.parse::<usize>().map_or(self.0.len(), |b| b + 1).min(self.0.len());
        Ok(Bytes::copy_from_slice(&self.0[a.min(b)..b]))
    }
    async fn head_response_header(&self, _url: &str, _header: &str) -> Result<Option<String>> {
        Ok(None)
    }
}

pub fn client(bytes: Vec<u8>) -> AsyncBufferedHttpRangeClient<Mem> {
    AsyncBufferedHttpRangeClient::with(Mem(bytes), "http://mem/x.fcb")
}

pub fn block<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap().block_on(f)
}
