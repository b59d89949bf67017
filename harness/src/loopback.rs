//! An HTTP server on the loopback interface, one per worker process, started when first used.
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Arc, Mutex, OnceLock};

#[derive(Clone, Default)]
pub struct Page {
    pub status: u16,
    pub body: Arc<Vec<u8>>,
    /// the connection is closed after this many percent of the body
    pub cut: Option<u8>,
    /// this request (counted per page) gets the status or the cut; none: every request
    pub only: Option<usize>,
    pub requests: usize,
    /// the page did not answer in full
    pub hit: bool,
}

impl Page {
    pub fn ok(body: Vec<u8>) -> Page {
        Page { status: 200, body: Arc::new(body), ..Default::default() }
    }
}

pub struct Loopback {
    port: u16,
    pages: Mutex<HashMap<String, Page>>,
}

pub fn server() -> &'static Loopback {
    static S: OnceLock<&'static Loopback> = OnceLock::new();
    S.get_or_init(|| {
        let l = TcpListener::bind("127.0.0.1:0").expect("no loopback network");
        let s: &'static Loopback = Box::leak(Box::new(Loopback { port: l.local_addr().unwrap().port(), pages: Default::default() }));
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::spawn(move || {
                    let _ = s.serve(c);
                });
            }
        });
        s
    })
}

impl Loopback {
    /// the address of this server, without a slash at the end
    pub fn base(&self) -> String {
        format!("http://127.0.0.1:{}", self.port)
    }
    /// `dir` is the first segment of the path of the page
    pub fn put(&self, dir: &str, page: Page) {
        self.pages.lock().unwrap().insert(dir.to_string(), page);
    }
    pub fn page(&self, dir: &str) -> Page {
        self.pages.lock().unwrap().get(dir).cloned().unwrap_or_default()
    }
    pub fn clear(&self) {
        self.pages.lock().unwrap().clear();
    }

    fn serve(&self, c: TcpStream) -> std::io::Result<()> {
        c.set_nodelay(true)?;
        let mut out = c.try_clone()?;
        let mut rd = BufReader::new(c);
        loop {
            let mut first = String::new();
            if rd.read_line(&mut first)? == 0 {
                return Ok(());
            }
            let mut range = None;
            loop {
                let mut line = String::new();
                if rd.read_line(&mut line)? == 0 {
                    return Ok(());
                }
                let line = line.trim_end();
                if line.is_empty() {
                    break;
                }
                if let Some((k, v)) = line.split_once(':') {
                    if k.eq_ignore_ascii_case("range") {
                        range = v.trim().strip_prefix("bytes=").and_then(|r| r.split_once('-')).and_then(|(a, b)| Some((a.parse::<usize>().ok()?, b.parse::<usize>().ok()?)));
                    }
                }
            }
            let mut words = first.split(' ');
            let (method, path) = (words.next().unwrap_or(""), words.next().unwrap_or("/"));
            let dir = path.split(['/', '?', '#']).nth(1).unwrap_or("").to_string();
            let (page, no) = {
                let mut pages = self.pages.lock().unwrap();
                match pages.get_mut(&dir) {
                    None => (None, 0),
                    Some(p) => {
                        p.requests += 1;
                        let no = p.requests - 1;
                        let bad = p.only.is_none_or(|o| o == no);
                        p.hit |= bad && (p.status != 200 || p.cut.is_some());
                        (Some(p.clone()), no)
                    }
                }
            };
            let Some(page) = page else {
                out.write_all(b"HTTP/1.1 404 Not Found\r\nContent-Length: 4\r\n\r\nnone")?;
                continue;
            };
            let bad = page.only.is_none_or(|o| o == no);
            let (mut status, mut body) = (200, &page.body[..]);
            if bad && page.status != 200 {
                status = page.status;
            } else if let Some((a, b)) = range {
                if a >= body.len() || b < a {
                    (status, body) = (416, &[]);
                } else {
                    (status, body) = (206, &body[a..(b + 1).min(body.len())]);
                }
            }
            write!(out, "HTTP/1.1 {status} Status\r\nContent-Type: application/octet-stream\r\nContent-Length: {}\r\n\r\n", body.len())?;
            if method == "HEAD" {
                continue;
            }
            match page.cut.filter(|_| bad) {
                Some(p) => {
                    out.write_all(&body[..body.len() * p.min(99) as usize / 100])?;
                    return Ok(());
                }
                None => out.write_all(body)?,
            }
        }
    }
}

/// runs a future on a tokio runtime
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    tokio::runtime::Builder::new_current_thread().enable_all().build().expect("no runtime").block_on(f)
}
