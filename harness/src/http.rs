//! A scripted HTTP/1.1 server and a small blocking client on std sockets.
use std::{
    collections::HashMap,
    io::{BufRead, BufReader, Read, Write},
    net::{Shutdown, TcpListener, TcpStream},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    time::Duration,
};

#[derive(Clone, Debug, PartialEq)]
pub struct Req {
    pub method: String,
    pub path: String,
    pub content_type: String,
    pub body: Vec<u8>,
}

#[derive(Clone, Debug)]
pub enum Reply {
    Http {
        status: u16,
        body: Vec<u8>,
        /// chunk size of a chunked body; none for one with a length
        chunked: Option<usize>,
        delay_ms: u64,
    },
    /// Close before answering.
    Drop,
    /// Announce the body, send this part of it and close.
    Partial { status: u16, body: Vec<u8>, sent: usize },
    /// Something that is not HTTP.
    Garbage(Vec<u8>),
}

pub type Handler = Box<dyn Fn(&Req) -> Reply + Send + Sync>;

/// Dispatches requests on the first path segment, "" when unregistered.
pub struct Mock {
    pub port: u16,
    handlers: Mutex<HashMap<String, Arc<Handler>>>,
    next: AtomicUsize,
}

impl Mock {
    pub fn start(addr: &str) -> std::io::Result<Arc<Mock>> {
        let l = TcpListener::bind(addr)?;
        let m = Arc::new(Mock { port: l.local_addr()?.port(), handlers: Mutex::new(HashMap::new()), next: AtomicUsize::new(0) });
        let n = m.clone();
        std::thread::spawn(move || {
            for s in l.incoming().flatten() {
                let n = n.clone();
                std::thread::spawn(move || n.serve(s));
            }
        });
        Ok(m)
    }
    pub fn fresh_prefix(&self) -> String {
        format!("p{}", self.next.fetch_add(1, Ordering::Relaxed))
    }
    pub fn set(&self, prefix: &str, h: Handler) {
        self.handlers.lock().unwrap().insert(prefix.to_string(), Arc::new(h));
    }
    pub fn unset(&self, prefix: &str) {
        self.handlers.lock().unwrap().remove(prefix);
    }
    fn serve(&self, s: TcpStream) {
        let _ = s.set_nodelay(true);
        let mut w = match s.try_clone() {
            Ok(w) => w,
            Err(_) => return,
        };
        let mut r = BufReader::new(s);
        while let Some((first, headers, body)) = read_message(&mut r, true) {
            let mut it = first.split(' ');
            let (method, path) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
            let seg = path.trim_start_matches('/').split('/').next().unwrap_or("").to_string();
            let (h, path) = {
                let g = self.handlers.lock().unwrap();
                match g.get(&seg) {
                    Some(h) => (Some(h.clone()), path[seg.len() + 1..].to_string()),
                    None => (g.get("").cloned(), path),
                }
            };
            let req = Req { method, path, content_type: headers.get("content-type").cloned().unwrap_or_default(), body };
            let reply = match h {
                Some(h) => h(&req),
                None => Reply::Http { status: 404, body: b"{\"message\":\"no handler\"}".to_vec(), chunked: None, delay_ms: 0 },
            };
            let keep = match reply {
                Reply::Http { status, body, chunked, delay_ms } => {
                    if delay_ms > 0 {
                        std::thread::sleep(Duration::from_millis(delay_ms));
                    }
                    let mut out = format!("HTTP/1.1 {status} Status\r\ncontent-type: application/json\r\n").into_bytes();
                    match chunked {
                        None => {
                            out.extend(format!("content-length: {}\r\n\r\n", body.len()).bytes());
                            out.extend(&body);
                        }
                        Some(n) => {
                            out.extend(b"transfer-encoding: chunked\r\n\r\n");
                            for c in body.chunks(n.max(1)) {
                                out.extend(format!("{:x}\r\n", c.len()).bytes());
                                out.extend(c);
                                out.extend(b"\r\n");
                            }
                            out.extend(b"0\r\n\r\n");
                        }
                    }
                    w.write_all(&out).is_ok()
                }
                Reply::Drop => false,
                Reply::Partial { status, body, sent } => {
                    let head = format!("HTTP/1.1 {status} Status\r\ncontent-type: application/json\r\ncontent-length: {}\r\n\r\n", body.len());
                    let _ = w.write_all(head.as_bytes());
                    let _ = w.write_all(&body[..sent.min(body.len())]);
                    false
                }
                Reply::Garbage(b) => {
                    let _ = w.write_all(&b);
                    false
                }
            };
            if !keep {
                let _ = w.shutdown(Shutdown::Both);
                return;
            }
        }
    }
}

/// Status, headers by lower-case name, body.
pub type Answer = (u16, HashMap<String, String>, Vec<u8>);
type Message = (String, HashMap<String, String>, Vec<u8>);

fn read_message(r: &mut BufReader<TcpStream>, request: bool) -> Option<Message> {
    let mut line = String::new();
    if r.read_line(&mut line).ok()? == 0 {
        return None;
    }
    let first = line.trim_end().to_string();
    let mut headers = HashMap::new();
    loop {
        let mut line = String::new();
        if r.read_line(&mut line).ok()? == 0 {
            return None;
        }
        let line = line.trim_end();
        if line.is_empty() {
            break;
        }
        let (k, v) = line.split_once(':')?;
        headers.insert(k.trim().to_ascii_lowercase(), v.trim().to_string());
    }
    let mut body = vec![];
    if headers.get("transfer-encoding").map_or(false, |v| v.eq_ignore_ascii_case("chunked")) {
        loop {
            let mut line = String::new();
            r.read_line(&mut line).ok()?;
            let n = usize::from_str_radix(line.trim(), 16).ok()?;
            let mut c = vec![0; n + 2];
            r.read_exact(&mut c).ok()?;
            if n == 0 {
                break;
            }
            body.extend(&c[..n]);
        }
    } else if let Some(n) = headers.get("content-length") {
        body = vec![0; n.parse().ok()?];
        r.read_exact(&mut body).ok()?;
    } else if !request && !first.contains(" 204") && !first.contains(" 304") {
        r.read_to_end(&mut body).ok()?;
    }
    Some((first, headers, body))
}

/// One connection to a server, reopened when it was closed.
pub struct Http {
    addr: String,
    conn: Option<BufReader<TcpStream>>,
}
impl Http {
    pub fn new(addr: &str) -> Self {
        Http { addr: addr.to_string(), conn: None }
    }
    /// None if the server closed the connection without an answer.
    pub fn send(&mut self, method: &str, path: &str, content_type: Option<&str>, body: &[u8]) -> Result<Option<(u16, Vec<u8>)>, String> {
        let h: Vec<(&str, &str)> = content_type.iter().map(|t| ("content-type", *t)).collect();
        Ok(self.send_with(method, path, &h, body)?.map(|(s, _, b)| (s, b)))
    }
    /// The same with any headers; answers with the headers received.
    pub fn send_with(&mut self, method: &str, path: &str, headers: &[(&str, &str)], body: &[u8]) -> Result<Option<Answer>, String> {
        // a connection that was closed since its last use says nothing about this request
        let reused = self.conn.is_some();
        match self.once(method, path, headers, body)? {
            None if reused => self.once(method, path, headers, body),
            x => Ok(x),
        }
    }
    fn once(&mut self, method: &str, path: &str, headers: &[(&str, &str)], body: &[u8]) -> Result<Option<Answer>, String> {
        if self.conn.is_none() {
            let s = TcpStream::connect(&self.addr).map_err(|e| format!("cannot connect to the service: {e}"))?;
            let _ = s.set_nodelay(true);
            let _ = s.set_read_timeout(Some(Duration::from_secs(120)));
            self.conn = Some(BufReader::new(s));
        }
        let mut m = format!("{method} {path} HTTP/1.1\r\nhost: {}\r\ncontent-length: {}\r\n", self.addr, body.len()).into_bytes();
        for (k, v) in headers {
            m.extend(format!("{k}: {v}\r\n").bytes());
        }
        m.extend(b"\r\n");
        m.extend(body);
        let c = self.conn.as_mut().unwrap();
        if c.get_mut().write_all(&m).is_err() {
            self.conn = None;
            return Ok(None);
        }
        match read_message(c, false) {
            None => {
                self.conn = None;
                Ok(None)
            }
            Some((first, headers, body)) => {
                let status = first.split(' ').nth(1).and_then(|s| s.parse().ok()).ok_or_else(|| format!("odd status line {first}"))?;
                if headers.get("connection").map_or(false, |v| v.eq_ignore_ascii_case("close")) {
                    self.conn = None;
                }
                Ok(Some((status, headers, body)))
            }
        }
    }
}
