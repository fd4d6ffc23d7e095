//! Readers and writers which deliver in pieces, are interrupted, or fail, as the script says.
use serde_json::{json, Value};
use std::io::{self, BufRead, ErrorKind, Read, Write};

pub fn kind(s: &str) -> ErrorKind {
    match s {
        "NotFound" => ErrorKind::NotFound,
        "PermissionDenied" => ErrorKind::PermissionDenied,
        "ConnectionRefused" => ErrorKind::ConnectionRefused,
        "ConnectionReset" => ErrorKind::ConnectionReset,
        "ConnectionAborted" => ErrorKind::ConnectionAborted,
        "NotConnected" => ErrorKind::NotConnected,
        "AddrInUse" => ErrorKind::AddrInUse,
        "BrokenPipe" => ErrorKind::BrokenPipe,
        "AlreadyExists" => ErrorKind::AlreadyExists,
        "WouldBlock" => ErrorKind::WouldBlock,
        "InvalidInput" => ErrorKind::InvalidInput,
        "InvalidData" => ErrorKind::InvalidData,
        "TimedOut" => ErrorKind::TimedOut,
        "WriteZero" => ErrorKind::WriteZero,
        "Interrupted" => ErrorKind::Interrupted,
        "Unsupported" => ErrorKind::Unsupported,
        "UnexpectedEof" => ErrorKind::UnexpectedEof,
        "OutOfMemory" => ErrorKind::OutOfMemory,
        "Other" => ErrorKind::Other,
        s => panic!("adapter: unknown error kind {s}"),
    }
}

pub struct Script {
    data: Vec<u8>,
    pos: usize,
    chunks: Vec<usize>,
    chunk: usize,
    left: usize,
    intr: Vec<usize>,
    calls: usize,
    fault: Option<(usize, ErrorKind, Option<String>)>,
    /// What the reader does once it has failed: fail again, end, or go on.
    then: String,
}

impl Script {
    pub fn new(data: Vec<u8>, op: &Value) -> Self {
        let list = |v: &Value| -> Vec<usize> {
            v.as_array()
                .map(|a| a.iter().map(|x| x.as_u64().unwrap() as usize).collect())
                .unwrap_or_default()
        };
        let fault = op["fault"].as_object().map(|f| {
            (
                f["at"].as_u64().unwrap() as usize,
                kind(f["kind"].as_str().unwrap()),
                f.get("msg").and_then(|m| m.as_str()).map(|s| s.to_string()),
            )
        });
        let mut chunks = list(&op["chunks"]);
        if chunks.is_empty() {
            chunks.push(usize::MAX / 2);
        }
        let left = chunks[0];
        Script { data, pos: 0, chunks, chunk: 0, left, intr: list(&op["intr"]), calls: 0, fault,
            then: op["fault"]["then"].as_str().unwrap_or("fail").to_string() }
    }
}

impl Script {
    fn advance(&mut self) {
        self.chunk += 1;
        self.left = self.chunks[self.chunk % self.chunks.len()];
    }
}

impl BufRead for Script {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.calls += 1;
        if self.intr.contains(&(self.calls - 1)) {
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        // A piece of no bytes is an interruption.
        if self.left == 0 {
            self.advance();
            return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let mut end = self.data.len();
        if let Some((at, k, ref msg)) = self.fault {
            if self.pos >= at {
                let e = match msg {
                    Some(m) => io::Error::new(k, m.clone()),
                    None => io::Error::from(k),
                };
                match &self.then[..] {
                    "end" => {
                        self.data.truncate(at);
                        self.fault = None;
                    }
                    "more" => self.fault = None,
                    _ => {}
                }
                return Err(e);
            }
            end = end.min(at);
        }
        let end = end.min(self.pos.saturating_add(self.left));
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
        self.left -= n.min(self.left);
        if self.left == 0 {
            self.advance();
        }
    }
}

impl Read for Script {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        let n = {
            let src = self.fill_buf()?;
            let n = src.len().min(b.len());
            b[..n].copy_from_slice(&src[..n]);
            n
        };
        self.consume(n);
        Ok(n)
    }
}

/// `resp` is a list of responses to successive `write` calls: a number k (accept at most k bytes),
/// "intr", "zero", or {"err": kind, "msg": m}. Later calls accept everything.
pub struct Sink {
    pub got: Vec<u8>,
    pub log: Vec<Value>,
    resp: Vec<Value>,
    calls: usize,
    flush: Value,
    /// {"at": n, "err": kind, "msg": m}: fails when n bytes have been accepted; {"at": n} accepts none then.
    limit: Value,
}

impl Sink {
    pub fn new(op: &Value) -> Self {
        Sink {
            got: vec![],
            log: vec![],
            resp: op["resp"].as_array().cloned().unwrap_or_default(),
            calls: 0,
            flush: op["flush"].clone(),
            limit: op["limit"].clone(),
        }
    }
    fn fail(v: &Value) -> io::Error {
        let k = kind(v["err"].as_str().unwrap());
        match v["msg"].as_str() {
            Some(m) => io::Error::new(k, m.to_string()),
            None => io::Error::from(k),
        }
    }
}

impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.calls > 5_000_000 {
            panic!("adapter: too many write calls");
        }
        let n = self.calls;
        self.calls += 1;
        let r = self.resp.get(n).cloned().unwrap_or(Value::Null);
        if r.is_object() {
            self.log.push(json!({"c": "w", "n": b.len(), "a": 0, "r": "err"}));
            return Err(Self::fail(&r));
        }
        match r.as_str() {
            Some("intr") => {
                self.log.push(json!({"c": "w", "n": b.len(), "a": 0, "r": "intr"}));
                return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            Some("zero") => {
                self.log.push(json!({"c": "w", "n": b.len(), "a": 0, "r": "ok"}));
                return Ok(0);
            }
            _ => {}
        }
        let mut k = r.as_u64().map(|k| k as usize).unwrap_or(usize::MAX).min(b.len());
        if let Some(at) = self.limit["at"].as_u64() {
            k = k.min((at as usize).saturating_sub(self.got.len()));
            if k == 0 && !b.is_empty() && self.limit["err"].is_string() {
                self.log.push(json!({"c": "w", "n": b.len(), "a": 0, "r": "err"}));
                return Err(Self::fail(&self.limit));
            }
        }
        self.got.extend_from_slice(&b[..k]);
        // a long tail of writes accepted in full is told as one
        if n >= self.resp.len() && k == b.len() && self.log.len() > 20_000 {
            let last = self.log.last_mut().unwrap();
            if last["c"] == "w" && last["r"] == "ok" && last["a"] == last["n"] {
                let sum = last["n"].as_u64().unwrap() + k as u64;
                last["n"] = json!(sum);
                last["a"] = json!(sum);
                return Ok(k);
            }
        }
        self.log.push(json!({"c": "w", "n": b.len(), "a": k, "r": "ok"}));
        Ok(k)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.flush.is_object() {
            self.log.push(json!({"c": "f", "n": 0, "a": 0, "r": "err"}));
            return Err(Self::fail(&self.flush));
        }
        self.log.push(json!({"c": "f", "n": 0, "a": 0, "r": "ok"}));
        Ok(())
    }
}
