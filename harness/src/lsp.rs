//! A client for the language server: talks to the real program over its standard streams.
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::path::Path;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError};
use std::time::Duration;

pub struct Server {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: Receiver<Value>,
    next: u64,
    /// responses that were not asked for
    pub stray: Vec<Value>,
    pub pending: Vec<u64>,
    pub served: u64,
}

const PATIENCE: Duration = Duration::from_secs(100);

impl Server {
    pub fn start() -> Result<Server, String> {
        Server::start_as(json!({"processId": null, "rootUri": null, "capabilities": {}}))
    }
    pub fn start_as(init: Value) -> Result<Server, String> {
        let exe = crate::engine::exe_dir().join("sut_ls");
        let mut child = Command::new(&exe)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| crate::engine::harness_error(&format!("cannot start {}: {}", exe.display(), e)));
        let stdin = child.stdin.take();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            let mut r = BufReader::new(out);
            loop {
                let mut len = 0usize;
                loop {
                    let mut line = String::new();
                    match r.read_line(&mut line) {
                        Ok(0) | Err(_) => return,
                        Ok(_) => {}
                    }
                    let l = line.trim();
                    if l.is_empty() {
                        break;
                    }
                    if let Some(x) = l.to_ascii_lowercase().strip_prefix("content-length:") {
                        len = x.trim().parse().unwrap_or(0);
                    }
                }
                let mut b = vec![0; len];
                if r.read_exact(&mut b).is_err() {
                    return;
                }
                match serde_json::from_slice(&b) {
                    Ok(v) => {
                        if tx.send(v).is_err() {
                            return;
                        }
                    }
                    Err(_) => return,
                }
            }
        });
        let mut s = Server { child, stdin, rx, next: 1, stray: vec![], pending: vec![], served: 0 };
        let r = s.request("initialize", init)?;
        if r.get("result").is_none() {
            return Err(format!("initialize failed: {}", r));
        }
        // what it announces is what clients then do: send whole texts, and ask for diagnostics
        let c = &r["result"]["capabilities"];
        let sync = &c["textDocumentSync"];
        let change = if sync.is_object() { &sync["change"] } else { sync };
        if change != &json!(1) || sync["openClose"] == json!(false) {
            return Err(format!("the server does not announce that it takes full texts: {}", c));
        }
        if !c["diagnosticProvider"].is_object() {
            return Err(format!("the server does not announce diagnostics: {}", c));
        }
        s.notify("initialized", json!({}))?;
        Ok(s)
    }
    fn send(&mut self, v: Value) -> Result<(), String> {
        let s = v.to_string();
        let w = self.stdin.as_mut().unwrap();
        w.write_all(format!("Content-Length: {}\r\n\r\n{}", s.len(), s).as_bytes())
            .and_then(|_| w.flush())
            .map_err(|e| format!("the server does not read any more ({})", e))
    }
    pub fn notify(&mut self, method: &str, params: Value) -> Result<(), String> {
        let mut m = json!({"jsonrpc": "2.0", "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send(m)
    }
    pub fn post(&mut self, method: &str, params: Value) -> Result<u64, String> {
        let id = self.next;
        self.next += 1;
        let mut m = json!({"jsonrpc": "2.0", "id": id, "method": method});
        if !params.is_null() {
            m["params"] = params;
        }
        self.send(m)?;
        self.pending.push(id);
        Ok(id)
    }
    /// the next response
    pub fn receive(&mut self) -> Result<(u64, Value), String> {
        loop {
            match self.rx.recv_timeout(PATIENCE) {
                Ok(v) => {
                    if v.get("method").is_some() {
                        continue; // log messages
                    }
                    let id = v.get("id").and_then(|x| x.as_u64());
                    match id {
                        Some(id) if self.pending.contains(&id) => {
                            self.pending.retain(|x| *x != id);
                            return Ok((id, v));
                        }
                        _ => return Err(format!("a response that nobody asked for: {}", v)),
                    }
                }
                Err(RecvTimeoutError::Disconnected) => {
                    let st = self.child.try_wait();
                    return Err(format!("the server ended: {:?}", st.ok().flatten().map(|s| s.to_string())));
                }
                Err(RecvTimeoutError::Timeout) => return Err("the server does not answer".into()),
            }
        }
    }
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, String> {
        let id = self.post(method, params)?;
        let (got, v) = self.receive()?;
        if got != id {
            return Err(format!("response to request {} instead of {}", got, id));
        }
        Ok(v)
    }
    pub fn open(&mut self, uri: &str, text: &str, version: i64) -> Result<(), String> {
        self.notify(
            "textDocument/didOpen",
            json!({"textDocument": {"uri": uri, "languageId": "hddl", "version": version, "text": text}}),
        )
    }
    pub fn change(&mut self, uri: &str, texts: &[String], version: i64) -> Result<(), String> {
        let ch: Vec<Value> = texts.iter().map(|t| json!({ "text": t })).collect();
        self.notify(
            "textDocument/didChange",
            json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": ch}),
        )
    }
    pub fn save(&mut self, uri: &str, text: Option<&str>) -> Result<(), String> {
        let mut p = json!({"textDocument": {"uri": uri}});
        if let Some(t) = text {
            p["text"] = json!(t);
        }
        self.notify("textDocument/didSave", p)
    }
    pub fn close(&mut self, uri: &str) -> Result<(), String> {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}))
    }
    pub fn post_diagnostic(&mut self, uri: &str, previous: Option<&str>) -> Result<u64, String> {
        let mut p = json!({"textDocument": {"uri": uri}});
        if let Some(x) = previous {
            p["previousResultId"] = json!(x);
            p["identifier"] = json!("HDDL Server");
        }
        self.post("textDocument/diagnostic", p)
    }
    pub fn diagnostic(&mut self, uri: &str) -> Result<Value, String> {
        self.request("textDocument/diagnostic", json!({"textDocument": {"uri": uri}}))
    }
    /// is it still running, with nothing unasked in the pipe?
    pub fn alive(&mut self) -> Result<(), String> {
        if let Ok(Some(s)) = self.child.try_wait() {
            return Err(format!("the server ended: {}", s));
        }
        while let Ok(v) = self.rx.try_recv() {
            if v.get("method").is_none() {
                return Err(format!("a response that nobody asked for: {}", v));
            }
        }
        Ok(())
    }
    pub fn shutdown(mut self) -> Result<(), String> {
        let r = self.request("shutdown", Value::Null)?;
        if r.get("error").is_some() {
            return Err(format!("shutdown failed: {}", r));
        }
        self.notify("exit", Value::Null)?;
        self.stdin = None;
        let t0 = std::time::Instant::now();
        while t0.elapsed() < PATIENCE {
            if let Ok(Some(st)) = self.child.try_wait() {
                return if st.success() { Ok(()) } else { Err(format!("after exit the server ended with {}", st)) };
            }
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        Err("the server does not end after exit".into())
    }
}

impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

/// as editors write it: everything unusual is percent-encoded
pub fn uri(path: &Path) -> String {
    let mut s = String::from("file://");
    for b in path.to_str().unwrap().bytes() {
        if b.is_ascii_alphanumeric() || b"-._~/".contains(&b) {
            s.push(b as char);
        } else {
            s.push_str(&format!("%{:02X}", b));
        }
    }
    s
}

/// without percent-encoding
pub fn decode(uri: &str) -> Vec<u8> {
    let b = uri.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        match (b[i], uri.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())) {
            (b'%', Some(x)) => {
                out.push(x);
                i += 3;
            }
            (x, _) => {
                out.push(x);
                i += 1;
            }
        }
    }
    out
}

/// the diagnostics of a response
pub fn items(v: &Value) -> Option<&Vec<Value>> {
    let r = v.get("result")?;
    if r.get("kind")? != "full" {
        return None;
    }
    r.get("items")?.as_array()
}
