//! A small language client: drives a real `eu lsp` process over its pipes.

use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

pub struct Client {
    child: Child,
    stdin: Option<ChildStdin>,
    rx: mpsc::Receiver<Value>,
    next: i64,
    /// Diagnostics published so far, in order of arrival: (uri, diagnostics).
    pub published: Vec<(String, Value)>,
    pub dir: std::path::PathBuf,
    pub docs: usize,
}

impl Drop for Client {
    fn drop(&mut self) {
        drop(self.stdin.take());
        let _ = self.child.kill();
        let _ = self.child.wait();
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}

fn reader(out: std::process::ChildStdout, tx: mpsc::Sender<Value>) {
    let mut r = BufReader::new(out);
    loop {
        let mut len = 0usize;
        loop {
            let mut line = String::new();
            match r.read_line(&mut line) {
                Ok(0) | Err(_) => return,
                Ok(_) => {}
            }
            let line = line.trim();
            if line.is_empty() {
                break;
            }
            if let Some(n) = line.strip_prefix("Content-Length:") {
                len = n.trim().parse().unwrap_or(0);
            }
        }
        let mut b = vec![0u8; len];
        if r.read_exact(&mut b).is_err() {
            return;
        }
        match serde_json::from_slice(&b) {
            Ok(v) => {
                if tx.send(v).is_err() {
                    return;
                }
            }
            Err(_) => return,
        }
    }
}

impl Client {
    pub fn start() -> Result<Client, String> {
        let dir = crate::props::c02::scratch();
        let bin = std::env::var("EU_BIN").expect("EU_BIN");
        let mut child = Command::new(bin)
            .arg("lsp")
            .current_dir(&dir)
            .env("HOME", &dir)
            .env("TMPDIR", &dir)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .map_err(|e| e.to_string())?;
        let (tx, rx) = mpsc::channel();
        let out = child.stdout.take().unwrap();
        std::thread::spawn(move || reader(out, tx));
        let stdin = child.stdin.take();
        let mut c = Client { child, stdin, rx, next: 0, published: vec![], dir, docs: 0 };
        c.request("initialize", json!({"capabilities": {}}))?;
        c.notify("initialized", json!({}))?;
        Ok(c)
    }
    fn send(&mut self, v: &Value) -> Result<(), String> {
        let t = v.to_string();
        let w = self.stdin.as_mut().unwrap();
        w.write_all(format!("Content-Length: {}\r\n\r\n{t}", t.len()).as_bytes()).and_then(|_| w.flush()).map_err(|e| format!("the server is gone: {e}"))
    }
    pub fn notify(&mut self, method: &str, params: Value) -> Result<(), String> {
        self.send(&json!({"jsonrpc": "2.0", "method": method, "params": params}))
    }
    pub fn ask(&mut self, method: &str, params: Value) -> Result<i64, String> {
        self.next += 1;
        let id = self.next;
        self.send(&json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params}))?;
        Ok(id)
    }
    /// Wait for the answer to a request, taking note of what else arrives.
    pub fn answer(&mut self, id: i64) -> Result<Value, String> {
        let end = Instant::now() + Duration::from_secs(20);
        loop {
            let left = end.saturating_duration_since(Instant::now());
            match self.rx.recv_timeout(left) {
                Ok(v) => {
                    if v.get("method").is_some() {
                        if v["method"] == "textDocument/publishDiagnostics" {
                            self.published.push((v["params"]["uri"].as_str().unwrap_or("").to_string(), v["params"]["diagnostics"].clone()));
                        } else if let Some(i) = v.get("id") {
                            let r = json!({"jsonrpc": "2.0", "id": i.clone(), "result": null});
                            self.send(&r)?;
                        }
                        continue;
                    }
                    if v["id"] == json!(id) {
                        if let Some(e) = v.get("error") {
                            return Err(format!("error answer: {e}"));
                        }
                        return Ok(v.get("result").cloned().unwrap_or(Value::Null));
                    }
                }
                Err(mpsc::RecvTimeoutError::Timeout) => return Err("no answer within 20 s".into()),
                Err(_) => return Err(format!("the server died: {:?}", self.child.try_wait())),
            }
        }
    }
    pub fn request(&mut self, method: &str, params: Value) -> Result<Value, String> {
        let id = self.ask(method, params)?;
        self.answer(id)
    }
    pub fn uri(&mut self) -> String {
        self.docs += 1;
        format!("file://{}/d{}.eu", self.dir.display(), self.docs)
    }
    pub fn open(&mut self, uri: &str, text: &str) -> Result<(), String> {
        self.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "eucalypt", "version": 1, "text": text}}))
    }
    pub fn close(&mut self, uri: &str) -> Result<(), String> {
        self.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}))
    }
}

thread_local! {
    static CLIENT: std::cell::RefCell<Option<Client>> = const { std::cell::RefCell::new(None) };
}

/// Run with this worker's server, starting one when there is none; an error
/// from `f` ends the server, so the next case gets a fresh one.
pub fn with<T>(f: impl FnOnce(&mut Client) -> Result<T, crate::engine::Fail>) -> Result<T, crate::engine::Fail> {
    CLIENT.with(|c| {
        let mut c = c.borrow_mut();
        // a server is used for a while and then replaced
        if c.as_ref().is_some_and(|c| c.docs > 2000) {
            *c = None;
        }
        if c.is_none() {
            *c = Some(Client::start().map_err(|e| crate::engine::Fail { sig: "start".into(), msg: e })?);
        }
        let r = f(c.as_mut().unwrap());
        if r.is_err() {
            *c = None;
        } else {
            c.as_mut().unwrap().published.clear();
        }
        r
    })
}

// ------------------------------------------------------------- positions

/// The start of each line.
pub fn lines(text: &str) -> Vec<usize> {
    std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect()
}
/// Where a line's characters end: before its line break.
pub fn line_end(text: &str, line: usize) -> usize {
    let ls = lines(text);
    let e = ls.get(line + 1).map(|e| e - 1).unwrap_or(text.len());
    if e > ls[line] && ls.len() > line + 1 && text[..e].ends_with('\r') {
        e - 1
    } else {
        e
    }
}
/// The position of a byte offset.
pub fn pos(text: &str, at: usize) -> (u64, u64) {
    let ls = lines(text);
    let l = ls.partition_point(|s| *s <= at) - 1;
    (l as u64, text[ls[l]..at].encode_utf16().count() as u64)
}
pub fn jpos(p: (u64, u64)) -> Value {
    json!({"line": p.0, "character": p.1})
}
pub fn jrange(text: &str, a: usize, b: usize) -> Value {
    json!({"start": jpos(pos(text, a)), "end": jpos(pos(text, b))})
}
/// The byte offset of a position, if it is one of the document's.
pub fn offset(text: &str, p: &Value) -> Option<usize> {
    let (l, c) = (p["line"].as_u64()? as usize, p["character"].as_u64()?);
    let ls = lines(text);
    let start = *ls.get(l)?;
    let end = ls.get(l + 1).map(|e| e - 1).unwrap_or(text.len());
    let mut n = 0;
    for (i, ch) in text[start..end].char_indices() {
        if n == c {
            return Some(start + i);
        }
        n += ch.len_utf16() as u64;
    }
    (n == c).then_some(end)
}
/// The byte offset a position stands for once moved into the document.
pub fn clamp(text: &str, p: (u64, u64)) -> usize {
    let ls = lines(text);
    let Some(start) = ls.get(p.0 as usize).copied() else { return text.len() };
    let end = line_end(text, p.0 as usize);
    let mut n = 0;
    for (i, ch) in text[start..end].char_indices() {
        if n >= p.1 {
            return start + i;
        }
        n += ch.len_utf16() as u64;
    }
    end
}
pub fn range(text: &str, r: &Value) -> Option<(usize, usize)> {
    let (a, b) = (offset(text, &r["start"])?, offset(text, &r["end"])?);
    (a <= b).then_some((a, b))
}
/// The document after a list of edits, all of which refer to the text before.
pub fn apply(text: &str, edits: &Value) -> Result<String, String> {
    let mut es: Vec<(usize, usize, String)> = vec![];
    for e in edits.as_array().into_iter().flatten() {
        let (a, b) = range(text, &e["range"]).ok_or_else(|| format!("an edit's range is not in the document: {e}"))?;
        es.push((a, b, e["newText"].as_str().unwrap_or("").to_string()));
    }
    es.sort_by_key(|e| (e.0, e.1));
    for w in es.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("edits overlap: {:?} and {:?}", w[0], w[1]));
        }
    }
    let mut out = text.to_string();
    for (a, b, t) in es.iter().rev() {
        out.replace_range(*a..*b, t);
    }
    Ok(out)
}
