//! Drives the language server (initialize + main loop) over an in-memory connection, and an independent model of its answers.
use crate::core::*;
use crate::props::util::*;
use ink_analyzer::{ActionKind, Analysis, CompletionKind, Severity, TextEdit};
use lsp_server::{Connection, Message, Notification, Request, RequestId, Response};
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::Duration;

/// Scratch directory of this process (created by the parent process, removed by it).
pub fn scratch() -> PathBuf {
    let p = match std::env::var("VP_SCRATCH") {
        Ok(p) => PathBuf::from(p),
        Err(_) => PathBuf::from(format!("/tmp/vp-scratch-{}", std::process::id())),
    };
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub fn clean_scratch() {
    if std::env::var("VP_SCRATCH").is_err() {
        std::fs::remove_dir_all(format!("/tmp/vp-scratch-{}", std::process::id())).ok();
    }
}
/// A directory for one case, removed when dropped.
pub struct CaseDir(pub PathBuf);
impl CaseDir {
    pub fn new() -> CaseDir {
        static N: AtomicUsize = AtomicUsize::new(0);
        // Always the same length, so that nothing depends on the counter.
        let p = scratch().join(format!("case{:09}", N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap();
        CaseDir(p)
    }
    pub fn write(&self, rel: &str, text: &str) -> PathBuf {
        let p = self.0.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, text).unwrap();
        p
    }
    pub fn uri(&self, rel: &str) -> String {
        uri(&self.0.join(rel))
    }
}
impl Drop for CaseDir {
    fn drop(&mut self) {
        std::fs::remove_dir_all(&self.0).ok();
    }
}
pub fn uri(p: &Path) -> String {
    lsp_types::Url::from_file_path(p).unwrap().to_string()
}

/// What the client declared, as the model sees it.
#[derive(Debug, Clone, Default)]
pub struct Caps {
    pub encodings: Option<Vec<String>>,
    pub snippets: bool,
    pub resolve: bool,
    pub label_offsets: bool,
    pub active_parameter: bool,
    pub create: bool,
    pub partial: usize,
    pub kinds: Option<Vec<String>>,
}
impl Caps {
    pub fn random(s: &mut Src) -> Caps {
        let encodings = match s.below(6) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(vec!["utf-16".into()]),
            _ => {
                let n = s.range(1, 5);
                Some((0..n).map(|_| s.pick(&["utf-16", "utf-8", "utf-32", "utf-7", "utf-16", "utf-32"]).to_string()).collect())
            }
        };
        Caps {
            encodings,
            snippets: s.bool(),
            resolve: s.bool(),
            label_offsets: s.bool(),
            active_parameter: s.bool(),
            create: s.bool(),
            partial: s.below(8),
            kinds: match s.below(4) {
                0 => None,
                1 => Some(vec![]),
                _ => {
                    let n = s.range(1, 4);
                    Some((0..n).map(|_| s.pick(&["", "quickfix", "refactor", "refactor.rewrite", "refactor.extract", "source"]).to_string()).collect())
                }
            },
        }
    }
    pub fn json(&self) -> Value {
        let mut c = json!({});
        if let Some(e) = &self.encodings {
            c["general"] = json!({ "positionEncodings": e });
        }
        let mut td = json!({});
        if self.snippets {
            td["completion"] = json!({"completionItem": {"snippetSupport": true}});
        }
        let mut ca = json!({});
        if self.resolve {
            ca["resolveSupport"] = json!({"properties": ["edit"]});
        }
        if let Some(k) = &self.kinds {
            ca["codeActionLiteralSupport"] = json!({"codeActionKind": {"valueSet": k}});
        }
        td["codeAction"] = ca;
        td["signatureHelp"] = json!({"signatureInformation": {"activeParameterSupport": self.active_parameter, "parameterInformation": {"labelOffsetSupport": self.label_offsets}}});
        c["textDocument"] = td;
        if self.create {
            c["workspace"] = json!({"applyEdit": true, "workspaceEdit": {"documentChanges": true, "resourceOperations": ["create"]}});
        } else {
            // All of it is needed for creating files.
            match self.partial {
                0 => c["workspace"] = json!({"workspaceEdit": {"documentChanges": true, "resourceOperations": ["create"]}}),
                1 => c["workspace"] = json!({"applyEdit": true, "workspaceEdit": {"resourceOperations": ["create", "rename"]}}),
                2 => c["workspace"] = json!({"applyEdit": true, "workspaceEdit": {"documentChanges": true, "resourceOperations": ["rename", "delete"]}}),
                3 => c["workspace"] = json!({"applyEdit": true, "workspaceEdit": {"documentChanges": true}}),
                _ => (),
            }
        }
        c
    }
}

pub struct Client {
    conn: Connection,
    thread: Option<std::thread::JoinHandle<Result<Result<(), String>, String>>>,
    barrier: u32,
    pub encoding: lsp_types::PositionEncodingKind,
    pub init: Value,
}
const WAIT: Duration = Duration::from_secs(60);

pub enum Dead {
    Panic(String),
    Ended(Result<(), String>),
    Hang,
}
impl Dead {
    pub fn fail<T>(self, what: &str, input: &str) -> Result<T, Fail> {
        match self {
            Dead::Panic(m) => {
                let head = m.lines().next().unwrap_or("").split('`').next().unwrap_or("").to_string();
                fail(format!("server panic: {}", normalize(&head)), format!("{what}\n{m}"), input)
            }
            Dead::Ended(r) => fail("server stopped", format!("{what}: main loop returned {r:?}"), input),
            Dead::Hang => fail("server hangs", format!("{what}: no answer within {WAIT:?}"), input),
        }
    }
}

impl Client {
    /// Starts a server and performs the initialize handshake.
    pub fn start(caps: &Value) -> Result<Client, Dead> {
        let (server, conn) = Connection::memory();
        let thread = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), String> {
                    let (c, p) = ink_lsp_server::initialize(server).map_err(|e| e.to_string())?;
                    ink_lsp_server::main_loop(c, p.capabilities).map_err(|e| e.to_string())
                }));
                r.map_err(|_| take_panic().unwrap_or_else(|| "panic".into()))
            })
            .unwrap();
        let mut c = Client { conn, thread: Some(thread), barrier: 0, encoding: lsp_types::PositionEncodingKind::UTF16, init: Value::Null };
        let r = Request { id: RequestId::from("vp-init".to_string()), method: "initialize".into(), params: json!({"processId": null, "rootUri": null, "capabilities": caps}) };
        c.send(r.into())?;
        let m = c.recv()?;
        if let Message::Response(r) = m {
            c.init = r.result.unwrap_or(Value::Null);
        }
        c.encoding = match c.init["capabilities"]["positionEncoding"].as_str() {
            Some(e) => lsp_types::PositionEncodingKind::from(e.to_string()),
            None => lsp_types::PositionEncodingKind::UTF16,
        };
        c.send(Notification { method: "initialized".into(), params: json!({}) }.into())?;
        Ok(c)
    }
    fn dead(&mut self) -> Dead {
        match self.thread.take() {
            // Only called when the other end of the channel is gone, i.e. the thread is about to end.
            Some(t) => match t.join() {
                Ok(Ok(r)) => Dead::Ended(r),
                Ok(Err(p)) => Dead::Panic(p),
                Err(_) => Dead::Panic("panic".into()),
            },
            None => Dead::Hang,
        }
    }
    pub fn send(&mut self, m: Message) -> Result<(), Dead> {
        use std::time::Instant;
        let t0 = Instant::now();
        match self.conn.sender.send_timeout(m, WAIT) {
            Ok(()) => Ok(()),
            Err(_) if t0.elapsed() >= WAIT => Err(Dead::Hang),
            Err(_) => Err(self.dead()),
        }
    }
    fn recv(&mut self) -> Result<Message, Dead> {
        let t0 = std::time::Instant::now();
        match self.conn.receiver.recv_timeout(WAIT) {
            Ok(m) => Ok(m),
            Err(_) if t0.elapsed() >= WAIT => Err(Dead::Hang),
            Err(_) => Err(self.dead()),
        }
    }
    /// Sends a message and returns everything the server sends until it has dealt with it.
    pub fn exchange(&mut self, m: Message) -> Result<Vec<Message>, Dead> {
        self.barrier += 1;
        let id = RequestId::from(format!("vp-barrier-{}", self.barrier));
        self.send(m)?;
        self.send(Request { id: id.clone(), method: "vp/barrier".into(), params: Value::Null }.into())?;
        let mut out = vec![];
        loop {
            match self.recv()? {
                Message::Response(r) if r.id == id => return Ok(out),
                m => out.push(m),
            }
        }
    }
    pub fn notify(&mut self, method: &str, params: Value) -> Result<Vec<Message>, Dead> {
        self.exchange(Notification { method: method.into(), params }.into())
    }
    pub fn request(&mut self, id: RequestId, method: &str, params: Value) -> Result<Vec<Message>, Dead> {
        self.exchange(Request { id, method: method.into(), params }.into())
    }
    /// A request whose only answer is its response.
    pub fn call(&mut self, id: i32, method: &str, params: Value) -> Result<Result<Response, Vec<Message>>, Dead> {
        let mut ms = self.request(RequestId::from(id), method, params)?;
        Ok(match (ms.len(), ms.pop()) {
            (1, Some(Message::Response(r))) if r.id == RequestId::from(id) => Ok(r),
            (_, Some(m)) => {
                ms.push(m);
                Err(ms)
            }
            _ => Err(ms),
        })
    }
    /// Shuts the server down; the result of the main loop.
    pub fn stop(mut self) -> Result<Response, Dead> {
        self.send(Request { id: RequestId::from("vp-stop".to_string()), method: "shutdown".into(), params: Value::Null }.into())?;
        let r = match self.recv()? {
            Message::Response(r) => r,
            m => Response::new_err(RequestId::from(0), 0, format!("{m:?}")),
        };
        self.send(Notification { method: "exit".into(), params: Value::Null }.into())?;
        let t = self.thread.take().unwrap();
        match t.join() {
            Ok(Ok(Ok(()))) => Ok(r),
            Ok(Ok(Err(e))) => Err(Dead::Ended(Err(e))),
            Ok(Err(p)) => Err(Dead::Panic(p)),
            Err(_) => Err(Dead::Panic("panic".into())),
        }
    }
}

// ---- The model of the server's answers.

pub struct LDoc<'a> {
    pub uri: &'a str,
    pub text: &'a str,
    pub v5: bool,
    pub caps: &'a Caps,
    pub enc: &'a lsp_types::PositionEncodingKind,
}
impl<'a> LDoc<'a> {
    fn a(&self) -> Analysis {
        analyze(self.text, self.v5)
    }
    pub fn pos(&self, o: usize) -> Value {
        let p = crate::props::ref_position(self.enc, self.text, o);
        json!({"line": p.line, "character": p.character})
    }
    pub fn range(&self, r: (usize, usize)) -> Value {
        json!({"start": self.pos(r.0), "end": self.pos(r.1)})
    }
    fn edit(&self, e: &TextEdit) -> Value {
        json!({"range": self.range(r(e.range)), "newText": e.text})
    }
    pub fn diagnostics(&self) -> Value {
        self.a()
            .diagnostics()
            .iter()
            .map(|d| json!({"range": self.range(r(d.range)), "severity": if d.severity == Severity::Error { 1 } else { 2 }, "message": d.message}))
            .collect()
    }
    pub fn completions(&self, o: usize) -> Value {
        let items: Vec<Value> = self
            .a()
            .completions(ts(o))
            .iter()
            .map(|c| {
                let kind = match c.kind {
                    CompletionKind::Attr | CompletionKind::Field => 5,
                    CompletionKind::Enum => 13,
                    CompletionKind::Fn => 3,
                    CompletionKind::Mod => 9,
                    CompletionKind::Struct => 22,
                    CompletionKind::Trait => 7,
                };
                let snip = c.edit.snippet.as_ref().filter(|_| self.caps.snippets);
                let mut v = json!({"label": c.label, "kind": kind, "textEdit": {"range": self.range(r(c.range)), "newText": snip.unwrap_or(&c.edit.text)}});
                if let Some(d) = &c.detail {
                    v["detail"] = json!(d);
                }
                // Without a format the text is plain.
                v["insertTextFormat"] = json!(if snip.is_some() { 2 } else { 1 });
                v
            })
            .collect();
        if items.is_empty() {
            Value::Null
        } else {
            json!(items)
        }
    }
    pub fn hover(&self, o: usize) -> Value {
        match self.a().hover(tr(o, o)) {
            Some(h) => json!({"contents": h.content, "range": self.range(r(h.range))}),
            None => Value::Null,
        }
    }
    pub fn inlay_hints(&self, rg: (usize, usize)) -> Value {
        self.a()
            .inlay_hints(Some(tr(rg.0, rg.1)))
            .iter()
            .map(|h| {
                let mut v = json!({"position": self.pos(usize::from(h.position)), "label": format!(": {}", h.label), "kind": 1, "paddingLeft": true});
                if let Some(d) = &h.detail {
                    v["tooltip"] = json!(d);
                }
                v
            })
            .collect()
    }
    pub fn signature_help(&self, o: usize) -> Value {
        let u = |t: &str| crate::props::units(self.enc, t);
        let sigs = self.a().signature_help(ts(o));
        if sigs.is_empty() {
            return Value::Null;
        }
        let v: Vec<Value> = sigs
            .iter()
            .map(|s| {
                let mut v = json!({"label": s.label});
                if let Some(d) = &s.detail {
                    v["documentation"] = json!({"kind": "markdown", "value": d});
                }
                if !s.parameters.is_empty() {
                    v["parameters"] = s
                        .parameters
                        .iter()
                        .map(|p| {
                            let (a, b) = r(p.range);
                            let mut v = if self.caps.label_offsets { json!({"label": [u(&s.label[..a]), u(&s.label[..b])]}) } else { json!({"label": s.label[a..b]}) };
                            if let Some(d) = &p.detail {
                                v["documentation"] = json!({"kind": "markdown", "value": d});
                            }
                            v
                        })
                        .collect();
                }
                if self.caps.active_parameter {
                    if let Some(p) = s.active_parameter {
                        v["activeParameter"] = json!(p);
                    }
                }
                v
            })
            .collect();
        let mut out = json!({"signatures": v, "activeSignature": 0});
        if let Some(p) = sigs[0].active_parameter {
            out["activeParameter"] = json!(p);
        }
        out
    }
    pub fn actions(&self, rg: (usize, usize)) -> Value {
        self.a()
            .actions(tr(rg.0, rg.1))
            .iter()
            .filter_map(|a| {
                let (ar, br) = r(a.range);
                let cmd = match a.kind {
                    ActionKind::Migrate => Some("migrateProject"),
                    ActionKind::Extract => Some("extractEvent"),
                    _ => None,
                };
                let kind = match a.kind {
                    ActionKind::QuickFix => "quickfix",
                    ActionKind::Refactor | ActionKind::Migrate => "refactor.rewrite",
                    ActionKind::Extract => "refactor.extract",
                    _ => "",
                };
                let mut v = json!({"title": a.label, "kind": kind});
                match cmd {
                    Some(c) => {
                        let args = json!({"uri": self.uri, "range": {"start": ar, "end": br}});
                        if self.caps.resolve {
                            let mut d = args;
                            d["command"] = json!(c);
                            v["data"] = d;
                        } else {
                            v["command"] = json!({"title": a.label, "command": c, "arguments": [args]});
                        }
                    }
                    None => {
                        if a.edits.is_empty() {
                            return None;
                        }
                        let es: Value = a.edits.iter().map(|e| self.edit(e)).collect();
                        v["edit"] = json!({"changes": {self.uri: es}});
                        let mut sn = serde_json::Map::new();
                        for e in &a.edits {
                            if let Some(s) = &e.snippet {
                                sn.insert(e.text.clone(), json!(s));
                            }
                        }
                        if !sn.is_empty() {
                            v["data"] = json!({ "snippets": sn });
                        }
                    }
                }
                Some(v)
            })
            .collect()
    }
    pub fn migrate_edits(&self) -> Value {
        self.a().migrate().iter().map(|e| self.edit(e)).collect()
    }
}
/// Applies LSP edits (in the given encoding) to a text.
pub fn apply_lsp(enc: &lsp_types::PositionEncodingKind, text: &str, edits: &Value) -> Option<String> {
    let off = |p: &Value| -> Option<usize> {
        let line = p["line"].as_u64()? as usize;
        let ch = p["character"].as_u64()? as u32;
        let mut start = 0;
        for _ in 0..line {
            start += text[start..].find('\n')? + 1;
        }
        let end = text[start..].find('\n').map(|i| start + i).unwrap_or(text.len());
        (start..=end).find(|o| text.is_char_boundary(*o) && crate::props::units(enc, &text[start..*o]) == ch)
    };
    let mut es = vec![];
    for e in edits.as_array()? {
        es.push(ink_analyzer::TextEdit::replace(e["newText"].as_str()?.to_string(), tr(off(&e["range"]["start"])?, off(&e["range"]["end"])?)));
    }
    apply(text, &es)
}
