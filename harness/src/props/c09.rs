//! C09: every request gets exactly one matching response and the server survives.
use super::c08::*;
use super::util::*;
use crate::core::*;
use crate::fuzz::*;
use crate::lsp::*;
use lsp_server::{Message, RequestId};
use serde_json::{json, Value};

pub static PROP: Prop = Prop {
    id: "C09",
    rule: "a case is a sequence of client messages (known and unknown requests with valid and malformed parameters on open, closed and unknown documents; valid, malformed and unknown notifications; responses), run against the real message loop; non-trivial: at least one request that must fail and one that must succeed",
    quick: 24000,
    thorough: 100000,
    run,
    fixed: None,
    shrink_evals: 600,
    assumptions: &["messages are well-formed JSON-RPC envelopes (framing is the transport library's job)"],
    threads: 8,
};
#[derive(Debug, Clone, Copy, PartialEq)]
enum Want {
    Ok,
    Code(i64),
    Err,
    /// Either, but exactly one.
    Any,
}
fn rid(s: &mut Src) -> RequestId {
    match s.below(4) {
        0 => RequestId::from(s.pick(&["a", "", "\"quoted\"", "migrate-project::x", "initialize-project::file:///tmp/x/", "1", "é😀"]).to_string()),
        1 => RequestId::from(*s.pick(&[0, -1, i32::MAX, i32::MIN])),
        _ => RequestId::from(s.below(100) as i32),
    }
}
fn set(v: &mut Value, path: &[&str], x: Option<Value>) {
    let mut cur = v;
    for p in &path[..path.len() - 1] {
        cur = &mut cur[*p];
    }
    let last = path[path.len() - 1];
    match x {
        Some(x) => cur[last] = x,
        None => {
            cur.as_object_mut().map(|o| o.remove(last));
        }
    }
}
/// Breaks the parameters of a method so that they cannot be deserialized.
fn malform(s: &mut Src, p: &mut Value, req: &[&[&str]]) -> String {
    if s.chance(1, 5) {
        *p = s.pick(&[Value::Null, json!(5), json!("x"), json!([]), json!({})]).clone();
        return "params replaced".into();
    }
    let path = *s.pick(req);
    let last = path[path.len() - 1];
    let bad: Option<Value> = match last {
        _ if s.chance(1, 3) => None,
        "uri" => Some(s.pick(&[json!(5), json!(null), json!("no uri"), json!("")]).clone()),
        "line" | "character" => Some(s.pick(&[json!(-1), json!("0"), json!(1.5), json!(4294967296u64), json!(null)]).clone()),
        "version" => Some(s.pick(&[json!("1"), json!(null), json!(1.5), json!(4294967296u64)]).clone()),
        "text" | "languageId" | "command" | "title" => Some(s.pick(&[json!(1), json!(null), json!({})]).clone()),
        _ => Some(s.pick(&[json!(1), json!("x"), json!(null), json!(true)]).clone()),
    };
    set(p, path, bad);
    format!("{} broken", path.join("."))
}

fn run(s: &mut Src) -> Result<Info, Fail> {
    let caps = Caps::random(s);
    let dir = CaseDir::new();
    if s.bool() {
        dir.write("Cargo.toml", &manifest("4.3.0"));
    }
    if s.bool() {
        dir.write("five/Cargo.toml", &manifest("5"));
    }
    let uris: Vec<String> = vec![dir.uri("lib.rs"), dir.uri("five/lib.rs"), "untitled:x".into(), dir.uri("lib.txt"), "file:///".into(), "http://localhost/lib.rs".into()];
    let mut c = match Client::start(&caps.json()) {
        Ok(c) => c,
        Err(d) => return d.fail("initialize", ""),
    };
    let enc = c.encoding.clone();
    let mut text: Vec<Option<String>> = vec![None; uris.len()];
    let mut hist: Vec<String> = vec![];
    let mut labels: Vec<String> = vec![];
    let (mut good, mut bad, mut evals) = (0, 0, 0);
    let n = s.range(1, 10);
    for k in 0..n {
        let i = s.below(uris.len());
        let uri = uris[i].clone();
        let kind = s.weighted(&[4, 6, 2, 3, 2, 2, 1]);
        let (msg, want, id): (Message, Option<Want>, Option<RequestId>) = match kind {
            // Notifications.
            0 | 4 => {
                let ver = k as i32;
                let (m, mut p, req): (&str, Value, &[&[&str]]) = match s.below(3) {
                    0 => (
                        "textDocument/didOpen",
                        json!({"textDocument": {"uri": uri, "languageId": "rust", "version": ver, "text": small_doc(s)}}),
                        &[&["textDocument"], &["textDocument", "uri"], &["textDocument", "languageId"], &["textDocument", "version"], &["textDocument", "text"]],
                    ),
                    1 => (
                        "textDocument/didChange",
                        json!({"textDocument": {"uri": uri, "version": ver}, "contentChanges": [{"text": small_doc(s)}]}),
                        &[&["textDocument"], &["textDocument", "uri"], &["textDocument", "version"], &["contentChanges"]],
                    ),
                    _ => ("textDocument/didClose", json!({"textDocument": {"uri": uri}}), &[&["textDocument"], &["textDocument", "uri"]]),
                };
                if kind == 4 {
                    let how = malform(s, &mut p, req);
                    labels.push(format!("malformed {m}"));
                    hist.push(format!("{m} {how} {p}"));
                } else {
                    match m {
                        "textDocument/didOpen" => text[i] = p["textDocument"]["text"].as_str().map(|x| x.to_string()),
                        "textDocument/didClose" => text[i] = None,
                        _ => {
                            if s.chance(1, 6) {
                                p["contentChanges"] = json!([]);
                            } else if text[i].is_some() {
                                text[i] = p["contentChanges"][0]["text"].as_str().map(|x| x.to_string());
                            }
                        }
                    }
                    hist.push(format!("{m} {p}"));
                }
                (lsp_server::Notification { method: m.into(), params: p }.into(), None, None)
            }
            // Feature requests: valid, far out of range, or malformed.
            1 | 5 => {
                let m = *s.pick(METHODS);
                let id = rid(s);
                let d = text[i].as_ref().map(|t| LDoc { uri: &uri, text: t, v5: false, caps: &caps, enc: &enc });
                let (mut p, _) = params(s, d.as_ref(), &uri, m);
                let is_pos = p.get("position").is_some();
                let mut want = Want::Ok;
                if kind == 5 {
                    let req: Vec<&[&str]> = if is_pos {
                        vec![&["textDocument"], &["textDocument", "uri"], &["position"], &["position", "line"], &["position", "character"]]
                    } else {
                        vec![&["textDocument"], &["textDocument", "uri"], &["range"], &["range", "start"], &["range", "start", "line"], &["range", "end", "character"]]
                    };
                    malform(s, &mut p, &req);
                    want = Want::Code(-32602);
                } else if s.chance(1, 4) {
                    let path: &[&str] = if is_pos {
                        &["position"]
                    } else if s.bool() {
                        &["range", "start"]
                    } else {
                        &["range", "end"]
                    };
                    let big = [u32::MAX, u32::MAX - 1, 1 << 31, 70000, 1000, 1, 0];
                    set(&mut p, path, Some(json!({"line": s.pick(&big), "character": s.pick(&big)})));
                    want = Want::Any;
                }
                labels.push(format!("{m} {want:?}"));
                hist.push(format!("{m} {p}"));
                (lsp_server::Request { id: id.clone(), method: m.into(), params: p }.into(), Some(want), Some(id))
            }
            2 => {
                let m = *s.pick(&["textDocument/definition", "foo", "", "workspace/symbol", "$/unknown", "textDocument/Completion", "textDocument/completion2", "textDocument/didOpen", "codeAction", "completionItem/resolve", "vp/x"]);
                let id = rid(s);
                let p = s.pick(&[Value::Null, json!({}), json!([1]), json!({"textDocument": {"uri": uri}, "position": {"line": 0, "character": 0}})]).clone();
                labels.push("unknown method".into());
                hist.push(format!("{m} {p}"));
                (lsp_server::Request { id: id.clone(), method: m.into(), params: p }.into(), Some(Want::Code(-32601)), Some(id))
            }
            // Commands and code action resolution.
            3 => {
                let id = rid(s);
                let (m, p, want) = command(s, &uri, text[i].as_deref(), &dir);
                labels.push(format!("{m} {want:?}"));
                hist.push(format!("{m} {p}"));
                (lsp_server::Request { id: id.clone(), method: m, params: p }.into(), Some(want), Some(id))
            }
            // Unknown notifications and stray responses.
            _ => {
                if s.bool() {
                    let m = *s.pick(&["$/cancelRequest", "$/setTrace", "workspace/didChangeConfiguration", "foo", "", "textDocument/didSave", "initialized"]);
                    let p = s.pick(&[Value::Null, json!({"id": 1}), json!(5)]).clone();
                    hist.push(format!("notification {m} {p}"));
                    labels.push("unknown notification".into());
                    (lsp_server::Notification { method: m.into(), params: p }.into(), None, None)
                } else {
                    let id = match s.below(3) {
                        0 => RequestId::from(s.pick(&["x", "initialize-project::", "initialize-project::not a uri", "migrate-project::", "show-document::x"]).to_string()),
                        _ => rid(s),
                    };
                    hist.push(format!("response {id:?}"));
                    labels.push("stray response".into());
                    (lsp_server::Response { id, result: Some(Value::Null), error: None }.into(), None, None)
                }
            }
        };
        let h = hist.join("\n");
        let what = hist.last().unwrap().clone();
        let got = match c.exchange(msg) {
            Ok(g) => g,
            Err(d) => return d.fail(&what, &h),
        };
        evals += 1;
        let rs: Vec<_> = got.iter().filter_map(|m| if let Message::Response(r) = m { Some(r) } else { None }).collect();
        match (want, id) {
            (Some(w), Some(id)) => {
                if rs.len() != 1 {
                    return fail("not exactly one response", format!("{what}\n{got:?}"), h);
                }
                let r = rs[0];
                if r.id != id {
                    return fail("response with another id", format!("{what}\nrequest {id:?}, response {:?}", r.id), h);
                }
                if r.error.is_some() && r.result.is_some() {
                    return fail("both result and error", format!("{r:?}"), h);
                }
                let code = r.error.as_ref().map(|e| e.code as i64);
                let ok = match w {
                    Want::Ok => code.is_none(),
                    Want::Code(x) => code == Some(x),
                    Want::Err => code.is_some(),
                    Want::Any => true,
                };
                if w == Want::Ok {
                    good += 1;
                } else if w != Want::Any {
                    bad += 1;
                }
                if !ok {
                    return fail(format!("expected {w:?}, got code {code:?}"), format!("{what}\n{r:?}"), h);
                }
                if code.is_some() && got.len() > 1 {
                    return fail("failed request has other effects", format!("{got:?}"), h);
                }
            }
            _ => {
                if !rs.is_empty() {
                    return fail("response to no request", format!("{what}\n{got:?}"), h);
                }
            }
        }
    }
    match c.stop() {
        Ok(r) if r.error.is_none() && r.id == RequestId::from("vp-stop".to_string()) => (),
        Ok(r) => return fail("shutdown refused", format!("{r:?}"), hist.join("\n")),
        Err(d) => return d.fail("shutdown", &hist.join("\n")),
    }
    labels.sort();
    labels.dedup();
    let h = hist.join("\n").replace(dir.0.to_str().unwrap(), "");
    Ok(Info { nontrivial: good > 0 && bad > 0, key: fnv(h.as_bytes()), labels, sample: clip(&hist.iter().map(|h| h.lines().next().unwrap_or("").chars().take(120).collect::<String>()).collect::<Vec<_>>().join("; ")), evals })
}
/// Like `feature`, without the expected answer.
fn params(s: &mut Src, d: Option<&LDoc>, uri: &str, method: &str) -> (Value, ()) {
    let text = d.map(|d| d.text).unwrap_or("");
    let offs = offsets(s, text, 2);
    let (a, b) = (offs[0].min(offs[1]), offs[0].max(offs[1]));
    let pos = |o: usize| d.map(|d| d.pos(o)).unwrap_or(json!({"line": 0, "character": 0}));
    let mut p = json!({"textDocument": {"uri": uri}});
    match method {
        "textDocument/completion" | "textDocument/hover" | "textDocument/signatureHelp" => p["position"] = pos(a),
        _ => {
            p["range"] = json!({"start": pos(a), "end": pos(b)});
            if method == "textDocument/codeAction" {
                p["context"] = json!({"diagnostics": []});
            }
        }
    }
    (p, ())
}
fn num(s: &mut Src, len: usize) -> Value {
    match s.below(6) {
        0 => json!(s.pick(&[u64::MAX, 1 << 32, (1 << 32) + 5, u32::MAX as u64, 1 << 31])),
        1 => s.pick(&[json!(-1), json!("1"), json!(1.5), json!(null)]).clone(),
        _ => json!(s.below(len + 3)),
    }
}
fn command(s: &mut Src, uri: &str, text: Option<&str>, dir: &CaseDir) -> (String, Value, Want) {
    let exec = "workspace/executeCommand".to_string();
    let len = text.map(|t| t.len()).unwrap_or(5);
    match s.below(8) {
        0 => {
            let (name, ok) = *s.pick(&[("my_project", true), ("a-b", true), ("9x", false), ("", false), ("a b", false), ("_x", false)]);
            let root = dir.uri("new");
            let root = if s.bool() { format!("{root}/") } else { root };
            (exec, json!({"command": "createProject", "arguments": [{"name": name, "root": root}]}), if ok { Want::Ok } else { Want::Err })
        }
        1 => {
            let args = s
                .pick(&[json!([]), json!([{}]), json!([{"name": "x"}]), json!([{"root": "file:///tmp/x"}]), json!([{"name": 5, "root": "file:///tmp/x"}]), json!(["x"]), json!([{"name": "x", "root": "no uri"}]), json!([{"name": "x", "root": ""}])])
                .clone();
            (exec, json!({"command": "createProject", "arguments": args}), Want::Err)
        }
        2 => (exec, json!({"command": "migrateProject", "arguments": [{"uri": uri}]}), if text.is_none() || uri.ends_with(".txt") { Want::Err } else { Want::Any }),
        3 => {
            let (a, b) = (num(s, len), num(s, len));
            (exec, json!({"command": "extractEvent", "arguments": [{"uri": uri, "range": {"start": a, "end": b}}]}), if text.is_none() { Want::Err } else { Want::Any })
        }
        4 => {
            let c = *s.pick(&["migrateProject", "extractEvent"]);
            let args = s.pick(&[json!([]), json!([{}]), json!([{"uri": 5}]), json!([{"uri": "no uri"}]), json!(["x"])]).clone();
            (exec, json!({"command": c, "arguments": args}), Want::Err)
        }
        5 => {
            let c = *s.pick(&["", "unknown", "CreateProject", "migrateProject2"]);
            (exec, json!({"command": c, "arguments": []}), Want::Err)
        }
        6 => {
            let p = s.pick(&[Value::Null, json!({}), json!({"command": 5}), json!({"command": null, "arguments": []}), json!({"command": "createProject", "arguments": 5})]).clone();
            (exec, p, Want::Code(-32602))
        }
        _ => {
            let m = "codeAction/resolve".to_string();
            let mut p = json!({"title": "x", "kind": "refactor.rewrite"});
            let want = match s.below(5) {
                0 => Want::Err,
                1 => {
                    p["data"] = s.pick(&[json!(null), json!(5), json!({}), json!({"command": "unknown"}), json!({"command": 5}), json!({"command": "migrateProject"}), json!({"command": "extractEvent", "uri": "file:///x.rs"}), json!({"command": "migrateProject", "uri": "no uri"})]).clone();
                    Want::Err
                }
                2 => {
                    p["data"] = json!({"command": "migrateProject", "uri": uri});
                    if text.is_none() { Want::Err } else { Want::Any }
                }
                3 => {
                    let (a, b) = (num(s, len), num(s, len));
                    p["data"] = json!({"command": "extractEvent", "uri": uri, "range": {"start": a, "end": b}});
                    if text.is_none() { Want::Err } else { Want::Any }
                }
                _ => {
                    malform(s, &mut p, &[&["title"]]);
                    Want::Code(-32602)
                }
            };
            (m, p, want)
        }
    }
}
