//! C22: capability negotiation fits the client.
use super::c08::*;
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::lsp::*;
use crate::model::*;
use lsp_server::{Message, RequestId};
use serde_json::{json, Value};

pub static PROP: Prop = Prop {
    id: "C22",
    rule: "a case is a set of client capabilities, the initialize handshake, and requests for every advertised feature on a generated document with non-ASCII text, whose answers are compared with the model for these capabilities; non-trivial: the client declares at least one capability",
    quick: 1500,
    thorough: 40000,
    run,
    fixed: None,
    shrink_evals: 400,
    assumptions: &["capability sets are drawn from the ones the server distinguishes"],
    threads: 8,
};
fn run(s: &mut Src) -> Result<Info, Fail> {
    let caps = Caps::random(s);
    let cj = caps.json();
    let v5 = s.bool();
    let dir = CaseDir::new();
    dir.write("Cargo.toml", &manifest(if v5 { "5.0.0" } else { "4.3.0" }));
    let uri = dir.uri("lib.rs");
    let mut g = G::new(s, v5, Opts::default());
    g.file();
    let f = g.f.clone();
    let st = Style::random(s);
    let doc = render(&f, s, &st);
    // Wide characters in front of everything, so that encodings differ.
    let pre = *s.pick(&["/* 😀é */ ", "", "/* 😀 */", "// é\n"]);
    let text = format!("{pre}{}", doc.text);
    let input = format!("capabilities {cj}\n{text}");
    let mut c = match Client::start(&cj) {
        Ok(c) => c,
        Err(d) => return d.fail("initialize", &input),
    };
    let sc = c.init["capabilities"].clone();
    let enc = c.encoding.clone();
    let offered = caps.encodings.clone().unwrap_or_default();
    if !offered.iter().any(|e| e == enc.as_str()) && enc.as_str() != "utf-16" {
        return fail("position encoding not offered", format!("offered {offered:?}, chosen {enc:?}"), input);
    }
    if let (Some(k), Some(v)) = (sc["codeActionProvider"].get("codeActionKinds").and_then(|k| k.as_array()), &caps.kinds) {
        if let Some(k) = k.iter().find(|k| !v.iter().any(|x| Some(x.as_str()) == k.as_str())) {
            return fail("code action kind not declared", format!("{k} not in {v:?}"), input);
        }
    } else if sc["codeActionProvider"].get("codeActionKinds").is_some_and(|k| !k.is_null()) {
        return fail("code action kinds for a client without literals", format!("{}", sc["codeActionProvider"]), input);
    }
    let sync = &sc["textDocumentSync"];
    if sync != &json!(1) && !(sync["openClose"] == json!(true) && sync["change"] == json!(1)) {
        return fail("document sync is not full", format!("{sync}"), input);
    }
    let caps_ref = &caps;
    let d = LDoc { uri: &uri, text: &text, v5, caps: caps_ref, enc: &enc };
    // The publication uses the negotiated encoding.
    match c.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "rust", "version": 1, "text": text}})) {
        Ok(ms) => match ms.as_slice() {
            [Message::Notification(n)] if normal("", n.params.clone()) == json!({"uri": uri, "version": 1, "diagnostics": d.diagnostics()}) => (),
            ms => return fail("publication", format!("{ms:?}"), input),
        },
        Err(x) => return x.fail("open", &input),
    }
    // Every advertised feature is served, in the form declared.
    let adv = [
        ("completionProvider", "textDocument/completion"),
        ("hoverProvider", "textDocument/hover"),
        ("codeActionProvider", "textDocument/codeAction"),
        ("inlayHintProvider", "textDocument/inlayHint"),
        ("signatureHelpProvider", "textDocument/signatureHelp"),
    ];
    let mut evals = 2;
    let mut labels = vec![format!("encoding:{}", enc.as_str())];
    let mut id = 0;
    let mut triggers: Vec<Value> = vec![];
    // Places where actions, completions and signatures are to be expected.
    let mut hot: Vec<usize> = vec![];
    f.walk(|i, _| {
        if i.role != Role::Plain {
            hot.extend(doc.sp(i.id, Sp::Name).map(|x| x.0 + pre.len()));
            for a in &i.attrs {
                hot.extend(a.args.iter().filter_map(|x| doc.sp(x.id, Sp::ArgName)).map(|x| x.0 + pre.len()));
            }
        }
    });
    for (k, m) in adv {
        if sc[k].is_null() || sc[k] == json!(false) {
            continue;
        }
        for _ in 0..2 {
            let (p, want) = if !hot.is_empty() && s.chance(3, 4) {
                let o = *s.pick(&hot);
                let o2 = if m == "textDocument/inlayHint" { text.len() } else { o };
                let mut p = json!({"textDocument": {"uri": uri}});
                let w = match m {
                    "textDocument/completion" => d.completions(o),
                    "textDocument/hover" => d.hover(o),
                    "textDocument/signatureHelp" => d.signature_help(o),
                    "textDocument/codeAction" => d.actions((o, o2)),
                    _ => d.inlay_hints((o, o2)),
                };
                if m.ends_with("codeAction") || m.ends_with("inlayHint") {
                    p["range"] = d.range((o, o2));
                    p["context"] = json!({"diagnostics": []});
                } else {
                    p["position"] = d.pos(o);
                }
                (p, w)
            } else {
                feature(s, Some(&d), &uri, m)
            };
            id += 1;
            evals += 1;
            let r = match c.call(id, m, p.clone()) {
                Ok(Ok(r)) => r,
                Ok(Err(ms)) => return fail(format!("{m}: not one response"), format!("{ms:?}"), input),
                Err(x) => return x.fail(m, &input),
            };
            if let Some(e) = r.error {
                return fail(format!("{m} advertised, but fails"), format!("{p} {e:?}"), input);
            }
            let (have, want) = (normal(m, r.result.unwrap_or(Value::Null)), normal(m, want));
            if have != want {
                return fail(format!("{m}: wrong answer"), format!("{p}\nanswer: {have}\nexpected: {want}"), input);
            }
            labels.push(format!("{m}{}", if have.is_null() || have == json!([]) { " (empty)" } else { "" }));
            if m == "textDocument/codeAction" {
                triggers.extend(have.as_array().into_iter().flatten().filter(|a| a.get("command").is_some() || a["data"].get("command").is_some()).cloned());
            }
        }
    }
    // Lazily computed actions work in the form in which they were sent.
    for t in triggers.into_iter().take(2) {
        id += 1;
        evals += 1;
        let title = t["title"].as_str().unwrap_or("").to_string();
        if t.get("command").is_some() {
            let ms = match c.request(RequestId::from(id), "workspace/executeCommand", json!({"command": t["command"]["command"], "arguments": t["command"]["arguments"]})) {
                Ok(m) => m,
                Err(x) => return x.fail(&title, &input),
            };
            let Some(Message::Response(r)) = ms.iter().find(|m| matches!(m, Message::Response(_))) else { return fail("no response", title, input) };
            if let Some(e) = &r.error {
                return fail("command of an action fails", format!("{t}\n{e:?}"), input);
            }
            let req = ms.iter().find_map(|m| if let Message::Request(r) = m { Some(r) } else { None });
            labels.push("command form".into());
            if t["command"]["command"] == json!("migrateProject") {
                let Some(q) = req.filter(|q| q.method == "workspace/applyEdit") else { return fail("migration without edit request", format!("{ms:?}"), input) };
                let have = normal("", q.params["edit"]["changes"][&uri].clone());
                if have != d.migrate_edits() {
                    return fail("migration edits", format!("{have}\nexpected {}", d.migrate_edits()), input);
                }
            } else if caps.create != req.is_some() {
                return fail("extraction edit form", format!("resource creation declared: {}, edit request: {}", caps.create, req.is_some()), input);
            }
        } else {
            if sc["codeActionProvider"].get("codeActionKinds").is_some() && sc["codeActionProvider"]["resolveProvider"] != json!(true) {
                return fail("action needs resolving, but the server does not advertise it", format!("{t}"), input);
            }
            let r = match c.call(id, "codeAction/resolve", t.clone()) {
                Ok(Ok(r)) => r,
                Ok(Err(ms)) => return fail("resolve: not one response", format!("{ms:?}"), input),
                Err(x) => return x.fail(&title, &input),
            };
            let Some(v) = r.result.filter(|v| v.get("edit").is_some_and(|e| !e.is_null())) else { return fail("resolving gives no edit", format!("{t}\n{:?}", r.error), input) };
            labels.push("resolve form".into());
            if t["data"]["command"] == json!("migrateProject") {
                let have = normal("", v["edit"]["changes"][&uri].clone());
                if have != d.migrate_edits() {
                    return fail("migration edits", format!("{have}\nexpected {}", d.migrate_edits()), input);
                }
            }
        }
    }
    // Project creation, in the form declared.
    if sc["executeCommandProvider"]["commands"].as_array().is_some_and(|c| c.contains(&json!("createProject"))) {
        id += 1;
        evals += 1;
        let root = format!("{}/", dir.uri("new"));
        let ms = match c.request(RequestId::from(id), "workspace/executeCommand", json!({"command": "createProject", "arguments": [{"name": "foo", "root": root}]})) {
            Ok(m) => m,
            Err(x) => return x.fail("createProject", &input),
        };
        let resp = ms.iter().find_map(|m| if let Message::Response(r) = m { Some(r) } else { None });
        let req = ms.iter().find_map(|m| if let Message::Request(r) = m { Some(r) } else { None });
        let Some(resp) = resp.filter(|r| r.error.is_none()) else { return fail("createProject fails", format!("{ms:?}"), input) };
        let p = ink_analyzer::new_project("foo".into(), ink_analyzer::Version::V5).map_err(|_| Fail { sig: "new_project".into(), msg: "rejected".into(), input: input.clone() })?;
        let want = [(format!("{root}Cargo.toml"), p.cargo.plain.clone()), (format!("{root}lib.rs"), p.lib.plain.clone())];
        let mut have: Vec<(String, String)> = vec![];
        if caps.create {
            let Some(q) = req.filter(|q| q.method == "workspace/applyEdit") else { return fail("no edit request for a client that can create files", format!("{ms:?}"), input) };
            let mut created: Vec<String> = vec![];
            for op in q.params["edit"]["documentChanges"].as_array().into_iter().flatten() {
                if op["kind"] == json!("create") {
                    created.push(op["uri"].as_str().unwrap_or("").into());
                } else {
                    let u = op["textDocument"]["uri"].as_str().unwrap_or("").to_string();
                    if !created.contains(&u) {
                        return fail("file edited before it is created", format!("{q:?}"), input);
                    }
                    have.push((u, op["edits"][0]["newText"].as_str().unwrap_or("").into()));
                }
            }
            // The editor then shows the new contract.
            match c.exchange(lsp_server::Response { id: q.id.clone(), result: Some(json!({"applied": true})), error: None }.into()) {
                Ok(ms) => match ms.as_slice() {
                    [Message::Request(r)] if r.method == "window/showDocument" && r.params["uri"] == json!(format!("{root}lib.rs")) => (),
                    ms => return fail("created project not shown", format!("{ms:?}"), input),
                },
                Err(x) => return x.fail("applied", &input),
            }
        } else {
            if req.is_some() {
                return fail("edit request for a client that cannot create files", format!("{ms:?}"), input);
            }
            for (u, t) in resp.result.as_ref().and_then(|r| r["files"].as_object()).into_iter().flatten() {
                have.push((u.clone(), t.as_str().unwrap_or("").into()));
            }
        }
        have.sort();
        if have != want {
            return fail("created files", format!("{have:?}"), input);
        }
    }
    if let Err(x) = c.stop() {
        return x.fail("shutdown", &input);
    }
    labels.sort();
    labels.dedup();
    let nontrivial = caps.encodings.is_some() || caps.snippets || caps.resolve || caps.create || caps.label_offsets || caps.active_parameter;
    Ok(Info { nontrivial, key: fnv(input.as_bytes()), labels, sample: clip(&cj.to_string()), evals })
}
