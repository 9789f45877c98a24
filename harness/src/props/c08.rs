//! C08: the server always answers from the latest document contents.
use super::util::*;
use crate::core::*;
use crate::fuzz::*;
use crate::gen::*;
use crate::inject;
use crate::lsp::*;
use crate::model::*;
use lsp_server::Message;
use serde_json::{json, Value};
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "C08",
    rule: "a case is a history of open/change/close/re-open notifications and feature requests on several documents of several projects, run against the real message loop; each publication and response is compared with a fresh analysis of the model's current contents; non-trivial: at least two documents were open, and one was changed after opening",
    quick: 1600,
    thorough: 30000,
    run,
    fixed: None,
    shrink_evals: 400,
    assumptions: &["clients open a document once before closing it, and send full contents (the sync kind the server advertises)"],
    threads: 8,
};
/// A small document, valid or not.
pub fn small_doc(s: &mut Src) -> String {
    match s.below(8) {
        0 => fuzz_text(s, true).0,
        1 => String::new(),
        2 => "#[ink::contract]\nmod flipper {\n    #[ink(storage)]\n    pub struct Flipper { /* 😀é */ }\n}\n".into(),
        k => {
            let v5 = s.bool();
            let mut g = G::new(s, v5, Opts::default());
            g.file();
            if k > 3 {
                inject::inject(&mut g, &inject::table());
            }
            let f = g.f.clone();
            let st = Style::random(s);
            render(&f, s, &st).text
        }
    }
}
pub const METHODS: &[&str] = &["textDocument/completion", "textDocument/hover", "textDocument/codeAction", "textDocument/inlayHint", "textDocument/signatureHelp"];

/// Normal form of a response, so that equivalent forms compare equal.
pub fn normal(method: &str, v: Value) -> Value {
    fn strip(v: Value) -> Value {
        match v {
            Value::Object(m) => Value::Object(m.into_iter().filter(|(_, v)| !v.is_null()).map(|(k, v)| (k, strip(v))).collect()),
            Value::Array(a) => Value::Array(a.into_iter().map(strip).collect()),
            v => v,
        }
    }
    let mut v = strip(v);
    match method {
        "textDocument/completion" => {
            if v.is_object() {
                v = v["items"].take();
            }
            for i in v.as_array_mut().into_iter().flatten() {
                if i.get("insertTextFormat").is_none() {
                    i["insertTextFormat"] = json!(1);
                }
            }
            if v.as_array().is_some_and(|a| a.is_empty()) {
                v = Value::Null;
            }
        }
        "textDocument/hover" => {
            if let Some(t) = v["contents"].get("value").cloned() {
                v["contents"] = t;
            }
        }
        _ => (),
    }
    v
}
/// Parameters of a feature request at a place of a document, and what the answer must be.
pub fn feature(s: &mut Src, d: Option<&LDoc>, uri: &str, method: &str) -> (Value, Value) {
    let text = d.map(|d| d.text).unwrap_or("");
    let offs = offsets(s, text, 2);
    let (a, b) = (offs[0].min(offs[1]), offs[0].max(offs[1]));
    let pos = |o: usize| d.map(|d| d.pos(o)).unwrap_or(json!({"line": 0, "character": 0}));
    let mut p = json!({"textDocument": {"uri": uri}});
    match method {
        "textDocument/completion" | "textDocument/hover" | "textDocument/signatureHelp" => p["position"] = pos(a),
        _ => {
            let b = if s.bool() { a } else { b };
            p["range"] = json!({"start": pos(a), "end": pos(b)});
            if method == "textDocument/codeAction" {
                p["context"] = json!({"diagnostics": []});
                let w = d.map(|d| d.actions((a, b))).unwrap_or(Value::Null);
                return (p, w);
            }
            let w = d.map(|d| d.inlay_hints((a, b))).unwrap_or(Value::Null);
            return (p, w);
        }
    }
    let w = match (d, method) {
        (None, _) => Value::Null,
        (Some(d), "textDocument/completion") => d.completions(a),
        (Some(d), "textDocument/hover") => d.hover(a),
        (Some(d), _) => d.signature_help(a),
    };
    (p, w)
}
pub fn manifest(v: &str) -> String {
    format!("[package]\nname = \"p\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nink = {{ version = \"{v}\", default-features = false }}\n")
}

fn run(s: &mut Src) -> Result<Info, Fail> {
    let caps = Caps::random(s);
    let dir = CaseDir::new();
    dir.write("four/Cargo.toml", &manifest("4.3.0"));
    dir.write("five/Cargo.toml", &manifest("5.0.0"));
    // (uri, analysed as ink! 5)
    let slots: Vec<(String, bool)> = vec![
        (dir.uri("four/lib.rs"), false),
        (dir.uri("five/lib.rs"), true),
        (dir.uri("five/src/a b/é.rs"), true),
        (dir.uri("four/src/lib.rs"), false),
        ("untitled:Untitled-1".into(), false),
    ];
    let mut c = match Client::start(&caps.json()) {
        Ok(c) => c,
        Err(d) => return d.fail("initialize", ""),
    };
    let enc = c.encoding.clone();
    let mut docs: BTreeMap<usize, (String, i32)> = BTreeMap::new();
    let mut hist: Vec<String> = vec![];
    let mut labels: Vec<String> = vec![];
    let mut evals = 0;
    let (mut multi, mut changed) = (false, false);
    let n = s.range(2, 9);
    let mut pool: Vec<String> = vec![];
    for k in 0..n {
        let i = if k == 0 { s.below(2) } else { s.below(slots.len()) };
        let (uri, v5) = slots[i].clone();
        let mut expect_pub = None;
        let (what, got);
        let op = match docs.get(&i) {
            None => s.weighted(&[5, 1, 1, 1]),
            Some(_) => 4 + s.weighted(&[5, 2, 5]),
        };
        labels.push(["open", "open other language", "change closed", "request closed", "change", "close", "request"][op].into());
        match op {
            0 | 1 | 2 | 4 => {
                let text = if !pool.is_empty() && s.chance(1, 3) { s.pick(&pool).clone() } else { small_doc(s) };
                pool.push(text.clone());
                let version = k as i32 * 3 + s.below(3) as i32;
                match op {
                    0 | 1 => {
                        let lang = if op == 0 { "rust" } else { *s.pick(&["toml", "Rust", "rust-ink", ""]) };
                        what = format!("open {uri} ({lang}, version {version})\n{text}");
                        if op == 0 {
                            docs.insert(i, (text.clone(), version));
                            expect_pub = Some(true);
                        }
                        got = c.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": lang, "version": version, "text": text}}));
                    }
                    _ => {
                        let mut cs = vec![];
                        for _ in 0..s.below(3) {
                            cs.push(json!({"text": small_doc(s)}));
                        }
                        cs.push(json!({ "text": text }));
                        what = format!("change {uri} (version {version}, {} contents)\n{text}", cs.len());
                        if op == 4 {
                            docs.insert(i, (text.clone(), version));
                            expect_pub = Some(true);
                            changed = true;
                        }
                        got = c.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": cs}));
                    }
                }
            }
            5 => {
                what = format!("close {uri}");
                docs.remove(&i);
                expect_pub = Some(false);
                got = c.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}}));
            }
            _ => {
                let m = *s.pick(METHODS);
                let d = docs.get(&i).map(|(text, _)| LDoc { uri: &uri, text, v5, caps: &caps, enc: &enc });
                let (p, want) = feature(s, d.as_ref(), &uri, m);
                what = format!("{m} {p}");
                hist.push(what.clone());
                let r = match c.call(k as i32, m, p) {
                    Ok(r) => r,
                    Err(d) => return d.fail(&what, &hist.join("\n")),
                };
                evals += 1;
                let Ok(r) = r else { return fail(format!("{m}: not one response"), format!("{:?}", r.err()), hist.join("\n")) };
                if let Some(e) = &r.error {
                    return fail(format!("{m}: error"), format!("{e:?}"), hist.join("\n"));
                }
                let (have, want) = (normal(m, r.result.unwrap_or(Value::Null)), normal(m, want));
                if have != want {
                    return fail(format!("{m}: wrong answer"), format!("answer: {have}\nexpected: {want}\ncapabilities: {caps:?}"), hist.join("\n"));
                }
                labels.push(format!("{m}{}", if have.is_null() || have == json!([]) { " (empty)" } else { "" }));
                continue;
            }
        }
        multi |= docs.len() > 1;
        hist.push(what.clone());
        let got = match got {
            Ok(g) => g,
            Err(d) => return d.fail(&what, &hist.join("\n")),
        };
        evals += 1;
        let h = hist.join("\n");
        match (expect_pub, got.as_slice()) {
            (None, []) => (),
            (None, _) => return fail("unexpected message", format!("{got:?}"), h),
            (Some(open), [Message::Notification(p)]) if p.method == "textDocument/publishDiagnostics" => {
                let want = match docs.get(&i) {
                    Some((text, v)) if open => json!({"uri": uri, "version": v, "diagnostics": LDoc { uri: &uri, text, v5, caps: &caps, enc: &enc }.diagnostics()}),
                    _ => json!({"uri": uri, "diagnostics": []}),
                };
                let have = normal("", p.params.clone());
                if have != want {
                    return fail("wrong diagnostics published", format!("published: {have}\nexpected: {want}"), h);
                }
            }
            (Some(_), ms) => return fail("not one publication", format!("{ms:?}"), h),
        }
    }
    match c.stop() {
        Ok(r) if r.error.is_none() => (),
        Ok(r) => return fail("shutdown refused", format!("{r:?}"), hist.join("\n")),
        Err(d) => return d.fail("shutdown", &hist.join("\n")),
    }
    labels.push(enc.as_str().to_string());
    labels.sort();
    labels.dedup();
    Ok(Info { nontrivial: multi && changed, key: fnv(hist.join("\n").replace(dir.0.to_str().unwrap(), "").as_bytes()), labels, sample: clip(&hist.iter().map(|h| h.lines().next().unwrap_or("").rsplit("case").next().unwrap_or("").to_string()).collect::<Vec<_>>().join("; ")), evals })
}
