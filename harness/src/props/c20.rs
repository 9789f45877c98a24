//! C20: the ink! version used for a document is the one its project declares.
use super::util::*;
use crate::core::*;
use crate::lsp::*;
use lsp_server::Message;
use serde_json::json;

pub static PROP: Prop = Prop {
    id: "C20",
    rule: "a case is a project layout on disk (manifest location, dependency form, requirement, workspace inheritance, manifest changes between sessions of the document) driven through the real message loop; the version used is read off the published diagnostics of documents whose diagnostics differ between versions; non-trivial: the manifest declares an ink! dependency with a version requirement",
    quick: 12000,
    thorough: 200000,
    run,
    fixed: Some((fixed_n, fixed)),
    shrink_evals: 600,
    assumptions: &["requirements that admit several major versions (`*`, `>=4`) and path or git dependencies without a version are out of scope"],
    threads: 8,
};
fn requirement(s: &mut Src, v5: bool) -> String {
    let tail = |s: &mut Src| -> String {
        match s.below(8) {
            0 => "".into(),
            1 => ".0".into(),
            2 => format!(".{}", s.below(16)),
            3 => ".0.0-rc".into(),
            4 => format!(".0.0-beta.{}", s.below(7)),
            5 => ".*".into(),
            6 => format!(".{}.{}+5.0", s.below(7), s.below(7)),
            _ => format!(".{}.{}", s.below(7), s.below(16)),
        }
    };
    if v5 {
        let t = tail(s);
        match s.below(6) {
            0 | 1 => format!("5{t}"),
            2 => format!(">=5{}, <6", if t.contains('*') { "" } else { &t }),
            3 => format!("{}5{t}", s.pick(&["^", "=", "~"])),
            4 => format!("{} 5{}", s.pick(&[">=", "^", "=", "~", " "]), if t.contains('*') { ".0" } else { &t }),
            _ => format!(" 5{t} "),
        }
    } else {
        let t = tail(s);
        let m = *s.pick(&["4", "4", "4", "4", "3", "0", "2"]);
        match s.below(6) {
            0 | 1 => format!("{m}{t}"),
            2 => format!(">={m}{}, <5{}", if t.contains('*') { "" } else { &t }, s.pick(&["", ".0", ".0.0", ".0.0-rc"])),
            3 => format!("{}{m}{t}", s.pick(&["^", "=", "~"])),
            4 => format!("{}{m}.5.{}", s.pick(&["^", "=", "~", ""]), s.below(6)),
            _ => format!("<5{}", s.pick(&["", ".0", ".0.0"])),
        }
    }
}
fn quote(s: &mut Src, v: &str) -> String {
    if s.chance(1, 4) {
        format!("'{v}'")
    } else {
        format!("\"{v}\"")
    }
}
fn noise(s: &mut Src) -> String {
    (0..s.below(3))
        .map(|_| s.pick(&["scale = { package = \"parity-scale-codec\", version = \"3\" }\n", "ink_e2e = \"5.0.0\"\n", "ink_env = \"4.0.0\"\n", "# ink = \"5.0.0\"\n", "# ink = \"4.0.0\"\n", "inkx = \"5.0\"\n", "serde = '1.5.0'\n"]).to_string())
        .collect::<std::collections::BTreeSet<String>>()
        .into_iter()
        .collect()
}
/// The `[dependencies]` section (or another table) with ink! declared somehow.
fn deps(s: &mut Src, table: &str, v5: bool) -> (String, String) {
    let req = requirement(s, v5);
    let q = quote(s, &req);
    let (n1, n2) = (noise(s), s.pick(&["", "[features]\nstd = [\"ink/std\"]\n", "[lib]\npath = \"lib.rs\"\n", "[dev-dependencies]\nink_e2e = \"5.0.0\"\n"]).to_string());
    let n2 = if table == "dependencies" { n2 } else { String::new() };
    let t = match s.below(6) {
        0 => format!("[{table}]\n{n1}ink = {q}\n{n2}"),
        1 => format!("[{table}]\nink = {{ version = {q}, default-features = false }}\n{n1}{n2}"),
        2 => format!("[{table}]\n{n1}[{table}.ink]\nversion = {q}\nfeatures = [\"std\"]\n{n2}"),
        3 => format!("[{table}]\n{n1}ink.version = {q}\nink.default-features = false\n{n2}"),
        4 => format!("[{table}]\n\"ink\" = {{ default-features = false, version = {q} }}\n{n1}{n2}"),
        _ => format!("[{table}]\nink={q} # 5.0.0 or 4.0.0\n{n1}{n2}"),
    };
    (t, req)
}
const PKG: &str = "[package]\nname = \"p\"\nversion = \"5.0.0\"\nedition = \"2021\"\n\n";
/// Writes the manifests of a project; the version expected and a description.
fn project(s: &mut Src, d: &CaseDir) -> (bool, String, String) {
    let v5 = s.bool();
    let root = d.0.to_str().unwrap().to_string();
    let mut files: Vec<(String, String)> = vec![];
    let mut want = v5;
    let label;
    match s.below(10) {
        0 => {
            label = "no dependency";
            want = false;
            let t = s.pick(&["[package]\nname = \"p\"\nversion = \"5.0.0\"\n", "", "[dependencies]\nserde = \"5.0\"\n", "[workspace]\nmembers = []\n", "not toml [", "[dependencies]\nink_e2e = \"5.0.0\"\n", "[dependencies]\nink = 5\n"]).to_string();
            files.push(("a/p/Cargo.toml".into(), t));
        }
        1 => {
            label = "no manifest";
            want = false;
        }
        2 | 3 => {
            label = "inherited from the workspace root above";
            let (t, _) = deps(s, "workspace.dependencies", v5);
            let at = s.pick(&["a/Cargo.toml", "Cargo.toml"]).to_string();
            files.push((at, format!("[workspace]\nmembers = [\"a/p\"]\n\n{t}")));
            let inh = s.pick(&["ink = { workspace = true }", "ink.workspace = true", "[dependencies.ink]\nworkspace = true", "ink = { workspace = true, default-features = false }"]).to_string();
            files.push(("a/p/Cargo.toml".into(), format!("{PKG}[dependencies]\n{inh}\n")));
        }
        4 => {
            label = "inherited from the own workspace root";
            let (t, _) = deps(s, "workspace.dependencies", v5);
            files.push(("a/p/Cargo.toml".into(), format!("{PKG}[workspace]\nmembers = []\n\n[dependencies]\nink = {{ workspace = true }}\n\n{t}")));
            if s.bool() {
                // An unrelated manifest above.
                let (t, _) = deps(s, "workspace.dependencies", !v5);
                files.push(("a/Cargo.toml".into(), format!("[workspace]\nmembers = []\n\n{t}")));
            }
        }
        5 => {
            label = "nearest manifest wins";
            let (t, _) = deps(s, "dependencies", v5);
            files.push(("a/p/Cargo.toml".into(), format!("{PKG}{t}")));
            let (t, _) = deps(s, "dependencies", !v5);
            files.push((s.pick(&["a/Cargo.toml", "Cargo.toml"]).to_string(), format!("{PKG}{t}")));
        }
        _ => {
            label = "own dependency";
            let (t, _) = deps(s, "dependencies", v5);
            files.push(("a/p/Cargo.toml".into(), format!("{PKG}{t}")));
        }
    }
    for p in ["Cargo.toml", "a/Cargo.toml", "a/p/Cargo.toml"] {
        std::fs::remove_file(d.0.join(p)).ok();
    }
    let mut show = String::new();
    for (p, t) in &files {
        d.write(p, t);
        show.push_str(&format!("--- {p}\n{t}\n"));
    }
    let _ = root;
    (want, label.to_string(), show)
}
const DOCS: &[&str] = &[
    "#[ink::event]\npub struct E { a: u8 }\n",
    "#[ink::scale_derive(Encode, Decode)]\npub struct E { a: u8 }\n",
    "#[ink::chain_extension(extension = 1)]\npub trait T { type ErrorCode = E; #[ink(function = 1)] fn f(); }\n",
    "#[ink::chain_extension]\npub trait T { type ErrorCode = E; #[ink(extension = 1)] fn f(); }\n",
    "#[ink::event(anonymous)]\npub struct E { #[ink(topic)] a: u8 }\n",
];
/// Opens/changes the document and determines the version used.
fn used(ms: &[Message], uri: &str, text: &str, version: i32) -> Option<(bool, bool)> {
    let [Message::Notification(n)] = ms else { return None };
    let caps = Caps::default();
    let enc = lsp_types::PositionEncodingKind::UTF16;
    let f = |v5: bool| json!({"uri": uri, "version": version, "diagnostics": LDoc { uri, text, v5, caps: &caps, enc: &enc }.diagnostics()});
    Some((n.params == f(false), n.params == f(true)))
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let dir = CaseDir::new();
    let sub = *s.pick(&["lib.rs", "src/lib.rs", "src/a/b/c.rs", "src/a/b/c/d/e/f/g.rs", "é x/lib.rs"]);
    let uri = dir.uri(&format!("a/p/{sub}"));
    let mut c = match Client::start(&json!({})) {
        Ok(c) => c,
        Err(d) => return d.fail("initialize", ""),
    };
    let mut hist = format!("document a/p/{sub}\n");
    let mut labels = vec![];
    let mut nontrivial = false;
    let mut evals = 0;
    let mut version = 0;
    for session in 0..s.range(1, 3) {
        let (want, label, show) = project(s, &dir);
        nontrivial |= !label.starts_with("no ");
        hist.push_str(&format!("{show}=> ink! {}\n", if want { 5 } else { 4 }));
        labels.push(label.clone());
        labels.push(format!("v{}", if want { 5 } else { 4 }));
        for k in 0..s.range(1, 2) {
            version += 1;
            let text = *s.pick(DOCS);
            let r = if k == 0 {
                c.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "rust", "version": version, "text": text}}))
            } else {
                c.notify("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": text}]}))
            };
            hist.push_str(if k == 0 { "open\n" } else { "change\n" });
            let ms = match r {
                Ok(m) => m,
                Err(d) => return d.fail("notification", &hist),
            };
            evals += 1;
            match used(&ms, &uri, text, version) {
                Some((true, true)) => return fail("harness: ambiguous document", text, hist),
                Some((v4, v5)) if v4 != v5 => {
                    if v5 != want {
                        return fail(format!("wrong version: {label}"), format!("session {session}: analysed as ink! {}, declared ink! {}", if v5 { 5 } else { 4 }, if want { 5 } else { 4 }), hist);
                    }
                }
                _ => return fail("unexpected publication", format!("{ms:?}"), hist),
            }
        }
        if let Err(d) = c.notify("textDocument/didClose", json!({"textDocument": {"uri": uri}})) {
            return d.fail("close", &hist);
        }
    }
    if let Err(d) = c.stop() {
        return d.fail("shutdown", &hist);
    }
    labels.sort();
    labels.dedup();
    Ok(Info { nontrivial, key: fnv(hist.as_bytes()), labels, sample: clip(&hist), evals })
}
fn fixed_n() -> usize {
    4
}
/// After a migration (and with the migrated manifest in place), the open document is analysed as ink! 5.
fn fixed(i: usize) -> Result<Info, Fail> {
    let dir = CaseDir::new();
    let man = "[package]\nname = \"p\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nink = { version = \"4.3.0\", default-features = false }\n";
    dir.write("Cargo.toml", man);
    let uri = dir.uri("lib.rs");
    let text = "#[ink::contract]\nmod flipper {\n    #[ink(storage)]\n    pub struct Flipper {}\n    impl Flipper {\n        #[ink(constructor)]\n        pub fn new() -> Self {}\n        #[ink(message)]\n        pub fn get(&self) {}\n    }\n}\n";
    let mut c = match Client::start(&json!({})) {
        Ok(c) => c,
        Err(d) => return d.fail("initialize", text),
    };
    let mut step = |m: Message| c.exchange(m);
    let n = |m: &str, p: serde_json::Value| Message::from(lsp_server::Notification { method: m.into(), params: p });
    let open = step(n("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "rust", "version": 1, "text": text}})));
    if let Err(d) = open {
        return d.fail("open", text);
    }
    let (m, p) = if i % 2 == 0 {
        ("workspace/executeCommand", json!({"command": "migrateProject", "arguments": [{"uri": uri}]}))
    } else {
        ("codeAction/resolve", json!({"title": "x", "data": {"command": "migrateProject", "uri": uri}}))
    };
    match step(lsp_server::Request { id: 1.into(), method: m.into(), params: p }.into()) {
        Ok(ms) if ms.iter().any(|m| matches!(m, Message::Response(r) if r.error.is_none())) => (),
        Ok(ms) => return fail("migration refused", format!("{ms:?}"), text),
        Err(d) => return d.fail("migrate", text),
    }
    // The client applies the edits (the manifest is written by it) and reports the change of the document.
    // The change of the document can be reported before the manifest is written.
    let early = i >= 2;
    if !early {
        dir.write("Cargo.toml", &man.replace("4.3.0", "5.0.0"));
    }
    for (k, t) in DOCS.iter().take(2).enumerate() {
        let v = 2 + k as i32;
        if early && k == 0 {
            if let Err(d) = step(n("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": [{"text": t}]}))) {
                return d.fail("change", t);
            }
            dir.write("Cargo.toml", &man.replace("4.3.0", "5.0.0"));
            continue;
        }
        match step(n("textDocument/didChange", json!({"textDocument": {"uri": uri, "version": v}, "contentChanges": [{"text": t}]}))) {
            Ok(ms) => match used(&ms, &uri, t, v) {
                Some((false, true)) => (),
                x => return fail("not ink! 5 after migration", format!("{x:?} {ms:?}"), *t),
            },
            Err(d) => return d.fail("change", t),
        }
    }
    Ok(Info { nontrivial: true, key: i as u64, labels: vec!["after migration".into()], sample: format!("{m} then change{}", if early { " before the manifest is written" } else { "" }), evals: 2 })
}
