//! C13: project migration updates the manifest's ink! dependencies and nothing else.
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::lsp::*;
use crate::model::*;
use lsp_server::Message;
use serde_json::{json, Value};

pub static PROP: Prop = Prop {
    id: "C13",
    rule: "a case is a generated manifest of an ink! 4 project (all forms of dependency declarations, comments, features, unrelated sections, line endings) with a generated ink! 4 document, migrated through the language server's command under random client capabilities; non-trivial: the manifest has, besides `ink`, at least one entry to migrate or an unrelated dependency",
    quick: 4000,
    thorough: 150000,
    run,
    fixed: Some((|| 1, fixed)),
    shrink_evals: 1200,
    assumptions: &[
        "comments directly above or behind a removed entry may be removed with it",
        "only the `ink`, `scale` and `scale-info` dependencies and the `ink_e2e` dev-dependency are migrated (not target-specific, renamed or workspace-level ones)",
    ],
    threads: 4,
};
/// A line (or lines of one entry) of the manifest; whether it has to stay as it is.
#[derive(Clone)]
struct Line(String, bool);
struct Manifest {
    secs: Vec<Vec<Line>>,
    n: usize,
}
impl Manifest {
    fn comment(&mut self, s: &mut Src) -> String {
        self.n += 1;
        format!("# {} {}", s.pick(&["note", "é🦀", "ink = \"4\"", "[dependencies]", "TODO:"]), self.n)
    }
    /// Lines before an entry.
    fn lead(&mut self, s: &mut Src, out: &mut Vec<Line>, keep: bool) {
        if s.chance(1, 5) {
            out.push(Line(String::new(), false));
        }
        if s.chance(1, 5) {
            let c = self.comment(s);
            out.push(Line(c, keep));
        }
    }
    fn trail(&mut self, s: &mut Src) -> String {
        if s.chance(1, 5) {
            format!("{}{}", s.pick(&[" ", "", "\t", "   "]), self.comment(s))
        } else {
            String::new()
        }
    }
}
/// A dependency in one of its forms: lines in the section and sections of its own.
fn dep(s: &mut Src, m: &mut Manifest, table: &str, name: &str, kvs: &[(&str, String)], keep: bool, removed: bool, out: &mut Vec<Line>, own: &mut Vec<Vec<Line>>) {
    let version = kvs.iter().find(|k| k.0 == "version").map(|k| k.1.clone());
    let key = if s.chance(1, 12) { format!("\"{name}\"") } else { name.to_string() };
    let eq = |s: &mut Src| *s.pick(&[" = ", " = ", " = ", "=", "  =  "]);
    let form = if kvs.len() == 1 && version.is_some() { s.below(4) } else { s.range(1, 3) };
    match form {
        0 => {
            m.lead(s, out, keep || !removed);
            let t = m.trail(s);
            let e = eq(s);
            if keep || removed || t.is_empty() {
                out.push(Line(format!("{key}{e}{}{t}", version.unwrap()), keep));
            } else {
                out.push(Line(format!("{key}{e}{}{t}", version.unwrap()), false));
                out.push(Line(format!("\u{1}{}", t.trim()), true));
            }
        }
        1 => {
            m.lead(s, out, keep || !removed);
            let t = m.trail(s);
            let e = eq(s);
            let sp = *s.pick(&[" ", "", "  "]);
            let body: Vec<String> = kvs.iter().map(|(k, v)| format!("{k}{}{v}", eq(s))).collect();
            out.push(Line(format!("{key}{e}{{{sp}{}{sp}}}{t}", body.join(*s.pick(&[", ", ",", " , "]))), keep));
            if !keep && !removed && !t.is_empty() {
                out.push(Line(format!("\u{1}{}", t.trim()), true));
            }
        }
        2 => {
            // Dotted keys.
            m.lead(s, out, keep || !removed);
            for (k, v) in kvs {
                let t = m.trail(s);
                out.push(Line(format!("{key}.{k}{}{v}{t}", eq(s)), keep));
                if !keep && !removed && !t.is_empty() {
                    out.push(Line(format!("\u{1}{}", t.trim()), true));
                }
            }
        }
        _ => {
            let mut sec = vec![];
            m.lead(s, &mut sec, keep || !removed);
            let t = m.trail(s);
            sec.push(Line(format!("[{table}.{key}]{t}"), keep));
            for (k, v) in kvs {
                m.lead(s, &mut sec, keep || !removed);
                let t = m.trail(s);
                sec.push(Line(format!("{k}{}{v}{t}", eq(s)), keep));
                if !keep && !removed && !t.is_empty() {
                    sec.push(Line(format!("\u{1}{}", t.trim()), true));
                }
            }
            own.push(sec);
        }
    }
}
fn req4(s: &mut Src) -> String {
    format!("\"{}\"", s.pick(&["4", "4.3", "4.3.0", "^4.2", "~4.0.1", "=4.3.0", ">=4, <5", "4.0.0-beta.1"]))
}
fn kvs(s: &mut Src, kind: &str) -> Vec<(&'static str, String)> {
    let b = |x: bool| x.to_string();
    let mut out: Vec<(&'static str, String)> = match kind {
        "ink" => {
            let mut v = vec![("version", req4(s))];
            if s.chance(1, 10) {
                v[0] = ("git", "\"https://github.com/paritytech/ink\"".to_string());
                v.push(("tag", "\"v4.3.0\"".into()));
            } else if s.chance(1, 12) {
                v.push(("path", "\"../ink\"".into()));
            }
            if s.chance(2, 3) {
                let x = s.chance(1, 5);
                v.push(("default-features", b(x)));
            }
            if s.chance(1, 4) {
                v.push(("features", s.pick(&["[\"ink-debug\"]", "[ \"ink-debug\", 'unstable' ]", "[]"]).to_string()));
            }
            v
        }
        "ink_e2e" => {
            let mut v = vec![("version", req4(s))];
            if s.chance(1, 3) {
                v.push(("features", s.pick(&["[\"sandbox\"]", "['a']"]).to_string()));
            }
            if s.chance(1, 6) {
                v.push(("default-features", "false".into()));
            }
            v
        }
        "scale" => {
            let mut v = vec![("package", "\"parity-scale-codec\"".to_string()), ("version", "\"3\"".into())];
            if s.chance(2, 3) {
                v.push(("default-features", "false".into()));
                v.push(("features", "[\"derive\"]".into()));
            }
            if s.chance(1, 5) {
                v.push(("optional", "true".into()));
            }
            v
        }
        "scale-info" => {
            let mut v = vec![("version", "\"2.6\"".to_string())];
            if s.chance(2, 3) {
                v.push(("default-features", "false".into()));
                v.push(("features", "[\"derive\"]".into()));
                v.push(("optional", "true".into()));
            }
            v
        }
        _ => {
            let mut v = vec![("version", s.pick(&["\"1\"", "\"4.3\"", "'0.2'", "\"*\""]).to_string())];
            if s.chance(1, 3) {
                v.push(("default-features", "false".into()));
            }
            if s.chance(1, 4) {
                v.push(("path", "\"../x\"".into()));
            }
            v
        }
    };
    if s.chance(1, 5) {
        s.shuffle(&mut out);
    }
    out
}
const OTHER: &[&str] = &["serde", "scale-codec", "ink-extra", "inkwell", "my_lib", "hex-literal", "scale2", "ink_e2e_macro"];
fn manifest(s: &mut Src) -> (Manifest, bool) {
    let mut m = Manifest { secs: vec![], n: 0 };
    let mut nontrivial = false;
    // [package]
    let mut sec = vec![];
    m.lead(s, &mut sec, true);
    for l in ["[package]", "name = \"p\"", "version = \"4.0.0\"", "edition = \"2021\""] {
        let t = m.trail(s);
        sec.push(Line(format!("{l}{t}"), true));
    }
    if s.chance(1, 4) {
        sec.push(Line("authors = [\n    \"a <a@x>\", # first\n    \"b\",\n]".into(), true));
    }
    m.secs.push(sec);
    // [dependencies]
    let (mut sec, mut own) = (vec![], vec![]);
    let mut names = vec!["ink"];
    let has_scale = s.chance(2, 3);
    let has_info = s.chance(2, 3);
    if has_scale {
        names.push("scale");
    }
    if has_info {
        names.push("scale-info");
    }
    for _ in 0..s.below(3) {
        let n = *s.pick(OTHER);
        if !names.contains(&n) {
            names.push(n);
        }
    }
    nontrivial |= names.len() > 1;
    if s.chance(1, 3) {
        s.shuffle(&mut names);
    }
    for n in &names {
        let kv = kvs(s, n);
        let special = ["ink", "scale", "scale-info"].contains(n);
        dep(s, &mut m, "dependencies", n, &kv, !special, special && *n != "ink", &mut sec, &mut own);
    }
    if !(sec.is_empty() && s.bool()) {
        let t = m.trail(s);
        sec.insert(0, Line(format!("[dependencies]{t}"), true));
        m.secs.push(sec);
    }
    m.secs.append(&mut own);
    // [dev-dependencies]
    if s.chance(2, 3) {
        let (mut sec, mut own) = (vec![], vec![]);
        let mut names = vec![];
        if s.chance(3, 4) {
            names.push("ink_e2e");
            nontrivial = true;
        }
        if s.chance(1, 3) {
            names.push(*s.pick(OTHER));
        }
        for n in &names {
            let kv = kvs(s, n);
            let special = *n == "ink_e2e";
            dep(s, &mut m, "dev-dependencies", n, &kv, !special, false, &mut sec, &mut own);
        }
        if !(sec.is_empty() && s.bool()) {
            let t = m.trail(s);
            sec.insert(0, Line(format!("[dev-dependencies]{t}"), true));
            m.secs.push(sec);
        }
        m.secs.append(&mut own);
    }
    // [features]
    if s.chance(4, 5) {
        let mut sec = vec![];
        m.lead(s, &mut sec, true);
        sec.push(Line("[features]".into(), true));
        let mut names = vec!["default", "std", "ink-as-dependency", "e2e-tests", "full"];
        s.shuffle(&mut names);
        let k = s.range(1, names.len());
        for n in names.into_iter().take(k) {
            let mut pool: Vec<&str> = vec!["ink/std", "ink/ink-debug", "scale-codec/std", "rescale"];
            if has_scale {
                pool.extend(["scale/std", "scale/std", "scale?/std", "scale/derive"]);
            }
            if has_info {
                pool.extend(["scale-info/std", "scale-info/std", "scale-info?/std", "dep:scale-info", "scale-info"]);
            }
            let mut xs: Vec<&str> = (0..s.below(5)).map(|_| *s.pick(&pool)).collect();
            if n == "default" {
                xs = vec!["std"];
            }
            let touched = xs.iter().any(|x| refers(x));
            nontrivial |= touched;
            m.lead(s, &mut sec, true);
            let q: Vec<String> = xs.iter().map(|x| if s.chance(1, 8) { format!("'{x}'") } else { format!("\"{x}\"") }).collect();
            let v = if s.bool() && !q.is_empty() {
                let mut t = String::from("[\n");
                for x in q.iter() {
                    t += &format!("    {x},\n");
                }
                t + "]"
            } else if s.chance(1, 4) && !q.is_empty() {
                format!("[ {}, ]", q.join(" , "))
            } else {
                format!("[{}]", q.join(", "))
            };
            let t = m.trail(s);
            sec.push(Line(format!("{n} = {v}{t}"), !touched));
            if touched && !t.is_empty() {
                sec.push(Line(format!("\u{1}{}", t.trim()), true));
            }
        }
        m.secs.push(sec);
    }
    // Unrelated sections.
    for sec in [
        "[lib]\npath = \"lib.rs\"",
        "[[bin]]\nname = \"x\"\npath = \"x.rs\"\n\n[[bin]]\nname = \"y\"\npath = \"y.rs\"",
        "[target.'cfg(unix)'.dependencies]\nserde = \"1\"",
        "[build-dependencies]\nscale = { version = \"1\" }\nink_e2e = \"4\"",
        "[profile.release]\noverflow-checks = false # important\nlto = 'fat'",
        "[workspace]",
        "[package.metadata.docs]\nscale = \"4\"\nwhen = 2021-01-01\nn = 0x1F\nf = 1_000.5\nt = '''\nraw # no comment\n'''",
        "[patch.crates-io]\nink = { git = \"https://x\" }",
    ] {
        if s.chance(1, 6) {
            let mut x = vec![];
            m.lead(s, &mut x, true);
            x.extend(sec.lines().map(|l| Line(l.to_string(), true)));
            m.secs.push(x);
        }
    }
    if s.chance(1, 3) {
        s.shuffle(&mut m.secs);
    }
    (m, nontrivial)
}
/// A feature entry that refers to one of the removed dependencies.
fn refers(x: &str) -> bool {
    let x = x.strip_prefix("dep:").unwrap_or(x);
    let n = x.split('/').next().unwrap().trim_end_matches('?');
    n == "scale" || n == "scale-info"
}
fn is5(v: &toml::Value) -> bool {
    v.as_str().is_some_and(|v| v.trim_start_matches(['^', '=', '~', ' ']).split('.').next() == Some("5"))
}
/// The manifest that is to come out of the migration, with the versions to be `5`.
fn expected(old: &toml::Table) -> toml::Table {
    let mut t = old.clone();
    let d = t["dependencies"].as_table_mut().unwrap();
    d.remove("scale");
    d.remove("scale-info");
    let mut ink = match d["ink"].clone() {
        toml::Value::Table(t) => t,
        _ => Default::default(),
    };
    ink.insert("version".into(), "5".into());
    ink.entry("default-features").or_insert(false.into());
    d.insert("ink".into(), ink.into());
    if let Some(e) = t.get_mut("dev-dependencies").and_then(|d| d.as_table_mut()).and_then(|d| d.get_mut("ink_e2e")) {
        match e {
            toml::Value::Table(t) => {
                t.insert("version".into(), "5".into());
            }
            _ => *e = "5".into(),
        }
    }
    for (_, l) in t.get_mut("features").and_then(|f| f.as_table_mut()).into_iter().flatten() {
        if let Some(l) = l.as_array_mut() {
            l.retain(|x| !x.as_str().is_some_and(refers));
        }
    }
    t
}
fn norm(t: &mut toml::Table) -> bool {
    let mut ok = true;
    for p in [["dependencies", "ink"], ["dev-dependencies", "ink_e2e"]] {
        let Some(x) = t.get_mut(p[0]).and_then(|d| d.as_table_mut()).and_then(|d| d.get_mut(p[1])) else { continue };
        if let toml::Value::String(_) = x {
            let mut m = toml::Table::new();
            m.insert("version".into(), x.clone());
            *x = m.into();
        }
        if let Some(v) = x.get_mut("version") {
            ok &= is5(v);
            *v = "5".into();
        }
    }
    ok
}
/// Runs the command; the texts of the document and the manifest afterwards (or the error).
fn migrate(s: &mut Src, dir: &CaseDir, man: &str, text: &str) -> Result<Result<(String, String), String>, Fail> {
    dir.write("Cargo.toml", man);
    let uri = dir.uri(*s.pick(&["lib.rs", "src/lib.rs"]));
    let caps = Caps::random(s);
    let input = format!("{man}\n=====\n{text}");
    let mut c = match Client::start(&caps.json()) {
        Ok(c) => c,
        Err(d) => return d.fail("initialize", &input),
    };
    let enc = c.encoding.clone();
    if let Err(d) = c.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "rust", "version": 1, "text": text}})) {
        return d.fail("open", &input);
    }
    let ms = if s.bool() {
        let mut out = vec![];
        match c.call(1, "codeAction/resolve", json!({"title": "x", "data": {"command": "migrateProject", "uri": uri}})) {
            Ok(Ok(r)) => out.push(Message::Response(r)),
            Ok(Err(ms)) => return fail("server: not one response", format!("{ms:?}"), input),
            Err(d) => return d.fail("resolve", &input),
        }
        out
    } else {
        match c.request(1.into(), "workspace/executeCommand", json!({"command": "migrateProject", "arguments": [{"uri": uri}]})) {
            Ok(m) => m,
            Err(d) => return d.fail("migrate", &input),
        }
    };
    c.stop().ok();
    let mut changes = Value::Null;
    for m in &ms {
        match m {
            Message::Request(r) => changes = r.params["edit"]["changes"].clone(),
            Message::Response(r) => {
                if let Some(e) = &r.error {
                    return Ok(Err(e.message.clone()));
                }
                for k in [&["edit", "changes"][..], &["edits"]] {
                    let v = k.iter().fold(r.result.clone().unwrap_or_default(), |v, k| v[k].clone());
                    if v.is_object() {
                        changes = v;
                    }
                }
            }
            _ => (),
        }
    }
    let Some(ch) = changes.as_object() else { return fail("no edits", format!("{ms:?}"), input) };
    let man_uri = dir.uri("Cargo.toml");
    let mut keys: Vec<&String> = ch.keys().collect();
    keys.sort();
    let mut want = vec![&uri, &man_uri];
    want.sort();
    if keys != want {
        return fail("wrong files", format!("{keys:?}"), input);
    }
    let get = |u: &str, t: &str| apply_lsp(&enc, t, &ch[u]);
    match (get(&uri, text), get(&man_uri, man)) {
        (Some(a), Some(b)) => Ok(Ok((a, b))),
        _ => fail("edits do not apply", format!("{ch:?}"), input),
    }
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let (m, nontrivial) = manifest(s);
    let crlf = s.chance(1, 12);
    let nl = if crlf { "\r\n" } else { "\n" };
    let mut man = String::new();
    let mut keep: Vec<String> = vec![];
    for (k, sec) in m.secs.iter().enumerate() {
        if k > 0 && !s.chance(1, 4) {
            man += nl;
        }
        for Line(t, kp) in sec {
            if let Some(t) = t.strip_prefix('\u{1}') {
                keep.push(t.to_string());
                continue;
            }
            man += &t.replace('\n', nl);
            man += nl;
            if *kp {
                keep.extend(t.lines().map(|l| l.to_string()));
            }
        }
    }
    match s.below(6) {
        0 => {
            let c = "# the end";
            man += c;
            keep.push(c.into());
        }
        1 => man = man.trim_end().to_string(),
        _ => (),
    }
    let old: toml::Table = match man.parse() {
        Ok(t) => t,
        // E.g. a section header in the middle of another one's subsections.
        Err(_) => return Ok(Info { nontrivial: false, key: 0, labels: vec!["no TOML".into()], sample: String::new(), evals: 0 }),
    };
    let text = if s.bool() {
        let f = valid_file(s, false, Opts::default());
        let style = Style::random(s);
        render(&f, s, &style).text
    } else {
        "#[ink::contract]\nmod é {\n    #[ink(storage)]\n    #[derive(scale::Encode)]\n    pub struct S {}\n}\n".to_string()
    };
    set_current(&man);
    let dir = CaseDir::new();
    let input = format!("{man}\n=====\n{text}");
    let (doc, new_man) = match migrate(s, &dir, &man, &text)? {
        Ok(x) => x,
        Err(e) => return fail("migration fails", e, input),
    };
    // The document.
    let a = analyze(&text, false);
    if Some(&doc) != apply(&text, &a.migrate()).as_ref() {
        return fail("document edits differ from the analysis", doc, input);
    }
    // The manifest.
    let Ok(mut new) = new_man.parse::<toml::Table>() else { return fail("not TOML", new_man, input) };
    let mut want = expected(&old);
    if !norm(&mut new) {
        return fail("not on version 5", new_man, input);
    }
    norm(&mut want);
    if new != want {
        let k = want.iter().find(|(k, v)| new.get(*k) != Some(v)).map(|k| k.0.clone()).unwrap_or("surplus".into());
        return fail(format!("manifest entries: {k}"), format!("{new_man}\nexpected {want:?}"), input);
    }
    // Unrelated lines, in order.
    let sq = |l: &str| l.trim().to_string();
    let have: Vec<String> = new_man.lines().map(sq).collect();
    for k in keep.iter().filter(|k| !k.trim().is_empty()) {
        let k = sq(k);
        let ok = have.iter().any(|l| *l == k || (k.starts_with('#') && l.ends_with(&k)));
        if !ok {
            return fail(if k.starts_with('#') { "comment lost" } else { "line changed" }, format!("`{k}` is missing in\n{new_man}"), input);
        }
    }
    let mut pos = 0;
    for k in keep.iter().filter(|k| !k.trim().is_empty() && !k.starts_with('#')) {
        let k = sq(k);
        match have[pos..].iter().position(|l| *l == k) {
            Some(i) => pos += i + 1,
            None if crlf => (),
            None => return fail("lines reordered", format!("`{k}` in\n{new_man}"), input),
        }
    }
    let labels = vec![if crlf { "crlf".into() } else { "lf".to_string() }];
    Ok(Info { nontrivial, key: fnv(man.as_bytes()), labels, sample: clip(&man), evals: 3 })
}
fn fixed(_: usize) -> Result<Info, Fail> {
    let man = "[package]\nname = \"p\"\nversion = \"0.1.0\"\n\n[dependencies]\nink = { workspace = true }\n";
    let dir = CaseDir::new();
    let mut s = Src::replay(vec![]);
    let got = migrate(&mut s, &dir, man, "#[ink::contract]\nmod m {}\n")?;
    if let Ok((_, m)) = got {
        // The requirement is the workspace's: a version beside `workspace = true` is ignored by cargo.
        let t: toml::Table = m.parse().unwrap_or_default();
        if t["dependencies"]["ink"].get("workspace").is_some() {
            return fail("inherited ink dependency", m, man);
        }
    }
    Ok(Info { nontrivial: true, key: 1, labels: vec!["inherited".into()], sample: man.into(), evals: 1 })
}
