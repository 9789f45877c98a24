//! C14: extracting an event moves it without changing it.
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::lsp::*;
use crate::model::*;
use lsp_server::Message;
use serde_json::{json, Value};

pub static PROP: Prop = Prop {
    id: "C14",
    rule: "a case is a generated valid ink! 5 file, one of its events and a place in that event (or in another item), extracted through the analysis and, for a part of the cases, through the language server's command with a project on disk; non-trivial: the file has an event",
    quick: 12000,
    thorough: 150000,
    run,
    fixed: Some((|| 1, detached)),
    shrink_evals: 1500,
    assumptions: &["plain comments inside an extracted event are not part of the event"],
    threads: 8,
};
/// The tokens of an attribute as the model has it.
fn attr_tokens(doc: &Doc, a: &Attr) -> Vec<String> {
    tokens_of_attr(doc.slice(doc.sp(a.id, Sp::Attr).unwrap()))
}
fn tokens_of_attr(t: &str) -> Vec<String> {
    let mut v = tokens(&format!("{t} struct X;"));
    v.truncate(v.len() - 3);
    v
}
fn cut(hay: &[String], needle: &[String]) -> Option<Vec<String>> {
    let i = (0..=hay.len().checked_sub(needle.len())?).find(|i| hay[*i..].starts_with(needle))?;
    Some(hay[..i].iter().chain(&hay[i + needle.len()..]).cloned().collect())
}
/// Moves the item's doc comments in front of its attributes (their relative order does not matter).
fn docs_first(t: &[String]) -> Vec<String> {
    let (mut docs, mut attrs, mut i) = (vec![], vec![], 0);
    while i < t.len() {
        if is_doc(&t[i]) {
            docs.push(t[i].clone());
            i += 1;
        } else if t[i] == "#" {
            let mut depth = 0;
            loop {
                attrs.push(t[i].clone());
                depth += (t[i] == "[") as i32 - (t[i] == "]") as i32;
                i += 1;
                if i >= t.len() || (depth == 0 && t[i - 1] == "]") {
                    break;
                }
            }
        } else {
            break;
        }
    }
    docs.into_iter().chain(attrs).chain(t[i..].iter().cloned()).collect()
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let mut g = G::new(s, true, Opts::default());
    if g.s.chance(1, 3) {
        // Make sure that there is an event at the root.
        let e = g.event(true);
        g.f.items.push(e);
    }
    g.file();
    if g.s.chance(1, 4) {
        // An event in a nested module.
        let e = g.event(true);
        let name = g.snake();
        let m = g.item(Role::Plain, vec![], None, &name, Kind::Mod(Some(vec![e])));
        g.f.items.push(m);
    }
    let mut f = g.f.clone();
    // Names which make awkward packages.
    let evs = f.ids(|i, _| matches!(i.role, Role::Event | Role::EventV2));
    if !evs.is_empty() && s.chance(1, 6) {
        let id = *s.pick(&evs);
        let n = *s.pick(&["Ink", "Type", "Serde", "HTTPRequest", "A_b__C", "r#type", "Transfer2", "X", "Match", "Std"]);
        let mut taken = false;
        f.walk(|i, _| taken |= i.name == n);
        if !taken {
            f.with(id, |i| i.name = n.to_string());
        }
    }
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    let text = &doc.text;
    let mut labels = vec![];
    let a = analyze(text, true);
    // A place outside of all events.
    let mut others = vec![];
    f.walk(|i, _| {
        if !matches!(i.role, Role::Event | Role::EventV2) {
            others.extend(doc.sp(i.id, Sp::Name));
        }
    });
    let mut evals = 0;
    if !others.is_empty() {
        let (x, y) = *s.pick(&others);
        let rg = match s.below(3) {
            0 => (x, y),
            1 => (x, x),
            _ => (y, y),
        };
        evals += 1;
        if let Some(e) = a.extract(tr(rg.0, rg.1)) {
            return fail("extraction outside of events", format!("{rg:?} `{}` extracts {}", &text[x..y], e.name), text.clone());
        }
    }
    if evs.is_empty() {
        return Ok(Info { nontrivial: false, key: fnv(text.as_bytes()), labels: vec!["no event".into()], sample: String::new(), evals });
    }
    let id = *s.pick(&evs);
    let ev = f.get(id).unwrap().clone();
    let (is, ie) = doc.sp(id, Sp::Item).unwrap();
    if !attached(text, name_of(&doc, id), is) {
        // See the known finding.
        return Ok(Info { nontrivial: false, key: fnv(text.as_bytes()), labels: vec!["detached doc comment".into()], sample: String::new(), evals });
    }
    // A place on the event.
    let name = doc.sp(id, Sp::Name).unwrap();
    let primary = ev.attrs.iter().find(|a| attr_is_ink(a)).and_then(|a| doc.sp(a.id, Sp::Attr)).unwrap();
    let rg = match s.below(6) {
        0 => name,
        1 => (name.0, name.0),
        2 => primary,
        3 => (name.1, name.1),
        4 => (primary.0 + 1, primary.0 + 1),
        _ => doc.sp(id, Sp::Decl).unwrap_or(name),
    };
    let Some(x) = a.extract(tr(rg.0, rg.1)) else {
        return fail("not extracted", format!("event `{}`, range {rg:?} `{}`", ev.name, &text[rg.0..rg.1]), text.clone());
    };
    evals += 1;
    labels.push(if ev.role == Role::EventV2 { "v2".to_string() } else { "v1".into() });
    if x.name != ev.name {
        return fail("wrong name", format!("{} instead of {}", x.name, ev.name), text.clone());
    }
    // 1. The content is the event.
    let errs = parse_errors(&x.content);
    if !errs.is_empty() {
        return fail("content does not parse", format!("{errs:?}\n{}", x.content), text.clone());
    }
    let mut orig = tokens(&text[is..ie]);
    let mut args: Vec<String> = vec![];
    for at in ev.attrs.iter().filter(|a| attr_is_ink(a)) {
        let Some(o) = cut(&orig, &attr_tokens(&doc, at)) else { return fail("harness: attribute not found", format!("{at:?}"), text.clone()) };
        orig = o;
        for ar in &at.args {
            if ar.name != "event" {
                args.push(text[doc.sp(ar.id, Sp::Arg).map(|x| x.0..x.1).unwrap()].to_string());
            }
        }
    }
    let want_attr = if args.is_empty() { "#[ink::event]".to_string() } else { format!("#[ink::event({})]", args.join(", ")) };
    let have = tokens(&x.content);
    let Some(rest) = cut(&have, &tokens_of_attr(&want_attr)) else {
        return fail("event attribute", format!("expected {want_attr} in\n{}", x.content), text.clone());
    };
    let (rest, orig) = (docs_first(&rest), docs_first(&orig));
    if rest != orig {
        return fail("event changed", format!("{}\n{}", diff(&rest, &orig), x.content), text.clone());
    }
    let ds = analyze(&x.content, true).diagnostics();
    if !ds.is_empty() {
        return fail("extracted event is flagged", format!("{}\n{}", show_diags(&x.content, &ds), x.content), text.clone());
    }
    // 2. The rest of the document is unchanged.
    let mut es = x.edits.clone();
    let Some(after) = apply(text, &es) else { return fail("edits overlap", format!("{es:?}"), text.clone()) };
    let without = format!("{} {}", &text[..is], &text[ie..]);
    if tokens(&after) != tokens(&without) {
        return fail("document changed", diff(&tokens(&after), &tokens(&without)), text.clone());
    }
    // The comments right before the event belong to it.
    let (before, kept) = (plain_comments(&text[..is]), plain_comments(&after));
    let behind = plain_comments(&without)[before.len()..].to_vec();
    let moved = plain_comments(&x.content);
    let n = kept.len().saturating_sub(behind.len());
    if n > before.len() || kept[..n] != before[..n] || kept[n..] != behind[..] || !before[n..].iter().all(|c| moved.contains(c)) {
        return fail("comments changed", format!("{}\n{}", diff(&kept, &plain_comments(&without)), x.content), text.clone());
    }
    // 3. The import lands in the event's module.
    es.push(ink_analyzer::TextEdit::insert(format!("{}use vp_crate::{};", x.import_indent, x.name), x.import_offset));
    let Some(full) = apply(text, &es) else { return fail("import inside of the removed text", format!("{es:?}"), text.clone()) };
    let errs = parse_errors(&full);
    if !errs.is_empty() {
        return fail("document does not parse after extraction", format!("{errs:?}\n{full}"), text.clone());
    }
    if let Some(m) = import_place(&full, "vp_crate") {
        let want: Vec<String> = ancestors(&f, id);
        if m != want {
            return fail("import in another module", format!("{m:?} instead of {want:?}\n{full}"), text.clone());
        }
    } else {
        return fail("no import", full, text.clone());
    }
    let ds = analyze(&full, true).diagnostics();
    if !ds.is_empty() {
        return fail("document is flagged after extraction", format!("{}\n{full}", show_diags(&full, &ds)), text.clone());
    }
    // 4. Through the server.
    if s.chance(1, 6) {
        labels.push("server".into());
        evals += 1;
        let x = Ext { name: x.name.clone(), content: x.content.clone(), edits: x.edits.clone(), import_indent: x.import_indent.clone(), import_offset: x.import_offset };
        server(s, text, &ev, rg, &x)?;
    }
    Ok(Info { nontrivial: true, key: fnv(format!("{text}{rg:?}").as_bytes()), labels, sample: clip(&x.content), evals })
}
fn name_of(doc: &Doc, id: Id) -> (usize, usize) {
    doc.sp(id, Sp::Name).unwrap()
}
/// Whether the Rust parser has the item's doc comments in the item.
fn attached(text: &str, name: (usize, usize), start: usize) -> bool {
    use ink_analyzer_ir::ast::{self, HasName};
    use ink_analyzer_ir::syntax::AstNode;
    let f = ink_analyzer_ir::syntax::SourceFile::parse(text).tree();
    let found = f.syntax().descendants().filter_map(ast::Struct::cast).find(|i| i.name().is_some_and(|n| usize::from(n.syntax().text_range().start()) == name.0));
    found.is_some_and(|i| usize::from(i.syntax().text_range().start()) <= start)
}
/// A doc comment followed by a plain comment and an empty line.
fn detached(_: usize) -> Result<Info, Fail> {
    let t = "/// Docs.\n// Note.\n\n#[ink::event]\npub struct E;\n";
    set_current(t);
    let c = analyze(t, true).extract(tr(t.find('E').unwrap(), t.find('E').unwrap())).map(|x| x.content).unwrap_or_default();
    if !c.contains("/// Docs.") {
        return fail("doc comment before a plain comment and an empty line", c, t);
    }
    Ok(Info { nontrivial: false, key: 1, labels: vec!["detached".into()], sample: t.into(), evals: 1 })
}
fn attr_is_ink(a: &Attr) -> bool {
    matches!(a.kind, AttrKind::Macro(_) | AttrKind::Ink)
}
fn ancestors(f: &File, id: Id) -> Vec<String> {
    let mut out = vec![];
    let mut cur = id;
    while let Some(p) = f.parent(cur) {
        let i = f.get(p).unwrap();
        if matches!(i.kind, Kind::Mod(_)) {
            out.push(i.name.clone());
        }
        cur = p;
    }
    out
}
/// The enclosing modules of the import of a crate, if it is a module item.
fn import_place(text: &str, krate: &str) -> Option<Vec<String>> {
    use ink_analyzer_ir::ast::{self, HasName};
    use ink_analyzer_ir::syntax::AstNode;
    let f = ink_analyzer_ir::syntax::SourceFile::parse(text).tree();
    let u = f.syntax().descendants().filter_map(ast::Use::cast).find(|u| u.to_string().contains(krate))?;
    let mut out = vec![];
    for n in u.syntax().ancestors().skip(1) {
        match ast::Module::cast(n.clone()) {
            Some(m) => out.push(m.name()?.to_string()),
            None if ast::ItemList::can_cast(n.kind()) || ast::SourceFile::can_cast(n.kind()) => (),
            None => return None,
        }
    }
    Some(out)
}
const KEYWORDS: &[&str] = &["type", "match", "impl", "struct", "mod", "fn", "self", "super", "crate", "use", "move", "where", "std", "core", "alloc"];

/// What the analysis extracts.
struct Ext {
    name: String,
    content: String,
    edits: Vec<ink_analyzer::TextEdit>,
    import_indent: String,
    import_offset: ink_analyzer::TextSize,
}
fn server(s: &mut Src, text: &str, ev: &Item, rg: (usize, usize), x: &Ext) -> Result<(), Fail> {
    let dir = CaseDir::new();
    let dep = *s.pick(&["serde = { version = \"1\", default-features = false } # keep\n", "", "transfer = { path = \"../transfer\" }\nevent = \"1\"\n"]);
    let man = format!("[package]\nname = \"p\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\nink = {{ version = \"5.0.0\", default-features = false }}\n{dep}\n[features]\nstd = [\"ink/std\"] # é\n");
    dir.write("Cargo.toml", &man);
    for d in ["transfer", "event", "event1", "x"] {
        if s.chance(1, 4) {
            dir.write(&format!("{d}/keep"), "");
        }
    }
    let uri = dir.uri(*s.pick(&["lib.rs", "src/lib.rs"]));
    let caps = Caps::random(s);
    let input = format!("{man}\n{text}");
    let mut c = match Client::start(&caps.json()) {
        Ok(c) => c,
        Err(d) => return d.fail("initialize", &input),
    };
    let enc = c.encoding.clone();
    if let Err(d) = c.notify("textDocument/didOpen", json!({"textDocument": {"uri": uri, "languageId": "rust", "version": 1, "text": text}})) {
        return d.fail("open", &input);
    }
    let args = json!({"uri": uri, "range": {"start": rg.0, "end": rg.1}});
    let ops: Value = if s.bool() {
        let mut data = args;
        data["command"] = json!("extractEvent");
        match c.call(1, "codeAction/resolve", json!({"title": "x", "data": data})) {
            Ok(Ok(r)) => match r.result {
                Some(v) => v["edit"]["documentChanges"].clone(),
                None => return fail("server: extraction fails", format!("{:?}", r.error), input),
            },
            Ok(Err(ms)) => return fail("server: not one response", format!("{ms:?}"), input),
            Err(d) => return d.fail("resolve", &input),
        }
    } else {
        let ms = match c.request(1.into(), "workspace/executeCommand", json!({"command": "extractEvent", "arguments": [args]})) {
            Ok(m) => m,
            Err(d) => return d.fail("extract", &input),
        };
        let mut v = Value::Null;
        for m in &ms {
            match m {
                Message::Request(r) => v = r.params["edit"]["documentChanges"].clone(),
                Message::Response(r) => {
                    if let Some(e) = &r.error {
                        return fail("server: extraction fails", format!("{e:?}"), input);
                    }
                    if let Some(r) = r.result.as_ref().filter(|r| r.is_object()) {
                        // The plain result for clients that cannot create files.
                        let mut ops = vec![];
                        for (u, t) in r["files"].as_object().into_iter().flatten() {
                            ops.push(json!({"kind": "create", "uri": u}));
                            ops.push(json!({"textDocument": {"uri": u}, "edits": [{"range": {"start": {"line": 0, "character": 0}, "end": {"line": 0, "character": 0}}, "newText": t}]}));
                        }
                        for (u, e) in r["edits"].as_object().into_iter().flatten() {
                            ops.push(json!({"textDocument": {"uri": u}, "edits": e}));
                        }
                        v = json!(ops);
                    }
                }
                _ => (),
            }
        }
        v
    };
    c.stop().ok();
    // Apply the operations.
    let mut files: std::collections::BTreeMap<String, String> = Default::default();
    files.insert(uri.clone(), text.to_string());
    let man_uri = dir.uri("Cargo.toml");
    files.insert(man_uri.clone(), man.clone());
    let mut created = vec![];
    for op in ops.as_array().into_iter().flatten() {
        if op["kind"] == json!("create") {
            let u = op["uri"].as_str().unwrap_or("").to_string();
            files.insert(u.clone(), String::new());
            created.push(u);
        } else {
            let u = op["textDocument"]["uri"].as_str().unwrap_or("").to_string();
            let Some(cur) = files.get(&u) else { return fail("server: edit of an unknown file", u, input) };
            let Some(new) = apply_lsp(&enc, cur, &op["edits"]) else { return fail("server: edits do not apply", format!("{u}: {}", op["edits"]), input) };
            files.insert(u, new);
        }
    }
    let root = dir.uri("");
    let root = root.trim_end_matches('/');
    let lib = created.iter().find(|u| u.ends_with("/src/lib.rs"));
    let decode = |l: &str| {
        let mut out = vec![];
        let b = l.as_bytes();
        let mut i = 0;
        while i < b.len() {
            let hex = (b[i] == b'%').then(|| l.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(h, 16).ok())).flatten();
            out.push(hex.unwrap_or(b[i]));
            i += if hex.is_some() { 3 } else { 1 };
        }
        String::from_utf8_lossy(&out).to_string()
    };
    let Some(pkg_uri) = lib.and_then(|l| l.strip_prefix(root)).and_then(|l| l.strip_suffix("/src/lib.rs")).map(|l| l.trim_start_matches('/').to_string()) else {
        return fail("server: no library created", format!("{created:?} {ops}"), input);
    };
    let pkg_dir = decode(&pkg_uri);
    if dir.0.join(&pkg_dir).exists() {
        return fail("server: existing directory used", pkg_dir, input);
    }
    if files[lib.unwrap()] != x.content {
        return fail("server: content", files[lib.unwrap()].clone(), input);
    }
    let Some(pm) = files.get(&format!("{root}/{pkg_uri}/Cargo.toml")).and_then(|t| t.parse::<toml::Table>().ok()) else {
        return fail("server: no package manifest", format!("{created:?}"), input);
    };
    let pname = pm.get("package").and_then(|p| p.get("name")).and_then(|n| n.as_str()).unwrap_or("").to_string();
    if !pname.chars().next().is_some_and(char::is_alphabetic) || !pname.chars().all(|c| (c.is_alphanumeric() && !c.is_uppercase()) || c == '-' || c == '_') || KEYWORDS.contains(&pname.as_str()) {
        return fail("server: invalid package name", format!("`{pname}` for `{}`", ev.name), input);
    }
    if !pm["dependencies"]["ink"].to_string().contains("\"5") {
        return fail("server: package is not ink! 5", format!("{pm:?}"), input);
    }
    // The manifest has the package as an additional dependency.
    let old: toml::Table = man.parse().unwrap();
    let Ok(mut new) = files[&man_uri].parse::<toml::Table>() else { return fail("server: manifest is no TOML", files[&man_uri].clone(), input) };
    let Some(d) = new.get_mut("dependencies").and_then(|d| d.as_table_mut()).and_then(|d| d.remove(&pname)) else {
        return fail("server: dependency missing", files[&man_uri].clone(), input);
    };
    if new != old {
        return fail("server: other manifest entries changed", files[&man_uri].clone(), input);
    }
    if d.get("path").and_then(|p| p.as_str()) != Some(pkg_dir.as_str()) {
        return fail("server: dependency path", format!("{d:?}, package in {pkg_dir}"), input);
    }
    // The document.
    let mut es = x.edits.clone();
    let krate = pname.replace('-', "_");
    es.push(ink_analyzer::TextEdit::insert(format!("{}use {krate}::{};", x.import_indent, x.name), x.import_offset));
    if Some(&files[&uri]) != apply(text, &es).as_ref() {
        return fail("server: document edits", files[&uri].clone(), input);
    }
    Ok(())
}
