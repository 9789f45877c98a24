//! C15: new projects are valid for every valid name, invalid names are rejected.
use super::util::*;
use crate::core::*;
use crate::lsp::*;
use ink_analyzer::Error;
use ink_analyzer_ir::ast::{self, HasName};
use ink_analyzer_ir::syntax::AstNode;
use ink_analyzer_ir::IsInkStruct;
use lsp_server::Message;
use serde_json::{json, Value};

pub static PROP: Prop = Prop {
    id: "C15",
    rule: "a case is a name (composed of words, keywords, template fragments, digits, separators and arbitrary characters) created for both versions and, for a part of the cases, through the language server's command under random client capabilities; non-trivial: the name is accepted by the reference predicate or differs from an accepted name by one character",
    quick: 30000,
    thorough: 1000000,
    run,
    fixed: Some((|| CHARS.len() * 3, fixed)),
    shrink_evals: 1500,
    assumptions: &["names whose module or storage name would not be a Rust identifier (keywords, numerals such as `²`) have to be rejected, with either error"],
    threads: 8,
};
const WORDS: &[&str] = &[
    "a", "flipper", "erc20", "Erc20", "ERC", "my_contract", "MyContract", "my-contract", "mycontract", "my_message", "new", "tests", "e2e_tests", "it_works", "self", "Self", "super", "crate", "mod", "match", "type", "async", "await", "dyn", "try", "union", "auto",
    "default", "std", "ink", "core", "größe", "値", "Ünit", "ß", "ǆ", "x", "1", "42", "0x", "E2EResult", "r", "raw", "abstract", "yield", "fn", "todo", "Result", "u8", "true", "static", "macro_rules", "gen",
];
const SEPS: &[&str] = &["_", "-", "", "", "__", "--", "_-"];
const CHARS: &[&str] = &[
    "a", "Z", "0", "9", "_", "-", " ", ".", "/", "\\", "$", "{", "}", "\"", "'", "\n", "\r", "\t", "\0", "#", "!", "🦀", "²", "½", "Ⅷ", "ⓐ", "ª", "é", "e\u{301}", "\u{200d}", "٣", ":", ";", "<", "=", "@", "%", "*", "(", "[", "+", ",", "|", "~", "·", "–", "Å", "K",
];
const KEYWORDS: &[&str] = &[
    "as", "async", "await", "break", "const", "continue", "crate", "dyn", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "Self", "static", "struct", "super", "trait", "true",
    "type", "unsafe", "use", "where", "while", "abstract", "become", "box", "do", "final", "macro", "override", "priv", "try", "typeof", "unsized", "virtual", "yield", "_",
];
fn name(s: &mut Src) -> String {
    let mut n = String::new();
    if s.chance(1, 8) {
        n += *s.pick(CHARS);
    }
    for k in 0..s.range(0, 4) {
        if k > 0 {
            n += *s.pick(SEPS);
        }
        if s.chance(1, 5) {
            n += *s.pick(KEYWORDS);
        } else {
            n += *s.pick(WORDS);
        }
    }
    if s.chance(1, 6) {
        n += *s.pick(CHARS);
    }
    if s.chance(1, 20) {
        let c: Vec<char> = n.chars().collect();
        let at = s.range(0, c.len());
        n = c[..at].iter().collect::<String>() + *s.pick(CHARS) + &c[at..].iter().collect::<String>();
    }
    if s.chance(1, 60) {
        n = n.repeat(s.range(2, 60));
    }
    n
}
#[derive(PartialEq, Debug)]
enum Want {
    Package,
    Contract,
    Either,
    Ok,
}
fn pascal(m: &str) -> String {
    m.split('_')
        .map(|w| {
            let mut c = w.chars();
            c.next().map(|f| f.to_ascii_uppercase().to_string()).unwrap_or_default() + c.as_str()
        })
        .collect()
}
/// Whether rustc takes the name as an identifier.
fn ident(n: &str) -> bool {
    !KEYWORDS.contains(&n) && parse_errors(&format!("mod {n} {{}}")).is_empty()
}
fn want(n: &str) -> Want {
    let ok = |c: char| c.is_alphanumeric() || c == '_' || c == '-';
    if n.is_empty() || n.chars().any(|c| !ok(c)) {
        return Want::Package;
    }
    if !n.chars().next().unwrap().is_alphabetic() {
        return Want::Contract;
    }
    let m = n.replace('-', "_");
    if !ident(&m) || !ident(&pascal(&m)) {
        return Want::Either;
    }
    Want::Ok
}
/// The text of a snippet with its placeholders filled in.
fn fill(t: &str) -> Option<String> {
    let mut out = String::new();
    let b: Vec<char> = t.chars().collect();
    let mut i = 0;
    let mut open = 0;
    while i < b.len() {
        if b[i] == '\\' && i + 1 < b.len() && ['$', '}', '\\'].contains(&b[i + 1]) {
            out.push(b[i + 1]);
            i += 2;
        } else if b[i] == '$' && b.get(i + 1) == Some(&'{') {
            let mut j = i + 2;
            while b.get(j).is_some_and(|c| c.is_ascii_digit()) {
                j += 1;
            }
            if j == i + 2 {
                return None;
            }
            match b.get(j) {
                Some(':') => {
                    open += 1;
                    i = j + 1;
                }
                Some('}') => i = j + 1,
                _ => return None,
            }
        } else if b[i] == '$' {
            let mut j = i + 1;
            while b.get(j).is_some_and(|c| c.is_ascii_digit()) {
                j += 1;
            }
            if j == i + 1 {
                return None;
            }
            i = j;
        } else if b[i] == '}' && open > 0 {
            open -= 1;
            i += 1;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    (open == 0).then_some(out)
}
fn check_lib(what: &str, t: &str, n: &str, v5: bool) -> Result<(), Fail> {
    let errs = parse_errors(t);
    if !errs.is_empty() {
        return fail(format!("{what}: source does not parse"), format!("{errs:?}\n{t}"), n);
    }
    let ds = analyze(t, v5).diagnostics();
    if !ds.is_empty() {
        return fail(format!("{what}: source is flagged"), format!("{}\n{t}", show_diags(t, &ds)), n);
    }
    let module = n.replace('-', "_");
    let strukt = pascal(&module);
    let f = ink_analyzer_ir::InkFile::parse(t);
    let c = f.contracts();
    let names = |i: &ast::Struct| i.name().map(|n| n.to_string());
    let m = c.first().and_then(|c| c.module()).and_then(|m| m.name()).map(|n| n.to_string());
    if c.len() != 1 || m.as_deref() != Some(module.as_str()) {
        return fail(format!("{what}: contract name"), format!("{m:?} instead of {module}\n{t}"), n);
    }
    let st = c[0].storage().and_then(|s| s.struct_item()).and_then(|i| names(i));
    if st.as_deref() != Some(strukt.as_str()) {
        return fail(format!("{what}: storage name"), format!("{st:?} instead of {strukt}\n{t}"), n);
    }
    if c[0].constructors().is_empty() || c[0].messages().is_empty() {
        return fail(format!("{what}: no constructor or message"), t, n);
    }
    let imp: Vec<String> = c[0].impls().iter().filter_map(|i| i.impl_item()).filter_map(|i| i.self_ty()).map(|t| t.syntax().to_string()).collect();
    if imp.is_empty() || imp.iter().any(|i| *i != strukt) {
        return fail(format!("{what}: implementation of another type"), format!("{imp:?}\n{t}"), n);
    }
    Ok(())
}
fn check_manifest(what: &str, t: &str, n: &str, v5: bool) -> Result<(), Fail> {
    let m: toml::Table = match t.parse() {
        Ok(m) => m,
        Err(e) => return fail(format!("{what}: manifest is no TOML"), format!("{e}\n{t}"), n),
    };
    let get = |p: &[&str]| -> Option<toml::Value> {
        let mut v = toml::Value::Table(m.clone());
        for k in p {
            v = v.get(*k)?.clone();
        }
        Some(v)
    };
    if get(&["package", "name"]).and_then(|v| v.as_str().map(String::from)).as_deref() != Some(n) {
        return fail(format!("{what}: package name"), t, n);
    }
    for (sec, dep) in [("dependencies", "ink"), ("dev-dependencies", "ink_e2e")] {
        let d = get(&[sec, dep]);
        let v = d.as_ref().and_then(|d| d.as_str().or_else(|| d.get("version").and_then(|v| v.as_str()))).unwrap_or("").to_string();
        if !v.starts_with(if v5 { "5" } else { "4" }) {
            return fail(format!("{what}: version of {dep}"), format!("`{v}`\n{t}"), n);
        }
    }
    if get(&["dependencies", "ink", "default-features"]) != Some(toml::Value::Boolean(false)) {
        return fail(format!("{what}: default features of ink"), t, n);
    }
    let std: Vec<String> = get(&["features", "std"]).and_then(|v| v.as_array().cloned()).unwrap_or_default().iter().filter_map(|v| v.as_str().map(String::from)).collect();
    if !std.contains(&"ink/std".to_string()) {
        return fail(format!("{what}: features"), t, n);
    }
    for f in &std {
        let d = f.split('/').next().unwrap();
        if get(&["dependencies", d]).is_none() {
            return fail(format!("{what}: feature of an undeclared dependency"), format!("{f}\n{t}"), n);
        }
    }
    // The ink! 4 codegen needs the codec crates.
    for d in ["scale", "scale-info"] {
        if get(&["dependencies", d]).is_some() == v5 {
            return fail(format!("{what}: {d} dependency"), t, n);
        }
    }
    if get(&["lib", "path"]) != Some(toml::Value::String("lib.rs".into())) {
        return fail(format!("{what}: library path"), t, n);
    }
    for k in ["ink-as-dependency", "e2e-tests", "default"] {
        if get(&["features", k]).is_none() {
            return fail(format!("{what}: feature {k}"), t, n);
        }
    }
    Ok(())
}
fn check(n: &str, v5: bool) -> Result<bool, Fail> {
    let w = want(n);
    match (ink_analyzer::new_project(n.to_string(), ver(v5)), &w) {
        (Err(Error::PackageName), Want::Package | Want::Either) | (Err(Error::ContractName), Want::Contract | Want::Either) => Ok(false),
        (Err(e), _) => fail("wrongly rejected", format!("{e:?}, expected {w:?}"), n),
        (Ok(p), Want::Ok) => {
            let v = if v5 { "v5" } else { "v4" };
            check_lib(v, &p.lib.plain, n, v5)?;
            check_manifest(v, &p.cargo.plain, n, v5)?;
            if let Some(t) = &p.lib.snippet {
                let Some(t) = fill(t) else { return fail("malformed snippet", t.clone(), n) };
                check_lib(&format!("{v} snippet"), &t, n, v5)?;
            }
            if let Some(t) = &p.cargo.snippet {
                let Some(t) = fill(t) else { return fail("malformed snippet", t.clone(), n) };
                check_manifest(&format!("{v} snippet"), &t, n, v5)?;
            }
            Ok(true)
        }
        (Ok(p), _) => fail("wrongly accepted", format!("expected {w:?}\n{}", p.lib.plain), n),
    }
}
fn server(s: &mut Src, n: &str) -> Result<(), Fail> {
    let caps = Caps::random(s);
    let root = s.pick(&["file:///tmp/vp-none/p", "file:///tmp/vp-none/p/", "file:///a%20b/c", "untitled:/x/y"]).to_string();
    let mut c = match Client::start(&caps.json()) {
        Ok(c) => c,
        Err(d) => return d.fail("initialize", n),
    };
    let ms = match c.request(7.into(), "workspace/executeCommand", json!({"command": "createProject", "arguments": [{"name": n, "root": root}]})) {
        Ok(m) => m,
        Err(d) => return d.fail("createProject", n),
    };
    c.stop().ok();
    let mut resp = None;
    let mut edit = None;
    for m in ms {
        match m {
            Message::Response(r) => resp = Some(r),
            Message::Request(r) => edit = Some(r),
            _ => (),
        }
    }
    let Some(resp) = resp else { return fail("server: no response", "", n) };
    if want(n) != Want::Ok {
        if resp.error.is_none() || edit.is_some() {
            return fail("server: invalid name accepted", format!("{resp:?} {edit:?}"), n);
        }
        return Ok(());
    }
    if resp.error.is_some() {
        return fail("server: valid name rejected", format!("{resp:?}"), n);
    }
    let mut files: std::collections::BTreeMap<String, String> = Default::default();
    if let Some(e) = &edit {
        let mut created = vec![];
        for op in e.params["edit"]["documentChanges"].as_array().into_iter().flatten() {
            if op["kind"] == json!("create") {
                created.push(op["uri"].clone());
            } else {
                let u = &op["textDocument"]["uri"];
                if !created.contains(u) {
                    return fail("server: edit before creation", format!("{op}"), n);
                }
                files.insert(u.as_str().unwrap_or("").into(), op["edits"][0]["newText"].as_str().unwrap_or("").into());
            }
        }
        if created.len() != files.len() {
            return fail("server: files without contents", format!("{e:?}"), n);
        }
    } else if let Some(Value::Object(r)) = &resp.result {
        for (u, t) in r["files"].as_object().into_iter().flatten() {
            files.insert(u.clone(), t.as_str().unwrap_or("").into());
        }
    }
    let base = root.trim_end_matches('/');
    let p = ink_analyzer::new_project(n.to_string(), ver(true)).unwrap();
    let expected: std::collections::BTreeMap<String, String> = [(format!("{base}/lib.rs"), p.lib.plain), (format!("{base}/Cargo.toml"), p.cargo.plain)].into();
    if files != expected {
        return fail("server: files", format!("{:?}\nunder {root}", files.keys().collect::<Vec<_>>()), n);
    }
    Ok(())
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let n = name(s);
    set_current(&n);
    check(&n, false)?;
    check(&n, true)?;
    let mut labels = vec![format!("{:?}", want(&n))];
    let mut evals = 2;
    if s.chance(1, 12) {
        labels.push("server".into());
        evals += 1;
        server(s, &n)?;
    }
    let cs: Vec<char> = n.chars().collect();
    let near = want(&n) == Want::Ok || (0..cs.len()).any(|i| want(&cs.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, c)| *c).collect::<String>()) == Want::Ok);
    Ok(Info { nontrivial: near, key: fnv(n.as_bytes()), labels, sample: n, evals })
}
/// Every character of the table first, in the middle and last.
fn fixed(i: usize) -> Result<Info, Fail> {
    let c = CHARS[i / 3];
    let n = match i % 3 {
        0 => format!("{c}ab"),
        1 => format!("a{c}b"),
        _ => format!("ab{c}"),
    };
    set_current(&n);
    check(&n, false)?;
    check(&n, true)?;
    Ok(Info { nontrivial: true, key: fnv(n.as_bytes()), labels: vec![format!("{:?}", want(&n))], sample: n, evals: 2 })
}
