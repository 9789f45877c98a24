//! C10: completions offer exactly the ink! attributes, arguments and entities that are valid in context.
use super::util::*;
use crate::attrs::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::suggest::*;
use ink_analyzer::{Completion, TextEdit};
use std::collections::BTreeMap;

pub static PROP: Prop = Prop {
    id: "C10",
    rule: "a case is a generated valid file with one half-typed attribute path, half-typed argument or empty line at which completions are asked for and each of them is accepted; non-trivial: at least one completion is expected",
    quick: 9000,
    thorough: 300000,
    run,
    fixed: None,
    shrink_evals: 1500,
    assumptions: &["context is the nearest enclosing item with ink! attributes; a second attribute macro next to an existing one and the completion of a name that is already complete are not specified"],
    threads: 8,
};
pub fn near(text: &str, o: usize) -> String {
    let (mut a, mut b) = (o.saturating_sub(50), (o + 50).min(text.len()));
    while !text.is_char_boundary(a) {
        a -= 1;
    }
    while !text.is_char_boundary(b) {
        b += 1;
    }
    format!("`{}|{}`", &text[a..o], &text[o..b])
}
/// The plain text of a snippet with its default values.
pub fn expand(snippet: &str) -> String {
    let mut out = String::new();
    let mut it = snippet.chars().peekable();
    let mut depth = 0;
    while let Some(c) = it.next() {
        match c {
            '\\' => out.extend(it.next()),
            '$' if it.peek() == Some(&'{') => {
                it.next();
                while it.peek().is_some_and(|c| c.is_ascii_digit()) {
                    it.next();
                }
                if it.peek() == Some(&':') {
                    it.next();
                }
                depth += 1;
            }
            '$' if it.peek().is_some_and(|c| c.is_ascii_digit()) => {
                while it.peek().is_some_and(|c| c.is_ascii_digit()) {
                    it.next();
                }
            }
            '}' if depth > 0 => depth -= 1,
            c => out.push(c),
        }
    }
    out
}
/// Name and value of an accepted argument; nested values are given as `(..)`.
pub fn name_value(t: &str) -> (String, Option<String>) {
    let t = t.trim();
    if let Some((a, b)) = t.split_once('=') {
        (a.trim().into(), Some(b.trim().into()))
    } else if let Some(i) = t.find('(') {
        (t[..i].trim().into(), Some(t[i..].trim().into()))
    } else {
        (t.into(), None)
    }
}
pub fn good_value(f: &File, name: &str, val: &Option<String>) -> bool {
    let v = val.as_deref();
    match name {
        "additional_contracts" | "keep_attr" | "namespace" | "signature_topic" | "url" => v.is_some_and(|v| v.len() > 1 && v.starts_with('"') && v.ends_with('"')),
        "derive" | "handle_status" => matches!(v, Some("true" | "false")),
        "selector" | "extension" | "function" => v.is_some_and(|v| v.parse::<u32>().is_ok()),
        "env" | "environment" => v.is_some_and(|v| {
            let last = v.rsplit("::").next().unwrap().trim();
            v == "ink::env::DefaultEnvironment" || !f.ids(|i, _| i.name == last).is_empty()
        }),
        "backend" => matches!(v, Some("(node)" | "(runtime_only)")),
        _ => v.is_none(),
    }
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    match s.weighted(&[10, 6, 8, 1]) {
        0 => args_case(s),
        1 => paths_case(s),
        3 => nested_case(s),
        _ => entity_case(s),
    }
}
pub fn check_labels(what: &str, text: &str, o: usize, v5: bool, have: &[String], want: &Set) -> Result<(), Fail> {
    let h: Set = have.iter().cloned().collect();
    if h.len() != have.len() {
        return fail(format!("{what}: offered twice"), format!("{have:?} at {}", near(text, o)), text);
    }
    if h != *want {
        let extra: Vec<_> = h.difference(want).collect();
        let missing: Vec<_> = want.difference(&h).collect();
        return fail(
            format!("{what}: {}", if extra.is_empty() { "not offered" } else { "offered though not valid" }),
            format!("v{} at {}: superfluous {extra:?}, missing {missing:?}", if v5 { 5 } else { 4 }, near(text, o)),
            text,
        );
    }
    Ok(())
}
pub fn snippet_ok(e: &TextEdit) -> bool {
    let squeeze = |x: &str| x.split_whitespace().collect::<String>();
    e.snippet.as_ref().map_or(true, |s| squeeze(&expand(s)) == squeeze(&e.text))
}
/// Completions of arguments.
fn args_case(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut f = valid_file(s, v5, Opts { wildcard: false, ..Opts::default() });
    if s.bool() {
        small_ids(s, &mut f);
    }
    let mut labels = vec!["arguments".to_string(), format!("v{}", if v5 { 5 } else { 4 })];
    let none = || Ok(Info { nontrivial: false, key: 0, labels: vec!["no target".into()], sample: String::new(), evals: 1 });
    // The item and the attribute to complete.
    let existing = s.bool();
    let (id, aid) = if existing {
        let mut at = vec![];
        f.walk(|i, st| {
            if st.last().is_some_and(|p| p.role == Role::TraitImpl) {
                return;
            }
            at.extend(i.attrs.iter().filter(|a| a.is_ink()).map(|a| (i.id, a.id)));
            for fd in i.fields() {
                at.extend(fd.attrs.iter().filter(|a| a.is_ink()).map(|a| (fd.id, a.id)));
            }
        });
        if at.is_empty() {
            return none();
        }
        let (id, aid) = *s.pick(&at);
        if s.chance(1, 3) {
            // A further attribute.
            let a = ink(&mut f, vec![]);
            let n = a.id;
            let k = s.u32() as usize;
            with_attrs(&mut f, id, |v| v.insert(k % (v.len() + 1), a));
            labels.push("further attribute".into());
            (id, n)
        } else {
            (id, aid)
        }
    } else {
        let Some((id, _)) = bare(s, &mut f) else { return none() };
        let mut args = vec![];
        if s.chance(1, 3) {
            // Some arguments of one sort of entity are there.
            let (sort, _, sc, _) = context(&f, id).unwrap();
            let mut fit = args_for(sort, v5);
            if let Some(x) = scope_args(&sc.as_ref().map(|v| v.iter().collect()), v5) {
                fit.retain(|n| x.contains(n));
            }
            if let Some(sc) = &sc {
                if !fit.is_empty() && !sc.is_empty() {
                    let first = s.pick(&fit.iter().cloned().collect::<Vec<_>>()).clone();
                    let v = match first.as_str() {
                        "selector" | "extension" | "function" => Val::Eq("77".into()),
                        "handle_status" => Val::Eq("true".into()),
                        "namespace" => Val::Eq("\"a\"".into()),
                        "signature_topic" => Val::Eq(format!("\"{}\"", "1a".repeat(32))),
                        _ => Val::None,
                    };
                    args.push(arg(&mut f, &first, v));
                }
            }
        }
        let a = ink(&mut f, args);
        let aid = a.id;
        if s.chance(1, 4) && !a.args.is_empty() {
            // The completed attribute is another one.
            let b = ink(&mut f, vec![]);
            let bid = b.id;
            let first = s.bool();
            with_attrs(&mut f, id, |v| v.extend(if first { [a, b] } else { [b, a] }));
            (id, bid)
        } else {
            with_attrs(&mut f, id, |v| v.push(a));
            (id, aid)
        }
    };
    let (sort, attrs, scope, stack) = context(&f, id).unwrap();
    let scope_refs: Option<Vec<&Attr>> = scope.as_ref().map(|v| v.iter().collect());
    let inks: Vec<&Attr> = attrs.iter().filter(|a| a.is_ink()).collect();
    let attr = inks.iter().find(|a| a.id == aid).copied().unwrap();
    labels.push(if existing { "existing item".into() } else { format!("new {sort}") });
    labels.push(match &scope {
        None => "scope: none".into(),
        Some(v) => format!("scope: {}", match &v[0].kind {
            AttrKind::Macro(p) => p.clone(),
            _ => v[0].args.first().map(|a| a.name.clone()).unwrap_or_default(),
        }),
    });
    let all = addable(sort, &inks, attr, None, &scope_refs, v5);
    let is_trait_impl = f.get(id).is_some_and(|i| matches!(&i.kind, Kind::Impl { trait_: Some(_), .. }));
    // Secondary arguments are completed before the entity of another attribute is known: only the attribute counts.
    let pool: Vec<String> = if all.is_empty() || s.chance(1, 5) { ARGS.iter().map(|x| x.to_string()).collect() } else { all.iter().cloned().collect() };
    let full = s.pick(&pool).clone();
    let prefix = if s.chance(1, 3) { String::new() } else { full[..s.range(1, full.len())].to_string() };
    if ARGS.contains(&prefix.as_str()) || ["const", "type", "use", "mod"].contains(&prefix.as_str()) || is_trait_impl && prefix.is_empty() && s.chance(1, 2) {
        return none();
    }
    let tail = if prefix.is_empty() || s.chance(3, 4) { "" } else { "zz" };
    // Where it is typed.
    let at = if prefix.is_empty() { attr.args.len() } else { s.below(attr.args.len() + 1) };
    let spaced = s.bool();
    let tid = f.id();
    with_attrs(&mut f, id, |v| {
        let a = v.iter_mut().find(|a| a.id == aid).unwrap();
        a.parens = true;
        if prefix.is_empty() {
            a.trailing_comma = !a.args.is_empty();
        } else {
            a.args.insert(at, Arg { id: tid, name: format!("{prefix}{tail}"), val: Val::None });
        }
    });
    let style = Style::random(s);
    let mut doc = render(&f, s, &style);
    let parens = doc.sp(aid, Sp::AttrArgs).unwrap();
    let o = if prefix.is_empty() {
        // Behind the parenthesis or comma, or before the closing parenthesis.
        let t = doc.toks.iter().filter(|t| t.1 < parens.1 && t.0 >= parens.0 && matches!(&doc.text[t.0..t.1], "(" | ",")).map(|t| t.1).max().unwrap();
        if spaced {
            let end = parens.1 - 1;
            if end == t {
                doc.text.insert(t, ' ');
                t + 1
            } else {
                end
            }
        } else {
            t
        }
    } else {
        doc.sp(tid, Sp::ArgName).unwrap().0 + prefix.len()
    };
    let text = doc.text;
    set_current(&text);
    let mut want: Set = all.into_iter().filter(|x| x.starts_with(&prefix)).collect();
    if is_trait_impl {
        want.remove("namespace");
    }
    let got = analyze(&text, v5).completions(ts(o));
    let what = format!("arguments of {}", match &attr.kind {
        AttrKind::Macro(p) => p.clone(),
        _ => format!("#[ink] on {sort}"),
    });
    let names: Vec<String> = got.iter().map(|c| name_value(&c.edit.text).0).collect();
    check_labels(&what, &text, o, v5, &names, &want)?;
    let mut evals = 1;
    let wanted = want.len();
    let valid_before = if existing && labels.iter().all(|l| l != "further attribute") || !inks.is_empty() && existing { Some(()) } else { None };
    for c in &got {
        evals += 1;
        let (n, v) = name_value(&c.edit.text);
        if !good_value(&f, &n, &v) {
            return fail(format!("value of {n}"), format!("`{}` at {}", c.edit.text, near(&text, o)), text);
        }
        accepted(&f, id, aid, tid, &prefix, c, &text, o, v5, valid_before.is_some(), &stack)?;
    }
    Ok(Info { nontrivial: wanted > 0, key: fnv(text.as_bytes()), labels, sample: format!("{} -> {want:?}", near(&text, o)), evals })
}
#[allow(clippy::too_many_arguments)]
fn accepted(f: &File, id: Id, aid: Id, tid: Id, prefix: &str, c: &Completion, text: &str, o: usize, v5: bool, valid: bool, stack: &[Item]) -> Result<(), Fail> {
    let (n, v) = name_value(&c.edit.text);
    let Some(out) = apply(text, std::slice::from_ref(&c.edit)) else { return fail("edit does not apply", format!("{c:?}"), text) };
    if c.range != c.edit.range || !c.edit.text.contains(c.label.trim()) || !snippet_ok(&c.edit) {
        return fail("label, snippet or range differ from the edit", format!("{c:?}"), text);
    }
    // The same file with the argument in place.
    let mut g = f.clone();
    let val = match v {
        None => Val::None,
        Some(v) if v.starts_with('(') => Val::Nested(vec![Arg { id: tid + 1, name: v[1..v.len() - 1].into(), val: Val::None }]),
        Some(v) => Val::Eq(v),
    };
    with_attrs(&mut g, id, |l| {
        let a = l.iter_mut().find(|a| a.id == aid).unwrap();
        let x = Arg { id: tid, name: n.clone(), val };
        match a.args.iter_mut().find(|y| y.id == tid) {
            Some(y) => *y = x,
            None => {
                a.trailing_comma = false;
                a.args.push(x);
            }
        }
    });
    let want = render(&g, &mut Src::replay(vec![]), &Style::pretty()).text;
    let (x, y) = (tokens(&out), tokens(&want));
    if x != y {
        return fail("accepting changes something else", format!("`{}` at {} (typed `{prefix}`): {}", c.edit.text, near(text, o), diff(&x, &y)), text);
    }
    let (x, y) = (plain_comments(&out), plain_comments(text));
    if x != y {
        return fail("accepting changes comments", format!("`{}` at {}", c.edit.text, near(text, o)), text);
    }
    // Values are not in use yet, and what was valid stays valid.
    let later = f.get(id).is_some_and(|i| i.attrs.iter().filter(|a| a.is_ink()).last().is_some_and(|a| a.id != aid));
    let first = later || f.get(id).is_some_and(|i| i.attrs.iter().any(|a| a.id == aid && a.args.first().is_some_and(|x| x.id == tid)));
    let in_trait_def = stack.last().is_some_and(|p| p.role == Role::TraitDef);
    if valid && !first && !in_trait_def && !["impl", "default", "signature_topic", "anonymous", "namespace", "keep_attr", "constructor", "message"].contains(&n.as_str()) {
        let ds = analyze(&out, v5).diagnostics();
        if let Some(d) = ds.first() {
            return fail(format!("not valid with {n}: {}", msg_kind(&d.message)), format!("`{}` at {}\n{}", c.edit.text, near(text, o), show_diags(&out, &ds)), text);
        }
    }
    Ok(())
}
/// Completions of the nested arguments of e2e tests.
fn nested_case(s: &mut Src) -> Result<Info, Fail> {
    let mut f = valid_file(s, true, Opts { contract: false, ..Opts::default() });
    let Some((id, _)) = bare(s, &mut f) else { return Ok(Info { evals: 1, ..Info::default() }) };
    let (outer, names): (&str, &[&str]) = *s.pick(&[("backend", &["node", "runtime_only"][..]), ("node", &["url"]), ("runtime_only", &["sandbox"])]);
    let full = *s.pick(names);
    let prefix = &full[..s.below(full.len())];
    let want: Set = names.iter().filter(|n| n.starts_with(prefix)).map(|x| x.to_string()).collect();
    let tid = f.id();
    let inner = Arg { id: tid, name: prefix.into(), val: Val::None };
    let mut a = arg(&mut f, outer, Val::Nested(vec![inner]));
    if outer != "backend" {
        a = arg(&mut f, "backend", Val::Nested(vec![a]));
    }
    let mut args = vec![a];
    if s.bool() {
        let e = eq(&mut f, "environment", "crate::Env");
        args.insert(s.below(2), e);
    }
    let m = mac(&mut f, "ink_e2e::test", args);
    with_attrs(&mut f, id, |v| v.push(m));
    let style = Style { comments: false, ..Style::random(s) };
    let doc = render(&f, s, &style);
    let text = doc.text.clone();
    set_current(&text);
    // The name of an empty argument is where the rendering put it.
    let (x, y) = doc.sp(tid, Sp::ArgName).unwrap();
    let o = if prefix.is_empty() { text[..x].rfind('(').unwrap() + 1 } else { y };
    let got = analyze(&text, true).completions(ts(o));
    let strip = |t: &str| name_value(t.trim().strip_prefix('(').and_then(|t| t.strip_suffix(')')).unwrap_or(t)).0;
    let have: Vec<String> = got.iter().map(|c| strip(&c.edit.text)).collect();
    check_labels(&format!("nested in {outer}"), &text, o, true, &have, &want)?;
    for c in &got {
        let Some(out) = apply(&text, std::slice::from_ref(&c.edit)) else { return fail("edit does not apply", format!("{c:?}"), text) };
        let t = c.edit.text.trim();
        let v = t.strip_prefix('(').and_then(|t| t.strip_suffix(')')).unwrap_or(t);
        let y = tokens(&format!("{}{v}{}", &text[..o - prefix.len()], &text[o..]));
        let x = tokens(&out);
        if x != y {
            return fail("accepting changes something else", format!("`{}` at {}: {}", c.edit.text, near(&text, o), diff(&x, &y)), text);
        }
    }
    Ok(Info { nontrivial: !want.is_empty(), key: fnv(text.as_bytes()), labels: vec![format!("nested in {outer}")], sample: format!("{} -> {want:?}", near(&text, o)), evals: 1 + got.len() })
}
/// Completions of attribute paths.
fn paths_case(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut f = valid_file(s, v5, Opts::default());
    let none = || Ok(Info { nontrivial: false, key: 0, labels: vec!["no target".into()], sample: String::new(), evals: 1 });
    let id = if s.chance(1, 3) {
        let ids = f.ids(|i, _| i.attrs.iter().any(|a| a.is_ink()));
        if ids.is_empty() {
            return none();
        }
        *s.pick(&ids)
    } else {
        let Some((id, _)) = bare(s, &mut f) else { return none() };
        id
    };
    let (sort, attrs, scope, _) = context(&f, id).unwrap();
    let scope_refs: Option<Vec<&Attr>> = scope.as_ref().map(|v| v.iter().collect());
    let inks: Vec<&Attr> = attrs.iter().filter(|a| a.is_ink()).collect();
    if macro_names(&inks).iter().any(|m| ["ink::scale_derive", "ink::storage_item", "ink::event"].contains(&m.as_str())) {
        return none();
    }
    let mut valid = if inks.is_empty() { macros_for(sort, v5) } else { set(&[]) };
    if let Some(x) = scope_macros(&scope_refs, v5) {
        valid.retain(|m| x.contains(m));
    }
    let pool: Vec<String> = if valid.is_empty() || s.chance(1, 5) { MACROS.iter().map(|x| x.to_string()).collect() } else { valid.iter().cloned().collect() };
    let full = s.pick(&pool).clone();
    let (krate, name) = full.split_once("::").unwrap();
    let typed = match s.below(6) {
        0 => String::new(),
        1 => krate[..s.range(1, krate.len())].to_string(),
        2 => krate.to_string(),
        3 => format!("{krate}::"),
        _ => format!("{krate}::{}", &name[..s.range(1, name.len())]),
    };
    if MACROS.contains(&typed.as_str()) || typed.ends_with("::trait") {
        return none();
    }
    // Typed as a marker and put in by hand.
    let a = raw_attr(&mut f, "vp_cursor");
    let k = s.u32() as usize;
    with_attrs(&mut f, id, |v| v.insert(k % (v.len() + 1), a));
    let style = Style::random(s);
    let text0 = render(&f, s, &style).text;
    let p = text0.find("vp_cursor").unwrap();
    let space = if s.chance(1, 3) { " " } else { "" };
    let (pre, post) = text0.split_at(p);
    let post = &post["vp_cursor".len()..];
    let text = format!("{pre}{space}{typed}{post}");
    let o = p + space.len() + typed.len();
    set_current(&text);
    let got = analyze(&text, v5).completions(ts(o));
    let path = |t: &str| -> String {
        let t = t.trim().trim_end_matches(';');
        if t.starts_with("::") {
            format!("{krate}{t}")
        } else if t.contains("::") || !typed.contains("::") {
            t.to_string()
        } else {
            format!("{krate}::{t}")
        }
    };
    let want: Set = if typed.contains("::") {
        valid.iter().filter(|m| m.starts_with(&typed)).cloned().collect()
    } else if !valid.is_empty() {
        valid.clone()
    } else if macro_names(&inks).is_empty() && !inks.is_empty() {
        // Arguments can go into another attribute.
        if "ink()".starts_with(&typed) && !typed.is_empty() { set(&["ink()"]) } else { set(&[]) }
    } else if inks.is_empty() {
        ["ink", "ink_e2e"].iter().filter(|c| !typed.is_empty() && c.starts_with(&typed)).map(|c| c.to_string()).collect()
    } else {
        set(&[])
    };
    // Without a closing bracket in the tree (`#[ink::]`), other items are not recognized.
    if typed.ends_with("::") && macros_for(sort, v5).is_empty() && sort != "impl" {
        return none();
    }
    let have: Vec<String> = got.iter().map(|c| path(&c.edit.text)).collect();
    check_labels(&format!("macros on {sort}"), &text, o, v5, &have, &want)?;
    for c in &got {
        let Some(out) = apply(&text, std::slice::from_ref(&c.edit)) else { return fail("edit does not apply", format!("{c:?}"), text) };
        let p = path(&c.edit.text);
        let (x, y) = (tokens(&out), tokens(&format!("{pre}{p}{post}")));
        if x != y || plain_comments(&out) != plain_comments(&text) {
            return fail("accepting changes something else", format!("`{}` at {} (typed `{typed}`): {}", c.edit.text, near(&text, o), diff(&x, &y)), text);
        }
        if c.range != c.edit.range || c.label != c.edit.text || !snippet_ok(&c.edit) {
            return fail("label, snippet or range differ from the edit", format!("{c:?}"), text);
        }
    }
    let labels = vec!["paths".into(), format!("v{}", if v5 { 5 } else { 4 }), format!("path on {sort}"), format!("typed {}", if typed.contains("::") { "crate::.." } else if typed.is_empty() { "nothing" } else { "crate" })];
    Ok(Info { nontrivial: !want.is_empty(), key: fnv(text.as_bytes()), labels, sample: format!("{} -> {want:?}", near(&text, o)), evals: 1 + got.len() })
}
const ROOT4: &[(&str, &str)] = &[
    ("trait definition", "#[ink::trait_definition]..pub trait TraitDefinition {...}"),
    ("chain extension", "#[ink::chain_extension]..pub trait ChainExtension {...}"),
    ("storage item", "#[ink::storage_item]..pub struct StorageItem {...}"),
    ("environment", "#[derive(scale_info::TypeInfo)]..pub enum MyEnvironment {...}"),
];
const ROOT5: &[(&str, &str)] = &[
    ("event v2", "#[ink::event]..pub struct Event {...}"),
    ("trait definition", "#[ink::trait_definition]..pub trait TraitDefinition {...}"),
    ("chain extension", "#[ink::chain_extension(...)]..pub trait ChainExtension {...}"),
    ("combine extensions", "ink::combine_extensions! {..}"),
    ("storage item", "#[ink::storage_item]..pub struct StorageItem {...}"),
    ("environment", "#[ink::scale_derive(TypeInfo)]..pub enum MyEnvironment {...}"),
];
/// The entities that can be added to a scope (labels of the completions with their sort).
pub fn entities(f: &File, parent: Option<&Item>, stack: &[Item]) -> Option<BTreeMap<String, String>> {
    let v5 = f.v5;
    let mut out: Vec<(&str, &str)> = vec![];
    match parent {
        None => {
            out.extend(if v5 { ROOT5 } else { ROOT4 });
            if f.ids(|i, _| i.role == Role::Contract).is_empty() {
                out.push(("contract", "#[ink::contract]..mod contract {...}"));
            }
        }
        Some(p) => match (&p.kind, p.role) {
            (_, Role::Contract) => {
                if !p.children().iter().any(|c| c.role == Role::Storage) {
                    out.push(("storage", "#[ink(storage)]..pub struct Storage {...}"));
                }
                if v5 {
                    out.push(("event v2", "#[ink::event]..pub struct Event {...}"));
                }
                out.push(("event", "#[ink(event)]..pub struct Event {...}"));
            }
            (Kind::Mod(_), _) => {
                let cfgs: Vec<&str> = p.attrs.iter().filter_map(|a| if let AttrKind::Raw(r) = &a.kind { Some(r.as_str()) } else { None }).filter(|r| r.starts_with("cfg(")).collect();
                if cfgs.iter().any(|c| c.contains("test") && !c.contains("feature") || c.contains("(test") || c.contains(" test")) {
                    out.push(("test", "#[ink::test]..fn test(..) {...}"));
                    if cfgs.iter().any(|c| c.contains("\"e2e-tests\"")) {
                        out.push(("e2e test", "#[ink_e2e::test]..async fn test(..) {...}"));
                    }
                }
            }
            (Kind::Impl { trait_: None, .. }, _) if stack.last().is_some_and(|c| c.role == Role::Contract) => {
                out.push(("constructor", "#[ink(constructor)]..pub fn new(..) {...}"));
                out.push(("message", "#[ink(message)]..pub fn message(..) {...}"));
            }
            (Kind::Impl { .. }, _) => (),
            (_, Role::TraitDef) => out.push(("trait message", "#[ink(message)]..fn message(..);")),
            (_, Role::ChainExt) => {
                if !p.children().iter().any(|c| c.role == Role::ErrorCode) {
                    out.push(("error code", "type ErrorCode = ..;"));
                }
                out.push(("extension", if v5 { "#[ink(function=..)]..pub fn extension(..);" } else { "#[ink(extension=..)]..pub fn extension(..);" }));
            }
            (_, Role::Event | Role::EventV2) => out.push(("topic", "#[ink(topic)]..field: ..")),
            (Kind::Trait { .. } | Kind::Struct { .. }, _) => (),
            _ => return None,
        },
    }
    Some(out.into_iter().map(|(a, b)| (b.to_string(), a.to_string())).collect())
}
/// What the text of a new entity has to contain (as tokens without spaces).
pub fn entity_mark(sort: &str, v5: bool) -> &'static str {
    match sort {
        "storage" => "#[ink(storage)]pubstruct",
        "event" => "#[ink(event)]pubstruct",
        "event v2" => "#[ink::event]pubstruct",
        "topic" => "#[ink(topic)]",
        "constructor" => "#[ink(constructor)]pubfn",
        "message" => "#[ink(message)]pubfn",
        "trait message" => "#[ink(message)]fn",
        "extension" if v5 => "#[ink(function=",
        "extension" => "#[ink(extension=",
        "error code" => "typeErrorCode=",
        "test" => "#[ink::test]fn",
        "e2e test" => "#[ink_e2e::test]asyncfn",
        "trait definition" => "#[ink::trait_definition]pubtrait",
        "chain extension" if v5 => "#[ink::chain_extension(extension=",
        "chain extension" => "#[ink::chain_extension]pubtrait",
        "storage item" => "#[ink::storage_item]",
        "environment" => "impl",
        "combine extensions" => "ink::combine_extensions!",
        "contract" => "#[ink::contract]",
        _ => "",
    }
}
/// Completions of whole entities.
fn entity_case(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let contract = s.chance(3, 4);
    let mut f = valid_file(s, v5, Opts { contract, wildcard: false, ..Opts::default() });
    let none = || Ok(Info { nontrivial: false, key: 0, labels: vec!["no target".into()], sample: String::new(), evals: 1 });
    if s.bool() {
        small_ids(s, &mut f);
    }
    let mut valid = true;
    if s.chance(1, 6) {
        // A contract without storage, or a chain extension without error code.
        let ids = f.ids(|i, _| matches!(i.role, Role::Storage | Role::ErrorCode));
        if !ids.is_empty() {
            let id = *s.pick(&ids);
            f.remove(id);
            valid = false;
        }
    }
    let parents = f.ids(|i, _| matches!(&i.kind, Kind::Mod(Some(_)) | Kind::Impl { .. } | Kind::Trait { .. } | Kind::Struct { fields: Fields::Named(_), .. }));
    let parent = if parents.is_empty() || s.chance(1, 5) { None } else { Some(*s.pick(&parents)) };
    let (pi, stack) = match parent {
        None => (None, vec![]),
        Some(p) => {
            let mut st = vec![];
            f.walk(|i, k| {
                if i.id == p {
                    st = k.iter().map(|x| (*x).clone()).collect();
                }
            });
            (f.get(p).cloned(), st)
        }
    };
    let Some(want) = entities(&f, pi.as_ref(), &stack) else { return none() };
    let id = f.id();
    let at = s.u32() as usize;
    let field = matches!(pi.as_ref().map(|p| &p.kind), Some(Kind::Struct { .. }));
    let mk = Item { id, role: Role::Plain, attrs: vec![], vis: None, name: String::new(), kind: Kind::Raw("vp_cursor".into()) };
    match parent {
        None => {
            let k = at % (f.items.len() + 1);
            f.items.insert(k, mk);
        }
        Some(p) if field => {
            f.with(p, |i| i.fields_mut().map(|v| {
                let k = at % (v.len() + 1);
                v.insert(k, Field { id, attrs: vec![], vis: None, name: Some("vp_cursor".into()), ty: "vp_type".into() })
            }));
        }
        Some(p) => {
            f.with(p, |i| i.children_mut().map(|v| {
                let k = at % (v.len() + 1);
                v.insert(k, mk);
            }));
        }
    }
    let style = Style { comments: false, ..Style::random(s) };
    let text0 = render(&f, s, &style).text;
    let a = text0.find("vp_cursor").unwrap();
    let b = if field {
        let e = text0.find("vp_type").unwrap() + "vp_type".len();
        let rest = &text0[e..];
        let t = rest.trim_start();
        // With its comma.
        if t.starts_with(',') { e + rest.len() - t.len() + 1 } else { e }
    } else {
        a + "vp_cursor".len()
    };
    let (pre, post) = (&text0[..a], &text0[b..]);
    if field && !pre.trim_end().ends_with([',', '{']) {
        return none();
    }
    let indent = *s.pick(&["", "    ", "\t", "        "]);
    let text = format!("{pre}\n{indent}\n{post}");
    let o = pre.len() + 1 + indent.len();
    set_current(&text);
    if valid && !analyze(&text, v5).diagnostics().is_empty() {
        return none();
    }
    let got = analyze(&text, v5).completions(ts(o));
    let have: Vec<String> = got.iter().map(|c| c.label.clone()).collect();
    let w: Set = want.keys().cloned().collect();
    let place = pi.as_ref().map_or("the file".to_string(), |p| format!("{:?} {}", p.role, sort_of(&p.kind)));
    check_labels(&format!("entities in {place}"), &text, o, v5, &have, &w)?;
    for c in &got {
        new_entity(&f, &text, std::slice::from_ref(&c.edit), &want[&c.label], valid)?;
        if c.range != c.edit.range || !snippet_ok(&c.edit) {
            return fail("snippet or range differ from the edit", format!("{c:?}"), text);
        }
    }
    let labels = vec!["entities".into(), format!("v{}", if v5 { 5 } else { 4 }), format!("in {place}"), if valid { "valid file".into() } else { "something missing".into() }];
    Ok(Info { nontrivial: !w.is_empty(), key: fnv(text.as_bytes()), labels, sample: format!("{} -> {w:?}", near(&text, o)), evals: 1 + got.len() })
}
/// Applies edits that add an entity: only adds, the file parses and stays valid.
pub fn new_entity(f: &File, text: &str, edits: &[TextEdit], sort: &str, valid: bool) -> Result<(), Fail> {
    let Some(out) = apply(text, edits) else { return fail("edit does not apply", format!("{edits:?}"), text) };
    let show = || format!("{text}\n// ===== with {sort}:\n{out}");
    if let Some(e) = parse_errors(&out).first() {
        return fail(format!("new {sort}: does not parse"), e.clone(), show());
    }
    let (x, y) = (tokens(text), tokens(&out));
    let i = x.iter().zip(&y).take_while(|(a, b)| a == b).count();
    let j = x.iter().rev().zip(y.iter().rev()).take_while(|(a, b)| a == b).count().min(x.len() - i);
    if i + j != x.len() || y.len() <= x.len() {
        return fail(format!("new {sort}: changes other text"), diff(&x, &y), show());
    }
    let k = y.len() - j;
    // The insertion can also be read as starting some tokens earlier.
    let added = y[i.saturating_sub(8)..k].concat();
    if !added.contains(entity_mark(sort, f.v5)) {
        return fail(format!("new {sort}: not there"), y[i..k].join(" "), show());
    }
    let ds = analyze(&out, f.v5).diagnostics();
    // Implementations of the trait lack a new message.
    let ok = |d: &&ink_analyzer::Diagnostic| !(sort == "trait message" && d.message.starts_with("Missing message(s) for ink! trait"));
    // A second item with the same name.
    let name = y[i..k].iter().skip_while(|t| !["struct", "trait", "enum", "mod", "fn"].contains(&t.as_str())).nth(1).cloned().unwrap_or_default();
    if valid && f.ids(|i, _| i.name == name).is_empty() {
        if let Some(d) = ds.iter().find(ok) {
            return fail(format!("new {sort}: not valid: {}", msg_kind(&d.message)), show_diags(&out, &ds), show());
        }
    } else if sort == "storage" && ds.iter().any(|d| d.message.contains("Missing ink! storage")) {
        return fail("new storage: still missing", show_diags(&out, &ds), show());
    }
    Ok(())
}
