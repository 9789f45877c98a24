//! C11: code actions offer exactly the ink! edits that are valid in context.
use super::c10::{entities, expand, good_value, name_value, near, new_entity};
use super::util::*;
use crate::attrs::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use crate::suggest::*;
use ink_analyzer::{Action, ActionKind};

pub static PROP: Prop = Prop {
    id: "C11",
    rule: "a case is a generated valid file (often with one more item or attribute) with the cursor or selection on an attribute, an item's declaration, a field, an empty line of a body or an empty line of the file; all actions are compared with the expected ones and each is applied; non-trivial: at least one action is expected",
    quick: 9000,
    thorough: 300000,
    run,
    fixed: None,
    shrink_evals: 1500,
    assumptions: &["context is the nearest enclosing item with ink! attributes; items that carry several attribute macros, or a macro next to arguments that belong to another entity, are not specified"],
    threads: 8,
};
const MIGRATE: &str = "Migrate to ink! 5.0";
const EXTRACT: &str = "Extract ink! event into a standalone package";
const FLATTEN: &str = "Flatten ink! attribute arguments.";

fn none() -> Result<Info, Fail> {
    Ok(Info { nontrivial: false, key: 0, labels: vec!["no target".into()], sample: String::new(), evals: 1 })
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    match s.weighted(&[5, 10, 5]) {
        0 => attr_case(s),
        1 => decl_case(s),
        _ => body_case(s),
    }
}
fn arg_label(n: &str) -> String {
    format!("Add ink! {n} attribute argument.")
}
fn macro_label(m: &str) -> String {
    format!("Add ink! {} attribute macro.", if m == "ink_e2e::test" { "e2e test" } else { m.rsplit("::").next().unwrap() })
}
fn entity_label(sort: &str, v5: bool) -> &'static str {
    match sort {
        "storage" => "Add ink! storage `struct`.",
        "event" => "Add ink! event `struct`.",
        "event v2" => "Add ink! event 2.0 `struct`.",
        "topic" => "Add ink! topic `field`.",
        "constructor" => "Add ink! constructor `fn`.",
        "message" | "trait message" => "Add ink! message `fn`.",
        "error code" => "Add `ErrorCode` type for ink! chain extension.",
        "extension" if v5 => "Add ink! function `fn`.",
        "extension" => "Add ink! extension `fn`.",
        "test" => "Add ink! test `fn`.",
        "e2e test" => "Add ink! e2e test `fn`.",
        "contract" => "Add ink! contract `mod`.",
        "trait definition" => "Add ink! trait definition.",
        "chain extension" => "Add ink! chain extension `trait`.",
        "combine extensions" => "Add ink! combine extensions definition.",
        "storage item" => "Add ink! storage item `ADT` (i.e. `struct`, `enum` or `union`).",
        "environment" => "Add custom ink! environment implementation.",
        _ => "",
    }
}
/// What an action promises.
#[derive(Clone, Debug, PartialEq)]
enum Want {
    Arg(String),
    Macro(String),
    Entity(String),
    Flatten,
    Nothing,
}
type Wants = Vec<(String, Want)>;
/// The offered actions other than the quickfixes of diagnostics; expected ones that a quickfix takes the place of are removed.
fn offered(text: &str, o: (usize, usize), v5: bool, want: &mut Wants) -> Vec<Action> {
    let got = analyze(text, v5).actions(tr(o.0, o.1));
    let (fixes, got): (Vec<_>, Vec<_>) = got.into_iter().partition(|a| a.kind == ActionKind::QuickFix);
    want.retain(|(l, w)| {
        let Want::Arg(n) = w else { return true };
        got.iter().any(|g| g.label == *l) || !fixes.iter().any(|a| a.edits.iter().any(|e| e.text.contains(n.as_str())))
    });
    got
}
fn compare(what: &str, text: &str, o: (usize, usize), v5: bool, got: &[Action], want: &Wants) -> Result<(), Fail> {
    let mut h: Vec<&str> = got.iter().map(|a| a.label.as_str()).collect();
    let mut w: Vec<&str> = want.iter().map(|a| a.0.as_str()).collect();
    h.sort();
    w.sort();
    if h != w {
        let extra: Vec<_> = h.iter().filter(|x| !w.contains(x)).collect();
        let missing: Vec<_> = w.iter().filter(|x| !h.contains(x)).collect();
        let how = if !missing.is_empty() { "not offered" } else if !extra.is_empty() { "offered though not valid" } else { "offered twice" };
        return fail(format!("{what}: {how}"), format!("v{} at {:?} {}: superfluous {extra:?}, missing {missing:?}", if v5 { 5 } else { 4 }, o, near(text, o.0)), text);
    }
    for a in got {
        let k = match a.label.as_str() {
            MIGRATE => ActionKind::Migrate,
            EXTRACT => ActionKind::Extract,
            _ => ActionKind::Refactor,
        };
        if a.kind != k || a.edits.is_empty() != (k != ActionKind::Refactor) {
            return fail(format!("{what}: wrong kind or edits"), format!("{a:?}"), text);
        }
        for e in &a.edits {
            let squeeze = |x: &str| x.split_whitespace().collect::<String>();
            if e.snippet.as_ref().is_some_and(|s| squeeze(&expand(s)) != squeeze(&e.text)) {
                return fail(format!("{what}: snippet and text differ"), format!("{a:?}"), text);
            }
        }
    }
    Ok(())
}
/// The tokens of a file.
fn model_tokens(f: &File) -> Vec<String> {
    tokens(&render(f, &mut Src::replay(vec![]), &Style::pretty()).text)
}
/// Name and value of the argument that was added to the text: looks it up in the inserted text.
fn added_arg(name: &str, inserted: &str) -> Option<Val> {
    let t = inserted.trim().trim_start_matches("#[ink").trim();
    let t = t.strip_suffix(']').unwrap_or(t).trim();
    let t = t.trim_matches(',').trim();
    // Surrounding parentheses are those of the attribute.
    let t = if t.starts_with('(') { t.strip_prefix('(')?.trim() } else { t };
    let t = if t.matches('(').count() < t.matches(')').count() { t.strip_suffix(')')? } else { t };
    let (n, v) = name_value(t.trim().trim_matches(',').trim());
    (n == name).then_some(match v {
        None => Val::None,
        Some(v) if v.starts_with('(') => Val::Nested(vec![Arg { id: 0, name: v[1..v.len() - 1].into(), val: Val::None }]),
        Some(v) => Val::Eq(v),
    })
}
fn val_text(v: &Val) -> Option<String> {
    match v {
        Val::None | Val::Dangling => None,
        Val::Eq(x) => Some(x.clone()),
        Val::Nested(a) => Some(format!("({})", a[0].name)),
    }
}
/// The file with one more argument, in every possible place: in the attributes `aids` or a new one.
fn with_arg(f: &File, id: Id, aids: &[Id], new: bool, arg: Arg) -> Vec<File> {
    let mut out = vec![];
    for aid in aids {
        let n = {
            let mut g = f.clone();
            with_attrs(&mut g, id, |l| l.iter().find(|a| a.id == *aid).map_or(0, |a| a.args.len())).unwrap_or(0)
        };
        // The usual places first.
        let mut ks: Vec<usize> = vec![n, 0];
        ks.extend(1..n.max(1));
        for k in ks {
            for comma in [false, true] {
                let mut g = f.clone();
                let had = with_attrs(&mut g, id, |l| {
                    let a = l.iter_mut().find(|a| a.id == *aid).unwrap();
                    let had = a.trailing_comma;
                    a.args.insert(k.min(a.args.len()), arg.clone());
                    if comma {
                        a.trailing_comma = false;
                    }
                    had
                });
                if comma && had != Some(true) {
                    continue;
                }
                out.push(g);
            }
        }
    }
    if new {
        let mut g = f.clone();
        let n = with_attrs(&mut g, id, |l| l.len()).unwrap_or(0);
        for k in (0..=n).rev() {
            let mut g = f.clone();
            let a = ink(&mut g, vec![arg.clone()]);
            with_attrs(&mut g, id, |l| l.insert(k, a));
            out.push(g);
        }
    }
    out
}
#[allow(clippy::too_many_arguments)]
fn check_applied(f: &File, text: &str, o: (usize, usize), id: Id, aids: &[Id], a: &Action, want: &Want, valid: bool) -> Result<(), Fail> {
    let v5 = f.v5;
    let Some(out) = apply(text, &a.edits) else { return fail("edits do not apply", format!("{a:?}"), text) };
    let show = || format!("{text}\n// ===== {}:\n{out}", a.label);
    let at = || format!("{:?} `{}` at {}", o, a.label, near(text, o.0));
    let mut valid = valid;
    match want {
        Want::Nothing => return Ok(()),
        Want::Entity(sort) => {
            let (x, y) = (plain_comments(text), plain_comments(&out));
            let mut it = y.iter();
            if let Some(c) = x.iter().find(|c| !it.any(|d| d == *c)) {
                return fail(format!("new {sort}: changes comments"), format!("{}: {c}", at()), show());
            }
            return new_entity(f, text, &a.edits, sort, valid).map_err(|mut e| {
            e.msg = format!("{}: {}", at(), e.msg);
            e
        });
        }
        Want::Arg(name) => {
            let inserted: String = a.edits.iter().map(|e| e.text.as_str()).collect();
            let Some(val) = added_arg(name, &inserted) else { return fail(format!("{name} is not what is added"), format!("{} `{inserted}`", at()), show()) };
            if !good_value(f, name, &val_text(&val)) {
                return fail(format!("value of {name}"), format!("{} `{inserted}`", at()), show());
            }
            let arg = Arg { id: usize::MAX, name: name.clone(), val };
            let x = tokens(&out);
            let goals = with_arg(f, id, aids, aids.is_empty() || a.edits.iter().any(|e| e.text.contains("#[")), arg);
            if !goals.iter().any(|g| model_tokens(g) == x) {
                let y = goals.first().map(model_tokens).unwrap_or_default();
                return fail(format!("adding an argument to {}: something else changes", if aids.is_empty() { "an item" } else { "an attribute" }), format!("{}\n{}", at(), diff(&x, &y)), show());
            }
            valid &= !aids.is_empty() && !in_trait_def(f, id);
            // Needs another value or has further conditions.
            valid &= !["signature_topic"].contains(&name.as_str());
        }
        Want::Macro(m) => {
            let mut goals = vec![];
            let mut g = f.clone();
            let n = with_attrs(&mut g, id, |l| l.len()).unwrap_or(0);
            for k in (0..=n).rev() {
                let mut g = f.clone();
                let at = mac(&mut g, m, vec![]);
                with_attrs(&mut g, id, |l| l.insert(k, at));
                goals.push(g);
            }
            let x = tokens(&out);
            if !goals.iter().any(|g| model_tokens(g) == x) {
                return fail("adding a macro: something else changes", format!("{}\n{}", at(), diff(&x, &model_tokens(&goals[0]))), show());
            }
            let (.., stack) = context(f, id).unwrap();
            let public = f.get(id).is_some_and(|i| i.vis.as_deref() == Some("pub"));
            valid &= ["ink::test", "ink::event", "ink::storage_item"].contains(&m.as_str()) && (m != "ink::event" || public) && !stack.iter().any(|i| matches!(i.kind, Kind::Fn(_)));
        }
        Want::Flatten => {
            // All arguments in the first macro or the deciding attribute, in any order.
            let (_, attrs, ..) = context(f, id).unwrap();
            let inks: Vec<&Attr> = attrs.iter().filter(|a| a.is_ink()).collect();
            let x = tokens(&out);
            let mut ok = false;
            for keep in &inks {
                let mac = inks.iter().find(|a| matches!(a.kind, AttrKind::Macro(_)));
                if mac.is_some_and(|m| m.id != keep.id) {
                    continue;
                }
                let gone: Vec<Id> = inks.iter().filter(|a| a.kind == AttrKind::Ink && a.id != keep.id).map(|a| a.id).collect();
                let all: Vec<Arg> = inks.iter().filter(|a| a.id == keep.id || gone.contains(&a.id)).flat_map(|a| a.args.clone()).collect();
                for p in permutations(&all) {
                    let mut g = f.clone();
                    with_attrs(&mut g, id, |l| {
                        l.retain(|a| !gone.contains(&a.id));
                        let a = l.iter_mut().find(|a| a.id == keep.id).unwrap();
                        a.args = p;
                        a.trailing_comma = false;
                        a.parens = true;
                    });
                    if model_tokens(&g) == x {
                        ok = true;
                        break;
                    }
                }
                if ok {
                    break;
                }
            }
            if !ok {
                return fail("flattening attributes: not all arguments in one attribute, or something else changes", at(), show());
            }
        }
    }
    if *want != Want::Flatten && plain_comments(&out) != plain_comments(text) {
        return fail("an action changes comments", at(), show());
    }
    let errors = parse_errors(text).len();
    if let Some(e) = parse_errors(&out).get(errors) {
        return fail(format!("does not parse after `{}`", a.label), e.clone(), show());
    }
    if valid {
        let ds = analyze(&out, v5).diagnostics();
        if let Some(d) = ds.first() {
            return fail(format!("not valid after `{}`: {}", a.label, msg_kind(&d.message)), format!("{}\n{}", at(), show_diags(&out, &ds)), show());
        }
    }
    Ok(())
}
fn permutations(v: &[Arg]) -> Vec<Vec<Arg>> {
    if v.len() > 5 {
        return vec![];
    }
    if v.is_empty() {
        return vec![vec![]];
    }
    let mut out = vec![];
    for i in 0..v.len() {
        let mut rest = v.to_vec();
        let x = rest.remove(i);
        for mut p in permutations(&rest) {
            p.insert(0, x.clone());
            out.push(p);
        }
    }
    out
}
fn sorted_args(v: Set) -> Wants {
    v.into_iter().map(|n| (arg_label(&n), Want::Arg(n))).collect()
}
fn in_trait_impl(f: &File, id: Id) -> bool {
    !f.ids(|i, st| i.id == id && matches!(i.kind, Kind::Fn(_)) && st.last().is_some_and(|p| matches!(&p.kind, Kind::Impl { trait_: Some(_), .. }))).is_empty()
}
fn in_trait_def(f: &File, id: Id) -> bool {
    !f.ids(|i, st| i.id == id && st.last().is_some_and(|p| p.role == Role::TraitDef)).is_empty()
}
/// Puts a further attribute with arguments on an item (as valid as the tables know).
fn further(s: &mut Src, f: &mut File, id: Id) -> bool {
    let (sort, attrs, scope, _) = context(f, id).unwrap();
    let refs: Vec<&Attr> = attrs.iter().filter(|a| a.is_ink()).collect();
    let scope: Option<Vec<&Attr>> = scope.as_ref().map(|v| v.iter().collect());
    if !macro_names(&refs).is_empty() {
        return false;
    }
    let dummy = Attr { id: 0, kind: AttrKind::Ink, args: vec![], parens: true, trailing_comma: false };
    let fit: Vec<String> = addable(sort, &refs, &dummy, None, &scope, f.v5).into_iter().collect();
    if fit.is_empty() {
        return false;
    }
    let first = s.pick(&fit).clone();
    let v = match first.as_str() {
        "selector" | "extension" | "function" => Val::Eq("77".into()),
        "handle_status" => Val::Eq("true".into()),
        "namespace" => Val::Eq("\"a\"".into()),
        "signature_topic" => Val::Eq(format!("\"{}\"", "1a".repeat(32))),
        _ => Val::None,
    };
    let x = arg(f, &first, v);
    let mut a = ink(f, vec![x]);
    a.trailing_comma = s.chance(1, 4);
    let k = s.u32() as usize;
    with_attrs(f, id, |v| v.insert(k % (v.len() + 1), a));
    true
}
fn cursor(s: &mut Src, a: usize, b: usize, text: &str) -> (usize, usize) {
    // Strictly inside, or a selection.
    let mut bounds: Vec<usize> = (a..=b).filter(|i| text.is_char_boundary(*i)).collect();
    if s.bool() && bounds.len() > 2 {
        bounds.remove(0);
        bounds.pop();
        let o = *s.pick(&bounds);
        (o, o)
    } else {
        let i = s.below(bounds.len() - 1);
        let j = s.range(i + 1, bounds.len() - 1);
        (bounds[i], bounds[j])
    }
}
fn label_scope(scope: &Option<Vec<Attr>>) -> String {
    match scope {
        None => "scope: none".into(),
        Some(v) => format!("scope: {}", match &v[0].kind {
            AttrKind::Macro(p) => p.clone(),
            _ => v[0].args.first().map(|a| a.name.clone()).unwrap_or_default(),
        }),
    }
}
/// The cursor on an attribute.
fn attr_case(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut f = valid_file(s, v5, Opts { wildcard: false, ..Opts::default() });
    if s.bool() {
        small_ids(s, &mut f);
    }
    let mut valid = true;
    if s.chance(1, 3) {
        let Some((id, _)) = bare(s, &mut f) else { return none() };
        valid = false;
        if !further(s, &mut f, id) {
            return none();
        }
    }
    let mut at = vec![];
    f.walk(|i, _| {
        at.extend(i.attrs.iter().filter(|a| a.is_ink()).map(|a| (i.id, a.id)));
        for fd in i.fields() {
            at.extend(fd.attrs.iter().filter(|a| a.is_ink()).map(|a| (fd.id, a.id)));
        }
    });
    if at.is_empty() {
        return none();
    }
    let (id, aid) = if valid { *s.pick(&at) } else { *at.iter().max_by_key(|x| x.1).unwrap() };
    if s.chance(1, 5) && further(s, &mut f, id) {
        valid = false;
    }
    let (sort, attrs, scope, _) = context(&f, id).unwrap();
    let scope_refs: Option<Vec<&Attr>> = scope.as_ref().map(|v| v.iter().collect());
    let inks: Vec<&Attr> = attrs.iter().filter(|a| a.is_ink()).collect();
    let attr = inks.iter().find(|a| a.id == aid).copied().unwrap();
    let macros = macro_names(&inks);
    if macros.len() > 1 && attr.kind == AttrKind::Ink || !macros.is_empty() && macros[0] == "ink::scale_derive" && inks.len() > 1 {
        return none();
    }
    let mut args = addable(sort, &inks, attr, None, &scope_refs, v5);
    if f.get(id).is_some_and(|i| matches!(&i.kind, Kind::Impl { trait_: Some(_), .. })) {
        args.remove("namespace");
    }
    let mut want: Wants = vec![];
    if !(in_trait_impl(&f, id) && inks.iter().any(|a| a.args.iter().any(|x| x.name == "message"))) {
        want = sorted_args(args);
        match &attr.kind {
            AttrKind::Macro(p) if !v5 && ["ink::contract", "ink::trait_definition", "ink::chain_extension", "ink::storage_item"].contains(&p.as_str()) => want.push((MIGRATE.into(), Want::Nothing)),
            AttrKind::Macro(p) if v5 && p == "ink::event" => want.push((EXTRACT.into(), Want::Nothing)),
            AttrKind::Ink if v5 && attr.args.iter().any(|a| a.name == "event") => want.push((EXTRACT.into(), Want::Nothing)),
            _ => (),
        }
    }
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    let text = doc.text.clone();
    set_current(&text);
    let (a, b) = doc.sp(aid, Sp::Attr).unwrap();
    let o = cursor(s, a, b, &text);
    let got = offered(&text, o, v5, &mut want);
    let what = format!("actions on {}", match &attr.kind {
        AttrKind::Macro(p) => p.clone(),
        _ => format!("#[ink] of {sort}"),
    });
    compare(&what, &text, o, v5, &got, &want)?;
    for a in &got {
        let w = &want.iter().find(|w| w.0 == a.label).unwrap().1;
        check_applied(&f, &text, o, id, &[aid], a, w, valid)?;
    }
    let labels = vec!["on an attribute".into(), format!("v{}", if v5 { 5 } else { 4 }), label_scope(&scope)];
    Ok(Info { nontrivial: !want.is_empty(), key: fnv(text.as_bytes()) ^ o.0 as u64, labels, sample: format!("{} -> {:?}", near(&text, o.0), want.iter().map(|w| &w.0).collect::<Vec<_>>()), evals: 1 + got.len() })
}
/// Whether the attributes of enclosing items say that this is test code: (test, e2e test).
fn test_code(stack: &[Item]) -> (bool, bool) {
    let has = |p: &dyn Fn(&str) -> bool| stack.iter().any(|i| i.attrs.iter().any(|a| matches!(&a.kind, AttrKind::Raw(r) if r.starts_with("cfg(") && p(r))));
    let test = has(&|c| c.contains("(test") || c.contains(" test"));
    (test, test && has(&|c| c.contains("\"e2e-tests\"")))
}
fn wildcard(f: &File) -> bool {
    !f.ids(|i, _| matches!(i.ink_arg("selector"), Some(Arg { val: Val::Eq(v), .. }) if v == "_") && i.ink_arg("message").is_some()).is_empty()
}
/// The actions that add entities to an item.
fn item_entities(f: &File, i: &Item, stack: &[Item], body: bool) -> Option<Wants> {
    let v5 = f.v5;
    let mut out: Vec<&str> = vec![];
    let mut migrate = false;
    let mut extract = false;
    let named = matches!(&i.kind, Kind::Struct { fields: Fields::Named(_), .. });
    match (&i.kind, i.role) {
        (Kind::Mod(Some(_)), Role::Contract) => {
            migrate = !v5;
            if !i.children().iter().any(|c| c.role == Role::Storage) {
                out.push("storage");
            }
            if v5 {
                out.push("event v2");
            }
            out.push("event");
            let impls = i.children().iter().any(|c| matches!(&c.kind, Kind::Impl { trait_: None, .. }));
            if !body || !impls {
                if body && i.children().iter().any(|c| matches!(&c.kind, Kind::Mod(_))) {
                    return None;
                }
                out.push("constructor");
                if !v5 || !wildcard(f) {
                    out.push("message");
                }
            }
        }
        (Kind::Mod(Some(_)), _) => {
            let (t, e) = test_code(std::slice::from_ref(i));
            if t {
                out.push("test");
            }
            if e {
                out.push("e2e test");
            }
        }
        (Kind::Impl { trait_: None, .. }, r) => {
            let direct = stack.last().is_some_and(|c| c.role == Role::Contract);
            if !direct && (r != Role::Plain || stack.iter().any(|p| p.attrs.iter().any(|a| a.is_ink())) || i.attrs.iter().any(|a| a.is_ink()) || i.children().iter().any(|c| c.attrs.iter().any(|a| a.is_ink()))) {
                return None;
            }
            if direct {
                out.push("constructor");
                if !v5 || !wildcard(f) {
                    out.push("message");
                }
            }
        }
        (Kind::Trait { .. }, Role::TraitDef) => {
            migrate = !v5;
            out.push("trait message");
        }
        (Kind::Trait { .. }, Role::ChainExt) => {
            migrate = !v5;
            if !i.children().iter().any(|c| c.role == Role::ErrorCode) {
                out.push("error code");
            }
            out.push("extension");
        }
        (Kind::Struct { .. }, Role::Event | Role::EventV2) => {
            extract = v5;
            if named {
                out.push("topic");
            } else {
                return None;
            }
        }
        (_, Role::StorageItem) => migrate = !v5,
        _ => (),
    }
    let mut w: Wants = out.into_iter().map(|x| (entity_label(x, v5).to_string(), Want::Entity(x.to_string()))).collect();
    if migrate {
        w.push((MIGRATE.into(), Want::Nothing));
    }
    if extract {
        w.push((EXTRACT.into(), Want::Nothing));
    }
    Some(w)
}
/// The cursor on the declaration of an item or a field.
fn decl_case(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let wild = s.chance(1, 6);
    let mut f = valid_file(s, v5, Opts { wildcard: wild, ..Opts::default() });
    if s.bool() {
        small_ids(s, &mut f);
    }
    let mut valid = true;
    let id = if s.chance(1, 2) {
        let Some((id, _)) = bare(s, &mut f) else { return none() };
        if s.chance(1, 3) && further(s, &mut f, id) {
            valid = false;
            if s.bool() {
                further(s, &mut f, id);
            }
        } else if s.chance(1, 4) {
            let r = s.pick(&["derive(Debug)", "allow(unused)", "cfg(feature = \"std\")"]).to_string();
            let a = raw_attr(&mut f, &r);
            with_attrs(&mut f, id, |v| v.push(a));
        }
        id
    } else {
        let mut ids = vec![];
        f.walk(|i, _| {
            ids.push(i.id);
            if matches!(&i.kind, Kind::Struct { fields: Fields::Named(_), .. }) {
                ids.extend(i.fields().iter().map(|x| x.id));
            }
        });
        if ids.is_empty() {
            return none();
        }
        let id = *s.pick(&ids);
        if s.chance(1, 6) && further(s, &mut f, id) {
            valid = false;
        }
        id
    };
    let (sort, attrs, scope, stack) = context(&f, id).unwrap();
    if ["raw", "use", "const"].contains(&sort) || sort == "mod" && f.get(id).is_some_and(|i| i.kind == Kind::Mod(None)) {
        return none();
    }
    let scope_refs: Option<Vec<&Attr>> = scope.as_ref().map(|v| v.iter().collect());
    let inks: Vec<&Attr> = attrs.iter().filter(|a| a.is_ink()).collect();
    let macros = macro_names(&inks);
    if macros.len() > 1 || macros.len() == 1 && macros[0] == "ink::scale_derive" && inks.len() > 1 {
        return none();
    }
    let mut want: Wants = vec![];
    // Attribute macros.
    if inks.is_empty() {
        let mut m = macros_for(sort, v5);
        if let Some(x) = scope_macros(&scope_refs, v5) {
            m.retain(|m| x.contains(m));
        }
        let (test, e2e) = test_code(&stack);
        if !test {
            m.remove("ink::test");
        }
        if !e2e {
            m.remove("ink_e2e::test");
        }
        want.extend(m.into_iter().map(|m| (macro_label(&m), Want::Macro(m))));
    }
    // Arguments.
    let dummy = Attr { id: 0, kind: AttrKind::Ink, args: vec![], parens: true, trailing_comma: false };
    let target = inks.iter().find(|a| matches!(a.kind, AttrKind::Macro(_))).copied().unwrap_or(&dummy);
    if !(in_trait_impl(&f, id) && inks.iter().any(|a| a.args.iter().any(|x| x.name == "message"))) {
        let mut args = addable(sort, &inks, target, None, &scope_refs, v5);
        if f.get(id).is_some_and(|i| matches!(&i.kind, Kind::Impl { trait_: Some(_), .. })) {
            args.remove("namespace");
        }
        want.extend(sorted_args(args));
    }
    if inks.len() > 1 && inks.iter().filter(|a| a.kind == AttrKind::Ink).count() + macros.len() > 1 {
        want.push((FLATTEN.into(), Want::Flatten));
    }
    let item = f.get(id).cloned();
    if let Some(i) = &item {
        let mut i = i.clone();
        if i.role == Role::Plain && !inks.is_empty() {
            // The role that the new attribute gives it.
            let names: Vec<String> = arg_names(&inks);
            if sort == "struct" && names.iter().any(|n| n == "event") {
                i.role = Role::Event;
            }
        }
        let Some(e) = item_entities(&f, &i, &stack, false) else { return none() };
        want.extend(e);
    }
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    let text = doc.text.clone();
    set_current(&text);
    let (a, b) = match &item {
        Some(_) => doc.sp(id, Sp::Decl).unwrap(),
        None => {
            let (a, b) = doc.sp(id, Sp::Field).unwrap();
            let from = attrs.iter().filter_map(|x| doc.sp(x.id, Sp::Attr)).map(|x| x.1).max().unwrap_or(a);
            (from, b)
        }
    };
    let toks: Vec<(usize, usize)> = doc.toks.iter().filter(|t| t.0 >= a && t.1 <= b && !text[t.0..t.1].starts_with('/')).map(|t| (t.0, t.1)).collect();
    if toks.is_empty() {
        return none();
    }
    let (t, u) = (s.below(toks.len()), s.below(toks.len()));
    let mut o = cursor(s, toks[t].0, toks[t].1, &text);
    if s.chance(1, 4) {
        // A selection over several tokens.
        o = (toks[t.min(u)].0, toks[t.max(u)].1);
    } else if let Some((_, end)) = item.as_ref().and_then(|_| doc.sp(id, Sp::Item)).filter(|_| s.chance(1, 6)) {
        // The end of the item.
        o = (end - 1, end);
        if !["}", ";"].contains(&&text[o.0..o.1]) {
            return none();
        }
    }
    let got = offered(&text, o, v5, &mut want);
    compare(&format!("actions on {sort}"), &text, o, v5, &got, &want)?;
    let aids: Vec<Id> = if macros.is_empty() { inks.iter().map(|a| a.id).collect() } else { vec![target.id] };
    for a in &got {
        let w = &want.iter().find(|w| w.0 == a.label).unwrap().1;
        check_applied(&f, &text, o, id, &aids, a, w, valid)?;
    }
    let labels = vec!["on a declaration".into(), format!("v{}", if v5 { 5 } else { 4 }), label_scope(&scope), format!("on {sort}"), if inks.is_empty() { "bare".into() } else { "with attributes".into() }];
    Ok(Info { nontrivial: !want.is_empty(), key: fnv(text.as_bytes()) ^ o.0 as u64, labels, sample: format!("{} -> {:?}", near(&text, o.0), want.iter().map(|w| &w.0).collect::<Vec<_>>()), evals: 1 + got.len() })
}
/// The cursor on an empty line of a body or of the file.
fn body_case(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let contract = s.chance(3, 4);
    let wild = s.chance(1, 6);
    let mut f = valid_file(s, v5, Opts { contract, wildcard: wild, ..Opts::default() });
    if s.bool() {
        small_ids(s, &mut f);
    }
    let mut valid = true;
    if s.chance(1, 5) {
        // A contract without storage or without implementation, or a chain extension without error code.
        let ids = f.ids(|i, st| matches!(i.role, Role::Storage | Role::ErrorCode) || matches!(&i.kind, Kind::Impl { .. }) && st.last().is_some_and(|p| p.role == Role::Contract));
        if !ids.is_empty() {
            let id = *s.pick(&ids);
            let is_impl = f.get(id).is_some_and(|i| matches!(i.kind, Kind::Impl { .. }));
            f.remove(id);
            if is_impl {
                for i in f.ids(|i, st| matches!(&i.kind, Kind::Impl { .. }) && st.last().is_some_and(|p| p.role == Role::Contract)) {
                    f.remove(i);
                }
            }
            valid = false;
        }
    }
    let parents = f.ids(|i, _| matches!(&i.kind, Kind::Mod(Some(_)) | Kind::Impl { .. } | Kind::Trait { .. } | Kind::Struct { fields: Fields::Named(_), .. }));
    let parent = if parents.is_empty() || s.chance(1, 5) { None } else { Some(*s.pick(&parents)) };
    let (pi, stack) = match parent {
        None => (None, vec![]),
        Some(p) => {
            let mut st = vec![];
            f.walk(|i, k| {
                if i.id == p {
                    st = k.iter().map(|x| (*x).clone()).collect();
                }
            });
            (f.get(p).cloned(), st)
        }
    };
    let mut want: Wants = match &pi {
        None => {
            let mut w: Wants = entities(&f, None, &[]).unwrap().into_values().map(|x| (entity_label(&x, v5).to_string(), Want::Entity(x))).collect();
            if !v5 {
                w.push((MIGRATE.into(), Want::Nothing));
            }
            w
        }
        Some(i) => match item_entities(&f, i, &stack, true) {
            Some(w) => w,
            None => return none(),
        },
    };
    let id = f.id();
    let at = s.u32() as usize;
    let field = matches!(pi.as_ref().map(|p| &p.kind), Some(Kind::Struct { .. }));
    let mk = Item { id, role: Role::Plain, attrs: vec![], vis: None, name: String::new(), kind: Kind::Raw("vp_cursor".into()) };
    match parent {
        None => {
            let k = at % (f.items.len() + 1);
            f.items.insert(k, mk);
        }
        Some(p) if field => {
            f.with(p, |i| i.fields_mut().map(|v| {
                let k = at % (v.len() + 1);
                v.insert(k, Field { id, attrs: vec![], vis: None, name: Some("vp_cursor".into()), ty: "vp_type".into() })
            }));
        }
        Some(p) => {
            f.with(p, |i| i.children_mut().map(|v| {
                let k = at % (v.len() + 1);
                v.insert(k, mk);
            }));
        }
    }
    let style = Style::random(s);
    let text0 = render(&f, s, &style).text;
    let a = text0.find("vp_cursor").unwrap();
    let b = if field {
        let e = text0.find("vp_type").unwrap() + "vp_type".len();
        let rest = &text0[e..];
        let t = rest.trim_start();
        // With its comma.
        if t.starts_with(',') { e + rest.len() - t.len() + 1 } else { e }
    } else {
        a + "vp_cursor".len()
    };
    let (pre, post) = (&text0[..a], &text0[b..]);
    if field && !pre.trim_end().ends_with([',', '{']) {
        return none();
    }
    // Comments in front belong to the next item.
    if pre.trim_end().ends_with("*/") || pre.trim_end().rsplit('\n').next().is_some_and(|l| l.contains("//")) {
        return none();
    }
    let indent = *s.pick(&["", "    ", "\t", "        "]);
    let (mut text, mut o, how);
    match s.below(6) {
        0 | 1 => {
            // A comment.
            how = "comment";
            let c = *s.pick(&["// vp comment", "/* vp comment */", "// vp { comment", "/* vp\n comment */"]);
            text = format!("{pre}\n{indent}{c}\n\n{post}");
            let a = pre.len() + 1 + indent.len();
            let x = a + s.range(1, c.len() - 1);
            o = (x, if s.bool() { x } else { a + c.len() });
        }
        2 => {
            // Some of the space.
            how = "space";
            text = format!("{pre}\n{indent}\n{indent}\n{post}");
            let n = 2 + indent.len();
            let x = pre.len() + 1 + s.below(n);
            o = (x, (x + s.below(n)).min(pre.len() + 1 + n));
        }
        3 if pi.is_some() => {
            // Several of the things in the body.
            how = "several";
            text = format!("{pre}\n{post}");
            o = (0, 0);
        }
        _ => {
            how = "empty line";
            text = format!("{pre}\n{indent}\n{post}");
            let x = pre.len() + 1 + if s.bool() { indent.len() } else { 0 };
            o = (x, x);
        }
    }
    if how == "several" {
        // Without the mark, from one child to another.
        f.remove(id);
        f.walk_mut(|i| if let Some(v) = i.fields_mut() { v.retain(|x| x.id != id) });
        let doc = render(&f, s, &style);
        let p = f.get(parent.unwrap()).unwrap();
        let sps: Vec<(usize, usize)> = if field { p.fields().iter().filter_map(|x| doc.sp(x.id, Sp::Field)).collect() } else { p.children().iter().filter_map(|x| doc.sp(x.id, Sp::Item)).collect() };
        if sps.len() < 2 {
            return none();
        }
        let i = s.below(sps.len() - 1);
        let j = s.range(i + 1, sps.len() - 1);
        o = (sps[i].0, sps[j].1);
        text = doc.text;
        // As if on the declaration.
        want = match item_entities(&f, p, &stack, false) {
            Some(w) => w,
            None => return none(),
        };
    }
    set_current(&text);
    if has_parse_error(&text) || valid && !analyze(&text, v5).diagnostics().is_empty() {
        return none();
    }
    let got = offered(&text, o, v5, &mut want);
    let place = pi.as_ref().map_or("the file".to_string(), |p| format!("{:?} {}", p.role, sort_of(&p.kind)));
    compare(&format!("actions in {place}"), &text, o, v5, &got, &want)?;
    for a in &got {
        let w = &want.iter().find(|w| w.0 == a.label).unwrap().1;
        check_applied(&f, &text, o, 0, &[], a, w, valid)?;
    }
    let labels = vec!["on an empty line".into(), format!("v{}", if v5 { 5 } else { 4 }), format!("in {place}"), how.to_string(), if valid { "valid file".into() } else { "something missing".into() }];
    Ok(Info { nontrivial: !want.is_empty(), key: fnv(text.as_bytes()), labels, sample: format!("{} -> {:?}", near(&text, o.0), want.iter().map(|w| &w.0).collect::<Vec<_>>()), evals: 1 + got.len() })
}
