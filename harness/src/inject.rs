//! Rule violations that can be injected into a valid file, with the place where each must be reported.

use crate::gen::*;
use crate::model::*;

#[derive(Clone, Debug)]
pub struct Exp {
    pub name: &'static str,
    /// The offending code: a report must cover or lie in one of these.
    pub spans: Vec<(Id, Sp)>,
    /// One of these has to occur in the message (lower case); empty: any message.
    pub needles: &'static [&'static str],
}

pub type Inj = (&'static str, fn(&mut G) -> Option<Vec<(Id, Sp)>>, &'static [&'static str]);

fn pick_id(g: &mut G, ids: Vec<Id>) -> Option<Id> {
    if ids.is_empty() {
        None
    } else {
        Some(*g.s.pick(&ids))
    }
}
pub fn pick_role(g: &mut G, roles: &[Role]) -> Option<Id> {
    let ids = g.f.ids(|i, _| roles.contains(&i.role));
    pick_id(g, ids)
}
fn callable(g: &mut G) -> Option<Id> {
    pick_role(g, &[Role::Constructor, Role::Message])
}
fn in_contract(f: &File, id: Id) -> bool {
    let mut r = false;
    f.walk(|i, st| {
        if i.id == id {
            r = st.iter().any(|p| p.role == Role::Contract);
        }
    });
    r
}
/// Messages whose signature or arguments are not tied to a trait definition.
fn free_message(g: &mut G) -> Option<Id> {
    let ids = g.f.ids(|i, st| i.role == Role::Message && st.last().is_some_and(|p| p.role == Role::Impl));
    pick_id(g, ids)
}
fn free_callable(g: &mut G) -> Option<Id> {
    let ids = g.f.ids(|i, st| matches!(i.role, Role::Message | Role::Constructor) && st.last().is_some_and(|p| p.role == Role::Impl));
    pick_id(g, ids)
}
fn contract(g: &mut G) -> Option<Id> {
    pick_role(g, &[Role::Contract])
}
/// Adds an item to the item list of `parent` (a mod, impl or trait) at a random place.
fn add_to(g: &mut G, parent: Id, item: Item) -> Id {
    let id = item.id;
    let n = g.f.get(parent).map(|p| p.children().len()).unwrap_or(0);
    let at = g.s.below(n + 1);
    g.f.with(parent, |p| {
        if let Some(c) = p.children_mut() {
            c.insert(at, item);
        }
    });
    id
}
fn add_root(g: &mut G, item: Item) -> Id {
    let id = item.id;
    let at = g.s.below(g.f.items.len() + 1);
    g.f.items.insert(at, item);
    id
}
/// The first ink! attribute of an item.
fn first_ink(f: &File, id: Id) -> Option<Id> {
    f.get(id)?.attrs.iter().find(|a| a.is_ink()).map(|a| a.id)
}
fn attr_mut<R>(g: &mut G, item: Id, attr: Id, f: impl FnOnce(&mut Attr) -> R) -> Option<R> {
    g.f.with(item, |i| i.attrs.iter_mut().find(|a| a.id == attr).map(f)).flatten()
}
fn push_arg(g: &mut G, item: Id, name: &str, val: Val) -> Option<Vec<(Id, Sp)>> {
    let attr = first_ink(&g.f, item)?;
    let a = arg(&mut g.f, name, val);
    let id = a.id;
    attr_mut(g, item, attr, |x| x.args.push(a))?;
    Some(vec![(id, Sp::Arg), (attr, Sp::Attr)])
}
/// Adds the argument to an existing ink! attribute or in an attribute of its own (after the others).
fn push_arg_any(g: &mut G, item: Id, name: &str, val: Val) -> Option<Vec<(Id, Sp)>> {
    if g.s.bool() {
        // Only argument attributes can take arbitrary arguments.
        let is_macro = {
            let i = g.f.get(item)?;
            i.attrs.iter().find(|a| a.is_ink()).map(|a| matches!(a.kind, AttrKind::Macro(_)))?
        };
        if !is_macro {
            return push_arg(g, item, name, val);
        }
    }
    let a = arg(&mut g.f, name, val);
    let at = ink(&mut g.f, vec![a]);
    let id = at.id;
    g.f.with(item, |i| i.attrs.push(at));
    Some(vec![(id, Sp::Attr)])
}
fn add_attr(g: &mut G, item: Id, a: Attr, front: bool) -> Vec<(Id, Sp)> {
    let id = a.id;
    g.f.with(item, |i| if front { i.attrs.insert(0, a) } else { i.attrs.push(a) });
    vec![(id, Sp::Attr)]
}
fn ink1(g: &mut G, name: &str, val: Val) -> Attr {
    let a = arg(&mut g.f, name, val);
    ink(&mut g.f, vec![a])
}
fn set_fun(g: &mut G, id: Id, f: impl FnOnce(&mut Fun)) -> Option<()> {
    g.f.with(id, |i| i.fun_mut().map(f)).flatten()
}
fn has_arg(f: &File, id: Id, name: &str) -> bool {
    f.get(id).is_some_and(|i| i.ink_arg(name).is_some())
}
/// An existing argument with a value among `names`.
fn valued_arg(g: &mut G, names: &[&str], only: impl Fn(&Item) -> bool) -> Option<(Id, Id, Id)> {
    let mut out = vec![];
    g.f.walk(|i, _| {
        if only(i) {
            for a in &i.attrs {
                if a.is_ink() {
                    for x in &a.args {
                        if names.contains(&x.name.as_str()) {
                            out.push((i.id, a.id, x.id));
                        }
                    }
                }
            }
        }
    });
    if out.is_empty() {
        None
    } else {
        Some(*g.s.pick(&out))
    }
}
fn set_val(g: &mut G, t: (Id, Id, Id), v: Val) -> Option<Vec<(Id, Sp)>> {
    attr_mut(g, t.0, t.1, |a| a.args.iter_mut().find(|x| x.id == t.2).map(|x| x.val = v)).flatten()?;
    Some(vec![(t.2, Sp::Arg)])
}
fn not_trait_tied(i: &Item) -> bool {
    // Trait messages (and their implementations) have to agree, which would give further reports.
    !matches!(i.role, Role::TraitMessage)
}
fn bad_value(g: &mut G, names: &[&str], bad: &[&str]) -> Option<Vec<(Id, Sp)>> {
    let t = valued_arg(g, names, not_trait_tied)?;
    let b = *g.s.pick(bad);
    set_val(g, t, Val::Eq(b.into()))
}
fn ensure_arg(g: &mut G, item: Id, name: &str, val: Val) -> Option<(Id, Id, Id)> {
    if let Some(i) = g.f.get(item) {
        for a in &i.attrs {
            if a.is_ink() {
                if let Some(x) = a.args.iter().find(|x| x.name == name) {
                    return Some((item, a.id, x.id));
                }
            }
        }
    }
    let attr = first_ink(&g.f, item)?;
    let a = arg(&mut g.f, name, val);
    let id = a.id;
    attr_mut(g, item, attr, |x| x.args.push(a))?;
    Some((item, attr, id))
}
fn plain_item(g: &mut G, kind: usize) -> Item {
    let n = g.pascal();
    match kind {
        0 => {
            let n = g.snake();
            g.item(Role::Plain, vec![], Some("pub"), &n, Kind::Fn(fun()))
        }
        1 => g.item(Role::Plain, vec![], Some("pub"), &n, Kind::Struct { generics: None, fields: Fields::Unit }),
        2 => g.item(Role::Plain, vec![], Some("pub"), &n, Kind::Enum { variants: vec!["A".into()] }),
        3 => {
            let mut f = fun();
            f.recv = Some("&self".into());
            f.body = None;
            let m = g.snake();
            let fi = g.item(Role::Plain, vec![], None, &m, Kind::Fn(f));
            g.item(Role::Plain, vec![], Some("pub"), &n, Kind::Trait { quals: vec![], generics: None, supers: None, items: vec![fi] })
        }
        4 => {
            let n = g.snake().replace("r#", "r_");
            g.item(Role::Plain, vec![], None, &n, Kind::Mod(Some(vec![])))
        }
        5 => g.item(Role::Plain, vec![], None, &n, Kind::Const { ty: "u8".into(), val: Some("1".into()) }),
        6 => g.item(Role::Plain, vec![], None, &n, Kind::TypeAlias { generics: None, bounds: None, ty: Some("u8".into()) }),
        _ => g.item(
            Role::Plain,
            vec![],
            None,
            "",
            Kind::Impl { quals: vec![], generics: None, trait_: None, self_ty: "Other".into(), self_generics: None, items: vec![] },
        ),
    }
}
fn wrong_kind(g: &mut G, a: Attr, kinds: &[usize], root: bool) -> Option<Vec<(Id, Sp)>> {
    let k = *g.s.pick(kinds);
    let mut i = plain_item(g, k);
    let aid = a.id;
    i.attrs.push(a);
    let iid = i.id;
    if root {
        add_root(g, i);
    } else {
        let c = contract(g)?;
        add_to(g, c, i);
    }
    Some(vec![(iid, Sp::Item), (aid, Sp::Attr)])
}

const FN: usize = 0;
const STRUCT: usize = 1;
const ENUM: usize = 2;
const TRAIT: usize = 3;
const MOD: usize = 4;
const CONST: usize = 5;
const TYPE: usize = 6;
const IMPL: usize = 7;

fn qual(g: &mut G, roles: &[Role], q: &str) -> Option<Vec<(Id, Sp)>> {
    let id = pick_role(g, roles)?;
    g.f.with(id, |i| match &mut i.kind {
        Kind::Fn(f) => f.quals = vec![q.to_string()],
        Kind::Impl { quals, .. } | Kind::Trait { quals, .. } => *quals = vec![q.to_string()],
        _ => {}
    });
    Some(vec![(id, Sp::Quals)])
}
const FNS: &[Role] = &[Role::Constructor, Role::Message, Role::TraitMessage, Role::ExtFn];
const CALLABLES: &[Role] = &[Role::Constructor, Role::Message];

/// Chain extension functions and trait messages have no receiver/body freedom in `quals`, but the rest applies.
pub fn table() -> Vec<Inj> {
    vec![
        // --- generic attribute rules
        ("unknown macro", |g| {
            let id = pick_role(g, &[Role::Plain, Role::Contract, Role::TraitDef, Role::Test])?;
            let n = *g.s.pick(&["ink::xyz", "ink::contracts", "ink_e2e::tests", "ink::storage"]);
            let a = mac(&mut g.f, n, vec![]);
            Some(add_attr(g, id, a, false))
        }, &["unknown ink! attribute"]),
        ("unknown argument", |g| {
            let id = pick_role(g, &[Role::Storage, Role::Constructor, Role::Event, Role::ExtFn, Role::Message])?;
            let n = *g.s.pick(&["xyz", "messages", "storage_", "Message", "payables"]);
            let v = if g.s.bool() { Val::None } else { Val::Eq("1".into()) };
            push_arg(g, id, n, v)
        }, &["unknown ink! attribute argument"]),
        ("unknown macro argument", |g| {
            let id = pick_role(g, &[Role::Contract, Role::TraitDef, Role::StorageItem, Role::E2E, Role::ChainExt])?;
            let n = *g.s.pick(&["xyz", "environments", "namespaces"]);
            push_arg(g, id, n, Val::Eq("\"a\"".into()))
        }, &["unknown ink! attribute argument"]),
        ("empty ink attribute", |g| {
            let id = pick_role(g, &[Role::Plain, Role::Storage, Role::Message])?;
            let mut a = ink(&mut g.f, vec![]);
            a.parens = g.s.bool();
            Some(add_attr(g, id, a, false))
        }, &[]),
        ("missing value", |g| {
            let t = valued_arg(g, &["selector", "namespace", "env", "environment", "keep_attr", "additional_contracts", "handle_status", "derive", "extension", "function", "signature_topic"], not_trait_tied)?;
            let v = if g.s.bool() { Val::None } else { Val::Dangling };
            set_val(g, t, v)
        }, &["value", "argument", "extension", "path"]),
        ("superfluous value", |g| {
            let t = valued_arg(g, &["storage", "event", "message", "constructor", "payable", "default", "anonymous", "impl"], not_trait_tied)?;
            let v = *g.s.pick(&["1", "true", "\"x\"", "foo", "_"]);
            set_val(g, t, Val::Eq(v.into()))
        }, &["shouldn't have a value"]),
        ("superfluous topic value", |g| {
            let mut ids = vec![];
            g.f.walk(|i, _| for f in i.fields() { for a in &f.attrs { for x in &a.args { if x.name == "topic" { ids.push((i.id, x.id)); } } } });
            let (i, x) = if ids.is_empty() { return None } else { *g.s.pick(&ids) };
            g.f.with(i, |it| for f in it.fields_mut().unwrap() { for a in &mut f.attrs { for y in &mut a.args { if y.id == x { y.val = Val::Eq("1".into()); } } } });
            Some(vec![(x, Sp::Arg)])
        }, &["shouldn't have a value"]),
        ("bad selector value", |g| {
            let c = free_callable(g)?;
            let t = ensure_arg(g, c, "selector", Val::Eq("1".into()))?;
            let b = *g.s.pick(&["\"foo\"", "true", "4294967296", "1.5", "foo::bar", "'a'", "0x1FFFFFFFF", "-1"]);
            set_val(g, t, Val::Eq(b.into()))
        }, &["selector"]),
        ("complement selector where it is not allowed", |g| {
            let t = if g.v5() { pick_role(g, &[Role::Constructor])? } else { free_callable(g)? };
            let t = ensure_arg(g, t, "selector", Val::Eq("1".into()))?;
            set_val(g, t, Val::Eq("@".into()))
        }, &["selector"]),
        ("bad namespace value", |g| bad_value(g, &["namespace"], &["1", "true", "\"\"", "\"my ns\"", "\"1a\"", "\"::invalid\"", "\"a-b\"", "foo"]), &["namespace"]),
        ("bad bool value", |g| bad_value(g, &["handle_status", "derive"], &["1", "\"true\"", "yes", "_"]), &["bool"]),
        ("bad extension value", |g| bad_value(g, &["extension", "function"], &["\"1\"", "true", "foo", "4294967296", "_", "1.0"]), &["integer", "u32", "u16", "value"]),
        ("v5 extension id out of u16 range", |g| if g.v5() { bad_value(g, &["extension", "function"], &["65536", "0x10000", "4294967295"]) } else { None }, &["integer", "u16", "value"]),
        ("bad env value", |g| bad_value(g, &["env", "environment"], &["1", "\"a::B\"", "true", "_"]), &["path", "environment"]),
        ("bad string value", |g| bad_value(g, &["keep_attr", "additional_contracts"], &["1", "true", "foo", "b\"x\""]), &["string", "deprecated"]),
        ("bad signature topic", |g| bad_value(g, &["signature_topic"], &["1", "\"\"", "\"zz\"", "\"0x1234\"", "\"1111111111111111111111111111111111111111111111111111111111111111ff\"", "\"g111111111111111111111111111111111111111111111111111111111111111\""]), &["signature_topic"]),
        ("bad backend", |g| {
            if !g.v5() { return None; }
            let id = pick_role(g, &[Role::E2E])?;
            g.f.with(id, |i| for a in &mut i.attrs { a.args.retain(|x| x.name != "backend"); });
            let n = match g.s.below(4) {
                0 => Val::None,
                1 => Val::Eq("node".into()),
                2 => Val::Nested(vec![]),
                _ => {
                    let x = arg(&mut g.f, "nodes", Val::None);
                    Val::Nested(vec![x])
                }
            };
            push_arg(g, id, "backend", n)
        }, &["backend", "option", "nested"]),
        ("duplicate argument", |g| {
            let id = pick_role(g, &[Role::Storage, Role::Event, Role::Constructor, Role::ExtFn, Role::Message])?;
            let (name, val) = {
                let i = g.f.get(id)?;
                let xs: Vec<(String, Val)> = i.attrs.iter().filter(|a| matches!(a.kind, AttrKind::Ink)).flat_map(|a| &a.args).map(|x| (x.name.clone(), x.val.clone())).collect();
                if xs.is_empty() { return None; }
                xs[g.s.below(xs.len())].clone()
            };
            push_arg_any(g, id, &name, val)?;
            Some(vec![(id, Sp::Item)])
        }, &["duplicate"]),
        ("duplicate macro argument", |g| {
            let id = pick_role(g, &[Role::Contract, Role::TraitDef, Role::StorageItem, Role::E2E])?;
            let n = match g.f.get(id)?.role { Role::Contract | Role::TraitDef | Role::E2E => "keep_attr", _ => "derive" };
            let v = if n == "derive" { "true" } else { "\"a\"" };
            ensure_arg(g, id, n, Val::Eq(v.into()))?;
            push_arg(g, id, n, Val::Eq(v.into()))?;
            Some(vec![(id, Sp::Item)])
        }, &["duplicate"]),
        ("duplicate macro", |g| {
            let id = pick_role(g, &[Role::Contract, Role::TraitDef, Role::ChainExt, Role::StorageItem, Role::Test, Role::E2E, Role::EventV2])?;
            let a = g.f.get(id)?.attrs.iter().find(|a| a.is_ink() && !matches!(&a.kind, AttrKind::Macro(p) if p.contains("scale_derive")))?.clone();
            let p = match a.kind { AttrKind::Macro(p) => p, _ => return None };
            let b = mac(&mut g.f, &p, vec![]);
            Some(add_attr(g, id, b, false))
        }, &["duplicate"]),
        ("conflicting argument attributes", |g| {
            let id = pick_role(g, &[Role::Storage, Role::Event, Role::Constructor, Role::Message])?;
            let n = match g.f.get(id)?.role {
                Role::Storage => "event",
                Role::Event => "storage",
                Role::Constructor => "message",
                _ => "constructor",
            };
            push_arg_any(g, id, n, Val::None)
        }, &["conflict", "first"]),
        ("conflicting macros", |g| {
            let id = pick_role(g, &[Role::TraitDef, Role::ChainExt, Role::Test, Role::E2E])?;
            let n = match g.f.get(id)?.role {
                Role::TraitDef => "ink::chain_extension",
                Role::ChainExt => "ink::trait_definition",
                Role::Test => "ink_e2e::test",
                _ => "ink::test",
            };
            let a = mac(&mut g.f, n, vec![]);
            Some(add_attr(g, id, a, false))
        }, &["conflict"]),
        ("macro and argument attribute conflict", |g| {
            let id = pick_role(g, &[Role::TraitDef, Role::ChainExt, Role::Test, Role::Contract, Role::StorageItem])?;
            let n = *g.s.pick(&["message", "storage", "constructor", "topic"]);
            let a = ink1(g, n, Val::None);
            Some(add_attr(g, id, a, false))
        }, &["conflict"]),
        ("conflicting sibling argument", |g| {
            let id = pick_role(g, &[Role::Storage, Role::Event, Role::Constructor, Role::Message, Role::ExtFn])?;
            let role = g.f.get(id)?.role;
            let (n, v) = match role {
                Role::Storage => *g.s.pick(&[("payable", ""), ("anonymous", ""), ("selector", "1")]),
                Role::Event => *g.s.pick(&[("payable", ""), ("default", ""), ("handle_status", "true")]),
                Role::Constructor => *g.s.pick(&[("anonymous", ""), ("handle_status", "true"), ("derive", "true")]),
                Role::Message => *g.s.pick(&[("anonymous", ""), ("handle_status", "true"), ("topic", "")]),
                _ => *g.s.pick(&[("payable", ""), ("selector", "77"), ("anonymous", "")]),
            };
            push_arg_any(g, id, n, if v.is_empty() { Val::None } else { Val::Eq(v.into()) })
        }, &["conflict"]),
        ("argument foreign to the macro", |g| {
            let id = pick_role(g, &[Role::Contract, Role::TraitDef, Role::StorageItem, Role::Test, Role::E2E])?;
            let (n, v) = match g.f.get(id)?.role {
                Role::Contract => *g.s.pick(&[("namespace", "\"a\""), ("derive", "true"), ("environment", "ink::env::DefaultEnvironment")]),
                Role::TraitDef => *g.s.pick(&[("derive", "true"), ("selector", "1"), ("handle_status", "true")]),
                Role::StorageItem => *g.s.pick(&[("namespace", "\"a\""), ("keep_attr", "\"a\"")]),
                Role::Test => *g.s.pick(&[("keep_attr", "\"a\""), ("namespace", "\"a\"")]),
                _ => *g.s.pick(&[("derive", "true"), ("namespace", "\"a\"")]),
            };
            push_arg(g, id, n, Val::Eq(v.into()))
        }, &["conflict"]),
        ("primary argument not first", |g| {
            let id = pick_role(g, &[Role::Constructor, Role::Message, Role::Event])?;
            let n = if g.f.get(id)?.role == Role::Event { "anonymous" } else { "payable" };
            if has_arg(&g.f, id, n) || has_arg(&g.f, id, "signature_topic") { return None; }
            let attr = first_ink(&g.f, id)?;
            let a = arg(&mut g.f, n, Val::None);
            attr_mut(g, id, attr, |x| x.args.insert(0, a))?;
            Some(vec![(attr, Sp::Attr)])
        }, &["first"]),
        ("primary attribute not first", |g| {
            let id = pick_role(g, &[Role::Constructor, Role::Message, Role::Event])?;
            let n = if g.f.get(id)?.role == Role::Event { "anonymous" } else { "payable" };
            if has_arg(&g.f, id, n) || has_arg(&g.f, id, "signature_topic") { return None; }
            let a = ink1(g, n, Val::None);
            add_attr(g, id, a, true);
            Some(vec![(id, Sp::Item)])
        }, &["first"]),
        ("complementary argument alone", |g| {
            let id = free_callable(g)?;
            // Keep at least one other of the kind.
            let role = g.f.get(id)?.role;
            if g.f.ids(|i, _| i.role == role).len() < 2 { return None; }
            let p = g.f.parent(id)?;
            if g.f.get(p)?.children().iter().filter(|c| CALLABLES.contains(&c.role)).count() < 2 { return None; }
            let name = if role == Role::Message { "message" } else { "constructor" };
            g.f.with(id, |i| {
                for a in &mut i.attrs { a.args.retain(|x| x.name != name); }
                i.attrs.retain(|a| !matches!(a.kind, AttrKind::Ink) || !a.args.is_empty());
            });
            if !g.f.get(id)?.attrs.iter().any(|a| a.is_ink()) {
                let a = ink1(g, "payable", Val::None);
                add_attr(g, id, a, false);
            }
            Some(vec![(id, Sp::Item)])
        }, &["first"]),
        ("complementary argument alone on a struct", |g| {
            let c = contract(g)?;
            let mut i = plain_item(g, STRUCT);
            i.attrs.push(ink1(g, "anonymous", Val::None));
            let id = add_to(g, c, i);
            Some(vec![(id, Sp::Item)])
        }, &["first"]),
        ("complementary argument alone on an extension function", |g| {
            let id = pick_role(g, &[Role::ExtFn])?;
            g.f.with(id, |i| {
                for a in &mut i.attrs { a.args.retain(|x| x.name != "function" && x.name != "extension"); }
                i.attrs.retain(|a| !matches!(a.kind, AttrKind::Ink) || !a.args.is_empty());
            });
            if !g.f.get(id)?.attrs.iter().any(|a| a.is_ink()) {
                let v = *g.s.pick(&["true", "false"]);
                let a = ink1(g, "handle_status", Val::Eq(v.into()));
                add_attr(g, id, a, false);
            }
            Some(vec![(id, Sp::Item)])
        }, &["first"]),
        ("reserved identifier", |g| {
            let mut ids = g.f.ids(|i, _| !i.name.is_empty() && !i.name.starts_with("r#") && matches!(i.role, Role::Plain | Role::Storage | Role::Event | Role::Constructor | Role::Test | Role::Contract | Role::EventV2));
            ids.retain(|i| g.f.get(*i).is_some_and(|i| matches!(i.kind, Kind::Fn(_) | Kind::Const { .. } | Kind::TypeAlias { .. } | Kind::Mod(_))));
            ids.retain(|id| in_ink_scope(&g.f, *id));
            let id = pick_id(g, ids)?;
            let p = *g.s.pick(&["__ink_", "__ink___ink_", "__ink_a__ink_"]);
            g.f.with(id, |i| i.name = format!("{p}{}", i.name));
            Some(vec![(id, Sp::Name)])
        }, &["__ink_"]),
        ("reserved local identifier", |g| {
            let ids = g.f.ids(|i, _| CALLABLES.contains(&i.role) || i.role == Role::Test);
            let id = pick_id(g, ids)?;
            set_fun(g, id, |f| f.body_expr = "let __ink_local = 1;".into())?;
            Some(vec![(id, Sp::Body)])
        }, &["__ink_"]),
        // --- attributes on the wrong kind of item
        ("contract macro on a wrong item", |g| { let a = mac(&mut g.f, "ink::contract", vec![]); if contract(g).is_some() { return None; } wrong_kind(g, a, &[FN, STRUCT, ENUM, TRAIT], true) }, &[]),
        ("storage on a wrong item", |g| { let a = ink1(g, "storage", Val::None); wrong_kind(g, a, &[FN, ENUM, TRAIT, TYPE], false) }, &["struct"]),
        ("event on a wrong item", |g| { let a = ink1(g, "event", Val::None); wrong_kind(g, a, &[FN, ENUM, TRAIT, CONST], false) }, &["struct"]),
        ("event macro on a wrong item", |g| { if !g.v5() { return None; } let a = mac(&mut g.f, "ink::event", vec![]); wrong_kind(g, a, &[FN, ENUM, TRAIT], true) }, &["struct"]),
        ("message on a wrong item", |g| { let a = ink1(g, "message", Val::None); wrong_kind(g, a, &[STRUCT, ENUM, CONST], false) }, &["`fn`"]),
        ("constructor on a wrong item", |g| { let a = ink1(g, "constructor", Val::None); wrong_kind(g, a, &[STRUCT, ENUM, TRAIT], false) }, &["`fn`"]),
        ("impl on a wrong item", |g| { let a = ink1(g, "impl", Val::None); wrong_kind(g, a, &[STRUCT, FN, TRAIT], false) }, &["`impl`"]),
        ("topic on a wrong item", |g| { let a = ink1(g, "topic", Val::None); wrong_kind(g, a, &[FN, STRUCT, ENUM], false) }, &[]),
        ("trait definition on a wrong item", |g| { let a = mac(&mut g.f, "ink::trait_definition", vec![]); wrong_kind(g, a, &[FN, STRUCT, ENUM, MOD, IMPL], true) }, &["`trait`"]),
        ("chain extension on a wrong item", |g| {
            let x = eq(&mut g.f, "extension", "1");
            let args = if g.v5() { vec![x] } else { vec![] };
            let a = mac(&mut g.f, "ink::chain_extension", args);
            wrong_kind(g, a, &[FN, STRUCT, ENUM, MOD, IMPL], true)
        }, &["`trait`"]),
        ("storage item on a wrong item", |g| { let a = mac(&mut g.f, "ink::storage_item", vec![]); wrong_kind(g, a, &[FN, TRAIT, MOD, IMPL], true) }, &["can only be applied to"]),
        ("test on a wrong item", |g| { let a = mac(&mut g.f, "ink::test", vec![]); wrong_kind(g, a, &[STRUCT, ENUM, TRAIT, MOD], true) }, &["`fn`"]),
        ("e2e test on a wrong item", |g| { let a = mac(&mut g.f, "ink_e2e::test", vec![]); wrong_kind(g, a, &[STRUCT, ENUM, TRAIT, MOD], true) }, &["`fn`"]),
        // --- scope rules
        ("storage outside a contract", |g| { let a = ink1(g, "storage", Val::None); wrong_kind(g, a, &[STRUCT], true) }, &[]),
        ("event outside a contract", |g| { let a = ink1(g, "event", Val::None); wrong_kind(g, a, &[STRUCT], true) }, &[]),
        ("message outside an impl", |g| {
            let mut m = g.message(Role::Plain, None, Some("pub"), true);
            m.role = Role::Plain;
            let id = m.id;
            if g.s.bool() {
                let c = contract(g)?;
                if has_wild(&g.f, c) { return None; }
                add_to(g, c, m);
            } else {
                add_root(g, m);
            }
            Some(vec![(id, Sp::Item)])
        }, &[]),
        ("constructor outside an impl", |g| {
            let m = g.constructor(None, Some("pub"));
            let c = contract(g)?;
            let id = add_to(g, c, m);
            Some(vec![(id, Sp::Item)])
        }, &["impl"]),
        ("storage in a nested module", |g| nest(g, Role::Storage), &["root", "storage"]),
        ("event in a nested module", |g| nest(g, Role::Event), &["root"]),
        ("event in a function body", |g| {
            let id = pick_role(g, &[Role::Event])?;
            let t = free_callable(g)?;
            let e = g.f.remove(id)?;
            g.f.with(t, |i| i.fun_mut().map(|f| f.body.as_mut().map(|b| b.push(e))));
            Some(vec![(id, Sp::Item), (t, Sp::Item)])
        }, &[]),
        ("macro in a contract", |g| {
            let c = contract(g)?;
            let mut i = plain_item(g, MOD);
            i.attrs.push(mac(&mut g.f, "ink::contract", vec![]));
            let id = add_to(g, c, i);
            Some(vec![(id, Sp::Item)])
        }, &[]),
        ("extension function in a contract", |g| {
            let f = g.ext_fn(&[]);
            let c = contract(g)?;
            let id = add_to(g, c, f);
            Some(vec![(id, Sp::Item)])
        }, &[]),
        ("message in an ink test scope", |g| {
            let t = pick_role(g, &[Role::Test])?;
            let p = g.f.parent(t)?;
            if g.f.ids(|i, st| i.id == p && st.iter().any(|x| x.role == Role::Contract)).len() != 0 { return None; }
            let m = g.message(Role::Plain, None, Some("pub"), true);
            let id = add_to(g, p, m);
            Some(vec![(id, Sp::Item)])
        }, &[]),
        // --- contract
        ("contract not inline", |g| {
            let c = contract(g)?;
            g.f.with(c, |i| i.kind = Kind::Mod(None));
            Some(vec![(c, Sp::Item)])
        }, &["inline"]),
        ("missing storage", |g| {
            let id = pick_role(g, &[Role::Storage])?;
            let c = contract(g)?;
            g.f.remove(id);
            Some(vec![(c, Sp::Item)])
        }, &["storage"]),
        ("storage attribute removed", |g| {
            let id = pick_role(g, &[Role::Storage])?;
            let c = contract(g)?;
            g.f.with(id, |i| i.attrs.retain(|a| !a.is_ink()));
            Some(vec![(c, Sp::Item)])
        }, &["storage"]),
        ("second storage", |g| {
            let c = contract(g)?;
            let st = g.storage();
            let first = pick_role(g, &[Role::Storage])?;
            let id = add_to(g, c, st);
            Some(vec![(id, Sp::Item), (first, Sp::Item)])
        }, &["storage"]),
        ("no constructor", |g| remove_all(g, Role::Constructor), &["constructor"]),
        ("no message", |g| {
            let c = contract(g)?;
            let ids = g.f.ids(|i, _| i.role == Role::TraitImpl);
            for i in ids { g.f.remove(i); }
            let _ = c;
            remove_all(g, Role::Message)
        }, &["message"]),
        ("duplicate explicit selector", |g| {
            let role = *g.s.pick(&[Role::Constructor, Role::Message]);
            let ids = g.f.ids(|i, st| i.role == role && st.last().is_some_and(|p| p.role == Role::Impl) && !matches!(i.ink_arg("selector"), Some(Arg { val: Val::Eq(v), .. }) if v == "_" || v == "@"));
            if ids.len() < 2 { return None; }
            let k = g.s.below(ids.len() - 1);
            let (a, b) = (ids[k], ids[k + 1]);
            let ta = ensure_arg(g, a, "selector", Val::Eq("1".into()))?;
            let tb = ensure_arg(g, b, "selector", Val::Eq("1".into()))?;
            let v = g.s.u32();
            set_val(g, ta, Val::Eq(format!("{v}")))?;
            let tx = if g.s.bool() { format!("{v:#x}") } else { format!("{v}") };
            set_val(g, tb, Val::Eq(tx))?;
            Some(vec![(a, Sp::Item), (b, Sp::Item)])
        }, &["unique"]),
        ("two wildcard selectors", |g| {
            let role = *g.s.pick(&[Role::Constructor, Role::Message]);
            let ids = g.f.ids(|i, st| i.role == role && st.last().is_some_and(|p| p.role == Role::Impl));
            if ids.len() < 2 { return None; }
            let k = g.s.below(ids.len() - 1);
            let (a, b) = (ids[k], ids[k + 1]);
            for x in [a, b] {
                let t = ensure_arg(g, x, "selector", Val::Eq("_".into()))?;
                set_val(g, t, Val::Eq("_".into()))?;
            }
            Some(vec![(a, Sp::Item), (b, Sp::Item)])
        }, &["wildcard"]),
        ("v5 wildcard without complement", |g| {
            if !g.v5() { return None; }
            let c = contract(g)?;
            if has_wild(&g.f, c) { return None; }
            let id = free_message(g)?;
            let t = ensure_arg(g, id, "selector", Val::Eq("_".into()))?;
            set_val(g, t, Val::Eq("_".into()))?;
            Some(vec![(c, Sp::Item)])
        }, &["complement"]),
        ("v5 complement without wildcard", |g| {
            if !g.v5() { return None; }
            let c = contract(g)?;
            if has_wild(&g.f, c) { return None; }
            let id = free_message(g)?;
            let t = ensure_arg(g, id, "selector", Val::Eq("@".into()))?;
            set_val(g, t, Val::Eq("@".into()))?;
            Some(vec![(id, Sp::Item)])
        }, &["complement"]),
        ("v5 extra message next to wildcard", |g| {
            if !g.v5() { return None; }
            let c = contract(g)?;
            if !has_wild(&g.f, c) { return None; }
            let w = g.f.ids(|i, _| i.role == Role::Message && matches!(i.ink_arg("selector"), Some(Arg { val: Val::Eq(v), .. }) if v == "_" || v == "@"));
            let p = g.f.parent(*w.first()?)?;
            let m = g.message(Role::Message, None, Some("pub"), true);
            let id = add_to(g, p, m);
            // Any of the messages other than the wildcard may be the one reported.
            let mut out = vec![(id, Sp::Item)];
            out.extend(w.into_iter().map(|i| (i, Sp::Item)));
            Some(out)
        }, &["complement", "wildcard"]),
        ("second contract", |g| {
            let c = contract(g)?;
            let c2 = g.contract();
            let id = add_root(g, c2);
            Some(vec![(id, Sp::Item), (c, Sp::Item)])
        }, &["contract"]),
        ("environment does not resolve", |g| {
            let id = pick_role(g, &[Role::Contract])?;
            let t = ensure_arg(g, id, "env", Val::Eq("a::B".into()))?;
            let v = *g.s.pick(&["crate::MissingEnv", "MissingEnv", "self::MissingEnv"]);
            set_val(g, t, Val::Eq(v.into()))
        }, &["environment"]),
        ("environment without the trait", |g| {
            let id = pick_role(g, &[Role::Contract])?;
            let e = plain_item(g, ENUM);
            let n = e.name.clone();
            let e = add_root(g, e);
            let t = ensure_arg(g, id, "env", Val::Eq("a::B".into()))?;
            let mut sp = set_val(g, t, Val::Eq(format!("crate::{n}")))?;
            sp.push((e, Sp::Item));
            Some(sp)
        }, &["environment"]),
        // --- structs
        ("storage not pub", |g| vis(g, &[Role::Storage]), &["pub"]),
        ("event not pub", |g| vis(g, &[Role::Event, Role::EventV2]), &["pub"]),
        ("trait not pub", |g| vis(g, &[Role::TraitDef, Role::ChainExt]), &["pub"]),
        ("event generics", |g| {
            let id = pick_role(g, &[Role::Event, Role::EventV2])?;
            g.f.with(id, |i| if let Kind::Struct { generics, .. } = &mut i.kind { *generics = Some("<T>".into()) });
            Some(vec![(id, Sp::Generics)])
        }, &["generic"]),
        ("ink attribute in storage", |g| field_attr(g, Role::Storage, "topic", ""), &[]),
        ("ink attribute in storage item", |g| field_attr(g, Role::StorageItem, "topic", ""), &[]),
        ("non-topic ink attribute in event", |g| { let n = *g.s.pick(&["message", "storage", "event", "payable"]); let r = *g.s.pick(&[Role::Event, Role::EventV2]); field_attr(g, r, n, "") }, &[]),
        ("cfg on an event field", |g| { let r = *g.s.pick(&[Role::Event, Role::EventV2]); field_attr(g, r, "", "cfg(feature = \"std\")") }, &["cfg"]),
        ("topic in a plain struct", |g| {
            let c = contract(g)?;
            let mut i = plain_item(g, STRUCT);
            let a = ink1(g, "topic", Val::None);
            let aid = a.id;
            let f = Field { id: g.f.id(), attrs: vec![a], vis: None, name: Some("x".into()), ty: "u8".into() };
            i.kind = Kind::Struct { generics: None, fields: Fields::Named(vec![f]) };
            add_to(g, c, i);
            Some(vec![(aid, Sp::Attr)])
        }, &[]),
        ("anonymous event with signature topic", |g| {
            if !g.v5() { return None; }
            let id = pick_role(g, &[Role::Event, Role::EventV2])?;
            ensure_arg(g, id, "anonymous", Val::None)?;
            ensure_arg(g, id, "signature_topic", Val::Eq(format!("\"{}\"", "1a".repeat(32))))?;
            Some(vec![(id, Sp::Item)])
        }, &["conflict"]),
        // --- impl
        ("unsafe impl", |g| qual(g, &[Role::Impl, Role::TraitImpl], "unsafe"), &["unsafe"]),
        ("default impl", |g| qual(g, &[Role::TraitImpl], "default"), &["default"]),
        ("generic impl", |g| {
            let id = pick_role(g, &[Role::Impl, Role::TraitImpl])?;
            g.f.with(id, |i| if let Kind::Impl { generics, .. } = &mut i.kind { *generics = Some("<T>".into()) });
            Some(vec![(id, Sp::Generics)])
        }, &["generic"]),
        ("generic self type", |g| {
            let id = pick_role(g, &[Role::Impl, Role::TraitImpl])?;
            g.f.with(id, |i| if let Kind::Impl { self_generics, .. } = &mut i.kind { *self_generics = Some("<u8>".into()) });
            Some(vec![(id, Sp::SelfTy)])
        }, &["generic"]),
        ("namespace on a trait impl", |g| {
            let id = pick_role(g, &[Role::TraitImpl])?;
            let a = ink1(g, "namespace", Val::Eq("\"abc\"".into()));
            Some(add_attr(g, id, a, false))
        }, &["namespace"]),
        ("non-pub callable in an inherent impl", |g| {
            let id = free_callable(g)?;
            let v = *g.s.pick(&[None, Some("pub(crate)"), Some("pub(in crate::a)")]);
            g.f.with(id, |i| i.vis = v.map(|s| s.to_string()));
            Some(vec![(id, Sp::Item)])
        }, &["visibility"]),
        ("pub callable in a trait impl", |g| {
            let ids = g.f.ids(|i, st| i.role == Role::Message && st.last().is_some_and(|p| p.role == Role::TraitImpl));
            let id = pick_id(g, ids)?;
            g.f.with(id, |i| i.vis = Some("pub".into()));
            Some(vec![(id, Sp::Item)])
        }, &["visibility"]),
        ("undeclared method in a trait impl", |g| {
            let id = pick_role(g, &[Role::TraitImpl])?;
            let m = if g.s.bool() { g.message(Role::Message, None, None, true) } else { let mut f = plain_item(g, FN); f.vis = None; f };
            let mid = add_to(g, id, m);
            Some(vec![(mid, Sp::Item)])
        }, &["declared"]),
        ("missing trait message", |g| {
            let ids = g.f.ids(|i, _| i.role == Role::TraitImpl && i.children().len() >= 2);
            let id = pick_id(g, ids)?;
            let k = g.f.get(id)?.children().len();
            let j = g.s.below(k);
            g.f.with(id, |i| i.children_mut().map(|c| c.remove(j)));
            Some(vec![(id, Sp::Item)])
        }, &["missing message"]),
        ("trait message parameter mismatch", |g| {
            let id = impl_message(g)?;
            if g.s.bool() || g.f.get(id)?.fun()?.params.is_empty() {
                set_fun(g, id, |f| f.params.push(("extra".into(), "Special".into())))?;
            } else {
                set_fun(g, id, |f| f.params[0].1 = "Special".into())?;
            }
            Some(vec![(id, Sp::Item)])
        }, &["parameter"]),
        ("trait message return mismatch", |g| {
            let id = impl_message(g)?;
            set_fun(g, id, |f| f.ret = if f.ret.is_some() && f.params.len() % 2 == 0 { None } else { Some("Special".into()) })?;
            Some(vec![(id, Sp::Item)])
        }, &["return"]),
        ("trait message receiver mismatch", |g| {
            let id = impl_message(g)?;
            set_fun(g, id, |f| f.recv = Some(if f.recv.as_deref() == Some("&self") { "&mut self".into() } else { "&self".into() }))?;
            Some(vec![(id, Sp::Item)])
        }, &["parameter", "receiver", "self"]),
        ("trait message argument missing", |g| {
            let ids = g.f.ids(|i, st| i.role == Role::Message && st.last().is_some_and(|p| p.role == Role::TraitImpl) && (i.ink_arg("payable").is_some() || i.ink_arg("selector").is_some()));
            let id = pick_id(g, ids)?;
            g.f.with(id, |i| {
                for a in &mut i.attrs { a.args.retain(|x| x.name == "message" || x.name == "default"); }
                i.attrs.retain(|a| !matches!(a.kind, AttrKind::Ink) || !a.args.is_empty());
            });
            Some(vec![(id, Sp::Item)])
        }, &["missing ink! argument"]),
        ("trait message argument not declared", |g| {
            let id = impl_message(g)?;
            let n = if !has_arg(&g.f, id, "payable") { ("payable", Val::None) } else if !has_arg(&g.f, id, "selector") { ("selector", Val::Eq("123456".into())) } else { return None };
            push_arg_any(g, id, n.0, n.1)
        }, &["doesn't have"]),
        ("trait message selector mismatch", |g| {
            let ids = g.f.ids(|i, st| i.role == Role::Message && st.last().is_some_and(|p| p.role == Role::TraitImpl) && i.ink_arg("selector").is_some());
            let id = pick_id(g, ids)?;
            let t = ensure_arg(g, id, "selector", Val::None)?;
            set_val(g, t, Val::Eq("987654".into()))?;
            Some(vec![(id, Sp::Item)])
        }, &["mismatch"]),
        ("trait message without attribute in impl", |g| {
            let ids = g.f.ids(|i, st| i.role == Role::Message && st.last().is_some_and(|p| p.role == Role::TraitImpl && (p.children().len() > 1 || p.ink_arg("impl").is_some())));
            let id = pick_id(g, ids)?;
            g.f.with(id, |i| i.attrs.retain(|a| !a.is_ink()));
            Some(vec![(id, Sp::Item)])
        }, &[]),
        ("non-fn item in a trait impl", |g| {
            let id = pick_role(g, &[Role::TraitImpl])?;
            let k = *g.s.pick(&[CONST, TYPE]);
            let i = plain_item(g, k);
            let mid = add_to(g, id, i);
            Some(vec![(mid, Sp::Item)])
        }, &["can only contain"]),
        // --- functions
        ("constructor with receiver", |g| {
            let id = pick_role(g, &[Role::Constructor])?;
            let r = *g.s.pick(&["&self", "&mut self", "self", "mut self"]);
            set_fun(g, id, |f| f.recv = Some(r.into()))?;
            Some(vec![(id, Sp::Item)])
        }, &["self receiver"]),
        ("constructor without return type", |g| {
            let id = pick_role(g, &[Role::Constructor])?;
            set_fun(g, id, |f| f.ret = None)?;
            Some(vec![(id, Sp::Item)])
        }, &["return type"]),
        ("message without self reference", |g| {
            let id = free_message(g)?;
            let r = *g.s.pick(&[None, Some("self"), Some("mut self")]);
            set_fun(g, id, |f| f.recv = r.map(|s| s.to_string()))?;
            Some(vec![(id, Sp::Item)])
        }, &["self reference"]),
        ("message returns Self", |g| {
            let id = free_message(g)?;
            set_fun(g, id, |f| f.ret = Some("Self".into()))?;
            Some(vec![(id, Sp::RetTy)])
        }, &["must not return"]),
        ("generic function", |g| {
            let ids = fn_ids(g);
            let id = pick_id(g, ids)?;
            let t = *g.s.pick(&["<T>", "<T: Clone>", "<const N: usize>", "<'a, T>"]);
            set_fun(g, id, |f| f.generics = Some(t.into()))?;
            Some(vec![(id, Sp::Generics)])
        }, &["generic"]),
        ("const function", |g| fqual(g, "const"), &["const"]),
        ("async function", |g| fqual(g, "async"), &["async"]),
        ("unsafe function", |g| fqual(g, "unsafe"), &["unsafe"]),
        ("extern function", |g| { let q = *g.s.pick(&["extern", "extern \"C\""]); fqual(g, q) }, &["abi"]),
        ("variadic function", |g| {
            let ids = fn_ids(g);
            let id = pick_id(g, ids)?;
            set_fun(g, id, |f| f.variadic = true)?;
            Some(vec![(id, Sp::Item)])
        }, &["variadic"]),
        // --- traits
        ("unsafe trait", |g| qual(g, &[Role::TraitDef, Role::ChainExt], "unsafe"), &["unsafe"]),
        ("auto trait", |g| qual(g, &[Role::TraitDef, Role::ChainExt], "auto"), &["auto"]),
        ("generic trait", |g| {
            let id = pick_role(g, &[Role::TraitDef, Role::ChainExt])?;
            g.f.with(id, |i| if let Kind::Trait { generics, .. } = &mut i.kind { *generics = Some("<T>".into()) });
            Some(vec![(id, Sp::Generics)])
        }, &["generic"]),
        ("supertraits", |g| {
            let id = pick_role(g, &[Role::TraitDef, Role::ChainExt])?;
            g.f.with(id, |i| if let Kind::Trait { supers, .. } = &mut i.kind { *supers = Some("Sized + Clone".into()) });
            Some(vec![(id, Sp::Supers)])
        }, &["bound", "supertrait", "type"]),
        ("const in a trait", |g| {
            let id = pick_role(g, &[Role::TraitDef, Role::ChainExt])?;
            let mut i = plain_item(g, CONST);
            i.kind = Kind::Const { ty: "u8".into(), val: None };
            let c = add_to(g, id, i);
            Some(vec![(c, Sp::Item)])
        }, &["const"]),
        ("macro in a trait", |g| {
            let id = pick_role(g, &[Role::TraitDef, Role::ChainExt])?;
            let i = g.item(Role::Plain, vec![], None, "", Kind::Raw("some_macro!();".into()));
            let c = add_to(g, id, i);
            Some(vec![(c, Sp::Item)])
        }, &["macro"]),
        ("default implementation in a trait", |g| {
            let id = pick_role(g, &[Role::TraitMessage, Role::ExtFn])?;
            set_fun(g, id, |f| f.body = Some(vec![]))?;
            Some(vec![(id, Sp::Item)])
        }, &["default implementation"]),
        ("associated type in a trait definition", |g| {
            let id = pick_role(g, &[Role::TraitDef])?;
            let mut i = plain_item(g, TYPE);
            i.kind = Kind::TypeAlias { generics: None, bounds: None, ty: None };
            let c = add_to(g, id, i);
            Some(vec![(c, Sp::Item)])
        }, &["associated type"]),
        ("trait definition method without message", |g| {
            let id = pick_role(g, &[Role::TraitDef])?;
            let mut i = plain_item(g, FN);
            i.vis = None;
            if let Kind::Fn(f) = &mut i.kind { f.body = None; f.recv = Some("&self".into()); }
            let c = add_to(g, id, i);
            Some(vec![(c, Sp::Item)])
        }, &["messages"]),
        ("constructor in a trait definition", |g| {
            let id = pick_role(g, &[Role::TraitDef])?;
            let mut i = g.constructor(None, None);
            if let Kind::Fn(f) = &mut i.kind { f.body = None; }
            let c = add_to(g, id, i);
            Some(vec![(c, Sp::Item)])
        }, &[]),
        ("wildcard selector in a trait definition", |g| {
            let id = pick_role(g, &[Role::TraitMessage])?;
            let t = ensure_arg(g, id, "selector", Val::Eq("_".into()))?;
            set_val(g, t, Val::Eq("_".into()))?;
            Some(vec![(id, Sp::Item)])
        }, &["wildcard"]),
        ("empty trait definition", |g| {
            let id = pick_role(g, &[Role::TraitDef])?;
            g.f.with(id, |i| i.children_mut().map(|c| c.clear()));
            Some(vec![(id, Sp::Item)])
        }, &["at least one"]),
        ("trait message without receiver", |g| {
            let id = pick_role(g, &[Role::TraitMessage])?;
            set_fun(g, id, |f| f.recv = None)?;
            Some(vec![(id, Sp::Item)])
        }, &["self reference"]),
        // --- chain extensions
        ("missing ErrorCode", |g| {
            let id = pick_role(g, &[Role::ErrorCode])?;
            let p = g.f.parent(id)?;
            g.f.remove(id);
            Some(vec![(p, Sp::Item)])
        }, &["missing `errorcode`"]),
        ("duplicate ErrorCode", |g| {
            let id = pick_role(g, &[Role::ErrorCode])?;
            let p = g.f.parent(id)?;
            let mut c = g.f.get(id)?.clone();
            c.id = g.f.id();
            let c = add_to(g, p, c);
            Some(vec![(c, Sp::Item), (id, Sp::Item)])
        }, &["duplicate `errorcode`"]),
        ("other associated type in a chain extension", |g| {
            let p = pick_role(g, &[Role::ChainExt])?;
            let mut i = plain_item(g, TYPE);
            i.kind = Kind::TypeAlias { generics: None, bounds: None, ty: Some("u8".into()) };
            let c = add_to(g, p, i);
            Some(vec![(c, Sp::Item)])
        }, &["named `errorcode`"]),
        ("generic ErrorCode", |g| {
            let id = pick_role(g, &[Role::ErrorCode])?;
            g.f.with(id, |i| if let Kind::TypeAlias { generics, .. } = &mut i.kind { *generics = Some("<T>".into()) });
            Some(vec![(id, Sp::Item)])
        }, &["generic"]),
        ("ErrorCode with bounds", |g| {
            let id = pick_role(g, &[Role::ErrorCode])?;
            g.f.with(id, |i| if let Kind::TypeAlias { bounds, .. } = &mut i.kind { *bounds = Some("Clone".into()) });
            Some(vec![(id, Sp::Item)])
        }, &["bound"]),
        ("ErrorCode without default", |g| {
            let id = pick_role(g, &[Role::ErrorCode])?;
            g.f.with(id, |i| if let Kind::TypeAlias { ty, .. } = &mut i.kind { *ty = None });
            Some(vec![(id, Sp::Item)])
        }, &["default type"]),
        ("ErrorCode type without FromStatusCode", |g| {
            let id = pick_role(g, &[Role::ErrorCode])?;
            let ty = match &g.f.get(id)?.kind { Kind::TypeAlias { ty: Some(t), .. } => t.clone(), _ => return None };
            let imps = g.f.ids(|i, _| matches!(&i.kind, Kind::Impl { self_ty, trait_: Some(_), .. } if *self_ty == ty));
            for i in imps { g.f.remove(i); }
            let mut sp = vec![(id, Sp::Item)];
            sp.extend(g.f.ids(|i, _| i.name == ty).into_iter().map(|i| (i, Sp::Item)));
            Some(sp)
        }, &["fromstatuscode"]),
        ("codec type without codec", |g| {
            // The custom type of an extension function or the error code loses its derives.
            let names = g.adts.clone();
            let ids = g.f.ids(|i, _| names.contains(&i.name));
            let mut used = vec![];
            for id in ids {
                let n = g.f.get(id)?.name.clone();
                let users = g.f.ids(|i, _| match &i.kind {
                    Kind::TypeAlias { ty: Some(t), .. } if i.role == Role::ErrorCode => *t == n,
                    Kind::Fn(f) if i.role == Role::ExtFn => f.params.iter().any(|p| lex(&p.1).contains(&n)) || f.ret.as_ref().is_some_and(|r| lex(r).contains(&n)),
                    _ => false,
                });
                if !users.is_empty() { used.push((id, users)); }
            }
            if used.is_empty() { return None; }
            let (id, users) = g.s.pick(&used).clone();
            let what = g.s.below(2);
            g.f.with(id, |i| {
                i.attrs.retain(|a| !matches!(&a.kind, AttrKind::Macro(_)) && !matches!(&a.kind, AttrKind::Raw(r) if r.contains("derive")));
                if what == 1 {
                    i.attrs.push(Attr { id: usize::MAX - id, kind: AttrKind::Raw("derive(Clone, Debug)".into()), args: vec![], parens: false, trailing_comma: false });
                }
            });
            Some(users.into_iter().map(|u| (u, Sp::Item)).chain(std::iter::once((id, Sp::Item))).collect())
        }, &["must implement"]),
        ("chain extension function without id", |g| {
            let p = pick_role(g, &[Role::ChainExt])?;
            let mut i = plain_item(g, FN);
            i.vis = None;
            if let Kind::Fn(f) = &mut i.kind { f.body = None; }
            let c = add_to(g, p, i);
            Some(vec![(c, Sp::Item)])
        }, &["chain extension functions"]),
        ("duplicate extension ids", |g| {
            let ids = g.f.ids(|i, _| i.role == Role::ExtFn);
            let mut by: Vec<(Id, Id)> = vec![];
            for a in &ids { for b in &ids { if a < b && g.f.parent(*a) == g.f.parent(*b) { by.push((*a, *b)); } } }
            if by.is_empty() { return None; }
            let (a, b) = *g.s.pick(&by);
            let n = if g.v5() { "function" } else { "extension" };
            let ta = ensure_arg(g, a, n, Val::None)?;
            let tb = ensure_arg(g, b, n, Val::None)?;
            let v = g.s.below(65536);
            set_val(g, ta, Val::Eq(format!("{v}")))?;
            let t = if g.s.bool() { format!("{v:#x}") } else { format!("{v}") };
            set_val(g, tb, Val::Eq(t))?;
            Some(vec![(a, Sp::Item), (b, Sp::Item)])
        }, &["unique"]),
        ("extension function with receiver", |g| {
            let id = pick_role(g, &[Role::ExtFn])?;
            set_fun(g, id, |f| f.recv = Some("&self".into()))?;
            Some(vec![(id, Sp::Item)])
        }, &["self receiver"]),
        ("Self::ErrorCode in a signature", |g| {
            let id = pick_role(g, &[Role::ExtFn])?;
            set_fun(g, id, |f| f.ret = Some("Result<u8, Self::ErrorCode>".into()))?;
            Some(vec![(id, Sp::Ret)])
        }, &["error code", "errorcode"]),
        ("v5 chain extension without extension id", |g| {
            if !g.v5() { return None; }
            let id = pick_role(g, &[Role::ChainExt])?;
            g.f.with(id, |i| for a in &mut i.attrs { a.args.retain(|x| x.name != "extension"); });
            Some(vec![(id, Sp::Item)])
        }, &["extension"]),
        ("v5 deprecated extension function", |g| {
            if !g.v5() { return None; }
            let id = pick_role(g, &[Role::ExtFn])?;
            g.f.with(id, |i| for a in &mut i.attrs { for x in &mut a.args { if x.name == "function" { x.name = "extension".into(); } } });
            Some(vec![(id, Sp::Item)])
        }, &[]),
        ("v5 deprecated e2e argument", |g| {
            if !g.v5() { return None; }
            let id = pick_role(g, &[Role::E2E])?;
            let n = *g.s.pick(&["additional_contracts", "keep_attr"]);
            push_arg(g, id, n, Val::Eq("\"a\"".into()))
        }, &["deprecated"]),
        // --- version-specific features
        ("v5 macro in v4", |g| {
            if g.v5() { return None; }
            let a = if g.s.bool() { mac(&mut g.f, "ink::event", vec![]) } else { g.scale_derive() };
            wrong_kind(g, a, &[STRUCT], true)
        }, &[]),
        ("v5 argument in v4", |g| {
            if g.v5() { return None; }
            if g.s.bool() {
                let id = pick_role(g, &[Role::Event])?;
                push_arg(g, id, "signature_topic", Val::Eq(format!("\"{}\"", "1a".repeat(32))))
            } else {
                let id = pick_role(g, &[Role::E2E])?;
                let n = arg(&mut g.f, "node", Val::None);
                push_arg(g, id, "backend", Val::Nested(vec![n]))
            }
        }, &[]),
    ]
}

fn in_ink_scope(f: &File, id: Id) -> bool {
    let mut r = false;
    f.walk(|i, st| {
        if i.id == id {
            r = i.role != Role::Plain || st.iter().any(|p| p.role != Role::Plain);
        }
    });
    r
}
fn has_wild(f: &File, contract: Id) -> bool {
    let mut r = false;
    f.walk(|i, st| {
        if i.role == Role::Message && st.iter().any(|p| p.id == contract) && matches!(i.ink_arg("selector"), Some(Arg { val: Val::Eq(v), .. }) if v == "_" || v == "@") {
            r = true;
        }
    });
    r
}
fn nest(g: &mut G, role: Role) -> Option<Vec<(Id, Sp)>> {
    let id = pick_role(g, &[role])?;
    let c = contract(g)?;
    if !in_contract(&g.f, id) {
        return None;
    }
    let e = g.f.remove(id)?;
    let n = g.unique_name("nested");
    let m = g.item(Role::Plain, vec![], None, &n, Kind::Mod(Some(vec![e])));
    add_to(g, c, m);
    Some(vec![(id, Sp::Item)])
}
fn remove_all(g: &mut G, role: Role) -> Option<Vec<(Id, Sp)>> {
    let c = contract(g)?;
    let ids = g.f.ids(|i, st| i.role == role && st.iter().any(|p| p.id == c));
    for i in ids {
        g.f.remove(i);
    }
    // Inherent impls without callables must be annotated.
    let ids = g.f.ids(|i, _| i.role == Role::Impl && !i.children().iter().any(|c| CALLABLES.contains(&c.role)));
    for i in ids {
        g.f.remove(i);
    }
    Some(vec![(c, Sp::Item)])
}
fn vis(g: &mut G, roles: &[Role]) -> Option<Vec<(Id, Sp)>> {
    let id = pick_role(g, roles)?;
    let v = *g.s.pick(&[None, Some("pub(crate)"), Some("pub(super)")]);
    g.f.with(id, |i| i.vis = v.map(|s| s.to_string()));
    Some(vec![(id, Sp::Item)])
}
fn field_attr(g: &mut G, role: Role, arg_name: &str, raw: &str) -> Option<Vec<(Id, Sp)>> {
    let ids = g.f.ids(|i, _| i.role == role && !i.fields().is_empty());
    let id = pick_id(g, ids)?;
    let a = if raw.is_empty() { ink1(g, arg_name, Val::None) } else { raw_attr(&mut g.f, raw) };
    let aid = a.id;
    let n = g.f.get(id)?.fields().len();
    let k = g.s.below(n);
    if !raw.is_empty() || arg_name == "topic" {
        g.f.with(id, |i| i.fields_mut().unwrap()[k].attrs.push(a));
    } else {
        // A second ink! attribute next to a topic would conflict instead.
        g.f.with(id, |i| {
            let f = &mut i.fields_mut().unwrap()[k];
            f.attrs.retain(|a| !a.is_ink());
            f.attrs.push(a);
        });
    }
    Some(vec![(aid, Sp::Attr)])
}
fn impl_message(g: &mut G) -> Option<Id> {
    let ids = g.f.ids(|i, st| i.role == Role::Message && st.last().is_some_and(|p| p.role == Role::TraitImpl));
    pick_id(g, ids)
}
fn fn_ids(g: &mut G) -> Vec<Id> {
    g.f.ids(|i, _| FNS.contains(&i.role))
}
fn fqual(g: &mut G, q: &str) -> Option<Vec<(Id, Sp)>> {
    let ids = fn_ids(g);
    let id = pick_id(g, ids)?;
    set_fun(g, id, |f| f.quals = vec![q.to_string()])?;
    Some(vec![(id, Sp::Item)])
}

/// Injections that leave the file's structure alone, so that further violations keep their meaning.
pub const LOCAL: &[&str] = &[
    "unknown macro", "unknown macro argument", "bad namespace value", "bad bool value", "bad string value", "bad signature topic",
    "bad backend", "duplicate macro argument", "contract macro on a wrong item", "storage on a wrong item", "event on a wrong item",
    "event macro on a wrong item", "impl on a wrong item", "trait definition on a wrong item", "chain extension on a wrong item",
    "storage item on a wrong item", "test on a wrong item", "e2e test on a wrong item", "storage outside a contract",
    "event outside a contract", "message outside an impl", "constructor outside an impl", "storage not pub", "event not pub",
    "trait not pub", "event generics", "ink attribute in storage", "ink attribute in storage item", "cfg on an event field",
    "topic in a plain struct", "unsafe impl", "default impl", "generic impl", "non-pub callable in an inherent impl",
    "const function", "async function", "unsafe function", "extern function", "unsafe trait", "auto trait", "generic trait", "supertraits",
    "const in a trait", "generic ErrorCode", "ErrorCode with bounds", "other associated type in a chain extension", "v5 deprecated e2e argument",
    "v5 macro in v4", "superfluous topic value", "superfluous value",
];

/// Applies one random applicable injection.
pub fn inject(g: &mut G, table: &[Inj]) -> Option<Exp> {
    let start = g.s.below(table.len());
    for k in 0..table.len() {
        let (name, f, needles) = &table[(start + k) % table.len()];
        let before = g.f.clone();
        if let Some(spans) = f(g) {
            return Some(Exp { name, spans, needles });
        }
        g.f = before;
    }
    None
}
