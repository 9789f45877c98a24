//! Own tables of which ink! attribute macros and arguments go where (C10, C11).
use crate::attrs::*;
use crate::core::Src;
use crate::gen::*;
use crate::model::*;
use crate::props::c21::int_value;
use std::collections::BTreeSet;

pub type Set = BTreeSet<String>;
pub fn set(x: &[&str]) -> Set {
    x.iter().map(|x| x.to_string()).collect()
}
pub fn union(a: Set, b: &[&str]) -> Set {
    a.into_iter().chain(b.iter().map(|x| x.to_string())).collect()
}
/// What sort of Rust item carries the attribute.
pub fn sort_of(k: &Kind) -> &'static str {
    match k {
        Kind::Mod(_) => "mod",
        Kind::Struct { .. } => "struct",
        Kind::Enum { .. } => "enum",
        Kind::Union(_) => "union",
        Kind::Impl { .. } => "impl",
        Kind::Fn(_) => "fn",
        Kind::Trait { .. } => "trait",
        Kind::TypeAlias { .. } => "type",
        Kind::Const { .. } => "const",
        Kind::Use(_) => "use",
        Kind::Raw(_) => "raw",
    }
}
/// The arguments of `#[ink(...)]` attributes by sort of item.
pub fn args_for(sort: &str, v5: bool) -> Set {
    let ext = if v5 { "function" } else { "extension" };
    match sort {
        "struct" if v5 => set(&["anonymous", "event", "signature_topic", "storage"]),
        "struct" => set(&["anonymous", "event", "storage"]),
        "field" => set(&["topic"]),
        "fn" => set(&["constructor", "default", ext, "handle_status", "message", "payable", "selector"]),
        "impl" => set(&["impl", "namespace"]),
        _ => set(&[]),
    }
}
pub fn macros_for(sort: &str, v5: bool) -> Set {
    match sort {
        "mod" => set(&["ink::contract"]),
        "trait" => set(&["ink::chain_extension", "ink::trait_definition"]),
        "struct" if v5 => set(&["ink::event", "ink::scale_derive", "ink::storage_item"]),
        "enum" | "union" if v5 => set(&["ink::scale_derive", "ink::storage_item"]),
        "struct" | "enum" | "union" => set(&["ink::storage_item"]),
        "fn" => set(&["ink::test", "ink_e2e::test"]),
        _ => set(&[]),
    }
}
/// The arguments that may go together with an argument (itself included).
pub fn company(name: &str, v5: bool) -> Set {
    match name {
        "event" if v5 => set(&["event", "anonymous", "signature_topic"]),
        "anonymous" => set(&["event", "anonymous"]),
        "signature_topic" => set(&["event", "signature_topic"]),
        "event" => set(&["event", "anonymous"]),
        "constructor" => set(&["constructor", "default", "payable", "selector"]),
        "message" => set(&["message", "default", "payable", "selector"]),
        "default" | "payable" | "selector" => set(&["constructor", "message", "default", "payable", "selector"]),
        "extension" if !v5 => set(&["extension", "handle_status"]),
        "function" if v5 => set(&["function", "handle_status"]),
        "handle_status" => set(&[if v5 { "function" } else { "extension" }, "handle_status"]),
        "impl" | "namespace" => set(&["impl", "namespace"]),
        x => set(&[x]),
    }
}
/// The arguments of an attribute macro.
pub fn macro_args(path: &str, v5: bool) -> Set {
    match path {
        "ink::chain_extension" if v5 => set(&["extension"]),
        "ink::contract" => set(&["env", "keep_attr"]),
        "ink::event" if v5 => set(&["anonymous", "signature_topic"]),
        "ink::scale_derive" if v5 => set(&["Encode", "Decode", "TypeInfo"]),
        "ink::storage_item" => set(&["derive"]),
        "ink::trait_definition" => set(&["keep_attr", "namespace"]),
        "ink_e2e::test" if v5 => set(&["backend", "environment"]),
        "ink_e2e::test" => set(&["additional_contracts", "environment", "keep_attr"]),
        _ => set(&[]),
    }
}
/// The ink! attributes of the nearest enclosing item that has some.
pub fn scope_of<'a>(stack: &[&'a Item]) -> Option<Vec<&'a Attr>> {
    stack.iter().rev().map(|i| i.attrs.iter().filter(|a| a.is_ink()).collect::<Vec<_>>()).find(|v| !v.is_empty())
}
pub fn arg_names(attrs: &[&Attr]) -> Vec<String> {
    attrs.iter().filter(|a| a.kind == AttrKind::Ink).flat_map(|a| &a.args).map(|a| a.name.clone()).collect()
}
pub fn macro_names(attrs: &[&Attr]) -> Vec<String> {
    attrs.iter().filter_map(|a| if let AttrKind::Macro(p) = &a.kind { Some(p.clone()) } else { None }).collect()
}
/// The arguments allowed on items whose nearest enclosing ink! item has the given attributes (None: everything).
pub fn scope_args(scope: &Option<Vec<&Attr>>, v5: bool) -> Option<Set> {
    let scope = scope.as_ref()?;
    let mut out = set(&[]);
    for m in macro_names(scope) {
        let more: &[&str] = match m.as_str() {
            "ink::contract" => &["anonymous", "constructor", "default", "event", "impl", "message", "namespace", "payable", "selector", "storage"],
            "ink::trait_definition" => &["default", "message", "payable", "selector"],
            "ink::chain_extension" if v5 => &["function", "handle_status"],
            "ink::chain_extension" => &["extension", "handle_status"],
            "ink::event" if v5 => &["topic"],
            _ => &[],
        };
        out = union(out, more);
        if m == "ink::contract" && v5 {
            out.insert("signature_topic".into());
        }
    }
    for a in arg_names(scope) {
        let more: &[&str] = match a.as_str() {
            "event" | "anonymous" => &["topic"],
            "signature_topic" if v5 => &["topic"],
            "impl" | "namespace" => &["constructor", "default", "message", "payable", "selector"],
            _ => &[],
        };
        out = union(out, more);
    }
    Some(out)
}
pub fn scope_macros(scope: &Option<Vec<&Attr>>, v5: bool) -> Option<Set> {
    let scope = scope.as_ref()?;
    let mut out = set(&[]);
    for m in macro_names(scope) {
        match m.as_str() {
            "ink::contract" => {
                out = union(out, &["ink::chain_extension", "ink::storage_item", "ink::test", "ink::trait_definition", "ink_e2e::test"]);
                if v5 {
                    out = union(out, &["ink::event", "ink::scale_derive"]);
                }
            }
            "ink::chain_extension" | "ink::trait_definition" | "ink::test" | "ink_e2e::test" if v5 => out = union(out, &["ink::scale_derive"]),
            _ => (),
        }
    }
    for a in arg_names(scope) {
        if v5 && !["storage", "event", "anonymous", "signature_topic"].contains(&a.as_str()) {
            out = union(out, &["ink::scale_derive"]);
        }
    }
    Some(out)
}
/// The arguments that can still be added to an item: own sort, company of all present arguments, scope.
/// `attr`: the attribute they are added to.
pub fn addable(sort: &str, attrs: &[&Attr], attr: &Attr, typed: Option<Id>, scope: &Option<Vec<&Attr>>, v5: bool) -> Set {
    let present: Vec<String> = attrs.iter().flat_map(|a| &a.args).filter(|a| Some(a.id) != typed).map(|a| a.name.clone()).collect();
    let mut out = match &attr.kind {
        AttrKind::Macro(p) => macro_args(p, v5),
        _ => {
            let mut o = args_for(sort, v5);
            for m in macro_names(attrs) {
                let c = macro_args(&m, v5);
                o.retain(|x| c.contains(x));
            }
            for p in arg_names(attrs).iter().filter(|p| ARGS.contains(&p.as_str())) {
                let c = company(p, v5);
                o.retain(|x| c.contains(x));
            }
            if let Some(sc) = scope_args(scope, v5) {
                o.retain(|x| sc.contains(x));
            }
            o
        }
    };
    if present.iter().any(|p| p == "anonymous") {
        out.remove("signature_topic");
    }
    if present.iter().any(|p| p == "signature_topic") {
        out.remove("anonymous");
    }
    out.retain(|x| !present.contains(x));
    out
}
/// A new item of some sort without attributes, added to a random scope: (id, is a field).
pub fn bare(s: &mut Src, f: &mut File) -> Option<(Id, bool)> {
    let id = f.id();
    if s.chance(1, 5) {
        // A field.
        let ids = f.ids(|i, _| matches!(&i.kind, Kind::Struct { fields: Fields::Named(_), .. }));
        if ids.is_empty() {
            return None;
        }
        let p = *s.pick(&ids);
        let at = s.u32() as usize;
        f.with(p, |i| {
            if let Some(v) = i.fields_mut() {
                let k = at % (v.len() + 1);
                v.insert(k, Field { id, attrs: vec![], vis: None, name: Some("vp_new".into()), ty: "u8".into() });
            }
        });
        return Some((id, true));
    }
    let parents = f.ids(|i, _| matches!(&i.kind, Kind::Mod(Some(_)) | Kind::Impl { .. } | Kind::Trait { .. } | Kind::Fn(Fun { body: Some(_), .. })));
    let parent = if parents.is_empty() || s.chance(1, 5) { None } else { Some(*s.pick(&parents)) };
    let pk = parent.map(|p| sort_of(&f.get(p).unwrap().kind));
    let (name, kind): (&str, Kind) = match pk {
        Some("impl") => ("vp_new", Kind::Fn(Fun { recv: if s.bool() { Some("&self".into()) } else { None }, ..fun() })),
        Some("trait") => ("vp_new", Kind::Fn(Fun { recv: Some("&self".into()), body: None, ..fun() })),
        _ => match s.below(9) {
            0 => ("vp_new", Kind::Mod(Some(vec![]))),
            1 => ("VpNew", Kind::Struct { generics: None, fields: Fields::Unit }),
            2 => {
                let fid = f.id();
                ("VpNew", Kind::Struct { generics: None, fields: Fields::Named(vec![Field { id: fid, attrs: vec![], vis: None, name: Some("a".into()), ty: "u8".into() }]) })
            }
            3 => ("VpNew", Kind::Enum { variants: vec!["A".into()] }),
            4 => ("vp_new", Kind::Fn(fun())),
            5 => ("", Kind::Impl { quals: vec![], generics: None, trait_: None, self_ty: "VpOther".into(), self_generics: None, items: vec![] }),
            6 => ("VpNew", Kind::Trait { quals: vec![], generics: None, supers: None, items: vec![] }),
            7 => ("VP_NEW", Kind::Const { ty: "u8".into(), val: Some("1".into()) }),
            _ => ("VpNew", Kind::TypeAlias { generics: None, bounds: None, ty: Some("u8".into()) }),
        },
    };
    let vis = if pk == Some("trait") || name.is_empty() { None } else { *s.pick(&[None, Some("pub"), Some("pub(crate)")]) };
    let item = Item { id, role: Role::Plain, attrs: vec![], vis: vis.map(|x| x.to_string()), name: name.into(), kind };
    let at = s.u32() as usize;
    match parent {
        None => {
            let k = at % (f.items.len() + 1);
            f.items.insert(k, item);
        }
        Some(p) => {
            f.with(p, |i| {
                if let Some(v) = i.children_mut() {
                    let k = at % (v.len() + 1);
                    v.insert(k, item);
                }
            });
        }
    }
    Some((id, false))
}
/// Runs `g` on the attributes of an item or field.
pub fn with_attrs<R>(f: &mut File, id: Id, g: impl FnOnce(&mut Vec<Attr>) -> R) -> Option<R> {
    let mut g = Some(g);
    let mut out = None;
    f.walk_mut(|i| {
        if i.id == id {
            if let Some(g) = g.take() {
                out = Some(g(&mut i.attrs));
            }
        } else if let Some(fd) = i.fields_mut().and_then(|v| v.iter_mut().find(|x| x.id == id)) {
            if let Some(g) = g.take() {
                out = Some(g(&mut fd.attrs));
            }
        }
    });
    out
}
/// (sort, attributes, nearest enclosing ink! attributes, enclosing items)
pub fn context(f: &File, id: Id) -> Option<(&'static str, Vec<Attr>, Option<Vec<Attr>>, Vec<Item>)> {
    let mut out = None;
    f.walk(|i, st| {
        let own = |v: Vec<&Attr>| v.into_iter().cloned().collect::<Vec<_>>();
        if i.id == id {
            out = Some((sort_of(&i.kind), i.attrs.clone(), scope_of(st).map(own), st.iter().map(|x| (*x).clone()).collect()));
        } else if let Some(fd) = i.fields().iter().find(|x| x.id == id) {
            let mut st2 = st.to_vec();
            st2.push(i);
            let sort = if matches!(i.kind, Kind::Struct { fields: Fields::Named(_), .. } | Kind::Union(_)) { "field" } else { "tuple field" };
            out = Some((sort, fd.attrs.clone(), scope_of(&st2).map(own), st2.iter().map(|x| (*x).clone()).collect()));
        }
    });
    out
}
/// Gives the callables and extension functions the smallest ids.
pub fn small_ids(s: &mut Src, f: &mut File) {
    let start = s.below(2) as u32;
    let mut n = std::collections::HashMap::new();
    let of_traits = f.ids(|_, st| st.last().is_some_and(|p| matches!(&p.kind, Kind::Impl { trait_: Some(_), .. })));
    // The selectors of trait messages stay.
    let mut taken = std::collections::HashSet::new();
    f.walk(|i, _| {
        if of_traits.contains(&i.id) {
            if let Some(Arg { val: Val::Eq(v), .. }) = i.ink_arg("selector") {
                taken.extend(int_value(v));
            }
        }
    });
    f.walk_mut(|i| {
        let (role, name) = match i.role {
            _ if of_traits.contains(&i.id) => return,
            Role::Constructor => (0, "selector"),
            Role::Message => (1, "selector"),
            Role::ExtFn => (2, if i.ink_arg("function").is_some() { "function" } else { "extension" }),
            _ => return,
        };
        for a in i.attrs.iter_mut().filter(|a| a.kind == AttrKind::Ink).flat_map(|a| &mut a.args).filter(|a| a.name == name) {
            if matches!(&a.val, Val::Eq(v) if v != "_" && v != "@") {
                let k = n.entry(role).or_insert(start);
                while role < 2 && taken.contains(k) {
                    *k += 1;
                }
                a.val = Val::Eq(k.to_string());
                *k += 1;
            }
        }
    });
}
