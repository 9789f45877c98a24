//! C21: the entity tree contains every ink! entity of a file exactly once.
use super::util::*;
use crate::core::*;
use crate::gen::*;
use crate::model::*;
use ink_analyzer_ir::ast::{self, HasName};
use ink_analyzer_ir::syntax::{AstNode, SyntaxNode};
use ink_analyzer_ir::{HasInkEnvironment, InkArg, InkEntity, InkFile, IsChainExtensionFn, IsInkCallable, IsInkEvent};

pub static PROP: Prop = Prop {
    id: "C21",
    rule: "a case is a generated file (up to two contracts and chain extensions, entities also in nested plain modules, next to decoys, with split, reordered and oddly laid out attributes) whose parsed entity tree is compared with the generator's model: lists, parents, arguments and values; non-trivial: the file has at least three ink! entities",
    quick: 20000,
    thorough: 500000,
    run,
    fixed: None,
    shrink_evals: 3000,
    assumptions: &["functions with an ink! callable attribute belong to the closest contract, impl or trait definition around them"],
    threads: 8,
};
/// Identifies an item by where its name (or self type, for implementations) starts.
fn at(n: &SyntaxNode) -> usize {
    if let Some(i) = ast::Impl::cast(n.clone()) {
        return i.self_ty().map_or(0, |t| usize::from(t.syntax().text_range().start()));
    }
    if let Some(f) = ast::RecordField::cast(n.clone()) {
        return f.name().map_or(0, |t| usize::from(t.syntax().text_range().start()));
    }
    n.children().find_map(ast::Name::cast).map_or(0, |t| usize::from(t.syntax().text_range().start()))
}
fn model_at(d: &Doc, i: &Item) -> usize {
    match i.kind {
        Kind::Impl { .. } => d.sp(i.id, Sp::SelfTy).unwrap().0,
        _ => d.sp(i.id, Sp::Name).unwrap().0,
    }
}
struct Cx<'a> {
    text: &'a str,
    doc: &'a Doc,
}
impl<'a> Cx<'a> {
    /// Compares a list of entities (in any order) with the items of the model; the pairs.
    fn list<'e, 'm, E: InkEntity>(&self, what: &str, got: &'e [E], want: &[&'m Item]) -> Result<Vec<(&'e E, &'m Item)>, Fail> {
        let mut g: Vec<(usize, &E)> = got.iter().map(|e| (at(e.syntax()), e)).collect();
        let mut w: Vec<(usize, &Item)> = want.iter().map(|i| (model_at(self.doc, i), *i)).collect();
        g.sort_by_key(|x| x.0);
        w.sort_by_key(|x| x.0);
        let gs: Vec<usize> = g.iter().map(|x| x.0).collect();
        let ws: Vec<usize> = w.iter().map(|x| x.0).collect();
        if gs != ws {
            let names = |x: &[usize]| x.iter().map(|o| format!("{}@{o}", self.text[*o..].chars().take(12).collect::<String>())).collect::<Vec<_>>();
            return fail(format!("wrong {what}"), format!("{:?} instead of {:?}", names(&gs), names(&ws)), self.text);
        }
        if got.iter().map(|e| at(e.syntax())).collect::<Vec<_>>() != gs {
            return fail(format!("{what} not in source order"), format!("{gs:?}"), self.text);
        }
        Ok(g.into_iter().map(|x| x.1).zip(w.into_iter().map(|x| x.1)).collect())
    }
    /// Compares an argument with the model.
    fn arg(&self, what: &str, got: Option<InkArg>, want: Option<&Arg>) -> Result<(), Fail> {
        let (g, w) = match (&got, want) {
            (None, None) => return Ok(()),
            (Some(g), Some(w)) => (g, w),
            _ => return fail(format!("argument {what}"), format!("{:?} instead of {want:?}", got.map(|g| g.to_string())), self.text),
        };
        if r(g.text_range()) != self.doc.sp(w.id, Sp::Arg).unwrap() {
            return fail(format!("range of argument {what}"), format!("{:?} instead of {:?}", g.text_range(), self.doc.sp(w.id, Sp::Arg)), self.text);
        }
        if g.name().map(|n| n.to_string()).as_deref() != Some(w.name.as_str()) {
            return fail(format!("name of argument {what}"), format!("{g} for {w:?}"), self.text);
        }
        let Val::Eq(v) = &w.val else {
            if matches!(w.val, Val::None) && g.value().is_some() {
                return fail(format!("value of argument {what}"), format!("{g} for {w:?}"), self.text);
            }
            return Ok(());
        };
        let Some(m) = g.value() else { return fail(format!("no value of argument {what}"), format!("{w:?}"), self.text) };
        let int = int_value(v);
        let bool_ = v.parse::<bool>().ok();
        let string = v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).map(|v| v.to_string());
        let ok = m.as_u32() == int && m.as_bool() == bool_ && m.as_string() == string && m.is_wildcard() == (v == "_") && m.is_at_symbol() == (v == "@");
        let short = m.as_u16() == int.and_then(|i| u16::try_from(i).ok());
        let path_ok = !v.contains("::") || m.as_path_with_inaccurate_text_range().is_some_and(|p| tokens_of(&p.to_string()) == *v);
        if !ok || !short || !path_ok {
            return fail(
                format!("value of argument {what}"),
                format!("`{v}` read as {:?} {:?} {:?} {:?} {}", m.as_u32(), m.as_u16(), m.as_bool(), m.as_string(), m.is_wildcard()),
                self.text,
            );
        }
        Ok(())
    }
}
fn tokens_of(p: &str) -> String {
    tokens(p).concat()
}
/// The value of an integer literal.
pub fn int_value(v: &str) -> Option<u32> {
    let v = v.replace('_', "");
    let v = v.strip_suffix("u32").unwrap_or(&v);
    match v.get(..2) {
        Some("0x") => u32::from_str_radix(&v[2..], 16).ok(),
        Some("0o") => u32::from_str_radix(&v[2..], 8).ok(),
        Some("0b") => u32::from_str_radix(&v[2..], 2).ok(),
        _ => v.parse().ok(),
    }
}
fn wrap(s: &mut Src, f: &mut File, n: &mut usize) {
    // Items of the file or of a contract go into a nested plain module.
    let ids = f.ids(|i, st| {
        (st.is_empty() || st.iter().all(|p| p.role == Role::Contract || (p.role == Role::Plain && matches!(p.kind, Kind::Mod(_)))))
            && !matches!(i.kind, Kind::Use(_) | Kind::Raw(_))
            && i.role != Role::Storage
    });
    if ids.is_empty() {
        return;
    }
    let id = *s.pick(&ids);
    let mid = f.id();
    *n += 1;
    let name = format!("vp_mod{n}");
    if let Some((sib, k)) = f.siblings_mut(id) {
        let it = sib.remove(k);
        sib.insert(k, Item { id: mid, role: Role::Plain, attrs: vec![], vis: None, name, kind: Kind::Mod(Some(vec![it])) });
    }
}
fn callable<E: IsInkCallable>(c: &Cx, pairs: &[(&E, &Item)]) -> Result<(), Fail> {
    for (e, i) in pairs {
        c.arg("payable", e.payable_arg(), i.ink_arg("payable"))?;
        c.arg("default", e.default_arg(), i.ink_arg("default"))?;
        c.arg("selector", e.selector_arg().map(|s| s.arg().clone()), i.ink_arg("selector"))?;
        if let (Some(a), Some(Arg { val: Val::Eq(v), .. })) = (e.selector_arg(), i.ink_arg("selector")) {
            if a.is_wildcard() != (v == "_") || a.as_u32() != int_value(v) || a.is_wildcard_complement() != (v == "@") {
                return fail("selector argument", format!("{v}: {:?}", a.kind()), c.text);
            }
        }
    }
    Ok(())
}
fn run(s: &mut Src) -> Result<Info, Fail> {
    let v5 = s.bool();
    let mut f = {
        let mut g = G::new(s, v5, Opts::default());
        g.file();
        if g.s.chance(1, 5) {
            let c = g.contract();
            g.f.items.push(c);
        }
        if g.s.chance(1, 6) {
            let c = g.chain_ext();
            g.f.items.extend(c);
        }
        g.f
    };
    let mut n = 0;
    for _ in 0..s.below(4) {
        wrap(s, &mut f, &mut n);
    }
    if s.chance(1, 6) {
        // An unknown ink! argument does not hide what an implementation contains.
        let ids = f.ids(|i, _| i.role == Role::Impl && !i.attrs.iter().any(|a| a.is_ink()));
        if !ids.is_empty() {
            let id = *s.pick(&ids);
            let nm = *s.pick(&["xyz", "messages", "my_impl"]);
            let x = arg(&mut f, nm, Val::None);
            let a = ink(&mut f, vec![x]);
            f.with(id, |i| i.attrs.push(a));
        }
    }
    let style = Style::random(s);
    let doc = render(&f, s, &style);
    let text = doc.text.clone();
    set_current(&text);
    let file = InkFile::parse(&text);
    let c = Cx { text: &text, doc: &doc };
    // All items with their role and closest contract.
    let mut all: Vec<(&Item, Option<&Item>)> = vec![];
    f.walk(|i, st| all.push((i, st.iter().rev().find(|p| p.role == Role::Contract).copied())));
    let role = |r: Role| all.iter().filter(|(i, _)| i.role == r).map(|(i, _)| *i).collect::<Vec<_>>();
    let role_in = |r: Role, con: Option<Id>| all.iter().filter(|(i, p)| i.role == r && p.map(|p| p.id) == con).map(|(i, _)| *i).collect::<Vec<_>>();
    let events2 = c.list("events (macro)", file.events_v2(), &role(Role::EventV2))?;
    c.list("file tests", file.tests(), &role_in(Role::Test, None))?;
    c.list("file e2e tests", file.e2e_tests(), &role_in(Role::E2E, None))?;
    for (e, i) in &events2 {
        event(&c, *e, i)?;
    }
    for (e, i) in c.list("trait definitions", file.trait_definitions(), &role(Role::TraitDef))? {
        c.arg("namespace", e.namespace_arg(), i.ink_arg("namespace"))?;
        c.arg("keep_attr", e.keep_attr_arg(), i.ink_arg("keep_attr"))?;
        let want: Vec<&Item> = i.children().iter().filter(|x| x.role == Role::TraitMessage).collect();
        let p = c.list("trait messages", e.messages(), &want)?;
        callable(&c, &p)?;
    }
    for (e, i) in c.list("storage items", file.storage_items(), &role(Role::StorageItem))? {
        c.arg("derive", e.derive_arg(), i.ink_arg("derive"))?;
    }
    for (e, i) in c.list("chain extensions", file.chain_extensions(), &role(Role::ChainExt))? {
        let fns: Vec<&Item> = i.children().iter().filter(|x| x.role == Role::ExtFn).collect();
        let none: Vec<&Item> = vec![];
        if v5 {
            c.arg("extension", e.extension_arg(), i.ink_arg("extension"))?;
            c.list("extensions", e.extensions(), &none)?;
            for (e, i) in c.list("functions", e.functions(), &fns)? {
                c.arg("function", e.id_arg(), i.ink_arg("function"))?;
                c.arg("handle_status", e.handle_status_arg(), i.ink_arg("handle_status"))?;
            }
        } else {
            c.list("functions", e.functions(), &none)?;
            for (e, i) in c.list("extensions", e.extensions(), &fns)? {
                c.arg("extension", e.id_arg(), i.ink_arg("extension"))?;
                c.arg("handle_status", e.handle_status_arg(), i.ink_arg("handle_status"))?;
            }
        }
        let want = i.children().iter().find(|x| x.role == Role::ErrorCode).map(|x| model_at(&doc, x));
        if e.error_code().map(|t| at(t.syntax())) != want {
            return fail("error code", format!("{:?}", e.error_code().map(|e| e.to_string())), text);
        }
    }
    for (e, i) in c.list("contracts", file.contracts(), &role(Role::Contract))? {
        let me = Some(i.id);
        c.arg("env", e.env_arg().map(|a| a.arg().clone()), i.ink_arg("env"))?;
        c.arg("keep_attr", e.keep_attr_arg(), i.ink_arg("keep_attr"))?;
        let st: Vec<_> = e.storage().cloned().into_iter().collect();
        c.list("storage", &st, &role_in(Role::Storage, me))?;
        for (e, i) in c.list("events", e.events(), &role_in(Role::Event, me))? {
            event(&c, e, i)?;
        }
        let p = c.list("constructors", e.constructors(), &role_in(Role::Constructor, me))?;
        callable(&c, &p)?;
        let p = c.list("messages", e.messages(), &role_in(Role::Message, me))?;
        callable(&c, &p)?;
        c.list("tests", e.tests(), &role_in(Role::Test, me))?;
        c.list("e2e tests", e.e2e_tests(), &role_in(Role::E2E, me))?;
        let mut want = role_in(Role::Impl, me);
        want.extend(role_in(Role::TraitImpl, me));
        for (e, i) in c.list("impls", e.impls(), &want)? {
            c.arg("namespace", e.namespace_arg(), i.ink_arg("namespace"))?;
            if e.impl_attr().is_some() != i.ink_arg("impl").is_some() {
                return fail("impl attribute", format!("{:?}", e.impl_attr()), text);
            }
            let kids = |r: Role| i.children().iter().filter(|x| x.role == r).collect::<Vec<_>>();
            c.list("constructors of impl", e.constructors(), &kids(Role::Constructor))?;
            c.list("messages of impl", e.messages(), &kids(Role::Message))?;
            let Kind::Impl { trait_, .. } = &i.kind else { unreachable!() };
            if e.trait_type().map(|t| tokens_of(&t.to_string())) != trait_.as_ref().map(|t| tokens_of(t)) {
                return fail("trait of impl", format!("{:?} instead of {trait_:?}", e.trait_type().map(|t| t.to_string())), text);
            }
            if n == 0 {
                // The trait definition.
                let def = trait_.as_ref().and_then(|t| t.rsplit("::").next().map(|n| n.to_string()));
                let want = def.and_then(|d| all.iter().find(|(i, p)| i.role == Role::TraitDef && p.is_none() && i.name == d)).map(|(i, _)| model_at(&doc, i));
                if e.trait_definition().map(|t| at(t.syntax())) != want {
                    return fail("trait definition of impl", format!("{trait_:?}: {:?}", e.trait_definition().map(|t| t.syntax().to_string())), text);
                }
            }
        }
    }
    let k = all.iter().filter(|(i, _)| !matches!(i.role, Role::Plain | Role::TestMod | Role::Env)).count();
    let mut labels = labels_for(&f);
    if n > 0 {
        labels.push("nested modules".into());
    }
    Ok(Info { nontrivial: k >= 3, key: fnv(text.as_bytes()), labels, sample: clip(&text), evals: k })
}
fn event<E: IsInkEvent>(c: &Cx, e: &E, i: &Item) -> Result<(), Fail> {
    c.arg("anonymous", e.anonymous_arg(), i.ink_arg("anonymous"))?;
    c.arg("signature_topic", e.signature_arg(), i.ink_arg("signature_topic"))?;
    let got: Vec<usize> = e.topics().iter().map(|t| at(t.syntax())).collect();
    let want: Vec<usize> = i
        .fields()
        .iter()
        .filter(|f| f.name.is_some() && f.attrs.iter().any(|a| a.kind == AttrKind::Ink && a.args.iter().any(|a| a.name == "topic")))
        .map(|f| c.doc.sp(f.id, Sp::Name).unwrap().0)
        .collect();
    if got != want {
        return fail("topics", format!("{got:?} instead of {want:?}"), c.text);
    }
    Ok(())
}
